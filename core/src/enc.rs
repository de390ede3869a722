//! An independent protobuf / PBF encoder. It shares no code with osmpbf or with the `protobuf`
//! crate and hard-codes the field numbers and wire types of the published OSM PBF schema, so a
//! change of the `.proto` files in the repository shows up as a disagreement.

use std::io::Write;

#[derive(Clone, Default, Debug)]
pub struct W(pub Vec<u8>);

pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn zz32(v: i32) -> u64 {
    (((v << 1) ^ (v >> 31)) as u32) as u64
}

impl W {
    pub fn new() -> W {
        W(vec![])
    }
    pub fn raw_varint(&mut self, mut v: u64) {
        while v >= 0x80 {
            self.0.push((v as u8 & 0x7f) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    /// The same value in up to `extra` more bytes than needed (at most ten in total).
    pub fn raw_varint_long(&mut self, v: u64, extra: usize) {
        let at = self.0.len();
        self.raw_varint(v);
        for _ in 0..extra.min(10 - (self.0.len() - at)) {
            *self.0.last_mut().unwrap() |= 0x80;
            self.0.push(0);
        }
    }
    pub fn uint_long(&mut self, field: u32, v: u64, tag_extra: usize, extra: usize) {
        // tags are 32 bit values: at most five bytes
        self.raw_varint_long((field << 3) as u64, tag_extra.min(4));
        self.raw_varint_long(v, extra);
    }
    pub fn bytes_long(&mut self, field: u32, b: &[u8], tag_extra: usize, extra: usize) {
        self.raw_varint_long(((field << 3) | 2) as u64, tag_extra.min(4));
        // lengths are 32 bit values
        self.raw_varint_long(b.len() as u64, extra.min(4 - (b.len() > 127) as usize));
        self.0.extend_from_slice(b);
    }
    pub fn tag(&mut self, field: u32, wt: u32) {
        self.raw_varint(((field << 3) | wt) as u64);
    }
    pub fn uint(&mut self, field: u32, v: u64) {
        self.tag(field, 0);
        self.raw_varint(v);
    }
    /// int32/int64 (sign extended to 64 bits)
    pub fn int(&mut self, field: u32, v: i64) {
        self.uint(field, v as u64);
    }
    pub fn sint(&mut self, field: u32, v: i64) {
        self.uint(field, zz(v));
    }
    pub fn bytes(&mut self, field: u32, b: &[u8]) {
        self.tag(field, 2);
        self.raw_varint(b.len() as u64);
        self.0.extend_from_slice(b);
    }
    pub fn repeated(&mut self, field: u32, vals: &[u64], packed: bool) {
        if vals.is_empty() {
            return;
        }
        if packed {
            let mut w = W::new();
            for v in vals {
                w.raw_varint(*v);
            }
            self.bytes(field, &w.0);
        } else {
            for v in vals {
                self.uint(field, *v);
            }
        }
    }
}

/// How the content of a blob is stored.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Storage {
    Raw,
    /// raw plus a trailing raw_size field
    RawSizeAfter,
    /// raw_size first, then raw
    RawSizeBefore,
    /// raw_size + zlib, deflate level 0..9
    Zlib(u32),
    /// zlib without raw_size
    ZlibNoSize(u32),
    /// zlib first, raw_size after
    ZlibSizeAfter(u32),
    /// zlib data consisting of many stored blocks of at most n bytes
    ZlibStored(usize),
    /// no field at all (an empty message)
    Nothing,
}

pub fn zlib(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn adler32(data: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for chunk in data.chunks(5552) {
        for &x in chunk {
            a += x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    (b << 16) | a
}

/// zlib container made of stored blocks only, each at most `n` bytes.
pub fn zlib_stored(data: &[u8], n: usize) -> Vec<u8> {
    let n = n.clamp(1, 65535);
    let mut out = vec![0x78, 0x01];
    let mut chunks: Vec<&[u8]> = data.chunks(n).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let last = chunks.len() - 1;
    for (i, c) in chunks.iter().enumerate() {
        out.push((i == last) as u8);
        out.extend_from_slice(&(c.len() as u16).to_le_bytes());
        out.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        out.extend_from_slice(c);
    }
    out.extend_from_slice(&adler32(data).to_be_bytes());
    out
}

/// The serialized `Blob` message.
pub fn blob_msg(content: &[u8], st: Storage) -> Vec<u8> {
    let mut w = W::new();
    match st {
        Storage::Raw => w.bytes(1, content),
        Storage::RawSizeAfter => {
            w.bytes(1, content);
            w.int(2, content.len() as i64);
        }
        Storage::RawSizeBefore => {
            w.int(2, content.len() as i64);
            w.bytes(1, content);
        }
        Storage::Zlib(l) => {
            w.int(2, content.len() as i64);
            w.bytes(3, &zlib(content, l));
        }
        Storage::ZlibNoSize(l) => w.bytes(3, &zlib(content, l)),
        Storage::ZlibSizeAfter(l) => {
            w.bytes(3, &zlib(content, l));
            w.int(2, content.len() as i64);
        }
        Storage::Nothing => {}
        Storage::ZlibStored(n) => {
            w.int(2, content.len() as i64);
            w.bytes(3, &zlib_stored(content, n));
        }
    }
    w.0
}

/// The serialized `BlobHeader` message. `indexdata`: optional padding.
pub fn blob_header(ty: &str, indexdata: Option<&[u8]>, datasize: i64, order: u8) -> Vec<u8> {
    let mut w = W::new();
    // every order of the three fields is legal protobuf
    const ORDERS: [[u8; 3]; 6] = [
        [1, 2, 3],
        [1, 3, 2],
        [2, 1, 3],
        [2, 3, 1],
        [3, 1, 2],
        [3, 2, 1],
    ];
    for f in ORDERS[order as usize % 6] {
        match f {
            1 => w.bytes(1, ty.as_bytes()),
            2 => {
                if let Some(d) = indexdata {
                    w.bytes(2, d)
                }
            }
            _ => w.int(3, datasize),
        }
    }
    w.0
}

/// Length prefix + header + body: one segment of a file.
pub fn segment_raw(header: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = (header.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(header);
    v.extend_from_slice(body);
    v
}

pub fn segment(ty: &str, content: &[u8], st: Storage) -> Vec<u8> {
    let b = blob_msg(content, st);
    segment_raw(&blob_header(ty, None, b.len() as i64, 0), &b)
}
