//! C19–C21 and C23: storage, size limits, arbitrary bytes, files on disk.

use crate::files::*;
use crate::p_blob::*;
use crate::p_elem::*;
use osmpbf::*;
use std::io::{Cursor, ErrorKind as IK, SeekFrom};
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::io::*;
use vcore::model::*;
use vcore::view::{self, err_kind, View};
use vcore::{check, check_eq};

fn storages() -> Vec<Storage> {
    let mut v = vec![Storage::Raw, Storage::RawSizeAfter, Storage::RawSizeBefore];
    v.extend((0..10).map(Storage::Zlib));
    v.extend([Storage::ZlibNoSize(6), Storage::ZlibSizeAfter(6)]);
    v.extend([1usize, 2, 7, 100, 65535].map(Storage::ZlibStored));
    v
}

/// The first blob of `bytes` decoded through each interface.
fn decode_all_ways(bytes: &Arc<Vec<u8>>) -> Vec<(&'static str, Dec)> {
    let mut v = vec![];
    let mut one = |n: &'static str, r: Option<Result<Blob>>| {
        v.push((
            n,
            match r {
                None => Dec::Err("end".into()),
                Some(Err(e)) => Dec::Err(err_kind(&e).into()),
                Some(Ok(b)) => dec_of(b.decode()),
            },
        ))
    };
    one("stream", BlobReader::new(Src::plain(bytes)).next());
    one("stream, short reads", BlobReader::new(Src::new(bytes.clone(), Script { max: 3, ..Default::default() })).next());
    one("seekable", BlobReader::new_seekable(Src::plain(bytes)).ok().map(|mut r| r.blob_from_offset(ByteOffset(0))));
    let m = MemFile::new(bytes);
    let d = match m.mmap() {
        Err(e) => Dec::Err(e),
        Ok(map) => {
            let mut it = map.blob_iter();
            match it.next() {
                None => Dec::Err("end".into()),
                Some(Err(e)) => Dec::Err(err_kind(&e).into()),
                Some(Ok(b)) => {
                    let a = dec_of(b.decode());
                    if dec_of(b.decode()) != a {
                        Dec::Err("decoding the same mapped blob twice differs".into())
                    } else {
                        a
                    }
                }
            }
        }
    };
    v.push(("mmap", d));
    v
}

/// A block with many fields at the top level, so that shortened content still parses.
fn grouped(n: usize) -> MBlock {
    let mut b = dense_block(&[1, 2]);
    for k in 0..n as i64 {
        b.groups.push(way_block(vec![way(k, &[k, 1, 2])]).groups[0].clone());
        b.groups.push(one_node(100 + k).groups[0].clone());
    }
    b.granularity = Some(7);
    b
}

fn contents(th: bool) -> Vec<Content> {
    let mut v: Vec<Content> = vec![Content::Header(std_header()), Content::Data(one_node(5)), Content::Data(grouped(3))];
    v.extend(rich_blocks().into_iter().map(Content::Data));
    v.push(Content::Data(dense_block(&(0..3000).map(|i| i * 7).collect::<Vec<_>>())));
    let mut b = one_node(1);
    b.strings.push((0..200_000u32).map(|i| b'a' + (i % 23) as u8).collect());
    v.push(Content::Data(b));
    v.push(Content::Header(MHeader::default()));
    v.push(Content::Header(MHeader { optional: (0..300).map(|i| format!("feature {i}")).collect(), bbox: Some([1, 2, 3, 4]), ..Default::default() }));
    if th {
        let mut b = one_node(1);
        b.strings.push((0..3_000_000u32).map(|i| b'a' + ((u64::from(i) * u64::from(i)) % 23) as u8).collect());
        v.push(Content::Data(b));
    }
    v
}
fn seg_of(c: &Content, st: Storage) -> Seg {
    Seg { content: c.clone(), st, order: 0, index: None }
}
fn content_bytes(c: &Content) -> Vec<u8> {
    match c {
        Content::Header(h) => h.encode(),
        Content::Data(d) => d.encode(),
        Content::Other(_, c) => c.clone(),
    }
}

/// Different blocks whose encodings agree in length, in the sums over their bytes (so also in the
/// checksum of the compressed data), and in how they begin and end.
fn lookalikes() -> Vec<MBlock> {
    let block = |val: &str, d: [i64; 3]| {
        let ids = [d[0], d[0] + d[1], d[0] + d[1] + d[2]];
        let nodes = ids.iter().map(|i| MDNode { id: *i, lat: 5, lon: 6, tags: vec![(1, 2)], ..Default::default() }).collect();
        let mut b = MBlock { groups: vec![MGroup { dense: Some(MDense { nodes, ..Default::default() }), ..Default::default() }], ..Default::default() };
        b.groups.push(way_block(vec![MWay { id: 7, refs: vec![1, 2], tags: vec![(1, 2)], ..Default::default() }]).groups[0].clone());
        b.strings = strings(&["", "key", val, "outer", "end of the table"]);
        b.granularity = Some(100);
        b
    };
    let v = vec![
        block("xbbbbbbx", [10, 10, 10]),
        block("xc`cbbbx", [10, 10, 10]),
        block("xbbbc`cx", [10, 10, 10]),
        block("xbbbbbbx", [-11, 9, -11]),
    ];
    for b in &v {
        let (b, z) = (b.encode(), v[0].encode());
        let sums = |b: &[u8]| (b.len(), b.iter().fold((1u32, 0u32), |(s, t), x| (s + *x as u32, t + s + *x as u32)));
        assert_eq!(sums(&b), sums(&z), "lookalikes");
    }
    v
}

pub fn c19(lvl: u8) -> Property {
    let th = lvl >= 1;
    let cs = Arc::new(contents(th));
    let sts = storages();
    let (c1, s1) = (cs.clone(), sts.clone());
    let every = scenario(
        "every storage",
        format!("{} contents × {} storages × stream, short reads, seekable, mmap", cs.len(), sts.len()),
        move |c| {
            let i = c.choose("content", c1.len());
            let st = *c.pick("storage", &s1);
            c.observe(&(i, format!("{st:?}")));
            c.state(&(i, format!("{st:?}")));
            let f = lay_out(vec![seg_of(&c1[i], st)]);
            for (n, d) in decode_all_ways(&f.bytes) {
                c.step();
                dec_matches(&d, &c1[i]).map_err(|e| Fail::from(format!("content {i} stored as {st:?}, {n}: {e}")))?;
            }
            Ok(())
        },
    );
    let s2 = sts.clone();
    let ns = if lvl >= 2 { 4 } else { 3 };
    let seqs = scenario(
        "storage sequences",
        format!("every sequence of {ns} blobs out of {} storages; elements through for_each and the indexed reader", sts.len()),
        move |c| {
            let v: Vec<usize> = (0..ns).map(|_| c.choose("storage", s2.len())).collect();
            c.observe(&v);
            c.state(&v);
            let f = lay_out(
                v.iter()
                    .enumerate()
                    .map(|(k, i)| Seg::data(if k == 1 { way_block(vec![way(k as i64, &[1])]) } else { grouped(k) }).st(s2[*i]))
                    .collect(),
            );
            let mut got: Vec<View> = vec![];
            ElementReader::new(Src::plain(&f.bytes))
                .for_each(|e| got.push(view::element(&e)))
                .map_err(|e| Fail::from(format!("for_each: {e}")))?;
            c.steps(got.len());
            let want: Vec<View> = f
                .segs
                .iter()
                .flat_map(|s| if let Content::Data(b) = &s.content { b.views() } else { vec![] })
                .collect();
            check!(got == want, "storages {v:?}: {}", views_diff(&got, &want));
            let mut n = 0;
            let mut r = IndexedReader::new(Src::plain(&f.bytes)).map_err(|e| Fail::from(e.to_string()))?;
            r.for_each_node(|_| n += 1).map_err(|e| Fail::from(format!("for_each_node: {e}")))?;
            let w = want.iter().filter(|v| matches!(v.kind, view::Kind::Node | view::Kind::Dense)).count();
            check_eq!(n, w, "storages {v:?}: nodes through the indexed reader");
            Ok(())
        },
    );
    let alike = Arc::new(lookalikes());
    let nl = if lvl >= 2 { 3 } else { 2 };
    let lookalike = scenario(
        "lookalikes",
        format!("two files of 1..={nl} blobs each out of 4 contents with the same length, byte sums and checksum; 6 storages; read in turns through streams, indexed by offset, or memory mapped; decoded at once, or later in order, or backwards and twice; elements through for_each of both files in turns"),
        move |c| {
            let st = *c.pick("storage", &[Storage::Raw, Storage::RawSizeBefore, Storage::ZlibStored(65535), Storage::Zlib(6), Storage::ZlibNoSize(0), Storage::ZlibStored(9)]);
            let file = |c: &mut Ctx| {
                let n = 1 + c.choose("blobs", nl);
                let v: Vec<usize> = (0..n).map(|_| c.choose("content", alike.len())).collect();
                c.observe(&v);
                lay_out(v.iter().map(|i| Seg::data(alike[*i].clone()).st(st)).collect())
            };
            let fs = [file(c), file(c)];
            let how = c.choose("reader", 4);
            let when = c.choose("decode", 3);
            if how == 3 && when > 0 {
                c.redundant();
                return Ok(());
            }
            c.observe(&(format!("{st:?}"), how, when));
            c.state(&(&fs[0].bytes, &fs[1].bytes, how, when));
            let turns = fs[0].segs.len().max(fs[1].segs.len());
            let order: Vec<(usize, usize)> = (0..turns).flat_map(|i| [(0, i), (1, i)]).filter(|(f, i)| *i < fs[*f].segs.len()).collect();
            if how == 3 {
                for f in [0, 1, 0] {
                    let mut got: Vec<View> = vec![];
                    ElementReader::new(Src::plain(&fs[f].bytes)).for_each(|e| got.push(view::element(&e))).map_err(|e| Fail::from(format!("for_each: {e}")))?;
                    c.steps(got.len());
                    let want: Vec<View> = fs[f].segs.iter().flat_map(|s| if let Content::Data(b) = &s.content { b.views() } else { vec![] }).collect();
                    check!(got == want, "file {f} stored as {st:?}: {}", views_diff(&got, &want));
                }
                return Ok(());
            }
            let mems = [MemFile::new(&fs[0].bytes), MemFile::new(&fs[1].bytes)];
            let maps: Vec<Mmap> = if how == 2 { mems.iter().map(|m| m.mmap().map_err(Fail::from)).collect::<std::result::Result<_, _>>()? } else { vec![] };
            enum B<'a> {
                S(Blob),
                M(MmapBlob<'a>),
            }
            let dec = |b: &B| match b {
                B::S(b) => dec_of(b.decode()),
                B::M(b) => dec_of(b.decode()),
            };
            let mut streams: Vec<_> = fs.iter().map(|f| BlobReader::new_seekable(Src::plain(&f.bytes))).collect::<std::result::Result<_, _>>().map_err(|e| Fail::from(e.to_string()))?;
            let mut maps: Vec<_> = maps.iter().map(|m| m.blob_iter()).collect();
            let mut kept = vec![];
            for (f, i) in &order {
                c.step();
                let b = match how {
                    0 => streams[*f].next().map(|r| r.map(B::S)),
                    1 => Some(streams[*f].blob_from_offset(ByteOffset(fs[*f].off[*i] as u64)).map(B::S)),
                    _ => maps[*f].next().map(|r| r.map(B::M)),
                };
                let Some(Ok(b)) = b else { return fail(format!("file {f}: no blob {i}")) };
                if when == 0 {
                    dec_matches(&dec(&b), &fs[*f].segs[*i].content).map_err(|e| Fail::from(format!("file {f} blob {i} stored as {st:?}: {e}")))?;
                } else {
                    kept.push((*f, *i, b));
                }
            }
            if when == 2 {
                kept.reverse();
            }
            for _ in 0..when {
                for (f, i, b) in &kept {
                    c.step();
                    dec_matches(&dec(b), &fs[*f].segs[*i].content).map_err(|e| Fail::from(format!("kept blob {i} of file {f} stored as {st:?}: {e}")))?;
                }
            }
            Ok(())
        },
    );
    // the stored bytes damaged: an error or the same content, never anything else
    let sizes = scenario(
        "raw_size values",
        "the recorded uncompressed size is absent or any of 14 values, before or after the data, raw or zlib: right content or an error",
        move |c| {
            let cont = if c.flag("header") { Content::Header(std_header()) } else { Content::Data(grouped(2)) };
            let bytes = content_bytes(&cont);
            let n = bytes.len() as i64;
            let rs = *c.pick("raw_size", &[n, n - 1, n + 1, 0, 1, 2, n / 2, 2 * n, 1 << 20, 1 << 24, (1 << 31) - 1, -1, -n, -(1 << 31)]);
            let first = c.flag("size first");
            let z = *c.pick("storage", &[0usize, 1, 2, 3]);
            let mut w = W::new();
            if first {
                w.int(2, rs);
            }
            match z {
                0 => w.bytes(1, &bytes),
                1 => w.bytes(3, &zlib(&bytes, 6)),
                2 => w.bytes(3, &zlib_stored(&bytes, 5)),
                _ => w.bytes(3, &zlib(&bytes, 0)),
            }
            if !first {
                w.int(2, rs);
            }
            c.observe(&w.0);
            c.state(&w.0);
            let ty = seg_of(&cont, Storage::Raw).ty().to_string();
            let file = Arc::new(segment_raw(&blob_header(&ty, None, w.0.len() as i64, 0), &w.0));
            for (i, d) in decode_all_ways(&file) {
                c.step();
                if rs != n && matches!(d, Dec::Err(_)) {
                    continue;
                }
                dec_matches(&d, &cont).map_err(|e| Fail::from(format!("raw_size {rs} (content {n}), {i}: {e}")))?;
            }
            Ok(())
        },
    );
    let deep = lvl >= 2;
    let damage = scenario(
        "damaged compressed data",
        format!("zlib data of two contents in five encodings: every single bit flip{}, every truncation, every deleted byte, every byte doubled, every byte overwritten with 0 or 255: an error or exactly the original content", if deep { ", also together with every bit of the next two bytes" } else { "" }),
        move |c| {
            let cont = if c.flag("header") {
                Content::Header(MHeader { optional: (0..9).map(|i| format!("f{i}")).collect(), ..std_header() })
            } else {
                Content::Data(grouped(4))
            };
            let bytes = content_bytes(&cont);
            let z = match c.choose("encoding", 5) {
                0 => zlib(&bytes, 6),
                1 => zlib(&bytes, 0),
                2 => zlib_stored(&bytes, 5),
                3 => zlib_stored(&bytes, 1),
                _ => zlib(&bytes, 1),
            };
            let i = c.choose("byte", z.len());
            let mut x = z.clone();
            let how = c.choose("damage", 13);
            match how {
                0..=7 => x[i] ^= 1 << how,
                8 => x.truncate(i),
                9 => {
                    x.remove(i);
                }
                10 => x.insert(i, x[i]),
                11 => x[i] = 0,
                _ => x[i] = 255,
            }
            if deep && how < 8 {
                let j = i + 1 + c.choose("second byte", 3);
                if j <= i + 2 && j < x.len() {
                    x[j] ^= 1 << c.choose("second bit", 8);
                }
            }
            let mut w = W::new();
            w.int(2, bytes.len() as i64);
            w.bytes(3, &x);
            c.observe(&w.0);
            c.state(&w.0);
            let ty = seg_of(&cont, Storage::Raw).ty().to_string();
            let file = Arc::new(segment_raw(&blob_header(&ty, None, w.0.len() as i64, 0), &w.0));
            let mut any = None;
            for (n, d) in decode_all_ways(&file) {
                c.step();
                if !matches!(d, Dec::Err(_)) {
                    dec_matches(&d, &cont).map_err(|e| Fail::from(format!("damage {how} at byte {i} of {}, {n}: wrong content reported: {e}", z.len())))?;
                }
                let e = matches!(d, Dec::Err(_));
                check!(any.is_none_or(|a| a == e), "damage {how} at byte {i}: {n} reports an error = {e}, other interfaces differ");
                any = Some(e);
            }
            if how == 8 && i + 4 < z.len() {
                check!(any == Some(true), "zlib data cut at byte {i} of {} is not reported", z.len());
            }
            Ok(())
        },
    );
    let unsup = scenario(
        "other compressions",
        "lzma, bzip2, lz4, zstd or no data field, with plausible or empty payloads, with and without raw_size; header and data blobs: always an error, also through the element readers",
        move |c| {
            let header = c.flag("header");
            let cont = if header { Content::Header(std_header()) } else { Content::Data(one_node(3)) };
            let bytes = content_bytes(&cont);
            let field = *c.pick("field", &[4u32, 5, 6, 7, 0, 99]);
            let payload = match c.choose("payload", 4) {
                0 => vec![],
                1 => bytes.clone(),
                2 => zlib(&bytes, 6),
                _ => b"LZMA".to_vec(),
            };
            let mut w = W::new();
            let size = c.choose("raw_size", 3);
            if size == 1 {
                w.int(2, bytes.len() as i64);
            }
            if field != 0 {
                w.bytes(field, &payload);
            }
            if size == 2 {
                w.int(2, 0);
            }
            c.observe(&(header, &w.0));
            c.state(&(header, &w.0));
            let ty = if header { "OSMHeader" } else { "OSMData" };
            let file = Arc::new(segment_raw(&blob_header(ty, None, w.0.len() as i64, 0), &w.0));
            for (n, d) in decode_all_ways(&file) {
                c.step();
                check!(matches!(d, Dec::Err(_)), "blob without usable data (field {field}), {n}: decoded as {}", trunc(&format!("{d:?}")));
            }
            let mut n = 0;
            check!(ElementReader::new(Src::plain(&file)).for_each(|_| n += 1).is_err(), "for_each succeeds on a blob without usable data");
            check_eq!(n, 0, "elements reported from a blob without usable data");
            Ok(())
        },
    );
    Property { id: "C19", scenarios: vec![every, seqs, lookalike, sizes, damage, unsup], assumptions: vec!["the default decompressor (flate2 with miniz_oxide) is the one built".into()] }
}

// ---------------------------------------------------------------------------------------------

/// A blob header of exactly `n` bytes (n >= 20).
fn header_of_size(ty: &str, datasize: i64, n: usize, order: u8) -> Option<Vec<u8>> {
    let mut pad = n.saturating_sub(blob_header(ty, Some(&[]), datasize, order).len());
    for _ in 0..8 {
        let h = blob_header(ty, Some(&vec![7u8; pad]), datasize, order);
        if h.len() == n {
            return Some(h);
        }
        if h.len() > n {
            pad -= h.len() - n;
        } else {
            return None;
        }
    }
    None
}

const LIM: usize = 65536;
const MSG: usize = 32 << 20;

fn err_is(e: &osmpbf::Error, kind: &str, size: u64) -> bool {
    match e.kind() {
        ErrorKind::Blob(BlobError::HeaderTooBig { size: s }) => kind == "HeaderTooBig" && *s == size,
        ErrorKind::Blob(BlobError::MessageTooBig { size: s }) => kind == "MessageTooBig" && *s == size,
        _ => false,
    }
}

pub fn c20(th: bool) -> Property {
    let mut sizes: Vec<usize> = vec![20, 100, 1000, 32767, 32768, 32769, 65000];
    sizes.extend(LIM - 20..LIM + 20);
    sizes.extend([70000, 131071, 131072, 1 << 20]);
    if th {
        sizes.extend((1000..65500).step_by(251));
    }
    let sz = sizes.clone();
    let heads = scenario(
        "header sizes",
        format!("{} header sizes (all within 20 of the limit) × first or second blob × field order × stream, fragmented stream, skim, seek, mmap", sizes.len()),
        move |c| {
            let n = *c.pick("size", &sz);
            let second = c.flag("second");
            let order = *c.pick("order", &[0u8, 1]);
            let api = c.choose("api", 5);
            let blk = one_node(9);
            let body = blob_msg(&blk.encode(), Storage::Raw);
            let Some(h) = header_of_size("OSMData", body.len() as i64, n, order) else {
                c.redundant();
                return Ok(());
            };
            c.observe(&(n, second, order, api));
            c.state(&(n, second, order));
            let mut file = vec![];
            if second {
                file.extend(segment("OSMData", &one_node(8).encode(), Storage::Zlib(6)));
            }
            let start = file.len() as u64;
            file.extend(segment_raw(&h, &body));
            let file = Arc::new(file);
            let ok = n < LIM;
            // None: accepted
            let res: Result<()> = match api {
                0 | 1 => {
                    let s = Script { max: if api == 1 { 4093 } else { 0 }, ..Default::default() };
                    let mut r = BlobReader::new(Src::new(file.clone(), s));
                    if second {
                        check!(matches!(r.next(), Some(Ok(_))), "first blob");
                    }
                    match r.next() {
                        Some(Ok(b)) => {
                            if ok {
                                dec_matches(&dec_of(b.decode()), &Content::Data(blk))?;
                            }
                            Ok(())
                        }
                        Some(Err(e)) => Err(e),
                        None => return fail("header size: early end"),
                    }
                }
                2 => {
                    let mut r = BlobReader::new_seekable(Src::plain(&file)).map_err(|e| Fail::from(e.to_string()))?;
                    if second {
                        check!(matches!(r.next_header_skip_blob(), Some(Ok(_))), "first blob");
                    }
                    match r.next_header_skip_blob() {
                        Some(x) => x.map(|_| ()),
                        None => return fail("header size: early end"),
                    }
                }
                3 => {
                    let mut r = BlobReader::new_seekable(Src::plain(&file)).map_err(|e| Fail::from(e.to_string()))?;
                    r.blob_from_offset(ByteOffset(start)).map(|_| ())
                }
                _ => {
                    let m = MemFile::new(&file);
                    let map = m.mmap()?;
                    let mut it = map.blob_iter();
                    if second {
                        check!(matches!(it.next(), Some(Ok(_))), "first blob");
                    }
                    match it.next() {
                        Some(Ok(b)) => {
                            if ok {
                                dec_matches(&dec_of(b.decode()), &Content::Data(blk))?;
                            }
                            Ok(())
                        }
                        Some(Err(e)) => Err(e),
                        None => return fail("header size: early end"),
                    }
                }
            };
            c.steps(2);
            match res {
                Ok(()) => check!(ok, "a header of {n} bytes is accepted"),
                Err(e) => {
                    check!(!ok, "a header of {n} bytes is refused: {e}");
                    check!(err_is(&e, "HeaderTooBig", n as u64), "a header of {n} bytes: wrong error {e:?}");
                }
            }
            Ok(())
        },
    );
    let claims = scenario(
        "claimed header sizes",
        "length prefixes of 65536..2^32-1 (all powers of two ±2) followed by 0..40 bytes: HeaderTooBig with the claimed size, whatever follows",
        move |c| {
            let mut v: Vec<u64> = vec![];
            for p in 16..=32 {
                for d in -2i64..=2 {
                    let x = (1i64 << p) + d;
                    if (LIM as i64..1 << 32).contains(&x) {
                        v.push(x as u64);
                    }
                }
            }
            let n = *c.pick("claim", &v);
            let tail = *c.pick("tail", &[0usize, 1, 13, 40]);
            let api = c.choose("api", 4);
            let mut file = (n as u32).to_be_bytes().to_vec();
            file.extend(vec![10u8; tail]);
            let file = Arc::new(file);
            c.observe(&(n, tail, api));
            c.state(&(n, tail));
            let e = match api {
                0 => BlobReader::new(Src::plain(&file)).next().and_then(|r| r.err()),
                1 => BlobReader::new_seekable(Src::plain(&file)).ok().and_then(|mut r| r.next_header_skip_blob()).and_then(|r| r.err()),
                2 => ElementReader::new(Src::plain(&file)).for_each(|_| ()).err(),
                _ => {
                    let m = MemFile::new(&file);
                    let map = m.mmap()?;
                    let r = map.blob_iter().next().and_then(|r| r.err());
                    r
                }
            };
            c.step();
            match e {
                Some(e) => check!(err_is(&e, "HeaderTooBig", n), "claimed header size {n}: wrong error {e:?}"),
                None => return fail(format!("claimed header size {n}: no error")),
            }
            Ok(())
        },
    );
    let content = scenario(
        "content sizes",
        "content of 32 MiB -2..+2 and 40, 64 MiB, stored raw, deflated or as stored blocks, in data and header blobs, with the last field crossing, ending at or starting at the limit; stream, mmap and element readers",
        move |c| {
            let st = *c.pick("storage", &[Storage::Raw, Storage::Zlib(1), Storage::ZlibStored(65535), Storage::ZlibNoSize(1)]);
            let n = *c.pick("size", &[MSG - 1, MSG, MSG + 1, MSG - 2, MSG + 2, 40 << 20, 64 << 20]);
            let header = c.flag("header blob");
            // how much of the content lies behind the big field
            let tail = c.choose("behind", 2) == 1;
            let mut tail_bytes = W::new();
            if tail {
                if header {
                    tail_bytes.bytes(17, b"source");
                } else {
                    tail_bytes.bytes(2, &enc_group(&one_node(3).groups[0], EncOpt::default()));
                }
            }
            // a tail that starts exactly at the limit
            let at_limit = tail && c.flag("tail starts at the limit");
            let total = if at_limit { n + tail_bytes.0.len() } else { n };
            if at_limit && n > MSG + 2 {
                return Ok(());
            }
            c.observe(&(format!("{st:?}"), n, header, tail, at_limit));
            c.state(&(format!("{st:?}"), n, header, tail, at_limit));
            let room = total - tail_bytes.0.len();
            let mut big = room - 10;
            let build = |big: usize| -> Vec<u8> {
                let mut w = W::new();
                if header {
                    w.bytes(16, &vec![b'p'; big]);
                } else {
                    let mut s = W::new();
                    s.bytes(1, &vec![b's'; big]);
                    w.bytes(1, &s.0);
                }
                w.0
            };
            let mut content = build(big);
            for _ in 0..4 {
                if content.len() != room {
                    big = (big as i64 + room as i64 - content.len() as i64) as usize;
                    content = build(big);
                }
            }
            if content.len() != room {
                return internal("cannot build content of the wanted size");
            }
            content.extend(&tail_bytes.0);
            let ty = if header { "OSMHeader" } else { "OSMData" };
            let file = Arc::new(segment(ty, &content, st));
            drop(content);
            let fits = total < MSG;
            let judge = |what: &str, r: Result<BlobDecode>| -> Res {
                match r {
                    Ok(d) => {
                        check!(fits, "{what}: content of {total} bytes is accepted");
                        match d {
                            BlobDecode::OsmHeader(h) => {
                                check_eq!(h.writing_program().map(|s| s.len()), Some(big), "{what}: length of the long field");
                                check_eq!(h.source(), if tail { Some("source") } else { None }, "{what}: field behind it");
                            }
                            BlobDecode::OsmData(b) => {
                                check_eq!(b.raw_stringtable().first().map(|s| s.len()), Some(big), "{what}: length of the long string");
                                check_eq!(b.elements().count(), tail as usize, "{what}: elements behind it");
                            }
                            BlobDecode::Unknown(_) => return fail("unknown"),
                        }
                        Ok(())
                    }
                    Err(e) => {
                        check!(!fits, "{what}: content of {total} bytes is refused: {e}");
                        if st == Storage::Raw {
                            check!(err_is(&e, "MessageTooBig", total as u64), "{what}: content of {total} bytes: wrong error {e:?}");
                        }
                        Ok(())
                    }
                }
            };
            c.steps(3);
            match BlobReader::new(Src::plain(&file)).next() {
                Some(Ok(b)) => judge("stream", b.decode())?,
                Some(Err(e)) => judge("stream", Err(e))?,
                None => return fail("early end"),
            }
            {
                let m = MemFile::new(&file);
                let map = m.mmap()?;
                let b = map.blob_iter().next();
                match b {
                    Some(Ok(b)) => judge("mmap", b.decode())?,
                    Some(Err(e)) => judge("mmap", Err(e))?,
                    None => return fail("early end"),
                }
            }
            let mut k = 0;
            let r = ElementReader::new(Src::plain(&file)).for_each(|_| k += 1);
            check_eq!(r.is_ok(), fits, "for_each on content of {total} bytes succeeds");
            check_eq!(k, if fits && tail && !header { 1 } else { 0 }, "elements through for_each on content of {total} bytes");
            Ok(())
        },
    )
    .hang(120);
    let recorded = scenario(
        "recorded sizes",
        "content of 32 MiB -1..+1 and 40 MiB, raw or compressed, whose recorded size is absent, true, 0, 5, -1, just below the limit or the largest: the true size decides",
        move |c| {
            let z = c.flag("zlib");
            let n = *c.pick("size", &[MSG - 1, MSG, MSG + 1, 40 << 20]);
            let rec = *c.pick("recorded", &[None, Some(n as i64), Some(0), Some(5), Some(-1), Some(MSG as i64 - 1), Some(i32::MAX as i64)]);
            let first = c.flag("recorded size first");
            let api = c.choose("api", 3);
            c.observe(&(z, n, rec, first, api));
            c.state(&(z, n, rec, first));
            c.step();
            let content = {
                let mut w = W::new();
                w.bytes(16, &vec![b'p'; n - 6]);
                w.0
            };
            if content.len() != n {
                return internal("size of the content");
            }
            let mut w = W::new();
            if first {
                rec.iter().for_each(|r| w.int(2, *r));
            }
            if z {
                w.bytes(3, &zlib(&content, 1));
            } else {
                w.bytes(1, &content);
            }
            if !first {
                rec.iter().for_each(|r| w.int(2, *r));
            }
            drop(content);
            let file = Arc::new(segment_raw(&blob_header("OSMHeader", None, w.0.len() as i64, 0), &w.0));
            drop(w);
            let judge = |r: Result<BlobDecode>| -> Res {
                match r {
                    Ok(BlobDecode::OsmHeader(h)) => {
                        check!(n < MSG, "content of {n} bytes with a recorded size of {rec:?} is accepted");
                        check_eq!(h.writing_program().map(|s| s.len()), Some(n - 6), "length of the content");
                        Ok(())
                    }
                    Ok(_) => fail("not a header"),
                    Err(e) => {
                        let honest = rec.is_none() || rec == Some(n as i64);
                        check!(n >= MSG || !honest, "content of {n} bytes is refused: {e}");
                        Ok(())
                    }
                }
            };
            match api {
                0 => match BlobReader::new(Src::plain(&file)).next() {
                    Some(Ok(b)) => judge(b.decode()),
                    Some(Err(e)) => judge(Err(e)),
                    None => fail("no blob"),
                },
                1 => {
                    let m = MemFile::new(&file);
                    let map = m.mmap()?;
                    match map.blob_iter().next() {
                        Some(Ok(b)) => judge(b.decode()),
                        Some(Err(e)) => judge(Err(e)),
                        None => fail("no blob"),
                    }
                }
                _ => {
                    let r = ElementReader::new(Src::plain(&file)).for_each(|_| ());
                    check!(n < MSG || r.is_err(), "for_each accepts content of {n} bytes with a recorded size of {rec:?}");
                    Ok(())
                }
            }
        },
    );
    Property { id: "C20", scenarios: vec![heads, claims, content, recorded], assumptions: vec!["for compressed content beyond the limit only an error is demanded, not which".into()] }
}

// ---------------------------------------------------------------------------------------------

/// Exercise everything on one file; only panics, endless work and memory growth matter here.
/// Relation members are looked at last, so that a known problem there hides nothing else.
/// writes nowhere: formatting is all that counts
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
fn show(x: &dyn std::fmt::Debug) {
    use std::fmt::Write;
    let _ = write!(Nowhere, "{x:?}");
}

/// the first and the last of what an iterator gives, and the iterator itself
fn show_ends<T: std::fmt::Debug, I: Iterator<Item = T> + std::fmt::Debug>(mut it: I) {
    show(&it);
    let mut last = None;
    while let Some(x) = it.next() {
        if last.is_none() {
            show(&x);
            show(&it);
        }
        last = Some(x);
    }
    show(&last);
    show(&it);
}
fn show_block(b: &osmpbf::PrimitiveBlock) {
    show_ends(b.elements());
    show_ends(b.groups());
    // the first and the last group, and their elements
    for g in b.groups().take(1).chain(b.groups().last()) {
        show_ends(g.nodes());
        show_ends(g.dense_nodes());
        show_ends(g.ways());
        show_ends(g.relations());
        if let Some(n) = g.dense_nodes().next() {
            show(&n.info());
            show_ends(n.tags());
            show_ends(n.raw_tags());
        }
        if let Some(n) = g.nodes().next() {
            show(&n.info());
            show_ends(n.tags());
            show_ends(n.raw_tags());
        }
        if let Some(n) = g.ways().next() {
            show(&n.info());
            show_ends(n.refs());
            show(&n.node_locations());
        }
    }
}

fn devour(c: &mut Ctx, bytes: &Arc<Vec<u8>>, apis: u32) -> Res {
    let limit = bytes.len() + 8;
    let mut members = vec![];
    let mut total = 0usize;
    let mut kinds = 0u64;
    let mut eat = |c: &mut Ctx, r: &Result<BlobDecode>| -> Res {
        match r {
            Ok(BlobDecode::OsmHeader(h)) => {
                let _ = head_view(h);
                show(h);
                show(&h.bbox());
            }
            Ok(BlobDecode::OsmData(b)) => {
                let mut n = 0usize;
                if apis & 16 != 0 {
                    show(r);
                    show_block(b);
                }
                for g in b.groups() {
                    for x in g.nodes() {
                        view::node(&x);
                        n += 1 + x.tags().len() + x.raw_tags().len();
                    }
                    for x in g.dense_nodes() {
                        view::dense(&x);
                        n += 1 + x.tags().count();
                    }
                    for x in g.ways() {
                        view::way(&x);
                        n += 1 + x.refs().len();
                    }
                    for x in g.relations() {
                        n += 1 + x.tags().len() + x.raw_tags().len();
                        let i = x.info();
                        let _ = (i.version(), i.milli_timestamp(), i.user().map(|u| u.is_ok()), i.visible(), i.uid(), i.changeset());
                    }
                }
                for (i, s) in b.raw_stringtable().iter().enumerate() {
                    n += 1;
                    let _ = (i, std::str::from_utf8(s).is_ok());
                }
                let mut m = 0;
                b.for_each_element(|_| m += 1);
                check_eq!(b.elements().count(), m, "elements() and for_each_element() count");
                c.steps(n);
                total += n;
                members.push(b.clone());
            }
            Ok(BlobDecode::Unknown(n)) => total += n.len() & 1,
            Err(e) => {
                kinds = kinds.wrapping_mul(11) + hash_of(err_kind(e)) % 11;
                let _ = (format!("{e} {e:?}"), std::error::Error::source(e).map(|s| s.to_string()));
            }
        }
        Ok(())
    };
    // streaming
    let mut k = 0;
    for b in BlobReader::new(Src::plain(bytes)) {
        k += 1;
        check!(k <= limit, "more blobs than bytes");
        match b {
            Ok(b) => {
                let _ = (format!("{:?}", b.get_type()), b.offset());
                show(&b);
                eat(c, &b.decode())?;
                if apis & 1 != 0 {
                    let _ = (b.to_headerblock().is_ok(), b.to_primitiveblock().is_ok());
                }
            }
            Err(e) => eat(c, &Err(e))?,
        }
    }
    if apis & 2 != 0 {
        let map = MemFile::new(bytes).mmap();
        if let Ok(map) = map {
            let mut k = 0;
            let mut it = map.blob_iter();
            show(&map);
            show(&it);
            for b in it.by_ref() {
                k += 1;
                check!(k <= limit, "more mapped blobs than bytes");
                match b {
                    Ok(b) => {
                        let _ = (format!("{:?}", b.get_type()), b.offset());
                        show(&b);
                        eat(c, &b.decode())?
                    }
                    Err(e) => eat(c, &Err(e))?,
                }
            }
        }
    }
    if apis & 4 != 0 {
        if let Ok(mut r) = BlobReader::new_seekable(Src::plain(bytes)) {
            let mut k = 0;
            while let Some(h) = r.next_header_skip_blob() {
                k += 1;
                check!(k <= limit, "more headers than bytes");
                if let Ok((h, o)) = &h {
                    let _ = (format!("{:?}", h.blob_type()), h.get_blob_size(), o);
                    show(h);
                }
            }
            let _ = r.blob_from_offset(ByteOffset(0)).is_ok();
        }
    }
    if apis & 8 != 0 {
        let mut n = 0;
        let _ = ElementReader::new(Src::plain(bytes)).for_each(|_| n += 1);
        if let Ok(mut r) = IndexedReader::new(Src::plain(bytes)) {
            let _ = r.for_each_node(|_| n += 1);
            let _ = r.read_ways_and_deps(|w| w.refs().count() < 99, |_| n += 1);
        }
        total += n;
    }
    c.steps(k);
    c.observe(&(k, total, kinds));
    for b in members {
        for g in b.groups() {
            for r in g.relations() {
                let it = guard(|| r.members().map(|m| (m.member_id, m.role_sid, m.role().is_ok())).count());
                if let Err(p) = it {
                    if p.contains("enum_or_unknown.rs") {
                        return fail_sig("members-unknown-type", format!("Relation::members(): {p}"));
                    }
                    return fail_sig(format!("members:{}", p.replace(' ', "_")), format!("Relation::members(): {p}"));
                }
            }
        }
    }
    Ok(())
}

fn victim(kind: usize) -> Pbf {
    match kind {
        0 => lay_out(vec![Seg::header(MHeader { bbox: Some([1, -2, 3, -4]), repl_seq: Some(4), ..std_header() }), Seg::data(rich_blocks()[0].clone())]),
        1 => lay_out(vec![Seg::data(dense_block(&[5, 6])).st(Storage::Zlib(6)), Seg::data(rel_block(&[1, 2])).index(3), Seg::other("X", b"abc")]),
        _ => lay_out(vec![Seg::data(grouped(2)).st(Storage::ZlibStored(30)).order(5), Seg::data(rich_blocks()[1].clone()).st(Storage::RawSizeAfter)]),
    }
}

pub fn c21(th: bool) -> Property {
    let cap = 400 << 20;
    let short = scenario(
        "short files",
        format!("every file of 0..=2 bytes, every file of 3..={} bytes over 10 byte values", if th { 7 } else { 6 }),
        move |c| {
            let n = c.choose("length", if th { 8 } else { 7 });
            const B: [u8; 10] = [0, 1, 10, 255, 2, 18, 24, 128, 127, 8];
            let f: Vec<u8> = (0..n).map(|_| if n <= 2 { c.choose("byte", 256) as u8 } else { *c.pick("byte", &B) }).collect();
            c.state(&f);
            devour(c, &Arc::new(f), if n < 5 { 31 } else { 5 })
        },
    )
    .cap(cap);
    // a valid length prefix and everything that can be said in a few header bytes
    let heads = scenario(
        "short headers",
        "a correct length prefix, header bytes: every sequence of up to 5 over 12 values, followed by a small body",
        move |c| {
            let n = c.choose("length", 6);
            const B: [u8; 12] = [10, 0, 1, 24, 255, 127, 128, 18, 2, 26, 34, 13];
            let h: Vec<u8> = (0..n).map(|_| *c.pick("byte", &B)).collect();
            let mut f = (n as u32).to_be_bytes().to_vec();
            f.extend(&h);
            f.extend([10, 2, 8, 1, 0, 0, 0, 0]);
            c.state(&f);
            devour(c, &Arc::new(f), 15 & if n == 5 { 5 } else { 15 })
        },
    )
    .cap(cap);
    let bytes = scenario(
        "single byte damage",
        "three rich files: every byte replaced by every value, deleted, doubled, or followed by one of 6 values; every two-byte swap with the neighbour; every cut",
        move |c| {
            let f = victim(c.choose("file", 3));
            let i = c.choose("position", f.bytes.len());
            let mut x = (*f.bytes).clone();
            let damage = c.choose("damage", 5);
            let mut all = 15;
            match damage {
                0 => {
                    x[i] = c.choose("value", 256) as u8;
                    if [0, 1, 2, 127, 128, 255].contains(&x[i]) {
                        all |= 16;
                    }
                }
                1 => {
                    x.remove(i);
                }
                2 => x.insert(i, *c.pick("inserted", &[0u8, 1, 127, 128, 255, 10])),
                3 => {
                    let j = (i + 1) % x.len();
                    x.swap(i, j)
                }
                _ => x.truncate(i),
            }
            c.state(&x);
            devour(c, &Arc::new(x), all)
        },
    )
    .cap(cap);
    // damage behind a consistent envelope
    let blocks: Arc<Vec<(MBlock, Vec<u8>, Vec<Site>)>> = Arc::new(
        rich_blocks()
            .into_iter()
            .map(|b| {
                let e = b.encode();
                let s = wire_sites(&e);
                (b, e, s)
            })
            .collect(),
    );
    let b1 = blocks.clone();
    let fields = scenario(
        "field values",
        "7 blocks: every field at every nesting level replaced: varints by 15 edge values, bytes and messages by 8 payloads, every column element by 15 edge values, removed, duplicated, retagged to every field number 1..24 and wire type",
        move |c| {
            let (_, e, sites) = &b1[c.choose("block", b1.len())];
            if sites.is_empty() {
                return Ok(());
            }
            let s = &sites[c.choose("field", sites.len())];
            let (t, vs, end) = s.field;
            const V: [u64; 15] = [0, 1, 2, 3, 127, 128, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX, u64::MAX - 1, 0xFFFF_FFFF_8000_0000];
            let new = match c.choose("change", 5) {
                0 => {
                    let mut w = W::new();
                    if s.wt == 0 {
                        w.uint(s.num, *c.pick("value", &V));
                    } else {
                        let p: &[u8] = c.pick("payload", &[&b""[..], b"\0", b"\x01", b"\xff", b"\x80\x80\x80", b"\x08\x01", b"\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", b"\x0a\xff\xff\xff\xff\x07"]);
                        w.bytes(s.num, p);
                    }
                    w.0
                }
                1 => {
                    if !is_packed(s) {
                        c.redundant();
                        return Ok(());
                    }
                    let mut at = vec![];
                    let mut p = vs;
                    while p < end {
                        let q = p;
                        varint(e, &mut p);
                        at.push((q, p));
                    }
                    let (a, z) = at[c.choose("element", at.len())];
                    let mut col = e[vs..a].to_vec();
                    let mut w = W::new();
                    w.raw_varint(*c.pick("value", &V));
                    col.extend(w.0);
                    col.extend(&e[z..end]);
                    let mut w = W::new();
                    w.bytes(s.num, &col);
                    w.0
                }
                2 => vec![],
                3 => [&e[t..end], &e[t..end]].concat(),
                _ => {
                    let mut w = W::new();
                    w.tag(1 + c.choose("number", 24) as u32, c.choose("wire type", 8) as u32);
                    if s.wt == 2 {
                        w.raw_varint((end - vs) as u64);
                    }
                    w.0.extend(&e[vs..end]);
                    w.0
                }
            };
            let x = splice(e, s, &new);
            let st = if c.flag("zlib") { Storage::Zlib(1) } else { Storage::Raw };
            c.state(&x);
            devour(c, &Arc::new(segment("OSMData", &x, st)), 8 + 16)
        },
    )
    .cap(cap);
    // two damaged columns at once, consistent envelope
    let b2 = blocks.clone();
    let pairs = scenario(
        "pairs of columns",
        "2 blocks: every pair of fields, each emptied, cut to its first element, extended by an element, or removed",
        move |c| {
            let (_, e, sites) = &b2[c.choose("block", if th { 3 } else { 2 })];
            let i = c.choose("first", sites.len());
            let j = c.choose("second", sites.len());
            if j <= i || sites[j].field.0 < sites[i].field.2 {
                c.redundant();
                return Ok(());
            }
            let ch = |c: &mut Ctx, s: &Site| -> Vec<u8> {
                let (t, vs, end) = s.field;
                let mut w = W::new();
                match c.choose("change", if is_packed(s) { 6 } else { 2 }) {
                    0 => {}
                    1 => return [&e[t..end], &e[t..end]].concat(),
                    2 => w.bytes(s.num, &[]),
                    3 => {
                        let mut p = vs;
                        varint(e, &mut p);
                        w.bytes(s.num, &e[vs..p]);
                    }
                    4 => w.bytes(s.num, &[&e[vs..end], &[2u8][..]].concat()),
                    _ => w.bytes(s.num, &[&[255u8, 255, 255, 255, 255, 255, 255, 255, 255, 1][..], &e[vs..end]].concat()),
                }
                w.0
            };
            // later one first: positions of the earlier stay valid only if enclosing lengths keep
            // their width, so rebuild the site list
            let x = splice(e, &sites[j], &ch(c, &sites[j]));
            let again = wire_sites_lenient(&x);
            let Some(s) = again.get(i) else {
                c.redundant();
                return Ok(());
            };
            let y = {
                let (t, vs, end) = s.field;
                let mut w = W::new();
                match c.choose("change first", if is_packed(s) { 5 } else { 2 }) {
                    0 => {}
                    1 => w.0 = [&x[t..end], &x[t..end]].concat(),
                    2 => w.bytes(s.num, &[]),
                    3 => {
                        let mut p = vs;
                        if p < end {
                            varint(&x, &mut p);
                        }
                        w.bytes(s.num, &x[vs..p]);
                    }
                    _ => w.bytes(s.num, &[&x[vs..end], &[3u8][..]].concat()),
                }
                splice(&x, s, &w.0)
            };
            c.state(&y);
            devour(c, &Arc::new(segment("OSMData", &y, Storage::Raw)), 16)
        },
    )
    .cap(cap);
    let dense = scenario(
        "dense columns",
        "a dense group whose 10 columns have lengths 0, 1, 2 or 3 independently (all combinations with at most 3 columns deviating from 2), three delta patterns",
        move |c| {
            let vals: &[i64] = c.pick("values", &[&[1i64, 2, 3][..], &[i64::MAX, i64::MAX, i64::MAX], &[i64::MIN, -1, i64::MIN]]);
            let mut dev = 0;
            let mut len = |c: &mut Ctx| {
                if dev == 3 {
                    return 2;
                }
                let l = [2usize, 0, 1, 3][c.choose("column length", 4)];
                if l != 2 {
                    dev += 1;
                }
                l
            };
            let mut d = W::new();
            let mut i = W::new();
            let col = |n: usize| -> Vec<u64> { (0..n).map(|k| zz(vals[k])).collect() };
            for f in [1u32, 8, 9] {
                let n = len(c);
                d.repeated(f, &col(n), true);
            }
            for f in 1..=6u32 {
                let n = len(c);
                let v: Vec<u64> = if f == 1 || f == 6 { (0..n).map(|k| vals[k] as u64).collect() } else { col(n) };
                i.repeated(f, &v, true);
            }
            let n = len(c);
            let kv = [&[1u64, 2, 0, 0][..], &[], &[1], &[1, 2, 1, 1, 0, 3, 0]][[2, 0, 1, 3].iter().position(|x| *x == n).unwrap_or(0)];
            d.repeated(10, kv, true);
            if !c.flag("no info") {
                d.bytes(5, &i.0);
            }
            let mut g = W::new();
            g.bytes(2, &d.0);
            let mut b = W::new();
            let mut st = W::new();
            for s in ["", "k", "v"] {
                st.bytes(1, s.as_bytes());
            }
            b.bytes(1, &st.0);
            b.bytes(2, &g.0);
            c.state(&b.0);
            devour(c, &Arc::new(segment("OSMData", &b.0, Storage::Raw)), 8 + 16)
        },
    )
    .cap(cap);
    let kv = scenario(
        "tag columns",
        "every dense keys_vals column of length 0..=6 over 6 values with 0..3 nodes; every keys and vals column of a way of length 0..=3 over 5 values",
        move |c| {
            let mut b = W::new();
            let mut st = W::new();
            for s in ["", "k", "v"] {
                st.bytes(1, s.as_bytes());
            }
            b.bytes(1, &st.0);
            let mut g = W::new();
            if c.flag("way") {
                let mut w = W::new();
                w.int(1, 5);
                for f in [2u32, 3] {
                    let n = c.choose("length", 4);
                    let v: Vec<u64> = (0..n).map(|_| *c.pick("value", &[0u64, 1, 3, u32::MAX as u64, 1 << 31])).collect();
                    w.repeated(f, &v, true);
                }
                g.bytes(3, &w.0);
            } else {
                let n = c.choose("length", if th { 8 } else { 7 });
                let v: Vec<u64> = (0..n).map(|_| *c.pick("value", &[0u64, 1, 2, 3, u64::MAX, i32::MIN as i64 as u64])).collect();
                let k = c.choose("nodes", 4);
                let mut d = W::new();
                for f in [1u32, 8, 9] {
                    d.repeated(f, &vec![2; k], true);
                }
                d.repeated(10, &v, true);
                g.bytes(2, &d.0);
            }
            b.bytes(2, &g.0);
            c.state(&b.0);
            devour(c, &Arc::new(segment("OSMData", &b.0, Storage::Raw)), 16)
        },
    )
    .cap(cap);
    let scalars = scenario(
        "block parameters",
        "granularity, date granularity and both offsets from 9 edge values each × element coordinates, timestamps, versions and ids from 6 edge values",
        move |c| {
            const E: [i64; 9] = [0, 1, -1, 100, i32::MAX as i64, i32::MIN as i64, i64::MAX, i64::MIN, 1 << 40];
            let v = *c.pick("value", &[i64::MAX, i64::MIN, -1, 1 << 33, i32::MIN as i64, i32::MAX as i64]);
            let mut d = dense_block(&[v, v.wrapping_mul(3)]);
            d.groups.extend(rel_block(&[v]).groups);
            let mut w = way(v, &[v, 0, v]);
            w.locs = Some(vec![(v, v), (0, v), (v, 0)]);
            w.info = Some(MInfo { timestamp: Some(v), version: Some(v as i32), ..Default::default() });
            d.groups.push(way_block(vec![w]).groups[0].clone());
            let x = d.groups[0].dense.as_mut().expect("dense");
            x.has_info = true;
            for n in &mut x.nodes {
                n.info = MDInfo { timestamp: v, changeset: v, uid: v as i32, user_sid: v as i32, version: v as i32, visible: true };
            }
            let mut e = W(d.encode());
            for f in [17u32, 18, 19, 20] {
                e.int(f, *c.pick("parameter", &E));
            }
            c.state(&e.0);
            devour(c, &Arc::new(segment("OSMData", &e.0, Storage::Raw)), 16)
        },
    )
    .cap(cap);
    Property {
        id: "C21",
        scenarios: vec![short, heads, bytes, fields, pairs, dense, kv, scalars],
        assumptions: vec!["arithmetic overflow checks are enabled in the checked build, as in a debug build".into()],
    }
}

fn wire_sites_lenient(b: &[u8]) -> Vec<Site> {
    guard(|| wire_sites(b)).unwrap_or_default()
}

// ---------------------------------------------------------------------------------------------

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let k = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("vp-osmpbf-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[cfg(target_os = "linux")]
extern "C" {
    fn unshare(flags: i32) -> i32;
}
/// The current directory of this thread alone, put back at the end.
#[cfg(unix)]
struct Within(std::path::PathBuf);
#[cfg(unix)]
impl Within {
    fn dir(d: &std::path::Path) -> Option<Within> {
        #[cfg(target_os = "linux")]
        if unsafe { unshare(0x200) } == 0 {
            // CLONE_FS: no other thread moves along
            let old = std::env::current_dir().ok()?;
            std::env::set_current_dir(d).ok()?;
            return Some(Within(old));
        }
        let _ = d;
        None
    }
}
#[cfg(unix)]
impl Drop for Within {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}
/// names somebody could give a meaning of their own
#[cfg(unix)]
const NAMES: [&str; 34] = [
    "data.osm.gz", "~", "-", " x ", "%41.osm", "PLANET.OSM.PBF", "x", "stdin", "0", "a:b", "file:x", "http:x", "C:x.pbf", "@x", "$HOME", "*.pbf", "a\\b", "a?b#c", "x.pbf.", ".pbf", "--help", "x.osm.bz2",
    "x.osm.pbf.zst", "x.xml", "x.o5m", "x.tmp", "x.part", "NUL", "con", "..pbf", "x\ny", "[x]", "{a,b}", "|x",
];

/// (blobs as (type, offset, content), ended by an error)
#[cfg(unix)]
fn story<R: std::io::Read + Send>(r: Result<BlobReader<R>>) -> Vec<(String, u64, Dec)> {
    let Ok(mut r) = r else { return vec![("open error".into(), 0, Dec::Err("".into()))] };
    let mut v = vec![];
    while let Some(x) = r.next() {
        match x {
            Ok(b) => v.push((ty_name(&b.get_type()), b.offset().map_or(u64::MAX, |o| o.0), dec_of(b.decode()))),
            Err(e) => {
                v.push(("error".into(), 0, Dec::Err(err_kind(&e).into())));
            }
        }
        if v.len() > 5000 {
            break;
        }
    }
    v
}

#[cfg(target_os = "linux")]
extern "C" {
    fn setfsuid(uid: u32) -> i32;
    fn setfsgid(gid: u32) -> i32;
}
/// This thread alone opens files as nobody until this is dropped.
#[cfg(unix)]
struct Nobody;
#[cfg(unix)]
impl Nobody {
    fn now() -> Option<Nobody> {
        #[cfg(target_os = "linux")]
        unsafe {
            let n = Nobody;
            setfsgid(65534);
            setfsuid(65534);
            if setfsuid(u32::MAX) == 65534 {
                return Some(n);
            }
        }
        None
    }
}
#[cfg(unix)]
impl Drop for Nobody {
    fn drop(&mut self) {
        #[cfg(target_os = "linux")]
        unsafe {
            setfsuid(0);
            setfsgid(0);
        }
    }
}

#[cfg(unix)]
fn index_story<R: std::io::Read + std::io::Seek + Send>(mut r: IndexedReader<R>) -> (bool, Vec<(u8, i64)>) {
    let mut v = vec![];
    let ok = r.for_each_node(|e| v.push(ident(&e))).and_then(|_| r.read_ways_and_deps(|_| true, |e| v.push(ident(e)))).is_ok();
    (ok, v)
}

/// A reader that has its file open.
#[cfg(unix)]
enum Opened {
    B(BlobReader<std::io::BufReader<std::fs::File>>),
    E(ElementReader<std::io::BufReader<std::fs::File>>),
    P(ElementReader<std::io::BufReader<std::fs::File>>),
    I(IndexedReader<std::fs::File>),
    M(Mmap),
}
#[cfg(unix)]
const OPENERS: [&str; 7] = ["BlobReader::from_path", "BlobReader::seekable_from_path", "ElementReader::from_path", "ElementReader::from_path, in parallel", "IndexedReader::from_path", "Mmap::from_path", "Mmap::from_file"];
#[cfg(unix)]
impl Opened {
    fn by(api: usize, p: &std::path::Path) -> Result<Opened> {
        Ok(match api {
            0 => Opened::B(BlobReader::from_path(p)?),
            1 => Opened::B(BlobReader::seekable_from_path(p)?),
            2 => Opened::E(ElementReader::from_path(p)?),
            3 => Opened::P(ElementReader::from_path(p)?),
            4 => Opened::I(IndexedReader::from_path(p)?),
            5 => Opened::M(unsafe { Mmap::from_path(p)? }),
            _ => Opened::M(unsafe { Mmap::from_file(&std::fs::File::open(p).map_err(Error::from)?)? }),
        })
    }
    /// the elements (sorted), without an error?
    fn read(self) -> (bool, Vec<(u8, i64)>) {
        let mut v = vec![];
        let ok = match self {
            Opened::B(r) => r.map(|b| b?.decode().map(|d| if let BlobDecode::OsmData(k) = d { k.for_each_element(|e| v.push(ident(&e))) })).collect::<Result<()>>().is_ok(),
            Opened::E(r) => r.for_each(|e| v.push(ident(&e))).is_ok(),
            Opened::P(r) => {
                let x = r.par_map_reduce(
                    |e| vec![ident(&e)],
                    Vec::new,
                    |mut a, b| {
                        a.extend(b);
                        a
                    },
                );
                let ok = x.is_ok();
                v = x.unwrap_or_default();
                ok
            }
            Opened::I(mut r) => r.for_each_node(|e| v.push(ident(&e))).and_then(|_| r.read_ways_and_deps(|_| true, |e| v.push(ident(e)))).is_ok(),
            Opened::M(m) => m.blob_iter().map(|b| b?.decode().map(|d| if let BlobDecode::OsmData(k) = d { k.for_each_element(|e| v.push(ident(&e))) })).collect::<Result<()>>().is_ok(),
        };
        v.sort();
        (ok, v)
    }
    /// what `read` reports for these bytes
    fn expect(api: usize, b: &[u8]) -> (bool, Vec<(u8, i64)>) {
        let mut v = vec![];
        let m = Cursor::new(b.to_vec());
        let ok = match api {
            4 => IndexedReader::new(m).and_then(|mut r| r.for_each_node(|e| v.push(ident(&e))).and_then(|_| r.read_ways_and_deps(|_| true, |e| v.push(ident(e))))).is_ok(),
            _ => ElementReader::new(m).for_each(|e| v.push(ident(&e))).is_ok(),
        };
        if api == 3 && !ok {
            v.clear();
        }
        v.sort();
        (ok, v)
    }
}
/// Descriptors and mappings of this process that lead to files in the directory.
#[cfg(unix)]
fn held(d: &std::path::Path) -> Vec<String> {
    let mut v = vec![];
    if let Ok(r) = std::fs::read_dir("/proc/self/fd") {
        v.extend(r.flatten().filter_map(|e| std::fs::read_link(e.path()).ok()).filter(|p| p.starts_with(d)).map(|p| format!("descriptor of {p:?}")));
    }
    if let Ok(m) = std::fs::read_to_string("/proc/self/maps") {
        let d = format!("{}/", d.display());
        v.extend(m.lines().filter(|l| l.contains(&d)).map(|l| format!("mapping {l}")));
    }
    v
}

#[cfg(unix)]
pub fn c23(th: bool) -> Property {
    let alpha = seg_alphabet(true);
    let mut files: Vec<Pbf> = tricky_files().into_iter().map(|x| x.1).collect();
    files.push(lay_out(alpha.clone()));
    // bigger than any usual buffer, blobs straddling 8 KiB boundaries
    files.push(lay_out(
        (0..40i64)
            .map(|k| {
                let ids: Vec<i64> = (0..40 + k * 13).map(|i| i * 1_000_003 + k).collect();
                Seg::data(dense_block(&ids)).st(if k % 3 == 0 { Storage::Zlib(6) } else { Storage::Raw }).index(k as usize * 7)
            })
            .collect(),
    ));
    let files = Arc::new(files);
    let f1 = files.clone();
    let same = scenario(
        "same as in memory",
        format!("{} files, cut at 12 places or complete, on a real file system path ({} kinds of path: absolute, relative, links, chains of links, through linked directories and back, deep, by descriptor, {} unusual names and endings given absolutely or alone): stream, seekable stream, element reader, indexed reader, mmap from path and from file agree with a reader over the bytes", files.len(), 14 + NAMES.len(), NAMES.len()),
        move |c| {
            let fi = c.choose("file", f1.len());
            let f = &f1[fi];
            let n = f.bytes.len();
            let cut = match c.choose("cut", 13) {
                0 => n,
                k => n * k / 13 + k % 3,
            }
            .min(n);
            let kind = c.choose("path", 14 + NAMES.len());
            let relative = if kind == 6 || kind > 13 { c.flag("relative") } else { false };
            c.observe(&(fi, cut, kind, relative));
            c.state(&(fi, cut, kind, relative));
            let bytes = Arc::new(f.bytes[..cut].to_vec());
            let dir = Scratch::new();
            let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
            let real = dir.0.join("data.osm.pbf");
            std::fs::write(&real, &*bytes).map_err(io)?;
            use std::os::unix::ffi::OsStringExt;
            let mut _open = None;
            let path: std::path::PathBuf = match kind {
                0 => real.clone(),
                1 => {
                    let l = dir.0.join("link");
                    std::os::unix::fs::symlink(&real, &l).map_err(io)?;
                    l
                }
                2 => {
                    let p = dir.0.join("Ünï cödé name.with.dots");
                    std::fs::rename(&real, &p).map_err(io)?;
                    p
                }
                3 => {
                    let p = dir.0.join(std::ffi::OsString::from_vec(vec![b'n', 0xff, 0xfe]));
                    std::fs::rename(&real, &p).map_err(io)?;
                    p
                }
                4 => {
                    std::fs::create_dir(dir.0.join("a")).map_err(io)?;
                    dir.0.join("a/../data.osm.pbf")
                }
                5 => {
                    // relative to the current directory
                    let cwd = std::env::current_dir().map_err(io)?;
                    let mut p: std::path::PathBuf = cwd.components().skip(1).map(|_| "..").collect();
                    p.extend(real.components().skip(1));
                    p
                }
                6 => real.clone(),
                // the parent of where a link leads to, not of where it lies
                7 | 8 => {
                    std::fs::create_dir_all(dir.0.join("sub/inner")).map_err(io)?;
                    std::os::unix::fs::symlink("sub/inner", dir.0.join("s")).map_err(io)?;
                    std::fs::rename(&real, dir.0.join("sub/data.osm.pbf")).map_err(io)?;
                    if kind == 8 {
                        std::fs::write(&real, &*f1[(fi + 1) % f1.len()].bytes).map_err(io)?;
                    }
                    dir.0.join("s/../data.osm.pbf")
                }
                9 => {
                    std::fs::create_dir(dir.0.join("d")).map_err(io)?;
                    let mut s = dir.0.clone().into_os_string();
                    s.push("//d/.//..///./data.osm.pbf");
                    s.into()
                }
                10 => {
                    // links to links, each relative to where it lies
                    std::fs::create_dir(dir.0.join("d")).map_err(io)?;
                    std::os::unix::fs::symlink("../data.osm.pbf", dir.0.join("d/1")).map_err(io)?;
                    std::os::unix::fs::symlink("d/1", dir.0.join("2")).map_err(io)?;
                    std::os::unix::fs::symlink("../2", dir.0.join("d/3")).map_err(io)?;
                    dir.0.join("d/3")
                }
                11 => {
                    let p = dir.0.join("hard");
                    std::fs::hard_link(&real, &p).map_err(io)?;
                    std::fs::remove_file(&real).map_err(io)?;
                    p
                }
                12 => {
                    let mut d = dir.0.clone();
                    for k in 0..14 {
                        d.push(format!("{k:0>200}"));
                    }
                    std::fs::create_dir_all(&d).map_err(io)?;
                    let p = d.join("x".repeat(255));
                    std::fs::rename(&real, &p).map_err(io)?;
                    p
                }
                13 => {
                    use std::os::fd::AsRawFd;
                    let o = std::fs::File::open(&real).map_err(io)?;
                    let p = format!("/proc/self/fd/{}", o.as_raw_fd());
                    _open = Some(o);
                    p.into()
                }
                k => {
                    let p = dir.0.join(NAMES[k - 14]);
                    std::fs::rename(&real, &p).map_err(io)?;
                    p
                }
            };
            // by its name alone, from within its directory
            let (path, _within) = match (relative, path.file_name()) {
                (true, Some(n)) => match Within::dir(&dir.0) {
                    Some(w) => (std::path::PathBuf::from(n), Some(w)),
                    None => (path, None),
                },
                _ => (path, None),
            };
            // reference: a seekable reader over the bytes (checked against the model elsewhere)
            let want = story(BlobReader::new_seekable(Cursor::new(bytes.to_vec())));
            if cut == n {
                check_eq!(want.len(), f.segs.len(), "blobs of the complete file");
                for (k, (w, s)) in want.iter().zip(&f.segs).enumerate() {
                    check_eq!(w.1, f.off[k] as u64, "offset of blob {k}");
                    if s.is_data() {
                        dec_matches(&w.2, &s.content)?;
                    }
                }
            }
            c.steps(5 * want.len());
            check!(story(BlobReader::from_path(&path)) == want, "BlobReader::from_path differs from a reader over the same bytes (cut {cut} of {n})");
            check!(story(BlobReader::seekable_from_path(&path)) == want, "BlobReader::seekable_from_path differs (cut {cut} of {n})");
            let ok = |d: &Vec<(String, u64, Dec)>| d.iter().all(|x| !matches!(x.2, Dec::Err(_)));
            let elems = |r: Result<()>, v: &[(u8, i64)]| (r.is_ok(), v.to_vec());
            let mut a = vec![];
            let ra = ElementReader::new(Cursor::new(bytes.to_vec())).for_each(|e| a.push(ident(&e)));
            let mut b = vec![];
            let rb = ElementReader::from_path(&path).and_then(|r| r.for_each(|e| b.push(ident(&e))));
            check_eq!(ra.is_ok(), ok(&want), "for_each success");
            check!(elems(ra, &a) == elems(rb, &b), "ElementReader::from_path differs");
            let mut a = vec![];
            let ra = IndexedReader::new(Cursor::new(bytes.to_vec())).and_then(|mut r| {
                r.for_each_node(|e| a.push(ident(&e)))?;
                r.read_ways_and_deps(|_| true, |e| a.push(ident(e)))
            });
            let mut b = vec![];
            let rb = IndexedReader::from_path(&path).and_then(|mut r| {
                r.for_each_node(|e| b.push(ident(&e)))?;
                r.read_ways_and_deps(|_| true, |e| b.push(ident(e)))
            });
            check!(elems(ra, &a) == elems(rb, &b), "IndexedReader::from_path differs");
            // memory maps
            let upto = |v: &[(String, u64, Dec)]| -> Vec<(String, u64, Dec)> {
                let n = v.iter().position(|x| matches!(x.2, Dec::Err(_))).map_or(v.len(), |i| i + 1);
                v[..n].to_vec()
            };
            let w = upto(&want);
            match unsafe { Mmap::from_path(&path) } {
                Ok(m) => same_story(&w, &mmap_story(&m, 5000))?,
                Err(e) => check!(cut == 0, "Mmap::from_path fails: {e}"),
            }
            let mut fl = std::fs::File::open(&path).map_err(io)?;
            use std::io::Seek;
            fl.seek(SeekFrom::Start((cut / 2) as u64)).map_err(io)?;
            match unsafe { Mmap::from_file(&fl) } {
                Ok(m) => {
                    drop(fl);
                    same_story(&w, &mmap_story(&m, 5000))?;
                    same_story(&w, &mmap_story(&m, 5000))?
                }
                Err(e) => check!(cut == 0, "Mmap::from_file fails: {e}"),
            }
            Ok(())
        },
    );
    let f2 = files.clone();
    let moved = scenario(
        "files moved while open",
        format!("{} files, opened by path; then the path is unlinked, or another file, shorter, longer or damaged, takes its place: every reader goes on with the file it opened", files.len()),
        move |c| {
            let fi = c.choose("file", f2.len());
            let f = &f2[fi];
            let how = c.choose("then", 4);
            let api = c.choose("reader", 6);
            c.observe(&(fi, how, api));
            c.state(&(fi, how, api));
            c.step();
            let dir = Scratch::new();
            let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
            let path = dir.0.join("data.osm.pbf");
            std::fs::write(&path, &*f.bytes).map_err(io)?;
            let replace = || -> std::io::Result<()> {
                let other = dir.0.join("other");
                match how {
                    0 => return std::fs::remove_file(&path),
                    1 => std::fs::write(&other, &segment("OSMData", &one_node(4711).encode(), Storage::Raw))?,
                    2 => std::fs::write(&other, &[&f.bytes[..], &segment("OSMData", &one_node(4711).encode(), Storage::Raw)].concat())?,
                    _ => std::fs::write(&other, &f.bytes.iter().map(|b| b ^ 0x55).collect::<Vec<_>>())?,
                }
                std::fs::rename(&other, &path)
            };
            let want = story(BlobReader::new_seekable(Cursor::new(f.bytes.to_vec())));
            let mut a = vec![];
            let mut b = vec![];
            let e = |e: Error| Fail::from(format!("opening: {e}"));
            match api {
                0 | 1 => {
                    let r = if api == 0 { BlobReader::from_path(&path) } else { BlobReader::seekable_from_path(&path) };
                    replace().map_err(io)?;
                    check!(story(r) == want, "reading differs after the file at the path has changed");
                }
                2 => {
                    let r = ElementReader::from_path(&path).map_err(e)?;
                    replace().map_err(io)?;
                    ElementReader::new(Cursor::new(f.bytes.to_vec())).for_each(|e| a.push(ident(&e))).map_err(e)?;
                    r.for_each(|e| b.push(ident(&e))).map_err(e)?;
                    check!(a == b, "elements differ after the file at the path has changed");
                }
                3 | 4 => {
                    // replaced before or after the index is there
                    let mut r = IndexedReader::from_path(&path).map_err(e)?;
                    if api == 4 {
                        r.create_index().map_err(e)?;
                    }
                    replace().map_err(io)?;
                    let mut m = IndexedReader::new(Cursor::new(f.bytes.to_vec())).map_err(e)?;
                    for _ in 0..2 {
                        m.for_each_node(|e| a.push(ident(&e))).map_err(e)?;
                        m.read_ways_and_deps(|_| true, |e| a.push(ident(e))).map_err(e)?;
                        r.for_each_node(|e| b.push(ident(&e))).map_err(e)?;
                        r.read_ways_and_deps(|_| true, |e| b.push(ident(e))).map_err(e)?;
                    }
                    check!(a == b, "the indexed reader differs after the file at the path has changed");
                }
                _ => {
                    let m = match unsafe { Mmap::from_path(&path) } {
                        Ok(m) => m,
                        Err(e) => {
                            check!(f.bytes.is_empty(), "Mmap::from_path: {e}");
                            return Ok(());
                        }
                    };
                    replace().map_err(io)?;
                    same_story(&want, &mmap_story(&m, 5000))?;
                }
            }
            Ok(())
        },
    );
    let f4 = files.clone();
    let modes = scenario(
        "owners and modes",
        format!("{} files x {} interfaces x 10 modes of the file x 4 of its directory x owned by the reader or not x read as root or as nobody: what File::open opens is read, otherwise its error is reported; the file and its mode, owner and time of modification stay as they are", files.len(), OPENERS.len()),
        move |c| {
            use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
            let fi = c.choose("file", f4.len());
            let f = &f4[fi];
            let api = c.choose("interface", OPENERS.len());
            let mode = *c.pick("mode", &[0o644u32, 0o600, 0o444, 0o400, 0o440, 0o004, 0o404, 0o222, 0o000, 0o777]);
            let dmode = *c.pick("mode of the directory", &[0o755u32, 0o311, 0o644, 0o555]);
            let (nobodys, nobody) = (c.flag("owned by nobody"), c.flag("read as nobody"));
            c.observe(&(fi, api, mode, dmode, nobodys, nobody));
            c.state(&(fi, api, mode, dmode, nobodys, nobody));
            c.step();
            let top = Scratch::new();
            let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
            let d = top.0.join("d");
            std::fs::create_dir(&d).map_err(io)?;
            let p = d.join("data.osm.pbf");
            std::fs::write(&p, &*f.bytes).map_err(io)?;
            let perm = std::fs::Permissions::from_mode;
            if nobodys {
                // not everybody may give files away
                if chown(&p, Some(65534), None).is_err() {
                    c.redundant();
                    return Ok(());
                }
            }
            std::fs::set_permissions(&p, perm(mode)).map_err(io)?;
            let stat = || -> std::io::Result<_> {
                let m = std::fs::metadata(&p)?;
                Ok((m.mode(), m.uid(), m.gid(), m.len(), m.mtime(), m.mtime_nsec(), m.nlink()))
            };
            let before = stat().map_err(io)?;
            std::fs::set_permissions(&d, perm(dmode)).map_err(io)?;
            let (plain, r) = {
                let who = if nobody { Nobody::now() } else { None };
                if nobody && who.is_none() {
                    c.redundant();
                    return Ok(());
                }
                (std::fs::File::open(&p).map(|_| ()), Opened::by(api, &p))
            };
            match (plain, r) {
                (Ok(()), Ok(r)) => {
                    check!(r.read() == Opened::expect(api, &f.bytes), "{}: elements differ (mode {mode:o})", OPENERS[api]);
                }
                (Ok(()), Err(e)) => return fail(format!("{}: a file of mode {mode:o} that can be read is refused: {e}", OPENERS[api])),
                (Err(k), Ok(_)) => return fail(format!("{}: opened what File::open refuses with {k}", OPENERS[api])),
                (Err(k), Err(e)) => match e.kind() {
                    ErrorKind::Io(i) => check_eq!(i.kind(), k.kind(), "kind of the error"),
                    _ => return fail(format!("{}: not an I/O error: {e:?}", OPENERS[api])),
                },
            }
            std::fs::set_permissions(&d, perm(0o755)).map_err(io)?;
            check_eq!(stat().map_err(io)?, before, "{}: mode, owner, size and time of the file", OPENERS[api]);
            check!(std::fs::read(&p).map_err(io)? == *f.bytes, "{}: the file was changed", OPENERS[api]);
            Ok(())
        },
    );
    let f5 = files.clone();
    let shared = scenario(
        "one file, several readers",
        format!("{} files, complete or cut in the middle, opened by each pair of {} interfaces at the same time, the file unlocked or locked (shared, exclusively) by its writer; read in both orders: each reads what it reads alone, and when they are gone no descriptor and no mapping is left", files.len(), OPENERS.len()),
        move |c| {
            let fi = c.choose("file", f5.len());
            let cut = c.flag("cut");
            let n = f5[fi].bytes.len();
            let bytes = &f5[fi].bytes[..if cut { n / 2 } else { n }];
            let (a, b) = (c.choose("first", OPENERS.len()), c.choose("second", OPENERS.len()));
            let lock = c.choose("lock", 3);
            let swap = c.flag("second is read first");
            c.observe(&(fi, cut, a, b, lock, swap));
            c.state(&(fi, cut, a, b, lock, swap));
            c.steps(2);
            let dir = Scratch::new();
            let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
            let p = dir.0.join("data.osm.pbf");
            std::fs::write(&p, bytes).map_err(io)?;
            let owner = std::fs::OpenOptions::new().read(true).write(true).open(&p).map_err(io)?;
            match lock {
                0 => {}
                1 => owner.lock_shared().map_err(io)?,
                _ => owner.lock().map_err(io)?,
            }
            // an empty file cannot be mapped everywhere
            let open = |api| match Opened::by(api, &p) {
                Ok(r) => Ok(Some(r)),
                Err(_) if bytes.is_empty() && api > 4 => Ok(None),
                Err(e) => Err(Fail::from(format!("{}: {e} (lock {lock})", OPENERS[api]))),
            };
            let (ra, rb) = (open(a)?, open(b)?);
            for (api, r) in if swap { [(b, rb), (a, ra)] } else { [(a, ra), (b, rb)] } {
                if let Some(r) = r {
                    check!(r.read() == Opened::expect(api, bytes), "{} differs while another reader has the file open", OPENERS[api]);
                }
            }
            drop(owner);
            let left = held(&dir.0);
            check!(left.is_empty(), "{}, {}: left behind: {left:?}", OPENERS[a], OPENERS[b]);
            Ok(())
        },
    );
    let f6 = files.clone();
    let handle = scenario(
        "one handle",
        format!("{} files behind one handle: standing at every blob, the file is mapped (Mmap::from_file, once or twice, read or not, dropped or kept), then read on from the handle: the map shows the whole file, the handle stands where it stood; then the handle is given to BlobReader, a seekable one or IndexedReader", files.len()),
        move |c| {
            use std::io::Seek;
            let fi = c.choose("file", f6.len());
            let f = &f6[fi];
            let k = c.choose("stands at blob", f.off.len().min(6) + 1);
            let at = if k == f.off.len() { f.bytes.len() } else { f.off[k] };
            let maps = c.choose("maps", 3);
            let keep = c.flag("kept");
            let then = c.choose("then", 4);
            c.observe(&(fi, k, maps, keep, then));
            c.state(&(fi, k, maps, keep, then));
            c.steps(maps + 1);
            let dir = Scratch::new();
            let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
            let p = dir.0.join("data.osm.pbf");
            std::fs::write(&p, &*f.bytes).map_err(io)?;
            let mut h = std::fs::File::open(&p).map_err(io)?;
            h.seek(SeekFrom::Start(at as u64)).map_err(io)?;
            let mut kept = vec![];
            let want = story(BlobReader::new_seekable(Cursor::new(f.bytes.to_vec())));
            for _ in 0..if f.bytes.is_empty() { 0 } else { maps } {
                let m = unsafe { Mmap::from_file(&h) }.map_err(|e| Fail::from(format!("mapping: {e}")))?;
                same_story(&want, &mmap_story(&m, 5000))?;
                if keep {
                    kept.push(m);
                }
                check_eq!(h.stream_position().map_err(io)?, at as u64, "position of the handle after it was mapped");
            }
            let mut r = Cursor::new(f.bytes.to_vec());
            r.set_position(at as u64);
            match then {
                0 => {
                    let ty = |v: Vec<(String, u64, Dec)>| v.into_iter().map(|x| (x.0, x.2)).collect::<Vec<_>>();
                    check!(ty(story(Ok(BlobReader::new(&h)))) == ty(story(Ok(BlobReader::new(r)))), "reading on from the handle");
                }
                1 => check!(story(BlobReader::new_seekable(&h)) == story(BlobReader::new_seekable(r)), "reading on from the handle, seekable"),
                2 => {
                    let nodes = |r: Result<(bool, Vec<(u8, i64)>)>| r.map_err(|e| e.to_string());
                    let a = IndexedReader::new(&h).map(|r| index_story(r));
                    let b = IndexedReader::new(r).map(|r| index_story(r));
                    check!(nodes(a) == nodes(b), "an index over the handle");
                }
                _ => {
                    let (mut a, mut b) = (vec![], vec![]);
                    let x = ElementReader::new(&h).for_each(|e| a.push(ident(&e))).is_ok();
                    let y = ElementReader::new(r).for_each(|e| b.push(ident(&e))).is_ok();
                    check!((x, a) == (y, b), "elements read on from the handle");
                }
            }
            for m in &kept {
                same_story(&want, &mmap_story(m, 5000))?;
            }
            Ok(())
        },
    );
    let missing = scenario(
        "missing files",
        "no such file, no such directory, a component that is a file, an empty path, a directory: an error from every constructor (NotFound where the system says so), never a panic",
        move |c| {
            let dir = Scratch::new();
            let kind = c.choose("path", 5);
            let api = c.choose("api", 5);
            std::fs::write(dir.0.join("file"), b"").expect("scratch");
            let p = match kind {
                0 => dir.0.join("missing.osm.pbf"),
                1 => dir.0.join("no/such/dir.osm.pbf"),
                2 => dir.0.join("file/x"),
                3 => std::path::PathBuf::new(),
                _ => dir.0.clone(),
            };
            c.observe(&(kind, api));
            c.state(&(kind, api));
            c.step();
            let want = std::fs::File::open(&p).err().map(|e| e.kind());
            if let Some(k) = want {
                if kind < 2 && k != IK::NotFound {
                    return internal("expected NotFound from the system");
                }
            }
            // opening a directory works, reading it does not
            let first = |r: Option<Result<Blob>>| r.and_then(|x| x.err());
            let e = match api {
                0 => match BlobReader::from_path(&p) {
                    Err(e) => Some(e),
                    Ok(mut r) => first(r.next()),
                },
                1 => match BlobReader::seekable_from_path(&p) {
                    Err(e) => Some(e),
                    Ok(mut r) => first(r.next()),
                },
                2 => ElementReader::from_path(&p).and_then(|r| r.for_each(|_| ())).err(),
                3 => IndexedReader::from_path(&p).and_then(|mut r| r.for_each_node(|_| ())).err(),
                _ => unsafe { Mmap::from_path(&p) }.err(),
            };
            let Some(e) = e else { return fail(format!("path kind {kind}, api {api}: no error")) };
            if let Some(k) = want {
                match e.kind() {
                    ErrorKind::Io(io) => check_eq!(io.kind(), k, "kind of the I/O error"),
                    _ => return fail(format!("path kind {kind}, api {api}: not an I/O error: {e:?}")),
                }
            }
            Ok(())
        },
    );
    // things that can be opened and are no files
    let f3 = files.clone();
    let special = scenario(
        "pipes and devices",
        "files of up to 60000 bytes, complete or cut at 12 places, through a pipe: BlobReader and ElementReader (for_each, par_map_reduce) opened by its path read what a reader over the bytes reads, seekable interfaces do so or report an error; /dev/null is an empty file; NUL in a path, too long names, a loop of links: the error of the system",
        move |c| {
            let err = |e: Option<Error>, k: std::io::ErrorKind, what: &str| -> Res {
                match e {
                    Some(e) => match e.kind() {
                        ErrorKind::Io(io) => Ok(check_eq!(io.kind(), k, "{what}: kind of the I/O error")),
                        _ => fail(format!("{what}: not an I/O error: {e:?}")),
                    },
                    None => fail(format!("{what}: no error")),
                }
            };
            let api = c.choose("api", 6);
            c.step();
            match c.choose("what", 3) {
                0 => {
                    let f = &f3[c.choose("file", f3.len())];
                    let n = f.bytes.len();
                    let cut = match c.choose("cut", 13) {
                        0 => n,
                        k => n * k / 13 + k % 3,
                    }
                    .min(n);
                    c.observe(&(api, &f.bytes[..cut]));
                    c.state(&(api, &f.bytes[..cut]));
                    if cut > 60_000 {
                        c.redundant();
                        return Ok(());
                    }
                    use std::io::Write;
                    use std::os::fd::AsRawFd;
                    let io = |e: std::io::Error| Fail { sig: "-".into(), msg: format!("harness: {e}"), internal: true };
                    let (rd, mut wr) = std::io::pipe().map_err(io)?;
                    wr.write_all(&f.bytes[..cut]).map_err(io)?;
                    drop(wr);
                    let path = format!("/proc/self/fd/{}", rd.as_raw_fd());
                    let mem = || Cursor::new(f.bytes[..cut].to_vec());
                    let mut a = vec![];
                    let mut b = vec![];
                    let bag = |mut v: Vec<(u8, i64)>| {
                        v.sort();
                        v
                    };
                    match api {
                        0 => {
                            let (x, y) = (story(BlobReader::from_path(&path)), story(BlobReader::new_seekable(mem())));
                            check!(x == y, "BlobReader::from_path of a pipe: {x:?} instead of {y:?}");
                        }
                        1 => {
                            let x = ElementReader::from_path(path).and_then(|r| r.for_each(|e| a.push(ident(&e))));
                            let y = ElementReader::new(mem()).for_each(|e| b.push(ident(&e)));
                            check_eq!((x.map_err(|e| err_kind(&e)), &a), (y.map_err(|e| err_kind(&e)), &b), "for_each on a pipe");
                        }
                        2 => {
                            let one = |e: Element| vec![ident(&e)];
                            let add = |mut a: Vec<_>, b| {
                                a.extend(b);
                                a
                            };
                            let x = ElementReader::from_path(path.as_str()).and_then(|r| r.par_map_reduce(one, Vec::new, add));
                            let y = ElementReader::new(mem()).par_map_reduce(one, Vec::new, add);
                            check_eq!(x.map(bag).map_err(|e| err_kind(&e)), y.map(bag).map_err(|e| err_kind(&e)), "par_map_reduce on a pipe");
                        }
                        3 => {
                            if let Ok(r) = BlobReader::seekable_from_path(&path) {
                                let (x, y) = (story(Ok(r)), story(BlobReader::new_seekable(mem())));
                                check!(x == y, "BlobReader::seekable_from_path of a pipe: {x:?} instead of an error or {y:?}");
                            }
                        }
                        4 => {
                            let x = IndexedReader::from_path(&path).and_then(|mut r| r.for_each_node(|e| a.push(ident(&e))));
                            let y = IndexedReader::new(mem()).and_then(|mut r| r.for_each_node(|e| b.push(ident(&e))));
                            check!(x.is_err() || (y.is_ok() && a == b), "IndexedReader::from_path of a pipe: {a:?} instead of an error or {b:?}");
                        }
                        _ => check!(unsafe { Mmap::from_path(&path) }.is_err(), "a memory map of a pipe"),
                    }
                }
                1 => {
                    c.observe(&api);
                    c.state(&api);
                    let p = std::path::PathBuf::from("/dev/null");
                    match api {
                        0 => check!(BlobReader::from_path(p).is_ok_and(|mut r| r.next().is_none()), "/dev/null"),
                        1 => check!(ElementReader::from_path(p).and_then(|r| r.for_each(|_| ())).is_ok(), "/dev/null"),
                        2 => check!(ElementReader::from_path(p).and_then(|r| r.par_map_reduce(|_| 1, || 0, |a, b| a + b)).is_ok_and(|n| n == 0), "/dev/null"),
                        3 => check!(BlobReader::seekable_from_path(p).is_ok_and(|mut r| r.next_header_skip_blob().is_none()), "/dev/null"),
                        4 => check!(IndexedReader::from_path(p).and_then(|mut r| r.for_each_node(|_| ())).is_ok(), "/dev/null"),
                        _ => {
                            let _ = unsafe { Mmap::from_path(p) };
                        }
                    }
                }
                _ => {
                    let dir = Scratch::new();
                    let k = c.choose("path", 3);
                    c.observe(&(api, k));
                    c.state(&(api, k));
                    use std::os::unix::ffi::OsStringExt;
                    let p = match k {
                        0 => dir.0.join(std::ffi::OsString::from_vec(b"a\0b".to_vec())),
                        1 => dir.0.join("n".repeat(300)),
                        _ => {
                            let l = dir.0.join("loop");
                            std::os::unix::fs::symlink(&l, &l).expect("scratch");
                            l
                        }
                    };
                    let Some(want) = std::fs::File::open(&p).err().map(|e| e.kind()) else { return internal("the system opens it") };
                    let s = p.into_os_string();
                    let e = match api {
                        0 => BlobReader::from_path(&s).err(),
                        1 | 2 => ElementReader::from_path(&s).err(),
                        3 => BlobReader::seekable_from_path(&s).err(),
                        4 => IndexedReader::from_path(&s).err(),
                        _ => unsafe { Mmap::from_path(&s) }.err(),
                    };
                    err(e, want, "a path that cannot be opened")?;
                }
            }
            Ok(())
        },
    );
    let sizes: Vec<i64> = vec![0, 65_536, (1 << 28) + 1, (1 << 30) + 7, (1i64 << 31) - 1];
    let big = scenario(
        "huge files",
        format!("sparse files up to 8 GiB opened by path: 4 unknown blobs with body sizes from {sizes:?} (pattern a,b,a,b), then nodes and a way: seekable_from_path (skim, fetch, seek), IndexedReader::from_path and Mmap::from_path"),
        move |c| {
            let a = *c.pick("size a", &sizes);
            let b = *c.pick("size b", &sizes);
            let mut ext = vec![];
            let mut pos = 0u64;
            let mut offs = vec![];
            for i in 0..4u8 {
                let s = if i % 2 == 0 { a } else { b };
                let h = blob_header("Gap", None, s, i);
                ext.push((pos, segment_raw(&h, &[])));
                offs.push(pos);
                pos += 4 + h.len() as u64 + s as u64;
            }
            let last = [dense_block(&[1, 2, 3]), way_block(vec![way(9, &[1, 3])])];
            for d in &last {
                let x = segment("OSMData", &d.encode(), Storage::Raw);
                offs.push(pos);
                ext.push((pos, x.clone()));
                pos += x.len() as u64;
            }
            c.observe(&(a, b));
            c.state(&(a, b));
            c.steps(9);
            let m = MemFile::sparse(&ext, pos);
            let e = |e: Error| Fail::from(e.to_string());
            let mut r = BlobReader::seekable_from_path(m.path()).map_err(e)?;
            let mut got = vec![];
            while let Some(h) = r.next_header_skip_blob() {
                got.push(h.map_err(e)?.1.map(|o| o.0));
                check!(got.len() < 9, "skimming does not end");
            }
            check_eq!(got, offs.iter().map(|o| Some(*o)).collect::<Vec<_>>(), "offsets");
            for (k, d) in last.iter().enumerate().rev() {
                let x = r.blob_from_offset(ByteOffset(offs[4 + k])).map_err(e)?;
                check_eq!(x.offset().map(|o| o.0), Some(offs[4 + k]), "offset of a fetched blob");
                dec_matches(&dec_of(x.decode()), &Content::Data(d.clone()))?;
            }
            check_eq!(r.seek_raw(SeekFrom::End(0)).map_err(e)?, pos, "position of the end");
            check!(r.next().is_none(), "an item at the end");
            let mut ir = IndexedReader::from_path(m.path()).map_err(e)?;
            let mut v = vec![];
            ir.read_ways_and_deps(|_| true, |x| v.push(ident(x))).map_err(e)?;
            v.sort();
            check_eq!(v, vec![(1, 1), (1, 3), (2, 9)], "ways and nodes");
            let mut n = 0;
            ir.for_each_node(|_| n += 1).map_err(e)?;
            check_eq!(n, 3, "nodes");
            let map = unsafe { Mmap::from_path(m.path()) }.map_err(e)?;
            let mut at = vec![];
            let mut r = map.blob_iter();
            while let Some(x) = r.next() {
                let x = x.map_err(|e| Fail::from(format!("mapped: {e}")))?;
                at.push(x.offset().0);
                check!(at.len() < 9, "iterating over the map does not end");
            }
            check_eq!(at, offs, "offsets of the mapped blobs");
            for (k, d) in last.iter().enumerate() {
                r.seek(ByteOffset(offs[4 + k]));
                match r.next() {
                    Some(Ok(x)) => dec_matches(&dec_of(x.decode()), &Content::Data(d.clone()))?,
                    x => return fail(format!("mapped blob at {}: {:?}", offs[4 + k], x.map(|y| y.is_ok()))),
                }
            }
            Ok(())
        },
    );
    // operations on a buffered file reader against the same on memory
    let f2 = files.clone();
    let depth = if th { 4 } else { 3 };
    let ops = scenario(
        "random access on a file",
        format!("a file of 40 blobs straddling buffer boundaries: every sequence of {depth} operations (next, skip, seek to 4 blobs, blob at 4 offsets, relative and end seeks) on seekable_from_path equals the same on memory"),
        move |c| {
            let f = &f2[f2.len() - 1];
            let m = MemFile::new(&f.bytes);
            let open = |e: osmpbf::Error| Fail::from(format!("open: {e}"));
            let mut a = BlobReader::seekable_from_path(m.path()).map_err(open)?;
            let mut b = BlobReader::new_seekable(Cursor::new(f.bytes.to_vec())).map_err(open)?;
            let at = |i: usize| ByteOffset(f.off[i] as u64);
            let mut h = vec![];
            let blob = |r: Option<Result<Blob>>| match r {
                None => "end".to_string(),
                Some(Err(_)) => "error".into(),
                Some(Ok(b)) => format!("{:?} {:?} {:x}", b.get_type(), b.offset(), hash_of(&format!("{:?}", b.decode().is_ok()))),
            };
            for k in 0..depth {
                let op = c.choose("op", 12);
                h.push(op);
                c.step();
                macro_rules! both {
                    (|$r:ident| $e:expr) => {{
                        let x = {
                            let $r = &mut a;
                            $e
                        };
                        let y = {
                            let $r = &mut b;
                            $e
                        };
                        check_eq!(x, y, "operation {k} of {h:?} on a file vs in memory");
                    }};
                }
                match op {
                    0 => both!(|r| blob(r.next())),
                    1 => both!(|r| r.next_header_skip_blob().map(|x| x.map(|(h, o)| (h.get_blob_size(), o)).map_err(|_| ()))),
                    2..=4 => {
                        let i = [0, 17, 40][op - 2];
                        both!(|r| r.seek(at(i)).is_ok())
                    }
                    5..=8 => {
                        let i = [1, 2, 20, 39][op - 5];
                        both!(|r| blob(Some(r.blob_from_offset(at(i)))))
                    }
                    9 => {
                        let d = f.off[10] as i64 - f.off[9] as i64;
                        both!(|r| r.seek_raw(SeekFrom::Current(d)).map_err(|_| ()))
                    }
                    10 => {
                        let d = f.off[38] as i64 - f.bytes.len() as i64;
                        both!(|r| r.seek_raw(SeekFrom::End(d)).map_err(|_| ()))
                    }
                    _ => both!(|r| r.seek_raw(SeekFrom::Current(-(f.off[1] as i64))).map_err(|_| ())),
                }
            }
            c.observe(&h);
            c.state(&h);
            for _ in 0..3 {
                let (x, y) = (blob(a.next()), blob(b.next()));
                check_eq!(x, y, "next after {h:?} on a file vs in memory");
            }
            Ok(())
        },
    );
    Property { id: "C23", scenarios: vec![same, moved, modes, shared, handle, missing, special, big, ops], assumptions: vec!["the file does not change while it is read".into()] }
}
