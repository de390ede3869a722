//! C01–C05: the blob layer.

use crate::files::*;
use osmpbf::*;
use std::io::{Read, Seek, SeekFrom};
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::io::*;
use vcore::laws::iter_laws;
use vcore::{check, check_eq};

pub const NAMES: [&str; 10] =
    ["X", "", "OSMDat", "OSMDatax", "osmdata", "OSMHEADER", "OSMHeader ", "OSM", "Ünï", "OSMHeaderOSMData"];

/// Names one edit away from the known ones: a character put in, taken out, replaced, doubled,
/// swapped with the next or in the other case; prefixes and two of them in a row.
pub fn near_names() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for k in ["OSMData", "OSMHeader"] {
        let cs: Vec<char> = k.chars().collect();
        let mut put = |c: Vec<char>| v.push(c.into_iter().collect());
        for i in 0..=cs.len() {
            for x in ['\0', ' ', '\n', '\t', '\r', '.', 'x', 'ä', '\u{feff}', '\u{200b}', '\u{a0}'] {
                let mut c = cs.clone();
                c.insert(i, x);
                put(c);
                if i < cs.len() {
                    let mut c = cs.clone();
                    c[i] = x;
                    put(c);
                }
            }
            put(cs[..i].to_vec());
            if i < cs.len() {
                put(cs[i..].to_vec());
                let mut c = cs.clone();
                c.remove(i);
                put(c);
                let mut c = cs.clone();
                c.insert(i, cs[i]);
                put(c);
                let mut c = cs.clone();
                c[i] = if c[i].is_uppercase() { c[i].to_ascii_lowercase() } else { c[i].to_ascii_uppercase() };
                put(c);
            }
            if i + 1 < cs.len() {
                let mut c = cs.clone();
                c.swap(i, i + 1);
                put(c);
            }
        }
        for x in ["\0\0", "\r\n", "  ", "2", "\"", "OSMData", "OSMHeader"] {
            v.push(format!("{k}{x}"));
            v.push(format!("{x}{k}"));
        }
        v.extend([k.to_lowercase(), k.to_uppercase(), format!("\"{k}\""), format!(" {k} ")]);
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != "OSMData" && x != "OSMHeader");
    v
}

/// The alphabet of segments used in layout enumerations.
pub fn seg_alphabet(full: bool) -> Vec<Seg> {
    let mut v = vec![
        Seg::header(std_header()),
        Seg::data(one_node(5)),
        Seg::data(dense_block(&[10, 11])).st(Storage::Zlib(6)),
        Seg::other("X", b"abc"),
        Seg::data(way_block(vec![way(7, &[1, 2])])).st(Storage::RawSizeBefore).index(3),
        Seg::data(one_node(-6)).st(Storage::ZlibSizeAfter(1)).order(5),
        Seg::other("OSMDatax", b"").st(Storage::Nothing),
        Seg::header(odd_header()).st(Storage::Zlib(9)).order(2),
    ];
    if full {
        v.push(Seg::data(rel_block(&[3])).st(Storage::RawSizeAfter).order(3));
        v.push(Seg::data(one_node(8)).st(Storage::ZlibStored(7)));
        v.push(Seg::data(one_node(9)).st(Storage::ZlibNoSize(0)).index(0));
        v.push(Seg::other("OSMDat", b"x").index(200));
        v.push(Seg::other("", b"").order(4));
        v.push(Seg::other("osmdata", &one_node(1).encode()).order(1));
        v.push(Seg::other("OSMHEADER", b"q").st(Storage::Zlib(6)));
        v.push(Seg::data(Default::default()));
        v.push(Seg::header(vcore::model::MHeader::default()));
    }
    v
}

pub fn choose_segs(c: &mut Ctx, alpha: &[Seg], max: usize) -> Vec<Seg> {
    let n = c.choose("segments", max + 1);
    (0..n)
        .map(|_| {
            let s = c.pick("segment", alpha).clone();
            c.note(|| format!("  segment {:?} {:?} order {}", s.ty(), s.st, s.order));
            s
        })
        .collect()
}

/// A file from segments given as header and body bytes, with what they mean.
pub fn lay_out_raw(v: Vec<(Seg, Vec<u8>, Vec<u8>)>) -> Pbf {
    let mut f = Pbf { bytes: Arc::new(vec![]), segs: vec![], off: vec![0], size: vec![], hdr: vec![] };
    let mut bytes = vec![];
    for (s, h, b) in v {
        f.size.push(b.len());
        f.hdr.push(h.len());
        bytes.extend(segment_raw(&h, &b));
        f.off.push(bytes.len());
        f.segs.push(s);
    }
    f.bytes = Arc::new(bytes);
    f
}

/// How a header is spelled: every choice denotes the same header.
#[derive(Clone, Copy, Debug, Default, Hash)]
pub struct Spelling {
    /// padding bytes of the datasize, of the length of the type, of the tags
    pub size_pad: usize,
    pub type_pad: usize,
    pub tag_pad: usize,
    /// 0 none, 1 in front, 2 behind, 3 between, 4: a group field
    pub unknown: usize,
    /// an earlier occurrence of: 1 datasize, 2 type, 3 indexdata (the last one counts)
    pub dup: usize,
    pub order: usize,
    /// padding in the body
    pub body_pad: usize,
}
pub fn spelled(ty: &str, content: &[u8], s: Spelling) -> (Vec<u8>, Vec<u8>) {
    let mut b = W::new();
    b.bytes_long(1, content, s.body_pad, s.body_pad);
    let mut h = W::new();
    let unknown = |h: &mut W| {
        if s.unknown == 4 {
            h.tag(50, 3);
            h.uint(3, 99);
            h.tag(50, 4);
        } else {
            h.uint(99, 7);
            h.bytes(98, b"zz");
            h.tag(97, 5);
            h.0.extend([1, 2, 3, 4]);
            h.tag(96, 1);
            h.0.extend([1, 2, 3, 4, 5, 6, 7, 8]);
        }
    };
    if s.unknown == 1 || s.unknown == 4 {
        unknown(&mut h);
    }
    match s.dup {
        1 => h.int(3, 7),
        2 => h.bytes(1, b"OSMHeaderX"),
        3 => h.bytes(2, &[9; 20]),
        _ => {}
    }
    for k in 0..2 {
        if (k + s.order) % 2 == 0 {
            h.bytes_long(1, ty.as_bytes(), s.tag_pad, s.type_pad);
        } else {
            h.uint_long(3, b.0.len() as u64, s.tag_pad, s.size_pad);
        }
        if k == 0 && s.unknown == 3 {
            unknown(&mut h);
        }
    }
    if s.unknown == 2 {
        unknown(&mut h);
    }
    (h.0, b.0)
}

/// Files with field boundaries inside headers and bodies at which a shorter prefix still parses.
pub fn tricky_files() -> Vec<(&'static str, Pbf)> {
    let mut v = vec![
        ("empty", lay_out(vec![])),
        ("header+2data", lay_out(vec![Seg::header(std_header()), Seg::data(one_node(5)), Seg::data(dense_block(&[1, 2]))])),
        ("raw then raw_size", lay_out(vec![Seg::data(one_node(5)).st(Storage::RawSizeAfter), Seg::data(one_node(6)).st(Storage::RawSizeAfter)])),
        ("zlib then raw_size", lay_out(vec![Seg::header(std_header()).st(Storage::ZlibSizeAfter(6)), Seg::data(one_node(5)).st(Storage::ZlibSizeAfter(6))])),
        ("indexdata last in header", lay_out(vec![Seg::data(one_node(5)).index(9).order(1), Seg::data(one_node(6)).index(0).order(4)])),
        ("unknown, near miss and empty blobs", lay_out(vec![Seg::other("X", b"abc"), Seg::other("OSMDatax", b"").st(Storage::Nothing), Seg::data(one_node(5)), Seg::other("osmdata", b"zz").st(Storage::RawSizeAfter)])),
        ("raw_size first", lay_out(vec![Seg::data(one_node(5)).st(Storage::RawSizeBefore), Seg::data(way_block(vec![way(7, &[1, 2])])).st(Storage::Zlib(6)), Seg::data(rel_block(&[4])).order(5)])),
    ];
    // a body made of a raw field followed by many unknown fields: many parse-able prefixes
    let mut b = lay_out(vec![Seg::data(one_node(5)), Seg::data(one_node(6)), Seg::data(one_node(7))]);
    let mut bytes = vec![];
    b.off = vec![0];
    b.size.clear();
    b.hdr.clear();
    for s in &b.segs {
        let Content::Data(d) = &s.content else { unreachable!() };
        let mut body = W(blob_msg(&d.encode(), Storage::Raw));
        for k in 0..5 {
            body.uint(100 + k, 1);
            body.bytes(200 + k, b"pad");
        }
        let mut h = W(blob_header("OSMData", None, body.0.len() as i64, 0));
        h.uint(77, 3);
        h.bytes(78, b"q");
        b.size.push(body.0.len());
        b.hdr.push(h.0.len());
        bytes.extend(segment_raw(&h.0, &body.0));
        b.off.push(bytes.len());
    }
    b.bytes = Arc::new(bytes);
    v.push(("unknown fields after content", b));
    let sp = |id, s| {
        let m = one_node(id);
        let (h, b) = spelled("OSMData", &m.encode(), s);
        (Seg::data(m), h, b)
    };
    let d = Spelling::default();
    v.push((
        "unusual spellings",
        lay_out_raw(vec![
            sp(5, Spelling { size_pad: 9, type_pad: 2, ..d }),
            sp(6, Spelling { unknown: 1, dup: 1, order: 1, body_pad: 3, ..d }),
            sp(7, Spelling { tag_pad: 4, dup: 2, unknown: 4, ..d }),
        ]),
    ));
    v
}

/// The files above and every sequence of 1..=n segments, n growing with the level.
pub fn damage_files(lvl: u8) -> (Arc<Vec<(String, Pbf)>>, String) {
    let mut v: Vec<(String, Pbf)> = tricky_files().into_iter().map(|(n, f)| (n.to_string(), f)).collect();
    let alpha = seg_alphabet(false);
    let special = v.len();
    let mut last: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if cfg!(miri) { 0 } else { lvl + 1 } {
        last = last.iter().flat_map(|x| (0..alpha.len()).map(move |i| [&x[..], &[i]].concat())).collect();
        v.extend(last.iter().map(|x| (format!("segments {x:?}"), lay_out(x.iter().map(|i| alpha[*i].clone()).collect()))));
    }
    let what = format!("{} files ({special} special ones, all sequences of 1..={} segments)", v.len(), lvl + 1);
    (Arc::new(v), what)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Off {
    /// must be exactly this
    Is(u64),
    /// may be unknown, but not wrong
    NoneOr(u64),
}
fn off_ok(got: Option<ByteOffset>, want: Off) -> bool {
    match (got, want) {
        (Some(ByteOffset(g)), Off::Is(w)) | (Some(ByteOffset(g)), Off::NoneOr(w)) => g == w,
        (None, Off::NoneOr(_)) => true,
        (None, Off::Is(_)) => false,
    }
}
pub fn blob_is(b: &Blob, s: &Seg, off: Off) -> Res {
    check!(off_ok(b.offset(), off), "blob offset {:?}, expected {:?}", b.offset(), off);
    blob_matches(b, s, None)?;
    Ok(())
}

/// Iterate and compare with the expected complete sequence, clean end.
fn iterate<R: Read + Send>(
    c: &mut Ctx,
    r: &mut BlobReader<R>,
    f: &Pbf,
    base: u64,
    exact: bool,
) -> Res {
    for (i, s) in f.segs.iter().enumerate() {
        c.step();
        let off = base + f.off[i] as u64;
        match r.next() {
            Some(Ok(b)) => blob_is(&b, s, if exact { Off::Is(off) } else { Off::NoneOr(off) })
                .map_err(|e| Fail::from(format!("blob {i}: {}", e.msg)))?,
            Some(Err(e)) => return fail(format!("blob {i} of a valid file: error {e}")),
            None => return fail(format!("blob {i} of {} missing: early end", f.segs.len())),
        }
    }
    for k in 0..3 {
        c.step();
        match r.next() {
            None => {}
            Some(Ok(b)) => return fail(format!("surplus blob after the end (call {k}): {:?}", b.get_type())),
            Some(Err(e)) => return fail(format!("error after the last blob of a valid file: {e}")),
        }
    }
    Ok(())
}

fn obs_file(c: &mut Ctx, f: &Pbf, extra: usize) {
    c.observe(&(f.bytes.as_slice(), extra));
    c.state(&(f.bytes.as_slice(), extra));
}

pub fn c01(lvl: u8) -> Property {
    let th = lvl >= 1;
    let alpha = seg_alphabet(th);
    let (maxn, nalpha) = ([3, 3, 4][lvl as usize], alpha.len());
    let layouts = scenario(
        "layouts",
        format!("all sequences of 0..={maxn} segments over an alphabet of {nalpha} segments, via new and new_seekable"),
        move |c| {
            let segs = choose_segs(c, &alpha, maxn);
            let f = lay_out(segs);
            obs_file(c, &f, 0);
            c.sample(|| format!("{} bytes, types {:?}", f.bytes.len(), f.segs.iter().map(|s| s.ty().to_string()).collect::<Vec<_>>()));
            let mut r = BlobReader::new(Src::plain(&f.bytes));
            iterate(c, &mut r, &f, 0, false)?;
            match BlobReader::new_seekable(Src::plain(&f.bytes)) {
                Ok(mut r) => iterate(c, &mut r, &f, 0, true)?,
                Err(e) => return fail(format!("new_seekable: {e}")),
            }
            reader_laws(&f.bytes, None)
        },
    );
    let names = scenario("type names", "one blob of each type name, every header field order, indexdata absent/0/5", |c| {
        let n = *c.pick("name", &NAMES);
        let o = c.choose("order", 6) as u8;
        let mut s = Seg::other(n, b"zz").order(o);
        match c.choose("indexdata", 3) {
            0 => {}
            1 => s = s.index(0),
            _ => s = s.index(5),
        }
        let f = lay_out(vec![s, Seg::data(one_node(3))]);
        obs_file(c, &f, 0);
        iterate(c, &mut BlobReader::new(Src::plain(&f.bytes)), &f, 0, false)?;
        // the header as seen when skimming must have the same type and size
        let Ok(mut r) = BlobReader::new_seekable(Src::plain(&f.bytes)) else { return fail("new_seekable") };
        for i in 0..2 {
            match r.next_header_skip_blob() {
                Some(Ok((h, off))) => {
                    check_eq!(ty_name(&h.blob_type()), want_ty(&f.segs[i]), "skimmed type");
                    check_eq!(h.get_blob_size(), f.size[i] as i32, "blob size");
                    check_eq!(off.map(|o| o.0), Some(f.off[i] as u64), "skimmed offset");
                }
                x => return fail(format!("skim {i}: {:?}", x.map(|y| y.map(|_| ()).map_err(|e| e.to_string())))),
            }
        }
        Ok(())
    });
    let near = near_names();
    let near = scenario(
        "near misses",
        format!("a blob of each of {} type names one edit away from the known ones, holding a valid data block or header, between two data blobs: blobs, skimmed headers, elements, the indexed reader and the memory map take it for an unknown one", near.len()),
        move |c| {
            let n = c.pick("name", &near).clone();
            let content = if c.flag("header") { std_header().encode() } else { way_block(vec![way(44, &[3])]).encode() };
            let f = lay_out(vec![Seg::data(one_node(3)), Seg::other(&n, &content).st(*c.pick("storage", &[Storage::Raw, Storage::Zlib(6)])), Seg::data(one_node(4))]);
            obs_file(c, &f, 0);
            iterate(c, &mut BlobReader::new(Src::plain(&f.bytes)), &f, 0, false)?;
            let Ok(r) = BlobReader::new_seekable(Src::plain(&f.bytes)) else { return fail("new_seekable") };
            let mut q = r.clone();
            for s in &f.segs {
                match q.next_header_skip_blob() {
                    Some(Ok((h, _))) => check_eq!(ty_name(&h.blob_type()), want_ty(s), "skimmed type of {n:?}"),
                    _ => return fail(format!("skimming past {n:?}")),
                }
            }
            crate::p_elem::read_every_way(c, &f)
        },
    );
    let long_names = scenario(
        "lengths of names",
        "1 or 2 blobs of an unknown type whose name has one of 22 lengths from 0 to 65 000 bytes (ASCII, or characters of two bytes), the blob message missing altogether (size 0), empty, with empty or with some content, with or without index data, before, between or behind data blobs: blobs, skimmed headers, elements, queries and the memory map see each of them",
        |c| {
            let n = *c.pick("length", &[0usize, 1, 2, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 1000, 4095, 4097, 65_000]);
            let name = if c.flag("two bytes each") { "ü".repeat(n / 2) } else { "x".repeat(n) };
            let body = match c.choose("body", 4) {
                0 | 1 => vec![],
                2 => blob_msg(b"", Storage::Raw),
                _ => blob_msg(b"abc", Storage::Raw),
            };
            let index: Option<&[u8]> = if c.flag("index data") { Some(b"12345") } else { None };
            let times = 1 + c.choose("times", 2);
            let at = c.choose("place", 3);
            let odd = segment_raw(&blob_header(&name, index, body.len() as i64, 0), &body);
            let node = |i| segment("OSMData", &one_node(i).encode(), Storage::Raw);
            // (type, size) of each, ids of the nodes
            let mut parts: Vec<(Vec<u8>, Option<i64>)> = vec![(node(3), Some(3)), (node(4), Some(4))];
            for _ in 0..times {
                parts.insert(at, (odd.clone(), None));
            }
            let bytes: Arc<Vec<u8>> = Arc::new(parts.iter().flat_map(|p| p.0.iter().copied()).collect());
            c.observe(&bytes);
            c.state(&bytes);
            c.steps(5 * parts.len());
            let want: Vec<String> = parts.iter().map(|p| if p.1.is_some() { "OSMData".into() } else { name.clone() }).collect();
            let ids: Vec<i64> = parts.iter().filter_map(|p| p.1).collect();
            let e = |e: Error| Fail::from(format!("a valid file with a name of {} bytes: {e}", name.len()));
            let blobs = BlobReader::new(Src::plain(&bytes)).collect::<Result<Vec<_>>>().map_err(e)?;
            check!(blobs.iter().map(|b| b.get_type().as_str().to_string()).collect::<Vec<_>>() == want, "types of blobs ({} bytes)", name.len());
            for (b, w) in blobs.iter().zip(&want) {
                if let BlobDecode::Unknown(x) = b.decode().map_err(e)? {
                    check!(x == w, "type of a decoded blob ({} bytes)", name.len());
                } else {
                    check!(w == "OSMData", "an unknown blob was decoded");
                }
            }
            let mut r = BlobReader::new_seekable(Src::plain(&bytes)).map_err(e)?;
            let mut off = 0;
            for (p, w) in parts.iter().zip(&want) {
                match r.next_header_skip_blob() {
                    Some(Ok((h, o))) => {
                        check!(h.blob_type().as_str() == w, "type of a skimmed header ({} bytes)", name.len());
                        check_eq!(o.map(|o| o.0), Some(off), "offset of a skimmed header");
                        if p.1.is_none() {
                            check_eq!(h.get_blob_size() as usize, body.len(), "size of a skimmed blob");
                        }
                    }
                    _ => return fail(format!("skimming past a name of {} bytes", name.len())),
                }
                off += p.0.len() as u64;
            }
            check!(r.next_header_skip_blob().is_none(), "skimming goes on behind the end");
            let id = |x: &Element| vcore::view::element(x).id;
            let mut v = vec![];
            ElementReader::new(Src::plain(&bytes)).for_each(|x| v.push(id(&x))).map_err(e)?;
            check!(v == ids, "elements: {v:?}");
            let mut v = vec![];
            IndexedReader::new(Src::plain(&bytes)).and_then(|mut r| r.for_each_node(|x| v.push(id(&x)))).map_err(e)?;
            check!(v == ids, "nodes of an indexed query: {v:?}");
            if let Ok(m) = MemFile::new(&bytes).mmap() {
                let blobs = m.blob_iter().collect::<Result<Vec<_>>>().map_err(e)?;
                check!(blobs.iter().map(|b| b.get_type().as_str().to_string()).collect::<Vec<_>>() == want, "types of mapped blobs ({} bytes)", name.len());
                for (b, w) in blobs.iter().zip(&want) {
                    if let BlobDecode::Unknown(x) = b.decode().map_err(e)? {
                        check!(x == w, "type of a decoded mapped blob");
                    }
                }
            }
            Ok(())
        },
    );
    let very = scenario("very many blobs", "files of 65 535, 65 536, 65 537 and 70 001 small blobs, read through every reader", move |c| {
        let n = *c.pick("blobs", &[65_535usize, 65_536, 65_537, 70_001]);
        let kind = c.choose("kind", 3);
        c.observe(&(n, kind));
        c.state(&(n, kind));
        crate::p_elem::read_every_way(c, &many_blobs(n, kind))
    });
    let spell = scenario(
        "header spellings",
        "two blobs whose headers and bodies are written in every combination of: field order, size written with 0/1/4/9 padding bytes, type length with 0/1/4, tags with 0/1/4, unknown fields nowhere/in front/behind/between/as group, a superseded earlier datasize/type/indexdata, body padding 0/3; then a plain blob",
        |c| {
            let s = Spelling {
                size_pad: *c.pick("size", &[0usize, 1, 4, 9]),
                type_pad: *c.pick("type", &[0usize, 1, 4]),
                tag_pad: *c.pick("tag", &[0usize, 1, 4]),
                unknown: c.choose("unknown", 5),
                dup: c.choose("dup", 4),
                order: c.choose("order", 2),
                body_pad: *c.pick("body", &[0usize, 3]),
            };
            let m = one_node(4);
            let (h, b) = spelled("OSMData", &m.encode(), s);
            let p = one_node(5);
            let (ph, pb) = spelled("OSMData", &p.encode(), Spelling::default());
            let hd = std_header();
            let (hh, hb) = spelled("OSMHeader", &hd.encode(), s);
            let f = lay_out_raw(vec![(Seg::header(hd), hh, hb), (Seg::data(m), h, b), (Seg::data(p), ph, pb)]);
            obs_file(c, &f, 0);
            c.sample(|| format!("{s:?}"));
            iterate(c, &mut BlobReader::new(Src::plain(&f.bytes)), &f, 0, false)?;
            let Ok(mut r) = BlobReader::new_seekable(Src::plain(&f.bytes)) else { return fail("new_seekable") };
            iterate(c, &mut r, &f, 0, true)?;
            check!(r.seek(ByteOffset(0)).is_ok(), "seek");
            for i in 0..3 {
                match r.next_header_skip_blob() {
                    Some(Ok((h, off))) => {
                        check_eq!(ty_name(&h.blob_type()), want_ty(&f.segs[i]), "skimmed type");
                        check_eq!(h.get_blob_size(), f.size[i] as i32, "blob size");
                        check_eq!(off.map(|o| o.0), Some(f.off[i] as u64), "skimmed offset");
                    }
                    x => return fail(format!("skim {i}: {:?}", x.map(|y| y.map(|_| ()).map_err(|e| e.to_string())))),
                }
            }
            for i in 0..3 {
                match r.blob_from_offset(ByteOffset(f.off[i] as u64)) {
                    Ok(b) => blob_is(&b, &f.segs[i], Off::Is(f.off[i] as u64))?,
                    Err(e) => return fail(format!("blob {i} by its offset: {e}")),
                }
            }
            let m = MemFile::new(&f.bytes);
            let map = m.mmap()?;
            let v = mmap_story(&map, 9);
            check_eq!(v.len(), 3, "blobs in the map");
            for (i, x) in v.iter().enumerate() {
                check_eq!(x.1, f.off[i] as u64, "offset in the map");
                dec_matches(&x.2, &f.segs[i].content)?;
            }
            Ok(())
        },
    );
    let (files, nf) = damage_files(lvl);
    let f1 = files.clone();
    let frag_max = scenario("uniform fragmentation", format!("{nf}; the source returns at most m bytes per read, m in 1..=40 and 60, 100"), move |c| {
        let (_, f) = &f1[c.choose("file", f1.len())];
        let m = match c.choose("max", 42) {
            40 => 60,
            41 => 100,
            m => m + 1,
        };
        obs_file(c, f, m);
        let s = Script { max: m, ..Default::default() };
        iterate(c, &mut BlobReader::new(Src::new(f.bytes.clone(), s.clone())), f, 0, false)?;
        match BlobReader::new_seekable(Src::new(f.bytes.clone(), s)) {
            Ok(mut r) => iterate(c, &mut r, f, 0, true),
            Err(e) => fail(format!("new_seekable: {e}")),
        }
    });
    let f2 = files.clone();
    let pairs = lvl >= 1;
    let frag_split = scenario(
        "split fragmentation",
        format!("{nf}; reads are cut at one or two positions, every position and{} every pair", if pairs { "" } else { " in some files" }),
        move |c| {
            let fi = c.choose("file", f2.len());
            let (_, f) = &f2[fi];
            let n = f.bytes.len();
            if n < 2 {
                return Ok(());
            }
            let a = 1 + c.choose("first cut", n - 1);
            let mut splits = vec![a as u64];
            if pairs || fi == 1 || fi == 2 || fi == 4 {
                let b = a + c.choose("second cut", n - a);
                if b > a {
                    splits.push(b as u64);
                }
            }
            let h = hash_of(&splits) as usize;
            obs_file(c, f, h);
            let s = Script { splits, ..Default::default() };
            iterate(c, &mut BlobReader::new(Src::new(f.bytes.clone(), s)), f, 0, false)
        },
    );
    let intr = scenario("one short read", format!("{nf}; one read (any call index) returns 1, 2, 3 or 5 bytes"), {
        let f3 = files.clone();
        move |c| {
            let (_, f) = &f3[c.choose("file", f3.len())];
            let k = c.choose("call", 5 * f.segs.len() + 4);
            let m = [1usize, 2, 3, 5][c.choose("bytes", 4)];
            obs_file(c, f, k * 8 + m);
            let s = Script { acts: vec![(k, Act::Short(m))], ..Default::default() };
            iterate(c, &mut BlobReader::new(Src::new(f.bytes.clone(), s)), f, 0, false)
        }
    });
    let mut sizes: Vec<usize> = vec![0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 16382, 16383, 16384, 16385];
    for b in [4096usize, 8192, 12288, 32768, 65536] {
        let d = if th { 40 } else { 12 };
        sizes.extend(b - d..b + d / 2);
    }
    sizes.extend([100_000, 131_072, 200_000, 1 << 20, (1 << 20) + 1]);
    if th {
        sizes.extend([2_097_151, 2_097_152, 4_194_304, 8_388_608, 16_777_216, 33_554_432, 40_000_000]);
    }
    let szs = sizes.clone();
    let body_sizes = scenario(
        "body sizes",
        format!("a blob of each of {} content sizes between two small ones; reads unlimited or at most 4096/1000 bytes", szs.len()),
        move |c| {
            let n = *c.pick("size", &szs);
            let m = [0usize, 4096, 1000][c.choose("max", 3)];
            let junk: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
            let f = lay_out(vec![Seg::data(one_node(1)), Seg::other("X", &junk), Seg::data(one_node(2))]);
            c.observe(&(n, m));
            c.state(&(n, m));
            let s = Script { max: m, ..Default::default() };
            let src = Src::new(f.bytes.clone(), s);
            let log = src.log.clone();
            let Ok(mut r) = BlobReader::new_seekable(src) else { return fail("new_seekable") };
            iterate(c, &mut r, &f, 0, true)?;
            check_eq!(log.lock().unwrap().bytes, f.bytes.len() as u64, "bytes consumed");
            Ok(())
        },
    );
    let mut hs: Vec<usize> = vec![0, 1, 100, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 127, 128, 129, 255, 256, 1000];
    hs.extend(4096 - 24..4100);
    hs.extend(8192 - 24..8196);
    hs.extend(16384 - 24..16388);
    hs.extend(65535 - 22..65535 - 12);
    let header_sizes = scenario(
        "header sizes",
        format!("headers padded with indexdata, {} sizes up to the largest allowed header; reads unlimited or at most 4096/7 bytes", hs.len()),
        move |c| {
            let n = *c.pick("indexdata", &hs);
            let m = [0usize, 4096, 7][c.choose("max", 3)];
            let o = c.choose("order", 6) as u8;
            let f = lay_out(vec![Seg::data(one_node(1)).index(n).order(o), Seg::data(one_node(2))]);
            if f.hdr[0] >= 65536 {
                c.redundant();
                return Ok(());
            }
            c.observe(&(n, m, o));
            c.state(&(n, o));
            let s = Script { max: m, ..Default::default() };
            let Ok(mut r) = BlobReader::new_seekable(Src::new(f.bytes.clone(), s)) else { return fail("new_seekable") };
            iterate(c, &mut r, &f, 0, true)?;
            check!(n < 65500 || f.hdr[0] > 65500, "harness");
            Ok(())
        },
    );
    let mut counts = vec![4usize, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 5000];
    if th {
        counts.extend([20_000, 65_535, 65_536, 65_537, 150_000]);
    }
    let many = scenario("many blobs", format!("files of {counts:?} blobs, three content patterns"), move |c| {
        let n = *c.pick("count", &counts);
        let p = c.choose("pattern", 3);
        let segs = (0..n)
            .map(|i| match (p, i % 5) {
                (0, _) => Seg::data(one_node(i as i64)),
                (1, 0) => Seg::other("X", b"1"),
                (1, 1) => Seg::header(std_header()),
                (1, _) => Seg::data(one_node(-(i as i64))).st(Storage::ZlibStored(3)),
                (_, _) => Seg::data(dense_block(&[i as i64, 3])).index(i % 300),
            })
            .collect();
        let f = lay_out(segs);
        c.observe(&(n, p));
        c.state(&(n, p));
        let Ok(mut r) = BlobReader::new_seekable(Src::plain(&f.bytes)) else { return fail("new_seekable") };
        iterate(c, &mut r, &f, 0, true)
    });
    let start = scenario(
        "start position",
        "new_seekable on a source already positioned at any blob boundary, in front of it 0, 1, 2^31-1, 2^31, 2^32-1, 2^32, 5*2^30 or 2^40 bytes",
        |c| {
            let f = lay_out(vec![Seg::header(std_header()), Seg::data(one_node(1)).st(Storage::Zlib(6)), Seg::data(one_node(2)), Seg::other("X", b"1")]);
            let base = *c.pick("base", &[0u64, 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, (1 << 32) - 60, 1 << 32, 5 << 30, 1 << 40]);
            let i = c.choose("boundary", f.segs.len() + 1);
            let mut sp = Sparse::new(vec![(base, f.bytes.to_vec())], base + f.bytes.len() as u64);
            sp.seek(SeekFrom::Start(base + f.off[i] as u64)).unwrap();
            c.observe(&(base, i));
            c.state(&(base, i));
            let rest = Pbf { bytes: f.bytes.clone(), segs: f.segs[i..].to_vec(), off: f.off[i..].to_vec(), size: f.size[i..].to_vec(), hdr: f.hdr[i..].to_vec() };
            match BlobReader::new_seekable(sp) {
                Ok(mut r) => iterate(c, &mut r, &rest, base, true),
                Err(e) => fail(format!("new_seekable: {e}")),
            }
        },
    );
    Property {
        id: "C01",
        scenarios: vec![layouts, names, long_names, near, very, spell, frag_max, frag_split, intr, body_sizes, header_sizes, many, start],
        assumptions: vec!["sources obey the Read/Seek contracts".into()],
    }
}

// ---------------------------------------------------------------------------------------------

/// What iteration over possibly damaged input must deliver: blobs 0..ok, then the given ending.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Clean,
    Error,
}

fn iterate_damaged<R: Read + Send>(c: &mut Ctx, r: &mut BlobReader<R>, f: &Pbf, ok: usize, end: End) -> Res {
    for i in 0..ok {
        c.step();
        match r.next() {
            Some(Ok(b)) => blob_is(&b, &f.segs[i], Off::NoneOr(f.off[i] as u64)).map_err(|e| Fail::from(format!("blob {i}: {}", e.msg)))?,
            Some(Err(e)) => return fail(format!("blob {i} is intact, but: error {e}")),
            None => return fail(format!("blob {i} is intact, but iteration ended")),
        }
    }
    c.step();
    match (r.next(), end) {
        (None, End::Clean) | (Some(Err(_)), End::Error) => {}
        (None, End::Error) => return fail(format!("clean end after {ok} blobs, although the input is cut inside blob {ok}")),
        (Some(Ok(b)), _) => return fail(format!("blob {:?} delivered although blob {ok} is not complete", b.get_type())),
        (Some(Err(e)), End::Clean) => return fail(format!("error instead of a clean end: {e}")),
    }
    for _ in 0..3 {
        c.step();
        if let Some(x) = r.next() {
            return fail(format!("iteration continues after its end/error: {:?}", x.map(|_| ()).map_err(|e| e.to_string())));
        }
    }
    Ok(())
}

fn cut_expectation(f: &Pbf, cut: usize) -> (usize, End) {
    let ok = f.off.iter().filter(|o| **o <= cut).count() - 1;
    (ok, if f.off[ok] == cut { End::Clean } else { End::Error })
}

pub fn c02(lvl: u8) -> Property {
    let th = lvl >= 1;
    let (files, nf) = damage_files(lvl);
    let f1 = files.clone();
    let stream = scenario("stream", format!("{nf} cut at every byte position; new and new_seekable; unlimited, 1- and 3-byte reads"), move |c| {
        let (name, f) = &f1[c.choose("file", f1.len())];
        let cut = c.choose("cut", f.bytes.len() + 1);
        let max = [0usize, 1, 3][c.choose("max", 3)];
        let (ok, end) = cut_expectation(f, cut);
        c.observe(&(f.bytes[..cut].to_vec(), max));
        c.state(&(&f.bytes[..cut]));
        c.sample(|| format!("{name} cut at {cut} of {}: {ok} blobs then {end:?}", f.bytes.len()));
        let d = Arc::new(f.bytes[..cut].to_vec());
        let s = Script { max, ..Default::default() };
        iterate_damaged(c, &mut BlobReader::new(Src::new(d.clone(), s.clone())), f, ok, end)?;
        match BlobReader::new_seekable(Src::new(d.clone(), s)) {
            Ok(mut r) => iterate_damaged(c, &mut r, f, ok, end)?,
            Err(e) => return fail(format!("new_seekable: {e}")),
        }
        reader_laws(&d, None)
    });
    let f2 = files.clone();
    let mm = scenario("mmap", format!("{nf} cut at every byte position, memory mapped"), move |c| {
        let (_, f) = &f2[c.choose("file", f2.len())];
        let cut = c.choose("cut", f.bytes.len() + 1);
        let (ok, end) = cut_expectation(f, cut);
        c.observe(&(f.bytes[..cut].to_vec()));
        c.state(&(&f.bytes[..cut]));
        let m = MemFile::new(&f.bytes[..cut]);
        let map = m.mmap()?;
        let mut it = map.blob_iter();
        for i in 0..ok {
            c.step();
            match it.next() {
                Some(Ok(b)) => {
                    check_eq!(b.offset().0, f.off[i] as u64, "offset of blob {i}");
                    dec_matches(&dec_of(b.decode()), &f.segs[i].content)?;
                }
                Some(Err(e)) => return fail(format!("blob {i} is intact, but: error {e}")),
                None => return fail(format!("blob {i} is intact, but iteration ended")),
            }
        }
        match (it.next(), end) {
            (None, End::Clean) | (Some(Err(_)), End::Error) => {}
            (None, End::Error) => return fail("clean end although the map is cut inside a blob"),
            (Some(Ok(_)), _) => return fail("an incomplete blob is delivered"),
            (Some(Err(e)), End::Clean) => return fail(format!("error instead of a clean end: {e}")),
        }
        for _ in 0..3 {
            check!(it.next().is_none(), "iteration continues after its end/error");
        }
        reader_laws(&Arc::new(f.bytes[..cut].to_vec()), Some(&map))
    });
    let f3 = files.clone();
    let elem = scenario("elements", format!("{nf} cut at every byte position: for_each, par_map_reduce, read_ways_and_deps, for_each_node"), move |c| {
        let (_, f) = &f3[c.choose("file", f3.len())];
        let cut = c.choose("cut", f.bytes.len() + 1);
        let api = c.choose("api", 4);
        let (ok, end) = cut_expectation(f, cut);
        c.observe(&(f.bytes[..cut].to_vec(), api));
        c.state(&(&f.bytes[..cut], api));
        let src = Src::plain(&Arc::new(f.bytes[..cut].to_vec()));
        let whole = elem_ids(&f.segs);
        let intact = elem_ids(&f.segs[..ok]);
        let mut got: Vec<(u8, i64)> = vec![];
        c.step();
        let res: Result<()> = match api {
            0 => ElementReader::new(src).for_each(|e| got.push(ident(&e))),
            1 => ElementReader::new(src)
                .par_map_reduce(|e| vec![ident(&e)], Vec::new, |mut a, b| {
                    a.extend(b);
                    a
                })
                .map(|v| got = v),
            2 => IndexedReader::new(src).and_then(|mut r| r.read_ways_and_deps(|_| true, |e| got.push(ident(e)))),
            _ => IndexedReader::new(src).and_then(|mut r| r.for_each_node(|e| got.push(ident(&e)))),
        };
        match (&res, end) {
            (Ok(()), End::Error) => {
                // Only the body of a blob without elements may be cut unnoticed, and only by
                // the indexed interface, which never looks at such bodies.
                let body = cut >= f.off[ok] + 4 + f.hdr[ok];
                let may = api >= 2 && body && !f.segs[ok].is_data();
                check!(may, "Ok although the input is cut inside blob {ok} of {}", f.segs.len());
            }
            (Err(e), End::Clean) => return fail(format!("a file cut at a blob boundary is a valid file, but: {e}")),
            _ => {}
        }
        if api == 0 {
            got.sort();
            let mut w = intact.clone();
            w.sort();
            check_eq!(got, w, "for_each delivers exactly the elements of the intact blobs");
        } else if res.is_ok() && api == 1 {
            got.sort();
            let mut w = intact.clone();
            w.sort();
            check_eq!(got, w, "par_map_reduce result");
        } else {
            for g in &got {
                check!(whole.contains(g), "an element that is not in the file: {g:?}");
            }
        }
        Ok(())
    });
    let f4 = files.clone();
    let skim = scenario("skim", format!("{nf} cut at every byte position: header skimming"), move |c| {
        let (_, f) = &f4[c.choose("file", f4.len())];
        let cut = c.choose("cut", f.bytes.len() + 1);
        let (ok, end) = cut_expectation(f, cut);
        c.observe(&(f.bytes[..cut].to_vec()));
        c.state(&(&f.bytes[..cut]));
        let Ok(mut r) = BlobReader::new_seekable(Src::plain(&Arc::new(f.bytes[..cut].to_vec()))) else { return fail("new_seekable") };
        let mut heads = 0;
        let mut err = false;
        for _ in 0..f.segs.len() + 3 {
            c.step();
            match r.next_header_skip_blob() {
                Some(Ok((h, o))) => {
                    check!(heads < f.segs.len(), "surplus header");
                    check_eq!(ty_name(&h.blob_type()), want_ty(&f.segs[heads]), "type of header {heads}");
                    check_eq!(h.get_blob_size(), f.size[heads] as i32, "size in header {heads}");
                    check_eq!(o.map(|x| x.0), Some(f.off[heads] as u64), "offset of header {heads}");
                    heads += 1;
                }
                Some(Err(_)) => {
                    err = true;
                    break;
                }
                None => break,
            }
        }
        let head_complete = ok < f.segs.len() && cut >= f.off[ok] + 4 + f.hdr[ok];
        if end == End::Error && !head_complete {
            check!(err, "the input is cut inside header {ok}, skimming ends without an error");
            check_eq!(heads, ok, "headers before the cut");
        } else {
            check!(heads == ok || (head_complete && heads == ok + 1), "{heads} headers reported, {ok} blobs intact");
            check!(end == End::Error || !err, "error on a file cut at a boundary");
        }
        Ok(())
    });
    let f5 = files.clone();
    let maxes: &'static [usize] = if th { &[0, 1, 2, 3, 5, 8, 13, 40] } else { &[0, 1, 3, 8] };
    let passing = scenario(
        "passing end",
        format!("{nf} x reads of at most {maxes:?} bytes x every read: it and the next 0..=2 report the end, later reads deliver the rest; new, new_seekable, skimming, for_each"),
        move |c| {
            let (_, f) = &f5[c.choose("file", f5.len())];
            let max = *c.pick("max", maxes);
            let api = c.choose("api", 4);
            let run = |src: Src| -> (usize, usize, bool) {
                // blobs (or headers, or elements), errors, ended
                let (mut got, mut errs) = (0, 0);
                let limit = f.segs.len() + 3;
                if api == 3 {
                    let r = ElementReader::new(src).for_each(|_| got += 1);
                    return (got, r.is_err() as usize, true);
                }
                let r = match api {
                    0 => Ok(BlobReader::new(src)),
                    _ => BlobReader::new_seekable(src),
                };
                let Ok(mut r) = r else { return (0, 1, true) };
                for _ in 0..limit {
                    let x = match api {
                        2 => r.next_header_skip_blob().map(|x| x.map(drop)),
                        _ => r.next().map(|x| x.map(drop)),
                    };
                    match x {
                        Some(Ok(())) => got += 1,
                        Some(Err(_)) => errs += 1,
                        None if errs == 0 => return (got, 0, true),
                        None => {
                            // no way back after an error, in either form of iteration
                            for i in 0..3 {
                                let other = if i == 1 { r.next_header_skip_blob().map(drop) } else { r.next().map(drop) };
                                if other.is_some() {
                                    return (got, errs, false);
                                }
                            }
                            return (got, errs, true);
                        }
                    }
                }
                (got, errs, false)
            };
            let free = Src::new(f.bytes.clone(), Script { max, ..Default::default() });
            let log = free.log.clone();
            run(free);
            let n = log.lock().unwrap().calls;
            let k = c.choose("ending read", n);
            let ends = 1 + c.choose("further ends", 3);
            c.observe(&(&f.bytes, max, api, k, ends));
            c.state(&(&f.bytes, max, api, k));
            c.steps(f.segs.len());
            let src = Src::new(f.bytes.clone(), Script { max, acts: (k..k + ends).map(|k| (k, Act::Eof)).collect(), ..Default::default() });
            let log = src.log.clone();
            let (got, errs, ended) = run(src);
            check!(ended, "iteration goes on after an error ({got} items, {errs} errors)");
            let Some(at) = log.lock().unwrap().ended_at else { return Ok(()) }; // the call was a seek
            let (ok, end) = cut_expectation(f, at as usize);
            let want = if api == 3 { elem_ids(&f.segs[..ok]).len() } else { ok };
            check_eq!(got, want, "items in front of the end reported at byte {at}");
            check_eq!(errs, (end == End::Error) as usize, "errors for an end reported at byte {at}");
            Ok(())
        },
    );
    let big = scenario(
        "large segments",
        "bodies of 4096..70000 bytes made of several fields and headers of 4096..65535 bytes: cut at every field boundary, buffer boundary and their neighbours",
        move |c| {
            let which = c.choose("file", if th { 8 } else { 6 });
            let mk_body = |n: usize| {
                let mut w = W(blob_msg(&one_node(4).encode(), Storage::Raw));
                let mut marks = vec![w.0.len()];
                for k in 0..6 {
                    w.bytes(150 + k, &vec![k as u8; n / 6]);
                    marks.push(w.0.len());
                }
                (w.0, marks)
            };
            let (h, b, marks): (Vec<u8>, Vec<u8>, Vec<usize>) = match which {
                0 | 1 | 2 | 6 => {
                    let (b, m) = mk_body([4200, 9000, 70000, 0, 0, 0, 300_000, 0][which]);
                    let h = blob_header("OSMData", None, b.len() as i64, 0);
                    let hl = 4 + h.len();
                    (h, b, m.iter().map(|x| x + hl).collect())
                }
                _ => {
                    let b = blob_msg(&one_node(4).encode(), Storage::Raw);
                    let mut h = W(blob_header("OSMData", None, b.len() as i64, 0));
                    let mut m = vec![4 + h.0.len()];
                    let n = [0, 0, 0, 4000, 9000, 60000, 0, 65000][which];
                    for k in 0..5 {
                        h.bytes(60 + k, &vec![1; n / 5]);
                        m.push(4 + h.0.len());
                    }
                    (h.0, b, m)
                }
            };
            let seg = segment_raw(&h, &b);
            let first = segment("OSMData", &one_node(3).encode(), Storage::Raw);
            let mut cuts: Vec<usize> = vec![];
            for m in marks.iter().copied().chain((1..=20).map(|k| k * 4096)).chain([h.len() + 4, seg.len() - 1]) {
                for d in 0..5 {
                    let x = (m + d).saturating_sub(2);
                    if x > 0 && x < seg.len() {
                        cuts.push(x);
                    }
                }
            }
            cuts.sort();
            cuts.dedup();
            let cut = cuts[c.choose("cut", cuts.len())];
            c.observe(&(which, cut));
            c.state(&(which, cut));
            let mut d = first.clone();
            d.extend(&seg[..cut]);
            let d = Arc::new(d);
            let mut r = BlobReader::new(Src::plain(&d));
            c.steps(2);
            match r.next() {
                Some(Ok(b)) => blob_is(&b, &Seg::data(one_node(3)), Off::NoneOr(0))?,
                _ => return fail("first blob"),
            }
            match r.next() {
                Some(Err(_)) => {}
                Some(Ok(_)) => return fail(format!("blob cut at byte {cut} of {} is delivered", seg.len())),
                None => return fail(format!("blob cut at byte {cut} of {} passes as the end", seg.len())),
            }
            check!(r.next().is_none(), "iteration continues after the error");
            check!(ElementReader::new(Src::plain(&d)).for_each(|_| ()).is_err(), "for_each accepts a cut file");
            let m = MemFile::new(&d);
            let map = m.mmap()?;
            let v: Vec<bool> = map.blob_iter().take(9).map(|x| x.is_ok()).collect();
            check_eq!(v, vec![true, false], "mmap iteration");
            Ok(())
        },
    );
    let very = scenario("very many blobs", "70 001 small blobs cut in or behind blob 65 534 to 65 537 or the last, by 0 to 3 bytes: stream and for_each deliver what is in front of it, then an error unless nothing is missing", move |c| {
        let kind = c.choose("kind", 3);
        let f = many_blobs(70_001, kind);
        let k = *c.pick("cut", &[65_534usize, 65_535, 65_536, 65_537, 70_000]);
        let by = c.choose("by", 4);
        c.observe(&(kind, k, by));
        c.state(&(kind, k, by));
        let d = &f.bytes[..f.off[k + 1] - by];
        let (ok, end) = if by == 0 { (k + 1, End::Clean) } else { (k, End::Error) };
        iterate_damaged(c, &mut BlobReader::new(d), &f, ok, end)?;
        let mut got = vec![];
        let r = ElementReader::new(d).for_each(|e| got.push(ident(&e)));
        check_eq!(r.is_ok(), by == 0, "success of for_each");
        check_eq!(got, elem_ids(&f.segs[..ok]), "elements");
        Ok(())
    });
    Property { id: "C02", scenarios: vec![stream, mm, elem, skim, passing, big, very], assumptions: vec![] }
}

pub fn ident(e: &Element) -> (u8, i64) {
    match e {
        Element::Node(n) => (0, n.id()),
        Element::DenseNode(n) => (1, n.id()),
        Element::Way(n) => (2, n.id()),
        Element::Relation(n) => (3, n.id()),
    }
}
pub fn elem_ids(segs: &[Seg]) -> Vec<(u8, i64)> {
    let mut v = vec![];
    for s in segs {
        if let Content::Data(b) = &s.content {
            for g in &b.groups {
                v.extend(g.nodes.iter().map(|n| (0, n.id)));
                v.extend(g.dense.iter().flat_map(|d| d.nodes.iter().map(|n| (1, n.id))));
                v.extend(g.ways.iter().map(|n| (2, n.id)));
                v.extend(g.rels.iter().map(|n| (3, n.id)));
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------

use std::io::ErrorKind as IK;
pub const KINDS: [IK; 10] = [
    IK::Other,
    IK::UnexpectedEof,
    IK::WouldBlock,
    IK::Interrupted,
    IK::ConnectionReset,
    IK::InvalidData,
    IK::PermissionDenied,
    IK::TimedOut,
    IK::BrokenPipe,
    IK::NotFound,
];

/// all but the one that asks to try again
pub fn failures() -> Vec<IK> {
    ALL_KINDS.iter().copied().filter(|k| *k != IK::Interrupted).collect()
}

pub fn c03(lvl: u8) -> Property {
    let th = lvl >= 1;
    let (files, nf) = damage_files(lvl);
    let maxes: &'static [usize] = if th { &[0, 1, 2, 3, 5, 8, 13, 40] } else { &[0, 3, 8] };
    let f1 = files.clone();
    let stream = scenario(
        "stream",
        format!("{nf} x reads of at most {maxes:?} bytes x every call index x 10 (unlimited reads: all 33) error kinds x (once, persistent) x (new, new_seekable)"),
        move |c| {
            let (name, f) = &f1[c.choose("file", f1.len())];
            let max = *c.pick("max", maxes);
            let seekable = c.flag("seekable");
            let n = call_count(&f.bytes, max, seekable);
            let k = c.choose("failing call", n + 1);
            let kind = if max == 0 { *c.pick("kind", &ALL_KINDS) } else { *c.pick("kind", &KINDS) };
            let persistent = c.flag("persistent");
            let mut s = Script { max, ..Default::default() };
            if persistent {
                s.dead_from = Some((k, kind));
            } else {
                s.acts.push((k, Act::Fail(kind)));
            }
            c.observe(&(&f.bytes, max, seekable, k, kind, persistent));
            c.state(&(&f.bytes, max, k));
            c.sample(|| format!("{name}: call {k} of {n} fails with {kind:?}"));
            if persistent && kind == IK::Interrupted {
                // the Read contract asks callers to retry: nothing to demand
                return Ok(());
            }
            let src = Src::new(f.bytes.clone(), s);
            let log = src.log.clone();
            let mut r = if seekable {
                match BlobReader::new_seekable(src) {
                    Ok(r) => r,
                    Err(_) => {
                        check!(log.lock().unwrap().failed > 0, "new_seekable fails without a fault");
                        return Ok(());
                    }
                }
            } else {
                BlobReader::new(src)
            };
            let mut got = 0;
            let mut errs = 0;
            let mut ended = false;
            for _ in 0..f.segs.len() + 4 {
                c.step();
                match r.next() {
                    Some(Ok(b)) => {
                        check!(errs == 0, "a blob after an error");
                        check!(got < f.segs.len(), "surplus blob");
                        blob_is(&b, &f.segs[got], Off::NoneOr(f.off[got] as u64)).map_err(|e| Fail::from(format!("blob {got}: {}", e.msg)))?;
                        got += 1;
                    }
                    Some(Err(_)) => {
                        errs += 1;
                        check!(errs == 1, "a second error");
                    }
                    None => {
                        ended = true;
                        if errs == 0 {
                            break; // polling a source again after its end is not the subject
                        }
                    }
                }
            }
            check!(ended, "iteration does not end");
            let fired = log.lock().unwrap().failed > 0;
            if fired && kind != IK::Interrupted {
                check!(errs == 1, "the source failed with {kind:?} at call {k}, yet iteration ended cleanly after {got} of {} blobs", f.segs.len());
            }
            if errs == 0 {
                check!(got == f.segs.len(), "clean end after {got} of {} blobs", f.segs.len());
            }
            if !fired {
                check!(errs == 0, "an error without a fault");
            }
            Ok(())
        },
    );
    let f2 = files.clone();
    let elem = scenario(
        "elements",
        format!("{nf} x reads of at most 0/8 bytes x every call index x 4 (unlimited reads: all 32) error kinds x (once, persistent): for_each, par_map_reduce, read_ways_and_deps, for_each_node"),
        move |c| {
            let (_, f) = &f2[c.choose("file", f2.len())];
            let max = *c.pick("max", if th { &[0usize, 3, 8][..] } else { &[0usize, 8][..] });
            let api = c.choose("api", 4);
            let n = elem_call_count(&f.bytes, max, api);
            let k = c.choose("failing call", n + 1);
            let kind = if max == 0 { *c.pick("kind", &failures()) } else { *c.pick("kind", &[IK::Other, IK::UnexpectedEof, IK::WouldBlock, IK::InvalidData]) };
            let persistent = c.flag("persistent");
            let mut s = Script { max, ..Default::default() };
            if persistent {
                s.dead_from = Some((k, kind));
            } else {
                s.acts.push((k, Act::Fail(kind)));
            }
            c.observe(&(&f.bytes, max, api, k, kind, persistent));
            c.state(&(&f.bytes, max, api, k));
            c.step();
            let src = Src::new(f.bytes.clone(), s);
            let log = src.log.clone();
            let (res, mut got) = run_api(src, api);
            let fired = log.lock().unwrap().failed > 0;
            check!(!fired || res.is_err(), "api {api}: the source failed with {kind:?} at call {k}, yet the result is Ok");
            check!(fired || res.is_ok(), "api {api}: error without a fault");
            let all = elem_ids(&f.segs);
            if api == 0 {
                // a prefix, blob by blob
                let ok = (0..=f.segs.len()).any(|i| {
                    let mut w = elem_ids(&f.segs[..i]);
                    w.sort();
                    got.sort();
                    w == got
                });
                check!(ok, "for_each delivered {got:?}: not the elements of the leading blobs");
            } else {
                for g in &got {
                    check!(all.contains(g), "element {g:?} is not in the file");
                }
            }
            Ok(())
        },
    );
    let f3 = files.clone();
    let skim = scenario(
        "random access",
        format!("{nf} x reads of at most 0/5 bytes x every call index x 4 (unlimited reads: all 32) error kinds: skim all headers, then fetch every blob by offset, backwards"),
        move |c| {
            let (_, f) = &f3[c.choose("file", f3.len())];
            let max = *c.pick("max", if th { &[0usize, 1, 2, 3, 5, 8, 40][..] } else { &[0usize, 5][..] });
            let plan = |src: Src| -> (Vec<std::result::Result<Option<u64>, String>>, Vec<std::result::Result<Blob, String>>) {
                let mut heads = vec![];
                let mut blobs = vec![];
                let Ok(mut r) = BlobReader::new_seekable(src) else {
                    return (vec![Err("new".into())], vec![]);
                };
                for _ in 0..f.segs.len() + 2 {
                    match r.next_header_skip_blob() {
                        None => break,
                        Some(Ok((_, o))) => heads.push(Ok(o.map(|x| x.0))),
                        Some(Err(e)) => {
                            heads.push(Err(e.to_string()));
                            // nothing more until the position is set anew
                            for j in 0..4 {
                                if j % 2 == 0 {
                                    if let Some(x) = r.next() {
                                        blobs.push(Err(format!("next() after an error: {:?}", x.map(drop).map_err(|e| e.to_string()))));
                                    }
                                } else if let Some(x) = r.next_header_skip_blob() {
                                    blobs.push(Err(format!("skimming after an error: {:?}", x.map(drop).map_err(|e| e.to_string()))));
                                }
                            }
                        }
                    }
                }
                for i in (0..f.segs.len()).rev() {
                    blobs.push(r.blob_from_offset(ByteOffset(f.off[i] as u64)).map_err(|e| e.to_string()));
                }
                (heads, blobs)
            };
            let free = Src::new(f.bytes.clone(), Script { max, ..Default::default() });
            let log = free.log.clone();
            plan(free);
            let n = log.lock().unwrap().calls;
            let k = c.choose("failing call", n + 1);
            let kind = if max == 0 { *c.pick("kind", &failures()) } else { *c.pick("kind", &[IK::Other, IK::UnexpectedEof, IK::WouldBlock, IK::InvalidData]) };
            c.observe(&(&f.bytes, max, k, kind));
            c.state(&(&f.bytes, max, k));
            let src = Src::new(f.bytes.clone(), Script { max, acts: vec![(k, Act::Fail(kind))], ..Default::default() });
            let log = src.log.clone();
            c.steps(2 * f.segs.len());
            let (heads, blobs) = plan(src);
            let fired = log.lock().unwrap().failed > 0;
            let errs = heads.iter().filter(|x| x.is_err()).count() + blobs.iter().filter(|x| x.is_err()).count();
            check!(errs == fired as usize, "fault fired: {fired}, errors reported: {errs}: {heads:?} {:?}", blobs.iter().filter_map(|x| x.as_ref().err()).collect::<Vec<_>>());
            for (i, h) in heads.iter().enumerate() {
                if let Ok(o) = h {
                    check!(*o == Some(f.off[i] as u64) || o.is_none() && fired, "header {i} offset {o:?}");
                }
            }
            if !heads.iter().any(|x| x.is_err()) {
                check_eq!(heads.len(), f.segs.len(), "headers skimmed");
            }
            for (j, b) in blobs.iter().enumerate() {
                let i = f.segs.len() - 1 - j;
                if let Ok(b) = b {
                    blob_is(b, &f.segs[i], Off::NoneOr(f.off[i] as u64))?;
                }
            }
            Ok(())
        },
    );
    let f4 = files.clone();
    let moved = scenario(
        "failing seeks",
        format!("{nf}: read 0..=n blobs (next or skim), then a seek to each boundary (seek, seek_raw Start/Current/End) that fails, with or without having moved; then iteration: no offset that is not the true one, and after a seek that succeeds everything as if nothing had happened"),
        move |c| {
            let (_, f) = &f4[c.choose("file", f4.len())];
            let n = f.segs.len();
            let before = c.choose("before", n + 1);
            let skim = c.flag("skim");
            let target = c.choose("target", n + 1);
            let how = c.choose("how", 5);
            let moves = c.flag("moves");
            let kind = *c.pick("kind", &[IK::Other, IK::UnexpectedEof, IK::Interrupted, IK::InvalidInput]);
            // plays up to the seek; (reader, calls before the seek, result of the seek)
            let play = |src: Src| -> std::result::Result<(BlobReader<Src>, usize, Result<()>), Fail> {
                let log = src.log.clone();
                let Ok(mut r) = BlobReader::new_seekable(src) else { return Err("new_seekable".into()) };
                for i in 0..before {
                    let ok = if skim { matches!(r.next_header_skip_blob(), Some(Ok(_))) } else { matches!(r.next(), Some(Ok(_))) };
                    if !ok {
                        return Err(Fail::from(format!("blob {i}")));
                    }
                }
                let to = f.off[target] as u64;
                let here = f.off[before] as i64;
                let end = f.bytes.len() as i64;
                let k = log.lock().unwrap().calls;
                let res = match how {
                    0 => r.seek(ByteOffset(to)),
                    1 => r.seek_raw(std::io::SeekFrom::Start(to)).map(drop),
                    2 => r.seek_raw(std::io::SeekFrom::Current(to as i64 - here)).map(drop),
                    3 => r.seek_raw(std::io::SeekFrom::End(to as i64 - end)).map(drop),
                    _ => r.blob_from_offset(ByteOffset(to)).map(drop),
                };
                Ok((r, k, res))
            };
            c.observe(&(&f.bytes, before, skim, target, how, moves, kind));
            c.state(&(&f.bytes, before, target, moves));
            c.steps(n + 2);
            let (_, k, _) = play(Src::plain(&f.bytes))?;
            let act = if moves { Act::FailMoved(kind) } else { Act::Fail(kind) };
            let src = Src::new(f.bytes.clone(), Script { acts: vec![(k, act)], ..Default::default() });
            let log = src.log.clone();
            let (mut r, _, res) = play(src)?;
            if log.lock().unwrap().failed == 0 {
                return Ok(()); // nothing had to be asked of the source
            }
            if kind != IK::Interrupted {
                check!(res.is_err(), "the source failed, the reader says Ok");
            } else if res.is_ok() {
                return Ok(()); // tried again
            }
            // wherever it is now: content and offset belong together
            // (several places, if blobs are alike and the offset is unknown)
            let mut at = vec![before, target];
            for _ in 0..n + 1 {
                match r.next() {
                    Some(Ok(b)) => {
                        let here = at.clone();
                        at.retain(|i| *i < n && blob_is(&b, &f.segs[*i], Off::NoneOr(f.off[*i] as u64)).is_ok());
                        if at.is_empty() {
                            return fail(format!("after the failed seek a blob {:?} with offset {:?}: not blob {here:?}", b.get_type(), b.offset()));
                        }
                        at.iter_mut().for_each(|i| *i += 1);
                    }
                    Some(Err(e)) => return fail(format!("after the failed seek: {e}")),
                    None => break, // at the end; staying ended is fine, too
                }
            }
            if let Err(e) = r.seek(ByteOffset(f.off[target] as u64)) {
                return fail(format!("second seek: {e}"));
            }
            for i in target..n {
                match r.next() {
                    Some(Ok(b)) => blob_is(&b, &f.segs[i], Off::Is(f.off[i] as u64)).map_err(|e| Fail::from(format!("blob {i} after the second seek: {}", e.msg)))?,
                    Some(Err(e)) => return fail(format!("blob {i} after the second seek: {e}")),
                    None => return fail(format!("blob {i} after the second seek: end")),
                }
            }
            check!(r.next().is_none(), "surplus blob");
            Ok(())
        },
    );
    // structurally damaged segments between good ones: one error in their place, then the end
    let bad = damaged_list(2);
    let nb = bad.len();
    let damaged = scenario(
        "damaged segments",
        format!("{nb} undecodable headers and bodies (all one- and two-byte strings that are not protobuf, cut messages, absurd sizes) behind 0..=2 and in front of 0..=2 good blobs: the blobs before it, one error, then the end"),
        move |c| {
            let (name, b) = &bad[c.choose("damage", nb)];
            let before = c.choose("before", 3);
            let after = c.choose("after", 3);
            let f = lay_out((0..before).map(|i| Seg::data(one_node(i as i64 + 1))).collect());
            let mut d = f.bytes.to_vec();
            d.extend(b);
            for i in 0..after {
                d.extend(segment("OSMData", &one_node(100 + i as i64).encode(), Storage::Raw));
            }
            c.observe(&d);
            c.state(&d);
            c.sample(|| format!("{name} between {before} and {after} blobs"));
            let d = Arc::new(d);
            iterate_damaged(c, &mut BlobReader::new(Src::plain(&d)), &f, before, End::Error)?;
            match BlobReader::new_seekable(Src::plain(&d)) {
                Ok(mut r) => iterate_damaged(c, &mut r, &f, before, End::Error)?,
                Err(e) => return fail(format!("new_seekable: {e}")),
            }
            let (res, got) = run_api(Src::plain(&d), 0);
            check!(res.is_err(), "for_each accepts the file");
            check_eq!(got, elem_ids(&f.segs), "elements before the damage");
            Ok(())
        },
    );
    Property {
        id: "C03",
        scenarios: vec![stream, elem, skim, moved, damaged],
        assumptions: vec!["a source that keeps answering Interrupted may be retried forever (Read contract)".into()],
    }
}

/// Segments that cannot be decoded. `len`: whether to include all two-byte strings.
pub fn damaged_list(len: usize) -> Vec<(String, Vec<u8>)> {
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    let raw = |body: &[u8]| segment_raw(&blob_header("OSMData", None, body.len() as i64, 0), body);
    for a in 0..=255u8 {
        for b in (0..=256usize).skip(if len == 1 { 256 } else { 0 }) {
            let body: Vec<u8> = if b == 256 { vec![a] } else { vec![a, b as u8] };
            if !wire_ok(&body) {
                bad.push((format!("body {body:02x?}"), raw(&body)));
                let mut x = (body.len() as u32).to_be_bytes().to_vec();
                x.extend(&body);
                bad.push((format!("header {body:02x?}"), x));
            }
        }
    }
    for st in [Storage::Raw, Storage::RawSizeAfter, Storage::Zlib(6), Storage::ZlibSizeAfter(0)] {
        let m = blob_msg(&one_node(3).encode(), st);
        for cut in 1..m.len() {
            if !wire_ok(&m[..cut]) {
                bad.push((format!("{st:?} body cut to {cut} bytes and sized so"), raw(&m[..cut])));
            }
            let mut x = m[..cut].to_vec();
            x.push(0xFF);
            if !wire_ok(&x) {
                bad.push((format!("{st:?} body cut to {cut} bytes, then ff"), raw(&x)));
            }
        }
    }
    let h = blob_header("OSMData", Some(b"ix"), 5, 0);
    for cut in 1..h.len() {
        if !wire_ok(&h[..cut]) {
            let mut x = (cut as u32).to_be_bytes().to_vec();
            x.extend(&h[..cut]);
            bad.push((format!("header cut to {cut} bytes and sized so"), x));
        }
    }
    for v in [65536u32, 65537, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX] {
        bad.push((format!("header size {v}"), v.to_be_bytes().to_vec()));
    }
    for v in [-1i64, i32::MIN as i64] {
        bad.push((format!("datasize {v}"), segment_raw(&blob_header("OSMData", None, v, 0), &[])));
    }
    // what file systems, archives and transfers leave behind the last blob or between two
    for x in [0u8, 0xFF, b' ', b'\n', 0x1A, 0xE5] {
        for n in [4usize, 5, 8, 15, 16, 17, 31, 32, 63, 64, 65, 100, 128, 255, 256, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 8192, 10240, 65535, 65536, 65537, 1 << 20] {
            bad.push((format!("{n} times {x:02x}"), vec![x; n]));
        }
    }
    for x in [&b"\r\n\r\n"[..], b"PK\x03\x04\0\0", b"PK\x05\x06\0\0\0\0", b"\x1f\x8b\x08\0\0\0\0\0\0\x03", b"BZh91AY&SY", b"<osm version=\"0.6\"/>", b"<?xml version=\"1.0\"?>", b"o5m2", b"----", b"TAG\0\0\0\0\0"] {
        bad.push((format!("{:?}", String::from_utf8_lossy(x)), x.to_vec()));
        bad.push((format!("{:?} and zeros", String::from_utf8_lossy(x)), [x, &[0; 600]].concat()));
    }
    bad
}

/// Whether bytes are a sequence of complete protobuf fields as far as the wire format goes (groups
/// are not judged: true).
fn wire_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let varint = |i: &mut usize| -> Option<u64> {
        let mut v = 0u64;
        for k in 0..10 {
            let x = *b.get(*i)?;
            *i += 1;
            v |= ((x & 127) as u64).checked_shl(7 * k).unwrap_or(0);
            if x < 128 {
                return Some(v);
            }
        }
        None
    };
    while i < b.len() {
        let Some(t) = varint(&mut i) else { return false };
        if t >> 3 == 0 {
            return false;
        }
        match t & 7 {
            0 => {
                if varint(&mut i).is_none() {
                    return false;
                }
            }
            1 => i += 8,
            5 => i += 4,
            2 => match varint(&mut i) {
                Some(n) if n <= b.len() as u64 => i += n as usize,
                _ => return false,
            },
            3 | 4 => return true,
            _ => return false,
        }
        if i > b.len() {
            return false;
        }
    }
    true
}

pub fn run_api(src: Src, api: usize) -> (Result<()>, Vec<(u8, i64)>) {
    let mut got = vec![];
    let res = match api {
        0 => ElementReader::new(src).for_each(|e| got.push(ident(&e))),
        1 => ElementReader::new(src)
            .par_map_reduce(|e| vec![ident(&e)], Vec::new, |mut a, b| {
                a.extend(b);
                a
            })
            .map(|v| got = v),
        2 => IndexedReader::new(src).and_then(|mut r| r.read_ways_and_deps(|_| true, |e| got.push(ident(e)))),
        _ => IndexedReader::new(src).and_then(|mut r| r.for_each_node(|e| got.push(ident(&e)))),
    };
    (res, got)
}
fn elem_call_count(bytes: &Arc<Vec<u8>>, max: usize, api: usize) -> usize {
    let s = Src::new(bytes.clone(), Script { max, ..Default::default() });
    let log = s.log.clone();
    let _ = run_api(s, api);
    let n = log.lock().unwrap().calls;
    n
}
fn call_count(bytes: &Arc<Vec<u8>>, max: usize, seekable: bool) -> usize {
    let s = Src::new(bytes.clone(), Script { max, ..Default::default() });
    let log = s.log.clone();
    if seekable {
        if let Ok(r) = BlobReader::new_seekable(s) {
            r.for_each(drop);
        }
    } else {
        BlobReader::new(s).for_each(drop);
    }
    let n = log.lock().unwrap().calls;
    n
}

// ---------------------------------------------------------------------------------------------

/// What is undecodable, file, undecodable position, position of the good blob.
pub type Nested = (&'static str, Pbf, u64, u64);
pub fn nested_files() -> Vec<Nested> {
    // The content of the unknown blob is itself a piece of a file: something undecodable with a
    // good blob inside or behind it. (file, undecodable position, position of the good blob)
    let inner = segment("OSMData", &one_node(44).encode(), Storage::Raw);
    let bads: Vec<(&'static str, Vec<u8>, usize)> = vec![
        ("absurd length prefix", vec![0xFF; 4], 4),
        ("length prefix at the limit", 0x10000u32.to_be_bytes().to_vec(), 4),
        ("header is garbage", [&3u32.to_be_bytes()[..], &[0xFF; 3]].concat(), 7),
        ("header lacks datasize", segment_raw(&[10, 1, 88], &[]), 7),
        ("negative datasize", segment_raw(&blob_header("OSMData", None, -1, 0), &[]), segment_raw(&blob_header("OSMData", None, -1, 0), &[]).len()),
        ("body is garbage", segment_raw(&blob_header("OSMData", None, 5, 0), &[0xFF; 5]), segment_raw(&blob_header("OSMData", None, 5, 0), &[0xFF; 5]).len()),
        ("body behind the end", segment_raw(&blob_header("OSMData", None, 100_000, 0), &[]), segment_raw(&blob_header("OSMData", None, 100_000, 0), &[]).len()),
    ];
        bads.into_iter()
            .map(|(n, b, d)| {
                let f = lay_out(vec![
                    Seg::header(std_header()),
                    Seg::data(one_node(3)).st(Storage::ZlibSizeAfter(6)),
                    Seg::other("X", &[b, inner.clone()].concat()),
                    Seg::data(dense_block(&[5, 6])).index(2),
                ]);
                let p = f.bytes.windows(inner.len()).position(|w| w == inner).unwrap();
                (n, f, (p - d) as u64, p as u64)
            })
            .collect()
}

pub fn c04(th: bool) -> Property {
    let (depth, depth_bad) = if th { (5, 4) } else { (4, 3) };
    let inner_size = blob_msg(&one_node(44).encode(), Storage::Raw).len() as i32;
    let fs: Arc<Vec<Nested>> = Arc::new(nested_files());
    let inner = segment("OSMData", &one_node(44).encode(), Storage::Raw);
    let inner_len = inner.len() as u64;
    let inner_seg = Seg::data(one_node(44));
    let fs1 = fs.clone();
    let ops = scenario(
        "operation sequences",
        format!("all sequences of {depth} operations out of next, skim, seek (each boundary, end, past the end, garbage), seek_raw (Start/Current/End, by nothing, failing), blob_from_offset (each boundary, end, garbage), clone; on files of 4 blobs, one of which contains one of 7 kinds of undecodable data with a good blob behind it (both are seek targets); reads unlimited or at most 3 bytes (first kind only); depth {depth_bad} for the other kinds"),
        move |c| {
            let kind = c.choose("undecodable", fs1.len());
            let (_, f, bad, inner) = &fs1[kind];
            let (bad, inner) = (*bad, *inner);
            let n = f.segs.len();
            let len = f.bytes.len() as u64;
            let max = if kind == 0 { [0usize, 3][c.choose("max", 2)] } else { 0 };
            let depth = if kind == 0 { depth } else { depth_bad };
            let Ok(mut r) = BlobReader::new_seekable(Src::new(f.bytes.clone(), Script { max, ..Default::default() })) else { return fail("new_seekable") };
            // model: position, whether iteration has failed, whether offsets are known
            #[derive(Clone, Copy, Hash, PartialEq, Debug)]
            struct M {
                pos: u64,
                failed: bool,
                known: bool,
            }
            let mut m = M { pos: 0, failed: false, known: true };
            // blob starting at a position: segment, its body size, position behind it
            let at = |p: u64| -> Option<(&Seg, i32, u64)> {
                if p == inner {
                    return Some((&inner_seg, inner_size, inner + inner_len));
                }
                let i = f.off.iter().position(|o| *o as u64 == p)?;
                (i < n).then(|| (&f.segs[i], f.size[i] as i32, f.off[i + 1] as u64))
            };
            let mut clones: Vec<(BlobReader<Src>, M)> = vec![];
            for step in 0..depth {
                c.step();
                c.state(&(m, step, max, kind));
                let op = c.choose("op", 8);
                match op {
                    7 => {
                        // seeking by nothing tells where the reader stands, and reading goes on there
                        c.note(|| format!("seek by nothing from {m:?}"));
                        let q = match r.seek_raw(SeekFrom::Current(0)) {
                            Ok(q) => q,
                            Err(e) => return fail(format!("seek by nothing: {e}")),
                        };
                        check!(m.failed || q == m.pos, "the reader stands at {q}, expected {m:?}");
                        m = M { pos: q, failed: false, known: true };
                        if at(q).is_none() && q != bad && q < len {
                            // somewhere inside of a blob: go on at the first one instead
                            check!(matches!(r.seek_raw(SeekFrom::Current(-(q as i64))), Ok(0)), "relative seek to the start");
                            m.pos = 0;
                        }
                    }
                    0 | 1 => {
                        // next / skim
                        enum Out {
                            B(Blob),
                            H(BlobHeader, Option<ByteOffset>),
                        }
                        let out = if op == 0 { r.next().map(|x| x.map(Out::B)) } else { r.next_header_skip_blob().map(|x| x.map(|(a, b)| Out::H(a, b))) };
                        c.note(|| format!("op {op} at {m:?}"));
                        if m.failed || m.pos >= len {
                            check!(out.is_none(), "a result where there is no blob ({m:?})");
                            if m.pos >= len {
                                // the reader may forget its offset at the end of the file
                                m.known = false;
                            }
                        } else if let Some((seg, size, next)) = at(m.pos) {
                            let off = if m.known { Off::Is(m.pos) } else { Off::NoneOr(m.pos) };
                            match out {
                                Some(Ok(Out::B(b))) => {
                                    blob_is(&b, seg, off)?;
                                }
                                Some(Ok(Out::H(h, o))) => {
                                    check_eq!(ty_name(&h.blob_type()), want_ty(seg), "type");
                                    check_eq!(h.get_blob_size(), size, "size");
                                    check!(off_ok(o, off), "skimmed offset {o:?}, expected {off:?}");
                                    m.known = true;
                                }
                                Some(Err(e)) => return fail(format!("error at the valid blob at {}: {e}", m.pos)),
                                None => return fail(format!("no blob at the valid blob at {}", m.pos)),
                            }
                            m.pos = next;
                        } else if let Some(Ok(Out::H(_, o))) = &out {
                            // the header of a blob whose body is damaged or missing
                            check!(kind >= 5 && m.pos == bad, "a header at a position with garbage");
                            check!(off_ok(*o, if m.known { Off::Is(m.pos) } else { Off::NoneOr(m.pos) }), "skimmed offset {o:?}");
                            m.pos = if kind == 5 { inner } else { inner + 100_000 };
                        } else {
                            check!(matches!(out, Some(Err(_))), "no error at a position with garbage");
                            m.failed = true;
                            m.known = false;
                        }
                    }
                    2 | 3 => {
                        // seek / seek_raw to an absolute target
                        let t = c.choose("target", n + 4);
                        let p = match t {
                            t if t <= n => f.off[t] as u64,
                            t if t == n + 1 => len + 100,
                            t if t == n + 2 => bad,
                            _ => inner,
                        };
                        c.note(|| format!("op {op} to {p} from {m:?}"));
                        if op == 2 {
                            check!(r.seek(ByteOffset(p)).is_ok(), "seek to {p} fails");
                        } else {
                            let how = match c.choose("from", 3) {
                                0 => SeekFrom::Start(p),
                                1 => SeekFrom::End(p as i64 - len as i64),
                                _ => {
                                    // after an error, the reader says where it stands
                                    let at = if m.failed {
                                        match r.seek_raw(SeekFrom::Current(0)) {
                                            Ok(q) => q,
                                            Err(e) => return fail(format!("seek by nothing after an error: {e}")),
                                        }
                                    } else {
                                        m.pos
                                    };
                                    SeekFrom::Current(p as i64 - at as i64)
                                }
                            };
                            match r.seek_raw(how) {
                                Ok(x) => check_eq!(x, p, "seek_raw result"),
                                Err(e) => return fail(format!("seek_raw {how:?}: {e}")),
                            }
                        }
                        m = M { pos: p, failed: false, known: true };
                    }
                    4 => {
                        // failing seek: the position does not change
                        c.note(|| format!("failing seek from {m:?}"));
                        check!(r.seek_raw(SeekFrom::End(-(len as i64) - 1)).is_err(), "seek to a negative position succeeds");
                        m.known = false;
                    }
                    5 => {
                        let t = c.choose("target", n + 3);
                        let p = match t {
                            t if t <= n => f.off[t] as u64,
                            t if t == n + 1 => bad,
                            _ => inner,
                        };
                        c.note(|| format!("blob_from_offset {p} from {m:?}"));
                        match r.blob_from_offset(ByteOffset(p)) {
                            Ok(b) => {
                                let Some((seg, _, next)) = at(p) else { return fail(format!("blob_from_offset({p}) succeeds where there is no blob")) };
                                blob_is(&b, seg, Off::Is(p))?;
                                m = M { pos: next, failed: false, known: true };
                            }
                            Err(e) => {
                                check!(at(p).is_none(), "blob_from_offset({p}): {e}");
                                if t == n {
                                    m = M { pos: p, failed: false, known: false };
                                } else {
                                    m = M { pos: p, failed: true, known: false };
                                }
                            }
                        }
                    }
                    _ => {
                        let cl = r.clone();
                        clones.push((std::mem::replace(&mut r, cl), m));
                    }
                }
            }
            // every clone left behind is still where it was
            clones.push((r, m));
            for (mut r, m) in clones {
                c.observe(&m);
                match (r.next(), m.failed || m.pos >= len, at(m.pos)) {
                    (None, true, _) => {}
                    (Some(Ok(b)), false, Some((seg, _, _))) => blob_is(&b, seg, if m.known { Off::Is(m.pos) } else { Off::NoneOr(m.pos) })?,
                    (Some(Err(_)), false, None) => {}
                    (x, _, _) => return fail(format!("finally at {m:?}: {:?}", x.map(|y| y.map(|b| ty_name(&b.get_type())).map_err(|e| e.to_string())))),
                }
            }
            Ok(())
        },
    );
    let sizes: Vec<i64> = vec![0, 1, 127, 128, 16_383, 16_384, 65_535, 65_536, 1 << 20, (1 << 28) - 1, 1 << 28, (1 << 30) + 7, (1i64 << 31) - 1];
    let sparse = scenario(
        "huge offsets",
        format!("virtual files up to 8 GiB: 4 blobs with body sizes from {sizes:?} (pattern a,b,a,b), then a real blob; skim, fetch by offset, skim from the middle"),
        move |c| {
            let a = *c.pick("size a", &sizes);
            let b = *c.pick("size b", &sizes);
            let tys = ["OSMData", "OSMHeader", "X", "OSMData"];
            let mut ext = vec![];
            let mut pos = 0u64;
            let mut offs = vec![];
            for (i, t) in tys.iter().enumerate() {
                let s = if i % 2 == 0 { a } else { b };
                let h = blob_header(t, None, s, i as u8);
                ext.push((pos, segment_raw(&h, &[])));
                offs.push((pos, s));
                pos += 4 + h.len() as u64 + s as u64;
            }
            let last = pos;
            let d = segment("OSMData", &one_node(77).encode(), Storage::Raw);
            pos += d.len() as u64;
            ext.push((last, d));
            c.observe(&(a, b));
            c.state(&(a, b));
            let sp = Sparse::new(ext, pos);
            let rd = sp.bytes_read.clone();
            let Ok(mut r) = BlobReader::new_seekable(sp) else { return fail("new_seekable") };
            let start = c.choose("start", 5);
            if start > 0 {
                check!(r.seek(ByteOffset(offs[start - 1].0)).is_ok(), "seek");
            }
            for i in start.saturating_sub(1)..4 {
                c.step();
                match r.next_header_skip_blob() {
                    Some(Ok((h, o))) => {
                        check_eq!(o.map(|x| x.0), Some(offs[i].0), "offset of header {i}");
                        check_eq!(h.get_blob_size() as i64, offs[i].1, "size in header {i}");
                    }
                    _ => return fail(format!("header {i} at {}", offs[i].0)),
                }
            }
            let seg = Seg::data(one_node(77));
            match r.next() {
                Some(Ok(b)) => blob_is(&b, &seg, Off::Is(last))?,
                _ => return fail("the blob behind the huge ones"),
            }
            check!(r.next().is_none(), "end");
            match r.blob_from_offset(ByteOffset(last)) {
                Ok(b) => blob_is(&b, &seg, Off::Is(last))?,
                Err(e) => return fail(format!("blob_from_offset({last}): {e}")),
            }
            check!(r.seek(ByteOffset(offs[3].0)).is_ok(), "seek to {}", offs[3].0);
            match r.next_header_skip_blob() {
                Some(Ok((_, o))) => check_eq!(o.map(|x| x.0), Some(offs[3].0), "offset after seek"),
                _ => return fail("skim after seek"),
            }
            match r.next() {
                Some(Ok(b)) => blob_is(&b, &seg, Off::Is(last))?,
                _ => return fail("blob after skim"),
            }
            let _ = rd;
            Ok(())
        },
    );
    Property { id: "C04", scenarios: vec![ops, sparse], assumptions: vec![] }
}

// ---------------------------------------------------------------------------------------------

/// Everything a stream reader says about the bytes, up to the first error.
pub fn stream_story(bytes: &Arc<Vec<u8>>, limit: usize) -> Vec<(String, u64, Dec)> {
    let mut v = vec![];
    let Ok(mut r) = BlobReader::new_seekable(Src::plain(bytes)) else { return v };
    while let Some(x) = r.next() {
        match x {
            Ok(b) => {
                let d = dec_of(b.decode());
                let e = matches!(d, Dec::Err(_));
                v.push((ty_name(&b.get_type()), b.offset().map_or(u64::MAX, |o| o.0), d));
                if e {
                    break;
                }
            }
            Err(_) => {
                v.push(("error".into(), 0, Dec::Err("".into())));
                break;
            }
        }
        if v.len() > limit {
            break;
        }
    }
    v
}
pub fn mmap_story(map: &Mmap, limit: usize) -> Vec<(String, u64, Dec)> {
    let mut v = vec![];
    for x in map.blob_iter() {
        match x {
            Ok(b) => {
                let d = dec_of(b.decode());
                let e = matches!(d, Dec::Err(_));
                v.push((ty_name(&b.get_type()), b.offset().0, d));
                if e {
                    break;
                }
            }
            Err(_) => {
                v.push(("error".into(), 0, Dec::Err("".into())));
                break;
            }
        }
        if v.len() > limit {
            break;
        }
    }
    v
}
/// Compare the two, treating every error alike.
pub fn same_story(a: &[(String, u64, Dec)], b: &[(String, u64, Dec)]) -> Res {
    check!(a.len() == b.len(), "stream reports {} items, mmap {}", a.len(), b.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        let (ex, ey) = (matches!(x.2, Dec::Err(_)), matches!(y.2, Dec::Err(_)));
        check!(ex == ey, "item {i}: stream error {ex}, mmap error {ey}");
        if !ex {
            check_eq!(y.0, x.0, "item {i}: type (got: mmap, expected: stream)");
            check_eq!(y.1, x.1, "item {i}: offset (got: mmap, expected: stream)");
            check!(y.2 == x.2, "item {i}: content differs between mmap and stream");
        }
    }
    Ok(())
}

/// What a reader reports about one item, for comparing two ways of driving the same reader.
fn item_key(ty: &BlobType, off: Option<u64>, d: Dec) -> (String, Option<u64>, Option<u64>) {
    match d {
        Dec::Err(_) => (ty_name(ty), off, None),
        d => (ty_name(ty), off, Some(hash_of(&format!("{d:?}")))),
    }
}
/// All iterator methods of the stream and the mapped reader agree with `next`, in the presence of
/// damage, too.
pub fn reader_laws(bytes: &Arc<Vec<u8>>, map: Option<&Mmap>) -> Res {
    let key = |x: Result<Blob>| x.ok().map(|b| item_key(&b.get_type(), b.offset().map(|o| o.0), dec_of(b.decode())));
    let make = || BlobReader::new_seekable(Src::plain(bytes)).unwrap();
    let plain: Vec<_> = make().take(bytes.len() + 2).map(key).collect();
    iter_laws("BlobReader", make, key, &plain)?;
    let Some(map) = map else { return Ok(()) };
    let key = |x: Result<MmapBlob>| x.ok().map(|b| item_key(&b.get_type(), Some(b.offset().0), dec_of(b.decode())));
    let plain: Vec<_> = map.blob_iter().take(bytes.len() + 2).map(key).collect();
    iter_laws("MmapBlobReader", || map.blob_iter(), key, &plain)
}

pub fn c05(lvl: u8) -> Property {
    let th = lvl >= 2;
    let alpha = seg_alphabet(lvl >= 1);
    let na = alpha.len();
    let layouts = scenario("layouts", format!("all sequences of 0..=3 segments over {na} segments: stream and mmap tell the same story"), move |c| {
        let f = lay_out(choose_segs(c, &alpha, 3));
        c.observe(&f.bytes);
        c.state(&f.bytes);
        c.steps(2 * f.segs.len());
        let m = MemFile::new(&f.bytes);
        let map = m.mmap()?;
        let b = mmap_story(&map, f.segs.len() + 3);
        check_eq!(b.len(), f.segs.len(), "blobs in the map");
        for (i, x) in b.iter().enumerate() {
            check_eq!(x.0, want_ty(&f.segs[i]), "type of blob {i}");
            check_eq!(x.1, f.off[i] as u64, "offset of blob {i}");
            if f.segs[i].st != Storage::Nothing {
                dec_matches(&x.2, &f.segs[i].content)?;
            }
        }
        same_story(&stream_story(&f.bytes, 9), &b)?;
        reader_laws(&f.bytes, Some(&map))
    });
    let (files, nf) = damage_files(lvl);
    let f1 = files.clone();
    let xs: &'static [u8] = if lvl >= 1 { &[0, 1, 2, 3, 4, 7, 8, 9, 10, 16, 18, 20, 26, 32, 34, 63, 64, 120, 126, 127, 128, 129, 130, 200, 254, 255] } else { &[0, 1, 8, 10, 18, 26, 34, 64, 127, 128, 129, 255] };
    let mutated = scenario("damaged bytes", format!("{nf}, each byte replaced by each of {} values: same story and termination", xs.len()), move |c| {
        let (_, f) = &f1[c.choose("file", f1.len())];
        if f.bytes.is_empty() {
            return Ok(());
        }
        let i = c.choose("position", f.bytes.len());
        let x = *c.pick("value", xs);
        let mut d = f.bytes.to_vec();
        d[i] = x;
        c.observe(&d);
        c.state(&d);
        let m = MemFile::new(&d);
        let d = Arc::new(d);
        let map = m.mmap()?;
        let n = d.len() + 2;
        // members() panics on unknown member types (known finding of C21); not the subject here
        let (a, b) = match (guard(|| stream_story(&d, n)), guard(|| mmap_story(&map, n))) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(a), Err(b)) => {
                check!(a == b && a.contains("enum_or_unknown"), "panic: {a} / {b}");
                return Ok(());
            }
            (a, b) => return fail(format!("panic: stream {:?} mmap {:?}", a.err(), b.err())),
        };
        c.steps(a.len() + b.len());
        check!(map.blob_iter().take(n + 1).count() <= n, "mmap iteration does not terminate");
        same_story(&a, &b)
    });
    let f2 = files.clone();
    let lens = scenario("length prefixes and sizes", "one segment with each header length 0..=60, 64Ki-1, 64Ki, 2^31-1, 2^31, 2^32-1 written in the prefix, and each datasize in a list incl. negative and huge, followed by a valid segment", move |c| {
        let _ = &f2;
        let mut d = vec![];
        if c.flag("datasize") {
            let ds = *c.pick("datasize", &[-1i64, -2, -20, -4096, i32::MIN as i64, 0, 1, 2, 5, 6, 7, 8, 9, 10, 60, 200, 4096, 1 << 20, i32::MAX as i64]);
            let h = blob_header("OSMData", None, ds, 0);
            d.extend(segment_raw(&h, &blob_msg(&one_node(2).encode(), Storage::Raw)));
        } else {
            let n = c.choose("prefix", 66);
            let v = match n {
                61 => 65535u32,
                62 => 65536,
                63 => i32::MAX as u32,
                64 => 1 << 31,
                65 => u32::MAX,
                n => n as u32,
            };
            let mut s = segment("OSMData", &one_node(2).encode(), Storage::Raw);
            s[..4].copy_from_slice(&v.to_be_bytes());
            d.extend(s);
        }
        d.extend(segment("OSMData", &one_node(3).encode(), Storage::Raw));
        c.observe(&d);
        c.state(&d);
        let m = MemFile::new(&d);
        let map = m.mmap()?;
        let d = Arc::new(d);
        let n = d.len() + 2;
        check!(map.blob_iter().take(n + 1).count() <= n, "mmap iteration does not terminate");
        let (a, b) = (stream_story(&d, n), mmap_story(&map, n));
        c.steps(a.len() + b.len());
        same_story(&a, &b)
    });
    let depth = if th { 7 } else { 5 };
    let nested = nested_files();
    let maps: Vec<(MemFile, Mmap)> = nested
        .iter()
        .map(|x| {
            let m = MemFile::new(&x.1.bytes);
            let map = m.mmap().expect("mmap");
            (m, map)
        })
        .collect();
    let inner_len = segment("OSMData", &one_node(44).encode(), Storage::Raw).len() as u64;
    let inner_seg = Seg::data(one_node(44));
    let ops = scenario("operation sequences", format!("all sequences of {depth} operations: next, seek (boundaries, end, undecodable data of 7 kinds, the good blob behind it, past the end, huge), clone, against a position model"), move |c| {
        let kind = c.choose("undecodable", nested.len());
        let (_, f, bad, inner) = &nested[kind];
        let (bad, inner) = (*bad, *inner);
        let n = f.segs.len();
        let len = f.bytes.len() as u64;
        let mut r = MmapBlobReader::new(&maps[kind].1);
        let at = |p: u64| -> Option<(&Seg, u64)> {
            if p == inner {
                return Some((&inner_seg, inner + inner_len));
            }
            let i = f.off.iter().position(|o| *o as u64 == p)?;
            (i < n).then(|| (&f.segs[i], f.off[i + 1] as u64))
        };
        let (mut pos, mut failed) = (0u64, false);
        let mut clones = vec![];
        for i in 0..=depth {
            c.step();
            c.state(&(pos, failed, i, kind));
            let op = if i == depth { 0 } else { c.choose("op", 3) };
            match op {
                0 => {
                    let x = r.next();
                    if failed || pos >= len {
                        check!(x.is_none(), "an item at position {pos} (failed: {failed})");
                    } else if let Some((seg, next)) = at(pos) {
                        match x {
                            Some(Ok(b)) => {
                                check_eq!(b.offset().0, pos, "offset");
                                check_eq!(ty_name(&b.get_type()), want_ty(seg), "type");
                                dec_matches(&dec_of(b.decode()), &seg.content)?;
                                pos = next;
                            }
                            _ => return fail(format!("no blob at {pos}")),
                        }
                    } else if let (Some(Ok(b)), true) = (&x, kind == 5 && pos == bad) {
                        // a well delimited blob with a damaged body
                        check_eq!(b.offset().0, pos, "offset");
                        check!(b.decode().is_err(), "garbage decodes");
                        pos = inner;
                    } else {
                        check!(matches!(x, Some(Err(_))), "no error in garbage");
                        failed = true;
                    }
                }
                1 => {
                    let t = c.choose("target", n + 6);
                    pos = match t {
                        t if t <= n => f.off[t] as u64,
                        t if t == n + 1 => bad,
                        t if t == n + 2 => len + 1,
                        t if t == n + 3 => len + 5000,
                        t if t == n + 4 => inner,
                        _ => u64::MAX,
                    };
                    failed = false;
                    r.seek(ByteOffset(pos));
                }
                _ => {
                    let cl = r.clone();
                    clones.push((std::mem::replace(&mut r, cl), pos, failed));
                }
            }
        }
        c.observe(&(pos, failed));
        for (mut r, pos, failed) in clones {
            let x = r.next();
            c.observe(&(pos, failed));
            if failed || pos >= len {
                check!(x.is_none(), "clone: an item at {pos}");
            } else if pos == bad {
                check!(if kind == 5 { matches!(&x, Some(Ok(b)) if b.decode().is_err()) } else { matches!(x, Some(Err(_))) }, "clone: no error in garbage");
            } else {
                match x {
                    Some(Ok(b)) => check_eq!(b.offset().0, pos, "clone: offset"),
                    _ => return fail("clone: no blob"),
                }
            }
        }
        Ok(())
    });
    let bad = damaged_list(1);
    let nb = bad.len();
    let damaged = scenario("damaged segments", format!("{nb} undecodable headers and bodies behind 0..=2 and in front of 0..=2 good blobs: same story and termination"), move |c| {
        let (name, b) = &bad[c.choose("damage", nb)];
        let before = c.choose("before", 3);
        let after = c.choose("after", 3);
        let mut d = lay_out((0..before).map(|i| Seg::data(one_node(i as i64 + 1))).collect()).bytes.to_vec();
        d.extend(b);
        for i in 0..after {
            d.extend(segment("OSMData", &one_node(100 + i as i64).encode(), Storage::Raw));
        }
        c.observe(&d);
        c.state(&d);
        c.sample(|| format!("{name} between {before} and {after} blobs"));
        let m = MemFile::new(&d);
        let map = m.mmap()?;
        let d = Arc::new(d);
        check!(map.blob_iter().take(10).count() < 10, "mmap iteration does not terminate");
        let (a, b) = (stream_story(&d, 9), mmap_story(&map, 9));
        c.steps(a.len() + b.len());
        check_eq!(a.len(), before + 1, "items of the stream reader");
        same_story(&a, &b)?;
        reader_laws(&d, Some(&map))
    });
    let limits = scenario(
        "limits",
        "headers of every size 65500..=65560 and around 2^k for k <= 17 (padded with indexdata, in every field order), before or behind a small blob; contents of 32 MiB -2..=+2 (thorough: stored raw and compressed)",
        move |c| {
            let small = Seg::data(one_node(3));
            let f = if c.flag("content") {
                let n = (32usize << 20) - 2 + c.choose("size", 5);
                let st = if th && c.flag("zlib") { Storage::ZlibStored(65535) } else { Storage::Raw };
                lay_out(vec![Seg::data(one_node(1)), Seg::other("X", &vec![0; n]).st(st), small])
            } else {
                let k = c.choose("size", 61 + 12 * 5);
                let want = if k < 61 { 65500 + k } else { (1usize << (6 + (k - 61) / 5)) - 2 + (k - 61) % 5 };
                let o = c.choose("order", 6) as u8;
                let mut n = want;
                while n > 0 && blob_header("OSMData", Some(&vec![0xAB; n]), 10, o).len() > want {
                    n -= 1;
                }
                let s = Seg::data(one_node(1)).index(n).order(o);
                lay_out(if c.flag("behind") { vec![small, s] } else { vec![s, small] })
            };
            c.observe(&(f.hdr.clone(), f.size.clone()));
            c.state(&(f.hdr.clone(), f.size.clone()));
            c.steps(2 * f.segs.len());
            let m = MemFile::new(&f.bytes);
            let map = m.mmap()?;
            same_story(&stream_story(&f.bytes, 9), &mmap_story(&map, 9))
        },
    );
    let sizes: Vec<i64> = vec![0, 1, 127, 128, 65_536, (1 << 25) + 1, (1 << 28) - 1, 1 << 28, (1 << 31) - 1];
    let huge = scenario(
        "huge maps",
        format!("mapped sparse files up to 8 GiB: 4 blobs with body sizes from {sizes:?} (pattern a,b,a,b), then a real blob, complete or cut by one byte: iterate, seek to each offset"),
        move |c| {
            let a = *c.pick("size a", &sizes);
            let b = *c.pick("size b", &sizes);
            let cut = c.flag("cut");
            let mut ext = vec![];
            let mut pos = 0u64;
            let mut offs = vec![];
            for (i, t) in ["OSMData", "OSMHeader", "X", "OSMData"].iter().enumerate() {
                let s = if i % 2 == 0 { a } else { b };
                let h = blob_header(t, None, s, i as u8);
                ext.push((pos, segment_raw(&h, &[])));
                offs.push(pos);
                pos += 4 + h.len() as u64 + s as u64;
            }
            offs.push(pos);
            let d = segment("OSMData", &one_node(77).encode(), Storage::Raw);
            ext.push((pos, d.clone()));
            let len = pos + d.len() as u64 - cut as u64;
            c.observe(&(a, b, cut));
            c.state(&(a, b, cut));
            let m = MemFile::sparse(&ext, len);
            let map = m.mmap()?;
            let seg = Seg::data(one_node(77));
            for start in 0..=5 {
                c.step();
                let mut r = map.blob_iter();
                if start > 0 {
                    r.seek(ByteOffset(offs[start - 1]));
                }
                for i in start.saturating_sub(1)..5 {
                    match r.next() {
                        Some(Ok(b)) if i < 4 || !cut => {
                            check_eq!(b.offset().0, offs[i], "offset of blob {i}");
                            if i == 4 {
                                dec_matches(&dec_of(b.decode()), &seg.content)?;
                            }
                        }
                        Some(Err(_)) if i == 4 && cut => {}
                        x => return fail(format!("blob {i} at {}: {:?}", offs[i], x.map(|y| y.map(|b| b.offset().0).map_err(|e| e.to_string())))),
                    }
                }
                check!(r.next().is_none(), "an item after the end");
                r.seek(ByteOffset(len));
                check!(r.next().is_none(), "an item at the end");
                r.seek(ByteOffset(1 << 40));
                check!(r.next().is_none(), "an item behind the end");
            }
            Ok(())
        },
    );
    let very = scenario("very many blobs", "maps of 70 001 small blobs, complete or cut in the last blob or around blob 65 536: as many blobs as there are, where they are, then an error where it is cut; a reader sent to a blob around 65 536 goes on from there", move |c| {
        let kind = c.choose("kind", 3);
        let f = many_blobs(70_001, kind);
        let k = *c.pick("cut", &[0usize, 65_534, 65_535, 65_536, 65_537, 70_000]);
        let by = if k > 0 { 1 + c.choose("by", 3) } else { 0 };
        c.observe(&(kind, k, by));
        c.state(&(kind, k, by));
        let len = if k > 0 { f.off[k + 1] - by } else { f.bytes.len() };
        let m = MemFile::new(&f.bytes[..len]);
        let map = m.mmap()?;
        let mut r = map.blob_iter();
        for start in [0, 65_534, 65_536] {
            r.seek(ByteOffset(f.off[start] as u64));
            for i in start..if k > 0 { k } else { f.segs.len() } {
                c.step();
                match r.next() {
                    Some(Ok(b)) => {
                        check_eq!(b.offset().0, f.off[i] as u64, "offset of blob {i}");
                        check_eq!(ty_name(&b.get_type()), want_ty(&f.segs[i]), "type of blob {i}");
                        dec_matches(&dec_of(b.decode()), &f.segs[i].content).map_err(|e| Fail::from(format!("blob {i}: {}", e)))?;
                    }
                    x => return fail(format!("blob {i}: {:?}", x.map(|y| y.map(|_| ()).map_err(|e| e.to_string())))),
                }
            }
            if k > 0 && start <= k {
                check!(matches!(r.next(), Some(Err(_))), "no error where blob {k} is cut");
            }
            if start <= k || k == 0 {
                check!(r.next().is_none(), "an item after the end");
            }
        }
        Ok(())
    });
    Property { id: "C05", scenarios: vec![layouts, mutated, lens, damaged, limits, huge, ops, very], assumptions: vec!["the mapped file is not modified while mapped (documented safety condition)".into()] }
}
