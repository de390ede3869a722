//! C26: long files. Memory for a few blobs, every byte read as often as needed.

use crate::files::*;
use osmpbf::*;
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::io::*;
use vcore::model::*;
use vcore::{check, check_eq};

/// One round of a long file, and what it contains.
struct Round {
    name: &'static str,
    tiles: Arc<Vec<Vec<u8>>>,
    /// (node blob, way blob, elements) per tile
    what: Vec<(bool, bool, u64)>,
}

/// Numbers without a pattern, so that compression does not hide what is kept.
fn noise(seed: u64) -> impl FnMut() -> u64 {
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    }
}

fn dense_tile(first: i64, n: usize, st: Storage) -> Vec<u8> {
    let mut r = noise(first as u64 + 7);
    let mut b = dense_block(&[]);
    b.groups[0].dense = Some(MDense {
        nodes: (0..n as i64)
            .map(|i| MDNode { id: first + i, lat: (r() % 1_800_000_000) as i64, lon: (r() % 3_600_000_000) as i64, tags: vec![(1, 2)], ..Default::default() })
            .collect(),
        ..Default::default()
    });
    segment("OSMData", &b.encode(), st)
}
fn node_tile(first: i64, n: usize, st: Storage) -> Vec<u8> {
    let mut r = noise(first as u64 + 9);
    let mut b = one_node(0);
    b.groups[0].nodes = (0..n as i64).map(|i| MNode { id: first + i, lat: (r() >> 20) as i64, lon: (r() >> 20) as i64, ..Default::default() }).collect();
    segment("OSMData", &b.encode(), st)
}
fn way_tile(n: usize, refs: i64, st: Storage) -> Vec<u8> {
    let mut r = noise(n as u64);
    let b = way_block((0..n as i64).map(|i| way(r() as u32 as i64 * 3 + i, &(0..16).map(|_| 1 + (r() % refs as u64) as i64).collect::<Vec<_>>())).collect());
    segment("OSMData", &b.encode(), st)
}
/// users, keys, values and roles which no other tile has
fn text_tile(k: i64, st: Storage) -> Vec<u8> {
    let mut r = noise(k as u64 + 1000);
    let mut b = one_node(0);
    b.strings = std::iter::once(vec![]).chain((0..4000).map(|_| format!("{:016x}", r()).into_bytes())).collect();
    let info = |i: i64| Some(MInfo { version: Some(1), user_sid: Some(1 + i as u32), ..Default::default() });
    b.groups[0].nodes = (0..1000).map(|i| MNode { id: k * 1000 + i, tags: vec![(1001 + i as u32, 2001 + i as u32)], info: info(i), ..Default::default() }).collect();
    let mut w = way_block(vec![]).groups[0].clone();
    w.ways = (0..1000).map(|i| MWay { info: info(i + 3000), tags: vec![(1 + i as u32, 3001 + i as u32)], ..way(k * 1000 + i, &[0]) }).collect();
    b.groups.push(w);
    segment("OSMData", &b.encode(), st)
}
fn other_tile(ty: &str, n: usize, st: Storage) -> Vec<u8> {
    let mut r = noise(n as u64 + 3);
    let c: Vec<u8> = (0..n / 8).flat_map(|_| r().to_le_bytes()).collect();
    segment(ty, &c, st)
}

fn rounds(st: Storage) -> Vec<Round> {
    let rd = |name, v: Vec<(Vec<u8>, bool, bool, u64)>| {
        let what = v.iter().map(|x| (x.1, x.2, x.3)).collect();
        Round { name, tiles: Arc::new(v.into_iter().map(|x| x.0).collect()), what }
    };
    let big_header = {
        let mut r = noise(5);
        let mut h = std_header();
        h.optional = (0..4000).map(|_| format!("{:016x}{:016x}", r(), r())).collect();
        segment("OSMHeader", &h.encode(), st)
    };
    vec![
        rd("dense nodes", vec![(dense_tile(1, 9000, st), true, false, 9000)]),
        rd("plain nodes", vec![(node_tile(1, 6000, st), true, false, 6000)]),
        rd("ways", vec![(way_tile(3000, 50, st), false, true, 3000)]),
        rd("nodes and ways", vec![(dense_tile(1, 9000, st), true, false, 9000), (way_tile(3000, 50, st), false, true, 3000), (dense_tile(1_000_000, 9000, st), true, false, 9000)]),
        rd("strings that do not repeat", (0..60).map(|k| (text_tile(k, st), true, true, 1000)).collect()),
        rd("unknown blobs", vec![(other_tile("Extra", 150_000, st), false, false, 0)]),
        rd("header blobs", vec![(big_header, false, false, 0)]),
        rd("header, nodes, unknown", vec![(segment("OSMHeader", &std_header().encode(), st), false, false, 0), (node_tile(1, 6000, st), true, false, 6000), (other_tile("Extra", 150_000, st), false, false, 0)]),
    ]
}

const APIS: [&str; 15] = [
    "BlobReader",
    "BlobReader and decode",
    "skimming",
    "for_each",
    "par_map_reduce",
    "create_index",
    "read_ways_and_deps (all)",
    "read_ways_and_deps (none), twice",
    "for_each_node, twice",
    "mmap",
    "mmap and decode",
    "blob_from_offset, backwards",
    "elements of decoded blobs",
    "seekable BlobReader and decode",
    "seekable BlobReader, back to every blob",
];

/// Asks for all that an element has to say.
fn ask(e: &Element) -> usize {
    let texts = |t: Option<Result<&str>>| t.map_or(0, |x| x.map_or(1, |s| s.len()));
    let info = |i: &osmpbf::elements::Info| texts(i.user()) + i.version().is_some() as usize;
    match e {
        Element::Node(n) => n.tags().map(|(k, v)| k.len() + v.len()).sum::<usize>() + info(&n.info()),
        Element::DenseNode(n) => n.tags().map(|(k, v)| k.len() + v.len()).sum::<usize>() + n.info().map_or(0, |i| texts(Some(i.user()))),
        Element::Way(w) => w.tags().map(|(k, v)| k.len() + v.len()).sum::<usize>() + info(&w.info()) + w.refs().count(),
        Element::Relation(r) => r.tags().map(|(k, v)| k.len() + v.len()).sum::<usize>() + info(&r.info()) + r.members().map(|m| texts(Some(m.role()))).sum::<usize>(),
    }
}

/// What one run says: items, elements, bytes taken from the source after each of its steps.
type Run = (u64, u64, Vec<u64>);

fn run(api: usize, src: Tiles, map: Option<&Mmap>, n: usize) -> std::result::Result<Run, String> {
    let (mut items, mut elems) = (0u64, 0u64);
    let tap = src.clone();
    let mut taken = vec![];
    let mut said = 0;
    let e = |e: Error| e.to_string();
    match api {
        0 => {
            for b in BlobReader::new(src) {
                b.map_err(e)?;
                items += 1;
            }
        }
        1 | 12 => {
            for b in BlobReader::new(src) {
                match b.map_err(e)?.decode().map_err(e)? {
                    BlobDecode::OsmData(b) if api == 12 => elems += b.elements().map(|e| ask(&e)).fold(0, |n, _| n + 1),
                    BlobDecode::OsmData(b) => b.for_each_element(|x| {
                    elems += 1;
                    said += ask(&x)
                }),
                    _ => {}
                }
                items += 1;
            }
        }
        2 => {
            let mut r = BlobReader::new_seekable(src).map_err(e)?;
            while let Some(h) = r.next_header_skip_blob() {
                h.map_err(e)?;
                items += 1;
            }
        }
        3 => ElementReader::new(src).for_each(|x| {
            elems += 1;
            said += ask(&x)
        }).map_err(e)?,
        4 => elems = ElementReader::new(src).par_map_reduce(|x| 1 + (ask(&x) & 0) as u64, || 0u64, |a, b| a + b).map_err(e)?,
        5 => IndexedReader::new(src).and_then(|mut r| r.create_index()).map_err(e)?,
        6 => {
            let mut r = IndexedReader::new(src).map_err(e)?;
            r.read_ways_and_deps(|_| true, |x| {
                elems += 1;
                said += ask(x)
            }).map_err(e)?;
        }
        7 => {
            let mut r = IndexedReader::new(src).map_err(e)?;
            for _ in 0..2 {
                r.read_ways_and_deps(|_| false, |_| elems += 1).map_err(e)?;
                taken.push(tap.taken());
            }
        }
        8 => {
            let mut r = IndexedReader::new(src).map_err(e)?;
            for _ in 0..2 {
                r.for_each_node(|x| {
                    elems += 1;
                    said += ask(&x)
                }).map_err(e)?;
                taken.push(tap.taken());
            }
        }
        9 => {
            for b in map.ok_or("no map")?.blob_iter() {
                b.map_err(e)?;
                items += 1;
            }
        }
        10 => {
            for b in map.ok_or("no map")?.blob_iter() {
                if let BlobDecode::OsmData(b) = b.map_err(e)?.decode().map_err(e)? {
                    b.for_each_element(|x| {
                    elems += 1;
                    said += ask(&x)
                });
                }
                items += 1;
            }
        }
        13 | 14 => {
            let mut r = BlobReader::new_seekable(src).map_err(e)?;
            while let Some(b) = r.next() {
                let mut b = b.map_err(e)?;
                if api == 14 {
                    r.seek(b.offset().ok_or("no offset")?).map_err(e)?;
                    b = r.next().ok_or("nothing there")?.map_err(e)?;
                }
                if let BlobDecode::OsmData(b) = b.decode().map_err(e)? {
                    b.for_each_element(|x| {
                    elems += 1;
                    said += ask(&x)
                });
                }
                items += 1;
            }
        }
        _ => {
            let mut at = vec![];
            let mut r = BlobReader::new_seekable(src).map_err(e)?;
            while let Some(h) = r.next_header_skip_blob() {
                at.push(h.map_err(e)?.1.ok_or("no offset")?);
            }
            taken.push(tap.taken());
            for o in at.iter().rev() {
                r.blob_from_offset(*o).map_err(e)?;
                items += 1;
            }
            check_len(at.len(), n)?;
        }
    }
    taken.push(tap.taken());
    std::hint::black_box(said);
    Ok((items, elems, taken))
}
fn check_len(a: usize, b: usize) -> std::result::Result<(), String> {
    (a == b).then_some(()).ok_or(format!("{a} of {b} blobs"))
}

/// On a thread of a pool of one, so that the parallel reader runs on the thread that is watched.
fn measured(api: usize, src: Tiles, map: Option<&Mmap>, n: usize) -> std::result::Result<(Run, i64), String> {
    let go = move || {
        let (r, peak) = peak_of(move || guard(move || run(api, src, map, n)));
        r?.map(|r| (r, peak))
    };
    if api == 4 {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().map_err(|e| e.to_string())?;
        pool.install(go)
    } else {
        go()
    }
}

pub fn c26(th: bool) -> Property {
    let longs: &'static [usize] = if th { &[30, 150, 600] } else { &[30, 60, 200] };
    let sts: &'static [Storage] = &[Storage::Raw, Storage::Zlib(1)];
    let all: Arc<Vec<Vec<Round>>> = Arc::new(sts.iter().map(|s| rounds(*s)).collect());
    let mems: &'static [usize] = if th { &[0, 4096, 1000] } else { &[0, 4096] };
    let grow = scenario(
        "growing files",
        format!("8 patterns of blobs of about 100 kB (raw, zlib; one with strings that never repeat; everything an element has is asked for) repeated to 9 and to {longs:?} blobs x {} ways of reading x reads of at most {mems:?} bytes (0: unlimited): peak memory of the reading thread, bytes taken from the source, items", APIS.len()),
        move |c| {
            let s = c.choose("storage", sts.len());
            let rd = &all[s][c.choose("pattern", all[s].len())];
            let api = c.choose("api", APIS.len());
            let n = *c.pick("blobs", longs);
            let max = if matches!(api, 9 | 10) { 0 } else { *c.pick("reads of at most", mems) };
            c.observe(&(s, rd.name, api, n, max));
            c.state(&(s, rd.name, api, n));
            c.steps(n + 9);
            c.sample(|| format!("{} x {n} by {}", rd.name, APIS[api]));
            let go = |n: usize| -> std::result::Result<(Run, i64, u64), String> {
                let src = Tiles::new(&rd.tiles, n, max);
                let len = src.len();
                let file = matches!(api, 9 | 10).then(|| {
                    let mut b = Vec::with_capacity(len as usize);
                    (0..n).for_each(|i| b.extend(&rd.tiles[i % rd.tiles.len()]));
                    MemFile::new(&b)
                });
                let map = match &file {
                    Some(f) => Some(f.mmap()?),
                    None => None,
                };
                measured(api, src, map.as_ref(), n).map(|(r, p)| (r, p, len))
            };
            let (_, short, _) = go(9).map_err(|e| Fail::from(format!("{} x 9 by {}: {e}", rd.name, APIS[api])))?;
            let ((items, elems, taken), long, len) = go(n).map_err(|e| Fail::from(format!("{} x {n} by {}: {e}", rd.name, APIS[api])))?;

            // the same blobs: no more memory, but for a small entry per blob where an index is built
            let tile = rd.tiles.iter().map(|t| t.len()).max().unwrap_or(0) as i64;
            let room = tile + n as i64 * 256;
            check!(long <= short + room, "{} by {}: {short} bytes of memory for 9 blobs, {long} for {n} (blobs of up to {tile} bytes)", rd.name, APIS[api]);
            if matches!(api, 2 | 5) {
                check!(long <= 40_000 + n as i64 * 256, "{} by {}: {long} bytes of memory to read {n} headers", rd.name, APIS[api]);
            }

            // everything is there
            let per = |f: &dyn Fn(&(bool, bool, u64)) -> u64| -> u64 { (0..n).map(|i| f(&rd.what[i % rd.what.len()])).sum() };
            let (nodes, ways) = (per(&|w| if w.0 { w.2 } else { 0 }), per(&|w| if w.1 { w.2 } else { 0 }));
            let want_items = if matches!(api, 0 | 1 | 2 | 9 | 10 | 11 | 12 | 13 | 14) { n as u64 } else { 0 };
            check_eq!(items, want_items, "{} by {}: items", rd.name, APIS[api]);
            match api {
                1 | 3 | 4 | 10 | 12 | 13 | 14 => check_eq!(elems, nodes + ways, "{} by {}: elements", rd.name, APIS[api]),
                6 => check!(elems >= ways && elems <= ways + nodes, "{} by {}: {elems} elements", rd.name, APIS[api]),
                8 => check_eq!(elems, 2 * nodes, "{} by {}: nodes", rd.name, APIS[api]),
                _ => check_eq!(elems, 0, "{} by {}: elements", rd.name, APIS[api]),
            }

            // bytes taken: at most 16 kB for a header, whatever is buffered
            let size = |f: &dyn Fn(&(bool, bool, u64)) -> bool| -> u64 { (0..n).filter(|i| f(&rd.what[i % rd.what.len()])).map(|i| rd.tiles[i % rd.tiles.len()].len() as u64).sum() };
            let heads = n as u64 * 16_384;
            let limits: Vec<u64> = match api {
                0 | 1 | 3 | 4 | 12 => vec![len],
                2 | 5 => vec![heads],
                6 => vec![heads + 2 * (len + heads)],
                // the second time only blobs with ways
                7 => vec![heads + len, heads + len + heads + size(&|w| w.1), u64::MAX],
                8 => vec![heads + len, heads + len + heads + size(&|w| w.0), u64::MAX],
                11 => vec![heads, heads + len + heads],
                13 => vec![len],
                14 => vec![2 * len + heads],
                _ => vec![0],
            };
            for (i, l) in limits.iter().enumerate() {
                check!(taken[i] <= *l, "{} by {}: {} bytes taken from a source of {len} bytes, {l} are enough (step {i})", rd.name, APIS[api], taken[i]);
            }
            Ok(())
        },
    );
    let tiny_long: &'static [usize] = if th { &[30_000, 1_000_000] } else { &[30_000] };
    let tiny: Arc<Vec<Round>> = Arc::new({
        let st = Storage::Raw;
        let rd = |name, v: Vec<(Vec<u8>, bool, bool, u64)>| {
            let what = v.iter().map(|x| (x.1, x.2, x.3)).collect();
            Round { name, tiles: Arc::new(v.into_iter().map(|x| x.0).collect()), what }
        };
        let way = || way_tile(1, 50, st);
        let indexed = |b: &MBlock| segment_raw(&blob_header("OSMData", Some(&[7; 8000]), blob_msg(&b.encode(), st).len() as i64, 0), &blob_msg(&b.encode(), st));
        vec![
            rd("index data of 8 kB", vec![(indexed(&one_node(1)), true, false, 1), (indexed(&dense_block(&[4, 5])), true, false, 2)]),
            rd("single nodes", vec![(node_tile(1, 1, st), true, false, 1)]),
            rd("single dense nodes and ways", vec![(dense_tile(1, 1, Storage::Zlib(1)), true, false, 1), (way(), false, true, 1)]),
            rd("empty blobs", vec![(segment("OSMData", &MBlock::default().encode(), st), false, false, 0), (segment("Extra", b"", st), false, false, 0)]),
        ]
    });
    let many = scenario(
        "many tiny blobs",
        format!("4 patterns of blobs of less than 200 bytes of content (one with 8 kB of index data in its headers) repeated to 600 and to {tiny_long:?} blobs x {} ways of reading: peak memory of the reading thread, items, elements", APIS.len()),
        move |c| {
            let rd = &tiny[c.choose("pattern", tiny.len())];
            let api = c.choose("api", APIS.len());
            let n = *c.pick("blobs", tiny_long) / if rd.name.starts_with("index") { 20 } else { 1 };
            c.observe(&(rd.name, api, n));
            c.state(&(rd.name, api, n));
            c.steps(n + 600);
            c.sample(|| format!("{} x {n} by {}", rd.name, APIS[api]));
            let go = |n: usize| -> std::result::Result<(Run, i64), String> {
                let src = Tiles::new(&rd.tiles, n, 0);
                let file = matches!(api, 9 | 10).then(|| MemFile::new(&(0..n).flat_map(|i| rd.tiles[i % rd.tiles.len()].iter().copied()).collect::<Vec<_>>()));
                let map = match &file {
                    Some(f) => Some(f.mmap()?),
                    None => None,
                };
                measured(api, src, map.as_ref(), n)
            };
            let (_, short) = go(600).map_err(|e| Fail::from(format!("{} x 600 by {}: {e}", rd.name, APIS[api])))?;
            let ((items, elems, _), long) = go(n).map_err(|e| Fail::from(format!("{} x {n} by {}: {e}", rd.name, APIS[api])))?;
            // an index (of the reader, or the list of offsets kept here) takes its share per blob
            let per_blob = if matches!(api, 5..=8 | 11) { 256 } else { 0 };
            let room = 16_384 + n as i64 * per_blob;
            check!(long <= short + room, "{} by {}: {short} bytes of memory for 600 blobs, {long} for {n}", rd.name, APIS[api]);
            let per = |f: &dyn Fn(&(bool, bool, u64)) -> u64| -> u64 { (0..n).map(|i| f(&rd.what[i % rd.what.len()])).sum() };
            let (nodes, ways) = (per(&|w| if w.0 { w.2 } else { 0 }), per(&|w| if w.1 { w.2 } else { 0 }));
            let want_items = if matches!(api, 0 | 1 | 2 | 9 | 10 | 11 | 12 | 13 | 14) { n as u64 } else { 0 };
            check_eq!(items, want_items, "{} by {}: items", rd.name, APIS[api]);
            match api {
                1 | 3 | 4 | 10 | 12 | 13 | 14 => check_eq!(elems, nodes + ways, "{} by {}: elements", rd.name, APIS[api]),
                6 => check!(elems >= ways && elems <= ways + nodes, "{} by {}: {elems} elements", rd.name, APIS[api]),
                8 => check_eq!(elems, 2 * nodes, "{} by {}: nodes", rd.name, APIS[api]),
                _ => check_eq!(elems, 0, "{} by {}: elements", rd.name, APIS[api]),
            }
            Ok(())
        },
    );
    Property {
        id: "C26",
        scenarios: vec![grow, many],
        assumptions: vec!["memory is what goes through the global allocator on the reading thread; the parallel reader is watched in a pool of one thread".into()],
    }
}
