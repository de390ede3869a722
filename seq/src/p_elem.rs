//! C06, C12–C18, C24: elements and their decoding.

use crate::files::*;
use crate::p_blob::*;
pub use crate::wire::*;
use osmpbf::*;
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::io::*;
use vcore::laws::iter_laws;
use vcore::model::*;
use vcore::view::{self, Kind, View};
use vcore::{check, check_eq};

/// Integers around every boundary that matters to varints, zigzag and casts.
pub const EDGE: [i64; 27] = [
    0,
    1,
    -1,
    63,
    64,
    -64,
    -65,
    127,
    128,
    -129,
    8191,
    8192,
    -8193,
    65_536,
    i32::MAX as i64,
    i32::MAX as i64 + 1,
    i32::MIN as i64,
    i32::MIN as i64 - 1,
    u32::MAX as i64,
    u32::MAX as i64 + 1,
    (1 << 53) + 1,
    -(1 << 53) - 1,
    (1 << 62) + 3,
    i64::MAX - 1,
    i64::MAX,
    i64::MIN + 1,
    i64::MIN,
];
pub const EDGE32: [i32; 13] =
    [0, 1, -1, 63, -64, 64, 127, 128, 8192, i32::MAX - 1, i32::MAX, i32::MIN + 1, i32::MIN];

/// Decode an encoded block through the public interface (a one-blob file).
pub fn decode_block(content: &[u8]) -> std::result::Result<PrimitiveBlock, Fail> {
    let seg = segment("OSMData", content, Storage::Raw);
    match BlobReader::new(&seg[..]).next() {
        Some(Ok(b)) => match b.to_primitiveblock() {
            Ok(p) => Ok(p),
            Err(e) => fail(format!("a valid block is not decoded: {e}")),
        },
        Some(Err(e)) => fail(format!("a valid blob is not read: {e}")),
        None => fail("no blob"),
    }
}

fn expect_views(got: Vec<View>, want: &[View]) -> Res {
    if got != want {
        return fail(views_diff(&got, want));
    }
    Ok(())
}

/// All ways of walking over a block must report exactly the model's elements.
pub fn check_block(c: &mut Ctx, b: &MBlock, o: EncOpt) -> Res {
    let p = decode_block(&b.encode_with(o))?;
    let want = b.views_by_group();
    let got = view::block_by_group(&p);
    c.steps(want.iter().map(|g| g.len()).sum::<usize>() + 1);
    check_eq!(got.len(), want.len(), "number of groups");
    for (g, w) in got.into_iter().zip(&want) {
        expect_views(g, w)?;
    }
    block_laws(&p, &want)?;
    // per-block walks; groups of mixed kinds have no documented order between the kinds
    let sort = |mut v: Vec<View>| {
        v.sort_by(|a, b| a.kind.cmp(&b.kind));
        v
    };
    let pure = b.groups.iter().all(|g| {
        [!g.nodes.is_empty(), g.dense.as_ref().is_some_and(|d| !d.nodes.is_empty()), !g.ways.is_empty(), !g.rels.is_empty()]
            .iter()
            .filter(|x| **x)
            .count()
            <= 1
    });
    let want: Vec<View> = want.concat();
    let it: Vec<View> = p.elements().map(|e| view::element(&e)).collect();
    let mut fe = vec![];
    p.for_each_element(|e| fe.push(view::element(&e)));
    if pure {
        expect_views(it, &want)?;
        expect_views(fe, &want)?;
    } else {
        let want = sort(want);
        expect_views(sort(it), &want)?;
        expect_views(sort(fe), &want)?;
    }
    Ok(())
}

fn member_key(m: RelMember) -> (u8, i64, i32) {
    let ty = match m.member_type {
        RelMemberType::Node => 0,
        RelMemberType::Way => 1,
        RelMemberType::Relation => 2,
    };
    (ty, m.member_id, m.role_sid)
}

/// Every iterator over a block and its elements yields the same items whichever of its methods
/// is used to drive it.
pub fn block_laws(p: &PrimitiveBlock, want: &[Vec<View>]) -> Res {
    const VIEWS: usize = 40;
    const IDS: usize = 1100;
    let total: usize = want.iter().map(|w| w.len()).sum();
    if want.len() <= VIEWS && total <= VIEWS {
        let counts: Vec<[usize; 4]> = want.iter().map(|w| [Kind::Node, Kind::Dense, Kind::Way, Kind::Relation].map(|k| w.iter().filter(|v| v.kind == k).count())).collect();
        iter_laws("groups()", || p.groups(), |g| [g.nodes().len(), g.dense_nodes().len(), g.ways().len(), g.relations().len()], &counts)?;
    }
    if total <= IDS {
        // the order of the kinds within a group is not documented: compare with plain iteration
        let plain: Vec<i64> = p.elements().map(|e| elem_id(&e)).collect();
        iter_laws("elements()", || p.elements(), |e| elem_id(&e), &plain)?;
    }
    for (g, w) in p.groups().zip(want) {
        let of = |k: Kind| -> Vec<View> { w.iter().filter(|v| v.kind == k).cloned().collect() };
        if w.len() <= VIEWS {
            iter_laws("nodes()", || g.nodes(), |n| view::node(&n), &of(Kind::Node))?;
            iter_laws("dense_nodes()", || g.dense_nodes(), |n| view::dense(&n), &of(Kind::Dense))?;
            iter_laws("ways()", || g.ways(), |n| view::way(&n), &of(Kind::Way))?;
            iter_laws("relations()", || g.relations(), |n| view::relation(&n), &of(Kind::Relation))?;
        } else if w.len() <= IDS {
            let ids = |k: Kind| -> Vec<i64> { w.iter().filter(|v| v.kind == k).map(|v| v.id).collect() };
            iter_laws("nodes()", || g.nodes(), |n| n.id(), &ids(Kind::Node))?;
            iter_laws("dense_nodes()", || g.dense_nodes(), |n| n.id(), &ids(Kind::Dense))?;
            iter_laws("ways()", || g.ways(), |n| n.id(), &ids(Kind::Way))?;
            iter_laws("relations()", || g.relations(), |n| n.id(), &ids(Kind::Relation))?;
        }
        if w.len() > VIEWS {
            continue;
        }
        let own = |t: (&str, &str)| (t.0.to_string(), t.1.to_string());
        for (n, v) in g.nodes().zip(of(Kind::Node)) {
            if v.raw_tags.len() <= IDS {
                iter_laws("tags() of a node", || n.tags(), own, &v.tags)?;
                iter_laws("raw_tags() of a node", || n.raw_tags(), |t| (t.0 as i64, t.1 as i64), &v.raw_tags)?;
            }
        }
        for (n, v) in g.dense_nodes().zip(of(Kind::Dense)) {
            if v.raw_tags.len() <= IDS {
                iter_laws("tags() of a dense node", || n.tags(), own, &v.tags)?;
                iter_laws("raw_tags() of a dense node", || n.raw_tags(), |t| (t.0 as i64, t.1 as i64), &v.raw_tags)?;
            }
        }
        for (n, v) in g.ways().zip(of(Kind::Way)) {
            if v.raw_tags.len() <= IDS {
                iter_laws("tags() of a way", || n.tags(), own, &v.tags)?;
                iter_laws("raw_tags() of a way", || n.raw_tags(), |t| (t.0 as i64, t.1 as i64), &v.raw_tags)?;
            }
            if v.refs.len().max(v.locs.len()) <= IDS {
                iter_laws("refs()", || n.refs(), |r| r, &v.refs)?;
                iter_laws("node_locations()", || n.node_locations(), |l| (l.nano_lat(), l.nano_lon()), &v.locs.iter().map(|l| l.nano).collect::<Vec<_>>())?;
            }
        }
        for (n, v) in g.relations().zip(of(Kind::Relation)) {
            if v.raw_tags.len() <= IDS {
                iter_laws("tags() of a relation", || n.tags(), own, &v.tags)?;
                iter_laws("raw_tags() of a relation", || n.raw_tags(), |t| (t.0 as i64, t.1 as i64), &v.raw_tags)?;
            }
            if v.members.len() <= IDS {
                iter_laws("members()", || n.members(), member_key, &v.members.iter().map(|m| (m.ty, m.id, m.role_sid)).collect::<Vec<_>>())?;
            }
        }
    }
    Ok(())
}

fn elem_id(e: &Element) -> i64 {
    match e {
        Element::Node(n) => n.id(),
        Element::DenseNode(n) => n.id(),
        Element::Way(w) => w.id(),
        Element::Relation(r) => r.id(),
    }
}

fn seen(c: &mut Ctx, b: &MBlock) {
    let e = b.encode();
    c.observe(&e);
    c.state(&e);
}

// ---------------------------------------------------------------------------------------------

pub fn c06(lvl: u8) -> Property {
    let th = lvl >= 1;
    let mut mixed = dense_block(&[21, 22]);
    mixed.groups[0].nodes = vec![MNode { id: 20, ..Default::default() }];
    mixed.groups[0].ways = vec![way(23, &[1])];
    mixed.groups[0].rels = rel_block(&[24]).groups[0].rels.clone();
    let mut multi = one_node(30);
    multi.strings = strings(&["", "k", "v", "outer"]);
    multi.groups.push(MGroup::default());
    multi.groups.push(dense_block(&[31, 32]).groups[0].clone());
    multi.groups.push(MGroup { changesets: vec![5, 6], ..Default::default() });
    multi.groups.push(way_block(vec![way(33, &[1, 2]), way(34, &[])]).groups[0].clone());
    multi.groups.push(rel_block(&[35]).groups[0].clone());
    multi.groups.push(one_node(36).groups[0].clone());
    let mut alpha = seg_alphabet(false);
    alpha.push(Seg::data(mixed));
    alpha.push(Seg::data(multi).st(Storage::Zlib(6)));
    alpha.push(Seg::data(MBlock::default()));
    alpha.push(Seg::data(rel_block(&[3, 3])));
    if th {
        alpha = [alpha, seg_alphabet(true)[8..].to_vec()].concat();
    }
    let na = alpha.len();
    let n = [3, 4, 5][lvl as usize];
    let a1 = alpha.clone();
    let layouts = scenario("layouts", format!("all sequences of 0..={n} segments over {na} segments: the callback sees exactly the elements, blob by blob and group by group, in file order"), move |c| {
        let f = lay_out(choose_segs(c, &a1, n));
        c.observe(&f.bytes);
        c.state(&f.bytes);
        let mut got: Vec<View> = vec![];
        let r = ElementReader::new(Src::plain(&f.bytes)).for_each(|e| got.push(view::element(&e)));
        c.steps(got.len() + 1);
        if let Err(e) = r {
            return fail(format!("for_each on a valid file: {e}"));
        }
        compare_stream(&got, &f.segs)
    });
    // damaged: one blob cannot be decoded
    let bad: Vec<(&'static str, Vec<u8>)> = bad_segments();
    let nb = bad.len();
    let errors = scenario("errors", format!("{nb} kinds of undecodable segments at every place of files of 0..=2 other segments ({na} alternatives): elements of the segments before it, then an error"), move |c| {
        let k = c.choose("bad kind", bad.len());
        let before = c.choose("before", 3);
        let after = c.choose("after", 2);
        let pre: Vec<Seg> = (0..before).map(|_| c.pick("segment", &alpha).clone()).collect();
        let f = lay_out(pre);
        let mut d = f.bytes.to_vec();
        d.extend(&bad[k].1);
        if after == 1 {
            d.extend(segment("OSMData", &one_node(99).encode(), Storage::Raw));
        }
        c.observe(&d);
        c.state(&d);
        c.sample(|| format!("{} after {before} segments", bad[k].0));
        let mut got: Vec<View> = vec![];
        let r = ElementReader::new(&d[..]).for_each(|e| got.push(view::element(&e)));
        c.steps(got.len() + 1);
        check!(r.is_err(), "{}: for_each returns Ok", bad[k].0);
        compare_stream(&got, &f.segs)
    });
    let big = scenario("many elements", "files of 1, 2, 3, 10, 100, 400 blobs with 1, 2, 17, 127, 128, 129, 1000 elements each, by kind", move |c| {
        let nb = *c.pick("blobs", &[1usize, 2, 3, 10, 100, 400]);
        let ne = *c.pick("elements", &[1usize, 2, 17, 127, 128, 129, 1000]);
        let k = c.choose("kind", 4);
        if nb * ne > if th { 400_000 } else { 60_000 } {
            c.redundant();
            return Ok(());
        }
        c.observe(&(nb, ne, k));
        c.state(&(nb, ne, k));
        let segs: Vec<Seg> = (0..nb)
            .map(|i| {
                let ids: Vec<i64> = (0..ne).map(|j| (i * ne + j) as i64 * 3 - 50).collect();
                let b = match k {
                    0 => MBlock { strings: strings(&[""]), groups: vec![MGroup { nodes: ids.iter().map(|i| MNode { id: *i, lat: i * 2, lon: 1 - i, ..Default::default() }).collect(), ..Default::default() }], ..Default::default() },
                    1 => dense_block(&ids),
                    2 => way_block(ids.iter().map(|i| way(*i, &[*i, i + 1])).collect()),
                    _ => rel_block(&ids),
                };
                Seg::data(b).st(if i % 2 == 0 { Storage::Zlib(1) } else { Storage::Raw })
            })
            .collect();
        let f = lay_out(segs);
        let mut got: Vec<View> = vec![];
        let r = ElementReader::new(Src::plain(&f.bytes)).for_each(|e| got.push(view::element(&e)));
        c.steps(got.len());
        check!(r.is_ok(), "for_each on a valid file fails");
        compare_stream(&got, &f.segs)
    });
    // a callback that reads something else
    let mut alpha = seg_alphabet(true);
    alpha.push(Seg::data(rel_block(&[3, 3])).st(Storage::Zlib(6)));
    let inner_ok = lay_out(vec![Seg::data(dense_block(&[71, 72])).st(Storage::Zlib(6)), Seg::data(way_block(vec![way(73, &[71])])), Seg::data(rel_block(&[74]))]);
    let bad = bad_segments();
    let inside = scenario(
        "reading inside of the callback",
        format!("all sequences of 1..=3 segments over {}; in the k-th call (k < 6) of the callback: for_each over another file, over a damaged one, decoding its blobs, an indexed query, memory-mapped reading; what the element says is asked for before and after", alpha.len()),
        move |c| {
            let n = 1 + c.choose("segments", 3);
            let f = lay_out((0..n).map(|_| c.pick("segment", &alpha).clone()).collect());
            let at = c.choose("at call", 6);
            let what = c.choose("inside", 5);
            c.observe(&(&f.bytes, at, what));
            c.state(&(&f.bytes, at, what));
            let mut got: Vec<View> = vec![];
            let mut failed: Option<String> = None;
            let want: Vec<View> = inner_ok.segs.iter().flat_map(|s| if let Content::Data(b) = &s.content { b.views() } else { vec![] }).collect();
            let mut hit = false;
            let r = ElementReader::new(Src::plain(&f.bytes)).for_each(|e| {
                let v = view::element(&e);
                if got.len() == at {
                    hit = true;
                    let mut inner: Vec<View> = vec![];
                    match what {
                        0 => {
                            let r = ElementReader::new(Src::plain(&inner_ok.bytes)).for_each(|e| inner.push(view::element(&e)));
                            if r.is_err() || inner != want {
                                failed = Some("for_each over another file".into());
                            }
                        }
                        1 => {
                            for (n, b) in &bad {
                                let mut d = inner_ok.bytes.to_vec();
                                d.extend(b);
                                inner.clear();
                                let r = ElementReader::new(&d[..]).for_each(|e| inner.push(view::element(&e)));
                                if r.is_ok() || inner != want {
                                    failed = Some(format!("for_each over a damaged file ({n})"));
                                }
                            }
                        }
                        2 => {
                            for (b, s) in BlobReader::new(Src::plain(&inner_ok.bytes)).zip(&inner_ok.segs) {
                                if let Err(e) = b.map_err(|e| e.to_string()).and_then(|b| dec_matches(&dec_of(b.decode()), &s.content)) {
                                    failed = Some(format!("decoding a blob: {e}"));
                                }
                            }
                        }
                        3 => {
                            let mut n = 0;
                            let r = IndexedReader::new(Src::plain(&inner_ok.bytes)).and_then(|mut r| r.read_ways_and_deps(|_| true, |_| n += 1));
                            if r.is_err() || n != 2 {
                                failed = Some(format!("an indexed query delivers {n} elements"));
                            }
                        }
                        _ => {
                            if let Ok(m) = MemFile::new(&inner_ok.bytes).mmap() {
                                for (b, s) in m.blob_iter().zip(&inner_ok.segs) {
                                    if let Err(e) = b.map_err(|e| e.to_string()).and_then(|b| dec_matches(&dec_of(b.decode()), &s.content)) {
                                        failed = Some(format!("decoding a mapped blob: {e}"));
                                    }
                                }
                            }
                        }
                    }
                    if view::element(&e) != v {
                        failed = Some("the element has changed meanwhile".into());
                    }
                }
                got.push(v);
            });
            c.steps(got.len() + 1);
            if !hit {
                c.redundant();
            }
            if let Some(m) = failed {
                return fail(format!("inside of the callback: {m}"));
            }
            check!(r.is_ok(), "for_each on a valid file fails");
            compare_stream(&got, &f.segs)
        },
    );
    let a4 = seg_alphabet(true);
    let unwinds = scenario(
        "callbacks that panic",
        format!("all sequences of 1..=2 segments over {}; the k-th call (k < 6) of the callback of for_each (or of for_each_element of each block, or of a closure driving elements(), or the k-th read of the source) panics, once or 70 times in a row; then the file, read again on the same thread in each of these ways, is as ever", a4.len()),
        move |c| {
            let n = 1 + c.choose("segments", 2);
            let f = lay_out((0..n).map(|_| c.pick("segment", &a4).clone()).collect());
            let at = c.choose("at call", 6);
            let how = c.choose("how", 4);
            let times = *c.pick("times", &[1, 70]);
            c.observe(&(&f.bytes, at, how, times));
            c.state(&(&f.bytes, at, how, times));
            let stop = || -> () { std::panic::resume_unwind(Box::new("abandon")) };
            let blocks: Vec<PrimitiveBlock> = BlobReader::new(&f.bytes[..])
                .filter_map(|b| match b.and_then(|b| if b.get_type() == BlobType::OsmData { b.to_primitiveblock().map(Some) } else { Ok(None) }) {
                    Ok(x) => x,
                    Err(_) => None,
                })
                .collect();
            let mut hit = false;
            for _ in 0..times {
                let mut k = 0;
                let mut tick = || {
                    k += 1;
                    if k > at {
                        stop()
                    }
                };
                let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match how {
                    0 => ElementReader::new(&f.bytes[..]).for_each(|_| tick()).is_ok(),
                    1 => {
                        blocks.iter().for_each(|b| b.for_each_element(|_| tick()));
                        true
                    }
                    2 => {
                        blocks.iter().for_each(|b| b.elements().for_each(|_| tick()));
                        true
                    }
                    _ => {
                        struct R<'a, 'b>(&'a [u8], &'b mut (dyn FnMut() + Send));
                        impl std::io::Read for R<'_, '_> {
                            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                                (self.1)();
                                self.0.read(b)
                            }
                        }
                        ElementReader::new(R(&f.bytes, &mut tick)).for_each(|_| ()).is_ok()
                    }
                }));
                c.step();
                match x {
                    Ok(ok) => check!(ok, "for_each on a valid file fails"),
                    Err(_) => hit = true,
                }
            }
            if !hit {
                c.redundant();
            }
            let mut got: Vec<View> = vec![];
            let r = ElementReader::new(&f.bytes[..]).for_each(|e| got.push(view::element(&e)));
            check!(r.is_ok(), "for_each fails after a panic: {r:?}");
            compare_stream(&got, &f.segs)?;
            let mut got: Vec<View> = vec![];
            blocks.iter().for_each(|b| b.for_each_element(|e| got.push(view::element(&e))));
            compare_stream(&got, &f.segs)?;
            let mut got: Vec<View> = vec![];
            blocks.iter().for_each(|b| got.extend(b.elements().map(|e| view::element(&e))));
            compare_stream(&got, &f.segs)
        },
    );
    let so = Sorts::default();
    let ns = so.len();
    let sorts = scenario(
        "one of every sort",
        format!("{ns} elements (every combination of kind, 4 ids, 5 places or 8 reference lists with and without locations or 7 member lists, 8 tag lists, no or 27 (dense: 18) sets of metadata incl. invisible and version 0), each in a group between two others, string 0 empty or not: for_each delivers it as it is"),
        move |c| {
            let g = so.get(c.choose("element", ns));
            let zero = c.flag("zero");
            let f = lay_out(vec![Seg::header(std_header()), Seg::data(sorts_block(vec![dense_block(&[50]).groups[0].clone(), g, way_block(vec![way(60, &[0])]).groups[0].clone()], zero)), Seg::data(one_node(70))]);
            c.observe(&f.bytes);
            c.state(&f.bytes);
            let mut got: Vec<View> = vec![];
            let r = ElementReader::new(&f.bytes[..]).for_each(|e| got.push(view::element(&e)));
            c.steps(got.len() + 1);
            check!(r.is_ok(), "for_each on a valid file fails");
            compare_stream(&got, &f.segs)
        },
    );
    let very = scenario("very many blobs", "files of 65 535, 65 536, 65 537 and 70 001 blobs of nodes and a way, or of unknown types between a few of nodes: for_each delivers every element in order", move |c| {
        let n = *c.pick("blobs", &[65_535usize, 65_536, 65_537, 70_001]);
        let kind = c.choose("kind", 3);
        c.observe(&(n, kind));
        c.state(&(n, kind));
        let f = many_blobs(n, kind);
        let mut got: Vec<View> = vec![];
        let r = ElementReader::new(&f.bytes[..]).for_each(|e| got.push(view::element(&e)));
        c.steps(got.len());
        check!(r.is_ok(), "for_each on a valid file fails");
        compare_stream(&got, &f.segs)
    });
    Property { id: "C06", scenarios: vec![layouts, errors, big, inside, unwinds, sorts, very], assumptions: vec!["within a group mixing element kinds (not allowed by the format) only the order inside each kind is demanded".into()] }
}

/// `got` must be the elements of the data segments in order; inside a group mixing kinds only the
/// order within each kind counts.
fn compare_stream(got: &[View], segs: &[Seg]) -> Res {
    let mut rest = got;
    for (i, s) in segs.iter().enumerate() {
        if let Content::Data(b) = &s.content {
            for g in b.views_by_group() {
                if rest.len() < g.len() {
                    return fail(format!("segment {i}: {} of {} elements missing", g.len() - rest.len(), g.len()));
                }
                let (mine, tail) = rest.split_at(g.len());
                rest = tail;
                if mine == &g[..] {
                    continue;
                }
                let mut a = mine.to_vec();
                a.sort_by(|x, y| x.kind.cmp(&y.kind));
                if a != g {
                    return fail(format!("segment {i}: {}", views_diff(mine, &g)));
                }
            }
        }
    }
    check!(rest.is_empty(), "{} surplus elements, first {:?}", rest.len(), rest[0]);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn dense_only(d: MDense) -> MBlock {
    MBlock {
        strings: strings(&["", "k", "v", "name", "a"]),
        groups: vec![MGroup { dense: Some(d), ..Default::default() }],
        ..Default::default()
    }
}

pub fn c12(lvl: u8) -> Property {
    let th = lvl >= 2;
    let len = [3, 3, 4][lvl as usize];
    let columns = scenario(
        "values",
        format!("all id sequences of length 1..={len} over {} boundary values (same for latitude, longitude, timestamp, changeset; 13 32-bit values for uid, user id, version), one column varied at a time", EDGE.len()),
        move |c| {
            let col = c.choose("column", 8);
            let n = 1 + c.choose("len", len);
            let mut d = MDense { has_info: col >= 3, has_visible: false, ..Default::default() };
            for i in 0..n {
                let mut x = MDNode { id: i as i64 + 100, lat: 2 * i as i64, lon: -(i as i64), ..Default::default() };
                x.info = MDInfo { version: 1 + i as i32, timestamp: 5, changeset: 6, uid: 7, user_sid: 3, visible: true };
                match col {
                    0 => x.id = *c.pick("v", &EDGE),
                    1 => x.lat = *c.pick("v", &EDGE),
                    2 => x.lon = *c.pick("v", &EDGE),
                    3 => x.info.timestamp = *c.pick("v", &EDGE),
                    4 => x.info.changeset = *c.pick("v", &EDGE),
                    5 => x.info.uid = *c.pick("v", &EDGE32),
                    6 => x.info.user_sid = *c.pick("v", &EDGE32),
                    _ => x.info.version = *c.pick("v", &EDGE32),
                }
                d.nodes.push(x);
            }
            let b = dense_only(d);
            seen(c, &b);
            c.sample(|| format!("{:?}", b.groups[0].dense));
            check_block(c, &b, EncOpt::default())
        },
    );
    let nt = [4, 5, 7][lvl as usize];
    let tags = scenario(
        "tags",
        format!("0..={nt} nodes with 0..=3 tags each, tag strings in 4 patterns incl. an empty value; key/value column present or (if there are no tags) absent; with and without info"),
        move |c| {
            let n = c.choose("nodes", nt + 1);
            let pat = c.choose("pattern", 4);
            let mut d = MDense { has_info: c.flag("info"), has_visible: false, ..Default::default() };
            for i in 0..n {
                let k = c.choose("tags", 4);
                let tags = (0..k)
                    .map(|j| match pat {
                        0 => (1, 2),
                        1 => (1 + ((i + j) % 4) as i32, 1 + (j % 4) as i32),
                        2 => (4, 0),
                        _ => (3 - (j % 3) as i32, ((i * 3 + j) % 5) as i32),
                    })
                    .collect();
                d.nodes.push(MDNode { id: i as i64 - 1, lat: i as i64, lon: 4, tags, ..Default::default() });
            }
            if d.nodes.iter().all(|x| x.tags.is_empty()) {
                d.omit_keys_vals = c.flag("omit");
            }
            let b = dense_only(d);
            seen(c, &b);
            check_block(c, &b, EncOpt::default())
        },
    );
    let nv = [5, 10, 16][lvl as usize];
    let vis = scenario("visible", format!("0..={nv} nodes, every pattern of the visible column, column present or absent, info absent"), move |c| {
        let n = c.choose("nodes", nv + 1);
        let mode = c.choose("mode", 3);
        let mut d = MDense { has_info: mode > 0, has_visible: mode == 2, ..Default::default() };
        for i in 0..n {
            let v = mode != 2 || c.flag("visible");
            d.nodes.push(MDNode { id: i as i64, info: MDInfo { version: i as i32, visible: v, user_sid: (i % 5) as i32, uid: -(i as i32), timestamp: i as i64 * 1000, changeset: 9 - i as i64 }, ..Default::default() });
        }
        let b = dense_only(d);
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let mg = [3, 3, 4][lvl as usize];
    let groups = scenario("groups", format!("1..={mg} groups, each with 0..=2 dense nodes out of 3 prototypes, with and without info: delta decoding restarts in every group"), move |c| {
        let ng = 1 + c.choose("groups", mg);
        let protos = [
            MDNode { id: 5, lat: 50, lon: -50, tags: vec![(1, 2)], info: MDInfo { version: 2, timestamp: 7, changeset: 8, uid: 9, user_sid: 1, visible: false } },
            MDNode { id: -9, lat: -1, lon: 1 << 40, ..Default::default() },
            MDNode { id: 1 << 40, lat: 3, lon: 3, tags: vec![(3, 4), (4, 3)], info: MDInfo { version: 1, timestamp: -7, changeset: -8, uid: -9, user_sid: 4, visible: true } },
        ];
        let mut b = dense_only(MDense::default());
        b.groups.clear();
        for _ in 0..ng {
            let k = c.choose("nodes", 3);
            let info = c.flag("info");
            let nodes = (0..k).map(|_| c.pick("node", &protos).clone()).collect();
            b.groups.push(MGroup { dense: Some(MDense { nodes, has_info: info, has_visible: info, ..Default::default() }), ..Default::default() });
        }
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let mut counts: Vec<usize> = (0..34).collect();
    counts.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 7999, 8000, 8001, 16_000, 32_767, 32_768]);
    if lvl >= 1 {
        counts.extend([65_535, 65_536, 65_537, 70_001]);
    }
    if th {
        counts.extend([100_000, 200_000]);
    }
    let scale = scenario("counts", format!("blocks of {counts:?} dense nodes, five value patterns, with and without info, tags on every 1st/3rd/no node, up to 300 tags on one node"), move |c| {
        let n = *c.pick("count", &counts);
        let p = c.choose("pattern", 5);
        let info = c.flag("info");
        let tag_every = *c.pick("tags", &[0usize, 1, 3, 1000]);
        let mut d = MDense { has_info: info, has_visible: info && p % 2 == 0, ..Default::default() };
        for i in 0..n {
            let x = i as i64;
            let (id, lat, lon) = match p {
                0 => (x + 1, 500_000_000 + x, 130_000_000 - x),
                1 => (-x, -x * 7, x * 9),
                2 => (x * 1_000_003 % 7919, (x * 31) % 101 - 50, -(x * 17) % 97),
                3 => (if i % 2 == 0 { x } else { -(1 << 45) + x }, 1_800_000_000, -1_800_000_000),
                _ => (10_000_000_000 + x * x, x, x),
            };
            let nt = if tag_every == 1000 {
                if i == n / 2 { 300 } else { 0 }
            } else if tag_every > 0 && i % tag_every == 0 {
                1 + i % 3
            } else {
                0
            };
            let tags = (0..nt).map(|j| (1 + (j % 4) as i32, (i + j) as i32 % 5)).collect();
            d.nodes.push(MDNode { id, lat, lon, tags, info: MDInfo { version: (i % 300) as i32, timestamp: 1_400_000_000 + x % 777, changeset: 60_000_000 - x, uid: (i % 5000) as i32 * 3, user_sid: (i % 5) as i32, visible: i % 7 != 0 } });
        }
        let b = dense_only(d);
        c.observe(&(n, p, info, tag_every));
        c.state(&(n, p, info, tag_every));
        check_block(c, &b, EncOpt::default())
    });
    let so = Sorts::default();
    let (n0, nd) = (so.nodes(), so.dense());
    let sorts = scenario("one of every sort", format!("{nd} dense nodes (4 ids x 5 places x 8 tag lists x 19 sets of metadata), alone in a group, string 0 empty or not"), move |c| {
        let b = sorts_block(vec![so.get(n0 + c.choose("element", nd))], c.flag("zero"));
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let (tk, tn) = ([2, 2, 3][lvl as usize], 4);
    let few = scenario("equal tags", format!("all lists of 0..={tn} tags over {tk} keys and 3 values (one empty) on a dense node, a neighbour with one tag before or behind it"), move |c| {
        let n = c.choose("tags", tn + 1);
        let tags = (0..n).map(|_| (1 + c.choose("key", tk) as i32, *c.pick("value", &[2i32, 0, 3]))).collect();
        let mut nodes = vec![MDNode { id: 5, tags, ..Default::default() }];
        nodes.insert(c.choose("neighbour", 2), MDNode { id: 6, tags: vec![(1, 2)], ..Default::default() });
        let b = dense_only(MDense { nodes, ..Default::default() });
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    Property { id: "C12", scenarios: vec![columns, tags, few, vis, groups, scale, sorts], assumptions: vec!["the columns of a dense group have equal lengths, as the format requires".into()] }
}

// ---------------------------------------------------------------------------------------------

fn blk(g: MGroup) -> MBlock {
    MBlock { strings: strings(&["", "k", "v", "name", "role", "ß"]), groups: vec![g], ..Default::default() }
}

pub fn c13(lvl: u8) -> Property {
    let th = lvl >= 1;
    let len = [3, 4, 5][lvl as usize];
    let nodes = scenario("nodes", format!("one node: id, lat, lon each over {} boundary values (two of the three varied together), 0..=3 tags", EDGE.len()), |c| {
        let which = c.choose("fixed", 3);
        let (a, b2) = (*c.pick("a", &EDGE), *c.pick("b", &EDGE));
        let t = c.choose("tags", 4);
        let (id, lat, lon) = match which {
            0 => (a, b2, 3),
            1 => (a, 3, b2),
            _ => (3, a, b2),
        };
        let tags = (0..t).map(|j| (1 + j as u32, 5 - j as u32)).collect();
        let b = blk(MGroup { nodes: vec![MNode { id, lat, lon, tags, ..Default::default() }], ..Default::default() });
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let refs = scenario("way references", format!("all reference lists of length 0..={len} over {} boundary values; the way id from 5 values", EDGE.len()), move |c| {
        let n = c.choose("len", len + 1);
        let refs = (0..n).map(|_| *c.pick("ref", &EDGE)).collect();
        let id = if n < 3 { *c.pick("id", &EDGE) } else { 9 };
        let b = blk(MGroup { ways: vec![MWay { id, refs, tags: vec![(1, 2)], ..Default::default() }], ..Default::default() });
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let locs = scenario("way node locations", format!("all location lists of length 0..={} over boundary values for latitude or longitude, with as many references, none, one less or one more", len - 1), move |c| {
        let n = c.choose("len", len);
        let lon = c.flag("vary longitude");
        let l: Vec<(i64, i64)> = (0..n)
            .map(|i| {
                let v = *c.pick("v", &EDGE);
                if lon { (i as i64, v) } else { (v, -(i as i64)) }
            })
            .collect();
        let nr = match c.choose("refs", 4) {
            0 => 0,
            1 => n,
            2 => n + 1,
            _ => n.saturating_sub(1),
        };
        let refs = (0..nr as i64).map(|i| i * 3 - 1).collect();
        let b = blk(MGroup { ways: vec![MWay { id: 4, refs, locs: Some(l), ..Default::default() }, way(5, &[1])], ..Default::default() });
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let rels = scenario("relation members", format!("all member lists of length 0..={len}: type x id over {} boundary values (one member varied fully, the others from 3 prototypes), role from 4 strings", EDGE.len()), move |c| {
        let n = c.choose("len", len + 1);
        let full = if n > 0 { c.choose("full", n) } else { 0 };
        let members = (0..n)
            .map(|i| {
                if i == full {
                    (c.choose("type", 3) as u8, *c.pick("id", &EDGE), *c.pick("role", &[0, 4, 5, 1]))
                } else {
                    *c.pick("proto", &[(0u8, 5i64, 4i32), (1, -7, 0), (2, 1 << 40, 5)])
                }
            })
            .collect();
        let id = if n == 0 { *c.pick("relation id", &EDGE) } else { 9 };
        let b = blk(MGroup { rels: vec![MRel { id, members, tags: vec![(3, 5)], ..Default::default() }], ..Default::default() });
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let mg = [2, 2, 3][lvl as usize];
    let mix = scenario("mixed groups", format!("1..={mg} groups out of all combinations of 0..=2 nodes, dense nodes, ways, relations (and changesets)"), move |c| {
        let ng = 1 + c.choose("groups", mg);
        let mut b = blk(MGroup::default());
        b.groups.clear();
        for gi in 0..ng {
            let mut g = MGroup::default();
            let base = gi as i64 * 100;
            for i in 0..c.choose("nodes", 3) as i64 {
                g.nodes.push(MNode { id: base + i, lat: 1, lon: 2, tags: vec![(1, 2)], ..Default::default() });
            }
            let k = c.choose("dense", 3) as i64;
            if k > 0 {
                g.dense = Some(MDense { nodes: (0..k).map(|i| MDNode { id: base + 10 + i, tags: vec![(3, 2)], ..Default::default() }).collect(), ..Default::default() });
            }
            for i in 0..c.choose("ways", 3) as i64 {
                g.ways.push(way(base + 20 + i, &[base, i]));
            }
            for i in 0..c.choose("rels", 3) as i64 {
                g.rels.push(MRel { id: base + 30 + i, members: vec![(2, i, 4)], ..Default::default() });
            }
            if c.flag("changesets") {
                g.changesets = vec![3];
            }
            b.groups.push(g);
        }
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let mut counts: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 63, 64, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1999, 2000, 2001, 4095, 4096, 4097, 8000, 10_000, 32_767, 32_768];
    if th {
        counts.extend([65_535, 65_536, 65_537, 120_000]);
    }
    let scale = scenario("counts", format!("{counts:?} references / members / tags / nodes / ways / relations / groups / locations"), move |c| {
        let n = *c.pick("count", &counts);
        let what = c.choose("what", 8);
        c.observe(&(n, what));
        c.state(&(n, what));
        let ids = |m: usize| -> Vec<i64> { (0..m).map(|i| (i as i64 * 7919) % 10_007 - 3000 + if i % 50 == 0 { 1 << 35 } else { 0 }).collect() };
        let mut g = MGroup::default();
        let mut b = blk(MGroup::default());
        match what {
            0 => g.ways = vec![way(1, &ids(n)), way(2, &[4])],
            1 => g.rels = vec![MRel { id: 1, members: ids(n).iter().enumerate().map(|(i, x)| ((i % 3) as u8, *x, (i % 6) as i32)).collect(), ..Default::default() }],
            2 => {
                b.strings = (0..700).map(|i| format!("s{i}").into_bytes()).collect();
                let tags = (0..n).map(|i| ((i % 700) as u32, ((i * 3) % 700) as u32)).collect();
                g.nodes = vec![MNode { id: 1, tags, ..Default::default() }];
            }
            3 => g.nodes = ids(n).iter().map(|i| MNode { id: *i, lat: i * 3, lon: -i, tags: vec![(1, 2)], ..Default::default() }).collect(),
            4 => g.ways = ids(n).iter().map(|i| way(*i, &[*i, 5])).collect(),
            5 => g.rels = ids(n).iter().map(|i| MRel { id: *i, members: vec![(1, *i, 4)], ..Default::default() }).collect(),
            6 => {
                b.groups = (0..n).map(|i| if i % 3 == 0 { MGroup { ways: vec![way(i as i64, &[1])], ..Default::default() } } else { dense_block(&[i as i64]).groups[0].clone() }).collect();
                return check_block(c, &b, EncOpt::default());
            }
            _ => {
                let l = ids(n);
                g.ways = vec![MWay { id: 1, refs: l.clone(), locs: Some(l.iter().map(|i| (i * 2, -i * 3)).collect()), ..Default::default() }];
            }
        }
        b.groups = vec![g];
        check_block(c, &b, EncOpt::default())
    });
    let nt = [3, 4, 4][lvl as usize];
    let (nk, nv) = if lvl >= 2 { (3, 4) } else { (3, 3) };
    let tags = scenario("tags", format!("all lists of 0..={nt} tags over {nk} keys and {nv} values (equal tags, equal keys, empty strings) on a node, a way and a relation"), move |c| {
        let what = c.choose("element", 3);
        let n = c.choose("tags", nt + 1);
        let tags: Vec<(u32, u32)> = (0..n).map(|_| (*c.pick("key", &[1u32, 0, 5][..nk]), *c.pick("value", &[2u32, 0, 1, 5][..nv]))).collect();
        let mut g = MGroup::default();
        match what {
            0 => g.nodes = vec![MNode { id: 5, tags, ..Default::default() }, MNode { id: 6, tags: vec![(1, 2)], ..Default::default() }],
            1 => g.ways = vec![MWay { id: 5, refs: vec![3], tags, ..Default::default() }, way(6, &[1])],
            _ => g.rels = vec![MRel { id: 5, tags, members: vec![(1, 2, 4)], ..Default::default() }, MRel { id: 6, tags: vec![(1, 2)], ..Default::default() }],
        }
        let b = blk(g);
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let so = Sorts::default();
    let (n0, nd, ns) = (so.nodes(), so.dense(), so.len());
    let sorts = scenario("one of every sort", format!("{} nodes, ways and relations (4 ids x 5 places or 8 reference lists with and without locations or 7 member lists x 8 tag lists x 28 sets of metadata), alone in a group, string 0 empty or not", ns - nd), move |c| {
        let i = c.choose("element", ns - nd);
        let b = sorts_block(vec![so.get(if i < n0 { i } else { i + nd })], c.flag("zero"));
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    Property { id: "C13", scenarios: vec![nodes, refs, locs, rels, mix, tags, scale, sorts], assumptions: vec!["parallel columns (keys/values, members, locations) have equal lengths".into()] }
}

// ---------------------------------------------------------------------------------------------

pub fn c14(lvl: u8) -> Property {
    let presence = scenario("presence", "node, way, relation: no info, or every subset of the six info fields, visible true/false, two value sets", |c| {
        let kind = c.choose("kind", 3);
        let big = c.flag("values");
        let info = if c.flag("info") {
            let mut i = MInfo::default();
            if c.flag("version") {
                i.version = Some(if big { 1 << 20 } else { 0 });
            }
            if c.flag("timestamp") {
                i.timestamp = Some(if big { 1_600_000_000 } else { 0 });
            }
            if c.flag("changeset") {
                i.changeset = Some(if big { 1 << 40 } else { 0 });
            }
            if c.flag("uid") {
                i.uid = Some(if big { -5 } else { 0 });
            }
            if c.flag("user") {
                i.user_sid = Some(if big { 3 } else { 0 });
            }
            i.visible = [None, Some(true), Some(false)][c.choose("visible", 3)];
            Some(i)
        } else {
            None
        };
        let b = info_block(kind, info);
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let values = scenario("values", format!("node, way, relation: every info field over its boundary values ({} / {})", EDGE.len(), EDGE32.len()), |c| {
        let kind = c.choose("kind", 3);
        let mut i = MInfo { version: Some(1), timestamp: Some(2), changeset: Some(3), uid: Some(4), user_sid: Some(3), visible: Some(true) };
        match c.choose("field", 5) {
            0 => i.version = Some(*c.pick("v", &EDGE32)),
            1 => i.timestamp = Some(*c.pick("v", &EDGE)),
            2 => i.changeset = Some(*c.pick("v", &EDGE)),
            3 => i.uid = Some(*c.pick("v", &EDGE32)),
            _ => i.user_sid = Some(c.choose("sid", 6) as u32),
        }
        let b = info_block(kind, Some(i));
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let pairs = scenario("pairs of values", "node, way, relation, dense node: every two of version, timestamp, changeset, uid over all pairs of boundary values, at five date granularities", |c| {
        let kind = c.choose("kind", 4);
        let (a, b) = *c.pick("fields", &[(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]);
        let mut i = MInfo { version: Some(1), timestamp: Some(2), changeset: Some(3), uid: Some(4), user_sid: Some(3), visible: Some(true) };
        for f in [a, b] {
            match f {
                0 => i.version = Some(*c.pick("v", &EDGE32)),
                1 => i.timestamp = Some(*c.pick("v", &EDGE)),
                2 => i.changeset = Some(*c.pick("v", &EDGE)),
                _ => i.uid = Some(*c.pick("v", &EDGE32)),
            }
        }
        let mut b = if kind < 3 {
            info_block(kind, Some(i))
        } else {
            let info = MDInfo { version: i.version.unwrap(), timestamp: i.timestamp.unwrap(), changeset: i.changeset.unwrap(), uid: i.uid.unwrap(), user_sid: 3, visible: true };
            blk(MGroup { dense: Some(MDense { has_info: true, nodes: vec![MDNode { id: 1, info, ..Default::default() }, MDNode { id: 2, ..Default::default() }], ..Default::default() }), ..Default::default() })
        };
        b.date_granularity = *c.pick("date_granularity", &[None, Some(1), Some(1000), Some(7), Some(60_000)]);
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    let n = [4, 6, 8][lvl as usize];
    let seqs = scenario("sequences", format!("2..={n} elements of one kind (or dense nodes) with infos out of 4 prototypes: metadata never leaks from one element to the next"), move |c| {
        let kind = c.choose("kind", 4);
        let n = 2 + c.choose("n", n - 1);
        let protos = [
            MInfo { version: Some(3), timestamp: Some(10), changeset: Some(20), uid: Some(30), user_sid: Some(1), visible: Some(false) },
            MInfo { version: Some(1), user_sid: Some(3), ..Default::default() },
            MInfo { timestamp: Some(-5), changeset: Some(1 << 33), uid: Some(-1), visible: Some(true), ..Default::default() },
        ];
        let mut g = MGroup::default();
        let mut d = MDense { has_info: true, has_visible: true, ..Default::default() };
        for i in 0..n {
            let k = c.choose("info", 4);
            let info = protos.get(k).cloned();
            let id = i as i64;
            match kind {
                0 => g.nodes.push(MNode { id, info, ..Default::default() }),
                1 => g.ways.push(MWay { id, info, ..Default::default() }),
                2 => g.rels.push(MRel { id, info, ..Default::default() }),
                _ => {
                    let i = info.unwrap_or_default();
                    d.nodes.push(MDNode {
                        id,
                        info: MDInfo { version: i.version.unwrap_or(-1), timestamp: i.timestamp.unwrap_or(0), changeset: i.changeset.unwrap_or(-2), uid: i.uid.unwrap_or(0), user_sid: i.user_sid.unwrap_or(0) as i32, visible: i.visible.unwrap_or(true) },
                        ..Default::default()
                    })
                }
            }
        }
        if kind == 3 {
            g.dense = Some(d);
        }
        let b = blk(g);
        seen(c, &b);
        check_block(c, &b, EncOpt::default())
    });
    Property { id: "C14", scenarios: vec![presence, values, pairs, seqs], assumptions: vec!["dense info columns are either all present (visible excepted) or all absent".into()] }
}

fn info_block(kind: usize, info: Option<MInfo>) -> MBlock {
    let mut g = MGroup::default();
    match kind {
        0 => g.nodes.push(MNode { id: 1, info, ..Default::default() }),
        1 => g.ways.push(MWay { id: 1, info, refs: vec![4], ..Default::default() }),
        _ => g.rels.push(MRel { id: 1, info, ..Default::default() }),
    }
    let mut b = blk(g);
    b.date_granularity = None;
    b
}

// ---------------------------------------------------------------------------------------------

pub fn c15(lvl: u8) -> Property {
    let grans: Vec<Option<i32>> = vec![None, Some(100), Some(1), Some(2), Some(7), Some(10), Some(99), Some(101), Some(1000), Some(10_000), Some(1_000_000), Some(i32::MAX), Some(0), Some(-1), Some(-100)];
    let offs: Vec<Option<i64>> = vec![None, Some(0), Some(1), Some(-1), Some(50), Some(-50), Some(99), Some(-99), Some(100), Some(123_456_789), Some(-90_000_000_000), Some(180_000_000_000)];
    // positions in units of 100 nanodegrees around the interesting places
    let raws: Vec<i64> = vec![0, 1, -1, 49, 50, 99, -99, 100, -100, 101, -101, 900_000_000, -900_000_000, 1_800_000_000, -1_800_000_000, 515_074_561, -1_278_431, 1 << 31, -(1 << 31) - 1, 21_474_836_47, 21_474_836_48];
    let deep = lvl >= 2;
    let (ng, no, nr) = (grans.len(), offs.len(), raws.len());
    let coords = scenario("coordinates", format!("{ng} granularities x {no} x {no} offsets x {nr} raw latitudes x {} raw longitudes x (node, dense node, way location)", if deep { nr } else { 3 }), move |c| {
        let mut b = blk(MGroup::default());
        b.granularity = *c.pick("granularity", &grans);
        b.lat_offset = *c.pick("lat_offset", &offs);
        b.lon_offset = *c.pick("lon_offset", &offs);
        let lat = *c.pick("lat", &raws);
        let lon = if deep { *c.pick("lon", &raws) } else { [lat.wrapping_neg(), 7, raws[(hash_of(&lat) % raws.len() as u64) as usize]][c.choose("lon", 3)] };
        b.groups = vec![MGroup {
            nodes: vec![MNode { id: 1, lat, lon, ..Default::default() }],
            dense: Some(MDense { nodes: vec![MDNode { id: 2, lat: lon, lon: lat, ..Default::default() }, MDNode { id: 3, lat, lon, ..Default::default() }], ..Default::default() }),
            ways: vec![MWay { id: 4, locs: Some(vec![(lat, lon), (lon, lat)]), refs: vec![1, 2], ..Default::default() }],
            ..Default::default()
        }];
        c.observe(&(b.granularity, b.lat_offset, b.lon_offset, lat, lon));
        c.state(&(b.granularity, b.lat_offset, b.lon_offset, lat, lon));
        c.sample(|| format!("granularity {:?} offsets {:?}/{:?} raw {lat},{lon}", b.granularity, b.lat_offset, b.lon_offset));
        check_block(c, &b, EncOpt::default())
    });
    let dgs: Vec<Option<i32>> = vec![None, Some(1000), Some(1), Some(2), Some(100), Some(999), Some(1001), Some(60_000), Some(i32::MAX), Some(0), Some(-1)];
    let tss: Vec<i64> = vec![0, 1, -1, 999, 1_000, 2_147_483, 2_147_484, 1_600_000_000, -1_600_000_000, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64 + 1, 253_402_300_799, 1_600_000_000_123, -62_135_596_800];
    let nd = dgs.len();
    let ts = scenario("timestamps", format!("{nd} date granularities x {} timestamps x (node, way, relation, dense node) infos, with unrelated coordinate granularities", tss.len()), move |c| {
        let mut b = blk(MGroup::default());
        b.date_granularity = *c.pick("date_granularity", &dgs);
        b.granularity = *c.pick("granularity", &[None, Some(1), Some(1_000)]);
        let t = *c.pick("timestamp", &tss);
        let i = Some(MInfo { timestamp: Some(t), ..Default::default() });
        let di = MDInfo { timestamp: t, version: 1, ..Default::default() };
        let di2 = MDInfo { timestamp: t + 1, version: 2, ..Default::default() };
        b.groups = vec![MGroup {
            nodes: vec![MNode { id: 1, info: i.clone(), ..Default::default() }],
            dense: Some(MDense { has_info: true, nodes: vec![MDNode { id: 2, info: di, ..Default::default() }, MDNode { id: 3, info: di2, ..Default::default() }], ..Default::default() }),
            ways: vec![MWay { id: 4, info: i.clone(), ..Default::default() }],
            rels: vec![MRel { id: 5, info: i, ..Default::default() }],
            ..Default::default()
        }];
        c.observe(&(b.date_granularity, b.granularity, t));
        c.state(&(b.date_granularity, b.granularity, t));
        check_block(c, &b, EncOpt::default())
    });
    let span = [700, 3_000, 30_000][lvl as usize];
    let rounding = scenario("rounding", format!("granularity 1: every nanodegree value in windows of {span} around 0, +-1e-7 degree steps, +-90, +-180 degrees and the limits of the decimicrodegree type"), move |c| {
        let centre = *c.pick("centre", &[0i64, 90_000_000_000, -90_000_000_000, 180_000_000_000, -180_000_000_000, 214_748_364_700, -214_748_364_800, 12_345_678_900]);
        let v = centre + c.choose("delta", 2 * span) as i64 - span as i64;
        let mut b = blk(MGroup { nodes: vec![MNode { id: 1, lat: v, lon: -v, ..Default::default() }], dense: Some(MDense { nodes: vec![MDNode { id: 1, lat: -v, lon: v, ..Default::default() }], ..Default::default() }), ..Default::default() });
        b.groups[0].ways.push(MWay { id: 3, locs: Some(vec![(v, -v)]), ..Default::default() });
        b.granularity = Some(1);
        c.observe(&v);
        c.state(&v);
        check_block(c, &b, EncOpt::default())
    });
    let mb = [3, 4, 6][lvl as usize];
    let blocks = scenario("blocks", format!("files of 2..={mb} blocks with different granularities, offsets and date granularities (5 prototypes each): parameters are per block"), move |c| {
        let protos: [(Option<i32>, Option<i64>, Option<i64>, Option<i32>); 5] = [(None, None, None, None), (Some(1), Some(5), None, Some(1)), (Some(1000), None, Some(-7), None), (Some(100), Some(-3), Some(3), Some(60_000)), (Some(7), Some(1 << 35), Some(-(1 << 36)), Some(500))];
        let n = 2 + c.choose("blocks", mb - 1);
        let segs: Vec<Seg> = (0..n)
            .map(|i| {
                let p = *c.pick("parameters", &protos);
                let mut b = blk(MGroup { nodes: vec![MNode { id: i as i64, lat: 1234, lon: -777, info: Some(MInfo { timestamp: Some(99), ..Default::default() }), ..Default::default() }], ..Default::default() });
                (b.granularity, b.lat_offset, b.lon_offset, b.date_granularity) = p;
                Seg::data(b)
            })
            .collect();
        let f = lay_out(segs);
        c.observe(&f.bytes);
        c.state(&f.bytes);
        let mut got: Vec<View> = vec![];
        check!(ElementReader::new(&f.bytes[..]).for_each(|e| got.push(view::element(&e))).is_ok(), "for_each");
        c.steps(got.len());
        compare_stream(&got, &f.segs)
    });
    Property {
        id: "C15",
        scenarios: vec![coords, ts, rounding, blocks],
        assumptions: vec!["decimicrodegrees are compared where they fit an i32; degrees as f64 within 1e-10 absolute or 1e-14 relative".into()],
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c16(lvl: u8) -> Property {
    let th = lvl >= 1;
    let entries: Vec<Vec<u8>> = vec![b"".to_vec(), b"a".to_vec(), "ß→𝄞".into(), vec![0xFF], vec![0xC3], b"ok\0x".to_vec(), vec![0xED, 0xA0, 0x80], vec![0xF0, 0x9F], "é".into(), vec![b'x', 0x80, b'y']];
    let n = entries.len();
    let e1 = entries.clone();
    let mt = [3, 4, 5][lvl as usize];
    let tables = scenario("tables", format!("string tables of 1..={mt} entries over {n} byte strings (valid, empty, multi-byte, invalid); a reference to every index and four indices beyond, as key, value, role and user, from node, way, relation, dense node"), move |c| {
        let k = 1 + c.choose("entries", mt);
        let strs: Vec<Vec<u8>> = (0..k).map(|_| c.pick("entry", &e1).clone()).collect();
        let bad = [k as u32, k as u32 + 1, i32::MAX as u32, u32::MAX];
        let x = c.choose("index", k + bad.len());
        let idx = if x < k { x as u32 } else { bad[x - k] };
        string_case(c, strs, idx)
    });
    let sizes: Vec<usize> = vec![0, 1, 127, 128, 129, 255, 256, 1000, 4096, 65_535, 65_536, 70_000];
    let long = scenario("long strings", format!("strings of {sizes:?} bytes, ascii or multi-byte, valid or broken at the first, middle or last byte"), move |c| {
        let n = *c.pick("length", &sizes);
        let mb = c.flag("multi-byte");
        let mut s: Vec<u8> = if mb { "é".repeat(n / 2).into_bytes() } else { vec![b'q'; n] };
        if !s.is_empty() {
            let l = s.len();
            match c.choose("broken", 4) {
                0 => {}
                1 => s[0] = 0xFE,
                2 => s[l / 2] = 0xFF,
                _ => s[l - 1] = 0xC0,
            }
        }
        string_case(c, vec![vec![], s], 1)
    });
    let pieces: Vec<&str> = vec!["a", "\0", " ", "\n", "\t", "\r", "\u{feff}", "é", "e\u{301}", "\\", "\"", "'", "%", "&amp;", "{}", "\u{200b}", "\u{2028}", "\u{7f}", "\u{fffd}", "A", "0", ";", "-", "\u{10ffff}"];
    let np = [2, 3, 3][lvl as usize];
    let odd = scenario("odd characters", format!("strings of 1..={np} of {} pieces (zero, spaces and line ends, marks and combining characters, quotes and escapes): reported as they are", pieces.len()), move |c| {
        let n = 1 + c.choose("pieces", np);
        let s: String = (0..n).map(|_| *c.pick("piece", &pieces)).collect();
        string_case(c, vec![vec![], s.into_bytes(), b"z".to_vec()], 1)
    });
    let mut counts: Vec<usize> = vec![1, 2, 3, 126, 127, 128, 129, 255, 256, 257, 1000, 16_383, 16_384, 16_385, 32_767, 32_768];
    if th {
        counts.extend([65_535, 65_536, 65_537, 200_000]);
    }
    let big = scenario("large tables", format!("tables of {counts:?} entries; references to the first, last, middle, 127th, 128th and one-past-the-end entries"), move |c| {
        let n = *c.pick("entries", &counts);
        let strs: Vec<Vec<u8>> = (0..n).map(|i| if i == 0 { vec![] } else { format!("s{i}").into_bytes() }).collect();
        let idx = [0, n - 1, n / 2, 127.min(n - 1), 128.min(n - 1), n][c.choose("which", 6)] as u32;
        c.observe(&(n, idx));
        string_case(c, strs, idx)
    });
    let ms = [4, 5, 7][lvl as usize];
    let seq = scenario("tag sequences", format!("elements with 1..={ms} tags, each tag referencing good or unresolvable strings in key and/or value (5 kinds): tags before the first unresolvable one are reported, never a wrong string"), move |c| {
        let strs = vec![vec![], b"a".to_vec(), b"b".to_vec(), vec![0xFF]];
        let n = 1 + c.choose("tags", ms);
        let kinds: [(u32, u32); 5] = [(1, 2), (2, 1), (3, 1), (1, 3), (1, 9)];
        let tags: Vec<(u32, u32)> = (0..n).map(|_| *c.pick("tag", &kinds)).collect();
        let dtags: Vec<(i32, i32)> = tags.iter().map(|t| (t.0 as i32, t.1 as i32)).collect();
        let b = MBlock {
            strings: strs,
            groups: vec![MGroup {
                nodes: vec![MNode { id: 1, tags: tags.clone(), ..Default::default() }],
                dense: Some(MDense { nodes: vec![MDNode { id: 2, tags: dtags, ..Default::default() }, MDNode { id: 3, tags: vec![(1, 2)], ..Default::default() }], ..Default::default() }),
                ways: vec![MWay { id: 4, tags: tags.clone(), ..Default::default() }],
                rels: vec![MRel { id: 5, tags, ..Default::default() }],
                ..Default::default()
            }],
            ..Default::default()
        };
        seen(c, &b);
        check_strings(c, &b)
    });
    Property { id: "C16", scenarios: vec![tables, long, odd, big, seq], assumptions: vec![] }
}

fn string_case(c: &mut Ctx, strs: Vec<Vec<u8>>, idx: u32) -> Res {
    let i = idx as i32;
    let key_is_zero = idx == 0; // a dense key can never be 0 (terminator)
    let b = MBlock {
        strings: strs,
        groups: vec![MGroup {
            nodes: vec![MNode { id: 1, tags: vec![(idx, 0), (0, idx)], info: Some(MInfo { user_sid: Some(idx), ..Default::default() }), ..Default::default() }],
            dense: Some(MDense {
                has_info: true,
                nodes: vec![MDNode { id: 2, tags: if key_is_zero { vec![] } else { vec![(i, 0), (i, i)] }, info: MDInfo { version: 1, user_sid: i, ..Default::default() }, ..Default::default() }],
                ..Default::default()
            }),
            ways: vec![MWay { id: 3, tags: vec![(0, idx)], info: Some(MInfo { user_sid: Some(idx), ..Default::default() }), ..Default::default() }],
            rels: vec![MRel { id: 4, tags: vec![(idx, idx)], members: vec![(0, 1, i), (1, 2, 0)], info: Some(MInfo { user_sid: Some(idx), ..Default::default() }), ..Default::default() }],
            ..Default::default()
        }],
        ..Default::default()
    };
    seen(c, &b);
    check_strings(c, &b)
}

/// Like check_block, but for unresolvable tags only the prefix before the first one is fixed, and
/// later resolvable tags may or may not be reported.
fn check_strings(c: &mut Ctx, b: &MBlock) -> Res {
    let p = decode_block(&b.encode())?;
    check!(p.raw_stringtable() == &b.strings[..], "raw_stringtable of the block differs");
    let want: Vec<View> = b.views();
    let mut got: Vec<View> = view::block_by_group(&p).concat();
    c.steps(got.len());
    check_eq!(got.len(), want.len(), "elements");
    for (g, w) in got.iter_mut().zip(&want) {
        let good: Vec<(String, String)> = w
            .raw_tags
            .iter()
            .filter_map(|t| {
                let s = |i: i64| b.strings.get(usize::try_from(i).ok()?).and_then(|b| String::from_utf8(b.clone()).ok());
                Some((s(t.0)?, s(t.1)?))
            })
            .collect();
        let prefix = w.tags.len();
        check!(g.tags.len() >= prefix && g.tags[..prefix] == w.tags[..], "tags of {:?} {}: got {:?}, expected to start with {:?}", w.kind, w.id, g.tags, w.tags);
        let mut it = good.iter();
        check!(g.tags.iter().all(|t| it.any(|x| x == t)), "tags of {:?} {}: {:?} contains a string that is not in the file ({good:?})", w.kind, w.id, g.tags);
        g.tags = w.tags.clone();
    }
    expect_views(got, &want)?;
    for gr in p.groups() {
        for n in gr.nodes() {
            check!(n.raw_stringtable() == &b.strings[..], "raw_stringtable of a node");
        }
        for n in gr.ways() {
            check!(n.raw_stringtable() == &b.strings[..], "raw_stringtable of a way");
        }
        for n in gr.relations() {
            check!(n.raw_stringtable() == &b.strings[..], "raw_stringtable of a relation");
            // the error must name the index that was looked up
            for m in n.members() {
                if let Err(e) = m.role() {
                    check_index(&e, m.role_sid as usize, "role")?;
                }
            }
        }
    }
    Ok(())
}
fn check_index(e: &Error, want: usize, what: &str) -> Res {
    match e.kind() {
        ErrorKind::StringtableUtf8 { index, .. } => check_eq!(*index, want, "index in the error of {what}"),
        ErrorKind::StringtableIndexOutOfBounds { index } => check_eq!(*index as i32, want as i32, "index in the error of {what}"),
        k => return fail(format!("{what}: unexpected error kind {k:?}")),
    }
    check!(!e.to_string().is_empty(), "error message of {what}");
    Ok(())
}

// ---------------------------------------------------------------------------------------------

fn exact<I: ExactSizeIterator + Clone, T>(c: &mut Ctx, what: &str, mut it: I, want: &[T], key: impl Fn(I::Item) -> T) -> Res
where
    T: PartialEq + std::fmt::Debug,
{
    // Iterator adaptors on clones at every position agree with plain iteration
    for i in 0..=want.len() {
        let left = want.len() - i;
        check_eq!(it.size_hint(), (left, Some(left)), "{what}: size_hint after {i} items");
        check_eq!(it.len(), left, "{what}: len after {i} items");
        if i % 7 == 0 || want.len() < 12 {
            c.step();
            check_eq!(it.clone().count(), left, "{what}: count of a clone after {i} items");
            let rest: Vec<T> = it.clone().map(&key).collect();
            check_eq!(rest[..], want[i..], "{what}: a clone after {i} items");
            if left > 0 {
                let j = left - 1;
                check_eq!(it.clone().nth(j).map(&key), it.clone().last().map(&key), "{what}: nth({j}) and last after {i} items");
                let sk = it.clone().skip(j / 2).next().map(&key);
                check_eq!(sk.as_ref(), want.get(i + j / 2), "{what}: skip after {i} items");
            }
        }
        match it.next() {
            Some(x) => {
                check!(i < want.len(), "{what}: surplus item");
                check_eq!(key(x), want[i], "{what}: item {i}");
            }
            None => check_eq!(i, want.len(), "{what}: items before the end"),
        }
    }
    for _ in 0..2 {
        check!(it.next().is_none(), "{what}: an item after the end");
        check_eq!(it.size_hint(), (0, Some(0)), "{what}: size_hint after the end");
    }
    Ok(())
}

pub fn iterator_contracts(c: &mut Ctx, b: &MBlock) -> Res {
    let p = decode_block(&b.encode())?;
    let want = b.views_by_group();
    block_laws(&p, &want)?;
    // groups, identified by position via their element counts
    let shape = |g: &MGroup| (g.nodes.len(), g.dense.as_ref().map_or(0, |d| d.nodes.len()), g.ways.len(), g.rels.len());
    let shapes: Vec<_> = b.groups.iter().map(shape).collect();
    exact(c, "GroupIter", p.groups(), &shapes, |g| (g.nodes().len(), g.dense_nodes().len(), g.ways().len(), g.relations().len()))?;
    for (g, w) in p.groups().zip(&want) {
        let of = |k: Kind| -> Vec<View> { w.iter().filter(|v| v.kind == k).cloned().collect() };
        exact(c, "GroupNodeIter", g.nodes(), &of(Kind::Node), |n| view::node(&n))?;
        exact(c, "DenseNodeIter", g.dense_nodes(), &of(Kind::Dense), |n| view::dense(&n))?;
        exact(c, "GroupWayIter", g.ways(), &of(Kind::Way), |n| view::way(&n))?;
        exact(c, "GroupRelationIter", g.relations(), &of(Kind::Relation), |n| view::relation(&n))?;
        for (n, v) in g.nodes().zip(of(Kind::Node)) {
            exact(c, "TagIter of a node", n.tags(), &v.tags, |t| (t.0.to_string(), t.1.to_string()))?;
            exact(c, "RawTagIter of a node", n.raw_tags(), &v.raw_tags, |t| (t.0 as i64, t.1 as i64))?;
        }
        for (n, v) in g.dense_nodes().zip(of(Kind::Dense)) {
            exact(c, "DenseTagIter", n.tags(), &v.tags, |t| (t.0.to_string(), t.1.to_string()))?;
            exact(c, "DenseRawTagIter", n.raw_tags(), &v.raw_tags, |t| (t.0 as i64, t.1 as i64))?;
        }
        for (n, v) in g.ways().zip(of(Kind::Way)) {
            exact(c, "TagIter of a way", n.tags(), &v.tags, |t| (t.0.to_string(), t.1.to_string()))?;
            exact(c, "RawTagIter of a way", n.raw_tags(), &v.raw_tags, |t| (t.0 as i64, t.1 as i64))?;
            exact(c, "WayRefIter", n.refs(), &v.refs, |r| r)?;
            exact(c, "WayNodeLocationsIter", n.node_locations(), &v.locs.iter().map(|l| l.nano).collect::<Vec<_>>(), |l| (l.nano_lat(), l.nano_lon()))?;
        }
        for (n, v) in g.relations().zip(of(Kind::Relation)) {
            exact(c, "TagIter of a relation", n.tags(), &v.tags, |t| (t.0.to_string(), t.1.to_string()))?;
            exact(c, "RawTagIter of a relation", n.raw_tags(), &v.raw_tags, |t| (t.0 as i64, t.1 as i64))?;
            exact(c, "RelMemberIter", n.members(), &v.members.iter().map(|m| (m.ty, m.id, m.role_sid)).collect::<Vec<_>>(), member_key)?;
        }
    }
    // elements(): consistent hints, clones resume, stays at its end, agrees with the group walk
    let all: Vec<View> = p.elements().map(|e| view::element(&e)).collect();
    let mut it = p.elements();
    for i in 0..=all.len() {
        let left = all.len() - i;
        let (lo, hi) = it.size_hint();
        check!(lo <= left && hi.is_none_or(|h| h >= left), "elements(): size_hint {lo}..{hi:?} with {left} items left");
        if i % 5 == 0 || all.len() < 12 {
            c.step();
            let rest: Vec<View> = it.clone().map(|e| view::element(&e)).collect();
            expect_views(rest, &all[i..])?;
            check_eq!(it.clone().count(), left, "elements(): count");
            if left > 0 {
                check_eq!(it.clone().nth(left - 1).map(|e| view::element(&e)), it.clone().last().map(|e| view::element(&e)), "elements(): nth and last");
                let folded = it.clone().fold(vec![], |mut v, e| {
                    v.push(view::element(&e).id);
                    v
                });
                check_eq!(folded, all[i..].iter().map(|v| v.id).collect::<Vec<_>>(), "elements(): fold");
            }
        }
        let x = it.next();
        check_eq!(x.is_some(), i < all.len(), "elements(): item {i}");
    }
    for _ in 0..3 {
        check!(it.next().is_none(), "elements(): an item after the end");
    }
    let mut fe: Vec<View> = vec![];
    p.for_each_element(|e| fe.push(view::element(&e)));
    let mut flat = want.concat();
    let mut all = all;
    flat.sort();
    fe.sort();
    all.sort();
    expect_views(fe, &flat)?;
    expect_views(all, &flat)?;
    Ok(())
}

pub fn c17(lvl: u8) -> Property {
    let th = lvl >= 2;
    let n = if th { 3 } else { 2 };
    let shapes = scenario("shapes", format!("1..={n} groups out of all combinations of 0..=2 nodes, dense nodes, ways, relations with 0..=2 tags/references/members/locations"), move |c| {
        let ng = c.choose("groups", n + 1);
        let mut b = blk(MGroup::default());
        b.groups.clear();
        for gi in 0..ng {
            let k = c.choose("sub-items", 3);
            b.groups.push(proto_group(gi as i64, c.choose("nodes", 3), c.choose("dense", 3), c.choose("ways", 3), c.choose("rels", 3), k));
        }
        seen(c, &b);
        iterator_contracts(c, &b)
    });
    let sizes: Vec<usize> = if th { vec![0, 1, 2, 3, 7, 31, 127, 128, 129, 300, 1000, 5000] } else { vec![0, 1, 2, 3, 7, 31, 127, 128, 129, 300] };
    let big = scenario("sizes", format!("one kind of element with {sizes:?} elements, or one element with that many sub-items"), move |c| {
        let n = *c.pick("n", &sizes);
        let k = c.choose("kind", 5);
        let m = |i: usize| if i == k { n } else { 0 };
        let g = if k == 4 { proto_group(0, 1, 1, 1, 1, n) } else { proto_group(0, m(0), m(1), m(2), m(3), 1) };
        let b = blk(g);
        c.observe(&(n, k));
        c.state(&(n, k));
        iterator_contracts(c, &b)
    });
    let groups = scenario("very many groups", "65 535, 65 537, 300 000 and 1 000 000 groups, empty or holding nothing that is read, alone, before or behind groups of every kind, or one element each (up to 300 000): elements(), groups() and for_each_element go through all of them", move |c| {
        let n = *c.pick("groups", &[65_535usize, 65_537, 300_000, 1_000_000]);
        let kind = c.choose("kind", 4);
        let ends = c.choose("others", 3);
        if kind == 3 && n > 300_000 {
            c.redundant();
            return Ok(());
        }
        c.observe(&(n, kind, ends));
        c.state(&(n, kind, ends));
        let mut b = blk(MGroup::default());
        b.groups.clear();
        if ends == 1 {
            b.groups.push(proto_group(1, 1, 1, 1, 1, 2));
        }
        for i in 0..n {
            b.groups.push(match (kind, i % 4) {
                (0, _) => MGroup::default(),
                (1, _) => MGroup { changesets: vec![i as i64], ..Default::default() },
                (2, _) => proto_group(0, 0, 0, 0, 0, 0),
                (_, 0) => proto_group(i as i64, 1, 0, 0, 0, 0),
                (_, 1) => proto_group(i as i64, 0, 1, 0, 0, 0),
                (_, 2) => proto_group(i as i64, 0, 0, 1, 0, 0),
                _ => proto_group(i as i64, 0, 0, 0, 1, 0),
            });
        }
        if ends == 2 {
            b.groups.push(proto_group(2, 1, 1, 1, 1, 2));
        }
        let want: Vec<(Kind, i64)> = b.views().iter().map(|v| (v.kind, v.id)).collect();
        let ng = b.groups.len();
        let bytes = segment("OSMData", &b.encode(), Storage::Raw);
        drop(b);
        let p = match BlobReader::new(&bytes[..]).next() {
            Some(Ok(x)) => x.to_primitiveblock().map_err(|e| Fail::from(format!("a valid block is not decoded: {e}")))?,
            _ => return fail("a valid blob is not read"),
        };
        let id = |e: &Element| {
            let v = view::element(e);
            (v.kind, v.id)
        };
        let sorted = |mut v: Vec<(Kind, i64)>| {
            // inside of a group that mixes kinds their order is open
            let m = if ends == 0 { 0 } else { 4 };
            let k = v.len();
            if m <= k {
                if ends == 1 { v[..m].sort() } else { v[k - m..].sort() }
            }
            v
        };
        let want = sorted(want);
        c.steps(3 * ng);
        check_eq!(p.groups().count(), ng, "groups");
        check!(sorted(p.elements().map(|e| id(&e)).collect()) == want, "elements() of {ng} groups");
        let mut v = vec![];
        p.for_each_element(|e| v.push(id(&e)));
        check!(sorted(v) == want, "for_each_element of {ng} groups");
        check_eq!(p.elements().count(), want.len(), "count of elements()");
        Ok(())
    });
    Property { id: "C17", scenarios: vec![shapes, big, groups], assumptions: vec!["parallel columns have equal lengths and all strings are valid".into()] }
}

fn proto_group(base: i64, nodes: usize, dense: usize, ways: usize, rels: usize, k: usize) -> MGroup {
    let base = base * 1000;
    let tags: Vec<(u32, u32)> = (0..k).map(|i| (1 + (i % 5) as u32, ((i + 2) % 6) as u32)).collect();
    let dtags: Vec<(i32, i32)> = tags.iter().map(|t| (t.0 as i32, t.1 as i32)).collect();
    let mut g = MGroup::default();
    for i in 0..nodes as i64 {
        g.nodes.push(MNode { id: base + i, lat: i, lon: -i, tags: tags.clone(), ..Default::default() });
    }
    if dense > 0 {
        g.dense = Some(MDense { nodes: (0..dense as i64).map(|i| MDNode { id: base + 100 - i, lat: i * i, lon: 5, tags: dtags.clone(), info: MDInfo { version: i as i32, timestamp: i, changeset: -i, uid: 3, user_sid: (i % 6) as i32, visible: i % 2 == 0 } }).collect(), has_info: k != 1, has_visible: k == 2, ..Default::default() });
    }
    for i in 0..ways as i64 {
        g.ways.push(MWay { id: base + 200 + i, tags: tags.clone(), refs: (0..k as i64).map(|j| j * 5 - i).collect(), locs: Some((0..k as i64).map(|j| (j + i, -j)).collect()), ..Default::default() });
    }
    for i in 0..rels as i64 {
        g.rels.push(MRel { id: base + 300 + i, tags: tags.clone(), members: (0..k as i64).map(|j| ((j % 3) as u8, j * 3 - i, (j % 6) as i32)).collect(), ..Default::default() });
    }
    g
}

// ---------------------------------------------------------------------------------------------

fn decode_header(content: &[u8], st: Storage) -> std::result::Result<HeaderBlock, Fail> {
    let seg = segment("OSMHeader", content, st);
    match BlobReader::new(&seg[..]).next() {
        Some(Ok(b)) => match b.decode() {
            Ok(BlobDecode::OsmHeader(h)) => Ok(*h),
            Ok(_) => fail("a header blob is not decoded as a header block"),
            Err(e) => fail(format!("a valid header block is not decoded: {e}")),
        },
        _ => fail("header blob"),
    }
}

pub fn c18(lvl: u8) -> Property {
    let th = lvl >= 1;
    let presence = scenario("presence", "every subset of the eight header fields, three value sets (ordinary, zero and short, empty strings), 0..=2 features, normal and reversed field order, unknown fields", |c| {
        let set = c.choose("values", 3);
        let (big, empty) = (set == 1, set == 2);
        let mut h = MHeader::default();
        if c.flag("bbox") {
            h.bbox = Some(if big { [-179_999_999_999, 180_000_000_000, 89_000_000_001, -90_000_000_000] } else { [0, 0, 0, 0] });
        }
        h.required = (0..c.choose("required", 3)).map(|i| ["OsmSchema-V0.6", ""][i].to_string()).collect();
        h.optional = (0..c.choose("optional", 3)).map(|i| ["LocationsOnWays", "Sort.Type_then_ID"][i].to_string()).collect();
        let s = if big { "größe 𝄞" } else { "" };
        if c.flag("writingprogram") {
            h.writingprogram = Some(if empty { String::new() } else { format!("{s}p") });
        }
        if c.flag("source") {
            h.source = Some(s.to_string());
        }
        if c.flag("timestamp") {
            h.repl_timestamp = Some(if big { 1_600_000_000 } else { 0 });
        }
        if c.flag("sequence") {
            h.repl_seq = Some(if big { i64::MAX } else { 0 });
        }
        if c.flag("url") {
            h.repl_url = Some(if empty { String::new() } else { format!("http://{s}") });
        }
        let o = [EncOpt::default(), EncOpt { reverse: true, ..Default::default() }, EncOpt { unknown: true, ..Default::default() }][c.choose("encoding", 3)];
        c.observe(&h.encode_with(o));
        c.state(&h.encode());
        c.step();
        let st = if big { Storage::Zlib(6) } else { Storage::Raw };
        head_matches(&head_view(&decode_header(&h.encode_with(o), st)?), &h)?;
        Ok(())
    });
    let values = scenario("values", format!("each bounding box side, the replication timestamp and sequence number over {} boundary values and +-90/180 degrees", EDGE.len()), |c| {
        let mut v = EDGE.to_vec();
        v.extend([90_000_000_000, -90_000_000_000, 180_000_000_000, -180_000_000_000, 123_456_789, -999_999_999, 13_376_543_210]);
        let f = c.choose("field", 6);
        let x = *c.pick("value", &v);
        let mut h = MHeader { bbox: Some([1, 2, 3, 4]), ..std_header() };
        match f {
            4 => h.repl_timestamp = Some(x),
            5 => h.repl_seq = Some(x),
            i => h.bbox.as_mut().unwrap()[i] = x,
        }
        c.observe(&h.encode());
        c.state(&h.encode());
        c.step();
        head_matches(&head_view(&decode_header(&h.encode(), Storage::Raw)?), &h)?;
        Ok(())
    });
    let n = if lvl >= 2 { 6 } else { 4 };
    let feats = scenario("features", format!("all feature lists of length 0..={n} over 4 strings, required and optional"), move |c| {
        let names = ["OsmSchema-V0.6", "DenseNodes", "", "Ünï"];
        let list = |c: &mut Ctx, l: &str| -> Vec<String> {
            let k = c.choose(l, n + 1);
            (0..k).map(|_| c.pick("name", &names).to_string()).collect()
        };
        let h = MHeader { required: list(c, "required"), optional: if th { list(c, "optional") } else { vec!["b".into(), "a".into()] }, ..Default::default() };
        c.observe(&h.encode());
        c.state(&h.encode());
        c.step();
        head_matches(&head_view(&decode_header(&h.encode(), Storage::Raw)?), &h)?;
        Ok(())
    });
    let heads = Arc::new(vec![
        MHeader { bbox: Some([-5, 1 << 40, 3, -(1 << 40)]), required: vec!["a".into(), "".into()], optional: vec!["b".into(), "c".into()], ..std_header() },
        MHeader { source: Some("s".into()), repl_timestamp: Some(0), repl_seq: Some(-1), repl_url: Some("u".into()), writingprogram: Some("".into()), ..Default::default() },
        std_header(),
        MHeader::default(),
    ]);
    let wire = scenario("wire rewrites", format!("4 header blocks: every rewriting out of {REWRITES:?} at every field, and every pair of them; a bounding box that is repeated as a whole"), move |c| {
        let h = &heads[c.choose("header", heads.len())];
        let mut e = h.encode();
        for _ in 0..c.choose("rewrites", 3) {
            let Some(x) = rewrite(c, &e, MsgKind::Head) else {
                c.redundant();
                return Ok(());
            };
            e = x;
        }
        if c.flag("second bounding box") {
            if h.bbox.is_none() {
                c.redundant();
                return Ok(());
            }
            let again = sites_of(&e, MsgKind::Head).into_iter().filter(|s| s.kind == MsgKind::Head && s.num == 1).map(|s| e[s.field.0..s.field.2].to_vec()).next_back().unwrap();
            e.extend(again);
        }
        c.observe(&e);
        c.state(&e);
        c.step();
        let st = *c.pick("storage", &[Storage::Raw, Storage::Zlib(6)]);
        head_matches(&head_view(&decode_header(&e, st)?), h)?;
        Ok(())
    });
    let sizes: Vec<usize> = if th { vec![0, 1, 2, 127, 128, 129, 255, 256, 1000, 16_383, 16_384, 65_535, 65_536, 70_000, 2_000_000] } else { vec![0, 1, 2, 127, 128, 129, 255, 256, 1000, 16_383, 16_384, 65_535, 65_536] };
    let long = scenario("sizes", format!("one of the string fields with {sizes:?} bytes, or that many features"), move |c| {
        let n = *c.pick("n", &sizes);
        let text: String = "aß𝄞 \u{0}\u{7f}".chars().cycle().take(n).collect();
        let mut h = std_header();
        match c.choose("field", 7) {
            0 => h.writingprogram = Some(text),
            1 => h.source = Some(text),
            2 => h.repl_url = Some(text),
            3 => h.required = vec!["x".into(), text, "y".into()],
            4 => h.optional = vec![text.clone(), text],
            5 => h.required = (0..n.min(70_000)).map(|i| format!("f{}", i % 97)).collect(),
            _ => h.optional = (0..n.min(70_000)).map(|i| format!("f{}", (i * 31) % 97)).collect(),
        }
        c.observe(&h.encode());
        c.state(&h.encode());
        c.step();
        head_matches(&head_view(&decode_header(&h.encode(), Storage::Raw)?), &h)?;
        Ok(())
    });
    Property { id: "C18", scenarios: vec![presence, values, feats, wire, long], assumptions: vec!["bounding box degrees compared within 1e-10 absolute or 1e-14 relative".into()] }
}

// ---------------------------------------------------------------------------------------------

pub fn rich_blocks() -> Vec<MBlock> {
    let mut v = vec![];
    let mut b = blk(proto_group(1, 2, 3, 2, 2, 3));
    b.granularity = Some(1);
    b.lat_offset = Some(-5);
    b.date_granularity = Some(1);
    b.groups[0].nodes[0].info = Some(MInfo { version: Some(3), timestamp: Some(10), changeset: Some(20), uid: Some(30), user_sid: Some(1), visible: Some(false) });
    b.groups[0].ways[1].info = Some(MInfo { version: Some(1), user_sid: Some(3), ..Default::default() });
    b.groups[0].rels[0].info = Some(MInfo { timestamp: Some(-5), changeset: Some(1 << 33), uid: Some(-1), visible: Some(true), ..Default::default() });
    v.push(b.clone());
    b.groups.push(proto_group(2, 0, 2, 0, 0, 1));
    b.groups.push(MGroup::default());
    b.groups.push(proto_group(3, 0, 0, 1, 0, 2));
    v.push(b);
    v.push(one_node(4));
    v.push(dense_block(&[5, -6, 1 << 40]));
    v.push(way_block(vec![way(1, &[9, 8, 7]), way(2, &[])]));
    v.push(rel_block(&[1, 2, 3]));
    v.push(MBlock::default());
    v
}

pub fn c24(th: bool) -> Property {
    let blocks = Arc::new(rich_blocks());
    let b1 = blocks.clone();
    let enc = scenario("encodings", "7 blocks x packed/unpacked columns x forward/reversed field order x unknown fields: same elements", move |c| {
        let b = &b1[c.choose("block", b1.len())];
        let o = EncOpt { packed: !c.flag("unpacked"), reverse: c.flag("reverse"), unknown: c.flag("unknown") };
        let e = b.encode_with(o);
        c.observe(&e);
        c.state(&e);
        check_block(c, b, o)
    });
    let b2 = blocks.clone();
    let rewrites = scenario("wire rewrites", format!("7 blocks: at every field of every nesting level, each of {REWRITES:?}"), move |c| {
        let b = &b2[c.choose("block", b2.len())];
        let base = b.encode();
        let Some(e) = rewrite(c, &base, MsgKind::Block) else {
            c.redundant();
            return Ok(());
        };
        same_elements(c, b, &e)
    });
    let small = Arc::new(small_blocks());
    let b3 = if th { blocks.clone() } else { small.clone() };
    let pairs = scenario("pairs of rewrites", format!("{} blocks: every rewriting of every rewriting", if th { 7 } else { 4 }), move |c| {
        let b = &b3[c.choose("block", b3.len())];
        let base = b.encode();
        let e = rewrite(c, &base, MsgKind::Block).and_then(|e| rewrite(c, &e, MsgKind::Block));
        let Some(e) = e else {
            c.redundant();
            return Ok(());
        };
        same_elements(c, b, &e)
    });
    let b4 = blocks.clone();
    let parts = scenario("mergeable parts", "7 blocks: every singular submessage (string table, dense nodes, dense info, info) written in two parts, cut at every field", move |c| {
        let b = &b4[c.choose("block", b4.len())];
        let Some((e, place, last)) = in_parts(c, &b.encode(), MsgKind::Block) else {
            c.redundant();
            return Ok(());
        };
        same_elements(c, b, &e).or_else(|f| {
            // the known way to get this wrong: the parts are not merged, the last one replaces the others
            let walk = |x: &[u8]| decode_block(x).map(|p| view::block_by_group(&p)).map_err(|e| e.msg);
            if walk(&e) == walk(&last) {
                return fail_sig(format!("parts-not-merged-{place}"), f.msg);
            }
            Err(f)
        })
    });
    let envelope = scenario("blob and header rewrites", "the header and the blob message of one of three blobs of a file, raw or zlib: every rewriting of one, and every pair; read by stream, seekable, mmap, skimming, parallel, element and indexed readers", move |c| {
        let which = c.choose("blob", 3);
        let st = [Storage::Raw, Storage::Zlib(6), Storage::RawSizeAfter, Storage::ZlibNoSize(1)][c.choose("storage", 4)];
        let segs = vec![Seg::header(std_header()).st(st), Seg::data(one_node(5)).st(st).index(c.choose("indexdata", 2) * 3), Seg::data(way_block(vec![way(7, &[5])])).st(st)];
        let mut parts: Vec<(Seg, Vec<u8>, Vec<u8>)> = vec![];
        for (i, s) in segs.into_iter().enumerate() {
            let mut body = blob_msg(&content_of(&s), st);
            let mut index = s.index.clone().filter(|x| !x.is_empty());
            if i == which {
                let first = c.choose("what", 2);
                if first == 0 {
                    let Some(b) = rewrite(c, &body, MsgKind::Blob) else {
                        c.redundant();
                        return Ok(());
                    };
                    body = b;
                    if th || st == Storage::ZlibNoSize(1) {
                        if c.flag("twice") {
                            let Some(b) = rewrite(c, &body, MsgKind::Blob) else {
                                c.redundant();
                                return Ok(());
                            };
                            body = b;
                        }
                    }
                }
                let mut h = blob_header(s.ty(), index.take().as_deref(), body.len() as i64, 0);
                for _ in 0..(if first == 1 { 1 + c.choose("twice", 2) } else { 0 }) {
                    let Some(x) = rewrite(c, &h, MsgKind::BlobHeader) else {
                        c.redundant();
                        return Ok(());
                    };
                    h = x;
                }
                parts.push((s, h, body));
            } else {
                let h = blob_header(s.ty(), index.as_deref(), body.len() as i64, 0);
                parts.push((s, h, body));
            }
        }
        let f = lay_out_raw(parts);
        c.observe(&*f.bytes);
        c.state(&*f.bytes);
        read_every_way(c, &f)
    });
    Property { id: "C24", scenarios: vec![enc, rewrites, parts, pairs, envelope], assumptions: vec![] }
}

fn content_of(s: &Seg) -> Vec<u8> {
    match &s.content {
        Content::Header(h) => h.encode(),
        Content::Data(d) => d.encode(),
        Content::Other(_, b) => b.clone(),
    }
}

fn small_blocks() -> Vec<MBlock> {
    let mut w = way_block(vec![way(1, &[9, 7])]);
    w.groups[0].ways[0].info = Some(MInfo { version: Some(1), user_sid: Some(0), visible: Some(false), ..Default::default() });
    w.date_granularity = Some(5);
    vec![one_node(4), dense_block(&[5, -6]), w, rel_block(&[1])]
}

fn same_elements(c: &mut Ctx, b: &MBlock, e: &[u8]) -> Res {
    c.observe(e);
    c.state(e);
    let p = decode_block(e)?;
    c.step();
    let want = b.views_by_group();
    let got = view::block_by_group(&p);
    expect_views(got.concat(), &want.concat())?;
    let mut it: Vec<View> = p.elements().map(|x| view::element(&x)).collect();
    let mut fe = vec![];
    p.for_each_element(|x| fe.push(view::element(&x)));
    let mut want = want.concat();
    want.sort();
    it.sort();
    fe.sort();
    expect_views(it, &want)?;
    expect_views(fe, &want)
}

/// A well-formed file read through every reader gives exactly its blobs and elements.
pub fn read_every_way(c: &mut Ctx, f: &Pbf) -> Res {
    let n = f.segs.len();
    let blobs = |c: &mut Ctx, what: &str, got: Vec<Result<Blob>>, off: &dyn Fn(usize) -> Off| -> Res {
        c.steps(got.len());
        check_eq!(got.len(), n, "{what}: number of blobs");
        for (i, b) in got.into_iter().enumerate() {
            let b = b.map_err(|e| Fail::from(format!("{what}: blob {i}: {e}")))?;
            blob_is(&b, &f.segs[i], off(i)).map_err(|e| Fail::from(format!("{what}: blob {i}: {}", e.msg)))?;
        }
        Ok(())
    };
    let at = |i: usize| Off::Is(f.off[i] as u64);
    let maybe = |i: usize| Off::NoneOr(f.off[i] as u64);
    blobs(c, "stream", BlobReader::new(Src::plain(&f.bytes)).take(n + 2).collect(), &maybe)?;
    blobs(c, "seekable", BlobReader::new_seekable(Src::plain(&f.bytes)).map_err(|e| Fail::from(e.to_string()))?.take(n + 2).collect(), &at)?;
    let mut r = BlobReader::new_seekable(Src::plain(&f.bytes)).map_err(|e| Fail::from(e.to_string()))?;
    for i in (0..n).rev() {
        let b = r.blob_from_offset(ByteOffset(f.off[i] as u64)).map_err(|e| Fail::from(format!("blob {i} from its offset: {e}")))?;
        blob_is(&b, &f.segs[i], at(i))?;
    }
    r.seek(ByteOffset(0)).map_err(|e| Fail::from(e.to_string()))?;
    for i in 0..n {
        c.step();
        match r.next_header_skip_blob() {
            Some(Ok((h, o))) => {
                check_eq!(ty_name(&h.blob_type()), want_ty(&f.segs[i]), "skimmed type of blob {i}");
                check_eq!(h.get_blob_size(), f.size[i] as i32, "skimmed size of blob {i}");
                check!(o == Some(ByteOffset(f.off[i] as u64)), "skimmed offset of blob {i}: {o:?}");
            }
            x => return fail(format!("skimming header {i}: {:?}", x.map(|r| r.map(|_| ())))),
        }
    }
    check!(r.next_header_skip_blob().is_none(), "skimming goes on after the end");
    let m = MemFile::new(&f.bytes);
    let map = m.mmap().map_err(Fail::from)?;
    let story = mmap_story(&map, n + 2);
    same_story(&story, &stream_story(&f.bytes, n + 2))?;
    check_eq!(story.len(), n, "mmap: number of blobs");
    for (i, (_, o, d)) in story.iter().enumerate() {
        check_eq!(*o, f.off[i] as u64, "mmap: offset of blob {i}");
        dec_matches(d, &f.segs[i].content).map_err(|e| Fail::from(format!("mmap: blob {i}: {e}")))?;
    }
    let want = elem_ids(&f.segs);
    let mut got = vec![];
    ElementReader::new(Src::plain(&f.bytes)).for_each(|e| got.push(ident(&e))).map_err(|e| Fail::from(format!("for_each: {e}")))?;
    check_eq!(got, want, "for_each");
    let got = ElementReader::from_path(m.path())
        .and_then(|r| r.par_map_reduce(|e| vec![ident(&e)], Vec::new, |mut a, b| {
            a.extend(b);
            a
        }))
        .map(|mut v| {
            v.sort();
            v
        })
        .map_err(|e| Fail::from(format!("par_map_reduce: {e}")))?;
    let mut sorted = want.clone();
    sorted.sort();
    check_eq!(got, sorted, "par_map_reduce");
    let mut got = vec![];
    let mut ir = IndexedReader::new(Src::plain(&f.bytes)).map_err(|e| Fail::from(e.to_string()))?;
    ir.read_ways_and_deps(|_| true, |e| got.push(ident(e))).map_err(|e| Fail::from(format!("read_ways_and_deps: {e}")))?;
    got.sort();
    let mut nodes = vec![];
    ir.for_each_node(|e| nodes.push(ident(&e))).map_err(|e| Fail::from(format!("for_each_node: {e}")))?;
    nodes.sort();
    let refs: std::collections::HashSet<i64> = f.segs.iter().flat_map(|s| if let Content::Data(b) = &s.content { b.views() } else { vec![] }).flat_map(|v| v.refs).collect();
    let wn: Vec<(u8, i64)> = sorted.iter().filter(|x| x.0 < 2).cloned().collect();
    let wd: Vec<(u8, i64)> = sorted.iter().filter(|x| x.0 == 2 || (x.0 < 2 && refs.contains(&x.1))).cloned().collect();
    check_eq!(got, wd, "read_ways_and_deps");
    check_eq!(nodes, wn, "for_each_node");
    Ok(())
}
