//! C09–C11: the indexed reader.

use crate::files::*;
use crate::files::bad_segments;
use crate::p_elem::EDGE;
use osmpbf::*;
use std::collections::BTreeSet;
use std::io::{ErrorKind as IK, Read, Seek, SeekFrom};
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::io::*;
use vcore::model::*;
use vcore::view::{self, Kind, View};
use vcore::check;

#[derive(Clone, Debug, PartialEq)]
pub enum Filter {
    All,
    None,
    /// way ids in the set
    Ids(Vec<i64>),
    /// carries the tag k=v
    Tag,
    /// references this node
    Refs(i64),
    /// accepts every second way offered (a filter with its own memory)
    Alternate,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Create,
    Ways(Filter),
    Nodes,
}

fn way_ok(f: &Filter, id: i64, refs: &[i64], tagged: bool, calls: usize) -> bool {
    match f {
        Filter::All => true,
        Filter::None => false,
        Filter::Ids(v) => v.contains(&id),
        Filter::Tag => tagged,
        Filter::Refs(n) => refs.contains(n),
        Filter::Alternate => calls % 2 == 0,
    }
}

/// (what the element callback got, what the filter was asked about)
pub fn run_op<R: Read + Seek + Send>(r: &mut IndexedReader<R>, op: &Op) -> (Result<()>, Vec<View>, Vec<View>) {
    run_op_while(r, op, || ())
}

/// `inside` is called in every call of a closure, before that closure looks at what it was given.
pub fn run_op_while<R: Read + Seek + Send>(r: &mut IndexedReader<R>, op: &Op, inside: impl FnMut()) -> (Result<()>, Vec<View>, Vec<View>) {
    let mut got = vec![];
    let mut asked = vec![];
    let inside = std::cell::RefCell::new(inside);
    let inside = || (inside.borrow_mut())();
    let res = match op {
        Op::Create => r.create_index(),
        Op::Nodes => r.for_each_node(|e| {
            inside();
            got.push(view::element(&e))
        }),
        Op::Ways(f) => r.read_ways_and_deps(
            |w| {
                inside();
                let refs: Vec<i64> = w.refs().collect();
                let t = w.tags().any(|t| t == ("k", "v"));
                let k = asked.len();
                asked.push(view::way(w));
                way_ok(f, w.id(), &refs, t, k)
            },
            |e| {
                inside();
                got.push(view::element(e))
            },
        ),
    };
    (res, got, asked)
}

/// The meaning of an operation on the given data blobs. `pick`: which of the ways asked about
/// matched, for filters with memory.
pub fn want_op(segs: &[Seg], op: &Op, asked: Option<&[View]>) -> (Vec<View>, Vec<View>) {
    let mut want = vec![];
    let mut ask = vec![];
    let all: Vec<View> =
        segs.iter().filter_map(|s| if let Content::Data(b) = &s.content { Some(b.views()) } else { None }).flatten().collect();
    match op {
        Op::Create => {}
        Op::Nodes => want.extend(all.into_iter().filter(|v| matches!(v.kind, Kind::Node | Kind::Dense))),
        Op::Ways(f) => {
            ask.extend(all.iter().filter(|v| v.kind == Kind::Way).cloned());
            let seq: &[View] = asked.unwrap_or(&ask);
            let mut ids = BTreeSet::new();
            for (k, w) in seq.iter().enumerate() {
                let t = w.tags.iter().any(|t| t.0 == "k" && t.1 == "v");
                if way_ok(f, w.id, &w.refs, t, k) {
                    ids.extend(w.refs.iter().copied());
                    want.push(w.clone());
                }
            }
            want.extend(all.into_iter().filter(|v| matches!(v.kind, Kind::Node | Kind::Dense) && ids.contains(&v.id)));
        }
    }
    (want, ask)
}

fn open(s: Src) -> std::result::Result<IndexedReader<Src>, Fail> {
    IndexedReader::new(s).map_err(|e| Fail::from(format!("opening an indexed reader fails: {e}")))
}

fn key(v: &View) -> (u8, i64, u64) {
    (v.kind as u8, v.id, hash_of(v))
}
fn bag(v: &[View]) -> Vec<(u8, i64, u64)> {
    let mut k: Vec<_> = v.iter().map(key).collect();
    k.sort();
    k
}
/// multiset equality
fn same_bag(what: &str, got: &[View], want: &[View]) -> Res {
    let (g, w) = (bag(got), bag(want));
    if g == w {
        return Ok(());
    }
    let name = |k: &(u8, i64, u64)| format!("{} {}", ["node", "dense node", "way", "relation"][k.0.min(3) as usize], k.1);
    let missing: Vec<String> = w.iter().filter(|k| count(&g, k) < count(&w, k)).map(name).collect();
    let surplus: Vec<String> = g.iter().filter(|k| count(&g, k) > count(&w, k)).map(name).collect();
    fail(format!(
        "{what}: {} delivered, {} expected; missing or too few: {}; surplus or altered: {}",
        got.len(),
        want.len(),
        trunc(&missing.join(", ")),
        trunc(&surplus.join(", "))
    ))
}
fn count<T: Ord>(v: &[T], k: &T) -> usize {
    v.partition_point(|x| x <= k) - v.partition_point(|x| x < k)
}
/// `got` only contains expected elements, none too often
fn sub_bag(what: &str, got: &[View], want: &[View]) -> Res {
    let (g, w) = (bag(got), bag(want));
    for k in &g {
        check!(count(&g, k) <= count(&w, k), "{what}: kind {} id {} delivered but not expected (or too often)", k.0, k.1);
    }
    Ok(())
}

/// One operation that must succeed with exactly the expected result.
fn exact_op<R: Read + Seek + Send>(c: &mut Ctx, r: &mut IndexedReader<R>, segs: &[Seg], op: &Op, what: &str) -> Res {
    let ran = run_op(r, op);
    exact_result(c, ran, segs, op, what)
}
fn exact_result(c: &mut Ctx, (res, got, asked): (Result<()>, Vec<View>, Vec<View>), segs: &[Seg], op: &Op, what: &str) -> Res {
    c.steps(1 + got.len() + asked.len());
    if let Err(e) = res {
        return fail(format!("{what}: {op:?} fails on a valid file: {e}"));
    }
    let (want, ask) = want_op(segs, op, if *op == Op::Ways(Filter::Alternate) { Some(&asked) } else { None });
    same_bag(&format!("{what}: {op:?}"), &got, &want)?;
    same_bag(&format!("{what}: {op:?}: ways offered to the filter"), &asked, &ask)?;
    for v in &got {
        check!(v.kind != Kind::Relation, "{what}: {op:?} delivers a relation");
    }
    Ok(())
}

fn mixed(nodes: &[i64], dense: &[i64], ways: Vec<MWay>) -> MBlock {
    // kinds in separate groups, as the format demands
    let mut b = dense_block(dense);
    let mut gs = vec![];
    if !nodes.is_empty() {
        gs.push(MGroup {
            nodes: nodes.iter().map(|i| MNode { id: *i, lat: i.wrapping_mul(5), lon: 1, tags: vec![(1, 2)], info: None }).collect(),
            ..Default::default()
        });
    }
    if !dense.is_empty() {
        gs.push(b.groups.remove(0));
    }
    if !ways.is_empty() {
        gs.push(MGroup { ways, ..Default::default() });
    }
    b.groups = gs;
    b
}

fn untagged(id: i64, refs: &[i64]) -> MWay {
    MWay { id, refs: refs.to_vec(), ..Default::default() }
}

/// Block alphabet: every relation between node ids, way ids and references that the code could
/// treat specially (duplicates, ids equal to way ids, unordered, extreme, mixed blocks, ...).
pub fn blocks(th: bool) -> Vec<Seg> {
    let (lo, hi) = (i64::MIN, i64::MAX);
    let z = Storage::Zlib(6);
    let mut v = vec![
        Seg::data(dense_block(&[1, 2])),
        Seg::data(way_block(vec![way(10, &[2, 1])])),
        Seg::data(mixed(&[3, 1], &[], vec![])).st(z),
        Seg::data(way_block(vec![untagged(11, &[3, 3, 2]), way(12, &[])])).st(z),
        Seg::data(mixed(&[2], &[4, -1, 1], vec![untagged(10, &[4, 99])])),
        Seg::data(rel_block(&[1, 2])),
        Seg::header(odd_header()),
        Seg::other("X", b"abc"),
        Seg::data(mixed(&[lo, hi], &[0, lo + 1], vec![])),
        Seg::data(way_block(vec![way(lo, &[hi, lo, 0]), untagged(1, &[1])])),
    ];
    if th {
        v.extend([
            Seg::data(MBlock::default()),
            Seg::data(mixed(&[], &[5, 3, 1], vec![way(-10, &[-1, 5])])),
            Seg::data(MBlock { groups: vec![MGroup { dense: Some(MDense::default()), ..Default::default() }, MGroup::default()], ..dense_block(&[]) }),
            Seg::other("OSMDatax", &dense_block(&[1, 2]).encode()),
        ]);
    }
    v
}
fn filters() -> Vec<Filter> {
    vec![Filter::All, Filter::Ids(vec![10]), Filter::Tag, Filter::Alternate, Filter::None, Filter::Refs(3), Filter::Ids(vec![i64::MIN, 11])]
}

fn choose_file(c: &mut Ctx, alpha: &[Seg], max: usize) -> Pbf {
    let n = c.choose("segments", max + 1);
    let v: Vec<usize> = (0..n).map(|_| c.choose("segment", alpha.len())).collect();
    c.observe(&v);
    let f = lay_out(v.iter().map(|i| alpha[*i].clone()).collect());
    c.note(|| format!("segments {v:?}: {:?}", f.segs.iter().map(|s| s.ty()).collect::<Vec<_>>()));
    f
}

pub fn c09(th: bool) -> Property {
    let alpha = blocks(th);
    let fl = filters();
    let max = if th { 5 } else { 4 };
    let nf = if th { fl.len() } else { 4 };
    let layouts = scenario(
        "layouts",
        format!("every file of 0..={max} blobs from {} kinds × {nf} filters", alpha.len()),
        move |c| {
            let f = choose_file(c, &alpha, max);
            let op = Op::Ways(c.pick("filter", &fl[..nf]).clone());
            c.observe(&format!("{op:?}"));
            c.state(&(f.bytes.as_slice(), format!("{op:?}")));
            let mut r = open(Src::plain(&f.bytes))?;
            c.sample(|| format!("{} blobs, {op:?}", f.segs.len()));
            exact_op(c, &mut r, &f.segs, &op, "fresh reader")
        },
    );
    let start = scenario(
        "start position",
        "a source which already stands at, before or behind any of its bytes when the indexed reader is made from it x 3 operations, twice",
        |c| {
            let f = lay_out(vec![Seg::header(std_header()), Seg::data(dense_block(&[1, 2])), Seg::data(way_block(vec![way(10, &[2, 1])])).st(Storage::Zlib(6)), Seg::other("X", b"1"), Seg::data(mixed(&[3], &[2], vec![untagged(11, &[3])]))]);
            let at = c.choose("position", f.bytes.len() + 4) as u64;
            let at = if at == f.bytes.len() as u64 + 3 { u64::MAX >> 1 } else { at };
            let op = c.pick("op", &[Op::Ways(Filter::All), Op::Nodes, Op::Create]).clone();
            c.observe(&(at, format!("{op:?}")));
            c.state(&(at, format!("{op:?}")));
            let mut s = Src::plain(&f.bytes);
            s.seek(SeekFrom::Start(at)).map_err(|e| Fail::from(e.to_string()))?;
            let mut r = open(s)?;
            exact_op(c, &mut r, &f.segs, &op, &format!("source at {at}"))?;
            exact_op(c, &mut r, &f.segs, &Op::Nodes, &format!("source at {at}, second operation"))
        },
    );
    // every assignment of 4 node ids to two blobs, every reference set, ways before/between/after
    let subsets = scenario(
        "id distribution",
        "node ids 0..4 each in blob A, B, both or none (plain or dense), every reference set, way blob first/middle/last",
        move |c| {
            let mut a = vec![];
            let mut b = vec![];
            for id in 0..4i64 {
                let w = c.choose("where", 4);
                if w & 1 == 1 {
                    a.push(id);
                }
                if w & 2 == 2 {
                    b.push(id);
                }
            }
            let m = c.choose("refs", 32);
            let refs: Vec<i64> = (0..5).filter(|i| m >> i & 1 == 1).collect();
            let dense = c.flag("dense");
            let at = c.choose("way blob", 3);
            let blk = |v: &[i64]| if dense { mixed(&[], v, vec![]) } else { mixed(v, &[], vec![]) };
            let mut segs = vec![Seg::data(blk(&a)), Seg::data(blk(&b))];
            segs.insert(at, Seg::data(way_block(vec![way(2, &refs)])));
            c.observe(&(&a, &b, &refs, dense, at));
            c.state(&(&a, &b, &refs, dense, at));
            let f = lay_out(segs);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")
        },
    );
    let edge: Vec<i64> = EDGE.to_vec();
    let nr = if th { 3 } else { 2 };
    let values = scenario(
        "edge ids",
        format!("one way with 1..={nr} references and a blob with 1..=2 node ids, all from {} edge values, a neighbour blob", edge.len()),
        move |c| {
            let refs: Vec<i64> = (0..1 + c.choose("refs", nr)).map(|_| *c.pick("ref", &edge)).collect();
            let ids: Vec<i64> = (0..1 + c.choose("ids", 2)).map(|_| *c.pick("id", &edge)).collect();
            c.observe(&(&refs, &ids));
            c.state(&(&refs, &ids));
            // neighbours: ids just outside the references
            let near: Vec<i64> = refs.iter().flat_map(|r| [r.wrapping_sub(1), r.wrapping_add(1)]).collect();
            let f = lay_out(vec![
                Seg::data(mixed(&[], &ids, vec![])),
                Seg::data(way_block(vec![way(ids[0], &refs)])),
                Seg::data(mixed(&near, &[], vec![])),
            ]);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")
        },
    );
    // the position of the node inside the id range of its blob, and inside the blob
    let positions = scenario(
        "positions",
        "a blob with n ids (step 1 or 3, ascending, descending or rotated), every single id referenced",
        move |c| {
            let n = *c.pick("n", &[1usize, 2, 3, 7, 16]);
            let step = *c.pick("step", &[1i64, 3]);
            let base = *c.pick("base", &[-20i64, 0, 1_000_000_000_000]);
            let mut ids: Vec<i64> = (0..n as i64).map(|i| base + i * step).collect();
            match c.choose("order", 3) {
                1 => ids.reverse(),
                2 => ids.rotate_left(n / 2),
                _ => {}
            }
            let k = c.choose("referenced", n * step as usize + 2) as i64 - 1 + base;
            let dense = c.flag("dense");
            c.observe(&(&ids, k, dense));
            c.state(&(&ids, k, dense));
            let b = if dense { mixed(&[], &ids, vec![way(k, &[k])]) } else { mixed(&ids, &[], vec![way(k, &[k])]) };
            let f = lay_out(vec![Seg::data(b), Seg::data(mixed(&[], &[base - 100, base + 100], vec![]))]);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")
        },
    );
    // blocks with several groups of several kinds in one block, minimum and maximum in any group
    let groups = scenario(
        "groups",
        "one block of three groups, every kind per group and every order of ids over the groups",
        move |c| {
            let kinds: Vec<usize> = (0..3).map(|_| c.choose("kind", 4)).collect();
            let perm = *c.pick("ids", &[[1i64, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]]);
            let target = 1 + c.choose("target", 3) as i64;
            let mut gs = vec![];
            for (k, i) in kinds.iter().zip(perm) {
                let g = match k {
                    0 => mixed(&[i], &[], vec![]),
                    1 => mixed(&[], &[i], vec![]),
                    2 => way_block(vec![way(i, &[target])]),
                    _ => rel_block(&[i]),
                };
                gs.push(g.groups[0].clone());
            }
            let mut b = rel_block(&[]);
            b.groups = gs;
            c.observe(&(&kinds, perm, target));
            c.state(&(&kinds, perm, target));
            let f = lay_out(vec![Seg::data(way_block(vec![way(50, &[target])])), Seg::data(b), Seg::data(dense_block(&[2]))]);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "again")?;
            exact_op(c, &mut r, &f.segs, &Op::Nodes, "then all nodes")
        },
    );
    let sizes = scenario(
        "sizes",
        "many blobs, many references, many nodes; stored raw and compressed; short reads",
        move |c| {
            let blobs = *c.pick("blobs", &[1usize, 2, 33, 300]);
            let per = *c.pick("nodes per blob", &[1usize, 50, 1000]);
            let every = *c.pick("referenced every", &[1usize, 7, 999]);
            let max = *c.pick("max read", &[0usize, 1021]);
            let st = *c.pick("storage", &[Storage::Raw, Storage::Zlib(1)]);
            if blobs * per > 60_000 {
                return Ok(());
            }
            c.observe(&(blobs, per, every, max, format!("{st:?}")));
            let mut segs = vec![Seg::header(std_header())];
            let total = (blobs * per) as i64;
            let refs: Vec<i64> = (0..total + 5).filter(|i| *i as usize % every == 0).collect();
            for k in 0..blobs {
                let ids: Vec<i64> = (0..per).map(|i| (k + i * blobs) as i64).collect();
                segs.push(Seg::data(if k % 2 == 0 { mixed(&[], &ids, vec![]) } else { mixed(&ids, &[], vec![]) }).st(st));
            }
            let ways: Vec<MWay> = refs.chunks(2000).enumerate().map(|(i, r)| way(i as i64, r)).collect();
            segs.push(Seg::data(way_block(ways)).st(st));
            let f = lay_out(segs);
            let mut r = open(Src::new(f.bytes.clone(), Script { max, ..Default::default() }))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")
        },
    );
    let mut counts: Vec<usize> = (7..=16).flat_map(|p| [(1 << p) - 1, 1 << p, (1 << p) + 1]).collect();
    counts.extend([1000, 1001, 1999, 2000, 2001, 8000, 8001, 10_000, 32_001, 50_000]);
    if th {
        counts.extend((1..128).chain((130..9000).step_by(97)));
    }
    counts.sort();
    let long = scenario(
        "counts",
        format!("{} counts (around powers of two and usual limits) of references in a way, ways in a group, groups in a block, nodes in a group, node groups: the first, middle, last but one and last are found", counts.len()),
        move |c| {
            let n = *c.pick("count", &counts);
            let what = c.choose("what", 5);
            let dense = c.flag("dense");
            let mut at: Vec<i64> = vec![0, n as i64 / 2, n as i64 - 2, n as i64 - 1];
            at.retain(|x| *x >= 0);
            at.sort();
            at.dedup();
            c.observe(&(n, what, dense));
            c.state(&(n, what, dense));
            let all: Vec<i64> = (0..n as i64).collect();
            let blk = |v: &[i64]| if dense { mixed(&[], v, vec![]) } else { mixed(v, &[], vec![]) };
            let split = |mut b: MBlock, gs: Vec<MGroup>| {
                b.groups = gs;
                b
            };
            let (nodes, ways) = match what {
                0 => (blk(&at), way_block(vec![way(1, &all)])),
                1 => (blk(&at), way_block(all.iter().map(|i| way(*i, &[*i])).collect())),
                2 => {
                    let w = way_block(vec![]);
                    (blk(&at), split(w, all.iter().map(|i| way_block(vec![way(*i, &[*i])]).groups[0].clone()).collect()))
                }
                3 => (blk(&all), way_block(vec![way(1, &at)])),
                _ => (split(blk(&[]), all.iter().map(|i| blk(&[*i]).groups[0].clone()).collect()), way_block(vec![way(1, &at)])),
            };
            let f = lay_out(vec![Seg::data(nodes).st(Storage::Zlib(1)), Seg::data(ways)]);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")?;
            exact_op(c, &mut r, &f.segs, &Op::Nodes, "then all nodes")
        },
    );
    let so = Sorts::default();
    let ns = so.len();
    let sorts = scenario(
        "one of every sort",
        format!("{ns} elements (every combination of kind, 4 ids, 5 places or 8 reference lists with and without locations or 7 member lists, 8 tag lists, no or 27 (dense: 18) sets of metadata incl. invisible and version 0), in a block with a way which refers to all of the ids: found and delivered as they are, by ways and among all nodes"),
        move |c| {
            let i = c.choose("element", ns);
            let g = so.get(i);
            let f = lay_out(vec![Seg::data(sorts_block(vec![g, way_block(vec![way(60, &[0, 1, -1, 1 << 33])]).groups[0].clone()], i % 3 == 0)), Seg::data(dense_block(&[1, 5, 0]))]);
            c.observe(&i);
            c.state(&i);
            let mut r = open(Src::plain(&f.bytes))?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")?;
            exact_op(c, &mut r, &f.segs, &Op::Nodes, "then all nodes")?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::Refs(1)), "then some ways")
        },
    );
    let very = scenario("very many blobs", "files of 65 535, 65 536, 65 537 and 70 001 blobs of nodes and a way in front or behind, or of unknown types between a few of nodes: ways with their nodes, then all nodes, then the ways again", move |c| {
        let n = *c.pick("blobs", &[65_535usize, 65_536, 65_537, 70_001]);
        let kind = c.choose("kind", 3);
        c.observe(&(n, kind));
        c.state(&(n, kind));
        let f = many_blobs(n, kind);
        let mut r = open(Src::plain(&f.bytes))?;
        exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "fresh reader")?;
        exact_op(c, &mut r, &f.segs, &Op::Nodes, "then all nodes")?;
        exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "then ways again")
    });
    Property {
        id: "C09",
        scenarios: vec![start, layouts, subsets, values, positions, groups, sizes, long, sorts, very],
        assumptions: vec!["the order in which elements are delivered is not demanded, only which and how often".into()],
    }
}

// ---------------------------------------------------------------------------------------------

fn history_files(th: bool) -> Vec<Pbf> {
    let b = blocks(true);
    let pick = |ix: &[usize]| lay_out(ix.iter().map(|i| b[*i].clone()).collect());
    let mut v = vec![
        pick(&[6, 0, 1]),
        pick(&[]),
        pick(&[1, 0, 3, 2]),
        pick(&[4, 5, 7, 4]),
        pick(&[0, 2, 1, 3, 9, 8]),
        pick(&[6, 5, 0]),
        pick(&[6, 3, 10, 12, 11, 2]),
    ];
    if th {
        v.push(pick(&[13, 0, 6, 1]));
        v.push(pick(&[9, 8, 9, 8]));
        v.push(pick(&[5, 7]));
        v.push(pick(&[4]));
    }
    v
}
/// Pairs of files to be used at the same time.
fn other_files() -> Vec<(Pbf, Pbf)> {
    let b = blocks(true);
    let pick = |ix: &[usize]| lay_out(ix.iter().map(|i| b[*i].clone()).collect());
    let lay = |a: i64| {
        lay_out(vec![
            Seg::data(mixed(&[a, a + 1], &[a + 2], vec![])),
            Seg::data(way_block(vec![way(10, &[a, a + 2]), way(11, &[a + 1])])),
            Seg::data(mixed(&[], &[a + 3, 1, 2], vec![way(10, &[a + 3])])),
        ])
    };
    vec![
        // the same sizes, offsets and way ids, but other nodes
        (lay(1), lay(33)),
        (lay(1), lay(1)),
        (pick(&[6, 3, 10, 12, 11, 2]), pick(&[0, 2, 1, 3, 9, 8])),
        (pick(&[1, 0, 3, 2]), pick(&[])),
    ]
}
fn own_threads(c: &mut Ctx) -> bool {
    // there are no threads on wasm
    !cfg!(target_family = "wasm") && c.flag("own thread")
}
fn ops() -> Vec<Op> {
    vec![
        Op::Ways(Filter::All),
        Op::Nodes,
        Op::Create,
        Op::Ways(Filter::Ids(vec![10])),
        Op::Ways(Filter::None),
        Op::Ways(Filter::Ids(vec![11, i64::MIN])),
        Op::Ways(Filter::Alternate),
    ]
}

pub fn c10(th: bool) -> Property {
    let files = Arc::new(history_files(th));
    let all_ops = ops();
    let depth = if th { 7 } else { 5 };
    let f1 = files.clone();
    let o1 = all_ops.clone();
    let hist = scenario(
        "histories",
        format!("{} files × every sequence of 1..={depth} operations from {}", files.len(), o1.len()),
        move |c| {
            let fi = c.choose("file", f1.len());
            let f = &f1[fi];
            let n = 1 + c.choose("length", depth);
            let mut r = open(Src::plain(&f.bytes))?;
            let mut h = vec![];
            for k in 0..n {
                let i = c.choose("op", o1.len());
                h.push(i);
                c.note(|| format!("{:?}", o1[i]));
                c.state(&(fi, &h));
                exact_op(c, &mut r, &f.segs, &o1[i], &format!("operation {k} of {h:?}"))?;
            }
            c.observe(&(fi, &h));
            c.sample(|| format!("file {fi}, operations {:?}", h.iter().map(|i| &o1[*i]).collect::<Vec<_>>()));
            Ok(())
        },
    );
    let f2 = files.clone();
    let o2 = all_ops.clone();
    let short = scenario(
        "histories over short reads",
        "as above with 2 operations, the source returning at most n bytes per read",
        move |c| {
            let fi = c.choose("file", f2.len());
            let f = &f2[fi];
            let max = *c.pick("max", &[1usize, 2, 3, 5, 8, 13, 64]);
            let mut r = open(Src::new(f.bytes.clone(), Script { max, ..Default::default() }))?;
            let mut h = vec![];
            for k in 0..2 {
                let i = c.choose("op", o2.len());
                h.push(i);
                exact_op(c, &mut r, &f.segs, &o2[i], &format!("operation {k} of {h:?}"))?;
            }
            c.observe(&(fi, max, &h));
            c.state(&(fi, max, &h));
            Ok(())
        },
    );
    // what one operation learns about the groups of a block must not change the next one
    let o6 = all_ops.clone();
    let no6 = if th { 3 } else { 2 };
    let groups = scenario(
        "groups",
        format!("a block of 1..=4 groups, each of plain nodes, dense nodes, ways, relations or empty, between two other blocks; every sequence of {no6} operations from {}, then all nodes and all ways", o6.len()),
        move |c| {
            let n = 1 + c.choose("groups", 4);
            let kinds: Vec<usize> = (0..n).map(|_| c.choose("kind", 5)).collect();
            let mut b = rel_block(&[]);
            b.groups = kinds
                .iter()
                .enumerate()
                .map(|(i, k)| {
                    let i = i as i64;
                    match k {
                        0 => mixed(&[i, 20 + i], &[], vec![]).groups[0].clone(),
                        1 => mixed(&[], &[10 + i, i], vec![]).groups[0].clone(),
                        2 => way_block(vec![way(10 + i % 2, &[i, 3 - i, 11, 7])]).groups[0].clone(),
                        3 => rel_block(&[i]).groups[0].clone(),
                        _ => MGroup::default(),
                    }
                })
                .collect();
            let f = lay_out(vec![Seg::data(dense_block(&[3, 7])), Seg::data(b), Seg::data(way_block(vec![way(11, &[1, 22, 7])]))]);
            let mut r = open(Src::plain(&f.bytes))?;
            let mut h = vec![];
            for k in 0..no6 {
                let i = c.choose("op", o6.len());
                h.push(i);
                exact_op(c, &mut r, &f.segs, &o6[i], &format!("operation {k} of {h:?}"))?;
            }
            exact_op(c, &mut r, &f.segs, &Op::Nodes, "then all nodes")?;
            exact_op(c, &mut r, &f.segs, &Op::Ways(Filter::All), "then all ways")?;
            c.observe(&(&kinds, &h));
            c.state(&(&kinds, &h));
            Ok(())
        },
    );
    // a caller abandons an operation by unwinding out of its closure and keeps using the reader
    let f3 = files.clone();
    let o3 = all_ops.clone();
    let abandon = scenario(
        "abandoned operations",
        "an operation before, one abandoned by unwinding from the k-th closure call, then two more operations",
        move |c| {
            let fi = c.choose("file", f3.len());
            let f = &f3[fi];
            let mut r = open(Src::plain(&f.bytes))?;
            let before = c.choose("before", 1 + o3.len());
            if before > 0 {
                exact_op(c, &mut r, &f.segs, &o3[before - 1], "before")?;
            }
            let which = c.choose("abandoned", 3);
            let at = c.choose("at call", 6);
            let mut calls = 0;
            let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut tick = || {
                    if calls == at {
                        std::panic::resume_unwind(Box::new("abandon"));
                    }
                    calls += 1;
                };
                match which {
                    0 => r.for_each_node(|_| tick()),
                    1 => r.read_ways_and_deps(|_| true, |_| tick()),
                    _ => r.read_ways_and_deps(
                        |_| {
                            tick();
                            true
                        },
                        |_| (),
                    ),
                }
            }));
            if res.is_ok() {
                c.redundant();
                return Ok(());
            }
            let mut h = vec![];
            for _ in 0..2 {
                let i = c.choose("op", o3.len());
                h.push(i);
                exact_op(c, &mut r, &f.segs, &o3[i], "after an abandoned operation")?;
            }
            c.observe(&(fi, before, which, at, &h));
            c.state(&(fi, before, which, at, &h));
            Ok(())
        },
    );
    // two readers, whose operations take turns or happen inside of each other
    let pairs = Arc::new(other_files());
    let (p4, o4) = (pairs.clone(), all_ops.clone());
    let nt = if th { 4 } else { 3 };
    let turns = scenario(
        "two readers in turns",
        format!("{} pairs of files (also of equal size and layout, and the same file twice), every sequence of {nt} operations from {} on either reader, {}", pairs.len(), o4.len(), if th { "each on the same or on a thread of its own" } else { "all on the same thread or each on a thread of its own" }),
        move |c| {
            let pi = c.choose("files", p4.len());
            let mut rs = [open(Src::plain(&p4[pi].0.bytes))?, open(Src::plain(&p4[pi].1.bytes))?];
            let segs = [&p4[pi].0.segs, &p4[pi].1.segs];
            let own = !th && own_threads(c);
            let mut h = vec![];
            for k in 0..nt {
                let own = if th { own_threads(c) } else { own };
                let w = c.choose("reader", 2);
                let i = c.choose("op", o4.len());
                h.push((w, i, own));
                c.state(&(pi, &h));
                let r = &mut rs[w];
                let ran = if own {
                    let op = &o4[i];
                    std::thread::scope(|s| s.spawn(move || run_op(r, op)).join()).unwrap_or_else(|p| std::panic::resume_unwind(p))
                } else {
                    run_op(r, &o4[i])
                };
                exact_result(c, ran, segs[w], &o4[i], &format!("operation {k} of {h:?} (reader, operation, own thread)"))?;
            }
            c.observe(&(pi, &h));
            Ok(())
        },
    );
    let (p5, o5) = (pairs.clone(), all_ops.clone());
    let nested = scenario(
        "operations inside of operations",
        format!("{} pairs of files; in the k-th closure call (k < 12) of an operation on one reader, two operations on the other one, fresh or used before; then another operation on each", pairs.len()),
        move |c| {
            let pi = c.choose("files", p5.len());
            let (f, g) = &p5[pi];
            let mut a = open(Src::plain(&f.bytes))?;
            let mut b = open(Src::plain(&g.bytes))?;
            let used = c.flag("used before");
            if used {
                exact_op(c, &mut a, &f.segs, &Op::Ways(Filter::All), "before")?;
                exact_op(c, &mut b, &g.segs, &Op::Ways(Filter::All), "before")?;
            }
            let outer = c.pick("outer", &o5).clone();
            let inner = [c.pick("inner", &o5).clone(), c.pick("second inner", &o5).clone()];
            let at = c.choose("at call", 12);
            c.observe(&(pi, used, format!("{outer:?} {inner:?}"), at));
            c.state(&(pi, used, format!("{outer:?} {inner:?}"), at));
            let mut calls = 0;
            let mut ran = vec![];
            let out = run_op_while(&mut a, &outer, || {
                if calls == at {
                    for op in &inner {
                        ran.push(run_op(&mut b, op));
                    }
                }
                calls += 1;
            });
            if ran.is_empty() {
                c.redundant();
                return Ok(());
            }
            exact_result(c, out, &f.segs, &outer, "the outer operation")?;
            for (op, r) in inner.iter().zip(ran) {
                exact_result(c, r, &g.segs, op, "the inner operation")?;
            }
            exact_op(c, &mut a, &f.segs, &inner[0], "afterwards")?;
            exact_op(c, &mut b, &g.segs, &outer, "afterwards, the other reader")
        },
    );
    Property {
        id: "C10",
        scenarios: vec![hist, short, groups, abandon, turns, nested],
        assumptions: vec!["the file does not change while a reader uses it".into()],
    }
}

// ---------------------------------------------------------------------------------------------

pub fn c11(th: bool) -> Property {
    let files = Arc::new(history_files(th));
    let all_ops = ops();
    let depth = if th { 3 } else { 2 };
    let kinds: &'static [IK] = if th {
        &[IK::Other, IK::UnexpectedEof, IK::WouldBlock, IK::InvalidData]
    } else {
        &[IK::Other, IK::UnexpectedEof]
    };
    let mk = move |name: &'static str, permanent: bool| {
        let files = files.clone();
        let ops = all_ops.clone();
        scenario(
            name,
            format!(
                "{} files × every sequence of {depth} operations × {} at every source call × {} error kinds; afterwards every operation again",
                files.len(),
                if permanent { "failure from then on" } else { "one failure" },
                kinds.len()
            ),
            move |c| {
                let fi = c.choose("file", files.len());
                let f = &files[fi];
                let h: Vec<usize> = (0..depth).map(|_| c.choose("op", ops.len())).collect();
                let max = *c.pick("max read", &[0usize, 7]);
                // how many calls does the undisturbed history make?
                let s = Src::new(f.bytes.clone(), Script { max, ..Default::default() });
                let log = s.log.clone();
                let mut r = open(s)?;
                for i in &h {
                    exact_op(c, &mut r, &f.segs, &ops[*i], "undisturbed")?;
                }
                let n = log.lock().unwrap().calls;
                drop(r);
                if n == 0 {
                    return Ok(());
                }
                let at = c.choose("failing call", n);
                let kind = *c.pick("kind", kinds);
                c.observe(&(fi, &h, max, at, format!("{kind:?}")));
                c.state(&(fi, &h, max, at));
                let mut sc = Script { max, ..Default::default() };
                if permanent {
                    sc.dead_from = Some((at, kind));
                } else {
                    sc.acts.push((at, Act::Fail(kind)));
                }
                let s = Src::new(f.bytes.clone(), sc);
                let log = s.log.clone();
                let failed = || log.lock().unwrap().failed;
                let mut r = match IndexedReader::new(s) {
                    Ok(r) => r,
                    Err(_) => {
                        check!(failed() > 0, "construction fails without a source failure");
                        return Ok(());
                    }
                };
                for i in h.iter().chain(if permanent { h.iter() } else { [].iter() }) {
                    faulty_op(c, &mut r, f, &ops[*i], &failed)?;
                }
                if !permanent {
                    // the source works again: everything succeeds, whatever was interrupted
                    check!(failed() > 0, "the failure was not reached");
                    for op in &ops {
                        exact_op(c, &mut r, &f.segs, op, "after a failed operation, on a source that works again")?;
                    }
                }
                Ok(())
            },
        )
    };
    let (fk, ok) = (Arc::new(history_files(th)), ops());
    let fails = crate::p_blob::failures();
    let every_kind = scenario(
        "every kind of failure",
        format!("{} files x {} operations x a failure at every source call x all {} error kinds (a seek that fails may have moved); the operation is repeated, then all nodes and all ways", fk.len(), ok.len(), fails.len()),
        move |c| {
            let fi = c.choose("file", fk.len());
            let f = &fk[fi];
            let oi = c.choose("op", ok.len());
            let s = Src::plain(&f.bytes);
            let log = s.log.clone();
            let mut r = open(s)?;
            exact_op(c, &mut r, &f.segs, &ok[oi], "undisturbed")?;
            let n = log.lock().unwrap().calls;
            let at = c.choose("failing call", n);
            let kind = *c.pick("kind", &fails);
            let moved = c.flag("moved");
            c.observe(&(fi, oi, at, kind, moved));
            c.state(&(fi, oi, at));
            let s = Src::new(f.bytes.clone(), Script { acts: vec![(at, if moved { Act::FailMoved(kind) } else { Act::Fail(kind) })], ..Default::default() });
            let log = s.log.clone();
            let failed = || log.lock().unwrap().failed;
            let mut r = match IndexedReader::new(s) {
                Ok(r) => r,
                Err(_) => {
                    check!(failed() > 0, "construction fails without a source failure");
                    return Ok(());
                }
            };
            faulty_op(c, &mut r, f, &ok[oi], &failed)?;
            check!(failed() > 0, "the failure was not reached");
            for op in [&ok[oi], &Op::Nodes, &Op::Ways(Filter::All)] {
                exact_op(c, &mut r, &f.segs, op, "after a failed operation, on a source that works again")?;
            }
            Ok(())
        },
    );
    let one = mk("one failing call", false);
    let dead = mk("source dies", true);

    let files = Arc::new(history_files(true));
    let o2 = ops();
    let cut = scenario(
        "cut files",
        format!("{} files cut at every byte × every sequence of 2 operations", files.len()),
        move |c| {
            let fi = c.choose("file", files.len());
            let f = &files[fi];
            let at = c.choose("cut", f.bytes.len() + 1);
            let h: Vec<usize> = (0..2).map(|_| c.choose("op", o2.len())).collect();
            c.observe(&(fi, at, &h));
            c.state(&(fi, at, &h));
            // complete segments, and where the cut falls
            let k = (0..f.segs.len()).find(|i| f.off[i + 1] > at).unwrap_or(f.segs.len());
            let clean = f.off[k] == at;
            let body = f.segs.get(k).map_or(0, |_| f.off[k + 1] - f.size[k]);
            let in_body = !clean && at >= body;
            let data = f.segs.get(k).is_some_and(|s| s.is_data());
            let src = Src::new(Arc::new(f.bytes[..at].to_vec()), Script::default());
            let mut r = open(src)?;
            for i in &h {
                let op = &o2[*i];
                let (res, got, asked) = run_op(&mut r, op);
                c.steps(1 + got.len());
                let (want, ask) = want_op(&f.segs[..k], op, if *op == Op::Ways(Filter::Alternate) { Some(&asked) } else { None });
                match res {
                    Ok(()) => {
                        let ok = clean || (in_body && (!data || *op == Op::Create));
                        check!(ok, "file cut at {at} (inside segment {k}): {op:?} succeeds");
                        same_bag(&format!("file cut at {at}: {op:?}"), &got, &want)?;
                        same_bag("ways offered", &asked, &ask)?;
                    }
                    Err(e) => {
                        check!(!clean, "file cut at a blob boundary ({at}): {op:?} fails: {e}");
                        sub_bag(&format!("failed {op:?}"), &got, &want)?;
                    }
                }
            }
            Ok(())
        },
    );

    let bad: Arc<Vec<(&'static str, Vec<u8>)>> = Arc::new(bad_segments());
    let o3 = ops();
    let damaged = scenario(
        "damaged blobs",
        format!("{} kinds of damaged blobs at each position of a file × every sequence of 2 operations", bad.len()),
        move |c| {
            let b = blocks(true);
            let segs: Vec<Seg> = [6, 0, 3, 4, 1].iter().map(|i| b[*i].clone()).collect();
            let f = lay_out(segs);
            let (name, x) = c.pick("damage", &bad);
            let pos = c.choose("position", f.segs.len() + 1);
            let h: Vec<usize> = (0..2).map(|_| c.choose("op", o3.len())).collect();
            c.observe(&(name, pos, &h));
            c.state(&(name, pos, &h));
            let mut bytes = f.bytes[..f.off[pos]].to_vec();
            bytes.extend_from_slice(x);
            bytes.extend_from_slice(&f.bytes[f.off[pos]..]);
            let mut r = open(Src::new(Arc::new(bytes), Script::default()))?;
            for i in &h {
                let op = &o3[*i];
                let (res, got, asked) = run_op(&mut r, op);
                c.steps(1 + got.len());
                let (want, ask) = want_op(&f.segs, op, if *op == Op::Ways(Filter::Alternate) { Some(&asked) } else { None });
                if name.starts_with("dense ids") {
                    // the damage may lie outside what an operation needs, or be reported
                    match &res {
                        Ok(()) => same_bag(&format!("{name}: {op:?}"), &got, &want)?,
                        Err(_) => sub_bag(&format!("{name}: failed {op:?}"), &got, &want)?,
                    }
                    continue;
                }
                let file_level = ["blob header is garbage", "blob header too large", "header lacks datasize", "header lacks type", "negative datasize"]
                    .contains(name);
                let header_blob = name.starts_with("header ") && !file_level;
                let must_fail = file_level || (*op != Op::Create && !header_blob);
                match res {
                    Ok(()) => {
                        check!(!must_fail, "{name} at {pos}: {op:?} succeeds");
                        same_bag(&format!("{name} at {pos}: {op:?}"), &got, &want)?;
                        same_bag("ways offered", &asked, &ask)?;
                    }
                    Err(_) => sub_bag(&format!("{name} at {pos}: failed {op:?}"), &got, &want)?,
                }
            }
            Ok(())
        },
    );
    Property {
        id: "C11",
        scenarios: vec![every_kind, one, dead, cut, damaged],
        assumptions: vec!["blobs an operation does not need (headers, unknown types) may stay unread, so damage there may go unnoticed".into()],
    }
}

/// An operation during which the source may fail: exact, or an error and nothing wrong delivered.
fn faulty_op(c: &mut Ctx, r: &mut IndexedReader<Src>, f: &Pbf, op: &Op, failed: &dyn Fn() -> usize) -> Res {
    let before = failed();
    let (res, got, asked) = run_op(r, op);
    c.steps(1 + got.len());
    let hit = failed() > before;
    let (want, ask) = want_op(&f.segs, op, if *op == Op::Ways(Filter::Alternate) { Some(&asked) } else { None });
    match res {
        Ok(()) => {
            same_bag(&format!("{op:?} succeeds{}", if hit { " although the source failed" } else { "" }), &got, &want)?;
            same_bag("ways offered", &asked, &ask)
        }
        Err(e) => {
            check!(hit, "{op:?} fails without a source failure: {e}");
            sub_bag(&format!("failed {op:?}"), &got, &want)
        }
    }
}
