//! What is run under the controlled scheduler.

use crate::mc::*;
use osmpbf::*;
use std::io::{ErrorKind as IoKind, Read, Seek, SeekFrom};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::{hash_of, Res};
use vcore::files::*;
use vcore::io::*;
use vcore::model::*;
use vcore::view::{self, Kind, View};
use vcore::{check, check_eq};

/// A source with a scheduling point at every call.
#[derive(Clone, Debug)]
struct PSrc(Src, Option<(Arc<Tally>, usize)>);
impl PSrc {
    fn new(b: &Arc<Vec<u8>>, s: Script) -> PSrc {
        PSrc(Src::new(b.clone(), s), None)
    }
    fn plain(b: &Arc<Vec<u8>>) -> PSrc {
        PSrc(Src::plain(b), None)
    }
    fn enter(&self) {
        point();
        if let Some((t, k)) = &self.1 {
            if t.bump() == *k {
                panic!("boom in the source");
            }
        }
    }
}
impl Read for PSrc {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.enter();
        self.0.read(b)
    }
}
impl Seek for PSrc {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.enter();
        self.0.seek(p)
    }
}

type Item = (Kind, i64, u64);
fn item(v: &View) -> Item {
    (v.kind, v.id, hash_of(v))
}
fn bag(p: &Pbf) -> Vec<Item> {
    let mut v: Vec<Item> = p
        .segs
        .iter()
        .filter_map(|s| match &s.content {
            Content::Data(b) => Some(b.views()),
            _ => None,
        })
        .flatten()
        .map(|v| item(&v))
        .collect();
    v.sort();
    v
}

/// Where the call is made from.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// from a worker of a pool of n threads that have run before
    Pool(usize),
    /// same, the workers have not started yet
    Cold(usize),
    /// from the main thread, on the global pool of n threads
    Global(usize),
    /// two calls at once on the same pool of n threads
    Twice(usize),
}
fn pool(n: usize, warm: bool) -> rayon::ThreadPool {
    quiet(|| {
        let p = rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool");
        if warm {
            p.broadcast(|_| ());
        }
        p
    })
}
fn within<T: Send>(m: Mode, f: impl Fn() -> T + Sync) -> Vec<T> {
    match m {
        Mode::Pool(n) => vec![pool(n, true).install(|| f())],
        Mode::Cold(n) => vec![pool(n, false).install(|| f())],
        Mode::Global(n) => {
            quiet(|| rayon::ThreadPoolBuilder::new().num_threads(n).build_global().expect("global pool"));
            vec![f()]
        }
        Mode::Twice(n) => {
            let (a, b) = pool(n, true).install(|| rayon::join(|| f(), || f()));
            vec![a, b]
        }
    }
}

/// Closure behaviour: panic in the k-th call of one of the closures.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Boom {
    No,
    Map(usize),
    Reduce(usize),
    Identity(usize),
    Source(usize),
}

/// Collects everything: a value that is lost, duplicated or invented shows.
fn collect(rd: ElementReader<PSrc>, boom: Boom, pts: bool) -> (Result<Vec<Item>>, usize) {
    let (nm, nr, ni) = (Tally::default(), Tally::default(), Tally::default());
    let r = rd.par_map_reduce(
        |e| {
            if pts {
                point();
            }
            let k = nm.bump();
            if boom == Boom::Map(k) {
                panic!("boom in map");
            }
            vec![item(&view::element(&e))]
        },
        || {
            if pts {
                point();
            }
            let k = ni.bump();
            if boom == Boom::Identity(k) {
                panic!("boom in identity");
            }
            vec![]
        },
        |mut a, b| {
            if pts {
                point();
            }
            let k = nr.bump();
            if boom == Boom::Reduce(k) {
                panic!("boom in reduce");
            }
            a.extend(b);
            a
        },
    );
    (r, nm.get())
}

fn files(th: bool) -> Vec<(&'static str, Pbf)> {
    let z = Storage::Zlib(6);
    let h = || Seg::header(std_header());
    let d = |i: i64| Seg::data(one_node(i));
    let mixed = || {
        let mut b = dense_block(&[4, 5]);
        b.groups.push(MGroup { nodes: vec![MNode { id: 6, tags: vec![(1, 2)], ..Default::default() }], ..Default::default() });
        b.groups.push(MGroup { ways: vec![way(7, &[4, 6])], ..Default::default() });
        b.groups.push(MGroup { rels: vec![MRel { id: 8, members: vec![(1, 7, 1)], ..Default::default() }], ..Default::default() });
        Seg::data(b)
    };
    let mut v = vec![
        ("empty file", vec![]),
        ("header only", vec![h()]),
        ("one block", vec![d(1)]),
        ("two blocks", vec![d(1), d(2)]),
        ("header, unknown, block", vec![h(), Seg::other("X", b"abc"), d(1)]),
        ("header and two blocks of several elements", vec![h(), Seg::data(dense_block(&[1, 2, 3])).st(z), Seg::data(way_block(vec![way(1, &[1, 2]), way(2, &[3])]))]),
        ("block without elements between blocks", vec![d(1), Seg::data(MBlock { strings: strings(&[""]), ..Default::default() }), d(2)]),
        ("mixed block", vec![Seg::header(odd_header()), mixed()]),
        ("three blocks", vec![d(1), d(2), d(3)]),
        ("equal blocks", vec![d(1), d(1), d(1)]),
    ];
    if th {
        v.push(("header and four blocks", vec![h(), d(1), d(2), d(3), d(4)]));
        v.push(("six blocks", (0..6).map(d).collect()));
        v.push(("everything", vec![h(), mixed(), Seg::other("X", b""), d(1), Seg::data(dense_block(&[9, 10])).st(z), Seg::data(rel_block(&[1, 2]))]));
    }
    v.into_iter().map(|(n, s)| (n, lay_out(s))).collect()
}

fn c07_case(name: &str, f: &Pbf, m: Mode, pts: bool, max: usize) -> Case {
    let want = bag(f);
    let bytes = f.bytes.clone();
    case(format!("{name}, {m:?}, source gives {}", if max == 0 { "everything".into() } else { format!("{max} bytes at a time") }), move || {
        let script = Script { max, ..Default::default() };
        let out = within(m, || collect(ElementReader::new(PSrc::new(&bytes, script.clone())), Boom::No, pts));
        for (r, calls) in out {
            match r {
                Ok(mut v) => {
                    let order: Vec<i64> = v.iter().map(|x| x.1).collect();
                    observe(format!("{order:?}"));
                    v.sort();
                    check_eq!(v, want, "elements (kind, id, digest) collected in parallel");
                }
                Err(e) => return vcore::engine::fail(format!("error on a valid file: {e}")),
            }
            check_eq!(calls, want.len(), "calls of the map operation");
        }
        Ok(())
    })
}

/// other reductions, by their value
fn c07_reduce(name: &str, f: &Pbf, m: Mode, which: usize) -> Case {
    let items = bag(f);
    let bytes = f.bytes.clone();
    let label = ["count", "sum of ids", "maximum id", "minimum id", "count and sum", "exclusive or of digests", "any way"][which];
    case(format!("{name}, {m:?}, {label}"), move || {
        let rd = || ElementReader::new(PSrc::plain(&bytes));
        let id = |e: &Element| item(&view::element(e)).1;
        macro_rules! go {
            ($map:expr, $ident:expr, $red:expr, $want:expr) => {{
                let out = within(m, || {
                    rd().par_map_reduce(
                        |e: Element| {
                            point();
                            $map(&e)
                        },
                        || {
                            point();
                            $ident
                        },
                        |a, b| {
                            point();
                            $red(a, b)
                        },
                    )
                });
                for r in out {
                    match r {
                        Ok(x) => check_eq!(x, $want, "{label}"),
                        Err(e) => return vcore::engine::fail(format!("error on a valid file: {e}")),
                    }
                }
            }};
        }
        match which {
            0 => go!(|_: &Element| 1u64, 0u64, |a, b| a + b, items.len() as u64),
            1 => go!(|e: &Element| id(e), 0i64, |a, b| a + b, items.iter().map(|x| x.1).sum::<i64>()),
            2 => go!(|e: &Element| id(e), i64::MIN, |a: i64, b: i64| a.max(b), items.iter().map(|x| x.1).max().unwrap_or(i64::MIN)),
            3 => go!(|e: &Element| id(e), i64::MAX, |a: i64, b: i64| a.min(b), items.iter().map(|x| x.1).min().unwrap_or(i64::MAX)),
            4 => go!(
                |e: &Element| (1u32, id(e)),
                (0u32, 0i64),
                |a: (u32, i64), b: (u32, i64)| (a.0 + b.0, a.1 + b.1),
                (items.len() as u32, items.iter().map(|x| x.1).sum::<i64>())
            ),
            5 => go!(|e: &Element| hash_of(&view::element(e)), 0u64, |a, b| a ^ b, items.iter().fold(0, |a, x| a ^ x.2)),
            _ => go!(|e: &Element| matches!(e, Element::Way(_)), false, |a, b| a | b, items.iter().any(|x| x.0 == Kind::Way)),
        }
        Ok(())
    })
}

/// the map closure itself reads a file in parallel
fn c07_nested(name: &str, f: &Pbf, m: Mode) -> Case {
    let want = bag(f);
    let bytes = f.bytes.clone();
    let inner = lay_out(vec![Seg::data(dense_block(&[71, 72])).st(Storage::Zlib(6)), Seg::data(way_block(vec![way(73, &[71])]))]);
    let inner_want = bag(&inner);
    case(format!("{name}, {m:?}, nested"), move || {
        let out = within(m, || {
            ElementReader::new(PSrc::plain(&bytes)).par_map_reduce(
                |e| {
                    let x = item(&view::element(&e));
                    let i = match collect(ElementReader::new(PSrc::plain(&inner.bytes)), Boom::No, true).0 {
                        Ok(mut v) => {
                            v.sort();
                            v == inner_want
                        }
                        Err(_) => false,
                    };
                    // what the element says now must be what it said before
                    let same = item(&view::element(&e)) == x;
                    (vec![x], i && same)
                },
                || (vec![], true),
                |mut a: (Vec<Item>, bool), b| {
                    a.0.extend(b.0);
                    (a.0, a.1 && b.1)
                },
            )
        });
        for r in out {
            match r {
                Ok((mut v, inner_ok)) => {
                    v.sort();
                    check_eq!(v, want, "elements (kind, id, digest) collected in parallel");
                    check!(inner_ok, "a call inside of the map closure gives another result");
                }
                Err(e) => return vcore::engine::fail(format!("error on a valid file: {e}")),
            }
        }
        Ok(())
    })
}

fn c07(th: bool) -> Prop {
    let fs = files(th);
    let all = |modes: &[Mode], pts: bool| -> Vec<Case> {
        modes.iter().flat_map(|m| fs.iter().map(move |(n, f)| c07_case(n, f, *m, pts, 0))).collect()
    };
    let pick = |names: &[&str]| -> Vec<&(&'static str, Pbf)> { fs.iter().filter(|x| names.contains(&x.0)).collect() };
    let small = ["empty file", "one block", "two blocks", "header, unknown, block", "three blocks"];
    let mut scns = vec![];
    scns.push(Scn { name: "one worker", what: "every file; a pool of one thread, entered from inside and outside".into(), level: 0, preempt: 2, cases: all(&[Mode::Pool(1), Mode::Cold(1), Mode::Global(1)], true) });
    scns.push(Scn { name: "two workers", what: "every file; a pool of two threads, entered from inside and outside".into(), level: 0, preempt: if th { 4 } else { 3 }, cases: all(&[Mode::Pool(2), Mode::Cold(2), Mode::Global(2)], true) });
    scns.push(Scn { name: "three workers", what: "every file; a pool of three threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: all(&[Mode::Pool(3), Mode::Global(3)], true) });
    let mut c = vec![];
    for (n, f) in pick(&["two blocks", "header and two blocks of several elements"]) {
        for max in [1usize, 7] {
            if max == 1 && !th && *n != "two blocks" {
                continue;
            }
            c.push(c07_case(n, f, Mode::Pool(2), true, max));
        }
    }
    scns.push(Scn { name: "short reads", what: "sources that return 1 or 7 bytes at a time; two threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    let kinds: [fn() -> Seg; 5] = [
        || Seg::header(std_header()),
        || Seg::data(one_node(1)),
        || Seg::other("X", b"abc"),
        || Seg::data(way_block(vec![way(2, &[1]), way(3, &[])])).st(Storage::Zlib(6)),
        || Seg::data(MBlock::default()),
    ];
    let mut c = vec![];
    for n in 1..=if th { 4 } else { 3usize } {
        for mut x in 0..kinds.len().pow(n as u32) {
            let mut name = vec![];
            let segs = (0..n)
                .map(|_| {
                    let k = x % kinds.len();
                    x /= kinds.len();
                    name.push(["header", "node", "unknown", "ways", "nothing"][k]);
                    kinds[k]()
                })
                .collect();
            let f = lay_out(segs);
            for m in [Mode::Pool(1), Mode::Pool(2), Mode::Global(1)] {
                c.push(c07_case(&name.join(", "), &f, m, true, 0));
            }
        }
    }
    scns.push(Scn { name: "arrangements", what: format!("all sequences of 1..={} segments out of a header, a node, an unknown blob, two ways, an empty block; one or two threads", if th { 4 } else { 3 }), level: 0, preempt: if th { 1 } else { 0 }, cases: c });
    let mut c = vec![];
    for (n, f) in pick(&["empty file", "three blocks", "mixed block", "header and two blocks of several elements"]) {
        for w in 0..7 {
            c.push(c07_reduce(n, f, Mode::Pool(2), w));
        }
    }
    scns.push(Scn { name: "reductions", what: "count, sum, maximum, minimum, pairs, exclusive or, any; two threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    let mut c = vec![];
    for (n, f) in pick(&["one block", "two blocks", "header, unknown, block"]) {
        c.push(c07_case(n, f, Mode::Twice(2), true, 0));
        if th {
            c.push(c07_case(n, f, Mode::Twice(3), true, 0));
        }
    }
    scns.push(Scn { name: "two calls at once", what: "two calls on two readers in the same pool".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // number of blobs and of elements
    let many = |n: usize| {
        let segs = (0..n as i64)
            .map(|i| match i % 8 {
                3 => Seg::data(dense_block(&[10 * i, 10 * i + 1])).st(Storage::Zlib(6)),
                5 => Seg::other("X", b"q"),
                7 => Seg::data(way_block(vec![way(i, &[1, i])])),
                _ => Seg::data(one_node(10 * i)),
            })
            .collect();
        (format!("{n} blobs"), lay_out(segs))
    };
    let wide = |n: i64| {
        let ids: Vec<i64> = (0..n).collect();
        (format!("two blocks of {n} nodes"), lay_out(vec![Seg::data(dense_block(&ids)), Seg::data(dense_block(&ids.iter().map(|i| i + n).collect::<Vec<_>>()))]))
    };
    let mut c = vec![];
    let sizes: &[usize] = if th { &[5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 257, 513] } else { &[7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 129] };
    for n in sizes {
        let (name, f) = many(*n);
        for m in [Mode::Pool(1), Mode::Pool(2), Mode::Global(2), Mode::Pool(3), Mode::Pool(4), Mode::Pool(8)] {
            c.push(c07_case(&name, &f, m, false, 0));
        }
    }
    scns.push(Scn { name: "many blobs", what: "files of up to 129 (thorough: 513) blobs of all kinds; pools of 1 to 8 threads".into(), level: 0, preempt: if th { 1 } else { 0 }, cases: c });
    let mut c = vec![];
    for (n, workers) in if th { vec![(5, 5), (6, 4), (7, 3), (8, 4), (9, 3), (16, 2), (17, 2), (33, 2)] } else { vec![(5, 4), (8, 2), (9, 3), (17, 2)] } {
        let (name, f) = many(n);
        for w in 2..=workers {
            c.push(c07_case(&name, &f, Mode::Pool(w), false, 0));
        }
    }
    scns.push(Scn { name: "several blobs", what: "files of 5 to 17 (thorough: 33) blobs of all kinds; pools of 2 to 4 threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    let mut c = vec![];
    for n in if th { vec![1, 255, 256, 1000, 1024, 8000, 8001, 50_000] } else { vec![256, 1024, 8001] } {
        let (name, f) = wide(n);
        for m in [Mode::Pool(1), Mode::Pool(2), Mode::Pool(4)] {
            c.push(c07_case(&name, &f, m, false, 0));
        }
    }
    scns.push(Scn { name: "many elements", what: "two blocks of up to 8001 (thorough: 50000) nodes; pools of 1 to 4 threads".into(), level: 0, preempt: 1, cases: c });
    let mut c = vec![];
    for n in if th { vec![65_535, 65_536, 65_537, 200_001] } else { vec![65_537] } {
        let (name, f) = wide(n);
        c.push(c07_case(&name, &f, Mode::Pool(2), false, 0));
        if th {
            c.push(c07_case(&name, &f, Mode::Pool(1), false, 0));
        }
    }
    let blobs: &[usize] = if th { &[65_535, 65_536, 65_537, 70_001] } else { &[65_537] };
    for n in blobs {
        for kind in if th { vec![0, 1, 2] } else { vec![0, 2] } {
            c.push(c07_case(&format!("{n} blobs, {}", ["nodes and a way", "a way and nodes", "most of them unknown"][kind]), &many_blobs(*n, kind), Mode::Pool(1), false, 0));
        }
    }
    scns.push(Scn { name: "very large files", what: "two blocks of 65537 (thorough: 200001) nodes, 65537 (thorough: 70001) blobs; pools of 1 or 2 threads".into(), level: 0, preempt: 0, cases: c });
    // shapes of blocks: many groups of all kinds, many elements of one kind, a lot of bytes
    let shapes = |n: i64| -> Vec<(String, Pbf)> {
        let group = |i: i64| match i % 5 {
            0 => one_node(100 + i).groups[0].clone(),
            1 => way_block(vec![way(200 + i, &[i]), way(300 + i, &[])]).groups[0].clone(),
            2 => dense_block(&[400 + i, 500 + i, 600 + i]).groups[0].clone(),
            3 => rel_block(&[700 + i]).groups[0].clone(),
            _ => MGroup::default(),
        };
        let with = |groups: Vec<MGroup>| MBlock { groups, ..dense_block(&[]) };
        let one = |g: MGroup| with(vec![g]);
        let mut big = one_node(1);
        big.strings.push((0..n * 3000).map(|i| b'a' + (i * i % 23) as u8).collect());
        let all = vec![
            (format!("a block of {n} groups"), with((0..n).map(group).collect())),
            (format!("a block of {n} ways"), one(MGroup { ways: (0..n).map(|i| way(i, &[i])).collect(), ..Default::default() })),
            (format!("a block of {n} nodes"), one(MGroup { nodes: (0..n).map(|i| MNode { id: i, ..Default::default() }).collect(), ..Default::default() })),
            (format!("a block of {n} relations"), rel_block(&(0..n).collect::<Vec<_>>())),
            (format!("a block with a string of {} bytes", n * 3000), big),
        ];
        all.into_iter().map(|(n, b)| (n, lay_out(vec![Seg::data(b), Seg::data(one_node(9))]))).collect()
    };
    let mut c = vec![];
    for n in if th { vec![2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 127, 129, 257, 400] } else { vec![3, 5, 9, 16, 17, 33, 101] } {
        for (name, f) in shapes(n) {
            for m in [Mode::Pool(1), Mode::Pool(2), Mode::Pool(3)] {
                c.push(c07_case(&name, &f, m, false, 0));
            }
        }
    }
    scns.push(Scn { name: "shapes of blocks", what: "two blocks, one of which has 3 to 101 (thorough: 400) groups of all kinds, ways, nodes or relations, or a long string; pools of 1 to 3 threads".into(), level: 0, preempt: if th { 2 } else { 1 }, cases: c });
    // every sort of element, in blocks of a few groups with an element each
    let so = Sorts::default();
    let mut segs = vec![];
    let all: Vec<usize> = (0..so.len()).collect();
    for (k, ch) in all.chunks(400).enumerate() {
        segs.push(Seg::data(sorts_block(ch.iter().map(|i| so.get(*i)).collect(), k % 2 == 1)).st(Storage::Zlib(1)));
    }
    let f = lay_out(segs);
    let name = format!("{} elements, one of every sort", so.len());
    let c = vec![c07_case(&name, &f, Mode::Pool(1), false, 0), c07_case(&name, &f, Mode::Pool(2), false, 0), c07_case(&name, &f, Mode::Pool(3), false, 0)];
    scns.push(Scn { name: "one of every sort", what: "every combination of kind, id, place, tags, metadata (invisible, version 0), references and members over small sets".into(), level: 0, preempt: 0, cases: c });
    let mut c = vec![];
    for (n, f) in pick(&["one block", "two blocks", "mixed block", "header, unknown, block"]) {
        for m in [Mode::Pool(1), Mode::Pool(2)] {
            c.push(c07_nested(n, f, m));
        }
    }
    scns.push(Scn { name: "calls inside of calls", what: "each call of the map closure reads another file in the same way; pools of 1 and 2 threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    let mut c = vec![];
    for (n, f) in pick(if th { &["two blocks", "three blocks", "header, unknown, block", "mixed block", "empty file"] } else { &["two blocks", "header, unknown, block"] }) {
        c.push(c07_case(n, f, Mode::Pool(2), false, 0));
    }
    scns.push(Scn { name: "atomics, two workers", what: "two threads".into(), level: 1, preempt: if th { 3 } else { 2 }, cases: c });
    let mut c = vec![];
    for (n, f) in pick(&small) {
        c.push(c07_case(n, f, Mode::Pool(2), false, 0));
        if th {
            c.push(c07_case(n, f, Mode::Pool(3), false, 0));
        }
    }
    scns.push(Scn { name: "memory accesses, two workers", what: "two threads".into(), level: 2, preempt: if th { 2 } else { 1 }, cases: c });
    Prop { id: "C07", scns, assumptions: assumptions() }
}

fn assumptions() -> Vec<String> {
    vec![
        "sequentially consistent memory (no weak-memory reordering)".into(),
        "rayon-core, crossbeam and the allocator run without preemption between their waiting points, except code instantiated in the library or the harness".into(),
        "a thread that yields while spinning lets the other runnable threads go first; timeouts fire only when nothing else can run".into(),
        "no execution takes longer than 30 s unless it hangs".into(),
    ]
}

// ---------------------------------------------------------------------------------------------
// C08

fn err_class(e: &Error) -> &'static str {
    view::err_kind(e)
}

/// what reading the same thing sequentially gives
fn sequential(rd: ElementReader<PSrc>) -> Option<&'static str> {
    match rd.for_each(|_| ()) {
        Ok(()) => None,
        Err(e) => Some(err_class(&e)),
    }
}

#[derive(Clone)]
struct Fault {
    desc: String,
    bytes: Arc<Vec<u8>>,
    script: Script,
}
impl Fault {
    fn reader(&self) -> ElementReader<PSrc> {
        ElementReader::new(PSrc::new(&self.bytes, self.script.clone()))
    }
}

fn c08_fault(f: Fault, m: Mode, again: bool, pts: bool) -> Case {
    let want = sequential(f.reader());
    let good = lay_out(vec![Seg::data(one_node(5)), Seg::data(one_node(6))]);
    let good_bag = bag(&good);
    case(format!("{}, {m:?}{}", f.desc, if again { ", then a valid file" } else { "" }), move || {
        let want = match want {
            Some(w) => w,
            None => return vcore::engine::internal(format!("{}: sequential reading reports no error", f.desc)),
        };
        let run = |_: ()| {
            let r = collect(f.reader(), Boom::No, pts).0;
            let second = if again { Some(collect(ElementReader::new(PSrc::plain(&good.bytes)), Boom::No, pts).0) } else { None };
            (r, second)
        };
        for (r, s) in within(m, || run(())) {
            match r {
                Ok(v) => return vcore::engine::fail(format!("Ok with {} elements although reading sequentially reports {want}", v.len())),
                Err(e) => {
                    observe(err_class(&e));
                    check_eq!(err_class(&e), want, "kind of error");
                }
            }
            if let Some(s) = s {
                match s {
                    Ok(mut v) => {
                        v.sort();
                        check_eq!(v, good_bag, "elements of a valid file read afterwards in the same pool");
                    }
                    Err(e) => return vcore::engine::fail(format!("a valid file read afterwards in the same pool: {e}")),
                }
            }
        }
        Ok(())
    })
}

fn c08_boom(name: &str, f: &Pbf, b: Boom, m: Mode) -> Case {
    let want = bag(f);
    let bytes = f.bytes.clone();
    case(format!("{name}, {m:?}, panic {b:?}"), move || {
        let p = match m {
            Mode::Pool(n) => pool(n, true),
            _ => return vcore::engine::internal("mode"),
        };
        let mk = |b: Boom| {
            let mut s = PSrc::plain(&bytes);
            if let Boom::Source(k) = b {
                s.1 = Some((Arc::new(Tally::default()), k));
            }
            ElementReader::new(s)
        };
        let r = catch_unwind(AssertUnwindSafe(|| p.install(|| collect(mk(b), b, true).0)));
        match r {
            Err(x) => {
                let got = payload(&*x);
                let exp = match b {
                    Boom::Map(_) => "boom in map",
                    Boom::Reduce(_) => "boom in reduce",
                    Boom::Identity(_) => "boom in identity",
                    Boom::Source(_) => "boom in the source",
                    Boom::No => "",
                };
                observe(&got);
                check_eq!(got, exp, "panic that reaches the caller");
            }
            Ok(Ok(mut v)) => {
                // the closure was not called that often
                let surely = match b {
                    Boom::Map(k) => k < want.len(),
                    Boom::Source(_) | Boom::Identity(0) => true,
                    _ => false,
                };
                check!(!surely, "the panic is swallowed, the call returns Ok");
                v.sort();
                check_eq!(v, want, "elements");
                observe("not reached");
            }
            Ok(Err(e)) => return vcore::engine::fail(format!("an error instead of the panic: {e}")),
        }
        let r = p.install(|| collect(mk(Boom::No), Boom::No, false).0);
        match r {
            Ok(mut v) => {
                v.sort();
                check_eq!(v, want, "elements read afterwards in the same pool");
            }
            Err(e) => return vcore::engine::fail(format!("reading afterwards in the same pool: {e}")),
        }
        Ok(())
    })
}

fn c08(th: bool) -> Prop {
    let d = |i: i64| segment("OSMData", &one_node(i).encode(), Storage::Raw);
    let bads = bad_segments();
    let mut scns = vec![];
    let fault = |desc: String, parts: Vec<Vec<u8>>| Fault { desc, bytes: Arc::new(parts.concat()), script: Script::default() };
    let one_bad = |k: usize, pos: usize, n: usize| {
        let parts: Vec<Vec<u8>> = (0..n).map(|i| if i == pos { bads[k].1.clone() } else { d(i as i64) }).collect();
        fault(format!("{} as blob {} of {n}", bads[k].0, pos + 1), parts)
    };
    // every kind at every position
    let mut c = vec![];
    for k in 0..bads.len() {
        for n in 1..=3 {
            for pos in 0..n {
                if !th && n == 2 && pos == 0 {
                    continue;
                }
                c.push(c08_fault(one_bad(k, pos, n), Mode::Pool(2), false, true));
            }
        }
    }
    scns.push(Scn { name: "damaged blobs", what: format!("{} kinds of damaged blobs at every position of files of 1 to 3 blobs; two threads", bads.len()), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // representative kinds, deeper
    let reps: Vec<usize> = ["raw content is garbage", "header content is garbage", "zlib data is garbage", "blob header is garbage", "negative datasize"]
        .iter()
        .filter_map(|n| bads.iter().position(|b| b.0 == *n))
        .collect();
    let mut c = vec![];
    for k in &reps {
        for pos in 0..3 {
            c.push(c08_fault(one_bad(*k, pos, 3), Mode::Pool(2), true, true));
            c.push(c08_fault(one_bad(*k, pos, 3), Mode::Global(2), false, true));
        }
    }
    scns.push(Scn { name: "damaged blobs, deeper", what: "5 kinds of damaged blobs at every position of three, called from inside and outside of a pool of two threads; afterwards a valid file".into(), level: 0, preempt: if th { 4 } else { 2 }, cases: c });
    let mut c = vec![];
    for k in &reps {
        for pos in 0..3 {
            c.push(c08_fault(one_bad(*k, pos, 3), Mode::Pool(3), false, true));
            c.push(c08_fault(one_bad(*k, pos, 3), Mode::Pool(1), true, true));
        }
    }
    scns.push(Scn { name: "damaged blobs, 3 and 1 workers", what: "5 kinds of damaged blobs at every position of three; pools of three and one threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // faults far into a file
    let mut c = vec![];
    for n in if th { vec![5, 8, 9, 16, 17, 33, 65, 129] } else { vec![9, 17, 33] } {
        let mut at = vec![0, 1, n / 2, n - 2, n - 1];
        at.extend([4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128].into_iter().filter(|k| *k < n));
        at.sort();
        at.dedup();
        for pos in at {
            for (i, k) in reps.iter().enumerate() {
                for w in if th { vec![1, 2, 3, 4] } else { vec![2, 3] } {
                    c.push(c08_fault(one_bad(*k, pos, n), Mode::Pool(w), i == 0, false));
                }
            }
        }
    }
    scns.push(Scn { name: "faults far into a file", what: "5 kinds of damaged blobs near the ends, the middle and powers of two of files of up to 33 (thorough: 129) blobs; two and three (thorough: one to four) threads".into(), level: 0, preempt: if th { 2 } else { 1 }, cases: c });
    // cut files
    let whole: Vec<u8> = [segment("OSMHeader", &std_header().encode(), Storage::Raw), d(1), d(2)].concat();
    let bounds = [0usize, segment("OSMHeader", &std_header().encode(), Storage::Raw).len(), whole.len() - d(2).len(), whole.len()];
    let mut c = vec![];
    for cut in 1..whole.len() {
        if bounds.contains(&cut) {
            continue;
        }
        if !th && cut < bounds[2] && cut % 7 != 0 {
            continue;
        }
        c.push(c08_fault(Fault { desc: format!("file of three blobs cut after {cut} bytes"), bytes: Arc::new(whole[..cut].to_vec()), script: Script::default() }, Mode::Pool(2), false, true));
    }
    scns.push(Scn { name: "cut files", what: format!("a file of three blobs cut at {} (quick: every byte of the last blob and every seventh before); two threads", if th { "every byte" } else { "many bytes" }), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // failing sources
    let full = Arc::new(whole.clone());
    let probe = Src::plain(&full);
    let log = probe.log.clone();
    let _ = ElementReader::new(probe).for_each(|_| ());
    let calls = log.lock().unwrap().calls;
    let mut c = vec![];
    for k in 0..calls {
        for kind in [IoKind::Other, IoKind::UnexpectedEof] {
            for persistent in [false, true] {
                let script = if persistent {
                    Script { dead_from: Some((k, kind)), ..Default::default() }
                } else {
                    Script { acts: vec![(k, Act::Fail(kind))], ..Default::default() }
                };
                let f = Fault { desc: format!("source fails with {kind:?} at call {k}{}", if persistent { " and from then on" } else { "" }), bytes: full.clone(), script };
                c.push(c08_fault(f, Mode::Pool(2), kind == IoKind::Other, true));
            }
        }
    }
    for k in 0..calls {
        for kind in ALL_KINDS {
            if ![IoKind::Other, IoKind::UnexpectedEof, IoKind::Interrupted].contains(&kind) {
                let f = Fault { desc: format!("source fails with {kind:?} at call {k}"), bytes: full.clone(), script: Script { acts: vec![(k, Act::Fail(kind))], ..Default::default() } };
                c.push(c08_fault(f, Mode::Pool(1), false, true));
            }
        }
    }
    scns.push(Scn { name: "failing source", what: "a file of three blobs whose source fails once or for good, at every call, with two error kinds; two threads; once with any of all other kinds, one thread".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // two faults: any of the two errors
    let mut c = vec![];
    for (i, a) in reps.iter().enumerate() {
        for b in reps.iter().skip(i) {
            let parts = vec![bads[*a].1.clone(), d(1), bads[*b].1.clone()];
            let bytes = Arc::new(parts.concat());
            let (na, nb) = (bads[*a].0, bads[*b].0);
            c.push(case(format!("{na} first and {nb} third"), move || {
                let bytes = bytes.clone();
                for (r, _) in within(Mode::Pool(2), || collect(ElementReader::new(PSrc::plain(&bytes)), Boom::No, true)) {
                    match r {
                        Ok(v) => return vcore::engine::fail(format!("Ok with {} elements although two blobs are damaged", v.len())),
                        Err(e) => observe(err_class(&e)),
                    }
                }
                Ok(())
            }));
        }
    }
    scns.push(Scn { name: "two damaged blobs", what: "pairs of damaged blobs around a good one: some error; two threads".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    // panics
    let f2 = lay_out(vec![Seg::header(std_header()), Seg::data(one_node(1)), Seg::data(dense_block(&[2, 3]))]);
    let mut c = vec![];
    let srccalls = {
        let probe = Src::plain(&f2.bytes);
        let log = probe.log.clone();
        let _ = ElementReader::new(probe).for_each(|_| ());
        let n = log.lock().unwrap().calls;
        n
    };
    for n in [1usize, 2] {
        for k in 0..3 {
            c.push(c08_boom("header and two blocks", &f2, Boom::Map(k), Mode::Pool(n)));
        }
        for k in 0..6 {
            c.push(c08_boom("header and two blocks", &f2, Boom::Reduce(k), Mode::Pool(n)));
            c.push(c08_boom("header and two blocks", &f2, Boom::Identity(k), Mode::Pool(n)));
        }
        for k in 0..srccalls {
            c.push(c08_boom("header and two blocks", &f2, Boom::Source(k), Mode::Pool(n)));
        }
    }
    scns.push(Scn { name: "panics", what: "a panic in the k-th call of map, reduce, identity or source; one and two threads; afterwards the same file again in the same pool".into(), level: 0, preempt: if th { 3 } else { 2 }, cases: c });
    let mut c = vec![];
    for k in reps.iter().take(if th { 5 } else { 2 }) {
        for pos in 0..2 {
            c.push(c08_fault(one_bad(*k, pos, 2), Mode::Pool(2), false, false));
        }
    }
    scns.push(Scn { name: "atomics, damaged blobs", what: "two threads".into(), level: 1, preempt: if th { 3 } else { 2 }, cases: c.clone() });
    scns.push(Scn { name: "memory accesses, damaged blobs", what: "two threads".into(), level: 2, preempt: if th { 2 } else { 1 }, cases: c });
    Prop { id: "C08", scns, assumptions: assumptions() }
}

// ---------------------------------------------------------------------------------------------
// C22

type Job<'a> = Box<dyn FnOnce() -> Res + Send + 'a>;
/// run the jobs on threads of their own, all at once
fn together(jobs: Vec<Job>) -> Res {
    let r: Vec<Res> = std::thread::scope(|s| {
        let hs: Vec<_> = quiet(|| jobs.into_iter().map(|j| s.spawn(j)).collect());
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|p| vcore::engine::fail(format!("unexpected panic: {}", payload(&*p)))))
            .collect()
    });
    for x in r {
        x?
    }
    Ok(())
}
fn ck(r: std::result::Result<(), String>) -> Res {
    r.map_err(|e| e.into())
}

fn rich() -> MBlock {
    let mut b = dense_block(&[4, 5]);
    b.strings.push(b"u".to_vec());
    if let Some(d) = &mut b.groups[0].dense {
        d.has_info = true;
        for (i, n) in d.nodes.iter_mut().enumerate() {
            n.info = MDInfo { version: i as i32 + 1, timestamp: 5 * i as i64, changeset: 9 - i as i64, uid: 3, user_sid: 3, visible: true };
        }
    }
    b.groups.push(MGroup { nodes: vec![MNode { id: 6, lat: 5, lon: -5, tags: vec![(1, 2)], info: Some(MInfo { version: Some(2), user_sid: Some(3), ..Default::default() }) }], ..Default::default() });
    b.groups.push(MGroup { ways: vec![way(7, &[4, 6])], ..Default::default() });
    b.groups.push(MGroup { rels: vec![MRel { id: 8, members: vec![(1, 7, 1), (0, 4, 2)], tags: vec![(2, 1)], ..Default::default() }], ..Default::default() });
    b
}

fn read_all(mut it: impl Iterator<Item = Result<Blob>>, f: &Pbf, from: usize, seekable: bool) -> Res {
    for (i, s) in f.segs.iter().enumerate().skip(from) {
        match it.next() {
            Some(Ok(b)) => {
                let o = if seekable { Some(Some(f.off[i] as u64)) } else { None };
                ck(blob_matches(&b, s, o))?
            }
            Some(Err(e)) => return vcore::engine::fail(format!("blob {i}: {e}")),
            None => return vcore::engine::fail(format!("blob {i} of {} missing", f.segs.len())),
        }
    }
    check!(it.next().is_none(), "an additional blob");
    Ok(())
}

fn c22_cases(th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    let z = Storage::Zlib(6);
    let counts: &[usize] = if th { &[2, 3] } else { &[2] };
    // shared blob
    for (n, seg) in [
        ("raw data", Seg::data(rich())),
        ("zlib data", Seg::data(rich()).st(z)),
        ("header", Seg::header(std_header()).st(z)),
        ("unknown", Seg::other("X", b"abc")),
    ] {
        for k in counts {
            let f = lay_out(vec![seg.clone()]);
            let k = *k;
            v.push(case(format!("{k} threads decode the same blob ({n})"), move || {
                let b = quiet(|| BlobReader::new(&f.bytes[..]).next().unwrap().unwrap());
                together((0..k).map(|_| -> Job { Box::new(|| ck(dec_matches(&dec_of(b.decode()), &f.segs[0].content))) }).collect())
            }));
        }
    }
    // different blobs of the same reader
    {
        let f = lay_out(vec![Seg::data(rich()).st(z), Seg::data(dense_block(&[100, 200])).st(z), Seg::data(way_block(vec![way(1, &[5])])).st(z)]);
        for k in counts {
            let (f, k) = (f.clone(), *k);
            v.push(case(format!("{k} threads decode different compressed blobs"), move || {
                let bs: Vec<Blob> = quiet(|| BlobReader::new(&f.bytes[..]).map(|b| b.unwrap()).collect());
                let (f, bs) = (&f, &bs);
                together((0..k).map(|i| -> Job { Box::new(move || ck(blob_matches(&bs[i], &f.segs[i], None))) }).collect())
            }));
        }
        let f2 = f.clone();
        v.push(case("one thread decodes a good blob, the other a damaged one", move || {
            let g = quiet(|| BlobReader::new(&f2.bytes[..]).next().unwrap().unwrap());
            let bad = bad_segments().into_iter().find(|b| b.0 == "zlib checksum is wrong").unwrap().1;
            let b = quiet(|| BlobReader::new(&bad[..]).next().unwrap().unwrap());
            let (f2, g, b) = (&f2, &g, &b);
            together(vec![
                Box::new(move || ck(blob_matches(g, &f2.segs[0], None))),
                Box::new(move || {
                    check!(b.decode().is_err(), "damaged blob decodes");
                    Ok(())
                }),
            ])
        }));
        // a large blob next to a small one
        let big = lay_out(vec![Seg::data(dense_block(&(0..300).collect::<Vec<i64>>())).st(z), Seg::data(one_node(77)).st(z)]);
        v.push(case("one thread decodes a large blob, the other a small one", move || {
            let bs: Vec<Blob> = quiet(|| BlobReader::new(&big.bytes[..]).map(|b| b.unwrap()).collect());
            let (f, bs) = (&big, &bs);
            together((0..2).map(|i| -> Job { Box::new(move || {
                let n = match bs[i].decode() {
                    Ok(BlobDecode::OsmData(b)) => b.elements().count(),
                    _ => 0,
                };
                check_eq!(n, if i == 0 { 300 } else { 1 }, "number of elements");
                if i == 1 { ck(blob_matches(&bs[i], &f.segs[i], None)) } else { Ok(()) }
            }) }).collect())
        }));
    }
    // shared block
    for k in counts {
        let k = *k;
        let f = lay_out(vec![Seg::data(rich())]);
        let m = rich();
        v.push(case(format!("{k} threads iterate the same block in different ways"), move || {
            let b = quiet(|| BlobReader::new(&f.bytes[..]).next().unwrap().unwrap().to_primitiveblock().unwrap());
            let (b, m) = (&b, &m);
            together(
                (0..k)
                    .map(|i| -> Job {
                        Box::new(move || {
                            let got: Vec<View> = match i {
                                0 => b.elements().map(|e| view::element(&e)).collect(),
                                1 => {
                                    let mut v = vec![];
                                    b.for_each_element(|e| v.push(view::element(&e)));
                                    v
                                }
                                _ => view::block_by_group(b).concat(),
                            };
                            let want = m.views();
                            check!(got == want, "{}", views_diff(&got, &want));
                            Ok(())
                        })
                    })
                    .collect(),
            )
        }));
        let f = lay_out(vec![Seg::data(rich())]);
        let m = rich();
        v.push(case(format!("{k} threads continue clones of the same element iterator"), move || {
            let b = quiet(|| BlobReader::new(&f.bytes[..]).next().unwrap().unwrap().to_primitiveblock().unwrap());
            let mut it = b.elements();
            quiet(|| it.next());
            let want: Vec<View> = m.views()[1..].to_vec();
            let want = &want;
            together(
                (0..k)
                    .map(|_| -> Job {
                        let it = it.clone();
                        Box::new(move || {
                            let got: Vec<View> = it.map(|e| view::element(&e)).collect();
                            check!(&got == want, "{}", views_diff(&got, want));
                            Ok(())
                        })
                    })
                    .collect(),
            )
        }));
    }
    // shared map
    {
        let f = lay_out(vec![Seg::header(std_header()), Seg::data(rich()).st(z), Seg::data(one_node(3))]);
        for k in counts {
            let (f, k) = (f.clone(), *k);
            v.push(case(format!("{k} threads iterate the same memory map"), move || {
                let (_mf, m) = quiet(|| {
                    let mf = MemFile::new(&f.bytes);
                    let m = mf.mmap().unwrap();
                    (mf, m)
                });
                let (m, f) = (&m, &f);
                together(
                    (0..k)
                        .map(|i| -> Job {
                            Box::new(move || {
                                let mut it = m.blob_iter();
                                let from = if i == 1 { 1 } else { 0 };
                                if i == 1 {
                                    it.seek(ByteOffset(f.off[1] as u64));
                                }
                                for (j, s) in f.segs.iter().enumerate().skip(from) {
                                    match it.next() {
                                        Some(Ok(b)) => {
                                            check_eq!(b.offset().0, f.off[j] as u64, "offset");
                                            ck(dec_matches(&dec_of(b.decode()), &s.content))?
                                        }
                                        _ => return vcore::engine::fail(format!("blob {j} missing")),
                                    }
                                }
                                check!(it.next().is_none(), "an additional blob");
                                Ok(())
                            })
                        })
                        .collect(),
                )
            }));
        }
        let f1 = f.clone();
        v.push(case("two threads decode the same memory-mapped blob", move || {
            let (_mf, m) = quiet(|| {
                let mf = MemFile::new(&f1.bytes);
                let m = mf.mmap().unwrap();
                (mf, m)
            });
            let b = quiet(|| m.blob_iter().nth(1).unwrap().unwrap());
            let (b, f1) = (&b, &f1);
            together((0..2).map(|_| -> Job { Box::new(move || ck(dec_matches(&dec_of(b.decode()), &f1.segs[1].content))) }).collect())
        }));
        let f1 = f.clone();
        v.push(case("two threads continue clones of a memory map iterator", move || {
            let (_mf, m) = quiet(|| {
                let mf = MemFile::new(&f1.bytes);
                let m = mf.mmap().unwrap();
                (mf, m)
            });
            let mut it = m.blob_iter();
            quiet(|| drop(it.next()));
            let f1 = &f1;
            together(
                (0..2)
                    .map(|_| -> Job {
                        let mut it = it.clone();
                        Box::new(move || {
                            for j in 1..3 {
                                match it.next() {
                                    Some(Ok(b)) => ck(dec_matches(&dec_of(b.decode()), &f1.segs[j].content))?,
                                    _ => return vcore::engine::fail(format!("blob {j} missing")),
                                }
                            }
                            check!(it.next().is_none(), "an additional blob");
                            Ok(())
                        })
                    })
                    .collect(),
            )
        }));
    }
    // clones over damage: what one of them meets is nothing to the other
    {
        let good = lay_out(vec![Seg::header(std_header()), Seg::data(one_node(1)).st(z), Seg::data(dense_block(&[2, 9]))]);
        for kind in ["blob header is garbage", "zlib checksum is wrong", "negative datasize"] {
            let bad = bad_segments().into_iter().find(|b| b.0 == kind).unwrap().1;
            let at = good.off[2];
            let mut d = good.bytes[..at].to_vec();
            d.extend(&bad);
            let behind = d.len();
            d.extend(&good.bytes[at..]);
            let d = Arc::new(d);
            // a damaged body is handed out as a blob that does not decode; the rest ends the iteration
            let body = kind == "zlib checksum is wrong";
            // (where a clone starts by itself, what it sees)
            let runs: Vec<(&str, Option<usize>)> = vec![("from the start", None), ("from the damage", Some(at)), ("from behind the damage", Some(behind)), ("from the second blob", Some(good.off[1]))];
            let expect = move |from: Option<usize>, off: &[usize]| -> Vec<String> {
                let mut v: Vec<String> = vec![];
                let from = from.unwrap_or(0);
                for (i, o) in off.iter().enumerate().take(2) {
                    if from <= *o {
                        v.push(format!("{i}@{o}"));
                    }
                }
                if from <= at {
                    v.push("damage".into());
                    if !body {
                        return v;
                    }
                }
                v.push(format!("2@{behind}"));
                v
            };
            for first in 0..2usize {
                for (n1, s1) in &runs {
                    for (n2, s2) in &runs {
                        if n1 > n2 && first == 0 {
                            continue;
                        }
                        for how in 0..3 {
                            if how == 2 && (s1.is_some() || s2.is_some()) {
                                continue;
                            }
                            let (good, d, s1, s2) = (good.clone(), d.clone(), *s1, *s2);
                            let label = ["clones of a memory map iterator", "clones of a seekable reader", "clones of a reader"][how];
                            v.push(case(format!("{label} after {first} blobs, damage in the file ({kind}): one reads {n1}, the other {n2}"), move || {
                                let good = &good;
                                let expect = &expect;
                                let from = |s: Option<usize>| if s.is_none() { Some(good.off[first]) } else { s };
                                let which = |o: Option<u64>, d: Dec| -> String {
                                    if let Dec::Err(_) = d {
                                        return "damage".into();
                                    }
                                    let i = good.segs.iter().position(|s| dec_matches(&d, &s.content).is_ok());
                                    format!("{}@{}", i.map_or("?".into(), |i| i.to_string()), o.map_or("?".into(), |o| o.to_string()))
                                };
                                let judge = move |got: Vec<String>, s: Option<usize>| -> Res {
                                    let mut want = expect(from(s), &good.off);
                                    if how == 2 {
                                        want.iter_mut().for_each(|x| *x = x.split('@').next().unwrap_or("").to_string());
                                    }
                                    check_eq!(got, want, "{label}: blobs seen");
                                    Ok(())
                                };
                                if how == 0 {
                                    let (_mf, m) = quiet(|| {
                                        let mf = MemFile::new(&d);
                                        let m = mf.mmap().unwrap();
                                        (mf, m)
                                    });
                                    let mut it = m.blob_iter();
                                    for _ in 0..first {
                                        quiet(|| drop(it.next()));
                                    }
                                    return together(
                                        [s1, s2]
                                            .into_iter()
                                            .map(|s| -> Job {
                                                let mut it = it.clone();
                                                Box::new(move || {
                                                    if let Some(s) = s {
                                                        point();
                                                        it.seek(ByteOffset(s as u64));
                                                    }
                                                    let mut got = vec![];
                                                    loop {
                                                        point();
                                                        match it.next() {
                                                            Some(Ok(b)) => got.push(which(Some(b.offset().0), dec_of(b.decode()))),
                                                            Some(Err(_)) => got.push("damage".into()),
                                                            None => break,
                                                        }
                                                        if got.len() > 9 {
                                                            break;
                                                        }
                                                    }
                                                    judge(got, s)
                                                })
                                            })
                                            .collect(),
                                    );
                                }
                                macro_rules! readers {
                                    ($r:expr, $off:expr, $seek:expr) => {{
                                        let mut r = $r;
                                        for _ in 0..first {
                                            quiet(|| drop(r.next()));
                                        }
                                        together(
                                            [s1, s2]
                                                .into_iter()
                                                .map(|s| -> Job {
                                                    let mut r = r.clone();
                                                    Box::new(move || {
                                                        if let Some(s) = s {
                                                            $seek(&mut r, s)?;
                                                        }
                                                        let mut got = vec![];
                                                        loop {
                                                            match r.next() {
                                                                Some(Ok(b)) => {
                                                                    let x = which(b.offset().map(|o| o.0), dec_of(b.decode()));
                                                                    got.push(if $off { x } else { x.split('@').next().unwrap_or("").to_string() })
                                                                }
                                                                Some(Err(_)) => got.push("damage".into()),
                                                                None => break,
                                                            }
                                                            if got.len() > 9 {
                                                                break;
                                                            }
                                                        }
                                                        judge(got, s)
                                                    })
                                                })
                                                .collect(),
                                        )
                                    }};
                                }
                                if how == 1 {
                                    readers!(quiet(|| BlobReader::new_seekable(PSrc::plain(&d)).unwrap()), true, |r: &mut BlobReader<PSrc>, s: usize| -> Res {
                                        r.seek(ByteOffset(s as u64)).map_err(|e| vcore::engine::Fail::from(format!("seek: {e}")))
                                    })
                                } else {
                                    readers!(quiet(|| BlobReader::new(PSrc::plain(&d))), false, |_: &mut BlobReader<PSrc>, _: usize| -> Res { Ok(()) })
                                }
                            }));
                        }
                    }
                }
            }
        }
    }
    // clones of the iterators over one block, in different threads
    {
        let m = MBlock {
            groups: vec![rich().groups[0].clone(), MGroup { ways: vec![MWay { id: 7, refs: vec![3, 1, 8], tags: vec![(1, 2), (2, 1)], locs: Some(vec![(1, 2), (3, 4), (5, 6)]), ..Default::default() }], ..Default::default() }, MGroup { rels: vec![MRel { id: 8, members: vec![(0, 1, 1), (1, 5, 0), (2, 7, 2)], tags: vec![(2, 2), (1, 1)], ..Default::default() }], ..Default::default() }],
            ..rich()
        };
        let f = lay_out(vec![Seg::data(m)]);
        for done in 0..2usize {
            for (which, what) in ["groups", "raw string table", "dense nodes", "tags of a dense node", "tags of a way", "references", "locations", "tags of a relation", "members"].into_iter().enumerate() {
                let f = f.clone();
                v.push(case(format!("two threads continue clones of an iterator ({what}) after {done} items"), move || {
                    let b = quiet(|| BlobReader::new(&f.bytes[..]).next().unwrap().unwrap().to_primitiveblock().unwrap());
                    let b = &b;
                    macro_rules! twice {
                        ($it:expr) => {{
                            let mut it = $it;
                            let want: Vec<String> = quiet(|| $it.skip(done).map(|x| format!("{x:?}")).collect());
                            for _ in 0..done {
                                quiet(|| it.next());
                            }
                            let want = &want;
                            together(
                                (0..2)
                                    .map(|_| -> Job {
                                        let mut it = it.clone();
                                        Box::new(move || {
                                            let mut got = vec![];
                                            loop {
                                                point();
                                                match it.next() {
                                                    Some(x) => got.push(format!("{x:?}")),
                                                    None => break,
                                                }
                                            }
                                            check!(&got == want, "got {:?} expected {:?}", got, want);
                                            Ok(())
                                        })
                                    })
                                    .collect(),
                            )
                        }};
                    }
                    let g: Vec<_> = quiet(|| b.groups().collect());
                    let dn = quiet(|| g[0].dense_nodes().next().unwrap());
                    let w = quiet(|| g[1].ways().next().unwrap());
                    let r = quiet(|| g[2].relations().next().unwrap());
                    match which {
                        0 => twice!(b.groups().map(|g| (g.nodes().len(), g.dense_nodes().len(), g.ways().len(), g.relations().len()))),
                        1 => twice!(b.raw_stringtable().iter()),
                        2 => twice!(g[0].dense_nodes().map(|n| (n.id(), n.nano_lat()))),
                        3 => twice!(dn.tags()),
                        4 => twice!(w.tags()),
                        5 => twice!(w.refs()),
                        6 => twice!(w.node_locations().map(|l| (l.nano_lat(), l.nano_lon()))),
                        7 => twice!(r.raw_tags()),
                        _ => twice!(r.members().map(|m| (m.member_id, m.role_sid))),
                    }
                }));
            }
        }
    }
    // cloned and independent readers
    {
        let f = lay_out(vec![Seg::header(std_header()), Seg::data(one_node(1)).st(z), Seg::data(dense_block(&[2, 9]))]);
        let g = lay_out(vec![Seg::data(dense_block(&[70, 80])).st(z), Seg::header(std_header()), Seg::data(way_block(vec![way(7, &[70])]))]);
        for done in 0..3usize {
            let f = f.clone();
            v.push(case(format!("two threads continue clones of a seekable reader after {done} blobs"), move || {
                let mut r = quiet(|| BlobReader::new_seekable(PSrc::plain(&f.bytes)).unwrap());
                for _ in 0..done {
                    quiet(|| drop(r.next()));
                }
                let f = &f;
                together(
                    (0..2)
                        .map(|_| -> Job {
                            let r = r.clone();
                            Box::new(move || read_all(r, f, done, true))
                        })
                        .collect(),
                )
            }));
        }
        let (f1, g1) = (f.clone(), g.clone());
        v.push(case("two threads read different files", move || {
            let (f1, g1) = (&f1, &g1);
            together(vec![
                Box::new(move || read_all(BlobReader::new(PSrc::plain(&f1.bytes)), f1, 0, false)),
                Box::new(move || read_all(BlobReader::new_seekable(PSrc::plain(&g1.bytes)).unwrap(), g1, 0, true)),
            ])
        }));
        let f1 = f.clone();
        v.push(case("one thread seeks and skims while another reads a clone", move || {
            let r = quiet(|| BlobReader::new_seekable(PSrc::plain(&f1.bytes)).unwrap());
            let mut q = r.clone();
            let f1 = &f1;
            together(vec![
                Box::new(move || read_all(r, f1, 0, true)),
                Box::new(move || {
                    let (_, o) = match q.next_header_skip_blob() {
                        Some(Ok(x)) => x,
                        _ => return vcore::engine::fail("skimming finds no header"),
                    };
                    check_eq!(o.map(|o| o.0), Some(0), "offset of the skimmed header");
                    match q.blob_from_offset(ByteOffset(f1.off[2] as u64)) {
                        Ok(b) => ck(blob_matches(&b, &f1.segs[2], Some(Some(f1.off[2] as u64))))?,
                        Err(e) => return vcore::engine::fail(format!("blob_from_offset: {e}")),
                    }
                    match q.seek(ByteOffset(f1.off[1] as u64)) {
                        Ok(()) => read_all(q, f1, 1, true),
                        Err(e) => vcore::engine::fail(format!("seek: {e}")),
                    }
                }),
            ])
        }));
        let (f1, g1) = (f.clone(), g.clone());
        v.push(case("two threads read elements of different files, one source fails", move || {
            let (f1, g1) = (&f1, &g1);
            together(vec![
                Box::new(move || {
                    let mut got = vec![];
                    let r = ElementReader::new(PSrc::plain(&f1.bytes)).for_each(|e| {
                        point();
                        got.push(item(&view::element(&e)))
                    });
                    check!(r.is_ok(), "error of the other file");
                    got.sort();
                    check_eq!(got, bag(f1), "elements");
                    Ok(())
                }),
                Box::new(move || {
                    let s = Script { dead_from: Some((4, IoKind::Other)), ..Default::default() };
                    let r = ElementReader::new(PSrc::new(&g1.bytes, s)).for_each(|_| point());
                    check!(r.is_err(), "failure of the source lost");
                    Ok(())
                }),
            ])
        }));
        let ways = lay_out(vec![Seg::data(dense_block(&[1, 2, 3])), Seg::data(way_block(vec![way(5, &[1, 3])])), Seg::data(dense_block(&[4]))]);
        let ways2 = lay_out(vec![Seg::data(way_block(vec![way(6, &[2, 8])])).st(z), Seg::data(dense_block(&[2, 7, 8])).st(z)]);
        let idx = |f: &Pbf, way: i64, want: Vec<i64>, twice: bool| -> Res {
            let mut r = match IndexedReader::new(PSrc::plain(&f.bytes)) {
                Ok(r) => r,
                Err(e) => return vcore::engine::fail(format!("indexed reader: {e}")),
            };
            for _ in 0..if twice { 2 } else { 1 } {
                let mut got: Vec<i64> = vec![];
                let res = r.read_ways_and_deps(
                    |w| {
                        point();
                        w.id() == way
                    },
                    |e| {
                        point();
                        got.push(view::element(e).id)
                    },
                );
                check!(res.is_ok(), "indexed reader fails");
                got.sort();
                check_eq!(got, want, "way and its nodes");
            }
            Ok(())
        };
        let (w1, w2) = (ways.clone(), ways2.clone());
        v.push(case("two threads use indexed readers on different files", move || {
            let (w1, w2) = (&w1, &w2);
            together(vec![Box::new(move || idx(w1, 5, vec![1, 3, 5], false)), Box::new(move || idx(w2, 6, vec![2, 6, 8], true))])
        }));
        let w1 = ways.clone();
        v.push(case("two threads use indexed readers on the same file", move || {
            let w1 = &w1;
            together(vec![Box::new(move || idx(w1, 5, vec![1, 3, 5], false)), Box::new(move || idx(w1, 99, vec![], false))])
        }));
        // hand-over between threads
        let f1 = f.clone();
        v.push(case("blobs read in one thread are decoded in another", move || {
            let (tx, rx) = std::sync::mpsc::channel::<Blob>();
            let f1 = &f1;
            together(vec![
                Box::new(move || {
                    for b in BlobReader::new_seekable(PSrc::plain(&f1.bytes)).unwrap() {
                        match b {
                            Ok(b) => tx.send(b).map_err(|_| vcore::engine::Fail::from("receiver gone"))?,
                            Err(e) => return vcore::engine::fail(format!("{e}")),
                        }
                    }
                    Ok(())
                }),
                Box::new(move || {
                    let mut n = 0;
                    for (i, b) in rx.iter().enumerate() {
                        ck(blob_matches(&b, &f1.segs[i], Some(Some(f1.off[i] as u64))))?;
                        n += 1;
                    }
                    check_eq!(n, f1.segs.len(), "blobs");
                    Ok(())
                }),
            ])
        }));
        let (f1, g1) = (f.clone(), g.clone());
        v.push(case("one reads sequentially, the other through a memory map", move || {
            let (_mf, m) = quiet(|| {
                let mf = MemFile::new(&g1.bytes);
                let m = mf.mmap().unwrap();
                (mf, m)
            });
            let (m, f1, g1) = (&m, &f1, &g1);
            together(vec![
                Box::new(move || read_all(BlobReader::new(PSrc::plain(&f1.bytes)), f1, 0, false)),
                Box::new(move || {
                    for (j, b) in m.blob_iter().enumerate() {
                        match b {
                            Ok(b) => ck(dec_matches(&dec_of(b.decode()), &g1.segs[j].content))?,
                            Err(e) => return vcore::engine::fail(format!("{e}")),
                        }
                    }
                    Ok(())
                }),
            ])
        }));
    }
    v
}

fn c22(th: bool) -> Prop {
    let cs = c22_cases(th);
    // with every kind of damage at the level of calls, with one of them at the finer ones
    let fine: Vec<Case> = cs.iter().filter(|c| th || !c.desc.contains("damage in the file") || (c.desc.contains("after 0 blobs, damage in the file (blob header") && !c.desc.contains("the second blob"))).cloned().collect();
    let scns = vec![
        Scn { name: "source calls", what: "every way of sharing".into(), level: 0, preempt: if th { 4 } else { 3 }, cases: cs.clone() },
        Scn { name: "atomics", what: "every way of sharing".into(), level: 1, preempt: if th { 3 } else { 2 }, cases: fine.clone() },
        Scn { name: "memory accesses", what: "every way of sharing".into(), level: 2, preempt: if th { 2 } else { 1 }, cases: fine },
    ];
    Prop { id: "C22", scns, assumptions: assumptions() }
}

pub fn props(th: bool) -> Vec<Prop> {
    vec![c07(th), c08(th), c22(th)]
}
