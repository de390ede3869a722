//! C25: errors say what went wrong.

use crate::files::*;
use osmpbf::*;
use std::error::Error as StdError;
use std::io::{self, Read, Seek, SeekFrom};
use std::sync::Arc;
use vcore::enc::*;
use vcore::engine::*;
use vcore::model::*;
use vcore::view::err_kind;
use vcore::{check, check_eq};

fn same_place<A: ?Sized, B: ?Sized>(a: &A, b: &B) -> bool {
    std::ptr::eq(a as *const A as *const u8, b as *const B as *const u8)
}

/// the texts of an error and of everything below it
fn chain(e: &(dyn StdError + 'static)) -> Vec<String> {
    let mut v = vec![];
    let mut x = Some(e);
    while let Some(e) = x {
        v.push(e.to_string());
        x = e.source();
        if v.len() > 20 {
            break;
        }
    }
    v
}

/// what an error holds, to be compared before and after a conversion
fn holds(e: &Error) -> String {
    match e.kind() {
        ErrorKind::Io(x) => format!("Io {:?} {:?} {x}", x.kind(), x.raw_os_error()),
        ErrorKind::Protobuf { err, location } => format!("Protobuf {err} at {location}"),
        ErrorKind::StringtableUtf8 { err, index } => format!("StringtableUtf8 {err:?} {index}"),
        ErrorKind::StringtableIndexOutOfBounds { index } => format!("StringtableIndexOutOfBounds {index}"),
        ErrorKind::Blob(BlobError::HeaderTooBig { size }) => format!("HeaderTooBig {size}"),
        ErrorKind::Blob(BlobError::MessageTooBig { size }) => format!("MessageTooBig {size}"),
        _ => err_kind(e).to_string(),
    }
}

/// Laws of any error: text, kind and chain agree; nothing is lost on the way to `io::Error` and back.
pub fn error_laws(e: Error) -> Res {
    let text = e.to_string();
    let held = holds(&e);
    check!(!text.is_empty(), "empty error text ({held})");
    check!(!format!("{e:?}").is_empty(), "empty debug text ({held})");
    #[allow(deprecated)]
    {
        check!(!StdError::description(&e).is_empty(), "empty description ({held})");
    }
    let src = e.source();
    match e.kind() {
        ErrorKind::Io(x) => {
            check!(text.contains(&x.to_string()), "text {text:?} of an I/O error {x}");
            let s = match src.and_then(|s| s.downcast_ref::<io::Error>()) {
                Some(s) => s,
                None => return fail(format!("the source of {held} is not the I/O error: {:?}", src.map(|s| s.to_string()))),
            };
            check!(same_place(s, x), "the source is another I/O error");
        }
        ErrorKind::Protobuf { err, location } => {
            check!(text.contains(&err.to_string()), "text {text:?} does not tell {err}");
            check!(!location.is_empty() && text.contains(location), "text {text:?} does not tell the location {location:?}");
            match src {
                Some(s) => check!(s.to_string() == err.to_string(), "the source of {held} is {s}"),
                None => return fail(format!("no source of {held}")),
            }
        }
        ErrorKind::StringtableUtf8 { err, index } => {
            check!(text.contains(&index.to_string()), "text {text:?} does not tell the index {index}");
            check!(text.contains(&err.to_string()), "text {text:?} does not tell {err}");
            check!(src.and_then(|s| s.downcast_ref::<std::str::Utf8Error>()) == Some(err), "the source of {held} is not the UTF-8 error");
        }
        ErrorKind::StringtableIndexOutOfBounds { index } => {
            check!(text.contains(&index.to_string()), "text {text:?} does not tell the index {index}");
        }
        ErrorKind::Blob(BlobError::HeaderTooBig { size } | BlobError::MessageTooBig { size }) => {
            check!(text.contains(&size.to_string()), "text {text:?} does not tell the size {size}");
        }
        _ => {}
    }
    let below = chain(&e);
    // the standard library's conversion and the way back
    let i = io::Error::from(e);
    check!(i.to_string().contains(&text), "text {i} of the I/O error made of {text:?}");
    let back = match i.downcast::<Error>() {
        Ok(b) => b,
        // also fine: the I/O error itself
        Err(i) => {
            check!(held.starts_with("Io "), "an I/O error made of {held} has lost it: {i:?}");
            Error::from(i)
        }
    };
    check_eq!(holds(&back), held, "error after conversion to an I/O error and back");
    check_eq!(chain(&back), below, "chain of the error after conversion to an I/O error and back");
    // a wrapped error is an I/O error whose chain leads to the original
    let outer = Error::from(io::Error::from(back));
    match outer.kind() {
        ErrorKind::Io(x) => {
            let inner = x.get_ref().and_then(|r| r.downcast_ref::<Error>());
            match inner {
                Some(r) => check_eq!(holds(r), held, "error inside an error"),
                None => check_eq!(holds(&outer), held, "error inside an error"),
            }
        }
        _ => return fail("an I/O error becomes something else"),
    }
    for t in &below {
        check!(chain(&outer).iter().any(|o| o.contains(t.as_str())), "the chain of the wrapped error lacks {t:?}");
    }
    let k = outer.into_kind();
    match k {
        ErrorKind::Io(x) => match x.downcast::<Error>() {
            Ok(r) => {
                let k = r.into_kind();
                let again = match k {
                    ErrorKind::Io(x) => format!("Io {:?} {:?} {x}", x.kind(), x.raw_os_error()),
                    ErrorKind::Protobuf { err, location } => format!("Protobuf {err} at {location}"),
                    ErrorKind::StringtableUtf8 { err, index } => format!("StringtableUtf8 {err:?} {index}"),
                    ErrorKind::StringtableIndexOutOfBounds { index } => format!("StringtableIndexOutOfBounds {index}"),
                    ErrorKind::Blob(BlobError::HeaderTooBig { size }) => format!("HeaderTooBig {size}"),
                    ErrorKind::Blob(BlobError::MessageTooBig { size }) => format!("MessageTooBig {size}"),
                    ErrorKind::Blob(BlobError::InvalidHeaderSize) => "InvalidHeaderSize".into(),
                    ErrorKind::Blob(BlobError::Empty) => "Empty".into(),
                    x => format!("{x:?}"),
                };
                check_eq!(again, held, "into_kind");
            }
            Err(x) => check!(held.starts_with("Io "), "into_kind of {held}: {x}"),
        },
        k => return fail(format!("into_kind of a wrapped error: {k:?}")),
    }
    Ok(())
}

use io::ErrorKind as IK;
use vcore::io::ALL_KINDS as KINDS;

/// an error of a user's own source
#[derive(Debug)]
struct Mine(u32);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "my error number {}", self.0)
    }
}
impl StdError for Mine {}

/// How an I/O error is made: of a kind alone, of a kind and a payload or text, of a system's code.
const MADE: usize = KINDS.len() * 3 + 133;
fn made(n: usize) -> io::Error {
    let k = KINDS.len();
    match n {
        n if n < k => io::Error::from(KINDS[n]),
        n if n < 2 * k => io::Error::new(KINDS[n - k], Mine(n as u32)),
        n if n < 3 * k => io::Error::new(KINDS[n - 2 * k], "some text"),
        n => io::Error::from_raw_os_error((n - 3 * k + 1) as i32),
    }
}
fn is_made(x: &io::Error, n: usize) -> Res {
    let w = made(n);
    check_eq!(x.kind(), w.kind(), "kind of the I/O error");
    check_eq!(x.raw_os_error(), w.raw_os_error(), "system's code of the I/O error");
    check_eq!(x.to_string(), w.to_string(), "text of the I/O error");
    let pay = |x: &io::Error| x.get_ref().and_then(|r| r.downcast_ref::<Mine>()).map(|m| m.0);
    check_eq!(pay(x), pay(&w), "payload of the I/O error");
    Ok(())
}

/// fails at one call with a given error
struct Failing {
    data: Arc<Vec<u8>>,
    pos: u64,
    calls: usize,
    at: usize,
    what: usize,
    max: usize,
    fired: Arc<std::sync::atomic::AtomicBool>,
}
impl Failing {
    fn new(data: &Arc<Vec<u8>>, at: usize, what: usize, max: usize) -> Failing {
        Failing { data: data.clone(), pos: 0, calls: 0, at, what, max, fired: Default::default() }
    }
    fn tick(&mut self) -> io::Result<()> {
        self.calls += 1;
        if self.calls - 1 == self.at {
            self.fired.store(true, std::sync::atomic::Ordering::SeqCst);
            return Err(made(self.what));
        }
        Ok(())
    }
}
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.tick()?;
        let rest = &self.data[(self.pos as usize).min(self.data.len())..];
        let n = b.len().min(rest.len()).min(self.max);
        b[..n].copy_from_slice(&rest[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Seek for Failing {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.tick()?;
        let t = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if t < 0 {
            return Err(io::Error::new(IK::InvalidInput, "negative"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// the I/O error at the bottom of an error that came from a failing source
fn bottom(e: Error) -> std::result::Result<io::Error, String> {
    match e.into_kind() {
        ErrorKind::Io(x) => Ok(x),
        ErrorKind::Protobuf { err, .. } => Ok(io::Error::from(err)),
        k => Err(format!("{k:?}")),
    }
}

pub fn c25(th: bool) -> Property {
    let conv = scenario(
        "conversions",
        format!("{MADE} I/O errors (every kind alone, with a payload of the user's own, with a text; every system's code from 1 to 133), converted in both directions, up to three times over"),
        |c| {
            let n = c.choose("error", MADE);
            let times = c.choose("times", 3);
            c.observe(&(n, times));
            c.state(&(n, times));
            let mut e = Error::from(made(n));
            for _ in 0..times {
                c.step();
                e = Error::from(io::Error::from(e));
            }
            // down to the original
            let mut depth = 0;
            {
                let mut x: &Error = &e;
                loop {
                    let i = match x.kind() {
                        ErrorKind::Io(i) => i,
                        k => return fail(format!("not an I/O error: {k:?}")),
                    };
                    match i.get_ref().and_then(|r| r.downcast_ref::<Error>()) {
                        Some(y) => x = y,
                        None => {
                            is_made(i, n)?;
                            break;
                        }
                    }
                    depth += 1;
                    check!(depth <= times, "deeper than it was wrapped");
                }
            }
            let t = made(n).to_string();
            check!(e.to_string().contains(&t), "text {e} of a wrapped {t:?}");
            check!(chain(&e).iter().any(|x| *x == t), "the chain {:?} lacks {t:?}", chain(&e));
            error_laws(e)
        },
    );

    let z = Storage::Zlib(6);
    let file = lay_out(vec![
        Seg::header(std_header()),
        Seg::data(dense_block(&[1, 2, 3])).st(z).index(3),
        Seg::other("X", b"0123456789"),
        Seg::data(way_block(vec![way(7, &[1, 3])])),
    ]);
    let apis = ["stream", "seekable", "skim", "blob_from_offset", "elements", "parallel", "index", "ways"];
    let f = file.clone();
    let whats: Vec<usize> = if th { (0..MADE).collect() } else { (0..MADE).filter(|n| *n < 3 * KINDS.len() || (n - 3 * KINDS.len()) % 8 == 4).collect() };
    let nw = whats.len();
    let fails = scenario(
        "failing source",
        format!("a file of four blobs whose source fails once with each of {nw} errors, at every call (seeks and reads) of {} interfaces, reading everything at once or 5 bytes at a time", apis.len()),
        move |c| {
            let api = c.choose("interface", apis.len());
            let max = *c.pick("bytes per read", &[usize::MAX, 5]);
            let bound = c.choose("call", 120);
            let what = *c.pick("error", &whats);
            if matches!(made(what).kind(), IK::Interrupted) {
                // retried, not reported
                c.redundant();
                return Ok(());
            }
            let src = Failing::new(&f.bytes, bound, what, max);
            let fired = src.fired.clone();
            let off = |i: usize| ByteOffset(f.off[i] as u64);
            let all = |it: &mut dyn Iterator<Item = Result<Blob>>| -> Result<()> {
                for b in it {
                    b?;
                }
                Ok(())
            };
            c.step();
            let r: Result<()> = match apis[api] {
                "stream" => all(&mut BlobReader::new(src)),
                "seekable" => BlobReader::new_seekable(src).and_then(|mut r| all(&mut r)),
                "skim" => BlobReader::new_seekable(src).and_then(|mut r| {
                    while let Some(h) = r.next_header_skip_blob() {
                        h?;
                    }
                    Ok(())
                }),
                "blob_from_offset" => BlobReader::new_seekable(src).and_then(|mut r| {
                    for i in [3, 0, 2] {
                        r.blob_from_offset(off(i))?;
                        r.seek(off(1))?;
                        r.seek_raw(SeekFrom::Current(2))?;
                    }
                    Ok(())
                }),
                "elements" => ElementReader::new(src).for_each(|_| ()),
                // without threads, rayon makes do with the only one there is
                "parallel" if cfg!(target_family = "wasm") => ElementReader::new(src).par_map_reduce(|_| (), || (), |_, _| ()),
                "parallel" => {
                    thread_local!(static POOL: rayon::ThreadPool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap());
                    POOL.with(|p| p.install(|| ElementReader::new(src).par_map_reduce(|_| (), || (), |_, _| ())))
                }
                "index" => IndexedReader::new(src).and_then(|mut r| r.for_each_node(|_| ())),
                _ => IndexedReader::new(src).and_then(|mut r| r.read_ways_and_deps(|_| true, |_| ())),
            };
            if !fired.load(std::sync::atomic::Ordering::SeqCst) {
                // fewer calls
                c.redundant();
                return r.map_err(|e| Fail::from(format!("error on a valid file: {e}")));
            }
            c.observe(&(api, max, bound, what));
            c.state(&(api, max, bound, what));
            let e = match r {
                Ok(()) => return fail(format!("{}: the failure of the source at call {bound} is lost", apis[api])),
                Err(e) => e,
            };
            let k = err_kind(&e);
            let t = made(what).to_string();
            if k == "InvalidHeaderSize" {
                // documented: the size of a header could not be read
                return error_laws(e);
            }
            check!(e.to_string().contains(&t), "{}: text {e} does not tell {t:?}", apis[api]);
            check!(chain(&e).iter().any(|x| x.contains(&t)), "{}: the chain {:?} lacks {t:?}", apis[api], chain(&e));
            match bottom(e) {
                Ok(x) => is_made(&x, what)?,
                Err(k) => return fail(format!("{}: the failure of the source ({t}) becomes {k}", apis[api])),
            }
            // a second time for the laws
            let e = BlobReader::new(Failing::new(&f.bytes, bound, what, max)).find_map(|b| b.err());
            match e {
                Some(e) => error_laws(e),
                None => Ok(()),
            }
        },
    );

    // string table
    let bads: Vec<Vec<u8>> = vec![vec![0xFF], b"ab\xC3".to_vec(), b"\xE2\x82".to_vec(), b"abc\xED\xA0\x80".to_vec(), vec![0xC0, 0x80], b"0123456789\xF4\x90\x80\x80x".to_vec(), vec![b'x', 0x80, b'y']];
    let strs = scenario(
        "string table",
        format!("string tables of 1 to {} entries with {} kinds of bytes that are not UTF-8 at any place; every reference up to three beyond the end and at the limits of its type, as user of a node, way, relation and dense node and as role", if th { 12 } else { 6 }, bads.len()),
        move |c| {
            let n = 1 + c.choose("entries", if th { 12 } else { 6 });
            let at = c.choose("place of the bad entry", n + 1);
            let bad = if at < n { c.choose("bad bytes", bads.len()) } else { 0 };
            let mut table: Vec<Vec<u8>> = (0..n).map(|i| format!("s{i}").into_bytes()).collect();
            if at < n {
                table[at] = bads[bad].clone();
            }
            let who = c.choose("element", 5);
            let big = [i32::MAX as u32, 1 << 20, 0xFFFF];
            let r = c.choose("reference", n + 3 + big.len());
            let idx = if r < n + 3 { r as u32 } else { big[r - n - 3] };
            c.observe(&(n, at, bad, who, idx));
            c.state(&(n, at, bad, who, idx));
            let info = MInfo { user_sid: Some(idx), ..Default::default() };
            let mut g = MGroup::default();
            match who {
                0 => g.nodes.push(MNode { id: 1, info: Some(info), ..Default::default() }),
                1 => g.ways.push(MWay { info: Some(info), ..way(1, &[]) }),
                2 => g.rels.push(MRel { id: 1, info: Some(info), ..Default::default() }),
                3 => g.rels.push(MRel { id: 1, members: vec![(0, 5, idx as i32)], ..Default::default() }),
                _ => g.dense = Some(MDense { nodes: vec![MDNode { id: 1, info: MDInfo { user_sid: idx as i32, ..Default::default() }, ..Default::default() }], has_info: true, ..Default::default() }),
            }
            let b = MBlock { strings: table.clone(), groups: vec![g], ..Default::default() };
            let f = lay_out(vec![Seg::data(b)]);
            let blk = match BlobReader::new(&f.bytes[..]).next() {
                Some(Ok(b)) => match b.to_primitiveblock() {
                    Ok(b) => b,
                    Err(e) => return fail(format!("the block does not decode: {e}")),
                },
                _ => return fail("no blob"),
            };
            c.step();
            let own = |r: Result<&str>| r.map(|s| s.to_string());
            let got = match blk.elements().next() {
                Some(Element::Node(x)) => x.info().user().map(own),
                Some(Element::Way(x)) => x.info().user().map(own),
                Some(Element::Relation(x)) if who == 2 => x.info().user().map(own),
                Some(Element::Relation(x)) => x.members().next().map(|m| own(m.role())),
                Some(Element::DenseNode(x)) => x.info().map(|i| own(i.user())),
                None => None,
            };
            let got = match got {
                Some(g) => g,
                None => return fail("no string is reported"),
            };
            match (table.get(idx as usize).map(|v| std::str::from_utf8(v)), got) {
                (Some(Ok(w)), Ok(g)) => check_eq!(g, w, "string"),
                (Some(Ok(w)), Err(e)) => return fail(format!("error {e} for {w:?}")),
                (_, Ok(g)) => return fail(format!("string {g:?} although entry {idx} is missing or not UTF-8")),
                (Some(Err(w)), Err(e)) => {
                    match e.kind() {
                        ErrorKind::StringtableUtf8 { err, index } => {
                            check_eq!(*index, idx as usize, "index in the error");
                            check_eq!(*err, w, "UTF-8 error");
                        }
                        _ => return fail(format!("error {} for an entry that is not UTF-8", holds(&e))),
                    }
                    error_laws(e)?
                }
                (None, Err(e)) => {
                    match e.kind() {
                        ErrorKind::StringtableIndexOutOfBounds { index } => check_eq!(*index, idx as usize, "index in the error"),
                        _ => return fail(format!("error {} for a reference beyond the table", holds(&e))),
                    }
                    error_laws(e)?
                }
            }
            Ok(())
        },
    );

    // every other error, through every reader
    let mut damaged: Vec<(String, Vec<u8>)> = bad_segments().into_iter().map(|(n, b)| (n.to_string(), b)).collect();
    let whole = file.bytes.clone();
    for cut in 1..whole.len() {
        damaged.push((format!("cut after {cut} bytes"), whole[..cut].to_vec()));
    }
    for n in [0x10000u32, 0x10001, 0x20000, 0x7FFF_FFFF, u32::MAX] {
        damaged.push((format!("claimed header size {n}"), n.to_be_bytes().to_vec()));
    }
    let nd = damaged.len();
    let damaged = Arc::new(damaged);
    let other = scenario(
        "damaged files",
        format!("{nd} damaged files (every kind of damaged blob, a file of four blobs cut at every byte, header sizes beyond the limit), also behind a good blob, through every reader: the error obeys the laws; stream, indexed, parallel and mapped readers name the same size for the same limit"),
        move |c| {
            let k = c.choose("damage", damaged.len());
            let behind = c.flag("behind a good blob");
            let (name, bytes) = &damaged[k];
            c.note(|| name.clone());
            let mut b = vec![];
            if behind {
                b.extend(segment("OSMData", &one_node(3).encode(), Storage::Raw));
            }
            b.extend(bytes);
            let b = Arc::new(b);
            let mut sizes: Vec<(&str, String)> = vec![];
            let mut seen = 0;
            let mut law = |what: &'static str, e: Option<Error>| -> Res {
                if let Some(e) = e {
                    seen += 1;
                    let h = holds(&e);
                    if h.contains("TooBig") {
                        sizes.push((what, h));
                    }
                    if let ErrorKind::Protobuf { location, .. } = e.kind() {
                        check!(location.contains("blob"), "location {location:?}");
                    }
                    error_laws(e).map_err(|mut f| {
                        f.msg = format!("{what}, {name}: {}", f.msg);
                        f
                    })?;
                }
                Ok(())
            };
            c.steps(8);
            law("stream", BlobReader::new(&b[..]).find_map(|x| x.err()))?;
            law("decode", BlobReader::new(&b[..]).find_map(|x| x.ok().and_then(|x| x.decode().err())))?;
            law("to_headerblock", BlobReader::new(&b[..]).find_map(|x| x.ok().and_then(|x| x.to_headerblock().err())))?;
            law("to_primitiveblock", BlobReader::new(&b[..]).find_map(|x| x.ok().and_then(|x| x.to_primitiveblock().err())))?;
            let mut r = BlobReader::new_seekable(io::Cursor::new(&b[..])).map_err(|e| Fail::from(format!("{e}")))?;
            let mut first = None;
            while let Some(x) = r.next_header_skip_blob() {
                if let Err(e) = x {
                    first = Some(e);
                    break;
                }
            }
            law("skim", first)?;
            law("blob_from_offset", r.blob_from_offset(ByteOffset(0)).err())?;
            law("blob_from_offset at the end", r.blob_from_offset(ByteOffset(b.len() as u64)).err())?;
            law("elements", ElementReader::new(&b[..]).for_each(|_| ()).err())?;
            law("index", IndexedReader::new(io::Cursor::new(&b[..])).and_then(|mut r| r.for_each_node(|_| ())).err())?;
            if !b.is_empty() {
                let m = MemFile::new(&b);
                let map = m.mmap().map_err(Fail::from)?;
                law("mmap", map.blob_iter().find_map(|x| x.err()))?;
                for x in map.blob_iter().flatten() {
                    law("mmap decode", x.decode().err())?;
                }
            }
            for w in sizes.windows(2) {
                check_eq!(w[1].1, w[0].1, "size in the error of {} and {} ({name})", w[1].0, w[0].0);
            }
            c.observe(&(k, behind, seen));
            c.state(&(k, behind));
            Ok(())
        },
    );
    Property { id: "C25", scenarios: vec![conv, fails, strs, other], assumptions: vec![] }
}
