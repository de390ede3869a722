//! Whole files: bytes, layout and reference meaning; snapshots of what the readers report.

use osmpbf::*;
#[cfg(unix)]
use std::io::Write;
use std::sync::Arc;
use crate::enc::*;
use crate::model::*;
use crate::view::{self, View};

#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    Header(MHeader),
    Data(MBlock),
    Other(String, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub content: Content,
    pub st: Storage,
    pub order: u8,
    pub index: Option<Vec<u8>>,
}
impl Seg {
    pub fn data(b: MBlock) -> Seg {
        Seg { content: Content::Data(b), st: Storage::Raw, order: 0, index: None }
    }
    pub fn header(h: MHeader) -> Seg {
        Seg { content: Content::Header(h), st: Storage::Raw, order: 0, index: None }
    }
    pub fn other(n: &str, c: &[u8]) -> Seg {
        Seg { content: Content::Other(n.into(), c.to_vec()), st: Storage::Raw, order: 0, index: None }
    }
    pub fn st(mut self, st: Storage) -> Seg {
        self.st = st;
        self
    }
    pub fn index(mut self, n: usize) -> Seg {
        self.index = Some(vec![0xAB; n]);
        self
    }
    pub fn order(mut self, o: u8) -> Seg {
        self.order = o;
        self
    }
    pub fn ty(&self) -> &str {
        match &self.content {
            Content::Header(_) => "OSMHeader",
            Content::Data(_) => "OSMData",
            Content::Other(n, _) => n,
        }
    }
    pub fn is_data(&self) -> bool {
        matches!(self.content, Content::Data(_))
    }
}

/// A laid out file.
#[derive(Clone, Debug)]
pub struct Pbf {
    pub bytes: Arc<Vec<u8>>,
    pub segs: Vec<Seg>,
    /// start of each segment, then the file length
    pub off: Vec<usize>,
    /// size of each blob body
    pub size: Vec<usize>,
    pub hdr: Vec<usize>,
}

pub fn lay_out(segs: Vec<Seg>) -> Pbf {
    let mut b = vec![];
    let mut off = vec![0];
    let mut size = vec![];
    let mut hdr = vec![];
    for s in &segs {
        let c = match &s.content {
            Content::Header(h) => h.encode(),
            Content::Data(d) => d.encode(),
            Content::Other(_, c) => c.clone(),
        };
        let body = blob_msg(&c, s.st);
        let h = blob_header(s.ty(), s.index.as_deref(), body.len() as i64, s.order);
        size.push(body.len());
        hdr.push(h.len());
        b.extend(segment_raw(&h, &body));
        off.push(b.len());
    }
    Pbf { bytes: Arc::new(b), segs, off, size, hdr }
}

// ---- small standard contents --------------------------------------------------------------

/// strings: index 0 is reserved as empty
pub fn strings(v: &[&str]) -> Vec<Vec<u8>> {
    v.iter().map(|s| s.as_bytes().to_vec()).collect()
}

/// A block with one plain node: the cheapest distinguishable content.
pub fn one_node(id: i64) -> MBlock {
    MBlock {
        strings: strings(&[""]),
        groups: vec![MGroup {
            nodes: vec![MNode { id, lat: id.wrapping_mul(3), lon: -id, ..Default::default() }],
            ..Default::default()
        }],
        ..Default::default()
    }
}

pub fn dense_block(ids: &[i64]) -> MBlock {
    MBlock {
        strings: strings(&["", "k", "v"]),
        groups: vec![MGroup {
            dense: Some(MDense {
                nodes: ids
                    .iter()
                    .map(|i| MDNode {
                        id: *i,
                        lat: i.wrapping_add(7),
                        lon: i.wrapping_neg(),
                        tags: if i % 2 == 0 { vec![(1, 2)] } else { vec![] },
                        ..Default::default()
                    })
                    .collect(),
                ..Default::default()
            }),
            ..Default::default()
        }],
        ..Default::default()
    }
}

pub fn way(id: i64, refs: &[i64]) -> MWay {
    MWay { id, refs: refs.to_vec(), tags: vec![(1, 2)], ..Default::default() }
}

pub fn way_block(ways: Vec<MWay>) -> MBlock {
    MBlock {
        strings: strings(&["", "k", "v"]),
        groups: vec![MGroup { ways, ..Default::default() }],
        ..Default::default()
    }
}

pub fn rel_block(ids: &[i64]) -> MBlock {
    MBlock {
        strings: strings(&["", "k", "v", "outer"]),
        groups: vec![MGroup {
            rels: ids
                .iter()
                .map(|i| MRel { id: *i, members: vec![(0, i.wrapping_add(1), 3), (1, i.wrapping_sub(5), 1), (2, *i, 0)], ..Default::default() })
                .collect(),
            ..Default::default()
        }],
        ..Default::default()
    }
}

pub fn std_header() -> MHeader {
    MHeader {
        required: vec!["OsmSchema-V0.6".into(), "DenseNodes".into()],
        writingprogram: Some("w".into()),
        ..Default::default()
    }
}

/// A header with everything in it, features nobody knows included.
pub fn odd_header() -> MHeader {
    let v = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    MHeader {
        bbox: Some([-5, 1 << 40, 3, -(1 << 40)]),
        required: v(&["OsmSchema-V0.6", "HistoricalInformation", "LocationsOnWays", "Unheard-of", ""]),
        optional: v(&["Has_Metadata", "Sort.Type_then_ID", "Unheard-of", "LocationsOnWays"]),
        ..Default::default()
    }
}

// ---- snapshots ------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct HeadView {
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub program: Option<String>,
    pub source: Option<String>,
    pub ts: Option<i64>,
    pub seq: Option<i64>,
    pub url: Option<String>,
    /// bits of the four coordinates left, right, top, bottom
    pub bbox: Option<[u64; 4]>,
}

pub fn head_view(h: &HeaderBlock) -> HeadView {
    HeadView {
        required: h.required_features().to_vec(),
        optional: h.optional_features().to_vec(),
        program: h.writing_program().map(|s| s.to_string()),
        source: h.source().map(|s| s.to_string()),
        ts: h.osmosis_replication_timestamp(),
        seq: h.osmosis_replication_sequence_number(),
        url: h.osmosis_replication_base_url().map(|s| s.to_string()),
        bbox: h
            .bbox()
            .map(|b| [b.left.to_bits(), b.right.to_bits(), b.top.to_bits(), b.bottom.to_bits()]),
    }
}

pub fn head_matches(v: &HeadView, m: &MHeader) -> std::result::Result<(), String> {
    let e = |w: &str, a: &dyn std::fmt::Debug, b: &dyn std::fmt::Debug| {
        Err(format!("header {w}: got {a:?} expected {b:?}"))
    };
    if v.required != m.required {
        return e("required_features", &v.required, &m.required);
    }
    if v.optional != m.optional {
        return e("optional_features", &v.optional, &m.optional);
    }
    if v.program != m.writingprogram {
        return e("writing_program", &v.program, &m.writingprogram);
    }
    if v.source != m.source {
        return e("source", &v.source, &m.source);
    }
    if v.ts != m.repl_timestamp {
        return e("replication timestamp", &v.ts, &m.repl_timestamp);
    }
    if v.seq != m.repl_seq {
        return e("replication sequence number", &v.seq, &m.repl_seq);
    }
    if v.url != m.repl_url {
        return e("replication base url", &v.url, &m.repl_url);
    }
    match (&v.bbox, &m.bbox) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            for i in 0..4 {
                if !view::deg_ok(f64::from_bits(a[i]), b[i]) {
                    return Err(format!(
                        "header bbox {}: got {} expected {}e-9",
                        ["left", "right", "top", "bottom"][i],
                        f64::from_bits(a[i]),
                        b[i]
                    ));
                }
            }
        }
        _ => return e("bbox", &v.bbox, &m.bbox),
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Dec {
    Header(HeadView),
    Data(Vec<Vec<View>>),
    Unknown(String),
    Err(String),
}

pub fn dec_of(r: Result<BlobDecode>) -> Dec {
    match r {
        Ok(BlobDecode::OsmHeader(h)) => Dec::Header(head_view(&h)),
        Ok(BlobDecode::OsmData(b)) => Dec::Data(view::block_by_group(&b)),
        Ok(BlobDecode::Unknown(n)) => Dec::Unknown(n.to_string()),
        Err(e) => Dec::Err(view::err_kind(&e).to_string()),
    }
}

pub fn dec_matches(d: &Dec, c: &Content) -> std::result::Result<(), String> {
    match (d, c) {
        (Dec::Header(h), Content::Header(m)) => head_matches(h, m),
        (Dec::Data(v), Content::Data(m)) => {
            let want = m.views_by_group();
            if *v != want {
                Err(views_diff(&v.concat(), &want.concat()))
            } else {
                Ok(())
            }
        }
        (Dec::Unknown(n), Content::Other(m, _)) if n == m => Ok(()),
        _ => Err(format!(
            "decoded {} expected {}",
            crate::engine::trunc(&format!("{d:?}")),
            crate::engine::trunc(&format!("{c:?}"))
        )),
    }
}

pub fn views_diff(got: &[View], want: &[View]) -> String {
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        if a != b {
            let t = crate::engine::trunc;
            return format!("element {i}: got {} expected {}", t(&format!("{a:?}")), t(&format!("{b:?}")));
        }
    }
    format!("got {} elements, expected {}", got.len(), want.len())
}

pub fn ty_name(t: &BlobType) -> String {
    match t {
        BlobType::OsmHeader => "<OSMHeader>".into(),
        BlobType::OsmData => "<OSMData>".into(),
        BlobType::Unknown(x) => format!("unknown:{x}"),
    }
}
pub fn want_ty(s: &Seg) -> String {
    match &s.content {
        Content::Header(_) => "<OSMHeader>".into(),
        Content::Data(_) => "<OSMData>".into(),
        Content::Other(n, _) => format!("unknown:{n}"),
    }
}

/// Compare a blob delivered by a reader with segment `s` starting at `off`.
pub fn blob_matches(b: &Blob, s: &Seg, off: Option<Option<u64>>) -> std::result::Result<(), String> {
    if ty_name(&b.get_type()) != want_ty(s) {
        return Err(format!("blob type {:?}, expected {}", b.get_type(), want_ty(s)));
    }
    if let Some(want) = off {
        let got = b.offset().map(|o| o.0);
        if got != want {
            return Err(format!("blob offset {got:?}, expected {want:?}"));
        }
    }
    dec_matches(&dec_of(b.decode()), &s.content)
}

/// A real file in memory (for the path and mmap interfaces).
pub struct MemFile {
    pub f: std::fs::File,
}
#[cfg(all(unix, not(miri)))]
extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
}
#[cfg(all(unix, not(miri)))]
impl MemFile {
    pub fn new(b: &[u8]) -> MemFile {
        use std::os::fd::FromRawFd;
        let fd = unsafe { memfd_create(b"pbf\0".as_ptr(), 1) };
        assert!(fd >= 0, "memfd_create");
        let mut f = unsafe { std::fs::File::from_raw_fd(fd) };
        f.write_all(b).expect("write memfd");
        use std::io::Seek;
        f.rewind().expect("rewind memfd");
        MemFile { f }
    }
    /// A file of the given length that is zero outside the extents (cut at the length).
    pub fn sparse(ext: &[(u64, Vec<u8>)], len: u64) -> MemFile {
        use std::os::unix::fs::FileExt;
        let m = MemFile::new(&[]);
        for (o, d) in ext {
            m.f.write_all_at(d, *o).expect("write memfd");
        }
        m.f.set_len(len).expect("size of memfd");
        m
    }
    pub fn path(&self) -> String {
        use std::os::fd::AsRawFd;
        format!("/proc/self/fd/{}", self.f.as_raw_fd())
    }
    pub fn mmap(&self) -> std::result::Result<Mmap, String> {
        unsafe { Mmap::from_file(&self.f) }.map_err(|e| format!("mmap: {e}"))
    }
}

/// what an execution ends with that needs a file on a machine without
pub const NO_FILES: &str = "harness: no files here";
#[cfg(not(all(unix, not(miri))))]
impl MemFile {
    pub fn new(_: &[u8]) -> MemFile {
        panic!("{}", NO_FILES)
    }
    pub fn sparse(_: &[(u64, Vec<u8>)], _: u64) -> MemFile {
        panic!("{}", NO_FILES)
    }
    pub fn path(&self) -> String {
        panic!("{}", NO_FILES)
    }
    pub fn mmap(&self) -> std::result::Result<Mmap, String> {
        panic!("{}", NO_FILES)
    }
}

pub fn bad_segments() -> Vec<(&'static str, Vec<u8>)> {
    let good = one_node(1).encode();
    let raw = |ty: &str, body: &[u8]| segment_raw(&blob_header(ty, None, body.len() as i64, 0), body);
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    v.push(("data blob without content", raw("OSMData", &[])));
    v.push(("header blob without content", raw("OSMHeader", &[])));
    v.push(("raw content is garbage", segment("OSMData", &[0xFF; 9], Storage::Raw)));
    v.push(("raw content lacks the string table", segment("OSMData", &[], Storage::Raw)));
    v.push(("header content is garbage", segment("OSMHeader", &[0xFF; 9], Storage::Raw)));
    let mut w = W::new();
    w.int(2, good.len() as i64);
    w.bytes(3, b"not zlib at all");
    v.push(("zlib data is garbage", raw("OSMData", &w.0)));
    let z = zlib(&good, 6);
    let mut w = W::new();
    w.bytes(3, &z[..z.len() - 5]);
    v.push(("zlib data is cut", raw("OSMData", &w.0)));
    let mut zz = z.clone();
    let l = zz.len();
    zz[l - 1] ^= 1;
    let mut w = W::new();
    w.bytes(3, &zz);
    v.push(("zlib checksum is wrong", raw("OSMData", &w.0)));
    for (n, f) in [("lzma", 4), ("bzip2", 5), ("lz4", 6), ("zstd", 7)] {
        let mut w = W::new();
        w.int(2, good.len() as i64);
        w.bytes(f, b"compressed");
        v.push((n, raw("OSMData", &w.0)));
    }
    v.push(("blob body is garbage", raw("OSMData", &[0xFF; 5])));
    v.push(("blob header is garbage", {
        let mut x = 5u32.to_be_bytes().to_vec();
        x.extend([0xFF; 5]);
        x
    }));
    v.push(("blob header too large", 0x10000u32.to_be_bytes().to_vec()));
    let mut h = W::new();
    h.bytes(1, b"OSMData");
    v.push(("header lacks datasize", segment_raw(&h.0, &[])));
    let mut h = W::new();
    h.int(3, 4);
    v.push(("header lacks type", segment_raw(&h.0, &[10, 2, 1, 1])));
    v.push(("negative datasize", segment_raw(&blob_header("OSMData", None, -1, 0), &[])));
    v.push(("dense ids are garbage", {
        let mut d = W::new();
        d.bytes(1, &[0x80, 0x80]);
        let mut g = W::new();
        g.bytes(2, &d.0);
        let mut b = W::new();
        b.bytes(1, &[]);
        b.bytes(2, &g.0);
        segment("OSMData", &b.0, Storage::Raw)
    }));
    v
}

// ---- one element of every sort --------------------------------------------------------------

/// Every combination of kind, id, place, metadata, tags, references and members over small sets
/// which hold the values somebody could give a meaning of their own: 0, -1, missing, deleted.
/// The strings are those of `sorts_block`.
pub struct Sorts {
    infos: Vec<Option<MInfo>>,
    dinfos: Vec<(bool, bool, MDInfo)>,
}
const SORT_IDS: [i64; 4] = [0, 1, -1, 1 << 33];
const SORT_PLACES: [(i64, i64); 5] = [(0, 0), (5, -7), (0, 3), (900_000_000, 1_800_000_000), (i32::MAX as i64, i32::MAX as i64)];
const SORT_TAGS: [&[(u32, u32)]; 8] = [&[], &[(1, 2)], &[(1, 0)], &[(1, 2), (1, 2)], &[(1, 2), (1, 3)], &[(1, 3), (1, 2)], &[(2, 1), (1, 2)], &[(3, 3), (3, 0), (1, 2)]];
const SORT_REFS: [&[i64]; 8] = [&[], &[0], &[1], &[1, 1], &[1, 0, 1], &[-1, 1 << 33], &[5, 3, 1, 0, -1], &[2, 2, 2]];
const SORT_MEMBERS: [&[(u8, i64, i32)]; 7] =
    [&[], &[(0, 0, 0)], &[(1, 1, 3)], &[(2, 1, 3)], &[(0, 1, 3), (0, 1, 3)], &[(0, 1, 1), (1, 1, 1), (2, 1, 1)], &[(2, -1, 0), (1, 1 << 33, 3), (0, 0, 2)]];
impl Default for Sorts {
    fn default() -> Sorts {
        let mut infos = vec![None];
        let mut dinfos = vec![(false, false, MDInfo { visible: true, ..Default::default() })];
        for v in [None, Some(0), Some(1)] {
            for visible in [None, Some(true), Some(false)] {
                for o in [None, Some(0), Some(7)] {
                    infos.push(Some(MInfo {
                        version: v,
                        visible,
                        timestamp: o.map(|x| x as i64),
                        changeset: o.map(|x| x as i64),
                        uid: o,
                        user_sid: o.map(|x| (x / 3) as u32),
                    }));
                }
            }
        }
        for version in [0, 1, -1] {
            for visible in [None, Some(true), Some(false)] {
                for o in [0, 7] {
                    dinfos.push((
                        true,
                        visible.is_some(),
                        MDInfo { version, timestamp: o as i64, changeset: o as i64, uid: o, user_sid: o / 3, visible: visible.unwrap_or(true) },
                    ));
                }
            }
        }
        Sorts { infos, dinfos }
    }
}
impl Sorts {
    pub fn nodes(&self) -> usize {
        SORT_IDS.len() * SORT_PLACES.len() * SORT_TAGS.len() * self.infos.len()
    }
    pub fn dense(&self) -> usize {
        SORT_IDS.len() * SORT_PLACES.len() * SORT_TAGS.len() * self.dinfos.len()
    }
    pub fn ways(&self) -> usize {
        SORT_IDS.len() * SORT_REFS.len() * 2 * SORT_TAGS.len() * self.infos.len()
    }
    pub fn rels(&self) -> usize {
        SORT_IDS.len() * SORT_MEMBERS.len() * SORT_TAGS.len() * self.infos.len()
    }
    pub fn len(&self) -> usize {
        self.nodes() + self.dense() + self.ways() + self.rels()
    }
    pub fn is_empty(&self) -> bool {
        false
    }
    /// A group with the i-th element alone.
    pub fn get(&self, k: usize) -> MGroup {
        let (n, d, w) = (self.nodes(), self.dense(), self.ways());
        let (kind, mut k) = if k < n {
            (0, k)
        } else if k < n + d {
            (1, k - n)
        } else if k < n + d + w {
            (2, k - n - d)
        } else {
            (3, k - n - d - w)
        };
        let mut pick = |n: usize| {
            let r = k % n;
            k /= n;
            r
        };
        let id = SORT_IDS[pick(SORT_IDS.len())];
        let tags = SORT_TAGS[pick(SORT_TAGS.len())].to_vec();
        let mut g = MGroup::default();
        match kind {
            0 => {
                let (lat, lon) = SORT_PLACES[pick(SORT_PLACES.len())];
                g.nodes = vec![MNode { id, lat, lon, tags, info: self.infos[pick(self.infos.len())].clone() }];
            }
            1 => {
                let (lat, lon) = SORT_PLACES[pick(SORT_PLACES.len())];
                let (has_info, has_visible, info) = self.dinfos[pick(self.dinfos.len())].clone();
                let tags = tags.iter().map(|t| (t.0 as i32, t.1 as i32)).collect();
                g.dense = Some(MDense { nodes: vec![MDNode { id, lat, lon, tags, info }], has_info, has_visible, omit_keys_vals: false });
            }
            2 => {
                let refs = SORT_REFS[pick(SORT_REFS.len())].to_vec();
                let locs = if pick(2) == 1 { Some(refs.iter().enumerate().map(|(k, r)| (if k % 2 == 0 { 0 } else { *r }, -r)).collect()) } else { None };
                g.ways = vec![MWay { id, tags, refs, locs, info: self.infos[pick(self.infos.len())].clone() }];
            }
            _ => {
                let members = SORT_MEMBERS[pick(SORT_MEMBERS.len())].to_vec();
                g.rels = vec![MRel { id, tags, members, info: self.infos[pick(self.infos.len())].clone() }];
            }
        }
        g
    }
}
/// `zero`: the string table does not begin with an empty string.
pub fn sorts_block(groups: Vec<MGroup>, zero: bool) -> MBlock {
    MBlock { strings: strings(&[if zero { "zero" } else { "" }, "k", "v", "outer"]), groups, ..Default::default() }
}

/// A file of `n` small blobs. 0: a node in each, in the last a way that refers to some of them;
/// 1: the way first; 2: blobs of unknown types between a few with nodes.
pub fn many_blobs(n: usize, kind: usize) -> Pbf {
    let far = n as i64 - 2;
    let w = Seg::data(way_block(vec![way(n as i64 + 5, &[1, 255, 256, 32_768, 65_534, 65_535, 65_536, 65_537, far, 2, -4])]));
    let mut segs: Vec<Seg> = (1..n)
        .map(|i| match kind {
            2 if ![1, 2, 3, 255, 256, 32_768, 65_534, 65_535, 65_536, 65_537, n - 2].contains(&i) => Seg::other("X", &[i as u8; 3][..i % 4]),
            _ => Seg::data(one_node(i as i64)),
        })
        .collect();
    segs.insert(if kind == 1 { 0 } else { n - 1 }, w);
    lay_out(segs)
}
