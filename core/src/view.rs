//! A complete, comparable snapshot of everything the public API says about an element.

use osmpbf::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Node,
    Dense,
    Way,
    Relation,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum StrView {
    Ok(String),
    OutOfBounds,
    BadUtf8(usize),
    OtherError,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Coord {
    pub nano: (i64, i64),
    pub decimicro: (i32, i32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct InfoView {
    pub present: bool,
    pub version: Option<i64>,
    pub milli_timestamp: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i64>,
    pub user: Option<StrView>,
    pub visible: bool,
}
impl InfoView {
    pub fn absent() -> InfoView {
        InfoView {
            present: false,
            version: None,
            milli_timestamp: None,
            changeset: None,
            uid: None,
            user: None,
            visible: true,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MemberView {
    pub ty: u8,
    pub id: i64,
    pub role_sid: i32,
    pub role: StrView,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct View {
    pub kind: Kind,
    pub id: i64,
    pub coord: Option<Coord>,
    pub tags: Vec<(String, String)>,
    pub raw_tags: Vec<(i64, i64)>,
    pub info: InfoView,
    pub refs: Vec<i64>,
    pub raw_refs: Vec<i64>,
    pub locs: Vec<Coord>,
    pub members: Vec<MemberView>,
    /// internal disagreements found while taking the snapshot (must be empty)
    pub flaws: Vec<String>,
}

impl View {
    pub fn empty(kind: Kind) -> View {
        View {
            kind,
            id: 0,
            coord: None,
            tags: vec![],
            raw_tags: vec![],
            info: InfoView::absent(),
            refs: vec![],
            raw_refs: vec![],
            locs: vec![],
            members: vec![],
            flaws: vec![],
        }
    }
}

pub fn sres(r: Result<&str>) -> StrView {
    match r {
        Ok(s) => StrView::Ok(s.to_string()),
        Err(e) => match e.kind() {
            ErrorKind::StringtableIndexOutOfBounds { .. } => StrView::OutOfBounds,
            ErrorKind::StringtableUtf8 { index, .. } => StrView::BadUtf8(*index),
            _ => StrView::OtherError,
        },
    }
}

pub fn deg_ok(deg: f64, nano: i64) -> bool {
    let want = nano as f64 / 1e9;
    (deg - want).abs() <= f64::max(1e-10, want.abs() * 1e-14)
}

/// Decimicrodegrees are only specified where they fit the result type.
pub fn deci_fits(nano: i64) -> bool {
    i32::try_from(nano / 100).is_ok()
}
/// The reference: nanodegrees / 100, truncated towards zero; 0 stands for "not specified".
pub fn deci(nano: i64) -> i32 {
    i32::try_from(nano / 100).unwrap_or(0)
}

macro_rules! coord {
    ($e:expr, $flaws:expr) => {{
        let (la, lo) = ($e.nano_lat(), $e.nano_lon());
        let (dla, dlo) = ($e.decimicro_lat(), $e.decimicro_lon());
        let c = Coord {
            nano: (la, lo),
            decimicro: (if deci_fits(la) { dla } else { 0 }, if deci_fits(lo) { dlo } else { 0 }),
        };
        if !deg_ok($e.lat(), c.nano.0) {
            $flaws.push(format!("lat() {} vs nano_lat() {}", $e.lat(), c.nano.0));
        }
        if !deg_ok($e.lon(), c.nano.1) {
            $flaws.push(format!("lon() {} vs nano_lon() {}", $e.lon(), c.nano.1));
        }
        c
    }};
}

fn info_view(i: &Info, flaws: &mut Vec<String>) -> InfoView {
    if i.deleted() == i.visible() {
        flaws.push("deleted() == visible()".into());
    }
    InfoView {
        present: true,
        version: i.version().map(|x| x as i64),
        milli_timestamp: i.milli_timestamp(),
        changeset: i.changeset(),
        uid: i.uid().map(|x| x as i64),
        user: i.user().map(sres),
        visible: i.visible(),
    }
}

pub fn node(n: &Node) -> View {
    let mut flaws = vec![];
    let mut v = View::empty(Kind::Node);
    v.id = n.id();
    v.coord = Some(coord!(n, flaws));
    v.tags = n.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.raw_tags = n.raw_tags().map(|(a, b)| (a as i64, b as i64)).collect();
    v.info = info_view(&n.info(), &mut flaws);
    v.flaws = flaws;
    v
}

pub fn dense(n: &DenseNode) -> View {
    let mut flaws = vec![];
    let mut v = View::empty(Kind::Dense);
    v.id = n.id();
    if n.id != n.id() {
        flaws.push("DenseNode id field vs id()".into());
    }
    v.coord = Some(coord!(n, flaws));
    v.tags = n.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.raw_tags = n.raw_tags().map(|(a, b)| (a as i64, b as i64)).collect();
    v.info = match n.info() {
        None => InfoView::absent(),
        Some(i) => {
            if i.deleted() == i.visible() {
                flaws.push("deleted() == visible()".into());
            }
            InfoView {
                present: true,
                version: Some(i.version() as i64),
                milli_timestamp: Some(i.milli_timestamp()),
                changeset: Some(i.changeset()),
                uid: Some(i.uid() as i64),
                user: Some(sres(i.user())),
                visible: i.visible(),
            }
        }
    };
    v.flaws = flaws;
    v
}

pub fn way(w: &Way) -> View {
    let mut flaws = vec![];
    let mut v = View::empty(Kind::Way);
    v.id = w.id();
    v.tags = w.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.raw_tags = w.raw_tags().map(|(a, b)| (a as i64, b as i64)).collect();
    v.info = info_view(&w.info(), &mut flaws);
    v.refs = w.refs().collect();
    v.raw_refs = w.raw_refs().to_vec();
    v.locs = w.node_locations().map(|l| coord!(l, flaws)).collect();
    v.flaws = flaws;
    v
}

pub fn relation(r: &Relation) -> View {
    let mut flaws = vec![];
    let mut v = View::empty(Kind::Relation);
    v.id = r.id();
    v.tags = r.tags().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.raw_tags = r.raw_tags().map(|(a, b)| (a as i64, b as i64)).collect();
    v.info = info_view(&r.info(), &mut flaws);
    v.members = r
        .members()
        .map(|m| MemberView {
            ty: match m.member_type {
                RelMemberType::Node => 0,
                RelMemberType::Way => 1,
                RelMemberType::Relation => 2,
            },
            id: m.member_id,
            role_sid: m.role_sid,
            role: sres(m.role()),
        })
        .collect();
    v.flaws = flaws;
    v
}

pub fn element(e: &Element) -> View {
    match e {
        Element::Node(n) => node(n),
        Element::DenseNode(n) => dense(n),
        Element::Way(w) => way(w),
        Element::Relation(r) => relation(r),
    }
}

/// All elements of a block through the `groups()` interface, per group in the order
/// node, dense, way, relation.
pub fn block_by_group(b: &PrimitiveBlock) -> Vec<Vec<View>> {
    b.groups()
        .map(|g| {
            let mut v = vec![];
            v.extend(g.nodes().map(|n| node(&n)));
            v.extend(g.dense_nodes().map(|n| dense(&n)));
            v.extend(g.ways().map(|n| way(&n)));
            v.extend(g.relations().map(|n| relation(&n)));
            v
        })
        .collect()
}

/// Compact classification of an error, for comparison with documented kinds.
pub fn err_kind(e: &Error) -> &'static str {
    match e.kind() {
        ErrorKind::Io(_) => "Io",
        ErrorKind::Protobuf { .. } => "Protobuf",
        ErrorKind::StringtableUtf8 { .. } => "StringtableUtf8",
        ErrorKind::StringtableIndexOutOfBounds { .. } => "StringtableIndexOutOfBounds",
        ErrorKind::Blob(b) => match b {
            BlobError::InvalidHeaderSize => "InvalidHeaderSize",
            BlobError::HeaderTooBig { .. } => "HeaderTooBig",
            BlobError::MessageTooBig { .. } => "MessageTooBig",
            BlobError::Empty => "Empty",
            _ => "OtherBlob",
        },
        _ => "Other",
    }
}
