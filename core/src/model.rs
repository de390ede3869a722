//! Abstract OSM data, its PBF encoding and its *reference* meaning (the expected `View`s).
//! The meaning is computed from the abstract values, never by decoding bytes.

use crate::enc::*;
use crate::view::*;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MInfo {
    pub version: Option<i32>,
    pub timestamp: Option<i64>,
    pub changeset: Option<i64>,
    pub uid: Option<i32>,
    pub user_sid: Option<u32>,
    pub visible: Option<bool>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MNode {
    pub id: i64,
    pub lat: i64,
    pub lon: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<MInfo>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MDInfo {
    pub version: i32,
    pub timestamp: i64,
    pub changeset: i64,
    pub uid: i32,
    pub user_sid: i32,
    pub visible: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MDNode {
    pub id: i64,
    pub lat: i64,
    pub lon: i64,
    pub tags: Vec<(i32, i32)>,
    pub info: MDInfo,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MDense {
    pub nodes: Vec<MDNode>,
    /// write the DenseInfo message
    pub has_info: bool,
    /// write the `visible` column
    pub has_visible: bool,
    /// omit keys_vals altogether (only legal if no node has tags)
    pub omit_keys_vals: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MWay {
    pub id: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<MInfo>,
    pub refs: Vec<i64>,
    pub locs: Option<Vec<(i64, i64)>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MRel {
    pub id: i64,
    pub tags: Vec<(u32, u32)>,
    pub info: Option<MInfo>,
    /// (type 0/1/2, member id, role string index)
    pub members: Vec<(u8, i64, i32)>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MGroup {
    pub nodes: Vec<MNode>,
    pub dense: Option<MDense>,
    pub ways: Vec<MWay>,
    pub rels: Vec<MRel>,
    pub changesets: Vec<i64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MBlock {
    pub strings: Vec<Vec<u8>>,
    pub groups: Vec<MGroup>,
    pub granularity: Option<i32>,
    pub lat_offset: Option<i64>,
    pub lon_offset: Option<i64>,
    pub date_granularity: Option<i32>,
}

/// Legal variations of the wire encoding that must not change the meaning.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct EncOpt {
    pub packed: bool,
    /// emit the fields of every message in reverse order
    pub reverse: bool,
    /// sprinkle unknown fields
    pub unknown: bool,
}

impl Default for EncOpt {
    fn default() -> Self {
        EncOpt { packed: true, reverse: false, unknown: false }
    }
}

/// Collects the fields of one message so that their order can be permuted.
struct Msg {
    parts: Vec<Vec<u8>>,
    o: EncOpt,
}
impl Msg {
    fn new(o: EncOpt) -> Msg {
        Msg { parts: vec![], o }
    }
    fn f(&mut self, g: impl FnOnce(&mut W)) {
        let mut w = W::new();
        g(&mut w);
        if !w.0.is_empty() {
            self.parts.push(w.0);
        }
    }
    fn done(mut self) -> Vec<u8> {
        if self.o.unknown {
            // unknown varint, length-delimited, fixed32 and fixed64 fields, far from known numbers
            let mut w = W::new();
            w.uint(900, 77);
            self.parts.insert(0, w.0);
            let mut w = W::new();
            w.bytes(901, b"zz");
            let mid = self.parts.len() / 2;
            self.parts.insert(mid, w.0);
            let mut w = W::new();
            w.tag(902, 5);
            w.0.extend_from_slice(&[1, 2, 3, 4]);
            w.tag(903, 1);
            w.0.extend_from_slice(&[1, 2, 3, 4, 5, 6, 7, 8]);
            self.parts.push(w.0);
        }
        if self.o.reverse {
            self.parts.reverse();
        }
        self.parts.concat()
    }
}

fn deltas(v: impl IntoIterator<Item = i64>) -> Vec<u64> {
    let mut last = 0i64;
    v.into_iter()
        .map(|x| {
            let d = x.wrapping_sub(last);
            last = x;
            zz(d)
        })
        .collect()
}
fn deltas32(v: impl IntoIterator<Item = i32>) -> Vec<u64> {
    let mut last = 0i32;
    v.into_iter()
        .map(|x| {
            let d = x.wrapping_sub(last);
            last = x;
            zz32(d)
        })
        .collect()
}

fn enc_info(i: &MInfo, o: EncOpt) -> Vec<u8> {
    let mut m = Msg::new(o);
    if let Some(v) = i.version {
        m.f(|w| w.int(1, v as i64))
    }
    if let Some(v) = i.timestamp {
        m.f(|w| w.int(2, v))
    }
    if let Some(v) = i.changeset {
        m.f(|w| w.int(3, v))
    }
    if let Some(v) = i.uid {
        m.f(|w| w.int(4, v as i64))
    }
    if let Some(v) = i.user_sid {
        m.f(|w| w.uint(5, v as u64))
    }
    if let Some(v) = i.visible {
        m.f(|w| w.uint(6, v as u64))
    }
    m.done()
}

fn enc_tags(m: &mut Msg, tags: &[(u32, u32)]) {
    let p = m.o.packed;
    let k: Vec<u64> = tags.iter().map(|t| t.0 as u64).collect();
    let v: Vec<u64> = tags.iter().map(|t| t.1 as u64).collect();
    m.f(|w| w.repeated(2, &k, p));
    m.f(|w| w.repeated(3, &v, p));
}

pub fn enc_node(n: &MNode, o: EncOpt) -> Vec<u8> {
    let mut m = Msg::new(o);
    m.f(|w| w.sint(1, n.id));
    enc_tags(&mut m, &n.tags);
    if let Some(i) = &n.info {
        m.f(|w| w.bytes(4, &enc_info(i, o)));
    }
    m.f(|w| w.sint(8, n.lat));
    m.f(|w| w.sint(9, n.lon));
    m.done()
}

pub fn enc_dense(d: &MDense, o: EncOpt) -> Vec<u8> {
    let p = o.packed;
    let mut m = Msg::new(o);
    m.f(|w| w.repeated(1, &deltas(d.nodes.iter().map(|n| n.id)), p));
    if d.has_info {
        let mut i = Msg::new(o);
        let v: Vec<u64> = d.nodes.iter().map(|n| n.info.version as i64 as u64).collect();
        i.f(|w| w.repeated(1, &v, p));
        i.f(|w| w.repeated(2, &deltas(d.nodes.iter().map(|n| n.info.timestamp)), p));
        i.f(|w| w.repeated(3, &deltas(d.nodes.iter().map(|n| n.info.changeset)), p));
        i.f(|w| w.repeated(4, &deltas32(d.nodes.iter().map(|n| n.info.uid)), p));
        i.f(|w| w.repeated(5, &deltas32(d.nodes.iter().map(|n| n.info.user_sid)), p));
        if d.has_visible {
            let v: Vec<u64> = d.nodes.iter().map(|n| n.info.visible as u64).collect();
            i.f(|w| w.repeated(6, &v, p));
        }
        let b = i.done();
        m.f(|w| w.bytes(5, &b));
    }
    m.f(|w| w.repeated(8, &deltas(d.nodes.iter().map(|n| n.lat)), p));
    m.f(|w| w.repeated(9, &deltas(d.nodes.iter().map(|n| n.lon)), p));
    if !d.omit_keys_vals {
        let mut kv = vec![];
        for n in &d.nodes {
            for t in &n.tags {
                kv.push(t.0 as i64 as u64);
                kv.push(t.1 as i64 as u64);
            }
            kv.push(0);
        }
        m.f(|w| w.repeated(10, &kv, p));
    }
    m.done()
}

pub fn enc_way(x: &MWay, o: EncOpt) -> Vec<u8> {
    let mut m = Msg::new(o);
    let p = o.packed;
    m.f(|w| w.int(1, x.id));
    enc_tags(&mut m, &x.tags);
    if let Some(i) = &x.info {
        m.f(|w| w.bytes(4, &enc_info(i, o)));
    }
    m.f(|w| w.repeated(8, &deltas(x.refs.iter().copied()), p));
    if let Some(l) = &x.locs {
        m.f(|w| w.repeated(9, &deltas(l.iter().map(|c| c.0)), p));
        m.f(|w| w.repeated(10, &deltas(l.iter().map(|c| c.1)), p));
    }
    m.done()
}

pub fn enc_rel(x: &MRel, o: EncOpt) -> Vec<u8> {
    let mut m = Msg::new(o);
    let p = o.packed;
    m.f(|w| w.int(1, x.id));
    enc_tags(&mut m, &x.tags);
    if let Some(i) = &x.info {
        m.f(|w| w.bytes(4, &enc_info(i, o)));
    }
    let roles: Vec<u64> = x.members.iter().map(|t| t.2 as i64 as u64).collect();
    m.f(|w| w.repeated(8, &roles, p));
    m.f(|w| w.repeated(9, &deltas(x.members.iter().map(|t| t.1)), p));
    let types: Vec<u64> = x.members.iter().map(|t| t.0 as u64).collect();
    m.f(|w| w.repeated(10, &types, p));
    m.done()
}

pub fn enc_group(g: &MGroup, o: EncOpt) -> Vec<u8> {
    // Repeated sub-messages keep their relative order, only the fields are permuted.
    let mut m = Msg::new(o);
    m.f(|w| g.nodes.iter().for_each(|n| w.bytes(1, &enc_node(n, o))));
    if let Some(d) = &g.dense {
        m.f(|w| w.bytes(2, &enc_dense(d, o)));
    }
    m.f(|w| g.ways.iter().for_each(|n| w.bytes(3, &enc_way(n, o))));
    m.f(|w| g.rels.iter().for_each(|n| w.bytes(4, &enc_rel(n, o))));
    m.f(|w| {
        g.changesets.iter().for_each(|c| {
            let mut x = W::new();
            x.int(1, *c);
            w.bytes(5, &x.0)
        })
    });
    m.done()
}

impl MBlock {
    pub fn encode_with(&self, o: EncOpt) -> Vec<u8> {
        let mut m = Msg::new(o);
        let mut st = W::new();
        for s in &self.strings {
            st.bytes(1, s);
        }
        m.f(|w| w.bytes(1, &st.0));
        m.f(|w| self.groups.iter().for_each(|g| w.bytes(2, &enc_group(g, o))));
        if let Some(g) = self.granularity {
            m.f(|w| w.int(17, g as i64));
        }
        if let Some(g) = self.date_granularity {
            m.f(|w| w.int(18, g as i64));
        }
        if let Some(g) = self.lat_offset {
            m.f(|w| w.int(19, g));
        }
        if let Some(g) = self.lon_offset {
            m.f(|w| w.int(20, g));
        }
        m.done()
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_with(EncOpt::default())
    }

    fn s(&self, i: i64) -> Option<String> {
        if i < 0 {
            return None;
        }
        self.strings
            .get(i as usize)
            .and_then(|b| String::from_utf8(b.clone()).ok())
    }
    fn sres(&self, i: i64) -> StrView {
        if i < 0 || i as usize >= self.strings.len() {
            return StrView::OutOfBounds;
        }
        match self.s(i) {
            Some(s) => StrView::Ok(s),
            None => StrView::BadUtf8(i as usize),
        }
    }
    fn lat(&self, raw: i64) -> i64 {
        (self.lat_offset.unwrap_or(0) as i128 + self.granularity.unwrap_or(100) as i128 * raw as i128)
            as i64
    }
    fn lon(&self, raw: i64) -> i64 {
        (self.lon_offset.unwrap_or(0) as i128 + self.granularity.unwrap_or(100) as i128 * raw as i128)
            as i64
    }
    fn ts(&self, raw: i64) -> i64 {
        (self.date_granularity.unwrap_or(1000) as i128 * raw as i128) as i64
    }
    fn coord(&self, lat: i64, lon: i64) -> Coord {
        let (la, lo) = (self.lat(lat), self.lon(lon));
        Coord { nano: (la, lo), decimicro: (deci(la), deci(lo)) }
    }
    /// Tags are reported up to the first one whose key or value cannot be resolved.
    fn tags(&self, t: impl Iterator<Item = (i64, i64)>) -> Vec<(String, String)> {
        let mut v = vec![];
        for (k, x) in t {
            match (self.s(k), self.s(x)) {
                (Some(k), Some(x)) => v.push((k, x)),
                _ => break,
            }
        }
        v
    }
    fn info(&self, i: &Option<MInfo>) -> InfoView {
        let d = MInfo::default();
        let i = i.as_ref().unwrap_or(&d);
        InfoView {
            present: true,
            version: i.version.map(|x| x as i64),
            milli_timestamp: i.timestamp.map(|t| self.ts(t)),
            changeset: i.changeset,
            uid: i.uid.map(|x| x as i64),
            user: i.user_sid.map(|s| self.sres(s as i64)),
            visible: i.visible.unwrap_or(true),
        }
    }

    pub fn node_view(&self, n: &MNode) -> View {
        View {
            kind: Kind::Node,
            id: n.id,
            coord: Some(self.coord(n.lat, n.lon)),
            tags: self.tags(n.tags.iter().map(|t| (t.0 as i64, t.1 as i64))),
            raw_tags: n.tags.iter().map(|t| (t.0 as i64, t.1 as i64)).collect(),
            info: self.info(&n.info),
            ..View::empty(Kind::Node)
        }
    }
    pub fn dense_view(&self, d: &MDense, n: &MDNode) -> View {
        View {
            kind: Kind::Dense,
            id: n.id,
            coord: Some(self.coord(n.lat, n.lon)),
            tags: self.tags(n.tags.iter().map(|t| (t.0 as i64, t.1 as i64))),
            raw_tags: n.tags.iter().map(|t| (t.0 as i64, t.1 as i64)).collect(),
            info: if d.has_info {
                InfoView {
                    present: true,
                    version: Some(n.info.version as i64),
                    milli_timestamp: Some(self.ts(n.info.timestamp)),
                    changeset: Some(n.info.changeset),
                    uid: Some(n.info.uid as i64),
                    user: Some(self.sres(n.info.user_sid as i64)),
                    visible: if d.has_visible { n.info.visible } else { true },
                }
            } else {
                InfoView::absent()
            },
            ..View::empty(Kind::Dense)
        }
    }
    pub fn way_view(&self, x: &MWay) -> View {
        let mut last = 0i64;
        View {
            kind: Kind::Way,
            id: x.id,
            tags: self.tags(x.tags.iter().map(|t| (t.0 as i64, t.1 as i64))),
            raw_tags: x.tags.iter().map(|t| (t.0 as i64, t.1 as i64)).collect(),
            info: self.info(&x.info),
            refs: x.refs.clone(),
            raw_refs: x
                .refs
                .iter()
                .map(|r| {
                    let d = r.wrapping_sub(last);
                    last = *r;
                    d
                })
                .collect(),
            locs: x
                .locs
                .as_deref()
                .unwrap_or(&[])
                .iter()
                .map(|l| self.coord(l.0, l.1))
                .collect(),
            ..View::empty(Kind::Way)
        }
    }
    pub fn rel_view(&self, x: &MRel) -> View {
        View {
            kind: Kind::Relation,
            id: x.id,
            tags: self.tags(x.tags.iter().map(|t| (t.0 as i64, t.1 as i64))),
            raw_tags: x.tags.iter().map(|t| (t.0 as i64, t.1 as i64)).collect(),
            info: self.info(&x.info),
            members: x
                .members
                .iter()
                .map(|m| MemberView { ty: m.0, id: m.1, role_sid: m.2, role: self.sres(m.2 as i64) })
                .collect(),
            ..View::empty(Kind::Relation)
        }
    }

    /// Expected elements group by group; inside a group in the order node, dense, way, relation.
    pub fn views_by_group(&self) -> Vec<Vec<View>> {
        self.groups
            .iter()
            .map(|g| {
                let mut v = vec![];
                v.extend(g.nodes.iter().map(|n| self.node_view(n)));
                if let Some(d) = &g.dense {
                    v.extend(d.nodes.iter().map(|n| self.dense_view(d, n)));
                }
                v.extend(g.ways.iter().map(|n| self.way_view(n)));
                v.extend(g.rels.iter().map(|n| self.rel_view(n)));
                v
            })
            .collect()
    }
    pub fn views(&self) -> Vec<View> {
        self.views_by_group().concat()
    }
}

/// Header block model.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct MHeader {
    /// left, right, top, bottom in nanodegrees
    pub bbox: Option<[i64; 4]>,
    pub required: Vec<String>,
    pub optional: Vec<String>,
    pub writingprogram: Option<String>,
    pub source: Option<String>,
    pub repl_timestamp: Option<i64>,
    pub repl_seq: Option<i64>,
    pub repl_url: Option<String>,
}

impl MHeader {
    pub fn encode_with(&self, o: EncOpt) -> Vec<u8> {
        let mut m = Msg::new(o);
        if let Some(b) = &self.bbox {
            let mut x = Msg::new(o);
            for i in 0..4 {
                x.f(|w| w.sint(i as u32 + 1, b[i]));
            }
            let x = x.done();
            m.f(|w| w.bytes(1, &x));
        }
        m.f(|w| self.required.iter().for_each(|s| w.bytes(4, s.as_bytes())));
        m.f(|w| self.optional.iter().for_each(|s| w.bytes(5, s.as_bytes())));
        if let Some(s) = &self.writingprogram {
            m.f(|w| w.bytes(16, s.as_bytes()));
        }
        if let Some(s) = &self.source {
            m.f(|w| w.bytes(17, s.as_bytes()));
        }
        if let Some(s) = self.repl_timestamp {
            m.f(|w| w.int(32, s));
        }
        if let Some(s) = self.repl_seq {
            m.f(|w| w.int(33, s));
        }
        if let Some(s) = &self.repl_url {
            m.f(|w| w.bytes(34, s.as_bytes()));
        }
        m.done()
    }
    pub fn encode(&self) -> Vec<u8> {
        self.encode_with(EncOpt::default())
    }
}
