//! The wire format as seen by a writer: where the fields of a message are, and every way to
//! write the same message differently.

use vcore::enc::*;
use vcore::engine::*;

/// A field of the encoded block: path of enclosing fields (tag position, payload start, end).
#[derive(Clone, Debug)]
pub struct Site {
    path: Vec<(usize, usize, usize)>,
    /// (start of tag, start of value, end)
    pub field: (usize, usize, usize),
    pub num: u32,
    pub wt: u32,
    pub kind: MsgKind,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MsgKind {
    Block,
    Strings,
    Group,
    Node,
    Dense,
    DenseInfo,
    Way,
    Rel,
    Info,
    Head,
    BBox,
    Blob,
    BlobHeader,
}
pub fn varint(b: &[u8], p: &mut usize) -> u64 {
    let (mut v, mut s) = (0u64, 0);
    loop {
        let x = b[*p];
        *p += 1;
        v |= ((x & 0x7f) as u64).checked_shl(s).unwrap_or(0);
        s += 7;
        if x < 0x80 {
            return v;
        }
    }
}
pub fn wire_sites(b: &[u8]) -> Vec<Site> {
    sites_of(b, MsgKind::Block)
}
/// All fields of an encoded message of the given type, at all nesting levels.
pub fn sites_of(b: &[u8], root: MsgKind) -> Vec<Site> {
    let mut out = vec![];
    walk(b, 0, b.len(), root, &mut vec![], &mut out);
    out
}
fn walk(b: &[u8], from: usize, to: usize, kind: MsgKind, path: &mut Vec<(usize, usize, usize)>, out: &mut Vec<Site>) {
    let mut p = from;
    while p < to {
        let t = p;
        let tag = varint(b, &mut p);
        let (num, wt) = ((tag >> 3) as u32, (tag & 7) as u32);
        let mut vs = p;
        match wt {
            0 => {
                varint(b, &mut p);
            }
            2 => {
                let l = varint(b, &mut p) as usize;
                vs = p;
                p += l;
            }
            1 => p += 8,
            5 => p += 4,
            _ => unreachable!("harness: own encoder"),
        }
        out.push(Site { path: path.clone(), field: (t, vs, p), num, wt, kind });
        use MsgKind::*;
        let sub = match (kind, num) {
            (Block, 1) => Some(Strings),
            (Block, 2) => Some(Group),
            (Group, 1) => Some(Node),
            (Group, 2) => Some(Dense),
            (Group, 3) => Some(Way),
            (Group, 4) => Some(Rel),
            (Node, 4) | (Way, 4) | (Rel, 4) => Some(Info),
            (Dense, 5) => Some(DenseInfo),
            (Head, 1) => Some(BBox),
            _ => None,
        };
        if let (Some(k), 2) = (sub, wt) {
            path.push((t, vs, p));
            walk(b, vs, p, k, path, out);
            path.pop();
        }
    }
}
/// Replace the bytes of the site's field by `new` and repair all enclosing lengths.
pub fn splice(b: &[u8], s: &Site, new: &[u8]) -> Vec<u8> {
    let mut cur = new.to_vec();
    let (mut lo, mut hi) = (s.field.0, s.field.2);
    for (t, vs, e) in s.path.iter().rev() {
        let mut payload = b[*vs..lo].to_vec();
        payload.extend(&cur);
        payload.extend(&b[hi..*e]);
        let mut p = *t;
        let tag = varint(b, &mut p);
        let mut w = W::new();
        w.raw_varint(tag);
        w.raw_varint(payload.len() as u64);
        w.0.extend(payload);
        cur = w.0;
        lo = *t;
        hi = *e;
    }
    let mut o = b[..lo].to_vec();
    o.extend(cur);
    o.extend(&b[hi..]);
    o
}
pub fn is_packed(s: &Site) -> bool {
    use MsgKind::*;
    s.wt == 2
        && match s.kind {
            Node => s.num == 2 || s.num == 3,
            Way => [2, 3, 8, 9, 10].contains(&s.num),
            Rel => [2, 3, 8, 9, 10].contains(&s.num),
            Dense => [1, 8, 9, 10].contains(&s.num),
            DenseInfo => s.num <= 6,
            _ => false,
        }
}

/// Fields that may occur at most once in a meaningful way and whose last occurrence counts.
fn last_wins(s: &Site) -> bool {
    use MsgKind::*;
    match s.kind {
        Block => [17, 18, 19, 20].contains(&s.num),
        Node => [1, 8, 9].contains(&s.num),
        Way | Rel => s.num == 1,
        Info => (1..=6).contains(&s.num),
        Head => [16, 17, 32, 33, 34].contains(&s.num),
        BBox => (1..=4).contains(&s.num),
        Blob => (1..=7).contains(&s.num),
        BlobHeader => (1..=3).contains(&s.num),
        Strings | Group | Dense | DenseInfo => false,
    }
}
/// Singular submessages: several occurrences merge.
fn merges(s: &Site) -> bool {
    use MsgKind::*;
    s.wt == 2 && matches!((s.kind, s.num), (Block, 1) | (Group, 2) | (Node, 4) | (Way, 4) | (Rel, 4) | (Dense, 5) | (Head, 1))
}
/// The fields whose order relative to each other carries meaning.
fn ordered(s: &Site, t: &Site) -> bool {
    s.num == t.num || (s.kind == MsgKind::Blob && s.num != 2 && t.num != 2)
}

pub const REWRITES: [&str; 6] = ["split packed", "overlong", "unknown field", "superseded", "moved", "empty packed record"];

/// Write one singular submessage in two parts, which a reader has to merge. Also returns a name
/// for the kind of place and the message with the second part only.
pub fn in_parts(c: &mut Ctx, b: &[u8], root: MsgKind) -> Option<(Vec<u8>, String, Vec<u8>)> {
    let sites: Vec<Site> = sites_of(b, root).into_iter().filter(merges).collect();
    if sites.is_empty() {
        return None;
    }
    let s = &sites[c.choose("site", sites.len())];
    let (_, vs, e) = s.field;
    let mut cuts = vec![vs];
    let mut p = vs;
    while p < e {
        let tag = varint(b, &mut p);
        if tag & 7 == 2 {
            let l = varint(b, &mut p) as usize;
            p += l;
        } else {
            varint(b, &mut p);
        }
        cuts.push(p);
    }
    let cut = cuts[c.choose("cut", cuts.len())];
    let mut w = W::new();
    w.bytes(s.num, &b[vs..cut]);
    if c.flag("something between") {
        w.uint(901, 7);
    }
    let mut last = W::new();
    last.bytes(s.num, &b[cut..e]);
    w.0.extend(&last.0);
    Some((splice(b, s, &w.0), format!("{:?}-{}", s.kind, s.num), splice(b, s, &last.0)))
}

/// Choose one rewriting of the message that denotes the same message. None: not applicable here.
pub fn rewrite(c: &mut Ctx, b: &[u8], root: MsgKind) -> Option<Vec<u8>> {
    let sites = sites_of(b, root);
    if sites.is_empty() {
        return None;
    }
    let kind = c.choose("rewrite", REWRITES.len());
    let s = &sites[c.choose("site", sites.len())];
    let (t, vs, e) = s.field;
    let field = &b[t..e];
    let put = |new: &[u8], after: bool| -> Option<Vec<u8>> {
        let v = if after { [field, new].concat() } else { [new, field].concat() };
        Some(splice(b, s, &v))
    };
    match kind {
        0 => {
            // a packed column split into two packed parts or a packed and an unpacked part
            if !is_packed(s) {
                return None;
            }
            let mut cuts = vec![vs];
            let mut p = vs;
            while p < e {
                varint(b, &mut p);
                cuts.push(p);
            }
            let cut = cuts[c.choose("cut", cuts.len())];
            let unpack = |w: &mut W, from: usize, to: usize| {
                let mut p = from;
                while p < to {
                    let v = varint(b, &mut p);
                    w.uint(s.num, v);
                }
            };
            let mut w = W::new();
            match c.choose("parts", 4) {
                0 => {
                    w.bytes(s.num, &b[vs..cut]);
                    w.bytes(s.num, &b[cut..e]);
                }
                1 => {
                    w.bytes(s.num, &b[vs..cut]);
                    unpack(&mut w, cut, e);
                }
                2 => {
                    unpack(&mut w, vs, cut);
                    w.bytes(s.num, &b[cut..e]);
                }
                _ => {
                    w.bytes(s.num, &b[vs..cut]);
                    w.uint(900, 5);
                    w.bytes(s.num, &b[cut..e]);
                }
            }
            Some(splice(b, s, &w.0))
        }
        1 => {
            // overlong varint: as the value, a packed value, the length or the tag
            // 32-bit unsigned values, tags and lengths have at most 5 bytes, everything else 10
            let narrow = match s.kind {
                MsgKind::Info => s.num == 5,
                MsgKind::DenseInfo => s.num == 4 || s.num == 5,
                MsgKind::Node | MsgKind::Way | MsgKind::Rel => s.num == 2 || s.num == 3,
                _ => false,
            };
            let width = if narrow { 5 } else { 10 };
            let extra = *c.pick("extra", &[1, 2, 3, 4, 9]);
            let mut q = t;
            let tag = varint(b, &mut q);
            let mut w = W::new();
            match c.choose("where", 3) {
                0 => {
                    if q - t + extra > 5 {
                        return None;
                    }
                    w.raw_varint_long(tag, extra);
                    w.0.extend(&b[q..e]);
                }
                1 => {
                    w.raw_varint(tag);
                    match s.wt {
                        0 => {
                            if e - vs + extra > width {
                                return None;
                            }
                            let mut p = vs;
                            w.raw_varint_long(varint(b, &mut p), extra);
                        }
                        2 => {
                            if extra > 3 {
                                return None;
                            }
                            w.raw_varint_long((e - vs) as u64, extra);
                            w.0.extend(&b[vs..e]);
                        }
                        _ => return None,
                    }
                }
                _ => {
                    if !is_packed(s) || vs == e {
                        return None;
                    }
                    let mut vals = vec![];
                    let mut p = vs;
                    while p < e {
                        let from = p;
                        let v = varint(b, &mut p);
                        vals.push((v, p - from));
                    }
                    let k = c.choose("value", vals.len());
                    if vals[k].1 + extra > width {
                        return None;
                    }
                    let mut x = W::new();
                    for (i, (v, _)) in vals.iter().enumerate() {
                        x.raw_varint_long(*v, if i == k { extra } else { 0 });
                    }
                    w.bytes(s.num, &x.0);
                }
            }
            Some(splice(b, s, &w.0))
        }
        2 => {
            let mut w = W::new();
            match c.choose("unknown", 7) {
                0 => w.uint(1000, u64::MAX),
                1 => w.bytes(536_870_911, b"\x0a\x01x"),
                2 => {
                    w.tag(21, 5);
                    w.0.extend([9, 9, 9, 9]);
                }
                3 => {
                    w.tag(22, 1);
                    w.0.extend([9; 8]);
                }
                4 => w.bytes(31, &[]),
                5 => w.bytes(45, &[0x80; 200]),
                // a field whose number differs from the known one only above the low 5 bits
                _ => w.bytes(s.num + 64, &b[vs..e]),
            }
            put(&w.0, c.flag("after"))
        }
        3 => {
            // an earlier occurrence that does not count: directly before, or first in the message
            if !last_wins(s) {
                return None;
            }
            let mut w = W::new();
            match (s.wt, c.choose("superseded", 4)) {
                (0, 0) => w.uint(s.num, 0),
                (0, 1) => w.uint(s.num, 1),
                (0, 2) => w.uint(s.num, 2_000_000),
                // not a value of an unsigned or boolean field
                (0, _) if s.kind == MsgKind::Info && s.num >= 5 => return None,
                (0, _) => w.int(s.num, -1),
                (_, 0) => w.bytes(s.num, b""),
                (_, 1) => w.bytes(s.num, b"OSMData"),
                (_, 2) => w.bytes(s.num, &b[vs..(vs + e) / 2]),
                // another way of storing the content
                _ if s.kind == MsgKind::Blob => w.bytes(if s.num == 1 { 3 } else { 1 }, b"zz"),
                _ => return None,
            }
            if s.wt == 2 && std::str::from_utf8(&w.0).is_err() {
                return None;
            }
            let first = match s.path.last() {
                Some(p) => p.1,
                None => 0,
            };
            if c.flag("first in the message") {
                if first == t {
                    return None;
                }
                let at = Site { field: (first, first, e), ..s.clone() };
                let new = [&w.0[..], &b[first..e]].concat();
                return Some(splice(b, &at, &new));
            }
            put(&w.0, false)
        }
        4 => {
            // moved behind any later sibling, unless the order between them carries meaning
            let end = s.path.last().map_or(b.len(), |p| p.2);
            let later: Vec<&Site> = sites.iter().filter(|x| x.path == s.path && x.field.0 >= e && x.field.2 <= end).collect();
            let free = later.iter().take_while(|x| !ordered(s, x)).count();
            if free == 0 {
                return None;
            }
            let to = later[c.choose("behind", free)].field.2;
            let at = Site { field: (t, t, to), ..s.clone() };
            let new = [&b[e..to], field].concat();
            Some(splice(b, &at, &new))
        }
        _ => {
            if !is_packed(s) {
                return None;
            }
            let mut w = W::new();
            w.bytes(s.num, &[]);
            put(&w.0, c.flag("after"))
        }
    }
}
