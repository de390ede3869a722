//! C27: the guarantees do not depend on how or for what machine the library is built. The scenarios
//! of the other properties are explored again in programs built with each zlib implementation, in one
//! without overflow checks and debug assertions, and on interpreted machines with another word size
//! or byte order.

use vcore::engine::*;

/// scenarios that hit listed findings, which belong to other properties
const LISTED: &[&str] = &["C21 single byte damage", "C21 field values", "C21 pairs of columns", "C24 mergeable parts"];
/// too long for the quick tier
const LONG: &[&str] = &[
    "C01 very many blobs",
    "C02 very many blobs",
    "C06 very many blobs",
    "C09 very many blobs",
    "C05 very many blobs",
    "C04 operation sequences",
    "C09 counts",
    "C11 one failing call",
    "C12 counts",
    "C20 content sizes",
    "C20 recorded sizes",
    "C24 blob and header rewrites",
    "C26 growing files",
];
/// short enough for an interpreter
const INTERPRETED: &[&str] = &["C01 type names", "C15 blocks", "C20 claimed header sizes"];
/// the same, thorough tier
const INTERPRETED_MORE: &[&str] = &[
    "C01 start position",
    "C04 huge offsets",
    "C12 visible",
    "C14 presence",
    "C14 values",
    "C15 timestamps",
    "C18 presence",
    "C18 values",
    "C18 features",
    "C25 conversions",
];

pub fn c27(th: bool, others: Vec<Property>) -> Property {
    let mut scenarios = vec![];
    for p in others {
        for mut s in p.scenarios {
            let name = format!("{} {}", p.id, s.name);
            let is = |l: &[&str]| l.contains(&name.as_str());
            let take = if cfg!(miri) {
                is(INTERPRETED) || th && is(INTERPRETED_MORE)
            } else {
                !is(LISTED) && (th || !is(LONG))
            };
            if take {
                s.name = Box::leak(name.into_boxed_str());
                scenarios.push(s);
            }
        }
    }
    Property { id: "C27", scenarios, assumptions: vec![] }
}
