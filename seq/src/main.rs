// on other machines only a part is used
#![cfg_attr(any(miri, not(unix)), allow(dead_code, unused_imports))]

pub use vcore::files;
mod p_blob;
mod p_elem;
mod p_fmt;
mod p_index;
mod p_err;
mod p_mem;
mod p_build;
mod wire;
#[cfg(target_family = "wasm")]
mod wasm;

use vcore::engine::*;

#[global_allocator]
static ALLOC: CapAlloc = CapAlloc;

fn props(th: bool) -> Vec<Property> {
    let mut v = if cfg!(miri) { vec![] } else { own(1 + th as u8) };
    v.push(p_build::c27(th, own((th && !cfg!(miri)) as u8)));
    v
}

/// The bounds grow with the level: 0 for the other builds, 1 quick, 2 thorough.
fn own(lvl: u8) -> Vec<Property> {
    let th = lvl >= 2;
    let mut v = vec![
        p_blob::c01(lvl),
        p_blob::c04(th),
        p_elem::c12(lvl),
        p_elem::c14(lvl),
        p_elem::c15(lvl),
        p_elem::c18(lvl),
        p_fmt::c20(th),
        p_err::c25(th),
    ];
    // these prepare too much for an interpreter first
    if !cfg!(miri) {
        v.extend([p_blob::c02(lvl), p_blob::c03(lvl), p_elem::c06(lvl), p_index::c09(th), p_index::c10(th)]);
        v.extend([p_index::c11(th), p_elem::c13(lvl), p_elem::c16(lvl), p_elem::c17(lvl), p_fmt::c19(lvl)]);
        v.extend([p_fmt::c21(th), p_elem::c24(th)]);
    }
    // these work on files
    #[cfg(all(unix, not(miri)))]
    v.extend([p_blob::c05(lvl), p_fmt::c23(th), p_mem::c26(th)]);
    v
}

fn main() {
    #[cfg(not(target_family = "wasm"))]
    driver(props)
}
