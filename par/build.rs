use std::process::Command;
fn main() {
    println!("cargo:rerun-if-changed=rt/mc.c");
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/mc.o");
    let ok = Command::new("gcc")
        .args(["-O2", "-g", "-Wall", "-fno-tree-loop-distribute-patterns", "-c", "rt/mc.c", "-o", &o])
        .status()
        .expect("gcc")
        .success();
    assert!(ok, "gcc rt/mc.c");
    println!("cargo:rustc-link-arg-bins={o}");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic-symbol=getrandom");
}
