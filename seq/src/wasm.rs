//! Entry points for the program as a WebAssembly module: a machine with 32-bit words.

use crate::props;
use vcore::engine::*;

#[link(wasm_import_module = "host")]
extern "C" {
    /// the execution about to run
    fn at(p: *const u8, n: usize);
    fn log(p: *const u8, n: usize);
    /// the report
    fn report(p: *const u8, n: usize);
}

#[no_mangle]
pub extern "C" fn share(thorough: u32, part: u32, parts: u32) {
    install_panic_hook();
    let _ = STDERR.set(|l| unsafe { log(l.as_ptr(), l.len()) });
    let ps = props(thorough != 0);
    let p = ps.iter().find(|p| p.id == "C27").expect("property");
    let out = share_report(p, thorough != 0, part as usize, parts as usize, |l| unsafe { at(l.as_ptr(), l.len()) });
    unsafe { report(out.as_ptr(), out.len()) }
}
