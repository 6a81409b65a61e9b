//! The harness as a WebAssembly module, so that the code under test runs with 32-bit sizes.
#![cfg_attr(target_arch = "wasm32", no_main)]
use vharness::{alloc, props::vm, run};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

#[cfg(not(target_arch = "wasm32"))]
fn main() {}

#[link(wasm_import_module = "env")]
extern "C" {
    /// kind: 0 panic outside the harness, 1 in the harness, 2 property violated
    fn note(kind: u32, p: *const u8, n: usize);
}
fn tell(kind: u32, s: &str) {
    unsafe { note(kind, s.as_ptr(), s.len()) }
}

#[no_mangle]
pub extern "C" fn start() {
    run::hook_to(|loc, msg| {
        let mine = loc.starts_with("src/") || loc.contains("/harness/src/");
        tell(mine as u32, &format!("panic '{msg}' at {loc}"));
    });
    // allocations beyond fail, which ends the module
    alloc::cap(1 << 30);
}
/// Room for a block of cases.
#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
/// Take over a block of cases; their number.
#[no_mangle]
pub unsafe extern "C" fn load(p: *const u8, n: usize) -> u32 {
    vm::load(std::str::from_utf8(std::slice::from_raw_parts(p, n)).expect("harness: text"))
}
/// What a case of the block says.
#[no_mangle]
pub extern "C" fn says(i: u32, show: u32) -> u64 {
    vm::says_loaded(i as usize, show != 0)
}
/// A case made here; the number of evaluations.
#[no_mangle]
pub extern "C" fn made(prop: u32, seed: u64, case: u64) -> u64 {
    match vm::made(prop, seed, case) {
        Ok(n) => n,
        Err(e) => {
            tell(2, &e);
            0
        }
    }
}
#[no_mangle]
pub extern "C" fn width() -> u32 {
    usize::BITS
}
