#![no_main]
#![allow(dead_code)]
mod sx;
mod os;
mod node;
mod util;
mod h;
#[path = "/repo/ipmb-ffi/src/lib.rs"]
mod ffi;
#[path = "/repo/ipmb-js/src/lib.rs"]
mod js;
/// counts the live allocations of Rust code
struct Counting;
pub static mut LIVE: isize = 0;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { LIVE += 1; std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { LIVE += 1; std::alloc::System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 { std::alloc::System.realloc(p, l, n) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { LIVE -= 1; std::alloc::System.dealloc(p, l) }
}
#[global_allocator] static COUNTING: Counting = Counting;
pub fn live() -> isize { unsafe { LIVE } }
extern "C" { fn sxrt_main(argc: i32, argv: *const *const u8, f: extern "C" fn()) -> i32; }
/// native entry point: `harness ENTRY [replay-file]`
#[no_mangle]
pub unsafe extern "C" fn main(argc: i32, argv: *const *const u8) -> i32 {
    if argc < 2 { return 2; }
    let name = std::ffi::CStr::from_ptr(*argv.add(1) as *const _).to_bytes();
    for (n, f) in h::TABLE { if n.as_bytes() == name { return sxrt_main(argc, argv, *f); } }
    2
}
