//! Interface to the symbolic executor (or, in a native build, to rt/sxrt.c which replays recorded inputs).
#![allow(dead_code)]
pub mod raw {
    extern "C" {
        pub fn sx_symbolic(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn sx_assume(c: u64);
        pub fn sx_check(c: u64, m: *const u8, ml: usize);
        pub fn sx_reach(m: *const u8, ml: usize);
        pub fn sx_end() -> !;
        pub fn sx_note(v: u64);
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_maybe(c: u64) -> u64;
        pub fn sx_ctor(i: u64) -> usize;
        pub fn sx_in_engine() -> u64;
        pub fn sx_thread_create(f: usize, arg: usize) -> u64;
        pub fn sx_switch(t: u64);
        pub fn sx_self() -> u64;
        pub fn sx_shm_new(n: u64) -> u64;
        pub fn sx_shm_map(h: u64, off: u64, len: u64) -> *mut u8;
        pub fn sx_shm_unmap(p: *mut u8, len: u64);
        pub fn sx_shm_free(h: u64);
        pub fn sx_is_init(p: *const u8, n: usize) -> u64;
        pub fn sx_heap_live() -> u64;
        pub fn sx_fail(k: *const u8, kl: usize, m: *const u8, ml: usize) -> !;
        pub fn sx_inconclusive(m: *const u8, ml: usize) -> !;
        pub fn sx_trace(m: *const u8, ml: usize, v: u64);
        pub fn sx_is_symbolic(v: u64) -> u64;
        pub fn sx_pick(n: u64, m: *const u8, ml: usize) -> u64;
        pub fn sx_raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64;
    }
}
use raw::*;
pub fn bytes(p: &mut [u8], name: &str) { unsafe { sx_symbolic(p.as_mut_ptr(), p.len(), name.as_ptr(), name.len()) } }
pub fn u8v(name: &str) -> u8 { let mut b = [0u8; 1]; bytes(&mut b, name); b[0] }
pub fn u16v(name: &str) -> u16 { let mut b = [0u8; 2]; bytes(&mut b, name); u16::from_le_bytes(b) }
pub fn u32v(name: &str) -> u32 { let mut b = [0u8; 4]; bytes(&mut b, name); u32::from_le_bytes(b) }
pub fn u64v(name: &str) -> u64 { let mut b = [0u8; 8]; bytes(&mut b, name); u64::from_le_bytes(b) }
pub fn usz(name: &str) -> usize { u64v(name) as usize }
pub fn vec(n: usize, name: &str) -> Vec<u8> { let mut v = vec![0u8; n]; bytes(&mut v, name); v }
/// a fresh boolean without forking
pub fn boolv(name: &str) -> bool { let b = u8v(name); assume(b <= 1); b == 1 }
#[inline(always)] pub fn assume(c: bool) { unsafe { sx_assume(c as u64) } }
#[inline(always)] pub fn check(c: bool, m: &str) { unsafe { sx_check(c as u64, m.as_ptr(), m.len()) } }
pub fn reach(m: &str) { unsafe { sx_reach(m.as_ptr(), m.len()) } }
pub fn note(v: u64) { unsafe { sx_note(v) } }
pub fn end() -> ! { unsafe { sx_end() } }
/// a choice in 0..n, explored exhaustively
pub fn pick(n: usize, m: &str) -> usize {
    if n <= 1 { return 0; }
    if n > 200 { let h = pick((n + 127) / 128, m); return h * 128 + pick(if h * 128 + 128 > n { n - h * 128 } else { 128 }, m); }
    unsafe { sx_pick(n as u64, m.as_ptr(), m.len()) as usize } }
pub fn flag(m: &str) -> bool { pick(2, m) == 1 }
pub fn fail(kind: &str, m: &str) -> ! { unsafe { sx_fail(kind.as_ptr(), kind.len(), m.as_ptr(), m.len()) } }
pub fn inconclusive(m: &str) -> ! { unsafe { sx_inconclusive(m.as_ptr(), m.len()) } }
pub fn trace(m: &str, v: u64) { unsafe { sx_trace(m.as_ptr(), m.len(), v) } }
pub fn conc(v: u64) -> u64 { unsafe { sx_concretize(v) } }
pub fn maybe(c: bool) -> bool { unsafe { sx_maybe(c as u64) != 0 } }
pub fn is_symbolic(v: u64) -> bool { unsafe { sx_is_symbolic(v) != 0 } }
pub fn in_engine() -> bool { unsafe { sx_in_engine() != 0 } }
pub fn is_init(p: &[u8]) -> bool { unsafe { sx_is_init(p.as_ptr(), p.len()) != 0 } }
/// run what a loader runs before `main`
pub fn run_ctors() { let mut i = 0; loop { let f = unsafe { sx_ctor(i) }; if f == 0 { return; } let f: extern "C" fn() = unsafe { std::mem::transmute(f) }; f(); i += 1; } }
