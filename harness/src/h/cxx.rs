//! C22: the C++ interface; the entries are in harness/cxx.
use crate::{live, os};
use std::time::Duration;
extern "C" { fn x_moves(); fn x_moves_deep(); fn x_exprs(); fn x_exprs_deep(); fn x_options(); fn x_codes(); fn x_values(); fn x_bus(); fn x_registry(); fn x_header(); }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_moves() { unsafe { x_moves() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_moves_deep() { unsafe { x_moves_deep() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_exprs() { unsafe { x_exprs() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_exprs_deep() { unsafe { x_exprs_deep() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_options() { unsafe { x_options() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_codes() { unsafe { x_codes() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_values() { unsafe { x_values() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_bus() { unsafe { x_bus() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_registry() { unsafe { x_registry() } }
#[no_mangle] #[inline(never)] pub extern "C" fn h_x_header() { unsafe { x_header() } }
// what the entries in C++ need of the model
#[no_mangle] #[inline(never)] pub extern "C" fn cx_init() { os::init() }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_proc() -> usize { os::new_proc() }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_enter(p: usize) -> usize { let o = os::os(); let t = o.cur; let old = o.thr[t].proc_; o.thr[t].proc_ = p; old }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_settle() { os::settle() }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_sleep(ms: u64) { os::sleep(Duration::from_millis(ms)) }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_obj(p: usize, mark: u64) -> u64 { os::app_object(p, mark) as u64 }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_mark(p: usize, o: u64) -> u64 { match os::desc_of(p, o as i32) { Some(d) => match &os::os().descs[d].kind { os::Kind::Event { count, .. } => *count, _ => 0 }, None => 0 } }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_fds(p: usize) -> usize { os::open_fds(p) }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_maps(p: usize) -> usize { os::maps(p) }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_bad(p: usize) -> usize { os::os().procs[p].bad_close as usize + os::os().procs[p].bad_use as usize }
#[no_mangle] #[inline(never)] pub extern "C" fn cx_live() -> i64 { live() as i64 }
