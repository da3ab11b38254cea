//! A model of the part of Node-API the JavaScript binding uses: values, classes, promises, exceptions, references,
//! thread-safe functions and the event loop of one environment. The glue which the napi crates generate runs for real.
#![allow(static_mut_refs, non_camel_case_types, clippy::missing_safety_doc)]
use crate::{os, sx};
use std::{collections::VecDeque, ffi::c_void, rc::Rc, cell::RefCell, ptr};
type St = i32; pub const OK: St = 0; const INVALID: St = 1; const OBJECT_EXPECTED: St = 2; const STRING_EXPECTED: St = 3; const NUMBER_EXPECTED: St = 6; const BOOLEAN_EXPECTED: St = 7; const ARRAY_EXPECTED: St = 8; const FUNCTION_EXPECTED: St = 5; const GENERIC: St = 9; const PENDING: St = 10; const CLOSING: St = 16;
type Env = usize; pub type Val = usize; type Cb = unsafe extern "C" fn(Env, *mut Info) -> Val; type Fin = unsafe extern "C" fn(Env, *mut c_void, *mut c_void);
pub struct Info { this: Val, args: Vec<Val>, data: *mut c_void }
#[derive(Clone)]
pub enum V { Undefined, Bool(bool), Num(i64), Float(f64), Str(String), Array(Vec<Val>), Buffer(*mut u8, usize), Fun { cb: Cb, data: *mut c_void, class: Option<Rc<Vec<(String, Cb)>>> }, Object, Error(Val), Promise(Prom) }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Prom { Pending, Resolved(Val), Rejected(Val) }
pub struct O { pub v: V, pub props: Vec<(String, Val)>, wrap: Option<(*mut c_void, Option<Fin>, *mut c_void)>, pub class: Val, fin: Option<(Fin, *mut c_void)> }
struct Tsfn { queue: VecDeque<*mut c_void>, threads: usize, closing: bool, finalized: bool, cb: unsafe extern "C" fn(Env, Val, *mut c_void, *mut c_void), ctx: *mut c_void, fin: Option<Fin>, fdata: *mut c_void, func: Val, max: usize }
pub struct Node { pub vals: Vec<O>, exc: Option<Val>, refs: Vec<(Val, u32)>, deferred: Vec<(Val, bool)>, tsfn: Vec<Tsfn>, hooks: Vec<(unsafe extern "C" fn(*mut c_void), *mut c_void)>, pub exports: Val, order: usize, pub settled: Vec<(Val, std::time::Duration)>, proc_: usize }
static mut N: *mut Node = ptr::null_mut();
pub fn n() -> &'static mut Node { unsafe { &mut *N } }
const ENV: Env = 0x1000;
fn new(v: V) -> Val { let n = n(); n.vals.push(O { v, props: vec![], wrap: None, class: 0, fin: None }); n.vals.len() - 1 }
fn v(x: Val) -> Option<&'static mut O> { if x == 0 { return None; } n().vals.get_mut(x) }
fn pending() -> bool { n().exc.is_some() }
fn on_thread() { sx::check(os::os().cur == 0 || os::me() == n().proc_ && os::os().cur == 0, "the environment is used by its thread only"); }
macro_rules! api { ($($name:ident ( $($a:ident : $t:ty),* ) $b:block)*) => { $( #[no_mangle] pub unsafe extern "C" fn $name(_env: Env $(, $a: $t)*) -> St { on_thread(); $b } )* } }
unsafe fn cstr(p: *const u8, l: usize) -> String { let l = if l == usize::MAX { let mut i = 0; while *p.add(i) != 0 { i += 1; } i } else { l }; String::from_utf8(std::slice::from_raw_parts(p, l).to_vec()).unwrap() }
fn put(r: *mut Val, x: Val) -> St { if !r.is_null() { unsafe { *r = x; } } OK }
#[repr(C)] pub struct PropDesc { utf8name: *const u8, name: Val, method: Option<Cb>, getter: Option<Cb>, setter: Option<Cb>, value: Val, attributes: i32, data: *mut c_void }
fn text(x: Val) -> String { match &n().vals[x].v { V::Str(s) => s.clone(), V::Num(k) => k.to_string(), V::Bool(b) => b.to_string(), V::Undefined => "undefined".into(), V::Error(m) => text(*m), _ => "[object]".into() } }
pub unsafe fn getp(x: Val, name: &str) -> Val {
    if let V::Array(a) = &n().vals[x].v { if name == "length" { let l = a.len(); return new(V::Num(l as i64)); } }
    for (k, p) in &n().vals[x].props { if k == name { return *p; } }
    let c = n().vals[x].class; if c != 0 { if let V::Fun { class: Some(m), .. } = &n().vals[c].v { for (k, f) in m.iter() { if k == name { let cb = *f; return new(V::Fun { cb, data: ptr::null_mut(), class: None }); } } } }
    undefined()
}
pub fn undefined() -> Val { 1 }
fn setp(x: Val, name: String, val: Val) { let o = &mut n().vals[x]; for p in o.props.iter_mut() { if p.0 == name { p.1 = val; return; } } o.props.push((name, val)); }
unsafe fn invoke(f: Val, this: Val, args: Vec<Val>) -> Val { let (cb, data) = match &n().vals[f].v { V::Fun { cb, data, .. } => (*cb, *data), _ => sx::fail("node", "what is called is not a function") }; let mut i = Info { this, args, data }; cb(ENV, &mut i) }
api! {
    napi_get_undefined(r: *mut Val) { put(r, undefined()) }
    napi_get_null(r: *mut Val) { put(r, undefined()) }
    napi_get_global(r: *mut Val) { put(r, 2) }
    napi_create_object(r: *mut Val) { put(r, new(V::Object)) }
    napi_create_array(r: *mut Val) { put(r, new(V::Array(vec![]))) }
    napi_create_array_with_length(l: usize, r: *mut Val) { put(r, new(V::Array(vec![undefined(); l]))) }
    napi_create_int32(x: i32, r: *mut Val) { put(r, new(V::Num(x as i64))) }
    napi_create_uint32(x: u32, r: *mut Val) { put(r, new(V::Num(x as i64))) }
    napi_create_int64(x: i64, r: *mut Val) { put(r, new(V::Num(x))) }
    napi_create_double(x: f64, r: *mut Val) { put(r, new(V::Float(x))) }
    napi_get_boolean(x: bool, r: *mut Val) { put(r, new(V::Bool(x))) }
    napi_create_string_utf8(p: *const u8, l: usize, r: *mut Val) { put(r, new(V::Str(cstr(p, l)))) }
    napi_create_error(_code: Val, msg: Val, r: *mut Val) { if !matches!(v(msg).map(|o| &o.v), Some(V::Str(_))) { return STRING_EXPECTED; } put(r, new(V::Error(msg))) }
    napi_is_error(x: Val, r: *mut bool) { match v(x) { Some(o) => { *r = matches!(o.v, V::Error(_)); OK } None => INVALID } }
    napi_is_array(x: Val, r: *mut bool) { match v(x) { Some(o) => { *r = matches!(o.v, V::Array(_)); OK } None => INVALID } }
    napi_is_buffer(x: Val, r: *mut bool) { match v(x) { Some(o) => { *r = matches!(o.v, V::Buffer(..)); OK } None => INVALID } }
    napi_is_promise(x: Val, r: *mut bool) { match v(x) { Some(o) => { *r = matches!(o.v, V::Promise(..)); OK } None => INVALID } }
    napi_typeof(x: Val, r: *mut i32) { match v(x) { Some(o) => { *r = match o.v { V::Undefined => 0, V::Bool(_) => 2, V::Num(_) | V::Float(_) => 3, V::Str(_) => 4, V::Fun { .. } => 7, _ => 6 }; OK } None => INVALID } }
    napi_coerce_to_bool(x: Val, r: *mut Val) { if pending() { return PENDING; } let b = match &n().vals[x].v { V::Undefined => false, V::Bool(b) => *b, V::Num(k) => *k != 0, V::Str(s) => !s.is_empty(), _ => true }; put(r, new(V::Bool(b))) }
    napi_coerce_to_string(x: Val, r: *mut Val) { if pending() { return PENDING; } let t = text(x); put(r, new(V::Str(t))) }
    napi_get_value_bool(x: Val, r: *mut bool) { match v(x).map(|o| &o.v) { Some(V::Bool(b)) => { *r = *b; OK } _ => BOOLEAN_EXPECTED } }
    napi_get_value_int32(x: Val, r: *mut i32) { match v(x).map(|o| &o.v) { Some(V::Num(k)) => { *r = *k as i32; OK } _ => NUMBER_EXPECTED } }
    napi_get_value_uint32(x: Val, r: *mut u32) { match v(x).map(|o| &o.v) { Some(V::Num(k)) => { *r = *k as u32; OK } _ => NUMBER_EXPECTED } }
    napi_get_value_int64(x: Val, r: *mut i64) { match v(x).map(|o| &o.v) { Some(V::Num(k)) => { *r = *k; OK } _ => NUMBER_EXPECTED } }
    napi_get_value_double(x: Val, r: *mut f64) { match v(x).map(|o| &o.v) { Some(V::Num(k)) => { *r = *k as f64; OK } Some(V::Float(k)) => { *r = *k; OK } _ => NUMBER_EXPECTED } }
    napi_get_value_string_utf8(x: Val, buf: *mut u8, size: usize, r: *mut usize) {
        let s = match v(x).map(|o| &o.v) { Some(V::Str(s)) => s.clone(), _ => return STRING_EXPECTED };
        if buf.is_null() { *r = s.len(); return OK; } if size == 0 { if !r.is_null() { *r = 0; } return OK; }
        let l = s.len().min(size - 1); ptr::copy_nonoverlapping(s.as_ptr(), buf, l); *buf.add(l) = 0; if !r.is_null() { *r = l; } OK }
    napi_get_array_length(x: Val, r: *mut u32) { match v(x).map(|o| &o.v) { Some(V::Array(a)) => { *r = a.len() as u32; OK } _ => ARRAY_EXPECTED } }
    napi_get_element(x: Val, i: u32, r: *mut Val) { if pending() { return PENDING; } match v(x).map(|o| &o.v) { Some(V::Array(a)) => { let e = a.get(i as usize).copied().unwrap_or(undefined()); put(r, e) } _ => OBJECT_EXPECTED } }
    napi_set_element(x: Val, i: u32, e: Val) { if pending() { return PENDING; } match v(x).map(|o| &mut o.v) { Some(V::Array(a)) => { while a.len() <= i as usize { a.push(undefined()); } a[i as usize] = e; OK } _ => OBJECT_EXPECTED } }
    napi_get_named_property(x: Val, p: *const u8, r: *mut Val) { if pending() { return PENDING; } match v(x).map(|o| &o.v) { None | Some(V::Undefined) => OBJECT_EXPECTED, _ => { let k = cstr(p, usize::MAX); put(r, getp(x, &k)) } } }
    napi_has_named_property(x: Val, p: *const u8, r: *mut bool) { if pending() { return PENDING; } match v(x).map(|o| &o.v) { None | Some(V::Undefined) => OBJECT_EXPECTED, _ => { let k = cstr(p, usize::MAX); *r = getp(x, &k) != undefined(); OK } } }
    napi_set_named_property(x: Val, p: *const u8, e: Val) { if pending() { return PENDING; } if v(x).is_none() || v(e).is_none() { return INVALID; } setp(x, cstr(p, usize::MAX), e); OK }
    napi_create_function(_p: *const u8, _l: usize, cb: Option<Cb>, data: *mut c_void, r: *mut Val) { match cb { Some(cb) => put(r, new(V::Fun { cb, data, class: None })), None => INVALID } }
    napi_define_class(_p: *const u8, _l: usize, cb: Option<Cb>, data: *mut c_void, k: usize, d: *const PropDesc, r: *mut Val) {
        let mut m = vec![]; for i in 0..k { let d = &*d.add(i); if let Some(f) = d.method { m.push((cstr(d.utf8name, usize::MAX), f)); } }
        match cb { Some(cb) => put(r, new(V::Fun { cb, data, class: Some(Rc::new(m)) })), None => INVALID } }
    napi_new_instance(c: Val, k: usize, a: *const Val, r: *mut Val) {
        if pending() { return PENDING; } if !matches!(v(c).map(|o| &o.v), Some(V::Fun { class: Some(_), .. })) { return FUNCTION_EXPECTED; }
        let this = new(V::Object); n().vals[this].class = c; let args = (0..k).map(|i| *a.add(i)).collect(); invoke(c, this, args); if pending() { return PENDING; } put(r, this) }
    napi_call_function(this: Val, f: Val, k: usize, a: *const Val, r: *mut Val) { if pending() { return PENDING; } let args = (0..k).map(|i| *a.add(i)).collect(); let x = invoke(f, this, args); if pending() { return PENDING; } put(r, if x == 0 { undefined() } else { x }) }
    napi_get_cb_info(i: *mut Info, argc: *mut usize, argv: *mut Val, this: *mut Val, data: *mut *mut c_void) {
        let i = &*i; if !argc.is_null() { let have = *argc; if !argv.is_null() { for k in 0..have { *argv.add(k) = i.args.get(k).copied().unwrap_or(undefined()); } } *argc = i.args.len(); }
        if !this.is_null() { *this = i.this; } if !data.is_null() { *data = i.data; } OK }
    napi_get_new_target(_i: *mut Info, r: *mut Val) { put(r, 2) }
    napi_instanceof(x: Val, c: Val, r: *mut bool) { if pending() { return PENDING; } match v(x) { Some(o) => { *r = o.class != 0 && o.class == c; OK } None => INVALID } }
    napi_wrap(x: Val, p: *mut c_void, f: Option<Fin>, hint: *mut c_void, r: *mut usize) { match v(x) { Some(o) => { if o.wrap.is_some() { return INVALID; } o.wrap = Some((p, f, hint)); if !r.is_null() { n().refs.push((x, 0)); *r = n().refs.len(); } OK } None => INVALID } }
    napi_unwrap(x: Val, r: *mut *mut c_void) { match v(x).and_then(|o| o.wrap) { Some(w) => { *r = w.0; OK } None => INVALID } }
    napi_remove_wrap(x: Val, r: *mut *mut c_void) { match v(x).and_then(|o| o.wrap.take()) { Some(w) => { *r = w.0; OK } None => INVALID } }
    napi_create_reference(x: Val, c: u32, r: *mut usize) { if v(x).is_none() { return INVALID; } n().refs.push((x, c)); *r = n().refs.len(); OK }
    napi_delete_reference(r: usize) { if r == 0 || r > n().refs.len() || n().refs[r - 1].0 == 0 { sx::fail("node", "a reference is deleted twice"); } n().refs[r - 1].0 = 0; OK }
    napi_reference_ref(r: usize, c: *mut u32) { n().refs[r - 1].1 += 1; if !c.is_null() { *c = n().refs[r - 1].1; } OK }
    napi_reference_unref(r: usize, c: *mut u32) { let x = &mut n().refs[r - 1]; if x.0 == 0 || x.1 == 0 { return GENERIC; } x.1 -= 1; if !c.is_null() { *c = x.1; } OK }
    napi_get_reference_value(r: usize, o: *mut Val) { if r == 0 || r > n().refs.len() { return INVALID; } if n().refs[r - 1].0 == 0 { sx::fail("node", "a deleted reference is used"); } put(o, n().refs[r - 1].0) }
    napi_create_buffer(l: usize, d: *mut *mut c_void, r: *mut Val) { let p = Box::leak(vec![0u8; l].into_boxed_slice()).as_mut_ptr(); if !d.is_null() { *d = p as _; } put(r, new(V::Buffer(p, l))) }
    napi_create_buffer_copy(l: usize, s: *const u8, d: *mut *mut c_void, r: *mut Val) { let p = Box::leak(std::slice::from_raw_parts(s, l).to_vec().into_boxed_slice()).as_mut_ptr(); if !d.is_null() { *d = p as _; } put(r, new(V::Buffer(p, l))) }
    napi_create_external_buffer(l: usize, d: *mut c_void, f: Option<Fin>, hint: *mut c_void, r: *mut Val) { let x = new(V::Buffer(d as *mut u8, l)); if let Some(f) = f { n().vals[x].fin = Some((f, hint)); } put(r, x) }
    napi_get_buffer_info(x: Val, d: *mut *mut c_void, l: *mut usize) { match v(x).map(|o| &o.v) { Some(V::Buffer(p, k)) => { if !d.is_null() { *d = if *k == 0 { ptr::null_mut() } else { *p as *mut c_void }; } if !l.is_null() { *l = *k; } OK } _ => INVALID } }
    napi_is_exception_pending(r: *mut bool) { *r = pending(); OK }
    napi_get_and_clear_last_exception(r: *mut Val) { let e = n().exc.take(); put(r, e.unwrap_or(undefined())) }
    napi_throw(e: Val) { if pending() { return PENDING; } n().exc = Some(e); OK }
    napi_throw_error(_code: *const u8, m: *const u8) { if pending() { return PENDING; } let m = new(V::Str(cstr(m, usize::MAX))); n().exc = Some(new(V::Error(m))); OK }
    napi_throw_type_error(_code: *const u8, m: *const u8) { if pending() { return PENDING; } let m = new(V::Str(cstr(m, usize::MAX))); n().exc = Some(new(V::Error(m))); OK }
    napi_create_promise(d: *mut usize, r: *mut Val) { if pending() { return PENDING; } let p = new(V::Promise(Prom::Pending)); n().deferred.push((p, false)); *d = n().deferred.len(); put(r, p) }
    napi_resolve_deferred(d: usize, x: Val) { settle(d, Prom::Resolved(x)) }
    napi_reject_deferred(d: usize, x: Val) { settle(d, Prom::Rejected(x)) }
    napi_add_env_cleanup_hook(f: Option<unsafe extern "C" fn(*mut c_void)>, a: *mut c_void) { if let Some(f) = f { n().hooks.push((f, a)); } OK }
    napi_remove_env_cleanup_hook(_f: Option<unsafe extern "C" fn(*mut c_void)>, a: *mut c_void) { n().hooks.retain(|h| h.1 != a); OK }
    napi_create_threadsafe_function(func: Val, _res: Val, name: Val, max: usize, threads: usize, fdata: *mut c_void, fin: Option<Fin>, ctx: *mut c_void, cb: Option<unsafe extern "C" fn(Env, Val, *mut c_void, *mut c_void)>, r: *mut usize) {
        if v(name).is_none() || threads == 0 { return INVALID; } let Some(cb) = cb else { sx::inconclusive("a thread-safe function without a callback of its own") };
        n().tsfn.push(Tsfn { queue: VecDeque::new(), threads, closing: false, finalized: false, cb, ctx, fin, fdata, func, max }); *r = n().tsfn.len(); OK }
    napi_ref_threadsafe_function(t: usize) { if n().tsfn[t - 1].finalized { sx::fail("node", "a finalized thread-safe function is used"); } OK }
    napi_unref_threadsafe_function(t: usize) { if n().tsfn[t - 1].finalized { sx::fail("node", "a finalized thread-safe function is used"); } OK }
}
fn settle(d: usize, p: Prom) -> St {
    let (x, done) = n().deferred[d - 1]; if done { sx::fail("check", "a promise is settled once"); }
    n().deferred[d - 1].1 = true; n().vals[x].v = V::Promise(p); n().settled.push((x, os::now())); OK
}
// these may be called by any thread
#[no_mangle] pub unsafe extern "C" fn napi_call_threadsafe_function(t: usize, data: *mut c_void, _mode: i32) -> St {
    let t = &mut n().tsfn[t - 1]; if t.finalized || t.threads == 0 { sx::fail("node", "a released thread-safe function is called"); } if t.closing { t.threads -= 1; return CLOSING; }
    if t.max > 0 && t.queue.len() >= t.max { sx::inconclusive("a thread-safe function with a full queue"); } t.queue.push_back(data); OK
}
#[no_mangle] pub unsafe extern "C" fn napi_acquire_threadsafe_function(t: usize) -> St { let t = &mut n().tsfn[t - 1]; if t.closing { return CLOSING; } t.threads += 1; OK }
#[no_mangle] pub unsafe extern "C" fn napi_release_threadsafe_function(t: usize, mode: i32) -> St { let t = &mut n().tsfn[t - 1]; if t.finalized || t.threads == 0 { return INVALID; } t.threads -= 1; if mode == 1 { t.closing = true; } OK }
/// one turn of the event loop; true if something was done
pub fn turn() -> bool { unsafe {
    let mut any = false;
    for i in 0..n().tsfn.len() {
        loop {
            let t = &mut n().tsfn[i]; if t.finalized { break; }
            if let Some(d) = if t.closing { None } else { t.queue.pop_front() } { let (cb, f, c) = (t.cb, t.func, t.ctx); os::in_proc(n().proc_, || cb(ENV, f, c, d)); sx::check(!pending(), "nothing is thrown by a callback"); any = true; continue; }
            if t.threads == 0 || t.closing { t.finalized = true; any = true; if let Some(f) = t.fin { let d = t.fdata; os::in_proc(n().proc_, || f(ENV, d, ptr::null_mut())); } }
            break;
        }
    }
    any
} }
/// A new environment with the module loaded.
pub fn start(p: usize) {
    unsafe { N = Box::into_raw(Box::new(Node { vals: vec![], exc: None, refs: vec![], deferred: vec![], tsfn: vec![], hooks: vec![], exports: 0, order: 0, settled: vec![], proc_: p })); }
    new(V::Undefined); new(V::Undefined); new(V::Object); let e = new(V::Object); n().exports = e;
    extern "C" { fn napi_register_module_v1(env: Env, exports: Val) -> Val; }
    sx::run_ctors(); os::in_proc(p, || unsafe { napi_register_module_v1(ENV, e) }); sx::check(!pending(), "the module loads");
}
/// The environment ends: hooks in reverse order.
pub fn stop() { while let Some((f, a)) = n().hooks.pop() { os::in_proc(n().proc_, || unsafe { f(a) }); } }
/// What JavaScript does: properties, calls, construction.
pub fn get(x: Val, k: &str) -> Val { unsafe { getp(x, k) } }
pub fn object(p: &[(&str, Val)]) -> Val { let o = new(V::Object); for (k, x) in p { setp(o, k.to_string(), *x); } o }
pub fn put_prop(x: Val, k: &str, y: Val) { setp(x, k.to_string(), y) }
pub fn num(x: i64) -> Val { new(V::Num(x)) } pub fn boolean(x: bool) -> Val { new(V::Bool(x)) } pub fn string(s: &str) -> Val { new(V::Str(s.into())) } pub fn array(a: Vec<Val>) -> Val { new(V::Array(a)) }
pub fn buffer(b: &[u8]) -> Val { let p = Box::leak(b.to_vec().into_boxed_slice()).as_mut_ptr(); new(V::Buffer(p, b.len())) }
pub fn call(this: Val, k: &str, args: &[Val]) -> Result<Val, String> {
    let f = get(this, k); let r = os::in_proc(n().proc_, || unsafe { invoke(f, this, args.to_vec()) });
    match n().exc.take() { Some(e) => Err(text(e)), None => Ok(if r == 0 { undefined() } else { r }) }
}
pub fn construct(k: &str, args: &[Val]) -> Result<Val, String> {
    let c = get(n().exports, k); let this = new(V::Object); n().vals[this].class = c; os::in_proc(n().proc_, || unsafe { invoke(c, this, args.to_vec()) });
    match n().exc.take() { Some(e) => Err(text(e)), None => Ok(this) }
}
pub fn promise(x: Val) -> Prom { match n().vals[x].v { V::Promise(p) => p, _ => sx::fail("check", "a promise is returned") } }
/// when a promise was settled
pub fn settled_at(x: Val) -> std::time::Duration { for (y, t) in &n().settled { if *y == x { return *t; } } os::now() }
pub fn number(x: Val) -> i64 { match n().vals[x].v { V::Num(k) => k, _ => sx::fail("check", "a number is returned") } }
pub fn bytes(x: Val) -> &'static [u8] { match n().vals[x].v { V::Buffer(p, l) => if l == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, l) } }, _ => sx::fail("check", "a buffer is returned") } }
pub fn list(x: Val) -> Vec<Val> { match &n().vals[x].v { V::Array(a) => a.clone(), _ => sx::fail("check", "an array is returned") } }
pub fn message(x: Val) -> String { text(x) }
pub fn is_error(x: Val) -> bool { matches!(n().vals[x].v, V::Error(_)) }
/// The collector frees an object nobody refers to any more.
pub fn collect(x: Val) { let o = &mut n().vals[x]; if let Some((p, f, h)) = o.wrap.take() { if let Some(f) = f { os::in_proc(n().proc_, || unsafe { f(ENV, p, h) }); } } let o = &mut n().vals[x]; if let Some((f, h)) = o.fin.take() { let d = match o.v { V::Buffer(p, _) => p as *mut c_void, _ => ptr::null_mut() }; os::in_proc(n().proc_, || unsafe { f(ENV, d, h) }); } }
pub fn live_tsfn() -> usize { n().tsfn.iter().filter(|t| !t.finalized).count() }
#[allow(dead_code)] type Unused = RefCell<()>;
