//! C20: the C interface, called as C does: through the declarations of its header, with plain pointers and numbers.
use crate::{live, os, sx, util::*};
use std::ffi::{c_char, c_void};
use std::time::Duration;
pub type H = *mut c_void;
#[repr(C)] #[derive(Clone, Copy)] pub struct Sel { op: *const H, mode: i32, ttl: u32 }
#[repr(C)] pub struct Opt { id: *const c_char, label: *const H, token: *const c_char, ctl: bool }
mod c {
    use super::*;
    #[allow(clashing_extern_declarations)]
    extern "C" {
        pub fn ipmb_rstring_data(r: *const H, p: *mut *const c_char, n: *mut usize);
        pub fn ipmb_rstring_drop(r: H);
        pub fn ipmb_version(a: *mut u8, b: *mut u8, c: *mut u8);
        pub fn ipmb_version_pre() -> H;
        pub fn ipmb_join(o: Opt, timeout: u32, s: *mut H, r: *mut H) -> i32;
        pub fn ipmb_sender_drop(s: H);
        pub fn ipmb_send(s: *mut H, m: H) -> i32;
        pub fn ipmb_receiver_drop(r: H);
        pub fn ipmb_recv(r: *mut H, m: *mut H, timeout: u32) -> i32;
        pub fn ipmb_memory_registry() -> H;
        pub fn ipmb_memory_registry_drop(r: H);
        pub fn ipmb_memory_registry_alloc(r: *mut H, n: usize, tag: *const c_char, out: *mut H) -> i32;
        pub fn ipmb_memory_registry_alloc_with_free(r: *mut H, n: usize, tag: *const c_char, ctx: *mut c_void, f: Option<extern "C" fn(*mut c_void)>, out: *mut H) -> i32;
        pub fn ipmb_memory_registry_maintain(r: *mut H);
        pub fn ipmb_message(s: Sel, format: u16, p: *const u8, n: u32) -> H;
        pub fn ipmb_message_drop(m: H);
        pub fn ipmb_message_bytes_data(m: *const H, format: *mut u16, p: *mut *const u8, n: *mut u32);
        pub fn ipmb_message_object_append(m: *mut H, o: u64);
        pub fn ipmb_message_object_retrieve(m: *mut H, i: usize) -> u64;
        pub fn ipmb_message_object_get(m: *const H, i: usize) -> u64;
        pub fn ipmb_object_drop(o: u64);
        pub fn ipmb_message_memory_region_append(m: *mut H, r: H);
        pub fn ipmb_message_memory_region_retrieve(m: *mut H, i: usize) -> H;
        pub fn ipmb_message_memory_region_get(m: *mut H, i: usize) -> H;
        pub fn ipmb_memory_region(n: usize, out: *mut H) -> i32;
        pub fn ipmb_memory_region_drop(r: H);
        pub fn ipmb_memory_region_map(r: *mut H, off: usize, n: isize, real: *mut isize) -> *mut u8;
        pub fn ipmb_memory_region_ref_count(r: *const H) -> u32;
        pub fn ipmb_memory_region_clone(r: *const H, out: *mut H) -> i32;
        pub fn ipmb_label() -> H;
        pub fn ipmb_label_drop(l: H);
        pub fn ipmb_label_insert(l: *mut H, s: *const c_char);
        pub fn ipmb_label_op_bool(v: bool) -> H;
        pub fn ipmb_label_op_leaf(s: *const c_char) -> H;
        pub fn ipmb_label_op_drop(l: H);
        pub fn ipmb_label_op_not(l: H) -> H;
        pub fn ipmb_label_op_and(l: H, r: H) -> H;
        pub fn ipmb_label_op_or(l: H, r: H) -> H;
    }
}
use c::*;
const NULL: H = std::ptr::null_mut();
const FOREVER: u32 = !0;
fn cstr(s: &[u8]) -> Vec<c_char> { let mut v: Vec<c_char> = s.iter().map(|b| *b as c_char).collect(); v.push(0); v }
/// an endpoint which was joined through the C interface
pub struct CEp { pub s: H, pub r: H }
fn cjoin_raw(p: usize, id: &[u8], labels: &[&[u8]], tok: &[u8], ctl: bool, t: u32, want: (bool, bool)) -> (i32, CEp) {
    os::in_proc(p, || unsafe {
        let mut l = ipmb_label(); for x in labels { let x = cstr(x); ipmb_label_insert(&mut l, x.as_ptr()); }
        let (i, k) = (cstr(id), cstr(tok)); let mut e = CEp { s: NULL, r: NULL };
        let c = ipmb_join(Opt { id: i.as_ptr(), label: &l, token: k.as_ptr(), ctl }, t, if want.0 { &mut e.s } else { std::ptr::null_mut() }, if want.1 { &mut e.r } else { std::ptr::null_mut() });
        ipmb_label_drop(l); (c, e)
    })
}
fn cjoin(p: usize, l: &str) -> CEp { let (c, e) = cjoin_raw(p, b"bus", &[l.as_bytes()], b"tok", true, 30_000, (true, true)); sx::check(c == 0 && !e.s.is_null() && !e.r.is_null(), "joining succeeds"); e }
fn part(p: usize, e: CEp) { os::in_proc(p, || unsafe { ipmb_sender_drop(e.s); ipmb_receiver_drop(e.r); }) }
fn leaf(s: &str) -> H { let c = cstr(s.as_bytes()); unsafe { ipmb_label_op_leaf(c.as_ptr()) } }
fn cbuild(f: &F) -> H { unsafe { match f { F::T => ipmb_label_op_bool(true), F::N => ipmb_label_op_bool(false), F::L(s) => leaf(s), F::Not(a) => ipmb_label_op_not(cbuild(a)), F::And(a, b) => { let x = cbuild(a); ipmb_label_op_and(x, cbuild(b)) } F::Or(a, b) => { let x = cbuild(a); ipmb_label_op_or(x, cbuild(b)) } } } }
/// a message; the expression is borrowed and dropped
fn cmsg(op: H, mode: i32, ttl: u32, f: u16, d: &[u8]) -> H { unsafe { let m = ipmb_message(Sel { op: &op, mode, ttl }, f, if d.is_empty() { std::ptr::null() } else { d.as_ptr() }, d.len() as u32); ipmb_label_op_drop(op); m } }
fn csend(p: usize, e: &mut CEp, m: H) -> i32 { os::in_proc(p, || unsafe { ipmb_send(&mut e.s, m) }) }
fn crecv(p: usize, e: &mut CEp, t: u32) -> (i32, H) { os::in_proc(p, || unsafe { let mut m = NULL; let c = ipmb_recv(&mut e.r, &mut m, t); sx::check((c == 0) == !m.is_null(), "a message is stored exactly when one was received"); (c, m) }) }
fn data(m: H) -> (u16, Vec<u8>) { unsafe { let (mut f, mut p, mut n) = (0, std::ptr::null(), 0); ipmb_message_bytes_data(&m, &mut f, &mut p, &mut n); let n = sx::conc(n as u64) as usize; (f, std::slice::from_raw_parts(p, n).to_vec()) } }
fn fds(p: usize) -> usize { os::open_fds(p) }

/// labels, expressions and modes arrive as the library has them
fn labels(depth: usize, names: usize) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let f = tree(depth, 1); let n = sx::pick(names + 1, "names"); let l: Vec<String> = (0..n).map(|_| ascii(1, "name")).collect();
    // a C string ends at its first nul: such names are empty
    let cut = |s: &String| if s.as_bytes()[0] == 0 { String::new() } else { s.clone() }; let l2: Vec<String> = l.iter().map(cut).collect();
    fn cutf(f: F) -> F { match f { F::L(s) => F::L(if s.as_bytes()[0] == 0 { String::new() } else { s }), F::Not(a) => F::Not(Box::new(cutf(*a))), F::And(a, b) => { let x = cutf(*a); F::And(Box::new(x), Box::new(cutf(*b))) } F::Or(a, b) => { let x = cutf(*a); F::Or(Box::new(x), Box::new(cutf(*b))) } x => x } }
    let mut s = cjoin(p, "sender"); let v: Vec<&[u8]> = l.iter().map(|x| x.as_bytes()).collect(); let (c, mut e) = cjoin_raw(q, b"bus", &v, b"tok", true, 30_000, (true, true)); sx::check(c == 0, "joining succeeds"); os::settle();
    let mode = sx::pick(2, "mode") as i32; let f = cutf(f);
    let m = os::in_proc(p, || cmsg(cbuild(&f), mode, 0, 9, b"d")); sx::check(csend(p, &mut s, m) == 0, "sending succeeds"); os::settle();
    let (w0, w1) = (eval(&f, &["sender".to_string()]), eval(&f, &l2));
    let (c0, m0) = crecv(p, &mut s, 0); let (c, m) = crecv(q, &mut e, 0); let (g0, g1) = (c0 == 0, c == 0);
    sx::check((g0 | g1) == (w0 | w1) && (!g0 | w0) && (!g1 | w1) && (g0 & g1) == (w0 & w1 & (mode == 1)), "a message is delivered as its expression says"); sx::check((g0 || c0 == -2) && (g1 || c == -2), "a timeout is reported as a timeout");
    if g0 { os::in_proc(p, || unsafe { ipmb_message_drop(m0) }); } if g1 { os::in_proc(q, || unsafe { ipmb_message_drop(m) }); sx::reach("delivered"); } else { sx::reach("not"); }
    part(q, e); let _ = s;
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_labels() { labels(1, 2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_labels_deep() { labels(2, 1) }
/// unicast goes to one of two, multicast to both
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_mode() {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect(); let mut s = cjoin(p[0], "s"); let mut e = [cjoin(p[1], "x"), cjoin(p[2], "x")]; os::settle();
    let mode = sx::pick(2, "mode") as i32; let m = os::in_proc(p[0], || cmsg(leaf("x"), mode, 0, 1, b"")); sx::check(csend(p[0], &mut s, m) == 0, "sending succeeds"); os::settle();
    let mut n = 0; for i in 0..2 { let (c, m) = crecv(p[i + 1], &mut e[i], 0); if c == 0 { n += 1; os::in_proc(p[i + 1], || unsafe { ipmb_message_drop(m) }); } }
    sx::check(n == if mode == 1 { 2 } else { 1 }, "unicast goes to one, multicast to all"); sx::reach("mode");
}
/// format, bytes and attachments arrive unchanged; every index
fn messages(max: usize, counts: usize) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let mut s = cjoin(p, "s"); let mut e = cjoin(q, "r"); let back = sx::flag("controller receives"); os::settle();
    let (a, b) = if back { (q, p) } else { (p, q) }; let base = (fds(a), fds(b));
    let f = sx::u16v("format"); let d = sx::vec(sx::pick(max + 1, "length"), "payload"); let (no, nr) = (sx::pick(counts, "objects"), sx::pick(counts, "regions"));
    let m = os::in_proc(a, || cmsg(leaf(if back { "s" } else { "r" }), 0, 0, f, &d));
    let (f1, d1) = data(m); sx::check((f1 == f) & same(&d, &d1), "a message has the format and the bytes it was made of");
    let mut m = m; let mut od = vec![]; let mut rd = vec![];
    os::in_proc(a, || unsafe {
        for k in 0..no { let o = os::app_object(a, k as u64); od.push(os::desc_of(a, o).unwrap()); ipmb_message_object_append(&mut m, o as u64); }
        for _ in 0..nr { let mut r = NULL; sx::check(ipmb_memory_region(16, &mut r) == 0, "creating a memory region succeeds"); let mut k = 0; let b = ipmb_memory_region_map(&mut r, 0, -1, &mut k); sx::check(k == 16 && !b.is_null(), "the whole region is mapped"); *b = 40 + rd.len() as u8; rd.push(40 + rd.len() as u8); ipmb_message_memory_region_append(&mut m, r); }
    });
    let send = sx::flag("sent");
    if send { sx::check(csend(a, if back { &mut e } else { &mut s }, m) == 0, "sending succeeds"); sx::check(fds(a) == base.0 || a == p, "sending consumes the message"); os::settle(); sx::check(fds(a) == base.0, "sending consumes the message"); let (c, m1) = crecv(b, if back { &mut s } else { &mut e }, 0); sx::check(c == 0, "the message arrives"); m = m1; let (f1, d1) = data(m); sx::check((f1 == f) & same(&d, &d1), "format and bytes arrive unchanged"); }
    let w = if send { b } else { a };
    // any index
    let (i, j) = (sx::usz("object"), sx::usz("region")); let take = sx::pick(2, "retrieve") == 1;
    os::in_proc(w, || unsafe {
        if take { let o = ipmb_message_object_retrieve(&mut m, i); sx::check((o != 0) == (i < no), "an object is retrieved exactly if its index is in range"); if o != 0 { let i = sx::conc(i as u64) as usize; sx::check(os::desc_of(w, o as i32) == Some(od[i]), "the object with the index is retrieved"); ipmb_message_drop_keep(&mut m, w, o, no, i, &od); } }
        else { let o = ipmb_message_object_get(&m, i); sx::check((o != 0) == (i < no), "an object is found exactly if its index is in range"); if o != 0 { let i = sx::conc(i as u64) as usize; sx::check(os::desc_of(w, o as i32) == Some(od[i]), "the object with the index is found"); sx::check(ipmb_message_object_get(&m, i) == o, "a borrowed object stays in the message"); } }
        let mut r = if take { ipmb_message_memory_region_retrieve(&mut m, j) } else { ipmb_message_memory_region_get(&mut m, j) };
        sx::check(!r.is_null() == (j < nr), "a region is found exactly if its index is in range");
        if !r.is_null() {
            let j = sx::conc(j as u64) as usize; let b = ipmb_memory_region_map(&mut r, 0, 1, std::ptr::null_mut()); sx::check(!b.is_null() && *b == rd[j], "the region with the index is found, with its content"); sx::check(ipmb_memory_region_ref_count(&r) == 1, "a region has one handle");
            if take { let mut r2 = NULL; sx::check(ipmb_memory_region_clone(&r, &mut r2) == 0 && ipmb_memory_region_ref_count(&r) == 2, "cloning makes another handle"); ipmb_memory_region_drop(r2); sx::check(ipmb_memory_region_ref_count(&r) == 1, "dropping releases a handle"); for k in 0..nr - 1 { let mut x = ipmb_message_memory_region_get(&mut m, k); let b = ipmb_memory_region_map(&mut x, 0, 1, std::ptr::null_mut()); sx::check(*b == rd[if k < j { k } else { k + 1 }], "a retrieved region leaves the message, the others stay in order"); } sx::check(ipmb_message_memory_region_get(&mut m, nr - 1).is_null(), "a retrieved region leaves the message"); }
        }
        ipmb_message_drop(m);
        if take && !r.is_null() { let b = ipmb_memory_region_map(&mut r, 0, 1, std::ptr::null_mut()); sx::check(!b.is_null() && *b == rd[sx::conc(j as u64) as usize], "a retrieved region outlives its message"); ipmb_memory_region_drop(r); }
    });
    sx::check(fds(w) == if send { base.1 } else { base.0 }, "what stays in a message is freed with it, what was retrieved by its owner"); sx::check(os::maps(w) == 0, "every mapping is released");
    sx::check(os::os().procs[w].bad_close == 0 && os::os().procs[w].bad_use == 0, "an object is closed once"); sx::reach(if send { "received" } else { "local" });
}
/// a retrieved object outlives the message
#[allow(non_snake_case)]
unsafe fn ipmb_message_drop_keep(m: &mut H, w: usize, o: u64, no: usize, i: usize, od: &[os::DescId]) { for k in 0..no - 1 { let x = ipmb_message_object_get(m, k); sx::check(os::desc_of(w, x as i32) == Some(od[if k < i { k } else { k + 1 }]), "a retrieved object leaves the message, the others stay in order"); } sx::check(ipmb_message_object_get(m, no - 1) == 0, "a retrieved object leaves the message"); ipmb_object_drop(o); sx::check(os::desc_of(w, o as i32).is_none(), "dropping an object closes it"); }
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_messages() { messages(4, 3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_messages_three() { messages(1, 4) }
/// how long a call waits
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_timeouts() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let e = cjoin(p, "s"); let e2 = cjoin(q, "r"); os::settle();
    let t = sx::u32v("timeout"); let d = sx::u8v("pause") as u64; sx::assume((t < 4000) | (t > 9_000_000)); let at = sx::pick(2, "receiver"); let (rp, mut r, sp, mut s) = if at == 0 { (p, e, q, e2) } else { (q, e2, p, e) };
    let m = os::in_proc(sp, || cmsg(leaf(if at == 0 { "s" } else { "r" }), 0, 0, 5, b"x"));
    let th = os::spawn(sp, move || { let m = m; os::sleep(Duration::new(d >> 3, (d as u32 & 7) * 125_000_000)); sx::check(csend(sp, &mut s, m) == 0, "sending succeeds"); std::mem::forget(s); });
    let t0 = os::now(); let (c, m) = crecv(rp, &mut r, t); let el = os::now() - t0; let ms = d * 125;
    if c == 0 { sx::check(ms <= t as u64 + 1, "a timeout is a number of milliseconds"); sx::check(data(m).0 == 5, "the message arrives"); os::in_proc(rp, || unsafe { ipmb_message_drop(m) }); sx::reach("received"); }
    else { sx::check(c == -2, "a timeout is reported as a timeout"); sx::check(t != FOREVER, "the largest timeout is none"); sx::check(t as u64 <= ms, "a timeout is a number of milliseconds"); let l = el.as_secs() * 1000 + (el.subsec_nanos() / 1_000_000) as u64; sx::check((l >= t as u64) & (l <= t as u64 + 1), "a timeout is a number of milliseconds"); os::join_thread(th); sx::reach("timeout"); }
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_forever() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let e = cjoin(p, "s"); let e2 = cjoin(q, "r"); os::settle();
    let at = sx::pick(2, "receiver"); let (rp, mut r, sp, mut s) = if at == 0 { (p, e, q, e2) } else { (q, e2, p, e) }; let d = sx::u64v("pause"); sx::assume(d < 900_000); os::os().eintr = sx::pick(2, "interruptions");
    let m = os::in_proc(sp, || cmsg(leaf(if at == 0 { "s" } else { "r" }), 0, 0, 5, b"x")); os::spawn(sp, move || { let m = m; os::sleep(Duration::from_secs(d)); sx::check(csend(sp, &mut s, m) == 0, "sending succeeds"); std::mem::forget(s); });
    let (c, m) = crecv(rp, &mut r, FOREVER); sx::check(c == 0 && data(m).0 == 5, "the largest timeout is none"); sx::reach("received");
}
/// joining: what is reported, what is stored
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_join() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let kind = sx::pick(7, "kind"); let want = (sx::flag("sender"), sx::flag("receiver"));
    let t0 = os::now();
    let (c, code) = match kind {
        0 => (cjoin_raw(q, b"bus", &[b"a"], b"tok", true, FOREVER, want), 0),
        1 => { let _ = cjoin(p, "s"); (cjoin_raw(q, b"bus", &[b"a"], b"tok", sx::flag("may become controller"), FOREVER, want), 0) }
        2 => { let _ = cjoin(p, "s"); (cjoin_raw(q, b"bus", &[b"a"], b"no", true, FOREVER, want), -5) }
        3 => { let t = sx::u32v("timeout"); sx::assume(t < 9000); let r = cjoin_raw(q, b"bus", &[b"a"], b"tok", false, t, want); let el = os::now() - t0; let l = el.as_secs() * 1000 + (el.subsec_nanos() / 1_000_000) as u64; sx::check((l >= t as u64) & (l <= t as u64 + 3000), "a timeout is a number of milliseconds"); (r, -2) }
        4 => { os::os().permission = Some(13); let r = cjoin_raw(q, b"bus", &[b"a"], b"tok", true, FOREVER, want); os::os().permission = None; (r, -6) }
        5 => (cjoin_raw(q, if sx::flag("token") { b"bus" } else { b"\xff" }, &[b"a"], b"\xc0", true, FOREVER, want), -1),
        _ => { // a controller of another version
            let l = Raw::listen(p, b"bus").unwrap(); let out = std::rc::Rc::new(std::cell::RefCell::new(None)); let o = out.clone();
            let t = os::spawn(q, move || { *o.borrow_mut() = Some(cjoin_raw(q, b"bus", &[b"a"], b"tok", false, FOREVER, want)); }); os::settle();
            let (_c, w) = raw_serve(&l).unwrap(); w.send(&frame(ver(), &wsel(&[0], false, &ACK, 0), &[1, 7, 7, 7]), &[]); os::join_thread(t); let r = out.borrow_mut().take().unwrap(); (r, -4)
        }
    };
    let (c, e) = c; sx::check(c == code, "joining reports what happened");
    sx::check(!e.s.is_null() == (c == 0 && want.0) && !e.r.is_null() == (c == 0 && want.1), "handles are stored exactly when joining succeeds and they are wanted");
    if c != 0 { os::settle(); sx::check(fds(q) == 3, "a failed join leaves nothing behind"); }
    os::in_proc(q, || unsafe { if !e.s.is_null() { ipmb_sender_drop(e.s); } if !e.r.is_null() { ipmb_receiver_drop(e.r); } }); os::settle();
    if kind == 1 { sx::check(fds(q) == 3, "dropping both handles closes the endpoint"); } sx::reach("joined");
}
/// errors of sending and receiving; a message is consumed in any case
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_errors() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let mut s = cjoin(p, "s"); let mut e = cjoin(q, "r"); os::settle(); let base = (fds(p), fds(q));
    match sx::pick(2, "kind") {
        0 => { let d = vec![0u8; 140_000]; let mut m = os::in_proc(q, || cmsg(leaf("s"), 0, 0, 1, &d)); os::in_proc(q, || unsafe { let o = os::app_object(q, 1); ipmb_message_object_append(&mut m, o as u64); }); sx::check(csend(q, &mut e, m) == -1, "a message which cannot be sent is reported"); sx::check(fds(q) == base.1, "sending consumes the message"); }
        _ => { // undecodable
            let n = sx::pick(3, "length"); let d = sx::vec(n, "payload"); let at = sx::flag("controller receives"); let r = os::new_proc(); let ok = n >= 2 && d[0] < 251 && d[1] <= (n - 2) as u8;
            let (x, _y) = raw_join(r, b"bus", ver(), &wconnect([ver()[1], ver()[2], ver()[3]], b"tok", &[b"z"])).unwrap(); os::settle(); x.send(&frame(ver(), &wsel(&[2, 1, if at { b's' } else { b'r' }], false, &BYTES, 0), &d), &[]); os::settle();
            let (c, m) = if at { crecv(p, &mut s, 0) } else { crecv(q, &mut e, 0) };
            sx::check(c == if ok { 0 } else { -3 }, "a payload which does not decode is reported"); if c == 0 { os::in_proc(if at { p } else { q }, || unsafe { ipmb_message_drop(m) }); }
        }
    }
    let m = os::in_proc(p, || cmsg(leaf("r"), 0, 0, 8, b"y")); sx::check(csend(p, &mut s, m) == 0, "sending succeeds"); os::settle(); let (c, m) = crecv(q, &mut e, 0); sx::check(c == 0 && data(m).0 == 8, "the endpoint works as before"); sx::reach("reported");
}
/// the time to live is a number of milliseconds
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_ttl() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let mut s = cjoin(p, "s"); let t = sx::u32v("ttl"); let d = sx::u32v("pause"); sx::assume(d < 400_000);
    let m = os::in_proc(p, || cmsg(leaf("r"), sx::pick(2, "mode") as i32, t, 5, b"x")); sx::check(csend(p, &mut s, m) == 0, "sending succeeds"); os::settle();
    let d = (d / 128) as u64 * 128; os::sleep(Duration::from_millis(d)); let mut e = cjoin(q, "r"); os::settle(); let (c, m) = crecv(q, &mut e, 0);
    if c == 0 { sx::check(d <= t as u64, "a message whose time to live is up is not delivered"); sx::check(data(m).0 == 5, "the message arrives"); sx::reach("delivered"); } else { sx::check(c == -2, "a timeout is reported as a timeout"); sx::check((d >= t as u64) | (d >= 300_000), "a message which is still alive is delivered"); sx::reach("expired"); }
}
/// mapping with any offset and size
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_map() {
    os::init(); let p = os::new_proc(); let size = [0usize, 1, 7, 4084, 8300][sx::pick(5, "size")]; let (off, n) = (sx::usz("offset"), sx::usz("size") as isize);
    os::in_proc(p, || unsafe {
        let mut r = NULL; sx::check(ipmb_memory_region(size, &mut r) == 0 && !r.is_null(), "creating a memory region succeeds");
        let real = sx::flag("real size wanted"); let mut k: isize = -77; let b = ipmb_memory_region_map(&mut r, off, n, if real { &mut k } else { std::ptr::null_mut() });
        let ok = if n < 0 { off <= size } else { (off <= size) & (n as usize <= size.wrapping_sub(off)) };
        sx::check(!b.is_null() == ok, "a range is mapped exactly if it is inside of the region");
        if !b.is_null() { let want = if n < 0 { size - off } else { n as usize }; if real { sx::check(k == want as isize, "the real size is the requested one, or what there is"); } sx::reach("mapped"); } else { sx::check(k == -77, "a failing call stores nothing"); sx::reach("refused"); }
        sx::check(ipmb_memory_region_ref_count(&r) == 1, "a new region has one handle"); ipmb_memory_region_drop(r);
    });
    sx::check(fds(p) == 3 && os::maps(p) == 0, "nothing is left");
}
/// what is mapped is what another handle has at the offset
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_map_bytes() {
    os::init(); let p = os::new_proc();
    os::in_proc(p, || unsafe {
        let (mut r, mut r2) = (NULL, NULL); sx::check(ipmb_memory_region(5000, &mut r) == 0 && ipmb_memory_region_clone(&r, &mut r2) == 0, "creating a memory region succeeds");
        let off = [0usize, 1, 2, 4083, 4084, 4085, 4999][sx::pick(7, "offset")]; let v = sx::u8v("value"); let n = [1isize, -1][sx::pick(2, "size")];
        let a = ipmb_memory_region_map(&mut r, off, n, std::ptr::null_mut()); *a = v; let mut k = 0; let b = ipmb_memory_region_map(&mut r2, 0, -1, &mut k); sx::check(k == 5000, "the whole region is mapped");
        for i in [0usize, 1, 2, 4083, 4084, 4085, 4999] { sx::check(*b.add(i) == if i == off { v } else { 0 }, "the mapped bytes are those of the range"); }
        ipmb_memory_region_drop(r); sx::check(*b.add(off) == v, "another handle keeps the region"); ipmb_memory_region_drop(r2); sx::reach("bytes");
    });
    sx::check(fds(p) == 3 && os::maps(p) == 0, "nothing is left");
}
extern "C" fn bump(p: *mut c_void) { unsafe { *(p as *mut u32) += 1; } }
/// registries: tags, callbacks, failing requests
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_registry() {
    os::init(); let p = os::new_proc(); let mut ran = [0u32; 2];
    os::in_proc(p, || unsafe {
        let tags = [None, Some(cstr(b"t")), Some(cstr(b"u"))]; let tag = |i: usize| match &tags[i] { None => std::ptr::null(), Some(t) => t.as_ptr() };
        let mut g = ipmb_memory_registry(); let n = [1usize, 64][sx::pick(2, "size")];
        let (i, j) = (sx::pick(3, "tag"), sx::pick(3, "tag")); let cb = sx::pick(3, "callback"); let mut r = NULL;
        let f: Option<extern "C" fn(*mut c_void)> = if cb == 2 { Some(bump) } else { None };
        let c = if cb == 0 { ipmb_memory_registry_alloc(&mut g, n, tag(i), &mut r) } else { ipmb_memory_registry_alloc_with_free(&mut g, n, tag(i), ran.as_mut_ptr() as H, f, &mut r) };
        sx::check(c == 0 && !r.is_null(), "allocating succeeds"); let mut k = 0; let b = ipmb_memory_region_map(&mut r, 0, -1, &mut k); sx::check(!b.is_null() && k >= n as isize, "a region is at least as large as requested"); *b = 99; sx::check(ipmb_memory_region_ref_count(&r) == 2, "the registry has another handle");
        ipmb_memory_registry_maintain(&mut g); sx::check(ran[0] == 0, "a callback does not run while the region is held");
        let held = sx::flag("held"); if !held { ipmb_memory_region_drop(r); if sx::flag("maintain") { ipmb_memory_registry_maintain(&mut g); sx::check(ran[0] == (cb == 2) as u32, "a callback runs once with its context"); } }
        let mut r2 = NULL; sx::check(ipmb_memory_registry_alloc_with_free(&mut g, n, tag(j), ran.as_mut_ptr().add(1) as H, Some(bump), &mut r2) == 0, "allocating succeeds");
        let b = ipmb_memory_region_map(&mut r2, 0, -1, std::ptr::null_mut()); sx::check((*b == 99) == (!held && i == j), "a free region is reused for its tag only"); if *b == 99 { sx::check(ran[0] == (cb == 2) as u32, "a callback runs once with its context"); sx::reach("reused"); }
        let mut x = NULL; sx::check(ipmb_memory_registry_alloc(&mut g, 3 << 62, tag(j), &mut x) == -1 && x.is_null(), "a request which cannot be fulfilled is reported");
        if held { ipmb_memory_region_drop(r); } ipmb_memory_region_drop(r2); ipmb_memory_registry_drop(g);
        sx::check(ran[0] == (cb == 2) as u32 && ran[1] == 1, "a callback runs once with its context");
        let mut x = NULL; sx::check(ipmb_memory_region(3 << 62, &mut x) == -1 && x.is_null(), "a request which cannot be fulfilled is reported");
    });
    sx::check(fds(p) == 3 && os::maps(p) == 0, "nothing is left"); sx::reach("registry");
}
/// nothing is leaked or freed twice: versions, labels, expressions, messages
#[no_mangle] #[inline(never)] pub extern "C" fn h_c_handles() {
    os::init(); let f = tree(2, 1); let d = sx::vec(2, "payload"); let which = sx::pick(5, "what"); let (mut a, mut b, mut c) = (9u8, 9u8, 9u8); let nulls = sx::pick(8, "wanted");
    let round = |a: *mut u8, b: *mut u8, c: *mut u8| unsafe {
        match which {
            0 => { let r = ipmb_version_pre(); let (mut p, mut n) = (std::ptr::null(), 99); ipmb_rstring_data(&r, &mut p, &mut n); let s = std::slice::from_raw_parts(p as *const u8, n); sx::check(s == ipmb::version_pre().as_bytes(), "the version is that of the library"); ipmb_rstring_drop(r); ipmb_version(a, b, c); }
            1 => { let x = cbuild(&f); ipmb_label_op_drop(x); }
            2 => { let mut l = ipmb_label(); for s in [&b"a"[..], b"bb", b"a", b"", b"\xff"] { let s = cstr(s); ipmb_label_insert(&mut l, s.as_ptr()); } ipmb_label_drop(l); }
            3 => { let m = cmsg(cbuild(&f), 0, 5, 1, &d); let m2 = cmsg(leaf("x"), 1, 0, 1, &[]); ipmb_message_drop(m2); ipmb_message_drop(m); }
            _ => { let mut g = ipmb_memory_registry(); ipmb_memory_registry_maintain(&mut g); ipmb_memory_registry_drop(g); }
        }
    };
    let n = std::ptr::null_mut();
    round(n, n, n); let l = live(); round(if nulls & 1 != 0 { &mut a } else { n }, if nulls & 2 != 0 { &mut b } else { n }, if nulls & 4 != 0 { &mut c } else { n }); sx::check(live() == l, "every handle is freed once");
    if which == 0 { let v = version(); let w = |k: usize, x: u8| if nulls & k != 0 { x } else { 9 }; sx::check(a == w(1, v.major()) && b == w(2, v.minor()) && c == w(4, v.patch()), "the version is that of the library"); }
    sx::reach("freed");
}
