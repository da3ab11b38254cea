//! C18: descriptors are closed once, not used afterwards, and not inherited.
use crate::{os, sx, util::*};
use std::time::Duration;
struct S { p: Vec<usize>, e: Vec<Option<Keep<Ep>>>, base: Vec<usize>, held: Vec<(usize, Keep<Message<BytesMessage>>)>, app: Vec<usize> }
const L: [&str; 4] = ["a", "b", "c", "d"];
fn hygiene() {
    for p in 0..os::os().procs.len() {
        sx::check(os::fds_without_cloexec(p) == 0, "no descriptor of the library is inherited by programs which are executed");
        sx::check(os::os().procs[p].bad_close == 0, "a descriptor is closed once");
        sx::check(os::os().procs[p].bad_use == 0, "no descriptor is used after it was closed");
    }
}
impl S {
    fn new(n: usize) -> S {
        os::init(); let p: Vec<usize> = (0..n).map(|_| os::new_proc()).collect();
        let e = (0..n).map(|i| Some(join_as(p[i], label!(L[i])))).collect(); os::settle(); hygiene();
        let base = p.iter().map(|q| os::open_fds(*q)).collect();
        S { p, e, base, held: vec![], app: vec![0; n] }
    }
    fn send(&self, i: usize, s: Selector, objs: usize, regs: usize, data: usize, ok: bool) {
        let p = self.p[i]; let e = self.e[i].as_ref().unwrap();
        os::in_proc(p, || { let mut m = Message::new(s, bm(1, &vec![0; data])); for k in 0..objs { m.objects.push(obj(p, k as u64).0); } for _ in 0..regs { m.memory_regions.push(MemoryRegion::new(8).unwrap()); } sx::check(e.0.send(m).is_ok() == ok, "sending succeeds exactly when the message fits"); });
        os::settle(); hygiene();
    }
    fn recv(&mut self, i: usize, keep: bool) {
        let p = self.p[i]; let Some(e) = self.e[i].as_mut() else { return };
        let v = drain(p, &mut e.1); for m in v { if keep { self.held.push((p, Keep::new(m))); } else { drop_in(p, m); } } hygiene();
    }
    /// everybody reads, drops what was received, and the controller learns who is gone
    fn finish(mut self, late: usize) {
        for i in 0..self.p.len() { self.recv(i, false); }
        for (p, m) in std::mem::take(&mut self.held) { drop_in(p, Keep::into_inner(m)); }
        if self.e[0].is_some() {
            // what waits expires, and the controller looks for peers which are gone
            os::sleep(Duration::from_secs(100)); for _ in 0..3 { self.send(0, uni("nobody"), 0, 0, 0, true); os::sleep(Duration::from_secs(100)); self.send(0, multi(LabelOp::True), 0, 0, 0, true); for i in 0..self.p.len() { self.recv(i, false); } }
            let gone = (1..self.p.len()).filter(|i| self.e[*i].is_none()).count();
            sx::check(os::open_fds(self.p[0]) == self.base[0] - 2 * gone, "the controller keeps descriptors only for the endpoints which are there"); let _ = late;
        }
        for i in 0..self.p.len() { if self.e[i].is_some() { if i > 0 { sx::check(os::open_fds(self.p[i]) == self.base[i], "an endpoint has as many descriptors as before"); } } else if i > 0 { sx::check(os::open_fds(self.p[i]) == 3, "an endpoint which is gone leaves no descriptor behind"); } }
        for p in &self.p { sx::check(os::maps(*p) == 0, "no mapping is left"); }
        for i in 1..self.p.len() { if let Some(e) = self.e[i].take() { drop_in(self.p[i], Keep::into_inner(e)); os::settle(); sx::check(os::open_fds(self.p[i]) == 3, "an endpoint which is gone leaves no descriptor behind"); } }
        hygiene(); sx::reach("closed");
    }
    fn leave(&mut self, i: usize) {
        let (t, r) = Keep::into_inner(self.e[i].take().unwrap()); let p = self.p[i];
        match sx::pick(3, "drop") { 0 => { drop_in(p, t); os::settle(); drop_in(p, r); } 1 => { drop_in(p, r); os::settle(); drop_in(p, t); } _ => { let u = t.clone(); drop_in(p, (t, r)); os::settle(); drop_in(p, u); } }
        os::settle(); hygiene();
    }
    fn step(&mut self) {
        let n = self.p.len();
        match sx::pick(8, "operation") {
            0 | 1 => {
                let live: Vec<usize> = (0..n).filter(|i| self.e[*i].is_some()).collect(); let i = live[sx::pick(live.len(), "sender")];
                let s = match sx::pick(5, "to") { 0 => uni("a"), 1 => uni("c"), 2 => multi(LabelOp::True), 3 => uni("nobody"), _ => ttl(uni("nobody"), Duration::from_secs(60)) };
                let (o, r) = [(0, 0), (1, 0), (0, 1), (2, 1)][sx::pick(4, "attached")]; self.send(i, s, o, r, 0, true);
            }
            2 => { let i = 1 + sx::pick(n - 1, "sender"); if self.e[i].is_some() { self.send(i, uni("c"), 1, 1, 140_000, false); } else { sx::assume(false); } }
            3 => { let i = sx::pick(n, "receiver"); let k = sx::flag("keep"); self.recv(i, k); }
            4 => { let i = 1 + sx::pick(n - 1, "which"); sx::assume(self.e[i].is_some()); self.leave(i); }
            5 => { // somebody who is refused, or who says nothing sensible
                let q = os::new_proc(); let tok = [&b"no"[..], b"tok"][sx::pick(2, "token")]; let kind = sx::pick(4, "kind");
                let r = match kind {
                    0 => { let r = os::in_proc(q, || join::<BytesMessage, BytesMessage>(opts("bus", label!("q"), "no", true), secs(3)).map(Keep::new)); sx::check(r.is_err(), "a wrong token is refused"); os::settle(); sx::check(os::open_fds(q) == 3, "a refused join leaves no descriptor behind"); None }
                    1 => raw_join(q, b"bus", [0xFF, 9, 9, 9], &wconnect([9, 9, 9], tok, &[b"q"])),
                    2 => { let c = Raw::connect(q, b"bus").unwrap(); let o = os::app_object(q, 7); let k = sx::pick(3, "descriptors"); c.send(&[1, 2, 3, 4, 5, 6, 7, 8, 9], &vec![o; k]); Some((c, Raw { p: q, fd: o })) }
                    _ => { let c = Raw::connect(q, b"bus").unwrap(); let o = os::app_object(q, 7); let k = sx::pick(3, "descriptors"); c.send(&frame(ver(), &wsel(&[0], true, if k == 2 { &CONNECT } else { &ACK }, 1), b"xyz"), &vec![o; k]); Some((c, Raw { p: q, fd: o })) }
                };
                os::settle(); hygiene(); if let Some((c, r)) = r { c.close(); r.close(); } os::settle();
            }
            6 => { let i = 1 + sx::pick(n - 1, "which"); sx::assume(self.e[i].is_some()); std::mem::forget(self.e[i].take()); os::kill(self.p[i]); os::settle(); self.p[i] = os::new_proc(); }
            _ => { let i = 1 + sx::pick(n - 1, "which"); sx::assume(self.e[i].is_none()); let p = self.p[i]; self.e[i] = Some(join_as(p, label!(L[i]))); os::settle(); hygiene(); }
        }
    }
}
fn ops(n: usize, k: usize) { let mut s = S::new(k); for _ in 0..n { s.step(); } s.finish(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_ops() { ops(2, 3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_ops_deep() { ops(3, 3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_ops_four() { ops(4, 2) }
/// a process which has reached its limit of descriptors when messages arrive: what was received of a message is closed
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_limit() {
    let mut s = S::new(3); let at = [0, 2][sx::pick(2, "process at its limit")]; let room = sx::pick(5, "descriptors left"); let (o, r) = (sx::pick(3, "objects"), sx::pick(3, "regions"));
    let p = s.p[at]; os::os().procs[p].max_fds = os::open_fds(p) + room;
    s.send(1, uni(L[at]), o, r, 0, true);
    // an endpoint of another process; its own attachments are not under the limit
    let e = s.e[at].as_mut().unwrap(); let got = os::in_proc(p, || match e.1.recv(msec(5)) { Ok(m) => Some(Keep::new(m)), Err(_) => None });
    os::settle(); hygiene();
    sx::check(got.is_some() == (o + r <= room), "a message which can be received completely is");
    if let Some(m) = got { sx::check(m.objects.len() == o && m.memory_regions.len() == r, "a message is received completely"); drop_in(p, Keep::into_inner(m)); sx::check(os::open_fds(p) == s.base[at], "no descriptor is left"); sx::reach("received"); }
    else { sx::reach("dropped"); }
    os::os().procs[p].max_fds = 1024; os::settle();
    if at == 2 { os::in_proc(p, || { let e = s.e[2].as_mut().unwrap(); let _ = e.1.recv(secs(3)); }); os::settle(); sx::check(os::open_fds(p) == s.base[2], "no descriptor is left"); sx::check(s.e[2].is_some(), ""); }
    else { os::in_proc(s.p[1], || { let _ = s.e[1].as_mut().unwrap().1.recv(secs(3)); }); s.send(1, uni("b"), 0, 0, 0, true); s.recv(1, false); os::sleep(Duration::from_secs(100)); s.send(0, uni("nobody"), 0, 0, 0, true); os::sleep(Duration::from_secs(100)); s.send(0, uni("nobody"), 0, 0, 0, true); sx::check(os::open_fds(p) == s.base[0], "no descriptor is left"); }
}
/// the controller dies; the others rejoin while their threads send and receive
fn rejoin(delays: usize) {
    let mut s = S::new(3); std::mem::forget(s.e[0].take()); os::kill(s.p[0]); if sx::flag("settle") { os::settle(); }
    let mut th = vec![]; os::os().delays = delays;
    for i in 1..3 { let p = s.p[i]; let t = s.e[i].as_ref().unwrap().0.clone(); let k = sx::pick(2, "attached"); th.push(os::spawn(p, move || { let mut m = Message::new(uni("nobody"), bm(1, &[])); for _ in 0..k { m.objects.push(obj(p, 1).0); m.memory_regions.push(MemoryRegion::new(8).unwrap()); } sx::check(t.send(m).is_ok(), "sending succeeds after rejoining"); drop(t); })); }
    if sx::flag("receive") { for i in 1..3 { os::in_proc(s.p[i], || { let _ = s.e[i].as_mut().unwrap().1.recv(msec(1)); }); } }
    for t in th { os::join_thread(t); } os::os().delays = 0; os::settle(); hygiene();
    for _ in 0..2 { for i in 1..3 { os::in_proc(s.p[i], || { let _ = s.e[i].as_mut().unwrap().1.recv(msec(1)); }); os::settle(); } }
    sx::check(os::listeners() == 1, "one endpoint hosts the controller");
    let ctl = if os::listens(s.p[1]) { 1 } else { 2 };
    sx::check(os::open_fds(s.p[3 - ctl]) == s.base[1], "an endpoint which rejoins has as many descriptors as before");
    sx::check(os::open_fds(s.p[ctl]) == s.base[0] - 2, "the controller keeps descriptors only for the endpoints which are there");
    let c = 3 - ctl; let e = s.e[c].take().unwrap(); drop_in(s.p[c], Keep::into_inner(e)); os::settle(); sx::check(os::open_fds(s.p[c]) == 3, "an endpoint which is gone leaves no descriptor behind");
    hygiene(); sx::reach("rejoined");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_rejoin() { rejoin(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_rejoin_deep() { rejoin(2) }
fn size(any: bool) -> usize { if any { let s = sx::usz("size"); sx::assume(s == 4 || s >= 1 << 40); s } else { [4, 1 << 50, 3 << 62][sx::pick(3, "size")] } }
/// creating, cloning, attaching, mapping and allocating memory regions when system calls fail, and of sizes the system refuses: no descriptor and no mapping is left over
fn local(n: usize, any: bool) {
    os::init(); let p = os::new_proc(); let base = os::open_fds(p); let mut h: Vec<MemoryRegion> = vec![]; let mut o: Vec<Object> = vec![]; let mut reg = MemoryRegistry::default(); let mut registry = false;
    for _ in 0..n {
        os::os().faults = sx::pick(2, "failures"); let before = (os::open_fds(p), os::maps(p));
        let ok = os::in_proc(p, || match sx::pick(6, "operation") {
            0 => { let s = size(any); match MemoryRegion::new(s) { Some(r) => { h.push(r); true } None => false } }
            1 => { sx::assume(!h.is_empty()); match h[0].clone() { Ok(r) => { h.push(r); true } Err(_) => false } }
            2 => { sx::assume(!h.is_empty()); match h[0].object().clone() { Ok(x) => { o.push(x); true } Err(_) => false } }
            3 => { sx::assume(!h.is_empty()); let s = sx::pick(6, "bytes"); let i = h.len() - 1; let _ = h[i].map(..s).is_ok(); true }
            4 => { sx::assume(!h.is_empty()); drop(h.pop()); true }
            _ => { let s = size(any); registry = true; match reg.alloc(s, None) { Some(r) => { h.push(r); true } None => false } }
        });
        os::os().faults = 0; if !ok && !registry { sx::check((os::open_fds(p), os::maps(p)) == before, "an operation which fails leaves no descriptor and no mapping behind"); }
        hygiene();
    }
    drop_in(p, (h, o, reg)); sx::check(os::open_fds(p) == base, "no descriptor is left"); sx::check(os::maps(p) == 0, "no mapping is left"); hygiene(); sx::reach("closed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_local() { local(2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_local_any() { local(1, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_local_deep() { local(3, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_local_deeper() { local(4, false) }
/// joining while system calls fail
fn joins(n: usize) {
    os::init(); let p: Vec<usize> = (0..2).map(|_| os::new_proc()).collect(); let base: Vec<usize> = p.iter().map(|q| os::open_fds(*q)).collect();
    let first = sx::pick(2, "failing"); let mut e = vec![]; os::os().horizon = os::now() + Duration::from_secs(1000);
    for i in 0..2 { if i == first { os::os().faults = n; } let t = sx::pick(2, "timeout"); let o = opts("bus", label!(L[i]), "tok", true); let q = p[i];
        match os::in_proc(q, || join::<BytesMessage, BytesMessage>(o, if t == 0 { secs(30) } else { msec(0) })) { Ok(x) => e.push(Some(Keep::new(x))), Err(JoinError::Timeout) => { e.push(None); os::settle(); sx::check(os::open_fds(q) == base[i], "joining which fails leaves no descriptor behind"); } Err(_) => sx::fail("check", "a failure is temporary") }
        os::settle(); if i == first && sx::flag("no further failures") { os::os().faults = 0; } }
    os::os().faults = 0; hygiene();
    let both = e.iter().all(|x| x.is_some());
    if both { let a = e[0].as_ref().unwrap(); send(p[0], a, uni("b"), 5); os::settle(); let b = e[1].as_mut().unwrap(); let g = formats(p[1], &mut b.1); sx::check(g == [5], "messages flow after failures while joining"); sx::reach("joined"); }
    if let Some(x) = e[1].take() { let own = os::listens(p[1]); drop_in(p[1], Keep::into_inner(x)); os::settle(); if !own { sx::check(os::open_fds(p[1]) == base[1], "no descriptor is left"); } }
    hygiene(); sx::reach("closed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_joins() { joins(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fd_joins_deep() { joins(2) }
