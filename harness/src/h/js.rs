//! C23: the JavaScript binding.
use crate::{node, os, sx, util::*};
use node::{Prom, Val};
use std::time::Duration;
struct J { p: usize, q: usize, peer: Option<Keep<Ep>>, s: Val, r: Val, sent: u16, prom: Vec<P>, closed: Option<Duration>, base: usize, live: usize }
struct P { v: Val, made: Duration, limit: Option<Duration>, done: bool }
fn jsopts(id: &str, labels: &[&str], tok: &str, aff: bool) -> Val { node::object(&[("identifier", node::string(id)), ("label", node::array(labels.iter().map(|l| node::string(l)).collect())), ("token", node::string(tok)), ("controllerAffinity", node::boolean(aff))]) }
fn jsjoin(id: &str, l: &[&str], tok: &str, aff: bool, timeout: Option<u32>) -> Result<(Val, Val), String> {
    let mut a = vec![jsopts(id, l, tok, aff)]; if let Some(t) = timeout { a.push(node::num(t as i64)); }
    node::call(node::n().exports, "join", &a).map(|o| (node::get(o, "sender"), node::get(o, "receiver")))
}
fn pump() { loop { os::settle(); if !node::turn() { break; } } }
impl J {
    /// one process with the binding, one which uses the library; either may be the controller's
    fn new() -> J {
        os::init(); let (p, q) = (os::new_proc(), os::new_proc()); node::start(p); let base = os::open_fds(p); let live = node::live_tsfn();
        let first = sx::flag("the peer is the controller"); let mut peer = None; if first { peer = Some(join_as(q, label!("q"))); }
        let (s, r) = match jsjoin("bus", &["j"], "tok", true, None) { Ok(x) => x, Err(_) => sx::fail("check", "joining succeeds") };
        if !first { peer = Some(join_as(q, label!("q"))); }
        pump(); J { p, q, peer, s, r, sent: 0, prom: vec![], closed: None, base, live }
    }
    fn send(&mut self) { let k = self.sent; self.sent += 1; send(self.q, self.peer.as_ref().unwrap(), uni("j"), k); }
    fn recv(&mut self, t: Option<u32>) {
        let a: Vec<Val> = t.iter().map(|t| node::num(*t as i64)).collect(); let made = os::now();
        match node::call(self.r, "recv", &a) { Ok(v) => { sx::check(self.closed.is_none(), "receiving fails after closing"); self.prom.push(P { v, made, limit: t.map(|t| made + Duration::from_millis(t as u64)), done: false }); } Err(e) => { sx::check(self.closed.is_some() && e == "closed", "receiving fails only after closing"); sx::reach("refused"); } }
    }
    fn close(&mut self) { let t0 = os::now(); sx::check(node::call(self.r, "close", &[]).is_ok(), "closing succeeds"); sx::check(os::now() - t0 <= Duration::from_secs(1), "closing takes less than a second"); if self.closed.is_none() { self.closed = Some(t0); } }
    /// the promises so far: messages in the order of the requests, rejections for a reason
    fn judge(&mut self) {
        let now = os::now(); let mut next = 0; let mut waiting = false;
        for p in self.prom.iter_mut() {
            match node::promise(p.v) {
                Prom::Pending => { waiting = true; if let Some(l) = p.limit { sx::check(now <= l + Duration::from_millis(201), "a receive whose timeout has passed is rejected"); } sx::check(self.closed.is_none(), "closing rejects every pending receive"); }
                Prom::Resolved(m) => {
                    let b = node::get(m, "bytesMessage"); sx::check(node::number(node::get(b, "format")) == next as i64, "messages are given to the receives in the order of the requests, none is lost"); next += 1;
                    if !p.done { if let Some(l) = p.limit { sx::check(node::settled_at(p.v) <= l, "a receive whose timeout has passed does not consume a message"); } p.done = true; }
                    sx::check(!waiting, "receives are served in the order of the requests"); sx::reach("resolved");
                }
                Prom::Rejected(e) => {
                    sx::check(node::is_error(e), "a rejection has an error"); let e = node::message(e);
                    if e == "timeout" { match p.limit { Some(l) => if !p.done { sx::check(node::settled_at(p.v) >= l, "a receive is not rejected before its timeout has passed") }, None => sx::fail("check", "a receive without a timeout is not rejected for it") } sx::reach("timeout"); }
                    else { sx::check(e == "closed" && self.closed.is_some(), "a receive is rejected for its timeout or by closing"); sx::reach("closed"); }
                    p.done = true;
                }
            }
        }
        if waiting { sx::check(next == self.sent, "a message is given to a pending receive"); }
        sx::check(next <= self.sent, "a message is given to one receive");
    }
    fn wait(&mut self, ms: u64) { let end = os::now() + Duration::from_millis(ms); while os::now() < end { os::sleep((end - os::now()).min(Duration::from_millis(10))); pump(); self.judge(); } }
    /// everything is released
    fn end(mut self) {
        if self.closed.is_none() && sx::flag("closed at last") { self.close(); pump(); self.judge(); }
        let pend: Vec<Val> = if self.closed.is_none() { self.prom.iter().map(|p| p.v).collect() } else { vec![] };
        if sx::flag("collected first") { node::collect(self.r); node::stop(); } else { node::stop(); node::collect(self.r); } node::collect(self.s); pump();
        self.closed = Some(os::now()); self.judge(); let _ = pend;
        sx::check(node::live_tsfn() == self.live, "the environment can end"); let q = self.q; if let Some(e) = self.peer.take() { drop_in(q, Keep::into_inner(e)); } pump();
        if !os::listens(self.p) { for m in &self.prom { if let Prom::Resolved(m) = node::promise(m.v) { for o in node::list(node::get(m, "objects")).into_iter().chain(node::list(node::get(m, "memoryRegions"))) { node::collect(o); } } } sx::check(os::open_fds(self.p) == self.base, "no descriptor is left when everything is collected"); sx::check(os::maps(self.p) == 0, "no mapping is left when everything is collected"); }
        sx::reach("ended");
    }
    fn step(&mut self) {
        match sx::pick(6, "operation") {
            0 => self.recv(None),
            1 => { let t = [0, 100, 300][sx::pick(3, "timeout")]; self.recv(Some(t)); }
            2 => { sx::assume(self.sent < 3); self.send(); }
            3 => { let d = [10, 150, 450][sx::pick(3, "pause")]; self.wait(d); }
            4 => self.close(),
            _ => { pump(); self.judge(); }
        }
    }
}
fn history(n: usize) { let mut j = J::new(); for _ in 0..n { j.step(); } pump(); j.judge(); j.end(); }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_history() { history(3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_history_deep() { history(4) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_history_deeper() { history(5) }
/// messages keep coming, faster than the binding looks for timeouts when it is idle
fn steady(n: u64) {
    let mut j = J::new(); let gap = [50, 150, 190][sx::pick(3, "gap")]; let a = sx::pick(4, "receives"); let b = sx::pick(2, "with a timeout"); let at = sx::pick(4, "closing after") as u64;
    for _ in 0..a { j.recv(None); } for _ in 0..b { j.recv(Some(100)); }
    let (q, t) = (j.q, j.peer.as_ref().unwrap().0.clone()); let sent = std::rc::Rc::new(std::cell::Cell::new(0u16)); let s2 = sent.clone();
    let th = os::spawn(q, move || { for k in 0..n { os::sleep(Duration::from_millis(gap)); if s2.get() == u16::MAX { break; } s2.set(k as u16 + 1); let _ = t.send(Message::new(uni("j"), bm(k as u16, &[]))); } drop(t); });
    let end = os::now() + Duration::from_millis(gap * 6 + at * 130); while os::now() < end { os::sleep(Duration::from_millis(10)); pump(); j.sent = sent.get(); j.judge(); }
    j.close(); pump(); j.sent = sent.get(); j.judge(); sent.set(u16::MAX); os::join_thread(th); j.end();
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_steady() { steady(40) }
// ---------------------------------------------------------------- values
fn must(r: Result<Val, String>, what: &str) -> Val { match r { Ok(x) => x, Err(e) => { let _ = e; sx::fail("check", what) } } }
/// an expression, built with the class
fn jsop(f: &F) -> Val {
    match f {
        F::T => must(node::construct("LabelOp", &[node::boolean(true)]), "an expression of a truth value"), F::N => must(node::construct("LabelOp", &[node::boolean(false)]), "an expression of a truth value"),
        F::L(s) => must(node::construct("LabelOp", &[node::string(s)]), "an expression of a name"),
        F::Not(a) => { let x = jsop(a); must(node::call(x, "not", &[]), "negation"); x }
        F::And(a, b) => { let x = jsop(a); let y = jsop(b); must(node::call(x, "and", &[y]), "conjunction"); x }
        F::Or(a, b) => { let x = jsop(a); let y = jsop(b); must(node::call(x, "or", &[y]), "disjunction"); x }
    }
}
fn jssel(op: Val, mode: i64, ttl: i64) -> Val { node::object(&[("labelOp", op), ("mode", node::num(mode)), ("ttl", node::num(ttl))]) }
fn jsmsg(format: i64, data: &[u8]) -> Val { node::object(&[("format", node::num(format)), ("data", node::buffer(data))]) }
fn jsend(s: Val, sel: Val, m: Val, bufs: Vec<Val>) -> Result<Val, String> { node::call(s, "send", &[sel, m, node::array(bufs)]) }
/// who receives what JavaScript sends
fn route(depth: usize) {
    os::init(); let p = os::new_proc(); node::start(p); let first = sx::flag("JavaScript has the controller");
    let names: Vec<String> = (0..2).map(|_| ascii(1, "label")).collect(); let q = [os::new_proc(), os::new_proc()]; let mut e: Vec<Keep<Ep>> = vec![]; let mut js = None;
    for i in 0..3 { if (i == 0) == first && js.is_none() { js = Some(jsjoin("bus", &["j"], "tok", true, None).ok().unwrap()); } else if e.len() < 2 { let l = label!(names[e.len()]); e.push(join_as(q[e.len()], l)); } }
    if js.is_none() { js = Some(jsjoin("bus", &["j"], "tok", true, None).ok().unwrap()); }
    while e.len() < 2 { let l = label!(names[e.len()]); e.push(join_as(q[e.len()], l)); }
    let (s, r) = js.unwrap(); pump();
    let f = tree(depth, 1); let op = jsop(&f); let multicast = sx::flag("multicast"); let before = node::message(must(node::call(op, "toString", &[]), "an expression is printed"));
    must(jsend(s, jssel(op, multicast as i64, 0), jsmsg(7, &[]), vec![]), "sending succeeds"); pump();
    // the expression can be used again
    sx::check(node::message(must(node::call(op, "toString", &[]), "an expression is printed")) == before, "sending does not change the expression");
    let pr = must(node::call(r, "recv", &[node::num(0)]), "receiving succeeds"); let mine = matches!(node::promise(pr), Prom::Resolved(_)) as usize;
    let mut total = mine; let mut any = eval(&f, &["j".to_string()]); sx::check(mine == 0 || any, "a message is received only where the expression matches"); if multicast { sx::check((mine == 1) == any, "a multicast message is received wherever the expression matches"); }
    for i in 0..2 { let m = eval(&f, &names[i..i + 1]); let g = formats(q[i], &mut e[i].1).len(); total += g; any |= m; sx::check((g == 0) | m, "a message is received only where the expression matches"); if multicast { sx::check(g == m as usize, "a multicast message is received wherever the expression matches"); } }
    if !multicast { sx::check(total == any as usize, "a unicast message is received once if the expression matches anywhere"); }
    sx::reach("routed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_route() { route(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_route_deep() { route(2) }
/// what the controller is sent for a message, to the byte
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_bytes() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); node::start(p); let l = Raw::listen(q, b"bus").unwrap(); let lab = ["a", "long-enough-not-to-be-inline"][sx::pick(2, "label")]; let aff = sx::flag("affinity");
    let slot = std::rc::Rc::new(std::cell::RefCell::new(None)); let s2 = slot.clone();
    let t = os::spawn(q, move || {
        let c = l.accept(); let (f, fds) = loop { os::settle(); if let Some(x) = c.recv() { break x; } os::sleep(Duration::from_millis(1)); }; let w = Raw { p: q, fd: fds[0] };
        let mut a = vec![0u8]; a.extend_from_slice(&[7; 16]); w.send(&frame(ver(), &wsel(&[0], false, &ACK, 0), &a), &[]); *s2.borrow_mut() = Some((c, w, f)); });
    let (s, _r) = match jsjoin("bus", &[lab], "tk", aff, None) { Ok(x) => x, Err(_) => sx::fail("check", "joining succeeds") }; os::join_thread(t); let (c, _w, f) = slot.borrow_mut().take().unwrap();
    let v = version(); sx::check(parse(&f).map(|x| x.1) == Some(wconnect([v.major(), v.minor(), v.patch()], b"tk", &[lab.as_bytes()])), "the label, the token and the version are those of the options");
    let ttl = sx::u32v("ttl"); let mode = sx::pick(2, "mode"); let format = sx::u16v("format"); let n = sx::pick(4, "length"); let data = sx::vec(n, "data"); let nb = sx::pick(3, "buffers");
    let bufs: Vec<Vec<u8>> = (0..nb).map(|i| sx::vec([1, 0, 3][(i + n) % 3], "buffer")).collect();
    let r = jsend(s, jssel(jsop(&F::T), mode as i64, ttl as i64), jsmsg(format as i64, &data), bufs.iter().map(|b| node::buffer(b)).collect());
    sx::check(r.is_ok(), "sending succeeds");
    let (f, fds) = match c.recv() { Some(x) => x, None => sx::fail("check", "a message is sent") };
    let mut sel = vec![0u8, mode as u8]; sel.extend_from_slice(&BYTES); varint(nb as u64, &mut sel); varint((ttl / 1000) as u64, &mut sel); varint((ttl % 1000) as u64 * 1000000, &mut sel);
    let pay = wbytes(format, &data); let want = frame(ver(), &sel, &pay); sx::check(f.len() == want.len(), "the frame has the length of the message"); let at = want.len() - (pay.len() + 3) / 4 * 4;
    sx::check(same(&f[..8 + sel.len()], &want[..8 + sel.len()]), "mode and lifetime are those which were given"); sx::check(same(&f[at - 4..at + pay.len()], &want[at - 4..at + pay.len()]), "format and content are those which were given");
    sx::check(fds.len() == nb, "one region is sent for each buffer"); sx::reach("bytes");
}
/// what JavaScript receives is what was sent, and the other way round
fn fidelity(len: usize, back: bool) {
    let mut j = J::new(); let q = j.q; let n = sx::pick(len + 1, "length"); let data = sx::vec(n, "data"); let format = sx::u16v("format"); let (no, nr) = (sx::pick(2, "objects"), sx::pick(3, "regions"));
    let early = sx::flag("received before it is sent"); let mut pr = 0; if early { pr = must(node::call(j.r, "recv", &[]), "receiving succeeds"); }
    let mut want: Vec<Vec<u8>> = vec![]; let mut descs = vec![];
    if !back {
        os::in_proc(q, || { let mut m = Message::new(uni("j"), bm(format, &data)); for i in 0..no { let (o, d) = obj(q, 7 + i as u64); m.objects.push(o); descs.push(d); }
            for i in 0..nr { let mut r = MemoryRegion::new(3 + i).unwrap(); let c = sx::vec(3 + i, "region"); r.map(..).ok().unwrap()[..3 + i].copy_from_slice(&c); want.push(c); m.memory_regions.push(r); }
            sx::check(j.peer.as_ref().unwrap().0.send(m).is_ok(), "sending succeeds"); });
    } else {
        for i in 0..nr { want.push(sx::vec(1 + 2 * i, "buffer")); }
        must(jsend(j.s, jssel(jsop(&F::L("j".into())), 0, 0), jsmsg(format as i64, &data), want.iter().map(|b| node::buffer(b)).collect()), "sending succeeds");
    }
    pump(); if !early { pr = must(node::call(j.r, "recv", &[]), "receiving succeeds"); }
    let m = match node::promise(pr) { Prom::Resolved(m) => m, _ => sx::fail("check", "a message is received") };
    let b = node::get(m, "bytesMessage"); sx::check(node::number(node::get(b, "format")) == format as i64, "the format is the one which was sent"); let d = node::bytes(node::get(b, "data")); sx::check(d.len() == data.len(), "the content has the length which was sent"); sx::check(same(d, &data), "the content is what was sent");
    let os_ = node::list(node::get(m, "objects")); sx::check(os_.len() == if back { 0 } else { no }, "as many objects are received as were sent");
    for (o, d) in os_.iter().zip(&descs) { let fd = node::number(must(node::call(*o, "value", &[]), "an object has a value")); sx::check(os::desc_of(j.p, fd as i32) == Some(*d), "the value of an object is a descriptor of the object which was sent"); }
    let rs = node::list(node::get(m, "memoryRegions")); sx::check(rs.len() == nr, "as many regions are received as were sent");
    for (r, w) in rs.iter().zip(&want) {
        let off = sx::pick(w.len() + 2, "offset"); let size = [-1i64, 0, 1, w.len() as i64, 200][sx::pick(5, "size")];
        match node::call(*r, "map", &[node::num(off as i64), node::num(size)]) {
            Ok(x) => { let g = node::bytes(x); let cap = 4096.min(w.len()); let hi = if size < 0 { cap.max(off) } else { off + size as usize }; sx::check(g.len() == hi - off || size < 0 && g.len() >= hi - off, "a mapping has the size which was asked for"); for i in 0..g.len().min(w.len().saturating_sub(off)) { sx::check(g[i] == w[off + i], "a region has the content which was written"); } sx::reach("mapped"); }
            Err(_) => { sx::check(off > w.len() || size >= 0 && off + size as usize > w.len() || size == 0 || off == w.len(), "a range inside the region can be mapped"); sx::reach("range"); }
        }
    }
    j.prom.push(P { v: pr, made: os::now(), limit: None, done: true }); 
    let J { p, peer, s, r, base, .. } = j; let mut peer = peer; node::stop(); pump(); node::collect(r); node::collect(s); drop_in(q, Keep::into_inner(peer.take().unwrap())); pump();
    for o in os_.into_iter().chain(rs) { node::collect(o); } node::collect(node::get(b, "data"));
    if !os::listens(p) { sx::check(os::open_fds(p) == base, "no descriptor is left when everything is collected"); sx::check(os::maps(p) == 0, "no mapping is left when everything is collected"); sx::reach("released"); }
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_received() { fidelity(2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_sent() { fidelity(2, true) }

// ---------------------------------------------------------------- failures
/// the controller goes away and the next one refuses the endpoint: everything pending is rejected, nothing hangs
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_refused() {
    os::init(); let (p, q, q2) = (os::new_proc(), os::new_proc(), os::new_proc()); node::start(p); let base = os::open_fds(p); let live = node::live_tsfn();
    let ctl = join_as(q, label!("q")); let (s, r) = match jsjoin("bus", &["j"], "tok", false, None) { Ok(x) => x, Err(_) => sx::fail("check", "joining succeeds") }; pump();
    let n = sx::pick(3, "pending"); let pr: Vec<Val> = (0..n).map(|_| must(node::call(r, "recv", &[]), "receiving succeeds")).collect();
    let kind = sx::pick(2, "kind"); let late = sx::pick(3, "pause") as u64; let l;
    std::mem::forget(ctl); os::kill(q); os::settle(); let mut other = None;
    if kind == 0 { other = Some(join_opt(q2, opts("bus", label!("q"), "other", true))); l = None; } else { l = Some(Raw::listen(q2, b"bus").unwrap()); }
    let t = l.map(|l| os::spawn(q2, move || { let c = l.accept(); let (_, fds) = loop { os::settle(); if let Some(x) = c.recv() { break x; } os::sleep(Duration::from_millis(1)); }; let w = Raw { p: q2, fd: fds[0] }; w.send(&frame(ver(), &wsel(&[0], false, &ACK, 0), &[1, 9, 9, 9]), &[]); os::settle(); w.close(); c.close(); l.close(); }));
    for _ in 0..(6 + late * 10) { os::sleep(Duration::from_millis(50)); pump(); } if let Some(t) = t { os::join_thread(t); }
    for (i, x) in pr.iter().enumerate() {
        match node::promise(*x) { Prom::Rejected(e) => { sx::check(node::is_error(e), "a rejection has an error"); let e = node::message(e); let want = if kind == 0 { "token mismatch" } else { "version mismatch: 9.9.9" }; if i == 0 { sx::check(e == want, "the first pending receive is rejected with the reason"); } else { sx::check(e == "closed", "the others are rejected, for the receiver is closed"); } sx::reach("rejected"); } _ => sx::fail("check", "a receive does not stay pending when the endpoint is refused") }
    }
    sx::check(node::call(r, "recv", &[]).is_err(), "receiving fails when the endpoint was refused");
    if sx::flag("closed") { sx::check(node::call(r, "close", &[]).is_ok(), "closing succeeds"); }
    node::stop(); node::collect(r); node::collect(s); pump(); sx::check(os::open_fds(p) == base, "no descriptor is left when everything is collected"); sx::check(node::live_tsfn() == live, "the environment can end"); let _ = other; sx::reach("ended");
}
/// messages which cannot be decoded: one receive each is rejected, the others are not affected
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_undecodable() {
    let mut j = J::new(); let x = os::new_proc(); let v = version();
    let (c, _r) = raw_join(x, b"bus", ver(), &wconnect([v.major(), v.minor(), v.patch()], b"tok", &[b"x"])).unwrap(); pump();
    let n = sx::pick(3, "receives before"); let mut pr: Vec<Val> = (0..n).map(|_| must(node::call(j.r, "recv", &[]), "receiving succeeds")).collect(); let mut want: Vec<Option<i64>> = vec![];
    for _ in 0..3 {
        if sx::flag("decodable") { let k = j.sent; j.send(); want.push(Some(k as i64)); os::settle(); }
        else { let pay: Vec<u8> = match sx::pick(4, "payload") { 0 => vec![], 1 => vec![5], 2 => vec![251, 1], _ => vec![5, 9, 1] }; c.send(&frame(ver(), &wsel(&[2, 1, b'j'], sx::flag("multicast"), &BYTES, 0), &pay), &[]); want.push(None); os::settle(); }
        if sx::flag("a turn") { pump(); }
    }
    pump(); while pr.len() < 4 { pr.push(must(node::call(j.r, "recv", &[]), "receiving succeeds")); } pump();
    for (p, w) in pr.iter().zip(&want) { match (node::promise(*p), w) {
        (Prom::Resolved(m), Some(k)) => { sx::check(node::number(node::get(node::get(m, "bytesMessage"), "format")) == *k, "messages are given to the receives in order"); sx::reach("resolved"); }
        (Prom::Rejected(e), None) => { sx::check(node::is_error(e) && node::message(e) != "closed" && node::message(e) != "timeout", "a message which cannot be decoded rejects a receive with the reason"); sx::reach("undecodable"); }
        _ => sx::fail("check", "each message settles one receive") } }
    sx::check(node::promise(pr[3]) == Prom::Pending, "a receive stays pending while there is nothing to receive"); j.close(); pump(); sx::check(matches!(node::promise(pr[3]), Prom::Rejected(_)), "closing rejects every pending receive");
}
/// two receivers of one environment have nothing to do with each other
fn two(steps: usize) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); node::start(p); let peer = join_as(q, label!("q")); let mut ep = vec![];
    for l in ["a", "b"] { match jsjoin("bus", &[l], "tok", true, None) { Ok(x) => ep.push(x), Err(_) => sx::fail("check", "joining succeeds") } } pump();
    let mut pr: [Vec<Val>; 2] = [vec![], vec![]]; let mut sent: [Vec<i64>; 2] = [vec![], vec![]]; let mut closed = [false; 2]; let mut k = 0;
    for _ in 0..steps {
        let i = sx::pick(2, "which");
        match sx::pick(4, "operation") {
            0 => match node::call(ep[i].1, "recv", &[]) { Ok(x) => { sx::check(!closed[i], "receiving fails after closing"); pr[i].push(x) } Err(_) => sx::check(closed[i], "receiving fails only after closing") },
            1 => { send(q, &peer, uni(["a", "b"][i]), k); if !closed[i] { sent[i].push(k as i64); } k += 1; os::settle(); if sx::flag("a turn") { pump(); } }
            2 => { sx::check(node::call(ep[i].1, "close", &[]).is_ok(), "closing succeeds"); closed[i] = true; }
            _ => { let m = if sx::flag("to the other") { let o = 1 - i; if !closed[o] { sent[o].push(k as i64); } ["a", "b"][o] } else { "q" }; must(jsend(ep[i].0, jssel(jsop(&F::L(m.into())), 0, 0), jsmsg(k as i64, &[]), vec![]), "sending succeeds after closing, too"); k += 1; os::settle(); }
        }
    }
    pump();
    for i in 0..2 { let mut g = 0; for x in &pr[i] { match node::promise(*x) {
        Prom::Resolved(m) => { sx::check(node::number(node::get(node::get(m, "bytesMessage"), "format")) == sent[i][g], "a receiver is given its own messages in order"); g += 1; }
        Prom::Rejected(_) => sx::check(closed[i], "a receive is rejected only by closing its own receiver"),
        Prom::Pending => { sx::check(!closed[i], "closing rejects every pending receive"); sx::check(g == sent[i].len(), "a message is given to a pending receive"); } } }
        if !closed[i] { sx::check(g == pr[i].len().min(sent[i].len()), "every message is given to a receive"); } }
    sx::reach("two");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_two() { two(3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_two_deep() { two(4) }
/// joining which fails throws, in time; arguments of other types throw; afterwards everything works
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_throws() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); node::start(p); let base = os::open_fds(p); let k = sx::pick(11, "mistake");
    let mut l = None; let mut e = None; let t0 = os::now();
    match k {
        0 => { e = Some(join_as(q, label!("q"))); match jsjoin("bus", &["j"], "other", true, None) { Err(m) => sx::check(m == "TokenMismatch", "joining with another token throws the reason"), Ok(_) => sx::fail("check", "joining with another token fails") } }
        1 => { l = Raw::listen(q, b"bus"); let t = [0, 1, 250][sx::pick(3, "timeout")]; match jsjoin("bus", &["j"], "tok", true, Some(t)) { Err(m) => { sx::check(m == "Timeout", "joining which takes too long throws the reason"); let d = os::now() - t0; sx::check(d >= Duration::from_millis(t as u64) && d <= Duration::from_millis(t as u64 + 4100), "joining takes no longer than the timeout"); } Ok(_) => sx::fail("check", "joining fails when nobody answers") } }
        2 => { let t = [50u32, 400][sx::pick(2, "timeout")]; match jsjoin("bus", &["j"], "tok", false, Some(t)) { Err(m) => { sx::check(m == "Timeout", "joining which takes too long throws the reason"); let d = os::now() - t0; sx::check(d >= Duration::from_millis(t as u64) && d <= Duration::from_millis(t as u64 + 500), "joining takes no longer than the timeout"); } Ok(_) => sx::fail("check", "joining fails when there is no controller") } }
        _ => {}
    }
    if let Some(l) = l { l.close(); } pump(); if k < 3 { sx::check(os::open_fds(p) == base, "joining which fails leaves nothing open"); sx::reach("join throws"); }
    if e.is_none() { e = Some(join_as(q, label!("q"))); } let mut e = e.unwrap();
    let x = node::n().exports; let bad = [node::undefined(), node::num(3), node::string("x"), node::object(&[]), node::array(vec![])];
    let (s, r) = match jsjoin("bus", &["j"], "tok", true, None) { Ok(x) => x, Err(_) => sx::fail("check", "joining succeeds") }; pump();
    let w = if k >= 3 { sx::pick(bad.len(), "value") } else { 0 }; let b = bad[w];
    let r2 = match k {
        3 => node::call(x, "join", &[b]),
        4 => { let o = jsopts("bus", &["k"], "tok", true); let f = ["identifier", "label", "token", "controllerAffinity"][sx::pick(4, "field")]; if f == "label" && w == 4 || (f == "identifier" || f == "token") && w == 2 { return; } node::put_prop(o, f, b); node::call(x, "join", &[o]) }
        5 => { if w == 0 || w == 1 { return; } node::call(x, "join", &[jsopts("bus", &["k"], "tok", true), b]) }
        6 => { if w == 0 || w == 1 { return; } node::call(r, "recv", &[b]) }
        7 => node::call(jsop(&F::T), ["and", "or"][sx::pick(2, "method")], &[b]),
        8 => { let a = sx::pick(3, "argument"); if a == 2 && w == 4 { return; } let mut v = vec![jssel(jsop(&F::T), 0, 0), jsmsg(1, &[]), node::array(vec![])]; v[a] = b; node::call(s, "send", &v) }
        9 => { let sel = jssel(jsop(&F::T), 0, 0); let f = ["labelOp", "mode", "ttl"][sx::pick(3, "field")]; if f == "ttl" && w == 1 { return; } node::put_prop(sel, f, b); node::call(s, "send", &[sel, jsmsg(1, &[]), node::array(vec![])]) }
        10 => { let m = jsmsg(1, &[]); let f = ["format", "data"][sx::pick(2, "field")]; if f == "format" && w == 1 { return; } node::put_prop(m, f, b); node::call(s, "send", &[jssel(jsop(&F::T), 0, 0), m, node::array(vec![])]) }
        _ => Err(String::new()),
    };
    if k >= 3 { sx::check(r2.is_err(), "an argument of another type throws"); sx::reach("throws"); }
    // and everything works
    must(jsend(s, jssel(jsop(&F::L("q".into())), 0, 0), jsmsg(9, &[1]), vec![]), "sending succeeds"); pump(); sx::check(formats(q, &mut e.1) == [9], "a message is received once, and no other");
    let pr = must(node::call(r, "recv", &[]), "receiving succeeds"); send(q, &e, uni("j"), 4); pump(); sx::check(matches!(node::promise(pr), Prom::Resolved(_)), "a message is received"); sx::reach("works");
}
/// the operations of JavaScript against a sender and the binding's thread, with preemptions anywhere
fn sched(delays: usize, atomics: bool) {
    let mut j = J::new(); let plan = sx::pick(6, "plan"); os::os().horizon = os::now() + Duration::from_secs(60);
    let (q, t) = (j.q, j.peer.as_ref().unwrap().0.clone()); os::os().atomics = atomics; os::os().delays = delays;
    let th = os::spawn(q, move || { for k in 0..2u16 { let _ = t.send(Message::new(uni("j"), bm(k, &[]))); } drop(t); });
    match plan {
        0 => { j.recv(None); node::turn(); j.recv(None); node::turn(); }
        1 => { j.recv(None); j.close(); node::turn(); }
        2 => { node::turn(); j.recv(Some(0)); node::turn(); j.recv(None); }
        3 => { j.recv(Some(100)); node::turn(); j.close(); }
        4 => { j.close(); node::turn(); j.recv(None); j.close(); }
        _ => { j.recv(None); node::stop(); j.closed = Some(os::now()); node::turn(); }
    }
    os::join_thread(th); os::os().delays = 0; os::os().atomics = false; j.sent = 2; pump(); pump(); j.judge(); if j.closed.is_none() { j.recv(None); j.recv(None); pump(); j.judge(); j.wait(450); } j.end();
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_sched() { sched(2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_sched_deep() { sched(3, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_j_sched_atomics() { sched(2, true) }
