//! C12, C13, C14, C15: memory regions, their reference counts, and the registry.
use crate::{os, sx, util::*};
use std::{cell::RefCell, rc::Rc, time::Duration};
fn new_region(p: usize, n: usize) -> MemoryRegion { os::in_proc(p, || match MemoryRegion::new(n) { Some(r) => r, None => sx::fail("check", "creating a memory region failed") }) }
fn clone_region(p: usize, r: &MemoryRegion) -> MemoryRegion { os::in_proc(p, || match r.clone() { Ok(r) => r, Err(_) => sx::fail("check", "cloning a memory region failed") }) }
fn dup(p: usize, r: &MemoryRegion) -> Object { os::in_proc(p, || match r.object().clone() { Ok(o) => o, Err(_) => sx::fail("check", "cloning an object failed") }) }

// ---------------------------------------------------------------- C12
/// one region, handles to it in three processes, and messages which carry it
struct Rc12 { home: usize, p: Vec<usize>, e: Vec<Option<Keep<Ep>>>, h: Vec<(usize, MemoryRegion)>, queued: Vec<Vec<usize>>, waiting: Vec<usize>, probe: Option<MemoryRegion> }
const L12: [&str; 3] = ["a", "b", "c"];
impl Rc12 {
    fn new(home: usize) -> Rc12 {
        os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
        let e = (0..3).map(|i| Some(join_as(p[i], label!(L12[i])))).collect(); os::settle();
        let probe = new_region(p[home], 8);
        Rc12 { home: p[home], p, e, h: vec![], queued: vec![vec![]; 3], waiting: vec![], probe: Some(probe) }
    }
    fn expected(&self) -> usize { self.probe.is_some() as usize + self.h.len() + self.queued.iter().flatten().sum::<usize>() + self.waiting.iter().sum::<usize>() }
    fn verify(&self) {
        os::settle();
        if let Some(r) = &self.probe { sx::check(r.ref_count() as usize == self.expected(), "the reference count is the number of live handles and of undelivered ones"); }
        for (p, r) in &self.h { os::in_proc(*p, || sx::check(r.ref_count() as usize == self.expected(), "every handle reports the number of live handles and of undelivered ones")); }
    }
    /// a message from i whose regions are k new handles
    fn message(&self, i: usize, k: usize, sel: Selector, data: usize) -> Message<BytesMessage> {
        os::in_proc(self.p[i], || { let mut m = Message::new(sel, bm(1, &vec![0; data])); for _ in 0..k { m.memory_regions.push(clone_region(self.p[i], self.source())); } m })
    }
    fn source(&self) -> &MemoryRegion { self.probe.as_ref().unwrap() }
    fn step(&mut self, send_from: usize) {
        match sx::pick(10, "operation") {
            0 => { let q = self.home; let r = clone_region(q, self.source()); self.h.push((q, r)); }
            1 => { sx::assume(!self.h.is_empty()); let i = sx::pick(self.h.len(), "which"); let (q, r) = self.h.remove(i); drop_in(q, r); }
            2 => { let q = self.home; let o = dup(q, self.source()); let r = os::in_proc(q, || MemoryRegion::from_object(o)); self.h.push((q, r)); }
            3 => {
                let to = sx::pick(3, "receiver"); let k = 1 + sx::pick(2, "how often attached"); sx::assume(self.e[to].is_some());
                let m = self.message(send_from, k, uni(L12[to]), 0); self.send(send_from, m, true); self.queued[to].push(k);
            }
            4 => { let m = self.message(send_from, 1, multi(LabelOp::True), 0); self.send(send_from, m, true); for i in 0..3 { if self.e[i].is_some() { self.queued[i].push(1); } } }
            5 => { let m = self.message(send_from, 1, if sx::flag("multicast") { multi("nobody") } else { uni("nobody") }, 0); self.send(send_from, m, true); }
            6 => { let m = self.message(send_from, 1, ttl(uni("x"), Duration::from_secs(60)), 0); self.send(send_from, m, true); self.waiting.push(1); }
            7 => { let m = self.message(send_from, 2, uni("c"), 140_000); sx::assume(send_from != 0); self.send(send_from, m, false); }
            8 => {
                let at = sx::pick(3, "receiver"); sx::assume(!self.queued[at].is_empty()); let k = self.queued[at].remove(0); os::settle();
                let p = self.p[at]; let e = self.e[at].as_mut().unwrap();
                let mut m = os::in_proc(p, || match e.1.recv(S0) { Ok(m) => m, Err(_) => sx::fail("check", "a message is missing") });
                sx::check(m.memory_regions.len() == k, "every region attached arrives");
                if sx::flag("keep") { for r in m.memory_regions.drain(..) { self.h.push((p, r)); } }
                drop_in(p, m);
            }
            _ => { // what waits expires or is collected
                sx::assume(!self.waiting.is_empty());
                if sx::flag("expires") { os::sleep(Duration::from_secs(100)); let m = Message::new(uni("nobody"), bm(2, &[])); self.send(send_from, m, true); self.waiting.clear(); }
                else {
                    let p = os::new_proc(); let mut e = join_as(p, label!("x")); os::settle(); self.verify();
                    for m in drain(p, &mut e.1) { for r in { let mut m = m; let v: Vec<_> = m.memory_regions.drain(..).collect(); v } { self.h.push((p, r)); } }
                    self.waiting.clear(); drop_in(p, Keep::into_inner(e)); os::settle();
                }
            }
        }
    }
    fn send(&self, i: usize, m: Message<BytesMessage>, ok: bool) {
        os::in_proc(self.p[i], || sx::check(self.e[i].as_ref().unwrap().0.send(m).is_ok() == ok, "sending succeeds exactly when the message fits"));
    }
    /// everybody lets go; nothing is left
    fn finish(mut self) {
        for at in 0..3 { if let Some(e) = &mut self.e[at] { let m = drain(self.p[at], &mut e.1); drop_in(self.p[at], m); self.queued[at].clear(); } }
        self.verify();
        while let Some((p, r)) = self.h.pop() { drop_in(p, r); self.verify(); }
        if !self.waiting.is_empty() { os::sleep(Duration::from_secs(100)); send(self.p[1], self.e[1].as_ref().unwrap(), uni("nobody"), 2); self.waiting.clear(); self.verify(); }
        if let Some(r) = self.probe.take() {
            let h = self.home; let o = dup(h, &r); drop_in(h, r); os::settle();
            // attaching again finds a count of zero and makes it one
            let r = os::in_proc(h, || MemoryRegion::from_object(o)); sx::check(r.ref_count() == 1, "when the last handle is gone the count is zero"); drop_in(h, r);
        }
        sx::reach("counted");
    }
}
fn counts(n: usize) {
    let from = sx::pick(2, "sender"); let mut s = Rc12::new(from); s.verify();
    for _ in 0..n { s.step(from); s.verify(); }
    s.finish();
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_ops() { counts(2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_ops_deep() { counts(3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_ops_deeper() { counts(4) }
/// endpoints which go away with unread messages
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_unread() {
    let from = sx::pick(2, "sender"); let mut s = Rc12::new(from);
    let to = sx::pick(3, "receiver"); let n = 1 + sx::pick(2, "messages");
    for _ in 0..n { let k = 1 + sx::pick(2, "how often attached"); let all = sx::flag("multicast"); let m = s.message(from, k, if all { multi(LabelOp::True) } else { uni(L12[to]) }, 0); s.send(from, m, true); for i in 0..3 { if i == to || all { s.queued[i].push(k); } } s.verify(); }
    // the receiver goes away
    let e = Keep::into_inner(s.e[to].take().unwrap()); let p = s.p[to]; let (tx, rx) = e;
    match sx::pick(3, "drop") { 0 => { drop_in(p, rx); if to == from { s.e[to] = None; } s.queued[to].clear(); s.verify(); drop_in(p, tx); } 1 => { drop_in(p, tx); s.verify(); drop_in(p, rx); } _ => { drop_in(p, (tx, rx)); } }
    s.queued[to].clear(); s.verify();
    // a message which finds nobody any more
    if from != to { let m = s.message(from, 1, uni(L12[to]), 0); s.send(from, m, true); s.verify(); }
    let mut s = s; while let Some((p, r)) = s.h.pop() { drop_in(p, r); }
    s.verify(); let r = s.probe.take().unwrap(); drop_in(s.home, r); sx::reach("counted");
}
/// the connection to the controller breaks while a message is sent: the message is sent again over the next one, and counted once
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_retry() {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); let e1 = join_opt(p[1], opts("bus", label!("b"), "tok", true)); let mut e2 = join_opt(p[2], opts("bus", label!("c"), "tok", true)); os::settle();
    let r = new_region(p[1], 8); let k = 1 + sx::pick(2, "attached");
    std::mem::forget(e0); os::kill(p[0]); if sx::flag("settle") { os::settle(); }
    let other_first = sx::flag("the other endpoint rejoined before");
    if other_first { os::in_proc(p[2], || { let _ = e2.1.recv(msec(1)); }); os::settle(); }
    let wait = sx::flag("time to live");
    os::in_proc(p[1], || { let mut m = Message::new(ttl(uni("c"), if wait { Duration::from_secs(60) } else { Duration::ZERO }), bm(3, &[])); for _ in 0..k { m.memory_regions.push(clone_region(p[1], &r)); } sx::check(e1.0.send(m).is_ok(), "sending succeeds after rejoining"); });
    os::settle(); os::in_proc(p[2], || { let _ = (); });
    let mut got = drain(p[2], &mut e2.1); os::settle(); got.extend(drain(p[2], &mut e2.1));
    sx::check(got.len() == (other_first || wait) as usize, "a message accepted after the rejoin is delivered once if its receiver is there");
    sx::check(r.ref_count() as usize == 1 + k * got.len(), "the reference count is the number of live handles and of undelivered ones");
    drop_in(p[2], got); sx::check(r.ref_count() == 1, "dropping the message releases the regions"); drop_in(p[1], r);
    sx::reach("retried");
}
// ---------------------------------------------------------------- C15
use std::ops::Bound;
/// an arbitrary range in all of its forms; None if the bounds do not describe a range of bytes, otherwise where it starts and ends
fn range() -> ((Bound<usize>, Bound<usize>), Option<(usize, Option<usize>)>) {
    let (a, b) = (sx::usz("start"), sx::usz("end"));
    let s = sx::pick(3, "start bound"); let e = sx::pick(3, "end bound");
    let lo = match s { 0 => Bound::Included(a), 1 => Bound::Excluded(a), _ => Bound::Unbounded }; let hi = match e { 0 => Bound::Included(b), 1 => Bound::Excluded(b), _ => Bound::Unbounded };
    let st = match s { 0 => Some(a), 1 => if a == usize::MAX { None } else { Some(a + 1) }, _ => Some(0) };
    let en = match e { 0 => if b == usize::MAX { Some(None) } else { Some(Some(b + 1)) }, 1 => Some(Some(b)), _ => None };
    // an inclusive end at the last number is beyond every buffer
    let want = match (st, en) { (None, _) => None, (_, Some(None)) => None, (Some(s), Some(Some(e))) => if e < s { None } else { Some((s, Some(e))) }, (Some(s), None) => Some((s, None)) };
    ((lo, hi), want)
}
fn map_one(sizes: &[usize], n: usize) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let size = sizes[sx::pick(sizes.len(), "size")];
    let mut r = new_region(p, size); sx::check(r.buffer_size() == size as u64, "a region has the size it was created with");
    let o = dup(p, &r); let fd = o.into_raw(); let d = os::desc_of(p, fd).unwrap();
    let mut other = os::in_proc(q, || MemoryRegion::from_object(unsafe { Object::from_raw(os::give(q, d)) }));
    sx::check(other.buffer_size() == size as u64, "every handle reports the size");
    // what every byte is
    let mut image = vec![0u8; size];
    for _ in 0..n {
        let (rg, want) = range(); let mine = sx::flag("through the other handle"); let w = if mine { q } else { p }; let h = if mine { &mut other } else { &mut r };
        let want = want.and_then(|(s, e)| { let e = e.unwrap_or(size); if s <= e && e <= size { Some((s, e)) } else { None } });
        os::in_proc(w, || match h.map(rg) {
            Err(_) => { sx::check(want.is_none(), "a range inside of the buffer is mapped"); sx::reach("refused"); }
            Ok(b) => match want {
                None => sx::fail("check", "a range outside of the buffer is refused"),
                Some((s, e)) => {
                    sx::check(b.len() == e - s, "the slice has exactly the requested length");
                    let s = sx::conc(s as u64) as usize; let l = sx::conc(b.len() as u64) as usize;
                    for i in [0, l / 2, l.wrapping_sub(1)] { if i < l { sx::check(b[i] == image[s + i], "the slice holds what was written through any handle"); let v = sx::u8v("value"); b[i] = v; image[s + i] = v; } }
                    sx::reach("mapped");
                }
            },
        });
    }
    // the whole buffer through both handles
    for (w, h) in [(p, &mut r), (q, &mut other)] { os::in_proc(w, || match h.map(..) { Ok(b) => { sx::check(b.len() == size, "the whole buffer is mapped"); sx::check(same(b, &image), "the buffer holds what was written through any handle, and nothing else changed"); } Err(_) => sx::fail("check", "the whole buffer is mapped") }); }
    sx::check(r.ref_count() == 2 && r.buffer_size() == size as u64, "using a mapping leaves the header alone");
    drop_in(p, r); os::in_proc(q, || sx::check(other.ref_count() == 1, "using a mapping leaves the header alone")); drop_in(q, other);
    sx::check(os::maps(p) == 0 && os::maps(q) == 0, "every mapping is released");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_map() { map_one(&[0, 1, 2, 5], 1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_map_twice() { map_one(&[3], 2) }
/// arbitrary ranges and arbitrary sizes: only lengths and errors, so that nothing needs to be enumerated
fn map_any(n: usize) {
    os::init(); let p = os::new_proc();
    let size = sx::usz("size"); sx::assume(size <= 8300);
    let mut r = new_region(p, size);
    for k in 0..n {
        let (rg, want) = range();
        os::in_proc(p, || { let got = r.map(rg); match got {
            Err(_) => { sx::check(match want { None => true, Some((s, e)) => { let e = e.unwrap_or(size); !((s <= e) & (e <= size)) } }, "a range inside of the buffer is mapped"); sx::reach("refused"); }
            Ok(b) => match want { None => sx::fail("check", "a reversed or overflowing range is refused"), Some((s, e)) => { let e = e.unwrap_or(size); sx::check((s <= e) & (e <= size), "a range outside of the buffer is refused"); sx::check(b.len() == e - s, "the slice has exactly the requested length"); sx::reach("mapped"); } }
        } });
        let _ = k;
    }
    drop_in(p, r); sx::check(os::maps(p) == 0, "every mapping is released");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_map_any() { map_any(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_map_any_two() { map_any(2) }
/// page boundaries, where the start of a mapping has to be adjusted
#[no_mangle] #[inline(never)] pub extern "C" fn h_map_pages() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let size = [4083, 4084, 4085, 8180, 12290][sx::pick(5, "size")];
    let at: Vec<usize> = [0, 1, 4083, 4084, 4085, 8179, 8180, 8181, 12276].iter().copied().filter(|x| *x <= size).collect();
    let mut r = new_region(p, size); let d = region_desc(p, &r); let mut other = os::in_proc(q, || MemoryRegion::from_object(unsafe { Object::from_raw(os::give(q, d)) }));
    let v = sx::vec(at.len(), "content");
    os::in_proc(p, || { let b = match r.map(..) { Ok(b) => b, Err(_) => sx::fail("check", "the whole buffer is mapped") }; for (i, x) in at.iter().enumerate() { if *x < size { b[*x] = v[i]; } } });
    for _ in 0..2 {
        let s = at[sx::pick(at.len(), "start")]; let l = sx::pick(6, "length"); let e = if l == 5 { size } else { s + l };
        os::in_proc(q, || match other.map(s..e) {
            Ok(b) => { sx::check(e <= size && b.len() == e - s, "a range inside of the buffer is mapped with its length"); for i in 0..b.len() { let x = s + i; let want = match at.iter().position(|y| *y == x) { Some(k) => v[k], None => 0 }; if l < 5 || at.contains(&x) { sx::check(b[i] == want, "the slice aliases exactly the requested bytes"); } } sx::reach("mapped"); }
            Err(_) => { sx::check(e > size, "a range inside of the buffer is mapped"); sx::reach("refused"); }
        });
    }
    drop_in(q, other); drop_in(p, r); sx::check(os::maps(p) == 0 && os::maps(q) == 0, "every mapping is released");
}
/// sizes no system can provide are refused, others work
#[no_mangle] #[inline(never)] pub extern "C" fn h_map_size() {
    os::init(); let p = os::new_proc(); let n = sx::usz("size");
    sx::assume((n <= 5000) | (n >= 1 << 40));
    os::in_proc(p, || match MemoryRegion::new(n) { Some(r) => { sx::check(r.buffer_size() == n as u64, "a region has the size it was created with"); sx::check(r.ref_count() == 1, "a new region has one handle"); drop(r); sx::reach("created"); } None => { sx::check(n > 5000, "a small region can be created"); sx::reach("refused"); } });
    sx::check(os::maps(p) == 0 && os::open_fds(p) == 3, "nothing is left");
}

// ---------------------------------------------------------------- C13, C14
struct Alloc { desc: os::DescId, tag: Option<String>, held: Vec<MemoryRegion>, sent: usize, cb: bool, ran: Rc<RefCell<Vec<usize>>>, at: Duration, size: usize }
struct Reg { reg: Option<MemoryRegistry>, a: Vec<Alloc>, p: usize, e: Option<Vec<Keep<Ep>>>, holders: Rc<RefCell<Vec<(os::DescId, usize)>>>, dropping: Rc<RefCell<bool>>, cbs: bool, failed: Vec<Rc<RefCell<Vec<usize>>>> }
impl Reg {
    fn new(bus: bool, cbs: bool) -> Reg {
        os::init(); let p = os::new_proc();
        let e = if bus { let q = os::new_proc(); let v = vec![join_as(p, label!("a")), join_as(q, label!("b"))]; os::settle(); Some(v) } else { None };
        Reg { reg: Some(MemoryRegistry::default()), a: vec![], p, e, holders: Default::default(), dropping: Default::default(), cbs, failed: vec![] }
    }
    fn sync(&self) { let mut h = self.holders.borrow_mut(); h.clear(); for a in &self.a { let n = a.held.len() + a.sent; if n > 0 { h.push((a.desc, n)); } } }
    fn free(&self, d: os::DescId) -> bool { self.a.iter().all(|a| a.desc != d || a.held.len() + a.sent == 0) }
    fn alloc(&mut self, size: usize, tag: Option<&str>, cb: bool) {
        self.sync();
        let ran: Rc<RefCell<Vec<usize>>> = Default::default(); let r2 = ran.clone(); let dr = self.dropping.clone();
        let n = self.a.len(); let holders = self.holders.clone(); let me: Rc<RefCell<Option<os::DescId>>> = Default::default(); let me2 = me.clone();
        let p = self.p; let faults = os::os().faults; let reg = self.reg.as_mut().unwrap();
        let r = os::in_proc(p, || if cb { reg.alloc_with_free(size, tag, move || {
            r2.borrow_mut().push(n);
            sx::check(r2.borrow().len() == 1, "a callback runs once");
            if !*dr.borrow() { match *me2.borrow() { Some(d) => sx::check(holders.borrow().iter().all(|x| x.0 != d), "a callback does not run while somebody holds the region"), None => sx::fail("check", "a callback does not run during its own allocation") } }
        }) } else { reg.alloc(size, tag) });
        let r = match r { Some(r) => r, None if os::os().faults < faults => { self.failed.push(ran); self.intact(); sx::reach("failed"); return; } None => sx::fail("check", "a small allocation succeeds") };
        let d = region_desc(p, &r); *me.borrow_mut() = Some(d);
        if !self.cbs {
            sx::check(r.buffer_size() >= size as u64, "a region is at least as large as requested");
            sx::check(self.free(d), "a region which somebody holds is not handed out");
            sx::check(r.ref_count() == 2, "a region which is handed out is referenced by the registry and its receiver only");
        }
        let now = os::now();
        match self.a.iter().rposition(|a| a.desc == d) {
            Some(i) => { if !self.cbs { sx::check(self.a[i].tag.as_deref() == tag, "a region is recycled only for its tag"); } if self.a[i].cb { sx::check(self.a[i].ran.borrow().len() == 1, "the callback of an allocation has run before its region is handed out again"); } sx::reach("recycled"); }
            None if self.cbs => (),
            None => {
                // nothing in the registry would have fitted: the same size and tag, free, and used within the last five seconds
                for a in &self.a { if a.tag.as_deref() == tag && a.size == size && self.free(a.desc) && self.a.iter().rposition(|b| b.desc == a.desc).map(|i| now - self.a[i].at < Duration::from_secs(5)).unwrap_or(false) { sx::fail("check", "a fitting free region is reused"); } }
            }
        }
        let size = self.a.iter().find(|a| a.desc == d).map(|a| a.size).unwrap_or(size);
        self.a.push(Alloc { desc: d, tag: tag.map(|t| t.to_string()), held: vec![r], sent: 0, cb, ran, at: now, size });
        self.sync();
    }
    /// an allocation which failed leaves no trace
    fn intact(&self) {
        if self.cbs { for r in &self.failed { sx::check(r.borrow().is_empty(), "the callback of an allocation which failed does not run"); } }
        else { for a in &self.a { for r in &a.held { let n: usize = self.a.iter().filter(|b| b.desc == a.desc).map(|b| b.held.len() + b.sent).sum(); let c = r.ref_count() as usize; sx::check(c == n || c == n + 1, "an allocation which failed leaves no reference behind"); } } }
    }
    /// after the registry was maintained, every callback whose region is free has run
    fn settled(&self) {
        self.intact();
        for (i, a) in self.a.iter().enumerate() { if a.cb {
            let later = self.a[i + 1..].iter().any(|b| b.desc == a.desc);
            if later || self.free(a.desc) { sx::check(a.ran.borrow().len() == 1, "a callback has run when the registry was maintained after the last holder let go"); }
        } }
    }
    fn step(&mut self, sizes: &[usize], tags: &[Option<&'static str>]) {
        let p = self.p;
        match sx::pick(if self.e.is_some() { 7 } else { 5 }, "operation") {
            0 => { let s = sizes[sx::pick(sizes.len(), "size")]; let t = tags[sx::pick(tags.len(), "tag")]; let cb = self.cbs && sx::flag("callback"); self.alloc(s, t, cb); }
            1 => { let k: Vec<usize> = (0..self.a.len()).filter(|i| !self.a[*i].held.is_empty()).collect(); sx::assume(!k.is_empty()); let i = k[sx::pick(k.len(), "which")]; let r = self.a[i].held.pop().unwrap(); drop_in(p, r); self.sync(); }
            2 => { let k: Vec<usize> = (0..self.a.len()).filter(|i| !self.a[*i].held.is_empty()).collect(); sx::assume(!k.is_empty()); let i = k[sx::pick(k.len(), "which")]; let f = os::os().faults; match os::in_proc(p, || self.a[i].held[0].clone()) { Ok(r) => self.a[i].held.push(r), Err(_) => { sx::check(os::os().faults < f, "cloning a handle succeeds"); self.intact(); } } self.sync(); }
            3 => { let s = sx::u8v("pause") as u64; let n = sx::u32v("pause.ns"); sx::assume(n < 1_000_000_000); os::sleep(Duration::new(s, n)); }
            4 => { self.sync(); let reg = self.reg.as_mut().unwrap(); os::in_proc(p, || reg.maintain()); self.settled(); }
            5 => { // a handle travels to the other endpoint
                let k: Vec<usize> = (0..self.a.len()).filter(|i| !self.a[*i].held.is_empty()).collect(); sx::assume(!k.is_empty()); let i = k[sx::pick(k.len(), "which")]; let r = self.a[i].held.pop().unwrap();
                self.a[i].sent += 1; self.sync(); let e = self.e.as_ref().unwrap();
                os::in_proc(p, || { let mut m = Message::new(uni("b"), bm(i as u16, &[])); m.memory_regions.push(r); sx::check(e[0].0.send(m).is_ok(), "sending succeeds"); }); os::settle();
            }
            _ => { let e = self.e.as_mut().unwrap(); let q = p + 1; let v = drain(q, &mut e[1].1); sx::assume(!v.is_empty()); for m in v { self.a[m.payload.format as usize].sent -= 1; drop_in(q, m); } self.sync(); }
        }
    }
    fn finish(mut self) {
        let p = self.p;
        let rel = sx::pick(3, "released at the end");
        for (i, a) in self.a.iter_mut().enumerate() { let h: Vec<_> = a.held.drain(..).collect(); if rel == 1 || rel == 2 && i % 2 == 0 { drop_in(p, h); } else { a.held = h; } }
        self.sync();
        if sx::flag("maintained") { let reg = self.reg.as_mut().unwrap(); os::in_proc(p, || reg.maintain()); self.settled(); }
        *self.dropping.borrow_mut() = true; let r = self.reg.take().unwrap(); drop_in(p, r);
        for a in &self.a { if a.cb { sx::check(a.ran.borrow().len() == 1, "every callback has run when the registry is dropped"); } }
        self.intact();
        for a in &mut self.a { let h: Vec<_> = a.held.drain(..).collect(); let last = h.len() + a.sent; if let Some(r) = h.first() { let _ = (r, last); } drop_in(p, h); }
        sx::reach("done");
    }
}
fn registry(n: usize, sizes: &[usize], tags: &[Option<&'static str>], bus: bool, cbs: bool) {
    let mut r = Reg::new(bus, cbs); let s = sizes[sx::pick(sizes.len(), "size")]; let t = tags[sx::pick(tags.len(), "tag")]; let cb = cbs && sx::flag("callback"); r.alloc(s, t, cb);
    for _ in 0..n { r.step(sizes, tags); }
    r.finish();
}
const TAGS: [Option<&str>; 3] = [None, Some("t"), Some("")];
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_ops() { registry(3, &[4], &TAGS[..2], false, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_ops() { registry(3, &[4], &TAGS[..2], false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_ops_four() { registry(4, &[4], &TAGS[..1], false, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_ops_four() { registry(4, &[4], &TAGS[..1], false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_ops_five() { registry(5, &[4], &TAGS[..1], false, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_ops_five() { registry(5, &[4], &TAGS[..1], false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_sizes() { registry(3, &[2, 3, 4], &TAGS[..1], false, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_sizes() { registry(3, &[2, 3, 4], &TAGS[..1], false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_tags() { registry(3, &[4], &TAGS, false, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_tags() { registry(3, &[4], &TAGS, false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_bus() { registry(4, &[4], &TAGS[..1], true, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_bus() { registry(4, &[4], &TAGS[..1], true, true) }
/// allocations during which system calls fail
fn failing(n: usize, cbs: bool) {
    let mut r = Reg::new(false, cbs); let cb = cbs && sx::flag("callback"); r.alloc(4, None, cb);
    for _ in 0..n { os::os().faults = sx::pick(2, "failures"); r.step(&[4], &TAGS[..1]); os::os().faults = 0; }
    r.finish();
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_fails() { failing(3, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_fails() { failing(3, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_fails_deep() { failing(4, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_fails_deep() { failing(4, true) }
/// two allocations of arbitrary sizes, with an arbitrary pause
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_any() { two(false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_any() { two(true) }
fn two(cbs: bool) {
    let mut r = Reg::new(false, cbs); let (a, b) = (sx::usz("first"), sx::usz("second")); sx::assume((a <= 300) & (b <= 300));
    r.alloc(a, None, cbs && sx::flag("callback")); let h = r.a[0].held.pop().unwrap(); let d = r.a[0].desc;
    let keep = sx::flag("held"); if keep { r.a[0].held.push(h); } else { drop_in(r.p, h); } r.sync();
    let s = sx::u8v("pause") as u64; let n = sx::u32v("pause.ns"); sx::assume(n < 1_000_000_000); os::sleep(Duration::new(s, n));
    r.alloc(b, None, false);
    let reused = r.a[1].desc == d;
    if reused && !cbs { sx::check(!keep, "a region which somebody holds is not handed out"); sx::check(a >= b, "a region is at least as large as requested"); }
    if !cbs { sx::check(reused | keep | (a < b) | ((a != b) & (a >= 2 * b)) | (s >= 5), "a fitting free region is reused"); }
    sx::reach(if reused { "recycled" } else { "new" });
    r.finish();
}
/// requests no system can fulfil
#[no_mangle] #[inline(never)] pub extern "C" fn h_reg_huge() { huge(false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_cb_huge() { huge(true) }
fn huge(cbs: bool) {
    os::init(); let p = os::new_proc(); let n = sx::usz("size"); sx::assume(n >= 1 << 40);
    let ran = Rc::new(RefCell::new(0)); let r2 = ran.clone();
    os::in_proc(p, || { let mut g = MemoryRegistry::default(); let a = g.alloc(8, None); let got = g.alloc_with_free(n, None, move || *r2.borrow_mut() += 1).map_or(true, |r| r.buffer_size() >= n as u64); if !cbs { sx::check(got, "a region is at least as large as requested"); } drop(a); drop(g); });
    if cbs { sx::check(*ran.borrow() <= 1, "a callback does not run twice"); } sx::reach("huge");
}
/// handles cloned, attached and dropped at the same time in two processes: every schedule with few deviations at any atomic instruction and system call
fn race(delays: usize, n: usize) {
    os::init(); let p: Vec<usize> = (0..2).map(|_| os::new_proc()).collect();
    let r = new_region(p[0], 8); let d = region_desc(p[0], &r);
    let ops: Vec<Vec<usize>> = (0..2).map(|_| (0..n).map(|_| sx::pick(3, "operation")).collect()).collect();
    let kept: Rc<RefCell<Vec<(usize, MemoryRegion)>>> = Default::default(); let mut th = vec![];
    for i in 0..2 {
        let q = p[i]; let mine = if i == 0 { clone_region(q, &r) } else { os::in_proc(q, || MemoryRegion::from_object(unsafe { Object::from_raw(os::give(q, d)) })) }; let ops = ops[i].clone(); let k2 = kept.clone();
        th.push((q, mine, ops, k2));
    }
    os::os().atomics = true; os::os().delays = delays; let mut ts = vec![];
    for (q, mine, ops, k2) in th { ts.push(os::spawn(q, move || { let mut h = vec![mine]; for op in ops { match op {
        0 => { let c = match h.last() { Some(x) => match x.clone() { Ok(c) => Some(c), Err(_) => sx::fail("check", "cloning a memory region failed") }, None => None }; h.extend(c); }
        1 => { drop(h.pop()); }
        _ => { let c = match h.last() { Some(x) => match x.object().clone() { Ok(o) => Some(MemoryRegion::from_object(o)), Err(_) => sx::fail("check", "cloning an object failed") }, None => None }; h.extend(c); } } }
        for x in h { k2.borrow_mut().push((q, x)); } })); }
    for t in ts { os::join_thread(t); } os::os().delays = 0;
    let k = std::mem::take(&mut *kept.borrow_mut());
    sx::check(r.ref_count() as usize == 1 + k.len(), "the reference count is the number of live handles");
    for (q, x) in k { drop_in(q, x); } sx::check(r.ref_count() == 1, "the reference count is the number of live handles"); drop_in(p[0], r); sx::reach("counted");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_race() { race(2, 2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_race_deep() { race(3, 2) }
/// the counts when cloning, attaching or sending fails half-way
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_fails() { rc_fails(3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_rc_fails_deep() { rc_fails(4) }
fn rc_fails(n: usize) {
    os::init(); let p = os::new_proc(); let mut h = vec![new_region(p, 8)]; let base = os::open_fds(p) - 1; let d = region_desc(p, &h[0]);
    for _ in 0..n {
        os::os().faults = sx::pick(2, "failures"); let f = os::os().faults;
        match sx::pick(3, "operation") {
            0 => { let i = sx::pick(h.len(), "which"); match os::in_proc(p, || h[i].clone()) { Ok(r) => h.push(r), Err(_) => sx::check(os::os().faults < f, "cloning succeeds") } }
            1 => { sx::assume(h.len() > 1); let i = sx::pick(h.len(), "which"); let r = h.remove(i); drop_in(p, r); }
            _ => { let i = sx::pick(h.len(), "which"); let _ = os::in_proc(p, || h[i].map(..4).is_ok()); }
        }
        os::os().faults = 0; for r in &h { sx::check(r.ref_count() as usize == h.len(), "the reference count is the number of live handles, whatever failed"); sx::check(region_desc(p, r) == d, "every handle refers to the region"); }
        sx::check(os::open_fds(p) == base + h.len(), "each live handle has one descriptor, whatever failed");
    }
    drop_in(p, h); sx::check(os::open_fds(p) == base && os::maps(p) == 0, "nothing is left, whatever failed"); sx::reach("counted");
}
