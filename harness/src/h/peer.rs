//! C09, C10, C21: processes that die, halves that are dropped, a controller that goes away.
use super::route::B;
use crate::{os, sx, util::*};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
fn tx(b: &B, i: usize) -> EndpointSender<BytesMessage> { b.e[i].as_ref().unwrap().0.clone() }
fn send_by(p: usize, t: &EndpointSender<BytesMessage>, s: Selector, f: u16) { os::in_proc(p, || sx::check(t.send(Message::new(s, bm(f, &[]))).is_ok(), "sending a valid message failed")) }
/// the ways in which endpoint i stops receiving
fn fail_endpoint(b: &mut B, i: usize, way: usize) -> Option<Keep<EndpointSender<BytesMessage>>> {
    match way {
        0 => { let e = b.e[i].take().unwrap(); std::mem::forget(e); os::kill(b.p[i]); None }
        1 => { b.leave(i); None }
        _ => { let (t, r) = Keep::into_inner(b.e[i].take().unwrap()); drop_in(b.p[i], r); Some(Keep::new(t)) }
    }
}
/// one of two matching endpoints fails between any two of several messages; who is left receives them all
fn fails(msgs: u16) {
    let mut b = B::new(); for l in ["c", "x", "x", "y"] { b.join(vec![l.into()]); }
    let victim = 1 + sx::pick(2, "victim"); let other = 3 - victim; let way = sx::pick(3, "way"); let at = sx::pick(msgs as usize + 1, "when") as u16;
    let settle = sx::flag("settle");
    let mut keep = None; let mut kinds = vec![];
    for i in 0..msgs {
        if i == at { keep = fail_endpoint(&mut b, victim, way); if settle { os::settle(); } }
        let s = [0, 3, other][sx::pick(3, "sender")]; let mc = sx::flag("multicast"); kinds.push(mc);
        b.send(s, if mc { multi("x") } else { uni("x") }, i); if settle { os::settle(); }
    }
    if at == msgs { keep = fail_endpoint(&mut b, victim, way); }
    let g = b.got(other); let mut want = 0;
    for i in 0..msgs {
        let n = count(&g, i); want += n;
        if i >= at { sx::check(n == 1, "a message that matches a live endpoint reaches it although another match has failed"); }
        else if kinds[i as usize] { sx::check(n == 1, "a multicast message reaches every matching endpoint"); } else { sx::check(n <= 1, "a message arrives at most once"); }
    }
    sx::check(g.len() == want, "nothing else arrives"); sx::check(!settle || g.windows(2).all(|w| w[0] < w[1]), "messages sent one after another arrive in that order");
    // every survivor still reaches every survivor
    for (i, l) in [(0usize, "c"), (other, "x"), (3, "y")] { for s in [0, other, 3] { b.send(s, uni(l), 100); sx::check(b.got(i) == [100], "the other endpoints go on communicating"); } }
    if let Some(t) = keep { send_by(b.p[victim], &t, uni("y"), 101); sx::check(b.got(3) == [101], "an endpoint whose receiver is closed goes on sending"); }
    sx::reach("failed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_peer_fails() { fails(2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_peer_fails_deep() { fails(4) }
/// a process that dies at any system call of whatever it is doing
fn midop(delays: usize) {
    let mut b = B::new(); for l in ["c", "x", "y"] { b.join(vec![l.into()]); }
    b.send(0, multi(LabelOp::True), 50); b.got(0); b.got(1); b.got(2);
    let base = os::open_fds(b.p[0]);
    let q = os::new_proc(); let what = sx::pick(4, "doing");
    os::os().crash = Some(q); os::os().delays = delays;
    let peer = b.p[1]; let px = tx(&b, 1);
    let t = os::spawn(q, move || {
        let e = join_opt(q, opts("bus", label!("x"), "tok", true));
        match what {
            0 => {}
            1 => { let _ = e.0.send(Message::new(uni("y"), bm(7, &[1; 20]))); }
            2 => { let mut m = Message::new(multi("y"), bm(7, &[])); let mut r = MemoryRegion::new(64).unwrap(); if let Ok(s) = r.map(..) { s[0] = 9; } m.memory_regions.push(r); m.objects.push(obj(q, 3).0); let _ = e.0.send(m); }
            _ => { send_by(peer, &px, multi("x"), 8); let mut e = e; let _ = e.1.recv(msec(50)); std::mem::forget(e); return; }
        }
        drop(Keep::into_inner(e));
    });
    os::join_thread(t); os::os().delays = 0; os::os().crash = None; os::settle();
    let dead = !os::os().procs[q].alive;
    let y = b.got(2); sx::check(y.len() <= 1 && (y.is_empty() || y == [7]), "a message of a process that died arrives once or not at all");
    if (what == 1 || what == 2) && !dead { sx::check(y == [7], "a message that was sent arrives"); }
    if what == 3 { let g = b.got(1); sx::check(g.len() <= 1, "a multicast message reaches every matching endpoint"); }
    for (i, l) in [(0usize, "c"), (1, "x"), (2, "y")] { for s in 0..3 {
        b.send(s, uni(l), 100); sx::check(b.got(i) == [100] || (!dead && l == "x"), "the other endpoints go on communicating");
    } }
    b.send(2, multi("x"), 101); sx::check(b.got(1) == [101], "a multicast reaches the live endpoints");
    let n = b.join(vec!["n".into()]); b.send(n, multi("x"), 102); sx::check(b.got(1) == [102], "a multicast reaches the live endpoints");
    b.leave(n); b.send(2, multi(LabelOp::True), 103); b.all();
    os::sleep(Duration::from_secs(31)); b.send(2, multi(LabelOp::True), 104); b.all(); 
    if what != 3 || dead { sx::check(os::open_fds(b.p[0]) == base, "the controller keeps nothing of endpoints that are gone"); }
    sx::reach(if dead { "died" } else { "finished" });
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_peer_midop() { midop(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_peer_midop_deep() { midop(1) }
/// a peer that speaks by hand: it closes either of its two connections, at any point
#[no_mangle] #[inline(never)] pub extern "C" fn h_peer_raw() {
    let mut b = B::new(); for l in ["c", "x"] { b.join(vec![l.into()]); }
    let q = os::new_proc(); let v = version();
    let order = sx::flag("joins before the other");
    if !order { b.join(vec!["x".into()]); }
    let (c, r) = raw_join(q, b"bus", ver(), &wconnect([v.major(), v.minor(), v.patch()], b"tok", &[b"x"])).unwrap();
    if sx::flag("settle") { os::settle(); }
    let (ac, ar) = (sx::pick(3, "close connection"), sx::pick(3, "close receiving end"));
    if ac == 0 { c.close(); os::settle(); } else if ac == 1 { os::app(q, || unsafe { os::shutdown(c.fd, 2) }); }
    if ar == 0 { r.close(); } else if ar == 1 { os::app(q, || unsafe { os::shutdown(r.fd, 2) }); }
    os::settle();
    if order { b.join(vec!["x".into()]); }
    let mc = sx::flag("multicast");
    for k in 0..4 { b.send(0, if mc { multi("x") } else { uni("x") }, 10 + k); }
    let (g1, g2) = (b.got(1), b.got(2));
    for k in 0..4 { let n = (count(&g1, 10 + k), count(&g2, 10 + k)); if mc { sx::check(n == (1, 1), "a multicast reaches the live endpoints"); } else { sx::check(n.0 + n.1 <= 1, "a unicast arrives once"); if ar < 2 { sx::check(n.0 + n.1 == 1, "a message reaches a live endpoint"); } } }
    sx::reach("raw");
}
// ---------------------------------------------------------------- death of the controller
type Got = Rc<RefCell<Vec<u16>>>;
/// receive in its own thread until `n` messages have come
fn receiver(p: usize, e: EndpointReceiver<BytesMessage>, n: usize, t: Duration) -> (usize, Got) {
    let out: Got = Default::default(); let o = out.clone(); let mut e = Keep::new(e);
    let th = os::spawn(p, move || { while o.borrow().len() < n { match e.recv(Some(t)) { Ok(m) => { o.borrow_mut().push(m.payload.format); } Err(_) => break } } });
    (th, out)
}
/// the controller's process dies between operations; the survivors, some of which may become controller, carry on concurrently
fn ctl(delays: usize) {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let who = sx::pick(3, "who may become controller"); // 1: only the first, 2: only the second, 0: both
    let e1 = join_opt(p[1], opts("bus", label!("b"), "tok", who != 2)); let e2 = join_opt(p[2], opts("bus", label!("c"), "tok", who != 1));
    os::settle();
    let idle = sx::flag("messages flow before");
    let (mut e1, mut e2) = (e1, e2);
    if idle { send(p[1], &e1, uni("c"), 1); os::settle(); sx::check(formats(p[2], &mut e2.1) == [1], "messages flow before"); }
    std::mem::forget(e0); os::kill(p[0]); if sx::flag("settle") { os::settle(); }
    let both = sx::flag("both send"); let _ = &mut e1;
    let (t1, r1) = Keep::into_inner(e1); let (t2, r2) = Keep::into_inner(e2);
    os::os().delays = delays; os::os().horizon = os::now() + Duration::from_secs(100);
    let (a, ga) = receiver(p[1], r1, 1, Duration::from_secs(50)); let (c, gc) = receiver(p[2], r2, 1, Duration::from_secs(50));
    let p1 = p[1]; let s1 = os::spawn(p[1], move || { send_by(p1, &t1, ttl(uni("c"), Duration::from_secs(60)), 10); std::mem::forget(t1); });
    let p2 = p[2]; let s2 = os::spawn(p[2], move || { if both { send_by(p2, &t2, ttl(uni("b"), Duration::from_secs(60)), 20); } std::mem::forget(t2); });
    os::join_thread(s1); os::join_thread(s2); os::join_thread(c); if both { os::join_thread(a); }
    sx::check(*gc.borrow() == [10], "a message accepted after the rejoin is delivered"); if both { sx::check(*ga.borrow() == [20], "a message accepted after the rejoin is delivered"); }
    os::os().delays = 0;
    sx::check(os::listeners() == 1, "one survivor hosts the controller"); sx::check(os::os().accepts <= 3, "each endpoint joins once per disconnection");
    sx::reach("recovered");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_dies() { ctl(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_sched() { ctl(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_sched_deep() { ctl(2) }
/// several users of one endpoint notice the disconnection at the same time
fn users(delays: usize) {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let e1 = join_opt(p[1], opts("bus", label!("b"), "tok", sx::flag("may become controller"))); let mut e2 = join_opt(p[2], opts("bus", label!("c"), "tok", true)); os::settle();
    std::mem::forget(e0); os::kill(p[0]); os::settle();
    // the other endpoint has rejoined already and hosts the controller, or does so meanwhile
    if sx::flag("rejoined before") { os::in_proc(p[2], || { let _ = e2.1.recv(msec(1)); }); os::settle(); }
    let n0 = os::os().accepts;
    let (t1, r1) = Keep::into_inner(e1); let (t2, r2) = Keep::into_inner(e2);
    let closed = sx::flag("receiver closed"); let nclone = 2;
    os::os().delays = delays; os::os().horizon = os::now() + Duration::from_secs(100);
    let (c, gc) = receiver(p[2], r2, nclone, Duration::from_secs(50));
    let mut th = vec![];
    if closed { drop_in(p[1], r1); } else { let (a, ga) = receiver(p[1], r1, 1, Duration::from_secs(50)); th.push((a, ga)); }
    let p1 = p[1]; let mut ss = vec![];
    for k in 0..nclone as u16 { let t = t1.clone(); ss.push(os::spawn(p1, move || { send_by(p1, &t, ttl(uni("c"), Duration::from_secs(60)), 10 + k); std::mem::forget(t); })); }
    for s in ss { os::join_thread(s); } os::join_thread(c); os::os().delays = 0;
    let mut g = gc.borrow().clone(); g.sort(); sx::check(g == [10, 11], "every message accepted after the rejoin is delivered once");
    let accepts = os::os().accepts - n0; sx::check(accepts <= 1, "concurrent users cause one rejoin");
    let p2 = p[2]; let t2 = Keep::new(t2); send_by(p2, &t2, uni("b"), 30);
    if closed {
        // the closed receiver does not come back as a destination
        let mut e3 = join_opt(p2, opts("bus", label!("b"), "tok", true)); os::settle(); send_by(p2, &t2, uni("b"), 31); send_by(p2, &t2, multi("b"), 32); os::settle();
        sx::check(formats(p2, &mut e3.1) == [31, 32], "an endpoint whose receiver is closed is no destination after a rejoin");
    } else { let (a, ga) = &th[0]; os::join_thread(*a); sx::check(*ga.borrow() == [30], "the endpoint receives after the rejoin"); }
    std::mem::forget(t1); sx::reach("users");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_users() { users(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_users_deep() { users(2) }
/// the controller dies at any of its system calls while it routes messages
fn ctl_midop(n: u16) {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let e1 = join_opt(p[1], opts("bus", label!("b"), "tok", true)); let e2 = join_opt(p[2], opts("bus", label!("c"), "tok", true)); os::settle();
    std::mem::forget(e0); os::os().crash = Some(p[0]);
    let (t1, r1) = Keep::into_inner(e1); let (t2, r2) = Keep::into_inner(e2); let mc = sx::flag("multicast");
    os::os().horizon = os::now() + Duration::from_secs(200);
    let out: Got = Default::default(); let o = out.clone(); let mut r2 = Keep::new(r2);
    let c = os::spawn(p[2], move || loop { match r2.recv(secs(50)) { Ok(m) => { let f = m.payload.format; o.borrow_mut().push(f); if f == 99 { break; } } Err(_) => sx::fail("check", "the last message does not arrive") } });
    let p1 = p[1];
    let s = os::spawn(p[1], move || {
        for k in 0..n { let sel = if mc { multi("c") } else { uni("c") }; send_by(p1, &t1, ttl(sel, Duration::from_secs(60)), k); os::settle(); }
        if os::os().crashed == 0 { os::os().crash = None; os::kill(0 + p[0]); os::settle(); }
        send_by(p1, &t1, ttl(uni("c"), Duration::from_secs(60)), 99); std::mem::forget(t1);
    });
    os::join_thread(s); os::join_thread(c);
    let g = out.borrow().clone(); for k in 0..n { sx::check(count(&g, k) <= 1, "a message arrives once at most"); } sx::check(g.windows(2).all(|w| w[0] < w[1]), "messages arrive in the order they were sent");
    sx::check(os::listeners() == 1, "one survivor hosts the controller");
    std::mem::forget((r1, t2)); sx::reach("midop");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_midop() { ctl_midop(2) }
/// regions and objects sent across a rejoin arrive whole
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_attach() {
    os::init(); let p: Vec<usize> = (0..3).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let e1 = join_opt(p[1], opts("bus", label!("b"), "tok", true)); let mut e2 = join_opt(p[2], opts("bus", label!("c"), "tok", true)); os::settle();
    std::mem::forget(e0); os::kill(p[0]); os::settle();
    let first = sx::flag("receiver rejoins first"); if first { os::in_proc(p[2], || { let _ = e2.1.recv(msec(1)); }); os::settle(); }
    let x = sx::u8v("byte"); let (o, d) = obj(p[1], 5);
    os::in_proc(p[1], || { let mut m = Message::new(ttl(uni("c"), Duration::from_secs(60)), bm(4, &[x])); let mut r = MemoryRegion::new(10).unwrap(); r.map(..).unwrap()[3] = x; m.memory_regions.push(r); m.objects.push(o); sx::check(e1.0.send(m).is_ok(), "sending a valid message failed"); });
    os::settle();
    os::in_proc(p[2], || { match e2.1.recv(secs(5)) { Ok(mut m) => { sx::check(m.payload.data == [x] && m.objects.len() == 1 && m.memory_regions.len() == 1, "the message arrives whole"); sx::check(obj_desc(p[2], &m.objects[0]) == d, "the object is the one that was sent"); sx::check(m.memory_regions[0].ref_count() == 1 && m.memory_regions[0].map(..).unwrap()[3] == x, "the region is the one that was sent"); } Err(_) => sx::fail("check", "a message accepted after the rejoin is delivered") } });
    sx::reach("attached");
}
// ---------------------------------------------------------------- halves
/// endpoint i drops its receiver at any point; its sender and clones go on; messages for it go elsewhere or wait
fn half_rx(steps: u16) {
    let mut b = B::new(); for l in ["x", "x", "y"] { b.join(vec![l.into()]); }
    let v = sx::pick(2, "endpoint"); let other = 1 - v; // 0 hosts the controller
    let alone = sx::flag("no other match"); if alone { if other == 0 { return; } b.leave(other); }
    if sx::flag("unread message") { b.send(2, multi("x"), 200); os::settle(); if !alone { sx::check(b.got(other) == [200], "messages flow before"); } }
    let (t, r) = Keep::into_inner(b.e[v].take().unwrap()); let (t, r) = (Keep::new(t), r);
    let c = Keep::new(EndpointSender::clone(&t)); drop_in(b.p[v], r); if sx::flag("settle") { os::settle(); }
    let mut waiting = vec![];
    for k in 0..steps {
        match sx::pick(3, "step") {
            0 => { send_by(b.p[v], if sx::flag("clone") { &c } else { &t }, uni("y"), k); sx::check(b.got(2) == [k], "the sender and its clones go on sending"); }
            s => {
                let mc = s == 2; let d = Duration::from_secs(1000); let from = sx::flag("own message");
                let sel = ttl(if mc { multi("x") } else { uni("x") }, d);
                if from { send_by(b.p[v], &t, sel, k) } else { b.send(2, sel, k) }
                if alone { os::settle(); waiting.push(k); } else { sx::check(b.got(other) == [k], "messages go to another matching endpoint"); }
            }
        }
    }
    let n = b.join(vec!["x".into()]); let g = b.got(n);
    sx::check(g == waiting, "messages for nobody wait for the next matching endpoint");
    b.send(2, uni("y"), 300); sx::check(b.got(2) == [300], "the rest of the bus is unaffected");
    sx::reach("half");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_half_rx() { half_rx(2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_half_rx_deep() { half_rx(3) }
/// all senders of an endpoint go away in any order; its receiver goes on
#[no_mangle] #[inline(never)] pub extern "C" fn h_half_tx() {
    let mut b = B::new(); for l in ["x", "x", "y"] { b.join(vec![l.into()]); }
    let v = sx::pick(2, "endpoint"); let p = b.p[v]; let (t, mut r) = Keep::into_inner(b.e[v].take().unwrap());
    let name = if v == 0 { "x" } else { "x" }; let c = t.clone();
    let early = sx::flag("message before"); if early { b.send(2, multi(name), 1); }
    let mut h = vec![t, c]; let i = sx::pick(2, "first"); let f = h.remove(i); if sx::flag("send") { send_by(p, &f, uni("y"), 2); sx::check(b.got(2) == [2], "sending works until the last sender is gone"); }
    drop_in(p, f); if sx::flag("send again") { send_by(p, &h[0], uni("y"), 3); sx::check(b.got(2) == [3], "sending works until the last sender is gone"); }
    drop_in(p, h); os::settle();
    b.send(2, multi(name), 4); os::settle(); b.send(1 - v, multi(name), 5); os::settle();
    sx::check(formats(p, &mut r) == if early { vec![1, 4, 5] } else { vec![4, 5] }, "the receiver goes on receiving");
    let late = sx::flag("waiting receive");
    if late { let q = b.p[2]; let t2 = Keep::new(tx(&b, 2)); let s = os::spawn(q, move || { os::sleep(Duration::from_secs(1)); send_by(q, &t2, multi("x"), 6); }); match os::in_proc(p, || r.recv(secs(10))) { Ok(m) => sx::check(m.payload.format == 6, "the receiver goes on receiving"), Err(_) => sx::fail("check", "the receiver goes on receiving") } os::join_thread(s); }
    drop_in(p, r); os::settle();
    b.got(1 - v); b.send(2, uni("x"), 7); sx::check(b.got(1 - v) == [7], "messages go to another matching endpoint"); sx::reach("half");
}
/// an endpoint without its receiver (or without its senders) when the controller dies: it rejoins as what it is
fn half_rejoin(delays: usize) {
    os::init(); let p: Vec<usize> = (0..4).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let who = sx::pick(3, "who may become controller");
    let e1 = join_opt(p[1], opts("bus", label!("x"), "tok", who != 2)); let mut e2 = join_opt(p[2], opts("bus", label!("y"), "tok", who != 1)); os::settle();
    let (t1, r1) = Keep::into_inner(e1); let rx_gone = sx::flag("without receiver");
    if sx::flag("unread message") { send(p[2], &e2, uni("x"), 1); os::settle(); if !rx_gone { let mut r = r1; sx::check(formats(p[1], &mut r) == [1], "messages flow before"); return half_rejoin2(delays, who, p, e0, t1, r, e2, false); } }
    if !rx_gone { return half_rejoin2(delays, who, p, e0, t1, r1, e2, false); }
    let t1 = Keep::new(t1); drop_in(p[1], r1); if sx::flag("settle") { os::settle(); }
    std::mem::forget(e0); os::kill(p[0]); if sx::flag("noticed") { os::settle(); }
    os::os().horizon = os::now() + Duration::from_secs(500);
    let wait = Duration::from_secs(60);
    if sx::flag("the other endpoint rejoins first") { sx::assume(who != 1); os::in_proc(p[2], || { let _ = e2.1.recv(msec(1)); }); os::settle(); }
    // the other endpoint waits for a message, which makes it rejoin
    let (t2, r2) = Keep::into_inner(e2); os::os().delays = delays; let (th, got) = receiver(p[2], r2, 1, Duration::from_secs(50));
    { let p1 = p[1]; let t = t1.clone(); let s = os::spawn(p1, move || { send_by(p1, &t, ttl(uni("y"), wait), 10); std::mem::forget(t); }); os::join_thread(s); }
    os::join_thread(th); os::os().delays = 0; os::settle(); sx::check(*got.borrow() == [10], "the sender goes on sending after the controller's death");
    // messages for the label of the half endpoint wait for one which can receive
    let t2 = Keep::new(t2); let mc = sx::flag("multicast"); send_by(p[2], &t2, ttl(if mc { multi("x") } else { uni("x") }, wait), 11); os::settle();
    if sx::flag("own message") { send_by(p[1], &t1, ttl(uni("x"), wait), 12); os::settle(); let mut n = join_opt(p[3], opts("bus", label!("x"), "tok", false)); os::settle(); let mut g = formats(p[3], &mut n.1); g.sort(); sx::check(g == [11, 12], "messages for nobody wait for the next matching endpoint"); }
    else { let mut n = join_opt(p[3], opts("bus", label!("x"), "tok", false)); os::settle(); sx::check(formats(p[3], &mut n.1) == [11], "messages for nobody wait for the next matching endpoint"); }
    sx::reach("half");
}
fn half_rejoin2(delays: usize, who: usize, p: Vec<usize>, e0: Keep<Ep>, t1: EndpointSender<BytesMessage>, r1: EndpointReceiver<BytesMessage>, e2: Keep<Ep>, _x: bool) {
    drop_in(p[1], t1); os::settle(); std::mem::forget(e0); os::kill(p[0]); if sx::flag("noticed") { os::settle(); } let _ = who;
    os::os().horizon = os::now() + Duration::from_secs(500); os::os().delays = delays;
    let (th, got) = receiver(p[1], r1, 1, Duration::from_secs(50));
    let (t2, r2) = Keep::into_inner(e2); let t2 = Keep::new(t2); let _r2 = Keep::new(r2);
    let p2 = p[2]; let s = os::spawn(p2, move || send_by(p2, &t2, ttl(multi("x"), Duration::from_secs(60)), 10)); os::join_thread(s); os::join_thread(th); os::os().delays = 0;
    sx::check(*got.borrow() == [10], "the receiver goes on receiving after the controller's death"); sx::reach("half");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_half_rejoin() { half_rejoin(0) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_half_rejoin_deep() { half_rejoin(1) }
/// no survivor may become controller: receives time out and a later controller is found, whatever was tried in between
fn absent(n: usize) {
    os::init(); let p: Vec<usize> = (0..4).map(|_| os::new_proc()).collect();
    let e0 = join_opt(p[0], opts("bus", label!("a"), "tok", true)); os::settle();
    let mut e: Vec<Keep<Ep>> = vec![join_opt(p[1], opts("bus", label!("b"), "tok", false)), join_opt(p[2], opts("bus", label!("c"), "tok", false))]; os::settle();
    std::mem::forget(e0); os::kill(p[0]); if sx::flag("noticed") { os::settle(); }
    let start = os::now(); os::os().horizon = start + Duration::from_secs(1000);
    for _ in 0..n { match sx::pick(3, "meanwhile") {
        k @ 0..2 => { let t = [0, 1, 2500][sx::pick(3, "timeout")]; let q = p[k + 1]; sx::check(matches!(os::in_proc(q, || e[k].1.recv(msec(t))), Err(RecvError::Timeout)), "without a controller a receive times out"); }
        _ => os::settle(),
    } }
    // a receive or a send is under way when a controller appears, or comes after it
    let under = sx::pick(4, "under way"); let wait = Duration::from_secs(60); let mut th = vec![]; let mut back: Vec<Rc<RefCell<Option<Keep<EndpointReceiver<BytesMessage>>>>>> = vec![]; let mut txs = vec![];
    let outs: Vec<Got> = (0..2).map(|_| Default::default()).collect();
    for (k, x) in e.into_iter().enumerate() {
        let (t, r) = Keep::into_inner(x); let q = p[k + 1]; let slot: Rc<RefCell<Option<Keep<EndpointReceiver<BytesMessage>>>>> = Default::default(); back.push(slot.clone());
        if under == 1 || under == 3 { let o = outs[k].clone(); let mut r = Keep::new(r); th.push(os::spawn(q, move || { match r.recv(secs(200)) { Ok(m) => o.borrow_mut().push(m.payload.format), Err(_) => sx::fail("check", "a receive under way finds the later controller") } *slot.borrow_mut() = Some(r); })); } else { *slot.borrow_mut() = Some(Keep::new(r)); }
        let t = Keep::new(t); txs.push(Keep::new((*t).clone()));
        if under >= 2 { let to = if k == 0 { "c" } else { "b" }; th.push(os::spawn(q, move || { send_by(q, &t, ttl(uni(to), wait), 10 + k as u16); })); }
    }
    if sx::flag("later") { os::sleep(Duration::from_millis(3500)); } else { os::settle(); }
    let c = join_opt(p[3], opts("bus", label!("d"), "tok", true)); os::settle();
    if under == 0 { for k in 0..2 { if sx::flag("send first") { send_by(p[k + 1], &txs[k], uni("nobody"), 1); } } }
    if under < 2 { for k in 0..2 { let to = if k == 0 { "b" } else { "c" }; send(p[3], &c, ttl(uni(to), wait), 11 - k as u16); } }
    if under == 1 || under == 3 { for t in th.drain(..) { os::join_thread(t); } }
    else { for t in th.drain(..) { os::join_thread(t); } for k in 0..2 { let q = p[k + 1]; let mut b = back[k].borrow_mut(); let r = b.as_mut().unwrap(); match os::in_proc(q, || r.recv(secs(20))) { Ok(m) => outs[k].borrow_mut().push(m.payload.format), Err(_) => sx::fail("check", "a later receive finds the later controller") } } }
    for k in 0..2 { sx::check(*outs[k].borrow() == [11 - k as u16], "messages flow with the later controller"); }
    for k in 0..2 { send_by(p[k + 1], &txs[k], uni(["c", "b"][k]), 20 + k as u16); } os::settle();
    for k in 0..2 { let q = p[k + 1]; let mut b = back[k].borrow_mut(); sx::check(formats(q, b.as_mut().unwrap()) == [21 - k as u16], "messages flow with the later controller"); }
    sx::check(os::os().accepts <= 5, "each endpoint joins once per disconnection"); sx::reach("recovered");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_absent() { absent(1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ctl_absent_deep() { absent(2) }
