//! C11: order of the messages of one sender at one receiver.
use super::route::B;
use crate::{os, sx, util::*};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;
fn increasing(v: &[u16]) -> bool { v.windows(2).all(|w| w[0] < w[1]) }
fn sel(multicast: bool, to: &str) -> Selector { if multicast { multi(to) } else { uni(to) } }
/// the sender and the receiver run concurrently with the controller under every schedule with few deviations
fn sched(delays: usize, n: u16) {
    let mut b = B::new(); for l in ["a", "b", "c"] { b.join(vec![l.into()]); }
    let (s, r) = [(1, 0), (0, 1), (1, 2), (0, 0), (1, 1)][sx::pick(5, "path")];
    let to = ["a", "b", "c"][r]; let mc: Vec<bool> = (0..n).map(|_| sx::flag("multicast")).collect();
    let tx = b.e[s].as_ref().unwrap().0.clone(); let mut ep = b.e[r].take().unwrap(); let (ps, pr) = (b.p[s], b.p[r]);
    let out: Rc<RefCell<Vec<u16>>> = Default::default(); let o2 = out.clone();
    os::os().delays = delays;
    let t1 = os::spawn(ps, move || { for i in 0..n { if tx.send(Message::new(sel(mc[i as usize], to), bm(i, &[]))).is_err() { sx::fail("check", "sending a valid message failed"); } } });
    let t2 = os::spawn(pr, move || { for _ in 0..n { match ep.1.recv(secs(60)) { Ok(m) => o2.borrow_mut().push(m.payload.format), Err(_) => sx::fail("check", "a message did not arrive") } } std::mem::forget(ep); });
    os::join_thread(t1); os::join_thread(t2); os::os().delays = 0;
    let v = out.borrow();
    sx::check(increasing(&v), "messages arrive in the order they were sent");
    sx::check(v.len() == n as usize, "all messages arrive");
    sx::reach("ordered");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_sched() { sched(2, 3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_sched_deep() { sched(3, 3) }
/// messages of different sizes, modes and with attachments, mixed with those of another sender
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_mixed() { mixed(3) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_mixed_deep() { mixed(4) }
fn mixed(n: u16) {
    let mut b = B::new(); for l in ["a", "b", "c"] { b.join(vec![l.into()]); }
    let r = sx::pick(3, "receiver"); let to = ["a", "b", "c"][r];
    let mut by = [vec![], vec![], vec![]];
    for i in 0..n {
        let s = sx::pick(3, "sender"); let big = sx::flag("large");
        let mut m = Message::new(sel(sx::flag("multicast"), to), bm(i, &vec![1; if big { 3000 } else { 0 }]));
        if big { m.objects.push(obj(b.p[s], i as u64).0); }
        os::in_proc(b.p[s], || sx::check(b.e[s].as_ref().unwrap().0.send(m).is_ok(), "sending a valid message failed"));
        by[s].push(i);
        if sx::flag("settle") { os::settle(); }
    }
    let g = b.got(r);
    sx::check(g.len() == n as usize, "all messages arrive");
    for s in 0..3 { let mine: Vec<u16> = g.iter().copied().filter(|x| by[s].contains(x)).collect(); sx::check(mine == by[s], "messages of one sender arrive in the order they were sent"); }
    sx::reach("mixed");
}
/// a mix of messages which wait for a time to live and messages which do not
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_ttl() {
    let mut b = B::new(); for l in ["a", "b"] { b.join(vec![l.into()]); }
    let s = sx::pick(2, "sender"); let mut want = vec![]; let mut joined = None;
    for i in 0..5u16 {
        if joined.is_none() && sx::flag("join") { joined = Some(b.join(if sx::flag("two names") { vec!["x".into(), "z".into()] } else { vec!["x".into()] })); }
        let wait = sx::flag("waits");
        b.send(s, ttl(sel(sx::flag("multicast"), "x"), if wait { Duration::from_secs(100) } else { Duration::ZERO }), i);
        os::settle();
        if wait || joined.is_some() { want.push(i); }
    }
    let r = match joined { Some(r) => r, None => b.join(vec!["x".into()]) };
    let g = b.got(r);
    sx::check(increasing(&g), "messages arrive in the order they were sent");
    sx::check(g == want, "the messages which waited or found the endpoint arrive");
    sx::reach("ttl");
}
/// joining while another endpoint is sending
#[no_mangle] #[inline(never)] pub extern "C" fn h_fifo_join() {
    let mut b = B::new(); for l in ["a", "b"] { b.join(vec![l.into()]); }
    let s = sx::pick(2, "sender"); let tx = b.e[s].as_ref().unwrap().0.clone(); let ps = b.p[s];
    os::os().delays = 2;
    let t1 = os::spawn(ps, move || { for i in 0..3 { if tx.send(Message::new(ttl(uni("x"), Duration::from_secs(100)), bm(i, &[]))).is_err() { sx::fail("check", "sending a valid message failed"); } } });
    let r = b.join(vec!["x".into()]);
    os::join_thread(t1); os::os().delays = 0;
    let g = b.got(r);
    sx::check(g == [0, 1, 2], "messages sent while an endpoint joins arrive once and in order");
    sx::reach("join");
}
