//! C05: messages without a destination wait for their time to live.
use super::route::B;
use crate::{os, sx, util::*};
use std::time::Duration;
fn dur(name: &str) -> Duration { let s = sx::u64v(name); let n = sx::u32v(name); sx::assume(n < 1_000_000_000); Duration::new(s, n) }
/// an arbitrary time which fits in the simulated clock
fn pause(name: &str) -> Duration { let d = dur(name); sx::assume(d.as_secs() < 900_000); d }
fn lt(a: Duration, b: Duration) -> bool { (a.as_secs() < b.as_secs()) | ((a.as_secs() == b.as_secs()) & (a.subsec_nanos() < b.subsec_nanos())) }
/// arbitrary time to live, arbitrary delay until a matching endpoint joins
fn wait(multicast: bool) {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let s = sx::pick(2, "sender"); let t = dur("ttl"); let d = pause("delay");
    b.send(s, ttl(if multicast { multi("x") } else { uni("x") }, t), 7); os::settle();
    os::sleep(d);
    let other = sx::flag("an irrelevant message meanwhile"); if other { b.send(1 - s, uni("a"), 1); }
    b.join(vec!["x".into()]);
    let got = b.all();
    let want = lt(d, t);
    sx::check(count(&got[2], 7) == want as usize, "a message which waits is delivered exactly when an endpoint joins within its time to live");
    sx::check(count(&got[0], 7) + count(&got[1], 7) == 0, "a message which waits is received by nobody else");
    // once routed it is gone; once expired as well
    b.join(vec!["x".into()]);
    os::sleep(Duration::from_secs(40)); b.join(vec!["x".into(), "y".into()]);
    let got = b.all();
    sx::check(got.iter().map(|g| count(g, 7)).sum::<usize>() == 0, "a message which was routed or has expired is not delivered later");
    b.send(0, uni("b"), 9); sx::check(b.got(1) == [9], "the bus works as before");
    sx::reach("waited");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_uni() { wait(false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_multi() { wait(true) }
/// a message which is routed when it is sent is not kept, whatever its time to live
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_routed() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]); b.join(vec!["c".into()]);
    let s = sx::pick(3, "sender"); let t = dur("ttl"); let to = ["a", "b", "c"][sx::pick(3, "receiver")];
    b.send(s, ttl(if sx::flag("multicast") { multi(to) } else { uni(to) }, t), 7); os::settle();
    if sx::flag("pause") { os::sleep(pause("delay")); }
    b.join(vec![to.into()]); b.join(vec![to.into()]);
    let got = b.all();
    sx::check(got.iter().map(|g| count(g, 7)).sum::<usize>() == 1, "a routed message is not kept");
    sx::check(got[3].is_empty() && got[4].is_empty(), "a later endpoint does not receive a routed message");
    sx::reach("routed");
}
/// several waiting messages with arbitrary times to live, sent and collected at arbitrary times
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_order() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let mut t = vec![]; let mut to = vec![];
    let gap = Duration::from_secs(sx::u8v("gap") as u64);
    for i in 0..3 {
        let x = Duration::from_secs(sx::u8v("ttl") as u64);
        let dest = if sx::flag("to y") { "y" } else { "x" };
        b.send(1, ttl(uni(dest), x), i as u16); os::settle(); t.push(x); to.push(dest);
        if i == 0 { os::sleep(gap); }
    }
    let d = Duration::from_secs(sx::u8v("delay") as u64);
    os::sleep(d);
    let both = sx::flag("both names");
    b.join(if both { vec!["x".into(), "y".into()] } else { vec!["x".into()] });
    b.join(vec!["y".into()]);
    let got = b.all();
    let mut last = None;
    for i in 0..3 {
        let age = if i == 0 { gap + d } else { d };
        let ep = if both || to[i] == "x" { 2 } else { 3 };
        let want = lt(age, t[i]);
        sx::check(count(&got[ep], i as u16) == want as usize, "each waiting message is delivered exactly when an endpoint joins within its time to live");
        sx::check(count(&got[if ep == 2 { 3 } else { 2 }], i as u16) == 0, "a waiting message goes to one matching endpoint");
    }
    for g in &got { last = None; for x in g { if let Some(l) = last { sx::check(l < *x, "waiting messages are released in the order they were sent"); } last = Some(*x); } }
    let _ = last; sx::reach("ordered");
}
/// waiting messages survive joins and messages which do not concern them, and a second join collects the rest
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_steps() { steps(4) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ttl_steps_deep() { steps(5) }
fn steps(n: usize) {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let mut pending: Vec<(u16, &str, Duration)> = vec![]; // what still waits, and until when
    let mut id = 0; let mut held: Vec<&str> = vec![];
    for _ in 0..n {
        match sx::pick(4, "step") {
            0 => { let to = if sx::flag("to y") { "y" } else { "x" }; id += 1; let l = [0, 10, 1000][sx::pick(3, "ttl")]; b.send(sx::pick(2, "sender"), ttl(uni(to), Duration::from_secs(l)), id); os::settle(); if !held.contains(&to) { pending.push((id, to, os::now() + Duration::from_secs(l))); } else { let g = b.all(); sx::check(g.iter().map(|x| count(x, id)).sum::<usize>() == 1, "a message is delivered to a present endpoint"); } }
            1 => { os::sleep(Duration::from_secs(10)); }
            2 => { os::sleep(Duration::from_secs(35)); }
            _ => {
                let n = if sx::flag("joins y") { "y" } else { "x" }; let i = b.join(vec![n.into()]);
                let g = b.got(i); let now = os::now();
                let want: Vec<u16> = pending.iter().filter(|m| m.1 == n && m.2 > now).map(|m| m.0).collect();
                sx::check(g == want, "an endpoint which joins receives what waits for it, in order, and nothing else");
                pending.retain(|m| m.1 != n); held.push(n);
            }
        }
    }
    let g = b.all(); sx::check(g.iter().all(|x| x.is_empty()), "nothing else is delivered");
    sx::reach("steps");
}
