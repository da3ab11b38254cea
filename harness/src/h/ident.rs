//! C17: identifiers, and who becomes controller.
use crate::{os, sx, util::*};
use std::{cell::RefCell, rc::Rc, time::Duration};
type Res = Result<Keep<Ep>, JoinError>;
fn join_id(p: usize, id: &str, l: &str, ctl: bool, t: Option<Duration>) -> Res { os::in_proc(p, || join::<BytesMessage, BytesMessage>(opts(id, Label::from([l]), "tok", ctl), t).map(Keep::new)) }
fn ok(r: Res) -> Keep<Ep> { match r { Ok(e) => e, Err(_) => sx::fail("check", "joining succeeds when a controller is there or allowed") } }
/// does what i sends to everybody reach exactly those which share its bus
fn exchange(p: &[usize], e: &mut [Keep<Ep>], bus: &[usize]) {
    for i in 0..e.len() {
        os::in_proc(p[i], || sx::check(e[i].0.send(Message::new(multi(LabelOp::True), bm(i as u16, &[]))).is_ok(), "sending succeeds"));
        os::settle();
        for k in 0..e.len() { let f = formats(p[k], &mut e[k].1); sx::check(f.len() <= 1 && f.iter().all(|x| *x == i as u16), "a message arrives once"); sx::check((f.len() == 1) <= (bus[k] == bus[i]), "endpoints with different identifiers never exchange messages"); sx::check((f.len() == 1) >= (bus[k] == bus[i]), "endpoints with the same identifier exchange messages"); }
    }
}
/// two identifiers; every endpoint may or may not become controller
fn two(x: String, y: String) {
    os::init(); let (p, q, r) = (os::new_proc(), os::new_proc(), os::new_proc());
    let eq = same(x.as_bytes(), y.as_bytes()); let eq = sx::conc(eq as u64) == 1;
    let mut e = vec![ok(join_id(p, &x, "a", true, secs(30)))];
    sx::check(os::listens(p), "the first endpoint hosts the controller");
    let ctl = sx::flag("second may become controller");
    match join_id(q, &y, "b", ctl, secs(5)) {
        Ok(b) => {
            sx::check(ctl || eq, "an endpoint which may not become controller needs one with its identifier");
            sx::check(os::listens(q) == !eq, "one endpoint of a bus hosts the controller");
            sx::check(os::listeners() == if eq { 1 } else { 2 }, "a bus has one controller");
            e.push(b); e.push(ok(join_id(r, &x, "c", sx::flag("third may become controller"), secs(30)))); sx::check(!os::listens(r), "an endpoint attaches to the controller which is there");
            os::settle(); exchange(&[p, q, r], &mut e, &[0, if eq { 0 } else { 1 }, 0]); sx::reach(if eq { "same" } else { "different" });
        }
        Err(JoinError::Timeout) => { sx::check(!ctl && !eq, "joining times out only without a controller"); sx::check(!os::listens(q), "an endpoint which may not become controller never does"); sx::reach("alone"); }
        Err(_) => sx::fail("check", "joining reports neither success nor a timeout"),
    }
}
/// names of up to 2 arbitrary characters, among them nul
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_short() { let a = sx::pick(3, "length"); let b = sx::pick(3, "length"); two(ascii(a, "first"), ascii(b, "second")) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_utf8() { let x = utf8("first", 2); two(x, utf8("second", 2)) }
/// names of every length up to what an address holds, with arbitrary last bytes
fn long(n: usize, name: &str) -> String { let mut s = "n".repeat(n.saturating_sub(2)); s.push_str(&ascii(n.min(2), name)); s }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_long() { let a = 100 + sx::pick(7, "length"); let b = 100 + sx::pick(7, "length"); let x = long(a, "first"); two(x, long(b, "second")) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_mid() { let a = sx::pick(40, "length") * 2 + 3; let x = long(a, "first"); let y = { let l = a - 1 + sx::pick(3, "longer"); long(l, "second") }; two(x, y) }
/// longer ones
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_over() { let a = 106 + sx::pick(3, "length"); let b = 107 + sx::pick(3, "length"); let x = long(a, "first"); let y = long(b, "second");
    // what an address cannot hold does not tell buses apart
    if x != y && x.as_bytes()[..106] == y.as_bytes()[..106] {
        os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let e = ok(join_id(p, &x, "a", true, secs(30))); let mut f = ok(join_id(q, &y, "b", true, secs(30))); os::settle();
        os::in_proc(p, || { let _ = e.0.send(Message::new(uni("b"), bm(1, &[]))); }); os::settle();
        sx::check(formats(q, &mut f.1).is_empty(), "identifiers which differ only beyond 106 bytes are kept apart"); sx::reach("apart"); return;
    }
    two(x, y)
}
/// no identifier makes joining crash, and it can always be joined again
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_any() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let n = [0, 1, 2, 3, 4, 105, 106, 107, 108, 109, 110, 111, 255, 256, 4096][sx::pick(15, "length")]; let s = if n <= 4 { ascii(n, "identifier") } else { let mut s = "é".repeat((n - 2) / 2); if n % 2 == 1 { s.push('n'); } s.push_str(&ascii(2, "end")); s };
    let mut e = vec![ok(join_id(p, &s, "a", true, secs(30)))]; e.push(ok(join_id(q, &s, "b", sx::flag("may become controller"), secs(30)))); os::settle();
    sx::check(os::listeners() == 1, "a bus has one controller"); exchange(&[p, q], &mut e, &[0, 0]); sx::reach("joined");
}
/// several endpoints join at the same time
fn race(n: usize, delays: usize, gone: bool) { race_crash(n, delays, gone, false) }
fn race_crash(n: usize, delays: usize, gone: bool, crash: bool) {
    os::init(); let p: Vec<usize> = (0..n).map(|_| os::new_proc()).collect();
    let ctl: Vec<bool> = (0..n).map(|_| sx::flag("may become controller")).collect(); let some = ctl.iter().any(|x| *x);
    if gone { let q = os::new_proc(); let e = ok(join_id(q, "bus", "z", true, secs(30))); std::mem::forget(e); os::kill(q); }
    let out: Rc<RefCell<Vec<(usize, Res)>>> = Default::default();
    os::os().delays = delays; if crash { os::os().crash = Some(p[0]); }
    let th: Vec<usize> = (0..n).map(|i| { let o = out.clone(); let (c, q) = (ctl[i], p[i]); os::spawn(q, move || { let r = join_id(q, "bus", ["a", "b", "c"][i], c, secs(9)); o.borrow_mut().push((i, r)); }) }).collect();
    for (i, t) in th.into_iter().enumerate() { if !(crash && i == 0) { os::join_thread(t); } } os::os().delays = 0; os::settle(); if crash { os::os().crash = None; os::kill(p[0]); os::settle(); }
    if crash {
        // whoever is left goes on without the one which died
        let ctl = ctl[1..].to_vec(); let p = p[1..].to_vec(); let mut e = vec![]; let mut who = vec![];
        for (i, r) in std::mem::take(&mut *out.borrow_mut()) { if i > 0 { match r { Ok(x) => { e.push(x); who.push(i - 1); } Err(JoinError::Timeout) => sx::check(!ctl[i - 1], "joining succeeds when a controller is there or allowed"), Err(_) => sx::fail("check", "joining reports neither success nor a timeout") } } }
        let some = e.iter().zip(&who).any(|(_, i)| ctl[*i]);
        if !some { sx::reach("none"); return; }
        // everybody notices that the controller is gone, and rejoins
        for _ in 0..2 { for k in 0..e.len() { os::in_proc(p[who[k]], || { let _ = e[k].1.recv(secs(5)); }); } os::settle(); }
        sx::check(os::listeners() == 1, "a bus has one controller, if any may become it");
        for i in 0..n - 1 { sx::check(ctl[i] || !os::listens(p[i]), "an endpoint which may not become controller never does"); }
        let q: Vec<usize> = who.iter().map(|i| p[*i]).collect(); let l = q.len(); exchange(&q, &mut e, &vec![0; l]); sx::reach("went on"); return;
    }
    let mut v = std::mem::take(&mut *out.borrow_mut()); v.sort_by_key(|x| x.0);
    sx::check(os::listeners() == some as usize, "a bus has one controller, if any may become it");
    for i in 0..n { sx::check(ctl[i] || !os::listens(p[i]), "an endpoint which may not become controller never does"); }
    if !some { for (_, r) in &v { sx::check(matches!(r, Err(JoinError::Timeout)), "joining times out without a controller"); } sx::reach("none"); return; }
    let mut e: Vec<Keep<Ep>> = v.into_iter().map(|(_, r)| ok(r)).collect();
    sx::check(p.iter().filter(|q| os::listens(**q)).count() == 1, "one endpoint of a bus hosts the controller");
    exchange(&p, &mut e, &vec![0; n]); sx::reach("joined");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race() { race(2, 1, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_gone() { race(2, 1, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_three() { race(3, 1, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_deep() { race(2, 2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_deeper() { race(3, 2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_crash() { race_crash(3, 0, false, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_race_crash_deep() { race_crash(3, 1, false, true) }
/// endpoints of two buses come and go in every order
#[no_mangle] #[inline(never)] pub extern "C" fn h_ident_order() {
    os::init(); let mut p: Vec<usize> = vec![]; let mut e: Vec<Keep<Ep>> = vec![]; let mut bus = vec![]; let mut host: [Option<usize>; 2] = [None; 2];
    for _ in 0..4 {
        let b = sx::pick(2, "bus"); let ctl = sx::flag("may become controller"); let q = if !p.is_empty() && sx::flag("in the same process as the last one") { *p.last().unwrap() } else { os::new_proc() };
        let had = os::listeners();
        match join_id(q, ["one", "two"][b], "l", ctl, secs(3)) {
            Ok(x) => { if host[b].is_none() { sx::check(ctl, "an endpoint which may not become controller never does"); host[b] = Some(q); } p.push(q); e.push(x); bus.push(b); }
            Err(JoinError::Timeout) => { sx::check(host[b].is_none() && !ctl, "joining succeeds when a controller is there or allowed"); sx::check(os::listeners() == had, "an endpoint which may not become controller never does"); }
            Err(_) => sx::fail("check", "joining reports neither success nor a timeout"),
        }
        sx::check(os::listeners() == host.iter().flatten().count(), "a bus has one controller");
    }
    os::settle(); exchange(&p, &mut e, &bus); sx::reach("ordered");
}
