//! C16: timeouts.
use super::route::B;
use crate::{os, sx, util::*};
use std::{cell::RefCell, rc::Rc, time::Duration};
fn dur(name: &str) -> Duration { let s = sx::u64v(name); let n = sx::u32v(name); sx::assume(n < 1_000_000_000); Duration::new(s, n) }
fn short(name: &str, max: u64) -> Duration { let d = dur(name); sx::assume(d.as_secs() < max); d }
fn le(a: Duration, b: Duration) -> bool { (a.as_secs() < b.as_secs()) | ((a.as_secs() == b.as_secs()) & (a.subsec_nanos() <= b.subsec_nanos())) }
fn add(a: Duration, b: Duration) -> Duration { let n = a.subsec_nanos() + b.subsec_nanos(); let c = n >= 1_000_000_000; Duration::new(a.as_secs().saturating_add(b.as_secs()).saturating_add(c as u64), if c { n - 1_000_000_000 } else { n }) }
const MS: Duration = Duration::from_millis(1);
/// the time was not up too early, nor more than what the resolution of the system allows too late
fn judge(start: Duration, t: Duration, late: Duration) { judge_at(start, t, late, os::now()) }
fn judge_at(start: Duration, t: Duration, late: Duration, now: Duration) {
    sx::check(le(add(start, t), now), "a timeout is reported no earlier than its time");
    sx::check(le(now, add(add(start, t), late)), "a timeout is reported when its time has passed");
}
/// nothing arrives, or only messages of another type do: on the controller's endpoint and on another one, waits interrupted by signals
fn quiet(irrelevant: usize, eintr: usize, max: u64) {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]); b.join(vec!["c".into()]);
    let at = sx::pick(2, "receiver"); let t = if irrelevant > 0 { let k = sx::u8v("timeout"); sx::assume((k as u64) < max * 8); Duration::new(k as u64 >> 3, (k as u32 & 7) * 125_000_000) } else { short("timeout", max) };
    let mut th = vec![];
    if irrelevant > 0 {
        // sent while the receiver waits
        let p = os::new_proc(); let e = os::in_proc(p, || match join::<Other, BytesMessage>(opts("bus", label!("d"), "tok", true), secs(30)) { Ok(e) => e, Err(_) => sx::fail("check", "join of a valid endpoint failed") }); let gap: Vec<Duration> = (0..irrelevant).map(|_| { let g = sx::u8v("gap"); sx::assume(g < 16); Duration::new(0, g as u32 * 250_000_000) }).collect();
        th.push(os::spawn(p, move || { let e = e; for g in gap { os::sleep(g); os::in_proc(p, || { let m = Message::new(uni(["a", "b"][at]), Other(5)); sx::check(e.0.send(m).is_ok(), "sending succeeds"); }); } std::mem::forget(e); }));
    }
    os::os().eintr = eintr; let start = os::now();
    let p = b.p[at]; let r = os::in_proc(p, || b.e[at].as_mut().unwrap().1.recv(Some(t)));
    os::os().eintr = 0;
    match r { Err(RecvError::Timeout) => judge(start, t, MS), _ => sx::fail("check", "a receive for which nothing arrives reports a timeout") }
    for t in th { os::join_thread(t); }
    b.send(0, uni(["a", "b"][at]), 9); sx::check(b.got(at) == [9], "receiving works after a timeout");
    sx::reach("timeout");
}
#[derive(serde::Serialize, serde::Deserialize, type_uuid::TypeUuid)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0078"]
pub struct Other(u8);
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_quiet() { quiet(0, 0, 100) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_eintr() { quiet(0, 2, 100) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_other() { quiet(2, 0, 6) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_other_eintr() { quiet(1, 1, 6) }
/// any duration: a message which is sent after an arbitrary pause is received exactly if it is in time
fn any(at: usize, eintr: usize, t: Option<Duration>, d: Duration) {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]); b.join(vec!["c".into()]);
    let e = b.e[2].take().unwrap(); let p2 = b.p[2];
    let th = os::spawn(p2, move || { let e = e; os::sleep(d); send(p2, &e, uni(["a", "b"][at]), 7); std::mem::forget(e); });
    let start = os::now(); let p = b.p[at]; os::os().eintr = eintr;
    let r = os::in_proc(p, || b.e[at].as_mut().unwrap().1.recv(t)); os::os().eintr = 0;
    match r {
        Ok(m) => { sx::check(m.payload.format == 7, "what was sent arrives"); sx::check(os::now() == add(start, d), "a message is received when it arrives"); if let Some(t) = t { sx::check(le(d, add(t, MS)), "a timeout is reported when its time has passed"); } sx::reach("received"); }
        Err(RecvError::Timeout) => { match t { None => sx::fail("check", "a receive without a timeout does not time out"), Some(t) => { judge(start, t, MS); sx::check(le(t, d), "a message which is in time is received"); } } os::join_thread(th); sx::check(b.got(at) == [7], "a message which comes after a timeout is received later"); sx::reach("timeout"); }
        Err(_) => sx::fail("check", "receiving reports neither a message nor a timeout"),
    }
}
/// a multiple of an eighth of a second
fn coarse(name: &str, max: u64) -> Duration { let s = sx::u64v(name); sx::assume(s < max); let k = sx::u8v(name); sx::assume(k < 8); Duration::new(s, k as u32 * 125_000_000) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_any() { let at = sx::pick(2, "receiver"); let t = dur("timeout"); let d = coarse("pause", 8); any(at, sx::pick(2, "interruptions"), Some(t), d) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_late() { let at = sx::pick(2, "receiver"); let t = coarse("timeout", 8); let d = dur("pause"); sx::assume(d.as_secs() < 900_000); any(at, sx::pick(2, "interruptions"), Some(t), d) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_forever() { let at = sx::pick(2, "receiver"); let d = short("pause", 900_000); any(at, sx::pick(2, "interruptions"), None, d) }
/// a timeout of zero takes what is there, and waits for nothing
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_zero() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let at = sx::pick(2, "receiver"); let n = sx::pick(3, "messages"); for k in 0..n { b.send(1 - at, uni(["a", "b"][at]), k as u16); } os::settle();
    let start = os::now(); let p = b.p[at]; os::os().eintr = 1;
    for k in 0..=n { let r = os::in_proc(p, || b.e[at].as_mut().unwrap().1.recv(S0)); match r { Ok(m) => sx::check(k < n && m.payload.format == k as u16, "a receive without waiting takes what has arrived"), Err(RecvError::Timeout) => sx::check(k == n, "a receive without waiting takes what has arrived"), Err(_) => sx::fail("check", "receiving reports neither a message nor a timeout") } }
    sx::check(os::now() == start, "a receive without waiting does not wait"); sx::reach("zero");
}
type Joined = Rc<RefCell<Option<(Result<Keep<Ep>, JoinError>, Duration)>>>;
/// no controller, and one which appears after an arbitrary pause
fn joining(max: u64) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let t = dur("timeout"); let appears = sx::flag("a controller appears"); let d = short("pause", max); if !appears { sx::assume(t.as_secs() < max); }
    let out: Joined = Default::default(); let o2 = out.clone(); let start = os::now();
    let th = os::spawn(p, move || { let r = join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), "tok", false), Some(t)).map(Keep::new); *o2.borrow_mut() = Some((r, os::now())); });
    let mut c = None;
    if appears { os::sleep(d); c = Some(join_opt(q, opts("bus", label!("a"), "tok", true))); }
    os::join_thread(th);
    let (r, now) = out.borrow_mut().take().unwrap();
    match r {
        // looking for the controller is repeated every two seconds
        Ok(_) => { sx::check(appears, "joining succeeds only with a controller"); sx::check(le(add(start, d), now) & le(now, add(add(start, d), Duration::from_secs(3))), "joining notices a new controller within seconds"); sx::reach("joined"); }
        Err(JoinError::Timeout) => { judge_at(start, t, Duration::from_millis(100), now); if appears { sx::check(le(t, add(d, MS)), "a controller which is in time is found"); } sx::reach("timeout"); }
        Err(_) => sx::fail("check", "joining reports neither success nor a timeout"),
    }
    let _ = c;
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_join() { joining(5) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_join_long() { joining(20) }
/// receiving from a bus whose controller has died and does not come back
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_dead() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc());
    let c = join_opt(p, opts("bus", label!("a"), "tok", true)); let mut e = join_opt(q, opts("bus", label!("b"), "tok", false)); os::settle();
    std::mem::forget(c); os::kill(p); os::settle();
    let t = short("timeout", 7); let start = os::now();
    let r = os::in_proc(q, || e.1.recv(Some(t)));
    match r { Err(RecvError::Timeout) => { judge(start, t, Duration::from_secs(3)); sx::reach("timeout"); } Err(_) => sx::fail("check", "a receive on a bus without a controller reports a timeout"), Ok(_) => sx::fail("check", "nothing was sent") }
}
/// somebody who has bound the address of the bus but does not listen (yet), or a controller which does not accept (any more) with a number of connections waiting
fn stalled(bound: bool) {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let aff = sx::flag("may become controller");
    let w = if bound { 0 } else { [0, 31, 32, 33][sx::pick(4, "waiting connections")] };
    let l = os::app(q, || unsafe { let fd = os::socket(1, SEQ, 0); let a = addr(b"bus"); sx::check(os::bind(fd, a.as_ptr(), 110) == 0, "bound"); if !bound { os::listen(fd, 32); } Raw { p: q, fd } });
    let c: Vec<Raw> = (0..w).map(|_| Raw::connect(q, b"bus").unwrap()).collect();
    let t = dur("timeout"); sx::assume(t.as_secs() < if bound { 1 } else { 7 }); if bound { sx::assume(t.subsec_nanos() < 35_000_000); } let start = os::now();
    let r = os::in_proc(p, || join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), "tok", aff), Some(t)).map(Keep::new));
    let el = os::now() - start;
    match r { Err(JoinError::Timeout) => { sx::check(le(t, add(el, MS)), "joining does not report its timeout early"); sx::check(le(el, add(t, Duration::from_millis(if bound { 100 } else { 4100 }))), "joining reports its timeout"); sx::reach("timeout"); }
        Err(_) => sx::fail("check", "joining a bus which does not answer reports a timeout"), Ok(_) => sx::fail("check", "nobody answers") }
    sx::check(os::open_fds(p) == 3, "joining which fails leaves no descriptor behind"); let _ = (l, c);
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_bound() { stalled(true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_time_stalled() { stalled(false) }
