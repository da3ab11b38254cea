use crate::{os, sx, util::*};
#[no_mangle] #[inline(never)]
pub extern "C" fn h_smoke() {
    let a = sx::u32v("a"); let b = sx::u32v("b");
    sx::check(a.wrapping_add(b) == b.wrapping_add(a), "commutes");
    if a > b { sx::check(a != 0, "nz"); sx::reach("gt"); } else { sx::reach("le"); }
    let v = sx::vec(3, "v");
    let l = label!(std::str::from_utf8(&v).unwrap_or("zz"));
    sx::check(l.all(["zz"]) == (std::str::from_utf8(&v).is_err()|| &v[..]==b"zz"), "label");
}
#[no_mangle] #[inline(never)]
pub extern "C" fn h_bus() {
    os::init();
    let p0 = os::new_proc(); let p1 = os::new_proc(); let p2 = os::new_proc();
    let e0 = join_as(p0, label!("a"));
    sx::trace("joined0", 0);
    let e1 = join_as(p1, label!("b"));
    sx::trace("joined1", 0);
    let mut e2 = join_as(p2, label!("c"));
    sx::trace("joined2", 0);
    let d = sx::vec(4, "d");
    os::in_proc(p1, || { let r = e1.0.send(Message::new(Selector::unicast("c"), bm(3, &d))); sx::check(r.is_ok(), "send ok"); });
    sx::trace("sent", 0);
    let m = os::in_proc(p2, || e2.1.recv(secs(5)));
    match m { Ok(m) => { sx::check(m.payload.data == d, "same"); sx::reach("got"); } Err(_) => sx::check(false, "not received") }
    let _ = &e0;
}
