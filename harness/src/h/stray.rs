//! C25: what a process sends is its messages, never other contents of its memory.
use super::route::B;
use crate::{os, sx, util::*};
use std::time::Duration;
fn name(max: usize) -> String { let n = sx::pick(max + 1, "label length"); "klmnopq"[..n].to_string() }
/// messages of every length modulo the alignment, on every path, with attachments
#[no_mangle] #[inline(never)] pub extern "C" fn h_stray_message() {
    let mut b = B::new(); os::os().stray = true; let extra = name(4); for l in ["a", "b"] { b.join(vec![l.into(), extra.clone()]); }
    let (s, r) = [(0, 0), (0, 1), (1, 0), (1, 1)][sx::pick(4, "path")]; let n = sx::pick(6, "length"); let d = sx::vec(n, "data"); let (no, nr) = (sx::pick(2, "objects"), sx::pick(2, "regions"));
    let sel = match sx::pick(3, "expression") { 0 => LabelOp::from(["a", "b"][r]), 1 => LabelOp::from(["a", "b"][r]).and(extra.as_str()), _ => LabelOp::from(["a", "b"][r]).or(LabelOp::from("nobody").and(!LabelOp::from(extra.as_str()))) };
    let (p, e) = (b.p[s], b.e[s].as_ref().unwrap());
    os::in_proc(p, || { let mut m = Message::new(if sx::flag("multicast") { multi(sel) } else { uni(sel) }, bm(7, &d)); for _ in 0..no { m.objects.push(obj(p, 3).0); } for _ in 0..nr { m.memory_regions.push(MemoryRegion::new(5).unwrap()); } sx::check(e.0.send(m).is_ok(), "sending succeeds"); });
    os::settle(); let p = b.p[r]; let mut g = drain(p, &mut b.e[r].as_mut().unwrap().1); sx::check(g.len() == 1, "the message arrives"); let m = &mut g[0];
    sx::check(sx::is_init(&m.payload.data), "a received message consists of what was sent"); os::in_proc(p, || for r in m.memory_regions.iter_mut() { match r.map(..) { Ok(x) => sx::check(sx::is_init(x) && x.iter().all(|b| *b == 0), "a new region is empty"), Err(_) => sx::fail("check", "a region can be mapped") } }); drop_in(p, g); sx::reach("message");
}
/// requests to join and their answers, also those which refuse
#[no_mangle] #[inline(never)] pub extern "C" fn h_stray_join() {
    os::init(); os::os().stray = true; let p = [os::new_proc(), os::new_proc(), os::new_proc()]; let t = ["", "t", "to", "tok", "toke"][sx::pick(5, "token length")];
    let _a = join_opt(p[0], opts("bus", label!("a"), t, true)); let l = name(4); let _b = join_opt(p[1], opts("bus", label!(l), t, sx::flag("affinity")));
    let r = os::in_proc(p[2], || join::<BytesMessage, BytesMessage>(opts("bus", label!(l), "another", true), secs(5)).map(Keep::new)); sx::check(r.is_err(), "another token is refused");
    let v = version(); let x = os::new_proc(); let (_c, w) = raw_join(x, b"bus", [0xFF, v.major() ^ 1, v.minor(), v.patch()], &wconnect([v.major(), v.minor(), v.patch()], t.as_bytes(), &[b"x"])).unwrap(); os::settle(); if let Some((f, _)) = w.recv() { sx::check(sx::is_init(&f), "a refusal consists of what was written into it"); sx::reach("refused"); } sx::reach("joined");
}
/// packets of any length which the controller forwards, and messages which wait
#[no_mangle] #[inline(never)] pub extern "C" fn h_stray_forward() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]); os::os().stray = true; let wait = sx::flag("waits");
    let q = os::new_proc(); let v = version(); let (c, _r) = raw_join(q, b"bus", ver(), &wconnect([v.major(), v.minor(), v.patch()], b"tok", &[b"x"])).unwrap(); os::settle();
    let to = if wait { b'c' } else { b'b' }; let mut sel = vec![2, 1, to, sx::flag("multicast") as u8]; sel.extend_from_slice(&BYTES); varint(0, &mut sel); varint(100, &mut sel); sel.push(0);
    let n = sx::pick(5, "length"); let mut f = frame(ver(), &sel, &wbytes(5, &b"zzzz"[..n])); let l = f.len();
    match sx::pick(3, "tail") { 0 => {} 1 => { let k = sx::pick(5, "bytes"); f.extend(vec![1u8; k]); } _ => { let k = sx::pick(4, "bytes"); f.truncate(l - k); } }
    c.send(&f, &[]); os::settle(); if wait { b.join(vec!["c".into()]); }
    let i = if wait { 2 } else { 1 }; os::settle(); let p = b.p[i]; let g = drain(p, &mut b.e[i].as_mut().unwrap().1); for m in &g { sx::check(sx::is_init(&m.payload.data) && m.payload.data == b"zzzz"[..n], "a received message consists of what was sent"); sx::reach("forwarded"); } drop_in(p, g);
    let _ = Duration::ZERO; sx::reach("handled");
}
