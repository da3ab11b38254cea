//! C19: message types.
use crate::{os, sx, util::*};
use serde::{Deserialize, Serialize};
use std::time::Duration;
use type_uuid::TypeUuid;
#[derive(Serialize, Deserialize, TypeUuid)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c0079"]
pub struct A { x: u8, y: bool }
#[derive(Serialize, Deserialize, TypeUuid)]
#[uuid = "7b07473e-9659-4d47-a502-8245d71c007a"]
pub struct A2 { x: u8, y: bool }
#[derive(ipmb::MessageBox)]
pub enum Multi { First(A), Text(String), Bytes(BytesMessage), Number(i32) }
#[derive(ipmb::MessageBox)]
pub enum Other { Second(A2), Number(i32) }
/// a type which says of itself what it likes
pub struct Any { uuid: [u8; 16], data: Vec<u8> }
impl ipmb::MessageBox for Any {
    fn decode(uuid: [u8; 16], data: &[u8]) -> Result<Self, Error> { Ok(Any { uuid, data: data.to_vec() }) }
    fn encode(&self) -> Result<Vec<u8>, Error> { Ok(self.data.clone()) }
    fn uuid(&self) -> [u8; 16] { self.uuid }
}
fn jt<T: MessageBox, R: MessageBox>(p: usize, l: &str) -> Keep<(EndpointSender<T>, EndpointReceiver<R>)> { match os::in_proc(p, || join::<T, R>(opts("bus", Label::from([l]), "tok", true), secs(30))) { Ok(x) => Keep::new(x), Err(_) => sx::fail("check", "join of a valid endpoint failed") } }

// ---------------------------------------------------------------- what a payload means, independently of the library
fn rd_var(b: &[u8], max: u32) -> Option<(u64, usize)> {
    let n = match b.first()? { 251 => 2, 252 => 4, 253 => 8, 254 => return None, 255 => return None, x => return Some((*x as u64, 1)) };
    if n as u32 * 8 > max || b.len() < 1 + n { return None; }
    let mut v = 0u64; for i in 0..n { v |= (b[1 + i] as u64) << (8 * i); } Some((v, 1 + n))
}
#[derive(PartialEq)]
enum W { First(u8, bool), Text(Vec<u8>), Bytes(u16, Vec<u8>), Number(i32), Bad, Skip }
fn rd_bytes(b: &[u8]) -> Option<Vec<u8>> { let (l, n) = rd_var(b, 64)?; if l > (b.len() - n) as u64 { return None; } let l = sx::conc(l) as usize; Some(b[n..n + l].to_vec()) }
fn meaning(kind: usize, b: &[u8]) -> W {
    (|| Some(match kind {
        0 => { let y = *b.get(1)?; if y > 1 { return None; } W::First(b[0], y == 1) }
        1 => { let t = rd_bytes(b)?; if std::str::from_utf8(&t).is_err() { return None; } W::Text(t) }
        2 => { let (f, n) = rd_var(b, 16)?; W::Bytes(f as u16, rd_bytes(&b[n..])?) }
        3 => { let (v, _) = rd_var(b, 32)?; let v = v as u32; W::Number(((v >> 1) as i32) ^ -((v & 1) as i32)) }
        _ => W::Skip,
    }))().unwrap_or(W::Bad)
}
fn uuids() -> [[u8; 16]; 4] { [A::UUID, String::UUID, BytesMessage::UUID, <i32 as TypeUuid>::UUID] }
fn matches(w: &W, r: &Result<Message<Multi>, RecvError>) -> bool {
    match (w, r) {
        (W::First(x, y), Ok(m)) => matches!(&m.payload, Multi::First(a) if (a.x == *x) & (a.y == *y)),
        (W::Text(t), Ok(m)) => matches!(&m.payload, Multi::Text(s) if same(s.as_bytes(), t)),
        (W::Bytes(f, d), Ok(m)) => matches!(&m.payload, Multi::Bytes(b) if (b.format == *f) & same(&b.data, d)),
        (W::Number(n), Ok(m)) => matches!(&m.payload, Multi::Number(k) if k == n),
        (W::Bad, Err(RecvError::Decode(_))) => true,
        _ => false,
    }
}
/// a receiver of several types on the controller's endpoint or another one; messages of any type and content
fn stream(n: usize, lens: &[usize], kinds: usize) {
    os::init(); let (p, q, r) = (os::new_proc(), os::new_proc(), os::new_proc());
    let ctl = sx::flag("receiver hosts the controller"); let (rp, sp) = if ctl { (p, q) } else { (q, p) };
    let (mut recv, send) = if ctl { let a = jt::<Multi, Multi>(p, "r"); (a, jt::<Any, BytesMessage>(q, "s")) } else { let b = jt::<Any, BytesMessage>(p, "s"); (jt::<Multi, Multi>(q, "r"), b) };
    let _ = r; os::settle();
    let mut want = vec![];
    for _ in 0..n {
        let kind = sx::pick(kinds, "type"); let data = sx::vec(lens[sx::pick(lens.len(), "length")], "payload"); if n > 1 { for b in &data { sx::assume((*b < 4) | (*b >= 250)); } }
        let uuid = if kind < 4 { uuids()[kind] } else { let v = sx::vec(16, "identity"); let mut u = [0u8; 16]; u.copy_from_slice(&v); sx::assume(!same(&u, &CONNECT)); u };
        let mut k = 4; for (i, u) in uuids().iter().enumerate() { if same(u, &uuid) { k = i; } }
        let w = meaning(k, &data); if w != W::Skip { want.push(w); }
        os::in_proc(sp, || sx::check(send.0.send(Message::new(uni("r"), Any { uuid, data })).is_ok(), "sending succeeds"));
    }
    os::in_proc(sp, || sx::check(send.0.send(Message::new(uni("r"), Any { uuid: BytesMessage::UUID, data: wbytes(77, b"z") })).is_ok(), "sending succeeds"));
    want.push(W::Bytes(77, b"z".to_vec()));
    let way = sx::pick(3, "timeout"); if way == 0 { os::settle(); }
    for w in &want { let x = os::in_proc(rp, || recv.1.recv(match way { 0 => S0, 1 => secs(5), _ => None })); sx::check(matches(w, &x), "messages of the declared types are received as what their identity says, those which do not decode are reported, others are skipped"); if matches!(w, W::Bad) { sx::reach("reported"); } }
    let x = os::in_proc(rp, || recv.1.recv(S0)); sx::check(matches!(x, Err(RecvError::Timeout)), "every message is reported once"); sx::reach("received");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_one() { stream(1, &[0, 1, 2, 3, 4], 5) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_long() { stream(1, &[0, 1, 2, 3, 4, 5, 6, 7, 8], 4) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_two() { stream(2, &[0, 2], 5) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_two_deep() { stream(2, &[0, 1, 2, 3], 5) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_three() { stream(3, &[2], 4) }
/// a receiver of one type
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_single() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let ctl = sx::flag("receiver hosts the controller"); let (rp, sp) = if ctl { (p, q) } else { (q, p) };
    let (mut recv, send) = if ctl { let a = jt::<A, A>(p, "r"); (a, jt::<Any, A2>(q, "s")) } else { let b = jt::<Any, A2>(p, "s"); (jt::<A, A>(q, "r"), b) };
    os::settle(); let mut want = vec![];
    for _ in 0..2 {
        let v = sx::vec(16, "identity"); let mut u = [0u8; 16]; u.copy_from_slice(&v); sx::assume(!same(&u, &CONNECT)); let data = sx::vec(sx::pick(3, "length"), "payload");
        if same(&u, &A::UUID) { want.push(meaning(0, &data)); }
        os::in_proc(sp, || sx::check(send.0.send(Message::new(uni("r"), Any { uuid: u, data })).is_ok(), "sending succeeds"));
    }
    os::settle();
    for w in &want { let x = os::in_proc(rp, || recv.1.recv(S0)); sx::check(match (w, &x) { (W::First(a, b), Ok(m)) => (m.payload.x == *a) & (m.payload.y == *b), (W::Bad, Err(RecvError::Decode(_))) => true, _ => false }, "messages of the declared type are received, those which do not decode are reported, others are skipped"); sx::reach(if matches!(w, W::Bad) { "reported" } else { "received" }); }
    let x = os::in_proc(rp, || recv.1.recv(S0)); sx::check(matches!(x, Err(RecvError::Timeout)), "every message is reported once"); sx::reach("skipped");
}
/// types with variants on the sending side: every variant goes as its own type
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_variants() {
    os::init(); let p: Vec<usize> = (0..6).map(|_| os::new_proc()).collect();
    let first = sx::flag("sender hosts the controller"); let mut s = None; if first { s = Some(jt::<Multi, Multi>(p[0], "s")); }
    let mut a = jt::<A, A>(p[1], "r"); let mut t = jt::<String, String>(p[2], "r"); let mut b = jt::<BytesMessage, BytesMessage>(p[3], "r"); let mut n = jt::<i32, i32>(p[4], "r"); let mut o = jt::<Other, Other>(p[5], "r");
    let mut s = match s { Some(s) => s, None => jt::<Multi, Multi>(p[0], "s") }; os::settle();
    let kind = sx::pick(4, "variant"); let (x, y, f, k) = (sx::u8v("x"), sx::flag("y"), sx::u16v("format"), sx::u32v("number") as i32); let text = ascii(sx::pick(3, "length"), "text"); let data = sx::vec(text.len(), "data");
    let make = || match kind { 0 => Multi::First(A { x, y }), 1 => Multi::Text(text.clone()), 2 => Multi::Bytes(bm(f, &data)), _ => Multi::Number(k) };
    let back = sx::flag("to itself too");
    os::in_proc(p[0], || sx::check(s.0.send(Message::new(multi(if back { LabelOp::True } else { LabelOp::from("r") }), make())).is_ok(), "sending succeeds")); os::settle();
    macro_rules! got { ($e:ident, $p:expr, $on:expr, $m:pat => $c:expr) => { { let v = os::in_proc(p[$p], || $e.1.recv(S0)); match v { Ok(v) => sx::check($on && match v.payload { $m => $c, #[allow(unreachable_patterns)] _ => false }, "a variant arrives as its own type"), Err(RecvError::Timeout) => sx::check(!$on, "a variant arrives at the receivers of its type"), Err(_) => sx::fail("check", "a variant which was sent by the library is decoded") } let v = os::in_proc(p[$p], || $e.1.recv(S0)); sx::check(matches!(v, Err(RecvError::Timeout)), "a variant arrives once"); } } }
    got!(a, 1, kind == 0, A { x: x1, y: y1 } => (x1 == x) & (y1 == y));
    got!(t, 2, kind == 1, t1 => same(t1.as_bytes(), text.as_bytes()));
    got!(b, 3, kind == 2, BytesMessage { format, data: d } => (format == f) & same(&d, &data));
    got!(n, 4, kind == 3, n1 => n1 == k);
    got!(o, 5, kind == 3, Other::Number(n1) => n1 == k);
    if back { match kind { 0 => got!(s, 0, true, Multi::First(a) => (a.x == x) & (a.y == y)), 1 => got!(s, 0, true, Multi::Text(t1) => same(t1.as_bytes(), text.as_bytes())), 2 => got!(s, 0, true, Multi::Bytes(d) => (d.format == f) & same(&d.data, &data)), _ => got!(s, 0, true, Multi::Number(n1) => n1 == k) } }
    sx::reach("variants"); let _ = Duration::ZERO;
}
/// decoding errors while the receiver waits with a timeout, and attachments of what is skipped
#[no_mangle] #[inline(never)] pub extern "C" fn h_type_attached() {
    os::init(); let (p, q) = (os::new_proc(), os::new_proc()); let ctl = sx::flag("receiver hosts the controller"); let (rp, sp) = if ctl { (p, q) } else { (q, p) };
    let (mut recv, send) = if ctl { let a = jt::<A, A>(p, "r"); (a, jt::<Any, A2>(q, "s")) } else { let b = jt::<Any, A2>(p, "s"); (jt::<A, A>(q, "r"), b) };
    os::settle(); let base = (os::open_fds(rp), os::open_fds(sp)); let kind = sx::pick(3, "kind"); let reg = os::in_proc(sp, || MemoryRegion::new(8).unwrap());
    let (k, l) = (sx::pick(2, "objects"), sx::pick(2, "regions"));
    os::in_proc(sp, || { let mut m = Message::new(uni("r"), match kind { 0 => Any { uuid: [3; 16], data: vec![1, 1] }, 1 => Any { uuid: A::UUID, data: vec![1] }, _ => Any { uuid: A::UUID, data: vec![1, 1] } }); for _ in 0..k { m.objects.push(obj(sp, 1).0); } for _ in 0..l { m.memory_regions.push(reg.clone().unwrap()); } sx::check(send.0.send(m).is_ok(), "sending succeeds"); }); os::settle();
    let x = os::in_proc(rp, || recv.1.recv(msec(3)));
    match &x { Ok(m) => sx::check(kind == 2 && m.objects.len() == k && m.memory_regions.len() == l, "only a message of the declared type is received, with what is attached"), Err(RecvError::Timeout) => sx::check(kind == 0, "a message of another type is skipped"), Err(RecvError::Decode(_)) => sx::check(kind == 1, "a payload which does not decode is reported"), Err(_) => sx::fail("check", "receiving reports a message, a timeout, or a payload which does not decode") }
    os::in_proc(rp, || drop(x)); os::settle();
    sx::check(os::open_fds(rp) == base.0 && os::open_fds(sp) == base.1 + 1, "what is attached to a skipped message is closed"); sx::check(reg.ref_count() == 1, "the regions of a skipped message are released"); drop_in(sp, reg); sx::reach("attached");
}
