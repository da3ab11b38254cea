//! Shared pieces of the harnesses: endpoints, raw peers speaking the wire format, and small oracles.
use crate::{os, sx};
pub use ipmb::*;
use std::time::Duration;
pub use std::mem::ManuallyDrop as Keep;
pub const S0: Option<Duration> = Some(Duration::ZERO);
pub fn secs(n: u64) -> Option<Duration> { Some(Duration::from_secs(n)) }
pub fn msec(n: u64) -> Option<Duration> { Some(Duration::from_millis(n)) }
pub type Ep<T = BytesMessage> = (EndpointSender<T>, EndpointReceiver<T>);
pub fn opts(id: &str, l: Label, tok: &str, ctl: bool) -> Options { let mut o = Options::new(id, l, tok); o.controller_affinity = ctl; o }
pub fn bm(format: u16, data: &[u8]) -> BytesMessage { BytesMessage { format, data: data.to_vec() } }
/// join as process p; must succeed
pub fn join_as(p: usize, l: Label) -> Keep<Ep> { join_opt(p, opts("bus", l, "tok", true)) }
pub fn join_opt(p: usize, o: Options) -> Keep<Ep> {
    match os::in_proc(p, || join::<BytesMessage, BytesMessage>(o, secs(30))) { Ok(x) => Keep::new(x), Err(_) => sx::fail("check", "join of a valid endpoint failed") }
}
/// drop an endpoint (or a part of one) as its process
pub fn drop_in<T>(p: usize, x: T) { os::in_proc(p, move || drop(x)) }
pub fn uni(op: impl Into<LabelOp>) -> Selector { Selector::unicast(op) }
pub fn multi(op: impl Into<LabelOp>) -> Selector { Selector::multicast(op) }
pub fn ttl(mut s: Selector, d: Duration) -> Selector { s.ttl = d; s }
pub fn send(p: usize, e: &Ep, s: Selector, format: u16) { os::in_proc(p, || { let r = e.0.send(Message::new(s, bm(format, &[]))); sx::check(r.is_ok(), "sending a valid message failed"); }) }
/// everything that has arrived for e; nothing but a timeout may end the sequence
pub fn drain(p: usize, e: &mut EndpointReceiver<BytesMessage>) -> Vec<Message<BytesMessage>> {
    let mut v = vec![];
    os::in_proc(p, || loop {
        match e.recv(S0) {
            Ok(m) => v.push(m),
            Err(RecvError::Timeout) => break,
            Err(_) => sx::fail("check", "receiving failed with something else than a timeout"),
        }
        if v.len() > 40 { sx::fail("check", "messages keep arriving which nobody sent"); }
    });
    v
}
/// the formats of everything that has arrived; the messages are dropped as process p
pub fn formats(p: usize, e: &mut EndpointReceiver<BytesMessage>) -> Vec<u16> { let v = drain(p, e); let f = v.iter().map(|m| m.payload.format).collect(); drop_in(p, v); f }
pub fn count(v: &[u16], f: u16) -> usize { v.iter().filter(|x| **x == f).count() }

// ---------------------------------------------------------------- symbolic strings
/// an arbitrary string of n ASCII characters
pub fn ascii(n: usize, name: &str) -> String {
    let v = sx::vec(n, name);
    for b in &v { sx::assume(*b < 0x80); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// an arbitrary string: up to 2 bytes of UTF-8 (every one- and two-byte sequence)
pub fn utf8(name: &str, max: usize) -> String {
    let n = sx::pick(max + 1, "string-length");
    let v = sx::vec(n, name);
    match String::from_utf8(v) { Ok(s) => s, Err(_) => { sx::assume(false); String::new() } }
}
/// byte equality without short-circuit, as one condition
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

// ---------------------------------------------------------------- wire format, written independently of the library
pub const V: [u8; 4] = [0xFF, 0, 8, 5];
pub const CONNECT: [u8; 16] = [0xb2, 0xc1, 0xde, 0xb3, 0x30, 0x91, 0x4a, 0x74, 0xa9, 0x9c, 0xc8, 0xe8, 0xd7, 0x10, 0xd4, 0xb2];
pub const ACK: [u8; 16] = [0xc3, 0xde, 0x9e, 0xb4, 0xc3, 0x10, 0x4c, 0x14, 0x97, 0x47, 0x09, 0x3d, 0x62, 0xc0, 0x99, 0x98];
pub const BYTES: [u8; 16] = [0xdd, 0x95, 0xba, 0x8e, 0x12, 0x79, 0x47, 0xcf, 0x92, 0x5e, 0x83, 0xe6, 0x14, 0xe7, 0x95, 0x88];
pub fn ver() -> [u8; 4] { let v = version(); [0xFF, v.major(), v.minor(), v.patch()] }
pub fn varint(v: u64, o: &mut Vec<u8>) {
    if v < 251 { o.push(v as u8) } else if v < 65536 { o.push(251); o.extend_from_slice(&(v as u16).to_le_bytes()) } else if v <= u32::MAX as u64 { o.push(252); o.extend_from_slice(&(v as u32).to_le_bytes()) } else { o.push(253); o.extend_from_slice(&v.to_le_bytes()) }
}
pub fn wstr(s: &[u8], o: &mut Vec<u8>) { varint(s.len() as u64, o); o.extend_from_slice(s); }
pub fn pad(o: &mut Vec<u8>) { while o.len() % 4 != 0 { o.push(0); } }
/// selector with a label expression given as encoded bytes ([0] is True)
pub fn wsel(op: &[u8], multicast: bool, uuid: &[u8; 16], regions: u16) -> Vec<u8> {
    let mut o = op.to_vec(); o.push(multicast as u8); o.extend_from_slice(uuid); varint(regions as u64, &mut o); o.push(0); o.push(0); o
}
pub fn frame(v: [u8; 4], sel: &[u8], payload: &[u8]) -> Vec<u8> {
    let mut o = v.to_vec();
    o.extend_from_slice(&(sel.len() as u32).to_ne_bytes()); o.extend_from_slice(sel); pad(&mut o);
    o.extend_from_slice(&(payload.len() as u32).to_ne_bytes()); o.extend_from_slice(payload); pad(&mut o);
    o
}
pub fn wconnect(v: [u8; 3], token: &[u8], label: &[&[u8]]) -> Vec<u8> {
    let mut o = v.to_vec(); wstr(token, &mut o); varint(label.len() as u64, &mut o); for l in label { wstr(l, &mut o); } o
}
pub fn wbytes(format: u16, data: &[u8]) -> Vec<u8> { let mut o = vec![]; varint(format as u64, &mut o); wstr(data, &mut o); o }
/// (uuid, payload) of a frame whose selector is unicast/multicast to True
pub fn parse(f: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if f.len() < 8 { return None; }
    let n = sx::conc(u32::from_ne_bytes([f[4], f[5], f[6], f[7]]) as u64) as usize;
    let sel = f.get(8..8 + n)?;
    let p = 8 + (n + 3) / 4 * 4;
    let l = sx::conc(u32::from_ne_bytes(f.get(p..p + 4)?.try_into().ok()?) as u64) as usize;
    let pay = f.get(p + 4..p + 4 + l)?;
    // the type identity follows the label expression and the mode, 18 bytes before the end of simple selectors
    let uuid = if sel.len() >= 21 && sel[0] == 0 { sel[2..18].to_vec() } else { vec![] };
    Some((uuid, pay.to_vec()))
}

// ---------------------------------------------------------------- raw peers
pub fn addr(id: &[u8]) -> [u8; 110] { let mut a = [0u8; 110]; a[0] = 1; a[3..3 + id.len()].copy_from_slice(id); a }
pub struct Raw { pub p: usize, pub fd: i32 }
pub const SEQ: i32 = 5 | 0o2000000;
impl Raw {
    pub fn connect(p: usize, id: &[u8]) -> Option<Raw> {
        os::app(p, || unsafe { let fd = os::socket(1, SEQ, 0); let a = addr(id); if os::connect(fd, a.as_ptr(), 110) != 0 { os::close(fd); return None; } Some(Raw { p, fd }) })
    }
    pub fn listen(p: usize, id: &[u8]) -> Option<Raw> {
        os::app(p, || unsafe { let fd = os::socket(1, SEQ, 0); let a = addr(id); if os::bind(fd, a.as_ptr(), 110) != 0 || os::listen(fd, 32) != 0 { return None; } Some(Raw { p, fd }) })
    }
    pub fn accept(&self) -> Raw { os::app(self.p, || unsafe { let fd = os::accept4(self.fd, std::ptr::null_mut(), std::ptr::null_mut(), 0o2000000); Raw { p: self.p, fd } }) }
    /// a connected pair (reading end, writing end), both in process p
    pub fn pair(p: usize) -> (Raw, Raw) { os::app(p, || unsafe { let mut f = [0i32; 2]; os::socketpair(1, SEQ, 0, f.as_mut_ptr()); (Raw { p, fd: f[0] }, Raw { p, fd: f[1] }) }) }
    pub fn send(&self, data: &[u8], fds: &[i32]) -> bool {
        os::app(self.p, || unsafe {
            let mut iov = os::Iov { base: data.as_ptr() as *mut u8, len: data.len() };
            let mut c: Vec<u64> = vec![0; (16 + 4 * fds.len() + 7) / 8];
            let cp = c.as_mut_ptr() as *mut u8;
            (cp as *mut usize).write(16 + 4 * fds.len()); (cp.add(8) as *mut i32).write(1); (cp.add(12) as *mut i32).write(1);
            for (i, f) in fds.iter().enumerate() { (cp.add(16 + 4 * i) as *mut i32).write(*f); }
            let h = os::MsgHdr { name: std::ptr::null_mut(), namelen: 0, iov: &mut iov, iovlen: 1, control: if fds.is_empty() { std::ptr::null_mut() } else { cp }, controllen: if fds.is_empty() { 0 } else { c.len() * 8 }, flags: 0 };
            os::sendmsg(self.fd, &h, 0x4000) >= 0
        })
    }
    /// next packet if one is there: data and descriptors; Some(empty) at the end of the stream
    pub fn recv(&self) -> Option<(Vec<u8>, Vec<i32>)> {
        os::app(self.p, || unsafe {
            let mut b = vec![0u8; 8192]; let mut c = vec![0u64; 160];
            let mut iov = os::Iov { base: b.as_mut_ptr(), len: b.len() };
            let mut h = os::MsgHdr { name: std::ptr::null_mut(), namelen: 0, iov: &mut iov, iovlen: 1, control: c.as_mut_ptr() as *mut u8, controllen: c.len() * 8, flags: 0 };
            let n = os::recvmsg(self.fd, &mut h, 0x40 | 0x40000000);
            if n < 0 { return None; }
            b.truncate(n as usize);
            let mut fds = vec![];
            if h.controllen >= 16 { let l = *(c.as_ptr() as *const usize); let k = (l - 16) / 4; for i in 0..k { fds.push(((c.as_ptr() as *const u8).add(16 + 4 * i) as *const i32).read_unaligned()); } }
            Some((b, fds))
        })
    }
    pub fn close(self) { os::app(self.p, || unsafe { os::close(self.fd); }) }
}
/// A peer that joins by hand. Returns the connection and the end at which it receives.
pub fn raw_join(p: usize, id: &[u8], v: [u8; 4], payload: &[u8]) -> Option<(Raw, Raw)> {
    let c = Raw::connect(p, id)?;
    let (r, w) = Raw::pair(p);
    c.send(&frame(v, &wsel(&[0], false, &CONNECT, 0), payload), &[w.fd]);
    w.close();
    Some((c, r))
}
/// A controller written by hand: accepts one connection and reads its request; returns (connection, reply descriptor as a raw end).
pub fn raw_serve(l: &Raw) -> Option<(Raw, Raw)> {
    let c = l.accept();
    os::settle();
    let (_, fds) = c.recv()?;
    let w = *fds.last()?;
    Some((c, Raw { p: l.p, fd: w }))
}

// ---------------------------------------------------------------- label formulas
pub enum F { T, N, L(String), Not(Box<F>), And(Box<F>, Box<F>), Or(Box<F>, Box<F>) }
pub fn tree(depth: usize, nl: usize) -> F {
    match sx::pick(if depth == 0 { 3 } else { 6 }, "shape") {
        0 => F::L(ascii(nl, "leaf")), 1 => F::T, 2 => F::N,
        3 => F::Not(Box::new(tree(depth - 1, nl))),
        4 => { let a = tree(depth - 1, nl); F::And(Box::new(a), Box::new(tree(depth - 1, nl))) }
        _ => { let a = tree(depth - 1, nl); F::Or(Box::new(a), Box::new(tree(depth - 1, nl))) }
    }
}
pub fn build(f: &F) -> LabelOp {
    match f { F::T => LabelOp::True, F::N => LabelOp::False, F::L(s) => LabelOp::from(s.as_str()), F::Not(a) => !build(a), F::And(a, b) => build(a).and(build(b)), F::Or(a, b) => build(a).or(build(b)) }
}
pub fn eval(f: &F, l: &[String]) -> bool {
    match f { F::T => true, F::N => false, F::L(s) => { let mut r = false; for x in l { r |= same(x.as_bytes(), s.as_bytes()); } r } F::Not(a) => !eval(a, l), F::And(a, b) => { let x = eval(a, l); let y = eval(b, l); x & y } F::Or(a, b) => { let x = eval(a, l); let y = eval(b, l); x | y } }
}
/// structural equality of an expression with the formula it was built from
pub fn built_from(o: &LabelOp, f: &F) -> bool {
    match (o, f) {
        (LabelOp::True, F::T) | (LabelOp::False, F::N) => true,
        (LabelOp::Leaf(a), F::L(b)) => same(a.as_bytes(), b.as_bytes()),
        (LabelOp::Not(a), F::Not(b)) => built_from(a, b),
        (LabelOp::And(a, b), F::And(c, d)) | (LabelOp::Or(a, b), F::Or(c, d)) => { let x = built_from(a, c); x & built_from(b, d) }
        _ => false,
    }
}
// ---------------------------------------------------------------- descriptors in messages
pub fn obj(p: usize, mark: u64) -> (Object, os::DescId) { let fd = os::app_object(p, mark); (unsafe { Object::from_raw(fd) }, os::desc_of(p, fd).unwrap()) }
pub fn region_desc(p: usize, r: &MemoryRegion) -> os::DescId { match os::desc_of(p, r.object().as_raw()) { Some(d) => d, None => sx::fail("check", "a region's object is not an open descriptor") } }
pub fn obj_desc(p: usize, o: &Object) -> os::DescId { match os::desc_of(p, o.as_raw()) { Some(d) => d, None => sx::fail("check", "an object is not an open descriptor") } }
