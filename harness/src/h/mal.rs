//! C08: frames and descriptors a peer may write, and what they may not do to others.
use super::route::B;
use crate::{os, sx, util::*};
use std::time::Duration;
fn v3() -> [u8; 3] { let v = version(); [v.major(), v.minor(), v.patch()] }
fn sel_of(op: &[u8], multicast: u8, uuid: &[u8], tail: &[u8]) -> Vec<u8> { let mut o = op.to_vec(); o.push(multicast); o.extend_from_slice(uuid); o.extend_from_slice(tail); o }
fn raw_frame(ver4: &[u8], sel: &[u8], pay: &[u8]) -> Vec<u8> { frame([ver4[0], ver4[1], ver4[2], ver4[3]], sel, pay) }
/// descriptors of every kind: what a peer may attach
fn attach(p: usize, n: usize) -> Vec<i32> {
    os::app(p, || (0..n).map(|_| unsafe {
        match sx::pick(4, "attachment") {
            0 => os::app_object(p, 1),
            1 => os::socket(1, 5 | 0o2000000, 0),
            2 => { let fd = os::memfd_create(b"x\0".as_ptr(), 1); os::ftruncate(fd, [1, 8, 23, 24, 4096][sx::pick(5, "object size")]); fd }
            _ => os::memfd_create(b"x\0".as_ptr(), 1),
        }
    }).collect())
}
struct W { b: B, pc: usize, fds: usize, rp: usize, raw: Option<(Raw, Option<Raw>)> }
/// a bus of two endpoints and a peer which speaks by hand, admitted (labelled x) or not
fn world(admitted: bool) -> W {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let rp = os::new_proc();
    let raw = if admitted { let (c, r) = raw_join(rp, b"bus", ver(), &wconnect(v3(), b"tok", &[b"x"])).unwrap(); os::settle(); sx::check(r.recv().is_some(), "a well-formed peer is admitted"); (c, Some(r)) } else { let c = Raw::connect(rp, b"bus").unwrap(); os::settle(); (c, None) };
    let pc = b.p[0]; let fds = os::open_fds(pc);
    W { b, pc, fds, rp, raw: Some(raw) }
}
impl W {
    fn put(&self, data: &[u8], fds: &[i32]) { self.raw.as_ref().unwrap().0.send(data, fds); os::app(self.rp, || for f in fds { unsafe { os::close(*f); } }); os::settle(); }
    /// the others carry on, newcomers are admitted, and nothing remains of what the peer sent
    fn after(mut self) {
        for i in 0..2 {
            // what the peer sent may be undecodable
            let p = self.b.p[i]; let e = self.b.e[i].as_mut().unwrap(); let mut k = 0;
            os::in_proc(p, || loop { match e.1.recv(S0) { Err(RecvError::Timeout) => break, Ok(m) => { drop(m); k += 1; } Err(RecvError::Decode(_)) => k += 1, Err(_) => sx::fail("check", "receiving reports a message or a decode error") } if k > 1 { sx::fail("check", "one frame is reported once"); } });
        }
        self.b.send(0, uni("b"), 901); self.b.send(1, uni("a"), 902);
        sx::check(self.b.got(0) == [902], "endpoints go on receiving"); sx::check(self.b.got(1) == [901], "endpoints go on receiving");
        let n = self.b.join(vec!["n".into()]); self.b.send(1, uni("n"), 903); self.b.send(n, uni("b"), 904);
        sx::check(self.b.got(n) == [903] && self.b.got(1) == [904], "later endpoints can join and communicate");
        self.b.leave(n);
        sx::check(os::open_fds(self.pc) <= self.fds + 1, "what the peer sent leaves no descriptor open in the controller");
        if let Some((c, r)) = self.raw.take() { c.close(); if let Some(r) = r { r.close(); } }
        os::settle(); self.b.send(0, multi(LabelOp::True), 905);
        sx::check(self.b.got(0) == [905] && self.b.got(1) == [905], "endpoints go on receiving when the peer has gone");
    }
}
/// frames of n arbitrary bytes
fn arbitrary(max: usize) {
    let n = 1 + sx::pick(max, "length"); let w = world(sx::flag("admitted"));
    let d = sx::vec(n, "frame"); w.put(&d, &[]); w.after(); sx::reach("arbitrary");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_bytes() { arbitrary(12) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_bytes_deep() { arbitrary(14) }
/// a correct version followed by arbitrary bytes
fn headed(max: usize) {
    let n = sx::pick(max + 1, "length"); let w = world(true);
    let mut d = ver().to_vec(); d.extend(sx::vec(n, "frame")); w.put(&d, &[]); w.after(); sx::reach("headed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_headed() { headed(9) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_headed_deep() { headed(11) }
/// arbitrary sizes of the two blocks of an otherwise valid frame, which may be cut anywhere
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_sizes() {
    let w = world(true);
    let s = wsel(&[2, 1, b'b'], false, &BYTES, 0); let mut d = frame(ver(), &s, &wbytes(7, b"zz"));
    let p = 8 + (s.len() + 3) / 4 * 4; let which = sx::pick(3, "size field");
    if which != 1 { let x = sx::vec(4, "selector size"); d[4..8].copy_from_slice(&x); }
    if which != 0 { let x = sx::vec(4, "payload size"); d[p..p + 4].copy_from_slice(&x); }
    if which < 2 { let cut = sx::pick(d.len(), "cut"); d.truncate(cut + 1); }
    w.put(&d, &[]); w.after(); sx::reach("sizes");
}
/// a selector whose parts are arbitrary
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_selector() {
    let w = world(true);
    let op = if sx::flag("short expression") { vec![0] } else { sx::vec(3, "expression") };
    let mode = sx::u8v("mode"); let uuid = if sx::flag("connect") { CONNECT } else { BYTES };
    let tail = if op.len() == 1 { sx::vec(4, "tail") } else { vec![0, 0, 0] };
    w.put(&raw_frame(&ver(), &sel_of(&op, mode, &uuid, &tail), &wbytes(7, b"zz")), &[]); w.after(); sx::reach("selector");
}
/// arbitrary type identities: none of them is special to a peer, except those of the protocol itself
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_uuid() {
    let w = world(true); let u = sx::vec(16, "uuid"); let pay = sx::vec(sx::pick(4, "length"), "payload");
    let fds = attach(w.rp, sx::pick(2, "attachments"));
    w.put(&raw_frame(&ver(), &sel_of(&[0], 1, &u, &[0, 0, 0]), &pay), &fds); w.after(); sx::reach("uuid");
}
/// requests to join with arbitrary attachments and a payload that is right, cut short or arbitrary
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_connect() {
    let w = world(sx::flag("admitted")); let fds = attach(w.rp, sx::pick(3, "attachments"));
    let good = wconnect(v3(), b"tok", &[b"b"]);
    let pay = match sx::pick(3, "payload") { 0 => good, 1 => { let n = sx::pick(good.len(), "cut"); good[..n].to_vec() } _ => sx::vec(2, "payload") };
    let n = sx::pick(3, "regions"); w.put(&frame(ver(), &wsel(&[0], false, &CONNECT, n as u16), &pay), &fds);
    let mut w = w; // a destination that is no socket must not swallow the messages of others
    w.b.send(0, uni("b"), 801); sx::check(w.b.got(1) == [801], "a message is received by an endpoint that can receive it");
    let mut w2 = w; w2.b.send(0, multi("b"), 802); sx::check(w2.b.got(1) == [802], "a message is received by an endpoint that can receive it");
    w2.fds += 4; w2.after(); sx::reach("connect");
}
/// messages which claim memory regions: any count, any kind of object
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_regions() {
    let w = world(true); let k = sx::pick(3, "attachments"); let fds = attach(w.rp, k);
    let c = sx::u16v("regions"); sx::assume(c < 251 || c == 300 || c == 65535); let to = [b'a', b'b'][sx::pick(2, "to")];
    w.put(&frame(ver(), &wsel(&[2, 1, to], sx::flag("multicast"), &BYTES, c), &wbytes(7, b"zz")), &fds); w.after(); sx::reach("regions");
}
/// a frame nested as deep as a packet can hold
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_nested() {
    let w = world(true); let n = [1, 100, 511, 512, 513, 2000, 60000][sx::pick(7, "depth")];
    let mut op = match sx::pick(3, "operation") { 0 => vec![3u8; n], 1 => vec![4u8; n], _ => vec![5u8; n] };
    if op[0] != 3 { op.extend(std::iter::repeat(0).take(n + 1)); } else { op.push(0); }
    w.put(&frame(ver(), &wsel(&op, false, &BYTES, 0), &wbytes(7, b"zz")), &[]); w.after(); sx::reach("nested");
}
/// payloads of any content for the types the library itself sends and receives
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_payload() {
    let w = world(true); let n = sx::pick(7, "length"); let pay = sx::vec(n, "payload");
    w.put(&frame(ver(), &wsel(&[0], true, &BYTES, 0), &pay), &[]);
    // a payload that is not one is reported once as such, and receiving goes on
    let mut w = w;
    for i in 0..2 {
        let p = w.b.p[i]; let e = w.b.e[i].as_mut().unwrap(); let mut k = 0;
        os::in_proc(p, || loop { match e.1.recv(S0) { Err(RecvError::Timeout) => break, Ok(m) => { sx::check(m.objects.is_empty(), "no attachments"); k += 1; } Err(RecvError::Decode(_)) => k += 1, Err(_) => sx::fail("check", "receiving reports a message or a decode error") } if k > 1 { sx::fail("check", "one frame is reported once"); } });
        sx::check(k == 1, "one frame is reported once");
    }
    w.after(); sx::reach("payload");
}
/// a controller written by hand sends an arbitrary frame to an endpoint of the library
fn to_client(d: Vec<u8>, natt: usize) {
    os::init(); let (pc, pj) = (os::new_proc(), os::new_proc());
    let l = Raw::listen(pc, b"bus").unwrap();
    let out: std::rc::Rc<std::cell::RefCell<Option<Result<Keep<Ep>, JoinError>>>> = Default::default(); let o2 = out.clone();
    let t = os::spawn(pj, move || { *o2.borrow_mut() = Some(join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), "tok", true), secs(1)).map(Keep::new)); });
    os::settle();
    let (c, w) = raw_serve(&l).unwrap();
    let mut p = vec![0]; p.extend_from_slice(&[9; 16]); w.send(&frame(ver(), &wsel(&[0], false, &ACK, 0), &p), &[]);
    os::join_thread(t);
    let mut e = match out.borrow_mut().take() { Some(Ok(e)) => e, _ => sx::fail("check", "joining succeeds when it was accepted") };
    let fds = attach(pc, natt); w.send(&d, &fds); w.send(&frame(ver(), &wsel(&[0], false, &BYTES, 0), &wbytes(5, b"zz")), &[]);
    os::app(pc, || for f in &fds { unsafe { os::close(*f); } });
    // the endpoint hands over what it can, and rejoins when the connection has become unusable: that is its own bus from then on
    l.close();
    let mut seen = vec![];
    for _ in 0..3 { match os::in_proc(pj, || e.1.recv(msec(10))) { Ok(m) => { seen.push(m.payload.format); drop_in(pj, m) } Err(RecvError::Decode(_)) => seen.push(60000), Err(RecvError::Timeout) => break, Err(_) => sx::fail("check", "receiving reports a message, a decode error or a timeout") } }
    sx::check(seen.len() <= 2, "one frame is reported once");
    c.close(); w.close();
    os::settle();
    os::in_proc(pj, || { let _ = e.1.recv(msec(10)); });
    let p3 = os::new_proc(); let mut e3 = join_opt(p3, opts("bus", label!("z"), "tok", true)); os::settle();
    send(p3, &e3, uni("b"), 77); os::settle(); send(pj, &e, uni("z"), 78); os::settle();
    sx::check(count(&formats(pj, &mut e.1), 77) == 1 && formats(p3, &mut e3.1) == [78], "the endpoint goes on working on the bus");
    sx::reach("client");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_client() {
    let d = match sx::pick(3, "kind") {
        0 => { let n = 1 + sx::pick(9, "length"); let mut d = ver().to_vec(); d.extend(sx::vec(n, "frame")); d }
        1 => { let s = wsel(&[2, 1, b'b'], false, &BYTES, 0); let mut d = frame(ver(), &s, &wbytes(7, b"zz")); let p = 8 + (s.len() + 3) / 4 * 4; let x = sx::vec(4, "size"); if sx::flag("payload size") { d[p..p + 4].copy_from_slice(&x) } else { d[4..8].copy_from_slice(&x) } let cut = sx::pick(d.len(), "cut"); d.truncate(cut + 1); d }
        _ => { let n = sx::pick(5, "length"); frame(ver(), &sel_of(&sx::vec(1, "expression"), sx::u8v("mode"), if sx::flag("ack") { &ACK } else { &BYTES }, &[0, 0, 0]), &sx::vec(n, "payload")) }
    };
    to_client(d, 0)
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_client_regions() {
    let c = sx::u16v("regions"); sx::assume(c < 251 || c == 300 || c == 65535);
    to_client(frame(ver(), &wsel(&[0], sx::flag("multicast"), &BYTES, c), &wbytes(7, b"zz")), sx::pick(3, "attachments"))
}
/// replies to a request to join which are no replies
#[no_mangle] #[inline(never)] pub extern "C" fn h_mal_reply() {
    os::init(); let (pc, pj) = (os::new_proc(), os::new_proc());
    let l = Raw::listen(pc, b"bus").unwrap();
    let out: std::rc::Rc<std::cell::RefCell<Option<Result<Keep<Ep>, JoinError>>>> = Default::default(); let o2 = out.clone();
    let t = os::spawn(pj, move || { *o2.borrow_mut() = Some(join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), "tok", false), secs(1)).map(Keep::new)); });
    os::settle();
    let before = os::open_fds(pj);
    let (c, w) = raw_serve(&l).unwrap();
    let d = match sx::pick(4, "kind") {
        0 => { let n = 1 + sx::pick(9, "length"); sx::vec(n, "frame") }
        1 => { let n = sx::pick(9, "length"); frame(ver(), &wsel(&[0], false, &ACK, 0), &sx::vec(n, "reply")) }
        2 => { let n = sx::pick(3, "length"); frame(ver(), &wsel(&[0], false, &sx::vec(16, "uuid").try_into().unwrap(), 0), &sx::vec(n, "reply")) }
        _ => { let mut p = vec![sx::u8v("reply")]; p.extend_from_slice(&[9; 16]); p.truncate(1 + sx::pick(17, "length")); frame(ver(), &wsel(&[0], false, &ACK, sx::pick(3, "regions") as u16), &p) }
    };
    let fds = attach(pc, sx::pick(2, "attachments")); w.send(&d, &fds); os::app(pc, || for f in &fds { unsafe { os::close(*f); } });
    l.close();
    os::join_thread(t);
    let r = out.borrow_mut().take(); match r {
        Some(Ok(mut e)) => { sx::reach("joined"); os::in_proc(pj, || { let r = e.1.recv(S0); sx::check(matches!(r, Err(RecvError::Timeout)), "nothing to receive"); }); }
        Some(Err(_)) => { sx::check(os::open_fds(pj) <= before, "a failed join leaves nothing open"); sx::reach("not joined"); }
        None => sx::fail("check", "joining returns"),
    }
    c.close(); w.close();
}
