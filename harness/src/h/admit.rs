//! C06, C07: who is admitted to the bus.
use super::route::B;
use crate::{os, sx, util::*};
use std::time::Duration;
fn v3() -> [u8; 3] { let v = version(); [v.major(), v.minor(), v.patch()] }
/// what the documentation says: equal major numbers, and equal minor numbers when they are zero
fn compatible(a: [u8; 3], b: [u8; 3]) -> bool { (a[0] == b[0]) & ((a[0] != 0) | (a[1] == b[1])) }
fn ack(x: Option<(Vec<u8>, Vec<i32>)>) -> Vec<u8> {
    match x { Some((f, _)) => match parse(&f) { Some((u, p)) => { sx::check(u == ACK || u.is_empty(), "the first thing a peer receives is the reply to its request"); p } None => sx::fail("check", "a reply is a well-formed frame") }, None => sx::fail("check", "a peer which asks to join gets a reply") }
}
/// tokens of any content up to 3 bytes each
#[no_mangle] #[inline(never)] pub extern "C" fn h_token_join() {
    os::init(); let p = [os::new_proc(), os::new_proc(), os::new_proc()];
    let t0 = ascii(sx::pick(4, "length0"), "token0"); let t1 = ascii(sx::pick(4, "length1"), "token1");
    let mut e0 = join_opt(p[0], opts("bus", label!("a"), &t0, true)); let e1 = join_opt(p[1], opts("bus", label!("b"), &t0, true));
    os::settle();
    let before = os::open_fds(p[2]);
    let r = os::in_proc(p[2], || join::<BytesMessage, BytesMessage>(opts("bus", label!("a"), &t1, sx::flag("affinity")), secs(30)));
    os::settle();
    let eq = same(t0.as_bytes(), t1.as_bytes());
    send(p[1], &e1, multi(LabelOp::True), 4); send(p[1], &e1, uni("a"), 5); os::settle();
    let g0 = formats(p[0], &mut e0.1);
    sx::check(count(&g0, 4) == 1, "a valid endpoint receives messages whoever else tries to join");
    match r {
        Ok(e) => {
            sx::check(eq, "a join with another token fails");
            let mut e = Keep::new(e); let g = formats(p[2], &mut e.1);
            sx::check(count(&g, 4) == 1 && count(&g, 5) + count(&g0, 5) == 1, "an admitted endpoint is part of the bus"); sx::reach("admitted");
        }
        Err(JoinError::TokenMismatch) => {
            sx::check(!eq, "a join with the right token succeeds"); sx::check(count(&g0, 5) == 1, "a refused peer is not a destination");
            sx::check(os::open_fds(p[2]) == before, "a refused join leaves nothing open"); sx::reach("refused");
        }
        Err(_) => sx::fail("check", "a join is refused for its token with another error"),
    }
}
/// tokens of arbitrary UTF-8, and long ones
#[no_mangle] #[inline(never)] pub extern "C" fn h_token_text() {
    os::init(); let p = [os::new_proc(), os::new_proc()];
    let (t0, t1) = match sx::pick(3, "kind") {
        0 => (utf8("token0", 2), utf8("token1", 2)),
        1 => { let n = [20, 30, 250, 251, 300][sx::pick(5, "length")]; let mut a = "x".repeat(n); let mut b = a.clone(); a.push_str(&ascii(1, "last0")); b.push_str(&ascii(1, "last1")); (a, b) }
        _ => { let n = sx::pick(5, "prefix"); ("abcd".to_string(), "abcdabcd"[..[0, 1, 3, 5, 8][n]].to_string()) }
    };
    let _e0 = join_opt(p[0], opts("bus", label!("a"), &t0, true));
    let r = os::in_proc(p[1], || join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), &t1, true), secs(30)));
    let eq = same(t0.as_bytes(), t1.as_bytes());
    match r { Ok(e) => { let _e = Keep::new(e); sx::check(eq, "a join with another token fails"); sx::reach("admitted") } Err(JoinError::TokenMismatch) => { sx::check(!eq, "a join with the right token succeeds"); sx::reach("refused") } Err(_) => sx::fail("check", "a join is refused for its token with another error") }
}
/// a peer which speaks the protocol by hand: what it is sent, to the byte
#[no_mangle] #[inline(never)] pub extern "C" fn h_token_raw() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let waiting = sx::flag("a message waits"); if waiting { b.send(1, ttl(uni("x"), Duration::from_secs(100)), 3); os::settle(); }
    let t = ascii(sx::pick(5, "length"), "token"); let good = same(t.as_bytes(), b"tok");
    let q = os::new_proc();
    let (c, r) = raw_join(q, b"bus", ver(), &wconnect(v3(), t.as_bytes(), &[b"x"])).unwrap();
    os::settle();
    b.send(0, multi(LabelOp::True), 4); b.send(1, ttl(uni("x"), Duration::from_secs(100)), 5); os::settle();
    let p = ack(r.recv());
    if p.first() == Some(&0) {
        sx::check(good, "a peer with another token is refused"); sx::check(p.len() == 17, "the success reply carries an identity");
        let want: &[u16] = if waiting { &[3, 4, 5] } else { &[4, 5] };
        for w in want { match r.recv() { Some((f, _)) => sx::check(parse(&f).is_some(), "a well-formed message follows"), None => sx::fail("check", "a message for an admitted peer is missing") } let _ = w; }
        sx::check(r.recv().is_none(), "nothing more follows"); sx::reach("admitted");
    } else {
        sx::check(!good, "a peer with the token is admitted"); sx::check(p == [2], "a peer with another token is told so");
        match r.recv() { None => {} Some((f, _)) => sx::check(f.is_empty(), "a refused peer receives no message") }
        // what waited is still there for somebody who has the token
        b.join(vec!["x".into()]); let g = b.got(2); sx::check(g == if waiting { vec![3, 5] } else { vec![5] }, "a refused peer does not consume messages"); sx::reach("refused");
    }
    let _ = c;
}
/// a join request of arbitrary bytes: admitted exactly when it is well-formed, compatible and has the token
fn payload(n: usize) {
    let mut b = B::new(); b.token = "t"; b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let q = os::new_proc(); let mut d = v3().to_vec(); d.extend(sx::vec(n, "request"));
    let (_c, r) = raw_join(q, b"bus", ver(), &d).unwrap(); os::settle();
    let p = ack(r.recv());
    // an independent reader of the request
    let ok = (|| {
        let mut i = 3;
        let num = |i: &mut usize| -> Option<u64> {
            let x = *d.get(*i)?; *i += 1;
            let k = match x { 0..=250 => return Some(x as u64), 251 => 2, 252 => 4, 253 => 8, _ => return None };
            let s = d.get(*i..*i + k)?; *i += k; let mut v = 0u64; for (j, x) in s.iter().enumerate() { v |= (*x as u64) << (8 * j); } Some(v)
        };
        let t = num(&mut i)?; if t > 8 { return None; } let t = sx::conc(t) as usize; let s = d.get(i..i + t)?; if !same(s, b"t") { return None; } i += t;
        let k = num(&mut i)?; if k > 8 { return None; } let k = sx::conc(k);
        for _ in 0..k { let l = num(&mut i)?; if l > 8 { return None; } let l = sx::conc(l) as usize; std::str::from_utf8(d.get(i..i + l)?).ok()?; i += l; }
        Some(())
    })().is_some();
    sx::check(p.first() == Some(&0) || p.first() == Some(&1) || p.first() == Some(&2), "the reply is one of the three");
    sx::check((p[0] == 0) == ok, "a peer is admitted exactly when its request is well-formed and has the token");
    if p[0] != 0 { b.send(0, multi(LabelOp::True), 4); os::settle(); match r.recv() { None => {} Some((f, _)) => sx::check(f.is_empty(), "a refused peer receives no message") } }
    sx::reach(if ok { "admitted" } else { "refused" });
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_token_request() { payload(5) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_token_request_deep() { payload(7) }
/// arbitrary versions in the frame header and in the request
#[no_mangle] #[inline(never)] pub extern "C" fn h_version_peer() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let h = sx::vec(3, "header"); let v = sx::vec(3, "request"); let (h, v) = ([h[0], h[1], h[2]], [v[0], v[1], v[2]]);
    let good = sx::flag("good token"); let q = os::new_proc();
    let (c, r) = raw_join(q, b"bus", [0xFF, h[0], h[1], h[2]], &wconnect(v, if good { b"tok" } else { b"no" }, &[b"x"])).unwrap();
    os::settle();
    let p = ack(r.recv()); let me = v3();
    let both = compatible(h, me) & compatible(v, me);
    if p[0] == 1 { sx::check(!both, "a compatible peer is not refused on account of its version"); sx::check(p.len() == 4 && p[1..4] == me, "a refused peer is told the controller's version"); sx::reach("refused"); }
    else { sx::check(both, "an incompatible peer is refused"); sx::check(p[0] == if good { 0 } else { 2 }, "a compatible peer is judged by its token"); sx::reach("compatible"); }
    b.send(0, multi("x"), 4); os::settle();
    let got = matches!(r.recv(), Some((f, _)) if !f.is_empty());
    sx::check(got == (both & good), "only an admitted peer receives messages");
    b.send(0, uni("b"), 9); sx::check(b.got(1) == [9], "the bus works as before");
    let _ = c;
}
/// an admitted peer which later sends frames of another version is not a danger, and those of a compatible version are routed
#[no_mangle] #[inline(never)] pub extern "C" fn h_version_message() {
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]);
    let q = os::new_proc();
    let (c, r) = raw_join(q, b"bus", ver(), &wconnect(v3(), b"tok", &[b"x"])).unwrap(); os::settle(); ack(r.recv());
    let h = sx::vec(3, "header"); let ok = compatible([h[0], h[1], h[2]], v3());
    c.send(&frame([0xFF, h[0], h[1], h[2]], &wsel(&[2, 1, b'b'], false, &BYTES, 0), &wbytes(6, b"zz")), &[]); os::settle();
    let g = b.got(1);
    sx::check(if ok { g == [6] } else { g.is_empty() }, "messages of a compatible peer are routed, others are not");
    b.send(0, uni("b"), 9); sx::check(b.got(1) == [9], "the bus works as before");
    sx::reach("message");
}
/// a controller which answers with an arbitrary version: in the reply itself or in the header of its frame
#[no_mangle] #[inline(never)] pub extern "C" fn h_version_controller() {
    os::init(); let (pc, pj) = (os::new_proc(), os::new_proc());
    let l = Raw::listen(pc, b"bus").unwrap();
    let h = sx::vec(3, "header"); let v = sx::vec(3, "reply"); let kind = sx::pick(3, "kind");
    let out: std::rc::Rc<std::cell::RefCell<Option<Result<Keep<Ep>, JoinError>>>> = Default::default(); let o2 = out.clone();
    let t = os::spawn(pj, move || { *o2.borrow_mut() = Some(join::<BytesMessage, BytesMessage>(opts("bus", label!("b"), "tok", false), secs(1)).map(Keep::new)); });
    os::settle();
    let (_c, w) = raw_serve(&l).unwrap();
    let payload = match kind { 0 => { let mut x = vec![0]; x.extend_from_slice(&[9; 16]); x } 1 => vec![1, v[0], v[1], v[2]], _ => vec![2] };
    w.send(&frame([0xFF, h[0], h[1], h[2]], &wsel(&[0], false, &ACK, 0), &payload), &[]);
    os::join_thread(t);
    let hc = compatible([h[0], h[1], h[2]], v3());
    let r = out.borrow_mut().take(); match r {
        Some(Ok(_)) => { sx::check(hc && kind == 0, "joining succeeds only when it was accepted"); sx::reach("joined") }
        Some(Err(JoinError::VersionMismatch(x))) => {
            let x = [x.major(), x.minor(), x.patch()];
            sx::check(!hc || kind == 1, "a version error is reported only for an incompatible version");
            if !hc { sx::check(x[0] == h[0] && x[1] == h[1] && x[2] == h[2], "the version of the controller's frame is reported"); } else { sx::check(x[0] == v[0] && x[1] == v[1] && x[2] == v[2], "the version which was told is reported"); }
            sx::reach("version error")
        }
        Some(Err(JoinError::TokenMismatch)) => { sx::check(hc && kind == 2, "a token error is reported only when it was told"); sx::reach("token error") }
        _ => sx::fail("check", "the joining side reports neither success nor the reason of the refusal"),
    }
}
/// endpoints on both sides of the library itself
#[no_mangle] #[inline(never)] pub extern "C" fn h_version_self() {
    let v = version();
    sx::check(compatible([v.major(), v.minor(), v.patch()], v3()), "a version is compatible with itself");
    let mut b = B::new(); b.join(vec!["a".into()]); b.join(vec!["b".into()]); b.send(0, uni("b"), 1); sx::check(b.got(1) == [1], "endpoints of one version work together"); sx::reach("self");
}
