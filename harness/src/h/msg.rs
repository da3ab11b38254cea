//! C02: what is received is what was sent.
use crate::{os, sx, util::*};
struct Sent { format: u16, data: Vec<u8>, objs: Vec<os::DescId>, regs: Vec<(os::DescId, Vec<u8>)> }
fn make(p: usize, sel: Selector, data: Vec<u8>, no: usize, nr: usize) -> (Message<BytesMessage>, Sent) {
    os::in_proc(p, || {
        let format = sx::u16v("format");
        let mut m = Message::new(sel, BytesMessage { format, data: data.clone() });
        let mut s = Sent { format, data, objs: vec![], regs: vec![] };
        for i in 0..no { let (o, d) = obj(p, 7 + i as u64); m.objects.push(o); s.objs.push(d); }
        for i in 0..nr {
            let mut r = match MemoryRegion::new(5 + i) { Some(r) => r, None => sx::fail("check", "creating a memory region failed") };
            let c = sx::vec(2, "region");
            match r.map(1..3) { Ok(b) => b.copy_from_slice(&c), Err(_) => sx::fail("check", "mapping a memory region failed") }
            s.regs.push((region_desc(p, &r), c)); m.memory_regions.push(r);
        }
        (m, s)
    })
}
fn expect(p: usize, e: &mut EndpointReceiver<BytesMessage>, s: &Sent) {
    os::settle();
    os::in_proc(p, || {
        let mut m = match e.recv(if sx::flag("receive without timeout") { None } else { S0 }) { Ok(m) => m, Err(RecvError::Timeout) => sx::fail("check", "a sent message did not arrive"), Err(_) => sx::fail("check", "a sent message was not received but reported as an error") };
        sx::check(m.payload.format == s.format, "the received format equals the sent format");
        sx::check(m.payload.data.len() == s.data.len(), "the received payload has the sent length");
        sx::check(same(&m.payload.data, &s.data), "the received payload equals the sent payload");
        sx::check(m.objects.len() == s.objs.len(), "as many objects arrive as were attached");
        sx::check(m.memory_regions.len() == s.regs.len(), "as many regions arrive as were attached");
        for (o, d) in m.objects.iter().zip(&s.objs) { sx::check(obj_desc(p, o) == *d, "each object refers to the kernel object attached at its position"); }
        for (i, (r, (d, c))) in m.memory_regions.iter_mut().zip(&s.regs).enumerate() {
            sx::check(region_desc(p, r) == *d, "each region refers to the kernel object attached at its position");
            sx::check(r.buffer_size() == 5 + i as u64, "a received region has the size it was created with");
            match r.map(1..3) { Ok(b) => { let b = b.to_vec(); sx::check(same(&b, c), "a received region has the content which was written") } Err(_) => sx::fail("check", "mapping a received region failed") }
        }
    })
}
fn none(p: usize, e: &mut EndpointReceiver<BytesMessage>) { os::in_proc(p, || sx::check(matches!(e.recv(S0), Err(RecvError::Timeout)), "nothing arrives beyond what was sent")) }
const NAMES: [&str; 3] = ["a", "b", "c"];
fn bus() -> ([usize; 3], Vec<Keep<Ep>>) {
    os::init();
    let p = [os::new_proc(), os::new_proc(), os::new_proc()];
    let e = NAMES.iter().zip(&p).map(|(n, p)| join_as(*p, label!(n))).collect();
    (p, e)
}
/// (sender, receiver): the controller's endpoint is 0
fn path() -> (usize, usize) { [(1, 0), (0, 1), (1, 2), (0, 0), (1, 1)][sx::pick(5, "path")] }
fn op(l: &str) -> LabelOp { match sx::pick(4, "expression") { 0 => l.into(), 1 => LabelOp::from(l).and(!LabelOp::from("zz")), 2 => LabelOp::False.or(l), _ => !!LabelOp::from(l) } }
fn deliver(len: usize, no: usize, nr: usize, second: bool) {
    let (p, mut e) = bus(); let (s, r) = path();
    let sel = if sx::flag("multicast") { multi(op(NAMES[r])) } else { uni(op(NAMES[r])) };
    let (m, want) = make(p[s], sel, sx::vec(len, "data"), no, nr);
    os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending a message which fits succeeds"));
    os::settle();
    let mut second_want = None;
    if second {
        let (m, w) = make(p[s], uni(NAMES[r]), sx::vec(1, "data2"), 0, 0);
        os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending a message which fits succeeds"));
        second_want = Some(w);
    }
    os::settle();
    expect(p[r], &mut e[r].1, &want);
    if let Some(w) = second_want { expect(p[r], &mut e[r].1, &w); }
    none(p[r], &mut e[r].1);
    sx::reach("delivered");
}
/// short payloads with any content, any format, on every path and with several shapes of selector; a second message follows
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_bytes() { let n = sx::pick(6, "length"); deliver(n, 0, 0, true) }
/// objects and regions in any number up to 3 and 2
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_attach() { let no = sx::pick(4, "objects"); let nr = sx::pick(3, "regions"); deliver(1, no, nr, false) }
/// longer payloads: every boundary of the length encoding and of the padding
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_long() {
    let n = [15, 16, 17, 249, 250, 251, 252, 253, 255, 256, 257, 1023, 4096, 65535, 65536, 65537][sx::pick(16, "length")];
    let (p, mut e) = bus(); let (s, r) = path();
    let mut data = vec![0u8; n]; for (i, b) in data.iter_mut().enumerate() { *b = (i * 7 + i / 251) as u8; }
    data[0] = sx::u8v("first"); data[n / 2] = sx::u8v("middle"); data[n - 1] = sx::u8v("last");
    let (m, want) = make(p[s], uni(NAMES[r]), data, 1, 1);
    os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending a message which fits succeeds"));
    let (m, w2) = make(p[s], uni(NAMES[r]), sx::vec(2, "data2"), 0, 0);
    os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending a message which fits succeeds"));
    os::settle();
    expect(p[r], &mut e[r].1, &want); expect(p[r], &mut e[r].1, &w2); none(p[r], &mut e[r].1);
    sx::reach("delivered");
}
/// the largest attachment counts, and messages which do not fit: refused, and nothing is disturbed
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_limits() {
    let (p, mut e) = bus(); let (s, r) = path();
    for q in p { os::os().procs[q].max_fds = 1200; }
    let (no, nr, len) = match sx::pick(6, "case") { 0 => (253, 0, 1), 1 => (252, 1, 1), 2 => (254, 0, 1), 3 => (64, 0, 1), 4 => (0, 0, 130_900), _ => (0, 0, 140_000) };
    let mut data = vec![3u8; len]; data[0] = sx::u8v("first");
    let (m, want) = make(p[s], uni(NAMES[r]), data, no, nr);
    let sent = os::in_proc(p[s], || e[s].0.send(m).is_ok());
    // within the controller's own endpoint nothing is transported
    let fits = no + nr <= 253 && len <= 131_000;
    if s != 0 || fits { sx::check(sent == fits, "sending succeeds exactly when the message fits in a packet"); }
    let (m, w2) = make(p[s], uni(NAMES[r]), sx::vec(2, "data2"), 1, 0);
    os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending works after a message which does not fit"));
    os::settle();
    if fits || (s == 0 && r == 0) { expect(p[r], &mut e[r].1, &want); }
    expect(p[r], &mut e[r].1, &w2); none(p[r], &mut e[r].1);
    sx::reach("delivered");
}
/// the selector arrives as it was: label expression, mode, type identity, region count and time to live, at an endpoint which speaks the wire format itself
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_selector() {
    os::init();
    let p = [os::new_proc(), os::new_proc(), os::new_proc()];
    let e0 = join_as(p[0], label!("a")); let e1 = join_as(p[1], label!("b"));
    let (_c, r) = raw_join(p[2], b"bus", ver(), &wconnect([ver()[1], ver()[2], ver()[3]], b"tok", &[b"c"])).unwrap();
    os::settle(); sx::check(r.recv().is_some(), "a peer with the token is acknowledged"); 
    let f = match sx::pick(3, "shape") { 0 => F::Or(Box::new(F::L("c".into())), Box::new(tree(0, 1))), 1 => F::Not(Box::new(F::And(Box::new(F::N), Box::new(tree(0, 1))))), _ => F::T };
    let s = sx::pick(2, "sender");
    let (secs, nanos) = (sx::u64v("ttl.s"), sx::u32v("ttl.ns")); sx::assume(nanos < 1_000_000_000);
    let d = std::time::Duration::new(secs, nanos);
    let multicast = sx::flag("multicast");
    let sel = ttl(if multicast { multi(build(&f)) } else { uni(build(&f)) }, d);
    let (m, want) = make(p[s], sel, sx::vec(3, "data"), 0, 1);
    os::in_proc(p[s], || sx::check([&e0, &e1][s].0.send(m).is_ok(), "sending a message which fits succeeds"));
    os::settle();
    let (fr, fds) = match r.recv() { Some(x) => x, None => { sx::assume(matches!(f, F::T) && !multicast || matches!(f, F::Not(_)) && !multicast || matches!(f, F::Or(..)) && !multicast); sx::reach("routed elsewhere"); return; } };
    sx::check(fds.len() == 1 && os::desc_of(p[2], fds[0]) == Some(want.regs[0].0), "the region is attached");
    sx::check(fr.len() > 8 && fr[0..4] == ver(), "the frame announces the version");
    let n = sx::conc(u32::from_ne_bytes([fr[4], fr[5], fr[6], fr[7]]) as u64) as usize;
    sx::check(fr.len() >= 8 + n, "the frame holds its selector");
    let sel: Selector = match decode(&fr[8..8 + n]) { Ok(s) => s, Err(_) => sx::fail("check", "the selector does not decode") };
    sx::check(built_from(&sel.label_op, &f), "the label expression is transported unchanged");
    sx::check((sel.mode == SelectorMode::Multicast) == multicast, "the mode is transported unchanged");
    sx::check(sel.ttl == d, "the time to live is transported unchanged");
    let q = 8 + (n + 3) / 4 * 4;
    let k = sx::conc(u32::from_ne_bytes([fr[q], fr[q + 1], fr[q + 2], fr[q + 3]]) as u64) as usize;
    let b: BytesMessage = match decode(&fr[q + 4..q + 4 + k]) { Ok(b) => b, Err(_) => sx::fail("check", "the payload does not decode") };
    sx::check(b.format == want.format && same(&b.data, &want.data), "the payload is transported unchanged");
    sx::reach("delivered");
}
/// every length up to 300, with an attachment
#[no_mangle] #[inline(never)] pub extern "C" fn h_msg_lengths() {
    let n = 1 + sx::pick(300, "length");
    let (p, mut e) = bus(); let (s, r) = path();
    let mut data = vec![0x5a; n]; data[0] = sx::u8v("first"); data[n - 1] = sx::u8v("last");
    let (m, want) = make(p[s], uni(NAMES[r]), data, 1, 0);
    os::in_proc(p[s], || sx::check(e[s].0.send(m).is_ok(), "sending a message which fits succeeds"));
    expect(p[r], &mut e[r].1, &want); none(p[r], &mut e[r].1);
    sx::reach("delivered");
}
