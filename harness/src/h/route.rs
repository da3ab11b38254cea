//! C03, C04, C05, C11, C21: who receives what, and in which order.
use crate::{os, sx, util::*};
use std::time::Duration;
pub struct B { pub p: Vec<usize>, pub e: Vec<Option<Keep<Ep>>>, pub names: Vec<Vec<String>>, pub token: &'static str }
impl B {
    pub fn new() -> B { os::init(); B { p: vec![], e: vec![], names: vec![], token: "tok" } }
    /// a new endpoint in its own process whose label has these names; returns its index
    pub fn join(&mut self, names: Vec<String>) -> usize {
        let p = os::new_proc(); let mut l = Label::default(); for n in &names { l.insert(n); }
        let e = join_opt(p, opts("bus", l, self.token, true)); self.p.push(p); self.e.push(Some(e)); self.names.push(names); os::settle();
        self.p.len() - 1
    }
    pub fn send(&self, i: usize, s: Selector, format: u16) { send(self.p[i], self.e[i].as_ref().unwrap(), s, format) }
    /// the endpoint goes away by dropping both halves
    pub fn leave(&mut self, i: usize) { let e = self.e[i].take().unwrap(); drop_in(self.p[i], Keep::into_inner(e)); os::settle(); }
    pub fn got(&mut self, i: usize) -> Vec<u16> { os::settle(); match &mut self.e[i] { Some(e) => formats(self.p[i], &mut e.1), None => vec![] } }
    pub fn all(&mut self) -> Vec<Vec<u16>> { (0..self.p.len()).map(|i| self.got(i)).collect() }
    pub fn matches(&self, i: usize, f: &F) -> bool { self.e[i].is_some() && eval(f, &self.names[i]) }
}
/// deliveries of message `id` against what the formula demands
fn judge(b: &B, got: &[Vec<u16>], f: &F, multicast: bool, id: u16) {
    let mut total = 0usize; let mut any = false;
    for i in 0..got.len() {
        let n = count(&got[i], id); total += n;
        let m = b.matches(i, f); any |= m;
        if multicast { sx::check(n == m as usize, if n > 1 { "an endpoint receives a multicast message once" } else { "a multicast message reaches exactly the endpoints whose label matches" }); }
        else { sx::check((n == 0) | m, "a unicast message is received only by an endpoint whose label matches"); }
    }
    if !multicast { sx::check(total == any as usize, "a unicast message is received by exactly one endpoint if one matches"); }
}
/// n endpoints with one arbitrary name each; two messages with arbitrary selectors from arbitrary senders
fn one_letter(n: usize, depth: usize, msgs: usize, multicast: bool) {
    let mut b = B::new();
    for _ in 0..n { let s = ascii(1, "label"); b.join(vec![s]); }
    let mut sent = vec![];
    for k in 0..msgs {
        let f = tree(depth, 1); let s = sx::pick(n, "sender");
        b.send(s, if multicast { multi(build(&f)) } else { uni(build(&f)) }, k as u16);
        sent.push(f);
    }
    let got = b.all();
    for (k, f) in sent.iter().enumerate() { judge(&b, &got, f, multicast, k as u16); }
    for g in &got { sx::check(g.len() <= msgs, "no more messages arrive than were sent"); }
    sx::reach("routed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni() { one_letter(3, 1, 1, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi() { one_letter(3, 1, 1, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_two() { one_letter(3, 0, 2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_two() { one_letter(3, 0, 2, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_four() { one_letter(4, 1, 1, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_four() { one_letter(4, 1, 1, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_five() { one_letter(5, 0, 2, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_five() { one_letter(5, 0, 2, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_deep() { one_letter(2, 2, 1, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_deep() { one_letter(2, 2, 1, true) }
/// labels with no name, one or two names; the same names may be shared
fn label_sets(multicast: bool) {
    let mut b = B::new();
    for _ in 0..3 { let k = sx::pick(3, "names"); let v = (0..k).map(|_| ascii(1, "label")).collect(); b.join(v); }
    let f = match sx::pick(4, "shape") { 0 => F::L("x".into()), 1 => F::And(Box::new(F::L("x".into())), Box::new(F::L("y".into()))), 2 => F::And(Box::new(F::L("x".into())), Box::new(F::Not(Box::new(F::L("y".into()))))), _ => F::Not(Box::new(F::Or(Box::new(F::L("x".into())), Box::new(F::L("y".into()))))) };
    let s = sx::pick(3, "sender");
    b.send(s, if multicast { multi(build(&f)) } else { uni(build(&f)) }, 1);
    let got = b.all(); judge(&b, &got, &f, multicast, 1);
    sx::reach("routed");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_sets() { label_sets(false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_sets() { label_sets(true) }
/// a history of joins, departures, dropped receivers, pauses and messages; every message is judged against the endpoints alive when it was sent
fn history(steps: usize, multicast: bool) {
    let mut b = B::new(); let mut deaf: Vec<(usize, Keep<EndpointSender<BytesMessage>>)> = vec![];
    for n in ["a", "b", "a"] { b.join(vec![n.to_string()]); }
    let mut id = 0; let mut waiting: Vec<u16> = vec![];
    for _ in 0..steps {
        match sx::pick(6, "step") {
            0 => { let live: Vec<usize> = (1..b.p.len()).filter(|i| b.e[*i].is_some()).collect(); if live.is_empty() { return; } let i = live[sx::pick(live.len(), "leaves")]; b.leave(i); }
            1 => { let n = b.join(vec!["a".to_string()]); let g = b.got(n); sx::check(g.iter().all(|x| waiting.contains(x)), "a message which was delivered is not delivered again"); for x in g { waiting.retain(|w| *w != x); } }
            2 => { os::sleep(Duration::from_secs(31)); os::settle(); }
            5 => { let live: Vec<usize> = (0..b.p.len()).filter(|i| b.e[*i].is_some()).collect(); if live.is_empty() { return; } let i = live[sx::pick(live.len(), "drops its receiver")]; let (t, r) = Keep::into_inner(b.e[i].take().unwrap()); drop_in(b.p[i], r); os::settle(); deaf.push((b.p[i], Keep::new(t))); }
            k => {
                let live: Vec<usize> = (0..b.p.len()).filter(|i| b.e[*i].is_some()).collect();
                let s = sx::pick(live.len() + deaf.len(), "sender"); id += 1;
                let f = if k == 3 { F::L("a".into()) } else { F::Not(Box::new(F::L("a".into()))) };
                let sel = if multicast { multi(build(&f)) } else { uni(build(&f)) }; let lives = sx::flag("time to live"); let sel = if lives { ttl(sel, Duration::from_secs(600)) } else { sel };
                if s < live.len() { b.send(live[s], sel, id) } else { let (p, t) = &deaf[s - live.len()]; let r = os::in_proc(*p, || t.send(Message::new(sel, bm(id, &[])))); sx::check(r.is_ok(), "sending a valid message failed"); }
                let got = b.all(); judge(&b, &got, &f, multicast, id);
                for g in &got { sx::check(g.iter().all(|x| *x == id), "a message arrives when it is sent and never again"); }
                if lives && got.iter().all(|g| g.is_empty()) { waiting.push(id); }
            }
        }
    }
    let n = b.join(vec!["a".to_string()]); let g = b.got(n); sx::check(g.iter().all(|x| waiting.contains(x)), "a message which was delivered is not delivered again");
    sx::reach("history");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_history() { history(3, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_history() { history(3, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_history_long() { history(5, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_history_long() { history(5, true) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_uni_history_four() { history(4, false) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_multi_history_four() { history(4, true) }
