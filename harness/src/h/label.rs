//! C01: label expressions and label sets.
use crate::{sx, util::*};
/// set semantics, against an array model
fn ops(steps: usize, start: usize, nl: usize) {
    let mut l = Label::default();
    let mut model: Vec<(String, bool)> = vec![];
    for i in 0..start { let s = if i == 3 { "a-rather-long-name-which-is-not-inline".to_string() } else { format!("pre{i}") }; l.insert(&s); model.push((s, true)); }
    for _ in 0..steps {
        let s = match sx::pick(if start > 0 { 3 } else { 1 }, "name") { 0 => ascii(nl, "n"), 1 => { let mut s = "a-rather-long-name-which-is-not-inlin".to_string(); s.push_str(&ascii(1, "last")); s } _ => "pre1".to_string() };
        if sx::flag("insert") { l.insert(&s); for m in model.iter_mut() { m.1 &= !same(m.0.as_bytes(), s.as_bytes()); } model.push((s, true)); }
        else { l.remove(&s); for m in model.iter_mut() { m.1 &= !same(m.0.as_bytes(), s.as_bytes()); } }
    }
    let q = ascii(nl, "q");
    let mut member = false; for m in &model { member |= m.1 & same(m.0.as_bytes(), q.as_bytes()); }
    sx::check(l.all([q.as_str()]) == member, "an element is in a label exactly when it was inserted and not removed since");
    // several elements require all of them
    let r = if model.is_empty() { "x".to_string() } else { model[sx::pick(model.len(), "second")].0.clone() };
    let mut member2 = false; for m in &model { member2 |= m.1 & same(m.0.as_bytes(), r.as_bytes()); }
    sx::check(l.all([q.as_str(), r.as_str()]) == (member & member2), "asking for two elements requires both");
    sx::check(l.all([r.as_str(), q.as_str()]) == (member & member2), "asking for two elements requires both (reversed)");
    sx::check(l.all(std::iter::empty::<&str>()), "asking for nothing is always satisfied");
    let n = l.iter().count(); let mut k = 0usize; for m in &model { k += m.1 as usize; }
    sx::check(n == k, "a label holds each element once");
    let mut found = false; for e in l.iter() { found |= same(e.as_bytes(), q.as_bytes()); }
    sx::check(found == member, "iteration yields exactly the members");
    sx::reach("ops");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_ops() { ops(3, 0, 1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_ops_big() { ops(2, 8, 4) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_ops_deep() { ops(4, 0, 2) }

fn formula(depth: usize, members: usize, nl: usize) {
    let f = tree(depth, nl);
    let mut names = vec![]; let mut l = Label::default();
    for _ in 0..members { let s = ascii(nl, "member"); l.insert(&s); names.push(s); }
    let want = eval(&f, &names);
    let op = build(&f);
    sx::check(op.validate(&l) == want, "the expression accepts the label exactly when its formula is true");
    let e = encode(&op).ok().unwrap(); let le = encode(&l).ok().unwrap();
    let op2: LabelOp = match decode(&e) { Ok(x) => x, Err(_) => sx::fail("check", "an encoded expression does not decode") };
    let l2: Label = match decode(&le) { Ok(x) => x, Err(_) => sx::fail("check", "an encoded label does not decode") };
    sx::check(op2.validate(&l2) == want, "the verdict is the same after transport");
    sx::reach("formula");
}
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_formula() { formula(2, 1, 1) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_formula_two() { formula(1, 2, 2) }
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_formula_deep() { formula(2, 2, 1) }
/// names of every length up to 26 bytes (inline and heap representation) which differ in one byte or are prefixes
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_names() {
    let base = b"abcdefghijklmnopqrstuvwxyz"; let n = sx::pick(27, "length");
    let mut a = base[..n].to_vec(); if n > 0 { a[n - 1] = sx::u8v("last"); sx::assume(a[n - 1] < 0x80); }
    let m = match sx::pick(3, "other") { 0 => n, 1 => if n > 0 { n - 1 } else { 0 }, _ => (n + 1).min(26) };
    let b = &base[..m];
    let (sa, sb) = (String::from_utf8(a).unwrap(), std::str::from_utf8(b).unwrap());
    let l = label!(sa);
    let want = same(sa.as_bytes(), sb.as_bytes());
    sx::check(LabelOp::from(sb).validate(&l) == want, "names are equal exactly when all their bytes are");
    let op: LabelOp = decode(&encode(&!LabelOp::from(sb)).ok().unwrap()).ok().unwrap(); let l2: Label = decode(&encode(&l).ok().unwrap()).ok().unwrap();
    sx::check(op.validate(&l2) != want, "names are compared the same way after transport");
    sx::reach("names");
}
/// names of arbitrary (valid) UTF-8
#[no_mangle] #[inline(never)] pub extern "C" fn h_label_utf8() {
    let a = utf8("a", 2); let b = utf8("b", 2);
    let l = label!(a);
    let want = same(a.as_bytes(), b.as_bytes());
    let op = LabelOp::from(b.as_str());
    sx::check(op.validate(&l) == want, "UTF-8 names are compared by all their bytes");
    let op: LabelOp = decode(&encode(&op).ok().unwrap()).ok().unwrap(); let l2: Label = decode(&encode(&l).ok().unwrap()).ok().unwrap();
    sx::check(op.validate(&l2) == want, "UTF-8 names are compared the same way after transport");
    sx::reach("utf8");
}
