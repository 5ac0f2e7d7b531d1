//! C30: literals.
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::tyx;
use crate::val::*;
use rustc_public::ty::*;
use std::rc::Rc;

/// An arbitrary literal: as many marks as characters.
pub fn lit(c: &mut Ck, st: &mut State, name: &str, ty: Ty) -> (V, V, Rc<SeqV>, Rc<SeqV>, Ty) {
    let v = c.e.expand(Sym::new(name), ty);
    let (s, m) = (at(c, st, &v, ty, "s").0, at(c, st, &v, ty, "nocase").0);
    let (s, m) = (seq(c, &s), seq(c, &m));
    let (s, m) = (s.unwrap_or(Rc::new(SeqV::empty(Ty::bool_ty()))), m.unwrap_or(Rc::new(SeqV::empty(Ty::bool_ty()))));
    let x = c.e.dom.eq0(st.pc, &s.len().sub(&m.len()));
    st.pc = bdd::and(st.pc, x);
    let h = c.e.heap(st, v.clone(), ty);
    (reff(h), v, s, m, ty)
}
fn elem(c: &mut Ck, st: &State, s: &Rc<SeqV>, i: &Lin) -> V {
    let v = c.e.index_seq(st, s, &V::lin(i.clone(), 64));
    c.e.force(v)
}
fn letter(c: &mut Ck, v: &V, lower: bool) -> Bdd {
    let Some(b) = c.e.force(v.clone()).bits() else { return bdd::named(fresh("¿char").key()) };
    let mut r = bdd::F;
    for x in if lower { 'a'..='z' } else { 'A'..='Z' } {
        r = bdd::or(r, b_eq(&b, &const_bits(x as u128, b.len())));
    }
    r
}
fn upper(c: &mut Ck, v: &V) -> V {
    let l = letter(c, v, true);
    let b = c.e.force(v.clone()).bits().unwrap_or_default();
    V::B(Rc::new(b.iter().enumerate().map(|(i, x)| if i == 5 { bdd::and(*x, bdd::not(l)) } else { *x }).collect()))
}
fn lit_ty(c: &mut Ck) -> Option<Ty> {
    let i = c.find("Ue2Literal::push")?;
    tyx::pointee(*c.arg_tys(i).first()?)
}
pub fn c30(c: &mut Ck) {
    c.rule("transition relation of appending and of iterating over arbitrary literals; equality against ordering over arbitrary pairs; monitor on the loop of the mixed-sensitivity test; who-may-write rule");
    c.assume("a literal has as many marks as characters (its only writer keeps it so); comparison of byte and bit vectors is a total order that agrees with equality");
    let Some(ty) = lit_ty(c) else { return };
    append(c, ty);
    iterate(c, ty);
    compare(c, ty);
    mixed(c);
    writers(c, "Ue2Literal", &["s", "nocase"], &["Ue2Literal::push"]);
    writers(c, "Ue2LiteralIter", &["lit", "idx"], &["<Ue2LiteralIter as Iterator>::next"]);
    // Empty to begin with.
    if let Some(i) = c.find("<Ue2Literal as Default>::default") {
        for (s, v) in c.run(i, vec![], State::new()) {
            for f in ["s", "nocase"] {
                let x = at(c, &s, &v, ty, f).0;
                if let Some(q) = seq(c, &x) {
                    let e = c.e.dom.eq0(s.pc, &q.len());
                    c.holds(format!("a new literal is empty: {f}"), s.pc, e);
                }
            }
        }
    }
    for (n, neg) in [("Ue2Literal::len", false), ("Ue2Literal::is_empty", true)] {
        let Some(i) = c.find(n) else { continue };
        let mut st = State::new();
        let (r, _, s, _, _) = lit(c, &mut st, "lit", ty);
        for (t, v) in c.run(i, vec![r], st.clone()) {
            if neg {
                let b = c.bool_of(&v);
                let z = c.e.dom.eq0(t.pc, &s.len());
                c.holds("empty exactly without characters", t.pc, bdd::iff(b, z));
            } else {
                let l = c.e.lin_of(&v).unwrap_or(Lin::s(fresh("¿len")));
                let z = c.e.dom.eq0(t.pc, &l.sub(&s.len()));
                c.holds("the length is the number of characters", t.pc, z);
            }
        }
    }
}
fn append(c: &mut Ck, ty: Ty) {
    let Some((i, mut a, _)) = args_of(c, "Ue2Literal::push", &["lit", "c", "nocase"]) else { return };
    c.ctx = "appending: ".into();
    let mut st = State::new();
    let (r, _, s0, m0, _) = lit(c, &mut st, "lit", ty);
    a[0] = r.clone();
    let (ch, nc) = (c.e.force(a[1].clone()), c.e.force(a[2].clone()));
    let ncb = c.bool_of(&nc);
    let n = s0.len();
    let mut total = bdd::F;
    for (t, _) in c.run(i, a.clone(), st.clone()) {
        total = bdd::or(total, t.pc);
        let v1 = c.e.read_ref(&t, &r);
        for (f, q0) in [("s", &s0), ("nocase", &m0)] {
            let x = at(c, &t, &v1, ty, f).0;
            let Some(q1) = seq(c, &x) else { return };
            let e = c.e.dom.eq0(t.pc, &q1.len().sub(&n).plus(-1));
            c.holds_text(format!("one element more: {f}"), t.pc, e, &show(&x));
            let j = Lin::s(Sym::ranged("earlier", 0, i64::MAX as i128));
            let mut u = t.clone();
            let below = c.e.dom.le0(t.pc, &j.plus(1).sub(&n));
            u.pc = bdd::and(t.pc, below);
            let (p, q) = (elem(c, &u, q0, &j), elem(c, &u, &q1, &j));
            let e = eq(c, &u, &p, &q);
            c.holds_text(format!("what was there stays: {f}"), u.pc, e, &format!("{} becomes {}", show(&p), show(&q)));
            let last = elem(c, &t, &q1, &q0.len());
            if f == "s" {
                let up = upper(c, &ch);
                let (x, y) = (eq(c, &t, &last, &up), eq(c, &t, &last, &ch));
                c.holds_text("a caseless character is stored in upper case", bdd::and(t.pc, ncb), x, &show(&last));
                c.holds_text("a case-sensitive character is stored unchanged", bdd::and(t.pc, bdd::not(ncb)), y, &show(&last));
            } else {
                let e = eq(c, &t, &last, &nc);
                c.holds_text("the mark is stored with the character", t.pc, e, &show(&last));
            }
        }
    }
    c.holds("it returns", st.pc, total);
    c.ctx.clear();
}
fn iterate(c: &mut Ck, ty: Ty) {
    let Some(i) = c.find("<Ue2LiteralIter as Iterator>::next") else { return };
    let Some(it) = tyx::pointee(c.arg_tys(i)[0]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let ret = b.body.ret_local().ty;
    let et = tyx::fields(ret, 1)[0];
    // The beginning.
    for n in ["Ue2Literal::iter", "<&Ue2Literal as IntoIterator>::into_iter"] {
        if !c.has(n) && n.starts_with('<') {
            continue;
        }
        let Some(i) = c.find(n) else { continue };
        c.ctx = format!("{}: ", n.rsplit("::").next().unwrap());
        let mut st = State::new();
        let (r, v0, ..) = lit(c, &mut st, "lit", ty);
        for (t, v) in c.run(i, vec![r], st.clone()) {
            let x = at(c, &t, &v, it, "idx").0;
            let e = eq(c, &t, &x, &V::us(0));
            c.holds_text("iteration begins at the first character", t.pc, e, &show(&x));
            let l = at(c, &t, &v, it, "lit").0;
            let l = match l {
                V::Ref(_) => c.e.read_ref(&t, &l),
                l => l,
            };
            let same = if l == v0 { bdd::T } else { eq(c, &t, &l, &v0) };
            c.holds_text("iteration is over the literal itself", t.pc, same, &show(&l));
        }
    }
    c.ctx = "iterating: ".into();
    let mut st = State::new();
    let (r, _, s, m, _) = lit(c, &mut st, "lit", ty);
    let idx = Lin::s(Sym::ranged("idx", 0, i64::MAX as i128));
    let inb = c.e.dom.le0(st.pc, &idx.sub(&s.len()));
    st.pc = bdd::and(st.pc, inb);
    let mut v = c.e.expand(Sym::new("iter"), it);
    for (f, x) in [("lit", r.clone()), ("idx", V::lin(idx.clone(), 64))] {
        let Some(k) = tyx::field_index(it, f) else {
            c.undecided(format!("iterator field {f}"), "not found");
            return;
        };
        v = c.e.set(&st, v, &[PE::F(k)], x);
    }
    let h = c.e.heap(&mut st, v, it);
    let mut total = bdd::F;
    for (t, o) in c.run(i, vec![reff(h.clone())], st.clone()) {
        total = bdd::or(total, t.pc);
        let some = is_var(c, &o, "Some");
        let left = c.e.dom.le0(t.pc, &idx.plus(1).sub(&s.len()));
        c.holds("iteration yields exactly as many as there are", t.pc, bdd::iff(some, left));
        let g = bdd::and(t.pc, bdd::and(some, left));
        let v1 = c.e.read_ref(&t, &reff(h.clone()));
        let i1 = at(c, &t, &v1, it, "idx").0;
        let l1 = c.e.lin_of(&i1).unwrap_or(Lin::s(fresh("¿idx")));
        if g != bdd::F && !c.e.dom.empty(g) {
            let u = State { pc: g, ..t.clone() };
            let e = c.e.dom.eq0(g, &l1.sub(&idx).plus(-1));
            c.holds("iteration moves on by one", g, e);
            let x = pay(c, &o, "Some", 0);
            for (f, q) in [("c", &s), ("nocase", &m)] {
                let got = at(c, &u, &x, et, f).0;
                let want = elem(c, &u, q, &idx);
                let e = eq(c, &u, &got, &want);
                c.holds_text(format!("each element is that of its position: {f}"), g, e, &format!("{} rather than {}", show(&got), show(&want)));
            }
        }
        let g = bdd::and(t.pc, bdd::not(left));
        if g != bdd::F && !c.e.dom.empty(g) {
            let e = c.e.dom.le0(g, &s.len().sub(&l1));
            c.holds("a finished iteration stays finished", g, e);
        }
    }
    c.holds("it returns", st.pc, total);
    c.ctx.clear();
}
fn compare(c: &mut Ck, ty: Ty) {
    let mut st = State::new();
    let (a, _, s1, m1, _) = lit(c, &mut st, "a", ty);
    let (b, _, s2, m2, _) = lit(c, &mut st, "b", ty);
    let Some(ei) = c.find("<Ue2Literal as PartialEq>::eq") else { return };
    let Some(ci) = c.find("<Ue2Literal as Ord>::cmp") else { return };
    let Some(pi) = c.find("<Ue2Literal as PartialOrd>::partial_cmp") else { return };
    c.ctx = "comparing: ".into();
    let args = vec![a, b];
    let mut equal = bdd::F;
    let mut all = bdd::F;
    for (t, v) in c.run(ei, args.clone(), st.clone()) {
        all = bdd::or(all, t.pc);
        let x = c.bool_of(&v);
        equal = bdd::or(equal, bdd::and(t.pc, x));
    }
    c.holds("equality answers", st.pc, all);
    let x = c.e.v_eq(&st, &V::Seq(s1.clone()), &V::Seq(s2.clone()));
    let y = c.e.v_eq(&st, &V::Seq(m1.clone()), &V::Seq(m2.clone()));
    c.holds("equal exactly with the same characters and marks", st.pc, bdd::iff(equal, bdd::and(x, y)));
    let exec = |c: &mut Ck, i, rev: bool, part: bool| {
        let mut r = [bdd::F; 3];
        let ar = if rev { vec![args[1].clone(), args[0].clone()] } else { args.clone() };
        for (t, v) in c.run(i, ar, st.clone()) {
            let mut p = t.pc;
            let mut v = v;
            if part {
                let s = is_var(c, &v, "Some");
                p = bdd::and(p, s);
                v = pay(c, &v, "Some", 0);
            }
            for (k, n) in ["Less", "Equal", "Greater"].iter().enumerate() {
                let x = is_var(c, &v, n);
                r[k] = bdd::or(r[k], bdd::and(p, x));
            }
        }
        r
    };
    let o = exec(c, ci, false, false);
    let q = exec(c, pi, false, true);
    let rv = exec(c, ci, true, false);
    c.holds("ordering calls equal exactly what equality does", st.pc, bdd::iff(o[1], equal));
    for (k, n) in ["less", "equal", "greater"].iter().enumerate() {
        c.holds(format!("the partial order agrees with the order: {n}"), st.pc, bdd::iff(o[k], q[k]));
        c.holds(format!("the order is antisymmetric: {n}"), st.pc, bdd::iff(o[k], rv[2 - k]));
    }
    c.ctx.clear();
}
const G_CS: u64 = 50;
const G_NC: u64 = 51;
const G_END: u64 = 52;
fn mixed(c: &mut Ck) {
    let insts = crate::chk_tree::instances(c, "mixed_sensitivity");
    c.oblige("the mixed-sensitivity test is used", !insts.is_empty(), "Undef: no instance found");
    for i in insts {
        let t = c.arg_tys(i);
        c.ctx = "mixed sensitivity: ".into();
        let mut st = State::new();
        for g in [G_CS, G_NC, G_END] {
            c.e.heap_ty.insert(ghost(g), Ty::bool_ty());
            st.mem.insert(ghost(g), V::C(0, 1));
        }
        c.e.hooks.push(Rc::new(move |e, st, ci, _| {
            if short(&ci.stripped) != "<Ue2LiteralIter as Iterator>::next" {
                return None;
            }
            let get = |k: u64| st.mem.get(&ghost(k)).and_then(|x| x.as_bool());
            let (cs, nc, end) = (get(G_CS)?, get(G_NC)?, get(G_END)?);
            let et = tyx::fields(ci.ret, 1)[0];
            let v = e.expand(fresh("element"), et);
            let ch = e.get(st, v.clone(), &[PE::F(tyx::field_index(et, "c")?)]);
            let mk = e.get(st, v.clone(), &[PE::F(tyx::field_index(et, "nocase")?)]);
            let b = e.force(ch).bits()?;
            let mk = e.force(mk).as_bool()?;
            let mut al = bdd::F;
            for x in ('a'..='z').chain('A'..='Z') {
                al = bdd::or(al, b_eq(&b, &const_bits(x as u128, b.len())));
            }
            let more = bdd::and(bdd::named(format!("more({})", fresh("elements").key())), bdd::not(end));
            let mut out = vec![];
            if let Some(mut s) = st.with(more) {
                let put = |s: &mut State, k: u64, x: Bdd| {
                    s.mem.insert(ghost(k), mk_bits(vec![x]));
                };
                put(&mut s, G_CS, bdd::or(cs, bdd::and(al, bdd::not(mk))));
                put(&mut s, G_NC, bdd::or(nc, bdd::and(al, mk)));
                out.push((s, models::opt(ci.ret, Some(v))));
            }
            if let Some(mut s) = st.with(bdd::not(more)) {
                s.mem.insert(ghost(G_END), V::C(1, 1));
                out.push((s, models::opt(ci.ret, None)));
            }
            Some(out)
        }));
        let mut a = vec![];
        for (k, t) in t.iter().enumerate() {
            a.push(V::Opq(Sym::new(format!("letters{k}")), *t));
        }
        let outs = c.run(i, a, st.clone());
        c.e.hooks.clear();
        c.oblige("it returns", !outs.is_empty(), "never");
        for (s, v) in outs {
            let r = c.bool_of(&v);
            let get = |k: u64| s.mem.get(&ghost(k)).and_then(|x| x.as_bool()).unwrap_or(bdd::named(fresh("¿ghost").key()));
            let (cs, nc, end) = (get(G_CS), get(G_NC), get(G_END));
            let both = bdd::and(cs, nc);
            c.holds("mixed exactly with a case-sensitive letter and another that is not", bdd::and(s.pc, end), bdd::iff(r, both));
            c.holds("an early answer is mixed", bdd::and(s.pc, bdd::not(end)), bdd::and(r, both));
        }
        c.ctx.clear();
    }
}
