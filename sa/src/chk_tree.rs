//! Checks of tree walks (C33), literal recognition (C11) and position numbering (C37).
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::rc::Rc;

const G_PH: u64 = 10; // 0 before begin, 1 inside, 2 ended, 3 stopped
const G_CH: u64 = 11; // children walked
const G_SEP: u64 = 12; // a separator came after the last child walked
const G_ER: u64 = 13; // error that stopped the walk

/// The instances of a generic local function that the crate uses.
pub fn instances(c: &mut Ck, n: &str) -> Vec<Instance> {
    local_bodies(c).iter().map(|x| x.0).filter(|i| short(&i.name().to_string()) == n).collect()
}
fn ghosts(c: &mut Ck, st: &mut State) {
    st.mem.insert(ghost(G_PH), V::C(0, 8));
    st.mem.insert(ghost(G_CH), V::us(0));
    c.e.heap_ty.insert(ghost(G_CH), Ty::usize_ty());
    st.mem.insert(ghost(G_SEP), V::C(0, 1));
    st.mem.insert(ghost(G_ER), V::Undef);
}
fn ph_is(e: &mut Eng, st: &State, k: u128) -> Bdd {
    e.v_eq_const(st, &st.mem[&ghost(G_PH)].clone(), k)
}
fn lin(e: &mut Eng, st: &State, g: u64) -> Lin {
    let v = st.mem[&ghost(g)].clone();
    e.lin_of(&v).unwrap_or(Lin::s(fresh("¿ghost")))
}
/// The children of a node, as a slice place.
fn kids(e: &mut Eng, st: &State, node: &V, ty: Ty) -> Option<(Ptr, Rc<SeqV>)> {
    let k = tyx::field_index(ty, "children")?;
    let p = e.deref(st, node)?;
    let r = models::sub_ref(&p, PE::F(k));
    models::seq_of(e, st, &r)
}
/// Ok or Err with an arbitrary error, recorded.
fn fallible(e: &mut Eng, st: State, ret: Ty, tag: &str, ok: impl Fn(&mut Eng, &mut State)) -> Outs {
    if !tyx::is_enum(ret) {
        let mut s = st;
        ok(e, &mut s);
        let v = e.expand(Sym::new("unit"), ret);
        return vec![(s, v)];
    }
    let good = bdd::named(fresh(tag).key());
    let mut out = vec![];
    let mut st = st;
    ok(e, &mut st);
    if let Some(s) = st.with(good) {
        let u = e.expand(Sym::new("unit"), tyx::fields(ret, 0)[0]);
        out.push((s, models::variant(ret, 0, vec![u])));
    }
    if let Some(mut s) = st.with(bdd::not(good)) {
        let er = e.expand(fresh("error"), tyx::fields(ret, 1)[0]);
        s.mem.insert(ghost(G_PH), V::C(3, 8));
        s.mem.insert(ghost(G_ER), er.clone());
        out.push((s, models::variant(ret, 1, vec![er])));
    }
    out
}
/// The walk functions: by the node they take.
const WALKS: [(&str, &str, &str); 5] = [
    ("walk_component", "Component", ""),
    ("walk_component_alternation", "ComponentAlternation", "component_alternation"),
    ("walk_component_class", "ComponentClass", ""),
    ("walk_component_sequence", "ComponentSequence", "component_sequence"),
    ("walk_ascii_component_class", "AsciiComponentClass", "ascii_component_class"),
];

pub fn c33(c: &mut Ck) {
    c.rule("event order of each walk function over every node, with walks of child nodes assumed correct (induction over the tree); loops generalised");
    c.assume("sequences are finalised before they are walked (their pending alternation is empty), as established for the parser by C06");
    walks(c);
}
fn walks(c: &mut Ck) {
    let all: Vec<&'static str> = WALKS.iter().map(|x| x.0).collect();
    for (f, node, ev) in WALKS {
        let is = instances(c, f);
        if is.is_empty() {
            c.undecided(format!("anchor {f}"), format!("no instance of {f}"));
        }
        for i in is {
            c.ctx = format!("{f}: ");
            walk_one(c, i, f, node, ev, &all);
            c.ctx.clear();
        }
    }
}
fn walk_one(c: &mut Ck, i: Instance, f: &'static str, node: &'static str, ev: &'static str, all: &[&'static str]) {
    let a = c.unknown_args(i, &["v", "node"]);
    let t = c.arg_tys(i);
    let mut st = State::new();
    ghosts(c, &mut st);
    let nty = bare(t[1]);
    if tyx::adt_last(nty).as_deref() != Some(node) {
        c.undecided("the node walked", format!("{nty} rather than {node}"));
        return;
    }
    if let Some(_) = tyx::field_index(nty, "alternation") {
        let x = at(c, &st, &a[1], t[1], "alternation").0;
        st.pc = is_var(c, &x, "None");
    }
    let nref = c.e.force(a[1].clone());
    let leaf = tyx::field_index(nty, "children").is_none();
    let choice = ev.is_empty();
    let others: Vec<&'static str> = all.iter().filter(|x| **x != f).cloned().collect();
    let first = Rc::new(std::cell::Cell::new(true));
    let nr = nref.clone();
    let (pre, dur, post) = (format!("pre_{ev}"), format!("during_{ev}"), format!("post_{ev}"));
    c.e.hooks.push(Rc::new(move |e, st, ci, ar| {
        let n = short(&ci.stripped);
        let m = n.rsplit("::").next().unwrap_or("").to_string();
        if n == f && first.replace(false) {
            return None;
        }
        let visitor = ["pre_", "during_", "post_"].iter().any(|p| m.starts_with(p)) && n.contains("ConstComponentVisitor");
        if visitor {
            let x = e.force(ar[1].clone());
            let same = e.v_eq(st, &x, &nr);
            let same = if x == nr { bdd::T } else { same };
            if m == pre && !choice {
                let p0 = ph_is(e, st, 0);
                e.obl("begin comes first and once", st.pc, p0, "begin event after another event of the node".into());
                e.obl("begin is for the node walked", st.pc, same, format!("begin event for {}", show(&x)));
                return Some(fallible(e, st.clone(), ci.ret, "begins", |_, s| {
                    s.mem.insert(ghost(G_PH), V::C(1, 8));
                }));
            }
            if m == post && !choice {
                let p1 = ph_is(e, st, 1);
                e.obl("end comes after begin, once, and not after an error", st.pc, p1, "end event out of place".into());
                e.obl("end is for the node walked", st.pc, same, format!("end event for {}", show(&x)));
                if !leaf {
                    let ty = tyx::pointee(ci.arg_tys[1])?;
                    if let Some((_, q)) = kids(e, st, &nr, ty) {
                        let k = lin(e, st, G_CH);
                        let all = e.dom.eq0(st.pc, &k.sub(&q.len()));
                        e.obl("end comes after every child", st.pc, all, format!("end event after {k:?} children"));
                    }
                }
                let mut s = st.clone();
                s.mem.insert(ghost(G_PH), V::C(2, 8));
                return Some(vec![(s, V::unit())]);
            }
            if m == dur && !choice {
                let p1 = ph_is(e, st, 1);
                e.obl("separators lie between begin and end", st.pc, p1, "separator event out of place".into());
                e.obl("separators are for the node walked", st.pc, same, format!("separator event for {}", show(&x)));
                let mut s = st.clone();
                if !leaf {
                    let k = lin(e, st, G_CH);
                    let some = e.dom.le0(st.pc, &Lin::k(1).sub(&k));
                    let not = e.v_eq_const(st, &st.mem[&ghost(G_SEP)].clone(), 0);
                    e.obl("one separator after each child but the last", st.pc, bdd::and(some, not), format!("separator out of place after {k:?} children"));
                    let ty = tyx::pointee(ci.arg_tys[1])?;
                    if let Some((_, q)) = kids(e, st, &nr, ty) {
                        let more = e.dom.le0(st.pc, &k.plus(1).sub(&q.len()));
                        e.obl("no separator after the last child", st.pc, more, format!("separator event after {k:?} children"));
                    }
                    s.mem.insert(ghost(G_SEP), V::C(1, 1));
                }
                return Some(vec![(s, V::unit())]);
            }
            e.obl("events are those of the node walked", st.pc, bdd::F, format!("event {m} while walking a {node}"));
            return None;
        }
        if others.contains(&n.as_str()) || n == f {
            let x = e.force(ar[1].clone());
            if choice {
                // The node is one of several kinds: exactly its own walk.
                let p0 = ph_is(e, st, 0);
                e.obl("the node is walked once", st.pc, p0, "the node is walked twice".into());
                let inside = match (&x, &nr) {
                    (V::Ref(p), V::Ref(q)) => {
                        p.alloc == q.alloc && p.path.len() == q.path.len() + 2 && p.path[..q.path.len()] == q.path[..] && matches!(p.path[q.path.len()], PE::Var(_))
                    }
                    _ => false,
                };
                e.obl("it is the node itself that is walked", st.pc, if inside { bdd::T } else { bdd::F }, format!("{} is walked", show(&x)));
                return Some(fallible(e, st.clone(), ci.ret, "walks", |_, s| {
                    s.mem.insert(ghost(G_PH), V::C(2, 8));
                }));
            }
            let p1 = ph_is(e, st, 1);
            e.obl("children are walked between begin and end", st.pc, p1, "a child is walked before begin, after end or after an error".into());
            let k = lin(e, st, G_CH);
            let sep = e.v_eq_const(st, &st.mem[&ghost(G_SEP)].clone(), 1);
            let none = e.dom.le0(st.pc, &k);
            e.obl("a separator precedes each further child", st.pc, bdd::or(none, sep), format!("child {k:?} comes without a separator"));
            let mut ok = bdd::F;
            let p = e.deref(st, &nr)?;
            let v = e.read_ptr(st, &p);
            let _ = v;
            let ty = e.alloc_ty(&p.alloc);
            let _ = ty;
            if let Some((kp, q)) = kids(e, st, &nr, nty) {
                let want = models::sub_ref(&kp, PE::I(V::lin(k.clone(), 64)));
                ok = if x == want { bdd::T } else { ref_eq(e, st, &x, &want) };
                let inr = e.dom.le0(st.pc, &k.plus(1).sub(&q.len()));
                e.obl("only children are walked", st.pc, inr, format!("child {k:?} does not exist"));
            }
            e.obl("children are walked in order", st.pc, ok, format!("{} is walked as child {k:?}", show(&x)));
            return Some(fallible(e, st.clone(), ci.ret, "walks", |e, s| {
                let k = lin(e, s, G_CH);
                s.mem.insert(ghost(G_CH), V::lin(k.plus(1), 64));
                s.mem.insert(ghost(G_SEP), V::C(0, 1));
            }));
        }
        None
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let total = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    let _ = total;
    for (s, v) in &outs {
        let (done, stop) = (ph_is(&mut c.e, s, 2), ph_is(&mut c.e, s, 3));
        let ok = is_var(c, v, "Ok");
        c.holds("success means the walk was completed", bdd::and(s.pc, ok), done);
        c.holds("an error means the walk was stopped", bdd::and(s.pc, bdd::not(ok)), stop);
        let p = bdd::and(s.pc, stop);
        c.holds("a stopped walk is an error", p, bdd::not(ok));
        let p = bdd::and(p, bdd::not(ok));
        if p != bdd::F && !c.e.dom.empty(p) {
            let er = pay(c, v, "Err", 0);
            let g = c.e.force(s.mem[&ghost(G_ER)].clone());
            let e = if er == g { bdd::T } else { eq(c, s, &er, &g) };
            c.holds_text("the error that stopped the walk is returned", p, e, &show(&er));
        }
    }
}
/// Equality of two references into the same collection.
pub fn ref_eq(e: &mut Eng, st: &State, a: &V, b: &V) -> Bdd {
    match (a, b) {
        (V::Ref(p), V::Ref(q)) => {
            if p.alloc != q.alloc || p.path.len() != q.path.len() {
                return bdd::F;
            }
            let mut r = bdd::T;
            for (x, y) in p.path.iter().zip(&q.path) {
                match (x, y) {
                    (PE::I(x), PE::I(y)) => {
                        let c = e.v_eq(st, x, y);
                        r = bdd::and(r, c);
                    }
                    (x, y) if x == y => {}
                    _ => return bdd::F,
                }
            }
            r
        }
        _ => bdd::named(fresh("¿refeq").key()),
    }
}

// ------------------------------------------------------------------ C11

pub fn c11(c: &mut Ck) {
    c.rule("bit-exact transition of each visitor callback over every character set; order and completeness from the walk monitor; acceptance from abstract execution of shortcut_literal");
    c.assume("appending to a literal keeps character and case mark (C30)");
    let vis = "<ConstructLiteralVisitor as ConstComponentVisitor>";
    c.e.wide_bits = true;
    if let Some((i, a, t)) = args_of(c, &format!("{vis}::pre_ascii_component_class"), &["v", "node"]) {
        let st = State::new();
        let cr = at(c, &st, &a[1], t[1], "cr").0;
        let bits = c.flat(&st, &cr);
        if bits.len() != 256 {
            c.undecided("character sets have 256 bits", format!("{}", bits.len()));
            return;
        }
        let v0 = root(c, &st, &a[0], t[0]).0;
        let seen = crate::chk_lit::arbitrary(c, &["Ue2Literal::push"]);
        let outs = c.run(i, a.clone(), st.clone());
        c.e.hooks.clear();
        // Exactly one element; both cases of one letter and nothing else.
        let (mut none, mut one) = (bdd::T, bdd::F);
        for b in &bits {
            one = bdd::ite(*b, none, one);
            none = bdd::and(none, bdd::not(*b));
        }
        let mut two = bdd::F;
        for u in b'A'..=b'Z' {
            let l = u | 0x20;
            let mut x = bdd::T;
            for (k, b) in bits.iter().enumerate() {
                let w = k == u as usize || k == l as usize;
                x = bdd::and(x, if w { *b } else { bdd::not(*b) });
            }
            two = bdd::or(two, x);
        }
        let lit = bdd::or(one, two);
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        let pushes = crate::chk_lit::calls(&seen, "Ue2Literal::push");
        crate::chk_lit::once_iff(c, "a character is appended", &pushes, lit, all);
        for (pc, ar) in &pushes {
            let nc = c.bool_of(&ar[2]);
            c.holds("a character is marked caseless exactly for both cases of a letter", *pc, bdd::iff(nc, two));
            let Some(b) = ar[1].bits() else {
                c.undecided("the character appended", show(&ar[1]));
                continue;
            };
            let mut member = bdd::F;
            for (k, x) in bits.iter().enumerate() {
                let e = b_eq(&b, &const_bits(k as u128, 8));
                member = bdd::or(member, bdd::and(e, *x));
            }
            c.holds("the character appended is in the class", *pc, member);
        }
        for (s, v) in &outs {
            let ok = is_var(c, v, "Ok");
            c.holds("a class is part of a literal exactly for one character or both cases of a letter", s.pc, bdd::iff(ok, lit));
            let v1 = root(c, s, &a[0], t[0]).0;
            unchanged(c, "nothing else is recorded", s, bdd::T, &v0, &v1);
        }
    }
    c.e.wide_bits = false;
    for (m, good) in [
        ("pre_component_alternation", Some(false)),
        ("pre_component_sequence", Some(true)),
        ("during_ascii_component_class", None),
        ("during_component_alternation", None),
        ("during_component_sequence", None),
        ("post_ascii_component_class", None),
        ("post_component_alternation", None),
        ("post_component_sequence", None),
    ] {
        let Some((i, a, t)) = args_of(c, &format!("{vis}::{m}"), &["v", "node"]) else { continue };
        let st = State::new();
        let v0 = root(c, &st, &a[0], t[0]).0;
        let outs = c.run(i, a.clone(), st.clone());
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        c.holds(format!("{m} returns"), bdd::T, all);
        for (s, v) in &outs {
            if let Some(g) = good {
                let ok = is_var(c, v, "Ok");
                let e = if g { ok } else { bdd::not(ok) };
                c.holds(format!("{m} {}", if g { "goes on" } else { "stops: not a literal" }), s.pc, e);
            }
            let v1 = root(c, s, &a[0], t[0]).0;
            unchanged(c, &format!("{m} records nothing"), s, bdd::T, &v0, &v1);
        }
    }
    // The literal starts empty.
    if let Some(i) = c.find("<ConstructLiteralVisitor as Default>::default") {
        let Some(b) = c.e.body(i) else { return };
        let rt = b.body.ret_local().ty;
        for (s, v) in c.run(i, vec![], State::new()) {
            let l = at(c, &s, &v, rt, "lit").0;
            let n = crate::chk_lit::lit_len(c, &s, &l);
            c.oblige("a literal starts empty", n.as_ref().and_then(|x| x.is_const()) == Some(0), format!("{n:?}"));
        }
    }
    walks(c);
    crate::chk_lit::short_lit(c, "C11");
}
