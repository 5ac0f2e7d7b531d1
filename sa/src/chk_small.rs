//! C16, C17: the small-write engine.
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::models3;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::rc::Rc;

const G_U: u64 = 60;
const G_C: u64 = 61;
const G_EX: u64 = 62;
const G_STEP: u64 = 63;
const G_SNAP: u64 = 64;
const G_W: u64 = 65;
const G_END: u64 = 66;

fn graph_at(e: &mut Eng, st: &State, trie: &V, ty: Ty) -> Option<Rc<Vec<V>>> {
    let v = e.read_ref(st, trie);
    let g = e.get(st, v, &[PE::F(tyx::field_index(ty, "inner")?)]);
    match e.force(g) {
        V::Obj("graph", x) => Some(x),
        _ => None,
    }
}
fn nodes(e: &mut Eng, st: &State, g: &[V], i: &Lin) -> V {
    match &g[0] {
        V::Seq(s) => {
            let v = e.index_seq(st, s, &V::lin(i.clone(), 64));
            e.force(v)
        }
        _ => V::Undef,
    }
}
fn count(g: &[V]) -> Lin {
    match &g[0] {
        V::Seq(s) => s.len(),
        _ => Lin::s(fresh("¿nodes")),
    }
}
fn gl(e: &mut Eng, st: &State, k: u64) -> Lin {
    let v = st.mem[&ghost(k)].clone();
    e.lin_of(&v).unwrap_or(Lin::s(fresh("¿ghost")))
}
fn gb(st: &State, k: u64) -> Bdd {
    st.mem[&ghost(k)].as_bool().unwrap_or(bdd::named(fresh("¿ghost").key()))
}
fn field(e: &mut Eng, st: &State, v: &V, ty: Ty, f: &str) -> V {
    match tyx::field_index(ty, f) {
        Some(k) => {
            let x = e.get(st, v.clone(), &[PE::F(k)]);
            e.force(x)
        }
        None => V::Opq(fresh("¿field"), Ty::bool_ty()),
    }
}
fn has(e: &mut Eng, st: &State, set: &V, k: &V) -> Bdd {
    match e.force(set.clone()) {
        V::Map(m) => crate::models2::map_has(e, st, &m, k),
        _ => bdd::named(fresh("¿set").key()),
    }
}
/// The graph of one step later: at most the one node and edge due were added.
fn step_ok(e: &mut Eng, st: &State, g0: &[V], g1: &[V], nt: Ty) {
    let (u, w0) = (gl(e, st, G_U), count(g0));
    let c = st.mem[&ghost(G_C)].clone();
    let step = gb(st, G_STEP);
    let ex = gb(st, G_EX);
    let add = bdd::and(step, bdd::not(ex));
    let n1 = count(g1);
    let pc = st.pc;
    let same = e.dom.eq0(pc, &n1.sub(&w0));
    e.obl("a character that has a node adds none", bdd::and(pc, bdd::not(add)), same, format!("{w0:?} nodes become {n1:?}"));
    let more = e.dom.eq0(pc, &n1.sub(&w0).plus(-1));
    e.obl("a character without a node adds one", bdd::and(pc, add), more, format!("{w0:?} nodes become {n1:?}"));
    // Nodes that were there.
    let j = Lin::s(Sym::ranged("some node", 0, u32::MAX as i128));
    let below = e.dom.le0(pc, &j.plus(1).sub(&w0));
    let s = State { pc: bdd::and(pc, below), ..st.clone() };
    if s.pc != bdd::F && !e.dom.empty(s.pc) {
        let (x, y) = (nodes(e, &s, g0, &j), nodes(e, &s, g1, &j));
        let eqv = if x == y { bdd::T } else { e.v_eq(&s, &x, &y) };
        e.obl("nodes of the index keep their character and reports on the way", s.pc, eqv, format!("{} becomes {}", show(&x), show(&y)));
    }
    // The new node.
    let p = bdd::and(pc, bdd::and(add, more));
    if p != bdd::F && !e.dom.empty(p) {
        let s = State { pc: p, ..st.clone() };
        let v = nodes(e, &s, g1, &w0);
        let ch = field(e, &s, &v, nt, "c");
        let eqv = e.v_eq(&s, &ch, &c);
        e.obl("a new node carries the character", p, eqv, show(&ch));
        let rs = field(e, &s, &v, nt, "reports");
        let any = V::lin(Lin::s(Sym::ranged("some report", 0, u32::MAX as i128)), 32);
        let h = has(e, &s, &rs, &any);
        e.obl("a new node has no reports", p, bdd::not(h), show(&rs));
    }
    // Edges.
    let (a, b) = (Lin::s(Sym::ranged("edge from", 0, u32::MAX as i128)), Lin::s(Sym::ranged("edge to", 0, u32::MAX as i128)));
    let (av, bv) = (V::lin(a.clone(), 64), V::lin(b.clone(), 64));
    // Edges lead between nodes.
    let e0 = models3::edge_is(e, st, g0, &av, &bv);
    let ib = e.dom.le0(pc, &b.plus(1).sub(&w0));
    let ia = e.dom.le0(pc, &a.plus(1).sub(&w0));
    let live = bdd::or(bdd::not(e0), bdd::and(ia, ib));
    let pc2 = bdd::and(pc, live);
    let e1 = models3::edge_is(e, st, g1, &av, &bv);
    let x = e.dom.eq0(pc2, &a.sub(&u));
    let y = e.dom.eq0(pc2, &b.sub(&w0));
    let new = bdd::and(add, bdd::and(x, y));
    e.obl("the only edge added leads from the node reached to the new one", pc2, bdd::iff(e1, bdd::or(e0, new)), String::new());
}
struct Trie {
    i: Instance,
    a: Vec<V>,
    st: State,
    tt: Ty,
    nt: Ty,
    tr: V,
    report: V,
}
/// add_to_trie over an arbitrary index and literal.
fn setup(c: &mut Ck) -> Option<Trie> {
    let i = c.find("add_to_trie")?;
    let t = c.arg_tys(i);
    let mut st = State::new();
    let mut a = vec![];
    let (mut tt, mut tr, mut report) = (None, None, None);
    for (k, x) in t.iter().enumerate() {
        let b = bare(*x);
        match tyx::adt_last(b).as_deref() {
            Some("LitTrie") => {
                let (r, _) = cell(c, &mut st, "trie", b);
                tt = Some(b);
                tr = Some(r.clone());
                a.push(r);
            }
            Some("Ue2Literal") => {
                let l = crate::chk_ue2::lit(c, &mut st, "lit", b);
                a.push(l.0);
            }
            _ => {
                let v = c.e.expand(Sym::new(format!("report{k}")), *x);
                report = Some(v.clone());
                a.push(v);
            }
        }
    }
    let (tt, tr, report) = (tt?, tr?, report?);
    let gi = tyx::field_index(tt, "inner")?;
    let nt = *tyx::adt_args(tyx::fields(tt, 0)[gi]).first()?;
    let g = graph_at(&mut c.e, &st, &tr, tt)?;
    let v = c.e.read_ref(&st, &tr);
    let root = field(&mut c.e, &st, &v, tt, "root");
    let root = models3::ix(&mut c.e, &root)?;
    let rl = c.e.lin_of(&root)?;
    let inr = c.e.dom.le0(st.pc, &rl.plus(1).sub(&count(&g)));
    st.pc = bdd::and(st.pc, inr);
    let u32t = Ty::unsigned_ty(UintTy::U32);
    for (k, t) in [(G_U, u32t), (G_W, u32t), (G_EX, Ty::bool_ty()), (G_STEP, Ty::bool_ty()), (G_END, Ty::bool_ty())] {
        c.e.heap_ty.insert(ghost(k), t);
        st.mem.insert(ghost(k), V::C(0, 1));
    }
    c.e.heap_ty.insert(ghost(G_C), Ty::unsigned_ty(UintTy::U8));
    c.e.heap_ty.insert(ghost(G_SNAP), tyx::fields(tt, 0)[gi]);
    st.mem.insert(ghost(G_U), V::lin(rl, 32));
    st.mem.insert(ghost(G_W), V::C(0, 32));
    st.mem.insert(ghost(G_C), V::C(0, 8));
    st.mem.insert(ghost(G_SNAP), V::Obj("graph", g));
    Some(Trie { i, a, st, tt, nt, tr, report })
}
fn follow(c: &mut Ck, t: &Trie) {
    let (tr, tt, nt) = (t.tr.clone(), t.tt, t.nt);
    // The loop that reads the characters.
    let reader: Rc<RefCell<Vec<(String, usize)>>> = Rc::new(RefCell::new(vec![]));
    let reads = reader.clone();
    let hook: Hook = Rc::new(move |e, st, ci, a| {
        let n = ci.stripped.as_str();
        if short(n) == "<Ue2LiteralIter as Iterator>::next" {
            *reads.borrow_mut() = e.loop_now.clone();
            // The next character: does the node reached have a child for it?
            let et = tyx::fields(ci.ret, 1)[0];
            let v = e.expand(fresh("element"), et);
            let ch = field(e, st, &v, et, "c");
            let g = graph_at(e, st, &tr, tt)?;
            let u = gl(e, st, G_U);
            let more = bdd::and(bdd::named(format!("more({})", fresh("characters").key())), bdd::not(gb(st, G_END)));
            let ex = bdd::named(fresh("child exists").key());
            let w = Lin::s(Sym::ranged(fresh("child").key(), 0, u32::MAX as i128));
            let wv = V::lin(w.clone(), 32);
            e.witness = Some(V::lin(w.clone(), 64));
            let mut out = vec![];
            for there in [true, false] {
                let mut s = match st.with(bdd::and(more, if there { ex } else { bdd::not(ex) })) {
                    Some(s) => s,
                    None => continue,
                };
                if there {
                    let inr = e.dom.le0(s.pc, &w.plus(1).sub(&count(&g)));
                    let ed = models3::edge_is(e, &s, &g, &V::lin(u.clone(), 64), &V::lin(w.clone(), 64));
                    s.pc = bdd::and(s.pc, bdd::and(inr, ed));
                    let x = nodes(e, &s, &g, &w);
                    let xc = field(e, &s, &x, nt, "c");
                    let q = e.v_eq(&s, &xc, &ch);
                    s.pc = bdd::and(s.pc, q);
                }
                // Edges lead between nodes.
                let ed = models3::edge_is(e, &s, &g, &V::lin(u.clone(), 64), &V::lin(count(&g), 64));
                s.pc = bdd::and(s.pc, bdd::not(ed));
                s.mem.insert(ghost(G_C), ch.clone());
                s.mem.insert(ghost(G_W), wv.clone());
                s.mem.insert(ghost(G_EX), V::C(there as u128, 1));
                s.mem.insert(ghost(G_STEP), V::C(1, 1));
                s.mem.insert(ghost(G_SNAP), V::Obj("graph", g.clone()));
                out.push((s, models::opt(ci.ret, Some(v.clone()))));
            }
            if let Some(mut s) = st.with(bdd::not(more)) {
                s.mem.insert(ghost(G_END), V::C(1, 1));
                s.mem.insert(ghost(G_STEP), V::C(0, 1));
                s.mem.insert(ghost(G_SNAP), V::Obj("graph", g));
                out.push((s, models::opt(ci.ret, None)));
            }
            return Some(out);
        }
        if n.contains("Neighbors as std::iter::Iterator>::next") {
            // Only one child has the character, if any.
            let it = {
                let p = e.deref(st, &a[0])?;
                e.read_ptr(st, &p)
            };
            let V::Obj("nbrs", o) = it else { return None };
            let src = e.lin_of(&o[1])?;
            let down = o[2].as_const() == Some(0);
            let outs = models3::graph(e, st, ci, a)?;
            let mut res = vec![];
            for (mut s, v) in outs {
                let some = match &v {
                    V::En(x) => x.disc.as_const() == Some(1),
                    _ => false,
                };
                if some && down {
                    if let V::En(x) = &v {
                        let mut x = (**x).clone();
                        materialize(&mut x, 1);
                        let it = x.pay[&1][0].clone();
                        let i = models3::ix(e, &it)?;
                        let il = e.lin_of(&i)?;
                        let (u, w) = (gl(e, &s, G_U), gl(e, &s, G_W));
                        let here = e.dom.eq0(s.pc, &src.sub(&u));
                        let is = e.dom.eq0(s.pc, &il.sub(&w));
                        let is = bdd::and(is, gb(&s, G_EX));
                        let g = graph_at(e, &s, &tr, tt)?;
                        let x = nodes(e, &s, &g, &il);
                        let xc = field(e, &s, &x, nt, "c");
                        let c = s.mem[&ghost(G_C)].clone();
                        let q = e.v_eq(&s, &xc, &c);
                        let f = bdd::or(bdd::not(bdd::and(here, gb(&s, G_STEP))), bdd::or(is, bdd::not(q)));
                        match s.with(f) {
                            Some(t) => s = t,
                            None => continue,
                        }
                    }
                }
                res.push((s, v));
            }
            return Some(res);
        }
        None
    });
    c.e.hooks.push(hook);
    let (tr, tt, nt) = (t.tr.clone(), t.tt, t.nt);
    c.e.back_hooks.push(Rc::new(move |e, st, _f| {
        // At the end of the iteration in which a character was read.
        let step = gb(st, G_STEP);
        if step == bdd::F {
            return;
        }
        let V::Obj("graph", g0) = st.mem[&ghost(G_SNAP)].clone() else { return };
        let Some(g1) = graph_at(e, st, &tr, tt) else { return };
        let r = reader.borrow();
        let inner = match r.is_empty() || !e.loop_now.starts_with(&r) {
            true => g0 == g1 && e.witness.is_some() && !_f.contains("add_to_trie"),
            false => e.loop_now.len() > r.len(),
        };
        if inner {
            return;
        }
        step_ok(e, st, &g0, &g1, nt);
        let (w, ex, n0) = (gl(e, st, G_W), gb(st, G_EX), count(&g0));
        let ex = match ex {
            x if e.dom.empty(bdd::and(st.pc, x)) => bdd::F,
            x if e.dom.empty(bdd::and(st.pc, bdd::not(x))) => bdd::T,
            x => x,
        };
        let next = match ex {
            bdd::T => V::lin(w, 32),
            bdd::F => V::lin(n0, 32),
            _ => {
                let z = Lin::s(fresh("reached"));
                let p = e.dom.eq0(st.pc, &z.sub(&w));
                let q = e.dom.eq0(st.pc, &z.sub(&n0));
                st.pc = bdd::and(st.pc, bdd::or(bdd::and(ex, p), bdd::and(bdd::not(ex), q)));
                V::lin(z, 32)
            }
        };
        st.mem.insert(ghost(G_U), next);
        st.mem.insert(ghost(G_STEP), V::C(0, 1));
        // What concerned this step only is forgotten.
        st.mem.insert(ghost(G_SNAP), V::Obj("graph", g1));
        st.mem.insert(ghost(G_C), V::C(0, 8));
        st.mem.insert(ghost(G_W), V::C(0, 32));
        st.mem.insert(ghost(G_EX), V::C(0, 1));
    }));
}
type Hook = Rc<dyn Fn(&mut Eng, &State, &CallInfo, &[V]) -> Option<Outs>>;

fn spell(c: &mut Ck, what: &str) {
    let Some(t) = setup(c) else {
        c.undecided("literal index", "its parts were not found");
        return;
    };
    c.ctx = "storing a literal: ".into();
    follow(c, &t);
    let outs = c.run(t.i, t.a.clone(), t.st.clone());
    c.e.hooks.clear();
    c.e.back_hooks.clear();
    c.e.witness = None;
    c.oblige("it returns", !outs.is_empty(), "never");
    for (s, v) in &outs {
        let Some(g1) = graph_at(&mut c.e, s, &t.tr, t.tt) else { return };
        if what == "C16" {
            let b = c.bool_of(v);
            let small = c.e.dom.le0(s.pc, &count(&g1).plus(-8_000));
            c.holds("an index past 8,000 nodes is reported, a smaller one is not", s.pc, bdd::iff(b, small));
            continue;
        }
        let end = gb(s, G_END);
        c.holds("every character is stored", s.pc, end);
        let V::Obj("graph", g0) = s.mem[&ghost(G_SNAP)].clone() else { return };
        let u = gl(&mut c.e, s, G_U);
        let n = count(&g0);
        let e = c.e.dom.eq0(s.pc, &count(&g1).sub(&n));
        c.holds("recording the report adds no node", s.pc, e);
        // The node reached, then any other.
        for at_u in [true, false] {
            let j = if at_u { u.clone() } else { Lin::s(Sym::ranged("some node", 0, u32::MAX as i128)) };
            let below = c.e.dom.le0(s.pc, &j.plus(1).sub(&n));
            let mut p = bdd::and(s.pc, below);
            if at_u {
                c.holds("the node reached exists", s.pc, below);
            } else {
                let same = c.e.dom.eq0(p, &j.sub(&u));
                p = bdd::and(p, bdd::not(same));
            }
            if p == bdd::F || c.e.dom.empty(p) {
                continue;
            }
            let q = State { pc: p, ..s.clone() };
            let (x, y) = (nodes(&mut c.e, &q, &g0, &j), nodes(&mut c.e, &q, &g1, &j));
            let (cx, cy) = (field(&mut c.e, &q, &x, t.nt, "c"), field(&mut c.e, &q, &y, t.nt, "c"));
            let e = eq(c, &q, &cx, &cy);
            c.holds("recording the report changes no character", p, e);
            let (rx, ry) = (field(&mut c.e, &q, &x, t.nt, "reports"), field(&mut c.e, &q, &y, t.nt, "reports"));
            let k = V::lin(Lin::s(Sym::ranged("some report", 0, u32::MAX as i128)), 32);
            let (hx, hy) = (has(&mut c.e, &q, &rx, &k), has(&mut c.e, &q, &ry, &k));
            if at_u {
                let hr = has(&mut c.e, &q, &ry, &t.report);
                c.holds_text("the report is recorded at the node of the last character", p, hr, &show(&ry));
                let me = eq(c, &q, &k, &t.report);
                c.holds_text("no other report is recorded", p, bdd::or(me, bdd::iff(hx, hy)), &show(&ry));
            } else {
                c.holds_text("the report is recorded nowhere else", p, bdd::iff(hx, hy), &show(&ry));
            }
        }
        let (ga, gb_) = (Lin::s(Sym::ranged("edge from", 0, u32::MAX as i128)), Lin::s(Sym::ranged("edge to", 0, u32::MAX as i128)));
        let (av, bv) = (V::lin(ga, 64), V::lin(gb_, 64));
        let (x, y) = (models3::edge_is(&mut c.e, s, &g0, &av, &bv), models3::edge_is(&mut c.e, s, &g1, &av, &bv));
        c.holds("recording the report adds no edge", s.pc, bdd::iff(x, y));
    }
    c.ctx.clear();
}
pub fn c17(c: &mut Ck) {
    c.rule("transition relation of every step of storing a literal, over arbitrary indexes and literals, with the child a character has (if any) designated; then of recording the report; who-may-write rule");
    c.assume("petgraph's Graph behaves as a finite multigraph with dense node indices; a literal yields its characters in order (C30); an index has at most one child per character at each node (kept by every step)");
    spell(c, "C17");
    engine(c, "C17");
    for (ty, f, by) in [("LitTrie", vec!["inner", "root"], vec!["add_to_trie", "<LitTrie as Default>::default"]), ("LitTrieVertexProps", vec!["c", "reports"], vec!["add_to_trie", "LitTrieVertexProps::with_byte", "<LitTrieVertexProps as Default>::default"]), ("SmallWriteBuild", vec!["lit_trie", "lit_trie_nocase"], vec!["SmallWriteBuild::add_literal", "SmallWriteBuild::new"])] {
        writers(c, ty, &f, &by);
    }
    // The empty index.
    if let Some(i) = c.find("<LitTrie as Default>::default") {
        let Some(b) = c.e.body(i) else { return };
        let rt = b.body.ret_local().ty;
        for (s, v) in c.run(i, vec![], State::new()) {
            let g = at(c, &s, &v, rt, "inner").0;
            let V::Obj("graph", g) = g else {
                c.undecided("empty index", "not a graph");
                return;
            };
            let e = c.e.dom.eq0(s.pc, &count(&g).plus(-1));
            c.holds("an empty index is its root", s.pc, e);
            let r = at(c, &s, &v, rt, "root").0;
            let r = models3::ix(&mut c.e, &r).unwrap_or(V::Undef);
            let e = eq(c, &s, &r, &V::us(0));
            c.holds("the root of an empty index is its node", s.pc, e);
        }
    }
}
/// SmallWriteBuild::add_literal and ::new.
fn engine(c: &mut Ck, what: &str) {
    let Some((i, a, t)) = args_of(c, "SmallWriteBuild::add_literal", &["sw", "lit", "report"]) else { return };
    if c.find("add_to_trie").is_none() {
        return;
    }
    c.ctx = "SmallWriteBuild::add_literal: ".into();
    let mut st = State::new();
    let lt = bare(t[1]);
    let l = crate::chk_ue2::lit(c, &mut st, "lit", lt);
    let mut a = a;
    a[1] = l.0.clone();
    let swt = bare(t[0]);
    let (r, v0) = cell(c, &mut st, "sw", swt);
    a[0] = r.clone();
    let len = l.2.len();
    let gf = |c: &mut Ck, f: &str| {
        let x = at(c, &st, &v0, swt, f).0;
        c.e.lin_of(&x).unwrap_or(Lin::s(fresh("¿num")))
    };
    let (maxlen, maxlit, num) = (gf(c, "cc.grey.small_write_largest_buffer"), gf(c, "cc.grey.small_write_max_literals"), gf(c, "num_literals"));
    let poisoned = fb(c, &st, &v0, swt, "poisoned");
    let big = c.e.dom.le0(st.pc, &num.plus(-(u32::MAX as i128)));
    st.pc = bdd::and(st.pc, big);
    let adds: Rc<RefCell<Vec<(State, Vec<V>, Bdd)>>> = Default::default();
    let a2 = adds.clone();
    let anys: Rc<RefCell<Vec<(Bdd, Bdd)>>> = Default::default();
    let any2 = anys.clone();
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        if n == "Ue2Literal::any_nocase" {
            let b = bdd::named("the literal has a caseless character".to_string());
            any2.borrow_mut().push((st.pc, b));
            return Some(vec![(st.clone(), mk_bits(vec![b]))]);
        }
        if n != "add_to_trie" {
            return None;
        }
        let mut s = st.clone();
        for (x, t) in a.iter().zip(&ci.arg_tys) {
            if tyx::adt_last(bare(*t)).as_deref() == Some("LitTrie") {
                let v = e.expand(fresh("grown"), bare(*t));
                e.write_ref(&mut s, x, v);
            }
        }
        let b = bdd::named(fresh("index small enough").key());
        let args = a.iter().map(|v| e.force(v.clone())).collect();
        a2.borrow_mut().push((st.clone(), args, b));
        Some(vec![(s, mk_bits(vec![b]))])
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let adds = adds.borrow().clone();
    let fits = c.e.dom.le0(st.pc, &len.sub(&maxlen));
    let room = c.e.dom.le0(st.pc, &num.plus(1).sub(&maxlit));
    let counted = bdd::and(bdd::not(poisoned), fits);
    let stored = bdd::and(counted, room);
    let caseless = bdd::named("the literal has a caseless character".to_string());
    let mut called = bdd::F;
    let mut small = bdd::F;
    for (s, ar, b) in &adds {
        c.holds("a literal is stored at most once", bdd::and(called, s.pc), bdd::F);
        called = bdd::or(called, s.pc);
        small = bdd::or(small, bdd::and(s.pc, *b));
        if what == "C17" {
            for v in ar {
                match v {
                    V::Ref(p) if p.alloc == alloc_of(&r) => {
                        let f = match p.path.first() {
                            Some(PE::F(k)) => tyx::field_names(swt, 0).get(*k).cloned().unwrap_or_default(),
                            _ => String::new(),
                        };
                        let want = match f.as_str() {
                            "lit_trie_nocase" => caseless,
                            "lit_trie" => bdd::not(caseless),
                            _ => bdd::F,
                        };
                        c.holds_text("case-sensitive and caseless literals are kept apart", s.pc, want, &format!("stored in {f:?}"));
                    }
                    V::Ref(p) => {
                        let ok = V::Ref(p.clone()) == a[1];
                        c.oblige("the literal itself is stored", ok, show(v));
                    }
                    v => {
                        let e = eq(c, s, v, &a[2]);
                        c.holds_text("its own report is stored", s.pc, e, &show(v));
                    }
                }
            }
        }
    }
    if what == "C17" {
        c.oblige("literals are stored", !adds.is_empty(), "never");
        c.ctx.clear();
        return;
    }
    let mut total = bdd::F;
    for (s, _) in &outs {
        total = bdd::or(total, s.pc);
        let v1 = c.e.read_ref(s, &r);
        let p1 = fb(c, s, &v1, swt, "poisoned");
        c.holds("once abandoned it stays so", bdd::and(s.pc, poisoned), p1);
        c.holds("once abandoned nothing more is stored", bdd::and(s.pc, poisoned), bdd::not(called));
        let long = bdd::and(bdd::not(poisoned), bdd::not(fits));
        c.holds("a long literal does not abandon it", bdd::and(s.pc, long), bdd::not(p1));
        c.holds("a long literal is left out", bdd::and(s.pc, long), bdd::not(called));
        for (p, w) in [(poisoned, "abandoned"), (long, "left out")] {
            let p = bdd::and(s.pc, p);
            if p != bdd::F && !c.e.dom.empty(p) {
                for f in ["lit_trie", "lit_trie_nocase"] {
                    let (x, y) = (at(c, s, &v0, swt, f).0, at(c, s, &v1, swt, f).0);
                    unchanged(c, &format!("{w}: {f} is unchanged"), s, p, &x, &y);
                }
            }
        }
        let n1 = at(c, s, &v1, swt, "num_literals").0;
        let n1 = c.e.lin_of(&n1).unwrap_or(Lin::s(fresh("¿num")));
        let g = bdd::and(s.pc, long);
        if g != bdd::F && !c.e.dom.empty(g) {
            let e = c.e.dom.eq0(g, &n1.sub(&num));
            c.holds("a literal that is left out is not counted", g, e);
        }
        let g = bdd::and(s.pc, stored);
        if g != bdd::F && !c.e.dom.empty(g) {
            let e = c.e.dom.eq0(g, &n1.sub(&num).plus(-1));
            c.holds("a stored literal is counted", g, e);
            c.holds("a short literal within the limit is stored", g, called);
            c.holds("it is abandoned exactly when the index is too large", g, bdd::iff(p1, bdd::not(small)));
        }
        let over = bdd::and(counted, bdd::not(room));
        c.holds("one literal too many abandons it", bdd::and(s.pc, over), p1);
        c.holds("one literal too many is not stored", bdd::and(s.pc, over), bdd::not(called));
    }
    c.holds("every literal is handled", st.pc, total);
    c.ctx.clear();
}
fn alloc_of(r: &V) -> AllocId {
    match r {
        V::Ref(p) => p.alloc.clone(),
        _ => AllocId::Heap(0),
    }
}
pub fn c16(c: &mut Ck) {
    c.rule("transition relation of adding a literal over every state of the engine; construction; the limits are the documented constants; who-may-write rule for the abandoned mark");
    engine(c, "C16");
    spell(c, "C16");
    // Construction.
    let Some((i, a, t)) = args_of(c, "Ng::new", &["cc", "n", "som"]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    c.ctx = "a new engine: ".into();
    let st = State::new();
    let lim = at(c, &st, &a[0], t[0], "grey.small_write_max_patterns").0;
    let lim = c.e.lin_of(&lim).unwrap_or(Lin::s(fresh("¿lim")));
    let allow = fb(c, &st, &a[0], t[0], "grey.allow_small_write");
    let n = c.e.lin_of(&a[1]).unwrap_or(Lin::s(fresh("¿n")));
    let few = c.e.dom.le0(st.pc, &n.sub(&lim));
    let mut total = bdd::F;
    for (s, v) in c.run(i, a.clone(), st.clone()) {
        total = bdd::or(total, s.pc);
        let p = fb(c, &s, &v, rt, "smwr.poisoned");
        c.holds("it is abandoned from the start exactly when disabled or with too many patterns", s.pc, bdd::iff(p, bdd::not(bdd::and(allow, few))));
        let k = at(c, &s, &v, rt, "smwr.num_literals").0;
        let e = eq(c, &s, &k, &V::us(0));
        c.holds("it begins without literals", s.pc, e);
        for f in ["small_write_max_literals", "small_write_largest_buffer"] {
            let (x, y) = (at(c, &st, &a[0], t[0], &format!("grey.{f}")).0, at(c, &s, &v, rt, &format!("smwr.cc.grey.{f}")).0);
            let e = eq(c, &s, &x, &y);
            c.holds(format!("its limits are those of the compile: {f}"), s.pc, e);
        }
    }
    c.holds("it is made", st.pc, total);
    c.ctx.clear();
    // The limits.
    if let Some(i) = c.find("<Grey as Default>::default") {
        let Some(b) = c.e.body(i) else { return };
        let gt = b.body.ret_local().ty;
        for (s, v) in c.run(i, vec![], State::new()) {
            for (f, w) in [("small_write_max_patterns", 10_000), ("small_write_max_literals", 10_000), ("small_write_largest_buffer", 70)] {
                let x = at(c, &s, &v, gt, f).0;
                let e = eq(c, &s, &x, &V::us(w));
                c.holds_text(format!("{f} is {w}"), s.pc, e, &show(&x));
            }
            let on = fb(c, &s, &v, gt, "allow_small_write");
            c.holds("it is enabled by default", s.pc, on);
        }
    }
    writers(c, "Grey", &["small_write_max_patterns", "small_write_max_literals", "small_write_largest_buffer", "allow_small_write"], &["<Grey as Default>::default", "<Grey as Clone>::clone"]);
    writers(c, "SmallWriteBuild", &["poisoned", "num_literals"], &["SmallWriteBuild::new", "SmallWriteBuild::add_literal", "SmallWriteBuild::add_expression"]);
}
