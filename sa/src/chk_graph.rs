//! Checks of the automaton graph: its skeleton (C31), edge filtering (C32), positions (C37).
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::chk_tree::*;
use crate::interp::*;
use crate::models;
use crate::models3;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::rc::Rc;

const SPECIAL: [&str; 4] = ["start", "start_ds", "accept", "accept_eod"];

/// The parts of a graph value.
fn parts(c: &mut Ck, v: &V) -> Option<Vec<V>> {
    match c.e.force(v.clone()) {
        V::Obj("graph", x) => Some((*x).clone()),
        v => {
            c.undecided("graph value", format!("not a graph: {}", kindname(&v)));
            None
        }
    }
}
fn index_of(c: &mut Ck, v: &V) -> V {
    models3::ix(&mut c.e, v).unwrap_or(V::Undef)
}
fn node(c: &mut Ck, st: &State, g: &[V], i: &V) -> V {
    match &g[0] {
        V::Seq(s) => {
            let v = c.e.index_seq(st, s, i);
            c.e.force(v)
        }
        _ => V::Undef,
    }
}
fn node_count(g: &[V]) -> Lin {
    match &g[0] {
        V::Seq(s) => s.len(),
        _ => Lin::s(fresh("¿nodes")),
    }
}
fn num(v: &V) -> Lin {
    v.as_lin().unwrap_or(Lin::s(fresh("¿num")))
}
fn all_true(c: &mut Ck, st: &State, v: &V) -> Bdd {
    c.flat(st, v).into_iter().fold(bdd::T, bdd::and)
}
fn all_false(c: &mut Ck, st: &State, v: &V) -> Bdd {
    c.flat(st, v).into_iter().fold(bdd::T, |x, b| bdd::and(x, bdd::not(b)))
}
fn same_bits(c: &mut Ck, st: &State, a: &V, b: &V) -> Bdd {
    let (x, y) = (c.flat(st, a), c.flat(st, b));
    if x.len() != y.len() || x.is_empty() {
        return bdd::F;
    }
    x.into_iter().zip(y).fold(bdd::T, |p, (a, b)| bdd::and(p, bdd::iff(a, b)))
}
/// A vertex without reports and flags; its characters are judged separately.
fn plain(c: &mut Ck, s: &State, v: &V, t: Ty, who: &str) {
    let m = at(c, s, v, t, "reports").0;
    match map(c, &m) {
        Some(m) => {
            let z = c.e.dom.eq0(s.pc, &m.len);
            c.holds_text(format!("{who} raises no report"), s.pc, z, &format!("{:?} reports", m.len));
        }
        None => c.undecided(format!("{who} raises no report"), show(&m)),
    }
    let f = at(c, s, v, t, "assert_flags").0;
    let z = all_false(c, s, &f);
    c.holds(format!("{who} carries no flags"), s.pc, z);
}

/// The standard skeleton, judged on a graph holder.
fn skeleton(c: &mut Ck, s: &State, h: &V, ht: Ty, what: &str) {
    let g = at(c, s, h, ht, "inner").0;
    let Some(g) = parts(c, &g) else { return };
    let gt = tyx::fields(ht, 0)[tyx::field_index(ht, "inner").unwrap_or(0)];
    let nt = tyx::adt_args(gt)[0];
    let mut id = vec![];
    for f in SPECIAL {
        let v = at(c, s, h, ht, f).0;
        id.push(index_of(c, &v));
    }
    let n = node_count(&g);
    c.oblige(format!("{what}: there are exactly the four special vertices"), n.is_const() == Some(4), format!("{n:?} vertices"));
    for i in 0..4 {
        for j in 0..i {
            let d = c.e.dom.eq0(s.pc, &num(&id[i]).sub(&num(&id[j])));
            c.holds(format!("{what}: {} and {} are distinct", SPECIAL[j], SPECIAL[i]), s.pc, bdd::not(d));
        }
        let inr = c.e.dom.le0(s.pc, &num(&id[i]).plus(1).sub(&n));
        c.holds(format!("{what}: {} exists", SPECIAL[i]), s.pc, inr);
    }
    for i in 0..4 {
        for j in 0..4 {
            let want = matches!((i, j), (0, 1) | (1, 1) | (2, 3));
            let has = models3::edge_is(&mut c.e, s, &g, &id[i], &id[j]);
            let w = if want { has } else { bdd::not(has) };
            c.holds(format!("{what}: {} edge {} to {}", if want { "the" } else { "no" }, SPECIAL[i], SPECIAL[j]), s.pc, w);
        }
    }
    let ne = num(&g[2]);
    c.oblige(format!("{what}: no edge is doubled"), ne.is_const() == Some(3), format!("{ne:?} edges"));
    for (i, f) in SPECIAL.iter().enumerate() {
        let v = node(c, s, &g, &id[i]);
        let cr = at(c, s, &v, nt, "char_reach").0;
        let w = if i < 2 { all_true(c, s, &cr) } else { all_false(c, s, &cr) };
        c.holds(format!("{what}: {f} is reachable on {} character", if i < 2 { "every" } else { "no" }), s.pc, w);
        plain(c, s, &v, nt, &format!("{what}: {f}"));
    }
}

pub fn c31(c: &mut Ck) {
    c.rule("abstract construction of the graph (nodes and edges as finite maps); vacuity and report union over every graph");
    c.assume("petgraph's Graph behaves as a finite multigraph with dense node indices; std hash sets behave as finite sets");
    c.e.wide_bits = true;
    if let Some(i) = c.find("NgHolder::new") {
        if let Some(b) = c.e.body(i) {
            let rt = b.body.ret_local().ty;
            let outs = c.run(i, vec![], State::new());
            let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
            c.holds("NgHolder::new returns", bdd::T, all);
            for (s, v) in &outs {
                skeleton(c, s, v, rt, "new graph");
            }
        }
    }
    for (i, b) in local_bodies(c).iter() {
        let n = short(&i.name().to_string());
        let ok = only_via(c, &["NgHolder::new"]).contains(&n);
        c.oblige(format!("{n} makes no graph of its own"), ok || crate::callg::builds(b, "NgHolder").is_empty(), format!("{n} builds an NgHolder"));
    }
    if let Some((i, a, t)) = args_of(c, "NgHolder::is_vacuous", &["g"]) {
        let st = State::new();
        let (h, ht) = root(c, &st, &a[0], t[0]);
        let g = at(c, &st, &h, ht, "inner").0;
        if let Some(g) = parts(c, &g) {
            let mut id = vec![];
            for f in SPECIAL {
                let v = at(c, &st, &h, ht, f).0;
                id.push(index_of(c, &v));
            }
            let mut want = bdd::F;
            for x in [0, 1] {
                for y in [2, 3] {
                    let e = models3::edge_is(&mut c.e, &st, &g, &id[x], &id[y]);
                    want = bdd::or(want, e);
                }
            }
            let outs = c.run(i, a.clone(), st.clone());
            let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
            c.holds("is_vacuous returns", bdd::T, all);
            for (s, v) in &outs {
                let r = c.bool_of(v);
                c.holds("a graph is vacuous exactly when some start has an edge to some accept", s.pc, bdd::iff(r, want));
            }
        }
    }
    union(c);
}
const G_SET: u64 = 20;
/// all_reports: the union over the predecessors of both accepts. Sets are followed by identity:
/// each set created in the function carries whether the designated predecessor's reports are in it.
fn union(c: &mut Ck) {
    c.e.wide_bits = false;
    for (which, k) in [("accept", 2usize), ("accept_eod", 3)] {
        let Some((i, a, t)) = args_of(c, "NgHolder::all_reports", &["g"]) else { return };
        let mut st = State::new();
        let (h, ht) = root(c, &st, &a[0], t[0]);
        let gv = at(c, &st, &h, ht, "inner").0;
        let Some(g) = parts(c, &gv) else { return };
        let mut id = vec![];
        for f in SPECIAL {
            let v = at(c, &st, &h, ht, f).0;
            id.push(index_of(c, &v));
        }
        let w = V::lin(Lin::s(Sym::ranged("w", 0, u32::MAX as i128)), 64);
        let inr = c.e.dom.le0(bdd::T, &num(&w).plus(1).sub(&node_count(&g)));
        let e = models3::edge_is(&mut c.e, &st, &g, &w, &id[k]);
        st.pc = bdd::and(inr, e);
        c.e.witness = Some(w.clone());
        let sites: Rc<RefCell<Vec<String>>> = Default::default();
        let (s2, g2, id2, w2) = (sites.clone(), g.clone(), id.clone(), w.clone());
        let gref = {
            let r = c.e.force(a[0].clone());
            let p = c.e.deref(&st, &r);
            p.map(|p| models::sub_ref(&p, PE::F(tyx::field_index(ht, "inner").unwrap_or(0))))
        };
        c.e.hooks.push(Rc::new(move |e, st, ci, a| {
            let n = ci.stripped.as_str();
            let m = n.rsplit("::").next().unwrap_or("");
            // Iterators over all of a set, handed on whole.
            if matches!(m, "iter" | "copied" | "cloned" | "into_iter") && n.contains("ash") || matches!(m, "copied" | "cloned") {
                if let V::Ref(r) = e.force(a[0].clone()) {
                    if gref.as_ref().map_or(false, |g| matches!(g, V::Ref(g) if g.alloc == r.alloc && r.path.starts_with(&g.path) && r.path.len() > g.path.len() && r.path.iter().any(|x| matches!(x, PE::I(_))))) {
                        return Some(vec![(st.clone(), a[0].clone())]);
                    }
                }
            }
            if !n.contains("HashSet") {
                return None;
            }
            if tyx::kind(ci.ret) == tyx::Kind::HashMap || tyx::adt_last(ci.ret).as_deref() == Some("HashSet") {
                if matches!(m, "new" | "default" | "with_capacity") {
                    let k = {
                        let mut v = s2.borrow_mut();
                        match v.iter().position(|x| *x == ci.at) {
                            Some(k) => k,
                            None => {
                                v.push(ci.at.clone());
                                v.len() - 1
                            }
                        }
                    };
                    let mut s = st.clone();
                    s.mem.insert(ghost(G_SET + k as u64), V::C(0, 1));
                    let ty = tyx::adt_args(ci.ret)[0];
                    let v = V::Map(Rc::new(MapV {
                        kty: ty,
                        vty: None,
                        base: Some(Sym::new(format!("set@{k}"))),
                        len: Lin::s(Sym::ranged(format!("len(set@{k})"), 0, 1 << 40)),
                        absent: vec![],
                        ents: vec![],
                        dirty: None,
                    }));
                    return Some(vec![(s, v)]);
                }
            }
            if m == "extend" {
                let d = crate::models2::peel(e, st, &a[0]);
                let k = token(&d)?;
                let src = e.force(a[1].clone());
                let mut s = st.clone();
                let old = st.mem.get(&ghost(G_SET + k))?.bits()?[0];
                let mut p = src.clone();
                let mut got = bdd::F;
                let mut known = false;
                if let V::Ref(r) = &p {
                    // The reports of one node of this graph.
                    if let (Some(V::Ref(gr)), Some(PE::I(x))) = (&gref, r.path.iter().rev().find(|x| matches!(x, PE::I(_)))) {
                        if r.alloc == gr.alloc && r.path.starts_with(&gr.path) {
                            let mut pred = bdd::F;
                            for k in [2, 3] {
                                let z = models3::edge_is(e, st, &g2, x, &id2[k]);
                                pred = bdd::or(pred, z);
                            }
                            e.obl("only reports of predecessors of an accept are taken", st.pc, pred, format!("reports of vertex {x:?} are added"));
                            got = e.v_eq(st, x, &w2);
                            known = true;
                        }
                    }
                    if !known {
                        p = crate::models2::peel(e, st, &src);
                    }
                }
                if let (false, Some(j)) = (known, token(&p)) {
                    got = st.mem.get(&ghost(G_SET + j))?.bits()?[0];
                    known = true;
                }
                if !known {
                    return None;
                }
                s.mem.insert(ghost(G_SET + k), mk_bits(vec![bdd::or(old, got)]));
                return Some(vec![(s, V::unit())]);
            }
            None
        }));
        let outs = c.run(i, a.clone(), st.clone());
        c.e.hooks.clear();
        c.e.witness = None;
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        let _ = all;
        let what = format!("every predecessor of {which} contributes its reports");
        for (s, v) in &outs {
            let v = c.e.force(v.clone());
            match token(&v).and_then(|k| s.mem.get(&ghost(G_SET + k)).and_then(|b| b.bits())) {
                Some(b) => {
                    c.holds(what.clone(), s.pc, b[0]);
                }
                None => c.undecided(what.clone(), show(&v)),
            }
        }
    }
}
fn token(v: &V) -> Option<u64> {
    match v {
        V::Map(m) if m.ents.is_empty() && m.absent.is_empty() && m.dirty.is_none() => {
            m.base.as_ref()?.key().strip_prefix("set@")?.parse().ok()
        }
        _ => None,
    }
}

// ------------------------------------------------------------------ C37

const NOTES: [(&str, &str); 4] = [
    ("Component::note_positions", "Component"),
    ("ComponentAlternation::note_positions", "ComponentAlternation"),
    ("ComponentClass::note_positions", "ComponentClass"),
    ("ComponentSequence::note_positions", "ComponentSequence"),
];
const LEAF: &str = "AsciiComponentClass::note_positions";
const G_PH: u64 = 10;
const G_CH: u64 = 11;

pub fn c37(c: &mut Ck) {
    c.rule("each node's numbering visits its children once and in order (induction over the tree, loops generalised); transition of the graph at one class; construction and hand-over of the graph");
    c.assume("petgraph's Graph behaves as a finite multigraph with dense node indices");
    let mut all: Vec<&'static str> = NOTES.iter().map(|x| x.0).collect();
    all.push(LEAF);
    for (f, node) in NOTES {
        let Some(i) = c.find(f) else { continue };
        c.ctx = format!("{f}: ");
        note_one(c, i, f, node, &all);
        c.ctx.clear();
    }
    leaf(c);
    whole(c);
    c.e.wide_bits = false;
    crate::chk_lit::graph_register(c, "C37");
}
fn kids(e: &mut Eng, st: &State, node: &V, ty: Ty) -> Option<(Ptr, Rc<SeqV>)> {
    let k = tyx::field_index(ty, "children")?;
    let p = e.deref(st, node)?;
    let r = models::sub_ref(&p, PE::F(k));
    models::seq_of(e, st, &r)
}
fn note_one(c: &mut Ck, i: Instance, f: &'static str, node: &'static str, all: &[&'static str]) {
    let a = c.unknown_args(i, &["node", "bs"]);
    let t = c.arg_tys(i);
    let mut st = State::new();
    st.mem.insert(ghost(G_PH), V::C(0, 1));
    st.mem.insert(ghost(G_CH), V::us(0));
    c.e.heap_ty.insert(ghost(G_CH), Ty::usize_ty());
    let nty = bare(t[0]);
    if tyx::adt_last(nty).as_deref() != Some(node) {
        c.undecided("the node numbered", format!("{nty} rather than {node}"));
        return;
    }
    if tyx::field_index(nty, "alternation").is_some() {
        let x = at(c, &st, &a[0], t[0], "alternation").0;
        st.pc = is_var(c, &x, "None");
    }
    let nr = c.e.force(a[0].clone());
    let bs = c.e.force(a[1].clone());
    let list = tyx::field_index(nty, "children").is_some();
    let others: Vec<&'static str> = all.to_vec();
    let first = Rc::new(std::cell::Cell::new(true));
    let (nr2, bs2) = (nr.clone(), bs.clone());
    c.e.hooks.push(Rc::new(move |e, st, ci, ar| {
        let n = short(&ci.stripped);
        if !others.contains(&n.as_str()) {
            return None;
        }
        if n == f && first.replace(false) {
            return None;
        }
        let x = e.force(ar[0].clone());
        let b = e.force(ar[1].clone());
        let same = if b == bs2 { bdd::T } else { e.v_eq(st, &b, &bs2) };
        e.obl("positions go to the same automaton", st.pc, same, show(&b));
        let mut s = st.clone();
        if list {
            let k = st.mem[&ghost(G_CH)].clone();
            let k = e.lin_of(&k).unwrap_or(Lin::s(fresh("¿k")));
            let (kp, q) = kids(e, st, &nr2, nty)?;
            let want = models::sub_ref(&kp, PE::I(V::lin(k.clone(), 64)));
            let ok = if x == want { bdd::T } else { ref_eq(e, st, &x, &want) };
            let inr = e.dom.le0(st.pc, &k.plus(1).sub(&q.len()));
            e.obl("only children are numbered", st.pc, inr, format!("child {k:?} does not exist"));
            e.obl("children are numbered in order", st.pc, ok, format!("{} is numbered as child {k:?}", show(&x)));
            s.mem.insert(ghost(G_CH), V::lin(k.plus(1), 64));
        } else {
            let p0 = e.v_eq_const(st, &st.mem[&ghost(G_PH)].clone(), 0);
            e.obl("the node is numbered once", st.pc, p0, "it is numbered twice".into());
            let inside = match (&x, &nr2) {
                (V::Ref(p), V::Ref(q)) => {
                    p.alloc == q.alloc && p.path.len() == q.path.len() + 2 && p.path[..q.path.len()] == q.path[..] && matches!(p.path[q.path.len()], PE::Var(_))
                }
                _ => false,
            };
            e.obl("it is the node itself that is numbered", st.pc, if inside { bdd::T } else { bdd::F }, show(&x));
            s.mem.insert(ghost(G_PH), V::C(1, 1));
        }
        Some(vec![(s, V::unit())])
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let total = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    if !list {
        c.holds("numbering returns", st.pc, total);
    }
    for (s, _) in &outs {
        if list {
            let Some((_, q)) = kids(&mut c.e, s, &nr, nty) else { continue };
            let k = s.mem[&ghost(G_CH)].clone();
            let k = c.e.lin_of(&k).unwrap_or(Lin::s(fresh("¿k")));
            let e = c.e.dom.eq0(s.pc, &k.sub(&q.len()));
            c.holds_text("every child is numbered", s.pc, e, &format!("{k:?} children numbered"));
        } else {
            let e = c.e.v_eq_const(s, &s.mem[&ghost(G_PH)].clone(), 1);
            c.holds("the node is numbered", s.pc, e);
        }
    }
}
/// One class adds one vertex carrying its characters.
fn leaf(c: &mut Ck) {
    c.e.wide_bits = true;
    let Some((i, a, t)) = args_of(c, LEAF, &["node", "bs"]) else { return };
    c.ctx = format!("{LEAF}: ");
    let mut st = State::new();
    let cr0 = at(c, &st, &a[0], t[0], "cr").0;
    let (h0, ht) = at(c, &st, &a[1], t[1], "builder.graph");
    let g0v = at(c, &st, &h0, ht, "inner").0;
    let Some(g0) = parts(c, &g0v) else { return };
    let gt = tyx::fields(ht, 0)[tyx::field_index(ht, "inner").unwrap_or(0)];
    let nt = tyx::adt_args(gt)[0];
    let n0 = node_count(&g0);
    // Node indices fit their type.
    st.pc = c.e.dom.le0(bdd::T, &n0.plus(-(u32::MAX as i128 - 1)));
    let outs = c.run(i, a.clone(), st.clone());
    let total = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    c.holds("numbering returns", st.pc, total);
    for (s, _) in &outs {
        let (h1, _) = at(c, s, &a[1], t[1], "builder.graph");
        let g1v = at(c, s, &h1, ht, "inner").0;
        let Some(g1) = parts(c, &g1v) else { continue };
        let n1 = node_count(&g1);
        let e = c.e.dom.eq0(s.pc, &n1.sub(&n0).plus(-1));
        c.holds_text("exactly one vertex is added", s.pc, e, &format!("{n0:?} vertices become {n1:?}"));
        let v = node(c, s, &g1, &V::lin(n0.clone(), 64));
        let cr1 = at(c, s, &v, nt, "char_reach").0;
        let same = same_bits(c, s, &cr0, &cr1);
        c.holds("the new vertex carries exactly the characters of the class", s.pc, same);
        plain(c, s, &v, nt, "the new vertex");
        // Any older vertex is left as it was.
        let j = V::lin(Lin::s(Sym::ranged("j", 0, u32::MAX as i128)), 64);
        let inr = c.e.dom.le0(s.pc, &num(&j).plus(1).sub(&n0));
        let mut s2 = s.clone();
        s2.pc = bdd::and(s.pc, inr);
        let (x, y) = (node(c, &s2, &g0, &j), node(c, &s2, &g1, &j));
        unchanged(c, "older vertices are left as they were", &s2, bdd::T, &x, &y);
        unchanged(c, "edges are left as they were", s, bdd::T, &g0[1], &g1[1]);
        for f in SPECIAL {
            let (x, y) = (at(c, &st, &h0, ht, f).0, at(c, s, &h1, ht, f).0);
            unchanged(c, &format!("{f} stays the same vertex"), s, bdd::T, &x, &y);
        }
        let cr2 = at(c, s, &a[0], t[0], "cr").0;
        let same = same_bits(c, s, &cr0, &cr2);
        c.holds("the class itself is left as it was", s.pc, same);
    }
    c.ctx.clear();
}
/// build_graph: a fresh skeleton is handed to the tree, and the same graph comes back.
fn whole(c: &mut Ck) {
    c.e.wide_bits = true;
    let Some((i, a, t)) = args_of(c, "build_graph", &["pe"]) else { return };
    c.ctx = "build_graph: ".into();
    let st = State::new();
    let Some(ni) = c.find("Component::note_positions") else { return };
    let nts = c.arg_tys(ni);
    let seen: Rc<RefCell<Vec<(State, Vec<V>)>>> = Default::default();
    let s2 = seen.clone();
    let bt = bare(nts[1]);
    c.e.hooks.push(Rc::new(move |e, st, ci, ar| {
        if short(&ci.stripped) != "Component::note_positions" {
            return None;
        }
        let args: Vec<V> = ar.iter().map(|v| e.force(v.clone())).collect();
        s2.borrow_mut().push((st.clone(), args.clone()));
        // The graph becomes some other graph.
        let mut s = st.clone();
        let k = tyx::field_index(bt, "builder")?;
        let b = e.read_ref(&s, &args[1]);
        let br = e.get(&s, b, &[PE::F(k)]);
        let br = e.force(br);
        let nb = bare(tyx::fields(bt, 0)[k]);
        let gk = tyx::field_index(nb, "graph")?;
        let ht = tyx::fields(nb, 0)[gk];
        let ik = tyx::field_index(ht, "inner")?;
        let it = tyx::fields(ht, 0)[ik];
        let p = e.deref(&s, &br)?;
        let q = models::sub_ref(&p, PE::F(gk));
        let V::Ref(q) = q else { return None };
        let q = models::sub_ref(&q, PE::F(ik));
        let nv = e.expand(Sym::new("numbered"), it);
        e.write_ref(&mut s, &q, nv);
        Some(vec![(s, V::unit())])
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let comp0 = models_sub(c, &a[0], bare(t[0]), "component");
    let mut once = bdd::F;
    let calls = seen.borrow().clone();
    for (s, ar) in &calls {
        c.holds("the tree is numbered at most once", bdd::and(once, s.pc), bdd::F);
        once = bdd::or(once, s.pc);
        let ok = match &comp0 {
            Some(r) => {
                if ar[0] == *r { bdd::T } else { ref_eq(&mut c.e, s, &ar[0], r) }
            }
            None => bdd::F,
        };
        c.holds_text("it is the expression's tree that is numbered", s.pc, ok, &show(&ar[0]));
        let (h, ht) = at(c, s, &ar[1], nts[1], "builder.graph");
        skeleton(c, s, &h, ht, "before numbering");
    }
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    let total = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    c.holds("building returns", st.pc, total);
    c.holds("the tree is numbered", total, once);
    for (s, v) in &outs {
        let (h, ht) = at(c, s, v, rt, "g");
        let g = at(c, s, &h, ht, "inner").0;
        let gt = tyx::fields(ht, 0)[tyx::field_index(ht, "inner").unwrap_or(0)];
        let want = c.e.expand(Sym::new("numbered"), gt);
        unchanged(c, "the numbered graph is what is built", s, bdd::T, &want, &g);
        if let Some(k) = tyx::field_index(rt, "expr") {
            let x = at(c, s, &a[0], t[0], "expr").0;
            let y = c.e.get(s, v.clone(), &[PE::F(k)]);
            unchanged(c, "the expression's settings are kept", s, bdd::T, &x, &y);
        }
        let mut id = vec![];
        for f in SPECIAL {
            let x = at(c, s, &h, ht, f).0;
            id.push(index_of(c, &x));
        }
        for (k, f) in SPECIAL.iter().enumerate() {
            let e = c.e.dom.eq0(s.pc, &num(&id[k]).plus(-(k as i128)));
            let _ = (e, f);
        }
    }
    c.ctx.clear();
}
fn models_sub(c: &mut Ck, r: &V, t: Ty, f: &str) -> Option<V> {
    let k = tyx::field_index(t, f)?;
    let r = c.e.force(r.clone());
    let p = c.e.deref(&State::new(), &r)?;
    Some(models::sub_ref(&p, PE::F(k)))
}

// ------------------------------------------------------------------ C32

/// Position flags are judged bit by bit.
fn flag_bits(c: &mut Ck) {
    c.e.opq_hook = Some(Rc::new(|_e, s, t| {
        if tyx::adt_last(t).as_deref() == Some("PosFlags") {
            let b: Bits = (0..32).map(|i| bdd::named(format!("{}[{i}]", s.key()))).collect();
            return Some(V::agg(vec![mk_bits(b)]));
        }
        None
    }));
}
/// When a flag set holds all bits of a mask.
fn flag_set(b: &[Bdd], mask: u128) -> Bdd {
    let mut r = bdd::T;
    for k in 0..128 {
        if mask >> k & 1 == 1 {
            r = bdd::and(r, b.get(k).copied().unwrap_or_else(|| bdd::named(fresh("¿flag").key())));
        }
    }
    r
}
/// The value of a named flag.
fn flag_mask(c: &mut Ck, n: &str) -> Option<u128> {
    let i = c.find(&format!("PosFlags::{n}"))?;
    let outs = c.run(i, vec![], State::new());
    let (s, v) = outs.first()?;
    let b = c.flat(s, v);
    let mut m = 0;
    for (k, x) in b.iter().enumerate() {
        match *x {
            bdd::T => m |= 1 << k,
            bdd::F => {}
            _ => {
                c.undecided(format!("value of {n}"), "not a constant");
                return None;
            }
        }
    }
    c.oblige(format!("{n} is a flag"), m != 0, "it is empty");
    Some(m)
}

pub fn c32(c: &mut Ck) {
    c.rule("monitor on every insertion of a successor, over arbitrary source, targets and automaton; who-may-write rule for the successor table");
    c.assume("retain keeps exactly the elements its predicate accepts; the special vertices of a build state are vertices of its automaton (C31)");
    flag_bits(c);
    let (Some(nofloat), Some(multiline)) = (flag_mask(c, "NOFLOAT"), flag_mask(c, "MULTILINE_START")) else { return };
    if let Some((i, a, t)) = args_of(c, "GlushkovBuildState::connect_successors", &["bs", "from", "to"]) {
        c.ctx = "connect_successors: ".into();
        let mut st = State::new();
        let idx = |c: &mut Ck, v: V| index_of(c, &v);
        let dsv = at(c, &st, &a[0], t[0], "start_dot_star_state").0;
        let ds = idx(c, dsv);
        let eodv = at(c, &st, &a[0], t[0], "accept_eod_state").0;
        let eod = idx(c, eodv);
        let fpv = at(c, &st, &a[1], t[1], "pos").0;
        let fp = idx(c, fpv);
        let ff = at(c, &st, &a[1], t[1], "flags").0;
        let ffb = c.flat(&st, &ff);
        let ffloat = flag_set(&ffb, nofloat);
        let (h, ht) = at(c, &st, &a[0], t[0], "builder.graph");
        let gv = at(c, &st, &h, ht, "inner").0;
        let Some(g) = parts(c, &gv) else { return };
        let gt = tyx::fields(ht, 0)[tyx::field_index(ht, "inner").unwrap_or(0)];
        let nt = tyx::adt_args(gt)[0];
        // The special vertices are vertices of the automaton.
        for x in [&ds, &eod] {
            let inr = c.e.dom.le0(st.pc, &num(x).plus(1).sub(&node_count(&g)));
            st.pc = bdd::and(st.pc, inr);
        }
        let nv = node(c, &st, &g, &fp);
        let af = at(c, &st, &nv, nt, "assert_flags").0;
        let afb = c.flat(&st, &af);
        let multi = flag_set(&afb, multiline);
        let from_ds = c.e.v_eq(&st, &fp, &ds);
        let count = Rc::new(std::cell::Cell::new(0usize));
        let c2 = count.clone();
        let pt = t[1];
        c.e.hooks.push(Rc::new(move |e, st, ci, ar| {
            let n = ci.stripped.as_str();
            let m = n.rsplit("::").next().unwrap_or("");
            if !n.contains("HashSet") || ar.len() < 2 || !matches!(m, "insert" | "replace" | "get_or_insert_with") {
                return None;
            }
            if ci.arg_tys.get(1).map(|t| bare(*t)) != Some(pt) {
                return None;
            }
            c2.set(c2.get() + 1);
            let to = e.force(ar[1].clone());
            let tp = e.get(st, to.clone(), &[PE::F(tyx::field_index(pt, "pos")?)]);
            let tp = models3::ix(e, &tp)?;
            let tf = e.get(st, to.clone(), &[PE::F(tyx::field_index(pt, "flags")?)]);
            let tf = e.force(tf);
            let tb = match &tf {
                V::Agg(x) => e.force(x[0].clone()).bits().map(|b| flag_set(&b, nofloat)),
                v => v.bits().map(|b| flag_set(&b, nofloat)),
            };
            let tb = tb.unwrap_or_else(|| bdd::named(fresh("¿flag").key()));
            let ok = bdd::or(bdd::not(from_ds), bdd::not(tb));
            e.obl("no position that must not float follows the floating start", st.pc, ok, format!("{} is added", show(&to)));
            let ok = bdd::or(bdd::not(from_ds), bdd::not(ffloat));
            e.obl("nothing follows a floating start that must not float", st.pc, ok, format!("{} is added", show(&to)));
            let q = e.v_eq(st, &tp, &eod);
            let ok = bdd::or(bdd::not(multi), bdd::not(q));
            e.obl("no multi-line start leads to accept at end", st.pc, ok, format!("{} is added", show(&to)));
            let r = e.fresh_of("inserted", ci.ret);
            Some(vec![(st.clone(), r)])
        }));
        let outs = c.run_raw(i, a.clone(), st.clone());
        c.e.hooks.clear();
        c.e.panics.clear();
        c.note("insertions monitored", count.get());
        c.oblige("successors are recorded through set insertion", count.get() > 0 || outs.is_empty(), "Undef: no insertion seen");
        c.ctx.clear();
    }
    writers(c, "GlushkovBuildState", &["successors"], &["GlushkovBuildState::connect_successors"]);
    writers(
        c,
        "GlushkovBuildState",
        &["start_state", "start_dot_star_state", "accept_state", "accept_eod_state"],
        &[],
    );
    for (i, b) in local_bodies(c).iter() {
        let n = short(&i.name().to_string());
        let ok = only_via(c, &["GlushkovBuildState::new"]).contains(&n);
        c.oblige(format!("{n} makes no build state of its own"), ok || crate::callg::builds(b, "GlushkovBuildState").is_empty(), format!("{n} builds a GlushkovBuildState"));
    }
    // A new build state names the special vertices of its automaton, and has no successors of its own making.
    if let Some((i, a, t)) = args_of(c, "GlushkovBuildState::new", &["b"]) {
        c.ctx = "GlushkovBuildState::new: ".into();
        let st = State::new();
        c.e.hooks.push(Rc::new(move |e, st, ci, _| {
            if short(&ci.stripped) != "GlushkovBuildState::connect_regions" {
                return None;
            }
            let v = e.fresh_of("connected", ci.ret);
            Some(vec![(st.clone(), v)])
        }));
        let Some(b) = c.e.body(i) else { return };
        let rt = b.body.ret_local().ty;
        let outs = c.run(i, a.clone(), st.clone());
        c.e.hooks.clear();
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        c.holds("it returns", bdd::T, all);
        for (s, v) in &outs {
            for (f, g) in [("start_state", "start"), ("start_dot_star_state", "start_ds"), ("accept_state", "accept"), ("accept_eod_state", "accept_eod")] {
                let x = at(c, s, v, rt, f).0;
                let y = at(c, &st, &a[0], t[0], &format!("graph.{g}")).0;
                let (x, y) = (index_of(c, &x), index_of(c, &y));
                let q = c.e.v_eq(s, &x, &y);
                c.holds(format!("{f} is the automaton's {g}"), s.pc, q);
            }
            let m = at(c, s, v, rt, "successors").0;
            if let Some(m) = map(c, &m) {
                let z = c.e.dom.eq0(s.pc, &m.len);
                c.holds("it starts without successors", s.pc, z);
            }
        }
        c.ctx.clear();
    }
    c.e.opq_hook = None;
}
