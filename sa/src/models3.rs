//! Models of graph, text and bit-vector operations.
use crate::bdd;
use crate::interp::*;
use crate::models::*;
use crate::models2::map_has;
use crate::tyx;
use crate::val::*;
use rustc_public::ty::Ty;
use std::rc::Rc;

fn cmp(e: &mut Eng, st: &State, op: rustc_public::mir::BinOp, a: &V, b: &V) -> bdd::Bdd {
    let v = e.binop(st, op, a, b, Ty::usize_ty()).0;
    v.as_bool().unwrap_or_else(|| bdd::named(fresh("¿cmp").key()))
}
fn one(st: &State, v: V) -> Option<Outs> {
    Some(vec![(st.clone(), v)])
}
/// The number inside a node or edge index.
pub fn ix(e: &mut Eng, v: &V) -> Option<V> {
    let v = e.force(v.clone());
    match v {
        V::Agg(a) if !a.is_empty() => ix(e, &a[0]),
        V::C(c, _) => Some(V::us(c)),
        V::L(l, _) => Some(V::lin((*l).clone(), 64)),
        V::B(_) => Some(v),
        _ => None,
    }
}
/// A node or edge index value.
pub fn mkix(v: &V) -> V {
    let v = match v {
        V::L(l, _) => V::lin((**l).clone(), 32),
        V::C(c, _) => V::C(*c, 32),
        v => v.clone(),
    };
    V::agg(vec![v])
}
fn is_graph(e: &mut Eng, st: &State, r: &V) -> Option<(Ptr, Vec<V>)> {
    let p = e.deref(st, r)?;
    let v = e.read_ptr(st, &p);
    match e.force(v) {
        V::Obj("graph", x) => Some((p, (*x).clone())),
        _ => None,
    }
}
pub fn ekey(a: &V, b: &V) -> V {
    V::agg(vec![a.clone(), b.clone()])
}
pub fn graph_new(n: Ty, ed: Ty) -> V {
    V::Obj(
        "graph",
        Rc::new(vec![
            V::Seq(Rc::new(SeqV::empty(n))),
            V::Map(Rc::new(MapV { kty: ed, vty: None, base: None, len: Lin::k(0), absent: vec![], ents: vec![], dirty: None })),
            V::us(0),
        ]),
    )
}
fn nlen(g: &[V]) -> V {
    match &g[0] {
        V::Seq(s) => V::lin(s.len(), 64),
        _ => V::us(0),
    }
}
pub fn edge_is(e: &mut Eng, st: &State, g: &[V], a: &V, b: &V) -> bdd::Bdd {
    let V::Map(m) = &g[1] else { return bdd::F };
    let m = m.clone();
    map_has(e, st, &m, &ekey(a, b))
}
fn inside(e: &mut Eng, st: &State, g: &[V], a: &V) -> bdd::Bdd {
    let n = nlen(g);
    cmp(e, st, rustc_public::mir::BinOp::Lt, a, &n)
}

pub fn graph(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let n = ci.stripped.as_str();
    let m = n.rsplit("::").next().unwrap_or("");
    if n.contains("petgraph::Graph") {
        if tyx::kind(ci.ret) == tyx::Kind::Graph && matches!(m, "new" | "default" | "with_capacity") {
            let t = tyx::adt_args(ci.ret);
            return one(st, graph_new(t[0], t[1]));
        }
        if a.is_empty() {
            return None;
        }
        let (p, g) = is_graph(e, st, &a[0])?;
        let r = graph_op(e, st, ci, a, m, &p, &g);
        if r.is_none() {
            e.gap(format!("no model for {n}"));
            return Some(e.havoc_call(ci, a.to_vec(), st.clone()));
        }
        return r;
    }
    if n.contains("Neighbors as std::iter::Iterator>::next") {
        return neighbor_next(e, st, ci, a);
    }
    if n.contains("Neighbors as std::iter::Iterator>::") {
        let d = default_method(ci.inst, false)?;
        let bi = e.body(d)?;
        return Some(e.run(d, bi, a.to_vec(), st.clone()));
    }
    None
}
fn graph_op(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], m: &str, p: &Ptr, g: &[V]) -> Option<Outs> {
    let put = |e: &mut Eng, g: Vec<V>| {
        let mut s = st.clone();
        e.write_ptr(&mut s, p, V::Obj("graph", Rc::new(g)));
        s
    };
    match m {
        "node_count" => one(st, nlen(g)),
        "edge_count" => one(st, g[2].clone()),
        "add_node" => {
            let V::Seq(s) = &g[0] else { return None };
            let id = V::lin(s.len(), 64);
            let mut s = (**s).clone();
            s.tail.push(a[1].clone());
            let mut g = g.to_vec();
            g[0] = V::Seq(Rc::new(s));
            let s = put(e, g);
            Some(vec![(s, mkix(&id))])
        }
        "add_edge" | "update_edge" => {
            let (x, y) = (ix(e, &a[1])?, ix(e, &a[2])?);
            let (i, j) = (inside(e, st, g, &x), inside(e, st, g, &y));
            let ok = bdd::and(i, j);
            e.panic(bdd::and(st.pc, bdd::not(ok)), "edge between nodes that do not exist".into(), ci.at.clone());
            let st2 = st.with(ok)?;
            let had = edge_is(e, &st2, g, &x, &y);
            let mut out = vec![];
            for (c, h) in [(had, true), (bdd::not(had), false)] {
                let Some(mut s) = st2.with(c) else { continue };
                let mut g = g.to_vec();
                let V::Map(mv) = &g[1] else { return None };
                let mv = mv.clone();
                if !h {
                    let V::Map(nm) = map_set(e, &s, &mv, &ekey(&x, &y), V::unit()) else { return None };
                    let mut nm = (*nm).clone();
                    nm.len = nm.len.plus(1);
                    g[1] = V::Map(Rc::new(nm));
                }
                let id = if h && m == "update_edge" {
                    V::lin(Lin::s(fresh("edge")), 64)
                } else {
                    let id = g[2].clone();
                    g[2] = e.vadd(&id, &V::us(1));
                    id
                };
                e.write_ptr(&mut s, p, V::Obj("graph", Rc::new(g)));
                out.push((s, mkix(&id)));
            }
            Some(out)
        }
        "contains_edge" | "find_edge" => {
            let (x, y) = (ix(e, &a[1])?, ix(e, &a[2])?);
            let has = edge_is(e, st, g, &x, &y);
            if m == "contains_edge" {
                return one(st, boolv(has));
            }
            let id = mkix(&V::lin(Lin::s(Sym::ranged(fresh("edge").key(), 0, u32::MAX as i128)), 64));
            let mut out = vec![];
            if let Some(s) = st.with(has) {
                out.push((s, opt(ci.ret, Some(id))));
            }
            if let Some(s) = st.with(bdd::not(has)) {
                out.push((s, opt(ci.ret, None)));
            }
            Some(out)
        }
        "node_weight" | "node_weight_mut" => {
            let x = ix(e, &a[1])?;
            let c = inside(e, st, g, &x);
            let mut out = vec![];
            if let Some(s) = st.with(c) {
                out.push((s, opt(ci.ret, Some(sub_ref(p, PE::I(x))))));
            }
            if let Some(s) = st.with(bdd::not(c)) {
                out.push((s, opt(ci.ret, None)));
            }
            Some(out)
        }
        "index" | "index_mut" => {
            if ci.arg_tys.len() < 2 || !format!("{:?}", ci.arg_tys[1]).contains("NodeIndex") {
                return None;
            }
            let x = ix(e, &a[1])?;
            let c = inside(e, st, g, &x);
            e.panic(bdd::and(st.pc, bdd::not(c)), "node index out of range".into(), ci.at.clone());
            let s = st.with(c)?;
            Some(vec![(s, sub_ref(p, PE::I(x)))])
        }
        "neighbors_directed" | "neighbors" | "neighbors_undirected" => {
            let x = ix(e, &a[1])?;
            let dir = match m {
                "neighbors" => V::C(0, 8),
                "neighbors_directed" => {
                    let V::En(d) = e.force(a[2].clone()) else { return None };
                    d.disc.clone()
                }
                _ => return None,
            };
            dir.as_const()?;
            one(st, V::Obj("nbrs", Rc::new(vec![V::Ref(Rc::new(p.clone())), x, dir, V::C(0, 1)])))
        }
        "reserve_nodes" | "reserve_edges" | "shrink_to_fit" => one(st, V::unit()),
        _ => None,
    }
}
/// Each neighbour is produced exactly once; a designated node is followed individually.
fn neighbor_next(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let p = e.deref(st, &a[0])?;
    let v = e.read_ptr(st, &p);
    let V::Obj("nbrs", o) = v else { return None };
    let (_, g) = is_graph(e, st, &o[0])?;
    let out_dir = o[2].as_const()? == 0;
    let pair = |x: &V, y: &V| if out_dir { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
    let mut out = vec![];
    let given = match &o[3] {
        V::C(c, _) => {
            if *c == 1 {
                bdd::T
            } else {
                bdd::F
            }
        }
        V::B(b) => b[0],
        _ => return None,
    };
    let w = e.witness.clone();
    let mut none = bdd::T;
    // Which neighbour comes next is open; the alternatives exclude each other.
    let more = bdd::named(format!("more({})", fresh("nbrs").key()));
    let this = bdd::named(fresh("pick").key());
    if let Some(w) = &w {
        let (s, t) = pair(&o[1], w);
        let has = bdd::and(edge_is(e, st, &g, &s, &t), inside(e, st, &g, w));
        let due = bdd::and(has, bdd::not(given));
        none = bdd::not(due);
        if let Some(mut s) = st.with(bdd::and(due, bdd::and(more, this))) {
            let mut n = (*o).clone();
            n[3] = V::C(1, 1);
            e.write_ptr(&mut s, &p, V::Obj("nbrs", Rc::new(n)));
            out.push((s, opt(ci.ret, Some(mkix(w)))));
        }
    }
    // Some other neighbour.
    let x = V::lin(Lin::s(Sym::ranged(fresh("nbr").key(), 0, u32::MAX as i128)), 64);
    let (s, t) = pair(&o[1], &x);
    let has = edge_is(e, st, &g, &s, &t);
    let mut c = bdd::and(has, inside(e, st, &g, &x));
    if let Some(w) = &w {
        let d = cmp(e, st, rustc_public::mir::BinOp::Ne, &x, w);
        c = bdd::and(c, d);
    }
    c = bdd::and(c, bdd::and(more, if w.is_some() { bdd::not(this) } else { bdd::T }));
    if let Some(s) = st.with(c) {
        out.push((s, opt(ci.ret, Some(mkix(&x)))));
    }
    if let Some(s) = st.with(bdd::and(none, bdd::not(more))) {
        out.push((s, opt(ci.ret, None)));
    }
    Some(out)
}
/// Sequences of flags and of bytes.
pub fn bitvec(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let n = ci.stripped.as_str();
    let m = n.rsplit("::").next().unwrap_or("");
    if n.starts_with('<') && n.contains(" as ") {
        if !n.starts_with("<bit_vec::BitVec as ") {
            return None;
        }
        return match m {
            "cmp" | "partial_cmp" | "eq" | "ne" => order(e, st, ci, a),
            "index" => {
                let (p, s) = seq_of(e, st, &a[0])?;
                let l = V::lin(s.len(), 64);
                let ok = cmp(e, st, rustc_public::mir::BinOp::Lt, &a[1], &l);
                e.panic(bdd::and(st.pc, bdd::not(ok)), "index out of bounds".into(), ci.at.clone());
                let s = st.with(ok)?;
                Some(vec![(s, sub_ref(&p, PE::I(a[1].clone())))])
            }
            _ => None,
        };
    }
    let (p, s) = seq_of(e, st, a.first()?)?;
    let l = V::lin(s.len(), 64);
    let put = |e: &mut Eng, st: &State, q: SeqV, r: V| {
        let mut s = st.clone();
        e.write_ptr(&mut s, &p, V::Seq(Rc::new(q)));
        Some(vec![(s, r)])
    };
    match m {
        "push" => put(e, st, push_seq(&s, a[1].clone()), V::unit()),
        "len" => one(st, l),
        "is_empty" => {
            let z = e.dom.le0(st.pc, &s.len());
            one(st, boolv(z))
        }
        "get" => {
            let ok = cmp(e, st, rustc_public::mir::BinOp::Lt, &a[1], &l);
            let mut out = vec![];
            if let Some(s1) = st.with(ok) {
                let v = e.index_seq(&s1, &s, &a[1]);
                out.push((s1, opt(ci.ret, Some(v))));
            }
            if let Some(s1) = st.with(bdd::not(ok)) {
                out.push((s1, opt(ci.ret, None)));
            }
            Some(out)
        }
        "set" => {
            let ok = cmp(e, st, rustc_public::mir::BinOp::Lt, &a[1], &l);
            e.panic(bdd::and(st.pc, bdd::not(ok)), "index out of bounds".into(), ci.at.clone());
            let mut s1 = st.with(ok)?;
            let mut q = p.clone();
            q.path.push(PE::I(a[1].clone()));
            e.write_ptr(&mut s1, &q, a[2].clone());
            Some(vec![(s1, V::unit())])
        }
        "any" | "none" | "all" => {
            // Some element is set, some element is clear.
            let which = m != "all";
            let mut r = match (&s.base, s.over.is_empty()) {
                (None, true) => bdd::F,
                _ => bdd::named(format!("some {which} in {:?} {:?}", s.base, s.over)),
            };
            for x in &s.tail {
                let b = e.force(x.clone()).as_bool()?;
                r = bdd::or(r, if which { b } else { bdd::not(b) });
            }
            one(st, boolv(if m == "any" { r } else { bdd::not(r) }))
        }
        "clear" => {
            // All bits are cleared; the length stays.
            if s.base.is_some() {
                return None;
            }
            let q = SeqV { tail: s.tail.iter().map(|_| V::C(0, 1)).collect(), ..SeqV::empty(s.ty) };
            put(e, st, q, V::unit())
        }
        "reserve" | "shrink_to_fit" => one(st, V::unit()),
        _ => None,
    }
}
/// Lexicographic comparison of sequences: a total order that agrees with equality.
pub fn order(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let m = ci.stripped.rsplit("::").next().unwrap_or("");
    let get = |e: &mut Eng, v: &V| -> Option<V> {
        let (_, s) = seq_of(e, st, v)?;
        Some(V::Seq(s))
    };
    let (x, y) = (get(e, &a[0])?, get(e, &a[1])?);
    let eq = e.v_eq(st, &x, &y);
    let ot = match m {
        "eq" => return one(st, boolv(eq)),
        "ne" => return one(st, boolv(bdd::not(eq))),
        "cmp" => ci.ret,
        "partial_cmp" => *tyx::fields(ci.ret, 1).first()?,
        _ => return None,
    };
    let (k, l) = (format!("{x:?}"), format!("{y:?}"));
    let lt = if k <= l { bdd::named(format!("less({k} , {l})")) } else { bdd::not(bdd::named(format!("less({l} , {k})"))) };
    let mut out = vec![];
    for (c, v) in [(eq, "Equal"), (bdd::and(bdd::not(eq), lt), "Less"), (bdd::and(bdd::not(eq), bdd::not(lt)), "Greater")] {
        if let Some(s) = st.with(c) {
            let o = variant(ot, tyx::variant_index(ot, v)?, vec![]);
            out.push((s, if m == "cmp" { o } else { opt(ci.ret, Some(o)) }));
        }
    }
    Some(out)
}

pub fn text(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    crate::text::model(e, st, ci, a)
}
