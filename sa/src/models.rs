//! Models of library functions whose bodies are below the level of the analysis.
use crate::bdd::{self, Bdd};
use crate::interp::*;
use crate::tyx::{self, Kind};
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn ordering_ty(_e: &mut Eng) -> Ty {
    BinOp::Cmp.ty(Ty::unsigned_ty(UintTy::U8), Ty::unsigned_ty(UintTy::U8))
}
pub fn opt(ty: Ty, v: Option<V>) -> V {
    match v {
        Some(v) => V::En(Rc::new(EnumV { ty, disc: V::C(1, 8), pay: BTreeMap::from([(1, vec![v])]), src: None })),
        None => V::En(Rc::new(EnumV { ty, disc: V::C(0, 8), pay: BTreeMap::from([(0, vec![])]), src: None })),
    }
}
pub fn opt_if(ty: Ty, c: Bdd, v: V) -> V {
    V::En(Rc::new(EnumV {
        ty,
        disc: mk_bits(b_ite(c, &const_bits(1, 8), &const_bits(0, 8))),
        pay: BTreeMap::from([(0, vec![]), (1, vec![v])]),
        src: None,
    }))
}
pub fn variant(ty: Ty, v: usize, pay: Vec<V>) -> V {
    V::En(Rc::new(EnumV { ty, disc: V::C(v as u128, 8), pay: BTreeMap::from([(v, pay)]), src: None }))
}
pub fn mkref(alloc: AllocId, path: Vec<PE>) -> V {
    V::Ref(Rc::new(Ptr { alloc, path, meta: None }))
}
pub fn sub_ref(p: &Ptr, e: PE) -> V {
    let mut q = p.clone();
    q.meta = None;
    q.path.push(e);
    V::Ref(Rc::new(q))
}

// ---------------------------------------------------------------- strings

pub fn str_len(s: &StrV) -> Lin {
    let mut l = Lin::k(0);
    for p in &s.0 {
        l = match p {
            Piece::Lit(t) => l.plus(t.len() as i128),
            Piece::Sub(_, a, b) => l.add(&b.sub(a)),
            Piece::Disp(v) => l.add(&Lin::s(Sym::ranged(format!("len(disp({v:?}))"), 0, 1 << 40))),
            Piece::Unk(s) => l.add(&Lin::s(Sym::ranged(format!("len({})", s.key()), 0, 1 << 40))),
        };
    }
    l
}
pub fn str_val(e: &mut Eng, st: &State, v: &V) -> Option<StrV> {
    match e.force(v.clone()) {
        V::Str(s) => Some((*s).clone()),
        V::Ref(p) => {
            let v = e.read_ptr(st, &p);
            str_val(e, st, &v)
        }
        _ => None,
    }
}
pub fn str_eq(e: &mut Eng, st: &State, a: &V, b: &V) -> Bdd {
    let (Some(x), Some(y)) = (str_val(e, st, a), str_val(e, st, b)) else { return e.unk_eq(a, b) };
    if x == y {
        return bdd::T;
    }
    if let (Some(p), Some(q)) = (x.as_lit(), y.as_lit()) {
        return if p == q { bdd::T } else { bdd::F };
    }
    for (s, t) in [(&x, &y), (&y, &x)] {
        if let Some(t) = t.as_lit() {
            if let Some(c) = crate::text::equals(e, st.pc, s, &t) {
                return c;
            }
        }
    }
    let (a, b) = (V::Str(Rc::new(x)), V::Str(Rc::new(y)));
    e.unk_eq(&a, &b)
}

// ---------------------------------------------------------------- maps

/// The possible outcomes of looking up `key`.
pub fn map_cases(e: &mut Eng, st: &State, m: &MapV, key: &V) -> Vec<(Bdd, Option<V>)> {
    let mut out = vec![];
    let mut rest = bdd::T;
    for (k, v) in m.ents.iter().rev() {
        let c = e.v_eq(st, k, key);
        let cc = bdd::and(rest, c);
        if bdd::and(cc, st.pc) != bdd::F {
            out.push((cc, if *v == V::Undef { None } else { Some(v.clone()) }));
        }
        rest = bdd::and(rest, bdd::not(c));
        if bdd::and(rest, st.pc) == bdd::F {
            return out;
        }
    }
    if let Some(d) = m.dirty {
        let h = bdd::named(format!("has({},{:?})", d.key(), key));
        out.push((bdd::and(rest, h), m.vty.map(|t| V::Opq(d.child(format!("val[{key:?}]")), t)).or(Some(V::unit()))));
        out.push((bdd::and(rest, bdd::not(h)), None));
    } else if let Some(b) = m.base {
        let h = bdd::named(format!("has({},{:?})", b.key(), key));
        out.push((bdd::and(rest, h), m.vty.map(|t| V::Opq(b.child(format!("val[{key:?}]")), t)).or(Some(V::unit()))));
        out.push((bdd::and(rest, bdd::not(h)), None));
    } else {
        out.push((rest, None));
    }
    out.retain(|(c, _)| bdd::and(*c, st.pc) != bdd::F);
    out
}
pub fn map_value(e: &mut Eng, st: &State, m: &MapV, key: &V) -> V {
    let mut r: Option<V> = None;
    for (c, v) in map_cases(e, st, m, key) {
        if let Some(v) = v {
            r = Some(match r {
                None => v,
                Some(o) => match merge(c, &v, &o) {
                    Some(x) => x,
                    None => return m.vty.map_or(V::unit(), |t| V::Opq(fresh("mapval"), t)),
                },
            });
        }
    }
    r.unwrap_or(V::Undef)
}
pub fn map_set(_e: &mut Eng, _st: &State, m: &MapV, key: &V, v: V) -> V {
    let mut m = m.clone();
    if let Some(x) = m.ents.iter_mut().rev().find(|x| x.0 == *key) {
        x.1 = v;
    } else {
        m.ents.push((key.clone(), v));
    }
    V::Map(Rc::new(m))
}
fn map_of(e: &mut Eng, st: &State, r: &V) -> Option<(Ptr, MapV)> {
    let p = e.deref(st, r)?;
    match e.read_ptr(st, &p) {
        V::Map(m) => Some((p, (*m).clone())),
        v => match e.force(v) {
            V::Map(m) => Some((p, (*m).clone())),
            _ => None,
        },
    }
}
fn deref_key(e: &mut Eng, st: &State, k: &V) -> V {
    match e.force(k.clone()) {
        V::Ref(p) => {
            let v = e.read_ptr(st, &p);
            deep(e, st, &v)
        }
        v => deep(e, st, &v),
    }
}
/// Forces scalars inside plain data so that equal keys are written the same way.
pub fn deep(e: &mut Eng, st: &State, v: &V) -> V {
    match e.force(v.clone()) {
        V::Agg(a) => V::agg(a.iter().map(|x| deep(e, st, x)).collect()),
        v => v,
    }
}

// ---------------------------------------------------------------- sequences

pub fn seq_of(e: &mut Eng, st: &State, r: &V) -> Option<(Ptr, Rc<SeqV>)> {
    let p = e.deref(st, r)?;
    let v = e.read_ptr(st, &p);
    match e.force(v) {
        V::Seq(s) => Some((p, s)),
        _ => None,
    }
}
pub fn push_seq(s: &SeqV, v: V) -> SeqV {
    let mut s = s.clone();
    s.tail.push(v);
    s
}
/// Removes the last element; the sequence must be known non-empty.
pub fn pop_seq(e: &mut Eng, st: &State, s: &SeqV) -> (SeqV, V) {
    let mut q = s.clone();
    if let Some(v) = q.tail.pop() {
        return (q, v);
    }
    match &q.base {
        Some((b, l)) => {
            let i = l.plus(-1);
            let v = e.index_seq(st, &Rc::new(q.clone()), &V::lin(i.clone(), 64));
            q.base = Some((*b, i.clone()));
            q.over.retain(|x| x.0 != i);
            (q, v)
        }
        None => (q, V::Undef),
    }
}
/// `(start, len)` of a slice value together with the pointer to its storage.
pub fn slice_parts(e: &mut Eng, st: &State, r: &V) -> Option<(Ptr, V, V)> {
    let mut p = e.deref(st, r)?;
    match p.meta.take() {
        Some((s, n)) => Some((p, s, n)),
        None => {
            let v = e.read_ptr(st, &p);
            let n = e.len_of(&v);
            Some((p, V::us(0), n))
        }
    }
}
pub fn mk_slice(p: &Ptr, s: V, n: V) -> V {
    V::Ref(Rc::new(Ptr { alloc: p.alloc.clone(), path: p.path.clone(), meta: Some((s, n)) }))
}
fn arith(e: &mut Eng, st: &State, op: BinOp, a: &V, b: &V) -> V {
    e.binop(st, op, a, b, Ty::usize_ty()).0
}
fn cmp(e: &mut Eng, st: &State, op: BinOp, a: &V, b: &V) -> Bdd {
    let v = arith(e, st, op, a, b);
    v.as_bool().unwrap_or_else(|| bdd::named(fresh("¿cmp").key()))
}
/// Checked sub-slice `[a, b)`; the failing part of the state panics.
fn subslice(e: &mut Eng, st: &State, ci: &CallInfo, r: &V, a: Option<V>, b: Option<V>, checked: bool) -> Outs {
    let Some((p, s, n)) = slice_parts(e, st, r) else {
        return e.havoc_call(ci, vec![], st.clone());
    };
    let a = a.unwrap_or(V::us(0));
    let b = b.unwrap_or(n.clone());
    let ok1 = cmp(e, st, BinOp::Le, &a, &b);
    let ok2 = cmp(e, st, BinOp::Le, &b, &n);
    let ok = bdd::and(ok1, ok2);
    let s2 = e.vadd(&s, &a);
    if checked {
        let bad = bdd::and(st.pc, bdd::not(ok));
        e.panic(bad, "slice index out of range".into(), ci.at.clone());
        let Some(st2) = st.with(ok) else { return vec![] };
        let n2 = arith(e, &st2, BinOp::Sub, &b, &a);
        return vec![(st2, mk_slice(&p, s2, n2))];
    }
    // `get`: an Option.
    let mut out = vec![];
    if let Some(st2) = st.with(ok) {
        let n2 = arith(e, &st2, BinOp::Sub, &b, &a);
        out.push((st2, opt(ci.ret, Some(mk_slice(&p, s2, n2)))));
    }
    if let Some(st2) = st.with(bdd::not(ok)) {
        out.push((st2, opt(ci.ret, None)));
    }
    out
}

// ---------------------------------------------------------------- graphs

pub fn graph_unknown(s: Sym, n: Ty, ed: Ty) -> V {
    let len = Sym::ranged(format!("len({}.edges)", s.key()), 0, i64::MAX as i128);
    let cnt = Sym::ranged(format!("count({}.edges)", s.key()), 0, u32::MAX as i128);
    let edges = MapV { kty: ed, vty: None, base: Some(s.child("edges")), len: Lin::s(len), absent: vec![], ents: vec![], dirty: None };
    V::Obj("graph", Rc::new(vec![V::Seq(Rc::new(SeqV::unknown(n, s.child("nodes")))), V::Map(Rc::new(edges)), V::lin(Lin::s(cnt), 64)]))
}
pub fn graph_index(e: &mut Eng, st: &State, g: &V, k: &V) -> V {
    let V::Obj(_, p) = g else { return V::Undef };
    let n = p[0].clone();
    e.get(st, n, &[PE::I(k.clone())])
}
pub fn graph_set(e: &mut Eng, st: &State, g: V, k: &V, v: V) -> V {
    let V::Obj(name, p) = g else { return V::Undef };
    let mut p = (*p).clone();
    p[0] = e.set(st, p[0].clone(), &[PE::I(k.clone())], v);
    V::Obj(name, Rc::new(p))
}

// ---------------------------------------------------------------- panics

pub fn panic_msg(e: &mut Eng, st: &State, ci: &CallInfo, args: &[V]) -> String {
    let short = ci.stripped.rsplit("::").next().unwrap_or("").to_string();
    for a in args {
        if let Some(s) = match e.force(a.clone()) {
            V::Str(s) => s.as_lit(),
            V::Obj("fmt", p) => match &p[0] {
                V::Str(s) => s.as_lit(),
                _ => None,
            },
            _ => None,
        } {
            return format!("{short}: {s}");
        }
    }
    let _ = st;
    format!("panic ({short})")
}

/// The trait's default body of an overridden method.
pub fn default_method(inst: Instance, through_ref: bool) -> Option<Instance> {
    rustc_middle::ty::tls::with(|tcx| {
        let i = rustc_public::rustc_internal::internal(tcx, inst);
        let def = i.def_id();
        let ai = tcx.opt_associated_item(def)?;
        let tid = ai.trait_item_def_id()?;
        let imp = tcx.trait_impl_of_assoc(def)?;
        let tr = tcx.impl_trait_ref(imp).instantiate(tcx, i.args).skip_norm_wip();
        let mut args = i.args.rebase_onto(tcx, imp, tr.args);
        if through_ref {
            let me = rustc_middle::ty::Ty::new_mut_ref(tcx, tcx.lifetimes.re_erased, args.type_at(0));
            args = tcx.mk_args_from_iter(std::iter::once(me.into()).chain(args.iter().skip(1)));
        }
        let ni = rustc_middle::ty::Instance { def: rustc_middle::ty::InstanceKind::Item(tid), args };
        Some(rustc_public::rustc_internal::stable(ni))
    })
}

fn slice_next(e: &mut Eng, st: &State, ci: &CallInfo, it: &V, back: bool) -> Option<Outs> {
    let p = e.deref(st, it)?;
    let V::It(iv) = e.read_ptr(st, &p) else { return None };
    let (holder, at) = match &*iv {
        IterV::Slice { ptr, i, end, .. } => (Some(e.read_ptr(st, ptr)), if back { arith(e, st, BinOp::Sub, end, &V::us(1)) } else { i.clone() }),
        IterV::Own { seq, i, end } => (Some(V::Seq(seq.clone())), if back { arith(e, st, BinOp::Sub, end, &V::us(1)) } else { i.clone() }),
        _ => (None, V::Undef),
    };
    if let Some(V::Seq(s)) = holder {
        // Elements replaced at a place not known to be this one, and facts about filtered elements.
        let end = match &*iv {
            IterV::Slice { end, i, .. } | IterV::Own { end, i, .. } => cmp(e, st, BinOp::Lt, i, end),
            _ => bdd::T,
        };
        if let (Some(k), Some((b, _))) = (e.lin_of(&at), s.base.clone()) {
            if let Some((o, _)) = s.over.iter().filter(|_| end != bdd::F).find(|(o, _)| {
                let d = k.sub(o);
                let q = e.dom.eq0(st.pc, &d);
                d.is_const().is_none() && e.decide(st.pc, q).is_none()
            }) {
                let q = e.dom.eq0(st.pc, &k.sub(o));
                let mut out = vec![];
                for (c, is) in [(q, true), (bdd::not(q), false)] {
                    if let Some(s2) = st.with(bdd::and(end, c)) {
                        for (mut s3, r) in slice_next(e, &s2, ci, it, back)? {
                            let x = match (&*iv, &r) {
                                (IterV::Slice { mutbl: false, .. }, V::En(x)) if x.disc.as_const() == Some(1) => x.pay[&1][0].clone(),
                                _ => {
                                    out.push((s3, r));
                                    continue;
                                }
                            };
                            // The two cases stay apart: each has its own element.
                            let mut q2 = (*s).clone();
                            q2.over.retain(|(p, _)| p != o);
                            if is {
                                q2.over = s.over.iter().filter(|(p, _)| p == o).map(|(_, v)| (k.clone(), v.clone())).collect();
                            }
                            let v = e.index_seq(&s3, &Rc::new(q2), &at);
                            let _ = x;
                            let h = e.heap(&mut s3, v, s.ty);
                            out.push((s3, opt(ci.ret, Some(mkref(h, vec![])))));
                        }
                    }
                }
                if let Some(s2) = st.with(bdd::not(end)) {
                    out.push((s2, opt(ci.ret, None)));
                }
                return Some(out);
            }
            if let (Some(fs), Some(s2)) = (e.filters.get(&b).cloned(), st.with(end)) {
                let inb = e.dom.le0(s2.pc, &k.plus(1).sub(&s.base.as_ref().unwrap().1));
                let elem = V::Opq(b.child(format!("[{k:?}]")), s.ty);
                let mut all = bdd::T;
                for f in &fs {
                    if let Some(x) = e.keeps(f, s2.pc, elem.clone(), s.ty) {
                        all = bdd::and(all, x);
                    }
                }
                let ok = bdd::or(bdd::not(end), bdd::or(all, bdd::not(inb)));
                if bdd::and(st.pc, ok) != st.pc {
                    let s3 = st.with(ok)?;
                    return slice_next(e, &s3, ci, it, back);
                }
            }
        }
    }
    match &*iv {
        IterV::Slice { ptr, i, end, mutbl } => {
            let c = cmp(e, st, BinOp::Lt, i, end);
            let idx = if back { arith(e, st, BinOp::Sub, end, &V::us(1)) } else { i.clone() };
            let elem = sub_ref(ptr, PE::I(idx.clone()));
            let elem = if let Some(t) = tyx::adt_args(ci.ret).first().copied() {
                inline_ref(e, st, elem, t)
            } else {
                elem
            };
            let ni = if back { i.clone() } else { arith(e, st, BinOp::Add, i, &V::us(1)) };
            let ne = if back { idx } else { end.clone() };
            iter_step(e, st, ci, &p, c, elem, IterV::Slice { ptr: ptr.clone(), i: ni, end: ne, mutbl: *mutbl })
        }
        IterV::Own { seq, i, end } => {
            let c = cmp(e, st, BinOp::Lt, i, end);
            let idx = if back { arith(e, st, BinOp::Sub, end, &V::us(1)) } else { i.clone() };
            let elem = e.index_seq(st, seq, &idx);
            let ni = if back { i.clone() } else { arith(e, st, BinOp::Add, i, &V::us(1)) };
            let ne = if back { idx } else { end.clone() };
            iter_step(e, st, ci, &p, c, elem, IterV::Own { seq: seq.clone(), i: ni, end: ne })
        }
        _ => None,
    }
}
fn iter_step(e: &mut Eng, st: &State, ci: &CallInfo, p: &Ptr, c: Bdd, item: V, next: IterV) -> Option<Outs> {
    let mut out = vec![];
    if let Some(mut s) = st.with(c) {
        e.write_ptr(&mut s, p, V::It(Rc::new(next)));
        out.push((s, opt(ci.ret, Some(item))));
    }
    if let Some(s) = st.with(bdd::not(c)) {
        out.push((s, opt(ci.ret, None)));
    }
    Some(e.merge_outs(out))
}
/// A `&T` whose `T` is held inline as a reference-like value stays a reference; `&str`
/// elements are read through on use.
fn inline_ref(_e: &mut Eng, _st: &State, r: V, _t: Ty) -> V {
    r
}

fn one(st: &State, v: V) -> Option<Outs> {
    Some(vec![(st.clone(), v)])
}

pub fn model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let n = ci.stripped.as_str();
    if let Some(i) = n.strip_prefix("std::intrinsics::") {
        return intrinsic(e, st, ci, i, a);
    }
    // Fn-trait calls of function items.
    if n.ends_with("::call_once") || n.ends_with("::call_mut") || n.ends_with("::call") {
        if n.contains("std::ops::Fn") {
            let f = match e.force(a[0].clone()) {
                V::Ref(p) => e.read_ptr(st, &p),
                v => v,
            };
            if let V::Fun(t) = f {
                let args = match e.force(a[1].clone()) {
                    V::Agg(x) => (*x).clone(),
                    V::Undef => vec![],
                    v => vec![v],
                };
                let tys = match tyx::rigid(ci.arg_tys[1]) {
                    Some(RigidTy::Tuple(t)) => t,
                    _ => vec![],
                };
                return Some(e.call_fn_item(t, args, tys, ci.ret, st.clone()));
            }
        }
    }
    if let Some(o) = crate::models2::model(e, st, ci, a) {
        return Some(o);
    }
    match n {
        "std::mem::swap" => {
            let (x, y) = (e.read_ref(st, &a[0]), e.read_ref(st, &a[1]));
            let mut s = st.clone();
            e.write_ref(&mut s, &a[0], y);
            e.write_ref(&mut s, &a[1], x);
            Some(vec![(s, V::unit())])
        }
        "std::mem::replace" | "std::ptr::replace" => {
            let x = e.read_ref(st, &a[0]);
            let mut s = st.clone();
            e.write_ref(&mut s, &a[0], a[1].clone());
            Some(vec![(s, x)])
        }
        "std::ptr::read" | "std::ptr::read_unaligned" => {
            let v = e.read_ref(st, &a[0]);
            one(st, v)
        }
        "std::ptr::write" => {
            let mut s = st.clone();
            e.write_ref(&mut s, &a[0], a[1].clone());
            Some(vec![(s, V::unit())])
        }
        "std::mem::drop" | "std::mem::forget" | "std::ptr::drop_in_place" => one(st, V::unit()),
        "std::hint::assert_unchecked" | "std::hint::unreachable_unchecked" => one(st, V::unit()),

        // Slice iterators.
        "std::slice::Iter::new" | "std::slice::IterMut::new" | "std::slice::iter::into_iter" | "std::slice::iter"
        | "std::slice::iter_mut" | "<&[T] as std::iter::IntoIterator>::into_iter"
        | "<&mut [T] as std::iter::IntoIterator>::into_iter"
        | "<&mut std::vec::Vec as std::iter::IntoIterator>::into_iter"
        | "<&std::vec::Vec as std::iter::IntoIterator>::into_iter" => {
            let rt = tyx::adt_path(ci.ret)?;
            if rt != "std::slice::Iter" && rt != "std::slice::IterMut" {
                return None;
            }
            let (p, s, l) = slice_parts(e, st, &a[0])?;
            let end = e.vadd(&s, &l);
            one(st, V::It(Rc::new(IterV::Slice { ptr: p, i: s, end, mutbl: rt.ends_with("IterMut") })))
        }
        "<std::slice::Iter as std::iter::Iterator>::next"
        | "<std::slice::IterMut as std::iter::Iterator>::next"
        | "<std::vec::IntoIter as std::iter::Iterator>::next"
        | "<std::array::IntoIter as std::iter::Iterator>::next" => slice_next(e, st, ci, &a[0], false),
        // Looking ahead in a slice has no effect, so nothing is taken out early.
        "std::iter::Peekable::peek" => {
            let p = e.deref(st, &a[0])?;
            let v = e.read_ptr(st, &p);
            let V::Agg(f) = e.force(v) else { return None };
            let none = match e.force(f.get(1)?.clone()) {
                V::En(x) => x.disc.as_const() == Some(0),
                _ => false,
            };
            let V::It(it) = e.force(f[0].clone()) else { return None };
            let IterV::Slice { ptr, i, end, .. } = &*it else { return None };
            if !none {
                return None;
            }
            let ity = tyx::pointee(tyx::adt_args(ci.ret).first().copied()?)?;
            let c = cmp(e, st, BinOp::Lt, i, end);
            let elem = sub_ref(ptr, PE::I(i.clone()));
            let mut out = vec![];
            if let Some(mut s) = st.with(c) {
                let h = e.heap(&mut s, elem, ity);
                out.push((s, opt(ci.ret, Some(V::Ref(Rc::new(Ptr { alloc: h, path: vec![], meta: None }))))));
            }
            if let Some(s) = st.with(bdd::not(c)) {
                out.push((s, opt(ci.ret, None)));
            }
            Some(e.merge_outs(out))
        }
        "<std::slice::Iter as std::iter::DoubleEndedIterator>::next_back"
        | "<std::slice::IterMut as std::iter::DoubleEndedIterator>::next_back"
        | "<std::vec::IntoIter as std::iter::DoubleEndedIterator>::next_back" => slice_next(e, st, ci, &a[0], true),
        "<std::slice::Iter as std::iter::Iterator>::size_hint"
        | "<std::slice::IterMut as std::iter::Iterator>::size_hint"
        | "<std::vec::IntoIter as std::iter::Iterator>::size_hint"
        | "<std::slice::Iter as std::iter::ExactSizeIterator>::len"
        | "<std::slice::IterMut as std::iter::ExactSizeIterator>::len"
        | "<std::vec::IntoIter as std::iter::ExactSizeIterator>::len"
        | "<std::slice::Iter as std::iter::Iterator>::count"
        | "<std::vec::IntoIter as std::iter::Iterator>::count"
        | "<std::slice::Iter as std::iter::ExactSizeIterator>::is_empty" => {
            let v = match e.force(a[0].clone()) {
                V::Ref(p) => e.read_ptr(st, &p),
                v => v,
            };
            let V::It(iv) = v else { return None };
            let (i, end) = match &*iv {
                IterV::Slice { i, end, .. } | IterV::Own { i, end, .. } => (i.clone(), end.clone()),
                _ => return None,
            };
            let l = arith(e, st, BinOp::Sub, &end, &i);
            if n.ends_with("size_hint") {
                let ot = tyx::rigid(ci.ret).and_then(|t| match t {
                    RigidTy::Tuple(t) => t.get(1).copied(),
                    _ => None,
                })?;
                return one(st, V::agg(vec![l.clone(), opt(ot, Some(l))]));
            }
            if n.ends_with("is_empty") {
                let c = cmp(e, st, BinOp::Eq, &l, &V::us(0));
                return one(st, boolv(c));
            }
            one(st, l)
        }
        "<std::slice::Iter as std::iter::Iterator>::fold"
        | "<std::slice::IterMut as std::iter::Iterator>::fold"
        | "<std::vec::IntoIter as std::iter::Iterator>::fold"
        | "<std::vec::IntoIter as std::iter::Iterator>::try_fold"
        | "<std::slice::Iter as std::iter::Iterator>::position"
        | "<std::slice::IterMut as std::iter::Iterator>::position"
        | "<std::slice::Iter as std::iter::Iterator>::nth"
        | "<std::slice::IterMut as std::iter::Iterator>::nth"
        | "<std::slice::Iter as std::iter::Iterator>::last"
        | "<std::slice::Iter as std::iter::Iterator>::is_sorted_by"
        | "<std::slice::Iter as std::iter::DoubleEndedIterator>::nth_back"
        | "<std::vec::IntoIter as std::iter::Iterator>::advance_by"
        | "<std::iter::Zip as std::iter::Iterator>::fold"
        | "<std::slice::Iter as std::iter::DoubleEndedIterator>::rfold" => {
            let d = default_method(ci.inst, false)?;
            if let Some(bi) = e.body(d) {
                return Some(e.run(d, bi, a.to_vec(), st.clone()));
            }
            // The same through one more reference.
            if !matches!(tyx::pointee(ci.arg_tys[0]), Some(_)) {
                return None;
            }
            let d = default_method(ci.inst, true)?;
            let bi = e.body(d)?;
            let mut s2 = st.clone();
            let h = e.heap(&mut s2, a[0].clone(), ci.arg_tys[0]);
            let mut b = a.to_vec();
            b[0] = mkref(h, vec![]);
            Some(e.run(d, bi, b, s2))
        }
        "<std::slice::Iter as std::clone::Clone>::clone" => {
            let v = e.read_ref(st, &a[0]);
            one(st, v)
        }
        "<std::slice::Iter as std::iter::Iterator>::__iterator_get_unchecked"
        | "<std::slice::IterMut as std::iter::Iterator>::__iterator_get_unchecked" => {
            let V::It(iv) = e.read_ref(st, &a[0]) else { return None };
            let IterV::Slice { ptr, i, .. } = &*iv else { return None };
            let k = e.vadd(i, &a[1]);
            one(st, sub_ref(ptr, PE::I(k)))
        }
        "std::slice::Iter::as_slice" | "std::slice::Iter::make_slice" => {
            let v = match e.force(a[0].clone()) {
                V::Ref(p) => e.read_ptr(st, &p),
                v => v,
            };
            let V::It(iv) = v else { return None };
            let IterV::Slice { ptr, i, end, .. } = &*iv else { return None };
            let l = arith(e, st, BinOp::Sub, end, i);
            one(st, mk_slice(ptr, i.clone(), l))
        }

        // Slices.
        "std::slice::len" | "std::slice::<impl [T]>::len" => {
            let (_, _, l) = slice_parts(e, st, &a[0])?;
            one(st, l)
        }
        "<std::ops::Range as std::slice::SliceIndex>::index"
        | "<std::ops::Range as std::slice::SliceIndex>::index_mut"
        | "<std::ops::Range as std::slice::SliceIndex>::get" => {
            if is_str_ref(ci.arg_tys[1]) {
                return None;
            }
            let V::Agg(r) = e.force(a[0].clone()) else { return None };
            let (x, y) = (e.force(r[0].clone()), e.force(r[1].clone()));
            Some(subslice(e, st, ci, &a[1], Some(x), Some(y), !n.ends_with("get")))
        }
        "<std::ops::RangeFrom as std::slice::SliceIndex>::index"
        | "<std::ops::RangeFrom as std::slice::SliceIndex>::index_mut"
        | "<std::ops::RangeFrom as std::slice::SliceIndex>::get" => {
            if is_str_ref(ci.arg_tys[1]) {
                return None;
            }
            let V::Agg(r) = e.force(a[0].clone()) else { return None };
            let x = e.force(r[0].clone());
            Some(subslice(e, st, ci, &a[1], Some(x), None, !n.ends_with("get")))
        }
        "<std::ops::RangeTo as std::slice::SliceIndex>::index"
        | "<std::ops::RangeTo as std::slice::SliceIndex>::index_mut"
        | "<std::ops::RangeTo as std::slice::SliceIndex>::get" => {
            if is_str_ref(ci.arg_tys[1]) {
                return None;
            }
            let V::Agg(r) = e.force(a[0].clone()) else { return None };
            let x = e.force(r[0].clone());
            Some(subslice(e, st, ci, &a[1], None, Some(x), !n.ends_with("get")))
        }
        "<std::ops::RangeFull as std::slice::SliceIndex>::index"
        | "<std::ops::RangeFull as std::slice::SliceIndex>::index_mut" => one(st, a[1].clone()),
        "<std::ops::RangeInclusive as std::slice::SliceIndex>::index"
        | "<std::ops::RangeInclusive as std::slice::SliceIndex>::index_mut"
        | "<std::ops::RangeToInclusive as std::slice::SliceIndex>::index"
        | "<std::ops::RangeToInclusive as std::slice::SliceIndex>::index_mut" => {
            if is_str_ref(ci.arg_tys[1]) {
                return None;
            }
            let V::Agg(r) = e.force(a[0].clone()) else { return None };
            let (x, y) = if n.contains("To") { (None, r[0].clone()) } else { (Some(e.force(r[0].clone())), r[1].clone()) };
            let y = e.force(y);
            let y1 = e.vadd(&y, &V::us(1));
            Some(subslice(e, st, ci, &a[1], x, Some(y1), true))
        }
        "<usize as std::slice::SliceIndex>::get" | "<usize as std::slice::SliceIndex>::get_mut" => {
            let (p, s, l) = slice_parts(e, st, &a[1])?;
            let c = cmp(e, st, BinOp::Lt, &a[0], &l);
            let k = e.vadd(&s, &a[0]);
            let mut out = vec![];
            if let Some(s2) = st.with(c) {
                out.push((s2, opt(ci.ret, Some(sub_ref(&p, PE::I(k))))));
            }
            if let Some(s2) = st.with(bdd::not(c)) {
                out.push((s2, opt(ci.ret, None)));
            }
            Some(e.merge_outs(out))
        }
        "<usize as std::slice::SliceIndex>::index" | "<usize as std::slice::SliceIndex>::index_mut" => {
            let (p, s, l) = slice_parts(e, st, &a[1])?;
            let c = cmp(e, st, BinOp::Lt, &a[0], &l);
            e.panic(bdd::and(st.pc, bdd::not(c)), "index out of bounds".into(), ci.at.clone());
            let s2 = st.with(c)?;
            let k = e.vadd(&s, &a[0]);
            Some(vec![(s2, sub_ref(&p, PE::I(k)))])
        }
        "<usize as std::slice::SliceIndex>::get_unchecked" | "<usize as std::slice::SliceIndex>::get_unchecked_mut" => {
            let (p, s, _) = slice_parts(e, st, &a[1])?;
            let k = e.vadd(&s, &a[0]);
            one(st, sub_ref(&p, PE::I(k)))
        }
        // Methods the standard library overrides for speed: what the trait says they do.
        n if [
            "<std::slice::Iter as std::iter::",
            "<std::slice::IterMut as std::iter::",
            "<std::vec::IntoIter as std::iter::",
            "<std::array::IntoIter as std::iter::",
        ]
        .iter()
        .any(|p| n.starts_with(p)) =>
        {
            let d = default_method(ci.inst, false)?;
            if let Some(bi) = e.body(d) {
                return Some(e.run(d, bi, a.to_vec(), st.clone()));
            }
            // The same through one more reference.
            if !matches!(tyx::pointee(ci.arg_tys[0]), Some(_)) {
                return None;
            }
            let d = default_method(ci.inst, true)?;
            let bi = e.body(d)?;
            let mut s2 = st.clone();
            let h = e.heap(&mut s2, a[0].clone(), ci.arg_tys[0]);
            let mut b = a.to_vec();
            b[0] = mkref(h, vec![]);
            Some(e.run(d, bi, b, s2))
        }
        _ => None,
    }
}
fn is_str_ref(t: Ty) -> bool {
    tyx::kind(t) == Kind::Str
}

fn intrinsic(e: &mut Eng, st: &State, ci: &CallInfo, n: &str, a: &[V]) -> Option<Outs> {
    let targ = |k: usize| -> Option<Ty> {
        match ci.inst.args().0.get(k) {
            Some(GenericArgKind::Type(t)) => Some(*t),
            _ => None,
        }
    };
    match n {
        "ctpop" | "cttz" | "ctlz" | "cttz_nonzero" | "ctlz_nonzero" => {
            let v = e.force(a[0].clone());
            let w = tyx::int_info(ci.ret).map_or(32, |x| x.0) as usize;
            let Some(b) = v.bits() else {
                let s = Sym::ranged(format!("{n}({v:?})"), 0, 128);
                return one(st, V::L(Rc::new(Lin::s(s)), w as u16));
            };
            let r = match n {
                "ctpop" => match e.counted.iter().find(|x| x.0 == b) {
                    // A word whose number of elements has a name.
                    Some((_, n)) => {
                        let mut n = n.clone();
                        n.resize(w, bdd::F);
                        n
                    }
                    None => b_popcount(&b, w),
                },
                "cttz" | "cttz_nonzero" => b_ctz(&b, w),
                _ => b_clz(&b, w),
            };
            one(st, mk_bits(r))
        }
        "raw_eq" => {
            let (x, y) = (e.read_ref(st, &a[0]), e.read_ref(st, &a[1]));
            let c = e.v_eq(st, &x, &y);
            one(st, boolv(c))
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
        | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" | "exact_div" | "add_with_overflow"
        | "sub_with_overflow" | "mul_with_overflow" | "saturating_add" | "saturating_sub" | "disjoint_bitor" => {
            let op = match n {
                x if x.contains("add") => BinOp::Add,
                x if x.contains("sub") => BinOp::Sub,
                x if x.contains("mul") => BinOp::Mul,
                x if x.contains("shl") => BinOp::Shl,
                x if x.contains("shr") => BinOp::Shr,
                x if x.contains("div") => BinOp::Div,
                x if x.contains("rem") => BinOp::Rem,
                _ => BinOp::BitOr,
            };
            let t = ci.arg_tys[0];
            let (v, o) = e.binop(st, op, &a[0], &a[1], t);
            if n.ends_with("with_overflow") {
                let v = if bdd::and(o, st.pc) != bdd::F && matches!(v, V::L(..)) {
                    // Value meaningful only without overflow.
                    v
                } else {
                    v
                };
                return one(st, V::agg(vec![v, boolv(o)]));
            }
            if n.starts_with("saturating") {
                let (w, s) = tyx::int_info(t)?;
                if s {
                    return None;
                }
                let lim = if op == BinOp::Add { V::C(mask(w), w) } else { V::C(0, w) };
                let mut out = vec![];
                if let Some(s) = st.with(o) {
                    out.push((s, lim));
                }
                if let Some(s) = st.with(bdd::not(o)) {
                    out.push((s, v));
                }
                return Some(e.merge_outs(out));
            }
            if n.starts_with("wrapping") && bdd::and(o, st.pc) != bdd::F && matches!(v, V::L(..)) && op != BinOp::Mul {
                // One turn around, in the direction of the operation.
                if let (Some((w, false)), V::L(l, _)) = (tyx::int_info(t), &v) {
                    let turn = if op == BinOp::Sub { 1i128 << w } else { -(1i128 << w) };
                    let mut out = vec![];
                    if let Some(s) = st.with(bdd::not(o)) {
                        out.push((s, v.clone()));
                    }
                    if let Some(s) = st.with(o) {
                        out.push((s, V::lin(l.plus(turn), w)));
                    }
                    return Some(out);
                }
            }
            if n.starts_with("wrapping") && bdd::and(o, st.pc) != bdd::F && matches!(v, V::L(..)) {
                let v = e.fresh_int(n, t);
                return one(st, v);
            }
            one(st, v)
        }
        "three_way_compare" => {
            let (v, _) = e.binop(st, BinOp::Cmp, &a[0], &a[1], ci.arg_tys[0]);
            one(st, v)
        }
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path"
        | "forget" | "abort" => one(st, V::unit()),
        "likely" | "unlikely" | "black_box" => one(st, a[0].clone()),
        "size_of" | "size_of_val" => match targ(0).and_then(tyx::size) {
            Some(s) => one(st, V::us(s as u128)),
            None => None,
        },
        "min_align_of" | "align_of" | "align_of_val" => {
            let t = targ(0)?;
            one(st, V::us(t.layout().ok()?.shape().abi_align as u128))
        }
        "needs_drop" => one(st, V::C(0, 1)),
        "is_val_statically_known" => one(st, V::C(0, 1)),
        "discriminant_value" => {
            let v = e.read_ref(st, &a[0]);
            match e.force(v) {
                V::En(en) => {
                    let t = Ty::from_rigid_kind(RigidTy::Int(IntTy::Isize));
                    let r = e.cast_int(st, V::En(en), t, ci.ret);
                    one(st, r)
                }
                _ => None,
            }
        }
        "transmute" | "transmute_unchecked" => one(st, a[0].clone()),
        "read_via_copy" => {
            let v = e.read_ref(st, &a[0]);
            one(st, v)
        }
        "write_via_move" => {
            let mut s = st.clone();
            e.write_ref(&mut s, &a[0], a[1].clone());
            Some(vec![(s, V::unit())])
        }
        "aggregate_raw_ptr" => None,
        "ptr_metadata" => match e.force(a[0].clone()) {
            V::Ref(p) => match &p.meta {
                Some((_, l)) => one(st, l.clone()),
                None => one(st, V::unit()),
            },
            _ => None,
        },
        "offset" | "arith_offset" => {
            let v = e.ptr_offset(&a[0], &a[1]);
            one(st, v)
        }
        "slice_get_unchecked" => {
            let (p, s, _) = slice_parts(e, st, &a[0])?;
            let k = e.vadd(&s, &a[1]);
            one(st, sub_ref(&p, PE::I(k)))
        }
        "ub_checks" | "contract_checks" => one(st, V::C(0, 1)),
        "overflow_checks" => one(st, V::C(1, 1)),
        "const_eval_select" => {
            // Runtime variant.
            let args = match e.force(a[0].clone()) {
                V::Agg(x) => (*x).clone(),
                v => vec![v],
            };
            let tys = match tyx::rigid(ci.arg_tys[0]) {
                Some(RigidTy::Tuple(t)) => t,
                _ => vec![],
            };
            match a[2] {
                V::Fun(t) => Some(e.call_fn_item(t, args, tys, ci.ret, st.clone())),
                _ => None,
            }
        }
        _ => None,
    }
}
