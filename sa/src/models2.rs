//! Models of the collection, string and formatting parts of the library.
use crate::bdd::{self, Bdd};
use crate::interp::*;
use crate::models::*;
use crate::tyx::{self, Kind};
use crate::val::*;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::rc::Rc;

fn one(st: &State, v: V) -> Option<Outs> {
    Some(vec![(st.clone(), v)])
}
fn wr(e: &mut Eng, st: &State, p: &Ptr, v: V, r: V) -> Option<Outs> {
    let mut s = st.clone();
    e.write_ptr(&mut s, p, v);
    Some(vec![(s, r)])
}
fn strv(v: StrV) -> V {
    V::Str(Rc::new(v))
}
/// Peels references off a value.
pub fn peel(e: &mut Eng, st: &State, v: &V) -> V {
    let mut v = e.force(v.clone());
    for _ in 0..6 {
        match &v {
            V::Ref(p) if p.meta.is_none() => {
                let p = p.clone();
                let n = e.read_ptr(st, &p);
                v = e.force(n);
            }
            _ => break,
        }
    }
    v
}
fn pair_cases(e: &mut Eng, st: &State, c: Bdd, ret: Ty, v: V) -> Outs {
    let mut out = vec![];
    if let Some(s) = st.with(c) {
        out.push((s, opt(ret, Some(v))));
    }
    if let Some(s) = st.with(bdd::not(c)) {
        out.push((s, opt(ret, None)));
    }
    e.merge_outs(out)
}
fn nonzero(e: &mut Eng, st: &State, l: &Lin) -> Bdd {
    let eq = e.dom.eq0(st.pc, l);
    bdd::not(eq)
}
/// The pieces `Display` writes for a value.
pub fn display(e: &mut Eng, st: &State, v: &V) -> StrV {
    match peel(e, st, v) {
        V::Str(s) => (*s).clone(),
        v => {
            if let V::C(k, w) = v {
                if w > 1 {
                    return StrV::lit(&k.to_string());
                }
            }
            let v = deep(e, st, &v);
            StrV(vec![Piece::Disp(v)])
        }
    }
}
fn fmt_args(e: &mut Eng, st: &State, a: &[V]) -> Option<StrV> {
    let tv = peel(e, st, &a[0]);
    let bytes: Vec<u8> = match &tv {
        V::Agg(x) => x.iter().map(|b| b.as_const().map(|c| c as u8)).collect::<Option<Vec<u8>>>()?,
        V::Seq(s) if s.base.is_none() => s.tail.iter().map(|b| b.as_const().map(|c| c as u8)).collect::<Option<Vec<u8>>>()?,
        _ => return None,
    };
    let args: Vec<V> = match peel(e, st, &a[1]) {
        V::Agg(x) => (*x).clone(),
        V::Seq(s) if s.base.is_none() => s.tail.clone(),
        _ => return None,
    };
    let mut out = StrV::default();
    let mut i = 0;
    let mut next = 0usize;
    while i < bytes.len() {
        let b = bytes[i];
        i += 1;
        if b == 0 {
            break;
        }
        if b < 0x80 {
            let s = std::str::from_utf8(bytes.get(i..i + b as usize)?).ok()?;
            out.push(Piece::Lit(s.to_string()));
            i += b as usize;
        } else if b == 0x80 {
            let n = *bytes.get(i)? as usize | (*bytes.get(i + 1)? as usize) << 8;
            i += 2;
            let s = std::str::from_utf8(bytes.get(i..i + n)?).ok()?;
            out.push(Piece::Lit(s.to_string()));
            i += n;
        } else if b & 0xc0 == 0xc0 {
            if b & 7 != 0 {
                // Width, precision and flags change the text.
                let n = (b & 1) as usize * 4 + (b >> 1 & 1) as usize * 2 + (b >> 2 & 1) as usize * 2;
                i += n;
                if b & 8 != 0 {
                    next = *bytes.get(i)? as usize | (*bytes.get(i + 1)? as usize) << 8;
                    i += 2;
                }
                next += 1;
                out.push(Piece::Unk(fresh("formatted")));
                continue;
            }
            if b & 8 != 0 {
                next = *bytes.get(i)? as usize | (*bytes.get(i + 1)? as usize) << 8;
                i += 2;
            }
            let arg = args.get(next)?;
            next += 1;
            match e.force(arg.clone()) {
                V::Obj("disp", p) => out.append(&display(e, st, &p[0])),
                V::Obj("debug", p) => {
                    let v = peel(e, st, &p[0]);
                    out.push(Piece::Unk(Sym::new(format!("debug({v:?})"))));
                }
                _ => out.push(Piece::Unk(fresh("arg"))),
            }
        } else {
            return None;
        }
    }
    Some(out)
}
/// Appends to the string behind a reference.
fn append(e: &mut Eng, st: &State, r: &V, x: &StrV, ret: V) -> Option<Outs> {
    let p = e.deref(st, r)?;
    let v = e.read_ptr(st, &p);
    let V::Str(s) = e.force(v) else { return None };
    let mut s = (*s).clone();
    s.append(x);
    wr(e, st, &p, strv(s), ret)
}
fn ok_unit(ret: Ty) -> V {
    variant(ret, 0, vec![V::unit()])
}
fn targ(ci: &CallInfo, k: usize) -> Option<Ty> {
    ci.inst.args().0.iter().filter_map(|a| a.ty().copied()).nth(k)
}
fn empty_map(t: Ty) -> V {
    let a = tyx::adt_args(t);
    let set = tyx::kind(t) == Kind::HashSet;
    V::Map(Rc::new(MapV {
        kty: a[0],
        vty: if set { None } else { Some(a[1]) },
        base: None,
        len: Lin::k(0),
        absent: vec![],
        ents: vec![],
        dirty: None,
    }))
}
fn keyv(e: &mut Eng, st: &State, k: &V) -> V {
    let v = peel(e, st, k);
    deep(e, st, &v)
}
fn map_at(e: &mut Eng, st: &State, r: &V) -> Option<(Ptr, Rc<MapV>)> {
    let p = e.deref(st, r)?;
    let v = e.read_ptr(st, &p);
    match e.force(v) {
        V::Map(m) => Some((p, m)),
        _ => None,
    }
}
/// The condition under which `key` is present.
pub fn map_has(e: &mut Eng, st: &State, m: &MapV, key: &V) -> Bdd {
    let mut r = bdd::F;
    for (c, v) in map_cases(e, st, m, key) {
        if v.is_some() {
            r = bdd::or(r, c);
        }
    }
    r
}
/// Inserts, adjusting the length; `pc` of `st` must decide presence.
fn map_insert(e: &mut Eng, st: &State, m: &MapV, key: &V, v: V, had: bool) -> V {
    let V::Map(n) = map_set(e, st, m, key, v) else { unreachable!() };
    let mut n = (*n).clone();
    if !had {
        n.len = n.len.plus(1);
    }
    V::Map(Rc::new(n))
}
/// The two entry variants of a map type's `Entry`.
fn entry_variants(t: Ty) -> Option<(usize, usize)> {
    Some((tyx::variant_index(t, "Occupied")?, tyx::variant_index(t, "Vacant")?))
}

pub fn model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    let n = ci.stripped.as_str();
    if n.starts_with("petgraph::") || n.starts_with("<petgraph::") || n.contains(" petgraph::") {
        if let Some(o) = crate::models3::graph(e, st, ci, a) {
            return Some(o);
        }
    }
    if n.contains("bit_vec::") {
        if let Some(o) = crate::models3::bitvec(e, st, ci, a) {
            return Some(o);
        }
    }
    let plain = || {
        let t = ci.arg_tys.first().and_then(|t| tyx::pointee(*t)).and_then(tyx::elem);
        t.map_or(false, |t| t.kind().is_integral() || t.kind().is_bool() || t.kind().is_char())
    };
    if (n.starts_with("<std::vec::Vec as ") || n.starts_with("<[") || n.starts_with("std::slice::") || n.starts_with("std::vec::partial_eq::"))
        && matches!(n.rsplit("::").next(), Some("cmp" | "partial_cmp" | "eq" | "ne"))
        && plain()
    {
        if let Some(o) = crate::models3::order(e, st, ci, a) {
            return Some(o);
        }
    }
    if let Some(o) = crate::models3::text(e, st, ci, a) {
        return Some(o);
    }
    // Values whose construction is the model itself.
    if n.ends_with(" as std::default::Default>::default") || n.ends_with("::new") && a.is_empty() || n.ends_with("::with_capacity") {
        match tyx::kind(ci.ret) {
            Kind::Vec | Kind::BitVec => return one(st, V::Seq(Rc::new(SeqV::empty(tyx::elem(ci.ret)?)))),
            Kind::String => return one(st, strv(StrV::default())),
            Kind::HashMap | Kind::HashSet => return one(st, empty_map(ci.ret)),
            _ => {}
        }
    }
    // Copies.
    if n.ends_with(" as std::clone::Clone>::clone") || n.ends_with("std::borrow::ToOwned>::to_owned") || n.ends_with("::to_vec") || n.ends_with("::into_vec") {
        let k = tyx::kind(ci.ret);
        match k {
            Kind::String => {
                if let V::Str(s) = peel(e, st, &a[0]) {
                    return one(st, V::Str(s));
                }
            }
            Kind::HashMap | Kind::HashSet => {
                if let V::Map(m) = peel(e, st, &a[0]) {
                    return one(st, V::Map(m));
                }
            }
            Kind::Vec | Kind::BitVec => {
                if let Some((p, s, l)) = slice_parts(e, st, &a[0]) {
                    let v = e.read_ptr(st, &p);
                    match e.force(v) {
                        V::Seq(q) if s.as_const() == Some(0) && l.as_lin() == Some(q.len()) => return one(st, V::Seq(q)),
                        V::Agg(x) => {
                            if let (Some(s), Some(l)) = (s.as_const(), l.as_const()) {
                                let t: Vec<V> = x[s as usize..(s + l) as usize].to_vec();
                                return one(st, V::Seq(Rc::new(SeqV { tail: t, ..SeqV::empty(tyx::elem(ci.ret)?) })));
                            }
                        }
                        V::Seq(q) if q.base.is_none() => {
                            if let (Some(s), Some(l)) = (s.as_const(), l.as_const()) {
                                let t: Vec<V> = q.tail[s as usize..(s + l) as usize].to_vec();
                                return one(st, V::Seq(Rc::new(SeqV { tail: t, ..SeqV::empty(tyx::elem(ci.ret)?) })));
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    if let Some(o) = vec_model(e, st, ci, a, n) {
        return Some(o);
    }
    if let Some(o) = string_model(e, st, ci, a, n) {
        return Some(o);
    }
    map_model(e, st, ci, a, n)
}

fn vec_model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], n: &str) -> Option<Outs> {
    match n {
        "std::vec::Vec::push" | "std::vec::Vec::push_mut" | "std::vec::Vec::push_within_capacity" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            let v = V::Seq(Rc::new(push_seq(&s, a[1].clone())));
            let r = if n.ends_with("push") { V::unit() } else { sub_ref(&p, PE::I(V::lin(s.len(), 64))) };
            wr(e, st, &p, v, r)
        }
        "std::vec::Vec::pop" | "std::vec::Vec::pop_if" => {
            if n.ends_with("pop_if") {
                return None;
            }
            let (p, s) = seq_of(e, st, &a[0])?;
            let c = nonzero(e, st, &s.len());
            let mut out = vec![];
            if let Some(s2) = st.with(c) {
                let (q, v) = pop_seq(e, &s2, &s);
                let mut s3 = s2;
                e.write_ptr(&mut s3, &p, V::Seq(Rc::new(q)));
                out.push((s3, opt(ci.ret, Some(v))));
            }
            if let Some(s2) = st.with(bdd::not(c)) {
                out.push((s2, opt(ci.ret, None)));
            }
            Some(out)
        }
        "std::vec::Vec::len" => {
            let (_, s) = seq_of(e, st, &a[0])?;
            one(st, V::lin(s.len(), 64))
        }
        "std::vec::Vec::is_empty" => {
            let (_, s) = seq_of(e, st, &a[0])?;
            let c = nonzero(e, st, &s.len());
            one(st, boolv(bdd::not(c)))
        }
        "std::vec::Vec::clear" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            wr(e, st, &p, V::Seq(Rc::new(SeqV::empty(s.ty))), V::unit())
        }
        "std::vec::Vec::retain" | "std::vec::Vec::retain_mut" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            let fty = ci.arg_tys[1];
            let f = Filter { f: a[1].clone(), ty: fty, snap: st.clone(), depth: e.stack_inst.len() };
            let mut cases: Vec<(State, SeqV)> = vec![];
            match &s.base {
                Some((b, _)) if s.over.is_empty() => {
                    let nb = Sym::new(format!("kept({},{})", b.key(), e.filters.len()));
                    let mut fs = e.filters.get(b).cloned().unwrap_or_default();
                    fs.push(f.clone());
                    e.filters.insert(nb, fs);
                    cases.push((st.clone(), SeqV::unknown(s.ty, nb)));
                }
                Some(_) => return None,
                None => cases.push((st.clone(), SeqV::empty(s.ty))),
            }
            for x in &s.tail {
                let mut next: Vec<(State, SeqV)> = vec![];
                for (s1, q) in cases {
                    let k = e.keeps(&f, s1.pc, x.clone(), s.ty)?;
                    if let Some(s2) = s1.with(k) {
                        next.push((s2, push_seq(&q, x.clone())));
                    }
                    if let Some(s2) = s1.with(bdd::not(k)) {
                        next.push((s2, q));
                    }
                }
                cases = next;
            }
            let mut out = vec![];
            for (mut s1, q) in cases {
                e.write_ptr(&mut s1, &p, V::Seq(Rc::new(q)));
                out.push((s1, V::unit()));
            }
            Some(e.merge_outs(out))
        }
        "std::vec::Vec::remove" | "std::vec::Vec::swap_remove" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            let l = V::lin(s.len(), 64);
            let c = e.binop(st, BinOp::Lt, &a[1], &l, Ty::usize_ty()).0.as_bool()?;
            e.panic(bdd::and(st.pc, bdd::not(c)), "removal index out of bounds".into(), ci.at.clone());
            let mut s2 = st.with(c)?;
            let x = e.index_seq(&s2, &s, &a[1]);
            let q = match (&s.base, a[1].as_const()) {
                (None, Some(k)) => {
                    let mut q = (*s).clone();
                    if n.ends_with("swap_remove") {
                        q.tail.swap_remove(k as usize);
                    } else {
                        q.tail.remove(k as usize);
                    }
                    q
                }
                _ => SeqV { base: Some((fresh("¿removed"), s.len().plus(-1))), ..SeqV::empty(s.ty) },
            };
            e.write_ptr(&mut s2, &p, V::Seq(Rc::new(q)));
            Some(vec![(s2, x)])
        }
        "std::vec::Vec::reserve" | "std::vec::Vec::shrink_to_fit" => one(st, V::unit()),
        "std::vec::Vec::as_slice" | "std::vec::Vec::as_mut_slice" | "<std::vec::Vec as std::ops::Deref>::deref"
        | "<std::vec::Vec as std::ops::DerefMut>::deref_mut" | "<std::vec::Vec as std::convert::AsRef>::as_ref"
        | "<std::vec::Vec as std::borrow::Borrow>::borrow" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            one(st, mk_slice(&p, V::us(0), V::lin(s.len(), 64)))
        }
        "<std::vec::Vec as std::ops::Index>::index" | "<std::vec::Vec as std::ops::IndexMut>::index_mut" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            let sl = mk_slice(&p, V::us(0), V::lin(s.len(), 64));
            let it = ci.arg_tys[1];
            let m = match tyx::adt_last(it) {
                Some(x) => format!("<std::ops::{x} as std::slice::SliceIndex>::index"),
                None => "<usize as std::slice::SliceIndex>::index".into(),
            };
            let c2 = CallInfo {
                inst: ci.inst,
                name: m.clone(),
                stripped: m,
                at: ci.at.clone(),
                ret: ci.ret,
                arg_tys: vec![it, ci.arg_tys[0]],
            };
            crate::models::model(e, st, &c2, &[a[1].clone(), sl])
        }
        "<std::vec::Vec as std::iter::IntoIterator>::into_iter" => {
            let v = e.force(a[0].clone());
            let V::Seq(s) = v else { return None };
            let end = V::lin(s.len(), 64);
            one(st, V::It(Rc::new(IterV::Own { seq: s, i: V::us(0), end })))
        }
        "std::vec::Vec::append" => {
            let (p, s) = seq_of(e, st, &a[0])?;
            let (q, t) = seq_of(e, st, &a[1])?;
            if t.base.is_some() {
                return None;
            }
            let mut s2 = (*s).clone();
            s2.tail.extend(t.tail.iter().cloned());
            let mut s3 = st.clone();
            e.write_ptr(&mut s3, &p, V::Seq(Rc::new(s2)));
            e.write_ptr(&mut s3, &q, V::Seq(Rc::new(SeqV::empty(t.ty))));
            Some(vec![(s3, V::unit())])
        }
        "<std::vec::Vec as std::convert::From>::from" | "<std::boxed::Box as std::convert::From>::from" => {
            let v = e.force(a[0].clone());
            match v {
                V::Seq(s) => one(st, V::Seq(s)),
                V::Agg(x) if tyx::kind(ci.ret) == Kind::Vec => {
                    one(st, V::Seq(Rc::new(SeqV { tail: (*x).clone(), ..SeqV::empty(tyx::elem(ci.ret)?) })))
                }
                _ => None,
            }
        }
        // Boxes.
        "std::boxed::Box::new" | "std::boxed::Box::pin" | "std::rc::Rc::new" | "std::sync::Arc::new" => {
            let mut s = st.clone();
            let al = e.heap(&mut s, a[0].clone(), ci.arg_tys[0]);
            let r = mkref(al, vec![]);
            let r = if n.ends_with("pin") { V::agg(vec![r]) } else { r };
            Some(vec![(s, r)])
        }
        "std::boxed::Box::new_uninit" | "std::boxed::box_new_uninit" => {
            let mut s = st.clone();
            let t = targ(ci, 0)?;
            let al = e.heap(&mut s, V::Undef, t);
            Some(vec![(s, mkref(al, vec![]))])
        }
        "std::boxed::Box::assume_init" => one(st, a[0].clone()),
        "std::boxed::box_assume_init_into_vec_unsafe" => {
            let v = e.read_ref(st, &a[0]);
            match e.force(v) {
                V::Agg(x) => {
                    // MaybeUninit and ManuallyDrop are transparent; unwrap single wrappers.
                    let want = match targ(ci, 0).or(None) {
                        Some(_) => tyx::elem(ci.ret)?,
                        None => tyx::elem(ci.ret)?,
                    };
                    let nel = const_arg(ci);
                    let mut x = x;
                    // The union's initialised side, below its wrapper.
                    if x.len() == 2 && x[0] == V::Undef {
                        if let V::Agg(y) = &x[1] {
                            if let (1, V::Agg(z)) = (y.len(), &y[0]) {
                                x = z.clone();
                            }
                        }
                    }
                    while nel.map_or(false, |k| k as usize != x.len()) && x.len() == 1 {
                        match &x[0] {
                            V::Agg(y) => x = y.clone(),
                            _ => break,
                        }
                    }
                    one(st, V::Seq(Rc::new(SeqV { tail: (*x).clone(), ..SeqV::empty(want) })))
                }
                _ => None,
            }
        }
        "std::boxed::Box::write" => {
            let mut s = st.clone();
            e.write_ref(&mut s, &a[0], a[1].clone());
            Some(vec![(s, a[0].clone())])
        }
        "<std::boxed::Box as std::ops::Deref>::deref" | "<std::boxed::Box as std::ops::DerefMut>::deref_mut"
        | "<std::boxed::Box as std::convert::AsRef>::as_ref" | "<std::boxed::Box as std::convert::AsMut>::as_mut" => {
            let v = e.read_ref(st, &a[0]);
            one(st, v)
        }
        "std::ptr::NonNull::dangling" | "std::ptr::dangling" | "std::ptr::dangling_mut" | "std::ptr::null" | "std::ptr::null_mut" => {
            let t = tyx::pointee(ci.ret)?;
            let s = fresh("dangling");
            e.sym_ty.insert(s, t);
            one(st, mkref(AllocId::Sym(s), vec![]))
        }
        "<std::ptr::NonNull as std::convert::From>::from" | "std::ptr::NonNull::as_ref" | "std::ptr::NonNull::as_mut"
        | "std::ptr::NonNull::as_ptr" | "std::ptr::NonNull::new_unchecked" | "std::ptr::NonNull::from_ref"
        | "std::ptr::NonNull::from_mut" | "std::ptr::NonNull::cast" => {
            if n.ends_with("as_ref") || n.ends_with("as_mut") {
                let v = e.read_ref(st, &a[0]);
                return one(st, v);
            }
            one(st, a[0].clone())
        }
        _ => None,
    }
}
fn const_arg(ci: &CallInfo) -> Option<u64> {
    ci.inst.args().0.iter().find_map(|a| match a {
        GenericArgKind::Const(c) => c.eval_target_usize().ok(),
        _ => None,
    })
}

fn string_model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], n: &str) -> Option<Outs> {
    match n {
        "<std::string::String as std::convert::From>::from" | "<str as std::string::ToString>::to_string"
        | "<std::string::String as std::string::ToString>::to_string" | "<str as std::borrow::ToOwned>::to_owned"
        | "<str as std::string::SpecToString>::spec_to_string" | "std::str::<impl str>::to_owned"
        | "<std::string::String as std::str::FromStr>::from_str" | "std::string::String::into_string" => {
            let V::Str(s) = peel(e, st, &a[0]) else { return None };
            if n.ends_with("from_str") {
                return one(st, variant(ci.ret, 0, vec![V::Str(s)]));
            }
            one(st, V::Str(s))
        }
        "<T as std::string::ToString>::to_string" | "<T as std::string::SpecToString>::spec_to_string" => {
            let t = ci.arg_tys[0];
            let inner = tyx::pointee(t)?;
            if tyx::int_info(inner).is_some() || matches!(tyx::kind(inner), Kind::Str | Kind::String) {
                let s = display(e, st, &a[0]);
                return one(st, strv(s));
            }
            None
        }
        _ if n.ends_with("std::string::ToString>::to_string") || n.ends_with("std::string::SpecToString>::spec_to_string") => {
            let inner = tyx::pointee(ci.arg_tys[0])?;
            if tyx::int_info(inner).is_some() || matches!(tyx::kind(inner), Kind::Str | Kind::String) || matches!(tyx::rigid(inner), Some(RigidTy::Str)) {
                let s = display(e, st, &a[0]);
                return one(st, strv(s));
            }
            None
        }
        "std::string::String::push_str" => {
            let x = str_val(e, st, &a[1])?;
            append(e, st, &a[0], &x, V::unit())
        }
        "<std::string::String as std::fmt::Write>::write_str" => {
            let x = str_val(e, st, &a[1])?;
            append(e, st, &a[0], &x, ok_unit(ci.ret))
        }
        "<std::string::String as std::ops::AddAssign>::add_assign" => {
            let x = str_val(e, st, &a[1])?;
            append(e, st, &a[0], &x, V::unit())
        }
        "<std::string::String as std::ops::Add>::add" => {
            let mut s = str_val(e, st, &a[0])?;
            let x = str_val(e, st, &a[1])?;
            s.append(&x);
            one(st, strv(s))
        }
        "std::string::String::push" => {
            let c = e.force(a[1].clone());
            let x = match c.as_const() {
                Some(c) => StrV::lit(&char::from_u32(c as u32)?.to_string()),
                None => StrV(vec![Piece::Disp(c)]),
            };
            append(e, st, &a[0], &x, V::unit())
        }
        "std::string::String::clear" => {
            let p = e.deref(st, &a[0])?;
            wr(e, st, &p, strv(StrV::default()), V::unit())
        }
        "std::string::String::as_str" | "std::string::String::as_mut_str" | "<std::string::String as std::ops::Deref>::deref"
        | "<std::string::String as std::ops::DerefMut>::deref_mut" | "<std::string::String as std::convert::AsRef>::as_ref"
        | "<std::string::String as std::borrow::Borrow>::borrow" | "<str as std::convert::AsRef>::as_ref"
        | "<std::string::String as std::ops::Index>::index"
            if tyx::kind(ci.ret) == Kind::Str && a.len() == 1 =>
        {
            let V::Str(s) = peel(e, st, &a[0]) else { return None };
            one(st, V::Str(s))
        }
        "std::string::String::len" | "std::str::<impl str>::len" | "std::str::len" => {
            let V::Str(s) = peel(e, st, &a[0]) else { return None };
            one(st, V::lin(str_len(&s), 64))
        }
        "std::string::String::is_empty" | "std::str::<impl str>::is_empty" | "std::str::is_empty" => {
            let V::Str(s) = peel(e, st, &a[0]) else { return None };
            let c = nonzero(e, st, &str_len(&s));
            one(st, boolv(bdd::not(c)))
        }
        "std::fmt::rt::Argument::new_display" | "std::fmt::rt::Argument::new_debug" | "std::fmt::rt::Argument::new_lower_hex"
        | "std::fmt::rt::Argument::new_upper_hex" | "std::fmt::rt::Argument::new_octal" | "std::fmt::rt::Argument::new_binary" => {
            let v = peel(e, st, &a[0]);
            let v = deep(e, st, &v);
            if n.ends_with("new_display") {
                // A type's own Display implementation.
                let t = tyx::pointee(ci.arg_tys[0])?;
                let plain = |t: Ty| {
                    tyx::int_info(t).is_some() || matches!(tyx::kind(t), Kind::Str | Kind::String) || matches!(tyx::rigid(t), Some(RigidTy::Str))
                };
                let mut u = t;
                while !plain(u) {
                    match tyx::rigid(u) {
                        Some(RigidTy::Ref(_, p, _)) => u = p,
                        _ => return one(st, V::Obj("other", Rc::new(vec![v]))),
                    }
                }
                return one(st, V::Obj("disp", Rc::new(vec![v])));
            }
            if n.ends_with("new_debug") {
                return one(st, V::Obj("debug", Rc::new(vec![v])));
            }
            one(st, V::Obj("other", Rc::new(vec![v])))
        }
        "std::fmt::Arguments::new" => {
            let s = fmt_args(e, st, a)?;
            one(st, V::Obj("fmt", Rc::new(vec![strv(s)])))
        }
        "std::fmt::Arguments::from_str" | "std::fmt::Arguments::new_const" | "std::fmt::Arguments::from_str_nonconst" => {
            let s = str_val(e, st, &a[0])?;
            one(st, V::Obj("fmt", Rc::new(vec![strv(s)])))
        }
        "std::fmt::Arguments::as_str" | "std::fmt::Arguments::as_statically_known_str" => {
            let V::Obj("fmt", p) = peel(e, st, &a[0]) else { return None };
            let lit = matches!(&p[0], V::Str(s) if s.as_lit().is_some());
            if lit {
                return one(st, opt(ci.ret, Some(p[0].clone())));
            }
            one(st, opt(ci.ret, None))
        }
        "std::fmt::format" | "std::fmt::format::format_inner" | "std::alloc::fmt::format" => {
            let V::Obj("fmt", p) = e.force(a[0].clone()) else { return None };
            one(st, p[0].clone())
        }
        "std::fmt::Formatter::write_fmt" | "std::fmt::Formatter::write_str" | "<std::fmt::Formatter as std::fmt::Write>::write_str"
        | "<std::fmt::Formatter as std::fmt::Write>::write_fmt" | "std::fmt::Formatter::pad" | "<str as std::fmt::Display>::fmt"
        | "<std::string::String as std::fmt::Display>::fmt" | "std::fmt::write"
        | "<std::string::String as std::fmt::Write>::write_fmt" => {
            // The text goes to whatever string the formatter stands for.
            let (fm, tx) = if n.ends_with("Display>::fmt") { (&a[1], &a[0]) } else { (&a[0], &a[1]) };
            let s = match peel(e, st, tx) {
                V::Obj("fmt", p) => match &p[0] {
                    V::Str(s) => (**s).clone(),
                    _ => return None,
                },
                V::Str(s) => (*s).clone(),
                _ => return None,
            };
            let p = e.deref(st, fm)?;
            let cur = e.read_ptr(st, &p);
            match e.force(cur) {
                V::Str(_) => append(e, st, fm, &s, ok_unit(ci.ret)),
                _ => None,
            }
        }
        _ => None,
    }
}

fn map_model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], n: &str) -> Option<Outs> {
    let m = n.rsplit("::").next().unwrap_or("");
    let is_map = ["HashMap", "HashSet", "BTreeMap", "BTreeSet", "hash_map::", "btree_map::", "hash::map", "btree::map", "hash_set::", "btree_set::"]
        .iter()
        .any(|x| n.contains(x));
    if !is_map || a.is_empty() {
        return None;
    }
    if n.contains("Entry::") {
        return entry_model(e, st, ci, a, n, m);
    }
    if let Some((p, mv)) = map_at(e, st, &a[0]) {
        match m {
            "len" => return one(st, V::lin(mv.len.clone(), 64)),
            "is_empty" => {
                let c = nonzero(e, st, &mv.len);
                return one(st, boolv(bdd::not(c)));
            }
            "reserve" => return one(st, V::unit()),
            "get" | "get_mut" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                let r = if mv.vty.is_some() {
                    sub_ref(&p, PE::I(k))
                } else {
                    let mut s2 = st.clone();
                    let al = e.heap(&mut s2, k, mv.kty);
                    let r = mkref(al, vec![]);
                    return Some(pair_cases(e, &s2, has, ci.ret, r));
                };
                return Some(pair_cases(e, st, has, ci.ret, r));
            }
            "index" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                e.panic(bdd::and(st.pc, bdd::not(has)), "key not in map".into(), ci.at.clone());
                return st.with(has).map(|s| vec![(s, sub_ref(&p, PE::I(k)))]);
            }
            "contains_key" | "contains" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                return one(st, boolv(has));
            }
            "insert" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                let val = if mv.vty.is_some() { a[2].clone() } else { V::unit() };
                let mut out = vec![];
                if let Some(s) = st.with(has) {
                    let old = map_value(e, &s, &mv, &k);
                    let nm = map_insert(e, &s, &mv, &k, val.clone(), true);
                    let mut s2 = s;
                    if mv.vty.is_some() {
                        e.write_ptr(&mut s2, &p, nm);
                    }
                    let r = if mv.vty.is_some() { opt(ci.ret, Some(old)) } else { V::C(0, 1) };
                    out.push((s2, r));
                }
                if let Some(s) = st.with(bdd::not(has)) {
                    let nm = map_insert(e, &s, &mv, &k, val, false);
                    let mut s2 = s;
                    e.write_ptr(&mut s2, &p, nm);
                    let r = if mv.vty.is_some() { opt(ci.ret, None) } else { V::C(1, 1) };
                    out.push((s2, r));
                }
                return Some(out);
            }
            "remove" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                let mut out = vec![];
                if let Some(s) = st.with(has) {
                    let old = map_value(e, &s, &mv, &k);
                    let V::Map(nm) = map_set(e, &s, &mv, &k, V::Undef) else { unreachable!() };
                    let mut nm = (*nm).clone();
                    nm.len = nm.len.plus(-1);
                    let mut s2 = s;
                    e.write_ptr(&mut s2, &p, V::Map(Rc::new(nm)));
                    let r = if mv.vty.is_some() { opt(ci.ret, Some(old)) } else { V::C(1, 1) };
                    out.push((s2, r));
                }
                if let Some(s) = st.with(bdd::not(has)) {
                    let r = if mv.vty.is_some() { opt(ci.ret, None) } else { V::C(0, 1) };
                    out.push((s, r));
                }
                return Some(out);
            }
            "clear" => {
                let nm = MapV { base: None, len: Lin::k(0), absent: vec![], ents: vec![], dirty: None, ..(*mv).clone() };
                return wr(e, st, &p, V::Map(Rc::new(nm)), V::unit());
            }
            "entry" => {
                let k = keyv(e, st, &a[1]);
                let has = map_has(e, st, &mv, &k);
                let (occ, vac) = entry_variants(ci.ret)?;
                let ent = V::Obj("entry", Rc::new(vec![V::Ref(Rc::new(p)), k]));
                let mut out = vec![];
                if let Some(s) = st.with(has) {
                    out.push((s, variant(ci.ret, occ, vec![ent.clone()])));
                }
                if let Some(s) = st.with(bdd::not(has)) {
                    out.push((s, variant(ci.ret, vac, vec![ent])));
                }
                return Some(out);
            }
            _ => {}
        }
    }
    None
}
fn entry_model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], n: &str, m: &str) -> Option<Outs> {
    let v = peel(e, st, &a[0]);
    if let (V::En(x), "or_insert" | "or_insert_with" | "or_default") = (&v, m) {
        let (occ, vac) = entry_variants(ci.arg_tys[0])?;
        let mut out = vec![];
        for (var, is) in [(occ, true), (vac, false)] {
            let d = e.v_eq_const(st, &x.disc, var as u128);
            let Some(s) = st.with(d) else { continue };
            let ent = x.pay.get(&var)?.first()?.clone();
            let V::Obj("entry", p) = peel(e, &s, &ent) else { return None };
            let (mp, mv) = map_at(e, &s, &p[0])?;
            let slot = sub_ref(&mp, PE::I(p[1].clone()));
            if is {
                out.push((s, slot));
                continue;
            }
            let vt = mv.vty?;
            let vals: Outs = match m {
                "or_insert" => vec![(s, a[1].clone())],
                "or_default" => match tyx::kind(vt) {
                    Kind::Vec | Kind::BitVec => vec![(s, V::Seq(Rc::new(SeqV::empty(tyx::elem(vt)?))))],
                    Kind::HashMap | Kind::HashSet => vec![(s, empty_map(vt))],
                    Kind::String => vec![(s, strv(StrV::default()))],
                    _ => return None,
                },
                _ => e.call_value(&a[1], ci.arg_tys[1], vec![], vec![], vt, s)?,
            };
            for (s2, val) in vals {
                let (mp, mv) = map_at(e, &s2, &p[0])?;
                let nm = map_insert(e, &s2, &mv, &p[1], val, false);
                let mut s3 = s2;
                e.write_ptr(&mut s3, &mp, nm);
                out.push((s3, slot.clone()));
            }
        }
        return Some(e.merge_outs(out));
    }
    let V::Obj("entry", p) = &v else { return None };
    let (r, k) = (p[0].clone(), p[1].clone());
    let (mp, mv) = map_at(e, st, &r)?;
    let slot = sub_ref(&mp, PE::I(k.clone()));
    let occ = n.contains("OccupiedEntry");
    match m {
        "get" | "get_mut" | "into_mut" if occ => one(st, slot),
        "key" => {
            let mut s = st.clone();
            let al = e.heap(&mut s, k, mv.kty);
            Some(vec![(s, mkref(al, vec![]))])
        }
        "insert" if occ => {
            let old = map_value(e, st, &mv, &k);
            let nm = map_insert(e, st, &mv, &k, a[1].clone(), true);
            wr(e, st, &mp, nm, old)
        }
        "insert" | "insert_entry" if n.contains("VacantEntry") => {
            let nm = map_insert(e, st, &mv, &k, a[1].clone(), false);
            let r = if m == "insert" { slot } else { v.clone() };
            wr(e, st, &mp, nm, r)
        }
        _ => None,
    }
}
#[allow(dead_code)]
fn unused(_: BinOp, _: BTreeMap<u8, u8>) {}
