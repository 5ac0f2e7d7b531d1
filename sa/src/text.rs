//! Text: an unknown string is a range of a root in which every offset has one named
//! character (any non-ASCII value where the byte there is not ASCII).
use crate::bdd::{self, Bdd};
use crate::interp::*;
use crate::models::*;
use crate::models2::peel;
use crate::tyx;
use crate::val::*;
use rustc_public::ty::{RigidTy, Ty};
use std::collections::HashMap;
use std::rc::Rc;

/// The character at an offset, 32 bits wide.
pub fn chr(root: Sym, off: &Lin) -> V {
    let k = format!("chr({}@{off:?})", root.key());
    let mut b: Bits = (0..21).map(|i| bdd::named(format!("{k}[{i}]"))).collect();
    b.resize(32, bdd::F);
    mk_bits(b)
}
pub fn is_ascii(root: Sym, off: &Lin) -> Bdd {
    let b = chr(root, off).bits().unwrap();
    b[7..21].iter().fold(bdd::T, |c, x| bdd::and(c, bdd::not(*x)))
}
pub fn chr_is(root: Sym, off: &Lin, c: char) -> Bdd {
    let b = chr(root, off).bits().unwrap();
    (0..32).fold(bdd::T, |a, i| bdd::and(a, if c as u32 >> i & 1 == 1 { b[i] } else { bdd::not(b[i]) }))
}
/// The byte at an offset.
pub fn byte(root: Sym, off: &Lin) -> V {
    let asc = is_ascii(root, off);
    let c = chr(root, off).bits().unwrap();
    let k = format!("raw({}@{off:?})", root.key());
    let mut b: Bits = (0..7).map(|i| bdd::ite(asc, c[i], bdd::named(format!("{k}[{i}]")))).collect();
    b.push(bdd::not(asc));
    mk_bits(b)
}
fn single(s: &StrV) -> Option<(Sym, Lin, Lin)> {
    match s.0.as_slice() {
        [Piece::Sub(r, a, b)] => Some((*r, a.clone(), b.clone())),
        [Piece::Unk(u)] => Some((*u, Lin::k(0), str_len(s))),
        _ => None,
    }
}
fn sub(r: Sym, a: Lin, b: Lin) -> V {
    if a == b {
        return V::Str(Rc::new(StrV::default()));
    }
    V::Str(Rc::new(StrV(vec![Piece::Sub(r, a, b)])))
}
/// The first character and what follows it, or nothing.
pub fn first(e: &mut Eng, st: &State, s: &StrV) -> Option<Vec<(State, Option<(V, StrV)>)>> {
    let rest = StrV(s.0.get(1..).unwrap_or(&[]).to_vec());
    match s.0.first() {
        None => Some(vec![(st.clone(), None)]),
        Some(Piece::Lit(t)) => {
            let c = t.chars().next()?;
            let mut q = StrV::lit(&t[c.len_utf8()..]);
            q.append(&rest);
            Some(vec![(st.clone(), Some((V::C(c as u128, 32), q)))])
        }
        Some(Piece::Sub(..) | Piece::Unk(_)) => {
            let (r, a, b) = single(&StrV(vec![s.0[0].clone()]))?;
            let none = e.dom.le0(st.pc, &b.sub(&a));
            let mut out = vec![];
            let follow = |x: Lin| {
                let mut q = StrV::default();
                if x != b {
                    q.push(Piece::Sub(r, x, b.clone()));
                }
                q.append(&rest);
                q
            };
            if let Some(s1) = st.with(bdd::not(none)) {
                let asc = is_ascii(r, &a);
                let c = chr(r, &a);
                if let Some(b) = c.bits() {
                    e.chars.insert(b, (r, a.clone()));
                }
                if let Some(s2) = s1.with(asc) {
                    out.push((s2, Some((c.clone(), follow(a.plus(1))))));
                }
                if let Some(s2) = s1.with(bdd::not(asc)) {
                    let w = Sym::ranged(format!("width({}@{a:?})", r.key()), 2, 4);
                    let x = a.add(&Lin::s(w));
                    let fits = e.dom.le0(s2.pc, &x.sub(&b));
                    if let Some(s3) = s2.with(fits) {
                        e.bounds.insert((r, x.clone()));
                        out.push((s3, Some((c, follow(x)))));
                    }
                }
            }
            if let Some(s1) = st.with(none) {
                if rest.0.is_empty() {
                    out.push((s1, None));
                } else {
                    out.extend(first(e, &s1, &rest)?);
                }
            }
            Some(out)
        }
        Some(Piece::Disp(_)) => None,
    }
}
/// Whether an offset lies between characters; `a` and `b` do.
fn boundary(e: &mut Eng, pc: Bdd, r: Sym, a: &Lin, b: &Lin, x: &Lin, depth: usize) -> Bdd {
    if x == a || x == b || x.is_const() == Some(0) || e.bounds.contains(&(r, x.clone())) || x.t.len() == 1 && x.c == 0 && x.t[0].0.key() == format!("len({})", r.key()) {
        return bdd::T;
    }
    let mut ends = e.dom.eq0(pc, &x.sub(b));
    let at_a = e.dom.eq0(pc, &x.sub(a));
    ends = bdd::or(ends, at_a);
    if depth == 0 {
        return bdd::or(ends, bdd::named(format!("¿boundary({}@{x:?})", r.key())));
    }
    let prev = x.plus(-1);
    let p = boundary(e, pc, r, a, b, &prev, depth - 1);
    let asc = is_ascii(r, &prev);
    // A place at a fixed distance inside a character may or may not be the next one's start:
    // that is up to the text.
    let free = x.sub(a).is_const().is_some();
    let unk = bdd::named(format!("{}boundary({}@{x:?})", if free { "" } else { "¿" }, r.key()));
    // After a boundary: exactly when the character there is ASCII; elsewhere unknown.
    bdd::or(ends, bdd::ite(p, asc, unk))
}
#[derive(Clone, Copy, PartialEq)]
enum How {
    Checked,
    Get,
    Trust,
}
/// `[from, to)` of a string, by byte offsets.
fn slice(e: &mut Eng, st: &State, ci: &CallInfo, s: &StrV, from: Option<V>, to: Option<V>, how: How) -> Option<Outs> {
    if let Some(t) = s.as_lit() {
        let x = from.map_or(Some(0), |v| e.force(v).as_const())? as usize;
        let y = to.map_or(Some(t.len() as u128), |v| e.force(v).as_const())? as usize;
        return match (t.get(x..y), how) {
            (Some(t), How::Get) => one(st, opt(ci.ret, Some(V::Str(Rc::new(StrV::lit(t)))))),
            (Some(t), _) => one(st, V::Str(Rc::new(StrV::lit(t)))),
            (None, How::Get) => one(st, opt(ci.ret, None)),
            (None, _) => {
                e.panic(st.pc, "string slice out of range".into(), ci.at.clone());
                Some(vec![])
            }
        };
    }
    let (r, a, b) = single(s)?;
    let x = match from {
        None => a.clone(),
        Some(v) => a.add(&e.lin_of(&v)?),
    };
    let y = match to {
        None => b.clone(),
        Some(v) => a.add(&e.lin_of(&v)?),
    };
    let mut ok = bdd::T;
    if how != How::Trust {
        let c1 = e.dom.le0(st.pc, &x.sub(&y));
        let c2 = e.dom.le0(st.pc, &y.sub(&b));
        ok = bdd::and(c1, c2);
        let pc = bdd::and(st.pc, ok);
        if pc != bdd::F {
            let c3 = boundary(e, pc, r, &a, &b, &x, 6);
            let c4 = boundary(e, pc, r, &a, &b, &y, 6);
            ok = bdd::and(ok, bdd::and(c3, c4));
        }
    }
    let v = sub(r, x, y);
    let mut out = vec![];
    match how {
        How::Checked => {
            let bad = bdd::and(st.pc, bdd::not(ok));
            e.panic(bad, "string slice out of range or not between characters".into(), ci.at.clone());
            if let Some(s) = st.with(ok) {
                out.push((s, v));
            }
        }
        How::Trust => out.push((st.clone(), v)),
        How::Get => {
            if let Some(s) = st.with(ok) {
                out.push((s, opt(ci.ret, Some(v))));
            }
            if let Some(s) = st.with(bdd::not(ok)) {
                out.push((s, opt(ci.ret, None)));
            }
        }
    }
    Some(out)
}
fn one(st: &State, v: V) -> Option<Outs> {
    Some(vec![(st.clone(), v)])
}

/// What is searched for.
enum Pat {
    /// Over the variables of `probe`.
    Pred(Bdd),
    Text(String),
}
fn probe() -> V {
    let mut b: Bits = (0..21).map(|i| bdd::named(format!("probe[{i}]"))).collect();
    b.resize(32, bdd::F);
    mk_bits(b)
}
fn at_probe(p: Bdd, c: &V) -> Bdd {
    let pb = probe().bits().unwrap();
    let cb = c.bits().unwrap();
    let m: HashMap<u32, Bdd> = (0..21).map(|i| (bdd::top_var(pb[i]), cb[i])).collect();
    bdd::compose(p, &m)
}
pub fn one_of(cs: &[char]) -> Bdd {
    let b = probe().bits().unwrap();
    let mut r = bdd::F;
    for c in cs {
        let k = (0..21).fold(bdd::T, |a, i| bdd::and(a, if *c as u32 >> i & 1 == 1 { b[i] } else { bdd::not(b[i]) }));
        r = bdd::or(r, k);
    }
    r
}
fn pattern(e: &mut Eng, st: &State, v: &V, ty: Ty) -> Option<Pat> {
    if tyx::is_char(ty) {
        let c = e.force(v.clone()).as_const()?;
        return Some(Pat::Pred(one_of(&[char::from_u32(c as u32)?])));
    }
    if let V::Str(s) = peel(e, st, v) {
        let t = s.as_lit()?;
        let mut i = t.chars();
        if let (Some(c), None) = (i.next(), i.next()) {
            return Some(Pat::Pred(one_of(&[c])));
        }
        return Some(Pat::Text(t));
    }
    let mut t = ty;
    while let Some(p) = tyx::pointee(t) {
        t = p;
    }
    match t.kind() {
        rustc_public::ty::TyKind::RigidTy(RigidTy::Array(..) | RigidTy::Slice(_)) => {
            let mut x = v.clone();
            for _ in 0..3 {
                if let V::Ref(p) = e.force(x.clone()) {
                    let mut p = (*p).clone();
                    p.meta = None;
                    x = e.read_ptr(st, &p);
                }
            }
            let cs: Vec<char> = match e.force(x) {
                V::Agg(a) => a.iter().map(|c| e.force(c.clone()).as_const().and_then(|c| char::from_u32(c as u32))).collect::<Option<_>>()?,
                _ => return None,
            };
            Some(Pat::Pred(one_of(&cs)))
        }
        rustc_public::ty::TyKind::RigidTy(RigidTy::Closure(..) | RigidTy::FnDef(..)) => {
            let s = State { pc: bdd::T, ..st.clone() };
            let np = e.panics.len();
            let c = rustc_public::ty::Ty::from_rigid_kind(RigidTy::Char);
            let mut f = v.clone();
            if tyx::pointee(ty).is_none() && matches!(t.kind(), rustc_public::ty::TyKind::RigidTy(RigidTy::Closure(..))) {
                // Closures take themselves by reference.
                let mut s2 = s.clone();
                let h = e.heap(&mut s2, f, t);
                f = mkref(h, vec![]);
                let outs = e.call_value(&f, t, vec![probe()], vec![c], Ty::bool_ty(), s2);
                e.panics.truncate(np);
                return truth(e, outs?);
            }
            let outs = e.call_value(&f, t, vec![probe()], vec![c], Ty::bool_ty(), s);
            e.panics.truncate(np);
            truth(e, outs?)
        }
        _ => None,
    }
}
fn truth(e: &mut Eng, outs: Outs) -> Option<Pat> {
    let mut k = bdd::F;
    for (s, v) in outs {
        k = bdd::or(k, bdd::and(s.pc, e.force(v).as_bool()?));
    }
    Some(Pat::Pred(k))
}
/// Whether a string begins with a literal.
pub fn prefix(e: &mut Eng, pc: Bdd, s: &StrV, t: &str) -> Option<Bdd> {
    if t.is_empty() {
        return Some(bdd::T);
    }
    if let Some(x) = s.as_lit() {
        return Some(if x.starts_with(t) { bdd::T } else { bdd::F });
    }
    if let Some(Piece::Lit(x)) = s.0.first() {
        let n = x.len().min(t.len());
        if x.as_bytes()[..n] != t.as_bytes()[..n] {
            return Some(bdd::F);
        }
        return prefix(e, pc, &StrV(s.0[1..].to_vec()), &t[n..]);
    }
    let (r, a, b) = single(s)?;
    let mut c = e.dom.le0(pc, &a.plus(t.len() as i128).sub(&b));
    for (i, x) in t.char_indices() {
        c = bdd::and(c, chr_is(r, &a.plus(i as i128), x));
    }
    Some(c)
}
pub fn equals(e: &mut Eng, pc: Bdd, s: &StrV, t: &str) -> Option<Bdd> {
    let p = prefix(e, pc, s, t)?;
    if s.as_lit().is_some() {
        return Some(if s.as_lit().unwrap() == t { bdd::T } else { bdd::F });
    }
    let l = e.dom.eq0(pc, &str_len(s).plus(-(t.len() as i128)));
    Some(bdd::and(p, l))
}
/// Where a character with a property is first (or last) found: the absolute offset.
pub fn find_named(e: &mut Eng, pc: Bdd, r: Sym, a: &Lin, b: &Lin, p: Bdd, last: bool) -> (Bdd, Lin, Bdd) {
    let w = if last { "rfind" } else { "find" };
    // Leading ASCII characters known not to match are skipped, so that equal searches are named alike.
    let mut a = a.clone();
    for _ in 0..8 {
        let live = e.dom.le0(pc, &a.plus(1).sub(b));
        let no = bdd::and(is_ascii(r, &a), bdd::not(at_probe(p, &chr(r, &a))));
        if last || bdd::and(pc, bdd::not(bdd::and(live, no))) != bdd::F {
            break;
        }
        a = a.plus(1);
    }
    let a = &a;
    let k = format!("{w}({}@{a:?}..{b:?} #{})", r.key(), key_of(p));
    let found = bdd::named(format!("found({}@{a:?}..{b:?} #{})", r.key(), key_of(p)));
    let j = Lin::s(Sym::ranged(k, 0, i64::MAX as i128));
    e.bounds.insert((r, j.clone()));
    let some = {
        let x = e.dom.le0(pc, &a.sub(&j));
        let y = e.dom.le0(pc, &j.plus(1).sub(b));
        let here = at_probe(p, &chr(r, &j));
        let mut c = bdd::and(bdd::and(x, y), here);
        if !last {
            let at = e.dom.le0(bdd::and(pc, c), &j.sub(a));
            c = bdd::and(c, bdd::iff(at, at_probe(p, &chr(r, a))));
        }
        c
    };
    let none = {
        let x = e.dom.le0(pc, &b.sub(a));
        bdd::or(x, bdd::not(at_probe(p, &chr(r, a))))
    };
    let facts = bdd::or(bdd::and(found, some), bdd::and(bdd::not(found), none));
    (found, j, facts)
}
/// A canonical description of a predicate over the probe.
pub fn key_of(p: Bdd) -> String {
    let mut out = vec![];
    let mut f = p;
    // Sets of up to eight characters are written out.
    while f != bdd::F && out.len() < 8 {
        let sup = bdd::support(f);
        if sup.iter().any(|v| !matches!(bdd::var_atom(*v), bdd::Atom::Named(n) if n.starts_with("probe["))) {
            break;
        }
        let Some(m) = bdd::any_sat(f) else { break };
        let mut c = 0u32;
        let b = probe().bits().unwrap();
        let vars: Vec<u32> = (0..21).map(|i| bdd::top_var(b[i])).collect();
        for (v, x) in m {
            if let (Some(i), true) = (vars.iter().position(|y| *y == v), x) {
                c |= 1 << i;
            }
        }
        let cube = (0..21).fold(bdd::T, |a, i| bdd::and(a, if c >> i & 1 == 1 { b[i] } else { bdd::not(b[i]) }));
        f = bdd::and(f, bdd::not(cube));
        out.push(c);
    }
    if f == bdd::F {
        out.sort();
        format!("{out:?}")
    } else {
        format!("pred{p}")
    }
}
/// Searches; the offset is relative to the start of the string.
fn find(e: &mut Eng, st: &State, s: &StrV, p: &Pat, last: bool) -> Option<Vec<(State, Option<Lin>)>> {
    if let (Some(t), Pat::Text(x)) = (s.as_lit(), p) {
        let i = if last { t.rfind(x.as_str()) } else { t.find(x.as_str()) };
        return Some(vec![(st.clone(), i.map(|i| Lin::k(i as i128)))]);
    }
    if let (Some(t), Pat::Pred(x)) = (s.as_lit(), p) {
        let mut out = vec![];
        let mut cur = st.clone();
        let mut cs: Vec<(usize, char)> = t.char_indices().collect();
        if last {
            cs.reverse();
        }
        for (i, c) in cs {
            let q = at_probe(*x, &V::C(c as u128, 32));
            if let Some(s) = cur.with(q) {
                out.push((s, Some(Lin::k(i as i128))));
            }
            match cur.with(bdd::not(q)) {
                Some(s) => cur = s,
                None => return Some(out),
            }
        }
        out.push((cur, None));
        return Some(out);
    }
    let (r, a, b) = single(s)?;
    match p {
        Pat::Pred(x) => {
            let (found, j, facts) = find_named(e, st.pc, r, &a, &b, *x, last);
            let mut out = vec![];
            if let Some(s) = st.with(bdd::and(found, facts)) {
                out.push((s, Some(j.sub(&a))));
            }
            if let Some(s) = st.with(bdd::and(bdd::not(found), facts)) {
                out.push((s, None));
            }
            Some(out)
        }
        Pat::Text(t) => {
            let w = if last { "rfind" } else { "find" };
            let k = format!("({}@{a:?}..{b:?} {t:?})", r.key());
            let found = bdd::named(format!("found{k}"));
            let j = Lin::s(Sym::ranged(format!("{w}{k}"), 0, i64::MAX as i128));
            e.bounds.insert((r, j.clone()));
            let x = e.dom.le0(st.pc, &a.sub(&j));
            let h = prefix(e, st.pc, &StrV(vec![Piece::Sub(r, j.clone(), b.clone())]), t)?;
            let here = prefix(e, st.pc, s, t)?;
            let mut out = vec![];
            let at = e.dom.le0(st.pc, &j.sub(&a));
            let link = if last { bdd::T } else { bdd::iff(at, here) };
            if let Some(s) = st.with(bdd::and(bdd::and(found, link), bdd::and(x, h))) {
                out.push((s, Some(j.sub(&a))));
            }
            if let Some(s) = st.with(bdd::and(bdd::not(found), bdd::not(here))) {
                out.push((s, None));
            }
            Some(out)
        }
    }
}
fn starts(e: &mut Eng, st: &State, s: &StrV, p: &Pat) -> Option<Bdd> {
    match p {
        Pat::Text(t) => prefix(e, st.pc, s, t),
        Pat::Pred(x) => {
            let mut c = bdd::F;
            for (s, f) in first(e, st, s)? {
                if let Some((ch, _)) = f {
                    c = bdd::or(c, bdd::and(s.pc, at_probe(*x, &ch)));
                }
            }
            Some(c)
        }
    }
}
/// Byte range ends of a range value: `a..b`, `..b`, `a..`, `..`, `..=`.
fn range_of(e: &mut Eng, ty: Ty, v: &V) -> Option<(Option<V>, Option<V>)> {
    let n = tyx::adt_path(ty)?;
    let parts = match e.force(v.clone()) {
        V::Agg(a) => a.iter().map(|x| e.force(x.clone())).collect::<Vec<_>>(),
        _ => vec![],
    };
    if n.ends_with("RangeFull") {
        return Some((None, None));
    }
    if n.ends_with("RangeFrom") {
        return Some((Some(parts.first()?.clone()), None));
    }
    if n.ends_with("RangeToInclusive") {
        let y = e.lin_of(parts.first()?)?;
        return Some((None, Some(V::lin(y.plus(1), 64))));
    }
    if n.ends_with("RangeTo") {
        return Some((None, Some(parts.first()?.clone())));
    }
    if n.ends_with("RangeInclusive") {
        let y = e.lin_of(parts.get(1)?)?;
        return Some((Some(parts[0].clone()), Some(V::lin(y.plus(1), 64))));
    }
    if n.ends_with("Range") {
        return Some((Some(parts.first()?.clone()), Some(parts.get(1)?.clone())));
    }
    None
}
fn strv(s: StrV) -> V {
    V::Str(Rc::new(s))
}
fn text_of(e: &mut Eng, st: &State, v: &V) -> Option<StrV> {
    match peel(e, st, v) {
        V::Str(s) => Some((*s).clone()),
        _ => None,
    }
}

pub fn model(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V]) -> Option<Outs> {
    if ci.stripped.ends_with("::len_utf8") {
        // The length of a character of a text: what it takes up there.
        let c = e.force(a[0].clone()).bits()?;
        let (r, at) = e.chars.get(&c)?.clone();
        let asc = is_ascii(r, &at);
        let mut out = vec![];
        if let Some(s) = st.with(asc) {
            out.push((s, V::us(1)));
        }
        if let Some(s) = st.with(bdd::not(asc)) {
            let w = Sym::ranged(format!("width({}@{at:?})", r.key()), 2, 4);
            out.push((s, V::lin(Lin::s(w), 64)));
        }
        return Some(out);
    }
    let n = ci.stripped.as_str();
    let Some(m) = n.strip_prefix("std::str::<impl str>::").or(n.strip_prefix("std::str::")) else {
        return traits(e, st, ci, a, n);
    };
    if let Some(m) = m.strip_prefix("traits::").or(m.strip_prefix("<impl str>::")) {
        // Slicing: the range comes first, or second.
        let how = match m {
            "get" => How::Get,
            "get_unchecked" => How::Trust,
            "index" => How::Checked,
            "eq" | "ne" => {
                let (x, y) = (text_of(e, st, a.first()?)?, text_of(e, st, a.get(1)?)?);
                let same = crate::models::str_eq(e, st, &strv(x), &strv(y));
                return one(st, V::B(Rc::new(vec![if m == "eq" { same } else { bdd::not(same) }])));
            }
            _ => return None,
        };
        for (s, r) in [(1, 0), (0, 1)] {
            if let (Some(t), Some((x, y))) = (text_of(e, st, a.get(s)?), range_of(e, *ci.arg_tys.get(r)?, &a[r])) {
                return slice(e, st, ci, &t, x, y, how);
            }
        }
        return None;
    }
    if m.contains("::") {
        return traits(e, st, ci, a, n);
    }
    let s = text_of(e, st, a.first()?)?;
    match m {
        "chars" => one(st, V::It(Rc::new(IterV::Chars { s: Rc::new(s), bytes: false, idx: None }))),
        "char_indices" => one(st, V::It(Rc::new(IterV::Chars { s: Rc::new(s), bytes: false, idx: Some(V::us(0)) }))),
        "as_bytes" | "bytes" => {
            let b = bytes(e, &s)?;
            if m == "bytes" {
                let V::Ref(p) = &b else { return None };
                let (i, l) = p.meta.clone()?;
                let end = e.vadd(&i, &l);
                let q = Ptr { alloc: p.alloc.clone(), path: vec![], meta: None };
                let it = V::It(Rc::new(IterV::Slice { ptr: q, i, end, mutbl: false }));
                return one(st, V::agg(vec![V::agg(vec![it])]));
            }
            one(st, b)
        }
        "is_char_boundary" => {
            let (r, x, y) = single(&s)?;
            let k = x.add(&e.lin_of(&a[1])?);
            let inside = e.dom.le0(st.pc, &k.sub(&y));
            let pc = bdd::and(st.pc, inside);
            let c = boundary(e, pc, r, &x, &y, &k, 6);
            one(st, boolv(bdd::and(inside, c)))
        }
        "get" => {
            let (x, y) = range_of(e, ci.arg_tys[1], &a[1])?;
            slice(e, st, ci, &s, x, y, How::Get)
        }
        "get_unchecked" => {
            let (x, y) = range_of(e, ci.arg_tys[1], &a[1])?;
            slice(e, st, ci, &s, x, y, How::Trust)
        }
        "slice_unchecked" => slice(e, st, ci, &s, Some(a[1].clone()), Some(a[2].clone()), How::Trust),
        "split_at" => {
            let k = e.force(a[1].clone());
            let mut out = vec![];
            for (s1, l) in slice(e, st, ci, &s, None, Some(k.clone()), How::Checked)? {
                for (s2, r) in slice(e, &s1, ci, &s, Some(k.clone()), None, How::Trust)? {
                    out.push((s2, V::agg(vec![l.clone(), r])));
                }
            }
            Some(out)
        }
        "find" | "rfind" | "contains" | "split_once" => {
            let p = pattern(e, st, &a[1], ci.arg_tys[1])?;
            let mut out = vec![];
            for (s1, i) in find(e, st, &s, &p, m == "rfind")? {
                match m {
                    "contains" => out.push((s1, boolv(if i.is_some() { bdd::T } else { bdd::F }))),
                    "split_once" => match i {
                        None => out.push((s1, opt(ci.ret, None))),
                        Some(i) => {
                            let Pat::Pred(x) = &p else { return None };
                            // One ASCII character separates.
                            let b = probe().bits().unwrap();
                            let high = b[7..21].iter().fold(bdd::F, |c, y| bdd::or(c, *y));
                            if bdd::and(*x, high) != bdd::F {
                                return None;
                            }
                            let to = V::lin(i.clone(), 64);
                            let from = V::lin(i.plus(1), 64);
                            for (s2, l) in slice(e, &s1, ci, &s, None, Some(to.clone()), How::Trust)? {
                                for (s3, r) in slice(e, &s2, ci, &s, Some(from.clone()), None, How::Trust)? {
                                    out.push((s3, opt(ci.ret, Some(V::agg(vec![l.clone(), r])))));
                                }
                            }
                        }
                    },
                    _ => out.push((s1, opt(ci.ret, i.map(|i| V::lin(i, 64))))),
                }
            }
            Some(if m == "contains" { e.merge_outs(out) } else { out })
        }
        "starts_with" => {
            let p = pattern(e, st, &a[1], ci.arg_tys[1])?;
            let c = starts(e, st, &s, &p)?;
            one(st, boolv(c))
        }
        "ends_with" => {
            let p = pattern(e, st, &a[1], ci.arg_tys[1])?;
            let (r, x, y) = single(&s)?;
            let t = match p {
                Pat::Pred(p) => {
                    let b = probe().bits().unwrap();
                    let high = b[7..21].iter().fold(bdd::F, |c, y| bdd::or(c, *y));
                    if bdd::and(p, high) != bdd::F {
                        return None;
                    }
                    let l = e.dom.le0(st.pc, &x.plus(1).sub(&y));
                    bdd::and(l, at_probe(p, &chr(r, &y.plus(-1))))
                }
                Pat::Text(t) => {
                    let l = e.dom.le0(st.pc, &x.plus(t.len() as i128).sub(&y));
                    let k = y.plus(-(t.len() as i128));
                    let h = prefix(e, st.pc, &StrV(vec![Piece::Sub(r, k, y)]), &t)?;
                    bdd::and(l, h)
                }
            };
            one(st, boolv(t))
        }
        "strip_prefix" => {
            let p = pattern(e, st, &a[1], ci.arg_tys[1])?;
            let mut out = vec![];
            match &p {
                Pat::Text(t) => {
                    let c = prefix(e, st.pc, &s, t)?;
                    if let Some(s1) = st.with(c) {
                        for (s2, v) in slice(e, &s1, ci, &s, Some(V::us(t.len() as u128)), None, How::Trust)? {
                            out.push((s2, opt(ci.ret, Some(v))));
                        }
                    }
                    if let Some(s1) = st.with(bdd::not(c)) {
                        out.push((s1, opt(ci.ret, None)));
                    }
                }
                Pat::Pred(x) => {
                    for (s1, f) in first(e, st, &s)? {
                        let (c, rest) = match f {
                            None => (bdd::F, StrV::default()),
                            Some((ch, rest)) => (at_probe(*x, &ch), rest),
                        };
                        if let Some(s2) = s1.with(c) {
                            out.push((s2, opt(ci.ret, Some(strv(rest)))));
                        }
                        if let Some(s2) = s1.with(bdd::not(c)) {
                            out.push((s2, opt(ci.ret, None)));
                        }
                    }
                }
            }
            Some(out)
        }
        "is_ascii" => {
            if let Some(t) = s.as_lit() {
                return one(st, boolv(if t.is_ascii() { bdd::T } else { bdd::F }));
            }
            let (r, x, y) = single(&s)?;
            one(st, boolv(bdd::named(format!("ascii({}@{x:?}..{y:?})", r.key()))))
        }
        _ => None,
    }
}
/// The bytes of a string as a slice.
fn bytes(e: &mut Eng, s: &StrV) -> Option<V> {
    let u8t = Ty::unsigned_ty(rustc_public::ty::UintTy::U8);
    if let Some(t) = s.as_lit() {
        let mut q = SeqV::empty(u8t);
        q.tail = t.bytes().map(|b| V::C(b as u128, 8)).collect();
        let n = q.tail.len() as u128;
        let c = e.new_const(V::Seq(Rc::new(q)));
        return Some(V::Ref(Rc::new(Ptr { alloc: c, path: vec![], meta: Some((V::us(0), V::us(n))) })));
    }
    let (r, a, b) = single(s)?;
    let len = Lin::s(Sym::ranged(format!("len({})", r.key()), 0, i64::MAX as i128));
    let q = SeqV { ty: u8t, base: Some((Sym::new(format!("bytes({})", r.key())), len)), over: vec![], tail: vec![] };
    e.byteseq.insert(Sym::new(format!("bytes({})", r.key())), r);
    let c = e.new_const(V::Seq(Rc::new(q)));
    Some(V::Ref(Rc::new(Ptr { alloc: c, path: vec![], meta: Some((V::lin(a.clone(), 64), V::lin(b.sub(&a), 64))) })))
}
fn traits(e: &mut Eng, st: &State, ci: &CallInfo, a: &[V], n: &str) -> Option<Outs> {
    match n {
        "<std::str::Chars as std::iter::Iterator>::next" | "<std::str::CharIndices as std::iter::Iterator>::next" => {
            let p = e.deref(st, &a[0])?;
            let V::It(iv) = e.read_ptr(st, &p) else { return None };
            let IterV::Chars { s, idx, .. } = &*iv else { return None };
            let before = str_len(s);
            let mut out = vec![];
            for (mut s1, f) in first(e, st, s)? {
                match f {
                    None => out.push((s1, opt(ci.ret, None))),
                    Some((c, rest)) => {
                        let w = before.sub(&str_len(&rest));
                        let mut item = c;
                        let next = match idx {
                            None => None,
                            Some(i) => {
                                item = V::agg(vec![i.clone(), item]);
                                Some(e.vadd(i, &V::lin(w, 64)))
                            }
                        };
                        let it = V::It(Rc::new(IterV::Chars { s: Rc::new(rest), bytes: false, idx: next }));
                        e.write_ptr(&mut s1, &p, it);
                        out.push((s1, opt(ci.ret, Some(item))));
                    }
                }
            }
            Some(out)
        }
        "<std::str::Chars as std::iter::Iterator>::count" | "<std::str::CharIndices as std::iter::Iterator>::count" => {
            let V::It(iv) = e.force(a[0].clone()) else { return None };
            let IterV::Chars { s, .. } = &*iv else { return None };
            if let Some(t) = s.as_lit() {
                return one(st, V::us(t.chars().count() as u128));
            }
            let (r, x, y) = single(s)?;
            let n = Sym::ranged(format!("count({}@{x:?}..{y:?})", r.key()), 0, i64::MAX as i128);
            let len = y.sub(&x);
            e.dom.def(n, Lin::s(n).sub(&len));
            e.dom.def(n, len.sub(&Lin::s(n).scale(4)));
            one(st, V::lin(Lin::s(n), 64))
        }
        "std::str::Chars::as_str" | "std::str::CharIndices::as_str" => {
            let V::It(iv) = peel(e, st, &a[0]) else { return None };
            let IterV::Chars { s, .. } = &*iv else { return None };
            one(st, V::Str(s.clone()))
        }
        "std::str::CharIndices::offset" => {
            let V::It(iv) = peel(e, st, &a[0]) else { return None };
            let IterV::Chars { idx: Some(i), .. } = &*iv else { return None };
            one(st, i.clone())
        }
        "<std::str::Chars as std::clone::Clone>::clone" | "<std::str::CharIndices as std::clone::Clone>::clone" => {
            let v = e.read_ref(st, &a[0]);
            one(st, v)
        }
        "<&str as nom::InputIter>::slice_index" => {
            let s = text_of(e, st, &a[0])?;
            let k = e.force(a[1].clone()).as_const()?;
            if k > 4 {
                return None;
            }
            let need = *tyx::adt_args(ci.ret).get(1)?;
            let len = str_len(&s);
            let mut cur = vec![(st.clone(), s)];
            let mut out = vec![];
            for _ in 0..k {
                let mut next = vec![];
                for (s1, t) in cur {
                    for (s2, f) in first(e, &s1, &t)? {
                        match f {
                            None => out.push((s2, variant(ci.ret, 1, vec![variant(need, 0, vec![])]))),
                            Some((_, rest)) => next.push((s2, rest)),
                        }
                    }
                }
                cur = next;
            }
            for (s1, rest) in cur {
                let i = len.sub(&str_len(&rest));
                out.push((s1, variant(ci.ret, 0, vec![V::lin(i, 64)])));
            }
            Some(out)
        }
        "<&str as nom::Compare>::compare" => {
            let s = text_of(e, st, &a[0])?;
            let t = text_of(e, st, &a[1])?.as_lit()?;
            let c = prefix(e, st.pc, &s, &t)?;
            let mut out = vec![];
            if let Some(s1) = st.with(c) {
                out.push((s1, variant(ci.ret, 0, vec![])));
            }
            if let Some(s1) = st.with(bdd::not(c)) {
                // Too short or different: which of the two is not told apart.
                let w = bdd::named(fresh("¿short").key());
                let d = mk_bits(vec![w, bdd::not(w), bdd::F, bdd::F, bdd::F, bdd::F, bdd::F, bdd::F]);
                let v = V::En(Rc::new(EnumV { ty: ci.ret, disc: d, pay: Default::default(), src: None }));
                out.push((s1, v));
            }
            Some(out)
        }
        _ => {
            // Indexing by a range of byte offsets.
            if n.ends_with(" as std::ops::Index>::index") && (n.starts_with("<str ") || n.starts_with("<std::string::String ")) {
                let s = text_of(e, st, &a[0])?;
                let (x, y) = range_of(e, ci.arg_tys[1], &a[1])?;
                return slice(e, st, ci, &s, x, y, How::Checked);
            }
            if n.contains("as std::slice::SliceIndex>::") && n.starts_with("<std::ops::") {
                let s = match peel(e, st, &a[1]) {
                    V::Str(s) => (*s).clone(),
                    _ => return None,
                };
                let (x, y) = range_of(e, ci.arg_tys[0], &a[0])?;
                let how = if n.ends_with("::get") {
                    How::Get
                } else if n.ends_with("unchecked") {
                    How::Trust
                } else if n.ends_with("::index") {
                    How::Checked
                } else {
                    return None;
                };
                return slice(e, st, ci, &s, x, y, how);
            }
            None
        }
    }
}
