//! Abstract values.
use crate::bdd::{self, Bdd};
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

// ---------------------------------------------------------------- symbols

/// A symbolic unknown, interned by a descriptive key so that the same unknown gets the
/// same symbol (value numbering).
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Sym(pub u32);

pub struct SymInfo {
    pub key: String,
    pub lo: i128,
    pub hi: i128,
}

struct SymTab {
    syms: Vec<SymInfo>,
    by_key: HashMap<String, Sym>,
}
static mut TAB: *mut SymTab = std::ptr::null_mut();
#[allow(static_mut_refs)]
fn tab() -> &'static mut SymTab {
    unsafe {
        if TAB.is_null() {
            TAB = Box::into_raw(Box::new(SymTab { syms: vec![], by_key: HashMap::new() }));
        }
        &mut *TAB
    }
}
impl Sym {
    pub fn new(key: impl Into<String>) -> Sym {
        let key = key.into();
        let t = tab();
        if let Some(s) = t.by_key.get(&key) {
            return *s;
        }
        let s = Sym(t.syms.len() as u32);
        t.syms.push(SymInfo { key: key.clone(), lo: i128::MIN, hi: i128::MAX });
        t.by_key.insert(key, s);
        s
    }
    pub fn ranged(key: impl Into<String>, lo: i128, hi: i128) -> Sym {
        let s = Sym::new(key);
        let i = &mut tab().syms[s.0 as usize];
        if i.lo == i128::MIN {
            i.lo = lo;
            i.hi = hi;
        }
        s
    }
    pub fn set_range(self, lo: i128, hi: i128) {
        let i = &mut tab().syms[self.0 as usize];
        i.lo = lo;
        i.hi = hi;
    }
    pub fn child(self, p: impl std::fmt::Display) -> Sym {
        Sym::new(format!("{}.{}", self.key(), p))
    }
    pub fn key(self) -> &'static str {
        &tab().syms[self.0 as usize].key
    }
    pub fn lo(self) -> i128 {
        tab().syms[self.0 as usize].lo
    }
    pub fn hi(self) -> i128 {
        tab().syms[self.0 as usize].hi
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.key())
    }
}
static mut FRESH: u64 = 0;
pub fn fresh_no() -> u64 {
    unsafe { FRESH + 1 }
}
/// A symbol equal to no other.
pub fn fresh(tag: &str) -> Sym {
    unsafe {
        FRESH += 1;
        Sym::new(format!("{}#{}", tag, FRESH))
    }
}

// ---------------------------------------------------------------- linear expressions

/// `sum(coef * sym) + c` over mathematical integers.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Lin {
    pub t: Vec<(Sym, i128)>,
    pub c: i128,
}
impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let mut first = true;
        for (s, k) in &self.t {
            if !first || *k < 0 {
                write!(f, "{}", if *k < 0 { "-" } else { "+" })?;
            }
            if k.abs() != 1 {
                write!(f, "{}*", k.abs())?;
            }
            write!(f, "{:?}", s)?;
            first = false;
        }
        if first || self.c != 0 {
            write!(f, "{}{}", if self.c >= 0 && !first { "+" } else { "" }, self.c)?;
        }
        Ok(())
    }
}
impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { t: vec![], c }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { t: vec![(s, 1)], c: 0 }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { t: self.t.iter().map(|(s, x)| (*s, x * k)).collect(), c: self.c * k }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn add(&self, o: &Lin) -> Lin {
        let mut m: BTreeMap<Sym, i128> = self.t.iter().cloned().collect();
        for (s, k) in &o.t {
            *m.entry(*s).or_insert(0) += k;
        }
        Lin { t: m.into_iter().filter(|x| x.1 != 0).collect(), c: self.c + o.c }
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add(&o.neg())
    }
    pub fn plus(&self, k: i128) -> Lin {
        Lin { t: self.t.clone(), c: self.c + k }
    }
    pub fn ub(&self) -> Option<i128> {
        let mut r = self.c;
        for (s, k) in &self.t {
            let b = if *k > 0 { s.hi() } else { s.lo() };
            if b == i128::MAX || b == i128::MIN {
                return None;
            }
            r = r.checked_add(b.checked_mul(*k)?)?;
        }
        Some(r)
    }
    pub fn lb(&self) -> Option<i128> {
        self.neg().ub().map(|x| -x)
    }
    pub fn subst(&self, s: Sym, by: &Lin) -> Lin {
        match self.t.iter().find(|x| x.0 == s) {
            None => self.clone(),
            Some((_, k)) => {
                let mut r = self.clone();
                r.t.retain(|x| x.0 != s);
                r.add(&by.scale(*k))
            }
        }
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    /// Uninitialised, moved out or meaningless.
    Undef,
    /// A constant of the given bit width (bool 1, char 32).
    C(u128, u16),
    /// A bit vector, least significant bit first, not all constant.
    B(Rc<Vec<Bdd>>),
    /// A symbolic integer of the given width; the expression's value is always in range.
    L(Rc<Lin>, u16),
    /// An unknown value of a type, expanded on demand.
    Opq(Sym, Ty),
    /// Struct, tuple, array or closure.
    Agg(Rc<Vec<V>>),
    En(Rc<EnumV>),
    /// Reference, raw pointer, Box or NonNull.
    Ref(Rc<Ptr>),
    /// `&str`, or the contents of a `String`.
    Str(Rc<StrV>),
    /// `Vec`, `BitVec` or a slice's backing storage.
    Seq(Rc<SeqV>),
    Map(Rc<MapV>),
    /// A library iterator with its own model.
    It(Rc<IterV>),
    /// Function item or non-capturing callable.
    Fun(Ty),
    /// Model object with named parts (format arguments, map entries, graphs ...).
    Obj(&'static str, Rc<Vec<V>>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct EnumV {
    pub ty: Ty,
    /// Variant index, 8 bits wide.
    pub disc: V,
    pub pay: BTreeMap<usize, Vec<V>>,
    /// Where payloads not in `pay` come from.
    pub src: Option<Sym>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(usize),
    Var(usize),
    /// Element at absolute index.
    I(V),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub alloc: AllocId,
    pub path: Vec<PE>,
    /// For slices: start index and length within the pointee sequence.
    pub meta: Option<(V, V)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum AllocId {
    Local(usize, usize),
    Heap(u64),
    Sym(Sym),
    Const(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Piece {
    Lit(String),
    /// Substring `[start, end)` of an unknown string.
    Sub(Sym, Lin, Lin),
    /// Display of a value.
    Disp(V),
    /// Wholly unknown text.
    Unk(Sym),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct StrV(pub Vec<Piece>);

impl StrV {
    pub fn lit(s: &str) -> StrV {
        if s.is_empty() {
            StrV(vec![])
        } else {
            StrV(vec![Piece::Lit(s.to_string())])
        }
    }
    pub fn as_lit(&self) -> Option<String> {
        let mut o = String::new();
        for p in &self.0 {
            match p {
                Piece::Lit(s) => o.push_str(s),
                _ => return None,
            }
        }
        Some(o)
    }
    pub fn push(&mut self, p: Piece) {
        if let (Some(Piece::Lit(a)), Piece::Lit(b)) = (self.0.last_mut(), &p) {
            a.push_str(b);
            return;
        }
        if let Piece::Lit(b) = &p {
            if b.is_empty() {
                return;
            }
        }
        self.0.push(p);
    }
    pub fn append(&mut self, o: &StrV) {
        for p in &o.0 {
            self.push(p.clone());
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SeqV {
    pub ty: Ty,
    /// Unknown prefix: its identity and current length.
    pub base: Option<(Sym, Lin)>,
    /// Known elements of the prefix.
    pub over: Vec<(Lin, V)>,
    pub tail: Vec<V>,
}
impl SeqV {
    pub fn empty(ty: Ty) -> SeqV {
        SeqV { ty, base: None, over: vec![], tail: vec![] }
    }
    pub fn unknown(ty: Ty, s: Sym) -> SeqV {
        let len = Sym::ranged(format!("len({})", s.key()), 0, i64::MAX as i128);
        SeqV { ty, base: Some((s, Lin::s(len))), over: vec![], tail: vec![] }
    }
    pub fn len(&self) -> Lin {
        match &self.base {
            None => Lin::k(self.tail.len() as i128),
            Some((_, l)) => l.plus(self.tail.len() as i128),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MapV {
    /// Value type; `None` for a set.
    pub kty: Ty,
    pub vty: Option<Ty>,
    pub base: Option<Sym>,
    /// Current length.
    pub len: Lin,
    /// Keys known to be absent from the base.
    pub absent: Vec<V>,
    /// Entries added or replaced, oldest first.
    pub ents: Vec<(V, V)>,
    /// Something unknown was added.
    pub dirty: Option<Sym>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum IterV {
    /// Slice iterator: sequence place, next index, end index, by value.
    Slice { ptr: Ptr, i: V, end: V, mutbl: bool },
    /// Consuming iterator over a sequence.
    Own { seq: Rc<SeqV>, i: V, end: V },
    Range { i: V, end: V, signed: bool },
    RangeInc { i: V, end: V, done: V, signed: bool },
    Chars { s: Rc<StrV>, bytes: bool, idx: Option<V> },
    /// Unknown items.
    Unk { ty: Ty, s: Sym, n: Lin },
}

// ---------------------------------------------------------------- bit vectors

pub type Bits = Vec<Bdd>;

pub fn mk_bits(b: Bits) -> V {
    let mut v = 0u128;
    for (i, x) in b.iter().enumerate() {
        match *x {
            bdd::T => v |= 1 << i,
            bdd::F => {}
            _ => return V::B(Rc::new(b)),
        }
    }
    V::C(v, b.len() as u16)
}
pub fn const_bits(v: u128, w: usize) -> Bits {
    (0..w).map(|i| if i < 128 && v >> i & 1 == 1 { bdd::T } else { bdd::F }).collect()
}
pub fn boolv(b: Bdd) -> V {
    mk_bits(vec![b])
}
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1 << w) - 1
    }
}
impl V {
    pub fn bits(&self) -> Option<Bits> {
        match self {
            V::C(v, w) => Some(const_bits(*v, *w as usize)),
            V::B(b) => Some((**b).clone()),
            _ => None,
        }
    }
    pub fn width(&self) -> Option<u16> {
        match self {
            V::C(_, w) => Some(*w),
            V::B(b) => Some(b.len() as u16),
            V::L(_, w) => Some(*w),
            _ => None,
        }
    }
    pub fn as_const(&self) -> Option<u128> {
        match self {
            V::C(v, _) => Some(*v),
            V::L(l, w) => l.is_const().map(|c| c as u128 & mask(*w)),
            _ => None,
        }
    }
    pub fn as_lin(&self) -> Option<Lin> {
        match self {
            V::C(v, _) => Some(Lin::k(*v as i128)),
            V::L(l, _) => Some((**l).clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<Bdd> {
        match self {
            V::C(v, _) => Some(if *v != 0 { bdd::T } else { bdd::F }),
            V::B(b) if b.len() == 1 => Some(b[0]),
            _ => None,
        }
    }
    pub fn unit() -> V {
        V::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<V>) -> V {
        V::Agg(Rc::new(v))
    }
    pub fn lin(l: Lin, w: u16) -> V {
        match l.is_const() {
            Some(c) => V::C(c as u128 & mask(w), w),
            None => V::L(Rc::new(l), w),
        }
    }
    pub fn us(n: u128) -> V {
        V::C(n, 64)
    }
}

pub fn b_ite(c: Bdd, a: &Bits, b: &Bits) -> Bits {
    a.iter().zip(b).map(|(x, y)| bdd::ite(c, *x, *y)).collect()
}
pub fn b_add(a: &Bits, b: &Bits, cin: Bdd) -> (Bits, Bdd) {
    let mut c = cin;
    let mut r = vec![];
    for (x, y) in a.iter().zip(b) {
        let p = bdd::xor(*x, *y);
        r.push(bdd::xor(p, c));
        c = bdd::ite(p, c, *x);
    }
    (r, c)
}
pub fn b_not(a: &Bits) -> Bits {
    a.iter().map(|x| bdd::not(*x)).collect()
}
pub fn b_sub(a: &Bits, b: &Bits) -> (Bits, Bdd) {
    let (r, c) = b_add(a, &b_not(b), bdd::T);
    (r, bdd::not(c))
}
pub fn b_eq(a: &Bits, b: &Bits) -> Bdd {
    let mut r = bdd::T;
    for (x, y) in a.iter().zip(b) {
        r = bdd::and(r, bdd::iff(*x, *y));
        if r == bdd::F {
            break;
        }
    }
    r
}
/// a < b, unsigned
pub fn b_ult(a: &Bits, b: &Bits) -> Bdd {
    let mut r = bdd::F;
    for (x, y) in a.iter().zip(b) {
        // lsb to msb
        r = bdd::ite(bdd::xor(*x, *y), *y, r);
    }
    r
}
pub fn b_slt(a: &Bits, b: &Bits) -> Bdd {
    let mut a = a.clone();
    let mut b = b.clone();
    let n = a.len() - 1;
    a[n] = bdd::not(a[n]);
    b[n] = bdd::not(b[n]);
    b_ult(&a, &b)
}
pub fn b_shl(a: &Bits, amt: &Bits) -> Bits {
    let w = a.len();
    let mut r = a.clone();
    for (k, s) in amt.iter().enumerate() {
        if *s == bdd::F || k >= 16 || 1usize << k >= w * 2 {
            continue;
        }
        let n = 1usize << k;
        let sh: Bits = (0..w).map(|i| if i >= n { r[i - n] } else { bdd::F }).collect();
        r = b_ite(*s, &sh, &r);
    }
    r
}
pub fn b_shr(a: &Bits, amt: &Bits, fill: Bdd) -> Bits {
    let w = a.len();
    let mut r = a.clone();
    for (k, s) in amt.iter().enumerate() {
        if *s == bdd::F || k >= 16 || 1usize << k >= w * 2 {
            continue;
        }
        let n = 1usize << k;
        let sh: Bits = (0..w).map(|i| if i + n < w { r[i + n] } else { fill }).collect();
        r = b_ite(*s, &sh, &r);
    }
    r
}
pub fn b_mul(a: &Bits, b: &Bits) -> Bits {
    let w = a.len();
    let mut r = const_bits(0, w);
    for (k, s) in b.iter().enumerate() {
        if *s == bdd::F {
            continue;
        }
        let sh: Bits = (0..w).map(|i| if i >= k { bdd::and(a[i - k], *s) } else { bdd::F }).collect();
        r = b_add(&r, &sh, bdd::F).0;
    }
    r
}
/// Unsigned quotient and remainder (restoring division).
pub fn b_divrem(a: &Bits, b: &Bits) -> (Bits, Bits) {
    let w = a.len();
    let mut q = const_bits(0, w);
    let mut r = const_bits(0, w + 1);
    let mut bx = b.clone();
    bx.push(bdd::F);
    for i in (0..w).rev() {
        r.pop();
        r.insert(0, a[i]);
        let (d, bor) = b_sub(&r, &bx);
        let ok = bdd::not(bor);
        q[i] = ok;
        r = b_ite(ok, &d, &r);
    }
    r.pop();
    (q, r)
}
pub fn b_popcount(a: &Bits, outw: usize) -> Bits {
    // Symmetric functions: counts[k] = "exactly k of the bits so far".
    let mut cnt = vec![bdd::T];
    for x in a {
        let mut n = vec![bdd::F; cnt.len() + 1];
        for (k, c) in cnt.iter().enumerate() {
            n[k] = bdd::or(n[k], bdd::and(*c, bdd::not(*x)));
            n[k + 1] = bdd::or(n[k + 1], bdd::and(*c, *x));
        }
        cnt = n;
    }
    let mut r = const_bits(0, outw);
    for (k, c) in cnt.iter().enumerate() {
        for (i, b) in r.iter_mut().enumerate() {
            if k >> i & 1 == 1 {
                *b = bdd::or(*b, *c);
            }
        }
    }
    r
}
/// Trailing zeros; `w` when zero.
pub fn b_ctz(a: &Bits, outw: usize) -> Bits {
    let w = a.len();
    let mut r = const_bits(w as u128, outw);
    for i in (0..w).rev() {
        r = b_ite(a[i], &const_bits(i as u128, outw), &r);
    }
    r
}
pub fn b_clz(a: &Bits, outw: usize) -> Bits {
    let mut b = a.clone();
    b.reverse();
    b_ctz(&b, outw)
}
pub fn b_or_all(a: &Bits) -> Bdd {
    a.iter().rev().fold(bdd::F, |x, y| bdd::or(x, *y))
}

/// `g ? a : b`, when the two have the same shape.
pub fn merge(g: Bdd, a: &V, b: &V) -> Option<V> {
    if a == b {
        return Some(a.clone());
    }
    if g == bdd::T {
        return Some(a.clone());
    }
    if g == bdd::F {
        return Some(b.clone());
    }
    match (a, b) {
        (V::Undef, x) | (x, V::Undef) => Some(x.clone()),
        (V::C(..) | V::B(..), V::C(..) | V::B(..)) => {
            let (x, y) = (a.bits()?, b.bits()?);
            if x.len() != y.len() {
                return None;
            }
            Some(mk_bits(b_ite(g, &x, &y)))
        }
        (V::Agg(x), V::Agg(y)) => {
            if x.len() != y.len() {
                return None;
            }
            let r: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| merge(g, p, q)).collect();
            Some(V::agg(r?))
        }
        (V::En(x), V::En(y)) => {
            if x.ty != y.ty || x.src.is_some() && y.src.is_some() && x.src != y.src {
                return None;
            }
            let disc = merge(g, &x.disc, &y.disc)?;
            let (mut x2, mut y2) = ((**x).clone(), (**y).clone());
            for (me, other) in [(&mut x2, &**y), (&mut y2, &**x)] {
                if me.src.is_some() {
                    for k in other.pay.keys() {
                        crate::interp::materialize(me, *k);
                    }
                }
            }
            let mut pay = BTreeMap::new();
            let keys: std::collections::BTreeSet<usize> =
                x2.pay.keys().chain(y2.pay.keys()).cloned().collect();
            for k in keys {
                let v = match (x2.pay.get(&k), y2.pay.get(&k)) {
                    (Some(p), Some(q)) => p
                        .iter()
                        .zip(q)
                        .map(|(p, q)| merge(g, p, q))
                        .collect::<Option<Vec<V>>>()?,
                    (Some(p), None) => p.clone(),
                    (None, Some(q)) => q.clone(),
                    _ => unreachable!(),
                };
                pay.insert(k, v);
            }
            // A lazily expanded side keeps its source; the other side's variants are all
            // materialised, so this is exact.
            let src = x.src.or(y.src);
            Some(V::En(Rc::new(EnumV { ty: x.ty, disc, pay, src })))
        }
        (V::Seq(x), V::Seq(y)) if x.base == y.base && x.over == y.over && x.tail.len() == y.tail.len() => {
            let t: Option<Vec<V>> =
                x.tail.iter().zip(y.tail.iter()).map(|(p, q)| merge(g, p, q)).collect();
            Some(V::Seq(Rc::new(SeqV { tail: t?, ..(**x).clone() })))
        }
        (V::It(x), V::It(y)) => match (&**x, &**y) {
            (
                IterV::Slice { ptr: p, i: i1, end: e1, mutbl: m1 },
                IterV::Slice { ptr: q, i: i2, end: e2, mutbl: m2 },
            ) if p == q && m1 == m2 => Some(V::It(Rc::new(IterV::Slice {
                ptr: p.clone(),
                i: merge(g, i1, i2)?,
                end: merge(g, e1, e2)?,
                mutbl: *m1,
            }))),
            (
                IterV::Range { i: i1, end: e1, signed },
                IterV::Range { i: i2, end: e2, signed: s2 },
            ) if signed == s2 => Some(V::It(Rc::new(IterV::Range {
                i: merge(g, i1, i2)?,
                end: merge(g, e1, e2)?,
                signed: *signed,
            }))),
            (
                IterV::RangeInc { i: i1, end: e1, done: d1, signed },
                IterV::RangeInc { i: i2, end: e2, done: d2, signed: s2 },
            ) if signed == s2 => Some(V::It(Rc::new(IterV::RangeInc {
                i: merge(g, i1, i2)?,
                end: merge(g, e1, e2)?,
                done: merge(g, d1, d2)?,
                signed: *signed,
            }))),
            _ => None,
        },
        (V::Ref(x), V::Ref(y)) => {
            // Same object, indices may differ.
            if x.alloc != y.alloc || x.path.len() != y.path.len() || x.meta != y.meta {
                return None;
            }
            let mut path = vec![];
            for (p, q) in x.path.iter().zip(&y.path) {
                match (p, q) {
                    (PE::I(a), PE::I(b)) => path.push(PE::I(merge(g, a, b)?)),
                    _ if p == q => path.push(p.clone()),
                    _ => return None,
                }
            }
            Some(V::Ref(Rc::new(Ptr { alloc: x.alloc.clone(), path, meta: x.meta.clone() })))
        }
        (V::Obj(n, x), V::Obj(m, y)) if n == m && x.len() == y.len() => {
            let r: Option<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| merge(g, p, q)).collect();
            Some(V::Obj(n, Rc::new(r?)))
        }
        _ => None,
    }
}
impl V {
    /// A linear value of a possibly signed type.
    pub fn lin_s(l: Lin, w: u16, _signed: bool) -> V {
        V::lin(l, w)
    }
}
