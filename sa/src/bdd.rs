//! Reduced ordered binary decision diagrams with complement edges.
//!
//! This is the boolean domain of the analysis: every bit of an abstract value and every
//! path condition is a canonical boolean function of the analysed function's input bits,
//! so "the two sides agree on every input" is pointer equality and merging two states at
//! a control-flow join is exact.
use std::collections::{BTreeSet, HashMap};
use std::hash::{BuildHasherDefault, Hasher};

pub type Bdd = u32;
pub const T: Bdd = 0;
pub const F: Bdd = 1;

#[derive(Default, Clone)]
pub struct FxH(u64);
impl Hasher for FxH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

/// What a boolean variable stands for.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Atom {
    /// A bit of an analysed input, or an uninterpreted predicate over unknown values.
    Named(String),
    /// The linear inequality `lin <= 0` over symbolic integers.
    Le(crate::val::Lin),
}

struct Mgr {
    nodes: Vec<(u32, Bdd, Bdd)>,
    uniq: FxMap<(u32, u32, u32), u32>,
    cache: FxMap<(u32, u32, u32), u32>,
    vars: Vec<Atom>,
    by_atom: HashMap<Atom, u32>,
}

static mut MGR: *mut Mgr = std::ptr::null_mut();

#[allow(static_mut_refs)]
fn m() -> &'static mut Mgr {
    unsafe {
        if MGR.is_null() {
            MGR = Box::into_raw(Box::new(Mgr {
                nodes: vec![(u32::MAX, 0, 0)],
                uniq: FxMap::default(),
                cache: FxMap::default(),
                vars: vec![],
                by_atom: HashMap::new(),
            }));
        }
        &mut *MGR
    }
}

pub fn node_count() -> usize {
    m().nodes.len()
}
pub fn var_count() -> usize {
    m().vars.len()
}
static mut EPOCH: u32 = 0;
pub fn epoch() -> u32 {
    unsafe { EPOCH }
}
/// Forgets every function; variables keep their places. No value computed before may be
/// used afterwards.
pub fn reset() {
    let g = m();
    g.nodes = vec![(u32::MAX, 0, 0)];
    g.uniq = FxMap::default();
    g.cache = FxMap::default();
    unsafe { EPOCH += 1 }
}
pub fn clear_cache() {
    m().cache = FxMap::default();
}

/// The variable for `a`, allocated at the end of the order on first use.
pub fn atom(a: Atom) -> Bdd {
    let g = m();
    let v = if let Some(v) = g.by_atom.get(&a) {
        *v
    } else {
        let v = g.vars.len() as u32;
        g.vars.push(a.clone());
        g.by_atom.insert(a, v);
        v
    };
    mk(v, F, T)
}
pub fn named(s: impl Into<String>) -> Bdd {
    atom(Atom::Named(s.into()))
}
pub fn var_atom(v: u32) -> &'static Atom {
    &m().vars[v as usize]
}
pub fn var(v: u32) -> Bdd {
    mk(v, F, T)
}

fn mk(v: u32, lo: Bdd, hi: Bdd) -> Bdd {
    if lo == hi {
        return lo;
    }
    if hi & 1 == 1 {
        return mk_raw(v, lo ^ 1, hi ^ 1) ^ 1;
    }
    mk_raw(v, lo, hi)
}
fn mk_raw(v: u32, lo: Bdd, hi: Bdd) -> Bdd {
    let g = m();
    if let Some(n) = g.uniq.get(&(v, lo, hi)) {
        return *n;
    }
    let n = (g.nodes.len() as u32) << 1;
    g.nodes.push((v, lo, hi));
    g.uniq.insert((v, lo, hi), n);
    n
}
#[inline]
pub fn top_var(f: Bdd) -> u32 {
    m().nodes[(f >> 1) as usize].0
}
#[inline]
fn cof(f: Bdd, v: u32) -> (Bdd, Bdd) {
    let n = m().nodes[(f >> 1) as usize];
    if n.0 != v {
        (f, f)
    } else {
        let c = f & 1;
        (n.1 ^ c, n.2 ^ c)
    }
}

#[inline]
pub fn not(f: Bdd) -> Bdd {
    f ^ 1
}
pub fn and(a: Bdd, b: Bdd) -> Bdd {
    if a == F || b == F || a == b ^ 1 {
        return F;
    }
    if a == T || a == b {
        return b;
    }
    if b == T {
        return a;
    }
    if a < b {
        ite(a, b, F)
    } else {
        ite(b, a, F)
    }
}
pub fn or(a: Bdd, b: Bdd) -> Bdd {
    not(and(not(a), not(b)))
}
pub fn xor(a: Bdd, b: Bdd) -> Bdd {
    ite(a, not(b), b)
}
pub fn iff(a: Bdd, b: Bdd) -> Bdd {
    ite(a, b, not(b))
}
pub fn implies(a: Bdd, b: Bdd) -> bool {
    and(a, not(b)) == F
}

pub fn ite(mut f: Bdd, mut g: Bdd, mut h: Bdd) -> Bdd {
    if f == T {
        return g;
    }
    if f == F {
        return h;
    }
    if g == h {
        return g;
    }
    if f == g {
        g = T;
    } else if f == g ^ 1 {
        g = F;
    }
    if f == h {
        h = F;
    } else if f == h ^ 1 {
        h = T;
    }
    if g == h {
        return g;
    }
    if g == T && h == F {
        return f;
    }
    if g == F && h == T {
        return f ^ 1;
    }
    if f & 1 == 1 {
        f ^= 1;
        std::mem::swap(&mut g, &mut h);
    }
    let mut neg = 0;
    if g & 1 == 1 {
        neg = 1;
        g ^= 1;
        h ^= 1;
    }
    if let Some(r) = m().cache.get(&(f, g, h)) {
        return *r ^ neg;
    }
    let v = top_var(f).min(top_var(g)).min(top_var(h));
    let (f0, f1) = cof(f, v);
    let (g0, g1) = cof(g, v);
    let (h0, h1) = cof(h, v);
    let lo = ite(f0, g0, h0);
    let hi = ite(f1, g1, h1);
    let r = mk(v, lo, hi);
    m().cache.insert((f, g, h), r);
    r ^ neg
}

/// Variables `f` depends on.
pub fn support(f: Bdd) -> BTreeSet<u32> {
    let mut seen = std::collections::HashSet::new();
    let mut out = BTreeSet::new();
    let mut st = vec![f >> 1];
    while let Some(n) = st.pop() {
        if n == 0 || !seen.insert(n) {
            continue;
        }
        let (v, lo, hi) = m().nodes[n as usize];
        out.insert(v);
        st.push(lo >> 1);
        st.push(hi >> 1);
    }
    out
}

/// Number of internal nodes of `f`.
pub fn size(f: Bdd) -> usize {
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![f >> 1];
    while let Some(n) = st.pop() {
        if n == 0 || !seen.insert(n) {
            continue;
        }
        let (_, lo, hi) = m().nodes[n as usize];
        st.push(lo >> 1);
        st.push(hi >> 1);
    }
    seen.len()
}

/// Existential quantification of the variables for which `drop` holds.
pub fn exists(f: Bdd, drop: &dyn Fn(u32) -> bool) -> Bdd {
    fn go(f: Bdd, drop: &dyn Fn(u32) -> bool, c: &mut HashMap<Bdd, Bdd>) -> Bdd {
        if f <= 1 {
            return f;
        }
        if let Some(r) = c.get(&f) {
            return *r;
        }
        let v = top_var(f);
        let (lo, hi) = cof(f, v);
        let (l, h) = (go(lo, drop, c), go(hi, drop, c));
        let r = if drop(v) { or(l, h) } else { ite(var(v), h, l) };
        c.insert(f, r);
        r
    }
    go(f, drop, &mut HashMap::new())
}

/// Substitutes `val` for variables per `map`.
pub fn compose(f: Bdd, map: &HashMap<u32, Bdd>) -> Bdd {
    fn go(f: Bdd, map: &HashMap<u32, Bdd>, c: &mut HashMap<Bdd, Bdd>) -> Bdd {
        if f <= 1 {
            return f;
        }
        if let Some(r) = c.get(&f) {
            return *r;
        }
        let v = top_var(f);
        let (lo, hi) = cof(f, v);
        let (l, h) = (go(lo, map, c), go(hi, map, c));
        let r = ite(map.get(&v).copied().unwrap_or_else(|| var(v)), h, l);
        c.insert(f, r);
        r
    }
    go(f, map, &mut HashMap::new())
}

/// One satisfying partial assignment.
pub fn any_sat(mut f: Bdd) -> Option<Vec<(u32, bool)>> {
    if f == F {
        return None;
    }
    let mut out = vec![];
    while f > 1 {
        let v = top_var(f);
        let (lo, hi) = cof(f, v);
        if lo != F {
            out.push((v, false));
            f = lo;
        } else {
            out.push((v, true));
            f = hi;
        }
    }
    Some(out)
}

/// `f` simplified under the assumption `c` (generalised cofactor, "restrict").
pub fn simplify(f: Bdd, c: Bdd) -> Bdd {
    if f <= 1 || c == T {
        return f;
    }
    if and(f, c) == F {
        return F;
    }
    if and(not(f), c) == F {
        return T;
    }
    f
}

/// Coudert-Madre restrict: a function equal to `f` wherever `c` holds, usually smaller.
pub fn restrict(f: Bdd, c: Bdd) -> Bdd {
    fn go(f: Bdd, c: Bdd, memo: &mut HashMap<(Bdd, Bdd), Bdd>) -> Bdd {
        if f <= 1 || c == T || c == F {
            return f;
        }
        if f == c {
            return T;
        }
        if f == not(c) {
            return F;
        }
        if let Some(r) = memo.get(&(f, c)) {
            return *r;
        }
        let (vf, vc) = (top_var(f), top_var(c));
        let r = if vc < vf {
            let (c0, c1) = cof(c, vc);
            go(f, or(c0, c1), memo)
        } else {
            let (f0, f1) = cof(f, vf);
            let (c0, c1) = cof(c, vf);
            if c0 == F {
                go(f1, c1, memo)
            } else if c1 == F {
                go(f0, c0, memo)
            } else {
                let (l, h) = (go(f0, c0, memo), go(f1, c1, memo));
                mk(vf, l, h)
            }
        };
        memo.insert((f, c), r);
        r
    }
    go(f, c, &mut HashMap::new())
}
