//! Loops of unbounded length: the head state is generalised (differing leaves become fresh
//! unknowns), relations between boolean leaves are kept exactly by a relational image, and
//! linear relations are found by proposing candidates and dropping those that are not
//! inductive.
use crate::bdd::{self, Atom, Bdd};
use crate::body::Wto;
use crate::interp::*;
use crate::tyx;
use crate::val::*;
use rustc_public::ty::Ty;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

static mut LOOP_NO: u64 = 0;

/// The numbers following `tag` in a key, compared against a bound.
fn mentions(key: &str, tag: char, from: u64) -> bool {
    let mut it = key.split(tag);
    it.next();
    for rest in it {
        let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        if let Ok(n) = d.parse::<u64>() {
            if n >= from {
                return true;
            }
        }
    }
    false
}
pub struct Gen {
    pub no: u64,
    fresh0: u64,
    /// Boolean leaves: variable, value per incoming state.
    pub bits: Vec<(Bdd, Vec<Option<Bdd>>)>,
    pub lins: Vec<(Sym, Vec<Option<Lin>>)>,
    /// Relations that hold wherever a text does: it starts before it ends.
    pub order: Vec<Lin>,
    opqs: Vec<(Vec<Option<V>>, V)>,
    pub n: usize,
    pub entries: usize,
    hard: Vec<String>,
}
impl Gen {
    fn variant_key(&self, k: &str) -> bool {
        mentions(k, 'φ', self.no) || mentions(k, '#', self.fresh0)
    }
    fn variant_var(&self, v: u32) -> bool {
        match bdd::var_atom(v) {
            Atom::Named(n) => self.variant_key(n),
            Atom::Le(l) => l.t.iter().any(|(s, _)| self.variant_key(s.key())),
        }
    }
    fn lin_variant(&self, l: &Lin) -> bool {
        l.t.iter().any(|(s, _)| self.variant_key(s.key()))
    }
    fn phi_bit(&mut self, key: &str, vals: Vec<Option<Bdd>>) -> Bdd {
        // Leaves equal on every way in share one unknown.
        if let Some((v, _)) = self.bits.iter().find(|x| x.1 == vals) {
            return *v;
        }
        let v = bdd::named(format!("φ{}.{key}", self.no));
        self.bits.push((v, vals));
        v
    }
    fn phi_lin(&mut self, key: &str, w: u16, vals: Vec<Option<Lin>>, exact: bool) -> Lin {
        let neg = vals.iter().flatten().any(|l| {
            !self.lin_variant(l) && l.lb().map_or(true, |b| b < 0)
                || self.lin_variant(l) && l.t.len() == 1 && l.t[0].0.lo() < 0
        });
        let (lo, hi) = if neg {
            (-(1i128 << (w.min(100) - 1)), (1i128 << (w.min(100) - 1)) - 1)
        } else {
            (0, (1i128 << w.min(100)) - 1)
        };
        if let Some((s, _)) = self.lins.iter().find(|x| exact && x.1 == vals && x.0.lo() == lo && x.0.hi() == hi) {
            return Lin::s(*s);
        }
        let s = Sym::ranged(format!("φ{}.{}{key}", self.no, if neg { "-" } else { "" }), lo, hi);
        self.lins.push((s, vals));
        Lin::s(s)
    }
    /// Generalises the values found at one position in every incoming state; `prev` is
    /// what the position held in the previous round's head state.
    pub fn gen(&mut self, e: &mut Eng, key: &str, vals: Vec<Option<V>>, prev: Option<&V>) -> V {
        let vals: Vec<Option<V>> =
            vals.into_iter().map(|v| v.filter(|v| !matches!(v, V::Undef))).collect();
        let prev = prev.filter(|v| !matches!(v, V::Undef));
        let Some(first) = vals.iter().flatten().next().cloned() else {
            // Not live on any incoming edge; what an earlier round saw is gone too.
            return V::Undef;
        };
        let any_entry = vals[..self.entries].iter().any(|v| v.is_some());
        if any_entry && vals.iter().flatten().all(|v| *v == first) && prev.map_or(true, |p| *p == first) {
            return first;
        }
        // All unknown of one type.
        let tys: Vec<Ty> = vals
            .iter()
            .flatten()
            .filter_map(|v| match v {
                V::Opq(_, t) => Some(*t),
                _ => None,
            })
            .collect();
        let present = vals.iter().flatten().count();
        let prev_opq = matches!(prev, Some(V::Opq(..)) | None);
        if tys.len() == present && tys.iter().all(|t| *t == tys[0]) && prev_opq {
            let t = tys[0];
            if let Some((_, v)) = self.opqs.iter().find(|x| x.0 == vals) {
                return v.clone();
            }
            let v = V::Opq(Sym::new(format!("φ{}.{key}", self.no)), t);
            self.opqs.push((vals, v.clone()));
            return v;
        }
        if !tys.is_empty() {
            let vals2: Vec<Option<V>> = vals.iter().map(|v| v.clone().map(|v| e.force(v))).collect();
            let prev2 = prev.map(|p| e.force(p.clone()));
            if vals2.iter().flatten().all(|v| !matches!(v, V::Opq(..))) {
                return self.gen(e, key, vals2, prev2.as_ref());
            }
            // Generic or otherwise unexpandable.
            return V::Opq(Sym::new(format!("φ{}.{key}", self.no)), tys[0]);
        }
        let prevf = prev.map(|p| e.force(p.clone()));
        let prev = prevf.as_ref();
        match &first {
            V::C(..) | V::B(..) | V::L(..) => {
                let w = vals.iter().flatten().filter_map(|v| v.width()).max().unwrap_or(64);
                let anyl = vals.iter().flatten().chain(prev).any(|v| matches!(v, V::L(..)));
                let anyb = vals.iter().flatten().chain(prev).any(|v| matches!(v, V::B(..)));
                if anyl && anyb && w <= 16 || vals.iter().flatten().any(|v| v.width().is_none()) {
                    self.hard.push(format!("mixed scalar representations at {key}"));
                    return V::Undef;
                }
                if !anyl && (anyb && w <= 32 || w <= 16 || e.wide_bits) {
                    let bs: Vec<Option<Bits>> = vals
                        .iter()
                        .map(|v| {
                            v.as_ref().and_then(|v| v.bits()).map(|mut b| {
                                b.resize(w as usize, bdd::F);
                                b
                            })
                        })
                        .collect();
                    let pb = prev.and_then(|p| p.bits());
                    let mut out = vec![];
                    for i in 0..w as usize {
                        let col: Vec<Option<Bdd>> = bs.iter().map(|b| b.as_ref().map(|b| b[i])).collect();
                        let f = *col.iter().flatten().next().unwrap();
                        let same = col.iter().flatten().all(|x| *x == f)
                            && pb.as_ref().map_or(true, |b| b[i] == f)
                            && (any_entry || f <= 1);
                        out.push(if same { f } else { self.phi_bit(&format!("{key}[{i}]"), col) });
                    }
                    return mk_bits(out);
                }
                let ls: Vec<Option<Lin>> = vals.iter().map(|v| v.as_ref().and_then(|v| v.as_lin())).collect();
                let exact = vals.iter().zip(&ls).all(|(v, l)| v.is_some() == l.is_some());
                let l = self.phi_lin(key, w, ls, exact);
                V::lin(l, w)
            }
            V::Agg(a) => {
                let n = a.len();
                if !vals.iter().flatten().all(|v| matches!(v, V::Agg(x) if x.len() == n)) {
                    self.hard.push(format!("different aggregates at {key}"));
                    return V::Undef;
                }
                V::agg(
                    (0..n)
                        .map(|i| {
                            let col = self.col(&vals, |v| match v {
                                V::Agg(a) => a.get(i).cloned(),
                                _ => None,
                            });
                            let p = match prev {
                                Some(V::Agg(a)) => a.get(i),
                                _ => None,
                            };
                            self.gen(e, &format!("{key}.{i}"), col, p)
                        })
                        .collect(),
                )
            }
            V::Obj(name, a) => {
                let n = a.len();
                if !vals.iter().flatten().all(|v| matches!(v, V::Obj(m, x) if x.len() == n && m == name)) {
                    self.hard.push(format!("different objects at {key}"));
                    return V::Undef;
                }
                let parts = (0..n)
                    .map(|i| {
                        let col = self.col(&vals, |v| match v {
                            V::Obj(_, a) => a.get(i).cloned(),
                            _ => None,
                        });
                        let p = match prev {
                            Some(V::Obj(_, a)) => a.get(i),
                            _ => None,
                        };
                        self.gen(e, &format!("{key}.{i}"), col, p)
                    })
                    .collect();
                V::Obj(name, Rc::new(parts))
            }
            V::En(en) => {
                let ty = en.ty;
                let mut es: Vec<Option<EnumV>> = vec![];
                for v in &vals {
                    es.push(match v {
                        Some(V::En(x)) if x.ty == ty => Some((**x).clone()),
                        None => None,
                        _ => {
                            self.hard.push(format!("different enums at {key}"));
                            return V::Undef;
                        }
                    });
                }
                let pe = match prev {
                    Some(V::En(x)) => Some((**x).clone()),
                    _ => None,
                };
                let nv = tyx::num_variants(ty);
                let mut keys: BTreeSet<usize> = es.iter().flatten().flat_map(|x| x.pay.keys().copied()).collect();
                for x in es.iter_mut().flatten() {
                    if x.src.is_some() {
                        let poss: Vec<usize> = (0..nv)
                            .filter(|k| match &x.disc {
                                V::C(d, _) => *d as usize == *k,
                                _ => true,
                            })
                            .collect();
                        for k in poss {
                            materialize(x, k);
                            keys.insert(k);
                        }
                    }
                }
                let disc = self.gen(
                    e,
                    &format!("{key}?"),
                    es.iter().map(|x| x.as_ref().map(|x| x.disc.clone())).collect(),
                    pe.as_ref().map(|p| &p.disc),
                );
                let mut pay = BTreeMap::new();
                for k in keys {
                    let nf = tyx::fields(ty, k).len();
                    let mut fs = vec![];
                    for i in 0..nf {
                        let col: Vec<Option<V>> = es
                            .iter()
                            .map(|x| {
                                x.as_ref()
                                    .filter(|x| x.disc.as_const().map_or(true, |d| d as usize == k))
                                    .and_then(|x| x.pay.get(&k))
                                    .and_then(|f| f.get(i).cloned())
                            })
                            .collect();
                        let p = pe.as_ref().and_then(|p| p.pay.get(&k)).and_then(|f| f.get(i));
                        fs.push(self.gen(e, &format!("{key}.{}{i}", tyx::variant_name(ty, k)), col, p));
                    }
                    pay.insert(k, fs);
                }
                V::En(Rc::new(EnumV { ty, disc, pay, src: None }))
            }
            V::Ref(p0) => {
                let ps: Vec<Option<Rc<Ptr>>> = vals
                    .iter()
                    .map(|v| match v {
                        Some(V::Ref(p)) => Some(p.clone()),
                        _ => None,
                    })
                    .collect();
                if vals.iter().flatten().any(|v| !matches!(v, V::Ref(_))) {
                    self.hard.push(format!("reference and non-reference at {key}"));
                    return V::Undef;
                }
                let same_obj = ps.iter().flatten().all(|p| {
                    p.alloc == p0.alloc
                        && p.path.len() == p0.path.len()
                        && p.meta.is_some() == p0.meta.is_some()
                        && p.path.iter().zip(&p0.path).all(|(a, b)| match (a, b) {
                            (PE::I(_), PE::I(_)) => true,
                            (a, b) => a == b,
                        })
                });
                let pp = match prev {
                    Some(V::Ref(p)) => Some(p.clone()),
                    _ => None,
                };
                let variant_obj = !any_entry
                    && match &p0.alloc {
                        AllocId::Sym(s) => self.variant_key(s.key()),
                        AllocId::Heap(_) => false,
                        _ => false,
                    };
                let prev_same = pp.as_ref().map_or(true, |p| p.alloc == p0.alloc);
                if !same_obj || variant_obj || !prev_same {
                    // Some object of the same type, contents unknown.
                    let t = ps.iter().flatten().filter(|p| p.path.is_empty()).find_map(|p| e.alloc_ty(&p.alloc));
                    let meta = p0.meta.is_some();
                    if let Some(t) = t {
                        if !meta {
                            let s = Sym::new(format!("φ{}.{key}*", self.no));
                            e.sym_ty.insert(s, t);
                            return V::Ref(Rc::new(Ptr { alloc: AllocId::Sym(s), path: vec![], meta: None }));
                        }
                    }
                    self.hard.push(format!("references to different objects at {key}"));
                    return V::Undef;
                }
                let mut path = vec![];
                for (j, pe) in p0.path.iter().enumerate() {
                    path.push(match pe {
                        PE::I(_) => {
                            let col: Vec<Option<V>> = ps
                                .iter()
                                .map(|p| {
                                    p.as_ref().and_then(|p| match &p.path[j] {
                                        PE::I(v) => Some(v.clone()),
                                        _ => None,
                                    })
                                })
                                .collect();
                            let pv = pp.as_ref().and_then(|p| match p.path.get(j) {
                                Some(PE::I(v)) => Some(v.clone()),
                                _ => None,
                            });
                            PE::I(self.gen(e, &format!("{key}[{j}]"), col, pv.as_ref()))
                        }
                        x => x.clone(),
                    });
                }
                let meta = p0.meta.as_ref().map(|_| {
                    let a: Vec<Option<V>> =
                        ps.iter().map(|p| p.as_ref().and_then(|p| p.meta.as_ref().map(|m| m.0.clone()))).collect();
                    let b: Vec<Option<V>> =
                        ps.iter().map(|p| p.as_ref().and_then(|p| p.meta.as_ref().map(|m| m.1.clone()))).collect();
                    let pm = pp.as_ref().and_then(|p| p.meta.clone());
                    (
                        self.gen(e, &format!("{key}.start"), a, pm.as_ref().map(|m| &m.0)),
                        self.gen(e, &format!("{key}.len"), b, pm.as_ref().map(|m| &m.1)),
                    )
                });
                V::Ref(Rc::new(Ptr { alloc: p0.alloc.clone(), path, meta }))
            }
            V::Str(_) => {
                let ss: Vec<Option<Rc<StrV>>> = vals
                    .iter()
                    .map(|v| match v {
                        Some(V::Str(s)) => Some(s.clone()),
                        _ => None,
                    })
                    .collect();
                let single: Option<Vec<Option<(Sym, Lin, Lin)>>> = ss
                    .iter()
                    .map(|s| match s {
                        None => Some(None),
                        Some(s) if s.0.len() == 1 => match &s.0[0] {
                            Piece::Sub(r, a, b) => Some(Some((*r, a.clone(), b.clone()))),
                            _ => None,
                        },
                        _ => None,
                    })
                    .collect();
                if let Some(x) = single {
                    let root = x.iter().flatten().next().unwrap().0;
                    if x.iter().flatten().all(|y| y.0 == root) && !self.variant_key(root.key()) {
                        let (pa, pb) = match prev {
                            Some(V::Str(s)) => match s.0.first() {
                                Some(Piece::Sub(r, a, b)) if *r == root => (Some(V::lin(a.clone(), 64)), Some(V::lin(b.clone(), 64))),
                                _ => (None, None),
                            },
                            _ => (None, None),
                        };
                        let a = self.gen(
                            e,
                            &format!("{key}.start"),
                            x.iter().map(|y| y.as_ref().map(|y| V::lin(y.1.clone(), 64))).collect(),
                            pa.as_ref(),
                        );
                        let b = self.gen(
                            e,
                            &format!("{key}.end"),
                            x.iter().map(|y| y.as_ref().map(|y| V::lin(y.2.clone(), 64))).collect(),
                            pb.as_ref(),
                        );
                        let (a, b) = (a.as_lin().unwrap(), b.as_lin().unwrap());
                        self.order.push(a.sub(&b));
                        return V::Str(Rc::new(StrV(vec![Piece::Sub(root, a, b)])));
                    }
                }
                V::Str(Rc::new(StrV(vec![Piece::Unk(Sym::new(format!("φ{}.{key}", self.no)))])))
            }
            V::Seq(s0) => {
                let ss: Vec<Option<Rc<SeqV>>> = vals
                    .iter()
                    .map(|v| match v {
                        Some(V::Seq(s)) => Some(s.clone()),
                        _ => None,
                    })
                    .collect();
                let ps = match prev {
                    Some(V::Seq(s)) => Some(s.clone()),
                    _ => None,
                };
                let same = any_entry
                    && ss.iter().flatten().chain(ps.as_ref()).all(|s| {
                        s.base == s0.base && s.over == s0.over && s.tail.len() == s0.tail.len()
                    });
                if same {
                    let mut tail = vec![];
                    for j in 0..s0.tail.len() {
                        let col = ss.iter().map(|s| s.as_ref().map(|s| s.tail[j].clone())).collect();
                        let p = ps.as_ref().map(|s| s.tail[j].clone());
                        tail.push(self.gen(e, &format!("{key}.t{j}"), col, p.as_ref()));
                    }
                    return V::Seq(Rc::new(SeqV { tail, ..(**s0).clone() }));
                }
                let l = self.phi_lin(
                    &format!("{key}.len"),
                    63,
                    ss.iter().map(|s| s.as_ref().map(|s| s.len())).collect(),
                    true,
                );
                V::Seq(Rc::new(SeqV {
                    ty: s0.ty,
                    base: Some((Sym::new(format!("φ{}.{key}", self.no)), l)),
                    over: vec![],
                    tail: vec![],
                }))
            }
            V::Map(m0) => {
                let ls = vals
                    .iter()
                    .map(|v| match v {
                        Some(V::Map(m)) => Some(m.len.clone()),
                        _ => None,
                    })
                    .collect();
                let len = self.phi_lin(&format!("{key}.len"), 63, ls, true);
                V::Map(Rc::new(MapV {
                    kty: m0.kty,
                    vty: m0.vty,
                    base: Some(Sym::new(format!("φ{}.{key}", self.no))),
                    len,
                    absent: vec![],
                    ents: vec![],
                    dirty: None,
                }))
            }
            V::It(i0) => {
                macro_rules! part {
                    ($pat:pat => $x:expr, $tag:expr) => {{
                        let col = vals
                            .iter()
                            .map(|v| match v {
                                Some(V::It(i)) => match &**i {
                                    $pat => Some($x.clone()),
                                    _ => None,
                                },
                                _ => None,
                            })
                            .collect();
                        let p = match prev {
                            Some(V::It(i)) => match &**i {
                                $pat => Some($x.clone()),
                                _ => None,
                            },
                            _ => None,
                        };
                        self.gen(e, &format!("{key}.{}", $tag), col, p.as_ref())
                    }};
                }
                let bad = |me: &mut Gen| {
                    me.hard.push(format!("different iterators at {key}"));
                    V::Undef
                };
                match &**i0 {
                    IterV::Slice { mutbl, .. } => {
                        let col = self.col(&vals, |v| match v {
                            V::It(i) => match &**i {
                                IterV::Slice { ptr, .. } => Some(V::Ref(Rc::new(ptr.clone()))),
                                _ => None,
                            },
                            _ => None,
                        });
                        let p = match prev {
                            Some(V::It(i)) => match &**i {
                                IterV::Slice { ptr, .. } => Some(V::Ref(Rc::new(ptr.clone()))),
                                _ => None,
                            },
                            _ => None,
                        };
                        let V::Ref(ptr) = self.gen(e, &format!("{key}.of"), col, p.as_ref()) else { return bad(self) };
                        let i = part!(IterV::Slice{i, ..} => i, "i");
                        let end = part!(IterV::Slice{end, ..} => end, "end");
                        V::It(Rc::new(IterV::Slice { ptr: (*ptr).clone(), i, end, mutbl: *mutbl }))
                    }
                    IterV::Own { seq, .. } => {
                        let same = vals.iter().flatten().all(|v| matches!(v, V::It(i) if matches!(&**i, IterV::Own{seq: s, ..} if s == seq)));
                        if !same {
                            return bad(self);
                        }
                        let i = part!(IterV::Own{i, ..} => i, "i");
                        let end = part!(IterV::Own{end, ..} => end, "end");
                        V::It(Rc::new(IterV::Own { seq: seq.clone(), i, end }))
                    }
                    IterV::Range { signed, .. } => {
                        let i = part!(IterV::Range{i, ..} => i, "i");
                        let end = part!(IterV::Range{end, ..} => end, "end");
                        V::It(Rc::new(IterV::Range { i, end, signed: *signed }))
                    }
                    IterV::Chars { bytes, idx, .. } => {
                        let s = part!(IterV::Chars{s, ..} => V::Str(s.clone()), "s");
                        let V::Str(s) = s else { return bad(self) };
                        let idx = match idx {
                            None => None,
                            Some(_) => Some(part!(IterV::Chars{idx: Some(i), ..} => i, "idx")),
                        };
                        V::It(Rc::new(IterV::Chars { s, bytes: *bytes, idx }))
                    }
                    IterV::Unk { ty, s, .. } => {
                        let n = part!(IterV::Unk{n, ..} => V::lin(n.clone(), 64), "n");
                        let Some(n) = n.as_lin() else { return bad(self) };
                        V::It(Rc::new(IterV::Unk { ty: *ty, s: *s, n }))
                    }
                    _ => bad(self),
                }
            }
            _ => {
                self.hard.push(format!("different {} at {key}", kindname(&first)));
                V::Undef
            }
        }
    }
    fn col(&self, vals: &[Option<V>], f: impl Fn(&V) -> Option<V>) -> Vec<Option<V>> {
        vals.iter().map(|v| v.as_ref().and_then(&f)).collect()
    }
    fn subst(&self, l: &Lin, k: usize) -> Option<Lin> {
        // Simultaneous substitution of every φ by its value in incoming state `k`.
        let mut r = Lin::k(l.c);
        for (s, c) in &l.t {
            match self.lins.iter().find(|x| x.0 == *s) {
                Some((_, vals)) => match &vals[k] {
                    Some(v) => r = r.add(&v.scale(*c)),
                    None => return None,
                },
                None => r = r.add(&Lin { t: vec![(*s, *c)], c: 0 }),
            }
        }
        Some(r)
    }
}

fn alloc_key(fr: &Fr, a: &AllocId) -> String {
    match a {
        AllocId::Local(d, l) if *d == fr.depth => format!("_{l}"),
        AllocId::Local(d, l) => format!("_{d}.{l}"),
        AllocId::Heap(h) => format!("h{h}"),
        AllocId::Sym(s) => format!("*{}", s.key()),
        AllocId::Const(c) => format!("c{c}"),
    }
}

/// Whether anything in `v` depends on a loop-variant unknown.
fn build(
    e: &mut Eng,
    fr: &Fr,
    no: u64,
    fresh0: u64,
    entries: &[State],
    backs: &[State],
    prev: Option<&State>,
    early: bool,
    preds: &mut Vec<Lin>,
) -> (State, Gen) {
    let narrowed: Vec<State> = entries.iter().chain(backs).map(|s| narrow(e, s)).collect();
    let all: Vec<&State> = narrowed.iter().collect();
    let mut g = Gen { no, fresh0, bits: vec![], lins: vec![], opqs: vec![], order: vec![], n: all.len(), entries: entries.len(), hard: vec![] };
    let keys: BTreeSet<AllocId> = all.iter().flat_map(|s| s.mem.keys().cloned()).collect();
    let mut mem = BTreeMap::new();
    for k in keys {
        // Objects made inside the loop and unknown objects first met inside it.
        let vals: Vec<Option<V>> = all
            .iter()
            .map(|s| match s.mem.get(&k) {
                Some(v) => Some(v.clone()),
                None => match &k {
                    AllocId::Sym(x) if !g.variant_key(x.key()) => e.sym_ty.get(x).copied().map(|t| {
                        let _ = t;
                        V::Undef
                    }).and(Some(e.load(s, &k))),
                    _ => None,
                },
            })
            .collect();
        if let AllocId::Sym(x) = &k {
            if g.variant_key(x.key()) {
                continue;
            }
        }
        let in_entry = entries.iter().any(|s| s.mem.contains_key(&k));
        if let AllocId::Heap(_) = k {
            if !in_entry {
                continue;
            }
        }
        let v = g.gen(e, &alloc_key(fr, &k), vals, prev.and_then(|p| p.mem.get(&k)));
        mem.insert(k, v);
    }
    // Guards on several counters, restated for the counters' new values.
    if early {
        for k in 0..backs.len() {
            let mut sup = std::collections::BTreeSet::new();
            for (_, vals) in &g.bits {
                if let Some(b) = vals[entries.len() + k] {
                    sup.extend(bdd::support(b));
                }
            }
            for v in sup {
                let Atom::Le(l) = bdd::var_atom(v) else { continue };
                if l.t.len() < 2 || preds.len() >= 8 {
                    continue;
                }
                let mut r = Some(Lin::k(l.c));
                let mut any = false;
                for (x, c) in &l.t {
                    let mine = g.lins.iter().find(|y| y.0 == *x);
                    let d = match mine {
                        None if g.variant_key(x.key()) => None,
                        None => Some(0),
                        Some((_, vals)) => {
                            any = true;
                            vals[entries.len() + k].as_ref().and_then(|v| v.sub(&Lin::s(*x)).is_const())
                        }
                    };
                    r = match (r, d) {
                        (Some(r), Some(d)) => Some(r.add(&Lin::s(*x).plus(-d).scale(*c))),
                        _ => None,
                    };
                }
                if let (Some(r), true) = (r, any) {
                    let r = if r.t.first().map_or(false, |x| x.1 < 0) { r.neg().plus(1) } else { r };
                    if !preds.contains(&r) {
                        preds.push(r);
                    }
                }
            }
        }
    }
    // Whether a counter still is where it started is tracked with the boolean leaves.
    let ne = entries.len();
    let starts: Vec<(Sym, i128, Vec<Option<Lin>>)> = g
        .lins
        .iter()
        .filter_map(|(s, v)| {
            let c = v[..ne].first()?.as_ref()?.is_const()?;
            let same = v[..ne].iter().all(|x| x.as_ref().and_then(|x| x.is_const()) == Some(c));
            let step = |x: &Lin| x.is_const().is_some() || x.sub(&Lin::s(*s)).is_const().is_some();
            (same && v.len() > ne && v[ne..].iter().all(|x| x.as_ref().map_or(false, |x| step(x)))).then(|| (*s, c, v.clone()))
        })
        .collect();
    let mut ps: Vec<Lin> = starts.iter().map(|(s, c, _)| Lin::s(*s).plus(-c)).collect();
    ps.extend(preds.iter().cloned());
    for l in ps {
        let p = lin_atom(&l);
        if p <= 1 || g.bits.iter().any(|x| x.0 == p) || l.t.iter().any(|(s, _)| mentions(s.key(), 'φ', no) && !g.lins.iter().any(|x| x.0 == *s)) {
            continue;
        }
        if !matches!(bdd::var_atom(bdd::top_var(p)), Atom::Le(l) if lin_atom(l) == p) {
            continue;
        }
        let vals = (0..all.len())
            .map(|i| {
                g.subst(&l, i).map(|d| {
                    if e.dom.proves(all[i].pc, &d) {
                        bdd::T
                    } else if e.dom.proves(all[i].pc, &d.neg().plus(1)) {
                        bdd::F
                    } else {
                        lin_atom(&d)
                    }
                })
            })
            .collect();
        g.bits.push((p, vals));
    }
    // Relational image of the boolean leaves.
    let mut pc = bdd::F;
    for (i, s) in all.iter().enumerate() {
        let mut r = s.pc;
        let mut ren: HashMap<u32, Bdd> = HashMap::new();
        for (v, vals) in &g.bits {
            if let Some(b) = vals[i] {
                let p = bdd::named(format!("{}'", name_of(*v)));
                ren.insert(bdd::top_var(p), *v);
                r = bdd::and(r, bdd::iff(p, b));
            }
        }
        let r = bdd::exists(r, &|v| !ren.contains_key(&v) && g.variant_var(v));
        let r = bdd::compose(r, &ren);
        pc = bdd::or(pc, r);
    }
    (State { pc, mem, ev: entries[0].ev.clone() }, g)
}
/// The state with every scalar simplified under what is known on its path.
fn narrow(e: &Eng, s: &State) -> State {
    if s.pc == bdd::T {
        return s.clone();
    }
    let mut memo = HashMap::new();
    let mem = s.mem.iter().map(|(k, v)| (k.clone(), narrow_v(e, s.pc, v, &mut memo))).collect();
    State { pc: s.pc, mem, ev: s.ev.clone() }
}
fn narrow_v(e: &Eng, pc: Bdd, v: &V, memo: &mut HashMap<Bdd, Bdd>) -> V {
    match v {
        V::B(b) => {
            let b = b.iter().map(|x| if *x <= 1 { *x } else { *memo.entry(*x).or_insert_with(|| bdd::simplify(*x, pc)) }).collect();
            mk_bits(b)
        }
        V::Agg(a) => V::agg(a.iter().map(|x| narrow_v(e, pc, x, memo)).collect()),
        V::En(x) => {
            let mut y = (**x).clone();
            y.disc = narrow_v(e, pc, &y.disc, memo);
            let only = match &y.disc {
                V::C(c, _) => Some(*c as usize),
                _ => None,
            };
            if let Some(k) = only {
                if y.pay.contains_key(&k) {
                    y.pay.retain(|i, _| *i == k);
                }
            }
            for p in y.pay.values_mut() {
                for x in p.iter_mut() {
                    *x = narrow_v(e, pc, x, memo);
                }
            }
            V::En(Rc::new(y))
        }
        V::It(it) => match &**it {
            IterV::Slice { ptr, i, end, mutbl } => V::It(Rc::new(IterV::Slice {
                ptr: ptr.clone(),
                i: narrow_v(e, pc, i, memo),
                end: narrow_v(e, pc, end, memo),
                mutbl: *mutbl,
            })),
            _ => v.clone(),
        },
        V::Obj(n, a) => V::Obj(n, Rc::new(a.iter().map(|x| narrow_v(e, pc, x, memo)).collect())),
        _ => v.clone(),
    }
}
fn name_of(v: Bdd) -> String {
    match bdd::var_atom(bdd::top_var(v)) {
        Atom::Named(n) => n.clone(),
        Atom::Le(l) => format!("{l:?}"),
    }
}

fn lin_atom(l: &Lin) -> Bdd {
    let l = crate::dom::norm(l);
    if l.t.is_empty() {
        return if l.c <= 0 { bdd::T } else { bdd::F };
    }
    if l.t[0].1 < 0 {
        bdd::not(bdd::atom(Atom::Le(l.neg().plus(1))))
    } else {
        bdd::atom(Atom::Le(l))
    }
}

pub fn widen_loop(
    e: &mut Eng,
    fr: &mut Fr,
    h: usize,
    body: &[Wto],
    entry: Vec<State>,
    blocks: &BTreeSet<usize>,
    pend: &mut HashMap<usize, Vec<State>>,
) {
    let no = unsafe {
        LOOP_NO += 1;
        LOOP_NO
    };
    let fresh0 = fresh_no();
    let saved = pend.clone();
    let (np, ng, nl, nr) = (e.panics.len(), e.gaps.len(), e.loops.len(), fr.rets.len());
    let ngh = e.hard_gaps.len();
    let nob = e.obls.len();
    if entry.iter().any(|s| s.ev != entry[0].ev) {
        e.hard_gap(format!("loop bb{h} of {} entered with different histories", fr.bi.name));
    }
    let mut backs: Vec<State> = vec![];
    let mut prev: Option<State> = None;
    let mut prev_full: Option<State> = None;
    let mut dropped: BTreeSet<Lin> = BTreeSet::new();
    let mut cands: BTreeSet<Lin> = BTreeSet::new();
    let mut round = 0;
    let mut preds: Vec<Lin> = vec![];
    loop {
        round += 1;
        let (mut head, g) = build(e, fr, no, fresh0, &entry, &backs, prev.as_ref(), round <= 3, &mut preds);
        // Candidate linear relations.
        let ne = entry.len();
        let mut fresh_cands: Vec<Lin> = vec![];
        for (s, vals) in &g.lins {
            let ev: Vec<&Lin> = vals[..ne].iter().flatten().collect();
            if ev.is_empty() {
                continue;
            }
            for x in &ev {
                let d = Lin::s(*s).sub(x);
                fresh_cands.push(d.clone());
                fresh_cands.push(d.neg());
            }
        }
        fresh_cands.extend(g.order.iter().cloned());
        // Pairs are only worth relating once both are seen to change in step with something.
        let moves = |vals: &Vec<Option<Lin>>| {
            vals[ne..].iter().any(|v| match v {
                Some(l) => l.t.is_empty() || l.t.iter().any(|(s, _)| mentions(s.key(), 'φ', no)),
                None => false,
            })
        };
        for (a, (s, v1)) in g.lins.iter().enumerate() {
            if !moves(v1) {
                continue;
            }
            for (t, v2) in g.lins.iter().skip(a + 1) {
                if !moves(v2) {
                    continue;
                }
                if let (Some(Some(x)), Some(Some(y))) = (v1[..ne].first(), v2[..ne].first()) {
                    for d in [Lin::s(*s).sub(&Lin::s(*t)).sub(&x.sub(y)), Lin::s(*s).add(&Lin::s(*t)).sub(&x.add(y))] {
                        fresh_cands.push(d.clone());
                        fresh_cands.push(d.neg());
                    }
                    // A position and a length left over.
                    let d = Lin::s(*s).sub(&Lin::s(*t));
                    for d in [d.clone(), d.neg()] {
                        fresh_cands.push(d.plus(1)); // an index and a length
                        fresh_cands.push(d);
                    }
                }
            }
        }
        // Guards taken on the way round.
        let phis: BTreeSet<Sym> = g.lins.iter().map(|x| x.0).collect();
        for s in &backs {
            let facts = e.dom.facts(s.pc);
            for f in facts.iter() {
                if f.t.iter().any(|(x, _)| phis.contains(x))
                    && f.t.iter().all(|(x, _)| phis.contains(x) || !g.variant_key(x.key()))
                {
                    for k in [0, -1, -2] {
                        fresh_cands.push(f.plus(k));
                    }
                }
            }
        }
        for c in fresh_cands {
            let c = crate::dom::norm(&c);
            if c.t.is_empty() || dropped.contains(&c) || cands.contains(&c) {
                continue;
            }
            if cands.iter().any(|d| d.t == c.t && d.c >= c.c) {
                continue; // implied
            }
            // Must hold on entry.
            let ok = (0..ne).all(|k| match g.subst(&c, k) {
                Some(l) => e.dom.proves(entry[k].pc, &l),
                None => false,
            });
            if ok {
                cands.insert(c);
            } else {
                dropped.insert(c);
            }
        }
        // Drop what the back edges break.
        let mut changed = false;
        if round > 1 {
            let mut keep = BTreeSet::new();
            for c in &cands {
                let ok = (0..backs.len()).all(|k| match g.subst(c, ne + k) {
                    Some(l) => e.dom.proves(backs[k].pc, &l),
                    None => false,
                }) && (0..ne).all(|k| match g.subst(c, k) {
                    Some(l) => e.dom.proves(entry[k].pc, &l),
                    None => false,
                });
                if ok {
                    keep.insert(c.clone());
                } else {
                    dropped.insert(c.clone());
                    changed = true;
                }
            }
            cands = keep;
        }
        let base = head.clone();
        for c in &cands {
            if c.ub().map_or(false, |u| u <= 0) {
                continue;
            }
            head.pc = bdd::and(head.pc, lin_atom(c));
        }
        if e.trace {
            eprintln!(
                "widen {} bb{h} φ{no} round {round}: {} bits {} lins {} cands backs {} hard {:?}",
                fr.bi.name, g.bits.len(), g.lins.len(), cands.len(), backs.len(), g.hard
            );
            for (s, v) in &g.lins {
                eprintln!("   {:?} <- {:?}", s, v);
            }
            for c in &cands {
                eprintln!("   {c:?} <= 0");
            }
        }
        let stable = !changed
            && prev.as_ref().map_or(false, |p| p.mem == base.mem)
            && prev_full.as_ref().map_or(false, |p| p.pc == head.pc);
        if round > 30 {
            e.hard_gap(format!("loop bb{h} of {} does not settle", fr.bi.name));
        }
        if stable || round > 30 {
            for x in &g.hard {
                e.hard_gap(format!("{x} in loop bb{h} of {}", fr.bi.name));
            }
            let ph = prev_full.unwrap();
            let mut exits = vec![];
            for (b, v) in pend.iter() {
                if !blocks.contains(b) {
                    for s in v {
                        if !saved.get(b).map_or(false, |x| x.iter().any(|t| t.pc == s.pc && t.mem == s.mem)) {
                            exits.push((*b, s.clone()));
                        }
                    }
                }
            }
            for s in fr.rets[nr..].iter() {
                exits.push((usize::MAX, s.clone()));
            }
            let rec = LoopRec {
                func: fr.bi.name.clone(),
                head: h,
                depth: fr.depth,
                no,
                stack: e.stack.clone(),
                entries: entry.clone(),
                iters: vec![LoopIter { head: ph, backs: backs.clone(), exits }],
            };
            e.loops.push(rec);
            return;
        }
        prev = Some(base);
        prev_full = Some(head.clone());
        // Run the body.
        *pend = saved.clone();
        e.panics.truncate(np);
        e.gaps.truncate(ng);
        e.hard_gaps.truncate(ngh);
        e.loops.truncate(nl);
        e.obls.truncate(nob);
        fr.rets.truncate(nr);
        if head.pc == bdd::F {
            return;
        }
        e.iteration(fr, h, body, head, pend);
        backs = pend.remove(&h).unwrap_or_default();
        for s in &backs {
            if s.ev != entry[0].ev {
                e.hard_gap(format!("events recorded inside loop bb{h} of {}", fr.bi.name));
                break;
            }
        }
        if e.start.elapsed().as_secs_f64() > e.limit {
            e.hard_gap("analysis budget exhausted".into());
            return;
        }
    }
}
