//! Abstract interpreter over monomorphised MIR: a dataflow analysis whose states are a
//! path condition (boolean domain) plus abstract memory, joined at control-flow merges.
use crate::bdd::{self, Bdd};
use crate::body::{strip, BodyInfo, Wto};
use crate::dom::Dom;
use crate::tyx::{self, Kind, Tag};
use crate::val::*;
use crate::widen;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub what: String,
    pub args: Vec<V>,
    pub at: String,
}
#[derive(Debug, PartialEq)]
pub struct EvNode {
    pub prev: EvList,
    pub ev: Event,
}
pub type EvList = Option<Rc<EvNode>>;

#[derive(Clone, Debug)]
pub struct State {
    pub pc: Bdd,
    pub mem: BTreeMap<AllocId, V>,
    pub ev: EvList,
}
impl State {
    pub fn new() -> State {
        State { pc: bdd::T, mem: BTreeMap::new(), ev: None }
    }
    pub fn log(&mut self, what: &str, args: Vec<V>, at: &str) {
        let prev = self.ev.take();
        self.ev = Some(Rc::new(EvNode { prev, ev: Event { what: what.into(), args, at: at.into() } }));
    }
    pub fn events(&self) -> Vec<Event> {
        let mut v = vec![];
        let mut c = &self.ev;
        while let Some(n) = c {
            v.push(n.ev.clone());
            c = &n.prev;
        }
        v.reverse();
        v
    }
    pub fn with(&self, c: Bdd) -> Option<State> {
        let pc = bdd::and(self.pc, c);
        if pc == bdd::F {
            return None;
        }
        Some(State { pc, ..self.clone() })
    }
}

#[derive(Clone, Debug)]
pub struct Panic {
    pub pc: Bdd,
    pub msg: String,
    pub func: String,
    pub at: String,
    pub stack: Vec<String>,
}

/// One analysed loop of unbounded length.
#[derive(Clone)]
pub struct LoopRec {
    pub func: String,
    pub head: usize,
    pub depth: usize,
    pub no: u64,
    /// Nesting: name of each enclosing function activation.
    pub stack: Vec<String>,
    pub entries: Vec<State>,
    /// Per partition: head state, states on its back edges, states leaving the loop.
    pub iters: Vec<LoopIter>,
}
#[derive(Clone)]
pub struct LoopIter {
    pub head: State,
    pub backs: Vec<State>,
    pub exits: Vec<(usize, State)>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub funcs: BTreeSet<String>,
    pub local_funcs: BTreeSet<String>,
    pub blocks: usize,
    pub calls: usize,
    pub asserts: usize,
    pub loops: usize,
}

pub type Outs = Vec<(State, V)>;
pub type Hook = Rc<dyn Fn(&mut Eng, &State, &CallInfo, &[V]) -> Option<Outs>>;
pub struct CallInfo {
    pub inst: Instance,
    pub name: String,
    pub stripped: String,
    pub at: String,
    pub ret: Ty,
    pub arg_tys: Vec<Ty>,
}

pub struct Eng {
    pub dom: Dom,
    pub wide_bits: bool,
    pub consts: Vec<V>,
    pub statics: BTreeSet<String>,
    pub sym_ty: HashMap<Sym, Ty>,
    pub heap_ty: HashMap<AllocId, Ty>,
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub names: HashMap<Instance, (Rc<str>, Rc<str>)>,
    pub next_heap: u64,
    pub panics: Vec<Panic>,
    /// Places where nothing is known and anything is assumed.
    pub gaps: Vec<String>,
    /// Places where the analysis stops being an over-approximation.
    pub hard_gaps: Vec<String>,
    /// Obligations raised by monitors: key, states violating it, explanation.
    pub obls: Vec<Obl>,
    pub loops: Vec<LoopRec>,
    pub stats: Stats,
    pub hooks: Vec<Hook>,
    /// A node whose visits by neighbour iterators are followed individually.
    pub witness: Option<V>,
    /// The loops being run, outermost first.
    pub loop_now: Vec<(String, usize)>,
    /// Consulted at the end of every loop iteration, with the name of the function.
    pub back_hooks: Vec<Rc<dyn Fn(&mut Eng, &mut State, &str)>>,
    /// What the elements of a filtered sequence are known to satisfy.
    pub filters: HashMap<Sym, Vec<Filter>>,
    /// Offsets known to lie between characters of a text.
    pub bounds: std::collections::HashSet<(Sym, Lin)>,
    /// Which text a sequence of bytes belongs to.
    pub byteseq: HashMap<Sym, Sym>,
    pub stack: Vec<String>,
    pub stack_inst: Vec<Instance>,
    pub call_ats: Vec<String>,
    /// Receive every panic-free event of interest.
    pub max_loop: usize,
    pub trace: bool,
    /// Per type: facts assumed of every unknown value of that type.
    pub opq_hook: Option<Rc<dyn Fn(&mut Eng, Sym, Ty) -> Option<V>>>,
    pub cap: usize,
    /// Do not join states holding different unknown 64-bit words in the same variable.
    pub sep_words: bool,
    /// Loops are not split by the value of 64-bit words.
    pub few: bool,
    /// Characters read from texts, and where from.
    pub chars: HashMap<Bits, (Sym, Lin)>,
    /// Words with a name for the number of their set bits.
    pub counted: Vec<(Bits, Bits)>,
    pub start: std::time::Instant,
    pub limit: f64,
}

/// A predicate, with the memory it looks at.
#[derive(Clone)]
pub struct Filter {
    pub f: V,
    pub ty: Ty,
    pub snap: State,
    pub depth: usize,
}

/// Which unknown sequences a state's variables hold.
/// Whether the constants a body lifts out of itself can be found: those of a trait's own body
/// of a method are looked for in the override.
fn loadable(i: Instance) -> bool {
    use rustc_middle::{mir, ty};
    struct Lifted(bool);
    impl<'a> mir::visit::Visitor<'a> for Lifted {
        fn visit_const_operand(&mut self, c: &mir::ConstOperand<'a>, _: mir::Location) {
            self.0 |= matches!(c.const_, mir::Const::Unevaluated(u, _) if u.promoted.is_some());
        }
    }
    ty::tls::with(|tcx| {
        let x = rustc_public::rustc_internal::internal(tcx, i);
        let ty::InstanceKind::Item(d) = x.def else { return true };
        if tcx.trait_of_assoc(d).is_none() || !tcx.is_mir_available(d) {
            return true;
        }
        let mut v = Lifted(false);
        mir::visit::Visitor::visit_body(&mut v, tcx.instance_mir(x.def));
        let own = ty::Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), d, x.args);
        !v.0 || matches!(own, Ok(Some(o)) if o.def_id() == d)
    })
}
/// Whether one state is the other with an iterator over a few known places moved on.
fn spelled_out(a: &State, b: &State) -> bool {
    fn moved(x: &V, y: &V) -> bool {
        match (x, y) {
            (V::It(p), V::It(q)) => match (&**p, &**q) {
                (IterV::Slice { i, end, .. }, IterV::Slice { i: j, end: n, .. })
                | (IterV::Own { i, end, .. }, IterV::Own { i: j, end: n, .. }) => {
                    match (i.as_const(), end.as_const(), j.as_const(), n.as_const()) {
                        (Some(i), Some(e), Some(j), Some(n)) => (i, e) != (j, n) && e - i <= 16 && n - j <= 16,
                        _ => false,
                    }
                }
                _ => false,
            },
            (V::Agg(p), V::Agg(q)) => p.iter().zip(q.iter()).any(|(x, y)| moved(x, y)),
            _ => false,
        }
    }
    a.mem.iter().any(|(k, v)| b.mem.get(k).map_or(false, |w| moved(v, w)))
}
fn seq_shape(s: &State) -> String {
    let mut out = String::new();
    for (k, v) in &s.mem {
        if let V::Seq(q) = v {
            match &q.base {
                Some((b, l)) => {
                    let o: Vec<_> = q.over.iter().map(|x| &x.0).collect();
                    out.push_str(&format!("{k:?}={} {l:?} {o:?};", b.key()))
                }
                None => out.push_str(&format!("{k:?}=[{}];", q.tail.len())),
            }
        }
    }
    out
}
#[derive(Clone)]
pub struct Obl {
    pub key: String,
    pub bad: Bdd,
    pub text: String,
    pub at: String,
}

pub struct Fr {
    pub bi: Rc<BodyInfo>,
    pub depth: usize,
    pub rets: Vec<State>,
}

pub struct Loc {
    pub alloc: AllocId,
    pub path: Vec<PE>,
    pub meta: Option<(V, V)>,
    /// Set when the place denotes a value held inline (`*s` for a `&str`).
    pub direct: Option<V>,
}

/// Index of the local holding the event-free frames.
pub fn span_str(s: Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename();
    let f = f.rsplit("/src/").next().unwrap_or("").to_string();
    format!("{}:{}", f, l.start_line)
}

/// Fills in the payload of a variant of a lazily expanded enum.
pub fn materialize(e: &mut EnumV, v: usize) {
    if e.pay.contains_key(&v) {
        return;
    }
    let Some(s) = e.src else { return };
    let n = tyx::variant_name(e.ty, v);
    let p = tyx::fields(e.ty, v)
        .into_iter()
        .enumerate()
        .map(|(i, t)| V::Opq(s.child(format!("{n}.{i}")), t))
        .collect();
    e.pay.insert(v, p);
}

impl Eng {
    pub fn new() -> Eng {
        Eng {
            dom: Dom::default(),
            wide_bits: false,
            consts: vec![],
            statics: BTreeSet::new(),
            sym_ty: HashMap::new(),
            heap_ty: HashMap::new(),
            bodies: HashMap::new(),
            names: HashMap::new(),
            next_heap: 0,
            panics: vec![],
            gaps: vec![],
            hard_gaps: vec![],
            obls: vec![],
            loops: vec![],
            stats: Stats::default(),
            hooks: vec![],
            witness: None,
            loop_now: vec![],
            back_hooks: vec![],
            filters: HashMap::new(),
            bounds: Default::default(),
            byteseq: HashMap::new(),
            stack: vec![],
            stack_inst: vec![],
            call_ats: vec![],
            max_loop: 3000,
            trace: std::env::var("SA_TRACE").is_ok(),
            opq_hook: None,
            cap: 40,
            sep_words: false,
            few: false,
            chars: HashMap::new(),
            counted: vec![],
            start: std::time::Instant::now(),
            limit: 800.0,
        }
    }
    pub fn new_const(&mut self, v: V) -> AllocId {
        if let Some(i) = self.consts.iter().position(|x| *x == v) {
            return AllocId::Const(i as u32);
        }
        self.consts.push(v);
        AllocId::Const(self.consts.len() as u32 - 1)
    }
    pub fn heap(&mut self, st: &mut State, v: V, ty: Ty) -> AllocId {
        self.next_heap += 1;
        let a = AllocId::Heap(self.next_heap);
        self.heap_ty.insert(a.clone(), ty);
        st.mem.insert(a.clone(), v);
        a
    }
    pub fn gap(&mut self, s: String) {
        let s = format!("{s} [in {}]", self.stack.last().cloned().unwrap_or_default());
        if self.trace {
            eprintln!("GAP {s}");
        }
        if !self.gaps.contains(&s) {
            self.gaps.push(s);
        }
    }
    pub fn hard_gap(&mut self, s: String) {
        let s = format!("{s} [in {}]", self.stack.last().cloned().unwrap_or_default());
        if self.trace {
            eprintln!("HARD GAP {s}");
        }
        if !self.hard_gaps.contains(&s) {
            self.hard_gaps.push(s);
        }
    }
    /// A monitor's obligation: `c` must hold wherever `pc` does.
    pub fn obl(&mut self, key: &str, pc: Bdd, c: Bdd, text: String) {
        let mut bad = bdd::and(pc, bdd::not(c));
        if bad != bdd::F && self.dom.empty(bad) {
            bad = bdd::F;
        }
        let at = format!("{} at {}", self.stack.last().cloned().unwrap_or_default(), self.call_ats.last().cloned().unwrap_or_default());
        if self.trace && bad != bdd::F {
            eprintln!("OBL {key} {text} at {at}");
        }
        self.obls.push(Obl { key: key.into(), bad, text, at });
    }
    pub fn panic(&mut self, pc: Bdd, msg: String, at: String) {
        if pc == bdd::F || self.dom.empty(pc) {
            return;
        }
        let func = self.stack.last().cloned().unwrap_or_default();
        if self.trace {
            eprintln!("PANIC {msg} at {at} in {func} pc={:?}", self.dom.facts(pc));
        }
        self.panics.push(Panic { pc, msg, func, at, stack: self.stack.clone() });
    }
    pub fn instance_names(&mut self, i: Instance) -> (Rc<str>, Rc<str>) {
        if let Some(n) = self.names.get(&i) {
            return n.clone();
        }
        let n = i.name().to_string();
        let s = strip(&n);
        let r: (Rc<str>, Rc<str>) = (n.into(), s.into());
        self.names.insert(i, r.clone());
        r
    }
    pub fn body(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let b = if i.has_body() && loadable(i) { i.body().map(|b| Rc::new(BodyInfo::new(i, b))) } else { None };
        self.bodies.insert(i, b.clone());
        b
    }

    // ------------------------------------------------------------ unknown values

    pub fn use_bits(&self, ty: Ty) -> bool {
        match tyx::int_info(ty) {
            Some((w, s)) => self.wide_bits || w <= 16 && !s || tyx::is_char(ty),
            None => false,
        }
    }
    /// One level of expansion of an unknown value.
    pub fn expand(&mut self, s: Sym, ty: Ty) -> V {
        if let Some(h) = self.opq_hook.clone() {
            if let Some(v) = h(self, s, ty) {
                return v;
            }
        }
        if let Some((w, signed)) = tyx::int_info(ty) {
            if self.use_bits(ty) {
                let n = if tyx::is_char(ty) { 21 } else { w as usize };
                let mut b: Bits = (0..n).map(|i| bdd::named(format!("{}[{i}]", s.key()))).collect();
                b.resize(w as usize, bdd::F);
                return mk_bits(b);
            }
            let (lo, hi) = if signed {
                (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
            } else {
                (0, if w >= 127 { i128::MAX - 1 } else { (1i128 << w) - 1 })
            };
            let s = Sym::ranged(s.key(), lo, hi);
            return V::L(Rc::new(Lin::s(s)), w);
        }
        match tyx::kind(ty) {
            Kind::Vec | Kind::BitVec => {
                return match tyx::elem(ty) {
                    Some(e) => V::Seq(Rc::new(SeqV::unknown(e, s))),
                    None => V::Opq(s, ty),
                }
            }
            Kind::String => {
                let len = Sym::ranged(format!("len({})", s.key()), 0, i64::MAX as i128);
                return V::Str(Rc::new(StrV(vec![Piece::Sub(s, Lin::k(0), Lin::s(len))])));
            }
            Kind::Str => {
                let len = Sym::ranged(format!("len({})", s.key()), 0, i64::MAX as i128);
                return V::Str(Rc::new(StrV(vec![Piece::Sub(s, Lin::k(0), Lin::s(len))])));
            }
            Kind::HashMap | Kind::HashSet => {
                let a = tyx::adt_args(ty);
                let set = tyx::kind(ty) == Kind::HashSet;
                let len = Sym::ranged(format!("len({})", s.key()), 0, i64::MAX as i128);
                return V::Map(Rc::new(MapV {
                    kty: a[0],
                    vty: if set { None } else { Some(a[1]) },
                    base: Some(s),
                    len: Lin::s(len),
                    absent: vec![],
                    ents: vec![],
                    dirty: None,
                }));
            }
            Kind::Graph => {
                let a = tyx::adt_args(ty);
                return crate::models::graph_unknown(s, a[0], a[1]);
            }
            Kind::Ptr => {
                let Some(p) = tyx::pointee(ty) else { return V::Opq(s, ty) };
                let c = s.child("*");
                if let Some(RigidTy::Slice(e)) = tyx::rigid(p) {
                    self.sym_ty.insert(c, p);
                    let len = Sym::ranged(format!("len({})", c.key()), 0, i64::MAX as i128);
                    let _ = e;
                    return V::Ref(Rc::new(Ptr {
                        alloc: AllocId::Sym(c),
                        path: vec![],
                        meta: Some((V::us(0), V::lin(Lin::s(len), 64))),
                    }));
                }
                if matches!(tyx::rigid(p), Some(RigidTy::Dynamic(..))) {
                    return V::Opq(s, ty);
                }
                self.sym_ty.insert(c, p);
                return V::Ref(Rc::new(Ptr { alloc: AllocId::Sym(c), path: vec![], meta: None }));
            }
            Kind::Other => {}
        }
        match tyx::rigid(ty) {
            Some(RigidTy::FnDef(..)) => V::Fun(ty),
            Some(RigidTy::Slice(e)) => V::Seq(Rc::new(SeqV::unknown(e, s))),
            Some(RigidTy::Array(e, _)) => match tyx::array_len(ty) {
                Some(n) if n <= 256 => V::agg((0..n).map(|i| V::Opq(s.child(i), e)).collect()),
                _ => V::Opq(s, ty),
            },
            Some(RigidTy::Tuple(ts)) => {
                V::agg(ts.iter().enumerate().map(|(i, t)| V::Opq(s.child(i), *t)).collect())
            }
            Some(RigidTy::Closure(..)) => V::agg(
                tyx::fields(ty, 0).iter().enumerate().map(|(i, t)| V::Opq(s.child(i), *t)).collect(),
            ),
            Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => {
                let n = tyx::num_variants(ty);
                if n == 0 {
                    return V::Undef;
                }
                // A chain of choices: every assignment of the variables is a valid variant.
                let mut disc = const_bits(n as u128 - 1, 8);
                for v in (0..n - 1).rev() {
                    let b = bdd::named(format!("{} is {}", s.key(), tyx::variant_name(ty, v)));
                    disc = b_ite(b, &const_bits(v as u128, 8), &disc);
                }
                V::En(Rc::new(EnumV { ty, disc: mk_bits(disc), pay: BTreeMap::new(), src: Some(s) }))
            }
            Some(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Struct => {
                let names = tyx::field_names(ty, 0);
                if tyx::adt_last(ty).map_or(false, |n| n.ends_with("Flags") || n == "InternalBitFlags") && names.len() == 1 {
                    let f = tyx::fields(ty, 0)[0];
                    if let Some((w, _)) = tyx::int_info(f) {
                        let b: Bits = (0..w).map(|i| bdd::named(format!("{}[{i}]", s.key()))).collect();
                        return V::agg(vec![mk_bits(b)]);
                    }
                }
                V::agg(
                    tyx::fields(ty, 0)
                        .iter()
                        .zip(&names)
                        .map(|(t, n)| V::Opq(s.child(n), *t))
                        .collect(),
                )
            }
            _ => V::Opq(s, ty),
        }
    }
    pub fn force(&mut self, v: V) -> V {
        match v {
            V::Opq(s, t) => self.expand(s, t),
            v => v,
        }
    }
    pub fn fresh_of(&mut self, tag: &str, ty: Ty) -> V {
        let s = fresh(tag);
        self.expand(s, ty)
    }

    // ------------------------------------------------------------ memory

    pub fn load(&mut self, st: &State, a: &AllocId) -> V {
        if let Some(v) = st.mem.get(a) {
            return v.clone();
        }
        match a {
            AllocId::Const(i) => self.consts[*i as usize].clone(),
            AllocId::Sym(s) => match self.sym_ty.get(s) {
                Some(t) => {
                    let t = *t;
                    self.expand(*s, t)
                }
                None => V::Undef,
            },
            _ => V::Undef,
        }
    }
    pub fn alloc_ty(&self, a: &AllocId) -> Option<Ty> {
        match a {
            AllocId::Sym(s) => self.sym_ty.get(s).copied(),
            a => self.heap_ty.get(a).copied(),
        }
    }
    pub fn get(&mut self, st: &State, v: V, pe: &[PE]) -> V {
        let Some(p) = pe.first() else { return v };
        let v = self.force(v);
        let rest = &pe[1..];
        let r = match (&v, p) {
            (V::Agg(a), PE::F(i)) => a.get(*i).cloned().unwrap_or(V::Undef),
            (V::Obj(_, a), PE::F(i)) => a.get(*i).cloned().unwrap_or(V::Undef),
            (V::Ref(_) | V::Str(_) | V::Fun(_), PE::F(_)) => v.clone(),
            (V::En(e), PE::Var(x)) => {
                let mut e = (**e).clone();
                materialize(&mut e, *x);
                match e.pay.get(x) {
                    Some(f) => V::agg(f.clone()),
                    None => V::Undef,
                }
            }
            (V::En(e), PE::F(i)) => {
                // Single-variant enum or a coroutine-like projection.
                let e = (**e).clone();
                match e.disc.as_const() {
                    Some(d) => e.pay.get(&(d as usize)).and_then(|f| f.get(*i).cloned()).unwrap_or(V::Undef),
                    None => V::Undef,
                }
            }
            (V::Agg(a), PE::I(i)) => self.index_agg(st, a, i),
            (V::Seq(s), PE::I(i)) => self.index_seq(st, s, i),
            (V::Map(m), PE::I(k)) => crate::models::map_value(self, st, m, k),
            (V::Undef, _) => V::Undef,
            (V::Obj(..), PE::I(k)) => crate::models::graph_index(self, st, &v, k),
            (V::It(_) , PE::F(_)) => V::Undef,
            _ => {
                self.gap(format!("projection {p:?} of {}", kindname(&v)));
                V::Undef
            }
        };
        self.get(st, r, rest)
    }
    fn index_agg(&mut self, st: &State, a: &[V], i: &V) -> V {
        if let Some(k) = i.as_const() {
            return a.get(k as usize).cloned().unwrap_or(V::Undef);
        }
        if a.is_empty() {
            return V::Undef;
        }
        let mut r: Option<V> = None;
        for (k, x) in a.iter().enumerate() {
            let x = self.force(x.clone());
            let c = self.v_eq_const(st, i, k as u128);
            if bdd::and(st.pc, c) == bdd::F {
                continue;
            }
            r = Some(match r {
                None => x,
                Some(o) => match merge(c, &x, &o) {
                    Some(m) => m,
                    None => {
                        self.gap("symbolic index over values of different shape".into());
                        return V::Undef;
                    }
                },
            });
        }
        r.unwrap_or(V::Undef)
    }
    pub fn v_eq_const(&mut self, st: &State, v: &V, k: u128) -> Bdd {
        let v = self.force(v.clone());
        match &v {
            V::C(c, _) => {
                if *c == k {
                    bdd::T
                } else {
                    bdd::F
                }
            }
            V::B(b) => b_eq(b, &const_bits(k, b.len())),
            V::L(l, _) => self.dom.eq0(st.pc, &l.plus(-(k as i128))),
            _ => {
                self.gap(format!("comparison of {}", kindname(&v)));
                bdd::named(fresh("¿cmp").key())
            }
        }
    }
    /// `v` as a linear expression.
    pub fn lin_of(&mut self, v: &V) -> Option<Lin> {
        match self.force(v.clone()) {
            V::B(b) => {
                // Value numbering of a bit vector.
                let mut hi = 0i128;
                let mut key = format!("bv{}", bdd::epoch());
                for (i, x) in b.iter().enumerate() {
                    if *x != bdd::F && i < 120 {
                        hi |= 1 << i;
                    }
                    key += &format!(",{x}");
                }
                Some(Lin::s(Sym::ranged(key, 0, hi)))
            }
            v => v.as_lin(),
        }
    }
    /// Whether a path condition settles a condition.
    pub fn decide(&mut self, pc: Bdd, q: Bdd) -> Option<bool> {
        let (y, n) = (bdd::and(pc, q), bdd::and(pc, bdd::not(q)));
        if n == bdd::F || self.dom.empty(n) {
            return Some(true);
        }
        if y == bdd::F || self.dom.empty(y) {
            return Some(false);
        }
        None
    }
    pub fn index_seq(&mut self, st: &State, s: &Rc<SeqV>, i: &V) -> V {
        let Some(l) = self.lin_of(i) else { return V::Opq(fresh("¿elem"), s.ty) };
        let base = match &s.base {
            None => Lin::k(0),
            Some((_, b)) => b.clone(),
        };
        if let Some(k) = l.sub(&base).is_const() {
            if k >= 0 {
                return s.tail.get(k as usize).cloned().unwrap_or(V::Undef);
            }
        }
        if !s.tail.is_empty() {
            // Which part is it in?
            if !self.dom.proves(st.pc, &l.plus(1).sub(&base)) {
                if s.base.is_none() {
                    let t: Vec<V> = s.tail.clone();
                    return self.index_agg(st, &t, i);
                }
                return V::Opq(fresh("¿elem"), s.ty);
            }
        }
        for (k, v) in s.over.iter().rev() {
            let d = l.sub(k);
            if d.is_const() == Some(0) {
                return v.clone();
            }
            if d.is_const().is_none() {
                let e = self.dom.eq0(st.pc, &d);
                match self.decide(st.pc, e) {
                    Some(false) => continue,
                    Some(true) => return v.clone(),
                    None => return V::Opq(fresh("¿elem"), s.ty),
                }
            }
        }
        match &s.base {
            Some((b, _)) => match self.byteseq.get(b) {
                Some(r) => crate::text::byte(*r, &l),
                None => V::Opq(b.child(format!("[{l:?}]")), s.ty),
            },
            None => V::Undef,
        }
    }
    pub fn set(&mut self, st: &State, v: V, pe: &[PE], new: V) -> V {
        let Some(p) = pe.first() else { return new };
        let v = self.force(v);
        let rest = &pe[1..];
        match (v, p) {
            (V::Agg(a), PE::F(i)) => {
                let mut a = (*a).clone();
                while a.len() <= *i {
                    a.push(V::Undef);
                }
                let old = std::mem::replace(&mut a[*i], V::Undef);
                a[*i] = self.set(st, old, rest, new);
                V::agg(a)
            }
            (V::Obj(n, a), PE::F(i)) => {
                let mut a = (*a).clone();
                let old = std::mem::replace(&mut a[*i], V::Undef);
                a[*i] = self.set(st, old, rest, new);
                V::Obj(n, Rc::new(a))
            }
            (V::En(e), PE::Var(x)) => {
                let mut e = (*e).clone();
                materialize(&mut e, *x);
                let Some(PE::F(i)) = rest.first() else {
                    if let V::Agg(a) = new {
                        e.pay.insert(*x, (*a).clone());
                    }
                    return V::En(Rc::new(e));
                };
                let f = e.pay.entry(*x).or_default();
                while f.len() <= *i {
                    f.push(V::Undef);
                }
                let old = f[*i].clone();
                let nv = self.set(st, old, &rest[1..], new);
                e.pay.get_mut(x).unwrap()[*i] = nv;
                V::En(Rc::new(e))
            }
            (V::Agg(a), PE::I(i)) => {
                let mut a = (*a).clone();
                if let Some(k) = i.as_const() {
                    if (k as usize) < a.len() {
                        let old = std::mem::replace(&mut a[k as usize], V::Undef);
                        a[k as usize] = self.set(st, old, rest, new);
                    }
                    return V::agg(a);
                }
                for k in 0..a.len() {
                    let c = self.v_eq_const(st, i, k as u128);
                    if bdd::and(st.pc, c) == bdd::F {
                        continue;
                    }
                    let old = self.force(a[k].clone());
                    let nv = self.set(st, old.clone(), rest, new.clone());
                    a[k] = match merge(c, &nv, &old) {
                        Some(m) => m,
                        None => {
                            self.gap("symbolic index write over values of different shape".into());
                            V::Undef
                        }
                    };
                }
                V::agg(a)
            }
            (V::Seq(s), PE::I(i)) => {
                let mut q = (*s).clone();
                let old = self.index_seq(st, &s, i);
                let Some(l) = self.lin_of(i) else {
                    self.gap("write at unknown index".into());
                    return V::Seq(Rc::new(SeqV::unknown(q.ty, fresh("seq"))));
                };
                let base = q.base.as_ref().map_or(Lin::k(0), |b| b.1.clone());
                let d = l.sub(&base).is_const();
                let nv = self.set(st, old, rest, new);
                match d {
                    Some(k) if k >= 0 => {
                        if (k as usize) < q.tail.len() {
                            q.tail[k as usize] = nv;
                        }
                    }
                    _ if q.base.is_none() => {
                        // Constant-length sequence, symbolic index.
                        for k in 0..q.tail.len() {
                            let c = self.v_eq_const(st, i, k as u128);
                            let old = self.force(q.tail[k].clone());
                            q.tail[k] = merge(c, &nv, &old).unwrap_or_else(|| V::Opq(fresh("elem"), q.ty));
                        }
                    }
                    _ => {
                        let in_base = q.tail.is_empty() || self.dom.proves(st.pc, &l.plus(1).sub(&base));
                        if !in_base {
                            for t in q.tail.iter_mut() {
                                *t = V::Opq(fresh("elem"), q.ty);
                            }
                        }
                        let mut over = vec![];
                        for (k, v) in q.over {
                            let e = self.dom.eq0(st.pc, &l.sub(&k));
                            if e == bdd::F {
                                over.push((k, v));
                            } else if e != bdd::T {
                                over.push((k, V::Opq(fresh("elem"), q.ty)));
                            }
                        }
                        over.push((l, nv));
                        q.over = over;
                    }
                }
                V::Seq(Rc::new(q))
            }
            (V::Map(m), PE::I(k)) => {
                let old = crate::models::map_value(self, st, &m, k);
                let nv = self.set(st, old, rest, new);
                crate::models::map_set(self, st, &m, k, nv)
            }
            (v @ V::Obj(..), PE::I(k)) => {
                let old = crate::models::graph_index(self, st, &v, k);
                let nv = self.set(st, old, rest, new);
                crate::models::graph_set(self, st, v, k, nv)
            }
            (V::Ref(_) | V::Fun(_), PE::F(_)) => self.set(st, V::Undef, rest, new),
            (V::Undef, PE::F(i)) => {
                let mut a = vec![V::Undef; i + 1];
                a[*i] = self.set(st, V::Undef, rest, new);
                if *i == 0 && matches!(a[0], V::Ref(_)) && rest.is_empty() {
                    return a.pop().unwrap();
                }
                V::agg(a)
            }
            (v, p) => {
                self.hard_gap(format!("write through {p:?} of {}", kindname(&v)));
                v
            }
        }
    }
    pub fn read_ptr(&mut self, st: &State, p: &Ptr) -> V {
        let v = self.load(st, &p.alloc);
        self.get(st, v, &p.path)
    }
    pub fn write_ptr(&mut self, st: &mut State, p: &Ptr, v: V) {
        let old = self.load(st, &p.alloc);
        let n = self.set(st, old, &p.path, v);
        st.mem.insert(p.alloc.clone(), n);
    }
    /// What a reference value points at.
    pub fn deref(&mut self, st: &State, v: &V) -> Option<Ptr> {
        match self.force(v.clone()) {
            V::Ref(p) => Some((*p).clone()),
            V::Agg(a) if a.len() == 1 => self.deref(st, &a[0].clone()),
            _ => None,
        }
    }
    pub fn read_ref(&mut self, st: &State, v: &V) -> V {
        match self.force(v.clone()) {
            V::Ref(p) => self.read_ptr(st, &p),
            s @ V::Str(_) => s,
            V::Agg(a) if a.len() == 1 => self.read_ref(st, &a[0].clone()),
            v => {
                self.gap(format!("dereference of {}", kindname(&v)));
                V::Undef
            }
        }
    }
    pub fn write_ref(&mut self, st: &mut State, r: &V, v: V) {
        match self.deref(st, r) {
            Some(p) => self.write_ptr(st, &p, v),
            None => self.hard_gap(format!("write through {}", kindname(r))),
        }
    }
    pub fn place(&mut self, fr: &Fr, st: &State, p: &Place) -> Loc {
        let mut loc = Loc { alloc: AllocId::Local(fr.depth, p.local), path: vec![], meta: None, direct: None };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let v = match loc.direct.take() {
                        Some(v) => v,
                        None => {
                            let b = self.load(st, &loc.alloc);
                            self.get(st, b, &loc.path)
                        }
                    };
                    let v = self.force(v);
                    match v {
                        V::Ref(r) => {
                            loc.alloc = r.alloc.clone();
                            loc.path = r.path.clone();
                            loc.meta = r.meta.clone();
                        }
                        V::Agg(a) if a.len() == 1 && matches!(a[0], V::Ref(_)) => {
                            let V::Ref(r) = &a[0] else { unreachable!() };
                            loc.alloc = r.alloc.clone();
                            loc.path = r.path.clone();
                            loc.meta = r.meta.clone();
                        }
                        V::Str(_) => loc.direct = Some(v),
                        V::Undef => loc.direct = Some(V::Undef),
                        V::Fun(_) => loc.direct = Some(v),
                        v => {
                            self.gap(format!("dereference of {}", kindname(&v)));
                            loc.direct = Some(V::Undef);
                        }
                    }
                }
                ProjectionElem::Field(i, _) => self.proj(st, &mut loc, PE::F(*i)),
                ProjectionElem::Downcast(v) => self.proj(st, &mut loc, PE::Var(tyx::vidx(*v))),
                ProjectionElem::Index(l) => {
                    let i = self.load(st, &AllocId::Local(fr.depth, *l));
                    let i = self.abs_index(&loc, i);
                    self.proj(st, &mut loc, PE::I(i));
                    loc.meta = None;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end {
                        let n = self.loc_len(st, &loc);
                        self.vsub(&n, *offset as i128)
                    } else {
                        V::us(*offset as u128)
                    };
                    let i = self.abs_index(&loc, i);
                    self.proj(st, &mut loc, PE::I(i));
                    loc.meta = None;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.loc_len(st, &loc);
                    let start = loc.meta.as_ref().map_or(V::us(0), |m| m.0.clone());
                    let s2 = self.vadd_k(&start, *from as i128);
                    let l2 = if *from_end {
                        self.vsub(&n, (*from + *to) as i128)
                    } else {
                        V::us((*to - *from) as u128)
                    };
                    loc.meta = Some((s2, l2));
                }
                ProjectionElem::OpaqueCast(_) => {}
            }
        }
        loc
    }
    fn vadd_k(&mut self, v: &V, k: i128) -> V {
        match v {
            V::B(b) => mk_bits(b_add(b, &const_bits(k as u128, b.len()), bdd::F).0),
            _ => match self.lin_of(v) {
                Some(l) => V::lin(l.plus(k), 64),
                None => V::Undef,
            },
        }
    }
    fn vsub(&mut self, v: &V, k: i128) -> V {
        match v {
            V::B(b) => mk_bits(b_sub(b, &const_bits(k as u128, b.len())).0),
            _ => self.vadd_k(v, -k),
        }
    }
    pub fn vadd(&mut self, a: &V, b: &V) -> V {
        let (a, b) = (self.force(a.clone()), self.force(b.clone()));
        if let (V::C(0, _), x) | (x, V::C(0, _)) = (&a, &b) {
            return x.clone();
        }
        match (a.bits(), b.bits()) {
            (Some(x), Some(y)) => mk_bits(b_add(&x, &y, bdd::F).0),
            _ => match (self.lin_of(&a), self.lin_of(&b)) {
                (Some(x), Some(y)) => V::lin(x.add(&y), 64),
                _ => V::Undef,
            },
        }
    }
    fn abs_index(&mut self, loc: &Loc, i: V) -> V {
        match &loc.meta {
            Some((s, _)) => self.vadd(&s.clone(), &i),
            None => i,
        }
    }
    pub fn loc_len(&mut self, st: &State, loc: &Loc) -> V {
        if let Some((_, n)) = &loc.meta {
            return n.clone();
        }
        let v = match &loc.direct {
            Some(v) => v.clone(),
            None => {
                let b = self.load(st, &loc.alloc);
                self.get(st, b, &loc.path)
            }
        };
        self.len_of(&v)
    }
    pub fn len_of(&mut self, v: &V) -> V {
        match self.force(v.clone()) {
            V::Agg(a) => V::us(a.len() as u128),
            V::Seq(s) => V::lin(s.len(), 64),
            V::Str(s) => V::lin(crate::models::str_len(&s), 64),
            v => {
                self.gap(format!("length of {}", kindname(&v)));
                V::Undef
            }
        }
    }
    fn proj(&mut self, st: &State, loc: &mut Loc, p: PE) {
        if let Some(v) = loc.direct.take() {
            loc.direct = Some(self.get(st, v, &[p]));
            return;
        }
        // Fields of a pointer wrapper (Box, NonNull, Unique) are the pointer itself.
        if let PE::F(_) = p {
            let b = self.load(st, &loc.alloc);
            if let V::Ref(_) = self.get(st, b, &loc.path) {
                return;
            }
        }
        loc.path.push(p);
    }
    pub fn read_loc(&mut self, st: &State, loc: &Loc) -> V {
        if let Some(v) = &loc.direct {
            return v.clone();
        }
        let b = self.load(st, &loc.alloc);
        let v = self.get(st, b, &loc.path);
        // Reading a scalar forces it.
        match v {
            V::Opq(s, t) if tyx::int_info(t).is_some() || tyx::kind(t) != Kind::Other => self.expand(s, t),
            v => v,
        }
    }
    pub fn write_loc(&mut self, st: &mut State, loc: &Loc, v: V) {
        if loc.direct.is_some() {
            self.hard_gap("write to an inline value".into());
            return;
        }
        if let AllocId::Const(_) = loc.alloc {
            self.hard_gap("write to constant memory".into());
        }
        if loc.path.is_empty() {
            st.mem.insert(loc.alloc.clone(), v);
            return;
        }
        let old = self.load(st, &loc.alloc);
        let n = self.set(st, old, &loc.path, v);
        st.mem.insert(loc.alloc.clone(), n);
    }
    pub fn operand(&mut self, fr: &Fr, st: &State, o: &Operand) -> V {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let l = self.place(fr, st, p);
                self.read_loc(st, &l)
            }
            Operand::Constant(c) => crate::consts::constant(self, &c.const_),
            Operand::RuntimeChecks(RuntimeChecks::OverflowChecks) => V::C(1, 1),
            Operand::RuntimeChecks(_) => V::C(0, 1),
        }
    }

    // ------------------------------------------------------------ rvalues

    pub fn v_eq(&mut self, st: &State, a: &V, b: &V) -> Bdd {
        let (a, b) = (self.force(a.clone()), self.force(b.clone()));
        if a == b {
            return bdd::T;
        }
        match (&a, &b) {
            (V::C(..) | V::B(..), V::C(..) | V::B(..)) => {
                let (x, y) = (a.bits().unwrap(), b.bits().unwrap());
                b_eq(&x, &y)
            }
            (V::L(..) | V::C(..) | V::B(..), V::L(..) | V::C(..) | V::B(..)) => {
                let (x, y) = (self.lin_of(&a).unwrap(), self.lin_of(&b).unwrap());
                self.dom.eq0(st.pc, &x.sub(&y))
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                let mut r = bdd::T;
                for (p, q) in x.iter().zip(y.iter()) {
                    r = bdd::and(r, self.v_eq(st, p, q));
                }
                r
            }
            (V::En(x), V::En(y)) => {
                let (Some(dx), Some(dy)) = (x.disc.bits(), y.disc.bits()) else { return self.unk_eq(&a, &b) };
                let mut r = b_eq(&dx, &dy);
                let (mut x, mut y) = ((**x).clone(), (**y).clone());
                for v in 0..tyx::num_variants(x.ty) {
                    let g = b_eq(&dx, &const_bits(v as u128, 8));
                    if bdd::and(bdd::and(g, r), st.pc) == bdd::F {
                        continue;
                    }
                    materialize(&mut x, v);
                    materialize(&mut y, v);
                    if let (Some(p), Some(q)) = (x.pay.get(&v).cloned(), y.pay.get(&v).cloned()) {
                        for (p, q) in p.iter().zip(&q) {
                            let e = self.v_eq(st, p, q);
                            r = bdd::and(r, bdd::or(bdd::not(g), e));
                        }
                    }
                }
                r
            }
            (V::Ref(p), V::Ref(q)) => {
                let (p, q) = (p.clone(), q.clone());
                let (x, y) = (self.read_ptr(st, &p), self.read_ptr(st, &q));
                self.v_eq(st, &x, &y)
            }
            (V::Str(_), V::Str(_)) => crate::models::str_eq(self, st, &a, &b),
            (V::Seq(x), V::Seq(y)) if x.base.is_none() && y.base.is_none() => {
                if x.tail.len() != y.tail.len() {
                    return bdd::F;
                }
                let (x, y) = (x.tail.clone(), y.tail.clone());
                let mut r = bdd::T;
                for (p, q) in x.iter().zip(&y) {
                    r = bdd::and(r, self.v_eq(st, p, q));
                }
                r
            }
            _ => self.unk_eq(&a, &b),
        }
    }
    /// An uninterpreted equality.
    pub fn unk_eq(&mut self, a: &V, b: &V) -> Bdd {
        let (x, y) = (format!("{a:?}"), format!("{b:?}"));
        let (x, y) = if x <= y { (x, y) } else { (y, x) };
        bdd::named(format!("eq({x} , {y})"))
    }

    fn signed_lin(&mut self, v: &V, w: u16) -> Option<Lin> {
        match v {
            V::C(c, _) => {
                let c = *c & mask(w);
                Some(Lin::k(if w < 128 && c >> (w - 1) & 1 == 1 { c as i128 - (1i128 << w) } else { c as i128 }))
            }
            v => self.lin_of(v),
        }
    }

    /// Binary operation; returns the (wrapped) result and the overflow condition.
    pub fn binop(&mut self, st: &State, op: BinOp, a: &V, b: &V, ty: Ty) -> (V, Bdd) {
        let (mut a, mut b) = (self.force(a.clone()), self.force(b.clone()));
        if !self.wide_bits {
            for x in [&mut a, &mut b] {
                if let V::B(v) = x {
                    if v.len() > 16 {
                        *x = mk_bits(v.iter().map(|f| bdd::simplify(*f, st.pc)).collect());
                    }
                }
            }
        }
        // Pointers.
        if let (V::Ref(p), V::Ref(q)) = (&a, &b) {
            let e = if p == q { bdd::T } else if p.alloc != q.alloc { bdd::F } else {
                let (p, q) = (p.clone(), q.clone());
                self.ptr_eq(st, &p, &q)
            };
            return match op {
                BinOp::Eq => (boolv(e), bdd::F),
                BinOp::Ne => (boolv(bdd::not(e)), bdd::F),
                _ => {
                    self.gap(format!("pointer {op:?}"));
                    (V::Undef, bdd::F)
                }
            };
        }
        let signed = tyx::int_info(ty).map_or(false, |x| x.1);
        if let (Some(x), Some(y)) = (a.bits(), b.bits()) {
            return self.bits_op(op, x, y, signed);
        }
        let w = a.width().or(b.width()).unwrap_or(64);
        let (la, lb) = if signed {
            (self.signed_lin(&a, w), self.signed_lin(&b, b.width().unwrap_or(w)))
        } else {
            (self.lin_of(&a), self.lin_of(&b))
        };
        let (Some(x), Some(y)) = (la, lb) else {
            if matches!(a, V::Undef) || matches!(b, V::Undef) {
                // Propagate silently; the cause was recorded where it arose.
            } else {
                self.gap(format!("{op:?} on {} and {}", kindname(&a), kindname(&b)));
            }
            return match op {
                BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge => {
                    (boolv(bdd::named(fresh("¿cmp").key())), bdd::F)
                }
                _ => (V::Undef, bdd::F),
            };
        };
        let (lo, hi) = if signed {
            (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
        } else {
            (0, if w >= 127 { i128::MAX / 2 } else { (1i128 << w) - 1 })
        };
        let fit = |me: &mut Eng, r: Lin| -> (V, Bdd) {
            let over = bdd::or(
                bdd::not(me.dom.le0(st.pc, &r.plus(-hi))),
                bdd::not(me.dom.le0(st.pc, &r.neg().plus(lo))),
            );
            if bdd::and(st.pc, over) == bdd::F {
                return (V::lin_s(r, w, signed), bdd::F);
            }
            (V::lin_s(r, w, signed), over)
        };
        match op {
            BinOp::Add | BinOp::AddUnchecked => fit(self, x.add(&y)),
            BinOp::Sub | BinOp::SubUnchecked => fit(self, x.sub(&y)),
            BinOp::Mul | BinOp::MulUnchecked => {
                if let Some(k) = y.is_const() {
                    fit(self, x.scale(k))
                } else if let Some(k) = x.is_const() {
                    fit(self, y.scale(k))
                } else {
                    let s = Sym::ranged(format!("({x:?})*({y:?})"), lo, hi);
                    (V::L(Rc::new(Lin::s(s)), w), bdd::named(format!("ovf {}", s.key())))
                }
            }
            BinOp::Eq => (boolv(self.dom.eq0(st.pc, &x.sub(&y))), bdd::F),
            BinOp::Ne => (boolv(bdd::not(self.dom.eq0(st.pc, &x.sub(&y)))), bdd::F),
            BinOp::Le => (boolv(self.dom.le0(st.pc, &x.sub(&y))), bdd::F),
            BinOp::Lt => (boolv(self.dom.le0(st.pc, &x.sub(&y).plus(1))), bdd::F),
            BinOp::Ge => (boolv(self.dom.le0(st.pc, &y.sub(&x))), bdd::F),
            BinOp::Gt => (boolv(self.dom.le0(st.pc, &y.sub(&x).plus(1))), bdd::F),
            BinOp::Cmp => {
                let lt = self.dom.le0(st.pc, &x.sub(&y).plus(1));
                let eq = self.dom.eq0(st.pc, &x.sub(&y));
                (ordering(self, lt, eq), bdd::F)
            }
            BinOp::Shl | BinOp::ShlUnchecked if y.is_const().is_some() => {
                let k = y.is_const().unwrap();
                if k < 0 || k >= w as i128 {
                    return (V::Opq(fresh("shl"), ty), bdd::T);
                }
                let r = x.scale(1 << k);
                let f = fit(self, r);
                if f.1 != bdd::F {
                    let s = Sym::ranged(format!("({x:?})<<{k}"), lo, hi);
                    return (V::L(Rc::new(Lin::s(s)), w), bdd::F);
                }
                (f.0, bdd::F)
            }
            BinOp::Div | BinOp::Shr | BinOp::ShrUnchecked if y.is_const().is_some() && !signed => {
                let k = y.is_const().unwrap();
                let d = if op == BinOp::Div { k } else if k < w as i128 { 1 << k } else { 0 };
                if d <= 0 {
                    return (V::Opq(fresh("div"), ty), bdd::F);
                }
                (V::lin(self.div_k(&x, d), w), bdd::F)
            }
            BinOp::Rem if y.is_const().is_some() && !signed => {
                let k = y.is_const().unwrap();
                let q = self.div_k(&x, k);
                (V::lin(x.sub(&q.scale(k)), w), bdd::F)
            }
            BinOp::BitAnd if !signed => {
                for (l, k) in [(&x, &y), (&y, &x)] {
                    if let Some(m) = k.is_const() {
                        if (m + 1) & m == 0 {
                            let q = self.div_k(l, m + 1);
                            return (V::lin(l.sub(&q.scale(m + 1)), w), bdd::F);
                        }
                        // x & !(2^k - 1)
                        let inv = hi - m;
                        if (inv + 1) & inv == 0 {
                            let q = self.div_k(l, inv + 1);
                            return (V::lin(q.scale(inv + 1), w), bdd::F);
                        }
                    }
                }
                let s = Sym::ranged(format!("({x:?})&({y:?})"), 0, hi);
                (V::L(Rc::new(Lin::s(s)), w), bdd::F)
            }
            _ => {
                let s = Sym::ranged(format!("{op:?}({x:?} , {y:?})"), lo, hi);
                (V::L(Rc::new(Lin::s(s)), w), bdd::F)
            }
        }
    }
    fn ptr_eq(&mut self, st: &State, p: &Ptr, q: &Ptr) -> Bdd {
        if p.path.len() != q.path.len() {
            return bdd::F;
        }
        let mut r = bdd::T;
        for (a, b) in p.path.iter().zip(&q.path) {
            match (a, b) {
                (PE::I(x), PE::I(y)) => r = bdd::and(r, self.v_eq(st, x, y)),
                (a, b) if a == b => {}
                _ => return bdd::F,
            }
        }
        r
    }
    fn div_k(&mut self, x: &Lin, d: i128) -> Lin {
        if d == 1 {
            return x.clone();
        }
        let hi = x.ub().map_or(i64::MAX as i128 * 2, |m| m / d);
        let s = Sym::ranged(format!("({x:?})/{d}"), 0, hi);
        let q = Lin::s(s);
        // d*q <= x <= d*q + d-1
        self.dom.def(s, q.scale(d).sub(x));
        self.dom.def(s, x.sub(&q.scale(d)).plus(-(d - 1)));
        q
    }
    fn bits_op(&mut self, op: BinOp, x: Bits, y: Bits, signed: bool) -> (V, Bdd) {
        let w = x.len();
        let lt = |x: &Bits, y: &Bits| if signed { b_slt(x, y) } else { b_ult(x, y) };
        let r = match op {
            BinOp::Add | BinOp::AddUnchecked => {
                let (r, c) = b_add(&x, &y, bdd::F);
                let o = if signed {
                    let (sx, sy, sr) = (x[w - 1], y[w - 1], r[w - 1]);
                    bdd::and(bdd::iff(sx, sy), bdd::xor(sx, sr))
                } else {
                    c
                };
                return (mk_bits(r), o);
            }
            BinOp::Sub | BinOp::SubUnchecked => {
                let (r, c) = b_sub(&x, &y);
                let o = if signed {
                    let (sx, sy, sr) = (x[w - 1], y[w - 1], r[w - 1]);
                    bdd::and(bdd::xor(sx, sy), bdd::xor(sx, sr))
                } else {
                    c
                };
                return (mk_bits(r), o);
            }
            BinOp::Mul | BinOp::MulUnchecked => {
                // Put the simpler operand second.
                let nc = |b: &Bits| b.iter().filter(|x| **x > 1).count();
                let (x, y) = if nc(&x) < nc(&y) { (y, x) } else { (x, y) };
                let mut x2 = x.clone();
                let mut y2 = y.clone();
                if signed {
                    x2.resize(2 * w, x[w - 1]);
                    y2.resize(2 * w, y[w - 1]);
                } else {
                    x2.resize(2 * w, bdd::F);
                    y2.resize(2 * w, bdd::F);
                }
                let r = b_mul(&x2, &y2);
                let o = if signed {
                    r[w - 1..].iter().fold(bdd::F, |o, b| bdd::or(o, bdd::xor(*b, r[w - 1])))
                } else {
                    b_or_all(&r[w..].to_vec())
                };
                return (mk_bits(r[..w].to_vec()), o);
            }
            BinOp::Div | BinOp::Rem => {
                if signed {
                    self.gap("signed division".into());
                    return (V::Undef, bdd::F);
                }
                // Power-of-two divisor: a shift.
                if let V::C(k, _) = mk_bits(y.clone()) {
                    if k.is_power_of_two() {
                        let n = k.trailing_zeros() as usize;
                        let r: Bits = if op == BinOp::Div {
                            (0..w).map(|i| if i + n < w { x[i + n] } else { bdd::F }).collect()
                        } else {
                            (0..w).map(|i| if i < n { x[i] } else { bdd::F }).collect()
                        };
                        return (mk_bits(r), bdd::F);
                    }
                }
                let (q, r) = b_divrem(&x, &y);
                return (mk_bits(if op == BinOp::Div { q } else { r }), bdd::F);
            }
            BinOp::BitAnd => x.iter().zip(&y).map(|(a, b)| bdd::and(*a, *b)).collect(),
            BinOp::BitOr => x.iter().zip(&y).map(|(a, b)| bdd::or(*a, *b)).collect(),
            BinOp::BitXor => x.iter().zip(&y).map(|(a, b)| bdd::xor(*a, *b)).collect(),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let k = w.trailing_zeros() as usize;
                let amt: Bits = y.iter().take(k).cloned().collect();
                let o = b_or_all(&y[k.min(y.len())..].to_vec());
                let r = if matches!(op, BinOp::Shl | BinOp::ShlUnchecked) {
                    b_shl(&x, &amt)
                } else {
                    b_shr(&x, &amt, if signed { x[w - 1] } else { bdd::F })
                };
                return (mk_bits(r), o);
            }
            BinOp::Eq => vec![b_eq(&x, &y)],
            BinOp::Ne => vec![bdd::not(b_eq(&x, &y))],
            BinOp::Lt => vec![lt(&x, &y)],
            BinOp::Gt => vec![lt(&y, &x)],
            BinOp::Le => vec![bdd::not(lt(&y, &x))],
            BinOp::Ge => vec![bdd::not(lt(&x, &y))],
            BinOp::Cmp => {
                let (l, e) = (lt(&x, &y), b_eq(&x, &y));
                return (ordering(self, l, e), bdd::F);
            }
            BinOp::Offset => {
                self.gap("pointer offset".into());
                return (V::Undef, bdd::F);
            }
        };
        (mk_bits(r), bdd::F)
    }

    pub fn cast_int(&mut self, st: &State, v: V, from: Ty, to: Ty) -> V {
        let v = self.force(v);
        let Some((w, ts)) = tyx::int_info(to) else { return V::Undef };
        let fs = tyx::int_info(from).map_or(false, |x| x.1);
        match &v {
            V::C(..) | V::B(..) => {
                let mut b = v.bits().unwrap();
                let ext = if fs { *b.last().unwrap() } else { bdd::F };
                b.resize(w as usize, ext);
                mk_bits(b)
            }
            V::L(l, fw) => {
                let (lo, hi) = if ts {
                    (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                } else {
                    (0, if w >= 127 { i128::MAX / 2 } else { (1i128 << w) - 1 })
                };
                let l = (**l).clone();
                if w >= *fw && fs == ts
                    || self.dom.proves(st.pc, &l.plus(-hi)) && self.dom.proves(st.pc, &l.neg().plus(lo))
                {
                    return V::L(Rc::new(l), w);
                }
                let s = Sym::ranged(format!("cast{w}({l:?})"), lo, hi);
                V::L(Rc::new(Lin::s(s)), w)
            }
            V::En(e) => {
                // Field-less enum to integer.
                let d = self.discr(&e.clone(), to);
                d
            }
            V::Undef => V::Undef,
            v => {
                self.gap(format!("integer cast of {}", kindname(v)));
                V::Undef
            }
        }
    }
    fn discr(&mut self, e: &EnumV, to: Ty) -> V {
        let w = tyx::int_info(to).map_or(64, |x| x.0);
        let n = tyx::num_variants(e.ty);
        if let V::C(d, _) = e.disc {
            return V::C(tyx::discr_val(e.ty, d as usize) & mask(w), w);
        }
        let Some(b) = e.disc.bits() else { return V::Undef };
        if (0..n).all(|v| tyx::discr_val(e.ty, v) == v as u128) {
            let mut b = b;
            b.resize(w as usize, bdd::F);
            return mk_bits(b);
        }
        let mut r = const_bits(tyx::discr_val(e.ty, n - 1) & mask(w), w as usize);
        for v in (0..n - 1).rev() {
            let c = b_eq(&b, &const_bits(v as u128, 8));
            r = b_ite(c, &const_bits(tyx::discr_val(e.ty, v) & mask(w), w as usize), &r);
        }
        mk_bits(r)
    }

    fn rvalue(&mut self, fr: &Fr, st: &State, r: &Rvalue, dest_ty: Ty) -> V {
        let locals = fr.bi.body.locals();
        match r {
            Rvalue::Use(o, _) => self.operand(fr, st, o),
            Rvalue::CopyForDeref(p) => {
                let l = self.place(fr, st, p);
                self.read_loc(st, &l)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) | Rvalue::Reborrow(_, _, p) => {
                let l = self.place(fr, st, p);
                if let Some(v) = l.direct {
                    return v;
                }
                let mut meta = l.meta;
                if meta.is_none() {
                    if let Some(t) = tyx::pointee(dest_ty) {
                        if tyx::is_slice(t) {
                            let b = self.load(st, &l.alloc);
                            let v = self.get(st, b, &l.path);
                            meta = Some((V::us(0), self.len_of(&v)));
                        }
                    }
                }
                V::Ref(Rc::new(Ptr { alloc: l.alloc, path: l.path, meta }))
            }
            Rvalue::Len(p) => {
                let l = self.place(fr, st, p);
                self.loc_len(st, &l)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(fr, st, o);
                let n = n.eval_target_usize().unwrap_or(0);
                V::agg(vec![v; n as usize])
            }
            Rvalue::Aggregate(k, ops) => {
                let vs: Vec<V> = ops.iter().map(|o| self.operand(fr, st, o)).collect();
                match k {
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let ty = Ty::from_rigid_kind(RigidTy::Adt(*d, args.clone()));
                        if d.kind() == AdtKind::Enum {
                            let v = tyx::vidx(*v);
                            return V::En(Rc::new(EnumV {
                                ty,
                                disc: V::C(v as u128, 8),
                                pay: BTreeMap::from([(v, vs)]),
                                src: None,
                            }));
                        }
                        if d.kind() == AdtKind::Union {
                            let _ = active;
                            return vs.into_iter().next().unwrap_or(V::Undef);
                        }
                        if tyx::kind(ty) == Kind::Ptr {
                            return vs.into_iter().next().unwrap_or(V::Undef);
                        }
                        V::agg(vs)
                    }
                    AggregateKind::RawPtr(..) => {
                        // (data pointer, metadata)
                        let mut it = vs.into_iter();
                        let p = it.next().unwrap();
                        let m = it.next().unwrap_or(V::Undef);
                        match (p, &m) {
                            (V::Ref(p), V::Agg(_)) => V::Ref(p),
                            (V::Ref(p), n) => {
                                let mut p = (*p).clone();
                                // Data pointer to an element: rebase.
                                let start = match p.path.last() {
                                    Some(PE::I(i)) if p.meta.is_none() => {
                                        let i = i.clone();
                                        p.path.pop();
                                        i
                                    }
                                    _ => p.meta.as_ref().map_or(V::us(0), |m| m.0.clone()),
                                };
                                p.meta = Some((start, n.clone()));
                                V::Ref(Rc::new(p))
                            }
                            (p, _) => p,
                        }
                    }
                    AggregateKind::Closure(..) if vs.is_empty() => V::agg(vec![]),
                    _ => V::agg(vs),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ty = a.ty(locals).unwrap();
                let (x, y) = (self.operand(fr, st, a), self.operand(fr, st, b));
                if *op == BinOp::Offset {
                    return self.ptr_offset(&x, &y);
                }
                let (v, o) = self.binop(st, *op, &x, &y, ty);
                if o != bdd::F && matches!(v, V::L(..)) && bdd::and(o, st.pc) != bdd::F {
                    // Wrapping result of unknown value.
                    return self.fresh_int(&format!("{op:?}"), ty);
                }
                v
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ty = a.ty(locals).unwrap();
                let (x, y) = (self.operand(fr, st, a), self.operand(fr, st, b));
                let (v, o) = self.binop(st, *op, &x, &y, ty);
                V::agg(vec![v, boolv(o)])
            }
            Rvalue::UnaryOp(op, a) => {
                let ty = a.ty(locals).unwrap();
                let x = self.operand(fr, st, a);
                let x = self.force(x);
                match op {
                    UnOp::Not => match x.bits() {
                        Some(b) => mk_bits(b_not(&b)),
                        None => match (&x, tyx::int_info(ty)) {
                            (V::L(l, w), Some((_, false))) => V::lin(l.neg().plus((1i128 << w) - 1), *w),
                            (V::L(l, w), Some((_, true))) => V::lin(l.neg().plus(-1), *w),
                            _ => V::Undef,
                        },
                    },
                    UnOp::Neg => match x.bits() {
                        Some(b) => mk_bits(b_add(&b_not(&b), &const_bits(0, b.len()), bdd::T).0),
                        None => match &x {
                            V::L(l, w) => V::lin(l.neg(), *w),
                            _ => V::Undef,
                        },
                    },
                    UnOp::PtrMetadata => match &x {
                        V::Ref(p) => match &p.meta {
                            Some((_, n)) => n.clone(),
                            None => V::unit(),
                        },
                        V::Str(s) => V::lin(crate::models::str_len(s), 64),
                        _ => V::unit(),
                    },
                }
            }
            Rvalue::Discriminant(p) => {
                let l = self.place(fr, st, p);
                let v = self.read_loc(st, &l);
                match self.force(v) {
                    V::En(e) => self.discr(&e, dest_ty),
                    V::Obj("entry", o) => o[0].clone(),
                    V::Undef => V::Undef,
                    v => {
                        self.gap(format!("discriminant of {}", kindname(&v)));
                        V::Undef
                    }
                }
            }
            Rvalue::Cast(k, o, to) => {
                let from = o.ty(locals).unwrap();
                let v = self.operand(fr, st, o);
                self.cast(st, k, v, from, *to)
            }
            Rvalue::ThreadLocalRef(_) => {
                self.gap("thread local".into());
                V::Undef
            }
        }
    }
    pub fn ptr_offset(&mut self, p: &V, n: &V) -> V {
        match p {
            V::Ref(p) => {
                let mut p = (**p).clone();
                match p.path.last().cloned() {
                    Some(PE::I(i)) => {
                        let j = self.vadd(&i, n);
                        *p.path.last_mut().unwrap() = PE::I(j);
                    }
                    _ => p.path.push(PE::I(n.clone())),
                }
                V::Ref(Rc::new(p))
            }
            _ => V::Undef,
        }
    }
    pub fn fresh_int(&mut self, tag: &str, ty: Ty) -> V {
        self.fresh_of(tag, ty)
    }
    fn cast(&mut self, st: &State, k: &CastKind, v: V, from: Ty, to: Ty) -> V {
        match k {
            CastKind::IntToInt => self.cast_int(st, v, from, to),
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                if let V::Ref(p) = &v {
                    if let (Some(f), Some(t)) = (tyx::pointee(from), tyx::pointee(to)) {
                        if let (Some(n), true) = (tyx::array_len(f), tyx::is_slice(t)) {
                            let mut p = (**p).clone();
                            p.meta = Some((V::us(0), V::us(n as u128)));
                            return V::Ref(Rc::new(p));
                        }
                    }
                }
                v
            }
            CastKind::PointerCoercion(_) => v,
            CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype | CastKind::BoxDerefTransmute => {
                match (&v, tyx::pointee(from), tyx::pointee(to)) {
                    // slice pointer to element pointer
                    (V::Ref(p), Some(f), Some(t))
                        if p.meta.is_some() && tyx::elem(f) == Some(t) && !tyx::is_slice(t) =>
                    {
                        let mut q = (**p).clone();
                        let (s, _) = q.meta.take().unwrap();
                        q.path.push(PE::I(s));
                        V::Ref(Rc::new(q))
                    }
                    (V::Ref(p), Some(f), Some(t)) if tyx::elem(f) == Some(t) && tyx::array_len(f).is_some() => {
                        let mut q = (**p).clone();
                        q.path.push(PE::I(V::us(0)));
                        V::Ref(Rc::new(q))
                    }
                    _ => v,
                }
            }
            CastKind::Transmute => {
                let v = self.force(v);
                match (&v, tyx::int_info(to)) {
                    (V::C(..) | V::B(..), Some((w, _))) if v.width() == Some(w) => v,
                    (V::L(_, w), Some((x, _))) if *w == x => v,
                    (V::C(..) | V::B(..), Some((w, _))) => {
                        // bool <-> u8
                        let mut b = v.bits().unwrap();
                        b.resize(w as usize, bdd::F);
                        mk_bits(b)
                    }
                    (V::Ref(_) | V::Str(_) | V::Fun(_), None) => v,
                    (V::Agg(a), _) if tyx::array_len(to) == Some(a.len() as u64) => v,
                    (V::Agg(a), Some(_)) if a.len() == 1 => self.cast(st, k, a[0].clone(), from, to),
                    (V::Agg(_), None) | (V::Seq(_), _) | (V::En(_), None) => v,
                    (V::C(..) | V::B(..) | V::L(..), None) => {
                        // Integer to a wrapper struct (NonZero and friends).
                        if tyx::is_aggregate(to) {
                            return V::agg(vec![v]);
                        }
                        // Field-less enum from its discriminant.
                        if tyx::is_enum(to) {
                            if let Some(e) = self.enum_from_discr(&v, to) {
                                return e;
                            }
                        }
                        self.gap("transmute of integer".into());
                        V::Opq(fresh("transmute"), to)
                    }
                    (V::En(e), Some(_)) => {
                        let e = e.clone();
                        self.discr(&e, to)
                    }
                    // Only the checks the compiler inserts before following a pointer turn it
                    // into a number: it is neither null nor misaligned.
                    (V::Ref(_), Some((64, _))) => V::us(1 << 40),
                    (V::Undef, _) => V::Undef,
                    _ => {
                        self.gap(format!("transmute of {}", kindname(&v)));
                        V::Opq(fresh("transmute"), to)
                    }
                }
            }
            _ => {
                self.gap(format!("cast {k:?}"));
                V::Opq(fresh("cast"), to)
            }
        }
    }
    pub fn enum_from_discr(&mut self, v: &V, ty: Ty) -> Option<V> {
        let b = v.bits()?;
        let n = tyx::num_variants(ty);
        let mut r = const_bits(n as u128 - 1, 8);
        for x in (0..n).rev() {
            let m = mask(b.len() as u16);
            let c = b_eq(&b, &const_bits(tyx::discr_val(ty, x) & m, b.len()));
            r = b_ite(c, &const_bits(x as u128, 8), &r);
        }
        Some(V::En(Rc::new(EnumV {
            ty,
            disc: mk_bits(r),
            pay: (0..n).map(|i| (i, vec![])).collect(),
            src: None,
        })))
    }

    // ------------------------------------------------------------ blocks

    fn statement(&mut self, fr: &Fr, st: &mut State, s: &Statement) {
        match &s.kind {
            StatementKind::Assign(p, r) => {
                let ty = p.ty(fr.bi.body.locals()).unwrap();
                let v = self.rvalue(fr, st, r, ty);
                let l = self.place(fr, st, p);
                self.write_loc(st, &l, v);
            }
            StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => {
                st.mem.remove(&AllocId::Local(fr.depth, *l));
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let l = self.place(fr, st, place);
                let v = self.read_loc(st, &l);
                let x = tyx::vidx(*variant_index);
                let ty = place.ty(fr.bi.body.locals()).unwrap();
                let mut e = match self.force(v) {
                    V::En(e) => (*e).clone(),
                    _ => EnumV { ty, disc: V::C(0, 8), pay: BTreeMap::new(), src: None },
                };
                e.disc = V::C(x as u128, 8);
                e.pay.entry(x).or_default();
                self.write_loc(st, &l, V::En(Rc::new(e)));
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(_)) => {}
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let n = self.operand(fr, st, &c.count);
                let (s, d) = (self.operand(fr, st, &c.src), self.operand(fr, st, &c.dst));
                if n.as_const() == Some(1) {
                    let v = self.read_ref(st, &s);
                    self.write_ref(st, &d, v);
                } else {
                    self.hard_gap("copy_nonoverlapping".into());
                }
            }
            _ => {}
        }
    }

    fn kill_dead(&mut self, fr: &Fr, st: &mut State, b: usize) {
        let live = &fr.bi.live_in[b];
        let d = fr.depth;
        let dead: Vec<usize> = st
            .mem
            .range(AllocId::Local(d, 0)..=AllocId::Local(d, usize::MAX))
            .filter_map(|(k, _)| match k {
                AllocId::Local(_, l) if !live[*l] && !fr.bi.borrowed[*l] => Some(*l),
                _ => None,
            })
            .collect();
        for l in dead {
            st.mem.remove(&AllocId::Local(d, l));
        }
    }

    /// Executes block `b` from `st`; pushes successor states.
    pub fn block(&mut self, fr: &mut Fr, b: usize, st: State, out: &mut Vec<(usize, State)>) {
        self.stats.blocks += 1;
        self.block_from(fr, b, 0, st, out)
    }
    /// Wrapping sum or difference whose linear value may leave its range: the values with and
    /// without a turn around, each under its own condition.
    fn turns(&mut self, fr: &Fr, st: &mut State, s: &Statement) -> Option<Vec<(State, V)>> {
        let StatementKind::Assign(_, Rvalue::BinaryOp(op, a, b)) = &s.kind else { return None };
        if !matches!(op, BinOp::Add | BinOp::Sub) {
            return None;
        }
        let ty = a.ty(fr.bi.body.locals()).unwrap();
        let Some((w, false)) = tyx::int_info(ty) else { return None };
        let (x, y) = (self.operand(fr, st, a), self.operand(fr, st, b));
        let (v, o) = self.binop(st, *op, &x, &y, ty);
        let V::L(l, _) = &v else { return None };
        if bdd::and(o, st.pc) == bdd::F {
            return None;
        }
        let turn = if *op == BinOp::Sub { 1i128 << w } else { -(1i128 << w) };
        let mut out = vec![];
        if let Some(s) = st.with(bdd::not(o)) {
            out.push((s, v.clone()));
        }
        if let Some(s) = st.with(o) {
            out.push((s, V::lin(l.plus(turn), w)));
        }
        Some(out)
    }
    fn block_from(&mut self, fr: &mut Fr, b: usize, first: usize, mut st: State, out: &mut Vec<(usize, State)>) {
        let bi = fr.bi.clone();
        let bb = &bi.body.blocks[b];
        for (i, s) in bb.statements.iter().enumerate().skip(first) {
            if let Some(alts) = self.turns(fr, &mut st, s) {
                let StatementKind::Assign(p, _) = &s.kind else { unreachable!() };
                for (mut s, v) in alts {
                    let l = self.place(fr, &s, p);
                    self.write_loc(&mut s, &l, v);
                    self.block_from(fr, b, i + 1, s, out);
                }
                return;
            }
            self.statement(fr, &mut st, s);
        }
        let at = || span_str(bb.terminator.source_info.span);
        match &bb.terminator.kind {
            TerminatorKind::Goto { target } | TerminatorKind::Drop { target, .. } => out.push((*target, st)),
            TerminatorKind::Return => fr.rets.push(st),
            TerminatorKind::Unreachable | TerminatorKind::Resume | TerminatorKind::Abort => {}
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(fr, &st, discr);
                let v = self.force(v);
                if let V::Undef = v {
                    self.gap(format!("branch on undefined value at {}", at()));
                    for t in targets.all_targets() {
                        let c = bdd::named(fresh("¿undef").key());
                        if let Some(s) = st.with(c) {
                            out.push((t, s));
                        }
                    }
                    return;
                }
                let mut rest = bdd::T;
                for (val, t) in targets.branches() {
                    let c = self.v_eq_const(&st, &v, val);
                    let cc = bdd::and(rest, c);
                    rest = bdd::and(rest, bdd::not(c));
                    if let Some(s) = st.with(cc) {
                        out.push((t, s));
                    }
                }
                if let Some(s) = st.with(rest) {
                    out.push((targets.otherwise(), s));
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                self.stats.asserts += 1;
                let v = self.operand(fr, &st, cond);
                let c = match self.force(v).as_bool() {
                    Some(c) => c,
                    None => {
                        self.gap(format!("assert on unknown at {}", at()));
                        bdd::T
                    }
                };
                let ok = if *expected { c } else { bdd::not(c) };
                let bad = bdd::and(st.pc, bdd::not(ok));
                if bad != bdd::F {
                    let m = msg.description().map(|s| s.to_string()).unwrap_or_else(|_| "index out of bounds".into());
                    self.panic(bad, m, at());
                }
                if let Some(s) = st.with(ok) {
                    out.push((*target, s));
                }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                self.stats.calls += 1;
                let fty = func.ty(bi.body.locals()).unwrap();
                let vs: Vec<V> = args.iter().map(|o| self.operand(fr, &st, o)).collect();
                let tys: Vec<Ty> = args.iter().map(|o| o.ty(bi.body.locals()).unwrap()).collect();
                let ret = destination.ty(bi.body.locals()).unwrap();
                self.call_ats.push(at());
                let outs = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                        Ok(i) => self.call(i, vs, tys, ret, st, target.is_none()),
                        Err(_) => {
                            self.hard_gap(format!("unresolved callee {}", d.name()));
                            let v = self.fresh_of("¿ret", ret);
                            vec![(st, v)]
                        }
                    },
                    _ => {
                        let f = self.operand(fr, &st, func);
                        match f {
                            V::Fun(t) => self.call_fn_item(t, vs, tys, ret, st),
                            _ => {
                                self.hard_gap("indirect call".into());
                                let v = self.fresh_of("¿ret", ret);
                                vec![(st, v)]
                            }
                        }
                    }
                };
                self.call_ats.pop();
                if let Some(t) = target {
                    for (mut s, v) in outs {
                        let l = self.place(fr, &s, destination);
                        self.write_loc(&mut s, &l, v);
                        out.push((*t, s));
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => self.hard_gap("inline assembly".into()),
        }
    }

    /// Calls a closure or function item with the given arguments.
    pub fn call_value(&mut self, f: &V, fty: Ty, args: Vec<V>, tys: Vec<Ty>, ret: Ty, st: State) -> Option<Outs> {
        let mut fty = fty;
        while let Some(t) = tyx::pointee(fty) {
            fty = t;
        }
        match fty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(..)) => Some(self.call_fn_item(fty, args, tys, ret, st)),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                let mut i = None;
                for k in [ClosureKind::FnMut, ClosureKind::Fn, ClosureKind::FnOnce] {
                    if let Ok(x) = Instance::resolve_closure(d, &a, k) {
                        if self.body(x).is_some() {
                            i = Some(x);
                            break;
                        }
                    }
                }
                let i = i?;
                let bi = self.body(i)?;
                let mut v = vec![f.clone()];
                v.extend(args);
                Some(self.run(i, bi, v, st))
            }
            _ => None,
        }
    }
    /// When a pure predicate holds of an element.
    pub fn keeps(&mut self, f: &Filter, pc: Bdd, elem: V, ty: Ty) -> Option<Bdd> {
        let mut s = f.snap.clone();
        s.pc = pc;
        let h = self.heap(&mut s, elem, ty);
        let r = V::Ref(Rc::new(Ptr { alloc: h, path: vec![], meta: None }));
        let n = self.stack_inst.len();
        let pad = *self.stack_inst.last()?;
        while self.stack_inst.len() < f.depth {
            self.stack_inst.push(pad);
        }
        let np = self.panics.len();
        let outs = self.call_value(&f.f, f.ty, vec![r], vec![ty], Ty::bool_ty(), s);
        self.stack_inst.truncate(n);
        self.panics.truncate(np);
        let mut k = bdd::F;
        for (s, v) in outs? {
            let b = self.force(v).as_bool()?;
            k = bdd::or(k, bdd::and(s.pc, b));
        }
        Some(k)
    }
    pub fn call_fn_item(&mut self, t: Ty, vs: Vec<V>, tys: Vec<Ty>, ret: Ty, st: State) -> Outs {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => return self.call(i, vs, tys, ret, st, false),
                Err(_) => {}
            },
            _ => {}
        }
        self.gap("call of unknown function value".into());
        let v = self.fresh_of("¿ret", ret);
        vec![(st, v)]
    }

    // ------------------------------------------------------------ calls

    pub fn call(&mut self, inst: Instance, args: Vec<V>, tys: Vec<Ty>, ret: Ty, st: State, diverges: bool) -> Outs {
        if self.start.elapsed().as_secs_f64() > self.limit {
            self.hard_gap("analysis budget exhausted".into());
            return vec![];
        }
        let (name, stripped) = self.instance_names(inst);
        let at = self.call_ats.last().cloned().unwrap_or_default();
        let ci = CallInfo { inst, name: name.to_string(), stripped: stripped.to_string(), at, ret, arg_tys: tys };
        for h in self.hooks.clone() {
            if let Some(o) = h(self, &st, &ci, &args) {
                return o;
            }
        }
        if inst.is_empty_shim() {
            return vec![(st, V::unit())];
        }
        if diverges {
            let m = crate::models::panic_msg(self, &st, &ci, &args);
            self.panic(st.pc, m, ci.at.clone());
            return vec![];
        }
        if let Some(o) = crate::models::model(self, &st, &ci, &args) {
            return o;
        }
        if ci.stripped.contains("hashbrown::") {
            return self.havoc_call(&ci, args, st);
        }
        let rec = self.stack_inst.iter().filter(|x| **x == inst).count();
        if rec == 0 && self.stack_inst.len() < 120 {
            if let Some(bi) = self.body(inst) {
                return self.run(inst, bi, args, st);
            }
        }
        self.havoc_call(&ci, args, st)
    }
    /// A call about which nothing is known: everything reachable through mutable
    /// references may change and the result may be anything.
    pub fn havoc_call(&mut self, ci: &CallInfo, args: Vec<V>, mut st: State) -> Outs {
        self.gap(format!("no model for {}", ci.stripped));
        for (a, t) in args.iter().zip(&ci.arg_tys) {
            self.havoc_arg(&ci.stripped, a, *t, &mut st, 0);
        }
        let v = self.fresh_of("¿ret", ci.ret);
        vec![(st, v)]
    }
    /// Forgets whatever can be changed through an argument.
    fn havoc_arg(&mut self, who: &str, a: &V, t: Ty, st: &mut State, depth: usize) {
        if depth > 6 {
            return;
        }
        if tyx::is_mut_ref(t) {
            let Some(pt) = tyx::pointee(t) else { return };
            let Some(p) = self.deref(st, a) else { return };
            if tyx::is_slice(pt) || p.meta.is_some() {
                self.hard_gap(format!("unmodelled {who} may change a slice"));
                return;
            }
            // What the pointee itself refers to may change as well.
            if tyx::is_aggregate(pt) || tyx::is_mut_ref(pt) {
                let cur = self.read_ptr(st, &p);
                self.havoc_arg(who, &cur, pt, st, depth + 1);
            }
            let v = self.fresh_of("¿havoc", pt);
            self.write_ptr(st, &p, v);
        } else if tyx::is_aggregate(t) {
            let fs = tyx::fields(t, 0);
            for (k, ft) in fs.iter().enumerate() {
                if tyx::is_mut_ref(*ft) || tyx::is_aggregate(*ft) {
                    let v = self.get(st, a.clone(), &[PE::F(k)]);
                    let v = self.force(v);
                    self.havoc_arg(who, &v, *ft, st, depth + 1);
                }
            }
        }
    }
    pub fn run(&mut self, inst: Instance, bi: Rc<BodyInfo>, mut args: Vec<V>, mut st: State) -> Outs {
        let (name, stripped) = self.instance_names(inst);
        let depth = self.stack_inst.len() + 1;
        let nargs = bi.body.arg_locals().len();
        // Closures take their arguments untupled.
        let is_closure = stripped.ends_with('}') && stripped.contains("{closure");
        if is_closure && args.len() == 2 && nargs != 2 || is_closure && args.len() == 2 && nargs == 2 && matches!(args[1], V::Agg(_)) {
            let t = args.pop().unwrap();
            let t = self.force(t);
            match t {
                V::Agg(a) => args.extend(a.iter().cloned()),
                V::Undef => {}
                t => args.push(t),
            }
        }
        if let Some(a) = bi.body.spread_arg() {
            // The callee spreads a tuple built from the remaining arguments.
            let k = a - 1;
            if args.len() != nargs {
                let rest = args.split_off(k);
                args.push(V::agg(rest));
            }
        }
        if args.len() != nargs {
            self.gap(format!("arity of {name}: {} for {}", args.len(), nargs));
            while args.len() < nargs {
                args.push(V::Undef);
            }
        }
        for (i, v) in args.into_iter().enumerate() {
            // Closure called by value although it expects itself by reference.
            let mut v = v;
            if i == 0 && is_closure {
                let t = bi.body.locals()[1].ty;
                if tyx::pointee(t).is_some() && !matches!(v, V::Ref(_)) {
                    let pt = tyx::pointee(t).unwrap();
                    let a = self.heap(&mut st, v, pt);
                    v = V::Ref(Rc::new(Ptr { alloc: a, path: vec![], meta: None }));
                } else if tyx::pointee(t).is_none() && matches!(v, V::Ref(_)) {
                    v = self.read_ref(&st, &v);
                }
            }
            st.mem.insert(AllocId::Local(depth, i + 1), v);
        }
        self.stats.funcs.insert(name.to_string());
        if inst.def.krate().is_local {
            self.stats.local_funcs.insert(name.to_string());
        }
        self.stack.push(name.to_string());
        self.stack_inst.push(inst);
        if self.trace {
            eprintln!("{}> {}", " ".repeat(depth), stripped);
        }
        let mut fr = Fr { bi: bi.clone(), depth, rets: vec![] };
        let mut pend: HashMap<usize, Vec<State>> = HashMap::new();
        pend.insert(0, vec![st]);
        self.wto(&mut fr, &bi.wto, &mut pend);
        self.stack.pop();
        self.stack_inst.pop();
        let mut outs: Outs = vec![];
        for mut s in std::mem::take(&mut fr.rets) {
            let v = s.mem.remove(&AllocId::Local(depth, 0)).unwrap_or(V::unit());
            let locals: Vec<AllocId> = s
                .mem
                .range(AllocId::Local(depth, 0)..AllocId::Local(depth + 1, 0))
                .map(|x| x.0.clone())
                .collect();
            for l in locals {
                s.mem.remove(&l);
            }
            outs.push((s, v));
        }
        let outs = self.merge_outs(outs);
        if self.trace {
            eprintln!("{}< {} ({} states)", " ".repeat(depth), stripped, outs.len());
        }
        outs
    }
    pub fn merge_outs(&mut self, outs: Outs) -> Outs {
        const R: AllocId = AllocId::Local(usize::MAX, 0);
        let mut acc: Vec<State> = vec![];
        for (mut s, v) in outs {
            s.mem.insert(R, v);
            self.add_state(&mut acc, s);
        }
        acc.into_iter()
            .map(|mut s| {
                let v = s.mem.remove(&R).unwrap();
                (s, v)
            })
            .collect()
    }
    /// Adds a state, merging it with one of the same shape if there is one.
    pub fn add_state(&mut self, acc: &mut Vec<State>, s: State) {
        let mut s = s;
        loop {
            let mut hit = None;
            for (i, t) in acc.iter().enumerate() {
                if let Some(m) = self.merge_states(t, &s) {
                    hit = Some((i, m));
                    break;
                }
            }
            match hit {
                Some((i, m)) => {
                    acc.remove(i);
                    s = m;
                }
                None => {
                    acc.push(s);
                    return;
                }
            }
        }
    }
    pub fn merge_states(&mut self, a: &State, b: &State) -> Option<State> {
        if a.ev != b.ev {
            return None;
        }
        if self.sep_words {
            // Keep apart states working on different 64-bit words.
            for (k, x) in &a.mem {
                if let (V::B(p), Some(V::B(q))) = (x, b.mem.get(k)) {
                    if p.len() == 64 && p != q {
                        return None;
                    }
                }
            }
        }
        let pc = bdd::or(a.pc, b.pc);
        // Guard choosing `a`, simplified given `pc`.
        let mut guard = None;
        let mut mem = BTreeMap::new();
        let keys: BTreeSet<&AllocId> = a.mem.keys().chain(b.mem.keys()).collect();
        for k in keys {
            let v = match (a.mem.get(k), b.mem.get(k)) {
                (Some(x), Some(y)) => {
                    if x == y {
                        x.clone()
                    } else {
                        let g = *guard.get_or_insert_with(|| bdd::restrict(a.pc, pc));
                        match merge(g, x, y) {
                            Some(v) => v,
                            None => {
                                let (x, y) = (self.deep_force(x, y), self.deep_force(y, x));
                                merge(g, &x, &y)?
                            }
                        }
                    }
                }
                (Some(x), None) | (None, Some(x)) => match k {
                    AllocId::Sym(s) => {
                        // The other side still has the original contents.
                        let t = *self.sym_ty.get(s)?;
                        let g = *guard.get_or_insert_with(|| bdd::restrict(a.pc, pc));
                        let o = self.expand(*s, t);
                        let o = self.deep_force(&o, x);
                        let x = self.deep_force(x, &o);
                        if a.mem.contains_key(k) {
                            merge(g, &x, &o)?
                        } else {
                            merge(g, &o, &x)?
                        }
                    }
                    AllocId::Const(_) => return None,
                    _ => x.clone(),
                },
                _ => unreachable!(),
            };
            mem.insert(k.clone(), v);
        }
        Some(State { pc, mem, ev: a.ev.clone() })
    }
    /// Expands unknown parts of `v` where `like` is already expanded.
    pub fn deep_force(&mut self, v: &V, like: &V) -> V {
        match (v, like) {
            (V::Opq(..), V::Opq(..)) => v.clone(),
            (V::Opq(s, t), _) => {
                let e = self.expand(*s, *t);
                if e == *v {
                    return e;
                }
                self.deep_force(&e, like)
            }
            (V::Agg(a), V::Agg(b)) if a.len() == b.len() => {
                V::agg(a.iter().zip(b.iter()).map(|(x, y)| self.deep_force(x, y)).collect())
            }
            (V::Obj(n, a), V::Obj(_, b)) if a.len() == b.len() => {
                V::Obj(n, Rc::new(a.iter().zip(b.iter()).map(|(x, y)| self.deep_force(x, y)).collect()))
            }
            (V::En(a), V::En(b)) => {
                let mut e = (**a).clone();
                let o = (**b).clone();
                for k in o.pay.keys() {
                    materialize(&mut e, *k);
                }
                for (k, f) in e.pay.iter_mut() {
                    if let Some(g) = o.pay.get(k) {
                        for (x, y) in f.iter_mut().zip(g) {
                            *x = self.deep_force(x, y);
                        }
                    }
                }
                V::En(Rc::new(e))
            }
            _ => v.clone(),
        }
    }

    // ------------------------------------------------------------ scheduling

    pub fn wto(&mut self, fr: &mut Fr, items: &[Wto], pend: &mut HashMap<usize, Vec<State>>) {
        for w in items {
            match w {
                Wto::B(b) => {
                    let ss = pend.remove(b).unwrap_or_default();
                    for s in ss {
                        self.step(fr, *b, s, pend);
                    }
                }
                Wto::L(h, body) => self.do_loop(fr, *h, body, pend),
            }
        }
    }
    pub fn step(&mut self, fr: &mut Fr, b: usize, s: State, pend: &mut HashMap<usize, Vec<State>>) {
        let mut out = vec![];
        self.block(fr, b, s, &mut out);
        for (t, mut s) in out {
            self.kill_dead(fr, &mut s, t);
            let mut v = pend.remove(&t).unwrap_or_default();
            self.add_state(&mut v, s);
            pend.insert(t, v);
        }
    }
    /// Runs one iteration of a loop from the given head state; back edges and exits are
    /// left in `pend`.
    pub fn iteration(&mut self, fr: &mut Fr, h: usize, body: &[Wto], s: State, pend: &mut HashMap<usize, Vec<State>>) {
        self.loop_now.push((fr.bi.name.to_string(), h));
        self.step(fr, h, s, pend);
        self.wto(fr, body, pend);
        for k in self.back_hooks.clone() {
            if let Some(v) = pend.get_mut(&h) {
                for s in v.iter_mut() {
                    k(self, s, &fr.bi.name);
                }
            }
        }
        self.loop_now.pop();
    }
    fn do_loop(&mut self, fr: &mut Fr, h: usize, body: &[Wto], pend: &mut HashMap<usize, Vec<State>>) {
        let entry = pend.remove(&h).unwrap_or_default();
        if entry.is_empty() {
            return;
        }
        self.stats.loops += 1;
        // First iteration decides how to treat the loop.
        let (np, ng, nl) = (self.panics.len(), self.gaps.len(), self.loops.len());
        let nrets = fr.rets.len();
        let mut blocks = BTreeSet::new();
        Wto::L(h, body.to_vec()).blocks(&mut blocks);
        let saved: HashMap<usize, Vec<State>> = pend.clone();
        let esup: BTreeSet<u32> = entry.iter().flat_map(|s| bdd::support(s.pc)).collect();
        let mut heads = entry.clone();
        let mut iters = 0;
        let mut desc = false;
        let mut first = true;
        let mut again = false;
        // Entry groups still to run, when each is followed to its end on its own: used for
        // counting loops, whose bodies then stay independent of where the count started.
        let mut later: Vec<State> = vec![];
        let mut separate = false;
        loop {
            if heads.is_empty() {
                if later.is_empty() {
                    return;
                }
                let (group, rest, _) = self.pick(fr, h, std::mem::take(&mut later), desc);
                later = rest;
                heads = group;
            }
            iters += 1;
            if iters > self.max_loop || iters > 700 && self.gaps.len() > ng {
                self.hard_gap(format!("loop bound exceeded at bb{h} of {}", fr.bi.name));
                return;
            }
            let (group, rest, key) = self.pick(fr, h, heads, desc);
            heads = rest;
            if self.trace {
                eprintln!("loop {} bb{h} iter {iters} key {key:?} rest {} later {} sep {separate} nodes {}", fr.bi.name, heads.len(), later.len(), bdd::node_count());
            }
            let width = group.len();
            for s in group {
                self.iteration(fr, h, body, s, pend);
            }
            let backs = pend.remove(&h).unwrap_or_default();
            if first || again && iters <= 3 {
                let unbounded = backs.iter().any(|s| {
                    bdd::support(s.pc).iter().any(|v| {
                        !esup.contains(v)
                            && match bdd::var_atom(*v) {
                                bdd::Atom::Le(_) => true,
                                bdd::Atom::Named(n) => n.starts_with("more(") || n.starts_with("chr("),
                            }
                    })
                });
                let leaves = fr.rets.len() > nrets
                    || pend.iter().any(|(b, v)| {
                        !blocks.contains(b) && v.len() != saved.get(b).map_or(0, |x| x.len())
                            || !blocks.contains(b)
                                && saved.get(b).map_or(false, |x| x.iter().zip(v).any(|(p, q)| p.pc != q.pc))
                    });
                let spells = !backs.is_empty() && backs.iter().all(|b| entry.iter().any(|a| spelled_out(a, b)));
                if unbounded && leaves && !spells {
                    *pend = saved;
                    self.panics.truncate(np);
                    self.gaps.truncate(ng);
                    self.loops.truncate(nl);
                    fr.rets.truncate(nrets);
                    // States that differ in the identity of a sequence share no invariant.
                    let mut groups: BTreeMap<String, Vec<State>> = BTreeMap::new();
                    for s in entry {
                        let mut k = seq_shape(&s);
                        // Nor do those with different limits fixed before the loop.
                        for (a, v) in &s.mem {
                            if let (AllocId::Local(d, l), V::L(x, _)) = (a, v) {
                                if *d == fr.depth && !fr.bi.modified[&h].contains(l) && fr.bi.slice[&h].contains(l) {
                                    k.push_str(&format!("{a:?}={x:?};"));
                                }
                            }
                        }
                        groups.entry(k).or_default().push(s);
                    }
                    if groups.len() > 40 {
                        let all = groups.into_values().flatten().collect();
                        return widen::widen_loop(self, fr, h, body, all, &blocks, pend);
                    }
                    for g in groups.into_values() {
                        widen::widen_loop(self, fr, h, body, g, &blocks, pend);
                    }
                    return;
                }
                // A test the entry states already decide says nothing about the next rounds.
                let decided = first
                    && backs.iter().any(|s| {
                        bdd::support(s.pc)
                            .iter()
                            .any(|v| esup.contains(v) && matches!(bdd::var_atom(*v), bdd::Atom::Le(_)))
                    });
                again = (unbounded || decided) && (first || again);
                // Direction of the key.
                if let (Some(k), true) = (key, first) {
                    let ks: Vec<_> = backs.iter().filter_map(|s| self.min_key(fr, h, s)).collect();
                    if !ks.is_empty() && ks.iter().all(|x| *x < k) {
                        desc = true;
                    }
                }
                let n: usize = if !first { 0 } else { backs.iter().map(|s| self.partition(fr, h, s.clone()).len()).sum() };
                separate = separate || first && !heads.is_empty() && n >= 1 && n <= width;
                first = false;
            }
            if separate && later.is_empty() && !heads.is_empty() && iters == 1 {
                later = std::mem::take(&mut heads);
            }
            for s in backs {
                self.add_state(&mut heads, s);
            }
        }
    }

    /// Bit-vector leaves of the loop's control variables that are not constant.
    fn key_leaves(&mut self, fr: &Fr, h: usize, s: &State) -> Vec<(usize, Vec<PE>, Bits)> {
        let ls: Vec<usize> = fr.bi.slice[&h].intersection(&fr.bi.modified[&h]).copied().collect();
        let mut out = vec![];
        for l in ls {
            if let Some(v) = s.mem.get(&AllocId::Local(fr.depth, l)) {
                leaves(v, &mut vec![], &mut |p, b| out.push((l, p.to_vec(), b.clone())));
            }
        }
        out
    }
    fn min_key(&mut self, fr: &Fr, h: usize, s: &State) -> Option<Vec<u128>> {
        let ls: Vec<usize> = fr.bi.slice[&h].intersection(&fr.bi.modified[&h]).copied().collect();
        let mut k = vec![];
        for l in ls {
            if let Some(v) = s.mem.get(&AllocId::Local(fr.depth, l)) {
                leaves(v, &mut vec![], &mut |_, b| {
                    // lowest value consistent with constants
                    let mut x = 0u128;
                    for (i, c) in b.iter().enumerate() {
                        if *c == bdd::T && i < 128 {
                            x |= 1 << i;
                        }
                    }
                    k.push(x);
                });
            }
        }
        Some(k)
    }
    /// Splits off the group of states with the smallest (largest) control key.
    fn pick(&mut self, fr: &Fr, h: usize, heads: Vec<State>, desc: bool) -> (Vec<State>, Vec<State>, Option<Vec<u128>>) {
        let mut parts: BTreeMap<Vec<u128>, Vec<State>> = BTreeMap::new();
        for s in heads {
            for p in self.partition(fr, h, s) {
                let k = self.min_key(fr, h, &p).unwrap_or_default();
                let mut v = parts.remove(&k).unwrap_or_default();
                self.add_state(&mut v, p);
                parts.insert(k, v);
            }
        }
        let k = if desc { parts.keys().next_back() } else { parts.keys().next() }.unwrap().clone();
        let g = parts.remove(&k).unwrap();
        (g, parts.into_values().flatten().collect(), Some(k))
    }
    fn partition(&mut self, fr: &Fr, h: usize, s: State) -> Vec<State> {
        let lv = self.key_leaves(fr, h, &s);
        let mut todo = vec![s];
        for (l, path, _) in lv {
            let id = AllocId::Local(fr.depth, l);
            let mut next = vec![];
            for s in todo {
                let v = s.mem[&id].clone();
                let Some(b) = leaf_at(&v, &path) else {
                    next.push(s);
                    continue;
                };
                let nc = b.iter().filter(|x| **x > 1).count();
                if nc == 0 || nc > 9 || self.few && b.len() == 64 {
                    next.push(s);
                    continue;
                }
                // Skip payload bits that are meaningless here.
                for (val, cond) in values(&b, s.pc) {
                    let Some(mut t) = s.with(cond) else { continue };
                    let nv = set_leaf(&v, &path, &val);
                    t.mem.insert(id.clone(), nv);
                    next.push(t);
                }
            }
            todo = next;
        }
        todo
    }
}

/// Every value of `b` possible under `pc`, with its condition.
pub fn values(b: &Bits, pc: Bdd) -> Vec<(Bits, Bdd)> {
    let mut out = vec![(vec![], pc)];
    for x in b.iter() {
        let mut n = vec![];
        for (v, c) in out {
            if *x <= 1 {
                let mut v: Bits = v;
                v.push(*x);
                n.push((v, c));
                continue;
            }
            for t in [bdd::F, bdd::T] {
                let cc = bdd::and(c, if t == bdd::T { *x } else { bdd::not(*x) });
                if cc != bdd::F {
                    let mut v = v.clone();
                    v.push(t);
                    n.push((v, cc));
                }
            }
        }
        out = n;
    }
    out
}
fn leaves(v: &V, path: &mut Vec<PE>, f: &mut dyn FnMut(&[PE], &Bits)) {
    match v {
        V::C(..) | V::B(..) => f(path, &v.bits().unwrap()),
        V::Agg(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(PE::F(i));
                leaves(x, path, f);
                path.pop();
            }
        }
        V::En(e) => {
            if let Some(b) = e.disc.bits() {
                f(path, &b);
            }
            for (k, fs) in &e.pay {
                if e.disc.as_const().map_or(false, |d| d as usize != *k) {
                    continue;
                }
                for (i, x) in fs.iter().enumerate() {
                    path.push(PE::Var(*k));
                    path.push(PE::F(i));
                    leaves(x, path, f);
                    path.pop();
                    path.pop();
                }
            }
        }
        V::It(it) => {
            let vs: Vec<&V> = match &**it {
                IterV::Slice { i, end, .. } | IterV::Own { i, end, .. } | IterV::Range { i, end, .. } => vec![i, end],
                IterV::RangeInc { i, end, done, .. } => vec![i, end, done],
                _ => vec![],
            };
            for (k, x) in vs.into_iter().enumerate() {
                path.push(PE::F(k));
                leaves(x, path, f);
                path.pop();
            }
        }
        _ => {}
    }
}
fn leaf_at(v: &V, path: &[PE]) -> Option<Bits> {
    if path.is_empty() {
        return match v {
            V::En(e) => e.disc.bits(),
            v => v.bits(),
        };
    }
    match (v, &path[0]) {
        (V::Agg(a), PE::F(i)) => leaf_at(a.get(*i)?, &path[1..]),
        (V::En(e), PE::Var(k)) => {
            if e.disc.as_const().map_or(false, |d| d as usize != *k) {
                return None;
            }
            let PE::F(i) = path[1] else { return None };
            leaf_at(e.pay.get(k)?.get(i)?, &path[2..])
        }
        (V::It(it), PE::F(k)) => {
            let x = match (&**it, *k) {
                (IterV::Slice { i, .. } | IterV::Own { i, .. } | IterV::Range { i, .. } | IterV::RangeInc { i, .. }, 0) => i,
                (IterV::Slice { end, .. } | IterV::Own { end, .. } | IterV::Range { end, .. } | IterV::RangeInc { end, .. }, 1) => end,
                (IterV::RangeInc { done, .. }, 2) => done,
                _ => return None,
            };
            leaf_at(x, &path[1..])
        }
        _ => None,
    }
}
fn set_leaf(v: &V, path: &[PE], b: &Bits) -> V {
    if path.is_empty() {
        return match v {
            V::En(e) => {
                let mut e = (**e).clone();
                e.disc = mk_bits(b.clone());
                V::En(Rc::new(e))
            }
            _ => mk_bits(b.clone()),
        };
    }
    match (v, &path[0]) {
        (V::Agg(a), PE::F(i)) => {
            let mut a = (**a).clone();
            a[*i] = set_leaf(&a[*i], &path[1..], b);
            V::agg(a)
        }
        (V::En(e), PE::Var(k)) => {
            let PE::F(i) = path[1] else { return v.clone() };
            let mut e = (**e).clone();
            let f = e.pay.get_mut(k).unwrap();
            f[i] = set_leaf(&f[i], &path[2..], b);
            V::En(Rc::new(e))
        }
        (V::It(it), PE::F(k)) => {
            let mut it = (**it).clone();
            match (&mut it, *k) {
                (IterV::Slice { i, .. } | IterV::Own { i, .. } | IterV::Range { i, .. } | IterV::RangeInc { i, .. }, 0) => {
                    *i = set_leaf(i, &path[1..], b)
                }
                (IterV::Slice { end, .. } | IterV::Own { end, .. } | IterV::Range { end, .. } | IterV::RangeInc { end, .. }, 1) => {
                    *end = set_leaf(end, &path[1..], b)
                }
                (IterV::RangeInc { done, .. }, 2) => *done = set_leaf(done, &path[1..], b),
                _ => {}
            }
            V::It(Rc::new(it))
        }
        _ => v.clone(),
    }
}

pub fn ordering(e: &mut Eng, lt: Bdd, eq: Bdd) -> V {
    // Variants Less, Equal, Greater in declaration order.
    let d = b_ite(lt, &const_bits(0, 8), &b_ite(eq, &const_bits(1, 8), &const_bits(2, 8)));
    let ty = crate::models::ordering_ty(e);
    V::En(Rc::new(EnumV {
        ty,
        disc: mk_bits(d),
        pay: (0..3).map(|i| (i, vec![])).collect(),
        src: None,
    }))
}
pub fn kindname(v: &V) -> String {
    match v {
        V::Undef => "undefined".into(),
        V::C(c, w) => format!("const {c}:{w}"),
        V::B(_) => "bits".into(),
        V::L(l, _) => format!("linear {l:?}"),
        V::Opq(s, t) => format!("unknown {} of {}", s.key(), t),
        V::Agg(a) => format!("aggregate({})", a.len()),
        V::En(e) => format!("enum {}", e.ty),
        V::Ref(_) => "reference".into(),
        V::Str(_) => "str".into(),
        V::Seq(_) => "sequence".into(),
        V::Map(_) => "map".into(),
        V::It(_) => "iterator".into(),
        V::Fun(t) => format!("fn {t}"),
        V::Obj(n, _) => format!("object {n}"),
    }
}
#[allow(dead_code)]
fn unused(_: Tag, _: InstanceKind) {}
