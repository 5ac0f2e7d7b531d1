//! Property checks: framework shared by all of them.
use crate::bdd::{self, Bdd};
use crate::body::strip;
use crate::interp::*;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem};
use std::collections::BTreeMap;
use std::rc::Rc;

/// A type or function path with every module prefix removed: `util::charreach::CharReach::set`
/// is `CharReach::set`, `<util::charreach::CharReach as std::ops::BitAnd>::bitand` is
/// `<CharReach as BitAnd>::bitand`, `util::compare::mytoupper` is `mytoupper`.
pub fn short(n: &str) -> String {
    let n = strip(n);
    let mut out = String::new();
    let mut word = String::new();
    let b: Vec<char> = n.chars().collect();
    let mut i = 0;
    let flush = |word: &mut String, out: &mut String| {
        // Drop lower-case leading segments (modules) unless last.
        let segs: Vec<&str> = word.split("::").collect();
        let mut k = 0;
        while k + 1 < segs.len() && !segs[k + 1].starts_with('{') && segs[k].chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            k += 1;
        }
        out.push_str(&segs[k..].join("::"));
        word.clear();
    };
    while i < b.len() {
        let c = b[i];
        if c.is_alphanumeric() || c == '_' || c == ':' || c == '{' || c == '}' || c == '#' {
            word.push(c);
        } else {
            flush(&mut word, &mut out);
            out.push(c);
        }
        i += 1;
    }
    // The tail after '>' begins with "::".
    if word.starts_with("::") {
        out.push_str(&word);
    } else {
        flush(&mut word, &mut out);
    }
    out
}

pub struct Viol {
    pub key: String,
    pub text: String,
}
pub struct Ck {
    pub e: Eng,
    pub id: String,
    pub obls: Vec<(String, bool)>,
    pub viols: Vec<Viol>,
    /// Obligations the analysis could neither discharge nor refute.
    pub undec: Vec<Viol>,
    /// Why the states of the current analysis cannot be relied on.
    pub tainted: Option<String>,
    pub index: BTreeMap<String, Vec<CrateItem>>,
    pub rules: Vec<String>,
    pub assumptions: Vec<String>,
    pub notes: BTreeMap<String, usize>,
    pub ctx: String,
    pub total: Stats,
    pub thorough: bool,
    pub bodies: Option<Rc<Vec<(Instance, Rc<crate::body::BodyInfo>)>>>,
    pub callers: BTreeMap<String, std::collections::BTreeSet<String>>,
}

impl Ck {
    pub fn new(id: &str) -> Ck {
        let mut index: BTreeMap<String, Vec<CrateItem>> = BTreeMap::new();
        for it in rustc_public::all_local_items() {
            let n = short(&it.name().to_string());
            index.entry(n).or_default().push(it);
        }
        Ck {
            e: Eng::new(),
            id: id.into(),
            obls: vec![],
            viols: vec![],
            undec: vec![],
            tainted: None,
            index,
            rules: vec![],
            assumptions: vec![],
            notes: BTreeMap::new(),
            ctx: String::new(),
            total: Stats::default(),
            thorough: std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough"),
            bodies: None,
            callers: BTreeMap::new(),
        }
    }
    /// Drops the boolean functions of earlier analyses; their values must be dead.
    pub fn reset(&mut self) {
        self.note("bdd_nodes_before_resets", bdd::node_count());
        bdd::reset();
        self.e.consts.clear();
        self.e.dom.reset();
    }
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.into());
    }
    pub fn assume(&mut self, r: &str) {
        self.assumptions.push(r.into());
    }
    pub fn note(&mut self, k: &str, n: usize) {
        *self.notes.entry(k.into()).or_insert(0) += n;
    }
    fn put(v: &mut Vec<Viol>, key: String, text: String) {
        if !v.iter().any(|v| v.key == key) {
            v.push(Viol { key, text });
        }
    }
    pub fn viol(&mut self, key: impl Into<String>, text: impl Into<String>) {
        Self::put(&mut self.viols, key.into(), text.into());
    }
    /// Could not be decided.
    pub fn undecided(&mut self, key: impl Into<String>, text: impl Into<String>) {
        let key = format!("{}{}", self.ctx, key.into());
        self.obls.push((key.clone(), false));
        Self::put(&mut self.undec, key, text.into());
    }
    /// A failing obligation whose failure rests on something the analysis does not know
    /// about is undecided rather than violated.
    pub fn oblige(&mut self, key: impl Into<String>, ok: bool, text: impl Into<String>) {
        let key = format!("{}{}", self.ctx, key.into());
        if ok {
            self.obls.push((key, true));
            return;
        }
        let text = text.into();
        self.obls.push((key.clone(), false));
        if let Some(t) = &self.tainted {
            let t = format!("{text} (but {t})");
            Self::put(&mut self.undec, key, t);
        } else if text.contains('¿') || text.contains("Undef") {
            Self::put(&mut self.undec, key, text);
        } else {
            self.viol(key, text);
        }
    }
    /// Whether `bad` is reachable whatever the unmodelled parts of the program do.
    fn definite(&mut self, bad: Bdd) -> bool {
        let gap = |v: u32| match bdd::var_atom(v) {
            bdd::Atom::Named(n) => n.contains('¿'),
            bdd::Atom::Le(l) => l.t.iter().any(|(s, _)| s.key().contains('¿')),
        };
        let sure = bdd::not(bdd::exists(bdd::not(bad), &gap));
        sure != bdd::F && !self.e.dom.empty(sure)
    }
    /// `pc` implies `c`.
    pub fn holds(&mut self, key: impl Into<String>, pc: Bdd, c: Bdd) -> bool {
        self.holds_text(key, pc, c, "")
    }
    pub fn holds_text(&mut self, key: impl Into<String>, pc: Bdd, c: Bdd, more: &str) -> bool {
        let key = key.into();
        let bad = bdd::and(pc, bdd::not(c));
        let ok = bad == bdd::F || self.e.dom.empty(bad);
        if ok {
            self.oblige(key, true, "");
            return true;
        }
        let sure = self.definite(bad);
        let w = self.witness(bad);
        if sure {
            // Text of atoms is irrelevant now: the failure does not depend on gaps.
            let w = w.replace('¿', "?").replace("Undef", "undef");
            let more = more.replace('¿', "?").replace("Undef", "undef");
            let text = format!("{key} fails: {more} when {w}");
            self.oblige(key, false, text);
        } else {
            self.undecided(key.clone(), format!("{key}: {more} when {w}"));
        }
        false
    }
    /// A readable assignment reaching `bad`.
    pub fn witness(&self, bad: Bdd) -> String {
        let Some(a) = bdd::any_sat(bad) else { return "never".into() };
        let mut ints: BTreeMap<String, (u128, usize)> = BTreeMap::new();
        let mut sets: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        let mut rest = vec![];
        for (v, val) in a {
            match bdd::var_atom(v) {
                bdd::Atom::Named(n) => {
                    if let Some((base, idx)) = n.strip_suffix(']').and_then(|x| x.rsplit_once('[')) {
                        if let Ok(i) = idx.parse::<usize>() {
                            let e = ints.entry(base.to_string()).or_insert((0, 0));
                            e.1 += 1;
                            if val && i < 128 {
                                e.0 |= 1 << i;
                            }
                            sets.entry(base.to_string()).or_default();
                            continue;
                        }
                    }
                    rest.push(format!("{}{}", if val { "" } else { "not " }, n));
                }
                bdd::Atom::Le(l) => rest.push(if val { format!("{l:?} <= 0") } else { format!("{l:?} > 0") }),
            }
        }
        let mut o: Vec<String> = ints.iter().map(|(k, (v, _))| format!("{k} = {v:#x}")).collect();
        o.extend(rest.into_iter().take(24));
        o.join(", ")
    }
    /// The analysable instance of a non-generic function, by short name.
    pub fn find(&mut self, n: &str) -> Option<Instance> {
        let v = self.index.get(n).cloned().unwrap_or_default();
        let r: Vec<Instance> = v.into_iter().filter_map(|i| Instance::try_from(i).ok()).collect();
        if r.len() != 1 {
            self.undecided(format!("anchor {n}"), format!("anchor {n}: expected one function, found {}", r.len()));
            return None;
        }
        Some(r[0])
    }
    pub fn has(&self, n: &str) -> bool {
        self.index.contains_key(n)
    }
    /// A generic local function, instantiated.
    pub fn find_generic(&mut self, n: &str, args: Vec<GenericArgKind>) -> Option<Instance> {
        let defs = rustc_public::local_crate().fn_defs();
        let v: Vec<FnDef> = defs.into_iter().filter(|d| short(&d.name().to_string()) == n).collect();
        if v.len() != 1 {
            self.undecided(format!("anchor {n}"), format!("anchor {n}: expected one function, found {}", v.len()));
            return None;
        }
        match Instance::resolve(v[0], &GenericArgs(args)) {
            Ok(i) => Some(i),
            Err(_) => {
                self.undecided(format!("anchor {n}"), format!("anchor {n}: cannot be instantiated"));
                None
            }
        }
    }
    pub fn arg_tys(&mut self, i: Instance) -> Vec<Ty> {
        match self.e.body(i) {
            Some(b) => b.body.arg_locals().iter().map(|l| l.ty).collect(),
            None => vec![],
        }
    }
    /// Unknown arguments named after the given tags.
    pub fn unknown_args(&mut self, i: Instance, names: &[&str]) -> Vec<V> {
        let t = self.arg_tys(i);
        t.iter()
            .enumerate()
            .map(|(k, t)| {
                let n = names.get(k).map(|s| s.to_string()).unwrap_or(format!("arg{k}"));
                V::Opq(Sym::new(n), *t)
            })
            .collect()
    }
    /// Analyses a call; unexpected panics become violations.
    pub fn run(&mut self, i: Instance, args: Vec<V>, st: State) -> Outs {
        let pc = st.pc;
        let o = self.run_raw(i, args, st);
        let ps = std::mem::take(&mut self.e.panics);
        let n = short(&i.name().to_string());
        for p in ps {
            let bad = bdd::and(pc, p.pc);
            let w = format!("{n} can panic: {} at {} in {}", p.msg, p.at, p.func);
            self.holds_text(format!("{n} never panics: {}", p.msg), bad, bdd::F, &w);
        }
        o
    }
    /// As `run`, leaving panics in the engine.
    pub fn run_raw(&mut self, i: Instance, args: Vec<V>, st: State) -> Outs {
        let ret = match self.e.body(i) {
            Some(b) => b.body.ret_local().ty,
            None => {
                let n = i.name().to_string();
                self.undecided(format!("body {n}"), format!("no body for {n}"));
                return vec![];
            }
        };
        let tys = self.arg_tys(i);
        self.e.panics.clear();
        self.e.obls.clear();
        let outs = self.e.call(i, args, tys, ret, st, false);
        let n = short(&i.name().to_string());
        for g in std::mem::take(&mut self.e.gaps) {
            self.notes.entry(format!("unmodelled: {g}")).or_insert(1);
        }
        for g in std::mem::take(&mut self.e.hard_gaps) {
            self.undecided(format!("{n} is analysable: {g}"), format!("analysis of {n} is incomplete: {g}"));
            self.tainted = Some(format!("analysis of {n} is incomplete: {g}"));
        }
        for o in std::mem::take(&mut self.e.obls) {
            let t = format!("{} ({})", o.text, o.at);
            self.holds_text(o.key, o.bad, bdd::F, &t);
        }
        outs
    }
    /// Everything an argument reference points at, after a call.
    pub fn pointee(&mut self, st: &State, r: &V) -> V {
        self.e.read_ref(st, r)
    }
    /// All bits of a plain value, in field order.
    pub fn flat(&mut self, st: &State, v: &V) -> Vec<Bdd> {
        let v = self.e.force(v.clone());
        match &v {
            V::C(..) | V::B(..) => v.bits().unwrap(),
            V::Agg(a) => a.iter().flat_map(|x| self.flat(st, x)).collect(),
            V::Undef => {
                self.e.gap("undefined bits".into());
                vec![]
            }
            _ => {
                let k = kindname(&v);
                self.undecided(format!("representation {k}"), format!("unexpected representation: {k}"));
                vec![]
            }
        }
    }
    pub fn bool_of(&mut self, v: &V) -> Bdd {
        let v = self.e.force(v.clone());
        match v.as_bool() {
            Some(b) => b,
            None => {
                self.undecided("boolean result", format!("not a boolean: {}", kindname(&v)));
                bdd::named(fresh("¿bool").key())
            }
        }
    }
    /// Discriminant bits and payload of an Option-like value.
    pub fn option(&mut self, v: &V) -> (Bdd, Option<V>) {
        match self.e.force(v.clone()) {
            V::En(en) => {
                let d = en.disc.bits().map(|b| b_eq(&b, &const_bits(1, 8))).unwrap_or(bdd::F);
                let mut en = (*en).clone();
                if d != bdd::F {
                    materialize(&mut en, 1);
                }
                let p = en.pay.get(&1).and_then(|f| f.first().cloned());
                (d, p)
            }
            v => {
                self.undecided("optional result", format!("not an option: {}", kindname(&v)));
                (bdd::named(fresh("¿opt").key()), None)
            }
        }
    }
    pub fn finish(mut self) {
        let s = std::mem::take(&mut self.e.stats);
        self.total.funcs.extend(s.funcs);
        self.total.local_funcs.extend(s.local_funcs);
        self.total.blocks += s.blocks;
        self.total.calls += s.calls;
        self.total.asserts += s.asserts;
        self.total.loops += s.loops;
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let list = |v: Vec<String>| format!("[{}]", v.join(","));
        let mut per: BTreeMap<String, usize> = BTreeMap::new();
        for (k, ok) in &self.obls {
            if *ok {
                *per.entry(k.clone()).or_insert(0) += 1;
            }
        }
        let j = format!(
            "{{\"property\":{},\"obligations\":{},\"discharged\":{},\"rules\":{},\"assumptions\":{},\"violations\":{},\"undecided\":{},\"obligation_names\":{},\"functions\":{},\"local_functions\":{},\"notes\":{{{}}},\"blocks\":{},\"calls\":{},\"asserts\":{},\"loops\":{},\"bdd_nodes\":{},\"bdd_vars\":{}}}",
            esc(&self.id),
            self.obls.len(),
            self.obls.iter().filter(|x| x.1).count(),
            list(self.rules.iter().map(|s| esc(s)).collect()),
            list(self.assumptions.iter().map(|s| esc(s)).collect()),
            list(self.viols.iter().map(|v| format!("{{\"key\":{},\"text\":{}}}", esc(&v.key), esc(&v.text))).collect()),
            list(self.undec.iter().map(|v| format!("{{\"key\":{},\"text\":{}}}", esc(&v.key), esc(&v.text))).collect()),
            list(per.keys().take(400).map(|s| esc(s)).collect()),
            self.total.funcs.len(),
            list(self.total.local_funcs.iter().map(|s| esc(&short(s))).collect()),
            self.notes.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            self.total.blocks,
            self.total.calls,
            self.total.asserts,
            self.total.loops,
            bdd::node_count(),
            bdd::var_count()
        );
        match std::env::var("SA_OUT") {
            Ok(p) => std::fs::write(p, j).unwrap(),
            Err(_) => {
                for v in &self.viols {
                    println!("VIOL [{}] {}", v.key, v.text);
                }
                for v in &self.undec {
                    println!("UNDECIDED [{}] {}", v.key, v.text);
                }
                for (k, n) in &self.notes {
                    println!("  note {k}: {n}");
                }
                println!(
                    "{}: {} obligations, {} failed; {} functions, {} nodes",
                    self.id,
                    self.obls.len(),
                    self.obls.iter().filter(|x| !x.1).count(),
                    self.total.funcs.len(),
                    bdd::node_count()
                );
            }
        }
    }
}

pub fn run() {
    let Ok(ids) = std::env::var("SA_PROP") else { return };
    if rustc_public::local_crate().name.as_str() != "rescan" {
        return;
    }
    for id in ids.split(',') {
        let mut c = Ck::new(id);
        let t = std::time::Instant::now();
        if id == "names" {
            for (k, v) in &c.index {
                println!("{k} {}", v.len());
            }
            return;
        }
        if !crate::chk_bits::run(&mut c, id) && !crate::chk_flow::run(&mut c, id) && !crate::chk_safe::run(&mut c, id) {
            c.undecided("known property", format!("no check for {id}"));
        }
        if std::env::var("SA_OUT").is_err() {
            println!("-- {id} {:.1}s", t.elapsed().as_secs_f64());
        }
        c.finish();
    }
}
#[allow(dead_code)]
fn unused(_: InstanceKind, _: Rc<()>) {
    let _ = tyx::size;
}
