//! The linear part of the domain: deciding `lin <= 0` from what a path condition implies.
use crate::bdd::{self, Atom, Bdd};
use crate::val::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Default)]
pub struct Dom {
    memo: HashMap<Bdd, Rc<Vec<Lin>>>,
    /// Inequalities (`<= 0`) true of a symbol by its definition.
    pub defs: HashMap<Sym, Vec<Lin>>,
    proofs: HashMap<(Bdd, Lin), bool>,
}

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
/// Divides by the gcd of the coefficients, tightening the constant (integers).
pub fn norm(l: &Lin) -> Lin {
    let g = l.t.iter().fold(0, |g, (_, k)| gcd(g, *k));
    if g <= 1 {
        return l.clone();
    }
    // sum/g <= -c/g  ->  floor
    Lin { t: l.t.iter().map(|(s, k)| (*s, k / g)).collect(), c: -((-l.c).div_euclid(g)) }
}

impl Dom {
    pub fn def(&mut self, s: Sym, l: Lin) {
        let v = self.defs.entry(s).or_default();
        if !v.contains(&l) {
            v.push(l);
            self.proofs.clear();
        }
    }
    pub fn reset(&mut self) {
        self.memo.clear();
        self.proofs.clear();
    }
    /// Linear facts every assignment satisfying `pc` implies.
    pub fn facts(&mut self, pc: Bdd) -> Rc<Vec<Lin>> {
        if let Some(f) = self.memo.get(&pc) {
            return f.clone();
        }
        let mut out = vec![];
        for v in bdd::support(pc) {
            if let Atom::Le(l) = bdd::var_atom(v) {
                let x = bdd::var(v);
                if bdd::implies(pc, x) {
                    out.push(l.clone());
                } else if bdd::implies(pc, bdd::not(x)) {
                    out.push(l.neg().plus(1));
                }
            }
        }
        let r = Rc::new(out);
        self.memo.insert(pc, r.clone());
        r
    }
    /// Whether `pc` implies `l <= 0`.
    pub fn proves(&mut self, pc: Bdd, l: &Lin) -> bool {
        let l = norm(l);
        if let Some(m) = l.ub() {
            if m <= 0 {
                return true;
            }
        }
        if l.t.is_empty() {
            return l.c <= 0;
        }
        if let Some(r) = self.proofs.get(&(pc, l.clone())) {
            return *r;
        }
        let mut facts: Vec<Lin> = (*self.facts(pc)).clone();
        // Definitions of every symbol involved, transitively.
        let mut seen: std::collections::HashSet<Sym> = Default::default();
        let mut todo: Vec<Sym> = l.t.iter().map(|x| x.0).collect();
        for f in &facts {
            todo.extend(f.t.iter().map(|x| x.0));
        }
        while let Some(s) = todo.pop() {
            if !seen.insert(s) {
                continue;
            }
            if let Some(d) = self.defs.get(&s) {
                for f in d {
                    facts.push(f.clone());
                    todo.extend(f.t.iter().map(|x| x.0));
                }
            }
        }
        let mut budget = 4000;
        let r = prove(&l, &facts, 5, &mut budget);
        self.proofs.insert((pc, l), r);
        r
    }
    /// The truth of `l <= 0` as a boolean function under `pc`.
    pub fn le0(&mut self, pc: Bdd, l: &Lin) -> Bdd {
        let l = norm(l);
        if self.proves(pc, &l) {
            return bdd::T;
        }
        if self.proves(pc, &l.neg().plus(1)) {
            return bdd::F;
        }
        // Canonical sign: leading coefficient positive.
        if l.t[0].1 < 0 {
            bdd::not(bdd::atom(Atom::Le(l.neg().plus(1))))
        } else {
            bdd::atom(Atom::Le(l))
        }
    }
    pub fn eq0(&mut self, pc: Bdd, l: &Lin) -> Bdd {
        if let Some(c) = l.is_const() {
            return if c == 0 { bdd::T } else { bdd::F };
        }
        let a = self.le0(pc, l);
        if a == bdd::F {
            return bdd::F;
        }
        let b = self.le0(pc, &l.neg());
        bdd::and(a, b)
    }
    /// Whether no assignment of `pc` is consistent with the linear facts it decides.
    pub fn empty(&mut self, pc: Bdd) -> bool {
        let mut bad = pc;
        for _ in 0..400 {
            if bad == bdd::F || self.infeasible(bad) {
                return true;
            }
            let Some(a) = bdd::any_sat(bad) else { return true };
            let lits: Vec<Bdd> = a
                .iter()
                .filter(|(v, _)| matches!(bdd::var_atom(*v), Atom::Le(_)))
                .map(|(v, x)| if *x { bdd::var(*v) } else { bdd::not(bdd::var(*v)) })
                .collect();
            let all = lits.iter().fold(bdd::T, |c, l| bdd::and(c, *l));
            if !self.infeasible(all) {
                return false;
            }
            // A smaller contradiction excludes more.
            let mut keep = lits.clone();
            let mut i = 0;
            while i < keep.len() {
                let mut k = keep.clone();
                k.remove(i);
                let c = k.iter().fold(bdd::T, |c, l| bdd::and(c, *l));
                if c != bdd::T && self.infeasible(c) {
                    keep = k;
                } else {
                    i += 1;
                }
            }
            let core = keep.iter().fold(bdd::T, |c, l| bdd::and(c, *l));
            bad = bdd::and(bad, bdd::not(core));
        }
        false
    }
    /// Whether the linear facts of `pc` contradict each other.
    pub fn infeasible(&mut self, pc: Bdd) -> bool {
        if pc == bdd::F {
            return true;
        }
        let f = self.facts(pc);
        for l in f.iter() {
            // l <= 0 is a fact; is l >= 1 provable?
            if self.proves(pc, &l.neg().plus(1)) {
                return true;
            }
        }
        false
    }
}

fn prove(g: &Lin, facts: &[Lin], depth: usize, budget: &mut usize) -> bool {
    if let Some(m) = g.ub() {
        if m <= 0 {
            return true;
        }
    }
    if depth == 0 || *budget == 0 || g.t.is_empty() {
        return false;
    }
    *budget -= 1;
    // Eliminate one symbol of the goal with each fact that bounds it the right way.
    for (s, k) in &g.t {
        for f in facts {
            if let Some((_, fk)) = f.t.iter().find(|x| x.0 == *s) {
                if (*fk > 0) == (*k > 0) {
                    let d = gcd(*k, *fk);
                    let (mg, mf) = ((fk / d).abs(), (k / d).abs());
                    if mg != 1 || mf > 64 {
                        // Keep the goal integral: only scale facts.
                        if mg > 64 || mf > 64 {
                            continue;
                        }
                    }
                    let ng = g.scale(mg).sub(&f.scale(mf));
                    if ng.t.len() > g.t.len() + 2 {
                        continue;
                    }
                    if prove(&norm(&ng), facts, depth - 1, budget) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
