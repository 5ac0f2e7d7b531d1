//! C09: each compile flag controls exactly its own option.
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::tyx;
use crate::val::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const FLAGS: [&str; 11] =
    ["CASELESS", "DOTALL", "MULTILINE", "SINGLEMATCH", "ALLOWEMPTY", "UTF8", "UCP", "PREFILTER", "SOM_LEFTMOST", "COMBINATION", "QUIET"];

/// The bits of each flag, from its own constant.
fn constants(c: &mut Ck) -> Option<BTreeMap<&'static str, u128>> {
    let mut out = BTreeMap::new();
    for f in FLAGS {
        let i = c.find(&format!("Flags::{f}"))?;
        let outs = c.run(i, vec![], State::new());
        let v = outs.first().map(|x| x.1.clone())?;
        let b = c.flat(&outs[0].0, &v);
        let mut n = 0u128;
        for (k, x) in b.iter().enumerate() {
            match *x {
                bdd::T => n |= 1 << k,
                bdd::F => {}
                _ => {
                    c.undecided(format!("flag {f}"), "not a constant");
                    return None;
                }
            }
        }
        out.insert(f, n);
    }
    for (f, n) in &out {
        c.oblige(format!("{f} is a flag of its own"), n.count_ones() == 1, format!("its value is {n:#x}"));
        for (g, m) in &out {
            if f < g {
                c.oblige(format!("{f} and {g} are different flags"), n & m == 0, format!("both use {:#x}", n & m));
            }
        }
    }
    Some(out)
}
pub fn c09(c: &mut Ck) {
    c.rule("abstract execution of the examination of one expression over every set of flags: each option as a Boolean function of the flags");
    let Some(fl) = constants(c) else { return };
    let Some((i, a, t)) = args_of(c, "add_expression", &["ng", "index", "exp", "flags", "id"]) else { return };
    for f in ["parse", "prefilter_tree", "shortcut_literal", "build_graph", "Ng::add_graph", "ParsedExpression::new"] {
        if c.find(f).is_none() {
            return;
        }
    }
    let Some(fpos) = t.iter().position(|x| tyx::adt_last(*x).as_deref() == Some("Flags")) else {
        c.undecided("flags", "add_expression takes no flags");
        return;
    };
    let Some(pi) = c.find("ParsedExpression::new") else { return };
    let Some(prt) = c.e.body(pi).map(|b| b.body.ret_local().ty) else { return };
    let pt = tyx::fields(prt, 0)[0];
    let Some(parse) = c.find("parse") else { return };
    let mt = c.arg_tys(parse).iter().map(|t| bare(*t)).find(|t| tyx::adt_last(*t).as_deref() == Some("ParseMode"));
    let Some(mt) = mt else {
        c.undecided("parser mode", "the parser takes no mode");
        return;
    };
    let mut st = State::new();
    let l = c.e.lin_of(&a[1]).unwrap_or(Lin::k(0));
    st.pc = c.e.dom.le0(bdd::T, &l.plus(-8_000_000));
    // Anything shorter is examined (C04).
    let fv = c.e.expand(Sym::new("flags"), t[fpos]);
    let mut a = a;
    a[fpos] = fv.clone();
    let fbits = c.flat(&st, &fv);
    let bit = |f: &str| -> Bdd {
        let n = fl[f];
        let mut r = bdd::F;
        for (k, b) in fbits.iter().enumerate() {
            if n >> k & 1 == 1 {
                r = bdd::or(r, *b);
            }
        }
        r
    };
    type Rec = Rc<RefCell<Vec<(String, State, Vec<V>)>>>;
    let seen: Rec = Default::default();
    let s2 = seen.clone();
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        match n.as_str() {
            "parse" if tyx::is_enum(ci.ret) => {
                let k = ci.arg_tys.iter().position(|t| bare(*t) == mt)?;
                let m = e.read_ref(st, &a[k]);
                // A verb may switch on these two (C08).
                let mut m1 = m.clone();
                let mut s = st.clone();
                for f in ["ucp", "utf8"] {
                    let i = tyx::field_index(mt, f)?;
                    let b = V::B(Rc::new(vec![bdd::named(fresh(&format!("verb {f}")).key())]));
                    m1 = e.set(&s, m1, &[PE::F(i)], b);
                }
                e.write_ref(&mut s, &a[k], m1.clone());
                s2.borrow_mut().push((n, st.clone(), vec![m, m1]));
                let good = bdd::named(fresh("parses").key());
                let mut out = vec![];
                if let Some(s) = s.with(good) {
                    let tree = e.expand(fresh("tree"), tyx::fields(ci.ret, 0)[0]);
                    out.push((s, models::variant(ci.ret, 0, vec![tree])));
                }
                if let Some(s) = s.with(bdd::not(good)) {
                    let er = e.expand(fresh("parseerr"), tyx::fields(ci.ret, 1)[0]);
                    out.push((s, models::variant(ci.ret, 1, vec![er])));
                }
                Some(out)
            }
            "prefilter_tree" => {
                s2.borrow_mut().push((n, st.clone(), vec![]));
                Some(vec![(st.clone(), e.expand(fresh("unit"), ci.ret))])
            }
            "shortcut_literal" | "build_graph" => {
                let k = ci.arg_tys.iter().position(|t| bare(*t) == pt)?;
                let pe = e.read_ref(st, &a[k]);
                s2.borrow_mut().push((n, st.clone(), vec![pe]));
                Some(vec![(st.clone(), e.expand(fresh("result"), ci.ret))])
            }
            "Ng::add_graph" | "ReportManager::register_ext_report" => Some(vec![(st.clone(), e.expand(fresh("result"), ci.ret))]),
            _ => None,
        }
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let seen = seen.borrow().clone();
    let of = |n: &str| -> Vec<(State, Vec<V>)> { seen.iter().filter(|x| x.0 == n).map(|x| (x.1.clone(), x.2.clone())).collect() };
    let parses = of("parse");
    c.oblige("an expression is parsed", !parses.is_empty(), "never");
    let clash = bdd::and(bit("QUIET"), bit("SOM_LEFTMOST"));
    let mut deps: std::collections::BTreeSet<u32> = Default::default();
    let mut parsed = bdd::F;
    for (s, m) in &parses {
        parsed = bdd::or(parsed, s.pc);
        c.holds("quiet start-of-match reporting is refused", bdd::and(s.pc, clash), bdd::F);
        for (f, x) in [("caseless", "CASELESS"), ("dotall", "DOTALL"), ("multiline", "MULTILINE"), ("utf8", "UTF8"), ("ucp", "UCP")] {
            let b = fb(c, s, &m[0], mt, f);
            deps.extend(bdd::support(b));
            c.holds(format!("{x} alone makes parsing {f}"), s.pc, bdd::iff(b, bit(x)));
        }
    }
    // Whether the length alone refuses it is C04's business.
    let len = match c.e.force(a[2].clone()) {
        V::Str(s) => models::str_len(&s),
        _ => Lin::k(0),
    };
    let lim = at(c, &st, &a[0], t[0], "cc.grey.limit_pattern_length").0;
    let lim = c.e.lin_of(&lim).unwrap_or(Lin::k(0));
    let fits = c.e.dom.le0(st.pc, &len.sub(&lim));
    c.holds("no other flags are refused", bdd::and(st.pc, bdd::and(fits, bdd::not(clash))), parsed);
    let mut uses = of("shortcut_literal");
    uses.extend(of("build_graph"));
    c.oblige("a parsed expression is compiled", !uses.is_empty(), "never");
    for (s, v) in &uses {
        for (f, x) in [("allow_vacuous", "ALLOWEMPTY"), ("highlander", "SINGLEMATCH"), ("prefilter", "PREFILTER"), ("quiet", "QUIET")] {
            let b = fb(c, s, &v[0], pt, &format!("expr.{f}"));
            deps.extend(bdd::support(b));
            c.holds(format!("{x} alone makes the expression {f}"), s.pc, bdd::iff(b, bit(x)));
        }
        let b = fb(c, s, &v[0], pt, "expr.utf8");
        let mut want = bdd::F;
        for (ps, m) in &parses {
            let y = fb(c, ps, &m[1], mt, "utf8");
            want = bdd::or(want, bdd::and(ps.pc, y));
        }
        c.holds("the expression is UTF-8 as the parser leaves it", s.pc, bdd::iff(b, want));
        let som = at(c, s, &v[0], pt, "expr.som").0;
        let none = is_var(c, &som, "None");
        deps.extend(bdd::support(none));
        let on = bit("SOM_LEFTMOST");
        c.holds("no start of match is reported unasked", bdd::and(s.pc, bdd::not(on)), none);
        c.holds("SOM_LEFTMOST switches start-of-match reporting on", bdd::and(s.pc, on), bdd::not(none));
        let id = at(c, s, &v[0], pt, "expr.report").0;
        let e = eq(c, s, &id, &a[4]);
        c.holds_text("flags leave the match id alone", s.pc, e, &show(&id));
    }
    let comb = fbits.iter().enumerate().filter(|(k, _)| fl["COMBINATION"] >> k & 1 == 1).any(|(_, b)| deps.contains(&bdd::top_var(*b)));
    c.oblige("COMBINATION switches logical combination on", comb, "no option depends on the flag");
    // Prefiltering.
    let pre = of("prefilter_tree").iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    let sc = of("shortcut_literal").iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    c.holds("only PREFILTER transforms the expression", pre, bit("PREFILTER"));
    c.holds("PREFILTER transforms the expression", bdd::and(sc, bit("PREFILTER")), pre);
    let total = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    c.holds("every set of flags is handled", st.pc, total);
}
