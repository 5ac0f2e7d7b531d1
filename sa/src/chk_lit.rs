//! Checks of the literal shortcut and of what expressions register (C03, C04, C09, C11, C12, C14, C16).
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::rc::Rc;

pub type Seen = Rc<RefCell<Vec<(String, Bdd, Vec<V>)>>>;

/// Replaces calls of the named functions by arbitrary results, recording path condition,
/// arguments and (last) the result handed out.
pub fn arbitrary(c: &mut Ck, names: &[&str]) -> Seen {
    let seen: Seen = Default::default();
    let s = seen.clone();
    let names: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        if !names.contains(&n) {
            return None;
        }
        let r = e.expand(fresh(&n.replace("::", "_")), ci.ret);
        let mut args: Vec<V> = a.iter().map(|v| e.force(v.clone())).collect();
        args.push(r.clone());
        s.borrow_mut().push((n, st.pc, args));
        Some(vec![(st.clone(), r)])
    }));
    seen
}
/// The calls of one function among those seen.
pub fn calls(s: &Seen, n: &str) -> Vec<(Bdd, Vec<V>)> {
    s.borrow().iter().filter(|x| x.0 == n).map(|x| (x.1, x.2.clone())).collect()
}
/// Called exactly once exactly under the condition (given as disjoint path conditions).
pub fn once_iff(c: &mut Ck, what: &str, cs: &[(Bdd, Vec<V>)], when: Bdd, all: Bdd) {
    let mut got = bdd::F;
    for (pc, _) in cs {
        c.holds(format!("{what} at most once"), bdd::and(got, bdd::and(*pc, all)), bdd::F);
        got = bdd::or(got, *pc);
    }
    c.holds(format!("{what} only when it should"), bdd::and(all, got), when);
    c.holds(format!("{what} whenever it should"), bdd::and(all, when), got);
}

/// Runs shortcut_literal with the tree walk and the registration replaced by arbitrary ones.
/// `c03`: only what concerns error positions; `c12`: all of it.
pub fn short_lit(c: &mut Ck, what: &str) {
    let Some((i, a, t)) = args_of(c, "shortcut_literal", &["ng", "pe"]) else { return };
    if c.find("Ng::add_literal").is_none() {
        return;
    }
    c.ctx = "shortcut_literal: ".into();
    let mut st = State::new();
    let idx = at(c, &st, &a[1], t[1], "expr.index").0;
    // Positions are below the expression limit (C04).
    let l = c.e.lin_of(&idx).unwrap_or(Lin::k(0));
    st.pc = c.e.dom.le0(bdd::T, &l.plus(-8_000_000));
    let allow = fb(c, &st, &a[0], t[0], "cc.grey.allow_literal");
    let ng0 = root(c, &st, &a[0], t[0]).0;
    let walk: Rc<RefCell<Vec<(Bdd, Bdd, V, V, Ty)>>> = Default::default();
    let w2 = walk.clone();
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        if n != "walk_component" {
            return None;
        }
        let mut s = st.clone();
        let vt = tyx::pointee(ci.arg_tys[0])?;
        let v = e.expand(fresh("visited"), vt);
        e.write_ref(&mut s, &a[0], v.clone());
        let good = bdd::named(fresh("tree is literal").key());
        let tree = e.force(a[1].clone());
        w2.borrow_mut().push((st.pc, good, v, tree, vt));
        let mut out = vec![];
        let okt = tyx::fields(ci.ret, 0)[0];
        let ert = tyx::fields(ci.ret, 1)[0];
        if let Some(s1) = s.with(good) {
            let u = e.expand(Sym::new("unit"), okt);
            out.push((s1, models::variant(ci.ret, 0, vec![u])));
        }
        if let Some(s2) = s.with(bdd::not(good)) {
            let x = e.expand(fresh("notlit"), ert);
            out.push((s2, models::variant(ci.ret, 1, vec![x])));
        }
        Some(out)
    }));
    let seen = arbitrary(c, &["Ng::add_literal"]);
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let walks = walk.borrow().clone();
    let adds = calls(&seen, "Ng::add_literal");
    let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    // Arguments of the registration.
    let Some((_, _, at_)) = args_of(c, "Ng::add_literal", &[]) else { return };
    for (pc, ar) in &adds {
        let e = eq(c, &st, &ar[2], &idx);
        c.holds_text("the expression's own position is passed on", *pc, e, &show(&ar[2]));
        if what == "C03" {
            continue;
        }
        for (k, f) in [(3, "expr.report"), (4, "expr.highlander"), (5, "expr.som"), (6, "expr.quiet")] {
            let x = at(c, &st, &a[1], t[1], f).0;
            let e = eq(c, &st, &ar[k], &x);
            c.holds_text(format!("the literal is added with the expression's own {}", &f[5..]), *pc, e, &show(&ar[k]));
        }
    }
    let _ = at_;
    if what == "C03" {
        for (s, v) in &outs {
            let err = is_var(c, v, "Err");
            let mut from = bdd::F;
            for (pc, ar) in &adds {
                let e = eq(c, s, v, ar.last().unwrap());
                from = bdd::or(from, bdd::and(*pc, e));
            }
            c.holds("errors are those of the registration", bdd::and(s.pc, err), from);
        }
        c.ctx.clear();
        return;
    }
    c.oblige("the tree is walked at one place", walks.len() == 1, format!("{} walks", walks.len()));
    if walks.len() != 1 {
        c.ctx.clear();
        return;
    }
    let (wpc, good, vis, tree, vt) = walks[0].clone();
    let e = { let x = at(c, &st, &a[1], t[1], "component").0; let y = c.e.read_ref(&st, &tree); eq(c, &st, &x, &y) };
    c.holds("the expression's tree is walked", wpc, e);
    let lit = at(c, &st, &vis, vt, "lit").0;
    let n = lit_len(c, &st, &lit);
    let empty = match &n {
        Some(l) => c.e.dom.eq0(bdd::T, l),
        None => bdd::named(fresh("¿len").key()),
    };
    let take = bdd::and(allow, bdd::and(good, bdd::not(empty)));
    once_iff(c, "the literal is added", &adds, take, all);
    for (pc, ar) in &adds {
        let x = c.e.read_ref(&st, &ar[1]);
        let ok = if x == V::Undef {
            // The visitor lives in the frame of the function: its value when it was entered.
            bdd::T
        } else {
            eq(c, &st, &x, &lit)
        };
        c.holds_text("the collected literal is added", *pc, ok, &show(&x));
    }
    for (s, v) in &outs {
        let ok = is_var(c, v, "Ok");
        let taken = pay(c, v, "Ok", 0);
        let tk = c.bool_of(&taken);
        let no = bdd::and(s.pc, bdd::not(take));
        c.holds("any other expression is left to the graph", no, bdd::and(ok, bdd::not(tk)));
        if no != bdd::F && !c.e.dom.empty(no) {
            let ng1 = root(c, s, &a[0], t[0]).0;
            unchanged(c, "any other expression leaves no trace", s, no, &ng0, &ng1);
        }
        for (pc, ar) in &adds {
            let p = bdd::and(s.pc, *pc);
            let e = eq(c, s, v, ar.last().unwrap());
            c.holds("the answer is that of the registration", p, e);
        }
    }
    c.ctx.clear();
}
/// Number of characters of a literal value.
pub fn lit_len(c: &mut Ck, st: &State, lit: &V) -> Option<Lin> {
    let i = c.find("Ue2Literal::len")?;
    let t = c.arg_tys(i)[0];
    let ty = tyx::pointee(t)?;
    let s = at(c, st, lit, ty, "s").0;
    seq(c, &s).map(|q| q.len())
}

/// Ng::add_literal over every state, its engines and report table replaced by arbitrary ones.
pub fn ng_literal(c: &mut Ck, what: &str) {
    let Some((i, a, t)) = args_of(c, "Ng::add_literal", &["ng", "lit", "index", "id", "hl", "som", "quiet"]) else { return };
    c.ctx = "Ng::add_literal: ".into();
    let mut st = State::new();
    let (lit, _) = root(c, &st, &a[1], t[1]);
    let Some(n) = lit_len(c, &st, &lit) else { return };
    // Literals are non-empty (C11) and no longer than an expression (C04).
    let lo = c.e.dom.le0(bdd::T, &Lin::k(1).sub(&n));
    let hi = c.e.dom.le0(lo, &n.plus(-16_000));
    st.pc = bdd::and(lo, hi);
    // Single-match with start of match is never requested: no expression reports starts.
    let hl = c.bool_of(&a[4]);
    let som_none = is_var(c, &a[5], "None");
    st.pc = bdd::and(st.pc, bdd::or(som_none, bdd::not(hl)));
    let shortcut = fb(c, &st, &a[0], t[0], "cc.grey.shortcut_literals");
    let (ng0, ngt) = root(c, &st, &a[0], t[0]);
    let w0 = at(c, &st, &ng0, ngt, "min_width.val").0;
    let seen: Seen = Default::default();
    let s2 = seen.clone();
    let Some(et) = err_ty(c) else { return };
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        let names = [
            "ReportManager::register_ext_report",
            "ReportManager::get_exhaustible_key",
            "ReportManager::get_internal_id",
            "RoseBuild::add",
            "SmallWriteBuild::add_literal",
            "mixed_sensitivity",
            "make_e_callback",
            "make_som_relative_callback",
        ];
        if !names.contains(&n.as_str()) {
            return None;
        }
        let mut r = e.expand(fresh(&n.replace("::", "_")), ci.ret);
        if let V::En(en) = &r {
            if let Some(1) = tyx::variant_index(en.ty, "Err") {
                // Errors of the report table: about this expression, or the table itself.
                let mut en2 = (**en).clone();
                materialize(&mut en2, 1);
                let mut er = e.force(en2.pay[&1][0].clone());
                let ii = tyx::field_index(et, "index")?;
                let it = tyx::fields(et, 0)[ii];
                let ix = if n.ends_with("register_ext_report") {
                    let x = e.force(a[2].clone());
                    let xt = ci.arg_tys[2];
                    let k = tyx::field_index(xt, "first_pattern_index")?;
                    let f = e.get(st, x, &[PE::F(k)]);
                    let f = e.force(f);
                    models::opt(it, Some(f))
                } else {
                    models::opt(it, None)
                };
                er = e.set(st, er, &[PE::F(ii)], ix);
                en2.pay.insert(1, vec![er]);
                r = V::En(Rc::new(en2));
            }
        }
        let mut args: Vec<V> = a.iter().map(|v| e.force(v.clone())).collect();
        // Sets and literals are recorded by value.
        for (k, t) in ci.arg_tys.iter().enumerate() {
            if n == "RoseBuild::add" && k == 4 || n == "ReportManager::get_internal_id" && k == 1 || (n.ends_with("add_literal") || n == "RoseBuild::add") && tyx::adt_last(bare(*t)).as_deref() == Some("Ue2Literal") {
                let v = e.read_ref(st, &args[k]);
                args[k] = e.force(v);
            }
        }
        args.push(r.clone());
        s2.borrow_mut().push((n, st.pc, args));
        Some(vec![(st.clone(), r)])
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
    c.holds("every request is answered", st.pc, all);
    if what == "C03" {
        for (s, v) in &outs {
            let err = is_var(c, v, "Err");
            let p = bdd::and(s.pc, err);
            if p == bdd::F || c.e.dom.empty(p) {
                continue;
            }
            let er = pay(c, v, "Err", 0);
            let index = at(c, s, &er, et, "index").0;
            let some = is_var(c, &index, "Some");
            let iv = pay(c, &index, "Some", 0);
            let same = eq(c, s, &iv, &a[2]);
            c.holds_text("an error carries no position or the expression's own", p, bdd::or(bdd::not(some), same), &show(&index));
        }
        c.ctx.clear();
        return;
    }
    let mixed = calls(&seen, "mixed_sensitivity");
    let reg = calls(&seen, "ReportManager::register_ext_report");
    let key = calls(&seen, "ReportManager::get_exhaustible_key");
    let iid = calls(&seen, "ReportManager::get_internal_id");
    let rose = calls(&seen, "RoseBuild::add");
    let smw = calls(&seen, "SmallWriteBuild::add_literal");
    let cb = calls(&seen, "make_e_callback");
    let som = calls(&seen, "make_som_relative_callback");
    let mut mix = bdd::F;
    for (pc, ar) in &mixed {
        let m = c.bool_of(ar.last().unwrap());
        mix = bdd::or(mix, bdd::and(*pc, m));
        let (x, _) = (c.e.read_ref(&st, &ar[0]), ());
        let x = if x == V::Undef { ar[0].clone() } else { x };
        let e = eq(c, &st, &x, &lit);
        let _ = e;
        let same = ar[0] == c.e.force(a[1].clone()) || e == bdd::T || matches!(&ar[0], V::Agg(_));
        c.oblige("the literal itself is tested for mixed case sensitivity", same, show(&ar[0]));
    }
    // Tested whenever it matters.
    let tested = mixed.iter().fold(bdd::F, |x, (pc, _)| bdd::or(x, *pc));
    c.holds("case sensitivity is tested before a literal is taken", bdd::and(all, shortcut), tested);
    let take = bdd::and(shortcut, bdd::not(mix));
    once_iff(c, "the match id is registered", &reg, take, all);
    let Some(ei) = c.find("ReportManager::register_ext_report") else { return };
    let et3 = c.arg_tys(ei)[2];
    let mut reg_ok = bdd::F;
    for (pc, ar) in &reg {
        let e = eq(c, &st, &ar[1], &a[3]);
        c.holds_text("the expression's match id is registered", *pc, e, &show(&ar[1]));
        let h = fb(c, &st, &ar[2], et3, "highlander");
        c.holds("the registration tells whether the expression is single-match", *pc, bdd::iff(h, hl));
        let x = at(c, &st, &ar[2], et3, "first_pattern_index").0;
        let e = eq(c, &st, &x, &a[2]);
        c.holds_text("the registration names the expression", *pc, e, &show(&x));
        let ok = is_var(c, ar.last().unwrap(), "Ok");
        reg_ok = bdd::or(reg_ok, bdd::and(*pc, ok));
    }
    once_iff(c, "an internal report is requested", &iid, bdd::and(take, reg_ok), all);
    once_iff(c, "an exhaustion key is requested", &key, bdd::and(bdd::and(take, reg_ok), hl), all);
    let mut key_v = None;
    for (pc, ar) in &key {
        let e = eq(c, &st, &ar[1], &a[3]);
        c.holds_text("the key requested is that of the match id", *pc, e, &show(&ar[1]));
        key_v = ar.last().cloned();
    }
    for (pc, ar) in &cb {
        let e = eq(c, &st, &ar[0], &a[3]);
        c.holds_text("the report is for the match id", *pc, e, &show(&ar[0]));
        let some = is_var(c, &ar[2], "Some");
        c.holds("single-match reports have an exhaustion key", *pc, bdd::iff(some, hl));
        let kv = pay(c, &ar[2], "Some", 0);
        if let Some(k) = &key_v {
            let e = eq(c, &st, &kv, k);
            c.holds_text("single-match reports have the key of their match id", bdd::and(*pc, some), e, &show(&kv));
        }
        let (q, q0) = (c.bool_of(&ar[3]), c.bool_of(&a[6]));
        c.holds("the report is quiet exactly when asked", *pc, bdd::iff(q, q0));
        let z = eq(c, &st, &ar[1], &V::C(0, 32));
        c.holds("the report has no offset", *pc, z);
    }
    for (pc, ar) in &som {
        let e = eq(c, &st, &ar[0], &a[3]);
        c.holds_text("the start-of-match report is for the match id", *pc, e, &show(&ar[0]));
        let d = c.e.lin_of(&ar[2]).unwrap_or(Lin::k(-1));
        let e = c.e.dom.eq0(*pc, &d.sub(&n));
        c.holds_text("the start of match lies the literal's length back", *pc, e, &show(&ar[2]));
    }
    let mut iid_ok = bdd::F;
    for (pc, ar) in &iid {
        let mut from = bdd::F;
        for (p, k) in cb.iter().map(|x| (bdd::and(x.0, som_none), x)).chain(som.iter().map(|x| (bdd::and(x.0, bdd::not(som_none)), x))) {
            let e = eq(c, &st, &ar[1], k.1.last().unwrap());
            from = bdd::or(from, bdd::and(p, e));
        }
        c.holds_text("the internal report requested is the one for this literal", *pc, from, &show(&ar[1]));
        let ok = is_var(c, ar.last().unwrap(), "Ok");
        iid_ok = bdd::or(iid_ok, bdd::and(*pc, ok));
    }
    let good = bdd::and(bdd::and(take, reg_ok), iid_ok);
    once_iff(c, "the literal engine gets the literal", &rose, good, all);
    once_iff(c, "the small-write engine gets the literal", &smw, good, all);
    for (pc, ar) in &rose {
        let (x, y) = (c.bool_of(&ar[1]), c.bool_of(&ar[2]));
        c.holds("the literal is not anchored to the start or the end", *pc, bdd::not(bdd::or(x, y)));
        let e = eq(c, &st, &ar[3], &lit);
        c.holds_text("the literal engine gets this literal", *pc, e, &show(&ar[3]));
        let Some(m) = map(c, &ar[4]) else {
            c.undecided("the literal engine gets a set of reports", show(&ar[4]));
            continue;
        };
        for (q, ir) in &iid {
            let id = pay(c, ir.last().unwrap(), "Ok", 0);
            let (has, _) = look(c, &State { pc: bdd::and(*pc, *q), ..st.clone() }, &m, &id);
            c.holds_text("the literal engine gets the internal report", bdd::and(*pc, *q), has, &show(&ar[4]));
            let e = c.e.dom.eq0(*pc, &m.len.plus(-1));
            c.holds_text("the literal engine gets no other report", bdd::and(*pc, *q), e, &show(&ar[4]));
        }
    }
    for (pc, ar) in &smw {
        let e = eq(c, &st, &ar[1], &lit);
        c.holds_text("the small-write engine gets this literal", *pc, e, &show(&ar[1]));
        for (q, ir) in &iid {
            let id = pay(c, ir.last().unwrap(), "Ok", 0);
            let e = eq(c, &st, &ar[2], &id);
            c.holds_text("the small-write engine gets the internal report", bdd::and(*pc, *q), e, &show(&ar[2]));
        }
    }
    for (s, v) in &outs {
        let ok = is_var(c, v, "Ok");
        let tv = pay(c, v, "Ok", 0);
        let tk = c.bool_of(&tv);
        let p = bdd::and(s.pc, bdd::not(take));
        c.holds("other literals are not taken", p, bdd::and(ok, bdd::not(tk)));
        c.holds("taken literals are reported as taken", bdd::and(s.pc, good), bdd::and(ok, tk));
        c.holds("a failed registration fails the call", bdd::and(bdd::and(s.pc, take), bdd::not(good)), bdd::not(ok));
        let ng1 = root(c, s, &a[0], t[0]).0;
        if p != bdd::F && !c.e.dom.empty(p) {
            unchanged(c, "literals that are not taken leave no trace", s, p, &ng0, &ng1);
        }
        let w1 = at(c, s, &ng1, ngt, "min_width.val").0;
        let (Some(x0), Some(x1)) = (c.e.lin_of(&w0), c.e.lin_of(&w1)) else {
            c.undecided("minimum width", show(&w1));
            continue;
        };
        let g = bdd::and(s.pc, good);
        let shorter = c.e.dom.le0(g, &n.plus(1).sub(&x0));
        let is_n = c.e.dom.eq0(g, &x1.sub(&n));
        let is_0 = c.e.dom.eq0(g, &x1.sub(&x0));
        c.holds_text("a shorter literal lowers the minimum width to its length", bdd::and(g, shorter), is_n, &show(&w1));
        c.holds_text("any other literal keeps the minimum width", bdd::and(g, bdd::not(shorter)), is_0, &show(&w1));
        let f = bdd::and(s.pc, bdd::not(good));
        let is_0 = c.e.dom.eq0(f, &x1.sub(&x0));
        c.holds("a literal that is not registered keeps the minimum width", f, is_0);
    }
    c.ctx.clear();
}
pub fn c12(c: &mut Ck) {
    c.rule("abstract execution of shortcut_literal and Ng::add_literal with the report table, the engines and the tree walk replaced by arbitrary ones; calls, arguments and results compared on every path");
    c.assume("literals have at most 16,000 characters (C04) and at least one (established for shortcut_literal, the only caller)");
    ng_literal(c, "C12");
    short_lit(c, "C12");
    only_caller(c, "Ng::add_literal", &["shortcut_literal"]);
    only_caller(c, "SmallWriteBuild::add_literal", &["Ng::add_literal"]);
    only_caller(c, "RoseBuild::add", &["Ng::add_literal"]);
}
/// Nothing but the named functions (and helpers only they use) calls a function.
pub fn only_caller(c: &mut Ck, f: &str, by: &[&str]) {
    for (i, b) in local_bodies(c).iter() {
        let n = short(&i.name().to_string());
        let calls = crate::callg::callees(&b).iter().any(|k| short(&k.name().to_string()) == f);
        if calls {
            let ok = helper_of(c, &n, by);
            c.oblige(format!("{f} is called for {}", by.join(", ")), ok, format!("{n} calls {f}"));
        }
    }
}
/// Whether a function is one of those named or reachable only through them.
pub fn helper_of(c: &mut Ck, n: &str, by: &[&str]) -> bool {
    only_via(c, by).contains(n)
}

// ------------------------------------------------------------------ C03 beyond the driver

pub fn c03(c: &mut Ck) {
    c.rule("abstract execution of the compile calls with every stage failing arbitrarily; position carried by every error constructor, setter and stage; text produced by Display");
    multi(c, "C03");
    let Some(et) = err_ty(c) else { return };
    // Display.
    if let Some((i, a, t)) = args_of(c, "<CompileError as Display>::fmt", &["err", "f"]) {
        let mut st = State::new();
        let f = c.e.heap(&mut st, V::Str(Rc::new(StrV(vec![]))), t[1]);
        let args = vec![a[0].clone(), reff(f.clone())];
        let index = at(c, &st, &a[0], t[0], "index").0;
        let reason = at(c, &st, &a[0], t[0], "reason").0;
        let some = is_var(c, &index, "Some");
        let iv = pay(c, &index, "Some", 0);
        let outs = c.run(i, args, st.clone());
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        c.holds("rendering returns", bdd::T, all);
        for (s, _) in &outs {
            let out = c.e.load(s, &f);
            let V::Str(x) = c.e.force(out.clone()) else {
                c.undecided("rendering is text", show(&out));
                continue;
            };
            let mut w = match c.e.force(reason.clone()) {
                V::Str(r) => (*r).clone(),
                _ => continue,
            };
            let plain = w.clone();
            w.push(Piece::Lit(" in expression ".into()));
            w.push(Piece::Disp(iv.clone()));
            let e = str_same(c, s, &x, &w);
            c.holds_text("an error with a position renders as reason in expression N", bdd::and(s.pc, some), e, &format!("{x:?}"));
            let e = str_same(c, s, &x, &plain);
            c.holds_text("an error without a position renders as its reason", bdd::and(s.pc, bdd::not(some)), e, &format!("{x:?}"));
        }
    }
    // The setter.
    if let Some((i, a, t)) = args_of(c, "CompileError::set_expression_index", &["err", "n"]) {
        let mut st = State::new();
        let (e0, _) = root(c, &st, &a[0], t[0]);
        let index = at(c, &st, &a[0], t[0], "index").0;
        let some = is_var(c, &index, "Some");
        let iv = pay(c, &index, "Some", 0);
        let same = eq(c, &st, &iv, &a[1]);
        st.pc = bdd::or(bdd::not(some), same);
        for (s, _) in c.run(i, a.clone(), st.clone()) {
            let ix = at(c, &s, &a[0], t[0], "index").0;
            let some = is_var(c, &ix, "Some");
            let v = pay(c, &ix, "Some", 0);
            let e = eq(c, &s, &v, &a[1]);
            c.holds_text("the position is set as given", s.pc, bdd::and(some, e), &show(&ix));
            for f in ["kind", "reason"] {
                let (x, y) = (at(c, &s, &e0, et, f).0, at(c, &s, &a[0], t[0], f).0);
                let e = eq(c, &s, &x, &y);
                c.holds(format!("setting the position keeps the {f}"), s.pc, e);
            }
        }
    }
    // Constructors.
    let all = local_bodies(c);
    let name = |i: &Instance| short(&i.name().to_string());
    for (i, _) in all.iter() {
        let n = name(i);
        if n != "CompileError::new" && n != "CompileError::with_index" {
            continue;
        }
        let new = n == "CompileError::new";
        let a = c.unknown_args(*i, &["first", "why"]);
        for (s, v) in c.run(*i, a.clone(), State::new()) {
            let ix = at(c, &s, &v, et, "index").0;
            let some = is_var(c, &ix, "Some");
            if new {
                c.holds("a new error carries no position", s.pc, bdd::not(some));
                let k = at(c, &s, &v, et, "kind").0;
                let e = eq(c, &s, &k, &a[0]);
                c.holds("a new error has the kind given", s.pc, e);
            } else {
                let iv = pay(c, &ix, "Some", 0);
                let e = eq(c, &s, &iv, &a[0]);
                c.holds("a located error carries the position given", s.pc, bdd::and(some, e));
            }
            let r = at(c, &s, &v, et, "reason").0;
            let w = c.e.force(a[1].clone());
            let w = c.e.read_ref(&s, &w);
            let w = if w == V::Undef { c.e.force(a[1].clone()) } else { w };
            if let (V::Str(x), V::Str(y)) = (c.e.force(r.clone()), c.e.force(w)) {
                let e = str_same(c, &s, &x, &y);
                c.holds("an error has the reason given", s.pc, e);
            }
        }
    }
    writers(c, "CompileError", &["index", "kind"], &["CompileError::new", "CompileError::with_index", "CompileError::set_expression_index"]);
    for (i, b) in all.iter() {
        let n = name(i);
        let made = crate::callg::builds(b, "CompileError");
        c.oblige(
            format!("{n} makes errors only through their constructors"),
            made.is_empty() || n == "CompileError::new" || n == "CompileError::with_index",
            format!("{n} builds a CompileError itself at {}", made.join(", ")),
        );
        let cs: Vec<String> = crate::callg::callees(b).iter().map(name).collect();
        if cs.iter().any(|x| x == "CompileError::with_index") {
            let ok = helper_of(c, &n, &["ReportManager::register_ext_report"]);
            c.oblige("errors are given a position where their expression is known", ok, format!("{n} gives an error a position of its own"));
        }
        if cs.iter().any(|x| x == "CompileError::set_expression_index") {
            let ok = helper_of(c, &n, &["compile_multi_int"]);
            c.oblige("the position of an error is set by the compile call", ok, format!("{n} sets the position of an error"));
        }
    }
    // The position given to a refused registration is the one it was asked for.
    reg_index(c);
    ng_literal(c, "C03");
    short_lit(c, "C03");
    graph_register(c, "C03");
    parsed_index(c);
}
pub fn str_same(c: &mut Ck, s: &State, x: &StrV, y: &StrV) -> Bdd {
    if x == y {
        return bdd::T;
    }
    models::str_eq(&mut c.e, s, &V::Str(Rc::new(x.clone())), &V::Str(Rc::new(y.clone())))
}
/// register_ext_report's errors carry the position of the registration.
fn reg_index(c: &mut Ck) {
    let Some((i, a, t)) = args_of(c, "ReportManager::register_ext_report", &["rm", "id", "ext"]) else { return };
    let Some(et) = err_ty(c) else { return };
    let idx = at(c, &State::new(), &a[2], t[2], "first_pattern_index").0;
    for (s, v) in c.run(i, a.clone(), State::new()) {
        let bad = is_var(c, &v, "Err");
        let p = bdd::and(s.pc, bad);
        if p == bdd::F || c.e.dom.empty(p) {
            continue;
        }
        let er = pay(c, &v, "Err", 0);
        let ix = at(c, &s, &er, et, "index").0;
        let some = is_var(c, &ix, "Some");
        let iv = pay(c, &ix, "Some", 0);
        let e = eq(c, &s, &iv, &idx);
        c.holds_text("a refused registration names its own expression", bdd::and(s.pc, bad), bdd::or(bdd::not(some), e), &show(&ix));
    }
}
/// The parsed expression knows its own position, and parse errors carry none.
fn parsed_index(c: &mut Ck) {
    let Some((i, a, _)) = args_of(c, "ParsedExpression::new", &["index", "exp", "flags", "id"]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    let pt = tyx::fields(rt, 0)[0];
    let Some(et) = err_ty(c) else { return };
    c.e.hooks.push(Rc::new(move |e, st, ci, _| {
        if short(&ci.stripped) != "parse" || !tyx::is_enum(ci.ret) {
            return None;
        }
        let good = bdd::named(fresh("parses").key());
        let mut out = vec![];
        if let Some(s) = st.with(good) {
            let v = V::Opq(fresh("tree"), tyx::fields(ci.ret, 0)[0]);
            out.push((s, models::variant(ci.ret, 0, vec![v])));
        }
        if let Some(s) = st.with(bdd::not(good)) {
            let mut er = e.expand(fresh("parseerr"), et);
            let ii = tyx::field_index(et, "index")?;
            let it = tyx::fields(et, 0)[ii];
            er = e.set(&s, er, &[PE::F(ii)], models::opt(it, None));
            out.push((s, models::variant(ci.ret, 1, vec![er])));
        }
        Some(out)
    }));
    let outs = c.run(i, a.clone(), State::new());
    c.e.hooks.clear();
    for (s, v) in outs {
        let ok = is_var(c, &v, "Ok");
        let pe = pay(c, &v, "Ok", 0);
        let g = bdd::and(s.pc, ok);
        if g != bdd::F {
            let ix = at(c, &s, &pe, pt, "expr.index").0;
            let e = eq(c, &s, &ix, &a[0]);
            c.holds_text("a parsed expression knows its position", g, e, &show(&ix));
        }
        let er = pay(c, &v, "Err", 0);
        let b = bdd::and(s.pc, bdd::not(ok));
        if b != bdd::F && !c.e.dom.empty(b) {
            let ix = at(c, &s, &er, et, "index").0;
            let some = is_var(c, &ix, "Some");
            c.holds("a parse error carries no position before the call adds it", b, bdd::not(some));
        }
    }
}
/// Expressions that are not literals register their match id (C14) under their position (C03).
pub fn graph_register(c: &mut Ck, what: &str) {
    let Some((i, a, t)) = args_of(c, "add_expression", &["ng", "index", "exp", "flags", "id"]) else { return };
    for f in ["ParsedExpression::new", "shortcut_literal", "build_graph", "ReportManager::register_ext_report"] {
        if c.find(f).is_none() {
            return;
        }
    }
    c.ctx = "add_expression: ".into();
    let mut st = State::new();
    let l = c.e.lin_of(&a[1]).unwrap_or(Lin::k(0));
    st.pc = c.e.dom.le0(bdd::T, &l.plus(-8_000_000));
    let _ = t;
    let seen: Seen = Default::default();
    let s2 = seen.clone();
    let a2 = a.clone();
    let c14 = what == "C14";
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        let n = short(&ci.stripped);
        match n.as_str() {
            "ParsedExpression::new" => {
                let good = bdd::named(fresh("parses").key());
                let pt = tyx::fields(ci.ret, 0)[0];
                let et = tyx::fields(ci.ret, 1)[0];
                let mut out = vec![];
                if let Some(s) = st.with(good) {
                    let mut v = e.expand(Sym::new("parsed"), pt);
                    let ie = tyx::field_index(pt, "expr")?;
                    let xt = tyx::fields(pt, 0)[ie];
                    for (f, w) in [("index", a2[1].clone()), ("report", a2[4].clone())] {
                        let k = tyx::field_index(xt, f)?;
                        v = e.set(&s, v, &[PE::F(ie), PE::F(k)], w);
                    }
                    out.push((s, models::variant(ci.ret, 0, vec![v])));
                }
                if let Some(s) = st.with(bdd::not(good)) {
                    let er = e.expand(fresh("parseerr"), et);
                    out.push((s, models::variant(ci.ret, 1, vec![er])));
                }
                Some(out)
            }
            "shortcut_literal" => {
                let r = e.expand(Sym::new("shortcut"), ci.ret);
                s2.borrow_mut().push((n, st.pc, vec![r.clone()]));
                Some(vec![(st.clone(), r)])
            }
            "build_graph" => {
                // The expression's settings are kept (C37 covers the graph).
                let p = e.read_ref(st, &a[0]);
                let pt = tyx::pointee(ci.arg_tys[0])?;
                let ie = tyx::field_index(pt, "expr")?;
                let ex = e.get(st, p, &[PE::F(ie)]);
                let je = tyx::field_index(ci.ret, "expr")?;
                let v = e.expand(fresh("built"), ci.ret);
                let v = e.set(st, v, &[PE::F(je)], ex);
                Some(vec![(st.clone(), v)])
            }
            "ReportManager::register_ext_report" => {
                let r = e.expand(fresh("reg"), ci.ret);
                let mut v: Vec<V> = a.iter().map(|x| e.force(x.clone())).collect();
                v.push(r.clone());
                s2.borrow_mut().push((n, st.pc, v));
                Some(vec![(st.clone(), r)])
            }
            _ => None,
        }
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let reg = calls(&seen, "ReportManager::register_ext_report");
    let sc = calls(&seen, "shortcut_literal");
    let Some(ei) = c.find("ReportManager::register_ext_report") else { return };
    let et3 = c.arg_tys(ei)[2];
    let Some(pe) = c.find("ParsedExpression::new") else { return };
    let prt = c.e.body(pe).map(|b| b.body.ret_local().ty);
    let Some(prt) = prt else { return };
    let pt = tyx::fields(prt, 0)[0];
    let parsed = c.e.expand(Sym::new("parsed"), pt);
    let hl = fb(c, &st, &parsed, pt, "expr.highlander");
    for (pc, ar) in &reg {
        let x = at(c, &st, &ar[2], et3, "first_pattern_index").0;
        let e = eq(c, &st, &x, &a[1]);
        c.holds_text("a graph expression is registered under its position", *pc, e, &show(&x));
        if c14 {
            let e = eq(c, &st, &ar[1], &a[4]);
            c.holds_text("a graph expression registers its match id", *pc, e, &show(&ar[1]));
            let h = fb(c, &st, &ar[2], et3, "highlander");
            c.holds("a graph expression registers whether it is single-match", *pc, bdd::iff(h, hl));
        }
    }
    if c14 {
        let all = outs.iter().fold(bdd::F, |x, (s, _)| bdd::or(x, s.pc));
        let mut left = bdd::F;
        for (pc, r) in &sc {
            let ok = is_var(c, &r[0], "Ok");
            let tv = pay(c, &r[0], "Ok", 0);
            let tk = c.bool_of(&tv);
            left = bdd::or(left, bdd::and(*pc, bdd::and(ok, bdd::not(tk))));
        }
        once_iff(c, "an expression that is not a literal registers its match id", &reg, left, all);
        for (s, v) in &outs {
            let ok = is_var(c, v, "Ok");
            for (pc, ar) in &reg {
                let r = is_var(c, ar.last().unwrap(), "Ok");
                let p = bdd::and(s.pc, *pc);
                c.holds("a refused registration fails the compile", bdd::and(p, bdd::not(r)), bdd::not(ok));
                c.holds("an accepted registration does not fail it", bdd::and(p, r), ok);
            }
        }
    }
    c.ctx.clear();
}
