//! Checks of whole-program behaviour properties.
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::interp::*;
use crate::models;
use crate::tyx::{self, Kind};
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::cell::RefCell;
use std::rc::Rc;

pub fn run(c: &mut Ck, id: &str) -> bool {
    c.e.wide_bits = false;
    match id {
        "C02" => multi(c, "C02"),
        "C03" => crate::chk_lit::c03(c),
        "C04" => c04(c),
        "C10" => c10(c),
        "C11" => crate::chk_tree::c11(c),
        "C33" => crate::chk_tree::c33(c),
        "C31" => crate::chk_graph::c31(c),
        "C32" => crate::chk_graph::c32(c),
        "C37" => crate::chk_graph::c37(c),
        "C12" => crate::chk_lit::c12(c),
        "C05" => crate::chk_parse::c05(c),
        "C06" => crate::chk_parse::c06(c),
        "C36" => crate::chk_parse::c36(c),
        "C09" => crate::chk_flags::c09(c),
        "C30" => crate::chk_ue2::c30(c),
        "C16" => crate::chk_small::c16(c),
        "C17" => crate::chk_small::c17(c),
        "C07" => crate::chk_parse::c07(c),
        "C08" => crate::chk_parse::c08(c),
        "C13" => c13(c),
        "C14" => c14(c),
        "C15" => c15(c),
        "C34" => c34(c),
        "C35" => c35(c),
        _ => return false,
    }
    true
}

// ------------------------------------------------------------------ helpers

/// The type under references, boxes, pins and other pointers.
pub fn bare(t: Ty) -> Ty {
    let mut t = t;
    loop {
        if let Some(p) = tyx::pointee(t) {
            t = p;
        } else if tyx::adt_last(t).as_deref() == Some("Pin") {
            t = tyx::adt_args(t)[0];
        } else {
            return t;
        }
    }
}
/// Follows references down to the place holding the value itself.
pub fn root(c: &mut Ck, st: &State, v: &V, t: Ty) -> (V, Ty) {
    let (mut v, mut t) = (c.e.force(v.clone()), t);
    loop {
        if tyx::adt_last(t).as_deref() == Some("Pin") {
            if let V::Agg(a) = &v {
                v = c.e.force(a[0].clone());
            }
            t = tyx::adt_args(t)[0];
        } else if tyx::kind(t) == Kind::Ptr {
            v = c.e.read_ref(st, &v);
            v = c.e.force(v);
            t = tyx::pointee(t).unwrap();
        } else {
            return (v, t);
        }
    }
}
/// The value at a dotted path of field names, following references on the way.
pub fn at(c: &mut Ck, st: &State, v: &V, t: Ty, path: &str) -> (V, Ty) {
    let (mut v, mut t) = root(c, st, v, t);
    for seg in path.split('.').filter(|s| !s.is_empty()) {
        let i = match seg.parse::<usize>() {
            Ok(i) => Some(i),
            Err(_) => tyx::field_index(t, seg),
        };
        let Some(i) = i else {
            c.undecided(format!("field {seg}"), format!("{t} has no field {seg}"));
            return (V::Opq(fresh("¿field"), t), t);
        };
        let ft = tyx::fields(t, 0)[i];
        let x = c.e.get(st, v, &[PE::F(i)]);
        let (x, ft) = (c.e.force(x), ft);
        v = x;
        t = ft;
        if tyx::kind(t) == Kind::Ptr && path.split('.').last() != Some(seg) {
            let r = root(c, st, &v, t);
            v = r.0;
            t = r.1;
        }
    }
    (v, t)
}
pub fn fb(c: &mut Ck, st: &State, v: &V, t: Ty, path: &str) -> Bdd {
    let x = at(c, st, v, t, path).0;
    c.bool_of(&x)
}
/// Condition under which an enum value has the named variant.
pub fn is_var(c: &mut Ck, v: &V, name: &str) -> Bdd {
    match c.e.force(v.clone()) {
        V::En(en) => match (tyx::variant_index(en.ty, name), en.disc.bits()) {
            (Some(i), Some(d)) => b_eq(&d, &const_bits(i as u128, 8)),
            (None, _) => {
                c.undecided(format!("variant {name}"), format!("{} has no variant {name}", en.ty));
                bdd::named(fresh("¿var").key())
            }
            _ => bdd::named(fresh("¿var").key()),
        },
        v => {
            c.undecided(format!("enum {name}"), format!("not an enum: {}", kindname(&v)));
            bdd::named(fresh("¿var").key())
        }
    }
}
/// Payload field `i` of the named variant.
pub fn pay(c: &mut Ck, v: &V, name: &str, i: usize) -> V {
    match c.e.force(v.clone()) {
        V::En(en) => match tyx::variant_index(en.ty, name) {
            Some(k) => {
                let mut en = (*en).clone();
                materialize(&mut en, k);
                let p = en.pay.get(&k).and_then(|f| f.get(i).cloned()).unwrap_or(V::Opq(fresh("¿pay"), en.ty));
                c.e.force(p)
            }
            None => V::Opq(fresh("¿pay"), en.ty),
        },
        _ => V::Undef,
    }
}
/// Equality of two values, as a condition.
pub fn eq(c: &mut Ck, st: &State, a: &V, b: &V) -> Bdd {
    c.e.v_eq(st, a, b)
}
pub fn reff(a: AllocId) -> V {
    models::mkref(a, vec![])
}
pub fn show(v: &V) -> String {
    let s = format!("{v:?}");
    if s.len() > 700 {
        format!("{} ...", s.chars().take(700).collect::<String>())
    } else {
        s
    }
}
/// Records the path conditions under which the named functions are entered.
pub fn watch(c: &mut Ck, names: &[&str]) -> Rc<RefCell<Vec<(String, Bdd, Vec<V>)>>> {
    let seen: Rc<RefCell<Vec<(String, Bdd, Vec<V>)>>> = Default::default();
    let s = seen.clone();
    let names: Vec<String> = names.iter().map(|x| x.to_string()).collect();
    c.e.hooks.push(Rc::new(move |_e, st, ci, a| {
        let n = short(&ci.stripped);
        if names.contains(&n) {
            s.borrow_mut().push((n, st.pc, a.to_vec()));
        }
        None
    }));
    seen
}
pub fn args_of(c: &mut Ck, f: &str, names: &[&str]) -> Option<(Instance, Vec<V>, Vec<Ty>)> {
    let i = c.find(f)?;
    let a = c.unknown_args(i, names);
    let t = c.arg_tys(i);
    Some((i, a, t))
}
/// A value in memory with its reference.
pub fn cell(c: &mut Ck, st: &mut State, name: &str, t: Ty) -> (V, V) {
    let v = c.e.expand(Sym::new(name), t);
    let a = c.e.heap(st, v.clone(), t);
    (reff(a), v)
}

// ------------------------------------------------------------------ C35

fn c35(c: &mut Ck) {
    c.rule("the condition under which each runtime is selected, computed over all resource settings, equals the stated formula");
    let Some((i, a, t)) = args_of(c, "pick_runtime_impl", &["build", "resources"]) else { return };
    let st = State::new();
    let mut f = |c: &mut Ck, n: &str| fb(c, &st, &a[1], t[1], n);
    let mut any = bdd::F;
    for n in ["has_outfixes", "has_suffixes", "has_leftfixes", "has_anchored", "has_eod", "has_states", "has_lit_delay", "checks_groups"] {
        any = bdd::or(any, f(c, n));
    }
    let lc = f(c, "has_lit_check");
    let fl = f(c, "has_floating");
    let streaming = fb(c, &st, &a[0], t[0], "cc.streaming");
    any = bdd::or(any, bdd::and(lc, streaming));
    let pure_ok = bdd::and(fl, bdd::not(any));
    let outs = c.run(i, a, st.clone());
    let mut total = bdd::F;
    for (s, v) in outs {
        total = bdd::or(total, s.pc);
        let p = is_var(c, &v, "PureLiteral");
        let full = is_var(c, &v, "FullRose");
        c.holds("literal-only runtime only when it suffices", bdd::and(s.pc, p), pure_ok);
        c.holds("literal-only runtime whenever it suffices", bdd::and(s.pc, pure_ok), p);
        c.holds("full runtime otherwise", bdd::and(s.pc, bdd::not(pure_ok)), full);
    }
    c.holds("a runtime is always picked", bdd::T, total);
    // The engine records the picked runtime, for the resources and context of that very build.
    let Some((i, a, t)) = args_of(c, "RoseBuild::build_rose", &["build"]) else { return };
    let w = watch(c, &["pick_runtime_impl"]);
    let outs = c.run(i, a.clone(), State::new());
    c.e.hooks.clear();
    let picks = w.borrow().clone();
    c.oblige("the engine's runtime is picked once", picks.len() == 1, format!("{} calls of pick_runtime_impl", picks.len()));
    let rt = match c.e.body(i) {
        Some(b) => b.body.ret_local().ty,
        None => return,
    };
    for (s, v) in outs {
        let (ri, _) = at(c, &s, &v, rt, "runtime_impl");
        // No resource is ever set yet: the default resources require the full runtime.
        let full = is_var(c, &ri, "FullRose");
        c.holds("engine built from default resources uses the full runtime", s.pc, full);
        for (_, _, pa) in &picks {
            let (x, _) = at(c, &s, &pa[0], t[0], "cc.streaming");
            let (y, _) = at(c, &s, &a[0], t[0], "cc.streaming");
            let e = eq(c, &s, &x, &y);
            c.holds("the runtime is picked for the streaming setting of the build", s.pc, e);
        }
    }
}

// ------------------------------------------------------------------ C34

fn c34(c: &mut Ck) {
    c.rule("abstract execution of scan over every database, data and scratch: result, engine entered, memory written");
    let Some((i, a, t)) = args_of(c, "scan", &["db", "data", "scratch"]) else { return };
    let engines = [
        ("FullRose", "rose_block_exec"),
        ("PureLiteral", "pure_literal_block_exec"),
        ("SingleOutfix", "single_outfix_block_exec"),
    ];
    for (_, f) in engines {
        c.find(f);
    }
    let w = watch(c, &engines.map(|x| x.1));
    let st = State::new();
    let (ri, _) = at(c, &st, &a[0], t[0], "rose.runtime_impl");
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let mut total = bdd::F;
    for (s, v) in &outs {
        total = bdd::or(total, s.pc);
        let ok = is_var(c, v, "Ok");
        c.holds("scan returns success", s.pc, ok);
        let (before, _) = root(c, &st, &a[0], t[0]);
        let (after, _) = root(c, s, &a[0], t[0]);
        let e = eq(c, s, &before, &after);
        c.holds_text("the database is unchanged", s.pc, e, &format!("database after a scan: {}", show(&after)));
        let (data, _) = root(c, &st, &a[1], t[1]);
        let (data2, _) = root(c, s, &a[1], t[1]);
        c.oblige("the data is unchanged", data == data2, format!("data after a scan: {}", show(&data2)));
        // The state pointer's target is only created in memory by writing through it.
        let (sc, stt) = root(c, &st, &a[2], t[2]);
        let p = at(c, &st, &sc, stt, "core_info.state").0;
        if let V::Ref(p) = p {
            c.oblige("nothing is written through the scratch state pointer", !s.mem.contains_key(&p.alloc), "scan writes through the scratch state pointer".to_string());
        }
    }
    c.holds("scan always returns", bdd::T, total);
    let seen = w.borrow().clone();
    for (var, f) in engines {
        let want = is_var(c, &ri, var);
        let mut got = bdd::F;
        for (n, pc, args) in &seen {
            if n == f {
                c.holds(&format!("{f} entered at most once"), bdd::and(got, *pc), bdd::F);
                got = bdd::or(got, *pc);
                // It is handed this database's engine.
                let (d, dt) = at(c, &st, &a[0], t[0], "rose");
                let _ = dt;
                let x = c.e.read_ref(&st, &args[0]);
                let e = eq(c, &st, &x, &d);
                c.holds_text(&format!("{f} runs this database's engine"), *pc, e, &format!("{f} is given {}", show(&x)));
            }
        }
        c.holds(&format!("{f} runs only for a {var} database"), got, want);
        c.holds(&format!("{f} runs for every {var} database"), want, got);
    }
    effects_scan(c, i);
}
/// No function reachable from scan reads or writes through a raw pointer.
fn effects_scan(c: &mut Ck, i: Instance) {
    use crate::callg;
    let g = callg::reach(c, &[i]);
    c.note("functions reachable from scan", g.len());
    for (f, b) in g {
        let n = short(&f.name().to_string());
        for d in callg::raw_derefs(&b) {
            c.oblige(format!("{n} follows no raw pointer"), false, format!("{n} dereferences a raw pointer at {d}"));
        }
        c.oblige(format!("{n} follows no raw pointer"), true, "");
    }
}

// ------------------------------------------------------------------ C10

// ------------------------------------------------------------------ C13, C14, C15

/// The vector at a place.
pub fn seq(c: &mut Ck, v: &V) -> Option<Rc<SeqV>> {
    match c.e.force(v.clone()) {
        V::Seq(s) => Some(s),
        _ => None,
    }
}
pub fn map(c: &mut Ck, v: &V) -> Option<Rc<MapV>> {
    match c.e.force(v.clone()) {
        V::Map(m) => Some(m),
        _ => None,
    }
}
/// Lookup in a map: presence condition and value.
pub fn look(c: &mut Ck, st: &State, m: &MapV, key: &V) -> (Bdd, V) {
    let k = models::deep(&mut c.e, st, key);
    let mut has = bdd::F;
    let mut val: Option<V> = None;
    for (g, v) in models::map_cases(&mut c.e, st, m, &k) {
        if let Some(v) = v {
            let v = c.e.force(v);
            has = bdd::or(has, g);
            val = Some(match val {
                None => v,
                Some(o) => merge(g, &v, &o).unwrap_or(V::Opq(fresh("¿look"), m.kty)),
            });
        }
    }
    (has, val.unwrap_or(V::Undef))
}
/// The lookups of one key in two maps agree.
pub fn same_lookup(c: &mut Ck, s: &State, pc: Bdd, a: &MapV, b: &MapV, key: &V, what: &str) {
    let k = models::deep(&mut c.e, s, key);
    let base = State { pc: bdd::and(s.pc, pc), ..s.clone() };
    for (g, x) in models::map_cases(&mut c.e, &base, a, &k) {
        let Some(s1) = base.with(g) else { continue };
        for (h, y) in models::map_cases(&mut c.e, &s1, b, &k) {
            let Some(s2) = s1.with(h) else { continue };
            let ok = match (&x, &y) {
                (None, None) => bdd::T,
                (Some(x), Some(y)) => eq(c, &s2, x, y),
                _ => bdd::F,
            };
            c.holds_text(what, s2.pc, ok, &format!("{x:?} becomes {y:?}"));
        }
    }
}
/// Same contents, for maps and sequences.
pub fn unchanged(c: &mut Ck, what: &str, s: &State, pc: Bdd, a: &V, b: &V) {
    let (a, b) = (c.e.force(a.clone()), c.e.force(b.clone()));
    if a == b {
        c.oblige(what, true, "");
        return;
    }
    let e = eq(c, s, &a, &b);
    c.holds_text(what, bdd::and(s.pc, pc), e, &format!("before {} after {}", show(&a), show(&b)));
}
pub fn err_kind(c: &mut Ck, s: &State, v: &V, k: &str) -> Bdd {
    let e = pay(c, v, "Err", 0);
    let Some(t) = err_ty(c) else { return bdd::F };
    let kind = at(c, s, &e, t, "kind").0;
    is_var(c, &kind, k)
}
pub fn err_ty(c: &mut Ck) -> Option<Ty> {
    let i = c.find("CompileError::set_expression_index")?;
    let t = c.arg_tys(i);
    tyx::pointee(t[0])
}
/// Every local function body, including instances of generic ones that are used.
pub fn local_bodies(c: &mut Ck) -> Rc<Vec<(Instance, Rc<crate::body::BodyInfo>)>> {
    if let Some(b) = &c.bodies {
        return b.clone();
    }
    let items: Vec<Instance> =
        c.index.values().flatten().cloned().filter_map(|i| Instance::try_from(i).ok()).collect();
    let v: Vec<_> = crate::callg::reach(c, &items).into_iter().filter(|(i, _)| i.def.krate().is_local).collect();
    let mut callers: std::collections::BTreeMap<String, std::collections::BTreeSet<String>> = Default::default();
    for (i, b) in &v {
        let n = short(&i.name().to_string());
        for k in crate::callg::callees(b) {
            callers.entry(short(&k.name().to_string())).or_default().insert(n.clone());
        }
    }
    c.callers = callers;
    c.bodies = Some(Rc::new(v));
    c.bodies.clone().unwrap()
}
/// The named functions and those called by nothing else.
pub fn only_via(c: &mut Ck, by: &[&str]) -> std::collections::BTreeSet<String> {
    local_bodies(c);
    let mut ok: std::collections::BTreeSet<String> = by.iter().map(|s| s.to_string()).collect();
    loop {
        let n = ok.len();
        for (f, cs) in &c.callers {
            if !ok.contains(f) && cs.iter().all(|x| ok.contains(x) || x == f) {
                ok.insert(f.clone());
            }
        }
        if ok.len() == n {
            return ok;
        }
    }
}
/// Only these functions, and functions called by nothing else, may write the named fields.
pub fn writers(c: &mut Ck, ty: &str, fields: &[&str], allowed: &[&str]) {
    let bodies = local_bodies(c);
    c.note("bodies searched for writes", bodies.len());
    let name = |i: &Instance| short(&i.name().to_string());
    let ok = only_via(c, allowed);
    for (i, b) in bodies.iter() {
        let n = name(i);
        let w = crate::callg::field_writes(b, ty, fields);
        c.oblige(
            format!("{n} leaves {ty}.{{{}}} alone", fields.join(",")),
            w.is_empty() || ok.contains(&n),
            format!("{n} may write {}", w.join(", ")),
        );
    }
}

fn c13(c: &mut Ck) {
    c.rule("transition relation of get_internal_id over every table satisfying the invariant (table and map inverse); who-may-write rule for the table");
    c.assume("the std hash map behaves as a finite map with the equality of Report (Hash and Eq are derived together)");
    let Some((i, a, t)) = args_of(c, "ReportManager::get_internal_id", &["rm", "ir"]) else { return };
    let st = State::new();
    let ids0 = at(c, &st, &a[0], t[0], "report_ids").0;
    let map0 = at(c, &st, &a[0], t[0], "report_id_to_internal_map").0;
    let lim = at(c, &st, &a[0], t[0], "grey.limit_report_count").0;
    let (Some(ids), Some(m0)) = (seq(c, &ids0), map(c, &map0)) else { return };
    let (ir, irt) = root(c, &st, &a[1], t[1]);
    let (known, old_id) = look(c, &st, &m0, &ir);
    let n = ids.len();
    let len = V::lin(n.clone(), 64);
    // A database never holds more reports than fit the id type: the limit is 32,000,000.
    let room = { let l = c.e.lin_of(&lim).unwrap(); c.e.dom.le0(bdd::T, &n.plus(1).sub(&l)) };
    let cap = c.e.dom.le0(bdd::T, &n.plus(-(u32::MAX as i128)));
    let mut st1 = st.clone();
    st1.pc = cap;
    let outs = c.run(i, a.clone(), st1);
    let mut total = bdd::F;
    for (s, v) in &outs {
        total = bdd::or(total, s.pc);
        let ok = is_var(c, v, "Ok");
        let id = pay(c, v, "Ok", 0);
        let ids1 = at(c, s, &a[0], t[0], "report_ids").0;
        let map1 = at(c, s, &a[0], t[0], "report_id_to_internal_map").0;
        let (Some(m1), Some(q1)) = (map(c, &map1), seq(c, &ids1)) else { return };
        let pk = bdd::and(s.pc, known);
        if pk != bdd::F {
            c.holds("a known report is never refused", pk, ok);
            let e = eq(c, s, &id, &old_id);
            c.holds_text("a known report keeps its id", pk, e, &show(&id));
            let mut sk = s.clone();
            sk.pc = pk;
            unchanged(c, "a known report changes no table", &sk, bdd::T, &ids0, &ids1);
            unchanged(c, "a known report changes no map", &sk, bdd::T, &map0, &map1);
        }
        let pn = bdd::and(s.pc, bdd::not(known));
        let full = bdd::and(pn, bdd::not(room));
        let err = is_var(c, v, "Err");
        if full != bdd::F && !c.e.dom.empty(full) {
            c.holds("a new report beyond the limit is refused", full, err);
            let rl = err_kind(c, s, v, "ResourceLimit");
            c.holds("the refusal is a resource limit error", full, rl);
            unchanged(c, "a refused report changes no table", s, full, &ids0, &ids1);
            unchanged(c, "a refused report changes no map", s, full, &map0, &map1);
        }
        let fresh_ok = bdd::and(pn, room);
        if fresh_ok != bdd::F && !c.e.dom.empty(fresh_ok) {
            let mut sf = s.clone();
            sf.pc = fresh_ok;
            c.holds("a new report within the limit is accepted", fresh_ok, ok);
            let idl = c.e.lin_of(&id);
            let e = match idl {
                Some(l) => c.e.dom.eq0(fresh_ok, &l.sub(&n)),
                None => bdd::F,
            };
            c.holds_text("a new report gets the next consecutive id", fresh_ok, e, &show(&id));
            let l1 = V::lin(q1.len(), 64);
            let e = { let x = V::lin(n.plus(1), 64); eq(c, &sf, &l1, &x) };
            c.holds_text("the table grows by one", fresh_ok, e, &show(&l1));
            let last = c.e.index_seq(&sf, &q1, &len);
            let e = eq(c, &sf, &last, &ir);
            c.holds_text("the new id looks up the new report", fresh_ok, e, &show(&last));
            // Every older entry is as it was.
            let k = Sym::ranged("k", 0, i64::MAX as i128);
            let lt = c.e.dom.le0(fresh_ok, &Lin::s(k).plus(1).sub(&n));
            let mut sk = sf.clone();
            sk.pc = bdd::and(sf.pc, lt);
            let kv = V::lin(Lin::s(k), 64);
            let (x, y) = (c.e.index_seq(&sk, &ids, &kv), c.e.index_seq(&sk, &q1, &kv));
            let e = eq(c, &sk, &x, &y);
            c.holds_text("older ids look up the same report", sk.pc, e, &show(&y));
            let (has, got) = look(c, &sf, &m1, &ir);
            c.holds("the new report is known afterwards", fresh_ok, has);
            let e = eq(c, &sf, &got, &id);
            c.holds_text("the new report is known by its id", fresh_ok, e, &show(&got));
            let other = c.e.expand(Sym::new("other"), irt);
            let same = eq(c, &sf, &other, &ir);
            same_lookup(c, &sf, bdd::not(same), &m0, &m1, &other, "no other report becomes known, unknown or changes its id");
        }
    }
    c.holds("every request gets an answer", cap, total);

    // Looking up an id indexes the table.
    let Some((i, b, bt)) = args_of(c, "ReportManager::get_report", &["rm", "id"]) else { return };
    let st = State::new();
    let ids0 = at(c, &st, &b[0], bt[0], "report_ids").0;
    let Some(ids) = seq(c, &ids0) else { return };
    let id = c.e.force(b[1].clone());
    let idl = c.e.lin_of(&id).unwrap();
    let inb = c.e.dom.le0(bdd::T, &idl.plus(1).sub(&ids.len()));
    let outs = c.run(i, b.clone(), State { pc: inb, ..st.clone() });
    for (s, v) in &outs {
        let got = c.e.read_ref(s, v);
        let want = c.e.index_seq(s, &ids, &V::lin(idl.clone(), 64));
        let e = eq(c, s, &got, &want);
        c.holds_text("an id looks up its own report", s.pc, e, &show(&got));
    }
    // A fresh manager is empty.
    fresh_manager(c, &["report_ids"], &["report_id_to_internal_map"]);
    writers(c, "ReportManager", &["report_ids", "report_id_to_internal_map"], &["ReportManager::new", "ReportManager::get_internal_id"]);

    // Requests for different match ids are requests for different reports.
    for (f, names) in [("make_e_callback", vec!["r", "off", "ekey", "quiet"]), ("make_som_relative_callback", vec!["r", "off", "dist"])] {
        let Some((i, a, _)) = args_of(c, f, &names) else { continue };
        let names2: Vec<String> = names.iter().map(|x| format!("{x}'")).collect();
        let names2: Vec<&str> = names2.iter().map(|x| x.as_str()).collect();
        let b = c.unknown_args(i, &names2);
        let x = c.run(i, a.clone(), State::new());
        let y = c.run(i, b.clone(), State::new());
        for (s, u) in &x {
            for (_, v) in &y {
                let same_id = eq(c, s, &a[0], &b[0]);
                let same = eq(c, s, u, v);
                c.holds(&format!("{f}: different match ids make different reports"), bdd::and(s.pc, same), same_id);
            }
        }
    }
}
pub fn fresh_manager(c: &mut Ck, seqs: &[&str], maps: &[&str]) {
    let Some((i, a, _)) = args_of(c, "ReportManager::new", &["g"]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    let outs = c.run(i, a, State::new());
    for (s, v) in outs {
        for f in seqs {
            let x = at(c, &s, &v, rt, f).0;
            let n = seq(c, &x).map(|q| q.len());
            c.oblige(format!("a fresh manager has empty {f}"), n.as_ref().and_then(|l| l.is_const()) == Some(0), format!("{f} starts with {n:?} entries"));
        }
        for f in maps {
            let x = at(c, &s, &v, rt, f).0;
            let ok = map(c, &x).map_or(false, |m| m.base.is_none() && m.ents.is_empty() && m.dirty.is_none());
            c.oblige(format!("a fresh manager has empty {f}"), ok, format!("{f} starts as {}", show(&x)));
        }
    }
}

fn c14(c: &mut Ck) {
    c.rule("transition relation of register_ext_report over every registration table; message text tracked symbolically");
    let Some((i, a, t)) = args_of(c, "ReportManager::register_ext_report", &["rm", "id", "ext"]) else { return };
    let st = State::new();
    let m0v = at(c, &st, &a[0], t[0], "external_id_map").0;
    let g0 = fb(c, &st, &a[0], t[0], "global_exhaust");
    let Some(m0) = map(c, &m0v) else { return };
    let id = c.e.force(a[1].clone());
    let (known, old) = look(c, &st, &m0, &id);
    let et = t[2];
    let hl = fb(c, &st, &a[2], et, "highlander");
    let idx = at(c, &st, &a[2], et, "first_pattern_index").0;
    let ohl = fb(c, &st, &old, et, "highlander");
    let oidx = at(c, &st, &old, et, "first_pattern_index").0;
    let clash = bdd::and(known, bdd::xor(hl, ohl));
    let outs = c.run(i, a.clone(), st.clone());
    let mut total = bdd::F;
    for (s, v) in &outs {
        total = bdd::or(total, s.pc);
        let ok = is_var(c, v, "Ok");
        c.holds("conflicting single-match registrations are refused", bdd::and(s.pc, clash), bdd::not(ok));
        c.holds("consistent registrations are accepted", bdd::and(s.pc, bdd::not(clash)), ok);
        let m1v = at(c, s, &a[0], t[0], "external_id_map").0;
        let g1 = fb(c, s, &a[0], t[0], "global_exhaust");
        let Some(m1) = map(c, &m1v) else { return };
        // The first registration stays; others are untouched.
        let kp = bdd::and(s.pc, known);
        let mut sk = s.clone();
        sk.pc = kp;
        if kp != bdd::F {
            let (h, got) = look(c, &sk, &m1, &id);
            c.holds("a registered id stays registered", kp, h);
            let e = eq(c, &sk, &got, &old);
            c.holds_text("the first registration is kept unchanged", kp, e, &show(&got));
        }
        let np = bdd::and(s.pc, bdd::not(known));
        if np != bdd::F {
            sk.pc = np;
            let (h, got) = look(c, &sk, &m1, &id);
            c.holds("a first registration is stored", np, h);
            let e = eq(c, &sk, &got, &a[2]);
            c.holds_text("a first registration is stored as given", np, e, &show(&got));
        }
        let other = c.e.expand(Sym::new("other"), t[1]);
        let same = eq(c, s, &other, &id);
        same_lookup(c, s, bdd::not(same), &m0, &m1, &other, "no other registration appears, disappears or changes");
        c.holds("accepting keeps the set exhaustible exactly for single-match", bdd::and(s.pc, ok), bdd::iff(g1, bdd::and(g0, hl)));
        c.holds("a refusal does not make the set exhaustible", bdd::and(s.pc, bdd::not(ok)), bdd::or(bdd::not(g1), g0));
        // The message.
        let bad = bdd::and(s.pc, bdd::not(ok));
        if bad == bdd::F || c.e.dom.empty(bad) {
            continue;
        }
        let er = pay(c, v, "Err", 0);
        let Some(ert) = err_ty(c) else { return };
        let index = at(c, s, &er, ert, "index").0;
        let some = is_var(c, &index, "Some");
        let iv = pay(c, &index, "Some", 0);
        let e = eq(c, s, &iv, &idx);
        c.holds_text("the refusal names the refused expression", bad, bdd::and(some, e), &show(&index));
        let reason = at(c, s, &er, ert, "reason").0;
        let V::Str(txt) = c.e.force(reason.clone()) else {
            c.undecided("the message is text", show(&reason));
            continue;
        };
        let disp: Vec<V> = txt.0.iter().filter_map(|p| if let Piece::Disp(v) = p { Some(v.clone()) } else { None }).collect();
        let mut has = |c: &mut Ck, x: &V| {
            let mut r = bdd::F;
            for d in &disp {
                let e = eq(c, s, d, x);
                r = bdd::or(r, e);
            }
            r
        };
        let (n1, n2) = (has(c, &idx), has(c, &oidx));
        c.holds_text("the message names the refused expression", bad, n1, &format!("{:?}", txt));
        c.holds_text("the message names the earlier expression", bad, n2, &format!("{:?}", txt));
        msg_sides(c, s, bad, hl, &txt, &idx);
    }
    c.holds("every registration gets an answer", bdd::T, total);
    crate::chk_lit::graph_register(c, "C14");
    // Nothing is registered, and the set is exhaustible, to begin with.
    fresh_manager(c, &[], &["external_id_map"]);
    let Some((i, a, _)) = args_of(c, "ReportManager::new", &["g"]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    for (s, v) in c.run(i, a, State::new()) {
        let g = fb(c, &s, &v, rt, "global_exhaust");
        c.holds("a fresh manager is exhaustible", s.pc, g);
    }
    writers(c, "ReportManager", &["external_id_map", "global_exhaust"], &["ReportManager::new", "ReportManager::register_ext_report"]);
}
/// The refused expression is said to have specified SINGLEMATCH exactly when it did.
fn msg_sides(c: &mut Ck, _s: &State, bad: Bdd, hl: Bdd, txt: &StrV, _idx: &V) {
    let flat: String = txt
        .0
        .iter()
        .map(|p| match p {
            Piece::Lit(s) => s.clone(),
            Piece::Disp(_) => "<n>".into(),
            _ => "<?>".into(),
        })
        .collect();
    let l = flat.to_lowercase();
    if l.contains("<?>") {
        c.undecided("the message says which expression asked for single-match", format!("unknown text in {flat:?}"));
        return;
    }
    // First clause (up to "whereas"): about the refused expression.
    let cut = l.find("whereas").unwrap_or(l.len());
    let (x, y) = l.split_at(cut);
    let neg = |t: &str| t.contains("not") || t.contains("n't");
    let says = if neg(x) { bdd::not(hl) } else { hl };
    c.holds_text("the message says whether the refused expression asked for single-match", bad, says, &flat);
    let says = if neg(y) { hl } else { bdd::not(hl) };
    c.holds_text("the message says whether the earlier expression asked for single-match", bad, says, &flat);
}

fn c15(c: &mut Ck) {
    c.rule("transition relation of get_exhaustible_key over every key table; who-may-write rule for the table");
    let Some((i, a, t)) = args_of(c, "ReportManager::get_exhaustible_key", &["rm", "a"]) else { return };
    let st = State::new();
    let m0v = at(c, &st, &a[0], t[0], "to_exhaustible_key_map").0;
    let Some(m0) = map(c, &m0v) else { return };
    let id = c.e.force(a[1].clone());
    // Keys of the table are wider than the id: the table is searched by value.
    let key = match c.e.lin_of(&id) {
        Some(l) => V::lin(l, tyx::int_info(m0.kty).map_or(64, |x| x.0)),
        None => return,
    };
    let (known, old) = look(c, &st, &m0, &key);
    let cap = c.e.dom.le0(bdd::T, &m0.len.plus(-(u32::MAX as i128)));
    let outs = c.run(i, a.clone(), State { pc: cap, ..st.clone() });
    let mut total = bdd::F;
    for (s, v) in &outs {
        total = bdd::or(total, s.pc);
        let m1v = at(c, s, &a[0], t[0], "to_exhaustible_key_map").0;
        let Some(m1) = map(c, &m1v) else { return };
        let kp = bdd::and(s.pc, known);
        if kp != bdd::F {
            let sk = State { pc: kp, ..s.clone() };
            let e = eq(c, &sk, v, &old);
            c.holds_text("a known id gets its key again", kp, e, &show(v));
            let (h, g) = look(c, &sk, &m1, &key);
            let e = eq(c, &sk, &g, &old);
            c.holds_text("a known id keeps its key", kp, bdd::and(h, e), &show(&g));
            let e = c.e.dom.eq0(kp, &m1.len.sub(&m0.len));
            c.holds_text("no key is allocated for a known id", kp, e, &format!("{:?}", m1.len));
        }
        let np = bdd::and(s.pc, bdd::not(known));
        if np != bdd::F {
            let sk = State { pc: np, ..s.clone() };
            let e = match c.e.lin_of(v) {
                Some(l) => c.e.dom.eq0(np, &l.sub(&m0.len)),
                None => bdd::F,
            };
            c.holds_text("a new id gets the next consecutive key", np, e, &show(v));
            let (h, g) = look(c, &sk, &m1, &key);
            let e = eq(c, &sk, &g, v);
            c.holds_text("a new id is recorded with its key", np, bdd::and(h, e), &show(&g));
            let e = c.e.dom.eq0(np, &m1.len.sub(&m0.len).plus(-1));
            c.holds_text("exactly one key is allocated for a new id", np, e, &format!("{:?}", m1.len));
        }
        let other = c.e.expand(Sym::new("other"), m0.kty);
        let same = eq(c, s, &other, &key);
        same_lookup(c, s, bdd::not(same), &m0, &m1, &other, "no other id gains, loses or changes its key");
    }
    c.holds("every request gets a key", cap, total);
    fresh_manager(c, &[], &["to_exhaustible_key_map"]);
    writers(c, "ReportManager", &["to_exhaustible_key_map"], &["ReportManager::new", "ReportManager::get_exhaustible_key"]);
}
fn c10(c: &mut Ck) {
    c.rule("database kind and start-of-match precision computed for every mode value; scanning-context references are never redirected");
    let Some((i, a, t)) = args_of(c, "RoseBuild::build_rose", &["build"]) else { return };
    let st = State::new();
    let s = fb(c, &st, &a[0], t[0], "cc.streaming");
    let v = fb(c, &st, &a[0], t[0], "cc.vectored");
    let outs = c.run(i, a.clone(), st.clone());
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    for (q, r) in outs {
        let m = at(c, &q, &r, rt, "mode").0;
        let (bl, sm, ve) = (is_var(c, &m, "Block"), is_var(c, &m, "Stream"), is_var(c, &m, "Vectored"));
        c.holds("engine mode is Block without streaming", bdd::and(q.pc, bdd::not(s)), bl);
        c.holds("engine mode is Stream when streaming only", bdd::and(q.pc, bdd::and(s, bdd::not(v))), sm);
        c.holds("engine mode is Vectored when both", bdd::and(q.pc, bdd::and(s, v)), ve);
    }
    multi(c, "C10");
    writers(c, "CompileContext", &["streaming", "vectored"], &["CompileContext::new"]);
    for t in ["Ng", "RoseBuild"] {
        writers(c, t, &["cc"], &[]);
    }
    writers(c, "RoseEngine", &["mode"], &[]);
    writers(c, "Database", &["rose"], &[]);
}

// ------------------------------------------------------------------ C02, C03, C04, C10

/// Ghost variables live in reserved memory, so that loop heads generalise them too.
pub fn ghost(k: u64) -> AllocId {
    AllocId::Heap(u64::MAX - k)
}
const G_N: u64 = 0; // expressions examined
const G_BAD: u64 = 1; // a stage has failed
const G_ERR: u64 = 2; // its error

/// Fields of the build state other than its context may have changed arbitrarily.
pub fn havoc_ng(e: &mut Eng, st: &mut State, r: &V, t: Ty) {
    let (mut v, mut ty) = (e.force(r.clone()), t);
    let mut ptr = None;
    loop {
        if tyx::adt_last(ty).as_deref() == Some("Pin") {
            if let V::Agg(a) = &v {
                v = e.force(a[0].clone());
            }
            ty = tyx::adt_args(ty)[0];
        } else if tyx::kind(ty) == Kind::Ptr {
            let V::Ref(p) = &v else { return };
            ptr = Some(p.clone());
            let n = e.read_ref(st, &v);
            v = e.force(n);
            ty = tyx::pointee(ty).unwrap();
        } else {
            break;
        }
    }
    let Some(p) = ptr else { return };
    let n = havoc_keep(e, st, v, ty);
    e.write_ptr(st, &p, n);
}
pub fn havoc_keep(e: &mut Eng, st: &State, v: V, ty: Ty) -> V {
    let names = tyx::field_names(ty, 0);
    let tys = tyx::fields(ty, 0);
    let mut out = vec![];
    for (i, (n, t)) in names.iter().zip(&tys).enumerate() {
        let old = e.get(st, v.clone(), &[PE::F(i)]);
        if n == "cc" || n == "grey" {
            out.push(old);
        } else if tyx::is_local_adt(*t) && tyx::field_names(*t, 0).iter().any(|x| x == "cc") && !tyx::is_enum(*t) {
            let o = e.force(old);
            out.push(havoc_keep(e, st, o, *t));
        } else {
            out.push(V::Opq(fresh("later"), *t));
        }
    }
    V::agg(out)
}

pub fn multi(c: &mut Ck, what: &'static str) {
    for f in ["compile_multi", "compile"] {
        multi_of(c, what, f);
    }
}
pub fn multi_of(c: &mut Ck, what: &'static str, f: &str) {
    let c02 = what == "C02";
    if c02 {
        c.rule("abstract execution of the compile calls over lists of any length: the expression, flags and id handed to each stage, the order of examination and the failure of the call, with every stage succeeding or failing arbitrarily");
    }
    let c03 = what == "C03";
    let c04 = what == "C04";
    let c10 = what == "C10";
    let names: &[&str] = if f == "compile" { &["exp", "fl", "mode"] } else { &["exps", "fls", "ids", "mode"] };
    let Some((i, a, t)) = args_of(c, f, names) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    c.ctx = format!("{f}: ");
    let mut st = State::new();
    // The call, as lists.
    let single = f == "compile";
    let n_exp = if single { Lin::k(1) } else { list_len(c, &st, &a[0]) };
    let n_fl = if single { Lin::k(1) } else { list_len(c, &st, &a[1]) };
    let n_id = if single { Lin::k(1) } else { list_len(c, &st, &a[2]) };
    let mode = a.last().unwrap().clone();
    let mt = *t.last().unwrap();
    let empty = c.e.dom.eq0(bdd::T, &n_exp);
    let e1 = c.e.dom.eq0(bdd::T, &n_exp.sub(&n_fl));
    let e2 = c.e.dom.eq0(bdd::T, &n_exp.sub(&n_id));
    let same = bdd::and(e1, e2);
    let fits = c.e.dom.le0(bdd::T, &n_exp.plus(-8_000_000));
    let refuse = bdd::or(empty, bdd::not(same));
    let callbad = bdd::or(refuse, bdd::not(fits));
    st.mem.insert(ghost(G_N), V::us(0));
    st.mem.insert(ghost(G_BAD), V::C(0, 1));
    st.mem.insert(ghost(G_ERR), V::Undef);
    c.e.heap_ty.insert(ghost(G_N), Ty::usize_ty());

    let Some(parse) = c.find("ParsedExpression::new") else { return };
    let Some(short_i) = c.find("shortcut_literal") else { return };
    let _ = (parse, short_i);
    let (exps, fls, ids) = (a[0].clone(), a.get(1).cloned().unwrap(), a.get(2).cloned().unwrap());
    let Some(et) = err_ty(c) else { return };
    c.e.hooks.push(Rc::new(move |e, st, ci, args| {
        let n = short(&ci.stripped);
        match n.as_str() {
            "ParsedExpression::new" => {
                let gn = st.mem[&ghost(G_N)].clone();
                let l = e.lin_of(&gn).unwrap();
                let bad = st.mem[&ghost(G_BAD)].as_bool().unwrap();
                let at = |e: &mut Eng, s: &V, k: &V| -> V {
                    if single {
                        return s.clone();
                    }
                    match models::slice_parts(e, st, s) {
                        Some((p, start, _)) => {
                            let i = e.vadd(&start, k);
                            let r = models::sub_ref(&p, PE::I(i));
                            let v = e.read_ref(st, &r);
                            e.force(v)
                        }
                        None => V::Undef,
                    }
                };
                let want = at(e, &exps, &gn);
                let got = e.force(args[1].clone());
                if c02 {
                    e.obl("examination stops at the first failure", st.pc, bdd::not(bad), "an expression is examined after one has failed".into());
                    let c1 = e.v_eq(st, &args[0], &gn);
                    e.obl("expressions are examined in order", st.pc, c1, format!("expression {l:?} is examined as number {}", show(&args[0])));
                    let c2 = e.v_eq(st, &got, &want);
                    e.obl("each expression is examined", st.pc, c2, format!("examination {l:?} is of {} rather than {}", show(&got), show(&want)));
                    let fw = at(e, &fls, &gn);
                    let c3 = e.v_eq(st, &args[2], &fw);
                    e.obl("each expression is examined with its own flags", st.pc, c3, format!("examination {l:?} uses flags {}", show(&args[2])));
                    let iw = if single { V::C(0, 32) } else { at(e, &ids, &gn) };
                    let c4 = e.v_eq(st, &args[3], &iw);
                    e.obl("each expression is examined with its own id", st.pc, c4, format!("examination {l:?} uses id {}", show(&args[3])));
                }
                if c04 {
                    if let V::Str(s) = &got {
                        let len = models::str_len(s);
                        let ok = e.dom.le0(st.pc, &len.plus(-16_000));
                        e.obl("no expression longer than 16,000 bytes is parsed", st.pc, ok, format!("an expression of {len:?} bytes is parsed"));
                    }
                }
                stage(e, st, ci, Some(l), et)
            }
            "shortcut_literal" => {
                let mut s = st.clone();
                havoc_ng(e, &mut s, &args[0], ci.arg_tys[0]);
                stage(e, &s, ci, None, et)
            }
            "build_graph" => {
                let mut s = st.clone();
                if let Some(p) = e.deref(&s, &args[0]) {
                    let v = V::Opq(fresh("pe'"), tyx::pointee(ci.arg_tys[0]).unwrap());
                    e.write_ptr(&mut s, &p, v);
                }
                let v = V::Opq(fresh("built"), ci.ret);
                Some(vec![(s, v)])
            }
            "Ng::add_graph" => {
                let mut s = st.clone();
                havoc_ng(e, &mut s, &args[0], ci.arg_tys[0]);
                if tyx::is_enum(ci.ret) {
                    return stage(e, &s, ci, None, et);
                }
                Some(vec![(s, V::unit())])
            }
            "Ng::new" if c04 => {
                let mut v = e.read_ref(st, &args[0]);
                let mut t = bare(ci.arg_tys[0]);
                for f in ["grey", "limit_report_count"] {
                    let k = tyx::field_index(t, f)?;
                    t = tyx::fields(t, 0)[k];
                    v = e.get(st, v, &[PE::F(k)]);
                }
                let ok = e.v_eq(st, &v, &V::us(32_000_000));
                e.obl("the report limit is 32,000,000", st.pc, ok, format!("the report limit is {}", show(&v)));
                None
            }
            _ => None,
        }
    }));
    let precs = if c10 { Some(watch(c, &["Ng::new"])) } else { None };
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let mut total = bdd::F;
    for (s, v) in &outs {
        total = bdd::or(total, s.pc);
        let ok = is_var(c, v, "Ok");
        let err = bdd::not(ok);
        let n = c.e.lin_of(&s.mem[&ghost(G_N)]).unwrap();
        let gbad = s.mem[&ghost(G_BAD)].as_bool().unwrap();
        if c02 {
            c.holds("inconsistent or empty calls are refused", bdd::and(s.pc, refuse), err);
            let pk = bdd::and(s.pc, ok);
            let all = c.e.dom.eq0(pk, &n.sub(&n_exp));
            c.holds_text("success only after every expression was examined", pk, all, &format!("{n:?} of {n_exp:?} examined"));
            c.holds("success only if no expression failed", pk, bdd::not(gbad));
        }
        let p = bdd::and(s.pc, err);
        let er = pay(c, v, "Err", 0);
        let index = at(c, s, &er, et, "index").0;
        let some = is_var(c, &index, "Some");
        let iv = pay(c, &index, "Some", 0);
        if c04 {
            c.holds("too many expressions are refused", bdd::and(s.pc, bdd::not(fits)), err);
            let pre = bdd::and(s.pc, bdd::not(fits));
            let none = c.e.dom.eq0(pre, &n);
            c.holds("too many expressions are refused before any is parsed", pre, none);
        }
        // An error that no stage reported: about the call, or the length of expression n.
        let own = bdd::and(p, bdd::not(gbad));
        if own != bdd::F && !c.e.dom.empty(own) {
            let in_range = c.e.dom.le0(own, &n.plus(1).sub(&n_exp));
            let cur = if single {
                c.e.force(a[0].clone())
            } else {
                match models::slice_parts(&mut c.e, s, &a[0]) {
                    Some((q, start, _)) => {
                        let k = c.e.vadd(&start, &V::lin(n.clone(), 64));
                        let r = models::sub_ref(&q, PE::I(k));
                        let v = c.e.read_ref(s, &r);
                        c.e.force(v)
                    }
                    None => V::Undef,
                }
            };
            let long = match &cur {
                V::Str(x) => {
                    let l = models::str_len(x);
                    let z = c.e.dom.le0(own, &l.plus(-16_000));
                    bdd::not(z)
                }
                _ => bdd::F,
            };
            let about_exp = bdd::and(bdd::not(callbad), bdd::and(in_range, long));
            if c02 || c04 {
                c.holds("calls within the limits are not refused by themselves", own, bdd::or(callbad, about_exp));
            }
            if c03 {
                let same_i = eq(c, s, &iv, &V::lin(n.clone(), 32));
                c.holds_text("errors about the call carry no position", bdd::and(own, callbad), bdd::not(some), &show(&index));
                c.holds_text("an over-long expression is named", bdd::and(own, about_exp), bdd::and(some, same_i), &show(&index));
            }
        }
        let st_err = bdd::and(p, gbad);
        if c03 && st_err != bdd::F && !c.e.dom.empty(st_err) {
            let w = V::lin(n.plus(-1), 32);
            let same_i = eq(c, s, &iv, &w);
            c.holds_text("the failing expression is named", st_err, bdd::and(some, same_i), &format!("{} rather than {}", show(&iv), show(&w)));
            let old = s.mem[&ghost(G_ERR)].clone();
            for f in ["kind", "reason"] {
                let (x, y) = (at(c, s, &er, et, f).0, at(c, s, &old, et, f).0);
                let e = eq(c, s, &x, &y);
                c.holds_text(&format!("the {f} of the failing stage is kept"), st_err, e, &format!("{} rather than {}", show(&x), show(&y)));
            }
        }
        if c10 {
            let pk = bdd::and(s.pc, ok);
            if pk == bdd::F {
                continue;
            }
            let db = pay(c, v, "Ok", 0);
            let dt = tyx::adt_args(rt)[0];
            let m = at(c, s, &db, dt, "rose.mode").0;
            let (m0, _) = root(c, s, &mode, mt);
            for k in ["Block", "Stream", "Vectored"] {
                let (x, y) = (is_var(c, &m, k), is_var(c, &m0, k));
                c.holds(&format!("a {k} database comes from a {k} compile and the other way round"), pk, bdd::iff(x, y));
            }
        }
    }
    if let Some(w) = precs {
        let (m0, _) = root(c, &st, &mode, mt);
        let seen = w.borrow().clone();
        c.oblige("the build state is made once", seen.len() == 1, format!("Ng::new is called {} times", seen.len()));
        for (_, pc, na) in seen {
            let h = pay(c, &m0, "Stream", 0);
            let st0 = is_var(c, &m0, "Stream");
            let has = is_var(c, &h, "Some");
            let hv = pay(c, &h, "Some", 0);
            let p = c.e.force(na[2].clone());
            let some = bdd::and(st0, has);
            let mut rest = pc;
            for (k, bytes) in [("Large", 8u128), ("Medium", 4), ("Small", 2)] {
                let x = is_var(c, &hv, k);
                let g = bdd::and(bdd::and(pc, some), x);
                let e = eq(c, &st, &p, &V::us(bytes));
                c.holds_text(&format!("precision of the {k} horizon is {bytes}"), g, e, &show(&p));
                rest = bdd::and(rest, bdd::not(g));
            }
            let ve = is_var(c, &m0, "Vectored");
            let e = eq(c, &st, &p, &V::us(8));
            c.holds_text("precision of vectored scanning is 8", bdd::and(pc, ve), e, &show(&p));
            rest = bdd::and(rest, bdd::not(ve));
            let e = eq(c, &st, &p, &V::us(0));
            c.holds_text("precision is 0 otherwise", rest, e, &show(&p));
        }
    }
    c.ctx.clear();
}
pub fn list_len(c: &mut Ck, st: &State, r: &V) -> Lin {
    match models::slice_parts(&mut c.e, st, r) {
        Some((_, _, n)) => c.e.lin_of(&n).unwrap_or(Lin::s(fresh("¿len"))),
        None => Lin::s(fresh("¿len")),
    }
}
/// A compile stage: any result. Its error carries no position or that of the expression
/// under examination (established separately).
pub fn stage(e: &mut Eng, st: &State, ci: &CallInfo, n: Option<Lin>, et: Ty) -> Option<Outs> {
    let mut s = st.clone();
    let cur = match &n {
        Some(l) => {
            s.mem.insert(ghost(G_N), V::lin(l.plus(1), 64));
            l.clone()
        }
        None => e.lin_of(&s.mem[&ghost(G_N)].clone())?.plus(-1),
    };
    let okt = tyx::fields(ci.ret, 0);
    let sym = fresh("stage");
    let good = bdd::named(format!("{} succeeds", sym.key()));
    let mut out = vec![];
    if let Some(s1) = s.with(good) {
        let v = models::variant(ci.ret, 0, vec![V::Opq(sym.child("ok"), okt[0])]);
        out.push((s1, v));
    }
    if let Some(mut s2) = s.with(bdd::not(good)) {
        let mut er = e.expand(sym.child("err"), et);
        let ii = tyx::field_index(et, "index")?;
        let it = tyx::fields(et, 0)[ii];
        let c = bdd::named(format!("{} has position", sym.key()));
        let ix = models::opt_if(it, c, V::lin(cur, 32));
        er = e.set(&s2, er, &[PE::F(ii)], ix);
        s2.mem.insert(ghost(G_BAD), V::C(1, 1));
        s2.mem.insert(ghost(G_ERR), er.clone());
        out.push((s2, models::variant(ci.ret, 1, vec![er])));
    }
    Some(out)
}
fn c04(c: &mut Ck) {
    c.rule("every path to the parser respects the bounds; own refusals only beyond them; transition relation of the report table at its limit; the limits are the documented constants and never written");
    multi(c, "C04");
    // The report table.
    let Some((i, a, t)) = args_of(c, "ReportManager::get_internal_id", &["rm", "ir"]) else { return };
    let st = State::new();
    let ids0 = at(c, &st, &a[0], t[0], "report_ids").0;
    let map0 = at(c, &st, &a[0], t[0], "report_id_to_internal_map").0;
    let lim = at(c, &st, &a[0], t[0], "grey.limit_report_count").0;
    let (Some(ids), Some(m0)) = (seq(c, &ids0), map(c, &map0)) else { return };
    let (ir, _) = root(c, &st, &a[1], t[1]);
    let (known, _) = look(c, &st, &m0, &ir);
    let n = ids.len();
    let l = c.e.lin_of(&lim).unwrap_or(Lin::k(0));
    let room = c.e.dom.le0(bdd::T, &n.plus(1).sub(&l));
    let cap = c.e.dom.le0(bdd::T, &n.plus(-(u32::MAX as i128)));
    for (s, v) in c.run(i, a.clone(), State { pc: cap, ..st.clone() }) {
        let new = bdd::and(s.pc, bdd::not(known));
        let ok = is_var(c, &v, "Ok");
        c.holds("a new report within the limit is accepted", bdd::and(new, room), ok);
        let full = bdd::and(new, bdd::not(room));
        if full == bdd::F || c.e.dom.empty(full) {
            continue;
        }
        c.holds("a new report beyond the limit is refused", full, bdd::not(ok));
        let rl = err_kind(c, &s, &v, "ResourceLimit");
        c.holds("the refusal is a resource limit error", full, rl);
        let ids1 = at(c, &s, &a[0], t[0], "report_ids").0;
        let map1 = at(c, &s, &a[0], t[0], "report_id_to_internal_map").0;
        unchanged(c, "a refused report changes no table", &s, full, &ids0, &ids1);
        unchanged(c, "a refused report changes no map", &s, full, &map0, &map1);
    }
    // Its limit.
    if let Some((i, a, t)) = args_of(c, "Ng::new", &["cc", "n", "som"]) {
        let Some(b) = c.e.body(i) else { return };
        let rt = b.body.ret_local().ty;
        let st = State::new();
        let want = at(c, &st, &a[0], t[0], "grey.limit_report_count").0;
        for (s, v) in c.run(i, a.clone(), st) {
            let got = at(c, &s, &v, rt, "rm.grey.limit_report_count").0;
            let e = eq(c, &s, &want, &got);
            c.holds_text("the report table has the limit of the compile", s.pc, e, &show(&got));
        }
    }
    writers(c, "Grey", &["limit_pattern_count", "limit_pattern_length", "limit_report_count"], &["<Grey as Default>::default", "<Grey as Clone>::clone"]);
    writers(c, "ReportManager", &["grey", "report_ids"], &["ReportManager::new", "ReportManager::get_internal_id"]);
    writers(c, "CompileContext", &["grey"], &["CompileContext::new"]);
}
