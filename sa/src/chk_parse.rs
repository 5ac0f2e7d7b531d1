//! Checks of the parser (C05, C06, C07, C08, C36).
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::*;
use crate::models;
use crate::text::*;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::rc::Rc;

/// Everything before one step of the parser.
struct Step {
    i: Instance,
    a: Vec<V>,
    st: State,
    ty: Ty,
    /// The expression, the offset of the next character and the end.
    root: Sym,
    k: Lin,
    len: Lin,
    v0: V,
}
fn text(r: Sym, a: &Lin, b: &Lin) -> V {
    V::Str(Rc::new(StrV(vec![Piece::Sub(r, a.clone(), b.clone())])))
}
/// A parser in an arbitrary state with something left to read.
fn step(c: &mut Ck) -> Option<Step> {
    let i = c.find("Context::main")?;
    let t = c.arg_tys(i);
    let ty = tyx::pointee(*t.first()?)?;
    let mut st = State::new();
    let root = Sym::new("expr");
    let len = Lin::s(Sym::ranged("len(expr)", 0, i64::MAX as i128));
    let k = Lin::s(Sym::ranged("at", 0, i64::MAX as i128));
    c.e.bounds.insert((root, k.clone()));
    let some = c.e.dom.le0(bdd::T, &k.plus(1).sub(&len));
    // Expressions have at most 16,000 bytes (C04), so at most as many groups.
    let short = c.e.dom.le0(some, &len.plus(-16_000));
    st.pc = bdd::and(some, short);
    // A character that is there lies wholly inside.
    let w = Sym::ranged(format!("width({}@{k:?})", root.key()), 2, 4);
    let fits = c.e.dom.le0(st.pc, &k.add(&Lin::s(w)).sub(&len));
    st.pc = bdd::and(st.pc, bdd::or(is_ascii(root, &k), fits));
    let mut v = c.e.expand(Sym::new("ctx"), ty);
    for (f, x) in [("ptr", text(root, &Lin::k(0), &len)), ("p", text(root, &k, &len))] {
        let n = match tyx::field_index(ty, f) {
            Some(n) => n,
            None => {
                c.undecided(format!("parser field {f}"), format!("{ty} has no field {f}"));
                return None;
            }
        };
        v = c.e.set(&st, v, &[PE::F(n)], x);
    }
    let g = at(c, &st, &v, ty, "group_index").0;
    if let Some(l) = c.e.lin_of(&g) {
        let x = c.e.dom.le0(st.pc, &l.plus(-16_001));
        st.pc = bdd::and(st.pc, x);
    }
    let h = c.e.heap(&mut st, v.clone(), ty);
    let mut a = vec![reff(h)];
    for (n, t) in t.iter().enumerate().skip(1) {
        match tyx::kind(*t) {
            tyx::Kind::Str => a.push(text(root, &k, &len)),
            _ => a.push(V::Opq(Sym::new(format!("arg{n}")), *t)),
        }
    }
    Some(Step { i, a, st, ty, root, k, len, v0: v })
}
fn is_text(c: &mut Ck, pc: Bdd, v: &V, r: Sym, a: &Lin, b: &Lin) -> Bdd {
    match c.e.force(v.clone()) {
        V::Str(s) => match s.0.as_slice() {
            [] => c.e.dom.eq0(pc, &b.sub(a)),
            [Piece::Sub(q, x, y)] if *q == r => {
                let p = c.e.dom.eq0(pc, &x.sub(a));
                let q = c.e.dom.eq0(pc, &y.sub(b));
                bdd::and(p, q)
            }
            _ => bdd::F,
        },
        _ => bdd::named(fresh("¿text").key()),
    }
}
fn slen(c: &mut Ck, v: &V) -> Lin {
    match seq(c, v) {
        Some(q) => q.len(),
        None => Lin::s(fresh("¿len")),
    }
}
fn same_len(c: &mut Ck, pc: Bdd, v: &V, l: &Lin) -> Bdd {
    let n = slen(c, v);
    c.e.dom.eq0(pc, &n.sub(l))
}
fn elem(c: &mut Ck, st: &State, v: &V, i: &Lin) -> V {
    match seq(c, v) {
        Some(q) => {
            let x = c.e.index_seq(st, &q, &V::lin(i.clone(), 64));
            c.e.force(x)
        }
        None => V::Opq(fresh("¿elem"), Ty::bool_ty()),
    }
}
fn ascii_at(s: &Step) -> Bdd {
    is_ascii(s.root, &s.k)
}

/// C05, C06, C36: one character of the expression.
fn one_char(c: &mut Ck, what: &str) {
    let Some(mut s) = step(c) else { return };
    c.ctx = "each character: ".into();
    if what == "C07" {
        // The modes saved for enclosing groups are the mode in force (kept by every step).
        let (stack, stack_t) = at(c, &s.st, &s.v0, s.ty, "sequences");
        let n0 = slen(c, &stack);
        let open = c.e.dom.le0(s.st.pc, &Lin::k(1).sub(&n0));
        if let Some(est) = tyx::elem(stack_t).filter(|t| tyx::field_index(*t, "mode").is_some()) {
            let st = s.st.clone();
            let x = elem(c, &st, &stack, &n0.plus(-1));
            let x = at(c, &st, &x, est, "mode.caseless").0;
            let m = at(c, &st, &s.v0, s.ty, "mode.caseless").0;
            let e = eq(c, &st, &x, &m);
            s.st.pc = bdd::and(st.pc, bdd::or(bdd::not(open), e));
        }
    }
    let s = s;
    let (o, cl, alt) = (chr_is(s.root, &s.k, '('), chr_is(s.root, &s.k, ')'), chr_is(s.root, &s.k, '|'));
    let asc = ascii_at(&s);
    let special = bdd::or(o, bdd::or(cl, alt));
    let lit = bdd::and(asc, bdd::not(special));
    let f = |c: &mut Ck, st: &State, v: &V, p: &str| at(c, st, v, s.ty, p);
    let (stack0, stack_t) = f(c, &s.st, &s.v0, "sequences");
    let n0 = slen(c, &stack0);
    let open = c.e.dom.le0(s.st.pc, &Lin::k(1).sub(&n0));
    let classes: Rc<RefCell<Vec<(Bdd, V, V, V)>>> = Default::default();
    let cs = classes.clone();
    let has = c.has("get_literal_component_class");
    let ascii_rule = asc;
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        // The class of a literal is C07's business; it exists for ASCII characters.
        if short(&ci.stripped) != "get_literal_component_class" {
            return None;
        }
        let _ = ascii_rule;
        let r = e.expand(fresh("class"), tyx::fields(ci.ret, 0)[0]);
        cs.borrow_mut().push((st.pc, e.force(a[0].clone()), e.force(a[1].clone()), r.clone()));
        Some(vec![(st.clone(), models::variant(ci.ret, 0, vec![r]))])
    }));
    let outs = c.run(s.i, s.a.clone(), s.st.clone());
    c.e.hooks.clear();
    if !has {
        c.undecided("anchor get_literal_component_class", "not found");
        c.ctx.clear();
        return;
    }
    let classes = classes.borrow().clone();
    let refuse = bdd::or(bdd::not(asc), bdd::and(cl, bdd::not(open)));
    let mut total = bdd::F;
    let (ei, et) = (c.find("CompileError::set_expression_index"), err_ty(c));
    let _ = ei;
    for (t, v) in &outs {
        total = bdd::or(total, t.pc);
        let ok = is_var(c, v, "Ok");
        if what == "C05" {
            c.holds("refused: a non-ASCII character or a parenthesis that closes nothing", t.pc, bdd::iff(bdd::not(ok), refuse));
        }
        if what == "C36" {
            let p = bdd::and(t.pc, bdd::not(ok));
            if p != bdd::F && !c.e.dom.empty(p) {
                if let Some(et) = et {
                    located(c, t, p, v, et, &s.k);
                }
            }
        }
        let good = bdd::and(t.pc, ok);
        let good = bdd::and(good, bdd::not(refuse));
        if good == bdd::F || c.e.dom.empty(good) {
            continue;
        }
        let mut t = t.clone();
        t.pc = good;
        let rt = reftype(c, &s);
        let v1 = root(c, &t, &s.a[0], rt).0;
        let p1 = f(c, &t, &v1, "p").0;
        let (stack1, _) = f(c, &t, &v1, "sequences");
        // Progress by exactly that character.
        if what == "C05" || what == "C36" {
            let e = is_text(c, good, &p1, s.root, &s.k.plus(1), &s.len);
            c.holds_text("reading moves past exactly that character", good, e, &show(&p1));
            let ptr1 = f(c, &t, &v1, "ptr").0;
            let e = is_text(c, good, &ptr1, s.root, &Lin::k(0), &s.len);
            c.holds_text("the expression itself is kept", good, e, &show(&ptr1));
        }
        if what == "C05" || what == "C06" {
            let d = bdd::and(good, o);
            let e = same_len(c, d, &stack1, &n0.plus(1));
            c.holds("an opening parenthesis opens one group", d, e);
            let d = bdd::and(good, cl);
            let e = same_len(c, d, &stack1, &n0.plus(-1));
            c.holds("a closing parenthesis closes one group", d, e);
            let d = bdd::and(good, bdd::not(bdd::or(o, cl)));
            let e = same_len(c, d, &stack1, &n0);
            c.holds("other characters open and close no group", d, e);
        }
        // The offset at which each group was opened.
        let Some(est) = tyx::elem(stack_t) else { continue };
        if what == "C36" {
            let d = bdd::and(good, o);
            if d != bdd::F && !c.e.dom.empty(d) {
                let mut td = t.clone();
                td.pc = d;
                let top = elem(c, &td, &stack1, &n0);
                let x = at(c, &td, &top, est, "offset").0;
                let l = c.e.lin_of(&x).unwrap_or(Lin::s(fresh("¿off")));
                let e = c.e.dom.eq0(d, &l.sub(&s.k));
                c.holds_text("a group remembers the offset of its parenthesis", d, e, &show(&x));
            }
        }
        if what == "C07" {
            let m0 = f(c, &t, &s.v0, "mode.caseless").0;
            let m1 = f(c, &t, &v1, "mode.caseless").0;
            let e = eq(c, &t, &m0, &m1);
            c.holds_text("the mode stays in force", good, e, &show(&m1));
            let d = bdd::and(good, o);
            if tyx::field_index(est, "mode").is_some() && d != bdd::F && !c.e.dom.empty(d) {
                let mut td = t.clone();
                td.pc = d;
                let top = elem(c, &td, &stack1, &n0);
                let m1 = at(c, &td, &top, est, "mode.caseless").0;
                let e = eq(c, &td, &m0, &m1);
                c.holds_text("the mode restored after a group is that before it", d, e, &show(&m1));
            }
        }
        if what == "C36" || what == "C06" || what == "C07" {
            stack_kept(c, &t, good, &stack0, &stack1, &n0, o, cl);
        }
        if what == "C07" {
            let p = bdd::and(good, lit);
            let mode = f(c, &t, &s.v0, "mode.caseless").0;
            let ch = chr(s.root, &s.k);
            let mut any = bdd::F;
            for (pc, a, nc, _) in &classes {
                any = bdd::or(any, *pc);
                let e = eq(c, &t, a, &ch);
                c.holds_text("the class is that of the character", *pc, e, &show(a));
                let e = eq(c, &t, nc, &mode);
                c.holds_text("the class is caseless exactly in caseless mode", *pc, e, &show(nc));
            }
            c.holds("every literal character gets its class", p, any);
        }
        if what == "C06" {
            tree(c, &s, &t, good, &v1, est, (o, cl, alt, lit), &classes);
        }
    }
    c.holds("every character is handled", s.st.pc, total);
    c.ctx.clear();
}
/// The type of the first argument.
fn reftype(c: &mut Ck, s: &Step) -> Ty {
    c.arg_tys(s.i)[0]
}
/// Enclosing groups stay as they were.
fn stack_kept(c: &mut Ck, t: &State, good: Bdd, a: &V, b: &V, n0: &Lin, _o: Bdd, cl: Bdd) {
    for (when, top) in [(bdd::not(cl), n0.clone()), (cl, n0.plus(-1))] {
        let j = Lin::s(Sym::ranged("enclosing", 0, i64::MAX as i128));
        let below = c.e.dom.le0(good, &j.plus(1).sub(&top));
        let p = bdd::and(bdd::and(good, when), below);
        if p == bdd::F || c.e.dom.empty(p) {
            continue;
        }
        let mut s = t.clone();
        s.pc = p;
        let (x, y) = (elem(c, &s, a, &j), elem(c, &s, b, &j));
        let e = if x == y { bdd::T } else { eq(c, &s, &x, &y) };
        c.holds_text("enclosing groups are kept as they were", p, e, &format!("{} becomes {}", show(&x), show(&y)));
    }
}
/// The error names the offset of the character.
fn located(c: &mut Ck, t: &State, pc: Bdd, v: &V, et: Ty, k: &Lin) {
    let er = pay(c, v, "Err", 0);
    let kind = at(c, t, &er, et, "kind").0;
    let loc = is_var(c, &kind, "LocatedParse");
    c.holds("the error is a located parse error", pc, loc);
    let reason = at(c, t, &er, et, "reason").0;
    ends_in(c, t, pc, &reason, k, " at index ");
}
/// Text ending in the given words and a number.
fn ends_in(c: &mut Ck, t: &State, pc: Bdd, reason: &V, k: &Lin, words: &str) {
    match c.e.force(reason.clone()) {
        V::Str(x) => match x.0.as_slice() {
            [.., Piece::Lit(w), Piece::Disp(n)] if w.ends_with(words) => {
                let l = c.e.lin_of(n).unwrap_or(Lin::s(fresh("¿pos")));
                let _ = t;
                let e = c.e.dom.eq0(pc, &l.sub(k));
                c.holds_text("the error ends in the byte offset of its cause", pc, e, &format!("{l:?} rather than {k:?}"));
            }
            [.., Piece::Lit(w)] if k.is_const().map_or(false, |n| w.ends_with(&format!("{words}{n}"))) => {
                c.oblige("the error ends in the byte offset of its cause", true, "");
            }
            _ => c.oblige("the error ends in the byte offset of its cause", false, format!("its text is {}", show(reason))),
        },
        _ => c.undecided("error text", show(reason)),
    }
}
/// Children of a component holding several.
fn kids(c: &mut Ck, st: &State, v: &V, t: Ty) -> V {
    at(c, st, v, t, "children").0
}
/// `b` is `a` with one more element, which is returned.
fn one_more(c: &mut Ck, t: &State, pc: Bdd, a: &V, b: &V, what: &str) -> V {
    let n = slen(c, a);
    let e = same_len(c, pc, b, &n.plus(1));
    c.holds_text(format!("{what}: one more child"), pc, e, &format!("{} becomes {}", show(a), show(b)));
    same_front(c, t, pc, a, b, &n, what);
    let mut s = t.clone();
    s.pc = pc;
    elem(c, &s, b, &n)
}
fn same_front(c: &mut Ck, t: &State, pc: Bdd, a: &V, b: &V, n: &Lin, what: &str) {
    let j = Lin::s(Sym::ranged("child", 0, i64::MAX as i128));
    let below = c.e.dom.le0(pc, &j.plus(1).sub(n));
    let p = bdd::and(pc, below);
    if p == bdd::F || c.e.dom.empty(p) {
        return;
    }
    let mut s = t.clone();
    s.pc = p;
    let (x, y) = (elem(c, &s, a, &j), elem(c, &s, b, &j));
    let e = if x == y { bdd::T } else { eq(c, &s, &x, &y) };
    c.holds_text(format!("{what}: earlier children are kept in place"), p, e, &format!("{} becomes {}", show(&x), show(&y)));
}
fn is_empty(c: &mut Ck, pc: Bdd, v: &V) -> Bdd {
    let n = slen(c, v);
    c.e.dom.eq0(pc, &n)
}
/// Same sequence component: children, pending alternation, capture index.
fn same_seq(c: &mut Ck, t: &State, pc: Bdd, a: &V, b: &V, ty: Ty, what: &str) {
    for f in tyx::field_names(ty, 0) {
        let (x, y) = (at(c, t, a, ty, &f).0, at(c, t, b, ty, &f).0);
        let e = if x == y { bdd::T } else { eq(c, t, &x, &y) };
        c.holds_text(format!("{what}: {f}"), pc, e, &format!("{} becomes {}", show(&x), show(&y)));
    }
}
fn fields_same(c: &mut Ck, t: &State, pc: Bdd, a: &V, b: &V, ty: Ty, fs: &[&str], what: &str) {
    for f in fs {
        let (x, y) = (at(c, t, a, ty, f).0, at(c, t, b, ty, f).0);
        let e = if x == y { bdd::T } else { eq(c, t, &x, &y) };
        c.holds_text(format!("{what} ({f})"), pc, e, &format!("{} becomes {}", show(&x), show(&y)));
    }
}
/// `fin` is `seq0` finished: a pending alternation has taken the last alternative and become its only child.
fn finished(c: &mut Ck, t: &State, pc: Bdd, seq0: &V, fin: &V, ty: Ty, what: &str) {
    let alt0 = at(c, t, seq0, ty, "alternation").0;
    let alt1 = at(c, t, fin, ty, "alternation").0;
    let none1 = is_var(c, &alt1, "None");
    c.holds(format!("{what}: no alternation is left pending"), pc, none1);
    fields_same(c, t, pc, seq0, fin, ty, &["capture_index"], &format!("{what}: it keeps its capture index"));
    let some = is_var(c, &alt0, "Some");
    let (k0, k1) = (kids(c, t, seq0, ty), kids(c, t, fin, ty));
    let p = bdd::and(pc, bdd::not(some));
    if p != bdd::F && !c.e.dom.empty(p) {
        let n = slen(c, &k0);
        let e = same_len(c, p, &k1, &n);
        c.holds(format!("{what}: without alternation its children are kept"), p, e);
        same_front(c, t, p, &k0, &k1, &n, what);
    }
    let p = bdd::and(pc, some);
    if p == bdd::F || c.e.dom.empty(p) {
        return;
    }
    let mut s = t.clone();
    s.pc = p;
    let e = same_len(c, p, &k1, &Lin::k(1));
    c.holds(format!("{what}: with alternation, that is its only child"), p, e);
    let only = elem(c, &s, &k1, &Lin::k(0));
    let is = is_var(c, &only, "Alternation");
    c.holds(format!("{what}: its only child is the alternation"), p, is);
    let a1 = pay(c, &only, "Alternation", 0);
    let a0 = pay(c, &alt0, "Some", 0);
    let Some(at_) = alt_ty(c) else { return };
    let (l0, l1) = (kids(c, &s, &a0, at_), kids(c, &s, &a1, at_));
    let last = one_more(c, &s, p, &l0, &l1, &format!("{what}: the last alternative"));
    alternative(c, &s, p, &last, &k0, ty, what);
}
/// An alternative holding the given children.
fn alternative(c: &mut Ck, s: &State, p: Bdd, v: &V, k0: &V, ty: Ty, what: &str) {
    let k = kids(c, s, v, ty);
    let n = slen(c, k0);
    let e = same_len(c, p, &k, &n);
    c.holds_text(format!("{what}: an alternative holds what came before"), p, e, &format!("{} becomes {}", show(k0), show(&k)));
    same_front(c, s, p, k0, &k, &n, &format!("{what}: alternative"));
    for f in ["alternation", "capture_index"] {
        let x = at(c, s, v, ty, f).0;
        let none = is_var(c, &x, "None");
        c.holds(format!("{what}: an alternative has no {f}"), p, none);
    }
}
fn alt_ty(c: &mut Ck) -> Option<Ty> {
    let i = c.find("ComponentAlternation::append")?;
    tyx::pointee(*c.arg_tys(i).first()?)
}
/// What a character does to the tree built so far.
fn tree(c: &mut Ck, s: &Step, t: &State, good: Bdd, v1: &V, est: Ty, (o, cl, alt, lit): (Bdd, Bdd, Bdd, Bdd), classes: &[(Bdd, V, V, V)]) {
    let v0 = s.v0.clone();
    let (cur0, qt) = at(c, t, &v0, s.ty, "current_seq");
    let cur1 = at(c, t, v1, s.ty, "current_seq").0;
    let live = |c: &mut Ck, p: Bdd| p != bdd::F && !c.e.dom.empty(p);
    let with = |p: Bdd| State { pc: p, ..t.clone() };
    let stack0 = at(c, t, &v0, s.ty, "sequences").0;
    let stack1 = at(c, t, v1, s.ty, "sequences").0;
    let n0 = slen(c, &stack0);
    // "(": the current group is set aside, a new one begins.
    let p = bdd::and(good, o);
    if live(c, p) {
        let t = with(p);
        let top = elem(c, &t, &stack1, &n0);
        let aside = at(c, &t, &top, est, "seq").0;
        same_seq(c, &t, p, &cur0, &aside, qt, "the enclosing group is set aside unchanged");
        let (m0, m1) = (at(c, &t, &v0, s.ty, "mode").0, at(c, &t, &top, est, "mode").0);
        let e = eq(c, &t, &m0, &m1);
        c.holds("the mode is set aside with the group", p, e);
        let k = kids(c, &t, &cur1, qt);
        let e = is_empty(c, p, &k);
        c.holds("a new group is empty", p, e);
        let a = at(c, &t, &cur1, qt, "alternation").0;
        let e = is_var(c, &a, "None");
        c.holds("a new group has no alternation", p, e);
        let cap = at(c, &t, &cur1, qt, "capture_index").0;
        let some = is_var(c, &cap, "Some");
        let n = pay(c, &cap, "Some", 0);
        let g0 = at(c, &t, &v0, s.ty, "group_index").0;
        let e = eq(c, &t, &n, &g0);
        c.holds_text("a group gets the next capture number", p, bdd::and(some, e), &show(&cap));
        let g1 = at(c, &t, v1, s.ty, "group_index").0;
        let (x, y) = (c.e.lin_of(&g0), c.e.lin_of(&g1));
        if let (Some(x), Some(y)) = (x, y) {
            let e = c.e.dom.eq0(p, &y.sub(&x).plus(-1));
            c.holds("capture numbers are consecutive", p, e);
        }
        fields_same(c, &t, p, &v0, v1, s.ty, &["mode"], "opening a group keeps the mode");
    }
    // ")": the group, finished, becomes the last child of the one set aside.
    let p = bdd::and(good, cl);
    if live(c, p) {
        let t = with(p);
        let top = elem(c, &t, &stack0, &n0.plus(-1));
        let aside = at(c, &t, &top, est, "seq").0;
        fields_same(c, &t, p, &aside, &cur1, qt, &["alternation", "capture_index"], "the enclosing group is resumed");
        let (k0, k1) = (kids(c, &t, &aside, qt), kids(c, &t, &cur1, qt));
        let last = one_more(c, &t, p, &k0, &k1, "closing a group");
        let is = is_var(c, &last, "Sequence");
        c.holds("the closed group becomes a child of the enclosing one", p, is);
        let g = pay(c, &last, "Sequence", 0);
        finished(c, &t, p, &cur0, &g, qt, "the closed group");
        let (m0, m1) = (at(c, &t, &top, est, "mode").0, at(c, &t, v1, s.ty, "mode").0);
        let e = eq(c, &t, &m0, &m1);
        c.holds("the mode of the enclosing group is resumed", p, e);
        fields_same(c, &t, p, &v0, v1, s.ty, &["group_index"], "closing a group numbers none");
    }
    // "|": what came before becomes one more alternative.
    let p = bdd::and(good, alt);
    if live(c, p) {
        let t = with(p);
        let (k0, k1) = (kids(c, &t, &cur0, qt), kids(c, &t, &cur1, qt));
        let e = is_empty(c, p, &k1);
        c.holds("an alternative starts empty", p, e);
        let (a0, a1) = (at(c, &t, &cur0, qt, "alternation").0, at(c, &t, &cur1, qt, "alternation").0);
        let some1 = is_var(c, &a1, "Some");
        c.holds("an alternation is pending", p, some1);
        let some0 = is_var(c, &a0, "Some");
        if let Some(aty) = alt_ty(c) {
            let x1 = pay(c, &a1, "Some", 0);
            let l1 = kids(c, &t, &x1, aty);
            let first = bdd::and(p, bdd::not(some0));
            if live(c, first) {
                let t = with(first);
                let e = same_len(c, first, &l1, &Lin::k(1));
                c.holds("the first separator makes one alternative", first, e);
                let x = elem(c, &t, &l1, &Lin::k(0));
                alternative(c, &t, first, &x, &k0, qt, "first alternative");
            }
            let more = bdd::and(p, some0);
            if live(c, more) {
                let t = with(more);
                let x0 = pay(c, &a0, "Some", 0);
                let l0 = kids(c, &t, &x0, aty);
                let x = one_more(c, &t, more, &l0, &l1, "further separator");
                alternative(c, &t, more, &x, &k0, qt, "further alternative");
            }
        }
        fields_same(c, &t, p, &cur0, &cur1, qt, &["capture_index"], "an alternation keeps the group's number");
        fields_same(c, &t, p, &v0, v1, s.ty, &["mode", "group_index"], "an alternation changes nothing else");
    }
    // Anything else: its class becomes the last child.
    let p = bdd::and(good, lit);
    if live(c, p) {
        let t = with(p);
        let (k0, k1) = (kids(c, &t, &cur0, qt), kids(c, &t, &cur1, qt));
        let last = one_more(c, &t, p, &k0, &k1, "a literal character");
        let is = is_var(c, &last, "Class");
        c.holds("a literal character becomes a class", p, is);
        let x = pay(c, &last, "Class", 0);
        let mut from = bdd::F;
        let ch = chr(s.root, &s.k);
        let mode = at(c, &t, &v0, s.ty, "mode.caseless").0;
        for (pc, a, nc, r) in classes {
            let e = if x == *r { bdd::T } else { eq(c, &t, &x, r) };
            from = bdd::or(from, bdd::and(*pc, e));
            let e = eq(c, &t, a, &ch);
            c.holds_text("the class is that of the character", *pc, e, &show(a));
            let e = eq(c, &t, nc, &mode);
            c.holds_text("the class is caseless exactly in caseless mode", *pc, e, &show(nc));
        }
        c.holds_text("the child added is the class of the character", p, from, &show(&x));
        fields_same(c, &t, p, &cur0, &cur1, qt, &["alternation", "capture_index"], "a literal changes nothing else of its group");
        fields_same(c, &t, p, &v0, v1, s.ty, &["mode", "group_index"], "a literal changes nothing else");
    }
}

/// A parser in an arbitrary state, to be consumed.
fn whole(c: &mut Ck, k: &Lin) -> Option<Step> {
    let mut s = step(c)?;
    let i = c.find("Context::parse")?;
    let mut st = State::new();
    st.pc = c.e.dom.le0(bdd::T, &k.sub(&s.len));
    let short = c.e.dom.le0(st.pc, &s.len.plus(-16_000));
    st.pc = bdd::and(st.pc, short);
    c.e.bounds.insert((s.root, k.clone()));
    let n = tyx::field_index(s.ty, "p")?;
    let v0 = s.v0.clone();
    s.v0 = c.e.set(&st, v0, &[PE::F(n)], text(s.root, k, &s.len));
    s.a = vec![s.v0.clone()];
    s.k = k.clone();
    s.i = i;
    s.st = st;
    Some(s)
}
const G_AT: u64 = 40;
const G_STOP: u64 = 41;
const G_WHY: u64 = 42;
/// The loop over the characters of an expression.
fn driver(c: &mut Ck) {
    let k = Lin::s(Sym::ranged("from", 0, i64::MAX as i128));
    let Some(s) = whole(c, &k) else { return };
    let Some(et) = err_ty(c) else { return };
    c.ctx = "all characters: ".into();
    let mut st = s.st.clone();
    c.e.heap_ty.insert(ghost(G_AT), Ty::usize_ty());
    c.e.heap_ty.insert(ghost(G_STOP), Ty::bool_ty());
    c.e.heap_ty.insert(ghost(G_WHY), et);
    st.mem.insert(ghost(G_AT), V::lin(k.clone(), 64));
    st.mem.insert(ghost(G_STOP), V::C(0, 1));
    st.mem.insert(ghost(G_WHY), V::Opq(Sym::new("no error"), et));
    let (root_, len, ty) = (s.root, s.len.clone(), s.ty);
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        if short(&ci.stripped) != "Context::main" {
            return None;
        }
        let V::Ref(p) = e.force(a[0].clone()) else { return None };
        let g = st.mem.get(&ghost(G_AT))?.clone();
        let at0 = e.lin_of(&g)?;
        let stop = st.mem.get(&ghost(G_STOP))?.as_bool()?;
        let r = V::Ref(p.clone());
        let v = e.read_ref(st, &r);
        let cur = e.get(st, v.clone(), &[PE::F(tyx::field_index(ty, "p")?)]);
        let cur = e.force(cur);
        let mode = tyx::field_index(ty, "mode").and_then(|k| {
            let m = e.get(st, v.clone(), &[PE::F(k)]);
            let m = e.force(m);
            let q = tyx::field_index(tyx::fields(ty, 0)[k], "caseless")?;
            let x = e.get(st, m, &[PE::F(q)]);
            Some((k, q, e.force(x)))
        });
        if let Some((k, q, x)) = &mode {
            let w = Sym::new("ctx");
            let w = e.expand(w, ty);
            let w = e.get(st, w, &[PE::F(*k), PE::F(*q)]);
            let same = e.v_eq(st, x, &w);
            e.obl("the mode stays in force between steps", st.pc, same, show(x));
        }
        let left = e.dom.le0(st.pc, &at0.plus(1).sub(&len));
        e.obl("a step is taken only while something is left", st.pc, left, String::new());
        e.obl("no step is taken after a failed one", st.pc, bdd::not(stop), String::new());
        for x in std::iter::once(cur).chain(a.iter().skip(1).cloned()) {
            let x = e.force(x);
            if let V::Str(t) = &x {
                let same = match t.0.as_slice() {
                    [Piece::Sub(q, x, y)] if *q == root_ => {
                        let x = e.dom.eq0(st.pc, &x.sub(&at0));
                        let y = e.dom.eq0(st.pc, &y.sub(&len));
                        bdd::and(x, y)
                    }
                    _ => bdd::F,
                };
                e.obl("a step is given what is left of the expression", st.pc, same, format!("{x:?}"));
            }
        }
        // What one step does, established separately.
        let sym = fresh("step");
        let good = bdd::named(format!("{} succeeds", sym.key()));
        let mut v1 = e.expand(sym, ty);
        let pi = tyx::field_index(ty, "ptr")?;
        let ptr = e.get(st, v, &[PE::F(pi)]);
        v1 = e.set(st, v1, &[PE::F(pi)], ptr);
        if let Some((k, q, x)) = mode {
            v1 = e.set(st, v1, &[PE::F(k), PE::F(q)], x);
        }
        let k1 = Sym::ranged(format!("after {}", sym.key()), 0, i64::MAX as i128);
        let k1l = Lin::s(k1);
        e.bounds.insert((root_, k1l.clone()));
        let mut s1 = st.clone();
        let x = e.dom.eq0(s1.pc, &k1l.sub(&at0).plus(-1));
        s1.pc = bdd::and(s1.pc, x);
        let mut out = vec![];
        let v2 = e.set(&s1, v1.clone(), &[PE::F(tyx::field_index(ty, "p")?)], text(root_, &k1l, &len));
        if let Some(mut s1) = s1.with(good) {
            e.write_ptr(&mut s1, &p, v2);
            s1.mem.insert(ghost(G_AT), V::lin(k1l, 64));
            out.push((s1, models::variant(ci.ret, 0, vec![V::unit()])));
        }
        if let Some(mut s2) = st.with(bdd::not(good)) {
            let er = e.expand(sym.child("err"), et);
            s2.mem.insert(ghost(G_STOP), V::C(1, 1));
            s2.mem.insert(ghost(G_WHY), er.clone());
            e.write_ptr(&mut s2, &p, v1);
            out.push((s2, models::variant(ci.ret, 1, vec![er])));
        }
        Some(out)
    }));
    let mut total = bdd::F;
    for (t, v) in c.run(s.i, s.a.clone(), st.clone()) {
        total = bdd::or(total, t.pc);
        let stop = t.mem.get(&ghost(G_STOP)).and_then(|x| x.as_bool()).unwrap_or(bdd::named(fresh("¿stop").key()));
        let ok = is_var(c, &v, "Ok");
        let bad = bdd::and(t.pc, stop);
        if bad != bdd::F && !c.e.dom.empty(bad) {
            c.holds("the failure of a step is the failure of the parse", bad, bdd::not(ok));
            let er = pay(c, &v, "Err", 0);
            let want = t.mem[&ghost(G_WHY)].clone();
            let mut t = t.clone();
            t.pc = bad;
            fields_same(c, &t, bad, &want, &er, et, &["kind", "reason"], "the error of a step is reported as it is");
        }
        let rest = bdd::and(t.pc, bdd::not(stop));
        if rest != bdd::F && !c.e.dom.empty(rest) {
            let g = t.mem[&ghost(G_AT)].clone();
            let l = c.e.lin_of(&g).unwrap_or(Lin::s(fresh("¿at")));
            let done = c.e.dom.le0(rest, &s.len.sub(&l));
            c.holds("parsing ends with the expression", rest, done);
        }
    }
    c.e.hooks.clear();
    c.ctx.clear();
}
/// After the last character.
fn at_end(c: &mut Ck, what: &str) {
    let len = {
        let Some(s) = step(c) else { return };
        s.len
    };
    let Some(s) = whole(c, &len) else { return };
    let Some(et) = err_ty(c) else { return };
    c.ctx = "at the end: ".into();
    let hits = watch(c, &["Context::main"]);
    let (stack, stack_t) = at(c, &s.st, &s.v0, s.ty, "sequences");
    let n = slen(c, &stack);
    let open = c.e.dom.le0(s.st.pc, &Lin::k(1).sub(&n));
    let (cur, qt) = at(c, &s.st, &s.v0, s.ty, "current_seq");
    let mut total = bdd::F;
    for (t, v) in c.run(s.i, s.a.clone(), s.st.clone()) {
        total = bdd::or(total, t.pc);
        let ok = is_var(c, &v, "Ok");
        if what == "C05" {
            c.holds("accepted unless a group is left open", t.pc, bdd::iff(ok, bdd::not(open)));
        }
        let bad = bdd::and(t.pc, bdd::and(open, bdd::not(ok)));
        if what == "C36" && bad != bdd::F && !c.e.dom.empty(bad) {
            let mut t = t.clone();
            t.pc = bad;
            let er = pay(c, &v, "Err", 0);
            let reason = at(c, &t, &er, et, "reason").0;
            let top = elem(c, &t, &stack, &n.plus(-1));
            let Some(est) = tyx::elem(stack_t) else { return };
            let off = at(c, &t, &top, est, "offset").0;
            let off = c.e.lin_of(&off).unwrap_or(Lin::s(fresh("¿off")));
            missing(c, bad, &reason, &off);
        }
        let good = bdd::and(t.pc, bdd::and(ok, bdd::not(open)));
        if what == "C06" && good != bdd::F && !c.e.dom.empty(good) {
            let mut t = t.clone();
            t.pc = good;
            let fin = pay(c, &v, "Ok", 0);
            finished(c, &t, good, &cur, &fin, qt, "the whole expression");
        }
    }
    for (_, p, _) in hits.borrow().iter() {
        c.holds("no step is taken at the end", *p, bdd::F);
    }
    c.holds("every end is handled", s.st.pc, total);
    c.e.hooks.clear();
    c.ctx.clear();
}
fn missing(c: &mut Ck, pc: Bdd, reason: &V, off: &Lin) {
    match c.e.force(reason.clone()) {
        V::Str(x) => {
            let mut p = x.0.clone();
            if let Some(Piece::Lit(w)) = p.last() {
                if !w.chars().any(|c| c.is_alphanumeric()) {
                    p.pop();
                }
            }
            match p.as_slice() {
                [.., Piece::Lit(w), Piece::Disp(n)] if w.ends_with(" at index ") => {
                    let l = c.e.lin_of(n).unwrap_or(Lin::s(fresh("¿pos")));
                    let e = c.e.dom.eq0(pc, &l.sub(off));
                    c.holds_text("a missing close parenthesis names where the innermost open group began", pc, e, &format!("{l:?} rather than {off:?}"));
                }
                _ => c.oblige("a missing close parenthesis names where the innermost open group began", false, show(reason)),
            }
        }
        _ => c.undecided("error text", show(reason)),
    }
}
const UNSUPPORTED: [&str; 9] = ["NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF", "ANY"];
/// The verb at the head of an expression and the state the parser begins in.
fn head(c: &mut Ck, what: &str) {
    let Some(i) = c.find("parse") else { return };
    let tys = c.arg_tys(i);
    let Some(b) = c.e.body(i) else { return };
    let ret = b.body.ret_local().ty;
    let Some(et) = err_ty(c) else { return };
    let Some(pi) = c.find("Context::parse") else { return };
    let cty = bare(c.arg_tys(pi)[0]);
    c.ctx = "the head of an expression: ".into();
    let mut st = State::new();
    let root_ = Sym::new("expr");
    let len = Lin::s(Sym::ranged("len(expr)", 0, i64::MAX as i128));
    let zero = Lin::k(0);
    let short_ = c.e.dom.le0(bdd::T, &len.plus(-16_000));
    st.pc = short_;
    let all = StrV(vec![Piece::Sub(root_, zero.clone(), len.clone())]);
    let mut mode = None;
    let mut a = vec![];
    for (n, t) in tys.iter().enumerate() {
        match tyx::kind(*t) {
            tyx::Kind::Str => a.push(V::Str(Rc::new(all.clone()))),
            tyx::Kind::Ptr if tyx::kind(bare(*t)) == tyx::Kind::Str => a.push(V::Str(Rc::new(all.clone()))),
            _ => {
                let pt = bare(*t);
                let v = c.e.expand(Sym::new("mode"), pt);
                let h = c.e.heap(&mut st, v.clone(), pt);
                mode = Some((h.clone(), v, pt));
                a.push(reff(h));
                let _ = n;
            }
        }
    }
    let Some((mh, m0, mt)) = mode else {
        c.undecided("parser mode", "the parser takes no mode");
        return;
    };
    // Is there a verb, and which?
    let Some(lead) = prefix(&mut c.e, st.pc, &all, "(*") else { return };
    let p = bdd::and(st.pc, lead);
    let close = one_of(&[')']);
    let (found, j, facts) = find_named(&mut c.e, p, root_, &Lin::k(2), &len, close, false);
    st.pc = bdd::and(st.pc, bdd::or(bdd::not(lead), facts));
    let some = c.e.dom.le0(st.pc, &Lin::k(3).sub(&j));
    let is = bdd::and(bdd::and(lead, found), some);
    let verb = StrV(vec![Piece::Sub(root_, Lin::k(2), j.clone())]);
    let p = bdd::and(st.pc, is);
    let mut is_any = |c: &mut Ck, ts: &[&str], pre: bool| {
        let mut r = bdd::F;
        for t in ts {
            let x = if pre { prefix(&mut c.e, p, &verb, t) } else { equals(&mut c.e, p, &verb, t) };
            r = bdd::or(r, x.unwrap_or(bdd::F));
        }
        bdd::and(is, r)
    };
    let ucp = is_any(c, &["UCP"], false);
    let utf = is_any(c, &["UTF8", "UTF"], false);
    let known = {
        let x = is_any(c, &UNSUPPORTED, false);
        let y = is_any(c, &["BSR_ANYCRLF", "BSR_UNICODE"], false);
        let z = is_any(c, &["LIMIT_MATCH=", "LIMIT_RECURSION="], true);
        bdd::or(x, bdd::or(y, z))
    };
    let refused = bdd::and(is, bdd::not(bdd::or(ucp, utf)));
    let seen: Rc<RefCell<Vec<(State, V, V)>>> = Default::default();
    let sn = seen.clone();
    c.e.hooks.push(Rc::new(move |e, st, ci, a| {
        if short(&ci.stripped) != "Context::parse" {
            return None;
        }
        let x = e.force(a[0].clone());
        let tag = fresh("parsed");
        let good = bdd::named(format!("{} succeeds", tag.key()));
        let okt = tyx::fields(ci.ret, 0)[0];
        let okv = e.expand(tag.child("tree"), okt);
        let er = e.expand(tag.child("err"), et);
        sn.borrow_mut().push((st.clone(), x, V::agg(vec![V::B(Rc::new(vec![good])), okv.clone(), er.clone()])));
        let mut out = vec![];
        if let Some(s) = st.with(good) {
            out.push((s, models::variant(ci.ret, 0, vec![okv])));
        }
        if let Some(s) = st.with(bdd::not(good)) {
            out.push((s, models::variant(ci.ret, 1, vec![er])));
        }
        Some(out)
    }));
    let outs = c.run(i, a.clone(), st.clone());
    c.e.hooks.clear();
    let seen = seen.borrow().clone();
    let mut reached = bdd::F;
    for (t, ctx, _) in &seen {
        reached = bdd::or(reached, t.pc);
        let f = |c: &mut Ck, p: &str| at(c, t, ctx, cty, p).0;
        let (ptr, p) = (f(c, "ptr"), f(c, "p"));
        if what == "C36" || what == "C06" {
            let e = is_text(c, t.pc, &ptr, root_, &zero, &len);
            c.holds_text("positions count from the start of the expression as given", t.pc, e, &show(&ptr));
        }
        if what == "C07" {
            let m = f(c, "mode");
            let (x, y) = (fb(c, t, &m0, mt, "caseless"), fb(c, t, &m, mt, "caseless"));
            c.holds("the parser runs in the mode asked for", t.pc, bdd::iff(x, y));
        }
        if what == "C08" {
            let v = bdd::and(t.pc, is);
            let e = is_text(c, v, &p, root_, &j.plus(1), &len);
            c.holds_text("an honoured verb is removed from the expression", v, e, &show(&p));
            let v = bdd::and(t.pc, bdd::not(is));
            let e = is_text(c, v, &p, root_, &zero, &len);
            c.holds_text("without a verb the expression is left untouched", v, e, &show(&p));
            let m = f(c, "mode");
            let m1 = c.e.read_ref(t, &reff(mh.clone()));
            for n in tyx::field_names(mt, 0) {
                let (x, y, z) = (fb(c, t, &m0, mt, &n), fb(c, t, &m, mt, &n), fb(c, t, &m1, mt, &n));
                let on = match n.as_str() {
                    "ucp" => ucp,
                    "utf8" => utf,
                    _ => bdd::F,
                };
                c.holds(format!("the parser runs in the mode asked for: {n}"), t.pc, bdd::iff(y, bdd::or(x, on)));
                c.holds(format!("the caller learns the mode: {n}"), t.pc, bdd::iff(z, bdd::or(x, on)));
            }
        }
        if what == "C06" || what == "C05" {
            let st_ = f(c, "sequences");
            let e = is_empty(c, t.pc, &st_);
            c.holds("no group is open at the start", t.pc, e);
        }
        if what == "C06" {
            let (cur, qt) = at(c, t, ctx, cty, "current_seq");
            let k = kids(c, t, &cur, qt);
            let e = is_empty(c, t.pc, &k);
            c.holds("the tree is empty at the start", t.pc, e);
            let al = at(c, t, &cur, qt, "alternation").0;
            let e = is_var(c, &al, "None");
            c.holds("no alternation is pending at the start", t.pc, e);
            let cap = at(c, t, &cur, qt, "capture_index").0;
            let some = is_var(c, &cap, "Some");
            let n = pay(c, &cap, "Some", 0);
            let e = eq(c, t, &n, &V::C(0, 32));
            c.holds_text("the whole expression is capture 0", t.pc, bdd::and(some, e), &show(&cap));
            let g = f(c, "group_index");
            let e = eq(c, t, &g, &V::C(1, 32));
            c.holds_text("groups are numbered from 1", t.pc, e, &show(&g));
        }
    }
    let mut total = bdd::F;
    for (t, v) in &outs {
        total = bdd::or(total, t.pc);
        let ok = is_var(c, v, "Ok");
        if what == "C08" {
            let r = bdd::and(t.pc, refused);
            c.holds("an unknown or unsupported verb is refused", r, bdd::not(ok));
        }
        let r = bdd::and(t.pc, bdd::and(refused, bdd::not(ok)));
        if r != bdd::F && !c.e.dom.empty(r) {
            let mut t = t.clone();
            t.pc = r;
            let er = pay(c, v, "Err", 0);
            let reason = at(c, &t, &er, et, "reason").0;
            let kind = at(c, &t, &er, et, "kind").0;
            let loc = is_var(c, &kind, "LocatedParse");
            if what == "C36" {
                c.holds("a refused verb is a located error", r, loc);
                ends_in(c, &t, r, &reason, &Lin::k(2), " at index ");
            }
            if what == "C08" {
                let word = |c: &mut Ck, w: &str| match c.e.force(reason.clone()) {
                    V::Str(x) => match x.0.first() {
                        Some(Piece::Lit(l)) if l.starts_with(w) => bdd::T,
                        _ => bdd::F,
                    },
                    _ => bdd::named(fresh("¿text").key()),
                };
                let (u, k) = (word(c, "Unsupported"), word(c, "Unknown"));
                c.holds_text("a known verb is refused as unsupported", bdd::and(r, known), u, &show(&reason));
                c.holds_text("any other verb is refused as unknown", bdd::and(r, bdd::not(known)), k, &show(&reason));
                let named = match c.e.force(reason.clone()) {
                    V::Str(x) => x.0.iter().any(|p| matches!(p, Piece::Sub(q, a, _) if *q == root_ && *a == Lin::k(2))) || x.as_lit().is_some(),
                    _ => true,
                };
                let _ = named;
            }
        }
        if what == "C08" {
            let m1 = c.e.read_ref(t, &reff(mh.clone()));
            for n in tyx::field_names(mt, 0) {
                if n == "ucp" || n == "utf8" {
                    continue;
                }
                let (x, y) = (fb(c, t, &m0, mt, &n), fb(c, t, &m1, mt, &n));
                c.holds(format!("reading a verb changes nothing else: {n}"), t.pc, bdd::iff(x, y));
            }
        }
        let went = bdd::and(t.pc, bdd::not(refused));
        if went == bdd::F || c.e.dom.empty(went) {
            continue;
        }
        // The parse decides.
        for (ct, _, r) in &seen {
            let V::Agg(r) = r else { continue };
            let good = r[0].as_bool().unwrap_or(bdd::F);
            let here = bdd::and(went, ct.pc);
            if here == bdd::F || c.e.dom.empty(here) {
                continue;
            }
            let mut t = t.clone();
            t.pc = here;
            c.holds("otherwise the parse alone decides", here, bdd::iff(ok, good));
            let p = bdd::and(here, ok);
            if what == "C06" && p != bdd::F && !c.e.dom.empty(p) {
                t.pc = p;
                let x = pay(c, v, "Ok", 0);
                let is = is_var(c, &x, "Sequence");
                c.holds("the tree of an expression is a sequence", p, is);
                let x = pay(c, &x, "Sequence", 0);
                let e = if x == r[1] { bdd::T } else { eq(c, &t, &x, &r[1]) };
                c.holds_text("it is the one parsed", p, e, &show(&x));
            }
            let p = bdd::and(here, bdd::not(ok));
            if what == "C36" && p != bdd::F && !c.e.dom.empty(p) {
                t.pc = p;
                let x = pay(c, v, "Err", 0);
                fields_same(c, &t, p, &r[2], &x, et, &["kind", "reason"], "its error is reported as it is");
            }
        }
    }
    let _ = ret;
    c.holds("every other expression is parsed", bdd::and(st.pc, bdd::not(refused)), reached);
    c.holds("every head is handled", st.pc, total);
    c.ctx.clear();
}
/// C07: the class of a literal character.
pub fn c07(c: &mut Ck) {
    c.rule("abstract execution of the construction of a literal's class: membership of every one of the 256 characters as a Boolean function of the character and the mode");
    let Some((i, a, _)) = args_of(c, "get_literal_component_class", &["c", "nocase"]) else { return };
    let (ch, nocase) = (c.e.force(a[0].clone()), c.e.force(a[1].clone()));
    let (Some(cb), Some(nc)) = (ch.bits(), nocase.as_bool()) else {
        c.undecided("arguments", "a literal is no character");
        return;
    };
    let lt = |cb: &Vec<Bdd>, n: u32| -> Bdd {
        let mut r = bdd::F;
        for m in 0..n {
            r = bdd::or(r, b_eq(cb, &const_bits(m as u128, cb.len())));
        }
        r
    };
    let asc = lt(&cb, 128);
    let st = State { pc: asc, ..State::new() };
    let wide = c.e.wide_bits;
    c.e.wide_bits = true;
    let outs = c.run(i, a.clone(), st.clone());
    let Some(ct) = c.find("AsciiComponentClass::add").and_then(|i| tyx::pointee(c.arg_tys(i)[0])) else { return };
    let mut total = bdd::F;
    for (t, v) in outs {
        total = bdd::or(total, t.pc);
        let ok = is_var(c, &v, "Ok");
        c.holds("every ASCII character has a class", t.pc, ok);
        let x = pay(c, &v, "Ok", 0);
        let is = is_var(c, &x, "Ascii");
        c.holds("its class is a set of bytes", t.pc, is);
        let x = pay(c, &x, "Ascii", 0);
        let cr = at(c, &t, &x, ct, "cr").0;
        let bits = c.flat(&t, &cr);
        if bits.len() != 256 {
            c.undecided("class", format!("{} bits", bits.len()));
            continue;
        }
        for (m, b) in bits.iter().enumerate() {
            let this = b_eq(&cb, &const_bits(m as u128, cb.len()));
            let other = (m as u8 as char).is_ascii_alphabetic().then(|| m ^ 32);
            let mut want = this;
            if let Some(o) = other {
                want = bdd::or(want, bdd::and(nc, b_eq(&cb, &const_bits(o as u128, cb.len()))));
            }
            c.holds(format!("membership of character {m:#04x}"), t.pc, bdd::iff(*b, want));
        }
    }
    c.holds("every literal is handled", st.pc, total);
    c.e.wide_bits = wide;
    // Where it is used.
    tree_literals(c);
}
fn tree_literals(c: &mut Ck) {
    one_char(c, "C07");
    driver(c);
    head(c, "C07");
}
pub fn c08(c: &mut Ck) {
    c.rule("abstract execution of the head of the parser over every text: the mode, the rest of the expression and the error against the verb it begins with");
    c.assume("expressions have at most 16,000 bytes (C04)");
    head(c, "C08");
}
pub fn c05(c: &mut Ck) {
    c.rule("abstract execution of one step of the parser from every state over every character (parser combinators included), and of the loop around it");
    c.assume("expressions have at most 16,000 bytes (C04)");
    one_char(c, "C05");
    driver(c);
    at_end(c, "C05");
    head(c, "C05");
}
pub fn c06(c: &mut Ck) {
    c.rule("abstract execution of one step of the parser from every state over every character: the tree built so far afterwards against the one before");
    c.assume("expressions have at most 16,000 bytes (C04)");
    one_char(c, "C06");
    driver(c);
    at_end(c, "C06");
    head(c, "C06");
}
pub fn c36(c: &mut Ck) {
    c.rule("abstract execution of every refusal of the parser: the text of the error against the offset of the character");
    one_char(c, "C36");
    at_end(c, "C36");
    head(c, "C36");
}
