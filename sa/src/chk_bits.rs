//! Bit-exact checks of the byte-set, byte-helper and small enumeration code.
use crate::bdd::{self, Bdd};
use crate::checks::*;
use crate::interp::*;
use crate::tyx;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;

pub fn run(c: &mut Ck, id: &str) -> bool {
    c.e.wide_bits = true;
    match id {
        "C21" => c21(c),
        "C22" => c22(c),
        "C23" => c23(c),
        "C24" => c24(c),
        "C25" => c25(c),
        "C26" => c26(c),
        "C27" => c27(c),
        "C28" => c28(c),
        "C29" => c29(c),
        _ => return false,
    }
    true
}
const SETS: [&str; 2] = ["CharReach", "BitField256"];

struct Call {
    args: Vec<V>,
    outs: Outs,
}
/// Analyses `f` on unknown arguments.
fn call(c: &mut Ck, f: &str, names: &[&str]) -> Option<Call> {
    let i = c.find(f)?;
    let names: Vec<String> = names.iter().map(|n| format!("{f}:{n}")).collect();
    let names: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
    let args = c.unknown_args(i, &names);
    // Scalars first: they select among the elements of sets.
    for a in &args {
        if matches!(a, V::Opq(_, t) if tyx::int_info(*t).is_some()) {
            prime(c, a);
        }
    }
    if args.len() == 2 {
        interleave(c, &args[0], &args[1]);
    }
    if f.ends_with("bit5_insensitive") {
        pair_bit5(c, &args[0]);
    }
    for a in &args {
        prime(c, a);
    }
    let outs = c.run(i, args.clone(), State::new());
    c.oblige(format!("{f} returns"), !outs.is_empty(), format!("{f} never returns"));
    Some(Call { args, outs })
}
/// Integer leaves of an unknown value.
fn int_leaves(c: &mut Ck, v: &V, out: &mut Vec<(Sym, usize)>) {
    let st = State::new();
    if let V::Opq(s, t) = v {
        if let Some((w, _)) = tyx::int_info(*t) {
            out.push((*s, w as usize));
            return;
        }
    }
    match c.e.force(v.clone()) {
        r @ V::Ref(_) => {
            let p = c.e.read_ref(&st, &r);
            if !matches!(p, V::Ref(_)) {
                int_leaves(c, &p, out);
            }
        }
        V::Agg(a) => {
            for x in a.iter() {
                int_leaves(c, x, out);
            }
        }
        _ => {}
    }
}
/// Orders the variables of two like arguments pairwise.
fn interleave(c: &mut Ck, a: &V, b: &V) {
    let (mut x, mut y) = (vec![], vec![]);
    int_leaves(c, a, &mut x);
    int_leaves(c, b, &mut y);
    if x.len() != y.len() {
        return;
    }
    for ((s, w), (t, _)) in x.iter().zip(&y) {
        for i in (0..*w).rev() {
            bdd::named(format!("{}[{i}]", s.key()));
            bdd::named(format!("{}[{i}]", t.key()));
        }
    }
}
/// Orders the variables of a set so that elements differing in bit 5 are neighbours.
fn pair_bit5(c: &mut Ck, a: &V) {
    let mut x = vec![];
    int_leaves(c, a, &mut x);
    let flat: Vec<String> = x.iter().flat_map(|(s, w)| (0..*w).map(move |i| format!("{}[{i}]", s.key()))).collect();
    for m in 0..flat.len() {
        if m & 0x20 == 0 {
            bdd::named(flat[m].clone());
            if let Some(n) = flat.get(m | 0x20) {
                bdd::named(n.clone());
            }
        }
    }
}
/// Creates the variables of an argument before anything else does.
fn prime(c: &mut Ck, v: &V) {
    let st = State::new();
    let v = c.e.force(v.clone());
    match &v {
        V::Ref(_) => {
            let p = c.e.read_ref(&st, &v);
            prime(c, &p);
        }
        V::Agg(a) => {
            for x in a.iter() {
                prime(c, x);
            }
        }
        _ => {}
    }
}
/// The elements of a set argument as given / as left by the call.
fn set_of(c: &mut Ck, st: &State, v: &V) -> Option<Vec<Bdd>> {
    let v = match c.e.force(v.clone()) {
        V::Ref(p) => c.e.read_ptr(st, &p),
        v => v,
    };
    let b = c.flat(st, &v);
    if b.len() != 256 {
        c.oblige("256 elements", false, format!("a set has {} bits", b.len()));
        return None;
    }
    Some(b)
}
fn byte(c: &mut Ck, v: &V) -> Bits {
    let v = c.e.force(v.clone());
    v.bits().unwrap_or_else(|| {
        c.oblige("byte value", false, format!("not a byte: {}", kindname(&v)));
        const_bits(0, 8)
    })
}
fn is(b: &Bits, k: usize) -> Bdd {
    b_eq(b, &const_bits(k as u128, b.len()))
}

fn c21(c: &mut Ck) {
    c.rule("transfer of every single-element operation, for all 256 element values and all set contents at once: the element is the only bit read or written");
    for t in SETS {
        type F = fn(Bdd) -> Bdd;
        let ops: [(&str, F); 3] = [("set", |_| bdd::T), ("reset", |_| bdd::F), ("flip", |x| bdd::not(x))];
        for (op, f) in ops {
            let n = format!("{t}::{op}");
            let Some(k) = call(c, &n, &["s", "n"]) else { continue };
            let idx = byte(c, &k.args[1]);
            let Some(before) = set_of(c, &State::new(), &k.args[0]) else { continue };
            for (st, _) in &k.outs {
                let Some(after) = set_of(c, st, &k.args[0]) else { continue };
                for m in 0..256 {
                    let want = bdd::ite(is(&idx, m), f(before[m]), before[m]);
                    c.holds(format!("{n} affects exactly its element"), st.pc, bdd::iff(after[m], want));
                }
            }
        }
        let n = format!("{t}::test");
        if let Some(k) = call(c, &n, &["s", "n"]) {
            let idx = byte(c, &k.args[1]);
            if let Some(b) = set_of(c, &State::new(), &k.args[0]) {
                let mut want = bdd::F;
                for m in 0..256 {
                    want = bdd::ite(is(&idx, m), b[m], want);
                }
                for (st, r) in &k.outs {
                    let r = c.bool_of(r);
                    c.holds(format!("{n} reads exactly its element"), st.pc, bdd::iff(r, want));
                }
            }
        }
        let ops: [(&str, F); 3] = [("set_all", |_| bdd::T), ("reset_all", |_| bdd::F), ("flip_all", |x| bdd::not(x))];
        for (op, f) in ops {
            let n = format!("{t}::{op}");
            let Some(k) = call(c, &n, &["s"]) else { continue };
            let Some(before) = set_of(c, &State::new(), &k.args[0]) else { continue };
            for (st, _) in &k.outs {
                let Some(after) = set_of(c, st, &k.args[0]) else { continue };
                for m in 0..256 {
                    c.holds(format!("{n} affects every element"), st.pc, bdd::iff(after[m], f(before[m])));
                }
            }
        }
    }
}

fn c22(c: &mut Ck) {
    c.rule("element-wise transfer of the set operators over two arbitrary sets equals the set operation");
    type F2 = fn(Bdd, Bdd) -> Bdd;
    let ops: [(&str, &str, F2); 3] =
        [("BitAnd", "bitand", bdd::and), ("BitOr", "bitor", bdd::or), ("BitXor", "bitxor", bdd::xor)];
    for t in SETS {
        for (tr, m, f) in ops {
            for asg in [false, true] {
                let n = if asg { format!("<{t} as {tr}Assign>::{m}_assign") } else { format!("<{t} as {tr}>::{m}") };
                let Some(k) = call(c, &n, &["a", "b"]) else { continue };
                let st0 = State::new();
                let (Some(a), Some(b)) = (set_of(c, &st0, &k.args[0]), set_of(c, &st0, &k.args[1])) else { continue };
                for (st, r) in &k.outs {
                    let Some(after) = (if asg { set_of(c, st, &k.args[0]) } else { set_of(c, st, r) }) else { continue };
                    for i in 0..256 {
                        c.holds(format!("{n} is exact"), st.pc, bdd::iff(after[i], f(a[i], b[i])));
                    }
                }
            }
        }
        let n = format!("<{t} as Not>::not");
        if let Some(k) = call(c, &n, &["a"]) {
            if let Some(a) = set_of(c, &State::new(), &k.args[0]) {
                for (st, r) in &k.outs {
                    let Some(after) = set_of(c, st, r) else { continue };
                    for i in 0..256 {
                        c.holds(format!("{n} is exact"), st.pc, bdd::iff(after[i], bdd::not(a[i])));
                    }
                }
            }
        }
        // Relations. `|a| a` and `a[i]` conditions folded over elements.
        type R2 = fn(Bdd, Bdd) -> Bdd;
        let rel: [(&str, R2, bool); 3] = [
            ("eq", |x, y| bdd::iff(x, y), true),
            ("is_subset_of", |x, y| bdd::or(bdd::not(x), y), true),
            ("overlaps", |x, y| bdd::and(x, y), false),
        ];
        for (m, f, all) in rel {
            let n = if m == "eq" { format!("<{t} as PartialEq>::eq") } else { format!("{t}::{m}") };
            if m != "eq" && t == "BitField256" {
                continue;
            }
            let Some(k) = call(c, &n, &["a", "b"]) else { continue };
            let st0 = State::new();
            let (Some(a), Some(b)) = (set_of(c, &st0, &k.args[0]), set_of(c, &st0, &k.args[1])) else { continue };
            let mut want = if all { bdd::T } else { bdd::F };
            for i in 0..256 {
                let x = f(a[i], b[i]);
                want = if all { bdd::and(want, x) } else { bdd::or(want, x) };
            }
            for (st, r) in &k.outs {
                let r = c.bool_of(r);
                c.holds(format!("{n} is exact"), st.pc, bdd::iff(r, want));
            }
        }
        for (m, all, pos) in [("none", true, false), ("any", false, true), ("all", true, true)] {
            let n = format!("{t}::{m}");
            let Some(k) = call(c, &n, &["a"]) else { continue };
            let Some(a) = set_of(c, &State::new(), &k.args[0]) else { continue };
            let mut want = if all { bdd::T } else { bdd::F };
            for x in &a {
                let x = if pos { *x } else { bdd::not(*x) };
                want = if all { bdd::and(want, x) } else { bdd::or(want, x) };
            }
            for (st, r) in &k.outs {
                let r = c.bool_of(r);
                c.holds(format!("{n} is exact"), st.pc, bdd::iff(r, want));
            }
        }
    }
}

/// `which[m]`: the result must be `m`; `any`: there is a result.
fn expect_elem(c: &mut Ck, n: &str, outs: &Outs, which: &[Bdd]) {
    let mut any = bdd::F;
    for w in which {
        any = bdd::or(any, *w);
    }
    for (st, r) in outs {
        let (d, p) = c.option(r);
        c.holds(format!("{n} reports an element exactly when there is one"), st.pc, bdd::iff(d, any));
        let Some(p) = p else { continue };
        let b = byte(c, &p);
        for (m, w) in which.iter().enumerate() {
            let pc = bdd::and(st.pc, *w);
            if pc != bdd::F {
                c.holds(format!("{n} is the right element"), pc, is(&b, m));
            }
        }
    }
}
/// The value with its bits replaced, in order.
fn refill(c: &mut Ck, v: &V, bits: &mut dyn Iterator<Item = Bdd>) -> V {
    match c.e.force(v.clone()) {
        V::Agg(a) => V::Agg(std::rc::Rc::new(a.iter().map(|x| refill(c, x, bits)).collect())),
        x => match x.bits() {
            Some(b) => mk_bits(bits.take(b.len()).collect()),
            None => x,
        },
    }
}
/// A state in which the set argument holds these elements.
fn lay(c: &mut Ck, arg: &V, a: &[Bdd]) -> Option<State> {
    let mut st = State::new();
    if let Some(p) = c.e.deref(&st, arg) {
        let v = c.e.read_ptr(&st, &p);
        let v = refill(c, &v, &mut a.iter().copied());
        c.e.write_ptr(&mut st, &p, v);
    }
    if set_of(c, &st, arg).as_deref() != Some(a) {
        c.undecided("the set", "the set's elements could not be laid down");
        return None;
    }
    Some(st)
}
/// find_nth is analysed for sets that hold every element below this; for an arbitrary position
/// in an arbitrary set the decision diagrams grow too large.
fn held(nth: usize) -> usize {
    if nth < 16 { 0 } else { nth / 8 * 8 }
}

fn c23(c: &mut Ck) {
    c.assume("find_nth is decided for positions 0 to 15 in every set, and for each position n from 16 on whose remainder by 64 is below 56 in the sets that hold every element below 8*(n/8); and for every position in the sets whose words differ from one of four full-or-empty patterns only in the elements 0, 1, 32, 62 and 63 of each word; for other positions and sets it is not analysed");
    c.rule("transfer of the query over an arbitrary set (and arbitrary position) equals the mathematical first / last / next / n-th element and cardinality");
    let part = std::env::var("SA_PART").ok();
    // First in the variable order.
    let elements = || -> Vec<Bits> { (0..4).map(|w| (0..7).map(|k| bdd::named(format!("elements{w}[{k}]"))).collect()).collect() };
    elements();
    for t in SETS {
        if part.as_deref().map_or(true, |p| p == "0") {
            for (m, rev) in [("find_first", false), ("find_last", true)] {
                let n = format!("{t}::{m}");
                let Some(k) = call(c, &n, &["a"]) else { continue };
                let Some(a) = set_of(c, &State::new(), &k.args[0]) else { continue };
                let mut which = vec![bdd::F; 256];
                let mut seen = bdd::F;
                for q in 0..256 {
                    let q = if rev { 255 - q } else { q };
                    which[q] = bdd::and(a[q], bdd::not(seen));
                    seen = bdd::or(seen, a[q]);
                }
                expect_elem(c, &n, &k.outs, &which);
            }
            let n = format!("{t}::find_next");
            if let Some(i) = c.find(&n) {
                // Partitioned by the position given.
                for last in 0..256usize {
                    c.reset();
                    let mut args = c.unknown_args(i, &["a"]);
                    prime(c, &args[0].clone());
                    args[1] = V::C(last as u128, 8);
                    let Some(a) = set_of(c, &State::new(), &args[0]) else { break };
                    let outs = c.run(i, args, State::new());
                    let mut which = vec![bdd::F; 256];
                    let mut seen = bdd::F;
                    for q in last + 1..256 {
                        which[q] = bdd::and(a[q], bdd::not(seen));
                        seen = bdd::or(seen, a[q]);
                    }
                    expect_elem(c, &n, &outs, &which);
                }
            }
            let n = format!("{t}::count");
            if let Some(k) = call(c, &n, &["a"]) {
                if let Some(a) = set_of(c, &State::new(), &k.args[0]) {
                    let want = b_popcount(&a, 32);
                    for (st, r) in &k.outs {
                        let b = byte(c, r);
                        c.holds(format!("{n} is the number of elements"), st.pc, b_eq(&b, &want));
                    }
                }
            }
        }
        let n = format!("{t}::find_nth");
        if t == "BitField256" && c.has("CharReach::find_nth") && part.is_some() {
            // Analysed through CharReach, which forwards to it.
            continue;
        }
        let Some(i) = c.find(&n) else { continue };
        if part.as_deref().map_or(true, |p| p == "8") {
            // Every position, for the sets that differ in a few elements of each word from the
            // sets in which each word is full or empty.
            for combo in [0usize, 15, 5, 10] {
                for nth in 0..256usize {
                    c.reset();
                    let mut args = c.unknown_args(i, &["a"]);
                    prime(c, &args[0].clone());
                    args[1] = V::C(nth as u128, 8);
                    let Some(mut a) = set_of(c, &State::new(), &args[0]) else { break };
                    for (m, x) in a.iter_mut().enumerate() {
                        if ![0, 1, 32, 62, 63].contains(&(m % 64)) {
                            *x = if combo >> (m / 64) & 1 == 1 { bdd::T } else { bdd::F };
                        }
                    }
                    let Some(st0) = lay(c, &args[0], &a) else { break };
                    c.e.few = true;
                    let outs = c.run(i, args, st0);
                    c.e.few = false;
                    let mut which = vec![];
                    // Exactly k elements so far.
                    let mut row = vec![bdd::F; nth + 2];
                    row[0] = bdd::T;
                    for x in &a {
                        which.push(bdd::and(*x, row[nth]));
                        for k in (0..=nth).rev() {
                            row[k + 1] = bdd::or(bdd::and(row[k + 1], bdd::not(*x)), bdd::and(row[k], *x));
                        }
                        row[0] = bdd::and(row[0], bdd::not(*x));
                    }
                    expect_elem(c, &n, &outs, &which);
                }
            }
        }
        for nth in (0..256usize).filter(|n| n % 64 < 56) {
            if let Some(p) = &part {
                if p == "8" || nth % 8 != p.parse::<usize>().unwrap_or(0) {
                    continue;
                }
            }
            c.reset();
            // The number of elements of each word is a variable of its own, tied to the word
            // only where an obligation needs it.
            let mut nums = elements();
            let mut args = c.unknown_args(i, &["a"]);
            prime(c, &args[0].clone());
            args[1] = V::C(nth as u128, 8);
            let Some(mut a) = set_of(c, &State::new(), &args[0]) else { break };
            let mut st0 = State::new();
            if held(nth) > 0 {
                a[..held(nth)].fill(bdd::T);
                let Some(st) = lay(c, &args[0], &a) else { break };
                st0 = st;
            }
            let words: Vec<Bits> = a.chunks(64).map(|w| w.to_vec()).collect();
            for w in 0..held(nth) / 64 {
                nums[w] = const_bits(64, 7);
            }
            c.e.counted = words.iter().cloned().zip(nums.iter().cloned()).collect();
            // At least the elements laid down.
            let least = const_bits((held(nth) % 64) as u128, 7);
            if held(nth) % 64 > 0 {
                st0.pc = bdd::not(b_ult(&nums[held(nth) / 64], &least));
            }
            for n in &nums {
                st0.pc = bdd::and(st0.pc, bdd::not(b_ult(&const_bits(64, 7), n)));
            }
            c.e.sep_words = true;
            let outs = c.run_raw(i, args, st0.clone());
            c.e.sep_words = false;
            c.e.counted.clear();
            // below[w][k]: exactly k elements in the words before w; up[w][j][k]: exactly k among the first j of word w.
            let mut before: Vec<Vec<Bdd>> = vec![vec![bdd::T]];
            for w in 0..4 {
                let mut v = vec![bdd::F; 64 * (w + 1) + 1];
                for k in 0..=64usize {
                    let here = b_eq(&nums[w], &const_bits(k as u128, 7));
                    for (j, b) in before[w].iter().enumerate() {
                        v[j + k] = bdd::or(v[j + k], bdd::and(*b, here));
                    }
                }
                before.push(v);
            }
            let within: Vec<Vec<Vec<Bdd>>> = words
                .iter()
                .map(|w| {
                    let mut rows = vec![vec![bdd::T]];
                    for x in w {
                        let row = rows.last().unwrap();
                        let mut r = vec![bdd::F; row.len() + 1];
                        for (k, v) in row.iter().enumerate() {
                            r[k] = bdd::or(r[k], bdd::and(*v, bdd::not(*x)));
                            r[k + 1] = bdd::or(r[k + 1], bdd::and(*v, *x));
                        }
                        rows.push(r);
                    }
                    rows
                })
                .collect();
            let tie: Vec<Bdd> = (0..4)
                .map(|w| {
                    (0..=64usize).fold(bdd::F, |t, k| bdd::or(t, bdd::and(b_eq(&nums[w], &const_bits(k as u128, 7)), within[w][64][k])))
                })
                .collect();
            let tied = |bad: Bdd| -> Bdd {
                for t in &tie {
                    if bdd::and(bad, *t) == bdd::F {
                        return bdd::F;
                    }
                }
                tie.iter().fold(bad, |b, t| bdd::and(b, *t))
            };
            for p in std::mem::take(&mut c.e.panics) {
                let w = format!("{n} can panic: {} at {} in {}", p.msg, p.at, p.func);
                c.holds_text(format!("{n} never panics: {}", p.msg), tied(p.pc), bdd::F, &w);
            }
            let mut none = bdd::F;
            for k in 0..=nth {
                none = bdd::or(none, before[4].get(k).copied().unwrap_or(bdd::F));
            }
            let mut total = bdd::F;
            for (st, r) in &outs {
                total = bdd::or(total, st.pc);
                let (d, p) = c.option(r);
                let bad = bdd::and(st.pc, bdd::xor(d, bdd::not(none)));
                c.holds(format!("{n} reports an element exactly when there is one"), tied(bad), bdd::F);
                let Some(p) = p else { continue };
                let b = byte(c, &p);
                let some = bdd::and(st.pc, d);
                for m in 0..256usize {
                    let got = bdd::and(some, is(&b, m));
                    if got == bdd::F {
                        continue;
                    }
                    // It is an element, and as many lie below it as asked.
                    let (w, j) = (m / 64, m % 64);
                    let mut right = bdd::F;
                    for (k, x) in within[w][j].iter().enumerate() {
                        if k <= nth && nth - k < before[w].len() {
                            right = bdd::or(right, bdd::and(before[w][nth - k], *x));
                        }
                    }
                    let right = bdd::and(right, a[m]);
                    c.holds(format!("{n} is the right element"), tied(bdd::and(got, bdd::not(right))), bdd::F);
                }
            }
            c.holds(format!("{n} returns"), tied(bdd::and(st0.pc, bdd::not(total))), bdd::F);
        }
    }
}

fn c24(c: &mut Ck) {
    c.rule("for every pair of bounds with lower not above upper and every prior set, the range operation adds exactly the range; constructors give exactly the named elements");
    for t in SETS {
        let n = format!("{t}::set_range");
        let Some(i) = c.find(&n) else { continue };
        let args = c.unknown_args(i, &["s", "lo", "hi"]);
        let (lo, hi) = (byte(c, &args[1]), byte(c, &args[2]));
        prime(c, &args[0].clone());
        let Some(before) = set_of(c, &State::new(), &args[0]) else { continue };
        let mut st0 = State::new();
        st0.pc = bdd::not(b_ult(&hi, &lo));
        let outs = c.run(i, args.clone(), st0);
        c.oblige(format!("{n} returns"), !outs.is_empty(), "never returns");
        for (st, _) in &outs {
            let Some(after) = set_of(c, st, &args[0]) else { continue };
            for m in 0..256usize {
                let k = const_bits(m as u128, 8);
                let inr = bdd::and(bdd::not(b_ult(&k, &lo)), bdd::not(b_ult(&hi, &k)));
                c.holds(format!("{n} adds exactly the range"), st.pc, bdd::iff(after[m], bdd::or(before[m], inr)));
            }
        }
    }
    if let Some(i) = c.find("CharReach::from_range") {
        let args = c.unknown_args(i, &["lo", "hi"]);
        let (lo, hi) = (byte(c, &args[0]), byte(c, &args[1]));
        let mut st0 = State::new();
        st0.pc = bdd::not(b_ult(&hi, &lo));
        for (st, r) in c.run(i, args, st0) {
            let Some(s) = set_of(c, &st, &r) else { continue };
            for m in 0..256usize {
                let k = const_bits(m as u128, 8);
                let inr = bdd::and(bdd::not(b_ult(&k, &lo)), bdd::not(b_ult(&hi, &k)));
                c.holds("CharReach::from_range is the range", st.pc, bdd::iff(s[m], inr));
            }
        }
    }
    if let Some(k) = call(c, "CharReach::from_char", &["ch"]) {
        let b = byte(c, &k.args[0]);
        for (st, r) in &k.outs {
            let Some(s) = set_of(c, st, r) else { continue };
            for m in 0..256 {
                c.holds("CharReach::from_char is the single character", st.pc, bdd::iff(s[m], is(&b, m)));
            }
        }
    }
    if let Some(k) = call(c, "CharReach::dot", &[]) {
        for (st, r) in &k.outs {
            let Some(s) = set_of(c, st, r) else { continue };
            for m in 0..256 {
                c.holds("CharReach::dot is everything", st.pc, s[m]);
            }
        }
    }
    // Byte lists of every length up to a bound, all contents.
    let max = if c.thorough { 6 } else { 4 };
    for f in ["CharReach::from_bytes", "CharReach::set_bytes"] {
        for len in 0..=max {
            let Some(i) = c.find(f) else { break };
            let set = f.ends_with("set_bytes");
            let tys = c.arg_tys(i);
            let st0 = State::new();
            let u8t = Ty::unsigned_ty(UintTy::U8);
            let elems: Vec<V> = (0..len).map(|k| {
                let v = V::Opq(Sym::new(format!("b{k}")), u8t);
                c.e.force(v)
            }).collect();
            let a = c.e.new_const(V::agg(elems.clone()));
            let slice = V::Ref(std::rc::Rc::new(Ptr { alloc: a, path: vec![], meta: Some((V::us(0), V::us(len as u128))) }));
            let mut args = vec![];
            let mut before = vec![bdd::F; 256];
            if set {
                let s = V::Opq(Sym::new("s"), tys[0]);
                prime(c, &s);
                before = set_of(c, &st0, &s).unwrap_or(before);
                args.push(s);
            }
            args.push(slice);
            let outs = c.run(i, args.clone(), st0);
            for (st, r) in &outs {
                let Some(s) = (if set { set_of(c, st, &args[0]) } else { set_of(c, st, r) }) else { continue };
                for m in 0..256 {
                    let mut want = before[m];
                    for x in &elems {
                        want = bdd::or(want, is(&x.bits().unwrap(), m));
                    }
                    c.holds(format!("{f} adds exactly the listed bytes (length {len})"), st.pc, bdd::iff(s[m], want));
                }
            }
        }
    }
}

fn other_case(m: usize) -> Option<usize> {
    let b = m as u8;
    if b.is_ascii_uppercase() {
        Some(b.to_ascii_lowercase() as usize)
    } else if b.is_ascii_lowercase() {
        Some(b.to_ascii_uppercase() as usize)
    } else {
        None
    }
}
fn c25(c: &mut Ck) {
    c.rule("case closure and class predicates as boolean functions of an arbitrary set equal their definitions");
    if let Some(k) = call(c, "make_caseless", &["a"]) {
        if let Some(a) = set_of(c, &State::new(), &k.args[0]) {
            for (st, _) in &k.outs {
                let Some(after) = set_of(c, st, &k.args[0]) else { continue };
                for m in 0..256 {
                    let want = other_case(m).map_or(a[m], |o| bdd::or(a[m], a[o]));
                    c.holds("make_caseless adds exactly the other case", st.pc, bdd::iff(after[m], want));
                }
            }
        }
    }
    for p in ["is_alphabetic", "is_caseless_char", "is_bit5_insensitive", "is_ascii", "is_utf8_start"] {
        let n = format!("CharReach::{p}");
        let Some(k) = call(c, &n, &[p]) else { continue };
        let Some(a) = set_of(c, &State::new(), &k.args[0]) else { continue };
        let mut want = bdd::T;
        match p {
            "is_alphabetic" => {
                let mut any = bdd::F;
                for m in 0..256 {
                    any = bdd::or(any, a[m]);
                    if other_case(m).is_none() {
                        want = bdd::and(want, bdd::not(a[m]));
                    }
                }
                want = bdd::and(want, any);
            }
            "is_caseless_char" => {
                want = bdd::F;
                for u in b'A'..=b'Z' {
                    let mut x = bdd::T;
                    for m in (0..256).rev() {
                        let inn = m == u as usize || m == u.to_ascii_lowercase() as usize;
                        x = bdd::and(x, if inn { a[m] } else { bdd::not(a[m]) });
                    }
                    want = bdd::or(want, x);
                }
            }
            "is_bit5_insensitive" => {
                for m in 0..256 {
                    want = bdd::and(want, bdd::iff(a[m], a[m ^ 0x20]));
                }
            }
            "is_ascii" => {
                for m in 128..256 {
                    want = bdd::and(want, bdd::not(a[m]));
                }
            }
            _ => {
                for m in 0..0xc0 {
                    want = bdd::and(want, bdd::not(a[m]));
                }
            }
        }
        for (st, r) in &k.outs {
            let r = c.bool_of(r);
            c.holds(format!("{n} matches its definition"), st.pc, bdd::iff(r, want));
        }
    }
}

fn c26(c: &mut Ck) {
    c.rule("the mask pair and bit vector computed from an arbitrary set, as boolean functions of its 256 elements and of the destination's prior contents");
    if let Some(k) = call(c, "make_and_cmp_mask", &["a"]) {
        if let Some(a) = set_of(c, &State::new(), &k.args[0]) {
            let mut any = bdd::F;
            for x in &a {
                any = bdd::or(any, *x);
            }
            for (st, r) in &k.outs {
                let V::Agg(p) = c.e.force(r.clone()) else { continue };
                let (am, cm) = (byte(c, &p[0]), byte(c, &p[1]));
                for bit in 0..8 {
                    let (mut one, mut zero) = (bdd::F, bdd::F);
                    for (m, x) in a.iter().enumerate() {
                        if m >> bit & 1 == 1 {
                            one = bdd::or(one, *x)
                        } else {
                            zero = bdd::or(zero, *x)
                        }
                    }
                    let pc = bdd::and(st.pc, any);
                    // Tightest: a bit is compared exactly when all members agree on it.
                    let agree = bdd::xor(one, zero);
                    c.holds("make_and_cmp_mask compares every bit the members agree on", pc, bdd::iff(am[bit], agree));
                    c.holds("make_and_cmp_mask expects the members' common value", bdd::and(pc, agree), bdd::iff(cm[bit], one));
                    c.holds("make_and_cmp_mask expects zero outside the mask", bdd::and(pc, bdd::not(agree)), bdd::not(cm[bit]));
                }
            }
        }
    }
    if let Some(i) = c.find("fill_bitvector") {
        let mut args = c.unknown_args(i, &["a"]);
        prime(c, &args[0].clone());
        let st0 = State::new();
        let u8t = Ty::unsigned_ty(UintTy::U8);
        for extra in [0usize, 1] {
            let elems: Vec<V> = (0..32 + extra).map(|k| {
                let v = V::Opq(Sym::new(format!("dst{k}")), u8t);
                c.e.force(v)
            }).collect();
            let mut st = st0.clone();
            let id = AllocId::Sym(Sym::new(format!("dst+{extra}")));
            st.mem.insert(id.clone(), V::agg(elems.clone()));
            args[1] = V::Ref(std::rc::Rc::new(Ptr { alloc: id, path: vec![], meta: Some((V::us(0), V::us(32 + extra as u128))) }));
            let Some(a) = set_of(c, &st0, &args[0]) else { break };
            let outs = c.run(i, args.clone(), st);
            c.oblige("fill_bitvector returns", !outs.is_empty(), "never returns");
            for (st, _) in &outs {
                let v = c.pointee(st, &args[1]);
                let b = c.flat(st, &v);
                if b.len() != 256 + extra * 8 {
                    c.oblige("bit vector size", false, format!("{} bits", b.len()));
                    continue;
                }
                for m in 0..256 {
                    c.holds("fill_bitvector writes exactly the set", st.pc, bdd::iff(b[m], a[m]));
                }
                for m in 256..b.len() {
                    let orig = elems[32].bits().unwrap()[m - 256];
                    c.holds("fill_bitvector leaves the rest alone", st.pc, bdd::iff(b[m], orig));
                }
            }
        }
    }
}

fn c27(c: &mut Ck) {
    c.rule("each byte helper as a function of all eight input bits");
    for f in ["myisupper", "myislower", "mytolower", "mytoupper", "ourisalpha"] {
        let Some(k) = call(c, f, &["ch"]) else { continue };
        let b = byte(c, &k.args[0]);
        for (st, r) in &k.outs {
            for m in 0..256usize {
                let ch = m as u8;
                let pc = bdd::and(st.pc, is(&b, m));
                if pc == bdd::F {
                    continue;
                }
                let ok = match f {
                    "mytolower" | "mytoupper" => {
                        let w = if f == "mytolower" { ch.to_ascii_lowercase() } else { ch.to_ascii_uppercase() };
                        let rb = byte(c, r);
                        is(&rb, w as usize)
                    }
                    _ => {
                        let w = match f {
                            "myisupper" => ch.is_ascii_uppercase(),
                            "myislower" => ch.is_ascii_lowercase(),
                            _ => ch.is_ascii_alphabetic(),
                        };
                        let rb = c.bool_of(r);
                        if w { rb } else { bdd::not(rb) }
                    }
                };
                c.holds(format!("{f} is the ASCII mapping"), pc, ok);
            }
        }
    }
}

fn c28(c: &mut Ck) {
    c.rule("each alignment helper, instantiated at every integer width, as a bit-vector function of the value and of each power of two: nearest multiple, no overflow when representable");
    let us = |u| Ty::unsigned_ty(u);
    let si = |u| Ty::signed_ty(u);
    let tys: Vec<(Ty, &str)> = vec![
        (us(UintTy::U8), "u8"),
        (us(UintTy::U16), "u16"),
        (us(UintTy::U32), "u32"),
        (us(UintTy::U64), "u64"),
        (us(UintTy::U128), "u128"),
        (us(UintTy::Usize), "usize"),
        (si(IntTy::I16), "i16"),
        (si(IntTy::I32), "i32"),
        (si(IntTy::I64), "i64"),
        (si(IntTy::I128), "i128"),
        (si(IntTy::Isize), "isize"),
    ];
    for (f, n, up) in [
        ("round_up_16", Some(16u64), true),
        ("round_down_16", Some(16), false),
        ("round_up_cache_line", Some(64), true),
        ("round_up_n", None, true),
        ("round_down_n", None, false),
    ] {
        for (t, tn) in &tys {
            // isize: From<u8> exists; usize too.
            let Some(i) = c.find_generic(f, vec![GenericArgKind::Type(*t)]) else { break };
            let ns: Vec<u64> = match n {
                Some(k) => vec![k],
                None => (0..8).map(|k| 1 << k).collect(),
            };
            for k in ns {
                let (w, signed) = tyx::int_info(*t).unwrap();
                let a = V::Opq(Sym::new(format!("x{w}{}", if signed { "s" } else { "" })), *t);
                let a = c.e.force(a);
                let b = a.bits().unwrap();
                let mut args = vec![a];
                if n.is_none() {
                    args.push(V::C(k as u128, 8));
                }
                let lg = k.trailing_zeros() as usize;
                // Nearest multiple not above: clear the low bits. Not below: add one step
                // when any was set.
                let mut down = b.clone();
                for x in down.iter_mut().take(lg) {
                    *x = bdd::F;
                }
                let low = b_or_all(&b[..lg].to_vec());
                let step = const_bits(k as u128, w as usize);
                let (sum, carry) = b_add(&down, &step, bdd::F);
                let over = if signed {
                    let top = w as usize - 1;
                    bdd::and(bdd::not(down[top]), sum[top])
                } else {
                    carry
                };
                let (want, pre) = if up {
                    (b_ite(low, &sum, &b), bdd::not(bdd::and(low, over)))
                } else {
                    (down, bdd::T)
                };
                if signed && k as u128 >= 1u128 << (w - 1) {
                    continue;
                }
                let mut st0 = State::new();
                st0.pc = pre;
                let outs = c.run(i, args, st0);
                c.oblige(format!("{f}<{tn}> returns"), !outs.is_empty(), format!("{f}<{tn}> never returns"));
                let mut cover = bdd::F;
                for (st, r) in &outs {
                    let rb = byte(c, r);
                    cover = bdd::or(cover, st.pc);
                    c.holds(format!("{f}<{tn}> rounds to {k}"), st.pc, b_eq(&rb, &want));
                }
                c.holds(format!("{f}<{tn}> answers for every value"), pre, cover);
            }
        }
    }
}

fn c29(c: &mut Ck) {
    c.rule("conversion and comparison of depths as bit-vector functions of all inputs");
    const INF: u128 = (1 << 31) - 1;
    for (t, w) in [("u32", 32usize), ("usize", 64)] {
        let cand: Vec<String> = c
            .index
            .iter()
            .filter(|(k, _)| k.starts_with("<Depth as TryFrom") && k.ends_with("::try_from"))
            .map(|x| x.0.clone())
            .collect();
        let mut found = false;
        for k in cand {
            for it in c.index[&k].clone() {
                let Ok(i) = Instance::try_from(it) else { continue };
                let at = c.arg_tys(i);
                if at.len() != 1 || at[0].to_string() != t {
                    continue;
                }
                found = true;
                let a = V::Opq(Sym::new(format!("v{w}")), at[0]);
                let a = c.e.force(a);
                let b = a.bits().unwrap();
                let inr = b_ult(&b, &const_bits(INF, w));
                let mut cover = bdd::F;
                for (st, r) in c.run(i, vec![a], State::new()) {
                    cover = bdd::or(cover, st.pc);
                    let V::En(en) = c.e.force(r) else { continue };
                    let Some(d) = en.disc.bits() else { continue };
                    let ok = b_eq(&d, &const_bits(0, 8));
                    c.holds(format!("Depth from {t} succeeds exactly below infinity"), st.pc, bdd::iff(ok, inr));
                    if let Some(p) = en.pay.get(&0) {
                        let v = c.flat(&st, &p[0]);
                        let mut v64 = v.clone();
                        v64.resize(w, bdd::F);
                        let pc = bdd::and(st.pc, inr);
                        c.holds(format!("Depth from {t} preserves the value"), pc, b_eq(&v64, &b));
                    }
                }
                c.holds(format!("Depth from {t} always answers"), bdd::T, cover);
            }
        }
        c.oblige(format!("anchor Depth::try_from({t})"), found, format!("no conversion from {t} to Depth"));
    }
    if let Some(k) = call(c, "Depth::infinity", &[]) {
        for (st, r) in &k.outs {
            let b = c.flat(st, r);
            c.holds("infinity is above every finite depth", st.pc, b_eq(&b, &const_bits(INF, b.len())));
        }
    }
    for f in ["<Depth as PartialEq>::eq", "<Depth as Ord>::cmp", "<Depth as PartialOrd>::partial_cmp"] {
        let Some(k) = call(c, f, &["a", "b"]) else { continue };
        let st0 = State::new();
        let (pa, pb) = (c.pointee(&st0, &k.args[0]), c.pointee(&st0, &k.args[1]));
        let (a, b) = (c.flat(&st0, &pa), c.flat(&st0, &pb));
        let (lt, eq) = (b_ult(&a, &b), b_eq(&a, &b));
        for (st, r) in &k.outs {
            if f.ends_with("::eq") {
                let r = c.bool_of(r);
                c.holds("depth equality is equality of values", st.pc, bdd::iff(r, eq));
                continue;
            }
            let mut r = c.e.force(r.clone());
            if f.ends_with("partial_cmp") {
                let (some, p) = c.option(&r);
                c.holds("depths are always comparable", st.pc, some);
                r = match p {
                    Some(p) => c.e.force(p),
                    None => continue,
                };
            }
            let V::En(en) = r else { continue };
            let Some(d) = en.disc.bits() else { continue };
            c.holds(format!("{f} is less exactly below"), st.pc, bdd::iff(is(&d, 0), lt));
            c.holds(format!("{f} is equal exactly at the same value"), st.pc, bdd::iff(is(&d, 1), eq));
        }
    }
}
