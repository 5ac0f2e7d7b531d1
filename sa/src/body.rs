//! Control-flow structure of MIR bodies: weak topological order, liveness, control slices.
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use std::collections::{BTreeSet, HashMap, HashSet};

#[derive(Debug, Clone)]
pub enum Wto {
    B(usize),
    /// Loop head and its nested order (head excluded).
    L(usize, Vec<Wto>),
}
impl Wto {
    pub fn blocks(&self, out: &mut BTreeSet<usize>) {
        match self {
            Wto::B(b) => {
                out.insert(*b);
            }
            Wto::L(h, v) => {
                out.insert(*h);
                for w in v {
                    w.blocks(out)
                }
            }
        }
    }
}

pub struct BodyInfo {
    pub inst: Instance,
    pub name: String,
    pub body: Body,
    pub wto: Vec<Wto>,
    /// Locals whose address is taken: never killed by liveness.
    pub borrowed: Vec<bool>,
    pub live_in: Vec<Vec<bool>>,
    /// Per loop head: locals that can influence a branch or assertion inside the loop.
    pub slice: HashMap<usize, BTreeSet<usize>>,
    /// Per loop head: locals assigned, or mutably borrowed, inside the loop.
    pub modified: HashMap<usize, BTreeSet<usize>>,
}

pub fn succs(t: &Terminator) -> Vec<usize> {
    use TerminatorKind::*;
    match &t.kind {
        Goto { target } => vec![*target],
        SwitchInt { targets, .. } => {
            let mut v = targets.all_targets();
            v.dedup();
            v
        }
        Drop { target, .. } => vec![*target],
        Call { target, .. } => target.iter().copied().collect(),
        Assert { target, .. } => vec![*target],
        InlineAsm { destination, .. } => destination.iter().copied().collect(),
        _ => vec![],
    }
}

struct Bd<'a> {
    g: &'a [Vec<usize>],
    dfn: Vec<usize>,
    num: usize,
    stack: Vec<usize>,
}
impl<'a> Bd<'a> {
    fn component(&mut self, v: usize) -> Wto {
        let mut p = vec![];
        for s in self.g[v].clone() {
            if self.dfn[s] == 0 {
                self.visit(s, &mut p);
            }
        }
        p.reverse();
        Wto::L(v, p)
    }
    fn visit(&mut self, v: usize, part: &mut Vec<Wto>) -> usize {
        self.stack.push(v);
        self.num += 1;
        self.dfn[v] = self.num;
        let mut head = self.num;
        let mut is_loop = false;
        for s in self.g[v].clone() {
            let m = if self.dfn[s] == 0 { self.visit(s, part) } else { self.dfn[s] };
            if m <= head {
                head = m;
                is_loop = true;
            }
        }
        if head == self.dfn[v] {
            self.dfn[v] = usize::MAX;
            let mut e = self.stack.pop().unwrap();
            if is_loop {
                while e != v {
                    self.dfn[e] = 0;
                    e = self.stack.pop().unwrap();
                }
                let c = self.component(v);
                part.push(c);
            } else {
                part.push(Wto::B(v));
            }
        }
        head
    }
}

fn op_locals(o: &Operand, out: &mut BTreeSet<usize>) {
    if let Operand::Copy(p) | Operand::Move(p) = o {
        place_locals(p, out);
    }
}
fn place_locals(p: &Place, out: &mut BTreeSet<usize>) {
    out.insert(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            out.insert(*l);
        }
    }
}
pub fn rv_locals(r: &Rvalue, out: &mut BTreeSet<usize>) {
    match r {
        Rvalue::AddressOf(_, p)
        | Rvalue::CopyForDeref(p)
        | Rvalue::Discriminant(p)
        | Rvalue::Len(p)
        | Rvalue::Ref(_, _, p)
        | Rvalue::Reborrow(_, _, p) => place_locals(p, out),
        Rvalue::Aggregate(_, ops) => ops.iter().for_each(|o| op_locals(o, out)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_locals(a, out);
            op_locals(b, out);
        }
        Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::UnaryOp(_, o) | Rvalue::Use(o, _) => {
            op_locals(o, out)
        }
        Rvalue::ThreadLocalRef(_) => {}
    }
}
fn term_uses(t: &TerminatorKind, out: &mut BTreeSet<usize>) {
    use TerminatorKind::*;
    match t {
        SwitchInt { discr, .. } => op_locals(discr, out),
        Return => {
            out.insert(0);
        }
        Drop { place, .. } => place_locals(place, out),
        Call { func, args, destination, .. } => {
            op_locals(func, out);
            args.iter().for_each(|o| op_locals(o, out));
            if !destination.projection.is_empty() {
                place_locals(destination, out);
            }
        }
        Assert { cond, msg, .. } => {
            op_locals(cond, out);
            match msg {
                AssertMessage::BoundsCheck { len, index } => {
                    op_locals(len, out);
                    op_locals(index, out);
                }
                AssertMessage::Overflow(_, a, b) => {
                    op_locals(a, out);
                    op_locals(b, out);
                }
                AssertMessage::OverflowNeg(a)
                | AssertMessage::DivisionByZero(a)
                | AssertMessage::RemainderByZero(a) => op_locals(a, out),
                _ => {}
            }
        }
        _ => {}
    }
}

impl BodyInfo {
    pub fn new(inst: Instance, body: Body) -> BodyInfo {
        let n = body.blocks.len();
        let g: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator)).collect();
        let mut bd = Bd { g: &g, dfn: vec![0; n], num: 0, stack: vec![] };
        let mut wto = vec![];
        bd.visit(0, &mut wto);
        wto.reverse();
        let nl = body.locals().len();
        let mut borrowed = vec![false; nl];
        for b in &body.blocks {
            for s in &b.statements {
                if let StatementKind::Assign(_, Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p)) = &s.kind {
                    if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        borrowed[p.local] = true;
                    }
                }
            }
        }
        // Liveness.
        let mut live_in = vec![vec![false; nl]; n];
        loop {
            let mut changed = false;
            for b in (0..n).rev() {
                let mut live = vec![false; nl];
                for s in &g[b] {
                    for l in 0..nl {
                        live[l] |= live_in[*s][l];
                    }
                }
                let bb = &body.blocks[b];
                if let TerminatorKind::Call { destination, .. } = &bb.terminator.kind {
                    if destination.projection.is_empty() {
                        live[destination.local] = false;
                    }
                }
                let mut u = BTreeSet::new();
                term_uses(&bb.terminator.kind, &mut u);
                u.iter().for_each(|l| live[*l] = true);
                for s in bb.statements.iter().rev() {
                    match &s.kind {
                        StatementKind::Assign(p, r) => {
                            let mut u = BTreeSet::new();
                            if p.projection.is_empty() {
                                live[p.local] = false;
                            } else {
                                place_locals(p, &mut u);
                            }
                            rv_locals(r, &mut u);
                            u.iter().for_each(|l| live[*l] = true);
                        }
                        StatementKind::SetDiscriminant { place, .. } => live[place.local] = true,
                        StatementKind::StorageDead(l) | StatementKind::StorageLive(l) => live[*l] = false,
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                            let mut u = BTreeSet::new();
                            op_locals(o, &mut u);
                            u.iter().for_each(|l| live[*l] = true);
                        }
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            let mut u = BTreeSet::new();
                            op_locals(&c.src, &mut u);
                            op_locals(&c.dst, &mut u);
                            op_locals(&c.count, &mut u);
                            u.iter().for_each(|l| live[*l] = true);
                        }
                        _ => {}
                    }
                }
                if live != live_in[b] {
                    live_in[b] = live;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut slice = HashMap::new();
        let mut modified = HashMap::new();
        fn loops<'a>(w: &'a [Wto], out: &mut Vec<&'a Wto>) {
            for x in w {
                if let Wto::L(_, v) = x {
                    out.push(x);
                    loops(v, out);
                }
            }
        }
        let mut ls = vec![];
        loops(&wto, &mut ls);
        for l in ls {
            let mut bs = BTreeSet::new();
            l.blocks(&mut bs);
            let Wto::L(h, _) = l else { unreachable!() };
            let (s, m) = slices(&body, &bs);
            slice.insert(*h, s);
            modified.insert(*h, m);
        }
        let name = inst.name().to_string();
        BodyInfo { inst, name, body, wto, borrowed, live_in, slice, modified }
    }
}

fn slices(body: &Body, bs: &BTreeSet<usize>) -> (BTreeSet<usize>, BTreeSet<usize>) {
    let mut s: BTreeSet<usize> = BTreeSet::new();
    let mut m: BTreeSet<usize> = BTreeSet::new();
    // Reference temporaries and what they point at.
    let mut refs: Vec<(usize, usize)> = vec![];
    for b in bs {
        let bb = &body.blocks[*b];
        match &bb.terminator.kind {
            TerminatorKind::SwitchInt { discr, .. } => op_locals(discr, &mut s),
            TerminatorKind::Assert { cond, .. } => op_locals(cond, &mut s),
            TerminatorKind::Call { destination, .. } => {
                m.insert(destination.local);
            }
            _ => {}
        }
        for st in &bb.statements {
            if let StatementKind::Assign(p, r) = &st.kind {
                m.insert(p.local);
                if let Rvalue::Ref(_, BorrowKind::Mut { .. }, q) = r {
                    m.insert(q.local);
                    refs.push((p.local, q.local));
                }
                if let Rvalue::AddressOf(_, q) = r {
                    m.insert(q.local);
                    refs.push((p.local, q.local));
                }
            }
        }
    }
    loop {
        let before = s.len();
        for (t, x) in &refs {
            if s.contains(x) {
                s.insert(*t);
            }
        }
        for b in bs {
            let bb = &body.blocks[*b];
            for st in &bb.statements {
                if let StatementKind::Assign(p, r) = &st.kind {
                    if s.contains(&p.local) {
                        rv_locals(r, &mut s);
                    }
                }
            }
            if let TerminatorKind::Call { args, destination, .. } = &bb.terminator.kind {
                let mut a = BTreeSet::new();
                args.iter().for_each(|o| op_locals(o, &mut a));
                let hit = s.contains(&destination.local)
                    || a.iter().any(|l| refs.iter().any(|(t, x)| t == l && s.contains(x)));
                if hit {
                    s.extend(a);
                }
            }
        }
        if s.len() == before {
            break;
        }
    }
    (s, m)
}

/// Strips generic arguments: `<std::slice::Iter<'a, T> as std::iter::Iterator>::next`
/// becomes `<std::slice::Iter as std::iter::Iterator>::next`.
pub fn strip(name: &str) -> String {
    let b: Vec<char> = name.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '<' {
            // A qualified path starts a name or follows a non-identifier character.
            let prev = out.chars().last();
            let generic = match prev {
                None => false,
                Some(p) => p.is_alphanumeric() || p == '_' || p == ':' || p == '}',
            };
            if generic {
                // `{impl#0}`-style and `::<` generics: skip to the matching '>'.
                let mut d = 0;
                while i < b.len() {
                    if b[i] == '<' {
                        d += 1;
                    } else if b[i] == '>' && !(i > 0 && b[i - 1] == '-') {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    i += 1;
                }
                i += 1;
                if out.ends_with("::") {
                    out.truncate(out.len() - 2);
                }
                continue;
            }
        }
        out.push(c);
        i += 1;
    }
    let mut out = out.replace("alloc::", "std::").replace("core::", "std::");
    // Re-exports of the standard library by other crates.
    while let Some(k) = out.find("::std::") {
        let from = out[..k].rfind(|c: char| !(c.is_alphanumeric() || c == '_' || c == ':')).map_or(0, |x| x + 1);
        out.replace_range(from..k + 2, "");
    }
    // Lifetimes inside qualified paths.
    let mut r = String::new();
    let mut it = out.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |x| x.is_alphanumeric() || *x == '_') {
                it.next();
            }
            if it.peek() == Some(&' ') {
                it.next();
            }
            continue;
        }
        r.push(c);
    }
    r
}

#[allow(dead_code)]
pub fn reachable_blocks(body: &Body) -> HashSet<usize> {
    let mut seen = HashSet::new();
    let mut w = vec![0];
    while let Some(b) = w.pop() {
        if seen.insert(b) {
            w.extend(succs(&body.blocks[b].terminator));
        }
    }
    seen
}
