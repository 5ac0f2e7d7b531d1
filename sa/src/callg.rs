//! Syntactic facts about the functions reachable in the call graph.
use crate::body::BodyInfo;
use crate::checks::Ck;
use crate::interp::span_str;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::HashSet;
use std::rc::Rc;

/// Instances called or taken as values in a body.
pub fn callees(b: &BodyInfo) -> Vec<Instance> {
    struct C<'a> {
        out: Vec<Instance>,
        locals: &'a [LocalDecl],
    }
    impl C<'_> {
        fn ty(&mut self, t: Ty) {
            match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        self.out.push(i);
                    }
                }
                TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                        self.out.push(i);
                    }
                }
                _ => {}
            }
        }
    }
    impl MirVisitor for C<'_> {
        fn visit_ty(&mut self, t: &Ty, _l: visit::Location) {
            self.ty(*t);
        }
        fn visit_const_operand(&mut self, c: &ConstOperand, l: visit::Location) {
            self.ty(c.const_.ty());
            self.super_const_operand(c, l);
        }
        fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
            if let TerminatorKind::Drop { place, .. } = &t.kind {
                if let Ok(ty) = place.ty(self.locals) {
                    let i = Instance::resolve_drop_in_place(ty);
                    if !i.is_empty_shim() {
                        self.out.push(i);
                    }
                }
            }
            self.super_terminator(t, l);
        }
    }
    let mut v = C { out: vec![], locals: b.body.locals() };
    v.visit_body(&b.body);
    v.out
}
/// Every instance with a body reachable from the roots.
pub fn reach(c: &mut Ck, roots: &[Instance]) -> Vec<(Instance, Rc<BodyInfo>)> {
    let mut seen: HashSet<Instance> = HashSet::new();
    let mut todo: Vec<Instance> = roots.to_vec();
    let mut out = vec![];
    while let Some(i) = todo.pop() {
        if !seen.insert(i) {
            continue;
        }
        if let Some(b) = c.e.body(i) {
            todo.extend(callees(&b));
            out.push((i, b));
        }
    }
    out
}
/// Where a body dereferences a raw pointer.
pub fn raw_derefs(b: &BodyInfo) -> Vec<String> {
    struct C<'a> {
        out: Vec<String>,
        locals: &'a [LocalDecl],
    }
    impl MirVisitor for C<'_> {
        fn visit_place(&mut self, p: &Place, pc: visit::PlaceContext, l: visit::Location) {
            for (k, e) in p.projection.iter().enumerate() {
                if matches!(e, ProjectionElem::Deref) {
                    let base = Place { local: p.local, projection: p.projection[..k].to_vec() };
                    if let Ok(t) = base.ty(self.locals) {
                        if matches!(t.kind(), TyKind::RigidTy(RigidTy::RawPtr(..))) {
                            self.out.push(span_str(l.span()));
                        }
                    }
                }
            }
            self.super_place(p, pc, l);
        }
    }
    let mut v = C { out: vec![], locals: b.body.locals() };
    v.visit_body(&b.body);
    v.out
}

/// Places written (true) or mutably borrowed (false) by a body.
pub fn mutated(b: &BodyInfo) -> Vec<(Place, bool, Span)> {
    let mut out = vec![];
    for bb in &b.body.blocks {
        for s in &bb.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => {
                    out.push((p.clone(), true, s.source_info.span));
                    match r {
                        Rvalue::Ref(_, BorrowKind::Mut { .. }, q) => out.push((q.clone(), false, s.source_info.span)),
                        Rvalue::AddressOf(m, q) if !matches!(m, RawPtrKind::Const) => out.push((q.clone(), false, s.source_info.span)),
                        _ => {}
                    }
                }
                StatementKind::SetDiscriminant { place, .. } => out.push((place.clone(), true, s.source_info.span)),
                _ => {}
            }
        }
        match &bb.terminator.kind {
            TerminatorKind::Call { destination, .. } => out.push((destination.clone(), true, bb.terminator.source_info.span)),
            _ => {}
        }
    }
    out
}
/// Writes (or mutable borrows, or whole-value replacement) of the named fields of a type.
pub fn field_writes(b: &BodyInfo, ty: &str, fields: &[&str]) -> Vec<String> {
    use crate::tyx;
    let mut out = vec![];
    for (p, write, sp) in mutated(b) {
        for k in 0..=p.projection.len() {
            let base = Place { local: p.local, projection: p.projection[..k].to_vec() };
            let Ok(t) = base.ty(b.body.locals()) else { continue };
            if tyx::adt_last(t).as_deref() != Some(ty) {
                continue;
            }
            match p.projection.get(k) {
                Some(ProjectionElem::Field(i, _)) => {
                    let names = tyx::field_names(t, 0);
                    if let Some(n) = names.get(*i) {
                        if fields.contains(&n.as_str()) {
                            out.push(format!("{ty}.{n} at {}", span_str(sp)));
                        }
                    }
                }
                // Replacing a whole value that lives behind a reference or in another value.
                None if k > 0 && write => out.push(format!("a whole {ty} at {}", span_str(sp))),
                _ => {}
            }
        }
    }
    out
}
/// Where a body builds a value of a type field by field.
pub fn builds(b: &BodyInfo, ty: &str) -> Vec<String> {
    let mut out = vec![];
    for bb in &b.body.blocks {
        for s in &bb.statements {
            if let StatementKind::Assign(p, Rvalue::Aggregate(AggregateKind::Adt(..), _)) = &s.kind {
                if let Ok(t) = p.ty(b.body.locals()) {
                    if crate::tyx::adt_last(t).as_deref() == Some(ty) {
                        out.push(span_str(s.source_info.span));
                    }
                }
            }
        }
    }
    out
}

/// What a body touches besides its arguments.
#[derive(Default)]
pub struct Touch {
    pub statics: Vec<(rustc_public::mir::mono::StaticDef, String)>,
    pub thread_locals: Vec<String>,
    pub asm: Vec<String>,
    pub fns: Vec<Instance>,
}
pub fn touches(b: &BodyInfo) -> Touch {
    use rustc_public::mir::alloc::GlobalAlloc;
    struct C {
        t: Touch,
        allocs: HashSet<rustc_public::mir::alloc::AllocId>,
    }
    impl C {
        fn alloc(&mut self, a: &Allocation, at: &str) {
            for (_, p) in &a.provenance.ptrs {
                if !self.allocs.insert(p.0) {
                    continue;
                }
                match GlobalAlloc::from(p.0) {
                    GlobalAlloc::Static(s) => self.t.statics.push((s, at.to_string())),
                    GlobalAlloc::Memory(m) => self.alloc(&m, at),
                    GlobalAlloc::Function(i) => self.t.fns.push(i),
                    _ => {}
                }
            }
        }
        fn types(&mut self, t: Ty, seen: &mut HashSet<Ty>) {
            if !seen.insert(t) {
                return;
            }
            match t.kind() {
                TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        self.t.fns.push(i);
                    }
                }
                TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::Fn) {
                        self.t.fns.push(i);
                    }
                }
                TyKind::RigidTy(RigidTy::Adt(_, a)) => {
                    for x in a.0.iter().filter_map(|x| x.ty().copied()) {
                        self.types(x, seen);
                    }
                }
                TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => self.types(p, seen),
                TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().for_each(|p| self.types(*p, seen)),
                _ => {}
            }
        }
    }
    impl MirVisitor for C {
        fn visit_ty(&mut self, t: &Ty, _l: visit::Location) {
            self.types(*t, &mut HashSet::new());
        }
        fn visit_const_operand(&mut self, c: &ConstOperand, l: visit::Location) {
            if let ConstantKind::Allocated(a) = c.const_.kind() {
                self.alloc(a, &span_str(l.span()));
            }
            self.super_const_operand(c, l);
        }
        fn visit_rvalue(&mut self, r: &Rvalue, l: visit::Location) {
            if let Rvalue::ThreadLocalRef(_) = r {
                self.t.thread_locals.push(span_str(l.span()));
            }
            self.super_rvalue(r, l);
        }
        fn visit_terminator(&mut self, t: &Terminator, l: visit::Location) {
            if let TerminatorKind::InlineAsm { .. } = &t.kind {
                self.t.asm.push(span_str(l.span()));
            }
            self.super_terminator(t, l);
        }
    }
    let mut v = C { t: Touch::default(), allocs: HashSet::new() };
    v.visit_body(&b.body);
    v.t
}

/// The local functions a body calls, through closures and library code.
pub fn reach_local(c: &mut Ck, i: Instance) -> Vec<(Instance, Rc<BodyInfo>)> {
    let mut seen: HashSet<Instance> = HashSet::new();
    let mut todo = vec![i];
    let mut out = vec![];
    while let Some(k) = todo.pop() {
        if !seen.insert(k) {
            continue;
        }
        let Some(b) = c.e.body(k) else { continue };
        if k != i && rustc_public::CrateDef::krate(&k.def).is_local && !k.name().contains("{closure") {
            out.push((k, b));
            continue;
        }
        todo.extend(callees(&b));
        todo.extend(touches(&b).fns);
    }
    out
}
