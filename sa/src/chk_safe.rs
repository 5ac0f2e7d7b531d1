//! C18, C19, C20: what the types and the call graph rule out.
use crate::callg;
use crate::checks::*;
use crate::chk_flow::*;
use crate::interp::span_str;
use crate::tyx;
use rustc_hir::def::DefKind;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_middle::ty as m;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_trait_selection::infer::InferCtxtExt;
use std::collections::HashSet;
use std::rc::Rc;

pub fn run(c: &mut Ck, id: &str) -> bool {
    match id {
        "C01" => c01(c),
        "C20" => c20(c),
        "C19" => c19(c),
        "C38" => c38(c),
        "C18" => c18(c),
        _ => return false,
    }
    true
}

/// Every local struct or enum with a name, as a type with its lifetimes erased.
fn named(c: &mut Ck, name: &str) -> Option<Ty> {
    let mut v: Vec<Ty> = vec![];
    m::tls::with(|tcx| {
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) && tcx.item_name(d.to_def_id()).as_str() == name {
                let t = tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip();
                let t = tcx.erase_and_anonymize_regions(t);
                v.push(rustc_public::rustc_internal::stable(t));
            }
        }
    });
    if v.len() != 1 {
        c.undecided(format!("type {name}"), format!("type {name}: expected one, found {}", v.len()));
        return None;
    }
    Some(v[0])
}
/// Whether a type implements a trait, for every lifetime.
fn implements(t: Ty, tr: &str) -> bool {
    m::tls::with(|tcx| {
        let sym = rustc_span::Symbol::intern(tr);
        let li = tcx.lang_items();
        let d = match tr {
            "Copy" => li.copy_trait(),
            "Clone" => li.clone_trait(),
            "Sync" => li.sync_trait(),
            "Unpin" => li.unpin_trait(),
            _ => tcx.get_diagnostic_item(sym),
        }
        .expect("a known trait");
        let ty = rustc_public::rustc_internal::internal(tcx, t);
        let infcx = tcx.infer_ctxt().build(m::TypingMode::non_body_analysis());
        infcx.type_implements_trait(d, [ty], m::ParamEnv::empty()).may_apply()
    })
}
/// Every type reachable from a type through fields, references and type arguments.
/// The target of the reference count of a shared pointer is not part of the value.
fn deep(t: Ty, owner: Option<Ty>, f: &mut dyn FnMut(Ty, Option<Ty>), seen: &mut HashSet<Ty>) {
    f(t, owner);
    if !seen.insert(t) {
        return;
    }
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, a)) => {
            for x in a.0.iter().filter_map(|x| x.ty().copied()) {
                deep(x, Some(t), f, seen);
            }
            let p = tyx::adt_path(t).unwrap_or_default();
            if p == "std::sync::Arc" {
                return;
            }
            for v in d.variants_iter() {
                for fl in v.fields() {
                    deep(fl.ty_with_args(&a), Some(t), f, seen);
                }
            }
        }
        TyKind::RigidTy(RigidTy::Ref(_, p, _)) | TyKind::RigidTy(RigidTy::RawPtr(p, _)) => deep(p, Some(t), f, seen),
        TyKind::RigidTy(RigidTy::Array(p, _)) | TyKind::RigidTy(RigidTy::Slice(p)) => deep(p, Some(t), f, seen),
        TyKind::RigidTy(RigidTy::Tuple(v)) => {
            for p in v {
                deep(p, Some(t), f, seen);
            }
        }
        TyKind::RigidTy(RigidTy::Closure(_, a)) => {
            for x in a.0.iter().filter_map(|x| x.ty().copied()) {
                deep(x, Some(t), f, seen);
            }
        }
        _ => {}
    }
}
fn peel(mut t: Ty) -> Ty {
    while let Some(p) = tyx::pointee(t) {
        t = p;
    }
    t
}
/// Whether a value of a type holds a value of another by itself.
fn owns(t: Ty, what: Ty) -> bool {
    fn go(t: Ty, what: Ty, seen: &mut HashSet<Ty>) -> bool {
        if t == what {
            return true;
        }
        if !seen.insert(t) {
            return false;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                a.0.iter().filter_map(|x| x.ty().copied()).any(|x| go(x, what, seen))
                    || (d.krate().is_local
                        && d.variants_iter().any(|v| v.fields().iter().any(|f| go(f.ty_with_args(&a), what, seen))))
            }
            TyKind::RigidTy(RigidTy::Array(p, _)) => go(p, what, seen),
            TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|p| go(*p, what, seen)),
            _ => false,
        }
    }
    go(t, what, &mut HashSet::new())
}
/// Whether a type gives shared access to a value of another type.
fn borrows(t: Ty, what: Ty) -> bool {
    let mut hit = false;
    deep(
        t,
        None,
        &mut |x, _| {
            if let TyKind::RigidTy(RigidTy::Ref(_, p, _)) = x.kind() {
                hit |= owns(p, what);
            }
        },
        &mut HashSet::new(),
    );
    hit
}

// ------------------------------------------------------------------ C20

fn c20(c: &mut Ck) {
    c.rule("trait solver queries on the types of the public interface, for every lifetime");
    c.rule("walk of every type reachable from Database: no interior mutability, no raw pointer of the crate's own");
    c.rule("signatures of every function of the crate: none makes a Scratch out of a borrowed one; scan borrows the database shared and the scratch exclusively");
    let (Some(db), Some(sc)) = (named(c, "Database"), named(c, "Scratch")) else { return };
    c.oblige("Database can be sent to another thread", implements(db, "Send"), "Database is not Send");
    c.oblige("Database can be shared by threads", implements(db, "Sync"), "Database is not Sync");
    c.oblige("Scratch cannot be cloned", !implements(sc, "Clone"), "Scratch implements Clone");
    c.oblige("Scratch cannot be copied", !implements(sc, "Copy"), "Scratch implements Copy");
    c.oblige("Scratch cannot be shared by threads", !implements(sc, "Sync"), "Scratch is Sync: several threads can hold one scratch space");
    // What a database holds.
    let mut inner: Vec<Ty> = vec![];
    let mut bad: Vec<String> = vec![];
    let mut raw: Vec<String> = vec![];
    let mut parts: HashSet<Ty> = HashSet::new();
    deep(
        db,
        None,
        &mut |t, owner| {
            inner.push(t);
            let local = owner.map_or(false, tyx::is_local_adt);
            if tyx::adt_last(t).as_deref() == Some("UnsafeCell") {
                bad.push(format!("{}", owner.map(|o| o.to_string()).unwrap_or_default()));
            }
            if tyx::is_local_adt(t) {
                parts.insert(t);
            }
            match t.kind() {
                TyKind::RigidTy(RigidTy::RawPtr(..)) | TyKind::RigidTy(RigidTy::Dynamic(..)) if local => {
                    raw.push(format!("{} in {}", t, owner.unwrap()))
                }
                _ if local && matches!(tyx::adt_last(t).as_deref(), Some("NonNull" | "Unique")) => {
                    raw.push(format!("{} in {}", t, owner.unwrap()))
                }
                _ => {}
            }
        },
        &mut HashSet::new(),
    );
    c.note("types reachable from Database", inner.len());
    c.oblige("a database holds nothing that changes through a shared reference", bad.is_empty(), format!("a Database holds interior mutability: {}", bad.join("; ")));
    if !raw.is_empty() {
        c.undecided("a database holds no raw pointer", format!("a Database holds {}", raw.join("; ")));
    }
    // Signatures.
    let Some(scan) = c.find("scan") else { return };
    let at = c.arg_tys(scan);
    let shared = |t: Ty, w: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, p, Mutability::Not)) if p == w);
    let excl = |t: Ty, w: Ty| matches!(t.kind(), TyKind::RigidTy(RigidTy::Ref(_, p, Mutability::Mut)) if p == w);
    let dbs: Vec<Ty> = at.iter().copied().filter(|t| mentions(*t, db)).collect();
    let scs: Vec<Ty> = at.iter().copied().filter(|t| mentions(*t, sc)).collect();
    c.oblige("scan borrows the database shared", dbs.len() == 1 && shared(dbs[0], db), format!("scan takes {dbs:?} for its database"));
    c.oblige("scan borrows the scratch exclusively", scs.len() == 1 && excl(scs[0], sc), format!("scan takes {} for its scratch", scs.iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", ")));
    let mut n = 0;
    let sigs: Vec<(String, Vec<Ty>, Ty)> = m::tls::with(|tcx| {
        let mut v = vec![];
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let s = tcx.fn_sig(d.to_def_id()).instantiate_identity().skip_norm_wip();
            let s = tcx.erase_and_anonymize_regions(s);
            let s = s.skip_binder();
            v.push((
                tcx.def_path_str(d.to_def_id()),
                s.inputs().iter().map(|t| rustc_public::rustc_internal::stable(*t)).collect(),
                rustc_public::rustc_internal::stable(s.output()),
            ));
        }
        v
    });
    for (f, ins, out) in &sigs {
        n += 1;
        let f = short(f);
        let r: Vec<String> = ins.iter().filter(|t| borrows(**t, sc)).map(|t| t.to_string()).collect();
        c.oblige(format!("{f} duplicates no scratch"), r.is_empty() || !owns(*out, sc), format!("{f} makes a Scratch out of {}", r.join(", ")));
        // Whoever holds only a shared reference to a scratch gets no exclusive one.
        let sh = ins.iter().any(|t| borrows_as(*t, sc, Mutability::Not)) && !ins.iter().any(|t| borrows_as(*t, sc, Mutability::Mut));
        c.oblige(format!("{f} hands out no exclusive borrow of a shared scratch"), !sh || !borrows_as(*out, sc, Mutability::Mut), format!("{f} turns a shared Scratch into an exclusive one"));
    }
    c.note("signatures examined", n);
    // No write through a raw pointer to a part of a database on the way of a scan.
    let g = callg::reach(c, &[scan]);
    c.note("functions reachable from scan", g.len());
    for (i, b) in g.iter().filter(|(i, _)| i.def.krate().is_local) {
        let n = short(&i.name().to_string());
        let mut w: Vec<String> = vec![];
        for (p, _, sp) in callg::mutated(b) {
            for k in 0..p.projection.len() {
                if !matches!(p.projection[k], ProjectionElem::Deref) {
                    continue;
                }
                let base = Place { local: p.local, projection: p.projection[..k].to_vec() };
                if let Ok(t) = base.ty(b.body.locals()) {
                    if let TyKind::RigidTy(RigidTy::RawPtr(q, _)) = t.kind() {
                        if inner.contains(&peel(q)) && parts.contains(&peel(q)) {
                            w.push(format!("{} at {}", t, span_str(sp)));
                        }
                    }
                }
            }
        }
        c.oblige(format!("{n} writes no part of a database through a raw pointer"), w.is_empty(), format!("{n} writes through {}", w.join(", ")));
    }
    // No bit-copy of a scratch.
    for (i, b) in local_bodies(c).iter() {
        let n = short(&i.name().to_string());
        for k in callg::callees(b) {
            let kn = short(&k.name().to_string());
            let last = kn.rsplit("::").next().unwrap_or("").split('<').next().unwrap_or("").to_string();
            if !matches!(last.as_str(), "read" | "read_unaligned" | "read_volatile" | "copy" | "copy_nonoverlapping" | "transmute_copy" | "transmute" | "zeroed") || k.def.krate().is_local {
                continue;
            }
            let on: Vec<Ty> = k.args().0.iter().filter_map(|x| x.ty().copied()).filter(|t| owns(*t, sc)).collect();
            c.oblige(format!("{n} copies no scratch bit by bit"), on.is_empty(), format!("{n} calls {kn} on a Scratch"));
        }
    }
}
fn mentions(t: Ty, what: Ty) -> bool {
    let mut hit = false;
    deep(t, None, &mut |x, _| hit |= x == what, &mut HashSet::new());
    hit
}
/// Whether a type holds a reference of the given kind to a value holding `what`.
fn borrows_as(t: Ty, what: Ty, mu: Mutability) -> bool {
    let mut hit = false;
    deep(
        t,
        None,
        &mut |x, _| {
            if let TyKind::RigidTy(RigidTy::Ref(_, p, q)) = x.kind() {
                hit |= q == mu && owns(p, what);
            }
        },
        &mut HashSet::new(),
    );
    hit
}

// ------------------------------------------------------------------ C19

/// Crate and path of a definition, by modules.
fn def_path(d: rustc_public::DefId) -> (String, String) {
    m::tls::with(|tcx| {
        let d = rustc_public::rustc_internal::internal(tcx, d);
        (tcx.crate_name(d.krate).to_string(), tcx.def_path(d).to_string_no_crate_verbose())
    })
}
/// Modules of std whose functions reach outside the process or the call.
const OUTSIDE: &[&str] = &["fs", "net", "env", "time", "process", "thread", "os", "sys", "io::stdio", "io::pipe", "random"];
/// Modules of std whose functions only compute.
const INSIDE: &[&str] = &[
    "collections", "hash", "panicking", "panic", "alloc", "sync", "error", "ascii", "ffi", "io", "num", "f32", "f64", "path", "backtrace_rs", "rt", "keyword_docs",
];
/// Functions of otherwise harmless modules that ask the system.
const ASKING: &[&str] = &[
    "exists", "try_exists", "is_file", "is_dir", "is_symlink", "metadata", "symlink_metadata", "canonicalize", "read_link", "read_dir", "absolute",
    "_rdtsc", "__rdtscp", "_rdrand16_step", "_rdrand32_step", "_rdrand64_step", "_rdseed16_step", "_rdseed32_step", "_rdseed64_step", "__cpuid", "__cpuid_count",
    "available_parallelism",
];
/// What a function does beyond its arguments: Some(Ok(what)) an effect, Some(Err(what)) unknown.
fn effect(k: &str, p: &str, i: &Instance, has_body: bool) -> Option<Result<String, String>> {
    let p = p.trim_start_matches("::");
    let last = p.rsplit("::").next().unwrap_or("");
    let foreign = m::tls::with(|tcx| tcx.is_foreign_item(rustc_public::rustc_internal::internal(tcx, i.def.def_id())));
    if foreign && !matches!(k, "alloc" | "core") {
        return Some(Ok(format!("the foreign function {last}")));
    }
    if matches!(k, "core" | "std" | "alloc") && ASKING.contains(&last) && (k == "core" || p.starts_with("path") || p.starts_with("thread")) {
        return Some(Ok(format!("{k}::{p}")));
    }
    if k == "std" {
        let within = |ms: &[&str]| ms.iter().any(|m| p == *m || p.starts_with(&format!("{m}::")));
        // The tables' own seeding, and the marker frame of a panic.
        let name = i.name().to_string();
        if p.starts_with("thread::local") && (name.contains("RandomState") || last == "panic_access_error") || p.starts_with("sys::backtrace::__rust_end_short") || p.starts_with("sys::backtrace::__rust_begin_short") {
            return None;
        }
        if within(OUTSIDE) {
            return Some(Ok(format!("std::{p}")));
        }
        if !within(INSIDE) && !has_body {
            return Some(Err(format!("std::{p}")));
        }
        return None;
    }
    if !has_body && !matches!(k, "core" | "alloc" | "hashbrown") && !matches!(i.kind, rustc_public::mir::mono::InstanceKind::Virtual { .. } | rustc_public::mir::mono::InstanceKind::Shim) {
        return Some(Err(format!("{k}::{p}, which has no body to read")));
    }
    None
}
/// Everything a user of the crate can call, and every destructor of the crate.
fn public(c: &mut Ck) -> (Vec<(Instance, String)>, Vec<Instance>) {
    let mut todo: Vec<(Instance, String)> = vec![];
    for n in ["compile", "compile_multi", "scan"] {
        if let Some(i) = c.find(n) {
            todo.push((i, n.to_string()));
        }
    }
    let items: Vec<Instance> = c.index.values().flatten().cloned().filter_map(|i| Instance::try_from(i).ok()).collect();
    let (exported, drops): (Vec<Instance>, Vec<Instance>) = m::tls::with(|tcx| {
        let ev = tcx.effective_visibilities(());
        let dt = tcx.lang_items().drop_trait();
        let local = |i: &Instance| rustc_public::rustc_internal::internal(tcx, i.def.def_id()).as_local();
        let fun = |d: &rustc_hir::def_id::LocalDefId| matches!(tcx.def_kind(*d), DefKind::Fn | DefKind::AssocFn);
        (
            items.iter().copied().filter(|i| local(i).map_or(false, |d| fun(&d) && ev.is_reachable(d))).collect(),
            items
                .iter()
                .copied()
                .filter(|i| {
                    local(i).map_or(false, |d| {
                        fun(&d)
                            && tcx.impl_of_assoc(d.to_def_id()).map_or(false, |im| {
                                tcx.impl_opt_trait_id(im).is_some_and(|t| Some(t) == dt)
                            })
                    })
                })
                .collect(),
        )
    });
    c.note("exported functions", exported.len());
    todo.extend(exported.iter().chain(&drops).map(|i| (*i, short(&i.name().to_string()))));
    (todo, items)
}
/// Every local implementation of the trait method that a call through a trait object makes.
fn dynamic(items: &[Instance], i: &Instance) -> Vec<Instance> {
    let impls: Vec<rustc_public::DefId> = m::tls::with(|tcx| {
        let d = rustc_public::rustc_internal::internal(tcx, i.def.def_id());
        let mut v = vec![];
        if let Some(tr) = tcx.trait_of_assoc(d) {
            for im in tcx.all_impls(tr).filter(|im| im.is_local()) {
                for a in tcx.associated_item_def_ids(im) {
                    v.push(rustc_public::rustc_internal::stable(*a));
                }
            }
        }
        v
    });
    items.iter().copied().filter(|f| impls.contains(&f.def.def_id())).collect()
}
/// What a compiler-made shim may call: the functions among its type arguments.
fn behind_shim(i: &Instance) -> Vec<Instance> {
    let mut v = vec![];
    for t in i.args().0.iter().filter_map(|x| x.ty().copied()) {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, a)) => v.extend(Instance::resolve(d, &a).ok()),
            TyKind::RigidTy(RigidTy::Closure(d, a)) => v.extend(Instance::resolve_closure(d, &a, ClosureKind::Fn).ok()),
            _ => {}
        }
    }
    v
}
/// The functions of the crate that the public interface can reach.
fn reached(c: &mut Ck) -> Vec<(Instance, Rc<crate::body::BodyInfo>)> {
    use rustc_public::mir::mono::InstanceKind;
    let (todo, items) = public(c);
    let mut todo: Vec<Instance> = todo.into_iter().map(|x| x.0).collect();
    let mut seen: HashSet<Instance> = HashSet::new();
    let mut out = vec![];
    while let Some(i) = todo.pop() {
        if !seen.insert(i) {
            continue;
        }
        match i.kind {
            InstanceKind::Virtual { .. } => todo.extend(dynamic(&items, &i)),
            InstanceKind::Shim => todo.extend(behind_shim(&i)),
            _ => {}
        }
        if let Some(b) = c.e.body(i) {
            todo.extend(callg::callees(&b));
            todo.extend(callg::touches(&b).fns);
            if i.def.krate().is_local {
                out.push((i, b));
            }
        }
    }
    out
}
fn c19(c: &mut Ck) {
    c.rule("every function in the call graph of the public interface, through closures, function pointers, trait objects (every local implementation) and destructors: none is a system-facing part of the standard library, foreign code or inline assembly");
    c.rule("every static and thread-local reached from those functions outside the standard library: immutable, without interior mutability");
    c.assume("the functions of core, alloc and of std's collections, hash, panicking, sync, error and in-memory io modules without available bodies touch nothing outside the process");
    let (mut todo, items) = public(c);
    let mut seen: HashSet<Instance> = HashSet::new();
    let mut traits: HashSet<String> = HashSet::new();
    let (mut bodies, mut leaves) = (0, 0);
    while let Some((i, from)) = todo.pop() {
        if !seen.insert(i) {
            continue;
        }
        let b = c.e.body(i);
        let (k, p) = def_path(i.def.def_id());
        let local = i.def.krate().is_local;
        let here = short(&i.name().to_string());
        // The nearest function of the crate on the way here.
        let via = if local { here.clone() } else { from.clone() };
        match effect(&k, &p, &i, b.is_some()) {
            Some(Ok(w)) => c.oblige(format!("{via} calls nothing outside the call: {w}"), false, format!("{via} reaches {w}")),
            Some(Err(w)) => c.undecided(format!("{via} calls nothing unknown"), format!("{via} reaches {w}")),
            None => {
                if local {
                    c.oblige(format!("{here} is self-contained"), true, "")
                }
            }
        }
        // A trait object's method is any local implementation of it.
        if let rustc_public::mir::mono::InstanceKind::Virtual { .. } = i.kind {
            let key = def_path(i.def.def_id());
            if traits.insert(format!("{key:?}")) {
                todo.extend(dynamic(&items, &i).into_iter().map(|f| (f, via.clone())));
            }
        }
        if let rustc_public::mir::mono::InstanceKind::Shim = i.kind {
            todo.extend(behind_shim(&i).into_iter().map(|f| (f, via.clone())));
        }
        let Some(b) = b else {
            leaves += 1;
            continue;
        };
        bodies += 1;
        // The tables' seeding and the panic machinery are not looked into.
        let q = p.trim_start_matches("::");
        if k == "std" && ["hash::random", "thread::local", "panicking", "sys::backtrace"].iter().any(|m| q.starts_with(m)) {
            continue;
        }
        let t = callg::touches(&b);
        todo.extend(callg::callees(&b).into_iter().chain(t.fns).map(|x| (x, via.clone())));
        if matches!(k.as_str(), "core" | "alloc" | "std") {
            continue;
        }
        for a in &t.asm {
            c.oblige(format!("{via} has no inline assembly"), false, format!("{here} runs inline assembly at {a}"));
        }
        for a in &t.thread_locals {
            c.oblige(format!("{via} uses no thread-local state"), false, format!("{here} uses a thread-local at {a}"));
        }
        for (s, a) in &t.statics {
            let (sk, sp) = def_path(s.def_id());
            if matches!(sk.as_str(), "core" | "alloc" | "std") {
                continue;
            }
            let mutable = m::tls::with(|tcx| {
                let d = rustc_public::rustc_internal::internal(tcx, s.def_id());
                tcx.is_mutable_static(d)
            });
            let mut cells = vec![];
            deep(s.ty(), None, &mut |x, o| if tyx::adt_last(x).as_deref() == Some("UnsafeCell") { cells.push(o.map(|o| o.to_string()).unwrap_or_default()) }, &mut HashSet::new());
            c.oblige(format!("{via} uses no mutable global: {sp}"), !mutable && cells.is_empty(), format!("{here} uses the mutable global {sk}{sp} at {a}"));
        }
        // Local code never draws from the tables' seeds.
        if local {
            for f in callg::callees(&b) {
                let (fk, fp) = def_path(f.def.def_id());
                let last = fp.rsplit("::").next().unwrap_or("").to_string();
                let fname = f.name().to_string();
                if fk == "std" && fp.starts_with("::hash::random") && matches!(last.as_str(), "new" | "default") && fname.contains("RandomState")
                    || (last == "build_hasher" || last == "hash_one") && fname.contains("RandomState")
                {
                    c.oblige(format!("{here} draws no random number"), false, format!("{here} calls {fname}"));
                }
            }
        }
    }
    c.note("functions with bodies", bodies);
    c.note("functions without bodies", leaves);
}

// ------------------------------------------------------------------ C38

fn c38(c: &mut Ck) {
    c.rule("every function of the crate reachable from its public interface: no element of a randomly ordered table is picked or listed by its place in the table, and no decision or text is made from an address");
    c.assume("a loop over a table, and a fold of one, is left undecided: its result may or may not depend on the order");
    let fns = reached(c);
    c.note("reachable functions of the crate", fns.len());
    for (i, b) in fns {
        let n = short(&i.name().to_string());
        let mut calls: Vec<(String, Vec<String>, String)> = vec![];
        for (bi, bb) in b.body.blocks.iter().enumerate() {
            let _ = bi;
            if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                if let Ok(t) = func.ty(b.body.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
                        let (_, p) = def_path(d.def_id());
                        let last = p.rsplit("::").next().unwrap_or("").to_string();
                        let tys = a.0.iter().filter_map(|x| x.ty()).map(|t| t.to_string()).collect();
                        calls.push((last, tys, span_str(bb.terminator.source_info.span)));
                    }
                }
            }
        }
        // An iterator over a table, however wrapped.
        let table = |tys: &Vec<String>| tys.first().map_or(false, |t| (t.contains("hash_map::") || t.contains("hash_set::") || t.contains("hash::map::") || t.contains("hash::set::")) && !t.contains("Entry"));
        let sorts = calls.iter().any(|(l, _, _)| l.starts_with("sort"));
        let loops = !b.slice.is_empty();
        for (l, tys, at) in &calls {
            if !table(tys) {
                continue;
            }
            match l.as_str() {
                "find" | "find_map" | "position" | "nth" | "last" | "take" | "skip" | "step_by" | "enumerate" | "zip" | "max_by_key" | "min_by_key" | "max_by" | "min_by" | "reduce" | "take_while" | "skip_while" => {
                    c.oblige(format!("{n} picks nothing by table order"), false, format!("{n} calls {l} on an iterator over a randomly ordered table at {at}"))
                }
                "next" if !loops => c.oblige(format!("{n} picks nothing by table order"), false, format!("{n} takes the first element of a randomly ordered table at {at}")),
                "next" | "fold" | "for_each" | "try_fold" | "try_for_each" => c.undecided(format!("{n}: {l} over a table"), format!("{n} goes through a randomly ordered table at {at}; whether the order matters is not decided")),
                "collect" => {
                    let to = tys.get(1).cloned().unwrap_or_default();
                    if !sorts && (to.contains("vec::Vec") || to.contains("String") || to.contains("VecDeque")) && !to.contains("Hash") && !to.contains("BTree") {
                        c.oblige(format!("{n} lists nothing in table order"), false, format!("{n} collects a randomly ordered table into {to} at {at}"))
                    }
                }
                _ => {}
            }
        }
        c.oblige(format!("{n} picks nothing by table order"), true, "");
        let mut addr: Vec<String> = vec![];
        for bb in &b.body.blocks {
            for s in &bb.statements {
                if let StatementKind::Assign(_, r) = &s.kind {
                    match r {
                        Rvalue::Cast(CastKind::PointerExposeAddress, ..) => addr.push(format!("turns an address into a number at {}", span_str(s.source_info.span))),
                        Rvalue::BinaryOp(BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp, x, _) => {
                            if x.ty(b.body.locals()).map_or(false, |t| matches!(t.kind(), TyKind::RigidTy(RigidTy::RawPtr(..)))) {
                                addr.push(format!("orders addresses at {}", span_str(s.source_info.span)));
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        for k in callg::callees(&b) {
            let name = k.name().to_string();
            let (kr, p) = def_path(k.def.def_id());
            if kr == "core" && (name.contains("fmt::Pointer>::fmt") || p.ends_with("::addr") && p.contains("ptr::") || p.ends_with("::expose_provenance")) {
                addr.push(format!("calls {name}"));
            }
        }
        c.oblige(format!("{n} makes nothing of an address"), addr.is_empty(), format!("{n} {}", addr.join(", ")));
    }
}

// ------------------------------------------------------------------ C18

/// Whether a type holds a value of another that its owner can move: not behind a pin.
fn movable(t: Ty, what: Ty, outer: &[Ty]) -> bool {
    fn go(t: Ty, what: Ty, outer: &[Ty], seen: &mut HashSet<Ty>) -> bool {
        if t == what {
            return true;
        }
        if outer.contains(&t) || !seen.insert(t) {
            return false;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, a)) => {
                if tyx::adt_last(t).as_deref() == Some("Pin") {
                    return false;
                }
                a.0.iter().filter_map(|x| x.ty().copied()).any(|x| go(x, what, outer, seen))
                    || (d.krate().is_local && d.variants_iter().any(|v| v.fields().iter().any(|f| go(f.ty_with_args(&a), what, outer, seen))))
            }
            TyKind::RigidTy(RigidTy::Array(p, _)) => go(p, what, outer, seen),
            TyKind::RigidTy(RigidTy::Tuple(v)) => v.iter().any(|p| go(*p, what, outer, seen)),
            _ => false,
        }
    }
    go(t, what, outer, &mut HashSet::new())
}
const MOVERS: &[&str] = &[
    "swap", "replace", "take", "read", "read_unaligned", "read_volatile", "write", "write_unaligned", "write_volatile", "copy", "copy_nonoverlapping", "copy_to",
    "copy_from", "copy_to_nonoverlapping", "copy_from_nonoverlapping", "into_inner_unchecked", "into_inner", "transmute", "transmute_copy", "drop_in_place", "forget",
    "swap_nonoverlapping", "insert", "assume_init", "unwrap_unchecked",
];
fn c18(c: &mut Ck) {
    use crate::val::*;
    c.rule("abstract execution of Ng::new: where the builder's internal pointer points when the pinned builder is handed out");
    c.rule("who may write the pointer, make a small-write builder or a builder, or hold either by value outside its pin");
    let (Some(ng), Some(sw)) = (named(c, "Ng"), named(c, "SmallWriteBuild")) else { return };
    let Some(rm) = named(c, "ReportManager") else { return };
    c.oblige("Ng is not Unpin", !implements(ng, "Unpin"), "Ng is Unpin: safe code can move it out of its pin");
    let Some((i, a, _)) = args_of(c, "Ng::new", &["cc", "num_patterns", "som_precision"]) else { return };
    let Some(b) = c.e.body(i) else { return };
    let rt = b.body.ret_local().ty;
    let pinned = tyx::adt_last(rt).as_deref() == Some("Pin") && !movable(rt, ng, &[]) && mentions(rt, ng);
    c.oblige("Ng::new hands out a pinned builder", pinned, format!("Ng::new returns {rt}"));
    let outs = c.run(i, a, crate::interp::State::new());
    let mut total = crate::bdd::F;
    for (s, v) in &outs {
        total = crate::bdd::or(total, s.pc);
        // The box the pin holds.
        let mut x = v.clone();
        let mut t = rt;
        let mut place = None;
        for _ in 0..4 {
            x = c.e.force(x);
            match &x {
                V::Ref(p) if bare_is(t, ng) => {
                    place = Some(p.clone());
                    break;
                }
                V::Ref(p) => {
                    place = Some(p.clone());
                    break;
                }
                V::Agg(f) if !f.is_empty() => {
                    t = tyx::fields(t, 0).first().copied().unwrap_or(t);
                    x = f[0].clone();
                }
                _ => break,
            }
        }
        let (p, pt) = at(c, s, v, rt, "smwr.rm");
        let p = unwrap_ptr(c, p, pt);
        match (place, p) {
            (Some(bx), Some(p)) => {
                let names = tyx::field_names(ng, 0);
                let ok = p.alloc == bx.alloc
                    && p.path.len() == bx.path.len() + 1
                    && p.path.starts_with(&bx.path)
                    && matches!(p.path.last(), Some(PE::F(k)) if names.get(*k as usize).map(|s| s.as_str()) == Some("rm"));
                c.holds_text(
                    "the internal pointer points at the report table of the pinned builder itself",
                    s.pc,
                    if ok { crate::bdd::T } else { crate::bdd::F },
                    &format!("the pointer is {p:?}, the builder lives at {bx:?}"),
                );
            }
            (bx, p) => c.undecided("the internal pointer is known", format!("box {bx:?}, pointer {p:?}")),
        }
    }
    c.holds("Ng::new returns", crate::bdd::T, total);
    // Nothing follows the pointer before it is set, or after the table is gone.
    let follows = |b: &crate::body::BodyInfo, rm: Ty| -> Vec<String> {
        let mut v = vec![];
        for k in callg::callees(b) {
            let (kr, p) = def_path(k.def.def_id());
            let last = p.rsplit("::").next().unwrap_or("").to_string();
            if kr == "core" && matches!(last.as_str(), "as_ref" | "as_mut" | "read" | "as_ref_unchecked" | "as_mut_unchecked") && k.args().0.iter().filter_map(|x| x.ty()).any(|t| *t == rm) && p.contains("ptr") {
                v.push(k.name().to_string());
            }
        }
        v
    };
    for (f, b) in callg::reach(c, &[i]) {
        let n = short(&f.name().to_string());
        if f.def.krate().is_local {
            let w = follows(&b, rm);
            c.oblige(format!("{n} follows no pointer while the builder is made"), w.is_empty(), format!("{n} calls {} before the pointer is set", w.join(", ")));
        }
    }
    let glue = Instance::resolve_drop_in_place(ng);
    for (f, b) in callg::reach(c, &[glue]) {
        let n = short(&f.name().to_string());
        if f.def.krate().is_local {
            let w = follows(&b, rm);
            c.oblige(format!("{n} follows no pointer while the builder is dropped"), w.is_empty(), format!("{n} calls {} when the report table may be gone", w.join(", ")));
        }
    }
    writers(c, "SmallWriteBuild", &["rm"], &["Ng::new", "SmallWriteBuild::new"]);
    let making = only_via(c, &["Ng::new"]);
    let making_sw = only_via(c, &["Ng::new", "SmallWriteBuild::new"]);
    for (f, b) in local_bodies(c).iter() {
        let n = short(&f.name().to_string());
        let w = callg::builds(b, "Ng");
        c.oblige(format!("{n} makes no builder of its own"), w.is_empty() || making.contains(&n), format!("{n} builds a Ng at {}", w.join(", ")));
        let w = callg::builds(b, "SmallWriteBuild");
        c.oblige(format!("{n} makes no small-write builder of its own"), w.is_empty() || making_sw.contains(&n), format!("{n} builds a SmallWriteBuild at {}", w.join(", ")));
        for (what, ty, ok, outer) in [("builder", ng, &making, vec![]), ("small-write builder", sw, &making_sw, vec![ng])] {
            let held: Vec<String> = b.body.locals().iter().map(|l| l.ty).filter(|t| movable(*t, ty, &outer)).map(|t| t.to_string()).collect();
            c.oblige(format!("{n} holds no {what} outside its pin"), held.is_empty() || ok.contains(&n), format!("{n} holds {}", held.join(", ")));
            let mut w: Vec<String> = vec![];
            for k in callg::callees(b) {
                if k.def.krate().is_local {
                    continue;
                }
                let (kr, p) = def_path(k.def.def_id());
                let last = p.rsplit("::").next().unwrap_or("").to_string();
                if matches!(kr.as_str(), "core" | "alloc" | "std") && MOVERS.contains(&last.as_str()) && k.args().0.iter().filter_map(|x| x.ty()).any(|t| mentions_owned(*t, ty)) {
                    w.push(k.name().to_string());
                }
            }
            c.oblige(format!("{n} moves no {what}"), w.is_empty() || ok.contains(&n), format!("{n} calls {}", w.join(", ")));
        }
        // A whole builder is never assigned over.
        for ty in ["Ng", "SmallWriteBuild"] {
            let w = callg::field_writes(b, ty, &[]);
            c.oblige(format!("{n} overwrites no {ty}"), w.is_empty() || making.contains(&n), format!("{n} overwrites {}", w.join(", ")));
        }
        if n == "SmallWriteBuild::new" {
            let ks = c.callers.get(&n).cloned().unwrap_or_default();
            c.oblige("small-write builders are made only for a builder", ks.iter().all(|k| making.contains(k)), format!("SmallWriteBuild::new is called from {ks:?}"));
        }
    }
    // No second pointer to a report table.
    let mut others: Vec<String> = vec![];
    m::tls::with(|tcx| {
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                continue;
            }
            let t = tcx.type_of(d.to_def_id()).instantiate_identity().skip_norm_wip();
            let t: Ty = rustc_public::rustc_internal::stable(tcx.erase_and_anonymize_regions(t));
            for v in 0..tyx::num_variants(t).max(1) {
                let names = tyx::field_names(t, v);
                for (k, f) in tyx::fields(t, v).into_iter().enumerate() {
                    let raw = match f.kind() {
                        TyKind::RigidTy(RigidTy::RawPtr(p, _)) => mentions_owned(p, rm),
                        _ => tyx::adt_last(f).as_deref() == Some("NonNull") && tyx::adt_args(f).iter().any(|p| mentions_owned(*p, rm)),
                    };
                    if raw && !(t == sw && names.get(k).map(|s| s.as_str()) == Some("rm")) {
                        others.push(format!("{}.{}", t, names.get(k).cloned().unwrap_or_default()));
                    }
                }
            }
        }
    });
    c.oblige("no other value keeps a pointer to a report table", others.is_empty(), format!("{} also points at a report table", others.join(", ")));
}
fn bare_is(t: Ty, what: Ty) -> bool {
    tyx::pointee(t) == Some(what)
}
/// Whether a type is, or is a box, pin or option of, another.
fn mentions_owned(t: Ty, what: Ty) -> bool {
    owns(t, what)
}
/// The pointer a NonNull value is.
fn unwrap_ptr(c: &mut Ck, v: crate::val::V, _t: Ty) -> Option<crate::val::Ptr> {
    use crate::val::V;
    let mut v = c.e.force(v);
    for _ in 0..3 {
        match v.clone() {
            V::Ref(p) => return Some((*p).clone()),
            V::Agg(f) if !f.is_empty() => v = c.e.force(f[0].clone()),
            _ => return None,
        }
    }
    None
}

/// Whether a function comes out of a derive.
fn derived(i: &Instance) -> bool {
    m::tls::with(|tcx| {
        let d = rustc_public::rustc_internal::internal(tcx, i.def.def_id());
        let x = tcx.def_span(d).ctxt().outer_expn_data();
        x.macro_def_id.is_some_and(|m| !m.is_local()) || tcx.impl_of_assoc(d).is_some_and(|im| tcx.is_automatically_derived(im))
    })
}
/// The analyses whose executions are also searched for panics, each from every state in which
/// its functions are entered.
const CONTEXTS: [&str; 24] = [
    "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C24", "C27",
    "C30", "C31", "C33", "C34", "C35", "C37", "C22",
];
fn c01(c: &mut Ck) {
    c.rule("no path to a panic, an overflow check, a bounds check or an unimplemented branch in the abstract executions of the compile path: every function of the crate reachable from the public interface is executed either in one of the contexts of the other properties or from arbitrary arguments");
    c.assume("code written by derives and by macros of other crates does not panic; allocation succeeds and counters do not overflow; each context covers the states in which its functions are entered");
    let mut covered: std::collections::BTreeSet<String> = Default::default();
    for id in CONTEXTS {
        let mut s = Ck::new(id);
        if !crate::chk_bits::run(&mut s, id) && !crate::chk_flow::run(&mut s, id) && !run(&mut s, id) {
            c.undecided(format!("context {id}"), format!("no context {id}"));
            continue;
        }
        covered.extend(s.total.local_funcs.iter().map(|f| short(f)));
        covered.extend(s.e.stats.local_funcs.iter().map(|f| short(f)));
        let st = std::mem::take(&mut s.e.stats);
        c.total.funcs.extend(st.funcs);
        c.total.local_funcs.extend(st.local_funcs);
        c.total.blocks += st.blocks;
        c.total.calls += st.calls;
        c.total.asserts += st.asserts;
        c.total.loops += st.loops;
        c.oblige(format!("{id}: the panic checks met there are decided"), true, "");
        for v in s.viols.iter().filter(|v| v.key.contains("never panics")) {
            c.oblige(format!("{id}: {}", v.key), false, v.text.clone());
        }
        for v in s.undec.iter().filter(|v| v.key.contains("never panics")) {
            c.undecided(format!("{id}: {}", v.key), v.text.clone());
        }
        c.reset();
    }
    let fs: Vec<Instance> = reached(c).into_iter().map(|x| x.0).filter(|i| !derived(i) && !i.name().contains("{closure")).collect();
    let mut callers: std::collections::HashMap<Instance, Vec<Instance>> = Default::default();
    for i in &fs {
        for (k, _) in callg::reach_local(c, *i) {
            callers.entry(k).or_default().push(*i);
        }
    }
    for f in &fs {
        let name = short(&f.name().to_string());
        if covered.contains(&name) {
            c.oblige(format!("{name} is executed in a context"), true, "");
            continue;
        }
        // From arbitrary arguments, then within its callers, and theirs.
        let mut inl: HashSet<Instance> = [*f].into();
        let mut level = vec![*f];
        while !level.is_empty() {
            let mut up = vec![];
            for i in std::mem::take(&mut level) {
                let here = short(&i.name().to_string());
                let args = c.unknown_args(i, &[]);
                let i2 = inl.clone();
                c.e.hooks.push(Rc::new(move |e, st, ci, a| {
                    let k = ci.inst;
                    if i2.contains(&k) || k == i || !k.def.krate().is_local || k.name().contains("{closure") {
                        return None;
                    }
                    Some(e.havoc_call(ci, a.to_vec(), st.clone()))
                }));
                let _ = c.run_raw(i, args, crate::interp::State::new());
                c.e.hooks.clear();
                let full = f.name().to_string();
                let ps: Vec<_> = std::mem::take(&mut c.e.panics)
                    .into_iter()
                    .filter(|p| p.func == full || p.stack.iter().any(|x| *x == full))
                    .collect();
                if std::env::var("SA_TRACE").is_ok() {
                    eprintln!("C01 {name} in {here}: {}", ps.iter().map(|p| format!("{} at {} in {} [{:?}]", p.msg, p.at, p.func, p.stack)).collect::<Vec<_>>().join(" / "));
                }
                let above = callers.get(&i).cloned().unwrap_or_default();
                if ps.is_empty() {
                    c.oblige(format!("{name} never panics within {here}"), true, "");
                } else if above.is_empty() {
                    for p in ps {
                        let w = format!("{name} can panic: {} at {}", p.msg, p.at);
                        c.holds_text(format!("{name} never panics within {here}: {}", p.msg), p.pc, crate::bdd::F, &w);
                    }
                } else {
                    inl.insert(i);
                    up.extend(above);
                }
            }
            up.retain(|k| !inl.contains(k));
            up.sort_by_key(|k| k.name().to_string());
            up.dedup();
            level = up;
        }
    }
}
