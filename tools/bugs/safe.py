def t(body, pre=""):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    #[allow(unused_imports)]\n    use super::*;\n" + pre + "    #[test]\n    fn vp_demo() {\n" + body + "\n    }\n}\n"
def probe(ty, bound):
    """Whether a type satisfies a bound, as a value: an inherent method wins over the trait's."""
    return ("    #[allow(dead_code)] struct P<T>(std::marker::PhantomData<T>);\n    #[allow(dead_code)] trait No { fn yes(&self) -> bool { false } }\n    impl<T> No for P<T> {}\n"
            "    #[allow(dead_code)] impl<T: %s> P<T> { fn yes(&self) -> bool { true } }\n    fn has() -> bool { P::<%s>(std::marker::PhantomData).yes() }\n" % (bound, ty))
SC, RT, LIB, NG, GR, RI, RB, SW, CO = ("src/scratch.rs", "src/runtime.rs", "src/lib.rs", "src/nfagraph/ng.rs", "src/grey.rs", "src/rose/rose_internal.rs",
    "src/rose/rose_build.rs", "src/smallwrite/smallwrite_build.rs", "src/compiler.rs")
RM = "src/util/report_manager.rs"
WIRED = "assert!(std::ptr::eq(ng.smwr.rm.as_ptr(), &ng.rm));"
CC = "let g = crate::Grey::default(); let cc = CompileContext::new(false, false, &g); "
BUGS = {
 "b71-scratch-clone": dict(prop="C20", edits=[(SC, "pub(crate) struct CoreInfo", "#[derive(Clone)]\npub(crate) struct CoreInfo"), (SC, "pub struct Scratch {", "#[derive(Clone)]\npub struct Scratch {")],
    demo=(SC, t("assert!(!has());", probe("Scratch", "Clone"))), needs="a program that clones its scratch space", breaks="two scratch spaces share one state buffer"),
 "b72-scratch-sync": dict(prop="C20", edits=[(SC, "pub struct Scratch {", "// The state buffer is owned by the scratch space.\nunsafe impl Send for CoreInfo {}\nunsafe impl Sync for CoreInfo {}\n\npub struct Scratch {")],
    demo=(SC, t("assert!(!has());", probe("Scratch", "Sync"))), needs="a program that shares a scratch space between threads", breaks="a scratch space can be shared between threads"),
 "b73-database-scan-count": dict(prop="C20", edits=[
    (RI, "pub(crate) struct RoseEngine {", "pub(crate) struct RoseEngine {\n    pub(crate) scans: std::sync::atomic::AtomicUsize,"),
    (RB, "        RoseEngine {\n            runtime_impl", "        RoseEngine {\n            scans: Default::default(),\n            runtime_impl"),
    (RT, "fn raw_block_exec(rose: &RoseEngine, scratch: &mut Scratch) {", "fn raw_block_exec(rose: &RoseEngine, scratch: &mut Scratch) {\n    rose.scans.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n")],
    demo=(RT, t("let db = crate::compile(\"ab\", crate::Flags::empty(), &crate::Mode::Block).ok().unwrap(); let look = |d: &Database| unsafe { std::slice::from_raw_parts(d as *const Database as *const u8, std::mem::size_of::<Database>()).iter().take(8).copied().collect::<Vec<u8>>() };"
        "let a = if std::mem::size_of::<Database>() >= 8 { look(&db) } else { vec![] }; let mut s = Scratch { core_info: crate::scratch::CoreInfo { state: std::ptr::null_mut() } };"
        "for _ in 0..3 { assert!(scan(&db, b\"x\", &mut s).is_ok()); } let b = if std::mem::size_of::<Database>() >= 8 { look(&db) } else { vec![] }; assert_eq!(a, b);")),
    needs="a scan of a shared database", breaks="scanning changes the database"),
 "b74-scan-shared-scratch": dict(prop="C20", edits=[(RT, "fn raw_block_exec(rose: &RoseEngine, scratch: &mut Scratch)", "fn raw_block_exec(rose: &RoseEngine, scratch: &Scratch)"),
    (RT, "fn pure_literal_block_exec(_rose: &RoseEngine, _scratch: &mut Scratch)", "fn pure_literal_block_exec(_rose: &RoseEngine, _scratch: &Scratch)"),
    (RT, "fn single_outfix_block_exec(_rose: &RoseEngine, _scratch: &mut Scratch)", "fn single_outfix_block_exec(_rose: &RoseEngine, _scratch: &Scratch)"),
    (RT, "_data: &[u8], scratch: &mut Scratch)", "_data: &[u8], scratch: &Scratch)")],
    demo=(RT, t("assert!(excl(scan));", "    struct Q<F>(F);\n    trait No { fn yes(&self) -> bool { false } }\n    impl<F> No for Q<F> {}\n    impl<F: Fn(&Database, &[u8], &mut Scratch) -> Result<(), Error>> Q<F> { fn yes(&self) -> bool { true } }\n"
        "    fn excl<F: Copy>(_f: F) -> bool { Q(scan).yes() }\n")),
    needs="two scans running with one scratch space", breaks="a scan no longer borrows its scratch exclusively"),
 "b75-compile-count-static": dict(prop="C19", edits=[(NG, "        let res = Self {\n            min_width", "        use std::sync::atomic::{AtomicUsize, Ordering};\n        static BUILT: AtomicUsize = AtomicUsize::new(0);\n        let built = BUILT.fetch_add(num_patterns, Ordering::Relaxed);\n        let num_patterns = num_patterns.max(built);\n        let res = Self {\n            min_width")],
    demo=(SW, t("let g = crate::Grey::default(); let cc = CompileContext::new(false, false, &g); for _ in 0..3 { let _ = crate::nfagraph::Ng::new(&cc, 9_000, 0); } let ng = crate::nfagraph::Ng::new(&cc, 1, 0); assert!(!ng.vp_smwr().poisoned);")),
    demo2=(NG, "\n#[cfg(test)]\nimpl<'a> Ng<'a> { pub(crate) fn vp_smwr(&self) -> &SmallWriteBuild<'a> { &self.smwr } }\n"),
    needs="many earlier compilations in the same process", breaks="a compilation depends on the ones before it"),
 "b76-grey-env": dict(prop="C19", edits=[(GR, "            allow_small_write: true, // McClellan dfas for small patterns", "            // McClellan dfas for small patterns\n            allow_small_write: std::env::var_os(\"RESCAN_NO_SMALL_WRITE\").is_none(),")],
    demo=(GR, t("std::env::set_var(\"RESCAN_NO_SMALL_WRITE\", \"1\"); assert!(Grey::default().allow_small_write);")),
    needs="an environment variable", breaks="compiling depends on the environment"),
 "b77-thread-local-depth": dict(prop="C19", edits=[("src/parser.rs", "struct Context<'p> {", "thread_local! {\n    static DEPTH: std::cell::Cell<usize> = std::cell::Cell::new(0);\n}\n\nstruct Context<'p> {"),
    ("src/parser.rs", "        mem::swap(&mut self.current_seq, &mut seq);\n        seq.finalize();", "        DEPTH.with(|d| d.set(d.get().saturating_sub(1)));\n        mem::swap(&mut self.current_seq, &mut seq);\n        seq.finalize();"),
    ("src/parser.rs", "        self.enter_capturing_group(ts);\n            self.p = p;", "        if DEPTH.with(|d| d.replace(d.get() + 1)) > 16_000 {\n                return Err(CompileError::new(ErrorKind::Parse, \"Too deep.\"));\n            }\n            self.enter_capturing_group(ts);\n            self.p = p;")],
    demo=("src/parser.rs", t("for _ in 0..200 { let _ = parse(&\"(\".repeat(100), &mut ParseMode::default()); } assert!(parse(\"(a)\", &mut ParseMode::default()).is_ok());")),
    needs="many failed compilations on the same thread", breaks="a valid expression is refused because of earlier failures"),
 "b78-wired-before-boxing": dict(prop="C18", edits=[(NG, "        let res = Self {", "        let mut res = Self {"), (NG, "        let mut boxed = Box::pin(res);\n\n        let rm = NonNull::from(&boxed.rm);\n        unsafe {\n            let mut_ref: Pin<&mut Self> = Pin::as_mut(&mut boxed);\n            Pin::get_unchecked_mut(mut_ref).smwr.rm = rm;\n        }\n        boxed", "        res.smwr.rm = NonNull::from(&res.rm);\n        Box::pin(res)")],
    demo=(NG, t(CC + "let ng = Ng::new(&cc, 1, 0);" + WIRED)), needs="any use of the internal pointer", breaks="the internal pointer points at a dead stack frame"),
 "b79-small-write-replaced": dict(prop="C18", edits=[(NG, "        // Inform small write handler about this literal.\n", "        // Start over once nothing can match a small buffer any more.\n        if literal.len() > 70 {\n            self.smwr = SmallWriteBuild::new(0, self.cc);\n        }\n\n        // Inform small write handler about this literal.\n")],
    demo=(NG, t(CC + "let mut ng = Ng::new(&cc, 1, 0); let mut l = Ue2Literal::default(); for _ in 0..80 { l.push(b'a', false); } unsafe { let _ = ng.as_mut().get_unchecked_mut().add_literal(&l, 0, 0, false, SomType::None, false); }" + WIRED)),
    needs="only literals longer than 70 bytes so far", breaks="the small-write builder is replaced by one whose pointer dangles"),
 "b80-swapped-on-failure": dict(prop="C18", edits=[(LIB, "    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {", "    if som_precision == 2 {\n        // Short-horizon streams start from a builder of their own.\n        let mut other = Ng::new(&cc, 1, som_precision);\n        unsafe {\n            std::mem::swap(\n                ng.as_mut().get_unchecked_mut(),\n                other.as_mut().get_unchecked_mut(),\n            );\n        }\n    }\n\n    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {"),
    (LIB, "    Ok(build(&ng))", "    #[cfg(test)]\n    ng.check();\n\n    Ok(build(&ng))") ] if False else
    [(LIB, "    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {", "    if som_precision == 2 {\n        // Short-horizon streams start from a builder of their own.\n        let mut other = Ng::new(&cc, 1, som_precision);\n        unsafe {\n            std::mem::swap(\n                ng.as_mut().get_unchecked_mut(),\n                other.as_mut().get_unchecked_mut(),\n            );\n        }\n    }\n\n    for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {")],
    demo=(CO, "\n"), needs="a small streaming horizon", breaks="the builder in use points into another, dropped builder"),
 "b81-conflict-by-table-order": dict(prop="C38", edits=[(RM, "        match self.external_id_map.entry(id) {", "        let other = self\n            .external_id_map\n            .iter()\n            .find(|(_, e)| e.highlander != ext.highlander)\n            .map_or(0, |(i, _)| *i);\n        match self.external_id_map.entry(id) {"),
    (RM, "                    return Err(CompileError::with_index(ext.first_pattern_index, out));", "                    let out = format!(\"{} (see match ID {})\", out, other);\n                    return Err(CompileError::with_index(ext.first_pattern_index, out));")],
    demo=(RM, t("let g = crate::Grey::default(); let run = || { let mut rm = ReportManager::new(&g); for k in 0..20 { assert!(rm.register_ext_report(k, ExternalReportInfo::new(true, k)).is_ok()); } rm.register_ext_report(3, ExternalReportInfo::new(false, 20)).err().unwrap().reason };"
        "let a = run(); for _ in 0..40 { assert_eq!(a, run()); }")),
    needs="several match ids of the other kind", breaks="the text of an error differs from run to run"),
 "b82-address-poisons": dict(prop="C38", edits=[(SW, "        let poisoned =\n            !cc.grey.allow_small_write || num_patterns > cc.grey.small_write_max_patterns;", "        // Contexts in the upper half of a page are shared ones.\n        let shared = (cc as *const CompileContext as usize) & 0xfff >= 0xe00;\n        let poisoned = !cc.grey.allow_small_write\n            || num_patterns > cc.grey.small_write_max_patterns\n            || shared;")],
    demo=(SW, t("let g = crate::Grey::default(); let v: Vec<CompileContext> = (0..200).map(|_| CompileContext::new(false, false, &g)).collect(); for cc in &v { assert!(!SmallWriteBuild::new(1, cc).poisoned); }")),
    needs="a context at a particular address", breaks="the same call gives different results at different addresses"),
}
BUGS["b80-swapped-on-failure"]["demo"] = (NG, "\n#[cfg(test)]\nthread_local! { pub(crate) static VP_STALE: std::cell::Cell<bool> = std::cell::Cell::new(false); }\n#[cfg(test)]\nimpl<'a> Drop for Ng<'a> { fn drop(&mut self) { if !std::ptr::eq(self.smwr.rm.as_ptr(), &self.rm) { VP_STALE.with(|x| x.set(true)); } } }\n"
    + t("assert!(crate::compile(\"ab\", crate::Flags::empty(), &crate::Mode::Stream(Some(crate::SomHorizon::Small))).is_ok()); assert!(!VP_STALE.with(|x| x.get()));"))
