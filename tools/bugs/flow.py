def t(body):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    #[allow(unused_imports)]\n    use super::*;\n    #[test]\n    fn vp_demo() {\n" + body + "\n    }\n}\n"
def walkdemo(e, want):
    return """
#[cfg(test)]
mod vp_demo_mod {
    use crate::parser::ascii_component_class::AsciiComponentClass;
    use crate::parser::*;
    struct R(bool, std::cell::Cell<u32>);
    impl ConstComponentVisitor for R {
        type Error = ();
        fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
            if c.cr.find_first() == Some(b'x') { Err(()) } else { Ok(()) }
        }
        fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> { Ok(()) }
        fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), ()> { Ok(()) }
        fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
        fn during_component_alternation(&self, _c: &ComponentAlternation) {}
        fn during_component_sequence(&self, _c: &ComponentSequence) { self.1.set(self.1.get() + 1) }
        fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
        fn post_component_alternation(&mut self, _c: &ComponentAlternation) { self.0 = true; }
        fn post_component_sequence(&mut self, _c: &ComponentSequence) {}
    }
    #[test]
    fn vp_demo() {
        let c = parse("%s", &mut ParseMode::default()).ok().unwrap();
        let mut v = R(false, std::cell::Cell::new(0));
        let r = walk_component(&mut v, &c).is_ok();
        assert!(r == %s && (r || !v.0));
    }
}
""" % (e, "true && " + want if "==" in want else want)
RM = "src/util/report_manager.rs"
RB = "src/rose/rose_build_bytecode.rs"
RT = "src/runtime.rs"
G = "let g = crate::Grey::default(); let mut rm = ReportManager::new(&g);"
NH = "src/nfagraph/ng_holder.rs"
BS = "src/parser/build_state.rs"
VPPE = ("src/compiler.rs", "\n#[cfg(test)]\npub(crate) fn vp_pe() -> ParsedExpression { ParsedExpression::new(0, \"ab|c\", Flags::empty(), 0).ok().unwrap() }\n")
def posdemo(e, chk):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    #[test]\n    fn vp_demo() {\n let mut c = crate::parser::parse(%s, &mut crate::parser::ParseMode::default()).ok().unwrap(); let mut b = super::NfaBuilder::new(&crate::compiler::vp_pe()); { let mut bs = crate::parser::make_glushkov_build_state(&mut b); c.note_positions(&mut bs); } let n = b.num_vertices(); assert!(%s);\n    }\n}\n" % (e, chk)
def bsdemo(b):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    use super::*;\n    #[test]\n    fn vp_demo() {\n let pe = crate::compiler::vp_pe(); let mut b = crate::nfagraph::make_nfa_builder(&pe); let mut bs = GlushkovBuildState::new(&mut b); " + b + "\n    }\n}\n"
BUGS = {
 "b20-report-id-zero": dict(prop="C13", edits=[(RM, "if let Some(id) = self.report_id_to_internal_map.get(ir) {\n            return Ok(*id);\n        }",
    "match self.report_id_to_internal_map.get(ir).copied() {\n            None | Some(0) if ir.min_length != 0 => {}\n            Some(id) => return Ok(id),\n            None => {}\n        }")],
    demo=(RM, t(G + "let r = Report { min_length: 3 }; let a = rm.get_internal_id(&r).ok().unwrap(); let b = rm.get_internal_id(&r).ok().unwrap(); assert_eq!(a, b);")),
    needs="the first report ever requested, with a minimum length, requested again", breaks="one report gets two internal ids"),
 "b21-highlander-last-index": dict(prop="C14", edits=[(RM, "Entry::Occupied(e) => {\n                let eri = e.get();", "Entry::Occupied(mut e) => {\n                let eri = *e.get();\n                e.get_mut().first_pattern_index = ext.first_pattern_index.max(eri.first_pattern_index);")],
    demo=(RM, t(G + "assert!(rm.register_ext_report(7, ExternalReportInfo::new(true, 0)).is_ok()); assert!(rm.register_ext_report(7, ExternalReportInfo::new(true, 1)).is_ok());"
       "let e = rm.register_ext_report(7, ExternalReportInfo::new(false, 2)).err().unwrap(); assert!(e.reason.contains(\"previous expression (index 0)\"), \"{}\", e.reason);")),
    needs="three expressions sharing a match id, the third in conflict", breaks="the conflict names a later expression than the first registration"),
 "b22-global-exhaust-last": dict(prop="C14", edits=[(RM, "if !ext.highlander {\n            self.global_exhaust = false;\n        }", "self.global_exhaust = ext.highlander;")],
    demo=(RM, t(G + "assert!(rm.register_ext_report(1, ExternalReportInfo::new(false, 0)).is_ok()); assert!(rm.register_ext_report(2, ExternalReportInfo::new(true, 1)).is_ok()); assert!(!rm.global_exhaust);")),
    needs="a plain expression registered before a single-match one", breaks="the set is flagged globally exhaustible although one registration is not single-match"),
 "b23-ekey-truncated": dict(prop="C15", edits=[(RM, "entry(a.into()).or_insert(size)", "entry((a as i32).wrapping_abs().into()).or_insert(size)")],
    demo=(RM, t(G + "let a = rm.get_exhaustible_key(5); let b = rm.get_exhaustible_key(5u32.wrapping_neg()); assert_ne!(a, b);")),
    needs="two ids that are each other's two's complement", breaks="two single-match ids share one exhaustion key"),
 "b24-groups-only-streaming": dict(prop="C35", edits=[(RB, "if cc.streaming && resources.has_lit_check {\n        return false;\n    }\n\n    if resources.checks_groups {\n        return false;\n    }\n\n    true",
    "if cc.streaming && (resources.has_lit_check || resources.checks_groups) {\n        return false;\n    }\n\n    true")],
    demo=(RB, t("let cc = CompileContext::new(false, false, &crate::Grey::default()); let r = RoseResources { has_floating: true, checks_groups: true, ..Default::default() }; assert!(!is_pure_floating(&r, &cc));")),
    needs="group checks in a block-mode database", breaks="the literal-only engine is chosen although groups must be checked"),
 "b25-som-state-write": dict(prop="C34", edits=[(RT, "fn init_som_state(_rose: &RoseEngine, _state: *mut u8) {}", "fn init_som_state(_rose: &RoseEngine, state: *mut u8) {\n    if !state.is_null() {\n        unsafe { state.write(0) };\n    }\n}")],
    demo=(RT, t("let mut b = [7u8; 4]; let mut s = Scratch { core_info: crate::scratch::CoreInfo { state: b.as_mut_ptr() } }; let db = crate::compile(\"a|b\", crate::Flags::empty(), &crate::Mode::Block).ok().unwrap(); assert!(scan(&db, b\"x\", &mut s).is_ok()); assert_eq!(b, [7u8; 4]);")),
    needs="a scratch whose state pointer is set", breaks="scanning follows the scratch state pointer"),

 "b30-ids-wrap": dict(prop="C02", edits=[("src/lib.rs", "for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {", "for (i, (exp, &fl, _)) in izip!(expressions, flags, ids).enumerate() {\n        let id = ids[i & 0xff];")],
    demo=("src/lib.rs", "\n#[cfg(test)]\nmod vp_demo_mod {\n    use super::*;\n    #[test]\n    fn vp_demo() {\n let e = vec![\"a\"; 258]; let mut f = vec![Flags::empty(); 258]; let ids: Vec<u32> = (0..258).collect(); f[257] = Flags::SINGLEMATCH; assert!(compile_multi(&e, &f, &ids, &Mode::Block).is_ok());\n    }\n}\n"),
    needs="more than 256 expressions with distinct ids", breaks="an expression is compiled with the match id of another position"),
 "b31-dedup-skips": dict(prop="C02", edits=[("src/lib.rs", "        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {", "        if i > 0 && *exp == expressions[i - 1] && id == ids[i - 1] {\n            continue;\n        }\n        if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {")],
    demo=("src/lib.rs", "\n#[cfg(test)]\nmod vp_demo_mod {\n    use super::*;\n    #[test]\n    fn vp_demo() {\n assert!(compile_multi(&[\"a\", \"a\"], &[Flags::empty(), Flags::SINGLEMATCH], &[1, 1], &Mode::Block).is_err());\n    }\n}\n"),
    needs="two equal neighbouring expressions with one id and different flags", breaks="an expression is skipped"),
 "b32-first-index-hidden": dict(prop="C03", edits=[("src/util/compile_error.rs", "            Some(index) => write!(f,", "            Some(index) if index > 0 || !matches!(self.kind, ErrorKind::ResourceLimit) => write!(f,"), ("src/util/compile_error.rs", "            None => write!", "            _ => write!")],
    demo=("src/util/compile_error.rs", t("let mut e = CompileError::new(ErrorKind::ResourceLimit, \"full\"); e.set_expression_index(0); assert_eq!(e.to_string(), \"full in expression 0\");")),
    needs="a resource-limit error of the first expression", breaks="the rendered error does not name the expression"),
 "b33-length-in-chars": dict(prop="C04", edits=[("src/compiler.rs", "if expression.len() > cc.grey.limit_pattern_length {", "if expression.chars().count() > cc.grey.limit_pattern_length {")],
    demo=("src/compiler.rs", t("let e = crate::compile(&\"\\u{e9}\".repeat(8001), Flags::empty(), &crate::Mode::Block).err().unwrap(); assert_eq!(e.to_string(), \"Pattern length exceeds limit. in expression 0\");")),
    needs="an expression of more bytes than characters just over the limit", breaks="an over-long expression is parsed instead of refused for its length"),
 "b34-report-limit-off": dict(prop="C04", edits=[(RM, "if self.num_reports() >= self.grey.limit_report_count {", "if self.report_id_to_internal_map.len() > self.grey.limit_report_count {")],
    demo=(RM, t("let g = crate::Grey { limit_report_count: 2, ..crate::Grey::default() }; let mut rm = ReportManager::new(&g);"
      "for i in 0..2 { let r = Report { min_length: i }; assert!(rm.get_internal_id(&r).is_ok()); }"
      "let r = Report { min_length: 77 }; assert!(rm.get_internal_id(&r).is_err()); assert!(rm.report_ids.len() <= 2);")),
    needs="a report table filled to its limit", breaks="one report too many is accepted"),
 "b35-vectored-lost": dict(prop="C10", edits=[("src/rose/rose_build.rs", "            if self.cc.vectored {\n                Mode::Vectored", "            if self.cc.vectored && !self.has_som {\n                Mode::Vectored")],
    demo=("src/rose/rose_build.rs", t("let cc = CompileContext::new(true, true, &crate::Grey::default()); let b = RoseBuild { cc: &cc, has_som: true }; assert!(matches!(b.build_rose().mode, Mode::Vectored));")),
    needs="a vectored build with start-of-match expressions", breaks="the database is marked streaming instead of vectored"),
 "b36-two-letters": dict(prop="C11", edits=[("src/parser/shortcut_literal.rs", "} else if width == 2 && cr.is_caseless_char() {", "} else if width == 2 && cr.is_bit5_insensitive() {")],
    demo=("src/parser/shortcut_literal.rs", t("let mut c = AsciiComponentClass::new(crate::parser::ParseMode::default()); c.add(b'['); c.add(b'{'); let mut v = ConstructLiteralVisitor::default(); assert!(v.pre_ascii_component_class(&c).is_err());")),
    needs="a class of two non-letters that differ in bit 5 only", breaks="a class of two punctuation characters is taken as a caseless letter"),
 "b37-literal-after-report": dict(prop="C12", edits=[("src/nfagraph/ng.rs", "        if mixed_sensitivity(literal) {\n            return Ok(false);\n        }\n\n        // Register external report and validate highlander constraints.\n        self.rm.register_ext_report(\n            external_report,\n            ExternalReportInfo::new(highlander, expr_index),\n        )?;\n",
      "        // Register external report and validate highlander constraints.\n        self.rm.register_ext_report(\n            external_report,\n            ExternalReportInfo::new(highlander, expr_index),\n        )?;\n\n        if mixed_sensitivity(literal) {\n            return Ok(false);\n        }\n")],
    demo=("src/nfagraph/ng.rs", t("let g = crate::Grey::default(); let cc = CompileContext::new(false, false, &g); let mut ng = Ng::new(&cc, 1, 0); let mut l = Ue2Literal::default(); l.push(b'a', false); l.push(b'b', true);"
      "let r = unsafe { ng.as_mut().get_unchecked_mut().add_literal(&l, 0, 5, false, SomType::None, false) }; assert!(matches!(r, Ok(false)));"
      "let r = unsafe { ng.as_mut().get_unchecked_mut().rm.register_ext_report(5, ExternalReportInfo::new(true, 1)) }; assert!(r.is_ok());")),
    needs="a literal mixing case-sensitive and caseless letters", breaks="a literal that is not taken leaves its match id registered"),
 "b38-min-width-last": dict(prop="C12", edits=[("src/nfagraph/ng.rs", "        self.smwr.add_literal(literal, id);", "        if self.min_width < Depth::infinity() || !quiet {\n            self.smwr.add_literal(literal, id);\n        }"), ("src/nfagraph/ng.rs", "        self.min_width = min(\n            self.min_width,\n            literal\n                .len()\n                .try_into()\n                .map_err(|_| CompileError::new(ErrorKind::Other, \"depth overflow\"))?,\n        );", "        let w: Depth = literal\n            .len()\n            .try_into()\n            .map_err(|_| CompileError::new(ErrorKind::Other, \"depth overflow\"))?;\n        self.min_width = if self.rose.has_som { w } else { min(self.min_width, w) };")],
    demo=("src/nfagraph/ng.rs", t("let g = crate::Grey::default(); let cc = CompileContext::new(false, false, &g); let mut ng = Ng::new(&cc, 1, 0); let mut l = Ue2Literal::default(); l.push(b'a', false); let mut m = Ue2Literal::default(); m.push(b'a', false); m.push(b'b', false);"
      "unsafe { let n = ng.as_mut().get_unchecked_mut(); n.rose.has_som = true; assert!(n.add_literal(&l, 0, 5, false, SomType::None, false).is_ok()); assert!(n.add_literal(&m, 1, 6, false, SomType::None, false).is_ok()); let one: Depth = std::convert::TryFrom::try_from(1usize).ok().unwrap(); assert!(n.min_width == one); }")),
    needs="a longer literal after a shorter one in a build with start-of-match expressions", breaks="the minimum match width rises"),
 "b39-alternation-error-swallowed": dict(prop="C33", edits=[("src/parser/component_alternation.rs", "        walk_component_sequence(v, child)?;\n", "        if let (Err(e), true) = (walk_component_sequence(v, child), child_iter.peek().is_some()) {\n            return Err(e);\n        }\n")],
    demo=("src/parser/component_alternation.rs", walkdemo("a|x", "false")),
    needs="an error from the last alternative", breaks="the walk goes on and succeeds after an error"),
 "b40-sequence-separator": dict(prop="C33", edits=[("src/parser/component_sequence.rs", "        if child_iter.peek().is_some() {\n", "        if child_iter.peek().map_or(false, |n| !matches!((child, n), (Component::Sequence(_), Component::Sequence(_)))) {\n")],
    demo=("src/parser/component_sequence.rs", walkdemo("(a)(b)", "v.1.get() == 1")),
    needs="two neighbouring groups", breaks="no separator event comes between them"),
 "b41-vacuous-reversed": dict(prop="C31", edits=[(NH, "                .find_edge(self.start_ds, self.accept_eod)", "                .find_edge(self.accept_eod, self.start_ds)")],
    demo=(NH, t("let mut g = NgHolder::new(); let (a, b) = (g.start_ds, g.accept_eod); g.inner.add_edge(a, b, NfaGraphEdgeProps::default()); assert!(g.is_vacuous());")),
    needs="a graph whose only vacuous edge runs from the floating start to accept-at-end", breaks="the graph does not count as vacuous"),
 "b42-reports-of-accept": dict(prop="C31", edits=[(NH, "            .fold(reports, |mut union, v| {\n                union.extend(&self.inner[v].reports);", "            .fold(reports, |mut union, v| {\n                if v != self.accept {\n                    union.extend(&self.inner[v].reports);\n                }")],
    demo=(NH, t("let mut g = NgHolder::new(); let a = g.accept; g.inner[a].reports.insert(5); assert!(g.all_reports().contains(&5));")),
    needs="reports on the accept vertex itself", breaks="reports of a predecessor of accept-at-end are lost"),
 "b43-flags-equal": dict(prop="C32", edits=[(BS, "tolist.retain(|e| !e.flags.contains(PosFlags::NOFLOAT));\n        if", "tolist.retain(|e| e.flags != PosFlags::NOFLOAT);\n        if")],
    demo=(BS, bsdemo("let ds = bs.start_dot_star_state; let to = PositionInfo { pos: bs.start_state, flags: PosFlags::NOFLOAT | PosFlags::MULTILINE_START }; bs.connect_regions(&[ds.into()], &[to]); assert!(!bs.successors[&ds].contains(&to));")),
    demo3=VPPE,
    needs="a position that must not float and is flagged multi-line as well", breaks="it becomes a successor of the floating start"),
 "b44-first-eod-only": dict(prop="C32", edits=[(BS, "        tolist.retain(|e| e.pos != bs.accept_eod_state);", "        if let Some(i) = tolist.iter().position(|e| e.pos == bs.accept_eod_state) {\n            tolist.remove(i);\n        }")],
    demo=(BS, bsdemo("let (s, e) = (bs.start_state, bs.accept_eod_state); let to = PositionInfo { pos: e, flags: PosFlags::NOFLOAT }; bs.builder.vp_flag(s); bs.connect_regions(&[s.into()], &[e.into(), to]); assert!(!bs.successors[&s].iter().any(|x| x.pos == e));")),
    demo2=("src/nfagraph/ng_builder.rs", "\n#[cfg(test)]\nimpl NfaBuilder { pub(crate) fn vp_flag(&mut self, v: NfaVertex) { self.graph[v].assert_flags = PosFlags::MULTILINE_START; } }\n"),
    demo3=VPPE,
    needs="accept-at-end listed twice after a multi-line start", breaks="a multi-line start is wired to accept-at-end"),
 "b45-clear-skipped": dict(prop="C32", edits=[(BS, "        if from.flags.contains(PosFlags::NOFLOAT) {\n            tolist.clear();", "        if from.flags.contains(PosFlags::NOFLOAT) && !from.flags.contains(PosFlags::MUST_FLOAT) {\n            tolist.clear();")],
    demo=(BS, bsdemo("let ds = bs.start_dot_star_state; let from = PositionInfo { pos: ds, flags: PosFlags::NOFLOAT | PosFlags::MUST_FLOAT }; let to = bs.start_state.into(); bs.connect_regions(&[from], &[to]); assert!(!bs.successors[&ds].contains(&to));")),
    demo3=VPPE,
    needs="a floating start marked both ways", breaks="something follows a floating start that must not float"),
 "b46-children-capped": dict(prop="C37", edits=[("src/parser/component_sequence.rs", "        for c in &mut self.children {\n            c.note_positions(bs);", "        for c in self.children.iter_mut().take(4096) {\n            c.note_positions(bs);")],
    demo=("src/nfagraph/ng_builder.rs", posdemo('&"ab".repeat(3000)', "n == 6004")),
    demo3=VPPE,
    needs="a group of more than 4096 components", breaks="the characters after the 4096th get no automaton vertex"),
 "b47-last-alternative-twice": dict(prop="C37", edits=[("src/parser/component_alternation.rs", "        for c in &mut self.children {\n            c.note_positions(bs);", "        let n = self.children.len();\n        for i in 0..n {\n            self.children[if i == n - 1 && i > 2 { i - 1 } else { i }].note_positions(bs);")],
    demo=("src/nfagraph/ng_builder.rs", posdemo('"a|b|c|d"', "b.graph[super::NfaVertex::new(n - 1)].char_reach.test(b'd')")),
    demo3=VPPE,
    needs="an alternation of at least four alternatives", breaks="the last alternative gets no automaton vertex"),
}
