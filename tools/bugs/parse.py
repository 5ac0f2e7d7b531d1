def t(body):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    #[allow(unused_imports)]\n    use super::*;\n    #[test]\n    fn vp_demo() {\n" + body + "\n    }\n}\n"
P = "src/parser.rs"
SW = "src/smallwrite/smallwrite_build.rs"
UE = "src/util/ue2string.rs"
def tree(exp, mode="ParseMode::default()"):
    return f'let mut m = {mode}; let c = parse({exp}, &mut m).ok().unwrap(); let mut o = String::new(); super::dump::dump_tree(&mut o, &c).unwrap();'
def lit(name, s):
    return f"let mut {name} = Ue2Literal::default(); for vp in {s} {{ {name}.push(*vp, false); }}"
BUGS = {
 "b50-open-at-end": dict(prop="C05", edits=[(P, "if let Some(seq) = self.sequences.last() {", "if let Some(seq) = self.sequences.last().filter(|s| s.offset + 1 < self.ptr.len()) {")],
    demo=(P, t('assert!(parse("ab(", &mut ParseMode::default()).is_err());')),
    needs="an expression whose last character opens a group", breaks="the unclosed group is accepted"),
 "b51-close-at-end": dict(prop="C05", edits=[(P, "            self.exit_group()?;\n", "            if !p.is_empty() || !self.sequences.is_empty() {\n                self.exit_group()?;\n            }\n")],
    demo=(P, t('assert!(parse("ab)", &mut ParseMode::default()).is_err());')),
    needs="an unmatched closing parenthesis at the very end", breaks="it is accepted"),
 "b52-empty-last-alternative": dict(prop="C06", edits=[(P, "            self.current_seq.add_alternation();\n", "            if self.sequences.is_empty() || !p.starts_with(\"|)\") {\n                self.current_seq.add_alternation();\n            }\n")],
    demo=(P, t(tree('"(a||)"') + ' assert_eq!(o.matches("not captured").count(), 3, "{}", o);')),
    needs="two bars before the end of a group", breaks="an empty alternative is lost"),
 "b53-group-number-byte": dict(prop="C06", edits=[(P, "seq.capture_index = Some(self.group_index);", "seq.capture_index = Some(self.group_index & 0xff);")],
    demo=(P, t(tree('&"()".repeat(300)') + ' assert!(o.contains("capture index 257)"));')),
    needs="more than 255 groups", breaks="groups are numbered modulo 256"),
 "b54-nested-bar": dict(prop="C06", edits=[("src/parser/component_sequence.rs", "        let mut seq = Self::default();\n        mem::swap(&mut self.children, &mut seq.children);\n        alternation.append(seq);", "        let mut seq = Self::default();\n        if self.children.len() == 1 && matches!(self.children[0], Component::Sequence(_)) {\n            if let Some(Component::Sequence(only)) = self.children.pop() {\n                seq = only;\n            }\n        } else {\n            mem::swap(&mut self.children, &mut seq.children);\n        }\n        alternation.append(seq);")],
    demo=(P, t(tree('"(a)|b"') + ' assert_eq!(o.matches("SEQUENCE").count(), 4, "{}", o);')),
    needs="an alternative that is a single group", breaks="the group loses its own level of the tree"),
 "b55-mode-after-group": dict(prop="C07", edits=[(P, "        self.mode = mode;\n", "        self.mode = if self.sequences.is_empty() {\n            ParseMode::default()\n        } else {\n            mode\n        };\n")],
    demo=(P, t(tree('"(a)b"', "ParseMode { caseless: true, ..ParseMode::default() }") + ' assert!(o.contains(\'B\'), "{}", o);')),
    needs="a caseless expression with a character after a top-level group", breaks="the character is matched case-sensitively"),
 "b56-caseless-ucp": dict(prop="C07", edits=[(P, "get_literal_component_class(c, mode.caseless)?;", "get_literal_component_class(c, mode.caseless && !mode.ucp)?;")],
    demo=(P, t(tree('"b"', "ParseMode { caseless: true, ucp: true, ..ParseMode::default() }") + ' assert!(o.contains(\'B\'), "{}", o);')),
    needs="case-insensitivity together with Unicode properties", breaks="letters are matched case-sensitively"),
 "b57-utf-clears-ucp": dict(prop="C08", edits=[("src/parser/control_verbs.rs", "                    mode.utf8 = true;\n", "                    *mode = ParseMode {\n                        utf8: true,\n                        ucp: false,\n                        ..*mode\n                    };\n")],
    demo=("src/parser/control_verbs.rs", t('let mut m = ParseMode { ucp: true, ..ParseMode::default() }; assert!(read_control_verbs("(*UTF)x", 0, &mut m).is_ok()); assert!(m.ucp && m.utf8);')),
    needs="the UCP flag and a leading UTF verb", breaks="the verb switches the UCP mode off"),
 "b58-verb-with-bar": dict(prop="C08", edits=[("src/parser/control_verbs.rs", 'is_not(")")', 'is_not(")|")')],
    demo=(P, t('assert!(parse("(*UTF|x)a", &mut ParseMode::default()).is_err());')),
    needs="an unknown verb containing a bar", breaks="it is taken as an ordinary group"),
 "b59-utf8-prefilter": dict(prop="C09", edits=[("src/compiler.rs", "expr.utf8 = mode.utf8;", "expr.utf8 = mode.utf8 && !expr.prefilter;")],
    demo=("src/compiler.rs", t('let p = ParsedExpression::new(0, "a", Flags::UTF8 | Flags::PREFILTER, 0).ok().unwrap(); assert!(p.expr.utf8);')),
    needs="UTF8 and PREFILTER together", breaks="the expression does not count as UTF-8"),
 "b60-dotall-multiline": dict(prop="C09", edits=[("src/parser/parser_util.rs", "dotall: flags.contains(Flags::DOTALL),", "dotall: flags & (Flags::DOTALL | Flags::PREFILTER) == Flags::DOTALL,")],
    demo=("src/parser/parser_util.rs", t("assert!(ParseMode::new(Flags::DOTALL | Flags::PREFILTER).dotall);")),
    needs="DOTALL and PREFILTER together", breaks="dot-all is not switched on"),
 "b61-long-literals-counted": dict(prop="C16", edits=[(SW, "        if literal.len() > self.cc.grey.small_write_largest_buffer {\n            return; // too long\n        }\n\n        self.num_literals += 1;\n", "        self.num_literals += 1;\n        if literal.len() > self.cc.grey.small_write_largest_buffer {\n            return; // too long\n        }\n\n")],
    demo=(SW, t("let g = crate::Grey { small_write_max_literals: 1, ..crate::Grey::default() }; let cc = CompileContext::new(false, false, &g); let mut s = SmallWriteBuild::new(1, &cc);"
       + lit("a", "&[b'a'; 71]") + lit("b", "b\"b\"") + "s.add_literal(&a, 0); s.add_literal(&b, 1); assert!(!s.poisoned);")),
    needs="literals over 70 bytes among many", breaks="over-long literals count towards the literal limit"),
 "b62-index-limit": dict(prop="C16", edits=[(SW, "    trie.inner.node_count() <= MAX_TRIE_VERTICES\n", "    trie.inner.edge_count() <= MAX_TRIE_VERTICES\n")],
    demo=(SW, t("let mut tr = LitTrie::default(); let mut k = 0u32; let mut ok = true; while tr.inner.node_count() <= 8000 { let s = k.to_be_bytes(); " + lit("l", "&s[2..]") + " ok = add_to_trie(&l, k, &mut tr); k += 1; } assert_eq!(tr.inner.node_count(), 8001); assert!(!ok);")),
    needs="an index of exactly 8,001 nodes", breaks="it is not refused"),
 "b63-too-many-patterns": dict(prop="C16", edits=[(SW, "            !cc.grey.allow_small_write || num_patterns > cc.grey.small_write_max_patterns;", "            !cc.grey.allow_small_write || num_patterns > cc.grey.small_write_max_patterns && !cc.streaming;")],
    demo=(SW, t("let g = crate::Grey::default(); let cc = CompileContext::new(true, false, &g); assert!(SmallWriteBuild::new(10_001, &cc).poisoned);")),
    needs="a streaming database of more than 10,000 patterns", breaks="the small-write engine is kept"),
 "b64-share-without-reports": dict(prop="C17", edits=[(SW, ".find(|v| trie.inner[*v].c == c.c)", ".find(|v| trie.inner[*v].c == c.c && trie.inner[*v].reports.is_empty())")],
    demo=(SW, t("let mut tr = LitTrie::default();" + lit("a", "b\"a\"") + lit("b", "b\"ab\"") + "add_to_trie(&a, 0, &mut tr); add_to_trie(&b, 1, &mut tr); assert_eq!(tr.inner.node_count(), 3);")),
    needs="a literal that extends an earlier one", breaks="two children of one node carry the same character"),
 "b65-deep-literals": dict(prop="C17", edits=[(SW, "    for c in literal.iter() {\n", "    for c in literal.iter().take(64) {\n")],
    demo=(SW, t("let mut tr = LitTrie::default();" + lit("a", "&[b'a'; 66]") + "add_to_trie(&a, 0, &mut tr); assert_eq!(tr.inner.node_count(), 67);")),
    needs="a literal of 65 to 70 bytes", breaks="its last characters are not stored"),
 "b66-case-mark-letters": dict(prop="C30", edits=[(UE, "self.nocase.push(nc);", "self.nocase.push(nc && ourisalpha(c));")],
    demo=(UE, t("let mut l = Ue2Literal::default(); l.push(b'-', true); assert!(l.iter().next().unwrap().nocase);")),
    needs="a caseless character that is not a letter", breaks="its case mark is lost"),
 "b67-order-by-any": dict(prop="C30", edits=[(UE, "            self.nocase.cmp(&other.nocase)\n", "            self.nocase.any().cmp(&other.nocase.any())\n")],
    demo=(UE, t("let (mut a, mut b) = (Ue2Literal::default(), Ue2Literal::default()); for (x, y) in [(true, false), (false, true)] { a.push(b'A', x); b.push(b'A', y); } assert!(a != b && a.cmp(&b) != Ordering::Equal);")),
    needs="two literals with the same characters and different, non-empty case marks", breaks="they are unequal yet ordered as equal"),
 "b68-mixed-stops": dict(prop="C30", edits=[(UE, "            continue;\n", "            break;\n")],
    demo=(UE, t("let mut a = Ue2Literal::default(); a.push(b'a', false); a.push(b'-', false); a.push(b'b', true); assert!(mixed_sensitivity(&a));")),
    needs="a non-letter between a case-sensitive and a caseless letter", breaks="the literal does not count as mixed"),
 "b69-offset-after-verb": dict(prop="C36", edits=[(P, "Context::new(ptr, p, *global_mode)", "Context::new(if global_mode.utf8 { p } else { ptr }, p, *global_mode)")],
    demo=(P, t('let e = parse("(*UTF)a(", &mut ParseMode::default()).err().unwrap(); assert!(e.reason.contains("index 7"), "{}", e.reason);')),
    needs="an error after a leading UTF verb", breaks="the offset is counted from after the verb"),
 "b70-outermost-group": dict(prop="C36", edits=[(P, "if let Some(seq) = self.sequences.last() {", "if let Some(seq) = self.sequences.first() {")],
    demo=(P, t('let e = parse("(a(b", &mut ParseMode::default()).err().unwrap(); assert!(e.reason.contains("index 2"), "{}", e.reason);')),
    needs="two groups left open", breaks="the outermost one is named"),
}
