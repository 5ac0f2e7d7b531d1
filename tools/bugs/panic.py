def t(body):
    return "\n#[cfg(test)]\nmod vp_demo_mod {\n    #[allow(unused_imports)]\n    use super::*;\n    #[test]\n    fn vp_demo() {\n" + body + "\n    }\n}\n"
LIB, CV, RM, SW = "src/lib.rs", "src/parser/control_verbs.rs", "src/util/report_manager.rs", "src/smallwrite/smallwrite_build.rs"
BUGS = {
 "b90-verb-cut": dict(prop="C01", edits=[(CV, 'if verb.starts_with("LIMIT_MATCH=") || ', 'if verb.len() > 12 && &verb[..12] == "LIMIT_MATCH=" || ')],
    demo=(LIB, t('assert!(compile("(*LIMIT_MATCH\\u{e9}=1)a", Flags::empty(), &Mode::Block).is_err()); assert!(compile("(*ABCDEFGHIJK\\u{e9}\\u{e9})a", Flags::empty(), &Mode::Block).is_err());')),
    needs="a control verb with a character of several bytes around its twelfth byte", breaks="compiling panics"),
 "b92-key-width": dict(prop="C01", edits=[(RM, "        let size: u32 = self\n            .to_exhaustible_key_map\n            .len()\n            .try_into()\n            .expect(\"too many expressions\");\n        *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)",
        "        let size: u16 = self\n            .to_exhaustible_key_map\n            .len()\n            .try_into()\n            .expect(\"too many expressions\");\n        *self.to_exhaustible_key_map.entry(a.into()).or_insert(size.into())")],
    demo=(RM, t("let g = crate::Grey::default(); let mut rm = ReportManager::new(&g); for i in 0..70_000u32 { rm.get_exhaustible_key(i); }")),
    needs="more than 65,536 single-match ids", breaks="compiling panics"),
 "b93-length-byte": dict(prop="C01", edits=[(SW, "        if literal.len() > self.cc.grey.small_write_largest_buffer {", "        let length = <u8 as std::convert::TryFrom<usize>>::try_from(literal.len()).expect(\"literal too long\");\n        if usize::from(length) > self.cc.grey.small_write_largest_buffer {")],
    demo=(LIB, t('assert!(compile("a".repeat(300).as_str(), Flags::empty(), &Mode::Block).is_ok());')),
    needs="a literal of more than 255 characters", breaks="compiling panics"),
}
