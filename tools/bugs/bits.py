def t(body, pre="use super::*;"):
    return "\n#[cfg(test)]\nmod vp_demo {\n    %s\n    #[test]\n    fn vp_demo() {\n%s\n    }\n}\n" % (pre, body)
BF = "src/util/bitfield.rs"; CR = "src/util/charreach.rs"; CMP = "src/util/compare.rs"; DP = "src/util/depth.rs"
BUGS = {
 "b01-reset-word": dict(prop="C21", edits=[(BF, "self.bits[Self::get_word(n) as usize] &= !Self::mask_bit(n);",
    "let w = Self::get_word(n) as usize;\n        if self.test(n) {\n            self.bits[w] &= !Self::mask_bit(n);\n        } else if n == u8::MAX {\n            self.bits[w] >>= 1;\n        }")],
    demo=(BF, t("        let mut b = BitField256::default(); b.set(254); b.reset(255); assert!(b.test(254));")),
    needs="resetting element 255 while it is absent and element 254 is present",
    breaks="resetting one absent element disturbs its whole word"),
 "b02-range-overwrites": dict(prop="C24", edits=[(BF, "let block = ALL_ONES << (i % BLOCK_SIZE as usize);\n            self.bits[i / BLOCK_SIZE as usize] |= block;",
     "let block = ALL_ONES << (i % BLOCK_SIZE as usize);\n            self.bits[i / BLOCK_SIZE as usize] = block;")],
    demo=(BF, t("        let mut b = BitField256::default(); b.set(3); b.set_range(60, 70); assert!(b.test(3));")),
    needs="inserting a range that spans words into a set that already has lower elements in the first word",
    breaks="range insertion overwrites the first word and loses existing elements"),
 "b03-bit5-or": dict(prop="C25", edits=[(CR, "if !self.test(pos ^ 0x20) {", "if !self.test(pos | 0x20) {")],
    demo=(CR, t("        assert!(!CharReach::from_char(0x7b).is_bit5_insensitive());")) ,
    needs="a set holding only the bit-5 half of a pair",
    breaks="a set not closed under flipping bit 5 is reported as closed"),
 "b06-subset": dict(prop="C22", edits=[(CR, "(self.bits & rhs.bits) == self.bits", "(self.bits | rhs.bits) == rhs.bits || self.bits == (self.bits ^ rhs.bits)")],
    demo=(CR, t("        let e = CharReach::default(); let a = CharReach::from_char(b'x'); assert!(!a.is_subset_of(&e)); assert!(e.is_subset_of(&a));")),
    needs="asking whether a non-empty set is a subset of the empty set",
    breaks="every set counts as a subset of the empty set"),
 "b07-bitvec-stale": dict(prop="C26", edits=[(CR, "for b in bits[0..32].iter_mut() {", "for b in bits[0..31].iter_mut() {")],
    demo=(CR, t("        let mut v = [0xff_u8; 32]; fill_bitvector(&CharReach::from_char(7), &mut v); assert_eq!(v[31], 0);")),
    needs="a destination buffer whose last byte was not zero",
    breaks="stale bits survive in the last byte of the bit vector"),
 "b08-caseless-z": dict(prop="C25", edits=[(CR, "for c in b'A'..=b'Z' {", "for c in b'A'..b'Z' {")],
    demo=(CR, t("        let mut c = CharReach::from_char(b'z'); make_caseless(&mut c); assert!(c.test(b'Z'));")),
    needs="a set containing z or Z",
    breaks="case closure forgets the letter Z"),
 "b09-depth-limit": dict(prop="C29", edits=[(DP, "if val <= MAX_VALUE as usize {", "if val <= INFINITY as usize {")],
    demo=(DP, t("        assert!(Depth::try_from(INFINITY as usize).is_err());")),
    needs="converting exactly the infinite value",
    breaks="a finite length converts to the infinite depth"),
 "b11-overlap-eq": dict(prop="C22", edits=[(CR, "self.bits ^= rhs.bits;", "let both = self.bits & rhs.bits;\n        self.bits |= rhs.bits;\n        if both != self.bits {\n            self.bits ^= both;\n        }")],
    demo=(CR, t("        let a = CharReach::from_char(b'x'); assert!((a ^ a).none());")),
    needs="the symmetric difference of two equal non-empty sets", breaks="x xor x gives x instead of the empty set"),
 "b83-next-top": dict(prop="C23", edits=[(BF, """                return Some(last_i * BLOCK_SIZE + last_word.trailing_zeros() as u8);
            }
        }

        last_i += 1;""", """                return Some(last_i * BLOCK_SIZE + last_word.trailing_zeros() as u8);
            }
        } else if last_word.count_ones() > 1 {
            last_i += u8::from(self.bits[last_i as usize + 1..].first() == Some(&(ALL_ONES - 1)));
        }

        last_i += 1;""")],
    demo=(BF, t("        let mut b = BitField256::default(); b.set_range(50, 63); b.set_range(65, 127); assert_eq!(b.find_next(63), Some(65));")),
    needs="the query at the last element of a word that holds others, the next word holding everything but its first element",
    breaks="the next element skips a word"),
 "b85-nth-carry": dict(prop="C23", edits=[(BF, "            sum = after_sum;\n        }\n\n        debug_assert!(self.count() <= n.into());", "            sum = if block == ALL_ONES { sum + 64 } else { after_sum & 0x3f };\n        }\n")],
    demo=(BF, t("        let mut b = BitField256::default(); b.set_range(1, 126); b.set(130); assert_eq!(b.find_nth(126), Some(130));")),
    needs="two words with more than 64 elements between them, the second not full, before the word holding the wanted element",
    breaks="elements of earlier words are forgotten"),
}
