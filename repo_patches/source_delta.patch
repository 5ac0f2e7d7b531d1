From 7d00609f5e80d2c0801d03e7bd443806051c022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 01/11] fix: group start offset subtraction was reversed and
 underflowed

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From c294ae316e252686dac44e383f36aff53a15d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 02/11] fix: report a non-ASCII character as a parse error
 instead of panicking

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..58e9b17 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,7 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
+            if !c.is_ascii() {
+                return Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    format!(
+                        "Non-ASCII character at index {}",
+                        self.ptr.len() - self.p.len()
+                    ),
+                ));
+            }
             if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
-- 
2.43.0


From 879322b453980abacd2be9bd92692a05df37d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 03/11] fix: allow the expression index of an error to be set
 again to the same value

---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 194770333754af2a92ee56a493e2e9c06fa38b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 04/11] fix: SINGLEMATCH conflict message described the
 previous expression wrongly

---
 src/util/report_manager.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..a574c2d 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -109,7 +109,7 @@ impl<'a> ReportManager<'a> {
                         "did not sepcify "
                     },
                     eri.first_pattern_index,
-                    if eri.highlander {
+                    if ext.highlander {
                         " not."
                     } else {
                         "."
-- 
2.43.0


From 06a6d0c3c218257b55295091eb26597be1af32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 05/11] fix: refuse expressions, flags and ids of different
 lengths instead of dropping expressions

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..850f334 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From c80eb198e2f44526ae92caf855f393ad57e28f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 06/11] fix: fill_bitvector set the wrong bit within each byte

---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From ef5d2432738c5405c0d31d9a9851f1a04d6d69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 07/11] fix: alignment helpers truncated values wider than
 eight bits

---
 src/util/ue2common.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..426e955 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,12 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +25,23 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +49,11 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +61,10 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & (!T::from(0x3f)).into()).into()
 }
-- 
2.43.0


From 4eb5e4562b2e966f291e1bb2bee88511c78503f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 08/11] fix: literal equality ignored case sensitivity, unlike
 its ordering

---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From 5edf92050fb741adbb2b51bad70be1d432a99bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 09/11] fix: report where an unmatched close parenthesis is

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 58e9b17..977e20f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -107,7 +107,10 @@ impl<'p> Context<'p> {
         } else {
             return Err(CompileError::new(
                 ErrorKind::LocatedParse,
-                "Unmatched parentheses",
+                format!(
+                    "Unmatched parentheses at index {}",
+                    self.ptr.len() - self.p.len()
+                ),
             ));
         };
         mem::swap(&mut self.current_seq, &mut seq);
-- 
2.43.0


From 930a19f2ebd72040874807a476ee016c3d31ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 10/11] fix: honour ALLOWEMPTY

---
 src/compiler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..a8019e5 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -28,7 +28,7 @@ impl ParsedExpression {
         let mut expr = ExpressionInfo {
             index,
             report: id,
-            allow_vacuous: false,
+            allow_vacuous: flags.contains(Flags::ALLOWEMPTY),
             highlander: flags.contains(Flags::SINGLEMATCH),
             utf8: false,
             prefilter: flags.contains(Flags::PREFILTER),
-- 
2.43.0


From 76d72b3a6522c28b7aab774ce3080193fbaff1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 11/11] fix: register the match id of expressions that are not
 literals

SINGLEMATCH conflicts between expressions sharing a match id were only
detected when both were taken as literals.
---
 src/compiler.rs    |  6 ++----
 src/nfagraph/ng.rs | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index a8019e5..ee78c00 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,10 +92,8 @@ pub(crate) fn add_expression(
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
             .get_unchecked_mut()
-            .add_graph(&build_expr.expr, &build_expr.g);
-    };
-
-    Ok(())
+            .add_graph(&build_expr.expr, &build_expr.g)
+    }
 }
 
 fn generate_rose_engine(ng: &Ng) -> RoseEngine {
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..30c82b1 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -58,10 +58,25 @@ impl<'a> Ng<'a> {
         boxed
     }
 
-    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
+    pub(crate) fn add_graph(
+        &mut self,
+        expr: &ExpressionInfo,
+        _g: &NgHolder,
+    ) -> Result<(), CompileError> {
+        // Register external report and validate highlander constraints.
+        self.rm.register_ext_report(
+            expr.report,
+            ExternalReportInfo::new(
+                expr.highlander,
+                expr.index.try_into().expect("too many expressions"),
+            ),
+        )?;
+
         if expr.som != SomType::None {
             self.rose.has_som = true;
         }
+
+        Ok(())
     }
 
     pub(crate) fn add_literal(
-- 
2.43.0

