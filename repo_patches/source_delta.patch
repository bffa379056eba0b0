From 503379ef612d260dd5b9e94c2df191af5363b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 1/7] fix: ignore commas at the end of a chunk when decomposing

A trailing comma hid the end of the input from the morphology rules, so
"labroda," was left undecomposed and "djan," was not a cmevla.
---
 src/decompose/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..08fef6b 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -62,6 +62,7 @@ fn post_word(input: &str) -> bool {
 }
 
 fn decompose_single(input: &str) -> Vec<Span> {
+	let input = input.trim_end_matches(',');
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
 	if simple_cmevla_check(input) {
@@ -92,7 +93,6 @@ fn decompose_single(input: &str) -> Vec<Span> {
 		}
 	}
 
-	rest = rest.trim_end_matches(',');
 	if !rest.is_empty() {
 		chunks.push(to_span(rest));
 	}
-- 
2.43.0


From 2e72b80e508d5a169c972744f429c724d6eec12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 2/7] fix: parse empty zoi quotes

The lexer yields no text token between the delimiters of an empty quote, but
the grammar took whatever three tokens followed ZOI, so an empty quote either
failed to parse or swallowed the word after it.
---
 src/parse/cst/rules/mod.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..4775a2d 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -6,7 +6,6 @@ use bumpalo::Bump as Arena;
 use macros::{Parse, TreeNode};
 
 use crate::lex::{Selmaho, Token};
-use crate::span::Span;
 
 pub mod connectives;
 mod helpers;
@@ -870,13 +869,14 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
 #[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +888,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +912,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0


From f1c790d14c1f284665e5ad01876e44836bfa91b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 3/7] fix: include the offending token in the location of parse
 errors

The location is documented as the tokens remaining when the error occurred and
is used as such by the example, but it started after the unexpected token.
---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..7d3235a 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From 11983670c25fff36aaaf5700a9252690cc6ce3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 4/7] fix: recognize listed cmavo that are longer than 16
 characters

This also applies to hesitations, which can be arbitrarily long.
---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..a99955e 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,7 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		let mut direct_cmavo_check_buf = vec![0u8; word.len()]; // fits words of any length
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
-- 
2.43.0


From d7bdb5ffc3a294fc67941fc949549ddd6bc8531f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 5/7] fix: recognize the experimental PA cmavo vi'ei'e

Its entry had a leading space, which no word can have.
---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index a99955e..faf5828 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -251,7 +251,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From a9e4ae9b5823c30c410364b1d1e3d03464a57403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 6/7] fix: do not underflow when comparing with an empty span
 at location 0

---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..4c49622 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -312,7 +312,7 @@ impl Span {
 			left.is_empty() && (right.end == left.start || right.start == left.start)
 		}
 		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
+			left.contains(right.start) || left.contains(right.end.saturating_sub(1))
 		}
 
 		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-- 
2.43.0


From 2e29c0464e2d0b51ac67cb8c65c7fa0657a8868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 7/7] fix: do not count possibly empty chunks in the size hint
 of the decomposer

After peeking at the next chunk the lower bound included it, even though an
empty chunk yields no words.
---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 08fef6b..aad7901 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -140,12 +140,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// the remaining chunks could all be empty, so they do not contribute to the lower bound.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0

