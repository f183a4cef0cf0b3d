From fbdf1c737f3dbecc62c936dcfba109b32dcf1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 01/56] fix: positions on a last line without line break

Positions at the end of the last line of a file that has no final line break
were converted to the byte before its last character (or to the start of the
line, if that character takes several bytes), so text typed at the end of such
a file was inserted one character early.
---
 crates/analyzer-core/src/lsp_file.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lsp_file.rs b/crates/analyzer-core/src/lsp_file.rs
index 11dd40a..598fc1e 100644
--- a/crates/analyzer-core/src/lsp_file.rs
+++ b/crates/analyzer-core/src/lsp_file.rs
@@ -68,6 +68,16 @@ impl LspFile {
 	// used to get a valid lsp position for the current file
 	fn lsp_to_lsp(&self, lsp_pos: &Position) -> Position { self.byte_to_lsp(self.lsp_to_byte(lsp_pos)) }
 
+	// byte position where the content of a line ends (exclusive, without its line break)
+	fn line_end(&self, line: usize) -> usize {
+		let last = self.ranges[line];
+		if self.file.as_bytes()[last] == b'\n' {
+			last
+		} else {
+			last + 1 // the last line of a file need not have a line break
+		}
+	}
+
 	pub fn line_char(&self, line: usize) -> usize {
 		// a useful case to expect
 		if line >= self.ranges.len() {
@@ -95,7 +105,7 @@ impl LspFile {
 		let start_byte = if lsp_pos.line == 0 { 0 } else { self.ranges.get(lsp_pos.line - 1).unwrap_or(&0) + 1 };
 
 		// get byte offset for character position in line
-		let slice = self.file.slice(start_byte..self.ranges[lsp_pos.line]).unwrap_or("").chars();
+		let slice = self.file.slice(start_byte..self.line_end(lsp_pos.line)).unwrap_or("").chars();
 		let mut byte_count = 0;
 		for (i, c) in slice.enumerate() {
 			if i == lsp_pos.character {
@@ -128,7 +138,7 @@ impl LspFile {
 
 		// calculate character position in byte offset
 		let mut byte_count = if line == 0 { 0 } else { self.ranges[line - 1] + 1 };
-		let slice = self.file.slice(byte_count..self.ranges[line]).unwrap_or("").chars();
+		let slice = self.file.slice(byte_count..self.line_end(line)).unwrap_or("").chars();
 		let mut char = slice.clone().count();
 
 		for (i, c) in slice.enumerate() {
-- 
2.43.0


From 53c94661649e617ab5d7cfa738b9745b89a3853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 02/56] fix: apply_edit on tokens that were not parsed yet

The memo table only covers the part of the input that has been examined, so an
edit before the first parse, or beyond the point where the last one failed,
panicked.
---
 crates/analyzer-core/src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index d1e33c7..b8de33a 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -100,7 +100,9 @@ impl<Token: Clone + PartialEq> Parser<Token> {
 		self.buffer.write().splice(range.clone(), r.iter().cloned());
 
 		// adjust the memo table: replace the affected range with empty entries
-		self.memo_table.splice(range.clone(), std::iter::repeat(Default::default()).take(r.len()));
+		// (the table only reaches as far as the input has been examined)
+		let memoized = range.start.min(self.memo_table.len())..range.end.min(self.memo_table.len());
+		self.memo_table.splice(memoized, std::iter::repeat(Default::default()).take(r.len()));
 
 		// invalidate overlapping entries
 		for pos in 0..range.start {
-- 
2.43.0


From 43fc996f722ad9c9818efd90b326b6f99f9e8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 03/56] fix: memoised matches that examined no token

Their examined length wrapped around, and reusing them overflowed.
---
 crates/analyzer-core/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/parser.rs b/crates/analyzer-core/src/parser.rs
index b8de33a..9f0ab6d 100644
--- a/crates/analyzer-core/src/parser.rs
+++ b/crates/analyzer-core/src/parser.rs
@@ -222,7 +222,8 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 		}
 
 		let col = &mut self.memo_table[pos];
-		let examined_length = (self.max_examined_pos - pos as isize + 1) as usize;
+		// an empty match need not examine any token
+		let examined_length = (self.max_examined_pos - pos as isize + 1).max(0) as usize;
 		let existing_match = cst.map(|cst| ExistingMatch { cst, match_length: self.pos - pos });
 
 		let entry = MemoTableEntry { existing_match, examined_length };
@@ -234,7 +235,7 @@ impl<'a, Token: Clone + PartialEq> Matcher<'a, Token> {
 	fn use_memoized_result(&mut self, rule_name: RuleName) -> Option<Rc<Cst<Token>>> {
 		self.memo_table.get(self.pos).and_then(|col| {
 			col.memo.get(rule_name).and_then(|entry| {
-				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length - 1) as isize);
+				self.max_examined_pos = self.max_examined_pos.max((self.pos + entry.examined_length) as isize - 1);
 
 				entry.existing_match.clone().map(|m| {
 					self.pos += m.match_length;
-- 
2.43.0


From 9e932f1729d37ff03a7c8a3e0e204aed2ce6d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 04/56] fix: line comment on the last line

A line comment that is not followed by a line break was reported as an
unexpected token.
---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 9730a40..b7c26a2 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -45,7 +45,7 @@ pub enum Token {
 	#[token(",")]
 	Comma,
 
-	#[regex("//[^\n]*\n")]
+	#[regex("//[^\n]*\n?")]
 	#[regex("/\\*", |lex| Lexer(lex).read_comment())]
 	Comment,
 
-- 
2.43.0


From f28a01dbf27431c553788d4c82ad1cd6fd2bae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 05/56] fix: width and base prefixes only count at the start of
 a literal

A prefix found in the middle made malformed literals such as 10b1 or 0x8w1
read as some other number.
---
 crates/analyzer-core/src/lexer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index b7c26a2..bbee07b 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -357,7 +357,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 
 fn parse_base(str: &str) -> Option<(u8, &str)> {
 	lazy_static! {
-		static ref BASE: Regex = Regex::new("0([bBdDoOxX])").unwrap();
+		static ref BASE: Regex = Regex::new("^0([bBdDoOxX])").unwrap();
 	}
 
 	BASE.captures(str).map(|caps| {
@@ -375,7 +375,7 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 
 fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 	lazy_static! {
-		static ref WIDTH: Regex = Regex::new("([0-9][0-9]*)([ws])").unwrap();
+		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
 
 	WIDTH.captures(str).map(|caps| {
-- 
2.43.0


From 18c436e8496d1f1e33a7e0b96d4ac8d6566ce9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 06/56] fix: underscores in integer literals

P4 allows underscores between digits; the token rule admits them, but the
literal was then reported as malformed.
---
 crates/analyzer-core/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index bbee07b..2bb61df 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -160,7 +160,7 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			})
 			.unwrap_or(str);
 
-		lit.value = match i64::from_str_radix(str, lit.base as u32).ok() {
+		lit.value = match i64::from_str_radix(&str.replace('_', ""), lit.base as u32).ok() {
 			Some(i) => i,
 			None => {
 				self.report(Severity::Error, "malformed integer literal");
-- 
2.43.0


From c331cb6c398191c2dae7ee70f2c95896a5a79123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 07/56] fix: integer literal whose width is out of range

It made the lexer panic.
---
 crates/analyzer-core/src/lexer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index 2bb61df..bca1b3a 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -146,13 +146,18 @@ impl<'a, 'b> Lexer<'a, 'b> {
 		let str = self.0.slice();
 		// the stitching here is a little ugly, fn(&str) -> Option<(T, &str)> here
 		// is trying to be something like a state monad.
-		let str = parse_width(str)
-			.map(|((width, sign), str)| {
+		let str = match parse_width(str) {
+			Some(((Some(width), sign), str)) => {
 				lit.width = Some(width);
 				lit.signed = sign;
 				str
-			})
-			.unwrap_or(str);
+			}
+			Some(((None, _), _)) => {
+				self.report(Severity::Error, "malformed integer literal");
+				return None;
+			}
+			None => str,
+		};
 		let str = parse_base(str)
 			.map(|(base, str)| {
 				lit.base = base;
@@ -373,7 +378,7 @@ fn parse_base(str: &str) -> Option<(u8, &str)> {
 	})
 }
 
-fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
+fn parse_width(str: &str) -> Option<((Option<u32>, bool), &str)> {
 	lazy_static! {
 		static ref WIDTH: Regex = Regex::new("^([0-9][0-9]*)([ws])").unwrap();
 	}
@@ -382,7 +387,7 @@ fn parse_width(str: &str) -> Option<((u32, bool), &str)> {
 		let width = caps.get(1).unwrap();
 		let sign = caps.get(2).unwrap();
 
-		let width = width.as_str().parse().unwrap();
+		let width = width.as_str().parse().ok(); // the width may be out of range
 		let signed = match sign.as_str() {
 			"w" => false,
 			"s" => true,
-- 
2.43.0


From 0fa5503e0e2262c561bbe212ed4d74a1589a9458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 08/56] fix: macro definitions with backslashes

A definition continued on the next line lost everything after the first line,
and one with an escaped backslash made the lexer panic.
---
 crates/analyzer-core/src/lexer.rs | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer-core/src/lexer.rs b/crates/analyzer-core/src/lexer.rs
index bca1b3a..409ef94 100644
--- a/crates/analyzer-core/src/lexer.rs
+++ b/crates/analyzer-core/src/lexer.rs
@@ -290,21 +290,8 @@ impl<'a, 'b> Lexer<'a, 'b> {
 			iter.next();
 		}
 
-		let mut escape = false;
-		let mut rhs = String::new();
-		loop {
-			let ch = iter.next();
-
-			// FIXME: these escapes do not work for string literals
-			match (escape, ch) {
-				(true, Some(ch)) => rhs.push(ch),
-				(_, Some('\\')) => escape = true,
-				(_, Some('\n')) => break,
-				(_, Some(ch)) => rhs.push(ch),
-				(true, None) => todo!("unfinished macro"),
-				(false, None) => break,
-			}
-		}
+		// newline escapes have already been processed, see `read_line_with_newline_escapes`
+		let rhs = iter.collect();
 
 		Some((symbol, rhs))
 	}
-- 
2.43.0


From 239182b0bd42d7a669f1ce000c476ecaceb6b625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 09/56] fix: #pragma made the preprocessor panic

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7b30d6..840cd7d 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -354,7 +354,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorDirective::Undef(k) => {
 						self.definitions.remove(&k);
 					}
-					PreprocessorDirective::Pragma(_) => todo!(),
+					PreprocessorDirective::Pragma(_) => (), // no pragma concerns the preprocessor
 					PreprocessorDirective::Other(name, _) => {
 						self.error(id, span, format!("Unrecognised directive: {name}"))
 					}
-- 
2.43.0


From 0fce67072194b0561d0bbe71b7d7d80fe7f55b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 10/56] fix: <= and >= in preprocessor conditions

The comparison was read as < or > followed by something unparsable, which was
ignored together with the rest of the condition.
---
 crates/analyzer-core/src/preprocessor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 840cd7d..517708c 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -120,6 +120,7 @@ mod parser {
 		use std::rc::Rc;
 		let lhs = lhs.clone();
 		let mut f: Rc<dyn Fn(&'a str) -> IResult<&'a str, PreprocessorBinOp>> = Rc::new(fail);
+		// later variants are tried first, so a symbol must come after its prefixes
 		for (sym, op) in variants {
 			let sym: &'static str = sym;
 			let op = op.clone();
@@ -173,7 +174,7 @@ mod parser {
 		use PreprocessorBinOp::*;
 		let (input, e) = ws(exp5)(input)?;
 
-		bin_op(&e, exp5, &[("<=", LessOrEqual), ("<", LessThan), (">=", GreaterOrEqual), (">", GreaterThan)])(input)
+		bin_op(&e, exp5, &[("<", LessThan), ("<=", LessOrEqual), (">", GreaterThan), (">=", GreaterOrEqual)])(input)
 			.or(Ok((input, e)))
 	}
 
-- 
2.43.0


From cfe0ec0b8663738571609fff4100e0708d48f696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 11/56] fix: >> in preprocessor conditions shifted the wrong
 operand

---
 crates/analyzer-core/src/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 517708c..7950514 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -499,7 +499,7 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
 					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => r >> r,
+					PreprocessorBinOp::BitwiseShiftRight => l >> r,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From 2742241183e43ab704e5d8638d84283a1a985985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 12/56] fix: preprocessor conditions that divide by zero or
 overflow

They made the preprocessor panic.  Without a value, a condition does not hold.
---
 crates/analyzer-core/src/preprocessor.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 7950514..c517404 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -485,11 +485,11 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::Or => l | r,
 					PreprocessorBinOp::Xor => l ^ r,
 					PreprocessorBinOp::And => l & r,
-					PreprocessorBinOp::Plus => l + r,
-					PreprocessorBinOp::Minus => l - r,
-					PreprocessorBinOp::Times => l * r,
-					PreprocessorBinOp::Divide => l / r,
-					PreprocessorBinOp::Modulo => l % r,
+					PreprocessorBinOp::Plus => l.wrapping_add(r),
+					PreprocessorBinOp::Minus => l.wrapping_sub(r),
+					PreprocessorBinOp::Times => l.wrapping_mul(r),
+					PreprocessorBinOp::Divide => l.checked_div(r)?,
+					PreprocessorBinOp::Modulo => l.checked_rem(r)?,
 					PreprocessorBinOp::Equals => (l == r) as i64,
 					PreprocessorBinOp::NotEquals => (l != r) as i64,
 					PreprocessorBinOp::LogicalOr => (l != 0 || r != 0) as i64,
@@ -498,8 +498,8 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::LessOrEqual => (l <= r) as i64,
 					PreprocessorBinOp::GreaterThan => (l > r) as i64,
 					PreprocessorBinOp::GreaterOrEqual => (l >= r) as i64,
-					PreprocessorBinOp::BitwiseShiftLeft => l << r,
-					PreprocessorBinOp::BitwiseShiftRight => l >> r,
+					PreprocessorBinOp::BitwiseShiftLeft => l.checked_shl(r.try_into().ok()?)?,
+					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
 			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
-- 
2.43.0


From 3b0e682506a8d1c740bfc87f7eee6a5c282e4bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:22 +0000
Subject: [PATCH 13/56] fix: defined (X) with a space before the parenthesis

It was read as the undefined name 'defined', and the condition never held.
---
 crates/analyzer-core/src/preprocessor.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index c517404..5387709 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -108,6 +108,7 @@ mod parser {
 	fn defined(input: &str) -> IResult<&str, &str> {
 		alt((
 			delimited(tag("defined("), ws(identifier), tag(")")),
+			delimited(tuple((tag("defined"), multispace1, tag("("))), ws(identifier), tag(")")),
 			preceded(tuple((tag("defined"), multispace1)), identifier),
 		))(input)
 	}
-- 
2.43.0


From d6c5c31608be1be8f19694d1d9550dab704c5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 14/56] fix: && and || evaluated both operands

A condition such as 'defined(X) && 8 / X' or '1 || Y' had no value whenever the
operand that does not matter had none.
---
 crates/analyzer-core/src/preprocessor.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 5387709..ba46f43 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -480,6 +480,13 @@ impl<'a> PreprocessorState<'a> {
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
 				let l = self.interpret_pp_expr(lhs)?;
+				// the second operand of && and || is only evaluated if the first does not decide
+				match op {
+					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
+					PreprocessorBinOp::LogicalAnd if l == 0 => return Some(0),
+					_ => (),
+				}
+
 				let r = self.interpret_pp_expr(rhs)?;
 
 				Some(match op {
-- 
2.43.0


From 2ae7a873fb664a1e0efc9ebeb9231f50cb773299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 15/56] fix: conditions on macros that are defined in terms of
 themselves

Evaluating them never ended (the stack overflowed).
---
 crates/analyzer-core/src/preprocessor.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index ba46f43..da92960 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -46,6 +46,9 @@ pub enum PreprocessorExpression {
 
 pub type PreprocessorValue = i64;
 
+/// How many subexpressions of a condition are evaluated before it is taken to have no value.
+const MAX_EVALUATION_STEPS: usize = 4096;
+
 #[derive(PartialEq, Eq, PartialOrd, Ord, Debug, Clone)]
 pub enum PreprocessorDirective {
 	Include(PreprocessorQuotationStyle, String),
@@ -467,19 +470,26 @@ impl<'a> PreprocessorState<'a> {
 	}
 
 	fn interpret_pp_expr(&self, cond: &PreprocessorExpression) -> Option<PreprocessorValue> {
+		self.interpret_with_fuel(cond, &mut MAX_EVALUATION_STEPS.clone())
+	}
+
+	/// Expressions that refer to macros need not have a value, because macros can be defined in terms of themselves:
+	/// give up when the fuel is used up.
+	fn interpret_with_fuel(&self, cond: &PreprocessorExpression, fuel: &mut usize) -> Option<PreprocessorValue> {
+		*fuel = fuel.checked_sub(1)?;
 		match cond {
 			&PreprocessorExpression::IntLiteral(n) => Some(n),
 			PreprocessorExpression::Identifier(name) => {
 				if let Some(rhs) = self.definitions.get(name) {
 					// TODO: avoid reparses?
 					let (_, expr) = expression(rhs).ok()?;
-					self.interpret_pp_expr(&expr)
+					self.interpret_with_fuel(&expr, fuel)
 				} else {
 					None
 				}
 			}
 			PreprocessorExpression::BinOp(op, lhs, rhs) => {
-				let l = self.interpret_pp_expr(lhs)?;
+				let l = self.interpret_with_fuel(lhs, fuel)?;
 				// the second operand of && and || is only evaluated if the first does not decide
 				match op {
 					PreprocessorBinOp::LogicalOr if l != 0 => return Some(1),
@@ -487,7 +497,7 @@ impl<'a> PreprocessorState<'a> {
 					_ => (),
 				}
 
-				let r = self.interpret_pp_expr(rhs)?;
+				let r = self.interpret_with_fuel(rhs, fuel)?;
 
 				Some(match op {
 					PreprocessorBinOp::Or => l | r,
@@ -510,7 +520,9 @@ impl<'a> PreprocessorState<'a> {
 					PreprocessorBinOp::BitwiseShiftRight => l.checked_shr(r.try_into().ok()?)?,
 				})
 			}
-			PreprocessorExpression::Not(inner) => Some(!self.interpret_condition(inner) as i64),
+			PreprocessorExpression::Not(inner) => {
+				Some(!self.interpret_with_fuel(inner, fuel).map_or(false, |n| n != 0) as i64)
+			}
 			PreprocessorExpression::Defined(name) => Some(self.definitions.contains_key(name) as i64),
 		}
 	}
-- 
2.43.0


From 738eca26baf063d79dbdd04d3e247bf1a1d23614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 16/56] fix: very long or deeply nested preprocessor conditions

They overflowed the stack.
---
 crates/analyzer-core/src/preprocessor.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index da92960..20ce442 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -227,8 +227,29 @@ mod parser {
 	pub fn expression(input: &str) -> IResult<&str, PreprocessorExpression> { complete(ws(exp12))(input) }
 }
 
+/// The parser, and everything that walks over an expression, is recursive. C compilers need not accept logical lines of
+/// more than 4095 characters nor parentheses nested more than 63 deep either.
+fn within_limits(expression: &str) -> bool {
+	let mut depth = 0;
+	let mut max_depth = 0;
+	for ch in expression.chars() {
+		match ch {
+			'(' => depth += 1,
+			')' => depth -= 1,
+			_ => (),
+		}
+		max_depth = max_depth.max(depth);
+	}
+
+	expression.len() <= 4095 && max_depth <= 63
+}
+
 // TODO: is taking ownership necessary?
 pub fn parse_pp_expression(buf: String) -> Option<PreprocessorExpression> {
+	if !within_limits(&buf) {
+		return None;
+	}
+
 	match parser::expression(&buf) {
 		Ok((_, expr)) => Some(expr),
 		Err(e) => {
@@ -482,7 +503,7 @@ impl<'a> PreprocessorState<'a> {
 			PreprocessorExpression::Identifier(name) => {
 				if let Some(rhs) = self.definitions.get(name) {
 					// TODO: avoid reparses?
-					let (_, expr) = expression(rhs).ok()?;
+					let (_, expr) = Some(rhs).filter(|rhs| within_limits(rhs)).and_then(|rhs| expression(rhs).ok())?;
 					self.interpret_with_fuel(&expr, fuel)
 				} else {
 					None
-- 
2.43.0


From 157fbe0a1eeb5750846c8d3d1e5e15e90fd81f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 17/56] fix: report every conditional that lacks an #endif

Only the innermost one was reported.
---
 crates/analyzer-core/src/preprocessor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index 20ce442..a7a86b1 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -462,23 +462,21 @@ impl<'a> PreprocessorState<'a> {
 			"should have returned at this point if the input was a well-formed conditional"
 		);
 
-		self.check_empty_cond_stack();
-		// drain to avoid reporting this error multiple times
-		self.conditional_stack.drain((level - 1)..);
+		// the conditionals that are still open are reported at the end of `preprocess`
 	}
 
-	/// Report an error if the conditional stack isn't empty.
+	/// Report an error for every conditional left on the stack.
 	///
 	/// Should be called after processing the input stream.
 	fn check_empty_cond_stack(&mut self) {
-		if let Some(((id, dir, span), _, _)) = self.conditional_stack.last() {
+		for ((id, dir, span), _, _) in std::mem::take(&mut self.conditional_stack) {
 			let name = match dir {
 				PreprocessorDirective::If(_) => "if",
 				PreprocessorDirective::ElseIf(_) => "elif",
 				PreprocessorDirective::Else => "else",
 				_ => unreachable!(),
 			};
-			self.error(*id, span.clone(), format!("This #{name} directive lacks a corresponding #endif"));
+			self.error(id, span, format!("This #{name} directive lacks a corresponding #endif"));
 		}
 	}
 
-- 
2.43.0


From ca129c9721dffaf5b53f25143512ca182a0016ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 18/56] fix: lexical errors were reported twice

A query's accumulated values include those of the queries it calls, and
preprocess calls lex.
---
 crates/analyzer-core/src/lib.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 7ac0d79..338c12b 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -122,10 +122,9 @@ impl Analyzer {
 	}
 
 	pub fn diagnostics(&self, id: FileId) -> Vec<Diagnostic> {
-		if let Some(buf) = self.filesystem().get(&id) {
-			let mut d = lex::accumulated::<Diagnostics>(&self.db, id, *buf);
-			d.append(&mut preprocess::accumulated::<Diagnostics>(&self.db, self.fs.unwrap(), id));
-			d
+		if self.filesystem().contains_key(&id) {
+			// this includes what has been accumulated while lexing the file
+			preprocess::accumulated::<Diagnostics>(&self.db, self.fs.unwrap(), id)
 		} else {
 			vec![]
 		}
-- 
2.43.0


From 042b1b94548845c3174948da59918a6794a5a265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 19/56] fix: an include path that cannot be resolved made the
 analyzer panic

---
 crates/analyzer-core/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-core/src/lib.rs b/crates/analyzer-core/src/lib.rs
index 338c12b..73f4351 100644
--- a/crates/analyzer-core/src/lib.rs
+++ b/crates/analyzer-core/src/lib.rs
@@ -49,7 +49,8 @@ pub trait Db: salsa::DbWithJar<Jar> {
 // impl<DB> Db for DB where DB: ?Sized + salsa::DbWithJar<Jar> {
 impl Db for Database {
 	fn resolve_path(&self, file_id: FileId, path: &str) -> String {
-		(self.resolver_fn)(&file_id.path(self), path).expect("failed to resolve a path")
+		// a path that cannot be resolved does not lead to any file
+		(self.resolver_fn)(&file_id.path(self), path).unwrap_or_else(|_| path.to_string())
 	}
 }
 
-- 
2.43.0


From fa400c3ee0d5d133757b2651e9ff69c1e2c878a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 20/56] fix: included files came out backwards, and only the
 first include counted

The tokens of an included file were put in front of the remaining input one by
one, which reversed them.  A file that was included again after the first
include of it had ended was reported as recursive; only a file that includes
itself, directly or through others, is.
---
 crates/analyzer-core/src/preprocessor.rs | 35 +++++++++++-------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/crates/analyzer-core/src/preprocessor.rs b/crates/analyzer-core/src/preprocessor.rs
index a7a86b1..dbeac3b 100644
--- a/crates/analyzer-core/src/preprocessor.rs
+++ b/crates/analyzer-core/src/preprocessor.rs
@@ -266,7 +266,9 @@ pub type ResolvedToken = (FileId, PreprocessorDirective, Span);
 pub struct PreprocessorState<'a> {
 	definitions: HashMap<String, String>,
 	pub errors: Vec<((FileId, Span), String)>, // TODO: we should do better than strings here
-	state: HashMap<FileId, VertexState>,
+	/// The includes being processed: the including file, the included file, and how many tokens were left in the input
+	/// when the included file was put in front of them.
+	include_stack: Vec<(FileId, FileId, usize)>,
 	/// A stack of branches for conditional compilation.
 	/// This will contain the opening #if's and #ifdef's, popped when reaching #endif.
 	conditional_stack: Vec<(ResolvedToken, Vec<ResolvedToken>, bool)>,
@@ -276,12 +278,6 @@ pub struct PreprocessorState<'a> {
 
 type LexFn<'a> = dyn FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a;
 
-#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
-enum VertexState {
-	Open,
-	Closed,
-}
-
 impl<'a> PreprocessorState<'a> {
 	pub fn new<Idlyzer: FnMut(&str) -> FileId + 'a, FLex: FnMut(FileId) -> Option<&'a Vec<(Token, Span)>> + 'a>(
 		to_id: Idlyzer,
@@ -290,7 +286,7 @@ impl<'a> PreprocessorState<'a> {
 		PreprocessorState {
 			definitions: Default::default(),
 			errors: vec![],
-			state: Default::default(),
+			include_stack: vec![],
 			conditional_stack: vec![],
 			lex: Box::new(lex),
 			to_id: Box::new(to_id),
@@ -302,13 +298,11 @@ impl<'a> PreprocessorState<'a> {
 
 	pub fn preprocess(&mut self, input: &mut VecDeque<(FileId, Token, Span)>) -> Vec<(FileId, Token, Span)> {
 		let mut result: Vec<(FileId, Token, Span)> = vec![];
-		let mut previous_file = None;
 
 		while let Some((id, tk, span)) = input.pop_front() {
-			if let Some(file) = previous_file {
-				if file != id {
-					self.state.insert(file, VertexState::Closed);
-				}
+			// leave the included files that have come to their end
+			while self.include_stack.last().map_or(false, |(_, _, rest)| input.len() < *rest) {
+				self.include_stack.pop();
 			}
 
 			match tk {
@@ -318,13 +312,16 @@ impl<'a> PreprocessorState<'a> {
 						let not_found_err = format!("Could not find {path}");
 
 						let file_id = (self.to_id)(&path); // TODO: path resolution here or in to_id
-						if self.state.get(&file_id).is_some() {
+						if file_id == id
+							|| self.include_stack.iter().any(|(from, to, _)| *from == file_id || *to == file_id)
+						{
 							self.error(id, span, recursive_err);
 						} else if let Some(tokens) = (self.lex)(file_id) as Option<&Vec<(Token, Span)>> {
-							self.state.insert(file_id, VertexState::Open);
-							input.reserve(input.len() + tokens.len());
+							self.include_stack.push((id, file_id, input.len()));
+							input.reserve(tokens.len());
 							tokens
 								.iter()
+								.rev() // the last token to be pushed becomes the first
 								.cloned()
 								.map(|(tk, span)| (file_id, tk, span))
 								.for_each(|x| input.push_front(x));
@@ -387,7 +384,9 @@ impl<'a> PreprocessorState<'a> {
 				},
 				Token::Whitespace => match result.last() {
 					// avoid consecutive whitespace in the same file
-					Some((existing_id, Token::Whitespace, existing_span)) if *existing_id == id => {
+					Some((existing_id, Token::Whitespace, existing_span))
+						if *existing_id == id && existing_span.end <= span.start =>
+					{
 						let combined_span = existing_span.start..span.end;
 						result.pop();
 						result.push((id, Token::Whitespace, combined_span))
@@ -396,8 +395,6 @@ impl<'a> PreprocessorState<'a> {
 				},
 				_ => result.push((id, tk, span)),
 			}
-
-			previous_file = Some(id);
 		}
 
 		self.check_empty_cond_stack();
-- 
2.43.0


From fda9976f741bd73442a2451ad70d1ea1d7189d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 21/56] fix: a large Content-Length crashed the reader

The buffer for the body was allocated for the announced length before any of
it had arrived.
---
 crates/analyzer-host/src/json_rpc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index 5c7b226..dbeecbb 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -4,7 +4,7 @@ use message::*;
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::{
 	fmt::{self, Display},
-	io::{self, BufRead, Write},
+	io::{self, BufRead, Read, Write},
 };
 
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
@@ -114,9 +114,11 @@ fn read_msg_text(inp: &mut dyn BufRead) -> io::Result<Option<String>> {
 		}
 	}
 	let size: usize = size.ok_or_else(|| invalid_data!("no Content-Length"))?;
-	let mut buf = buf.into_bytes();
-	buf.resize(size, 0);
-	inp.read_exact(&mut buf)?;
+	// The announced length is not to be trusted: reserve no more memory than there are bytes to read.
+	let mut buf = Vec::new();
+	if inp.take(size as u64).read_to_end(&mut buf)? < size {
+		return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "the message is shorter than its Content-Length"));
+	}
 	let buf = String::from_utf8(buf).map_err(invalid_data)?;
 	// log::debug!("< {}", buf);?
 	Ok(Some(buf))
-- 
2.43.0


From d09a6812efefcdf9faf73e00e589e5844776ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:41 +0000
Subject: [PATCH 22/56] fix: a JSON array could be read as a message

---
 crates/analyzer-host/src/json_rpc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/json_rpc.rs b/crates/analyzer-host/src/json_rpc.rs
index dbeecbb..953f878 100644
--- a/crates/analyzer-host/src/json_rpc.rs
+++ b/crates/analyzer-host/src/json_rpc.rs
@@ -56,8 +56,12 @@ impl Message {
 			None => return Ok(None),
 			Some(text) => text,
 		};
-		let msg = serde_json::from_str(&text)?;
-		Ok(Some(msg))
+		let value: serde_json::Value = serde_json::from_str(&text)?;
+		if !value.is_object() {
+			// An array would be taken for the fields of a message, in the order of their declaration.
+			return Err(io::Error::new(io::ErrorKind::InvalidData, "the message is not an object"));
+		}
+		Ok(Some(serde_json::from_value(value)?))
 	}
 
 	fn buffered_write(self, w: &mut dyn Write) -> io::Result<()> {
-- 
2.43.0


From 93248c6b16d1ccea5d1ddc447181f1a97bb5f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 23/56] fix: hosts without a file system of their own crashed
 at start

AnalyzerHost::start created the LSP based default file system but then
unwrapped the (absent) one it was constructed with.
---
 crates/analyzer-host/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 41f8119..c1ab372 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -65,7 +65,7 @@ impl AnalyzerHost {
 		*(self.protocol_machine.write().await) = Some(LspProtocolMachine::new(
 			self.trace_value.clone(),
 			request_manager.clone(),
-			self.file_system.clone().unwrap(),
+			file_system.clone(),
 		));
 
 		match join_all(
-- 
2.43.0


From c2544f78c2e431357541f51004b036cf508055d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 24/56] fix: copies of the RequestManager reused each other's
 request ids

The copies share the table of awaiting requests, so two requests with the
same id overwrote each other there and one of them never completed.
---
 crates/analyzer-host/src/lsp/request.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index cf9a0ae..ee02fb1 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -33,7 +33,7 @@ type AnyFutureCompletionSource = FutureCompletionSource<Arc<Message>, LspProtoco
 pub struct RequestManager {
 	requests: Sender<Message>,
 	responses: Receiver<Message>,
-	request_id: AtomicI32,
+	request_id: Arc<AtomicI32>,
 	awaiting_requests: Arc<AsyncRwLock<HashMap<RequestId, Arc<AnyFutureCompletionSource>>>>,
 }
 
@@ -45,7 +45,7 @@ impl RequestManager {
 		Self {
 			requests: sender,
 			responses: receiver,
-			request_id: AtomicI32::new(0),
+			request_id: Arc::new(AtomicI32::new(0)),
 			awaiting_requests: Arc::new(AsyncRwLock::new(HashMap::new())),
 		}
 	}
@@ -210,7 +210,7 @@ impl Clone for RequestManager {
 		Self {
 			requests: self.requests.clone(),
 			responses: self.responses.clone(),
-			request_id: AtomicI32::new(self.request_id.load(Ordering::Relaxed)),
+			request_id: self.request_id.clone(),
 			awaiting_requests: self.awaiting_requests.clone(),
 		}
 	}
-- 
2.43.0


From 0c70443e0f4ee114769a5a8d9f39cc295b3da4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:32 +0000
Subject: [PATCH 25/56] fix: requests with malformed parameters were never
 answered

---
 crates/analyzer-host/src/lsp/dispatch_target.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/dispatch_target.rs b/crates/analyzer-host/src/lsp/dispatch_target.rs
index eb434d1..fbec1b4 100644
--- a/crates/analyzer-host/src/lsp/dispatch_target.rs
+++ b/crates/analyzer-host/src/lsp/dispatch_target.rs
@@ -127,7 +127,21 @@ where
 		match &*message {
 			Message::Request(request) => {
 				let method = request.method.as_str();
-				let params = from_json::<TParams>(&request.params)?;
+				let params = match from_json::<TParams>(&request.params) {
+					Ok(params) => params,
+					Err(err) => {
+						error!(method = method, "Invalid parameters for request '{}': {}", method, err);
+
+						// A request is always answered, even if its parameters could not be understood.
+						let response = Response::new_error(
+							request.id.clone(),
+							ErrorCode::InvalidParams as i32,
+							"The parameters of the request are invalid.",
+						);
+
+						return Ok((Some(Message::Response(response)), current_state));
+					}
+				};
 				let (response, next_state) = match self.handler_fn.call(current_state, params, state).await {
 					Ok(result) => (Response::new(request.id.clone(), result), self.next_state(current_state)),
 					Err(err) => {
-- 
2.43.0


From f6df504c40e5d491c71824a9a518f2206cfb7f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 26/56] fix: documents outside of every workspace folder
 crashed the server

Such documents now belong to the 'catch-all' workspace, as get_file()
promises to always return a file.
---
 crates/analyzer-host/src/lsp/workspace.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index ec76687..c6043bb 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::{error, info},
+	tracing::info,
 };
 use thiserror::Error;
 
@@ -29,6 +29,9 @@ use super::{
 pub struct WorkspaceManager {
 	has_workspaces: bool,
 	pub workspaces: HashMap<Url, Arc<Workspace>>,
+
+	/// The 'catch-all' workspace holding the files that are not a descendant of any workspace folder.
+	catch_all: Arc<Workspace>,
 }
 
 impl WorkspaceManager {
@@ -62,6 +65,11 @@ impl WorkspaceManager {
 				.into_iter()
 				.map(|wf| to_workspace(file_system.clone(), wf, background_load.clone()))
 				.collect(),
+			catch_all: Arc::new(Workspace::new(
+				file_system,
+				WorkspaceFolder { name: "<*>".to_string(), uri: Url::parse("file:///").unwrap() },
+				background_load,
+			)),
 		}
 	}
 
@@ -85,14 +93,11 @@ impl WorkspaceManager {
 			false
 		}
 
-		// If not initialized with any workspace folders, then the path should always be a descendant of the
+		// If not initialized with any workspace folders, or if the file is not in any of them, then use the
 		// 'catch-all' workspace.
 		match (&self.workspaces).into_iter().find(|(workspace_uri, _)| is_descendant_path(&workspace_uri, &uri)) {
 			Some((_, workspace)) => workspace.get_file(uri),
-			None => {
-				error!(file_uri = uri.as_str(), "Failed to locate a workspace for a given file.");
-				unreachable!("failed to locate a workspace");
-			}
+			None => self.catch_all.get_file(uri),
 		}
 	}
 
-- 
2.43.0


From 0d8a2f3a30f37b0dc88567562f878327e687916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 27/56] fix: didSave for a document that is not open crashed
 the server

The analyzer knows no text for such a document, and process_diagnostics
unwraps it.
---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index a38675e..5a72fe5 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -209,6 +209,14 @@ async fn on_text_document_did_save(
 	if let Some(text) = params.text {
 		let state = state.write().await;
 		let file = state.workspaces().get_file(params.text_document.uri.clone());
+
+		if !file.is_open_in_ide() {
+			return Err(HandlerError::new_with_data(
+				"received a didSave notification for a document that is not open",
+				Some(params.text_document.uri.as_str()),
+			));
+		}
+
 		let mut analyzer = state.analyzer.unwrap();
 
 		info!("Syncing buffer on save.");
-- 
2.43.0


From 7d97e00e6d0dc2aacf0b4253de467b2f45d11099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 28/56] fix: indexing crashed the server if the client refused
 to show progress

---
 crates/analyzer-host/src/lsp/workspace.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index c6043bb..21e888f 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -15,7 +15,7 @@ use analyzer_abstractions::{
 	fs::AnyEnumerableFileSystem,
 	futures_extensions::FutureCompletionSource,
 	lsp_types::{TextDocumentIdentifier, Url, WorkspaceFolder},
-	tracing::info,
+	tracing::{error, info},
 };
 use thiserror::Error;
 
@@ -109,15 +109,27 @@ impl WorkspaceManager {
 			return; // Do nothing if there are no workspace folders.
 		}
 
-		let progress = progress.begin("Indexing").await.unwrap();
+		// Progress is informational only. Carry on indexing if the LSP client refuses to show it.
+		let progress = match progress.begin("Indexing").await {
+			Ok(progress) => Some(progress),
+			Err(err) => {
+				error!("Failed to begin reporting progress. {}", err);
+
+				None
+			}
+		};
 
 		for (_, workspace) in (&self.workspaces).into_iter() {
-			progress.report(&format!("{}", workspace)).await.unwrap();
+			if let Some(progress) = &progress {
+				progress.report(&format!("{}", workspace)).await.unwrap_or_default();
+			}
 
 			workspace.index().await;
 		}
 
-		progress.end(None).await.unwrap();
+		if let Some(progress) = &progress {
+			progress.end(None).await.unwrap_or_default();
+		}
 	}
 }
 
-- 
2.43.0


From 387703cf7a54d9b3ad2a9e997a2ae83743a7c2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 29/56] fix: messages still queued when the server stops
 crashed it

Once the protocol machine stopped, or the client closed its end of the
channel, sending on the closed channels failed, and was unwrapped.
---
 crates/analyzer-host/src/lib.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index c1ab372..2d87028 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -99,10 +99,17 @@ impl AnalyzerHost {
 	) -> Result<(), OperationCanceled> {
 		while !cancel_token.is_canceled() {
 			match self.receiver.recv().await {
-				Ok(message) => match message {
-					Message::Response(_) => responses_sender.send(message).await.unwrap(),
-					_ => requests_sender.send(message).await.unwrap(),
-				},
+				Ok(message) => {
+					let forwarded = match message {
+						Message::Response(_) => responses_sender.send(message).await,
+						_ => requests_sender.send(message).await,
+					};
+
+					if let Err(err) = forwarded {
+						info!("Stopped receiving messages since they are no longer processed: {:?}", err);
+						break;
+					}
+				}
 				Err(err) => {
 					error!("Unexpected error receiving message: {:?}", err);
 					break;
@@ -144,7 +151,9 @@ impl AnalyzerHost {
 						{
 							Ok(response_message) => {
 								if let Some(Message::Response(_)) = &response_message {
-									self.sender.send(response_message.unwrap()).await.unwrap();
+									if let Err(err) = self.sender.send(response_message.unwrap()).await {
+										error!("Unexpected error sending response: {:?}", err);
+									}
 								}
 							}
 							Err(err) => {
-- 
2.43.0


From 74b9461fb320531085ef337ac51a8fb9509fde36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 30/56] fix: the server never stopped once its client closed
 the channel

Receiving from the closed channel fails immediately, so that the protocol
machine was spinning (and blocking its thread) forever.
---
 crates/analyzer-host/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 2d87028..3509842 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -166,6 +166,7 @@ impl AnalyzerHost {
 				}
 				Err(err) => {
 					error!("Unexpected error receiving request or notification: {:?}", err);
+					break;
 				}
 			}
 		}
-- 
2.43.0


From 18b19e567dda3d10c447462421df21e063385132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:45 +0000
Subject: [PATCH 31/56] fix: requests awaiting a response hung once the client
 had gone

---
 crates/analyzer-host/src/lsp/request.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/request.rs b/crates/analyzer-host/src/lsp/request.rs
index ee02fb1..a02b546 100644
--- a/crates/analyzer-host/src/lsp/request.rs
+++ b/crates/analyzer-host/src/lsp/request.rs
@@ -88,6 +88,13 @@ impl RequestManager {
 			}
 		}
 
+		// No response will be received from now on, so fail all those that are still awaiting one.
+		self.responses.close();
+
+		for (_, active_request) in self.awaiting_requests.write().await.drain() {
+			active_request.set_err(LspProtocolError::TransportError).unwrap_or_default();
+		}
+
 		return Err(OperationCanceled);
 	}
 
@@ -180,7 +187,7 @@ impl RequestManager {
 		let request = Request::new(id.clone(), method.into(), params);
 		let awaiting_request = self.create_active_request(&id).await;
 
-		if let Err(_) = self.requests.send(Message::Request(request)).await {
+		if self.responses.is_closed() || self.requests.send(Message::Request(request)).await.is_err() {
 			self.take_awaiting_request(&id).await; // Take the awaiting_request if we couldn't send the request.
 
 			return Err(LspProtocolError::TransportError);
-- 
2.43.0


From 51bd1689917d23c7bcffd82cb5dd544a838de5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 32/56] fix: work spawned or woken while the pool stops crashed
 it

Queued work still runs after AsyncPool::stop(), and may spawn more.
---
 .../src/futures_extensions/async_extensions.rs             | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index ba58e8d..b281c05 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -28,12 +28,9 @@ impl AsyncWork {
 
 impl ArcWake for AsyncWork {
 	fn wake_by_ref(arc_self: &Arc<Self>) {
-		if arc_self.sender.is_closed() {
-			return;
-		}
 		let cloned = arc_self.clone();
 
-		arc_self.sender.send_blocking(cloned).unwrap();
+		arc_self.sender.send_blocking(cloned).unwrap_or_default(); // Ignore errors, the pool has been stopped.
 	}
 }
 
@@ -86,6 +83,6 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
-		sender.send_blocking(work).unwrap();
+		sender.send_blocking(work).unwrap_or_default(); // Ignore errors, the pool has been stopped.
 	}
 }
-- 
2.43.0


From 588a4a7171b1ce932767d4729c19f232a588a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:27 +0000
Subject: [PATCH 33/56] fix: a response arriving together with 'exit' could
 hang the server

Wakers owned the pending futures, so that with the pool stopped, waking one
dropped its future within the lock of the event it was listening for.
---
 .../futures_extensions/async_extensions.rs    | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
index b281c05..611813c 100644
--- a/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions/async_extensions.rs
@@ -1,5 +1,6 @@
 use std::{
 	cell::RefCell,
+	collections::HashMap,
 	sync::{Arc, Mutex},
 	task::Context,
 };
@@ -40,6 +41,10 @@ pub struct AsyncPool;
 
 thread_local!(static WORK_CHANNEL: RefCell<WorkChannel> = RefCell::new(async_channel::unbounded::<Arc<AsyncWork>>()));
 
+// The work that has not completed yet. It is owned here, since dropping it on behalf of a `Waker` can deadlock: wakers
+// may be invoked under locks that are also needed when dropping the future they wake.
+thread_local!(static PENDING_WORK: RefCell<HashMap<*const AsyncWork, Arc<AsyncWork>>> = RefCell::new(HashMap::new()));
+
 impl AsyncPool {
 	pub async fn start(cancel_token: Arc<CancellationToken>) -> Result<(), OperationCanceled> {
 		let (_, receiver) = WORK_CHANNEL.with(|c| c.borrow().clone());
@@ -55,6 +60,8 @@ impl AsyncPool {
 
 						if future.as_mut().poll(context).is_pending() {
 							*future_slot = Some(future)
+						} else {
+							PENDING_WORK.with(|p| p.borrow_mut().remove(&Arc::as_ptr(&work)));
 						}
 					}
 				}
@@ -62,6 +69,15 @@ impl AsyncPool {
 			}
 		}
 
+		// Drop the futures that will never complete, while still holding on to all of their work.
+		let pending_work = PENDING_WORK.with(|p| p.take());
+
+		for (_, work) in &pending_work {
+			let future = work.future.lock().unwrap().take();
+
+			drop(future);
+		}
+
 		if cancel_token.is_canceled() {
 			return Err(OperationCanceled);
 		}
@@ -83,6 +99,10 @@ impl AsyncPool {
 		let future = Box::pin(future);
 		let work = Arc::new(AsyncWork::new(future, sender.clone()));
 
+		if !sender.is_closed() {
+			PENDING_WORK.with(|p| p.borrow_mut().insert(Arc::as_ptr(&work), work.clone()));
+		}
+
 		sender.send_blocking(work).unwrap_or_default(); // Ignore errors, the pool has been stopped.
 	}
 }
-- 
2.43.0


From ee729dcd096a028da2eb89e414add8173ec704cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 34/56] fix: includes in documents without a hierarchical URL
 crashed the server

The path of an include in e.g. an untitled document cannot be resolved.
---
 crates/analyzer-host/src/lsp_impl/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 9773f33..bdac7d1 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -8,7 +8,7 @@ use analyzer_abstractions::{
 	futures::future::join_all,
 	futures_extensions::async_extensions::AsyncPool,
 	lsp_types::{TraceValue, Url},
-	tracing::info,
+	tracing::{error, info},
 };
 use analyzer_core::base_abstractions::FileId;
 use async_channel::{Receiver, Sender};
@@ -50,7 +50,10 @@ impl AnalyzerWrapper {
 				}
 			}
 		};
-		let require = move |file_path: &str| background_queue.enqueue(Url::parse(file_path).unwrap());
+		let require = move |file_path: &str| match Url::parse(file_path) {
+			Ok(file_url) => background_queue.enqueue(file_url),
+			Err(err) => error!("Could not load the included file '{}'. {}", file_path, err),
+		};
 
 		Self {
 			inner: RefCell::new(analyzer_core::Analyzer::new(resolve_path, require)),
-- 
2.43.0


From a7c1ee859b15126abbe767372d5d7defe8436c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 35/56] fix: didChange with a reversed range crashed the server

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 5a72fe5..dc560f2 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -159,6 +159,11 @@ async fn on_text_document_did_change(
 	};
 
 	use analyzer_abstractions::lsp_types::TextDocumentContentChangeEvent;
+
+	if params.content_changes.iter().any(|change| change.range.map_or(false, |range| range.start > range.end)) {
+		return Err(HandlerError::new_with_data("received a didChange notification with a reversed range", Some(uri)));
+	}
+
 	let event_change = params
 		.content_changes
 		.into_iter()
-- 
2.43.0


From cd864e7841afcadafc3339102904076609343624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 36/56] fix: watched file events of an unknown type crashed the
 server

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index dc560f2..0c49059 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -288,7 +288,7 @@ async fn on_watched_file_change(
 			FileChangeType::CREATED => created_file(&event.uri, &state).await,
 			FileChangeType::CHANGED => created_file(&event.uri, &state).await, // Does the same
 			FileChangeType::DELETED => deleted_file(&event.uri, &state).await,
-			_ => panic!("Type not supported in 1.17 specification"),
+			_ => error!(uri = event.uri.as_str(), "Received an unsupported type of file change."),
 		}
 	}
 
-- 
2.43.0


From 7bed181259ae8e0f5d7502c7c2af511ab6911260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:27 +0000
Subject: [PATCH 37/56] fix: a refused 'initialize' request left state behind
 that broke the next one

It started a background task over its own workspaces, which then competed with
that of the accepted request for the files to load.
---
 .../src/lsp_impl/active_uninitialized.rs      | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
index 6130870..0cebeb2 100644
--- a/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_uninitialized.rs
@@ -49,6 +49,16 @@ async fn on_initialize(
 	params: InitializeParams,
 	state: Arc<AsyncRwLock<State>>,
 ) -> HandlerResult<InitializeResult> {
+	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
+	let watched_files_supported =
+		params.capabilities.workspace.map_or(false, |capabilities| capabilities.did_change_watched_files != None);
+
+	if params.workspace_folders.is_some() && !watched_files_supported {
+		return Err(
+			HandlerError::new(
+				"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."));
+	}
+
 	initialize_client_dependant_state(state.clone(), params.workspace_folders, params.capabilities.window).await;
 
 	let state = state.read().await;
@@ -59,21 +69,7 @@ async fn on_initialize(
 	}
 
 	// If the server has been started without any workspace context, then simply return our 'default' capability.
-	if !state.has_workspaces() {
-		return Ok(create_initialize_result(false));
-	}
-
-	// With a workspace context in place, the P4 Analyzer depends on the LSP client to notify it of external file changes.
-	// If the client supports that capability, then start indexing
-	match params.capabilities.workspace {
-		Some(capabilities)
-			if capabilities.did_change_watched_files != None => Ok(create_initialize_result(true)),
-		_ => {
-			Err(
-				HandlerError::new(
-					"P4 Analyzer requires the Watched Files ('workspace.didChangeWatchedFiles') capability from the LSP client."))
-		}
-	}
+	Ok(create_initialize_result(state.has_workspaces()))
 }
 
 /// Responds to an 'exit' notification from the LSP client.
-- 
2.43.0


From 0d56cdf9dbe1fc6835dfa329293fc822855fde61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 38/56] fix: opened documents turned into errors if they are
 not on disk

The background load, once it found no file, replaced the parsed unit of the
document that had been opened in the meantime.
---
 crates/analyzer-host/src/lsp_impl/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index bdac7d1..912e756 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -226,7 +226,9 @@ impl State {
 
 								file.set_parsed_unit(file_id, None);
 							}
-							None => file.set_index_error(IndexError::NotFound), // The file was not found
+							// The file was not found. This is of no interest if it has been opened in the IDE meanwhile.
+							None if file.is_open_in_ide() => return,
+							None => file.set_index_error(IndexError::NotFound),
 						}
 
 						info!(file_uri = file_url.as_str(), "Finished background analyzing.");
-- 
2.43.0


From 9dbbd028a2a2d7b8bf20b0ce74f4189a13b25069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 39/56] fix: files created after they were first looked for
 were never loaded

---
 .../src/lsp_impl/active_initialized.rs          | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 0c49059..d2db1a3 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -259,8 +259,21 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 			lock.analyzer.unwrap().update(file_id, &content);
 			info!("{} file updated from file system", uri.path());
 		}
-		Err(err) => {
-			error!(uri = uri.as_str(), "Could not query completions. Index error: {}", err);
+		Err(_) => {
+			// The file could not be loaded before, but may be available now.
+			let lock = state.write().await;
+
+			match lock.file_system.file_contents(uri.clone()).await {
+				Some(content) => {
+					let mut analyzer = lock.analyzer.unwrap();
+					let file_id = analyzer.file_id(uri.as_str());
+
+					analyzer.update(file_id, &content);
+					file.set_parsed_unit(file_id, None);
+					info!("{} file loaded from file system", uri.path());
+				}
+				None => error!(uri = uri.as_str(), "Could not find the created or changed file."),
+			}
 		}
 	}
 }
-- 
2.43.0


From 888539c1c714cd3a9157ec2b0ea86d6e247e9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:22 +0000
Subject: [PATCH 40/56] fix: read stdin chunks from their own start in the Node
 adapter

`Buffer.copy` takes positions within the source buffer, not within the pool the
buffer was cut from, so chunks with a non-zero byteOffset lost their start.
---
 packages/p4-analyzer/src/server/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index 8708962..a853550 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -77,7 +77,7 @@ export default class {
 			this.requestBuffer = Buffer.concat([this.requestBuffer, Buffer.alloc(BUFFER_CHUNK_SIZEBYTES * (Math.floor(chunk.byteLength / BUFFER_CHUNK_SIZEBYTES) + 1))]);
 		}
 
-		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset, chunk.byteOffset, chunk.byteLength);
+		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
 		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
 
-- 
2.43.0


From 54224a820f581218ba031c92a32b37444d5bb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:22 +0000
Subject: [PATCH 41/56] fix: keep the bytes after a message in the Node adapter

What followed a message in the same chunk was dropped (or found again as stale
bytes), so messages were lost whenever a chunk did not end with its message.
---
 packages/p4-analyzer/src/server/index.ts | 25 +++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/packages/p4-analyzer/src/server/index.ts b/packages/p4-analyzer/src/server/index.ts
index a853550..c5015ae 100644
--- a/packages/p4-analyzer/src/server/index.ts
+++ b/packages/p4-analyzer/src/server/index.ts
@@ -79,9 +79,18 @@ export default class {
 
 		this.requestBufferOffset += chunk.copy(this.requestBuffer, this.requestBufferOffset);
 
-		const splitOffset = this.requestBuffer.indexOf(BODY_SPLIT_CHARS);
+		while (this.dequeueRequestMessage());
+	}
 
-		if (splitOffset < 0) return; // Still reading the headers. Continue until we get them.
+	/**
+	 * Pulls the first message out of the _running_ buffer, if it is there in full, and queues it for processing.
+	 *
+	 * @returns `true` if a message was queued.
+	 */
+	private dequeueRequestMessage(): boolean {
+		const splitOffset = this.requestBuffer.subarray(0, this.requestBufferOffset).indexOf(BODY_SPLIT_CHARS);
+
+		if (splitOffset < 0) return false; // Still reading the headers. Continue until we get them.
 
 		const headers = this.requestBuffer.subarray(0, splitOffset).toString();
 		const contentLength = Number(CONTENTLENGTH_HEADER_EXP.exec(headers)?.groups["length"]);
@@ -90,19 +99,21 @@ export default class {
 
 		const minRequiredOffset = splitOffset + BODY_SPLIT_CHARS.length + contentLength;
 
-		if (this.requestBufferOffset < minRequiredOffset) return; // Still reading the expected body. Continue until we get it.
+		if (this.requestBufferOffset < minRequiredOffset) return false; // Still reading the expected body. Continue until we get it.
 
-		// We have now received at least one full message. Pull it out and reset the request buffer to continue reading
-		// the next one.
+		// We have now received at least one full message. Pull it out and keep what follows it in the request buffer to
+		// continue reading the next one.
 		const requestMessageBuffer = Buffer.alloc(contentLength);
 
 		this.requestBuffer.copy(requestMessageBuffer, 0, splitOffset + BODY_SPLIT_CHARS.length, minRequiredOffset);
-		this.requestBuffer.copy(this.requestBuffer, 0, minRequiredOffset);
-		this.requestBufferOffset = 0;
+		this.requestBuffer.copyWithin(0, minRequiredOffset, this.requestBufferOffset);
+		this.requestBufferOffset -= minRequiredOffset;
 
 		this.requestMessageBufferQueue.push(requestMessageBuffer);
 
 		setImmediate(this.sendRequestMessageBuffer.bind(this)); // Queue the request message buffer for processing.
+
+		return true;
 	}
 
 	/**
-- 
2.43.0


From 17dfd8cd6418da1b32ec36767856bcb8cfbddf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 42/56] fix: waiters missed a completion that came just before
 they listened

---
 .../analyzer-abstractions/src/futures_extensions.rs   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index ac195d4..840c26c 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -73,8 +73,15 @@ where
 			return value;
 		}
 
-		// Otherwise, await for an on-completed event before returning the set result.
-		self.state.on_completed.listen().await; // Asynchronously wait for the on-completed event.
+		// Otherwise, await for an on-completed event before returning the set result. The value may have been set between
+		// reading the state and starting to listen, in which case no further event will come.
+		let on_completed = self.state.on_completed.listen();
+
+		if let Poll::Ready(value) = self.state() {
+			return value;
+		}
+
+		on_completed.await; // Asynchronously wait for the on-completed event.
 
 		if let Poll::Ready(value) = self.state() {
 			return value;
-- 
2.43.0


From efd6af0cee4b0bbad3450ec64d86f5583c6d2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:02 +0000
Subject: [PATCH 43/56] fix: a completion source could be completed by several
 threads at once

---
 crates/analyzer-abstractions/src/futures_extensions.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/analyzer-abstractions/src/futures_extensions.rs b/crates/analyzer-abstractions/src/futures_extensions.rs
index 840c26c..7440886 100644
--- a/crates/analyzer-abstractions/src/futures_extensions.rs
+++ b/crates/analyzer-abstractions/src/futures_extensions.rs
@@ -110,16 +110,14 @@ where
 
 	#[inline(always)]
 	fn set_inner_value(&self, result: Result<T, TError>) -> FutureCompletionSourceResult<()> {
-		let completed = self.state.completed.load(Ordering::Relaxed);
+		let mut writer = self.state.value.write().unwrap(); // Only one may complete, so decide while holding the lock.
 
-		if completed {
+		if self.state.completed.load(Ordering::Relaxed) {
 			return Err(FutureCompletionSourceError::Invalid);
 		}
 
 		// Store the result, set the `completed` state to true and then notify all those that are currently
 		// awaiting to resolve their 'Future'.
-		let mut writer = self.state.value.write().unwrap();
-
 		writer.replace(result);
 		self.state.completed.store(true, Ordering::Relaxed);
 		self.state.on_completed.notify(usize::MAX); // Notify all awaiting.
-- 
2.43.0


From 849e3e8ace5210dec6722fbe923a574fba78d771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 44/56] fix: reading a file that is not local or not UTF-8
 crashed the native file system

---
 crates/p4-analyzer/src/native_fs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index e63d65e..7226fa2 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -43,12 +43,11 @@ pub mod native_fs {
 
 		fn file_contents<'a>(&'a self, file_uri: Url) -> BoxFuture<'a, Option<String>> {
 			async fn file_contents(file_uri: Url) -> Option<String> {
-				let path = file_uri.to_file_path().unwrap();
-
+				let path = file_uri.to_file_path().ok()?; // Not a local file.
 				let data = tokio::fs::read(path).await;
 
 				match data {
-					Ok(data) => Some(String::from_utf8(data).unwrap()),
+					Ok(data) => String::from_utf8(data).ok(),
 					Err(_) => None,
 				}
 			}
-- 
2.43.0


From f9da91ec4f6b2950bf1c6370d814df9e78c1da27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 45/56] fix: folders that are not local crashed the native file
 system, and their names were taken for patterns

---
 crates/p4-analyzer/src/native_fs.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index 7226fa2..2ad7a6d 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -4,7 +4,7 @@ pub mod native_fs {
 		lsp_types::{TextDocumentIdentifier, Url},
 		BoxFuture,
 	};
-	use glob::glob;
+	use glob::{glob, Pattern};
 
 	pub struct NativeFs {}
 
@@ -20,15 +20,20 @@ pub mod native_fs {
 			file_pattern: String,
 		) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
 			async fn enumerate_folder(folder_uri: Url, file_pattern: String) -> Vec<TextDocumentIdentifier> {
-				let mut folder_uri = folder_uri.clone();
-				folder_uri.path_segments_mut().unwrap().push(&file_pattern);
+				let mut output = Vec::new();
 
-				let glob_pattern = folder_uri.to_file_path().unwrap();
-				let glob_pattern = glob_pattern.to_str().unwrap();
+				let folder_path = match folder_uri.to_file_path() {
+					Ok(folder_path) => folder_path,
+					Err(_) => return output, // Not a local folder.
+				};
 
-				let mut output = Vec::new();
+				// Only `file_pattern` is a pattern, the name of the folder stands for itself.
+				let glob_pattern = match folder_path.to_str() {
+					Some(folder_path) => format!("{}/{}", Pattern::escape(folder_path), file_pattern),
+					None => return output, // Patterns are text, and can't express the folder.
+				};
 
-				for files in glob(glob_pattern).expect("Failed to read glob pattern") {
+				for files in glob(&glob_pattern).expect("Failed to read glob pattern") {
 					match files {
 						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
 						Err(e) => println!("{:?}", e),
-- 
2.43.0


From abc0aab170d70ce22b070812c1a24e421e6eaedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 46/56] fix: folders named like P4 files were listed as files

---
 crates/p4-analyzer/src/native_fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index 2ad7a6d..9971708 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -35,7 +35,8 @@ pub mod native_fs {
 
 				for files in glob(&glob_pattern).expect("Failed to read glob pattern") {
 					match files {
-						Ok(path) => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
+						Ok(path) if path.is_file() => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
+						Ok(_) => {} // A folder that is named like a file.
 						Err(e) => println!("{:?}", e),
 					}
 				}
-- 
2.43.0


From 7e754e1dc85a25fd182ba885415e96c75d812c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 47/56] fix: errors listing a folder were written into the
 protocol stream

---
 crates/p4-analyzer/src/native_fs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/p4-analyzer/src/native_fs.rs b/crates/p4-analyzer/src/native_fs.rs
index 9971708..a9f415b 100644
--- a/crates/p4-analyzer/src/native_fs.rs
+++ b/crates/p4-analyzer/src/native_fs.rs
@@ -37,7 +37,7 @@ pub mod native_fs {
 					match files {
 						Ok(path) if path.is_file() => output.push(TextDocumentIdentifier { uri: Url::from_file_path(path).unwrap() }),
 						Ok(_) => {} // A folder that is named like a file.
-						Err(e) => println!("{:?}", e),
+						Err(e) => eprintln!("{:?}", e), // `stdout` carries the messages of the protocol.
 					}
 				}
 
-- 
2.43.0


From e42e203c6b049f1a7e09dfb32844177422665ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 48/56] fix: the buffer driver crashed or read too much if its
 queue changed during a read

The counter was lowered some time before the message was taken, so clearing the
queue in between made the reader panic, and releasing all messages in between
released one more than there were.
---
 crates/p4-analyzer/src/driver/buffer_driver.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/p4-analyzer/src/driver/buffer_driver.rs b/crates/p4-analyzer/src/driver/buffer_driver.rs
index 16e4ef9..209bf23 100644
--- a/crates/p4-analyzer/src/driver/buffer_driver.rs
+++ b/crates/p4-analyzer/src/driver/buffer_driver.rs
@@ -58,9 +58,9 @@ impl BufferStruct {
 					} // Not ready to read, so continue looping
 
 					*guard -= 1; // confirm we're doing a Read
-					drop(guard); // drop lock to avoid dead locks
 
-					// now wait for data lock because we're been give the all clear
+					// now wait for data lock because we're been give the all clear, keeping the counter until then so that
+					// what it allows us to read can't be cleared or replaced meanwhile
 					let mut lock = self.data.write().unwrap();
 
 					let ret = Some(lock.input_queue.remove().unwrap());
@@ -88,7 +88,10 @@ impl BufferStruct {
 
 	/// Allows Driver to read every message in the Queue & hands over concurrency handler
 	pub async fn allow_all_read_blocking(&self) {
-		*(self.read_queue_count.lock().unwrap()) = self.data.read().unwrap().input_queue.size();
+		{
+			let mut count = self.read_queue_count.lock().unwrap(); // always locked before the data
+			*count = self.data.read().unwrap().input_queue.size();
+		}
 		async_std::task::sleep(Duration::from_millis(0)).await; // see comment above
 	}
 
@@ -173,8 +176,9 @@ impl BufferStruct {
 
 	/// Removes all incoming messages from the Queue and stops any further message reads by Driver
 	pub fn clear_message_buffer(&self) {
+		let mut count = self.read_queue_count.lock().unwrap(); // always locked before the data
 		while self.data.write().unwrap().input_queue.remove().is_ok() {}
-		*(self.read_queue_count.lock().unwrap()) = 0;
+		*count = 0;
 	}
 
 	pub fn clear_both_buffers(&self) {
-- 
2.43.0


From 779768098419068236f5dab57e64e7f46b63d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:57 +0000
Subject: [PATCH 49/56] fix: the server was not told that its input had ended

---
 crates/p4-analyzer/src/driver.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/p4-analyzer/src/driver.rs b/crates/p4-analyzer/src/driver.rs
index cda0124..e19d488 100644
--- a/crates/p4-analyzer/src/driver.rs
+++ b/crates/p4-analyzer/src/driver.rs
@@ -73,6 +73,8 @@ impl Driver {
 				break;
 			}
 		}
+
+		sender.close(); // There is no more input.
 	}
 
 	fn receiver_task(receiver: Receiver<Message>, output_source: DriverType) {
-- 
2.43.0


From 46b81dd84fe62f179d6086c37aa2624a000b477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 50/56] fix: the notice that the server was cancelled was
 written into the protocol stream

---
 crates/p4-analyzer/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/p4-analyzer/src/main.rs b/crates/p4-analyzer/src/main.rs
index 7046615..dc1fef9 100644
--- a/crates/p4-analyzer/src/main.rs
+++ b/crates/p4-analyzer/src/main.rs
@@ -134,7 +134,7 @@ impl<C: Command> RunnableCommand<C> {
 		match cmd.run(cancellation_token).await {
 			Ok(_) => {}
 			Err(err) => match err {
-				CommandInvocationError::Cancelled => println!("{}", err),
+				CommandInvocationError::Cancelled => eprintln!("{}", err),
 				_ => eprintln!("{}", err),
 			},
 		};
-- 
2.43.0


From 74d16de7ba182b7f8f746c16e749451306d99a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 51/56] fix: a background load overwrote what a later change of
 the file on disk had given

---
 crates/analyzer-host/src/lsp/workspace.rs     | 25 +++++++++++++++++++
 .../src/lsp_impl/active_initialized.rs        |  3 +++
 crates/analyzer-host/src/lsp_impl/state.rs    | 12 ++++++++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/analyzer-host/src/lsp/workspace.rs b/crates/analyzer-host/src/lsp/workspace.rs
index 21e888f..72bb769 100644
--- a/crates/analyzer-host/src/lsp/workspace.rs
+++ b/crates/analyzer-host/src/lsp/workspace.rs
@@ -239,6 +239,7 @@ pub enum IndexError {
 #[derive(Clone)]
 pub(crate) struct FileState {
 	is_open_in_ide: bool,
+	revision: usize,
 	parsed_unit: FutureCompletionSource<Arc<RwLock<ParsedUnit>>, IndexError>,
 }
 
@@ -257,6 +258,7 @@ impl File {
 			document_identifier,
 			state: Arc::new(AsyncRwLock::new(FileState {
 				is_open_in_ide: false,
+				revision: 0,
 				parsed_unit: FutureCompletionSource::<Arc<RwLock<ParsedUnit>>, IndexError>::new(),
 			})),
 		}
@@ -296,6 +298,29 @@ impl File {
 		state.is_open_in_ide = false;
 	}
 
+	/// Returns the number of times that the host has told of a change of the current file on disk.
+	pub(crate) fn revision(&self) -> usize {
+		let state = self.state.try_read().unwrap();
+
+		state.revision
+	}
+
+	/// Notes that the host has told of a change of the current file on disk. What has been read from it before is out of date.
+	pub(crate) fn revise(&self) {
+		let mut state = self.state.try_write().unwrap();
+
+		state.revision += 1;
+	}
+
+	/// Completes the parsed unit with an error if it is still pending.
+	pub(crate) fn abandon_load(&self) {
+		let state = self.state.try_read().unwrap();
+
+		if let Poll::Pending = state.parsed_unit.state() {
+			state.parsed_unit.set_err(IndexError::NotFound).unwrap();
+		}
+	}
+
 	pub(crate) fn set_parsed_unit(
 		&self,
 		parsed_unit: ParsedUnit,
diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index d2db1a3..7fe1d56 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -257,6 +257,7 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 			let lock = state.write().await;
 			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
 			lock.analyzer.unwrap().update(file_id, &content);
+			file.revise();
 			info!("{} file updated from file system", uri.path());
 		}
 		Err(_) => {
@@ -270,6 +271,7 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 
 					analyzer.update(file_id, &content);
 					file.set_parsed_unit(file_id, None);
+					file.revise();
 					info!("{} file loaded from file system", uri.path());
 				}
 				None => error!(uri = uri.as_str(), "Could not find the created or changed file."),
@@ -288,6 +290,7 @@ async fn deleted_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 	}
 
 	state.write().await.analyzer.unwrap().delete(uri.as_str());
+	file.revise();
 	info!("{} file deleted from file system", uri.path());
 }
 
diff --git a/crates/analyzer-host/src/lsp_impl/state.rs b/crates/analyzer-host/src/lsp_impl/state.rs
index 912e756..2ded6a8 100644
--- a/crates/analyzer-host/src/lsp_impl/state.rs
+++ b/crates/analyzer-host/src/lsp_impl/state.rs
@@ -211,7 +211,17 @@ impl State {
 							return;
 						}
 
-						match file_system.file_contents(file_url.clone()).await {
+						let revision = file.revision();
+						let contents = file_system.file_contents(file_url.clone()).await;
+
+						// If the file has changed on disk during the fetching of its contents, then they are out of date, and
+						// what was made of the change has to stay.
+						if file.revision() != revision {
+							file.abandon_load();
+							return;
+						}
+
+						match contents {
 							Some(text) => {
 								info!(file_uri = file_url.as_str(), "Got text: {}", text);
 
-- 
2.43.0


From 8a4d61b837dbb86c8bb95ce3a98cba0e8632a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:25 +0000
Subject: [PATCH 52/56] fix: the server never ended when it was cancelled while
 a request waited for a background load

---
 crates/analyzer-host/src/lib.rs | 47 ++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/crates/analyzer-host/src/lib.rs b/crates/analyzer-host/src/lib.rs
index 3509842..711e6d6 100644
--- a/crates/analyzer-host/src/lib.rs
+++ b/crates/analyzer-host/src/lib.rs
@@ -6,7 +6,9 @@ mod lsp_impl;
 pub mod tracing;
 
 use analyzer_abstractions::{
-	fs::AnyEnumerableFileSystem, futures::future::join4 as join_all, futures_extensions::async_extensions::AsyncPool,
+	fs::AnyEnumerableFileSystem,
+	futures::future::{join3 as join_all, select, Either},
+	futures_extensions::async_extensions::AsyncPool,
 	tracing::*,
 };
 use async_channel::{Receiver, Sender};
@@ -70,18 +72,12 @@ impl AnalyzerHost {
 
 		match join_all(
 			self.receive_messages(requests_sender.clone(), responses_sender.clone(), cancel_token.clone()),
-			self.run_protocol_machine(
-				request_manager.clone(),
-				file_system,
-				requests_receiver.clone(),
-				cancel_token.clone(),
-			),
+			self.run(request_manager.clone(), file_system, requests_receiver.clone(), cancel_token.clone()),
 			request_manager.start(cancel_token.clone()),
-			AsyncPool::start(cancel_token.clone()),
 		)
 		.await
 		{
-			(Ok(_), Ok(_), Ok(_), Ok(_)) => {
+			(Ok(_), Ok(_), Ok(_)) => {
 				self.sender.close();
 				self.receiver.close();
 
@@ -91,6 +87,35 @@ impl AnalyzerHost {
 		}
 	}
 
+	/// Runs the protocol machine along with the pool that carries out its background work.
+	async fn run(
+		&self,
+		request_manager: RequestManager,
+		file_system: Arc<AnyEnumerableFileSystem>,
+		requests_receiver: Receiver<Message>,
+		cancel_token: Arc<CancellationToken>,
+	) -> Result<(), OperationCanceled> {
+		let protocol_machine = Box::pin(self.run_protocol_machine(
+			request_manager,
+			file_system,
+			requests_receiver.clone(),
+			cancel_token.clone(),
+		));
+		let pool = Box::pin(AsyncPool::start(cancel_token));
+
+		match select(protocol_machine, pool).await {
+			Either::Left((result, pool)) => pool.await.and(result),
+			Either::Right((result, _)) => {
+				// The protocol machine may be waiting for work that will now never complete, so don't wait for it.
+				self.sender.close();
+				self.receiver.close();
+				requests_receiver.close();
+
+				result
+			}
+		}
+	}
+
 	async fn receive_messages(
 		&self,
 		requests_sender: Sender<Message>,
@@ -120,6 +145,10 @@ impl AnalyzerHost {
 		requests_sender.close();
 		responses_sender.close();
 
+		if cancel_token.is_canceled() {
+			AsyncPool::stop();
+		}
+
 		return Err(OperationCanceled);
 	}
 
-- 
2.43.0


From fdaf7d0a67cf034593dee0e39c24071a182a991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:12 +0000
Subject: [PATCH 53/56] fix: the LSIF dump listed a document below two of its
 folders twice

---
 crates/lsif-p4/src/lsif_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/lsif-p4/src/lsif_writer.rs b/crates/lsif-p4/src/lsif_writer.rs
index d15787c..11fe624 100644
--- a/crates/lsif-p4/src/lsif_writer.rs
+++ b/crates/lsif-p4/src/lsif_writer.rs
@@ -59,6 +59,11 @@ impl LsifWriter {
 	}
 
 	pub fn document(&mut self, url: &Url) -> i32 {
+		// A document below several of the workspace folders is only written once
+		if let Some(id) = self.data.files.get(url) {
+			return *id;
+		}
+
 		let new_id = self.get_id();
 		let id = Self::i32_to_enum(new_id);
 
-- 
2.43.0


From edadda8e410f8d4af0c5144127b8cf039a4eda2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:14 +0000
Subject: [PATCH 54/56] fix: the LSIF dump listed included files that do not
 exist

---
 crates/lsif-p4/src/lsif_generator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/lsif-p4/src/lsif_generator.rs b/crates/lsif-p4/src/lsif_generator.rs
index ee3b241..3012c9c 100644
--- a/crates/lsif-p4/src/lsif_generator.rs
+++ b/crates/lsif-p4/src/lsif_generator.rs
@@ -165,7 +165,10 @@ impl LsifGenerator {
 		let workspace_manager = self.read_workspace_manager().await;
 		for workspace in workspace_manager.workspaces {
 			for (url, _file) in workspace.1.files.read().unwrap().iter() {
-				self.writer.document(url);
+				// A file that is included somewhere is known to the workspace even if there is no such file
+				if url.to_file_path().map_or(false, |path| path.is_file()) {
+					self.writer.document(url);
+				}
 			}
 		}
 	}
-- 
2.43.0


From c14d11e15fe5465d749ee44dd108172d4fb3cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:15 +0000
Subject: [PATCH 55/56] fix: the LSIF dump could be written before the files
 were known

---
 crates/lsif-p4/src/lsif_generator.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/lsif-p4/src/lsif_generator.rs b/crates/lsif-p4/src/lsif_generator.rs
index 3012c9c..5c3f9b8 100644
--- a/crates/lsif-p4/src/lsif_generator.rs
+++ b/crates/lsif-p4/src/lsif_generator.rs
@@ -151,14 +151,25 @@ impl LsifGenerator {
 			.unwrap()
 			.send_messages(queue![initialize_request, initialized_notification])
 			.await;
-		// results
-		let _ = self.driver.as_ref().unwrap().get_output_buffer(1).await;
+		// results: the response to the initialize request, and the request to watch files, which is answered below
+		let _ = self.driver.as_ref().unwrap().get_output_buffer(2).await;
 
 		let initialized_response =
 			Message::Response(Response { id: 0.into(), result: Some(serde_json::json!(())), error: None });
 		self.driver.as_ref().unwrap().send_messages(queue![initialized_response]).await;
 
-		self.driver.as_ref().unwrap().wait_for_process_messages().await;
+		// Messages are handled in order: once a further request has been answered, the workspace folders are indexed
+		let hover_params = lsp_types::HoverParams {
+			text_document_position_params: lsp_types::TextDocumentPositionParams {
+				text_document: lsp_types::TextDocumentIdentifier { uri: Url::parse("file:///").unwrap() },
+				position: Default::default(),
+			},
+			work_done_progress_params: Default::default(),
+		};
+		let json = serde_json::json!(hover_params);
+		let hover_request =
+			Message::Request(Request { id: 1.into(), method: String::from("textDocument/hover"), params: json });
+		let _ = self.driver.as_ref().unwrap().send_recieve_messages(queue![hover_request], 1).await;
 
 		// access workspace_manager
 		// write the URLs to file
-- 
2.43.0


From ed4d4a8c6c0f64b05dec2571666d68034bcd2759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:36 +0000
Subject: [PATCH 56/56] fix: a background load that ended during the handling
 of a file's change undid it

---
 crates/analyzer-host/src/lsp_impl/active_initialized.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/analyzer-host/src/lsp_impl/active_initialized.rs b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
index 7fe1d56..8e99c67 100644
--- a/crates/analyzer-host/src/lsp_impl/active_initialized.rs
+++ b/crates/analyzer-host/src/lsp_impl/active_initialized.rs
@@ -255,6 +255,7 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 	match file.get_parsed_unit().await {
 		Ok(file_id) => {
 			let lock = state.write().await;
+			file.revise(); // whatever is still being loaded is out of date
 			let content = lock.file_system.file_contents(uri.clone()).await.unwrap_or_default();
 			lock.analyzer.unwrap().update(file_id, &content);
 			file.revise();
@@ -263,6 +264,7 @@ async fn created_file(uri: &Url, state: &Arc<AsyncRwLock<State>>) {
 		Err(_) => {
 			// The file could not be loaded before, but may be available now.
 			let lock = state.write().await;
+			file.revise();
 
 			match lock.file_system.file_contents(uri.clone()).await {
 				Some(content) => {
-- 
2.43.0

