//! C11 tokens and spans, C12 integer literals, C13 lexical errors.
use crate::docs::*;
use analyzer_core::lexer::{Literal, Token};
use analyzer_core::preprocessor::{PreprocessorDirective as D, PreprocessorQuotationStyle as Q};
use analyzer_core::Analyzer;
use pbt::{ensure, Ctx, Fail, Pinned, Property, Res, Src, Target};
use std::ops::Range;

type Toks = Vec<(Token, Range<usize>)>;
const PATH: &str = "file:///w/a.p4";

fn analyzer() -> Analyzer { Analyzer::new(|_, p| Ok(format!("file:///w/{p}")), |_| ()) }

fn lex(a: &mut Analyzer, text: &str) -> Toks {
	let id = a.file_id(PATH);
	a.update(id, &text.to_string());
	a.lexed(id).unwrap().clone()
}

/// Adjacent error tokens as one.
fn merged(t: &Toks) -> Toks {
	let mut out: Toks = vec![];
	for (tk, r) in t {
		match out.last_mut() {
			Some((Token::Error, last)) if *tk == Token::Error && last.end == r.start => last.end = r.end,
			_ => out.push((tk.clone(), r.clone())),
		}
	}
	out
}

pub fn covers(text: &str, t: &Toks) -> Res {
	let mut at = 0;
	for (tk, r) in t {
		ensure!(r.start == at, "gap or overlap", "token {tk:?} at {r:?} does not start where the one before ends ({at})");
		ensure!(r.end > r.start, "empty token", "token {tk:?} at {r:?} is empty");
		ensure!(r.end <= text.len() && text.is_char_boundary(r.start) && text.is_char_boundary(r.end), "span", "{r:?} cuts a character");
		at = r.end;
	}
	ensure!(at == text.len(), "end not covered", "tokens end at {at} of {}", text.len());
	Ok(())
}

const KEYWORDS: [(&str, Token); 11] = [
	("action", Token::KwAction),
	("apply", Token::KwApply),
	("control", Token::KwControl),
	("else", Token::KwElse),
	("header", Token::KwHeader),
	("if", Token::KwIf),
	("return", Token::KwReturn),
	("state", Token::KwState),
	("table", Token::KwTable),
	("transition", Token::KwTransition),
	("typedef", Token::KwTypedef),
];

const PUNCT: [(&str, Token); 17] = [
	("{", Token::OpenBrace),
	("}", Token::CloseBrace),
	("[", Token::OpenBracket),
	("]", Token::CloseBracket),
	("(", Token::OpenParen),
	(")", Token::CloseParen),
	("<", Token::OpenChevron),
	(">", Token::CloseChevron),
	(":", Token::Colon),
	(";", Token::Semicolon),
	(",", Token::Comma),
	(".", Token::Dot),
	("=", Token::Equals),
	("*", Token::Asterisk),
	("/", Token::Slash),
	("+", Token::Plus),
	("-", Token::Minus),
];

/// Characters no token starts with.
const UNKNOWN: [&str; 16] = ["@", "!", "&", "|", "^", "~", "?", "%", "$", "\"", "'", "`", "\\", "é", "€", "𒀀"];

fn ident(s: &mut Src) -> (String, Token) {
	let t = match s.weighted(&[3, 3, 1]) {
		0 => {
			// near a keyword
			let (k, _) = s.pick(&KEYWORDS);
			match s.usize(4) {
				0 => format!("{k}{}", s.pick(&["s", "_", "1", "X"])),
				1 => format!("{}{k}", s.pick(&["s", "_", "X"])),
				2 => k[..k.len() - 1].to_string(),
				_ => k.to_uppercase(),
			}
		}
		1 => {
			let first = *s.pick(&['a', 'Z', '_', 'w', 's', 'b', 'x', 'i', 'e']);
			let rest = s.string(6, &['a', 'f', '0', '9', '_', 'Q', 'w', 'l', 's', 'e', 'i']);
			format!("{first}{rest}")
		}
		_ => "_".to_string(),
	};
	match KEYWORDS.iter().find(|(k, _)| *k == t) {
		Some((_, k)) => (t, k.clone()),
		None => (t.clone(), Token::Identifier(t)),
	}
}

/// The reference reading of an integer literal: `Ok(None)` where the grammar's variants disagree.
pub fn literal(t: &str) -> Result<Option<Literal>, ()> {
	let (mut width, mut signed) = (None, false);
	let mut rest = t;
	let n = t.bytes().take_while(|b| b.is_ascii_digit()).count();
	if let Some(c @ (b'w' | b's')) = t.as_bytes().get(n).copied() {
		width = Some(t[..n].parse::<u32>().map_err(|_| ())?);
		signed = c == b's';
		rest = &t[n + 1..];
	}
	let mut base = 10u8;
	let b = rest.as_bytes();
	if b.len() >= 2 && b[0] == b'0' {
		let explicit = match b[1] {
			b'b' | b'B' => Some(2),
			b'o' | b'O' => Some(8),
			b'd' | b'D' => Some(10),
			b'x' | b'X' => Some(16),
			_ => None,
		};
		if let Some(x) = explicit {
			base = x;
			rest = &rest[2..];
		}
	}
	let leading_underscore = rest.starts_with('_');
	let mut value: i128 = 0;
	let mut digits = 0;
	for c in rest.chars() {
		if c == '_' {
			continue;
		}
		value = value * base as i128 + c.to_digit(base as u32).ok_or(())? as i128;
		digits += 1;
		if value > i64::MAX as i128 {
			return Err(());
		}
	}
	if digits == 0 {
		return Err(());
	}
	if leading_underscore {
		return Ok(None);
	}
	Ok(Some(Literal { base, signed, width, value: value as i64 }))
}

fn good_literal(s: &mut Src) -> (String, Literal) {
	let width = if s.bool() {
		Some(match s.weighted(&[4, 1, 1]) {
			0 => s.below(65) as u32,
			1 => u32::MAX - s.below(2) as u32,
			_ => s.below(1 << 20) as u32,
		})
	} else {
		None
	};
	let signed = width.is_some() && s.bool();
	let (base, prefix) = *s.pick(&[(10u8, ""), (16, "0x"), (2, "0b"), (8, "0o"), (10, "0d"), (16, "0X"), (2, "0B"), (8, "0O"), (10, "0D")]);
	let value = s.int();
	let mut digits = match base {
		2 => format!("{value:b}"),
		8 => format!("{value:o}"),
		16 if s.bool() => format!("{value:X}"),
		16 => format!("{value:x}"),
		_ => value.to_string(),
	};
	for _ in 0..s.usize(3) {
		digits.insert(0, '0');
	}
	if base == 16 && s.chance(1, 6) {
		// digits that look like a base prefix
		digits = format!("0b{}", s.usize(2));
		return finish_literal(s, width, signed, base, prefix, 0xb0 + digits[2..].parse::<i64>().unwrap(), digits);
	}
	finish_literal(s, width, signed, base, prefix, value, digits)
}

fn finish_literal(s: &mut Src, width: Option<u32>, signed: bool, base: u8, prefix: &str, value: i64, mut digits: String) -> (String, Literal) {
	for _ in 0..s.usize(3) {
		let i = 1 + s.usize(digits.len());
		digits.insert(i, '_');
	}
	let mut t = String::new();
	if let Some(w) = width {
		if s.chance(1, 8) {
			t.push('0');
		}
		t += &format!("{w}{}", if signed { 's' } else { 'w' });
	}
	t += prefix;
	t += &digits;
	(t, Literal { base, signed, width, value })
}

const LITERAL_CHARS: [char; 20] =
	['0', '1', '9', '2', '7', 'w', 's', 'b', 'x', 'o', 'd', '_', 'a', 'f', 'X', 'B', '8', 'D', 'O', 'F'];

fn any_literal(s: &mut Src) -> String {
	match s.weighted(&[3, 3, 1]) {
		0 => {
			let first = *s.pick(&['0', '1', '9', '8']);
			format!("{first}{}", s.string(8, &LITERAL_CHARS))
		}
		1 => {
			// a literal with one thing wrong
			let (t, _) = good_literal(s);
			let mut c: Vec<char> = t.chars().collect();
			match s.usize(3) {
				0 => {
					let i = 1 + s.usize(c.len());
					c.insert(i, *s.pick(&LITERAL_CHARS))
				}
				1 => {
					let i = s.usize(c.len());
					c.remove(i);
				}
				_ => {
					let i = s.usize(c.len());
					c[i] = *s.pick(&LITERAL_CHARS)
				}
			}
			if c.first().map_or(true, |c| !c.is_ascii_digit()) {
				c.insert(0, '0');
			}
			c.into_iter().collect()
		}
		_ => {
			// too large
			let n = 18 + s.usize(40);
			let mut t = String::from(*s.pick(&["", "8w", "0x", "64s0x", "0b", "4294967296w", "99999999999999999999s"]));
			for _ in 0..n {
				t.push(*s.pick(&['9', '1', '0']));
			}
			t
		}
	}
}

/// Appends one random piece; returns what class it is.
fn piece(s: &mut Src, text: &mut String, out: &mut Toks, last: bool) {
	let wordy = |t: &str| t.chars().last().map_or(false, |c| c.is_alphanumeric() || c == '_' || c == '\\' || c == '#');
	let mut put = |text: &mut String, out: &mut Toks, t: &str, tk: Token| {
		let a = text.len();
		text.push_str(t);
		out.push((tk, a..text.len()));
	};
	let blank = |s: &mut Src, text: &mut String, out: &mut Toks| {
		let t = *s.pick(&[" ", "\n", "\t", "  \n ", "\r\n", "\n\n", "\u{a0}", "\u{2003} ", "\u{b}", "\u{c}"]);
		let a = text.len();
		text.push_str(t);
		match out.last_mut() {
			Some((Token::Whitespace, r)) => r.end = text.len(),
			_ => out.push((Token::Whitespace, a..text.len())),
		}
	};
	match s.weighted(&[5, 4, 4, 6, 4, 2, 2, 2]) {
		0 => blank(s, text, out),
		1 => {
			if wordy(text) {
				blank(s, text, out)
			}
			let (t, k) = s.pick(&KEYWORDS).clone();
			put(text, out, t, k);
		}
		2 => {
			if wordy(text) {
				blank(s, text, out)
			}
			let (t, k) = ident(s);
			put(text, out, &t, k);
		}
		3 => {
			let (t, k) = s.pick(&PUNCT).clone();
			if text.ends_with('/') && (t == "/" || t == "*") {
				blank(s, text, out)
			}
			put(text, out, t, k);
		}
		4 => {
			if wordy(text) {
				blank(s, text, out)
			}
			let (t, l) = good_literal(s);
			put(text, out, &t, Token::Integer(l));
		}
		5 => {
			if text.ends_with('/') {
				blank(s, text, out)
			}
			if s.bool() {
				let body = s.string(8, &['a', ' ', '/', '*', '#', '"', 'é', '\t', '\\']);
				let end = if last && s.bool() { "" } else { "\n" };
				put(text, out, &format!("//{body}{end}"), Token::Comment);
			} else {
				let body = s.string(8, &['a', ' ', '/', '*', '#', '\n', 'é', '\\']).replace("*/", "* /");
				let body = if body.ends_with('*') { body + " " } else { body };
				let stars = *s.pick(&["*", "*", "**", "***"]);
				put(text, out, &format!("/*{body}{stars}/").replacen("/*/", "/* /", (body.is_empty() && stars.is_empty()) as usize), Token::Comment);
			}
		}
		6 => {
			let sp = *s.pick(&["", "", " ", "\t "]);
			let nl = if last && s.bool() { "" } else { "\n" };
			let path = *s.pick(&["core.p4", "a b/c.p4", "../é.p4", "x>y"]);
			let (t, d) = match s.usize(9) {
				0 => (format!("#{sp}include \"{path}\""), D::Include(Q::DoubleQuotes, path.to_string())),
				1 => ("#include <core.p4>".replacen('#', &format!("#{sp}"), 1), D::Include(Q::AngleBrackets, "core.p4".into())),
				2 => (format!("#{sp}else"), D::Else),
				3 => (format!("#{sp}endif"), D::EndIf),
				4 => (format!("#{sp}define NAME 1 + x"), D::Define("NAME".into(), "1 + x".into())),
				5 => (format!("#{sp}undef NAME"), D::Undef("NAME".into())),
				6 => (format!("#{sp}pragma a b"), D::Pragma("a b".into())),
				7 => (format!("#{sp}frobnicate a b"), D::Other("frobnicate".into(), " a b".into())),
				_ => (format!("#{sp}define _x"), D::Define("_x".into(), "".into())),
			};
			put(text, out, &format!("{t}{nl}"), Token::PreprocessorDirective(d));
		}
		_ => {
			let n = 1 + s.usize(3);
			for _ in 0..n {
				let t = *s.pick(&UNKNOWN);
				put(text, out, t, Token::Error);
			}
		}
	}
}

fn tokens(s: &mut Src, c: &mut Ctx) -> Res {
	let mut text = String::new();
	let mut want = vec![];
	let n = 1 + s.usize(14);
	for i in 0..n {
		piece(s, &mut text, &mut want, i + 1 == n);
	}
	c.show(format!("{text:?}"));
	let want = merged(&want);
	c.nontrivial(want.iter().filter(|(t, _)| *t != Token::Whitespace).count() > 1);
	for (t, _) in &want {
		c.label(match t {
			Token::Comment => "comment",
			Token::Integer(_) => "integer",
			Token::PreprocessorDirective(_) => "directive",
			Token::Error => "unrecognised text",
			Token::Identifier(_) => "identifier",
			_ => "other",
		});
	}
	let mut a = analyzer();
	let got = lex(&mut a, &text);
	covers(&text, &got)?;
	let got = merged(&got);
	if let Some(i) = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)) {
		return Err(Fail::new("tokens", format!("token {i} is {:?}, should be {:?}", got.get(i), want.get(i))));
	}
	Ok(())
}

/// Text of any kind: tokens still cover it.
fn any_text(s: &mut Src, c: &mut Ctx) -> Res {
	let text = crate::pre::soup(s);
	c.show(format!("{text:?}"));
	c.nontrivial(text.len() > 3);
	let mut a = analyzer();
	let got = lex(&mut a, &text);
	covers(&text, &got)?;
	// words are what they are, wherever they stand
	for (t, r) in &got {
		let w = &text[r.clone()];
		let ok = match t {
			Token::Identifier(n) => n == w && !KEYWORDS.iter().any(|(k, _)| *k == w),
			Token::Whitespace => w.trim().is_empty(),
			Token::Comment => w.starts_with("//") || (w.starts_with("/*") && w.ends_with("*/") && w.len() >= 4),
			Token::PreprocessorDirective(_) => w.starts_with('#'),
			Token::Integer(_) => w.starts_with(|c: char| c.is_ascii_digit()),
			Token::Error => true,
			k => KEYWORDS.iter().chain(&PUNCT).any(|(x, tk)| *x == w && tk == k),
		};
		ensure!(ok, "classification", "{w:?} is classified as {t:?}");
	}
	Ok(())
}

pub fn c11() -> Property {
	Property {
		id: "C11",
		targets: vec![
			Target { name: "built from known tokens", quick: 1_000_000, thorough: 20_000_000, rule: "two or more tokens that are not blanks", run: tokens },
			Target { name: "any text", quick: 500_000, thorough: 10_000_000, rule: "more than three bytes", run: any_text },
		],
		pinned: vec![Pinned {
			name: "line comment at the end of the text",
			run: || {
				let got = lex(&mut analyzer(), "; // end");
				ensure!(got.last() == Some(&(Token::Comment, 2..8)), "tokens", "{got:?}");
				Ok(())
			},
		}],
		assumptions: vec![SALSA],
	}
}

pub const SALSA: &str = "salsa-2022 is not available offline: its interface is provided by /verif/harness/shims/salsa, which recomputes a query for every distinct argument; faults of the real salsa are out of reach";

fn check_literal(t: &str, want: Result<Literal, ()>, before: &str, after: &str) -> Res {
	let text = format!("{before}{t}{after}");
	let mut a = analyzer();
	let got = lex(&mut a, &text);
	covers(&text, &got)?;
	let at = before.len()..before.len() + t.len();
	let got = merged(&got);
	let here: Vec<_> = got.iter().filter(|(_, r)| r.start < at.end && r.end > at.start).collect();
	let diags = observe(&a, PATH).diagnostics;
	let reported = diags.iter().any(|d| d.1 == at.start && d.2 == at.end && d.4 == 4 && d.0 == PATH);
	match want {
		Ok(l) => {
			ensure!(here == vec![&(Token::Integer(l.clone()), at.clone())], "literal", "{t:?} is read as {here:?}, should be {l:?}");
			ensure!(!reported, "error on a literal", "{t:?}: {diags:?}");
		}
		Err(()) => {
			ensure!(here == vec![&(Token::Error, at.clone())], "not a literal", "{t:?} is read as {here:?}, should be an error");
			ensure!(reported, "no error reported", "{t:?}: {diags:?}");
		}
	}
	Ok(())
}

const AROUND: [&str; 8] = ["", " ", "(", "<", "\n", ";", "é ", "-"];
/// What may follow directly: nothing unrecognised, which would be one run with a malformed literal.
const AFTER: [&str; 8] = ["", " ", "(", "<", "\n", ";", " é", "-"];

fn good(s: &mut Src, c: &mut Ctx) -> Res {
	let (t, l) = good_literal(s);
	let (before, after) = (*s.pick(&AROUND), *s.pick(&AFTER));
	c.show(format!("{before:?} {t:?} {after:?}"));
	c.label(format!("base {}", l.base));
	c.label(if l.width.is_none() { "no width" } else if l.signed { "signed" } else { "unsigned" });
	c.label_if(t.contains('_'), "underscores");
	c.nontrivial(l.width.is_some() || l.base != 10 || t.contains('_'));
	// the generator and the reference reader must agree
	ensure!(literal(&t) == Ok(Some(l.clone())), "harness", "{t:?} {:?} {l:?}", literal(&t));
	check_literal(&t, Ok(l), before, after)
}

fn any_digits(s: &mut Src, c: &mut Ctx) -> Res {
	let t = any_literal(s);
	let (before, after) = (*s.pick(&AROUND), *s.pick(&AFTER));
	c.show(format!("{before:?} {t:?} {after:?}"));
	let want = match literal(&t) {
		Ok(None) => return Ok(()),
		Ok(Some(l)) => Ok(l),
		Err(()) => Err(()),
	};
	c.label(if want.is_ok() { "a literal" } else { "not a literal" });
	c.nontrivial(want.is_err());
	check_literal(&t, want, before, after)
}

pub fn c12() -> Property {
	Property {
		id: "C12",
		targets: vec![
			Target { name: "literals", quick: 600_000, thorough: 12_000_000, rule: "has a width, a base prefix or an underscore", run: good },
			Target { name: "digit sequences", quick: 600_000, thorough: 12_000_000, rule: "is not a literal", run: any_digits },
		],
		pinned: vec![
			Pinned { name: "underscores", run: || check_literal("1_000", Ok(Literal { base: 10, signed: false, width: None, value: 1000 }), " ", ";") },
			Pinned { name: "width too large", run: || check_literal("99999999999w1", Err(()), " ", ";") },
			Pinned { name: "base prefix inside", run: || check_literal("10b1", Err(()), " ", ";") },
			Pinned { name: "width inside", run: || check_literal("0x8w1", Err(()), " ", ";") },
		],
		assumptions: vec![SALSA, "a digit part that starts with an underscore is not generated as a literal (P4 grammars differ on it)"],
	}
}

fn unexpected(a: &Analyzer, path: &str) -> Vec<(usize, usize)> {
	let mut v: Vec<_> = a
		.diagnostics(a.file_id(path))
		.iter()
		.filter(|d| d.message == "unexpected token" && a.path(d.file) == path && severity(&d.severity) == 4)
		.map(|d| (d.location.start, d.location.end))
		.collect();
	v.sort();
	v
}

fn runs(t: &Toks) -> Vec<(usize, usize)> {
	merged(t).iter().filter(|(t, _)| *t == Token::Error).map(|(_, r)| (r.start, r.end)).collect()
}

fn error_runs(s: &mut Src, c: &mut Ctx) -> Res {
	let mut text = String::new();
	let mut want = vec![];
	let n = 1 + s.usize(10);
	for i in 0..n {
		if s.bool() {
			let t: String = (0..1 + s.usize(3)).map(|_| *s.pick(&UNKNOWN)).collect();
			let a = text.len();
			text += &t;
			want.push((Token::Error, a..text.len()));
		} else {
			piece(s, &mut text, &mut want, i + 1 == n);
		}
	}
	// unrelated documents
	let mut a = analyzer();
	for k in 0..s.usize(3) {
		let id = a.file_id(&format!("file:///w/other{k}.p4"));
		let t = crate::pre::soup(s);
		a.update(id, &t);
	}
	c.show(format!("{text:?}"));
	let got = lex(&mut a, &text);
	let want = runs(&want);
	c.label(format!("{} runs", want.len().min(4)));
	c.label_if(want.last().map_or(false, |r| r.1 == text.len()), "error at the end");
	c.label_if(want.first().map_or(false, |r| r.0 == 0), "error at the start");
	c.nontrivial(!want.is_empty());
	let u = unexpected(&a, PATH);
	ensure!(u == want, "error runs", "reported {u:?}, should be {want:?} (tokens {got:?})");
	// well-formed text has no lexical error of any kind
	if want.is_empty() {
		let toks: Vec<_> = a.diagnostics(a.file_id(PATH)).iter().map(|d| (d.message.clone(), d.location.clone())).collect();
		let directives: Vec<_> = got.iter().filter(|(t, _)| matches!(t, Token::PreprocessorDirective(_))).map(|(_, r)| r.clone()).collect();
		ensure!(toks.iter().all(|(_, r)| directives.contains(r)), "error in well-formed text", "{toks:?}");
	}
	Ok(())
}

fn any_errors(s: &mut Src, c: &mut Ctx) -> Res {
	let text = crate::pre::soup(s);
	c.show(format!("{text:?}"));
	let mut a = analyzer();
	let got = lex(&mut a, &text);
	let want = runs(&got);
	c.nontrivial(!want.is_empty());
	let u = unexpected(&a, PATH);
	ensure!(u == want, "error runs", "reported {u:?}, should be {want:?} (tokens {got:?})");
	Ok(())
}

pub fn c13() -> Property {
	Property {
		id: "C13",
		targets: vec![
			Target { name: "known error runs", quick: 600_000, thorough: 12_000_000, rule: "some run of unrecognised text", run: error_runs },
			Target { name: "any text", quick: 400_000, thorough: 8_000_000, rule: "some error token", run: any_errors },
			Target { name: "errors of directives", quick: 200_000, thorough: 4_000_000, rule: "some preprocessing error", run: crate::pre::errors },
		],
		pinned: vec![],
		assumptions: vec![SALSA],
	}
}
