//! C14 conditional sections, C15 conditions, C16 includes, C17 history independence, C18 robustness.
use crate::docs::*;
use crate::expr::{self, E, V};
use crate::lexing::SALSA;
use analyzer_core::lexer::Token;
use analyzer_core::lsp_file::{ChangeEvent, Position, Range as LspRange};
use analyzer_core::Analyzer;
use pbt::{ensure, Ctx, Fail, Pinned, Property, Res, Src, Target};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn path(i: usize) -> String { format!("file:///w/f{i}.p4") }

/// Relative paths are relative to the folder of the file.
fn resolve(base: &str, p: &str) -> Result<String, String> {
	Ok(if p.starts_with("file:") { p.to_string() } else { format!("{}/{p}", base.rsplit_once('/').map_or("", |b| b.0)) })
}

fn analyzer() -> (Analyzer, Rc<RefCell<Vec<String>>>) {
	let required = Rc::new(RefCell::new(vec![]));
	let r = required.clone();
	(Analyzer::new(resolve, move |p| r.borrow_mut().push(p.to_string())), required)
}

fn load(a: &mut Analyzer, docs: &[Doc]) {
	for (i, d) in docs.iter().enumerate() {
		let id = a.file_id(&path(i));
		a.update(id, &d.text);
	}
}

fn index(p: &str) -> usize { p.trim_start_matches("file:///w/f").trim_end_matches(".p4").parse().unwrap_or(usize::MAX) }

/// Compares what the analyzer says about file `root` with the reference.
fn compare(a: &Analyzer, docs: &[Doc], root: usize, want: &Outcome) -> Res {
	let got = observe(a, &path(root));
	let tokens: Vec<_> = got.tokens.iter().flatten().map(|(p, t, r)| (index(p), t.clone(), r.clone())).collect();
	for (f, t, r) in &tokens {
		let ok = docs.get(*f).map_or(false, |d| r.start <= r.end && d.text.get(r.clone()).is_some());
		ensure!(ok, "token location", "{t:?} at {r:?} of file {f}");
	}
	let mut plain = vec![];
	for (f, t, r) in tokens {
		match (plain.last_mut(), &t) {
			(_, Token::Whitespace) => (),
			(_, Token::Error) => {
				// the lexer may cut unrecognised text as it likes
				plain.push((f, t, r))
			}
			_ => plain.push((f, t, r)),
		}
	}
	if let Some(i) = (0..plain.len().max(want.tokens.len())).find(|i| plain.get(*i) != want.tokens.get(*i)) {
		return Err(Fail::new("selected tokens", format!("token {i} is {:?}, should be {:?}", plain.get(i), want.tokens.get(i))));
	}
	// preprocessing errors: what is left when the lexical ones are taken away
	let mut errors: Vec<_> = got
		.diagnostics
		.iter()
		.filter(|d| d.3 != "unexpected token")
		.map(|d| (index(&d.0), d.1..d.2, d.4))
		.collect();
	errors.sort_by_key(|e| (e.0, e.1.start, e.1.end));
	let mut expected: Vec<_> = want.errors.iter().map(|(f, r)| (*f, r.clone(), 4u8)).collect();
	expected.sort_by_key(|e| (e.0, e.1.start, e.1.end));
	ensure!(errors == expected, "directive errors", "reported {:?}, should be {:?}", got.diagnostics, expected);
	Ok(())
}

/// A balanced section, each section with its directives.
fn balanced(s: &mut Src, d: &mut Doc, counter: &mut u32, depth: usize, leafs: &mut dyn FnMut(&mut Src, &mut Doc)) {
	let n = s.usize(5);
	for _ in 0..n {
		match s.weighted(&[5, if depth > 0 { 5 } else { 0 }, 3, 1, 1, 2]) {
			0 => line(s, d, counter),
			1 => {
				cond(s, d, false);
				balanced(s, d, counter, depth - 1, leafs);
				for _ in 0..s.usize(3) {
					cond(s, d, true);
					balanced(s, d, counter, depth - 1, leafs);
				}
				if s.bool() {
					d.dir(s, "else".into(), Dir::Else);
					balanced(s, d, counter, depth - 1, leafs);
				}
				d.dir(s, "endif".into(), Dir::Endif);
			}
			2 => define(s, d),
			3 => undef(s, d),
			4 => other(s, d),
			_ => leafs(s, d),
		}
	}
}

fn sections(s: &mut Src, c: &mut Ctx) -> Res {
	let mut d = Doc::default();
	let mut counter = 0;
	balanced(s, &mut d, &mut counter, 3, &mut |_, _| ());
	line(s, &mut d, &mut counter);
	if s.chance(1, 4) {
		d.cut_last_newline();
	}
	finish(c, vec![d])
}

fn finish(c: &mut Ctx, docs: Vec<Doc>) -> Res {
	c.show(docs.iter().enumerate().map(|(i, d)| format!("f{i}: {:?}", d.text)).collect::<Vec<_>>().join("; "));
	let want = preprocess(&docs, 0);
	let conds = docs[0].items.iter().filter(|(i, _)| matches!(i, Item::Dir(Dir::If(_) | Dir::Elif(_)))).count();
	c.label_if(want.undecided, "undecided by C");
	c.label_if(want.skipped > 0, "something skipped");
	c.label_if(!want.errors.is_empty(), "some directive error");
	c.label_if(want.errors.len() > 1, "several directive errors");
	c.nontrivial(!want.undecided && conds > 0 && want.skipped > 0 && !want.tokens.is_empty());
	let (mut a, _) = analyzer();
	load(&mut a, &docs);
	if want.undecided {
		observe(&a, &path(0));
		return Ok(());
	}
	compare(&a, &docs, 0, &want)
}

/// Directives in any order, well-nested or not.
fn ill_nested(s: &mut Src, c: &mut Ctx) -> Res {
	let d = flat(s);
	finish(c, vec![d])
}

fn flat(s: &mut Src) -> Doc {
	let mut d = Doc::default();
	let mut counter = 0;
	let n = 1 + s.usize(14);
	for _ in 0..n {
		// where are we?  Two things are left out because the documents the analyzer follows differ on them:
		// an #elif after an #else, and a repeated #else in a section that is itself skipped
		let mut stack: Vec<(bool, bool)> = vec![];
		let mut env = expr::Env::new();
		let mut taken = vec![];
		for (i, _) in &d.items {
			let active = stack.iter().all(|f: &(bool, bool)| f.1);
			let mut holds = |e: &E| match expr::eval(e, &env) {
				V::Val(v) => v != 0,
				_ => false,
			};
			match i {
				Item::Dir(Dir::If(e)) => {
					let h = holds(e);
					stack.push((false, h));
					taken.push(h)
				}
				Item::Dir(Dir::Elif(e)) => {
					if let (Some(f), Some(t)) = (stack.last_mut(), taken.last_mut()) {
						f.1 = !*t && holds(e);
						*t |= f.1;
					}
				}
				Item::Dir(Dir::Else) => {
					if let (Some(f), Some(t)) = (stack.last_mut(), taken.last_mut()) {
						*f = (true, !*t);
						*t = true;
					}
				}
				Item::Dir(Dir::Endif) => {
					stack.pop();
					taken.pop();
				}
				Item::Dir(Dir::Define(n, b)) if active => {
					env.insert(n, b.clone());
				}
				Item::Dir(Dir::Undef(n)) if active => {
					env.remove(n);
				}
				_ => (),
			}
		}
		let seen_else = stack.last().map_or(false, |f| f.0);
		let parent_active = stack.iter().rev().skip(1).all(|f| f.1);
		match s.weighted(&[4, 4, 3, 3, 3, 1, 1, 1]) {
			0 => line(s, &mut d, &mut counter),
			1 => cond(s, &mut d, false),
			2 if !seen_else => cond(s, &mut d, true),
			3 if !seen_else || parent_active => d.dir(s, "else".into(), Dir::Else),
			5 => define(s, &mut d),
			6 => undef(s, &mut d),
			7 => other(s, &mut d),
			_ => d.dir(s, "endif".into(), Dir::Endif),
		}
	}
	if s.chance(1, 4) {
		d.cut_last_newline();
	}
	d
}

pub fn c14() -> Property {
	Property {
		id: "C14",
		targets: vec![
			Target { name: "nested sections", quick: 480_000, thorough: 9_600_000, rule: "has a condition, something skipped and something kept", run: sections },
			Target { name: "directives in any order", quick: 480_000, thorough: 9_600_000, rule: "has a condition, something skipped and something kept", run: ill_nested },
		],
		pinned: vec![
			Pinned {
				name: "pragma",
				run: || {
					let mut d = Doc::default();
					d.put("#pragma once\n", Item::Dir(Dir::Pragma));
					d.put("x", Item::Tok(Token::Identifier("x".into())));
					finish(&mut Ctx::default(), vec![d])
				},
			},
			Pinned {
				name: "two conditionals without endif",
				run: || {
					let mut d = Doc::default();
					d.put("#if 1\n", Item::Dir(Dir::If(E::Lit(1))));
					d.put("#if 0\n", Item::Dir(Dir::If(E::Lit(0))));
					d.put("x", Item::Tok(Token::Identifier("x".into())));
					finish(&mut Ctx::default(), vec![d])
				},
			},
		],
		assumptions: vec![SALSA, "an #elif after an #else, and a repeated #else inside a skipped section, are not generated: the analyzer's documentation does not say what they mean"],
	}
}

/// `#if` on one expression with given macros; returns whether its section is kept.
fn selected(text: &str) -> Result<bool, Fail> {
	let (mut a, _) = analyzer();
	let id = a.file_id(&path(0));
	a.update(id, &text.to_string());
	let names: Vec<_> = a
		.preprocessed(id)
		.unwrap()
		.iter()
		.filter_map(|(_, t, _)| if let Token::Identifier(n) = t { Some(n.clone()) } else { None })
		.collect();
	match &names.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
		["kept"] => Ok(true),
		["skipped"] => Ok(false),
		other => Err(Fail::new("sections", format!("neither or both sections: {other:?}"))),
	}
}

fn conditions(s: &mut Src, c: &mut Ctx) -> Res {
	let mut text = String::new();
	let mut env = expr::Env::new();
	for _ in 0..s.usize(6) {
		let n = *s.pick(&expr::NAMES);
		if s.chance(1, 8) {
			env.remove(n);
			text += &format!("#undef {n}\n");
		} else {
			let (b, t) = expr::body(s);
			env.insert(n, b);
			text += &format!("#define {n} {t}\n");
		}
	}
	let depth = 1 + s.usize(4);
	let mut e = expr::gen(s, depth, true);
	// most values are neither 0 nor 1: compare with the value, or something near it
	if let V::Val(v) = expr::eval(&e, &env) {
		if v >= 0 && s.chance(2, 3) {
			let near = v.saturating_add(*s.pick(&[0, 0, 0, 1, -1])).max(0);
			let op = *s.pick(&["==", "==", "!=", "<", "<=", ">", ">="]);
			let op = expr::OPS.iter().position(|o| o.0 == op).unwrap();
			e = E::Bin(op, e.into(), E::Lit(near).into());
		} else if v < 0 && s.chance(2, 3) {
			// there are no negative literals
			let plus = expr::OPS.iter().position(|o| o.0 == "+").unwrap();
			let eq = expr::OPS.iter().position(|o| o.0 == "==").unwrap();
			let sum = v.checked_neg().unwrap_or(1);
			e = E::Bin(eq, E::Bin(plus, e.into(), E::Lit(sum).into()).into(), E::Lit(0).into());
		}
	}
	let mut t = String::new();
	expr::render(s, &e, &mut t);
	let tail = *s.pick(&["", "", " ", " // note", " /* note */", "\r"]);
	if s.bool() {
		text += &format!("#if {t}{tail}\nkept\n#else\nskipped\n#endif\n");
	} else {
		text += &format!("#if 0\n#elif {t}{tail}\nkept\n#else\nskipped\n#endif\n");
	}
	c.show(format!("{text:?}"));
	let v = expr::eval(&e, &env);
	c.nontrivial(matches!(e, E::Bin(..)) && v != V::Any);
	c.label(match v {
		V::Val(0) => "zero",
		V::Val(_) => "non-zero",
		V::Nothing => "no value",
		V::Any => "undefined in C",
	});
	fn ops(e: &E, c: &mut Ctx) {
		if let E::Bin(o, l, r) = e {
			c.label(format!("operator {}", expr::OPS[*o].0));
			ops(l, c);
			ops(r, c);
		}
	}
	ops(&e, c);
	let got = selected(&text)?;
	let want = match v {
		V::Val(v) => v != 0,
		V::Nothing => false,
		V::Any => return Ok(()),
	};
	ensure!(got == want, "condition", "section {}, but the condition is {v:?} ({e:?})", if got { "kept" } else { "skipped" });
	Ok(())
}

/// Every pair of operators over small operands.
fn pairs(s: &mut Src, c: &mut Ctx) -> Res {
	let (o, p) = (s.usize(expr::OPS.len()), s.usize(expr::OPS.len()));
	let (x, y, z) = (E::Lit(s.below(5) as i64), E::Lit(s.below(5) as i64), E::Lit(s.below(5) as i64));
	// x o y p z as C reads it
	let e = if expr::OPS[o].1 >= expr::OPS[p].1 {
		E::Bin(p, E::Bin(o, x.clone().into(), y.clone().into()).into(), z.clone().into())
	} else {
		E::Bin(o, x.clone().into(), E::Bin(p, y.clone().into(), z.clone().into()).into())
	};
	let n = |e: &E| if let E::Lit(n) = e { *n } else { 0 };
	let t = format!("{}{}{} {} {}", n(&x), expr::OPS[o].0, n(&y), expr::OPS[p].0, n(&z));
	let text = format!("#if {t}\nkept\n#else\nskipped\n#endif\n");
	c.show(format!("{text:?}"));
	let v = expr::eval(&e, &expr::Env::new());
	c.nontrivial(v != V::Any);
	let want = match v {
		V::Val(v) => v != 0,
		V::Nothing => false,
		V::Any => return Ok(()),
	};
	let got = selected(&text)?;
	ensure!(got == want, "condition", "section {}, but the condition is {v:?}", if got { "kept" } else { "skipped" });
	Ok(())
}

fn pinned_if(text: &str, want: bool) -> Res {
	let got = selected(&format!("{text}\nkept\n#else\nskipped\n#endif\n"))?;
	ensure!(got == want, "condition", "{text:?}: section {}", if got { "kept" } else { "skipped" });
	Ok(())
}

pub fn c15() -> Property {
	Property {
		id: "C15",
		targets: vec![
			Target { name: "random conditions", quick: 320_000, thorough: 6_400_000, rule: "at least one operator, and a value defined by C (or none)", run: conditions },
			Target { name: "operator pairs", quick: 160_000, thorough: 3_200_000, rule: "a value defined by C (or none)", run: pairs },
		],
		pinned: vec![
			Pinned { name: "<=", run: || pinned_if("#if 1 <= 2", true) },
			Pinned { name: ">=", run: || pinned_if("#if 2 >= 2", true) },
			Pinned { name: ">>", run: || pinned_if("#if (8 >> 1) == 4", true) },
			Pinned { name: "division by zero", run: || pinned_if("#if 1 / 0", false) },
			Pinned { name: "modulo zero", run: || pinned_if("#if 1 % 0", false) },
			Pinned { name: "overflow", run: || pinned_if("#if 9223372036854775807 + 1 == 0", false) },
			Pinned { name: "shift count", run: || selected("#if 1 << 64\nkept\n#else\nskipped\n#endif\n").map(|_| ()) },
			Pinned { name: "cyclic definition", run: || pinned_if("#define A B\n#define B A\n#if A", false) },
			Pinned { name: "defined (X)", run: || pinned_if("#define A 1\n#if defined (A)", true) },
			Pinned { name: "short circuit", run: || pinned_if("#if 1 || 1 / 0", true) },
			Pinned { name: "definition over two lines", run: || pinned_if("#define A (1 + \\\n 2)\n#if A == 3", true) },
		],
		assumptions: vec![SALSA, "macro bodies are an integer, a name or parenthesised, so that their value does not depend on the place of use; no unary operators (not supported), no octal literals"],
	}
}

/// A few files that include each other.
fn files(s: &mut Src) -> Vec<Doc> {
	let n = 2 + s.usize(3);
	let mut counter = 0;
	let mut docs = vec![];
	for k in 0..n {
		let mut d = Doc::default();
		let mut budget = 3;
		let mut leaf = |s: &mut Src, d: &mut Doc| {
			if budget == 0 {
				return;
			}
			budget -= 1;
			if s.chance(1, 8) {
				let name = format!("missing{}.p4", s.usize(2));
				let t = quote(s, &name);
				d.dir(s, format!("include {t}"), Dir::Missing(format!("file:///w/{name}")));
			} else {
				// mostly forwards
				let f = if s.chance(1, 4) { s.usize(n) } else { (k + 1 + s.usize(n)).min(n - 1) };
				let t = quote(s, &format!("f{f}.p4"));
				d.dir(s, format!("include {t}"), Dir::Include(f));
			}
		};
		leaf(s, &mut d);
		let m = 1 + s.usize(4);
		for _ in 0..m {
			match s.usize(4) {
				0 => line(s, &mut d, &mut counter),
				1 => balanced(s, &mut d, &mut counter, 1, &mut leaf),
				_ => leaf(s, &mut d),
			}
		}
		line(s, &mut d, &mut counter);
		if s.chance(1, 4) {
			d.cut_last_newline();
		}
		docs.push(d);
	}
	docs
}

fn quote(s: &mut Src, name: &str) -> String {
	match s.usize(3) {
		0 => format!("<{name}>"),
		1 => format!("\"{name}\""),
		_ => format!("\"file:///w/{name}\""),
	}
}

fn includes(s: &mut Src, c: &mut Ctx) -> Res {
	let docs = files(s);
	c.show(docs.iter().enumerate().map(|(i, d)| format!("f{i}: {:?}", d.text)).collect::<Vec<_>>().join("; "));
	let (mut a, required) = analyzer();
	load(&mut a, &docs);
	for root in 0..docs.len() {
		let want = preprocess(&docs, root);
		required.borrow_mut().clear();
		let got = observe(&a, &path(root));
		if want.undecided {
			c.label("undecided by C, or large");
			continue;
		}
		let mut sorted = want.resolved.clone();
		sorted.sort();
		let n = sorted.len();
		sorted.dedup();
		c.label_if(sorted.len() < n, "a file included twice");
		c.label_if(!want.errors.is_empty(), "some error");
		c.nontrivial(want.includes > 1);
		compare(&a, &docs, root, &want)?;
		let mut deps: Vec<_> = sorted.iter().map(|f| (path(*f), true)).collect();
		let mut missing = want.missing.clone();
		missing.sort();
		missing.dedup();
		deps.extend(missing.iter().map(|m| (m.clone(), false)));
		deps.sort();
		ensure!(got.dependencies == deps, "dependencies", "file {root}: {:?}, should be {deps:?}", got.dependencies);
		let mut r = required.borrow().clone();
		r.sort();
		r.dedup();
		ensure!(r == missing, "required files", "file {root}: the host was asked for {r:?}, should be {missing:?}");
	}
	// supply what is missing
	let mut docs = docs;
	let mut names = vec![];
	for d in &docs {
		for (i, _) in &d.items {
			if let Item::Dir(Dir::Missing(m)) = i {
				names.push(m.clone());
			}
		}
	}
	names.sort();
	names.dedup();
	if !names.is_empty() {
		c.label("a missing file is supplied later");
		let id = a.file_id(&names[0]);
		let mut d = Doc::default();
		d.put("supplied", Item::Tok(Token::Identifier("supplied".into())));
		a.update(id, &d.text);
		docs.push(d);
		let at = docs.len() - 1;
		for d in &mut docs {
			for (i, _) in &mut d.items {
				if matches!(i, Item::Dir(Dir::Missing(m)) if *m == names[0]) {
					*i = Item::Dir(Dir::Include(at));
				}
			}
		}
		for root in 0..at {
			let want = preprocess(&docs, root);
			if want.undecided {
				continue;
			}
			let got: Vec<_> = observe(&a, &path(root)).tokens.unwrap().into_iter().filter(|t| t.1 != Token::Whitespace).map(|t| (t.1, t.2)).collect();
			let exp: Vec<_> = want.tokens.iter().map(|t| (t.1.clone(), t.2.clone())).collect();
			ensure!(got == exp, "supplied file", "file {root}: {got:?}, should be {exp:?}");
		}
	}
	Ok(())
}

pub fn errors(s: &mut Src, c: &mut Ctx) -> Res {
	let docs = if s.bool() { files(s) } else { vec![flat(s)] };
	c.show(docs.iter().enumerate().map(|(i, d)| format!("f{i}: {:?}", d.text)).collect::<Vec<_>>().join("; "));
	let want = preprocess(&docs, 0);
	if want.undecided {
		return Ok(());
	}
	c.nontrivial(!want.errors.is_empty());
	c.label_if(want.errors.iter().any(|e| e.0 != 0), "error in an included file");
	// lexical errors of this file and of what it includes, each once
	let (mut a, _) = analyzer();
	load(&mut a, &docs);
	// and unrelated documents
	for k in 0..s.usize(3) {
		let id = a.file_id(&format!("file:///w/unrelated{k}.p4"));
		let t = soup(s);
		a.update(id, &t);
	}
	compare(&a, &docs, 0, &want)?;
	let mut reach = want.resolved.clone();
	reach.push(0);
	reach.sort();
	reach.dedup();
	let mut lexical: Vec<_> = observe(&a, &path(0)).diagnostics.into_iter().filter(|d| d.3 == "unexpected token").map(|d| (index(&d.0), d.1, d.2)).collect();
	lexical.sort();
	let mut exp = vec![];
	for f in reach {
		exp.extend(docs[f].items.iter().filter(|(i, _)| matches!(i, Item::Tok(Token::Error))).map(|(_, r)| (f, r.start, r.end)));
	}
	exp.sort();
	ensure!(lexical == exp, "lexical errors", "{lexical:?}, should be {exp:?}");
	Ok(())
}

pub fn c16() -> Property {
	Property {
		id: "C16",
		targets: vec![Target { name: "files including each other", quick: 200_000, thorough: 4_000_000, rule: "some file has two or more includes that are spliced", run: includes }],
		pinned: vec![Pinned {
			name: "included twice",
			run: || {
				let mut a = Doc::default();
				a.put("#include \"f1.p4\"\n", Item::Dir(Dir::Include(1)));
				a.put("#include \"f1.p4\"\n", Item::Dir(Dir::Include(1)));
				let mut b = Doc::default();
				b.put("x", Item::Tok(Token::Identifier("x".into())));
				b.space(" ");
				b.put("y", Item::Tok(Token::Identifier("y".into())));
				let docs = vec![a, b];
				let (mut an, _) = analyzer();
				load(&mut an, &docs);
				compare(&an, &docs, 0, &preprocess(&docs, 0))
			},
		}],
		assumptions: vec![SALSA, "all files lie in one folder (the path a nested relative include is resolved against is not fixed by the code's documentation)", "the conditionals of each file are balanced"],
	}
}

/// Any text: fragments of P4 and directives, cut and mixed, and raw characters.
pub fn soup(s: &mut Src) -> String {
	const BITS: [&str; 74] = [
		"#include", "#define", "#if", "#elif", "#undef", "#pragma", "“", "€x", "\u{a0}", "\u{85}",
		"#if ", "#elif ", "#else", "#endif", "#define ", "#undef ", "#include ", "#pragma ", "#", "# ", "\n", "\n", "\n", " ", "\\\n", "\\",
		"\"f0.p4\"", "<f1.p4>", "\"", "<", ">", "A", "B", "defined", "defined(", "(", ")", "1", "0", "0x", "0xff", "8w1", "10s", "_",
		"99999999999999999999", "&&", "||", "<<", ">>", "<=", "/", "*", "%", "+", "-", "//", "/*", "*/", "é", "𒀀", "\u{0}", "\r", "\t",
		"A 1\n", "A B\n", "B A\n", "A(1", "header h {", "if", "action", ";", "@", "{", "\u{301}",
	];
	match s.weighted(&[8, 2, 1]) {
		0 => s.list(40, |s| BITS[s.usize(BITS.len())]).concat(),
		1 => crate::text::text(s),
		_ => {
			let chars: Vec<char> = "#\n\\ /*\"<>if0wsx_AdefinclupragmEé".chars().collect();
			s.string(60, &chars)
		}
	}
}

fn robust(s: &mut Src, c: &mut Ctx) -> Res {
	let n = 1 + s.usize(3);
	let mut files = BTreeMap::new();
	let (mut a, _) = analyzer();
	for k in 0..n {
		let t = if s.chance(1, 3) {
			let d = flat(s);
			// damage it
			let mut t = d.text;
			for _ in 0..s.usize(4) {
				let at = (0..=s.usize(t.len() + 1).min(t.len())).rev().find(|i| t.is_char_boundary(*i)).unwrap();
				let bit = soup(s);
				let bit: String = bit.chars().take(6).collect();
				t.insert_str(at, &bit);
			}
			t
		} else {
			soup(s)
		};
		// includes multiply: keep them few
		let t = t.splitn(4, "#include").collect::<Vec<_>>().join("#include");
		let id = a.file_id(&path(k));
		a.update(id, &t);
		files.insert(path(k), t);
	}
	c.show(show_files(&files));
	c.nontrivial(files.values().any(|t| t.contains('#') && t.len() > 8));
	for p in files.keys() {
		locations(&a, p, &files)?;
	}
	Ok(())
}

fn locations(a: &Analyzer, p: &str, files: &BTreeMap<String, String>) -> Res {
	let id = a.file_id(p);
	crate::lexing::covers(&files[p], a.lexed(id).unwrap())?;
	let o = observe(a, p);
	for (f, t, r) in o.tokens.iter().flatten() {
		let ok = files.get(f).map_or(false, |x| r.start <= r.end && x.get(r.clone()).is_some());
		ensure!(ok, "token location", "{t:?} at {r:?} of {f}");
	}
	for (f, x, y, m, _) in &o.diagnostics {
		let ok = files.get(f).map_or(false, |t| x <= y && t.get(*x..*y).is_some());
		ensure!(ok, "diagnostic location", "{m:?} at {x}..{y} of {f}");
	}
	Ok(())
}

/// Inputs of unusual size: deep or long expressions, many conditionals, long chains of macros.
fn large(s: &mut Src, c: &mut Ctx) -> Res {
	let n = *s.pick(&[10usize, 70, 300, 3000, 20000]);
	let kind = s.usize(10);
	c.label(format!("kind {kind}"));
	c.label(format!("size {n}"));
	c.nontrivial(n > 100);
	c.show(format!("kind {kind} size {n}"));
	let t = match kind {
		0 => format!("#if {}1{}\nx\n#endif\n", "(".repeat(n), ")".repeat(n)),
		1 => format!("#if 1{}\nx\n#endif\n", "+1".repeat(n)),
		2 => format!("{}x\n{}", "#if 1\n".repeat(n), "#endif\n".repeat(n)),
		3 => format!("{}x\n{}", "#if 0\n".repeat(n), "#endif\n".repeat(n)),
		4 => {
			let n = n.min(3000);
			let mut t = String::new();
			for i in 0..n {
				t += &format!("#define M{i} M{}\n", i + 1);
			}
			t + &format!("#define M{n} 1\n#if M0\nx\n#endif\n")
		}
		5 => "/*".repeat(n),
		6 => "@".repeat(n),
		7 => {
			// every macro uses the next one twice
			let n = n.min(60);
			let mut t = String::new();
			for i in 0..n {
				t += &format!("#define M{i} (M{} + M{})\n", i + 1, i + 1);
			}
			t + &format!("#define M{n} 1\n#if M0\nx\n#endif\n")
		}
		8 => format!("#define A {}1{}\n#if A\nx\n#endif\n", "(".repeat(n), ")".repeat(n)),
		_ => format!("#if {}", "(1+".repeat(n)),
	};
	let (mut a, _) = analyzer();
	let id = a.file_id(&path(0));
	a.update(id, &t);
	let files = BTreeMap::from([(path(0), t)]);
	locations(&a, &path(0), &files)
}

fn no_crash(text: &str) -> Res {
	let (mut a, _) = analyzer();
	let id = a.file_id(&path(0));
	a.update(id, &text.to_string());
	locations(&a, &path(0), &BTreeMap::from([(path(0), text.to_string())]))
}

pub fn c18() -> Property {
	Property {
		id: "C18",
		targets: vec![
			Target { name: "any text", quick: 800_000, thorough: 16_000_000, rule: "some file has a directive sign and more than 8 bytes", run: robust },
			Target { name: "unusual sizes", quick: 3_200, thorough: 64_000, rule: "size over 100", run: large },
		],
		pinned: vec![
			Pinned { name: "backslash in a definition", run: || no_crash("#define A b\\\\") },
			Pinned { name: "width too large", run: || no_crash("99999999999w1") },
			Pinned { name: "pragma", run: || no_crash("#pragma x") },
			Pinned { name: "division by zero", run: || no_crash("#if 1/0\n#endif") },
			Pinned { name: "cyclic definition", run: || no_crash("#define A A\n#if A\n#endif") },
		],
		assumptions: vec![SALSA, "includes are few: a chain of files that each include the next one twice grows exponentially by the meaning of #include"],
	}
}

fn content(s: &mut Src) -> String {
	match s.weighted(&[4, 2, 2]) {
		0 => {
			let mut v = files(s);
			let i = s.usize(v.len());
			v.swap_remove(i).text
		}
		1 => flat(s).text,
		_ => soup(s).splitn(4, "#include").collect::<Vec<_>>().join("#include"),
	}
}

#[derive(Debug, PartialEq)]
struct Everything {
	files: Vec<String>,
	inputs: Vec<Option<String>>,
	lexed: Vec<Option<Vec<(Token, std::ops::Range<usize>)>>>,
	observed: Vec<Observed>,
}

fn everything(a: &Analyzer, paths: &[String]) -> Everything {
	let mut files = a.files();
	files.sort();
	Everything {
		files,
		inputs: paths.iter().map(|p| a.input(a.file_id(p)).map(|s| s.to_string())).collect(),
		lexed: paths.iter().map(|p| a.lexed(a.file_id(p)).cloned()).collect(),
		observed: paths
			.iter()
			.map(|p| {
				let mut o = observe(a, p);
				o.diagnostics.dedup();
				o
			})
			.collect(),
	}
}

fn history(s: &mut Src, c: &mut Ctx) -> Res {
	// the same names in two folders
	let paths: Vec<String> = (0..4).map(path).chain((0..2).map(|i| path(i).replace("/w/", "/x/"))).collect();
	let paths = &paths[..if s.bool() { 4 } else { 6 }];
	let (mut a, _) = analyzer();
	let mut model: BTreeMap<String, String> = BTreeMap::new();
	let mut log = vec![];
	let n = 2 + s.usize(8);
	let mut queries = 0;
	let mut changes_after_query = 0;
	for _ in 0..n {
		let p = s.pick(paths).clone();
		let id = a.file_id(&p);
		changes_after_query += (queries > 0) as usize;
		match s.weighted(&[4, 3, 1, 4]) {
			1 if model.contains_key(&p) => {
				let t = model.get_mut(&p).unwrap();
				let mut events = vec![];
				for _ in 0..1 + s.usize(2) {
					let new: String = content(s).chars().take(20).collect();
					if s.chance(1, 5) {
						*t = new.clone();
						events.push(ChangeEvent { range: None, text: new });
						continue;
					}
					let (mut x, mut y) = (crate::text::any_position(s, t), crate::text::any_position(s, t));
					if crate::text::offset(t, x.0, x.1) > crate::text::offset(t, y.0, y.1) {
						std::mem::swap(&mut x, &mut y);
					}
					t.replace_range(crate::text::offset(t, x.0, x.1)..crate::text::offset(t, y.0, y.1), &new);
					events.push(ChangeEvent { range: Some(LspRange::new(Position::new(x.0, x.1), Position::new(y.0, y.1))), text: new });
				}
				log.push(format!("edit {p}"));
				a.file_change_event(id, &events);
			}
			2 => {
				log.push(format!("delete {p}"));
				let had = model.remove(&p).is_some();
				ensure!(a.delete(&p).is_some() == had, "delete", "delete of {p}, which was {}", if had { "there" } else { "not there" });
			}
			3 => {
				log.push(format!("query {p}"));
				queries += 1;
				let one = observe(&a, &p);
				let l = a.lexed(id).cloned();
				let two = observe(&a, &p);
				ensure!(one == two && l == a.lexed(id).cloned(), "repeated query", "{one:?} then {two:?}");
			}
			_ => {
				let t = content(s);
				log.push(format!("update {p} {t:?}"));
				a.update(id, &t);
				model.insert(p, t);
			}
		}
	}
	c.show(format!("{}; then {}", log.join("; "), show_files(&model)));
	c.nontrivial(changes_after_query > 0 && model.len() > 1);
	c.label_if(changes_after_query > 0, "change after a query");
	let (mut fresh, _) = analyzer();
	for (p, t) in &model {
		let id = fresh.file_id(p);
		fresh.update(id, t);
	}
	let (x, y) = (everything(&a, paths), everything(&fresh, paths));
	ensure!(x.files == model.keys().cloned().collect::<Vec<_>>(), "file list", "{:?}", x.files);
	ensure!(x == y, "history", "after the history:\n{x:?}\nfresh:\n{y:?}");
	Ok(())
}

pub fn c17() -> Property {
	Property {
		id: "C17",
		targets: vec![Target { name: "histories", quick: 300_000, thorough: 6_000_000, rule: "an operation after a query, and two or more files at the end", run: history }],
		pinned: vec![],
		assumptions: vec![SALSA],
	}
}
