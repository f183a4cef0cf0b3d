//! P4 documents built piece by piece, so that their tokens are known without lexing; and a reference preprocessor.
use crate::expr::{self, Env, E, V};
use analyzer_core::base_abstractions::Severity;
use analyzer_core::lexer::Token;
use analyzer_core::Analyzer;
use pbt::Src;
use std::collections::BTreeMap;
use std::ops::Range;

#[derive(Clone, Debug)]
pub enum Dir {
	If(E),
	Elif(E),
	Else,
	Endif,
	Define(&'static str, Option<E>),
	Undef(&'static str),
	/// Index of the included file; `None` when there is no such file (with the name that was written).
	Include(usize),
	Missing(String),
	Pragma,
	Unknown,
}

#[derive(Clone, Debug)]
pub enum Item {
	Tok(Token),
	Dir(Dir),
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
	pub text: String,
	pub items: Vec<(Item, Range<usize>)>,
}

impl Doc {
	pub fn put(&mut self, text: &str, item: Item) {
		let start = self.text.len();
		self.text.push_str(text);
		self.items.push((item, start..self.text.len()));
	}

	pub fn space(&mut self, text: &str) { self.text.push_str(text) }

	/// A directive line.  `last` directives may lack their line break.
	pub fn dir(&mut self, s: &mut Src, text: String, d: Dir) {
		let mut t = String::from("#");
		t.push_str(*s.pick(&["", "", "", " ", "\t"]));
		t.push_str(&text);
		t.push_str(*s.pick(&["", "", "", "", " ", "\r", " // note", " /* note */"]));
		t.push('\n');
		self.put(&t, Item::Dir(d));
	}

	/// Takes the line break off the last line.
	pub fn cut_last_newline(&mut self) {
		if self.text.ends_with('\n') {
			self.text.pop();
			let n = self.text.len();
			if let Some((_, r)) = self.items.last_mut() {
				r.end = r.end.min(n);
			}
		}
	}
}

/// A line of ordinary tokens; identifiers carry `counter` so that tokens are distinguishable.
pub fn line(s: &mut Src, d: &mut Doc, counter: &mut u32) {
	d.space(*s.pick(&["", "", "  ", "\t"]));
	for _ in 0..s.usize(4) {
		match s.weighted(&[8, 3, 2, 1, 1, 1]) {
			0 => {
				*counter += 1;
				let n = format!("t{counter}");
				d.put(&n, Item::Tok(Token::Identifier(n.clone())));
				d.space(" ");
			}
			1 => d.put(";", Item::Tok(Token::Semicolon)),
			2 => {
				d.put("header", Item::Tok(Token::KwHeader));
				d.space("\t");
			}
			3 => {
				// one unrecognised character
				d.put(*s.pick(&["@", "é", "?"]), Item::Tok(Token::Error));
				d.space(" ");
			}
			4 => d.put("/* #if\n */", Item::Tok(Token::Comment)),
			_ => {
				d.put(*s.pick(&["// #else\n", "//\n", "// a \\\n"]), Item::Tok(Token::Comment));
				return;
			}
		}
	}
	d.space(*s.pick(&["\n", "\n", "\n\n", "\r\n", " \n"]));
}

pub fn define(s: &mut Src, d: &mut Doc) {
	let n = *s.pick(&expr::NAMES);
	let (body, text) = expr::body(s);
	d.dir(s, format!("define {n} {text}"), Dir::Define(n, body));
}

pub fn undef(s: &mut Src, d: &mut Doc) {
	let n = *s.pick(&expr::NAMES);
	let t = format!("#{}undef {n}{}\n", s.pick(&["", " "]), s.pick(&["", " ", "\r"]));
	d.put(&t, Item::Dir(Dir::Undef(n)));
}

pub fn cond(s: &mut Src, d: &mut Doc, elif: bool) {
	let depth = s.usize(3);
	let e = match s.weighted(&[3, 3, 2, 4]) {
		0 => E::Lit(0),
		1 => E::Lit(1),
		2 => E::Defined(*s.pick(&expr::NAMES)),
		_ => expr::gen(s, depth, true),
	};
	let mut t = String::new();
	expr::render(s, &e, &mut t);
	if elif {
		d.dir(s, format!("elif {t}"), Dir::Elif(e))
	} else {
		d.dir(s, format!("if {t}"), Dir::If(e))
	}
}

pub fn other(s: &mut Src, d: &mut Doc) {
	if s.bool() {
		d.dir(s, "pragma once".into(), Dir::Pragma)
	} else {
		d.dir(s, s_pick(s, &["frobnicate 1", "iff 1", "define1 X", "elsee", "endiff", "i\u{e9}"]), Dir::Unknown)
	}
}

fn s_pick(s: &Src, items: &[&str]) -> String { items[s.tape.len() % items.len()].to_string() }

#[derive(Debug, Default, PartialEq)]
pub struct Outcome {
	/// file, token, span; without white space
	pub tokens: Vec<(usize, Token, Range<usize>)>,
	/// file and span of the offending directives
	pub errors: Vec<(usize, Range<usize>)>,
	/// included files that exist and those that do not
	pub resolved: Vec<usize>,
	pub missing: Vec<String>,
	/// the outcome depends on a condition that C leaves undefined
	pub undecided: bool,
	pub includes: usize,
	pub skipped: usize,
	pub work: usize,
}

struct Frame {
	at: (usize, Range<usize>),
	parent_active: bool,
	active: bool,
	taken: bool,
	seen_else: bool,
}

pub fn preprocess(docs: &[Doc], root: usize) -> Outcome {
	let mut o = Outcome::default();
	let mut env = Env::new();
	let mut stack = vec![];
	run(docs, root, &mut vec![root], &mut env, &mut stack, &mut o);
	for f in stack {
		o.errors.push(f.at);
	}
	o
}

fn run(docs: &[Doc], file: usize, open: &mut Vec<usize>, env: &mut Env, stack: &mut Vec<Frame>, o: &mut Outcome) {
	for (item, span) in &docs[file].items {
		o.work += 1;
		if o.undecided || o.work > 5000 {
			o.undecided = true;
			return;
		}
		let active = stack.last().map_or(true, |f| f.active);
		let mut holds = |e: &E, o: &mut Outcome| match expr::eval(e, env) {
			V::Val(v) => v != 0,
			V::Nothing => false,
			V::Any => {
				o.undecided = true;
				false
			}
		};
		let at = (file, span.clone());
		match item {
			Item::Tok(t) => {
				if active {
					o.tokens.push((file, t.clone(), span.clone()))
				} else {
					o.skipped += 1
				}
			}
			Item::Dir(d) => match d {
				Dir::If(e) => {
					let c = active && holds(e, o);
					stack.push(Frame { at, parent_active: active, active: c, taken: c, seen_else: false });
				}
				Dir::Elif(e) => match stack.last_mut() {
					None => o.errors.push(at),
					Some(f) => {
						f.active = f.parent_active && !f.taken && holds(e, o);
						f.taken |= f.active;
					}
				},
				Dir::Else => match stack.last_mut() {
					None => o.errors.push(at),
					Some(f) => {
						if f.seen_else {
							o.errors.push(at)
						}
						f.seen_else = true;
						f.active = f.parent_active && !f.taken;
						f.taken = true;
					}
				},
				Dir::Endif => {
					if stack.pop().is_none() {
						o.errors.push(at)
					}
				}
				_ if !active => o.skipped += 1,
				Dir::Define(n, b) => {
					env.insert(n, b.clone());
				}
				Dir::Undef(n) => {
					env.remove(n);
				}
				Dir::Pragma => (),
				Dir::Unknown => o.errors.push(at),
				Dir::Include(f) => {
					if open.contains(f) {
						o.errors.push(at)
					} else {
						o.includes += 1;
						o.resolved.push(*f);
						open.push(*f);
						run(docs, *f, open, env, stack, o);
						open.pop();
					}
				}
				Dir::Missing(n) => {
					o.errors.push(at);
					o.missing.push(n.clone());
				}
			},
		}
	}
}

/// What the analyzer says about a file, by path.
#[derive(Debug, PartialEq, Clone)]
pub struct Observed {
	pub tokens: Option<Vec<(String, Token, Range<usize>)>>,
	pub diagnostics: Vec<(String, usize, usize, String, u8)>,
	pub dependencies: Vec<(String, bool)>,
}

pub fn severity(s: &Severity) -> u8 {
	match s {
		Severity::Info => 1,
		Severity::Hint => 2,
		Severity::Warning => 3,
		Severity::Error => 4,
	}
}

pub fn observe(a: &Analyzer, path: &str) -> Observed {
	let id = a.file_id(path);
	let tokens =
		a.preprocessed(id).map(|v| v.iter().map(|(f, t, s)| (a.path(*f), t.clone(), s.clone())).collect::<Vec<_>>());
	let mut diagnostics: Vec<_> = a
		.diagnostics(id)
		.into_iter()
		.map(|d| (a.path(d.file), d.location.start, d.location.end, d.message, severity(&d.severity)))
		.collect();
	diagnostics.sort();
	let mut dependencies: Vec<_> = a.include_dependencies(id).into_iter().map(|d| (a.path(d.file_id), d.is_resolved)).collect();
	dependencies.sort();
	dependencies.dedup();
	Observed { tokens, diagnostics, dependencies }
}

/// Pieces of the same, keyed for display.
pub fn show_files(files: &BTreeMap<String, String>) -> String {
	files.iter().map(|(k, v)| format!("{k}: {v:?}")).collect::<Vec<_>>().join("; ")
}
