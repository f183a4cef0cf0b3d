//! Preprocessor conditions: generator, rendering and reference evaluation.
use pbt::Src;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
	Lit(i64),
	Name(&'static str),
	Defined(&'static str),
	Bin(usize, Box<E>, Box<E>),
}

/// Symbol and C precedence level (a larger number binds tighter).
pub const OPS: [(&str, u8); 18] = [
	("+", 9),
	("-", 9),
	("*", 10),
	("/", 10),
	("%", 10),
	("<<", 8),
	(">>", 8),
	("<", 7),
	("<=", 7),
	(">", 7),
	(">=", 7),
	("==", 6),
	("!=", 6),
	("&", 5),
	("^", 4),
	("|", 3),
	("&&", 2),
	("||", 1),
];

pub const NAMES: [&str; 6] = ["A", "B", "FOO", "_x1", "definedX", "ab_CD9"];

/// What a condition is worth.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum V {
	Val(i64),
	/// The condition has no value.
	Nothing,
	/// C leaves it undefined (overflow, shift count): anything but a crash is fine.
	Any,
}

/// Macro bodies; a body of None has no value.
pub type Env = HashMap<&'static str, Option<E>>;

pub fn eval(e: &E, env: &Env) -> V { go(e, env, &mut vec![], &mut 600) }

fn go(e: &E, env: &Env, active: &mut Vec<&'static str>, steps: &mut i32) -> V {
	*steps -= 1;
	if *steps < 0 {
		return V::Any;
	}
	match e {
		E::Lit(n) => V::Val(*n),
		E::Defined(n) => V::Val(env.contains_key(n) as i64),
		E::Name(n) => {
			if active.contains(n) {
				return V::Nothing;
			}
			match env.get(n) {
				Some(Some(body)) => {
					active.push(n);
					let v = go(body, env, active, steps);
					active.pop();
					v
				}
				_ => V::Nothing,
			}
		}
		E::Bin(op, l, r) => {
			let sym = OPS[*op].0;
			let l = go(l, env, active, steps);
			let l = match (sym, l) {
				(_, V::Nothing) => return V::Nothing,
				("&&" | "||", V::Any) => return V::Any,
				("&&", V::Val(0)) => return V::Val(0),
				("||", V::Val(n)) if n != 0 => return V::Val(1),
				(_, l) => l,
			};
			let (l, r) = match (l, go(r, env, active, steps)) {
				(_, V::Nothing) => return V::Nothing,
				(V::Val(l), V::Val(r)) => (l as i128, r as i128),
				_ => return V::Any,
			};
			let v = match sym {
				"+" => l + r,
				"-" => l - r,
				"*" => l * r,
				"/" | "%" if r == 0 => return V::Nothing,
				"/" => l / r,
				"%" if l / r > i64::MAX as i128 => return V::Any,
				"%" => l % r,
				"<<" | ">>" if !(0..64).contains(&r) => return V::Any,
				"<<" => l << r,
				">>" => l >> r,
				"<" => (l < r) as i128,
				"<=" => (l <= r) as i128,
				">" => (l > r) as i128,
				">=" => (l >= r) as i128,
				"==" => (l == r) as i128,
				"!=" => (l != r) as i128,
				"&" => l & r,
				"^" => l ^ r,
				"|" => l | r,
				"&&" | "||" => (r != 0) as i128,
				_ => unreachable!(),
			};
			i64::try_from(v).map_or(V::Any, V::Val)
		}
	}
}

pub fn gen(s: &mut Src, depth: usize, names: bool) -> E {
	let leaf = depth == 0 || s.chance(1, 4);
	if leaf {
		return match if names { s.weighted(&[6, 3, 2]) } else { 0 } {
			0 => E::Lit(if s.chance(1, 8) { s.int() } else { s.below(9) as i64 }),
			1 => E::Name(*s.pick(&NAMES)),
			_ => E::Defined(*s.pick(&NAMES)),
		};
	}
	let op = s.usize(OPS.len());
	let l = gen(s, depth - 1, names);
	let r = gen(s, depth - 1, names);
	E::Bin(op, l.into(), r.into())
}

fn space(s: &mut Src, out: &mut String) {
	match s.weighted(&[10, 4, 1, 1]) {
		0 => out.push(' '),
		1 => (),
		2 => out.push('\t'),
		_ => out.push_str("\\\n"),
	}
}

/// As text, with the parentheses the tree needs and sometimes more.
pub fn render(s: &mut Src, e: &E, out: &mut String) { at_level(s, e, 0, out) }

fn at_level(s: &mut Src, e: &E, min: u8, out: &mut String) {
	let level = if let E::Bin(op, _, _) = e { OPS[*op].1 } else { 20 };
	let parens = level < min || s.chance(1, 12);
	if parens {
		out.push('(');
		space(s, out);
	}
	match e {
		E::Lit(n) => match s.weighted(&[6, 2, 1]) {
			0 => out.push_str(&n.to_string()),
			1 => out.push_str(&format!("0x{n:x}")),
			_ => out.push_str(&format!("0X{n:X}")),
		},
		E::Name(n) => out.push_str(n),
		E::Defined(n) => out.push_str(&match s.usize(4) {
			0 => format!("defined({n})"),
			1 => format!("defined {n}"),
			2 => format!("defined( {n} )"),
			_ => format!("defined ({n})"),
		}),
		E::Bin(op, l, r) => {
			at_level(s, l, level, out);
			space(s, out);
			out.push_str(OPS[*op].0);
			space(s, out);
			at_level(s, r, level + 1, out);
		}
	}
	if parens {
		space(s, out);
		out.push(')');
	}
}

/// A macro body whose value does not depend on where it is used: an atom or something in parentheses.
pub fn body(s: &mut Src) -> (Option<E>, String) {
	if s.chance(1, 12) {
		return (None, String::new());
	}
	let d = s.usize(3);
	let e = gen(s, d, true);
	let mut t = String::new();
	render(s, &e, &mut t);
	if matches!(e, E::Bin(..)) {
		t = format!("({t})");
	}
	(Some(e), t)
}
