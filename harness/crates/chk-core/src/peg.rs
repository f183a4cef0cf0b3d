//! C22: parsing agrees with a recursive-descent reference; C23: reparsing after edits.
use analyzer_core::parser::{Cst, Parser, Rule};
use pbt::{ensure, Ctx, Pinned, Property, Res, Src, Target};
use std::collections::HashMap;
use std::rc::Rc;

const NAMES: [&str; 10] = ["start", "a", "b", "c", "d", "e", "f", "g", "h", "i"];
type Grammar = Vec<(&'static str, Rule<u8>)>;

fn refs(r: &Rule<u8>) -> Vec<&'static str> {
	match r {
		Rule::Terminal(_) => vec![],
		Rule::Choice(v) | Rule::Sequence(v) => v.clone(),
		Rule::Repetition(n) | Rule::Not(n) => vec![n],
	}
}

/// Rules that can match without consuming anything (an over-approximation).
fn nullable(g: &Grammar) -> HashMap<&'static str, bool> {
	let mut n: HashMap<&'static str, bool> = g.iter().map(|(k, _)| (*k, false)).collect();
	loop {
		let mut changed = false;
		for (k, r) in g {
			let v = match r {
				Rule::Terminal(t) => t.is_empty(),
				Rule::Choice(o) => o.iter().any(|x| n[x]),
				Rule::Sequence(p) => p.iter().all(|x| n[x]),
				Rule::Repetition(_) | Rule::Not(_) => true,
			};
			if v && !n[k] {
				n.insert(k, true);
				changed = true;
			}
		}
		if !changed {
			return n;
		}
	}
}

/// No left recursion and no repetition of something that can match nothing: the standard condition under which
/// recursive descent terminates.
fn well_formed(g: &Grammar) -> bool {
	let n = nullable(g);
	let map: HashMap<&str, &Rule<u8>> = g.iter().map(|(k, r)| (*k, r)).collect();
	for (_, r) in g {
		if let Rule::Repetition(x) = r {
			if n[x] {
				return false;
			}
		}
	}
	// reachable without consuming
	for (k, _) in g {
		let mut seen = vec![];
		let mut todo = vec![*k];
		let mut first = true;
		while let Some(x) = todo.pop() {
			if x == *k && !first {
				return false;
			}
			first = false;
			if seen.contains(&x) && x != *k {
				continue;
			}
			seen.push(x);
			match map[x] {
				Rule::Terminal(_) => (),
				Rule::Choice(o) => todo.extend(o),
				Rule::Sequence(p) => {
					for y in p {
						todo.push(y);
						if !n[y] {
							break;
						}
					}
				}
				Rule::Repetition(y) | Rule::Not(y) => todo.push(y),
			}
		}
	}
	true
}

fn grammar(s: &mut Src) -> Grammar {
	let n = 2 + s.usize(8);
	let mut g: Grammar = vec![];
	for k in 0..n {
		// mostly refer to later rules; sometimes to any
		let name = |s: &mut Src| -> &'static str {
			if k + 1 < n && !s.chance(1, 4) {
				NAMES[k + 1 + s.usize(n - k - 1)]
			} else {
				NAMES[s.usize(n)]
			}
		};
		let leaf = k + 1 == n;
		let r = match s.weighted(if leaf { &[1, 0, 0, 0, 0] } else { &[3, 4, 5, 2, 2] }) {
			0 => {
				let t: Vec<u8> = if s.chance(1, 12) { vec![] } else { (0..1 + s.usize(3)).map(|_| s.below(3) as u8).collect() };
				Rule::Terminal(Rc::new(t))
			}
			1 => Rule::Choice((0..1 + s.usize(3)).map(|_| name(s)).collect()),
			2 => Rule::Sequence((0..1 + s.usize(3)).map(|_| name(s)).collect()),
			3 => Rule::Repetition(name(s)),
			_ => Rule::Not(name(s)),
		};
		g.push((NAMES[k], r));
	}
	// repair what is not well-formed, rather than rejecting it
	let mut at = n;
	while !well_formed(&g) && at > 0 {
		at -= 1;
		let mut h = g.clone();
		h[at].1 = Rule::Terminal(Rc::new(vec![s.below(3) as u8]));
		g = h;
	}
	g
}

/// Recursive descent, without memory.  `steps` bounds the work; None when it is exceeded.
struct Ref<'a> {
	rules: HashMap<&'static str, &'a Rule<u8>>,
	input: &'a [u8],
	steps: u64,
}

impl<'a> Ref<'a> {
	fn eval(&mut self, name: &'static str, pos: usize) -> Option<Option<(Cst<u8>, usize)>> {
		self.steps = self.steps.checked_sub(1)?;
		Some(match self.rules[name] {
			Rule::Terminal(t) => {
				if self.input[pos..].starts_with(t) {
					Some((Cst::Terminal(t.clone()), pos + t.len()))
				} else {
					None
				}
			}
			Rule::Choice(o) => {
				let mut out = None;
				for x in o {
					if let Some((c, p)) = self.eval(x, pos)? {
						out = Some((Cst::Choice(x, Rc::new(c)), p));
						break;
					}
				}
				out
			}
			Rule::Sequence(parts) => {
				let (mut v, mut p) = (vec![], pos);
				for x in parts {
					match self.eval(x, p)? {
						Some((c, q)) => {
							v.push(Rc::new(c));
							p = q;
						}
						None => return Some(None),
					}
				}
				Some((Cst::Sequence(v), p))
			}
			Rule::Repetition(x) => {
				let (mut v, mut p) = (vec![], pos);
				while let Some((c, q)) = self.eval(x, p)? {
					v.push(Rc::new(c));
					p = q;
				}
				Some((Cst::Repetition(v), p))
			}
			Rule::Not(x) => match self.eval(x, pos)? {
				Some(_) => None,
				None => Some((Cst::Not(x), pos)),
			},
		})
	}
}

fn reference(g: &Grammar, input: &[u8]) -> Option<Option<Cst<u8>>> {
	let mut r = Ref { rules: g.iter().map(|(k, r)| (*k, r)).collect(), input, steps: 20_000 };
	let m = r.eval("start", 0)?;
	Some(m.filter(|(_, p)| *p == input.len()).map(|(c, _)| c))
}

/// A string the grammar is likely to match: alternatives and repetition counts chosen at random.
fn sentence(s: &mut Src, g: &Grammar, name: &'static str, depth: u32, out: &mut Vec<u8>) {
	if depth > 12 || out.len() > 40 {
		return;
	}
	let r = g.iter().find(|(k, _)| *k == name).unwrap().1.clone();
	match r {
		Rule::Terminal(t) => out.extend(t.iter()),
		Rule::Choice(o) => {
			let x = *s.pick(&o);
			sentence(s, g, x, depth + 1, out)
		}
		Rule::Sequence(p) => p.iter().for_each(|x| sentence(s, g, x, depth + 1, out)),
		Rule::Repetition(x) => {
			for _ in 0..s.usize(4) {
				sentence(s, g, x, depth + 1, out)
			}
		}
		Rule::Not(_) => (),
	}
}

fn input(s: &mut Src, g: &Grammar) -> Vec<u8> {
	let mut v = vec![];
	if s.chance(1, 4) {
		v = (0..s.usize(10)).map(|_| s.below(3) as u8).collect();
	} else {
		sentence(s, g, "start", 0, &mut v);
		if s.chance(1, 4) && !v.is_empty() {
			let i = s.usize(v.len());
			v[i] = s.below(3) as u8;
		}
	}
	v.truncate(40);
	v
}

fn show(g: &Grammar) -> String { g.iter().map(|(k, r)| format!("{k} => {r:?}")).collect::<Vec<_>>().join("; ") }

fn build(g: &Grammar, input: &[u8]) -> Result<Parser<u8>, pbt::Fail> {
	let map: HashMap<&'static str, Rule<u8>> = g.iter().cloned().collect();
	match Parser::from_rules(&map) {
		Ok(f) => Ok(f(parking_lot::RwLock::new(input.to_vec()))),
		Err(e) => Err(pbt::Fail::new("rejected", format!("well-formed grammar rejected: {e}"))),
	}
}

fn parse(s: &mut Src, c: &mut Ctx) -> Res {
	let g = grammar(s);
	if !well_formed(&g) {
		return Ok(());
	}
	for _ in 0..4 {
		let i = input(s, &g);
		c.show(format!("{} on {i:?}", show(&g)));
		let want = match reference(&g, &i) {
			Some(w) => w,
			None => {
				c.label("too much work for the reference");
				return Ok(());
			}
		};
		let mut p = build(&g, &i)?;
		let got = p._match();
		c.nontrivial(want.is_some() && i.len() > 1);
		c.label(if want.is_some() { "match" } else { "no match" });
		c.label_if(format!("{want:?}").contains("Not("), "uses negative lookahead");
		ensure!(got == want, "tree", "got {got:?}\nshould be {want:?}");
		let again = p._match();
		ensure!(again == want, "second parse", "second parse gives {again:?}\nshould be {want:?}");
	}
	Ok(())
}

fn validate(s: &mut Src, c: &mut Ctx) -> Res {
	let mut g = grammar(s);
	// break it, or not
	match s.usize(4) {
		0 => g.retain(|(k, _)| *k != "start"),
		1 => {
			let i = s.usize(g.len());
			let (_, r) = &mut g[i];
			match r {
				Rule::Choice(v) | Rule::Sequence(v) => {
					let j = s.usize(v.len() + 1);
					v.insert(j, "nowhere")
				}
				Rule::Repetition(n) | Rule::Not(n) => *n = "nowhere",
				Rule::Terminal(_) => *r = if s.bool() { Rule::Not("nowhere") } else { Rule::Repetition("nowhere") },
			}
		}
		2 => {
			let i = s.usize(g.len());
			g.remove(i);
		}
		_ => (),
	}
	c.show(show(&g));
	let defined = |n: &str| g.iter().any(|(k, _)| *k == n);
	let ok = defined("start") && g.iter().all(|(_, r)| refs(r).iter().all(|n| defined(n)));
	c.nontrivial(!ok);
	c.label(if ok { "valid" } else { "invalid" });
	let map: HashMap<&'static str, Rule<u8>> = g.iter().cloned().collect();
	let got = Parser::from_rules(&map).is_ok();
	ensure!(got == ok, "validation", "grammar is {}, but was {}", if ok { "valid" } else { "invalid" }, if got { "accepted" } else { "rejected" });
	Ok(())
}

pub fn c22() -> Property {
	Property {
		id: "C22",
		targets: vec![
			Target { name: "random grammars", quick: 960_000, thorough: 19_200_000, rule: "some input of two or more tokens matches", run: parse },
			Target { name: "grammar validation", quick: 240_000, thorough: 4_800_000, rule: "grammar is invalid", run: validate },
		],
		pinned: vec![],
		assumptions: vec!["grammars are well-formed: no left recursion, no repetition of a rule that can match nothing (recursive descent itself does not terminate on those)"],
	}
}

fn edits(s: &mut Src, c: &mut Ctx) -> Res {
	let g = grammar(s);
	if !well_formed(&g) {
		return Ok(());
	}
	let mut model = input(s, &g);
	let mut p = build(&g, &model)?;
	let mut log = format!("{} on {model:?}", show(&g));
	let mut parses = 0;
	for _ in 0..2 + s.usize(10) {
		if s.bool() {
			log += "; parse";
			c.show(log.clone());
			let want = match reference(&g, &model) {
				Some(w) => w,
				None => return Ok(()),
			};
			let got = p._match();
			parses += 1;
			c.nontrivial(parses > 1 && want.is_some());
			c.label_if(want.is_some(), "match");
			ensure!(got == want, "reparse", "tokens {model:?}: got {got:?}\nshould be {want:?}");
		} else {
			let a = s.usize(model.len() + 1);
			let b = a + s.usize((model.len() - a).min(4) + 1);
			let r: Vec<u8> = if s.chance(1, 3) {
				let mut v = vec![];
				let name = s.pick(&g).0;
				sentence(s, &g, name, 0, &mut v);
				v.truncate(12);
				v
			} else {
				(0..s.usize(4)).map(|_| s.below(3) as u8).collect()
			};
			log += &format!("; {a}..{b} -> {r:?}");
			c.show(log.clone());
			model.splice(a..b, r.iter().cloned());
			p.apply_edit(a..b, &r);
		}
	}
	c.show(log + "; parse");
	if let Some(want) = reference(&g, &model) {
		let got = p._match();
		ensure!(got == want, "reparse", "tokens {model:?}: got {got:?}\nshould be {want:?}");
		let fresh = build(&g, &model)?._match();
		ensure!(fresh == got, "fresh parser", "a fresh parser gives {fresh:?}, the edited one {got:?}");
	}
	Ok(())
}

/// Edits that turn one sentence of the grammar into another, so that most parses match.
fn morph(s: &mut Src, c: &mut Ctx) -> Res {
	let g = grammar(s);
	if !well_formed(&g) {
		return Ok(());
	}
	let mut model = vec![];
	sentence(s, &g, "start", 0, &mut model);
	model.truncate(30);
	let mut p = build(&g, &model)?;
	let mut log = format!("{} on {model:?}", show(&g));
	for k in 0..2 + s.usize(4) {
		let want = match reference(&g, &model) {
			Some(w) => w,
			None => return Ok(()),
		};
		c.show(log.clone());
		let got = p._match();
		c.nontrivial(k > 0 && want.is_some());
		ensure!(got == want, "reparse", "tokens {model:?}: got {got:?}\nshould be {want:?}");
		let mut next = vec![];
		sentence(s, &g, "start", 0, &mut next);
		next.truncate(30);
		// the smallest replacement, or several single edits
		let pre = model.iter().zip(&next).take_while(|(a, b)| a == b).count();
		let post = model[pre..].iter().rev().zip(next[pre..].iter().rev()).take_while(|(a, b)| a == b).count();
		let (old_end, new_end) = (model.len() - post, next.len() - post);
		if s.bool() {
			p.apply_edit(pre..old_end, &next[pre..new_end]);
			log += &format!("; {pre}..{old_end} -> {:?}", &next[pre..new_end]);
		} else {
			for i in (pre..old_end).rev() {
				p.apply_edit(i..i + 1, &[]);
			}
			for i in pre..new_end {
				p.apply_edit(i..i, &next[i..i + 1]);
			}
			log += &format!("; one by one {pre}..{old_end} -> {:?}", &next[pre..new_end]);
		}
		model = next;
	}
	Ok(())
}

pub fn c23() -> Property {
	Property {
		id: "C23",
		targets: vec![
			Target { name: "edits and parses", quick: 960_000, thorough: 19_200_000, rule: "a parse after another one matches", run: edits },
			Target { name: "sentence to sentence", quick: 480_000, thorough: 9_600_000, rule: "a parse after an edit matches", run: morph },
		],
		pinned: vec![Pinned {
			name: "edit before the first parse",
			run: || {
				let g: Grammar = vec![("start", Rule::Repetition("a")), ("a", Rule::Terminal(Rc::new(vec![1])))];
				let mut p = build(&g, &[1, 1, 2])?;
				p.apply_edit(2..3, &[1]);
				ensure!(p._match().is_some(), "reparse", "no match");
				Ok(())
			},
		}],
		assumptions: vec!["grammars are well-formed; edit ranges lie within the current tokens"],
	}
}
