use crate::src::Src;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Fail {
	/// What kind of failure this is: stable under shrinking, and the key of known findings.
	pub sig: String,
	pub msg: String,
}

impl Fail {
	pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self { Self { sig: sig.into(), msg: msg.into() } }
}

pub type Res = Result<(), Fail>;

#[derive(Default)]
pub struct Ctx {
	pub labels: Vec<String>,
	pub nontrivial: bool,
	pub repr: String,
	pub excluded: Vec<&'static str>,
}

impl Ctx {
	/// Classifies the case (counted in the evidence).
	pub fn label(&mut self, l: impl Into<String>) { self.labels.push(l.into()); }

	pub fn label_if(&mut self, c: bool, l: &str) {
		if c {
			self.labels.push(l.to_string())
		}
	}

	/// The case counts as non-trivial by the target's rule.
	pub fn nontrivial(&mut self, c: bool) { self.nontrivial |= c; }

	/// Describes the case, for samples and replay files.
	pub fn show(&mut self, s: impl Into<String>) { self.repr = s.into(); }
}

pub struct Target {
	pub name: &'static str,
	pub quick: u64,
	pub thorough: u64,
	pub rule: &'static str,
	pub run: fn(&mut Src, &mut Ctx) -> Res,
}

/// A fixed input that is always run: it shows a listed finding (or that it has been repaired).
pub struct Pinned {
	pub name: &'static str,
	pub run: fn() -> Res,
}

pub struct Property {
	pub id: &'static str,
	pub targets: Vec<Target>,
	pub pinned: Vec<Pinned>,
	pub assumptions: Vec<&'static str>,
}

pub struct Case {
	pub result: Res,
	pub ctx: Ctx,
	pub tape: Vec<u64>,
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let msg = match (info.payload().downcast_ref::<&str>(), info.payload().downcast_ref::<String>()) {
			(Some(s), _) => s.to_string(),
			(_, Some(s)) => s.clone(),
			_ => "?".to_string(),
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		let mut last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
		// the first panic of a case is the cause
		if last.is_none() {
			*last = Some((msg, loc));
		}
	}));
}

fn normalise(msg: &str) -> String {
	// numbers and quoted parts vary with the input
	let mut out = String::new();
	let mut chars = msg.lines().next().unwrap_or("").chars().peekable();
	while let Some(c) = chars.next() {
		if c.is_ascii_digit() {
			while chars.peek().map_or(false, |c| c.is_ascii_digit()) {
				chars.next();
			}
			out.push('N');
		} else if c == '"' || c == '`' {
			while let Some(d) = chars.next() {
				if d == c {
					break;
				}
			}
			out.push('_');
		} else {
			out.push(c);
		}
	}
	out.chars().take(100).collect()
}

pub fn panic_fail() -> Fail {
	let last = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
	let (msg, loc) = last.unwrap_or_default();
	let file = loc.split(':').next().unwrap_or("").rsplit("crates/").next().unwrap_or("").to_string();
	Fail::new(format!("panic [{file}] {}", normalise(&msg)), format!("panicked at {loc}: {msg}"))
}

pub fn take_panic() { LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take(); }

pub fn run_case(run: fn(&mut Src, &mut Ctx) -> Res, mut src: Src) -> Case {
	let mut ctx = Ctx::default();
	take_panic();
	let result = match catch_unwind(AssertUnwindSafe(|| run(&mut src, &mut ctx))) {
		Ok(r) => r,
		Err(_) => Err(panic_fail()),
	};
	Case { result, ctx, tape: src.tape }
}

pub fn run_pinned(run: fn() -> Res) -> Res {
	take_panic();
	match catch_unwind(run) {
		Ok(r) => r,
		Err(_) => Err(panic_fail()),
	}
}

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub nontrivial: u64,
	pub labels: BTreeMap<String, u64>,
	pub excluded: BTreeMap<String, u64>,
}
