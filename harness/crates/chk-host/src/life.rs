//! C05 answers, C06 lifecycle, C19 robustness.
use crate::rpc;
use crate::session::*;
use analyzer_host::json_rpc::message::{Message, Response};
use analyzer_host::json_rpc::RequestId;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
	Uninitialised,
	Initialising,
	Active,
	ShuttingDown,
	Stopped,
	/// One of these (the client refused something on the way).
	Between,
}

#[derive(Clone, Debug)]
enum Want {
	/// An error with this code.
	Code(i32),
	Error,
	Result,
	Any,
}

const URIS: [&str; 8] = [
	"file:///w/a.p4", "file:///w/b.p4", "file:///other/c.p4", "untitled:Untitled-1", "http://h/x.p4", "file:///w/%20%C3%A9.p4", "file:///w/../d.p4", "file:///w",
];

fn good_uri(s: &mut Src) -> &'static str { URIS[s.usize(8)] }

const TEXTS: [&str; 10] = [
	"", "a b a", "#define X 1\n#if X\nkept\n#endif\n", "#include \"b.p4\"\nx", "// é\nheader h { }", "#if\n#else\n#elif\n#endif", "#include <core.p4>", "\u{0}@@ \"", "#define A A\n#if A\n", "/* open",
];

pub fn text(s: &mut Src) -> String {
	match s.usize(3) {
		0 => s.pick(&TEXTS).to_string(),
		1 => rpc::string(s),
		_ => {
			let n = s.usize(5);
			(0..n).map(|_| s.pick(&TEXTS).to_string()).collect::<Vec<_>>().join("\n")
		}
	}
}

fn params_for(s: &mut Src, method: &str) -> Value {
	let u = good_uri(s);
	match method {
		"textDocument/hover" | "textDocument/completion" => at(u, s.below(3), s.below(5)),
		"textDocument/didOpen" => open_params(u, &text(s)),
		"textDocument/didClose" => doc(u),
		"textDocument/didSave" => {
			let mut p = doc(u);
			if s.bool() {
				p["text"] = json!(text(s));
			}
			p
		}
		"textDocument/didChange" => {
			let changes = s.list(3, |s| {
				let mut c = json!({"text": text(s)});
				if s.bool() {
					let n = |s: &mut Src| if s.chance(1, 8) { u32::MAX as u64 } else { s.below(4) };
					c["range"] = json!({"start": {"line": n(s), "character": n(s)}, "end": {"line": n(s), "character": n(s)}});
				}
				c
			});
			json!({"textDocument": {"uri": u, "version": 2}, "contentChanges": changes})
		}
		"workspace/didChangeWatchedFiles" => {
			let changes = s.list(3, |s| json!({"uri": good_uri(s), "type": 1 + s.below(3)}));
			json!({ "changes": changes })
		}
		"$/setTrace" => json!({"value": *s.pick(&["off", "messages", "verbose"])}),
		_ => Value::Null,
	}
}

const NOTES: [&str; 10] = [
	"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave", "workspace/didChangeWatchedFiles", "$/setTrace",
	"$/cancelRequest", "textDocument/hover", "shutdown", "no/such",
];
const UNKNOWN: [&str; 8] = ["no/such", "", "textDocument/didOpen", "initialized", "exit", "textDocument/hoverx", "Initialize", "$/x"];

/// Replaces or removes something inside.
fn spoil(s: &mut Src, v: &mut Value) {
	match v {
		Value::Object(o) if !o.is_empty() && !s.chance(1, 5) => {
			let keys: Vec<String> = o.keys().cloned().collect();
			let k = s.pick(&keys).clone();
			match s.usize(4) {
				0 => {
					o.remove(&k);
				}
				1 => {
					o.insert(rpc::string(s), rpc::value(s, 1));
				}
				_ => spoil(s, o.get_mut(&k).unwrap()),
			}
		}
		Value::Array(a) if !a.is_empty() && !s.chance(1, 5) => {
			let i = s.usize(a.len());
			spoil(s, &mut a[i])
		}
		Value::String(t) if s.bool() => {
			*t = s
				.pick(&["", "x", "file:", "file:///", "data:,x", "mailto:a@b", "untitled:u", "file://host/x.p4", "file:///w/a.p4?q#f", "//", "http:///", "file:///C:/x.p4", "é", "a:b"])
				.to_string()
		}
		Value::Number(_) if s.bool() => {
			*v = s.pick(&[json!(-1), json!(4294967295u64), json!(4294967296u64), json!(0), json!(4), json!(1.5), json!(2147483647)]).clone()
		}
		_ => *v = rpc::value(s, 2),
	}
}

fn init(s: &mut Src) -> (Value, bool, bool) {
	let folders = match s.weighted(&[2, 3, 1]) {
		0 => None,
		1 => Some(vec![("file:///w".to_string(), "w".to_string())]),
		_ => {
			let all = ["file:///w", "file:///w2/", "untitled:x", "file:///w/sub", "http://h/"];
			Some((0..s.usize(3)).map(|_| (s.pick(&all).to_string(), "n".to_string())).collect())
		}
	};
	let watch = s.chance(3, 4);
	let trace = *s.pick(&[None, None, Some("off"), Some("messages"), Some("verbose")]);
	let context = folders.is_some();
	let mut p = init_params(folders, watch, s.bool(), trace);
	if !watch && s.bool() {
		p["capabilities"]["workspace"] = s.pick(&[json!({}), json!({"applyEdit": true}), json!({"didChangeWatchedFiles": null})]).clone();
	}
	if !context && s.bool() {
		p["workspaceFolders"] = Value::Null;
	}
	(p, context, watch || !context)
}

struct Life {
	se: Session,
	phase: Phase,
	/// What the client has sent and awaits.
	wants: Vec<(RequestId, Want, String)>,
	log: Vec<String>,
	next: i32,
	refused: bool,
	context: bool,
}

impl Life {
	fn new(own_fs: bool) -> Self {
		let se = Session::new(own_fs, None);
		Self { se, phase: Phase::Uninitialised, wants: vec![], log: vec![], next: 0, refused: false, context: false }
	}

	fn id(&mut self, s: &mut Src) -> RequestId {
		self.next += 1;
		match s.weighted(&[6, 2, 1]) {
			0 => RequestId::from(self.next),
			1 => RequestId::from(self.next.to_string()),
			_ => rpc::id(s).0,
		}
	}

	fn request(&mut self, s: &mut Src, method: &str, params: Value, valid: bool) {
		use Phase::*;
		let id = self.id(s);
		let mut want = match self.phase {
			Uninitialised if method == "initialize" => Want::Any, // filled in by the caller
			Uninitialised | Initialising => Want::Code(-32002),
			ShuttingDown => Want::Code(-32600),
			Active => match method {
				_ if !valid => Want::Error,
				"shutdown" => {
					self.phase = ShuttingDown;
					Want::Result
				}
				"textDocument/hover" => Want::Result,
				"textDocument/completion" => Want::Any,
				_ => Want::Error,
			},
			Between => {
				if method == "shutdown" {
					self.phase = Between;
				}
				Want::Any
			}
			Stopped => Want::Any,
		};
		if self.phase == Uninitialised && method == "initialize" && !valid {
			want = Want::Error;
		}
		self.log.push(format!("request {id} {method} {params}"));
		if self.phase != Stopped {
			self.wants.push((id.clone(), want, method.to_string()));
		}
		self.se.request(id, method, params);
	}

	fn initialize(&mut self, s: &mut Src) {
		let (p, context, ok) = init(s);
		let before = self.phase;
		self.request(s, "initialize", p, true);
		if before == Phase::Uninitialised {
			self.wants.last_mut().unwrap().1 = if ok { Want::Result } else { Want::Error };
			if ok {
				self.phase = Phase::Initialising;
				self.context = context;
			}
		}
	}

	fn notify(&mut self, s: &mut Src, method: &str, params: Value) {
		let _ = s;
		self.log.push(format!("notification {method} {params}"));
		match (method, self.phase) {
			("exit", _) => self.phase = Phase::Stopped,
			("initialized", Phase::Initialising) => self.phase = Phase::Active,
			_ => (),
		}
		self.se.notify(method, params);
	}

	/// Requests the client may refuse: their refusal must not stop the session.
	fn client(&mut self, s: &mut Src, refuse: bool) {
		while !self.se.open.is_empty() && s.chance(3, 4) {
			let i = s.usize(self.se.open.len());
			let method = self.se.open[i].1.clone();
			if refuse && s.chance(1, 4) {
				let (id, _, _) = self.se.open.remove(i);
				self.log.push(format!("refuse {method}"));
				self.se.respond(id, None, Some("refused"));
				if method == "client/registerCapability" {
					self.refused = true;
					if self.phase != Phase::Stopped {
						self.phase = Phase::Between;
					}
					// what was sent meanwhile was sent without knowing
					for w in &mut self.wants {
						w.1 = Want::Any;
					}
				}
			} else {
				self.log.push(format!("answer {method}"));
				self.se.answer(i);
			}
		}
	}

	/// One step of the session; returns false when there is no more to do.
	fn step(&mut self, s: &mut Src) {
		match s.weighted(&[3, 3, 1, 1, 5, 5, 2, 2]) {
			0 => self.initialize(s),
			1 => self.notify(s, "initialized", json!({})),
			2 => {
				self.request(s, "shutdown", Value::Null, true)
			}
			3 => {
				if s.chance(1, 3) {
					self.notify(s, "exit", Value::Null)
				}
			}
			4 => {
				let m = *s.pick(&["textDocument/hover", "textDocument/completion"]);
				let p = params_for(s, m);
				self.request(s, m, p, true);
			}
			5 => {
				let m = *s.pick(&NOTES);
				let p = params_for(s, m);
				self.notify(s, m, p);
			}
			6 => {
				// a response nobody waits for
				let id = if s.bool() { RequestId::from(1000 + s.below(5) as i32) } else { RequestId::from(rpc::string(s)) };
				self.log.push(format!("stray response {id}"));
				let r = rpc::value(s, 1);
				self.se.send(Message::Response(Response { id, result: Some(r), error: None }));
			}
			_ => {
				if s.bool() {
					let m = *s.pick(&UNKNOWN);
					let p = rpc::value(s, 1);
					self.request(s, m, p, false);
				} else {
					// a request that lacks its parameters
					let m = *s.pick(&["textDocument/hover", "textDocument/completion", "initialize"]);
					let p = s.pick(&[Value::Null, json!({}), json!([]), json!({"textDocument": 1}), json!("x")]).clone();
					self.request(s, m, p, false);
				}
			}
		}
	}

	/// The answers so far are those the requests call for, in their order.
	fn check(&self, all: bool) -> Res {
		let got = self.se.responses();
		for (i, r) in got.iter().enumerate() {
			let (id, want, method) = match self.wants.get(i) {
				Some(w) => w,
				None => return Err(Fail::new("response to nothing", format!("{r:?}"))),
			};
			ensure!(r.id == *id, "response id", "response {i} has id {}, the request ({method}) has {id}", r.id);
			ensure!(r.error.is_none() || r.result.is_none(), "result and error", "{r:?}");
			let code = r.error.as_ref().map(|e| e.code);
			let ok = match want {
				Want::Code(c) => code == Some(*c),
				Want::Error => code.is_some(),
				Want::Result => code.is_none(),
				Want::Any => true,
			};
			ensure!(ok, "response kind", "request {id} ({method}) is answered by {r:?}, should be {want:?}");
			ensure!(
				code.is_some() || r.result.is_some(),
				"neither result nor error",
				"request {id} ({method}): {r:?}"
			);
		}
		if all {
			ensure!(
				got.len() == self.wants.len(),
				"unanswered request",
				"{} requests, {} responses; {:?} has no response",
				self.wants.len(),
				got.len(),
				self.wants.get(got.len())
			);
		}
		Ok(())
	}
}

fn labels_of(l: &Life, c: &mut Ctx) {
	c.label(format!("ends {:?}", l.phase));
	c.label_if(l.context, "workspace");
	c.label_if(l.refused, "registration refused");
}

fn answers(s: &mut Src, c: &mut Ctx) -> Res {
	let mut l = Life::new(s.bool());
	l.se.fs.0.lock().unwrap().hold = s.bool();
	l.se.fs.put("file:///w/b.p4", "from disk");
	l.se.fs.0.lock().unwrap().listings.insert("file:///w".into(), vec!["file:///w/b.p4".into(), "file:///w/gone.p4".into()]);
	let refuse = s.chance(1, 4);
	if s.chance(3, 4) {
		// most sessions get somewhere
		while l.phase != Phase::Initialising {
			l.initialize(s);
		}
		if s.chance(9, 10) {
			l.notify(s, "initialized", json!({}));
		}
	}
	for _ in 0..1 + s.usize(14) {
		if l.phase == Phase::Stopped && s.bool() {
			break;
		}
		l.step(s);
		if s.chance(2, 3) {
			l.se.run();
			c.show(l.log.join("\n"));
			l.check(false)?;
			l.client(s, refuse);
			if s.bool() {
				for i in l.se.fs.waiting() {
					if s.bool() {
						l.se.fs.release(i);
					}
				}
			}
		}
	}
	c.show(l.log.join("\n"));
	labels_of(&l, c);
	c.nontrivial(l.wants.len() > 1);
	l.se.settle();
	l.check(true)?;
	ensure!(l.se.host.done() == (l.phase == Phase::Stopped), "server ended", "the server has{} ended in phase {:?}", if l.se.host.done() { "" } else { " not" }, l.phase);
	Ok(())
}

pub fn c05() -> Property {
	Property {
		id: "C05",
		targets: vec![Target { name: "sessions", quick: 300_000, thorough: 9_000_000, rule: "two or more requests", run: answers }],
		pinned: vec![],
		assumptions: vec!["every call to the file system and every server request is answered in the end"],
	}
}

/// Shutting down and closing from every phase; probes in every phase.
fn lifecycle(s: &mut Src, c: &mut Ctx) -> Res {
	let mut l = Life::new(s.bool());
	let target = s.usize(4);
	l.se.fs.0.lock().unwrap().hold = s.chance(1, 4);
	let mut steps = 0;
	if target >= 1 {
		while l.phase == Phase::Uninitialised && steps < 50 {
			steps += 1;
			if s.chance(1, 4) {
				l.step(s);
			} else {
				l.initialize(s);
			}
		}
	}
	if target >= 2 {
		if s.chance(1, 4) {
			l.step(s);
		}
		l.notify(s, "initialized", json!({}));
		if s.bool() {
			l.se.settle();
		}
	}
	if target >= 3 {
		l.request(s, "shutdown", Value::Null, true);
	}
	for _ in 0..s.usize(6) {
		// what is not a documented step must not move the server
		match s.usize(5) {
			0 => {
				let m = *s.pick(&NOTES);
				let p = params_for(s, m);
				l.notify(s, m, p);
			}
			1 => l.notify(s, "initialized", json!({})),
			2 => l.initialize(s),
			3 => {
				let m = *s.pick(&UNKNOWN);
				l.request(s, m, Value::Null, false);
			}
			_ => {
				let m = *s.pick(&["textDocument/hover", "textDocument/completion"]);
				let p = params_for(s, m);
				l.request(s, m, p, true);
			}
		}
		if s.bool() {
			l.se.run();
		}
	}
	c.show(l.log.join("\n"));
	labels_of(&l, c);
	c.nontrivial(true);
	let how = s.usize(8);
	if how <= 2 {
		l.se.settle();
		l.check(true)?;
		ensure!(!l.se.host.done() || l.phase == Phase::Stopped, "server ended", "in phase {:?}", l.phase);
	}
	match how {
		0 | 1 => {
			let n = s.usize(3);
			l.notify(s, "exit", Value::Null);
			c.label("exit");
			// messages after it, in the same breath or later
			for _ in 0..n {
				if s.bool() {
					l.se.run();
				}
				l.request(s, "textDocument/hover", at("file:///w/a.p4", 0, 0), true);
				l.se.respond(RequestId::from(0), Some(Value::Null), None);
			}
			c.show(l.log.join("\n"));
			l.se.run();
			ensure!(l.se.host.done(), "does not end", "the server still runs after exit");
			l.check(true)?;
			ensure!(l.se.from_host.is_closed(), "channel open", "the outgoing channel is still open after exit");
		}
		2 => {
			// exit arrives together with other messages while the server works
			c.label("exit during work");
			let to = l.se.to_host.clone();
			l.se.fs.0.lock().unwrap().inject = Some(Box::new(move || {
				for _ in 0..2 {
					let _ = to.try_send(Message::Notification(analyzer_host::json_rpc::message::Notification { method: "x".into(), params: Value::Null }));
					let _ = to.try_send(Message::Response(Response { id: RequestId::from(5), result: None, error: None }));
				}
			}));
			l.notify(s, "textDocument/didOpen", open_params("file:///w/n.p4", "#include \"m.p4\"\n"));
			l.request(s, "textDocument/completion", at("file:///w/n.p4", 0, 0), true);
			if s.bool() {
				l.se.settle();
			}
			l.notify(s, "exit", Value::Null);
			c.show(l.log.join("\n"));
			l.se.settle();
			ensure!(l.se.host.done(), "does not end", "the server still runs after exit");
			l.check(true)?;
		}
		_ => {
			// the transport closes, in one direction or both, whatever is under way; or the host cancels and closes it
			let cancel = how >= 6;
			c.label(if cancel { "cancelled" } else { "transport closed" });
			l.log.push(format!("{} ({how})", if cancel { "cancelled" } else { "transport closed" }));
			// the registration may be under way, and fails now
			if l.phase != Phase::Uninitialised && l.phase != Phase::Initialising {
				l.wants.iter_mut().for_each(|w| w.1 = Want::Any);
			}
			c.show(l.log.join("\n"));
			if how == 4 || how == 7 || cancel && s.bool() {
				l.se.run();
			}
			if cancel {
				l.se.cancel.cancel();
				if s.chance(1, 4) {
					l.se.run();
				}
			}
			l.se.to_host.close();
			if how == 5 || cancel {
				l.se.from_host.close();
			}
			l.se.open.clear();
			l.se.run();
			// the host's own calls complete
			loop {
				let w = l.se.fs.waiting();
				let loads = w.iter().all(|i| matches!(l.se.fs.call_at(*i), Call::Contents(_)));
				if w.is_empty() || cancel && loads && how == 7 {
					break;
				}
				w.into_iter().for_each(|i| l.se.fs.release(i));
				l.se.run();
			}
			ensure!(l.se.host.done(), "does not end", "the server still runs after {}", if cancel { "it was cancelled" } else { "the transport closed" });
			l.check(false)?;
		}
	}
	let n = l.se.out.len();
	l.se.run();
	ensure!(l.se.out.len() == n, "sends after the end", "{:?}", &l.se.out[n..]);
	Ok(())
}

pub fn c06() -> Property {
	Property {
		id: "C06",
		targets: vec![
			Target { name: "phases", quick: 240_000, thorough: 7_200_000, rule: "every case", run: lifecycle },
			Target { name: "sessions", quick: 120_000, thorough: 3_600_000, rule: "two or more requests", run: answers },
		],
		pinned: vec![],
		assumptions: vec!["where the client refused the registration of the watcher, the phase the server is in is left open", "exit and shutdown are sent without parameters"],
	}
}

fn robust(s: &mut Src, c: &mut Ctx) -> Res {
	let own = s.chance(3, 4);
	let mut l = Life::new(own);
	l.se.fs.put("file:///w/b.p4", TEXTS[s.usize(10)]);
	let active = s.chance(7, 8);
	if active {
		while l.phase != Phase::Initialising {
			l.initialize(s);
		}
		l.notify(s, "initialized", json!({}));
		l.se.settle();
	}
	const METHODS: [&str; 11] = [
		"textDocument/didOpen", "textDocument/didChange", "textDocument/didClose", "textDocument/didSave", "workspace/didChangeWatchedFiles", "textDocument/completion",
		"textDocument/hover", "$/setTrace", "initialize", "initialized", "no/such",
	];
	for _ in 0..1 + s.usize(8) {
		let m = *s.pick(&METHODS);
		let mut p = if m == "initialize" { init(s).0 } else { params_for(s, m) };
		let spoilt = s.chance(2, 3);
		if spoilt {
			for _ in 0..1 + s.usize(2) {
				spoil(s, &mut p);
			}
			c.label("ill-formed");
		}
		let request = matches!(m, "textDocument/completion" | "textDocument/hover" | "initialize" | "no/such") != s.chance(1, 10);
		if request {
			let id = l.id(s);
			l.log.push(format!("request {id} {m} {p}"));
			l.wants.push((id.clone(), Want::Any, m.to_string()));
			l.se.request(id, m, p);
		} else {
			l.log.push(format!("notification {m} {p}"));
			l.se.notify(m, p);
		}
		c.show(l.log.join("\n"));
		c.nontrivial(spoilt);
		if s.bool() {
			l.se.settle();
			ensure!(!l.se.host.done(), "server ended", "the server has ended");
			l.check(true)?;
		}
	}
	l.se.settle();
	l.check(true)?;
	ensure!(!l.se.host.done(), "server ended", "the server has ended");
	// and still answers properly
	l.next += 1000;
	if active {
		let t = "probe_a probe_b; probe_a";
		l.se.notify("textDocument/didOpen", open_params("file:///w/probe.p4", t));
		l.wants.push((RequestId::from(l.next), Want::Result, "probe".into()));
		l.se.request(l.next, "textDocument/completion", at("file:///w/probe.p4", 0, 0));
		l.se.settle();
		l.check(true)?;
		let r = l.se.responses();
		let got = labels(r.last().unwrap());
		ensure!(got == Some(Ok(identifiers(t))), "probe", "completions of {t:?}: {got:?}");
	} else {
		let n = l.wants.len();
		l.wants.push((RequestId::from(l.next), Want::Any, "probe".into()));
		l.se.request(l.next, "no/such", Value::Null);
		l.se.settle();
		l.check(true)?;
		let r = l.se.responses();
		ensure!(r[n].error.is_some(), "probe", "{:?}", r[n]);
	}
	Ok(())
}

pub fn c19() -> Property {
	Property {
		id: "C19",
		targets: vec![Target { name: "ill-formed messages", quick: 250_000, thorough: 7_500_000, rule: "some message is ill-formed", run: robust }],
		pinned: vec![],
		assumptions: vec!["exit is not sent (it ends the server)"],
	}
}
