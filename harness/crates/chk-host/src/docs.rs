//! C08 documents as the client has them, C09 documents and the disk.
use crate::session::*;
#[path = "../../chk-core/src/text.rs"]
#[allow(dead_code)]
mod text;
use analyzer_core::lexer::Token;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Documents may include those after them.
pub const DOCS: [&str; 4] = ["file:///w/one.p4", "file:///w/two.p4", "file:///w/sub/six.p4", "file:///elsewhere/ten.p4"];
const WORDS: [&str; 10] = ["ab", "b", "a_i", "f", "if", "iff", "_a", "header", "aa", "b"];
const CHARS: [char; 16] = ['a', 'b', '_', 'i', 'f', ' ', '\n', ';', 'é', '\n', ' ', '𒀀', 'a', '(', '#', '\r'];

fn include(of: usize, s: &mut Src) -> String {
	let to = of + 1 + s.usize(DOCS.len() - of);
	match DOCS.get(to) {
		Some(u) if s.bool() => format!("#include \"{u}\""),
		Some(u) if of < 2 && to < 3 => format!("#include \"{}\"", u.trim_start_matches("file:///w/")),
		Some(_) => "#include \"file:///w/none.p4\"".into(),
		None => "#include <none.p4>".into(),
	}
}

pub fn doc_text(s: &mut Src, of: usize) -> String {
	let lines = s.list(6, |s| match s.weighted(&[8, 2, 1, 1, 2]) {
		0 => s.list(4, |s| *s.pick(&WORDS)).join(*s.pick(&[" ", ";", "  ", ";é", "(", "\t"])),
		1 => format!("#define {} {}", s.pick(&WORDS[..4]), s.pick(&WORDS[..4])),
		2 => format!("#if {}\n{}\n#else\n{}\n#endif", s.below(2), s.pick(&WORDS), s.pick(&WORDS)),
		3 => format!("#ifdef {}\n{}", s.pick(&WORDS[..4]), s.pick(&WORDS)),
		_ => include(of, s),
	});
	let mut t = lines.join(*s.pick(&["\n", "\n", "\n", "\r\n"]));
	if s.bool() {
		t.push('\n');
	}
	t
}

/// What completion should list, given everybody's contents.
pub fn expected(docs: &BTreeMap<String, String>, uri: &str) -> Vec<String> {
	let text = match docs.get(uri) {
		Some(t) => t,
		None => return vec![],
	};
	if !text.contains(|c: char| "#/\"".contains(c) || c.is_ascii_digit()) {
		return identifiers(text);
	}
	let mut core = analyzer_core::Analyzer::new(
		|base: &str, path: &str| {
			let base = analyzer_abstractions::lsp_types::Url::parse(base).map_err(|e| e.to_string())?;
			base.join(path).map(|u| u.to_string()).map_err(|e| e.to_string())
		},
		|_: &str| (),
	);
	for (u, t) in docs {
		let id = core.file_id(u);
		core.update(id, t);
	}
	let id = core.file_id(uri);
	let mut out: Vec<String> = vec![];
	for (_, t, _) in core.preprocessed(id).unwrap() {
		if let Token::Identifier(n) = t {
			let n = n.to_string();
			if !out.contains(&n) {
				out.push(n)
			}
		}
	}
	out
}

/// A content change and the text after it.
fn edit(s: &mut Src, of: usize, old: &str) -> (Value, String, bool) {
	if s.chance(1, 6) {
		let t = doc_text(s, of);
		return (json!({ "text": t }), t, false);
	}
	let a = text::any_position(s, old);
	let b = match s.usize(4) {
		0 => a,
		1 => (a.0, a.1.saturating_add(1 + s.usize(3))),
		_ => text::any_position(s, old),
	};
	let n = |v: usize| v.min(u32::MAX as usize);
	let (a, b) = ((n(a.0), n(a.1)), (n(b.0), n(b.1)));
	let (a, b) = (a.min(b), a.max(b));
	let new = match s.usize(4) {
		0 => String::new(),
		1 => s.pick(&WORDS).to_string(),
		2 => s.string(4, &CHARS),
		_ => doc_text(s, of),
	};
	let (i, j) = (text::offset(old, a.0, a.1), text::offset(old, b.0, b.1));
	let after = format!("{}{}{}", &old[..i], new, &old[j.max(i)..]);
	let range = json!({"start": {"line": a.0, "character": a.1}, "end": {"line": b.0, "character": b.1}});
	(json!({"range": range, "text": new}), after, true)
}

fn start(se: &mut Session, folders: bool) {
	let f = folders.then(|| vec![("file:///w".to_string(), "w".to_string())]);
	se.request(0, "initialize", init_params(f, true, false, None));
	se.notify("initialized", json!({}));
	se.settle();
}

/// The last answer to `id`; `None` for an error.
pub fn answer(se: &Session, id: i32) -> Result<Option<Vec<String>>, Fail> {
	let r = match se.responses().into_iter().find(|r| r.id == id.into()) {
		Some(r) => r.clone(),
		None => return Err(Fail::new("no answer", format!("request {id} is not answered"))),
	};
	match labels(&r) {
		None => Ok(None),
		Some(Ok(l)) => Ok(Some(l)),
		Some(Err(e)) => Err(Fail::new("ill-formed list", e)),
	}
}

fn sync(s: &mut Src, c: &mut Ctx) -> Res {
	let mut se = Session::new(s.chance(3, 4), None);
	start(&mut se, s.bool());
	let mut model: BTreeMap<String, String> = BTreeMap::new();
	let mut log: Vec<String> = vec![];
	let mut next = 1;
	let mut asked: Vec<(i32, String, BTreeMap<String, String>)> = vec![];
	let ndocs = 1 + s.usize(DOCS.len());
	let mut edits = 0;
	for of in 0..ndocs {
		if s.chance(3, 4) {
			let t = doc_text(s, of);
			log.push(format!("open {} {t:?}", DOCS[of]));
			se.notify("textDocument/didOpen", open_params(DOCS[of], &t));
			model.insert(DOCS[of].into(), t);
		}
	}
	for _ in 0..1 + s.usize(16) {
		let of = s.usize(ndocs);
		let uri = DOCS[of];
		let open = model.contains_key(uri);
		match s.weighted(&[3, 6, 2, 1, 6]) {
			0 => {
				let t = doc_text(s, of);
				log.push(format!("open {uri} {t:?}"));
				se.notify("textDocument/didOpen", open_params(uri, &t));
				model.insert(uri.into(), t);
			}
			1 => {
				let mut cur = model.get(uri).cloned().unwrap_or_default();
				let changes = s.list(3, |s| {
					let (v, after, ranged) = edit(s, of, &cur);
					cur = after;
					if ranged {
						edits += 1
					}
					v
				});
				log.push(format!("change {uri} {}", json!(changes)));
				se.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": changes}));
				if open {
					log.push(format!("  = {cur:?}"));
					model.insert(uri.into(), cur);
				} else {
					c.label("change to an unknown document");
				}
			}
			2 => {
				let mut p = doc(uri);
				if s.chance(3, 4) {
					let t = if s.bool() { doc_text(s, of) } else { model.get(uri).cloned().unwrap_or_default() };
					p["text"] = json!(t);
					if open {
						model.insert(uri.into(), t);
					}
				}
				log.push(format!("save {p}"));
				se.notify("textDocument/didSave", p);
			}
			3 => {
				log.push(format!("close {uri}"));
				se.notify("textDocument/didClose", doc(uri));
				model.remove(uri);
				c.label_if(open, "close");
			}
			_ => {
				log.push(format!("complete {uri}"));
				se.request(next, "textDocument/completion", at(uri, s.below(3), s.below(5)));
				asked.push((next, uri.into(), model.clone()));
				next += 1;
			}
		}
		if s.bool() {
			se.settle();
		}
	}
	for u in &DOCS[..ndocs] {
		se.request(next, "textDocument/completion", at(u, 0, 0));
		asked.push((next, u.to_string(), model.clone()));
		next += 1;
	}
	c.show(log.join("\n"));
	c.nontrivial(edits > 0);
	se.settle();
	let mut closed = 0;
	for (id, uri, m) in &asked {
		let got = answer(&se, *id)?;
		if m.contains_key(uri) {
			let want = expected(m, uri);
			ensure!(got.as_ref() == Some(&want), "completion", "{uri} with text {:?}: {got:?}, should be {want:?}", m[uri]);
			c.label_if(m[uri].contains("#include"), "includes");
		} else {
			closed += 1;
			ensure!(got.as_ref().map_or(true, |l| l.is_empty()), "closed or unknown document", "{uri} is not open: {got:?}");
		}
	}
	c.label_if(closed > 0, "asked about a closed or unknown document");
	Ok(())
}

fn keeps_open() -> Res {
	// a rename of a character in the middle of a line with wide characters, then the same through another document
	let mut se = Session::new(true, None);
	start(&mut se, true);
	se.notify("textDocument/didOpen", open_params(DOCS[0], "é𒀀 abc é def\nabc"));
	let ch = json!([{"range": {"start": {"line": 0, "character": 4}, "end": {"line": 0, "character": 5}}, "text": "_i"}]);
	se.notify("textDocument/didChange", json!({"textDocument": {"uri": DOCS[0], "version": 2}, "contentChanges": ch}));
	se.notify("textDocument/didClose", doc(DOCS[1]));
	se.request(1, "textDocument/completion", at(DOCS[0], 0, 0));
	se.settle();
	let got = answer(&se, 1)?;
	let want: Vec<String> = ["a_ic", "def", "abc"].iter().map(|s| s.to_string()).collect();
	ensure!(got == Some(want), "completion", "{got:?}");
	Ok(())
}

pub fn c08() -> Property {
	Property {
		id: "C08",
		targets: vec![Target { name: "synchronisation", quick: 120_000, thorough: 3_600_000, rule: "some document is edited by ranges", run: sync }],
		pinned: vec![pbt::Pinned { name: "edit between wide characters", run: keeps_open }],
		assumptions: vec![
			"positions count Unicode scalar values (what the server is tested for), lines end with a line feed",
			"texts with preprocessor directives are compared with a fresh analyzer-core over the texts the client has (C11 to C18 decide what that should say); others with a scanner of the check",
			"no change or save is sent for a document that is loaded from disk but not open",
		],
	}
}

/// What the server may know of a document that is not open.
#[derive(Clone, Debug, PartialEq)]
enum Known {
	/// Nobody has asked: the first to ask waits for a load.
	Unasked,
	Text(String),
	Nothing,
	/// Closed since, without an event: nothing, or what is on disk.
	Closed,
}

struct Disk {
	se: Session,
	open: BTreeMap<String, String>,
	known: BTreeMap<String, Known>,
	log: Vec<String>,
	next: i32,
	late: bool,
	races: u64,
	/// How many calls there were when the last event came for a document that was not open.
	event_at: BTreeMap<String, usize>,
	stale: u64,
}

impl Disk {
	fn waiting(&self, uri: &str) -> Vec<usize> {
		self.se.fs.waiting().into_iter().filter(|i| self.se.fs.call_at(*i) == Call::Contents(uri.into())).collect()
	}

	fn release(&mut self, i: usize) {
		let u = match self.se.fs.call_at(i) {
			Call::Contents(u) => u,
			Call::Enumerate(..) => return self.se.fs.release(i),
		};
		let text = self.se.fs.read_by(i).unwrap_or_else(|| self.se.fs.get(&u));
		self.log.push(format!("load of {u} completes: {text:?}"));
		self.se.fs.release(i);
		self.se.run();
		if self.open.contains_key(&u) {
			self.races += 1;
		} else if self.event_at.get(&u).map_or(true, |e| i >= *e) {
			self.known.insert(u, text.map_or(Known::Nothing, Known::Text));
		} else {
			self.stale += 1; // what the event has brought stays
		}
	}

	/// Completes what is under way for `uri` only.
	fn drain(&mut self, uri: &str) {
		self.se.run();
		loop {
			let w = self.waiting(uri);
			match w.first() {
				Some(i) => self.release(*i),
				None => return,
			}
		}
	}

	fn drain_all(&mut self) {
		self.se.run();
		while let Some(i) = self.se.fs.waiting().first().copied() {
			self.release(i);
		}
	}

	fn check(&mut self, s: &mut Src, uri: &str, c: &mut Ctx) -> Res {
		self.log.push(format!("complete {uri}"));
		let id = self.next;
		self.next += 1;
		self.se.request(id, "textDocument/completion", at(uri, s.below(2), 0));
		self.se.run();
		if !self.open.contains_key(uri) && answer(&self.se, id).is_err() {
			// it waits for the first load: let others finish in between
			if s.bool() {
				let w = self.se.fs.waiting();
				if !w.is_empty() {
					let i = *s.pick(&w);
					self.release(i);
				}
			}
			self.drain(uri);
		}
		c.show(self.log.join("\n"));
		let got = answer(&self.se, id)?;
		if let Some(t) = self.open.get(uri) {
			let want = identifiers(t);
			ensure!(got.as_ref() == Some(&want), "open document", "{uri} is open with text {t:?}: {got:?}, should be {want:?}");
			return Ok(());
		}
		let empty = got.as_ref().map_or(true, |l| l.is_empty());
		match self.known.get(uri).unwrap_or(&Known::Unasked) {
			Known::Text(t) => {
				let want = identifiers(t);
				ensure!(got.as_ref() == Some(&want), "loaded document", "{uri} was loaded with {t:?}: {got:?}, should be {want:?}");
				c.label("loaded");
			}
			Known::Nothing => ensure!(empty, "absent document", "{uri} is not there: {got:?}"),
			Known::Closed => {
				let disk = self.se.fs.get(uri).map(|t| identifiers(&t));
				ensure!(empty || got == disk, "closed document", "{uri} was closed: {got:?}");
			}
			Known::Unasked => return Err(Fail::new("no load", format!("{uri}: {got:?} without a load"))),
		}
		Ok(())
	}
}

fn plain(s: &mut Src) -> String {
	s.list(5, |s| *s.pick(&["ab", "b", "a_i", "f", "_a", "aa", "x", "yy", "é", ";"])).join(" ")
}

fn disk(s: &mut Src, c: &mut Ctx) -> Res {
	let own = s.chance(4, 5);
	let mut se = Session::new(own, None);
	if own {
		let mut f = se.fs.0.lock().unwrap();
		f.hold = true;
		f.early = s.bool();
	}
	let mut listing = vec![];
	for u in &DOCS {
		if s.bool() {
			se.fs.put(u, &plain(s));
		}
		if u.starts_with("file:///w/") && s.bool() {
			listing.push(u.to_string());
		}
	}
	let folders = s.bool();
	if !folders {
		listing.clear();
	}
	se.fs.0.lock().unwrap().listings.insert("file:///w".into(), listing.clone());
	let f = folders.then(|| vec![("file:///w".to_string(), "w".to_string())]);
	se.request(0, "initialize", init_params(f, true, false, None));
	se.notify("initialized", json!({}));
	let mut d = Disk { se, open: BTreeMap::new(), known: BTreeMap::new(), log: vec![format!("listed {listing:?}")], next: 1, late: false, races: 0, event_at: BTreeMap::new(), stale: 0 };
	if own {
		// everything but loads of files
		loop {
			d.se.run();
			let mut more = false;
			while !d.se.open.is_empty() {
				d.se.answer(0);
				more = true;
			}
			for i in d.se.fs.waiting() {
				if matches!(d.se.fs.call_at(i), Call::Enumerate(..)) {
					d.se.fs.release(i);
					more = true;
				}
			}
			if !more {
				break;
			}
		}
	} else {
		return by_client(s, c, d);
	}
	for _ in 0..1 + s.usize(16) {
		let of = s.usize(DOCS.len());
		let uri = DOCS[of];
		let open = d.open.contains_key(uri);
		let known = d.known.get(uri).cloned().unwrap_or(Known::Unasked);
		match s.weighted(&[5, 3, 3, 4, 5, 5]) {
			0 => {
				let t = plain(s);
				d.log.push(format!("open {uri} {t:?}"));
				d.se.notify("textDocument/didOpen", open_params(uri, &t));
				d.open.insert(uri.into(), t);
				// sometimes several messages arrive before anything else runs
				if s.chance(3, 4) {
					d.se.run();
				}
				d.late |= !d.waiting(uri).is_empty();
			}
			1 if open => {
				let t = plain(s);
				let save = s.chance(1, 4);
				d.log.push(format!("{} {uri} {t:?}", if save { "save" } else { "change" }));
				if save {
					let mut p = doc(uri);
					p["text"] = json!(t);
					d.se.notify("textDocument/didSave", p);
				} else {
					d.se.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": t}]}));
				}
				d.open.insert(uri.into(), t);
				d.se.run();
			}
			2 if open => {
				d.log.push(format!("close {uri}"));
				d.se.notify("textDocument/didClose", doc(uri));
				d.open.remove(uri);
				d.known.insert(uri.into(), Known::Closed);
				if s.chance(3, 4) {
					d.se.run();
				}
			}
			3 => {
				let w = d.se.fs.waiting();
				if !w.is_empty() {
					let i = *s.pick(&w);
					d.release(i);
				}
			}
			4 => {
				// the disk changes and the client tells
				let mut changes = vec![];
				for _ in 0..1 + s.usize(2) {
					let uri = if s.bool() { uri } else { *s.pick(&DOCS) };
					let had = d.se.fs.get(uri).is_some();
					let typ = if had && s.chance(1, 3) {
						d.se.fs.remove(uri);
						3
					} else {
						d.se.fs.put(uri, &plain(s));
						if had {
							2
						} else {
							1
						}
					};
					changes.push((uri, typ));
				}
				d.log.push(format!("events {changes:?} -> {:?}", changes.iter().map(|(u, _)| d.se.fs.get(u)).collect::<Vec<_>>()));
				let v: Vec<Value> = changes.iter().map(|(u, t)| json!({"uri": u, "type": t})).collect();
				d.se.run();
				let before = d.se.fs.calls().len();
				for (u, _) in changes.iter().filter(|(u, _)| !d.open.contains_key(*u)) {
					d.event_at.insert(u.to_string(), before);
				}
				d.se.notify("workspace/didChangeWatchedFiles", json!({ "changes": v }));
				// answered once the event has been dealt with, which may take the loads it asks for, and earlier ones
				let id = d.next;
				d.next += 1;
				d.se.request(id, "no/such", json!({}));
				loop {
					d.se.run();
					if d.se.responses().iter().any(|r| r.id == id.into()) {
						break;
					}
					let mut w: Vec<usize> = changes.iter().flat_map(|(u, _)| d.waiting(u)).collect();
					w.sort();
					let (old, new): (Vec<usize>, Vec<usize>) = w.into_iter().partition(|i| *i < before);
					match (new.first(), old.is_empty()) {
						(Some(i), quiet) if quiet || s.bool() => {
							d.se.fs.release(*i);
						}
						(_, false) => {
							let i = *s.pick(&old);
							d.release(i);
						}
						_ => return Err(Fail::new("event not dealt with", format!("{changes:?}: nothing more can happen"))),
					}
				}
				for (u, _) in &changes {
					if d.open.contains_key(*u) {
						d.races += 1;
						continue;
					}
					let k = d.se.fs.get(u).map_or(Known::Nothing, Known::Text);
					d.known.insert(u.to_string(), k);
					c.label("event for a document that is not open");
				}
			}
			5 => d.check(s, uri, c)?,
			_ if known == Known::Unasked => d.check(s, uri, c)?,
			_ => (),
		}
	}
	d.drain_all();
	for u in DOCS {
		d.check(s, u, c)?;
	}
	c.label_if(d.late, "open while a load is under way");
	c.label_if(d.stale > 0, "load overtaken by an event");
	c.nontrivial(d.races > 0 || d.late || d.stale > 0);
	Ok(())
}

/// The same, where the client is the file system: its answers may be arbitrarily late.
fn by_client(s: &mut Src, c: &mut Ctx, mut d: Disk) -> Res {
	c.label("client as the file system");
	// everything but contents
	loop {
		d.se.run();
		match d.se.open.iter().position(|(_, m, _)| m != "p4analyzer/fileContents") {
			Some(i) => d.se.answer(i),
			None => break,
		}
	}
	for _ in 0..1 + s.usize(8) {
		let uri = *s.pick(&DOCS);
		match s.usize(4) {
			0 | 1 => {
				let t = plain(s);
				d.log.push(format!("open {uri} {t:?}"));
				d.se.notify("textDocument/didOpen", open_params(uri, &t));
				d.open.insert(uri.into(), t);
				d.se.run();
			}
			_ => {
				d.se.run();
				if !d.se.open.is_empty() {
					let i = s.usize(d.se.open.len());
					let u = d.se.open[i].2["uri"].as_str().unwrap_or("").to_string();
					d.races += d.open.contains_key(&u) as u64;
					d.log.push(format!("answer for {u}: {:?}", d.se.fs.get(&u)));
					d.se.answer(i);
					d.se.run();
				}
			}
		}
	}
	while !d.se.open.is_empty() {
		let i = s.usize(d.se.open.len());
		d.se.answer(i);
		d.se.run();
	}
	c.show(d.log.join("\n"));
	c.nontrivial(d.races > 0);
	for (i, u) in DOCS.iter().enumerate() {
		let id = 100 + i as i32;
		d.se.request(id, "textDocument/completion", at(u, 0, 0));
		d.se.settle();
		let got = answer(&d.se, id)?;
		match (d.open.get(*u), d.se.fs.get(u)) {
			(Some(t), _) => ensure!(got == Some(identifiers(t)), "open document", "{u} is open with text {t:?}: {got:?}"),
			(None, Some(t)) => ensure!(got == Some(identifiers(&t)), "loaded document", "{u} is on disk with {t:?}: {got:?}"),
			(None, None) => ensure!(got.as_ref().map_or(true, |l| l.is_empty()), "absent document", "{u}: {got:?}"),
		}
	}
	Ok(())
}

pub fn c09() -> Property {
	Property {
		id: "C09",
		targets: vec![Target { name: "documents and loads", quick: 180_000, thorough: 5_000_000, rule: "a load is under way, or completes, or an event arrives, for an open document, or an event overtakes a load", run: disk }],
		pinned: vec![],
		assumptions: vec![
			"a file is read when its load starts, or when it completes, and an event is sent together with the change of the disk it tells of",
			"a document closed without an event since may answer with nothing or with what is on disk",
			"documents are closed, changed and saved only while open; texts have no includes",
		],
	}
}
