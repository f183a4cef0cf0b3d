//! C28 whole sessions with the program.
use crate::proc::*;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fs;
use std::time::{Duration, Instant};

const WORDS: [&str; 8] = ["alpha", "b", "_c", "Delta", "e1", "f_f", "gg", "headers"];

fn text(s: &mut Src) -> String {
	if s.chance(1, 40) {
		// more than a pipe takes
		let n = 1000 + s.usize(20_000);
		return (0..n).map(|i| format!("word{i}")).collect::<Vec<_>>().join(" ");
	}
	if s.chance(1, 6) {
		// answers of every size up to that of the buffers in between
		let n = 1 + s.usize(200);
		return (0..n).map(|i| format!("w{i}")).collect::<Vec<_>>().join(" ");
	}
	let w = s.list(5, |s| *s.pick(&WORDS));
	w.join(*s.pick(&[" ", "\n", "\r\n", "\n\n "]))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
	Exit,
	Shutdown,
	Eof,
	Broken,
	Interrupt,
	Twice,
}

#[derive(Clone, Debug, PartialEq)]
enum Known {
	Open(String),
	Disk(String),
	/// Closed: nothing, unless the file is loaded from disk again.
	Closed,
}

struct World {
	/// Contents on disk, by URI.
	disk: BTreeMap<String, String>,
	/// What the server knows, by URI.
	known: BTreeMap<String, Known>,
	files: Vec<(String, std::path::PathBuf)>,
}

impl World {
	/// Whether `r` may be the answer for the document `u` now.
	fn fits(&self, u: &str, r: &Value) -> bool {
		match self.known.get(u) {
			Some(Known::Open(t) | Known::Disk(t)) => labels(r) == Some(words(t)),
			_ => labels(r).map_or(true, |l| l.is_empty() || self.disk.get(u).map_or(false, |t| l == words(t))),
		}
	}
	fn open(&self, u: &str) -> bool { matches!(self.known.get(u), Some(Known::Open(_))) }
}

/// Asks for the names of `uri` until they are `want`.
fn eventually(p: &mut Proc, s: &mut Src, uri: &str, want: &[String]) -> Res {
	let until = Instant::now() + Duration::from_secs(12);
	loop {
		let r = p.ask(s, "textDocument/completion", at(uri))?;
		let got = labels(&r);
		if got.as_deref() == Some(want) {
			return Ok(());
		}
		if Instant::now() > until {
			return Err(Fail::new("file on disk is not served", format!("{uri}: {got:?} instead of {want:?}")));
		}
		std::thread::sleep(Duration::from_micros(500));
	}
}

fn brief(v: &Value) -> String { v.to_string().chars().take(300).collect() }

pub fn session(s: &mut Src, c: &mut Ctx) -> Res {
	let scratch = Scratch::new();
	// folders, and files in them
	let nfolders = s.usize(3);
	let workspace = s.chance(4, 5);
	let mut w = World { disk: BTreeMap::new(), known: BTreeMap::new(), files: vec![] };
	let mut folders = vec![];
	for f in 0..nfolders {
		let dir = scratch.0.join(format!("{}{f}", s.pick(&["w", "x y", "é", "[a]"])));
		fs::create_dir_all(dir.join("sub")).unwrap();
		let mut url = url::Url::from_directory_path(&dir).unwrap().to_string();
		if s.bool() {
			url.pop();
		}
		folders.push(url);
		for (k, name) in ["a.p4", "sub/b.p4", "c d.p4"].iter().enumerate() {
			if s.bool() {
				// every file can be told from the others
				let t = format!("file{f}{k} {}", text(s));
				fs::write(dir.join(name), &t).unwrap();
				w.disk.insert(url::Url::from_file_path(dir.join(name)).unwrap().to_string(), t);
			}
			w.files.push((url::Url::from_file_path(dir.join(name)).unwrap().to_string(), dir.join(name)));
		}
		fs::write(dir.join("not.txt"), "none").unwrap();
	}
	let progress = s.bool();
	let trace = *s.pick(&[None, Some("off"), Some("messages"), Some("verbose")]);
	let end = *s.pick(&[End::Exit, End::Shutdown, End::Eof, End::Interrupt, End::Broken, End::Twice]);
	let stage = s.weighted(&[1, 1, 1, 9]);
	c.show(format!("{nfolders} folders, workspace {workspace}, {} files, progress {progress}, trace {trace:?}, stage {stage}, {end:?}", w.disk.len()));
	c.label(format!("{end:?} at stage {stage}"));

	let mut p = start(&[], &scratch.0);
	let mut expect_error: Vec<(Value, i64)> = vec![];
	let mut ready = false;
	// 1. before initialisation
	if stage > 0 {
		for _ in 0..s.usize(3) {
			let method = *s.pick(&["shutdown", "textDocument/hover", "no/such"]);
			let id = p.request(s, method, Value::Null);
			expect_error.push((id, -32002));
		}
		if stage == 1 {
			p.flush(s);
		}
	}
	// 2. initialisation
	if stage > 1 {
		let r = p.ask(s, "initialize", init_params(workspace.then(|| folders.clone()), progress, trace))?;
		ready = true;
		ensure!(r.get("error").is_none() && r["result"]["capabilities"].is_object(), "initialize fails", "{r}");
	}
	let mut ops = 0;
	if stage > 2 {
		p.notify(s, "initialized", json!({}));
		p.flush(s);
		// the server asks for the registration before it goes on
		while workspace {
			match p.receive("the registration")? {
				Some(v) if v["method"] == "client/registerCapability" => break,
				Some(_) => (),
				None => return Err(Fail::new("ended early", "the server has ended while it was being initialised")),
			}
		}
		// 3. all files of the workspace become known by themselves
		if workspace {
			for (u, t) in &w.disk {
				eventually(&mut p, s, u, &words(t))?;
				w.known.insert(u.clone(), Known::Disk(t.clone()));
			}
		}
		if s.bool() {
			w.files.push((format!("file://{}/elsewhere.p4", scratch.0.display()), scratch.0.join("elsewhere.p4")));
		}
		// 4. documents
		ops = if w.files.is_empty() { 0 } else { s.usize(10) };
		for _ in 0..ops {
			let (u, path) = s.pick(&w.files).clone();
			let op = s.weighted(&[3, 3, 2, 4, 2, 2, 1]);
			c.repr += &format!("; {} {}", ["open", "change", "close", "complete", "write", "delete", "unknown"][op], path.file_name().unwrap().to_string_lossy());
			match op {
				0 => {
					let t = text(s);
					if !w.open(&u) {
						p.notify(s, "textDocument/didOpen", open(&u, &t));
						w.known.insert(u, Known::Open(t));
					}
				}
				1 => {
					if let Some(Known::Open(t)) = w.known.get_mut(&u) {
						let change = if s.bool() {
							*t = format!("new {t}");
							json!({ "range": { "start": { "line": 0, "character": 0 }, "end": { "line": 0, "character": 0 } }, "text": "new " })
						} else {
							*t = text(s);
							json!({ "text": t })
						};
						p.notify(s, "textDocument/didChange", json!({ "textDocument": { "uri": u, "version": 2 }, "contentChanges": [change] }));
					}
				}
				2 => {
					if w.open(&u) {
						p.notify(s, "textDocument/didClose", doc(&u));
						w.known.insert(u, Known::Closed);
					}
				}
				3 => {
					if w.known.contains_key(&u) {
						let r = p.ask(s, "textDocument/completion", at(&u))?;
						ensure!(w.fits(&u, &r), "wrong names", "{u}: {} for {}", brief(&r), brief(&json!(format!("{:?}", w.known[&u]))));
					}
				}
				4 => {
					// on disk; the event is sent when it has happened
					let t = format!("disk {}", text(s));
					fs::write(&path, &t).unwrap();
					let was = w.disk.insert(u.clone(), t.clone()).is_some();
					p.notify(s, "workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": u, "type": if was { 2 } else { 1 } }] }));
					if !w.open(&u) {
						eventually(&mut p, s, &u, &words(&t))?;
						w.known.insert(u, Known::Disk(t));
					}
				}
				5 => {
					if w.disk.remove(&u).is_some() {
						fs::remove_file(&path).unwrap();
						p.notify(s, "workspace/didChangeWatchedFiles", json!({ "changes": [{ "uri": u, "type": 3 }] }));
						if !w.open(&u) {
							w.known.remove(&u);
						}
					}
				}
				_ => {
					let id = p.request(s, "no/such", json!({}));
					expect_error.push((id, 0));
				}
			}
			if s.bool() {
				p.flush(s);
			}
		}
	}
	// 5. the end, with requests under way
	let mut last = vec![];
	for _ in 0..s.usize(4) {
		let known: Vec<String> = w.known.keys().cloned().collect();
		if ready && stage > 2 && !known.is_empty() {
			let u = s.pick(&known).clone();
			last.push((p.request(s, "textDocument/completion", at(&u)), u));
		}
	}
	let mut down = None;
	match end {
		End::Exit => p.notify(s, "exit", Value::Null),
		End::Shutdown => {
			if stage > 2 {
				down = Some(p.request(s, "shutdown", Value::Null));
				if s.bool() {
					let id = p.request(s, "textDocument/completion", at("file:///x"));
					expect_error.push((id, -32600));
				}
			}
			p.notify(s, "exit", Value::Null)
		}
		End::Broken => p.raw(*s.pick(&[&b"Content-Length: 10\r\n\r\n{\"id"[..], b"Content-Le", b"hello\r\n\r\n"])),
		_ => (),
	}
	let interrupted = matches!(end, End::Interrupt | End::Twice);
	p.flush(s);
	match end {
		End::Eof | End::Broken => p.close_input(),
		End::Interrupt => p.interrupt(),
		End::Twice => {
			p.interrupt();
			if s.bool() {
				std::thread::sleep(Duration::from_micros(s.below(3000)));
			}
			p.interrupt();
		}
		_ => (),
	}
	let status = match end {
		End::Twice => {
			// the second one may cut a message
			let (_, st) = p.text("two interrupts")?;
			st
		}
		_ => p.end(match end {
			End::Eof => "the end of the input",
			End::Broken => "broken input",
			End::Interrupt => "an interrupt",
			_ => "exit",
		})?,
	};
	let early = interrupted && !ready; // it may not have got as far as to handle interrupts
	ensure!(status.success() || early || end == End::Twice, "bad end", "{} after {end:?}", describe(&status));
	// 6. what has come
	if end == End::Twice {
		c.nontrivial(ready);
		return Ok(());
	}
	let answered = p.answered();
	if interrupted {
		ensure!(p.asked.starts_with(&answered), "wrong answers", "to {answered:?}, asked {:?}", p.asked);
	} else {
		ensure!(p.asked == answered, "wrong answers", "to {answered:?}, asked {:?}", p.asked);
	}
	let find = |id: &Value| p.seen.iter().find(|v| v.get("method").is_none() && v["id"] == *id);
	for (id, code) in &expect_error {
		if let Some(v) = find(id) {
			ensure!(v["error"]["code"].is_i64() && (*code == 0 || v["error"]["code"] == *code), "wrong error", "{v} instead of {code}");
		}
	}
	for (id, u) in &last {
		if let Some(v) = find(id) {
			ensure!(w.fits(u, v), "wrong names", "{u}: {} for {}", brief(v), brief(&json!(format!("{:?}", w.known[u]))));
		}
	}
	if let Some(v) = down.as_ref().and_then(find) {
		ensure!(v.get("result") == Some(&Value::Null) && v.get("error").is_none(), "shutdown fails", "{v}");
	}
	let traces = p.traces();
	match trace {
		Some("messages") => {
			ensure!(traces.iter().all(|t| t["params"].get("verbose").map_or(true, |v| v.is_null())), "wrong trace", "detail at level messages: {traces:?}");
			ensure!(stage < 3 || !traces.is_empty(), "no trace", "not one event was sent at level messages");
		}
		Some("verbose") => {
			ensure!(stage < 3 || traces.iter().any(|t| t["params"]["verbose"].is_string()), "no trace", "not one event was sent with detail at level verbose");
		}
		_ => ensure!(traces.is_empty(), "wrong trace", "{traces:?}"),
	}
	let begun = p.seen.iter().filter(|v| v["method"] == "$/progress" && v["params"]["value"]["kind"] == "begin").count();
	ensure!(begun <= (progress && workspace) as usize, "wrong progress", "{begun} times");
	c.label_if(workspace && !w.disk.is_empty(), "files on disk");
	c.label_if(!last.is_empty(), "requests under way at the end");
	c.nontrivial(ready && (ops > 0 || !last.is_empty() || !w.known.is_empty()));
	Ok(())
}

pub fn c28() -> Property {
	Property {
		id: "C28",
		targets: vec![Target { name: "session", quick: 12_000, thorough: 400_000, rule: "the session is initialised and has a document, an operation or a request under way at its end", run: session }],
		pinned: vec![],
		assumptions: vec![
			"interrupts are SIGINT; the interleaving of the process's threads is up to the operating system",
			"the client reads all that is sent to it, and answers the server's requests at once",
			"anything the server must do takes less than 12 s",
		],
	}
}
