//! A running p4analyzer, and the client at the other end of its standard streams.
use pbt::{Fail, Src};
use serde_json::{json, Value};
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

/// How long the server may take for anything it must do.
pub const PATIENCE: Duration = Duration::from_secs(15);

/// A folder of its own, removed with it.
pub struct Scratch(pub PathBuf);

impl Scratch {
	pub fn new() -> Self {
		static N: AtomicUsize = AtomicUsize::new(0);
		let p = std::env::temp_dir().join(format!("p4v-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
		std::fs::create_dir_all(&p).unwrap();
		Self(p)
	}
}

impl Drop for Scratch {
	fn drop(&mut self) {
		if self.0.starts_with(std::env::temp_dir()) && self.0.file_name().map_or(false, |n| n.to_string_lossy().starts_with("p4v-")) {
			let _ = std::fs::remove_dir_all(&self.0);
		}
	}
}

pub struct Proc {
	child: Child,
	stdin: Option<ChildStdin>,
	chunks: Receiver<Vec<u8>>,
	/// What has come and has not been taken for a message yet.
	rest: Vec<u8>,
	ended: bool,
	/// All messages that have come.
	pub seen: Vec<Value>,
	/// Requests sent, in order.
	pub asked: Vec<Value>,
	next: i64,
	/// Bytes to be sent.
	pending: Vec<u8>,
}

impl Drop for Proc {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

/// The program under test lies beside this one.
pub fn program() -> PathBuf { std::env::current_exe().unwrap().with_file_name("p4analyzer") }

pub fn start(args: &[OsString], cwd: &Path) -> Proc {
	let mut cmd = Command::new(program());
	cmd.args(args).current_dir(cwd).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
	unsafe {
		cmd.pre_exec(|| {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			libc::signal(libc::SIGINT, libc::SIG_DFL);
			Ok(())
		});
	}
	let mut child = cmd.spawn().expect("p4analyzer can't be started");
	let stdin = child.stdin.take();
	let mut stdout = child.stdout.take().unwrap();
	let (tx, chunks) = channel();
	std::thread::spawn(move || {
		let mut buffer = vec![0; 1 << 16];
		while let Ok(n) = stdout.read(&mut buffer) {
			if n == 0 || tx.send(buffer[..n].to_vec()).is_err() {
				break;
			}
		}
	});
	Proc { child, stdin, chunks, rest: vec![], ended: false, seen: vec![], asked: vec![], next: 0, pending: vec![] }
}

/// The first frame of `b`, and where it ends; `None` if there is not all of it yet.
fn frame(b: &[u8]) -> Result<Option<(Value, usize)>, Fail> {
	let wrong = |what: String| Fail::new("not a frame on stdout", format!("{what}: {:?}", String::from_utf8_lossy(&b[..b.len().min(300)])));
	let start = b"Content-";
	if b.iter().zip(start).any(|(x, y)| !x.eq_ignore_ascii_case(y)) {
		return Err(wrong("no header".into()));
	}
	let end = match b.windows(4).position(|w| w == b"\r\n\r\n") {
		Some(e) => e,
		None if b.len() > 1000 => return Err(wrong("a header without end".into())),
		None => return Ok(None),
	};
	let head = String::from_utf8_lossy(&b[..end]).into_owned();
	let len = head.split("\r\n").filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).find_map(|(_, v)| v.trim().parse::<usize>().ok());
	let len = len.ok_or_else(|| wrong("no length".into()))?;
	if b.len() < end + 4 + len {
		return Ok(None);
	}
	let v: Value = serde_json::from_slice(&b[end + 4..end + 4 + len]).map_err(|e| wrong(e.to_string()))?;
	if v["jsonrpc"] != "2.0" {
		return Err(wrong("not JSON-RPC 2.0".into()));
	}
	Ok(Some((v, end + 4 + len)))
}

impl Proc {
	/// Queues a message for `flush`.
	fn put(&mut self, mut v: Value, s: &mut Src) {
		v["jsonrpc"] = json!("2.0");
		let body = v.to_string();
		let head = match s.weighted(&[6, 1, 1]) {
			0 => format!("Content-Length: {}\r\n\r\n", body.len()),
			1 => format!("Content-Length: {}\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n", body.len()),
			_ => format!("Content-Type: x\r\nContent-Length: {}\r\n\r\n", body.len()),
		};
		self.pending.extend(head.as_bytes());
		self.pending.extend(body.as_bytes());
	}
	pub fn raw(&mut self, b: &[u8]) { self.pending.extend(b) }
	pub fn notify(&mut self, s: &mut Src, method: &str, params: Value) { self.put(json!({ "method": method, "params": params }), s) }
	/// A request, with an id of its own.
	pub fn request(&mut self, s: &mut Src, method: &str, params: Value) -> Value {
		self.next += 1;
		let id = if s.chance(1, 4) { json!(format!("r{}", self.next)) } else { json!(self.next) };
		self.put(json!({ "id": id, "method": method, "params": params }), s);
		self.asked.push(id.clone());
		id
	}
	/// Sends what is queued, in one piece or several.
	pub fn flush(&mut self, s: &mut Src) {
		let bytes = std::mem::take(&mut self.pending);
		let mut cuts: Vec<usize> = if s.chance(1, 4) { (0..s.usize(5)).map(|_| s.usize(bytes.len() + 1)).collect() } else { vec![] };
		cuts.push(bytes.len());
		cuts.sort();
		let mut at = 0;
		for c in cuts {
			if let Some(i) = &mut self.stdin {
				let _ = i.write_all(&bytes[at..c]); // the server may have ended
				let _ = i.flush();
			}
			at = c;
			if s.chance(1, 20) {
				std::thread::sleep(Duration::from_millis(1));
			}
		}
	}
	pub fn close_input(&mut self) { self.stdin = None }
	pub fn interrupt(&self) { unsafe { libc::kill(self.child.id() as i32, libc::SIGINT); } }
	pub fn kill(&mut self) { let _ = self.child.kill(); }

	/// The next message; `None` at the end of the output.
	pub fn receive(&mut self, what: &str) -> Result<Option<Value>, Fail> {
		let until = Instant::now() + PATIENCE;
		loop {
			if let Some((v, n)) = frame(&self.rest)? {
				self.rest.drain(..n);
				self.seen.push(v.clone());
				// requests of the server are answered at once
				if v.get("method").is_some() && v.get("id").is_some() {
					let reply = json!({ "jsonrpc": "2.0", "id": v["id"], "result": null }).to_string();
					if let Some(i) = &mut self.stdin {
						let _ = i.write_all(format!("Content-Length: {}\r\n\r\n{reply}", reply.len()).as_bytes());
						let _ = i.flush();
					}
				}
				return Ok(Some(v));
			}
			if self.ended {
				if !self.rest.is_empty() {
					return Err(Fail::new("stray output", format!("at the end of the output: {:?}", String::from_utf8_lossy(&self.rest[..self.rest.len().min(300)]))));
				}
				return Ok(None);
			}
			match self.chunks.recv_timeout(until.saturating_duration_since(Instant::now())) {
				Ok(b) => self.rest.extend(b),
				Err(RecvTimeoutError::Disconnected) => self.ended = true,
				Err(RecvTimeoutError::Timeout) => return Err(Fail::new(format!("nothing comes: {what}"), format!("{what}: nothing for {PATIENCE:?}; {} messages before, {} requests", self.seen.len(), self.asked.len()))),
			}
		}
	}
	/// Until the response with `id`.
	pub fn response(&mut self, id: &Value) -> Result<Value, Fail> {
		loop {
			match self.receive("a response")? {
				None => return Err(Fail::new("ended early", format!("the server has ended without answering {id}"))),
				Some(v) if v.get("method").is_none() && v["id"] == *id => return Ok(v),
				Some(_) => (),
			}
		}
	}
	pub fn ask(&mut self, s: &mut Src, method: &str, params: Value) -> Result<Value, Fail> {
		let id = self.request(s, method, params);
		self.flush(s);
		self.response(&id)
	}
	/// The rest of the messages, and how the process ended.
	pub fn end(&mut self, after: &str) -> Result<ExitStatus, Fail> {
		while self.receive(&format!("end of output after {after}"))?.is_some() {}
		self.gone(after)
	}
	/// The output to its end, whatever it is.
	pub fn text(&mut self, after: &str) -> Result<(Vec<u8>, ExitStatus), Fail> {
		let until = Instant::now() + PATIENCE;
		loop {
			match self.chunks.recv_timeout(until.saturating_duration_since(Instant::now())) {
				Ok(b) => self.rest.extend(b),
				Err(RecvTimeoutError::Disconnected) => break,
				Err(RecvTimeoutError::Timeout) => return Err(Fail::new("does not end", format!("still running {PATIENCE:?} after {after}"))),
			}
		}
		Ok((std::mem::take(&mut self.rest), self.gone(after)?))
	}
	fn gone(&mut self, after: &str) -> Result<ExitStatus, Fail> {
		let until = Instant::now() + PATIENCE;
		loop {
			if let Some(st) = self.child.try_wait().unwrap() {
				return Ok(st);
			}
			if Instant::now() > until {
				return Err(Fail::new("does not end", format!("still running {PATIENCE:?} after {after}")));
			}
			std::thread::sleep(Duration::from_micros(300));
		}
	}
	/// Ids of the responses, in order.
	pub fn answered(&self) -> Vec<Value> { self.seen.iter().filter(|v| v.get("method").is_none()).map(|v| v["id"].clone()).collect() }
	pub fn traces(&self) -> Vec<&Value> { self.seen.iter().filter(|v| v["method"] == "$/logTrace").collect() }
}

pub fn describe(st: &ExitStatus) -> String {
	match (st.code(), st.signal()) {
		(Some(c), _) => format!("exit code {c}"),
		(_, Some(n)) => format!("signal {n}"),
		_ => "?".into(),
	}
}

/// The labels of a completion response; `None` if it is an error.
pub fn labels(r: &Value) -> Option<Vec<String>> {
	let items = match r.get("result") {
		Some(Value::Array(a)) => a.clone(),
		Some(Value::Object(o)) => o.get("items").and_then(|i| i.as_array()).cloned().unwrap_or_default(),
		Some(Value::Null) => vec![],
		_ => return None,
	};
	Some(items.iter().map(|i| i["label"].as_str().unwrap_or("?").to_string()).collect())
}

pub fn init_params(folders: Option<Vec<String>>, progress: bool, trace: Option<&str>) -> Value {
	let mut caps = json!({ "workspace": { "didChangeWatchedFiles": { "dynamicRegistration": true } } });
	if progress {
		caps["window"] = json!({ "workDoneProgress": true });
	}
	let mut p = json!({ "processId": null, "rootUri": null, "capabilities": caps });
	if let Some(f) = folders {
		p["workspaceFolders"] = Value::Array(f.into_iter().map(|u| json!({ "uri": u, "name": "w" })).collect());
	}
	if let Some(t) = trace {
		p["trace"] = json!(t);
	}
	p
}

pub fn doc(uri: &str) -> Value { json!({ "textDocument": { "uri": uri } }) }
pub fn at(uri: &str) -> Value { json!({ "textDocument": { "uri": uri }, "position": { "line": 0, "character": 0 } }) }
pub fn open(uri: &str, text: &str) -> Value { json!({ "textDocument": { "uri": uri, "languageId": "p4", "version": 1, "text": text } }) }

/// The distinct words of a text.
pub fn words(text: &str) -> Vec<String> {
	let mut out: Vec<String> = vec![];
	for w in text.split_whitespace() {
		if !out.iter().any(|o| o == w) {
			out.push(w.to_string());
		}
	}
	out
}
