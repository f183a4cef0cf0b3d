//! C30 the same session over the WebAssembly server and straight to the host.
use crate::exec::Task;
use crate::session::{at, doc, init_params, open_params, Session};
use analyzer_host::json_rpc::message::Message;
use js_sys::{Function, Uint8Array};
use p4_analyzer_wasm::LspServer;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::rc::Rc;
use wasm_bindgen::{Bytes, JsValue, Kind};

#[derive(Clone, Debug)]
enum Op {
	/// Several buffers at once; whether each holds a message.
	Send(Vec<(Vec<u8>, bool)>),
	/// Until nothing more happens by itself.
	Run,
	/// Answer the open server requests.
	Answer,
	Stop,
}

#[derive(Default)]
struct Log {
	/// Bodies that came, in order.
	out: Vec<Vec<u8>>,
	/// For each buffer sent: accepted, refused, or neither yet.
	sent: Vec<Option<bool>>,
	ended: bool,
	before_stop: Option<usize>,
}

type Disk = BTreeMap<String, String>;

/// What the client answers to the requests in `out` from `from` on, in an order of its own.
fn answers(disk: &Disk, folder: &str, out: &[Vec<u8>], from: usize) -> Vec<Value> {
	let mut v: Vec<(String, Value)> = vec![];
	for b in &out[from..] {
		let m: Value = serde_json::from_slice(b).unwrap_or(Value::Null);
		if let (Some(method), Some(id)) = (m["method"].as_str(), m.get("id")) {
			let uri = m["params"]["uri"].as_str().unwrap_or("");
			let a = match method {
				"p4analyzer/enumerateFolder" if uri.trim_end_matches('/') == folder => json!({ "jsonrpc": "2.0", "id": id, "result": disk.keys().map(|u| json!({ "uri": u })).collect::<Vec<_>>() }),
				"p4analyzer/fileContents" => match disk.get(uri) {
					Some(t) => json!({ "jsonrpc": "2.0", "id": id, "result": t }),
					None => json!({ "jsonrpc": "2.0", "id": id, "error": { "code": -32603, "message": "no such file" } }),
				},
				_ => json!({ "jsonrpc": "2.0", "id": id, "result": null }),
			};
			v.push((format!("{method} {uri}"), a));
		}
	}
	v.sort_by(|a, b| a.0.cmp(&b.0));
	v.into_iter().map(|x| x.1).collect()
}

trait End {
	fn send(&mut self, buffers: &[Vec<u8>]);
	fn run(&mut self);
	fn stop(&mut self);
	fn log(&mut self) -> &mut Log;
}

fn play(e: &mut dyn End, script: &[Op], disk: &Disk, folder: &str) {
	let mut from = 0;
	for op in script {
		match op {
			Op::Send(b) => e.send(&b.iter().map(|b| b.0.clone()).collect::<Vec<_>>()),
			Op::Run => e.run(),
			Op::Answer => {
				let a = answers(disk, folder, &e.log().out, from);
				from = e.log().out.len();
				let a: Vec<_> = a.iter().map(|v| v.to_string().into_bytes()).collect();
				e.send(&a)
			}
			Op::Stop => {
				let n = e.log().out.len();
				e.log().before_stop.get_or_insert(n);
				e.stop()
			}
		}
	}
	e.run();
}

struct Glue {
	server: Rc<LspServer>,
	start: Task<bool>,
	sends: Vec<(usize, Task<bool>)>,
	got: Rc<RefCell<Vec<Vec<u8>>>>,
	log: Log,
	/// How buffers lie in memory.
	offset: usize,
}

impl Glue {
	fn new(offset: usize) -> Self {
		let got: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
		let g = got.clone();
		let server = Rc::new(LspServer::new(Function::native(move |args| {
			let body = match args {
				[v] => Uint8Array::new(v).to_vec(),
				_ => format!("{} arguments", args.len()).into_bytes(),
			};
			g.borrow_mut().push(body);
			Ok(JsValue::UNDEFINED)
		})));
		let s = server.clone();
		let start = Task::new(async move { s.start().await.is_ok() });
		Glue { server, start, sends: vec![], got, log: Log::default(), offset }
	}

	/// Runs what has been sent.
	fn sent(&mut self) {
		for (i, t) in &mut self.sends {
			t.run();
			if let Some(r) = t.result {
				self.log.sent[*i] = Some(r);
			}
		}
		self.sends.retain(|(_, t)| !t.done());
	}
}

impl End for Glue {
	fn send(&mut self, buffers: &[Vec<u8>]) {
		for b in buffers {
			let s = self.server.clone();
			let mut memory = vec![b'x'; self.offset];
			memory.extend(b);
			memory.extend(vec![b'}'; self.offset]);
			let v = JsValue(Kind::Bytes(Bytes(Rc::new(RefCell::new(memory)), self.offset, b.len())));
			self.log.sent.push(None);
			self.sends.push((self.log.sent.len() - 1, Task::new(async move { s.send_request(v.into()).await.is_ok() })));
		}
		self.sent();
	}
	fn run(&mut self) {
		loop {
			self.start.run();
			let n = self.sends.len();
			self.sent();
			if n == self.sends.len() {
				break;
			}
		}
		self.log.ended = self.start.done();
		self.log.out.append(&mut self.got.borrow_mut());
	}
	fn stop(&mut self) { self.server.stop() }
	fn log(&mut self) -> &mut Log { &mut self.log }
}

struct Direct {
	session: Session,
	seen: usize,
	log: Log,
}

impl End for Direct {
	fn send(&mut self, buffers: &[Vec<u8>]) {
		for b in buffers {
			let ok = match serde_json::from_slice::<Message>(b) {
				Ok(m) => self.session.to_host.try_send(m).is_ok(),
				Err(_) => false,
			};
			self.log.sent.push(Some(ok));
		}
	}
	fn run(&mut self) {
		self.session.run();
		for m in &self.session.out[self.seen..] {
			let mut v = serde_json::to_value(m).unwrap();
			v["jsonrpc"] = json!("2.0");
			self.log.out.push(v.to_string().into_bytes());
		}
		self.seen = self.session.out.len();
		self.log.ended = self.session.host.done();
	}
	/// Not stopped: the other end is compared with a beginning.
	fn stop(&mut self) {}
	fn log(&mut self) -> &mut Log { &mut self.log }
}

/// Runs the session straight to the host, in a thread of its own: the pool for background work is the thread's.
fn straight(script: &[Op], disk: &Disk, folder: &str) -> Log {
	std::thread::scope(|t| {
		t.spawn(|| {
			let mut d = Direct { session: Session::new(false, None), seen: 0, log: Log::default() };
			play(&mut d, script, disk, folder);
			d.log
		})
		.join()
		.unwrap()
	})
}

/// Runs the session over the server in a process of its own: it sets global state.
fn in_child(script: &[Op], disk: &Disk, folder: &str, offset: usize) -> Result<Value, Fail> {
	let mut p = [0; 2];
	unsafe {
		assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
		let pid = libc::fork();
		assert!(pid >= 0);
		if pid == 0 {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			let cpu = libc::rlimit { rlim_cur: 25, rlim_max: 25 };
			libc::setrlimit(libc::RLIMIT_CPU, &cpu);
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				let mut g = Glue::new(offset);
				play(&mut g, script, disk, folder);
				json!({ "out": g.log.out, "sent": g.log.sent, "ended": g.log.ended, "before": g.log.before_stop })
			}));
			let v = r.unwrap_or_else(|e| {
				let text = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
				json!({ "panic": text })
			});
			let text = v.to_string();
			let mut rest = text.as_bytes();
			while !rest.is_empty() {
				let n = libc::write(p[1], rest.as_ptr() as *const _, rest.len());
				if n <= 0 {
					break;
				}
				rest = &rest[n as usize..];
			}
			libc::_exit(0);
		}
		libc::close(p[1]);
		let mut f = std::fs::File::from_raw_fd(p[0]);
		let mut text = String::new();
		let read = f.read_to_string(&mut text);
		let mut status = 0;
		libc::waitpid(pid, &mut status, 0);
		match serde_json::from_str::<Value>(&text) {
			Ok(v) => match v["panic"].as_str() {
				Some(t) => Err(Fail::new("panic", t.to_string())),
				None => Ok(v),
			},
			Err(_) => Err(Fail::new("crash", format!("the server ends its process with status {status:#x} {read:?}"))),
		}
	}
}

const WORDS: [&str; 6] = ["alpha", "b_2", "header", "_x", "Gamma", "d4"];

fn text(s: &mut Src) -> String {
	let w = s.list(5, |s| *s.pick(&WORDS));
	let c = *s.pick(&["", " // é 日本 😀", "\n", "\r\n/* \u{0} \" \\ */"]);
	format!("{}{c}", w.join(*s.pick(&[" ", "\n", "\t"])))
}

fn bytes(s: &mut Src, m: &Value) -> Vec<u8> {
	let mut m = m.clone();
	if s.chance(3, 4) {
		m["jsonrpc"] = json!("2.0");
	}
	match s.usize(4) {
		0 => serde_json::to_string_pretty(&m).unwrap().into_bytes(),
		1 => format!(" \r\n{m}\t ").into_bytes(),
		_ => m.to_string().into_bytes(),
	}
}

fn broken(s: &mut Src, good: &[u8]) -> Vec<u8> {
	let mut b = good.to_vec();
	match s.usize(7) {
		0 => b.truncate(s.usize(b.iter().rposition(|c| *c == b'}').unwrap_or(0) + 1)),
		1 => b.push(b'}'),
		2 => b.extend(good),
		3 => b = [b"[", good, b"]"].concat(),
		4 => b = s.pick(&[&b""[..], b"null", b"1", b"\"x\"", b"{}", b"[]", b"{\"jsonrpc\":\"2.0\"}", b"[1,\"shutdown\",null]"]).to_vec(),
		5 => b.insert(b.iter().position(|c| *c == b'"').unwrap_or(0) + 1, 0xff),
		_ => b = [b"\0", good].concat(),
	}
	b
}

pub fn session(s: &mut Src, c: &mut Ctx) -> Res {
	let folder = "file:///w";
	let mut disk = Disk::new();
	let names = ["file:///w/a.p4", "file:///w/b%20c.p4", "file:///w/s/%C3%A9.p4"];
	for (i, n) in names.iter().enumerate() {
		if s.bool() {
			disk.insert(n.to_string(), format!("disk{i} {}", text(s)));
		}
	}
	let workspace = s.bool();
	let trace = *s.pick(&[None, Some("off"), Some("messages"), Some("verbose")]);
	let mut id = 0i64;
	let mut script = vec![];
	let mut stopped = false;
	let mut bad = 0;
	let mut early = 0;
	let mut init = 0;
	let n = 1 + s.usize(14);
	for _ in 0..n {
		match s.weighted(&[6, 3, 3, 1]) {
			0 => {
				let many = 1 + s.usize(4);
				let mut batch = vec![];
				for _ in 0..many {
					id += 1;
					let the_id = if s.chance(1, 4) { json!(format!("ä{id}")) } else { json!(id) };
					let u = *s.pick(&names);
					// the usual order, with exceptions
					let op = if init < 2 && s.chance(4, 5) { init } else { 2 + s.weighted(&[4, 4, 2, 1, 1, 1, 1]) };
					let m = match op {
						0 => json!({ "id": the_id, "method": "initialize", "params": init_params(workspace.then(|| vec![(folder.to_string(), "w".into())]), true, false, trace) }),
						1 => json!({ "method": "initialized", "params": {} }),
						2 => json!({ "method": "textDocument/didOpen", "params": open_params(u, &text(s)) }),
						3 => json!({ "id": the_id, "method": "textDocument/completion", "params": at(u, 0, 0) }),
						4 => json!({ "method": "textDocument/didChange", "params": { "textDocument": { "uri": u, "version": 2 }, "contentChanges": [{ "text": text(s) }] } }),
						5 => json!({ "method": "textDocument/didClose", "params": doc(u) }),
						6 => json!({ "id": the_id, "method": *s.pick(&["no/such", "textDocument/hover", "workspace/symbol"]), "params": { "é": [null, 1.5, "\u{0}"] } }),
						7 => json!({ "id": the_id, "method": "shutdown" }),
						_ => json!({ "method": "exit" }),
					};
					if op < 2 {
						init += 1;
					}
					early += stopped as usize;
					let good = bytes(s, &m);
					if s.chance(1, 6) {
						bad += 1;
						batch.push((broken(s, &good), false));
						if s.bool() {
							batch.push((good, true));
						}
					} else {
						batch.push((good, true));
					}
				}
				script.push(Op::Send(batch));
			}
			1 => script.push(Op::Run),
			2 => script.extend([Op::Run, Op::Answer, Op::Run]),
			_ => {
				if s.chance(1, 3) {
					stopped = true;
					script.push(Op::Stop);
				}
			}
		}
	}
	let offset = *s.pick(&[0, 0, 1, 7, 4096]);
	let mut shown = format!("{} files on disk, workspace {workspace}, trace {trace:?}", disk.len());
	for o in &script {
		match o {
			Op::Send(b) => shown += &format!("\n  send {}", b.iter().map(|b| String::from_utf8_lossy(&b.0).chars().take(160).collect::<String>()).collect::<Vec<_>>().join(" | ")),
			o => shown += &format!("\n  {o:?}"),
		}
	}
	c.show(shown);
	// whether a buffer is a message is the check's own knowledge
	for o in &script {
		if let Op::Send(b) = o {
			for (b, good) in b {
				assert!(*good || serde_json::from_slice::<Value>(b).map_or(true, |v| !v.is_object() || v.get("method").is_none() && v.get("id").is_none()), "{:?}", String::from_utf8_lossy(b));
			}
		}
	}
	let got = in_child(&script, &disk, folder, offset)?;
	let direct_log = straight(&script, &disk, folder);

	let sent: Vec<Option<bool>> = got["sent"].as_array().unwrap().iter().map(|v| v.as_bool()).collect();
	ensure!(sent.iter().all(|s| s.is_some()), "sendRequest never ends", "{sent:?}");
	let out: Vec<Vec<u8>> = serde_json::from_value(got["out"].clone()).unwrap();
	let mut messages = vec![];
	for b in &out {
		let v: Value = match serde_json::from_slice(b) {
			Ok(v) => v,
			Err(e) => return Err(Fail::new("not JSON", format!("{e}: {:?}", String::from_utf8_lossy(b)))),
		};
		ensure!(v.is_object() && v["jsonrpc"] == "2.0", "no JSON-RPC version", "{v}");
		messages.push(v);
	}
	let (traces, messages): (Vec<_>, Vec<_>) = messages.into_iter().partition(|m| m["method"] == "$/logTrace");
	let direct: Vec<Value> = direct_log.out.iter().map(|b| serde_json::from_slice(b).unwrap()).collect();
	// answers in their order; the server's own requests in any
	let is_own = |m: &&Value| m.get("method").is_some();
	let rest = |v: &[Value]| -> Vec<Value> { v.iter().filter(|m| !is_own(m)).cloned().collect() };
	let own = |v: &[Value]| -> Vec<String> {
		let mut v: Vec<String> = v.iter().filter(is_own).map(|m| format!("{} {}", m["method"], m["params"])).map(|t| if t.contains("registerCapability") { "register".into() } else { t }).collect();
		v.sort();
		v
	};
	if stopped {
		ensure!(got["ended"] == true, "not stopped", "start has not returned");
		ensure!(rest(&direct).starts_with(&rest(&messages)), "wrong messages", "{:?} is no beginning of {:?}", rest(&messages), rest(&direct));
		let mut left = own(&direct);
		for o in own(&messages) {
			match left.iter().position(|l| *l == o) {
				Some(i) => drop(left.remove(i)),
				None => return Err(Fail::new("wrong server request", o)),
			}
		}
		// what came before the stop, came
		let at = script.iter().position(|o| matches!(o, Op::Stop)).unwrap();
		let mut upto = script[..at].to_vec();
		let settled = matches!(upto.last(), Some(Op::Run));
		while !matches!(upto.last(), Some(Op::Run) | None) {
			upto.pop();
		}
		let before = straight(&upto, &disk, folder);
		let b: Vec<Value> = before.out.iter().map(|b| serde_json::from_slice(b).unwrap()).collect();
		ensure!(rest(&messages).starts_with(&rest(&b)), "messages lost", "{:?} has come by the stop, not {:?}", rest(&messages), rest(&b));
		let k = before.sent.len();
		ensure!(sent.get(..k) == Some(&before.sent[..]), "wrong acceptance", "{sent:?} instead of {:?}", before.sent);
		c.label_if(settled, "stopped when settled");
		// after it, nothing is taken any more
		let mut i = 0;
		let mut after = false;
		let shift = |o: &Op| if let Op::Send(b) = o { b.len() } else { 0 };
		if !script.iter().any(|o| matches!(o, Op::Answer)) {
			for o in &script {
				after |= matches!(o, Op::Stop);
				for k in 0..shift(o) {
					ensure!(!after || sent[i + k] == Some(false), "taken after the stop", "buffer {}", i + k);
				}
				i += shift(o);
			}
		}
	} else {
		ensure!(sent == direct_log.sent, "wrong acceptance", "{sent:?} instead of {:?}", direct_log.sent);
		ensure!(rest(&messages) == rest(&direct), "wrong messages", "{:?} instead of {:?}", rest(&messages), rest(&direct));
		ensure!(own(&messages) == own(&direct), "wrong server requests", "{:?} instead of {:?}", own(&messages), own(&direct));
		ensure!(got["ended"] == direct_log.ended, "wrong end", "ended: {} instead of {}", got["ended"], direct_log.ended);
	}
	let initialised = messages.iter().any(|m| m["result"]["capabilities"].is_object());
	match trace {
		Some("messages") => ensure!(traces.iter().all(|t| t["params"].get("verbose").map_or(true, |v| v.is_null())), "wrong trace", "{traces:?}"),
		Some("verbose") => (),
		_ => ensure!(traces.is_empty(), "wrong trace", "{traces:?}"),
	}
	c.label_if(bad > 0, "with broken buffers");
	c.label_if(stopped, "stopped");
	c.label_if(early > 0, "sent after the stop");
	c.label_if(!own(&messages).is_empty(), "server requests");
	c.label_if(!traces.is_empty(), "traced");
	c.label_if(direct_log.ended, "exit");
	c.nontrivial(initialised && messages.len() > 1);
	Ok(())
}

pub fn c30() -> Property {
	Property {
		id: "C30",
		targets: vec![Target { name: "sessions", quick: 24_000, thorough: 1_500_000, rule: "the server is initialised and sends something else as well", run: session }],
		pinned: vec![],
		assumptions: vec![
			"built for this machine: wasm-bindgen, js-sys and JavaScript's Buffer are stand-ins; what wasm-bindgen generates, and the wasm32 target, are out of reach",
			"the callback does not throw and does not call the server back",
		],
	}
}
