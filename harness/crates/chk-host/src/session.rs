//! A server with its client and file system played by the check.
use crate::exec::Task;
use analyzer_abstractions::fs::EnumerableFileSystem;
use analyzer_abstractions::lsp_types::{TextDocumentIdentifier, Url};
use analyzer_abstractions::BoxFuture;
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response, ResponseError};
use analyzer_host::json_rpc::RequestId;
use analyzer_host::tracing::TraceValueAccessor;
use analyzer_host::AnalyzerHost;
use async_channel::{Receiver, Sender};
use cancellation::{CancellationTokenSource, OperationCanceled};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
	Enumerate(String, String),
	Contents(String),
}

struct Pending {
	call: Call,
	released: bool,
	/// The contents, if they are read at the start.
	text: Option<Option<String>>,
	waker: Option<Waker>,
	/// The future is gone or has delivered its result.
	over: bool,
}

#[derive(Default)]
pub struct FsState {
	pub files: BTreeMap<String, String>,
	pub listings: BTreeMap<String, Vec<String>>,
	/// Calls wait until they are released.
	pub hold: bool,
	/// Files are read when a call starts, and not when it completes.
	pub early: bool,
	calls: Vec<Pending>,
	/// Runs at the start of the next call.
	pub inject: Option<Box<dyn FnOnce() + Send>>,
}

#[derive(Clone, Default)]
pub struct Fs(pub Arc<Mutex<FsState>>);

struct Done {
	fs: Fs,
	index: usize,
}

impl Future for Done {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
		let mut s = self.fs.0.lock().unwrap();
		let hold = s.hold;
		let p = &mut s.calls[self.index];
		if p.released || !hold {
			p.over = true;
			return Poll::Ready(());
		}
		p.waker = Some(cx.waker().clone());
		Poll::Pending
	}
}

impl Drop for Done {
	fn drop(&mut self) {
		if let Ok(mut s) = self.fs.0.lock() {
			s.calls[self.index].over = true;
		}
	}
}

impl Fs {
	fn call(&self, call: Call) -> Done {
		let (index, inject) = {
			let mut s = self.0.lock().unwrap();
			let text = match &call {
				Call::Contents(u) if s.early => Some(s.files.get(u).cloned()),
				_ => None,
			};
			s.calls.push(Pending { call, released: false, text, waker: None, over: false });
			(s.calls.len() - 1, s.inject.take())
		};
		if let Some(f) = inject {
			f()
		}
		Done { fs: self.clone(), index }
	}

	pub fn put(&self, uri: &str, text: &str) { self.0.lock().unwrap().files.insert(uri.into(), text.into()); }

	pub fn remove(&self, uri: &str) { self.0.lock().unwrap().files.remove(uri); }

	pub fn get(&self, uri: &str) -> Option<String> { self.0.lock().unwrap().files.get(uri).cloned() }

	pub fn calls(&self) -> Vec<Call> { self.0.lock().unwrap().calls.iter().map(|p| p.call.clone()).collect() }

	/// Indices of calls that are under way.
	pub fn waiting(&self) -> Vec<usize> {
		let s = self.0.lock().unwrap();
		(0..s.calls.len()).filter(|i| !s.calls[*i].over && !s.calls[*i].released).collect()
	}

	pub fn call_at(&self, i: usize) -> Call { self.0.lock().unwrap().calls[i].call.clone() }

	/// What a call has read at its start, if it has.
	pub fn read_by(&self, i: usize) -> Option<Option<String>> { self.0.lock().unwrap().calls[i].text.clone() }

	/// Lets a call complete.
	pub fn release(&self, i: usize) {
		let w = {
			let mut s = self.0.lock().unwrap();
			s.calls[i].released = true;
			s.calls[i].waker.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
}

impl EnumerableFileSystem for Fs {
	fn enumerate_folder<'a>(&'a self, folder: Url, pattern: String) -> BoxFuture<'a, Vec<TextDocumentIdentifier>> {
		let done = self.call(Call::Enumerate(folder.to_string(), pattern));
		Box::pin(async move {
			done.await;
			let s = self.0.lock().unwrap();
			let l = s.listings.get(folder.as_str()).cloned().unwrap_or_default();
			l.iter().map(|u| TextDocumentIdentifier { uri: Url::parse(u).unwrap() }).collect()
		})
	}

	fn file_contents<'a>(&'a self, file: Url) -> BoxFuture<'a, Option<String>> {
		let done = self.call(Call::Contents(file.to_string()));
		Box::pin(async move {
			let index = done.index;
			done.await;
			self.read_by(index).unwrap_or_else(|| self.get(file.as_str()))
		})
	}
}

pub struct Session {
	pub host: Task<Result<(), OperationCanceled>>,
	pub to_host: Sender<Message>,
	pub from_host: Receiver<Message>,
	pub fs: Fs,
	/// Everything the server has sent.
	pub out: Vec<Message>,
	/// Server requests the client has not answered.
	pub open: Vec<(RequestId, String, Value)>,
	pub cancel: CancellationTokenSource,
}

impl Session {
	/// `own_fs`: the server gets a file system of its host; otherwise it asks its client.
	pub fn new(own_fs: bool, trace: Option<TraceValueAccessor>) -> Self {
		let (a, from_host) = async_channel::unbounded();
		Self::over((a, from_host), own_fs, trace)
	}

	/// With a given channel towards the client.
	pub fn over((a, from_host): (Sender<Message>, Receiver<Message>), own_fs: bool, trace: Option<TraceValueAccessor>) -> Self {
		let (to_host, b) = async_channel::unbounded();
		let fs = Fs::default();
		let host = AnalyzerHost::new((a, b), trace, if own_fs { Some(Arc::new(Box::new(fs.clone()))) } else { None });
		let cancel = CancellationTokenSource::new();
		let token = cancel.token().clone();
		let host = Task::new(async move { host.start(token).await });
		Self { host, to_host, from_host, fs, out: vec![], open: vec![], cancel }
	}

	pub fn send(&mut self, m: Message) { let _ = self.to_host.try_send(m); }

	pub fn request(&mut self, id: impl Into<RequestId>, method: &str, params: Value) {
		self.send(Message::Request(Request { id: id.into(), method: method.into(), params }))
	}

	pub fn notify(&mut self, method: &str, params: Value) {
		self.send(Message::Notification(Notification { method: method.into(), params }))
	}

	pub fn respond(&mut self, id: RequestId, result: Option<Value>, error: Option<&str>) {
		let error = error.map(|e| ResponseError { code: -32603, message: e.into(), data: None });
		self.send(Message::Response(Response { id, result, error }))
	}

	/// Until nothing more happens by itself.
	pub fn run(&mut self) {
		self.host.run();
		while let Ok(m) = self.from_host.try_recv() {
			if let Message::Request(r) = &m {
				self.open.push((r.id.clone(), r.method.clone(), r.params.clone()));
			}
			self.out.push(m);
		}
	}

	/// What a well-behaved client answers.
	pub fn answer_for(&self, method: &str, params: &Value) -> Value {
		match method {
			"p4analyzer/enumerateFolder" => {
				let s = self.fs.0.lock().unwrap();
				let l = s.listings.get(params["uri"].as_str().unwrap_or("")).cloned().unwrap_or_default();
				Value::Array(l.iter().map(|u| json!({ "uri": u })).collect())
			}
			"p4analyzer/fileContents" => match self.fs.get(params["uri"].as_str().unwrap_or("")) {
				Some(t) => json!(t),
				None => Value::Null,
			},
			_ => Value::Null,
		}
	}

	/// Answers one open server request properly.
	pub fn answer(&mut self, i: usize) {
		let (id, method, params) = self.open.remove(i);
		let v = self.answer_for(&method, &params);
		if v.is_null() && method == "p4analyzer/fileContents" {
			self.respond(id, None, Some("no such file"));
		} else {
			self.respond(id, Some(v), None);
		}
	}

	/// Runs with every call and server request answered.
	pub fn settle(&mut self) {
		loop {
			self.run();
			let mut more = false;
			for i in self.fs.waiting() {
				self.fs.release(i);
				more = true;
			}
			while !self.open.is_empty() {
				self.answer(0);
				more = true;
			}
			if !more {
				return;
			}
		}
	}

	pub fn responses(&self) -> Vec<&Response> {
		self.out.iter().filter_map(|m| if let Message::Response(r) = m { Some(r) } else { None }).collect()
	}
}

/// `initialize` parameters.
pub fn init_params(folders: Option<Vec<(String, String)>>, watch: bool, progress: bool, trace: Option<&str>) -> Value {
	let mut caps = json!({});
	if watch {
		caps["workspace"] = json!({"didChangeWatchedFiles": {"dynamicRegistration": true}});
	}
	if progress {
		caps["window"] = json!({"workDoneProgress": true});
	}
	let mut p = json!({"processId": null, "rootUri": null, "capabilities": caps});
	if let Some(f) = folders {
		p["workspaceFolders"] = Value::Array(f.into_iter().map(|(u, n)| json!({"uri": u, "name": n})).collect());
	}
	if let Some(t) = trace {
		p["trace"] = json!(t);
	}
	p
}

pub fn open_params(uri: &str, text: &str) -> Value {
	json!({"textDocument": {"uri": uri, "languageId": "p4", "version": 1, "text": text}})
}

pub fn doc(uri: &str) -> Value { json!({"textDocument": {"uri": uri}}) }

pub fn at(uri: &str, line: u64, character: u64) -> Value {
	json!({"textDocument": {"uri": uri}, "position": {"line": line, "character": character}})
}

/// The labels of a completion response; `None` if it is an error.
pub fn labels(r: &Response) -> Option<Result<Vec<String>, String>> {
	if r.error.is_some() {
		return None;
	}
	let v = r.result.clone().unwrap_or(Value::Null);
	let items = match &v {
		Value::Array(a) => a.clone(),
		Value::Object(o) => match o.get("items").and_then(|i| i.as_array()) {
			Some(a) => a.clone(),
			None => return Some(Err(format!("no items: {v}"))),
		},
		Value::Null => vec![],
		_ => return Some(Err(format!("not a list: {v}"))),
	};
	Some(items.iter().map(|i| i["label"].as_str().map(|s| s.to_string()).ok_or(format!("no label: {i}"))).collect())
}

/// The distinct identifiers of a text without directives, comments and digits, in order of first appearance.
pub fn identifiers(text: &str) -> Vec<String> {
	const KEYWORDS: [&str; 11] =
		["action", "apply", "control", "else", "header", "if", "return", "state", "table", "transition", "typedef"];
	let mut out: Vec<String> = vec![];
	for w in text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')) {
		if !w.is_empty() && !KEYWORDS.contains(&w) && !out.iter().any(|o| o == w) {
			out.push(w.to_string());
		}
	}
	out
}
