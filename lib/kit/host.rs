//- analyzer-host = { path = "../analyzer-host" }
//- analyzer-abstractions = { path = "../analyzer-abstractions" }
//- analyzer-core = { path = "../analyzer-core" }
//- async-channel = "1.7.1"
//- cancellation = "0.1.0"
//- futures = "0.3"
//- serde_json = "1.0"
#![allow(dead_code, unused_imports)]
use analyzer_host::{json_rpc::message::*, json_rpc::RequestId, AnalyzerHost};
use serde_json::{json, Value};
use std::{collections::BTreeMap, future::Future, sync::Arc};

/// A client that answers the server's requests from `files`.
struct Client {
	tx: async_channel::Sender<Message>,
	rx: async_channel::Receiver<Message>,
	files: BTreeMap<String, String>,
	next: i32,
	/// All that the server sent.
	seen: Vec<Message>,
	/// Requests of the server with these methods are left unanswered in `held`.
	hold: Vec<&'static str>,
	held: Vec<Request>,
}

impl Client {
	async fn notify(&mut self, method: &str, params: Value) {
		self.tx.send(Message::Notification(Notification { method: method.into(), params })).await.unwrap_or_default();
	}
	async fn send(&mut self, method: &str, params: Value) -> RequestId {
		self.next += 1;
		let id = RequestId::from(self.next);
		self.tx.send(Message::Request(Request { id: id.clone(), method: method.into(), params })).await.unwrap();
		id
	}
	async fn reply(&mut self, r: &Request) {
		let result = match r.method.as_str() {
			"p4analyzer/enumerateFolder" => json!(self.files.keys().map(|u| json!({ "uri": u })).collect::<Vec<_>>()),
			"p4analyzer/fileContents" => match self.files.get(r.params["uri"].as_str().unwrap()) {
				Some(text) => json!(text),
				None => {
					let error = ResponseError { code: -32603, message: "no such file".into(), data: None };
					let response = Response { id: r.id.clone(), result: None, error: Some(error) };
					return self.tx.send(Message::Response(response)).await.unwrap();
				}
			},
			_ => Value::Null,
		};
		self.tx.send(Message::Response(Response::new(r.id.clone(), result))).await.unwrap();
	}
	/// The next message of the server.
	async fn recv(&mut self) -> Option<Message> {
		let m = self.rx.recv().await.ok()?;
		self.seen.push(m.clone());
		if let Message::Request(r) = &m {
			if self.hold.iter().any(|h| *h == r.method) {
				self.held.push(r.clone());
			} else {
				self.reply(r).await;
			}
		}
		Some(m)
	}
	async fn response(&mut self, id: RequestId) -> Response {
		loop {
			match self.recv().await.expect("the server has gone") {
				Message::Response(r) if r.id == id => return r,
				_ => (),
			}
		}
	}
	async fn ask(&mut self, method: &str, params: Value) -> Response {
		let id = self.send(method, params).await;
		self.response(id).await
	}
	async fn start(&mut self, folders: Value) {
		let params = json!({ "processId": null, "rootUri": null, "workspaceFolders": folders,
			"capabilities": { "workspace": { "didChangeWatchedFiles": {} }, "window": { "workDoneProgress": true } } });
		assert!(self.ask("initialize", params).await.error.is_none());
		self.notify("initialized", json!({})).await;
	}
	async fn open(&mut self, uri: &str, text: &str) {
		self.notify("textDocument/didOpen", json!({ "textDocument": { "uri": uri, "languageId": "p4", "version": 1, "text": text } })).await;
	}
	async fn names(&mut self, uri: &str) -> Vec<String> {
		let r = self.ask("textDocument/completion", json!({ "textDocument": { "uri": uri }, "position": { "line": 0, "character": 0 } })).await;
		let result = r.result.unwrap_or_default();
		let items = result.get("items").cloned().unwrap_or(result);
		items.as_array().unwrap().iter().map(|i| i["label"].as_str().unwrap().to_string()).collect()
	}
}

fn session<F: Future<Output = ()>>(f: impl FnOnce(Client) -> F) {
	let (tx, host_rx) = async_channel::unbounded();
	let (host_tx, rx) = async_channel::unbounded();
	let host = AnalyzerHost::new((host_tx, host_rx), None, None);
	let token = cancellation::CancellationTokenSource::new();
	let client = Client { tx, rx, files: Default::default(), next: 0, seen: vec![], hold: vec![], held: vec![] };
	futures::executor::block_on(async {
		futures::join!(async { drop(host.start(token.token().clone()).await) }, async {
			f(client).await;
			std::process::exit(0);
		})
	});
}

