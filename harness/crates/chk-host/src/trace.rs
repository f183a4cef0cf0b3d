//! C24 trace notifications.
use crate::session::*;
use analyzer_abstractions::lsp_types::TraceValue;
use analyzer_abstractions::tracing::{self, debug, error, event, field::Field, info, trace, warn, Event, Level, Subscriber};
use analyzer_host::json_rpc::message::{Message, Notification};
use analyzer_host::tracing::tracing_subscriber::{self, field::Visit, layer::Context, layer::SubscriberExt, Layer};
use analyzer_host::tracing::LspTracingLayer;
use async_channel::Receiver;
use pbt::{ensure, Ctx, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
struct Seen {
	message: Option<String>,
	fields: Vec<(String, String)>,
}

struct V(Seen);

impl Visit for V {
	fn record_debug(&mut self, f: &Field, v: &dyn Debug) {
		if f.name() == "message" {
			self.0.message = Some(format!("{v:?}"));
		} else {
			self.0.fields.push((f.name().into(), format!("{v:?}")));
		}
	}
}

#[derive(Clone, Default)]
struct Recorder(Arc<Mutex<Vec<Seen>>>);

impl<S: Subscriber> Layer<S> for Recorder {
	fn on_event(&self, e: &Event, _: Context<S>) {
		let mut v = V(Seen::default());
		e.record(&mut v);
		self.0.lock().unwrap().push(v.0);
	}
}

fn emit(s: &mut Src, text: &str) -> String {
	let n = s.below(1000);
	let k = s.usize(10);
	match k {
		0 => info!("{}", text),
		1 => error!(n, "{}", text),
		2 => warn!(a = 1, b = "x\"y", "{} and more", text),
		3 => debug!(opt = ?Some(text), flag = true, "opt"),
		4 => trace!(t = %text, neg = -3i64, "{}", n),
		5 => info!(only = n),
		6 => {
			let span = tracing::info_span!("s", inner = n);
			let _g = span.enter();
			info!(uri = text, "in a span")
		}
		7 => event!(Level::INFO, list = ?[1, 2, 3], text, big = u64::MAX, "{:?}", text),
		8 => error!(message_id = n, messages = text, "plain"),
		_ => info!(target: "elsewhere", text, "é {}", text),
	}
	format!("emit #{k}")
}

const LEVELS: [(&str, TraceValue); 3] = [("off", TraceValue::Off), ("messages", TraceValue::Messages), ("verbose", TraceValue::Verbose)];

fn drain(r: &Receiver<Message>) -> Vec<Message> {
	let mut v = vec![];
	while let Ok(m) = r.try_recv() {
		v.push(m);
	}
	v
}

fn matches(m: &Message, e: &Seen, level: usize) -> Result<(), String> {
	let p: &Value = match m {
		Message::Notification(Notification { method, params }) if method == "$/logTrace" => params,
		_ => return Err(format!("not a trace notification: {m:?}")),
	};
	let want = e.message.clone().unwrap_or_default();
	if p["message"] != json!(want) {
		return Err(format!("message {} is not {want:?}", p["message"]));
	}
	match (level, p.get("verbose").unwrap_or(&Value::Null)) {
		(1, Value::Null) => Ok(()),
		(1, v) => Err(format!("detail at level messages: {v}")),
		(_, Value::String(v)) => {
			let mut rest = v.as_str();
			for (n, x) in &e.fields {
				match rest.find(&format!("{n}={x}")) {
					Some(i) => rest = &rest[i + n.len() + 1 + x.len()..],
					None => return Err(format!("field {n}={x} is missing in order in {v:?}")),
				}
			}
			Ok(())
		}
		(_, v) => Err(format!("no detail at level verbose: {v}")),
	}
}

/// The notifications are those of the events, the level having changed from `old` to `new` somewhere on the way.
fn check(events: &[Seen], got: &[Message], old: usize, new: usize) -> Result<(), String> {
	let mut err = String::new();
	for k in (0..=events.len()).rev() {
		let levels = |i: usize| if i < k { old } else { new };
		let sent: Vec<usize> = (0..events.len()).filter(|i| levels(*i) != 0).collect();
		let r = if sent.len() != got.len() {
			Err(format!("{} notifications for {} events at levels {old}, {new}: {got:?} for {events:?}", got.len(), events.len()))
		} else {
			sent.iter().zip(got).try_for_each(|(i, m)| matches(m, &events[*i], levels(*i)))
		};
		match r {
			Ok(()) => return Ok(()),
			Err(e) => err = e,
		}
		if old == new {
			break;
		}
	}
	Err(err)
}

fn traces(s: &mut Src, c: &mut Ctx) -> Res {
	let (tx, rx) = async_channel::unbounded();
	let (_keep, other) = async_channel::unbounded();
	let layer = LspTracingLayer::new((tx, other));
	let accessor = layer.trace_value();
	let rec = Recorder::default();
	let sub = tracing_subscriber::registry().with(layer).with(rec.clone());
	let _guard = tracing::subscriber::set_default(sub);
	let mut level = 0;
	let mut log = vec![];
	let mut se = Session::new(true, Some(accessor.clone()));
	let mut active = 0;
	let mut sent = 0;
	let mut changes = 0;
	for _ in 0..1 + s.usize(14) {
		let old = level;
		match s.weighted(&[5, 2, 2, 2, 2]) {
			0 => {
				let text = s.pick(&["", "t", "a \"quoted\" é\nline", "n=1,", "{}"]).to_string();
				log.push(emit(s, &text))
			}
			1 => {
				level = s.usize(3);
				log.push(format!("accessor {}", LEVELS[level].0));
				accessor.set(LEVELS[level].1);
			}
			2 if active == 0 => {
				let l = s.usize(4);
				let t = LEVELS.get(l).map(|l| l.0);
				log.push(format!("initialize {t:?}"));
				let folders = s.bool().then(|| vec![("file:///w".to_string(), "w".to_string())]);
				se.request(1, "initialize", init_params(folders, true, false, t));
				se.run();
				level = if l < 3 { l } else { level };
				active = 1;
			}
			2 if active == 1 => {
				log.push("initialized".into());
				se.notify("initialized", json!({}));
				se.settle();
				active = 2;
			}
			3 => {
				let l = s.usize(3);
				log.push(format!("setTrace {}", LEVELS[l].0));
				se.notify("$/setTrace", json!({"value": LEVELS[l].0}));
				se.run();
				if active == 2 {
					level = l;
				}
			}
			_ => {
				log.push("work".into());
				if s.bool() {
					se.notify("textDocument/didOpen", open_params("file:///w/a.p4", "a b é \"x\""));
				}
				se.request(2, "textDocument/completion", at("file:///w/a.p4", 0, 0));
				se.settle();
			}
		}
		changes += (level != old) as u32;
		let events = std::mem::take(&mut *rec.0.lock().unwrap());
		let got = drain(&rx);
		sent += got.len();
		c.show(log.join("\n"));
		ensure!(check(&events, &got, old, level).is_ok(), "trace", "{}", check(&events, &got, old, level).unwrap_err());
	}
	c.label_if(changes > 0, "the level changes");
	c.label_if(active > 0, "server at work");
	c.nontrivial(changes > 0 && sent > 0);
	Ok(())
}

fn closed() -> Res {
	// a client that is gone does not disturb what logs
	let (tx, rx) = async_channel::unbounded();
	let (_keep, other) = async_channel::unbounded();
	let layer = LspTracingLayer::new((tx, other));
	layer.trace_value().set(TraceValue::Verbose);
	let _guard = tracing::subscriber::set_default(tracing_subscriber::registry().with(layer));
	info!("one");
	rx.close();
	info!("two");
	let got = drain(&rx);
	ensure!(got.len() == 1, "trace", "{got:?}");
	Ok(())
}

pub fn c24() -> Property {
	Property {
		id: "C24",
		targets: vec![Target { name: "levels", quick: 300_000, thorough: 9_000_000, rule: "the level changes and something is sent", run: traces }],
		pinned: vec![pbt::Pinned { name: "closed channel", run: closed }],
		assumptions: vec!["the layer is tested with no other filter in its registry", "events of the message that changes the level may be traced by either level, in order"],
	}
}
