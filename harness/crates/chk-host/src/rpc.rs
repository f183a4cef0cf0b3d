//! C03 framing round trip, C04 malformed input.
use crate::meter;
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response, ResponseError};
use analyzer_host::json_rpc::RequestId;
use pbt::{ensure, Ctx, Fail, Pinned, Property, Res, Src, Target};
use serde_json::{json, Map, Value};
use std::io::{self, BufRead, Read, Write};

pub const CHARS: [char; 22] = [
	'a', 'b', '"', '\\', '/', '\n', '\r', '\t', ' ', '\u{0}', '\u{1f}', '\u{7f}', 'é', '€', '𒀀', '\u{2028}', '\u{feff}', '{', '}', ':', '\u{ffff}', '0',
];

pub fn string(s: &mut Src) -> String {
	match s.weighted(&[4, 3, 1, 1]) {
		0 => s.pick(&["", "textDocument/hover", "initialize", "$/setTrace", "x", "Content-Length: 3\r\n\r\n{}", "id", "method"]).to_string(),
		1 => s.string(8, &CHARS),
		2 => {
			let n = s.usize(4000);
			let c = *s.pick(&['a', 'é', '𒀀', '"']);
			std::iter::repeat(c).take(n).collect()
		}
		_ => (0..s.usize(5)).filter_map(|_| char::from_u32(s.below(0x110000) as u32)).collect(),
	}
}

pub fn value(s: &mut Src, depth: usize) -> Value {
	match s.weighted(&[3, 2, 3, 3, 1, if depth > 0 { 3 } else { 0 }, if depth > 0 { 4 } else { 0 }]) {
		0 => Value::Null,
		1 => json!(s.bool()),
		2 => match s.usize(4) {
			0 => json!(s.int()),
			1 => json!(-(s.int() / 2)),
			2 => json!(u64::MAX - s.below(3)),
			_ => json!(i64::MIN + s.below(3) as i64),
		},
		3 => json!(string(s)),
		// binary fractions that are short in decimal
		4 => json!((s.below(2000) as f64 - 1000.0) / 8.0),
		5 => Value::Array(s.list(4, |s| value(s, depth - 1))),
		_ => {
			let mut m = Map::new();
			for _ in 0..s.usize(4) {
				let k = match s.usize(3) {
					0 => string(s),
					_ => s.pick(&["id", "method", "params", "result", "error", "jsonrpc", "uri", "code", "message"]).to_string(),
				};
				m.insert(k, value(s, depth - 1));
			}
			Value::Object(m)
		}
	}
}

fn deep(s: &mut Src) -> Value {
	let mut v = json!(1);
	for _ in 0..s.usize(60) {
		v = if s.bool() { json!([v]) } else { json!({ "a": v }) };
	}
	v
}

fn params(s: &mut Src) -> Value {
	if s.chance(1, 12) {
		deep(s)
	} else {
		value(s, 3)
	}
}

pub fn id(s: &mut Src) -> (RequestId, Value) {
	match s.weighted(&[3, 2, 3]) {
		0 => {
			let n = s.below(20) as i32;
			(RequestId::from(n), json!(n))
		}
		1 => {
			let n = *s.pick(&[i32::MAX, i32::MIN, -1, 1 << 20]);
			(RequestId::from(n), json!(n))
		}
		_ => {
			let t = if s.bool() { string(s) } else { s.below(20).to_string() };
			(RequestId::from(t.clone()), json!(t))
		}
	}
}

fn put(m: &mut Map<String, Value>, k: &str, v: Value) { m.insert(k.to_string(), v); }

/// A message, and the JSON object that stands for it (without `params` where they are null).
pub fn message(s: &mut Src) -> (Message, Value) {
	let mut m = Map::new();
	let msg = match s.usize(4) {
		0 => {
			let ((id, idv), method, params) = (id(s), string(s), params(s));
			put(&mut m, "id", idv);
			put(&mut m, "method", json!(method));
			if !params.is_null() {
				put(&mut m, "params", params.clone());
			}
			Message::Request(Request { id, method, params })
		}
		1 => {
			let (method, params) = (string(s), params(s));
			put(&mut m, "method", json!(method));
			if !params.is_null() {
				put(&mut m, "params", params.clone());
			}
			Message::Notification(Notification { method, params })
		}
		2 => {
			let ((id, idv), result) = (id(s), params(s));
			put(&mut m, "id", idv);
			put(&mut m, "result", result.clone());
			Message::Response(Response { id, result: Some(result), error: None })
		}
		_ => {
			let (id, idv) = id(s);
			let (code, message) = (*s.pick(&[0, -32002, -32600, -32602, -32603, i32::MIN, i32::MAX, 1]), string(s));
			let data = if s.bool() { Some(params(s)) } else { None };
			let mut e = Map::new();
			put(&mut e, "code", json!(code));
			put(&mut e, "message", json!(message));
			if let Some(d) = &data {
				put(&mut e, "data", d.clone());
			}
			put(&mut m, "id", idv);
			put(&mut m, "error", Value::Object(e));
			Message::Response(Response { id, result: None, error: Some(ResponseError { code, message, data }) })
		}
	};
	(msg, Value::Object(m))
}

/// The JSON of a message as read, in the same form.
pub fn as_json(m: &Message) -> Value {
	let id = |i: &RequestId| serde_json::to_value(i).unwrap();
	let mut o = Map::new();
	match m {
		Message::Request(r) => {
			put(&mut o, "id", id(&r.id));
			put(&mut o, "method", json!(r.method));
			if !r.params.is_null() {
				put(&mut o, "params", r.params.clone());
			}
		}
		Message::Notification(r) => {
			put(&mut o, "method", json!(r.method));
			if !r.params.is_null() {
				put(&mut o, "params", r.params.clone());
			}
		}
		Message::Response(r) => {
			put(&mut o, "id", id(&r.id));
			match (&r.result, &r.error) {
				(r, Some(e)) => {
					let mut v = Map::new();
					put(&mut v, "code", json!(e.code));
					put(&mut v, "message", json!(e.message));
					if let Some(d) = &e.data {
						put(&mut v, "data", d.clone());
					}
					put(&mut o, "error", Value::Object(v));
					if let Some(r) = r {
						put(&mut o, "result", r.clone());
					}
				}
				// a null result and no result read the same
				(r, None) => put(&mut o, "result", r.clone().unwrap_or(Value::Null)),
			}
		}
	}
	Value::Object(o)
}

/// `data: null` and no data read the same.
fn normal(mut v: Value) -> Value {
	if let Some(e) = v.get_mut("error").and_then(|e| e.as_object_mut()) {
		if e.get("data") == Some(&Value::Null) {
			e.remove("data");
		}
	}
	v
}

/// Takes a few bytes at a time, and shows them only when flushed.
struct Sink<'a> {
	s: &'a mut Src,
	pending: Vec<u8>,
	out: Vec<u8>,
	short: bool,
}

impl Write for Sink<'_> {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		if self.short && self.s.chance(1, 8) {
			return Err(io::ErrorKind::Interrupted.into());
		}
		let n = if self.short { (1 + self.s.usize(40)).min(b.len()) } else { b.len() };
		self.pending.extend(&b[..n]);
		Ok(n)
	}
	fn flush(&mut self) -> io::Result<()> {
		self.out.append(&mut self.pending);
		Ok(())
	}
}

/// Gives the bytes in chunks of any size.
pub struct Chunks<'a> {
	s: &'a mut Src,
	data: &'a [u8],
	at: usize,
	end: usize,
	size: usize,
	pub bad: bool,
}

impl<'a> Chunks<'a> {
	pub fn new(s: &'a mut Src, data: &'a [u8]) -> Self {
		let size = *s.pick(&[1usize << 20, 1, 3, 17, 200]);
		Self { s, data, at: 0, end: 0, size, bad: false }
	}
}

impl Read for Chunks<'_> {
	fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
		let n = {
			let b = self.fill_buf()?;
			let n = b.len().min(out.len());
			out[..n].copy_from_slice(&b[..n]);
			n
		};
		self.consume(n);
		Ok(n)
	}
}

impl BufRead for Chunks<'_> {
	fn fill_buf(&mut self) -> io::Result<&[u8]> {
		if self.at == self.end && self.end < self.data.len() {
			if self.size < 1 << 20 && self.s.chance(1, 30) {
				return Err(io::ErrorKind::Interrupted.into());
			}
			let n = 1 + self.s.usize(self.size);
			self.end = (self.at + n).min(self.data.len());
		}
		Ok(&self.data[self.at..self.end])
	}
	fn consume(&mut self, n: usize) {
		self.bad |= self.at + n > self.end;
		self.at = (self.at + n).min(self.end);
	}
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

/// The header fields and the body of the first frame, and the rest.
fn first_frame(b: &[u8]) -> Result<(Vec<(String, String)>, &[u8], &[u8]), String> {
	let end = find(b, b"\r\n\r\n").ok_or("no end of header")?;
	let head = std::str::from_utf8(&b[..end]).map_err(|e| e.to_string())?;
	let mut fields = vec![];
	for l in head.split("\r\n") {
		let (n, v) = l.split_once(": ").ok_or(format!("header line {l:?}"))?;
		fields.push((n.to_string(), v.to_string()));
	}
	let n: usize = fields
		.iter()
		.find(|(n, _)| n == "Content-Length")
		.ok_or("no Content-Length")?
		.1
		.parse()
		.map_err(|_| "length".to_string())?;
	let rest = &b[end + 4..];
	if rest.len() < n {
		return Err(format!("{n} bytes announced, {} left", rest.len()));
	}
	Ok((fields, &rest[..n], &rest[n..]))
}

const EXTRA: [&str; 8] = [
	"Content-Type: application/vscode-jsonrpc; charset=utf-8",
	"X: y: z",
	"X-Content-Length: 3",
	"Content-Length-X: 3",
	"Content-Encoding: identity",
	"X: ",
	"é: €",
	"Content-Typ: Content-Length: 7",
];

fn round_trip(s: &mut Src, c: &mut Ctx) -> Res {
	let n = s.usize(5);
	let msgs: Vec<(Message, Value)> = (0..n).map(|_| message(s)).collect();
	let want: Vec<Value> = msgs.iter().map(|m| normal(m.1.clone())).collect();
	c.show(msgs.iter().map(|m| m.1.to_string()).collect::<Vec<_>>().join(" "));
	c.nontrivial(n > 0);
	for (m, _) in &msgs {
		c.label(match m {
			Message::Request(_) => "request",
			Message::Notification(_) => "notification",
			Message::Response(r) if r.error.is_some() => "error response",
			Message::Response(_) => "response",
		});
	}
	// written
	let short = s.bool();
	let mut bytes = vec![];
	for (m, v) in msgs {
		let mut sink = Sink { s, pending: vec![], out: vec![], short };
		m.write(&mut sink).map_err(|e| Fail::new("write error", e.to_string()))?;
		let out = sink.out;
		ensure!(sink.pending.is_empty(), "not flushed", "{} bytes were written but not flushed", sink.pending.len());
		let (_, body, rest) = first_frame(&out).map_err(|e| Fail::new("frame", format!("{e} in {:?}", String::from_utf8_lossy(&out))))?;
		ensure!(rest.is_empty(), "frame", "the announced length is {} short: {:?}", rest.len(), String::from_utf8_lossy(&out));
		let got: Value = serde_json::from_slice(body).map_err(|e| Fail::new("body", e.to_string()))?;
		let mut want = v.clone();
		put(want.as_object_mut().unwrap(), "jsonrpc", json!("2.0"));
		let mut shown = got.clone();
		if shown.get("params") == Some(&Value::Null) {
			shown.as_object_mut().unwrap().remove("params");
		}
		ensure!(normal(shown) == normal(want.clone()), "body", "body is {got}, should be {want}");
		bytes.extend(out);
	}
	// further header fields, in any order
	let mut stream = vec![];
	let mut rest = &bytes[..];
	while !rest.is_empty() {
		let (mut fields, body, r) = first_frame(rest).unwrap();
		rest = r;
		for _ in 0..s.usize(3) {
			let (a, b) = s.pick(&EXTRA).split_once(": ").unwrap();
			let at = s.usize(fields.len() + 1);
			fields.insert(at, (a.to_string(), b.to_string()));
			c.label("further header fields");
		}
		for (a, b) in fields {
			stream.extend(format!("{a}: {b}\r\n").bytes());
		}
		stream.extend(b"\r\n");
		stream.extend(body);
	}
	// and read back
	let mut r = Chunks::new(s, &stream);
	let mut got = vec![];
	loop {
		match Message::read(&mut r) {
			Ok(Some(m)) => got.push(normal(as_json(&m))),
			Ok(None) => break,
			Err(e) => return Err(Fail::new("read error", format!("message {}: {e}; stream {:?}", got.len(), String::from_utf8_lossy(&stream)))),
		}
		ensure!(got.len() <= want.len(), "extra message", "{got:?}");
	}
	ensure!(!r.bad, "harness", "consumed more than was there");
	ensure!(got == want, "messages", "read {got:?}, written {want:?}");
	// the end stays the end
	ensure!(matches!(Message::read(&mut r), Ok(None)), "end", "no clean end of stream");
	Ok(())
}

pub fn c03() -> Property {
	Property {
		id: "C03",
		targets: vec![Target { name: "write and read", quick: 400_000, thorough: 8_000_000, rule: "at least one message", run: round_trip }],
		pinned: vec![],
		assumptions: vec![
			"floating point numbers are limited to short binary fractions (serde_json is built without float_roundtrip)",
			"a null result and an absent result are the same message; header names are written as the specification spells them",
		],
	}
}

#[derive(Debug, PartialEq, Clone)]
enum Want {
	Msg(Value),
	/// Clean end of stream.
	End,
	Error,
	/// The specifications leave it open; the frame is consumed.
	Either,
	/// Open, and what follows too.
	Open,
}

/// Is this JSON text a message?
fn classify(body: &[u8]) -> Want {
	let text = match std::str::from_utf8(body) {
		Ok(t) => t,
		Err(_) => return Want::Error,
	};
	let v: Value = match serde_json::from_str(text) {
		Ok(v) => v,
		Err(e) if e.is_syntax() && e.to_string().contains("recursion limit") => return Want::Either,
		Err(e) if e.to_string().contains("out of range") => return Want::Either,
		Err(_) => return Want::Error,
	};
	let o = match v.as_object() {
		Some(o) => o,
		None => return Want::Error,
	};
	if !o.contains_key("id") && !o.contains_key("method") {
		return Want::Error;
	}
	let good_id = |v: &Value| v.is_string() || v.as_i64().map_or(false, |n| i32::try_from(n).is_ok());
	let known = ["jsonrpc", "id", "method", "params", "result", "error"];
	// repeated keys, and floating point numbers, need not survive parsing
	let repeated = known.iter().any(|k| text.matches(&format!("\"{k}\"")).count() > 1);
	if repeated || o.keys().any(|k| !known.contains(&k.as_str())) || has_float(&v) || text.contains("\\u") {
		return Want::Either;
	}
	let mut m = Map::new();
	match (o.get("id"), o.get("method"), o.get("params"), o.get("result"), o.get("error")) {
		(None, Some(Value::String(_)), p, None, None) => {
			put(&mut m, "method", o["method"].clone());
			if let Some(p) = p.filter(|p| !p.is_null()) {
				put(&mut m, "params", p.clone());
			}
		}
		(None, Some(x), _, None, None) if !x.is_string() => return Want::Error,
		(Some(i), Some(Value::String(_)), p, None, None) if good_id(i) => {
			put(&mut m, "id", i.clone());
			put(&mut m, "method", o["method"].clone());
			if let Some(p) = p.filter(|p| !p.is_null()) {
				put(&mut m, "params", p.clone());
			}
		}
		(Some(i), None, None, Some(r), None) if good_id(i) => {
			put(&mut m, "id", i.clone());
			put(&mut m, "result", r.clone());
		}
		(Some(i), None, None, None, Some(e)) if good_id(i) => {
			let code = e.get("code").and_then(|c| c.as_i64()).map_or(false, |n| i32::try_from(n).is_ok());
			let extra = e.as_object().map_or(true, |e| e.keys().any(|k| !["code", "message", "data"].contains(&k.as_str())));
			if !code || extra || !e.get("message").map_or(false, |m| m.is_string()) {
				return Want::Either;
			}
			put(&mut m, "id", i.clone());
			put(&mut m, "error", e.clone());
		}
		_ => return Want::Either,
	}
	Want::Msg(normal(Value::Object(m)))
}

fn has_float(v: &Value) -> bool {
	match v {
		Value::Number(n) => n.is_f64(),
		Value::Array(a) => a.iter().any(has_float),
		Value::Object(o) => o.values().any(has_float),
		_ => false,
	}
}

/// The reference reader: what each successive read should give, up to the first error or end.
fn reference(mut b: &[u8]) -> Vec<Want> {
	let mut out = vec![];
	'frames: loop {
		let mut length: Option<Want> = None;
		let mut size = None;
		let mut first = true;
		loop {
			if b.is_empty() {
				// between header lines the end is reported as an end; a cut frame may also be an error
				out.push(if first { Want::End } else { Want::Open });
				return out;
			}
			first = false;
			let n = b.iter().position(|c| *c == b'\n').map_or(b.len(), |i| i + 1);
			let (line, rest) = b.split_at(n);
			b = rest;
			let line = match std::str::from_utf8(line).ok().and_then(|l| l.strip_suffix("\r\n")) {
				Some(l) => l,
				None => {
					out.push(Want::Error);
					return out;
				}
			};
			if line.is_empty() {
				break;
			}
			match line.split_once(": ") {
				None => {
					// "Name:" with no blank: HTTP allows it, LSP does not
					out.push(if line.contains(':') { Want::Open } else { Want::Error });
					return out;
				}
				Some((n, v)) => {
					if n == "Content-Length" {
						if size.is_some() {
							length = Some(Want::Open);
						}
						if !v.is_empty() && v.bytes().all(|c| c.is_ascii_digit()) {
							match v.parse::<usize>() {
								Ok(n) => size = Some(n),
								Err(_) => {
									out.push(Want::Error);
									return out;
								}
							}
						} else if v.trim() != v || v.starts_with('+') {
							length = Some(Want::Open); // blanks around it
							size = Some(0);
						} else {
							out.push(Want::Error);
							return out;
						}
					} else if n.trim().eq_ignore_ascii_case("content-length") {
						length = Some(Want::Open);
					}
				}
			}
		}
		if let Some(w) = length {
			out.push(w);
			return out;
		}
		let size = match size {
			Some(n) if n <= b.len() => n,
			_ => {
				out.push(Want::Error);
				return out;
			}
		};
		let (body, rest) = b.split_at(size);
		b = rest;
		let w = classify(body);
		out.push(w.clone());
		if w == Want::Error {
			break 'frames;
		}
	}
	out
}

const BODIES: [&str; 30] = [
	"{}", "[]", "null", "1", "\"a\"", "", "{", "[1,\"m\",null]", "[1,2]", "[\"m\"]", "{\"id\":1}", "{\"id\":null,\"method\":\"m\"}",
	"{\"id\":1.5,\"method\":\"m\"}", "{\"id\":9999999999,\"method\":\"m\"}", "{\"method\":5}", "{\"method\":\"m\"} x", "{\"id\":1,\"method\":5}",
	"{\"id\":1,\"error\":5}", "{\"id\":1,\"error\":{\"code\":\"x\",\"message\":\"\"}}", "{\"id\":1,\"result\":null,\"error\":null}", "{\"params\":[]}",
	"{\"jsonrpc\":\"2.0\",\"method\":\"m\"}", "{\"id\":[],\"method\":\"m\"}", "{\"id\":{},\"result\":1}", "  {\"method\":\"m\"}  ", "{\"method\":\"m\",}",
	"{\"a\":1}", "[{\"method\":\"m\"}]", "{'method':'m'}", "{\"method\":\"\\ud800\"}",
];

fn hostile(s: &mut Src, c: &mut Ctx) -> Res {
	let mut stream: Vec<u8> = vec![];
	for _ in 0..1 + s.usize(4) {
		let body: Vec<u8> = match s.weighted(&[6, 4, 1, 1]) {
			0 => {
				let (_, mut v) = message(s);
				put(v.as_object_mut().unwrap(), "jsonrpc", json!("2.0"));
				v.to_string().into_bytes()
			}
			1 => s.pick(&BODIES).as_bytes().to_vec(),
			2 => vec![b'['; s.usize(3000)],
			_ => (0..s.usize(12)).map(|_| s.below(256) as u8).collect(),
		};
		let n = body.len();
		let mut fields = vec![];
		let length = match s.weighted(&[12, 1, 1, 1, 1]) {
			0 => n.to_string(),
			1 => s.pick(&["", "-1", "+3", "0x10", "1e3", " 5", "5 ", "٣", "NaN", "five", "1_0"]).to_string(),
			2 => s
				.pick(&["18446744073709551615", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1000000000000", "4000000000", "300000000", "99999999999999999999999"])
				.to_string(),
			3 => (n + 1 + s.usize(3)).to_string(),
			_ => n.saturating_sub(1 + s.usize(3)).to_string(),
		};
		if !s.chance(1, 20) {
			fields.push(format!("Content-Length: {length}"));
		}
		for _ in 0..s.usize(3) / 2 {
			let at = s.usize(fields.len() + 1);
			let f = match s.weighted(&[4, 1]) {
				0 => s.pick(&EXTRA).to_string(),
				_ => s.pick(&["nothing", ":", "a:b", "Content-Length", "content-length: 3", "Content-Length: 2", "x\ny: z", "\u{0}: 1", " "]).to_string(),
			};
			fields.insert(at, f);
		}
		let nl = |s: &mut Src| if s.chance(1, 30) { *s.pick(&["\n", "\r", "", "\r\r\n", "\n\r"]) } else { "\r\n" };
		for f in fields {
			stream.extend(f.bytes());
			stream.extend(nl(s).bytes());
		}
		stream.extend(nl(s).bytes());
		stream.extend(body);
	}
	// damage
	for _ in 0..s.usize(4) / 2 {
		let n = stream.len();
		if n == 0 {
			break;
		}
		c.label("damaged");
		let i = s.usize(n);
		match s.usize(6) {
			0 => stream.truncate(i),
			1 => {
				stream.remove(i);
			}
			2 => stream[i] ^= 1 << s.usize(8),
			3 => stream.insert(i, s.below(256) as u8),
			4 => {
				let k = s.usize(20).min(n - i);
				stream.drain(i..i + k);
			}
			_ => {
				let k = s.usize(40).min(n - i);
				let part = stream[i..i + k].to_vec();
				stream.splice(i..i, part);
			}
		}
	}
	check_stream(s, c, &stream)
}

fn check_stream(s: &mut Src, c: &mut Ctx, stream: &[u8]) -> Res {
	c.show(String::from_utf8_lossy(stream).to_string());
	let want = reference(stream);
	c.nontrivial(want.iter().any(|w| !matches!(w, Want::Msg(_) | Want::End)));
	c.label(match want.last().unwrap() {
		Want::Msg(_) => "ends with a message",
		Want::End => "clean end",
		Want::Error => "error",
		Want::Either | Want::Open => "left open",
	});
	c.label_if(want.len() > 1 && want.last() == Some(&Want::Error), "messages before an error");
	let mut r = Chunks::new(s, stream);
	for (i, w) in want.iter().enumerate() {
		let before = r.at;
		let (got, peak) = meter::peak(|| Message::read(&mut r).map(|m| m.map(|m| normal(as_json(&m)))).map_err(|e| e.to_string()));
		let bound = (1 << 20) + 2000 * stream.len();
		ensure!(peak <= bound, "allocation", "read {i} allocated {peak} bytes for a stream of {} bytes", stream.len());
		ensure!(!r.bad, "harness", "consumed more than was there");
		match (w, &got) {
			(Want::Msg(v), Ok(Some(g))) if v == g => (),
			(Want::End, Ok(None)) => (),
			(Want::Error, Err(_)) => (),
			(Want::Either, Ok(Some(_))) => (),
			(Want::Either, Err(_)) => return Ok(()),
			(Want::Open, _) => return Ok(()),
			_ => {
				let sig = match (w, &got) {
					(Want::Error, Ok(Some(_))) => "malformed input accepted",
					(Want::Error, Ok(None)) => "malformed input taken for the end",
					(Want::Msg(_), Ok(Some(_))) => "misread",
					(Want::Msg(_), _) => "message lost",
					_ => "end of stream",
				};
				return Err(Fail::new(sig, format!("read {i} (at byte {before}) gives {got:?}, should be {w:?}")));
			}
		}
	}
	Ok(())
}

/// Arbitrary bytes.
fn noise(s: &mut Src, c: &mut Ctx) -> Res {
	const WORDS: [&[u8]; 14] = [b"Content-Length: ", b"\r\n", b"\n", b"\r", b"{}", b"{\"method\":\"m\"}", b"14", b"2", b": ", b"0", b" ", b"\xff", b"\xc3\xa9", b"Content-Length:"];
	let mut b = vec![];
	for _ in 0..s.usize(24) {
		if s.chance(1, 8) {
			b.push(s.below(256) as u8);
		} else {
			b.extend(*s.pick(&WORDS));
		}
	}
	check_stream(s, c, &b)
}

pub fn c04() -> Property {
	fn fixed(b: &[u8]) -> Res { check_stream(&mut Src::replay(&[]), &mut Ctx::default(), b) }
	Property {
		id: "C04",
		targets: vec![
			Target { name: "damaged streams", quick: 400_000, thorough: 8_000_000, rule: "some read is not a message or the end", run: hostile },
			Target { name: "noise", quick: 600_000, thorough: 12_000_000, rule: "some read is not a message or the end", run: noise },
		],
		pinned: vec![
			Pinned { name: "length near usize::MAX", run: || fixed(b"Content-Length: 18446744073709551615\r\n\r\n{}") },
			Pinned { name: "length of a terabyte", run: || fixed(b"Content-Length: 1000000000000\r\n\r\n{}") },
			Pinned { name: "an array that looks like a request", run: || fixed(b"Content-Length: 12\r\n\r\n[1,\"m\",null]") },
		],
		assumptions: vec![
			"where the base protocol leaves it open (repeated Content-Length, blanks around the number, other letter case, an end of stream inside a header, ids outside i32, members of both requests and responses) any outcome but a crash is accepted",
			"out of proportion: more than 1 MiB + 2000 times the stream's length, live at once during one read",
		],
	}
}
