//! Messages with a number in them, and their frames.
use analyzer_host::json_rpc::message::{Message, Notification, Request, Response, ResponseError};
use analyzer_host::json_rpc::RequestId;
use pbt::{ensure, Fail, Src};
use serde_json::{json, Value};

/// A message that can be told from all others by `n`.
pub fn message(s: &mut Src, n: usize) -> Message {
	let text: String = match s.weighted(&[6, 3, 1]) {
		0 => String::new(),
		1 => s.string(8, &['a', '"', '\\', '\n', '\r', 'é', '\u{1F600}', '{', '\0', '\u{2028}']),
		_ => "é\n{\"Content-Length: 3\r\n\r\n".repeat(s.usize(60)),
	};
	let params = json!({ "n": n, "text": text });
	let id = if s.bool() { RequestId::from(n as i32) } else { RequestId::from(n.to_string()) };
	match s.usize(4) {
		0 => Message::Notification(Notification { method: "n".into(), params }),
		1 => Message::Request(Request { id, method: "m".into(), params }),
		2 => Message::Response(Response { id, result: Some(params), error: None }),
		_ => Message::Response(Response { id, result: None, error: Some(ResponseError { code: -32603, message: text, data: Some(json!({ "n": n })) }) }),
	}
}

/// What goes over the wire for it.
pub fn json_of(m: &Message) -> Value {
	let mut v = serde_json::to_value(m).unwrap();
	v["jsonrpc"] = json!("2.0");
	v
}

pub fn frame(m: &Message) -> Vec<u8> {
	let body = json_of(m).to_string();
	format!("Content-Length: {}\r\n\r\n{body}", body.len()).into_bytes()
}

pub fn number(m: &Message) -> usize {
	let v = json_of(m);
	let at = |v: &Value| v["n"].as_u64();
	at(&v["params"]).or(at(&v["result"])).or(at(&v["error"]["data"])).unwrap_or(u64::MAX) as usize
}

/// The bodies of frames that fill `bytes` exactly.
pub fn parse(mut bytes: &[u8]) -> Result<Vec<Value>, Fail> {
	let mut out = vec![];
	while !bytes.is_empty() {
		let end = bytes.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| Fail::new("bad frame", "no end of the header"))?;
		let head = String::from_utf8_lossy(&bytes[..end]).into_owned();
		let len = head.split("\r\n").filter_map(|l| l.split_once(':')).filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).find_map(|(_, v)| v.trim().parse::<usize>().ok());
		let len = len.ok_or_else(|| Fail::new("bad frame", format!("no length in {head:?}")))?;
		bytes = &bytes[end + 4..];
		ensure!(bytes.len() >= len, "bad frame", "{len} bytes announced, {} there", bytes.len());
		out.push(serde_json::from_slice(&bytes[..len]).map_err(|e| Fail::new("bad frame", format!("{e} in {:?}", String::from_utf8_lossy(&bytes[..len]))))?);
		bytes = &bytes[len..];
	}
	Ok(out)
}
