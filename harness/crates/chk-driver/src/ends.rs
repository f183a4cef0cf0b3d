//! C27 the drivers with their real threads: from start to end, over buffers and over the standard streams.
use crate::frames;
use analyzer_host::json_rpc::message::Message;
use cancellation::{CancellationTokenSource, OperationCanceled};
use p4_analyzer::driver::{buffer_driver::BufferStruct, Driver, DriverType};
use pbt::{ensure, Ctx, Fail, Res, Src};
use queues::{IsQueue, Queue};
use serde_json::Value;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::Arc;
use std::time::Duration;

fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(2).enable_all().build().unwrap() }

fn queue(v: &[Message]) -> Queue<Message> {
	let mut q = Queue::new();
	v.iter().for_each(|m| {
		q.add(m.clone()).unwrap();
	});
	q
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
	/// The operation is cancelled, from another thread or before it starts.
	Cancel,
	Before,
	/// The server closes its end.
	Close,
}

/// Exchanges of messages with the started driver, then an end while messages are under way.
pub fn driver(s: &mut Src, ctx: &mut Ctx) -> Res {
	let rounds: Vec<(usize, usize)> = s.list(4, |s| (s.usize(4), s.usize(4)));
	let end = *s.pick(&[End::Cancel, End::Close, End::Before]);
	let rounds = if end == End::Before { vec![] } else { rounds };
	let last = s.usize(6);
	let mut n = 0;
	let mut some = |s: &mut Src, k: usize| {
		(0..k).map(|_| { n += 1; frames::message(s, n - 1) }).collect::<Vec<_>>()
	};
	let rounds: Vec<(Vec<Message>, Vec<Message>)> = rounds.into_iter().map(|(a, b)| (some(s, a), some(s, b))).collect();
	let last = some(s, last);
	let pump = s.bool();
	ctx.show(format!("rounds {:?}, then {:?} with {} messages under way", rounds.iter().map(|r| (r.0.len(), r.1.len())).collect::<Vec<_>>(), end, last.len()));

	let rt = runtime();
	let buffer = Arc::new(BufferStruct::new(Queue::new()));
	let driver = Arc::new(Driver::new(DriverType::Buffer(buffer.clone())));
	let (sender, receiver) = driver.get_message_channel();
	let source = CancellationTokenSource::new();
	if end == End::Before {
		source.cancel();
	}
	let running = {
		let (driver, token) = (driver.clone(), source.token().clone());
		rt.spawn(async move { driver.start(token).await })
	};
	let mut wrong: Res = Ok(());
	let mut sent: Vec<Value> = vec![];
	let mut got: Vec<Value> = vec![];
	for (input, output) in &rounds {
		rt.block_on(buffer.send_messages(queue(input)));
		for m in input {
			let r = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), receiver.recv()).await });
			match r {
				Ok(Ok(r)) if frames::json_of(&r) == frames::json_of(m) => {}
				r => {
					wrong = Err(Fail::new("wrong messages delivered", format!("{r:?} instead of {m:?}")));
				}
			}
		}
		for m in output {
			let r = if pump { sender.send_blocking(m.clone()) } else { sender.try_send(m.clone()).map_err(|e| async_channel::SendError(e.into_inner())) };
			if r.is_err() {
				wrong = Err(Fail::new("refuses to send", format!("{m:?} can't be sent while the driver runs")));
			}
			sent.push(frames::json_of(m));
		}
		if wrong.is_ok() {
			for text in rt.block_on(buffer.get_output_buffer(output.len())) {
				got.extend(frames::parse(text.as_bytes())?);
			}
		}
	}
	for m in &last {
		if sender.try_send(m.clone()).is_ok() {
			sent.push(frames::json_of(m));
		}
	}
	match end {
		End::Cancel => source.cancel(),
		End::Close => {
			sender.close();
		}
		End::Before => {}
	}
	let result = rt.block_on(async { tokio::time::timeout(Duration::from_secs(60), running).await });
	let input_closed = receiver.is_closed();
	// the driver's reader has nothing to read and would wait for ever: it notices that nobody listens once it has
	// something to deliver
	receiver.close();
	let mut idle = Queue::new();
	idle.add(frames::message(&mut Src::replay(&[]), 9999)).unwrap();
	rt.block_on(buffer.send_messages(idle));
	let result = match result {
		Ok(Ok(r)) => r,
		Ok(Err(e)) => return Err(if e.is_panic() { pbt::panic_fail() } else { Fail::new("driver lost", e.to_string()) }),
		Err(_) => return Err(Fail::new("does not end", format!("the driver still runs 60 s after {end:?}"))),
	};
	wrong?;
	let expected = if end == End::Close { Ok(()) } else { Err(OperationCanceled) };
	ensure!(result.is_ok() == expected.is_ok(), "wrong result", "{result:?} after {end:?}");
	ensure!(sender.is_closed(), "channel left open", "the server's end still takes messages after {end:?}");
	ensure!(input_closed || end == End::Close, "channel left open", "the server still waits for input after {end:?}");
	// what the server has sent is there, though the driver has ended
	for text in rt.block_on(buffer.get_output_buffer(0)) {
		got.extend(frames::parse(text.as_bytes())?);
	}
	ensure!(got == sent, "wrong messages collected", "{} of {} messages arrived: {:?}", got.len(), sent.len(), got.iter().map(|g| g.to_string().chars().take(60).collect::<String>()).collect::<Vec<_>>());
	ctx.label(format!("{end:?}"));
	ctx.label_if(!last.is_empty(), "messages under way at the end");
	ctx.nontrivial(!rounds.is_empty() || !last.is_empty());
	rt.shutdown_timeout(Duration::from_millis(10));
	Ok(())
}

pub const CHILD: &str = "P4V_CONSOLE_CHILD";

/// A server on the console driver that returns each message twice, and ends when there is no more input.
pub fn console_child() {
	let rt = runtime();
	let driver = Arc::new(Driver::new(DriverType::Console));
	let (sender, receiver) = driver.get_message_channel();
	let source = CancellationTokenSource::new();
	let running = {
		let (driver, token) = (driver.clone(), source.token().clone());
		rt.spawn(async move { driver.start(token).await })
	};
	while let Ok(m) = receiver.recv_blocking() {
		let _ = sender.send_blocking(m.clone());
		let _ = sender.send_blocking(m);
	}
	sender.close();
	let ok = rt.block_on(running).map_or(false, |r| r.is_ok());
	std::process::exit(if ok { 0 } else { 3 });
}

pub fn console(s: &mut Src, ctx: &mut Ctx) -> Res {
	let mut n = 0;
	let messages = s.list(8, |s| {
		n += 1;
		frames::message(s, n - 1)
	});
	let mut bytes: Vec<u8> = messages.iter().flat_map(frames::frame).collect();
	let whole = bytes.len();
	// what follows the last message may break off anywhere, or make no sense
	match s.weighted(&[4, 2, 1]) {
		0 => {}
		1 => {
			let f = frames::frame(&frames::message(s, 999));
			let cut = s.usize(f.len());
			bytes.extend(&f[..cut]);
		}
		_ => bytes.extend(*s.pick(&[&b"Content-Length: x\r\n\r\n{}"[..], b"hello\r\n\r\n", b"\xff\xfe", b"Content-Length: 2\r\n\r\n{}", b"\r\n\r\n", b"Content-Length: 9999\r\n\r\n{"])),
	}
	// in pieces, with time in between
	let mut cuts: Vec<usize> = (0..s.usize(4)).map(|_| s.usize(bytes.len() + 1)).collect();
	cuts.sort();
	let wait = s.chance(1, 4);
	ctx.show(format!("{} messages in {whole} of {} bytes, cut at {cuts:?}", messages.len(), bytes.len()));

	let mut child = Command::new("/proc/self/exe").env(CHILD, "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
	let mut stdin = child.stdin.take().unwrap();
	let mut stdout = child.stdout.take().unwrap();
	let reader = std::thread::spawn(move || {
		let mut out = vec![];
		let _ = stdout.read_to_end(&mut out);
		out
	});
	let mut at = 0;
	for c in cuts.iter().cloned().chain([bytes.len()]) {
		let _ = stdin.write_all(&bytes[at..c]);
		let _ = stdin.flush();
		at = c;
		if wait {
			std::thread::sleep(Duration::from_millis(2));
		}
	}
	drop(stdin);
	let mut status = None;
	for i in 0..60_000 {
		status = child.try_wait().unwrap();
		if status.is_some() {
			break;
		}
		std::thread::sleep(Duration::from_micros(if i < 100 { 200 } else { 1000 }));
	}
	if status.is_none() {
		let _ = child.kill();
		let _ = child.wait();
		return Err(Fail::new("does not end", "the server still runs a minute after the end of its input"));
	}
	let status = status.unwrap();
	let out = reader.join().unwrap();
	ensure!(status.success(), "driver failed", "{status}");
	let got = frames::parse(&out)?;
	let want: Vec<Value> = messages.iter().flat_map(|m| [frames::json_of(m), frames::json_of(m)]).collect();
	ensure!(got == want, "wrong messages echoed", "{} instead of {}: {:?}", got.len(), want.len(), String::from_utf8_lossy(&out).chars().take(400).collect::<String>());
	ctx.label_if(bytes.len() > whole, "ends with something incomplete or wrong");
	ctx.label_if(cuts.len() > 0, "in several pieces");
	ctx.nontrivial(!messages.is_empty());
	Ok(())
}
