//! C29 the command line and the log file.
use crate::proc::*;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::ffi::OsString;
use std::fs;
use std::path::{Path, PathBuf};

fn os(s: &str) -> OsString { s.into() }

#[derive(Clone, Copy, Debug, PartialEq)]
enum LogPath {
	None,
	Empty,
	/// With a log of an earlier run.
	Used,
	Missing,
	File,
	/// A link to a directory.
	Link,
	/// A link to nothing.
	Dangling,
}

/// A session whose events come in a fixed order. Returns the texts of the trace.
fn talk(p: &mut Proc, s: &mut Src, n: usize, bad: bool) -> Result<Vec<String>, Fail> {
	let r = p.ask(s, "initialize", init_params(None, false, Some("verbose")))?;
	ensure!(r["result"].is_object(), "initialize fails", "{r}");
	p.notify(s, "initialized", json!({}));
	for i in 0..n {
		let u = format!("file:///doc{i}");
		p.notify(s, "textDocument/didOpen", open(&u, &format!("name{i} x")));
		let r = p.ask(s, "textDocument/completion", at(&u))?;
		ensure!(labels(&r) == Some(vec![format!("name{i}"), "x".into()]), "wrong names", "{r}");
	}
	if bad {
		let r = p.ask(s, "textDocument/completion", json!({ "x": 1 }))?;
		ensure!(r.get("error").is_some(), "no error", "{r}");
	}
	let r = p.ask(s, "shutdown", Value::Null)?;
	ensure!(r.get("error").is_none(), "shutdown fails", "{r}");
	let asked = p.asked.clone();
	ensure!(p.answered() == asked, "wrong answers", "{:?} for {asked:?}", p.answered());
	Ok(p.traces().iter().map(|t| t["params"]["message"].as_str().unwrap_or("?").to_string()).collect())
}

/// Lines of a log as (level, rest), without time and colours; lines that go on with the one before belong to it.
fn lines(text: &str) -> Vec<(usize, String)> {
	let mut plain = String::new();
	let mut chars = text.chars();
	while let Some(ch) = chars.next() {
		if ch == '\u{1b}' {
			for d in chars.by_ref() {
				if d.is_ascii_alphabetic() {
					break;
				}
			}
		} else {
			plain.push(ch);
		}
	}
	let mut out: Vec<(usize, String)> = vec![];
	for l in plain.lines() {
		let level = l.split_whitespace().nth(1).and_then(|w| ["ERROR", "WARN", "INFO", "DEBUG", "TRACE"].iter().position(|n| *n == w));
		let time = l.split_whitespace().next().map_or(false, |w| w.len() > 19 && w.ends_with('Z') && w.as_bytes()[10] == b'T');
		match (level, time) {
			(Some(n), true) => {
				let rest = l.split_whitespace().skip(2).collect::<Vec<_>>().join(" ");
				out.push((n + 1, rest));
			}
			_ => match out.last_mut() {
				Some(o) => {
					o.1.push('\n');
					o.1 += l;
				}
				None => out.push((0, l.to_string())),
			},
		}
	}
	out
}

/// A line without what may differ.
fn short(l: &str) -> String { l.lines().next().unwrap_or("").split(|c| c == '"' || c == '[').next().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ") }

const LEVELS: [(&str, usize); 16] = [
	("error", 1), ("warn", 2), ("info", 3), ("debug", 4), ("trace", 5), ("ERROR", 1), ("Info", 3), ("WARN", 2), ("1", 1), ("2", 2), ("3", 3), ("5", 5), ("", 4), ("bogus", 4), ("6", 4), ("errors", 4),
];

fn log_of(dir: &Path) -> Result<Vec<PathBuf>, Fail> {
	let mut v: Vec<PathBuf> = fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).collect();
	v.sort();
	Ok(v)
}

pub fn logging(s: &mut Src, c: &mut Ctx) -> Res {
	let scratch = Scratch::new();
	let cwd = scratch.0.join("cwd");
	fs::create_dir(&cwd).unwrap();
	let kind = *s.pick(&[LogPath::Empty, LogPath::Used, LogPath::None, LogPath::Missing, LogPath::File, LogPath::Link, LogPath::Dangling]);
	let level = if s.chance(3, 4) { Some(*s.pick(&LEVELS)) } else { None };
	let at = scratch.0.join(*s.pick(&["logs", "my logs", "é"]));
	let mut groups: Vec<Vec<OsString>> = vec![];
	if kind != LogPath::None {
		let relative = s.bool();
		let path = if relative { Path::new("..").join(at.file_name().unwrap()) } else { at.clone() };
		groups.push(vec![os("--logpath"), path.into()]);
	}
	if let Some((l, _)) = level {
		groups.push(vec![os("--loglevel"), os(l)]);
	}
	if s.bool() {
		groups.push(vec![os("--stdio")]);
	}
	if s.bool() {
		groups.push(vec![os("server")]);
	}
	let mut args: Vec<OsString> = vec![];
	while !groups.is_empty() {
		args.extend(groups.remove(s.usize(groups.len())));
	}
	let n = s.usize(3);
	let bad = s.bool();
	let exit = s.bool();
	c.show(format!("{args:?}, {kind:?}, {n} documents, invalid request {bad}"));
	const OLD: &str = "an earlier run\n";
	let name = "p4analyzer.log";
	match kind {
		LogPath::Empty => fs::create_dir(&at).unwrap(),
		LogPath::Used => {
			fs::create_dir(&at).unwrap();
			fs::write(at.join(name), OLD).unwrap();
		}
		LogPath::File => fs::write(&at, OLD).unwrap(),
		LogPath::Link => {
			fs::create_dir(scratch.0.join("behind")).unwrap();
			std::os::unix::fs::symlink(scratch.0.join("behind"), &at).unwrap();
		}
		LogPath::Dangling => std::os::unix::fs::symlink(scratch.0.join("behind"), &at).unwrap(),
		_ => (),
	}
	let before = log_of(&scratch.0)?;
	let mut p = start(&args, &cwd);
	let trace = talk(&mut p, s, n, bad)?;
	if exit {
		p.notify(s, "exit", Value::Null);
		p.flush(s);
		let st = p.end("exit")?;
		ensure!(st.success(), "bad end", "{}", describe(&st));
	} else {
		p.kill();
		p.end("its end")?;
	}
	ensure!(log_of(&scratch.0)? == before && log_of(&cwd)?.is_empty(), "stray file", "{:?} {:?}", log_of(&scratch.0)?, log_of(&cwd)?);
	c.label(format!("{kind:?}"));
	match kind {
		LogPath::File => ensure!(fs::read_to_string(&at).unwrap() == OLD, "file overwritten", "the log path is a file"),
		LogPath::Empty | LogPath::Used | LogPath::Link => {
			ensure!(log_of(&at)? == vec![at.join(name)], "wrong log file", "{:?}", log_of(&at)?);
			let mut got = fs::read_to_string(at.join(name)).unwrap();
			if kind == LogPath::Used {
				ensure!(got.starts_with(OLD), "log overwritten", "{got}");
				got = got[OLD.len()..].to_string();
			}
			// the same session, with everything logged
			let all_at = scratch.0.join("all");
			fs::create_dir(&all_at).unwrap();
			let mut q = start(&[os("--logpath"), all_at.clone().into(), os("--loglevel"), os("trace")], &cwd);
			let mut again = Src::replay(&[]);
			talk(&mut q, &mut again, n, bad)?;
			q.kill();
			q.end("its end")?;
			let all = lines(&fs::read_to_string(all_at.join(name)).unwrap_or_default());
			let max = level.map_or(4, |l| l.1);
			let got = lines(&got);
			ensure!(got.iter().all(|(l, _)| *l >= 1 && *l <= max), "too much is logged", "level {max}: {:?}", got.iter().find(|(l, _)| *l < 1 || *l > max));
			// what both have: no work in the background, nothing after the shutdown, and no contents
			let plain = |v: &[(usize, String)]| -> Vec<(usize, String)> {
				let mut v: Vec<_> = v.iter().filter(|(_, l)| l.contains("[Message]") && !l.contains("[Message]{exit") && !l.contains("background")).map(|(n, l)| (*n, short(l.split("}:").last().unwrap_or(l)))).collect();
				v.sort();
				v
			};
			let want: Vec<(usize, String)> = all.iter().filter(|(l, _)| *l <= max).cloned().collect();
			ensure!(plain(&got) == plain(&want), "wrong log", "level {max}: {:?} instead of {:?}", plain(&got), plain(&want));
			for t in &trace {
				ensure!(all.iter().any(|(_, l)| l.contains(&short(t))), "event missing in the log", "{t:?} is not in {all:?}");
			}
			c.label(format!("level {max}"));
			c.nontrivial(all.iter().any(|(l, _)| *l > max) || max >= 3);
		}
		_ => (),
	}
	Ok(())
}

/// Command lines that start no server.
pub fn refused(s: &mut Src, c: &mut Ctx) -> Res {
	let scratch = Scratch::new();
	let mut args: Vec<OsString> = vec![];
	let mut used = vec![];
	let mut valid = |s: &mut Src, args: &mut Vec<OsString>| {
		for _ in 0..s.usize(3) {
			let k = s.usize(4);
			if !used.contains(&k) {
				used.push(k);
				match k {
					0 => args.push(os("server")),
					1 => args.push(os("--stdio")),
					2 => args.extend([os("--loglevel"), os("info")]),
					_ => args.extend([os("--logpath"), scratch.0.join("none").into()]),
				}
			}
		}
	};
	valid(s, &mut args);
	let version = s.chance(1, 3);
	let mut tail = vec![];
	if version {
		tail.push(os(*s.pick(&["--version", "-v"])));
	} else {
		match s.usize(5) {
			0 => tail.push(os(*s.pick(&["--bogus", "-x", "--Version", "--logPath", "-"]))),
			1 => tail.push(os(*s.pick(&["serve", "extra", "/tmp", "é"]))),
			2 => tail.extend([os("--stdio"), os("--stdio")]),
			3 => tail.extend([os("--loglevel"), os("info"), os("--loglevel"), os("info")]),
			_ => {}
		}
	}
	let missing = tail.is_empty();
	args.extend(tail);
	valid(s, &mut args);
	if missing {
		args.push(os(*s.pick(&["--logpath", "--loglevel"])));
	}
	c.show(format!("{args:?}"));
	let mut p = start(&args, &scratch.0);
	let eager = s.bool();
	if eager {
		// what a client would send does not matter
		p.request(s, "initialize", init_params(None, false, None));
		p.flush(s);
	}
	let (out, st) = p.text(if version { "--version" } else { "a wrong command line" })?;
	let out = String::from_utf8_lossy(&out).into_owned();
	ensure!(!out.contains("Content-Length"), "server started", "{out:?}");
	if version {
		ensure!(st.success(), "bad end", "{}", describe(&st));
		ensure!(out.trim_end_matches('\n').split('.').count() == 3 && out.trim_end().chars().all(|c| c.is_ascii_digit() || c == '.'), "wrong version", "{out:?}");
	} else {
		ensure!(!out.trim().is_empty() || !st.success(), "not reported", "nothing is said, {}", describe(&st));
	}
	ensure!(fs::read_dir(&scratch.0).unwrap().count() == 0, "stray file", "{:?}", log_of(&scratch.0)?);
	c.label(if version { "version" } else { "wrong" });
	c.nontrivial(args.len() > 1);
	Ok(())
}

pub fn c29() -> Property {
	Property {
		id: "C29",
		targets: vec![
			Target { name: "log", quick: 6_000, thorough: 200_000, rule: "there is a log, and something to keep out of it or in it", run: logging },
			Target { name: "refused", quick: 6_000, thorough: 100_000, rule: "at least two arguments", run: refused },
		],
		pinned: vec![],
		assumptions: vec!["xflags and tracing-appender are stand-ins written from their documentation: the log is written at once instead of by a thread"],
	}
}
