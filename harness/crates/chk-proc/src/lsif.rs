//! C31 the LSIF dump, as a process, against a walk over what has been created.
use crate::proc::*;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::fs;
use std::os::unix::fs::symlink;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};
use url::Url;

fn os(s: &str) -> OsString { s.into() }

// (a URL that holds a backslash is another one once it has been written and read: the url crate takes it for a slash)
const PARTS: [&str; 21] = ["a", "b", "core", "v1model", " ", ".", "é", "日本", "[a]", "[", "*", "?", "%41", "%", "#", "&", "\n", "{a,b}", "!", "'", "\""];
const ENDS: [&str; 9] = [".p4", ".p4", ".p4", ".p4", ".p4", "", ".p4.txt", ".p4i", "p4"];
const TEXTS: [&str; 9] = ["", "header h { }", "\u{feff}x", "a\r\nb\rc\n", "\0", "#include <core.p4>\n", "#include \"a.p4i\"\n#include \"b.p4\"\n", "#if 1\n", "parser p(packet_in b) { state start { transition accept; } }\n"];

fn name(s: &mut Src) -> String {
	let mut n: String = (0..1 + s.weighted(&[6, 3, 1])).map(|_| *s.pick(&PARTS)).collect();
	n.push_str(*s.pick(&ENDS));
	if n == "." || n == ".." || n == ".p4" || n == "..p4" {
		n.insert(0, 'x');
	}
	n
}

/// Everything below a folder: `None` for a folder, a file's contents, or a link's target.
fn walk(dir: &Path) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
	let mut all = BTreeMap::new();
	let mut todo = vec![dir.to_path_buf()];
	while let Some(d) = todo.pop() {
		for e in fs::read_dir(&d).unwrap() {
			let e = e.unwrap();
			let kind = e.file_type().unwrap();
			if kind.is_dir() {
				todo.push(e.path());
				all.insert(e.path(), None);
			} else if kind.is_symlink() {
				all.insert(e.path(), Some(fs::read_link(e.path()).unwrap().to_string_lossy().into_owned().into_bytes()));
			} else {
				all.insert(e.path(), Some(fs::read(e.path()).unwrap()));
			}
		}
	}
	all
}

fn fill(s: &mut Src, dir: &Path, depth: usize, dirs: &mut Vec<PathBuf>) {
	for _ in 0..s.weighted(&[2, 3, 3, 2, 1]) {
		let p = dir.join(name(s));
		if p.exists() {
			continue;
		}
		if depth > 0 && s.chance(2, 5) {
			fs::create_dir(&p).unwrap();
			dirs.push(p.clone());
			fill(s, &p, depth - 1, dirs);
		} else if s.chance(1, 10) {
			fs::write(&p, s.list(8, |s| *s.pick(&[b'a', 0xff, 0xc3, 0xa9, b'\n']))).unwrap();
		} else {
			fs::write(&p, *s.pick(&TEXTS)).unwrap();
		}
	}
}

/// The URLs of the P4 files below `dir`, and those of other files, which may have been included.
fn files(dir: &Path, p4: &mut BTreeSet<String>, other: &mut BTreeSet<String>) {
	let dir = fs::canonicalize(dir).unwrap();
	for (p, c) in walk(&dir) {
		if c.is_some() {
			let urls = if p.file_name().unwrap().to_string_lossy().ends_with(".p4") { &mut *p4 } else { &mut *other };
			urls.insert(Url::from_file_path(&p).unwrap().to_string());
		}
	}
}

/// `p` as somebody at `cwd` may write it.
fn spelling(s: &mut Src, p: &Path, cwd: &Path) -> PathBuf {
	let up = cwd.parent().unwrap();
	match s.usize(5) {
		0 | 1 => p.to_path_buf(),
		2 if p == cwd => PathBuf::from("."),
		2 | 3 if p.starts_with(cwd) && p != cwd => p.strip_prefix(cwd).unwrap().to_path_buf(),
		4 => p.join("."),
		_ => match p.strip_prefix(up) {
			Ok(r) => Path::new("..").join(r),
			Err(_) => p.to_path_buf(),
		},
	}
}

struct Ended {
	status: ExitStatus,
	stdout: String,
	stderr: String,
}

fn run(args: &[OsString], cwd: &Path, aside: &Path) -> Result<Ended, Fail> {
	let out = fs::File::create(aside.join("stdout")).unwrap();
	let err = fs::File::create(aside.join("stderr")).unwrap();
	let mut cmd = Command::new(program().with_file_name("lsif-p4"));
	cmd.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(out).stderr(err).env_remove("RUST_BACKTRACE");
	unsafe {
		cmd.pre_exec(|| {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			Ok(())
		});
	}
	let mut child = cmd.spawn().expect("lsif-p4 can't be started");
	let start = Instant::now();
	let text = |n: &str| String::from_utf8_lossy(&fs::read(aside.join(n)).unwrap()).into_owned();
	loop {
		if let Some(status) = child.try_wait().unwrap() {
			return Ok(Ended { status, stdout: text("stdout"), stderr: text("stderr") });
		}
		if start.elapsed() > PATIENCE {
			let _ = child.kill();
			let _ = child.wait();
			return Err(Fail::new("does not end", format!("{args:?}: still running after {PATIENCE:?}: {}", text("stdout"))));
		}
		std::thread::sleep(Duration::from_micros(300));
	}
}

/// The documents a dump lists.
fn documents(dump: &str) -> Result<Vec<String>, Fail> {
	let mut ids = BTreeSet::new();
	let mut urls = vec![];
	ensure!(dump.is_empty() || dump.ends_with('\n'), "cut off", "{dump:?}");
	for l in dump.lines() {
		let v: Value = serde_json::from_str(l).map_err(|e| Fail::new("not JSON", format!("{e}: {l:?}")))?;
		ensure!(v["id"].is_number() || v["id"].is_string(), "no id", "{l}");
		ensure!(ids.insert(v["id"].to_string()), "an id twice", "{l}");
		ensure!(v["type"] == "vertex" || v["type"] == "edge", "neither vertex nor edge", "{l}");
		ensure!(v["label"].is_string(), "no label", "{l}");
		if v["label"] == "document" {
			ensure!(v["type"] == "vertex", "not a vertex", "{l}");
			ensure!(v["languageId"] == "P4", "wrong language", "{l}");
			match v["uri"].as_str() {
				Some(u) => urls.push(u.to_string()),
				None => return Err(Fail::new("no uri", l.to_string())),
			}
		}
	}
	Ok(urls)
}

fn dumps(s: &mut Src, c: &mut Ctx) -> Res {
	let scratch = Scratch::new();
	let aside = Scratch::new();
	let base = fs::canonicalize(&scratch.0).unwrap();
	let main = base.join(*s.pick(&["w", "my work", "é", "a[b]", "%41"]));
	fs::create_dir(&main).unwrap();
	let mut dirs = vec![main.clone()];
	fill(s, &main, 3, &mut dirs);
	if s.chance(1, 60) {
		for i in 0..s.usize(60) {
			fs::write(main.join(format!("more{i}.p4")), "x").unwrap();
		}
	}
	let beside = base.join("include");
	fs::create_dir(&beside).unwrap();
	let mut others = vec![beside.clone()];
	fill(s, &beside, 2, &mut others);
	// where from, and what of
	let cwd = if s.bool() { main.clone() } else { s.pick(&dirs).clone() };
	let any = |s: &mut Src, likely: &PathBuf| match s.weighted(&[4, 2, 1]) {
		0 => likely.clone(),
		1 => s.pick(&dirs).clone(),
		_ => s.pick(&others).clone(),
	};
	let mut headers = any(s, &beside);
	let mut work = if s.chance(1, 4) { cwd.clone() } else { any(s, &main) };
	let given = work != cwd || s.bool();
	let (mut want, mut may, mut below) = (BTreeSet::new(), BTreeSet::new(), 0);
	for d in [&work, &headers] {
		let mut one = BTreeSet::new();
		files(d, &mut one, &mut may);
		below += one.len();
		want.append(&mut one);
	}
	if s.chance(1, 6) {
		let link = base.join("link");
		let to = if s.bool() { &mut headers } else { &mut work };
		symlink(&*to, &link).unwrap();
		*to = link;
	}
	// what for
	let given = given || work.ends_with("link");
	let file = s.chance(1, 2).then(|| s.pick(&["out", "x.lsif", "a.b", "é", "with space", "-", "P4Analysis", ".hidden"]).to_string());
	let mut out_dir = s.chance(1, 2).then(|| if s.chance(1, 3) { s.pick(&dirs).clone() } else { base.join("o") });
	if let Some(d) = &out_dir {
		let _ = fs::create_dir(d);
	}
	// what goes wrong
	let fault = if s.chance(1, 8) { 1 + s.usize(5) } else { 0 };
	let mut target = out_dir.as_ref().unwrap_or(&cwd).join(format!("{}.lsif", file.as_deref().unwrap_or("P4Analysis")));
	match fault {
		1 => headers = base.join("missing"),
		2 => work = base.join("missing"),
		3 => {
			out_dir = Some(base.join("missing"));
			target = base.join("missing");
		}
		4 => fs::create_dir(&target).unwrap(),
		5 => {
			fs::write(base.join("file"), "").unwrap();
			headers = base.join("file").join("x");
		}
		_ => {
			if s.chance(1, 4) {
				fs::write(&target, "an earlier dump\n".repeat(s.usize(400))).unwrap();
			}
		}
	}
	let mut groups = vec![vec![os(*s.pick(&["-h", "--header-files"])), spelling(s, &headers, &cwd).into()]];
	if given || fault == 2 {
		groups.push(vec![os(*s.pick(&["-w", "--workspace"])), spelling(s, &work, &cwd).into()]);
	}
	if let Some(f) = &file {
		groups.push(vec![os(*s.pick(&["-f", "--filename"])), os(f)]);
	}
	if let Some(d) = &out_dir {
		groups.push(vec![os(*s.pick(&["-o", "--output"])), spelling(s, d, &cwd).into()]);
	}
	let mut args = vec![];
	while !groups.is_empty() {
		args.extend(groups.remove(s.usize(groups.len())));
	}
	let mut before = walk(&base);
	c.show(format!("in {cwd:?}: {args:?}\nof {want:#?}\nfault {fault}"));
	c.label(if fault > 0 { format!("fault {fault}") } else if work == headers { "same folder".into() } else if below > want.len() { "one within the other".into() } else { "apart".into() });
	let end = run(&args, &cwd, &aside.0)?;
	let mut after = walk(&base);
	if fault > 0 {
		ensure!(!end.status.success(), "a dump that failed is taken for one", "{:?} {}", end.status, end.stdout);
		ensure!(before == after, "files changed by a dump that failed", "{:?}", after.iter().filter(|(p, v)| before.get(*p) != Some(v)).collect::<Vec<_>>());
		c.nontrivial(true);
		return Ok(());
	}
	ensure!(end.status.success(), "bad end", "{:?} {}\n{}", end.status, end.stdout, end.stderr);
	let dump = after.remove(&target);
	let Some(Some(dump)) = dump else { return Err(Fail::new("no dump", format!("{target:?} is not there: {:?}", after.keys()))) };
	before.remove(&target);
	ensure!(before == after, "other files changed", "{:?}", after.iter().filter(|(p, v)| before.get(*p) != Some(v)).collect::<Vec<_>>());
	let dump = String::from_utf8(dump).map_err(|e| Fail::new("not UTF-8", e.to_string()))?;
	let got = documents(&dump)?;
	let once: BTreeSet<String> = got.iter().cloned().collect();
	let lost: Vec<_> = want.difference(&once).collect();
	ensure!(lost.is_empty(), "documents missing", "{} of {} are: {lost:#?}", lost.len(), want.len());
	let more: Vec<_> = once.difference(&want).filter(|u| !may.contains(*u)).collect();
	ensure!(more.is_empty(), "too many documents", "{more:#?}");
	ensure!(got.len() == once.len(), "a document twice", "{dump}");
	c.nontrivial(want.len() >= 2);
	Ok(())
}

fn refused(s: &mut Src, c: &mut Ctx) -> Res {
	let scratch = Scratch::new();
	let aside = Scratch::new();
	fs::write(scratch.0.join("a.p4"), "x").unwrap();
	fs::create_dir(scratch.0.join("h")).unwrap();
	let mut groups: Vec<Vec<OsString>> = vec![];
	let wrong = s.usize(6);
	if wrong != 1 {
		groups.push(vec![os("-h"), os("h")]);
	}
	if s.bool() {
		groups.push(vec![os("-w"), os(".")]);
	}
	if s.bool() {
		groups.push(vec![os("-f"), os("out")]);
	}
	if s.bool() {
		groups.push(vec![os("-o"), os("h")]);
	}
	match wrong {
		0 => groups.push(vec![os(*s.pick(&["-v", "--version"]))]),
		1 => (),
		2 => groups.push(vec![os("--headers"), os("h")]),
		3 => groups.push(vec![os("extra")]),
		4 => groups.push(vec![os("-h"), os("h")]),
		_ => (),
	}
	let mut args = vec![];
	while !groups.is_empty() {
		args.extend(groups.remove(s.usize(groups.len())));
	}
	if wrong == 5 {
		args.push(os(*s.pick(&["-f", "-w", "-o"])));
	}
	c.show(format!("{args:?}"));
	c.label(if wrong == 0 { "version" } else { "wrong" });
	let before = walk(&scratch.0);
	let end = run(&args, &scratch.0, &aside.0)?;
	ensure!(before == walk(&scratch.0), "files changed", "{:?}", walk(&scratch.0).keys());
	if wrong == 0 {
		ensure!(end.status.success(), "bad end", "{:?}", end.status);
		let v = end.stdout.trim();
		ensure!(v.split('.').count() == 3 && v.chars().all(|c| c.is_ascii_digit() || c == '.'), "wrong version", "{v:?}");
	} else {
		ensure!(!end.status.success() || !end.stdout.trim().is_empty() || !end.stderr.trim().is_empty(), "not reported", "{:?}", end.status);
	}
	c.nontrivial(args.len() > 2);
	Ok(())
}

pub fn c31() -> Property {
	Property {
		id: "C31",
		targets: vec![
			Target { name: "dumps", quick: 12_000, thorough: 300_000, rule: "at least two P4 files, or a fault", run: dumps },
			Target { name: "refused", quick: 2_000, thorough: 20_000, rule: "at least three arguments", run: refused },
		],
		pinned: vec![],
		assumptions: vec!["xflags is a stand-in written from its documentation"],
	}
}
