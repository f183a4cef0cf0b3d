//! C25 the native file system against a walk over what has been created.
use analyzer_abstractions::{fs::AnyEnumerableFileSystem, lsp_types::Url};
use analyzer_host::lsp::RELATIVE_P4_SOURCEFILES_GLOBPATTERN;
use p4_analyzer::native_fs::native_fs::NativeFs;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::{Read, Seek, Write};
use std::os::fd::FromRawFd;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

const PARTS: [&str; 36] = [
	"a", "b", "core", "A", " ", ".", "..x", "é", "日本", "[a]", "[", "]", "[!a]", "*", "**", "?", "%41", "%", "%2F", "#", "&", "\n", "{a,b}", "!", "\\", "~", ":", "+", "e\u{301}", "\u{1F600}", "\t", "'", "\"",
	"|", "-", "a b",
];
const ENDS: [&str; 12] = [".p4", ".p4", ".p4", ".p4", ".p4", "", "", ".P4", ".p4.txt", ".p4i", ".p4 ", "p4"];
const TEXTS: [&str; 8] = ["", "header h { }", "\u{feff}x", "a\r\nb\rc\n", "\0", "日本語 \u{1F600}", "//", "x\n\n"];

#[derive(Clone, Debug, PartialEq)]
enum Entry {
	Dir,
	File(Vec<u8>),
	/// To a file of these contents, kept apart.
	Link(Vec<u8>),
	/// To a folder that holds one P4 file, kept apart.
	DirLink,
	Broken,
}

/// What is there, by path relative to the root.
type Tree = BTreeMap<PathBuf, Entry>;

fn name(s: &mut Src) -> String {
	let mut n: String = (0..1 + s.weighted(&[6, 3, 1])).map(|_| *s.pick(&PARTS)).collect();
	if s.chance(1, 20) {
		n.clear(); // a file that is all extension
	}
	n.push_str(*s.pick(&ENDS));
	// (the url crate takes a last `c:` or `c|` for a drive, also here, and adds a slash)
	if n.is_empty() || n == "." || n == ".." || n.ends_with(&[':', '|']) {
		n.push('x');
	}
	n
}

fn contents(s: &mut Src) -> Vec<u8> {
	match s.weighted(&[6, 3, 2, 1]) {
		0 => s.pick(&TEXTS).as_bytes().to_vec(),
		1 => s.string(20, &['a', '\n', 'é', '\r', '{', '\u{1F600}', '\0']).into_bytes(),
		2 => s.list(8, |s| *s.pick(&[b'a', 0xff, 0xc3, 0xa9, 0xe2, 0x82, 0xed, 0xa0, 0x80, b'\n'])),
		_ => "0123456789é".repeat(s.usize(30_000)).into_bytes(),
	}
}

fn entry(s: &mut Src) -> Entry {
	match s.weighted(&[12, 7, 1, 1, 1]) {
		0 => Entry::File(contents(s)),
		1 => Entry::Dir,
		2 => Entry::Link(contents(s)),
		3 => Entry::Broken,
		_ => Entry::DirLink,
	}
}

struct World {
	base: PathBuf,
	root: PathBuf,
	tree: Tree,
	extra: usize,
	ids: bool,
}

impl Drop for World {
	fn drop(&mut self) {
		// only what `new` has created
		if self.base.starts_with(std::env::temp_dir()) && self.base.file_name().map_or(false, |n| n.to_string_lossy().starts_with("p4v-")) {
			for (p, e) in &self.tree {
				if *e == Entry::Dir {
					let _ = fs::set_permissions(self.root.join(p), fs::Permissions::from_mode(0o755));
				}
			}
			let _ = fs::remove_dir_all(&self.base);
		}
	}
}

impl World {
	fn new(folder: &str) -> Self {
		static N: AtomicUsize = AtomicUsize::new(0);
		let base = std::env::temp_dir().join(format!("p4v-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
		let root = base.join(folder);
		fs::create_dir_all(&root).unwrap();
		fs::create_dir_all(base.join("apart")).unwrap();
		Self { base, root, tree: Tree::new(), extra: 0, ids: false }
	}

	fn put(&mut self, p: PathBuf, e: Entry) {
		let at = self.root.join(&p);
		self.extra += 1;
		let apart = self.base.join("apart").join(self.extra.to_string());
		match &e {
			Entry::Dir => fs::create_dir(&at).unwrap(),
			Entry::File(c) => fs::write(&at, c).unwrap(),
			Entry::Link(c) => {
				fs::write(&apart, c).unwrap();
				symlink(&apart, &at).unwrap();
			}
			Entry::DirLink => {
				fs::create_dir(&apart).unwrap();
				fs::write(apart.join("in.p4"), "x").unwrap();
				symlink(&apart, &at).unwrap();
			}
			Entry::Broken => symlink(self.base.join("nowhere"), &at).unwrap(),
		}
		self.tree.insert(p, e);
	}

	fn fill(&mut self, s: &mut Src, dir: &Path, depth: usize) {
		for _ in 0..s.weighted(&[2, 3, 3, 2, 1]) {
			let p = dir.join(name(s));
			if self.tree.contains_key(&p) {
				continue;
			}
			let e = match entry(s) {
				Entry::Dir if depth == 0 => Entry::File(vec![]),
				e => e,
			};
			let is_dir = e == Entry::Dir;
			self.put(p.clone(), e);
			if is_dir {
				self.fill(s, &p, depth - 1);
			}
		}
	}

	fn remove(&mut self, p: &Path) {
		let at = self.root.join(p);
		match self.tree[p] {
			Entry::Dir => fs::remove_dir_all(&at).unwrap(),
			_ => fs::remove_file(&at).unwrap(),
		}
		self.tree.retain(|q, _| !q.starts_with(p));
	}

	/// The files that have to be listed under `dir`, and those that may.
	fn expected(&self, dir: &Path, closed: &[PathBuf]) -> (BTreeSet<PathBuf>, BTreeSet<PathBuf>) {
		let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
		for (p, e) in self.tree.iter().filter(|(p, _)| p.starts_with(dir)) {
			let text = p.to_str().unwrap();
			let file = matches!(e, Entry::File(_) | Entry::Link(_));
			if *e == Entry::DirLink {
				may.insert(self.root.join(p).join("in.p4"));
			}
			if !file {
				continue;
			}
			let bare = p.file_name().unwrap() == ".p4";
			if text.ends_with(".p4") && !bare && !closed.iter().any(|c| p.starts_with(c) && p != c) {
				must.insert(self.root.join(p));
			} else if text.to_lowercase().ends_with(".p4") {
				// all extension and no name; not the usual case of letters; or in a folder that can't be listed
				may.insert(self.root.join(p));
			}
		}
		(must, may)
	}
}

/// Runs `f` and returns what it has written to the standard output.
pub fn captured<T>(f: impl FnOnce() -> T) -> (T, String) {
	unsafe {
		let _ = std::io::stdout().flush();
		let fd = libc::memfd_create(b"out\0".as_ptr() as *const libc::c_char, 0);
		let saved = libc::dup(1);
		libc::dup2(fd, 1);
		struct Back(i32);
		impl Drop for Back {
			fn drop(&mut self) {
				let _ = std::io::stdout().flush();
				unsafe {
					libc::dup2(self.0, 1);
					libc::close(self.0);
				}
			}
		}
		let back = Back(saved);
		let mut file = fs::File::from_raw_fd(fd);
		let v = f();
		drop(back);
		let mut text = vec![];
		file.rewind().unwrap();
		file.read_to_end(&mut text).unwrap();
		(v, String::from_utf8_lossy(&text).into_owned())
	}
}

/// This thread (and those it starts) look at files as nobody while it lives.
struct Nobody;
impl Nobody {
	fn new() -> Option<Self> {
		unsafe {
			libc::setfsuid(65534);
			// the second call returns what the first one has set
			match libc::setfsuid(65534) {
				65534 => Some(Nobody),
				_ => None,
			}
		}
	}
}
impl Drop for Nobody {
	fn drop(&mut self) {
		unsafe {
			libc::setfsuid(libc::geteuid());
		}
	}
}

fn runtime() -> tokio::runtime::Runtime { tokio::runtime::Builder::new_current_thread().max_blocking_threads(1).enable_all().build().unwrap() }

fn listing(rt: &tokio::runtime::Runtime, fs: &AnyEnumerableFileSystem, url: &Url) -> Result<Vec<Url>, Fail> {
	let (list, out) = captured(|| rt.block_on(fs.enumerate_folder(url.clone(), RELATIVE_P4_SOURCEFILES_GLOBPATTERN.into())));
	ensure_quiet(&out)?;
	Ok(list.into_iter().map(|d| d.uri).collect())
}

fn ensure_quiet(out: &str) -> Res {
	ensure!(out.is_empty(), "writes to stdout", "{out:?} was written to the standard output, which carries the protocol");
	Ok(())
}

fn read(rt: &tokio::runtime::Runtime, fs: &AnyEnumerableFileSystem, url: &Url) -> Result<Option<String>, Fail> {
	let (text, out) = captured(|| rt.block_on(fs.file_contents(url.clone())));
	ensure_quiet(&out)?;
	Ok(text)
}

/// The URL of `p`: as usual, or with more of it escaped than necessary, or with parts that say nothing.
fn url(s: &mut Src, p: &Path, dir: bool) -> Url {
	let mut u = if dir { Url::from_directory_path(p).unwrap() } else { Url::from_file_path(p).unwrap() };
	match s.weighted(&[6, 1, 1, 1]) {
		1 => {
			let escaped: String = p.to_str().unwrap().bytes().map(|b| if b == b'/' { "/".to_string() } else { format!("%{b:02x}") }).collect();
			u = Url::parse(&format!("file://localhost{escaped}{}", if dir { "/" } else { "" })).unwrap();
		}
		2 => u.set_fragment(Some("top")),
		3 => u.set_query(Some("v=1")),
		_ => {}
	}
	u
}

fn trees(s: &mut Src, ctx: &mut Ctx) -> Res {
	let folder = name(s);
	let folder = if folder == "apart" { "x".to_string() } else { folder };
	let mut w = World::new(&folder);
	w.fill(s, Path::new(""), 3);
	let rt = runtime();
	let fs = NativeFs::new();
	let (mut listed, mut odd, mut read_back) = (0, false, 0);
	let mut shown = format!("folder {folder:?}\n");
	for round in 0..1 + s.weighted(&[3, 2, 1]) {
		if round > 0 {
			// something changes
			let paths: Vec<PathBuf> = w.tree.keys().cloned().collect();
			for _ in 0..1 + s.usize(3) {
				if !paths.is_empty() && s.bool() {
					let p = s.pick(&paths);
					if w.tree.contains_key(p) {
						w.remove(p);
					}
				}
			}
			let dirs: Vec<PathBuf> = w.tree.iter().filter(|(_, e)| **e == Entry::Dir).map(|(p, _)| p.clone()).chain([PathBuf::new()]).collect();
			let d = s.pick(&dirs).clone();
			w.fill(s, &d, 1);
			shown.push_str("then\n");
		}
		for (p, e) in &w.tree {
			let text = format!("{e:?}");
			shown.push_str(&format!("  {p:?} {}\n", text.chars().take(80).collect::<String>()));
		}
		ctx.show(shown.clone());
		let dirs: Vec<PathBuf> = w.tree.iter().filter(|(_, e)| **e == Entry::Dir).map(|(p, _)| p.clone()).collect();
		let dir = match s.weighted(&[4, 3]) {
			1 if !dirs.is_empty() => s.pick(&dirs).clone(),
			_ => PathBuf::new(),
		};
		// folders that nobody may look into
		let mut closed = vec![];
		if s.chance(1, 4) {
			for d in dirs.iter().filter(|d| **d != dir && !dir.starts_with(d)) {
				if s.bool() {
					closed.push(d.clone());
				}
			}
		}
		let nobody = if closed.is_empty() {
			None
		} else {
			let modes: Vec<u32> = closed.iter().map(|_| *s.pick(&[0o000, 0o111, 0o444])).collect();
			for (d, m) in closed.iter().zip(modes) {
				fs::set_permissions(w.root.join(d), fs::Permissions::from_mode(m)).unwrap();
			}
			Nobody::new()
		};
		if nobody.is_none() {
			closed.iter().for_each(|d| fs::set_permissions(w.root.join(d), fs::Permissions::from_mode(0o755)).unwrap());
			closed.clear();
		}
		let at = w.root.join(&dir);
		let slash = s.bool();
		let u = url(s, &at, slash);
		let urls = if nobody.is_some() { listing(&runtime(), &fs, &u)? } else { listing(&rt, &fs, &u)? };
		drop(nobody);
		closed.iter().for_each(|d| fs::set_permissions(w.root.join(d), fs::Permissions::from_mode(0o755)).unwrap());
		let (must, may) = w.expected(&dir, &closed);
		let mut got = BTreeSet::new();
		for u in &urls {
			ensure!(u.scheme() == "file" && u.query().is_none() && u.fragment().is_none() && u.host_str().is_none(), "not a plain file URL", "{u}");
			let p = u.to_file_path().map_err(|_| Fail::new("not a plain file URL", format!("{u}")))?;
			ensure!(got.insert(p.clone()), "listed twice", "{p:?} in the listing of {at:?}");
			ensure!(must.contains(&p) || may.contains(&p), "listed wrongly", "{p:?} in the listing of {at:?}");
		}
		if let Some(p) = must.iter().find(|p| !got.contains(*p)) {
			return Err(Fail::new("not listed", format!("{p:?} in the listing of {at:?} ({u}), which has {got:?}")));
		}
		listed += got.len();
		odd |= must.iter().any(|p| p.to_str().unwrap().contains(|c: char| "[]*?%#&\n{}!\\ ~:+".contains(c) || !c.is_ascii()));
		ctx.label_if(!closed.is_empty(), "folders without permission");
		ctx.label_if(dirs.iter().any(|d| d.to_str().unwrap().ends_with(".p4")), "folder named like a file");
		// and their contents, by the URL that was listed and by one of our own
		let paths: Vec<PathBuf> = w.tree.keys().cloned().collect();
		let mut urls: Vec<Url> = urls;
		urls.truncate(6);
		for _ in 0..s.usize(4) {
			let mut p = if paths.is_empty() { PathBuf::from("none") } else { s.pick(&paths).clone() };
			if s.chance(1, 6) {
				p.push("none.p4");
			}
			urls.push(url(s, &w.root.join(p), false));
		}
		for u in &urls {
			let p = u.to_file_path().unwrap();
			let p = p.strip_prefix(&w.root).unwrap();
			let want = match w.tree.get(p) {
				Some(Entry::File(c)) | Some(Entry::Link(c)) => String::from_utf8(c.clone()).ok(),
				_ if p.ends_with("in.p4") && w.root.join(p).is_file() => Some("x".to_string()),
				_ => None,
			};
			let got = read(&rt, &fs, u)?;
			if got != want {
				let cut = |t: &Option<String>| format!("{t:?}").chars().take(200).collect::<String>();
				return Err(Fail::new("wrong contents", format!("{u}: {} instead of {}", cut(&got), cut(&want))));
			}
			read_back += got.is_some() as usize;
		}
	}
	ctx.label_if(odd, "unusual characters in listed names");
	ctx.label_if(read_back > 0, "contents read");
	ctx.label(format!("listed: {}", match listed { 0 => "0", 1..=3 => "1-3", 4..=9 => "4-9", _ => "10 or more" }));
	ctx.nontrivial(listed > 0 && odd);
	Ok(())
}

/// URLs that are no readable local path.
fn strange(s: &mut Src, ctx: &mut Ctx) -> Res {
	let mut w = World::new("x");
	w.put(PathBuf::from("a.p4"), Entry::File(b"text".to_vec()));
	let file = w.root.join("a.p4");
	let file = file.to_str().unwrap();
	let text = match s.usize(12) {
		0 => format!("http://{}{file}", s.pick(&["localhost", "example.org", "[::1]:80", "a@b"])),
		1 => format!("untitled:{}", s.string(6, &['a', '/', '%', '.', ' '])),
		2 => format!("data:text/plain,{}", s.string(6, &['a', '/', ','])),
		3 => format!("file://{}{file}", s.pick(&["host", "example.org", "127.0.0.1", "%41"])),
		4 => format!("file://{}/%FF%{:02x}/{}", w.root.to_str().unwrap(), s.usize(256), s.pick(&["", "a.p4"])),
		5 => format!("file://{file}{}", s.pick(&["%00", "%00/", "/", "/..%2f", "/b.p4", "%2fb", "%20", "%FF", "?", "#"])),
		6 => format!("git:{file}?{}", s.string(6, &['a', '{', '%', '&'])),
		7 => format!("vscode-userdata:/{}", s.string(6, &['a', '/', '.'])),
		8 => format!("file://{}/{}", w.root.to_str().unwrap(), "n/".repeat(s.usize(40))),
		9 => format!("file://{}/{}.p4", w.root.to_str().unwrap(), "n".repeat(s.usize(600))),
		10 => format!("a+b.c-d:{}", s.string(6, &['a', '/', '?', '#', '[', '*'])),
		_ => format!("file://{}/{}", w.root.to_str().unwrap(), s.string(6, &['*', '[', ']', '?', '!', '{', '-'])),
	};
	ctx.show(text.clone());
	let u = match Url::parse(&text) {
		Ok(u) => u,
		Err(_) => return Ok(()),
	};
	ctx.label(format!("scheme: {}", u.scheme()));
	let rt = runtime();
	let fs = NativeFs::new();
	let local = u.to_file_path().ok();
	let want = match &local {
		Some(p) if p.starts_with(&w.root) => match fs::read(p) {
			Ok(b) => String::from_utf8(b).ok(),
			Err(_) => None,
		},
		// nothing outside of the scratch folder is asked for
		Some(_) => return Ok(()),
		None => None,
	};
	ctx.nontrivial(want.is_none());
	ctx.label(if local.is_some() { "a local path" } else { "no local path" });
	let got = read(&rt, &fs, &u)?;
	ensure!(got == want, "wrong contents", "{u}: {got:?} instead of {want:?}");
	let urls = listing(&rt, &fs, &u)?;
	let is_root = local.map_or(false, |p| fs::canonicalize(p).map_or(false, |p| p == w.root));
	let want: Vec<Url> = if is_root { vec![Url::from_file_path(file).unwrap()] } else { vec![] };
	ensure!(urls == want, "listed wrongly", "{urls:?} in {u}");
	Ok(())
}

pub fn property() -> Property {
	Property {
		id: "C25",
		targets: vec![
			Target { name: "trees", quick: 16_000, thorough: 600_000, rule: "at least one file is listed, and a listed path has characters that are special in URLs or patterns, or non-ASCII ones", run: trees },
			Target { name: "strange URLs", quick: 6_000, thorough: 100_000, rule: "the URL is no readable local file", run: strange },
		],
		pinned: vec![],
		assumptions: vec![
			"the glob crate is not available offline: a stand-in with the rules of its version 0.3.1 takes its place",
			"names that are not UTF-8 are not generated; what is only reachable through a symbolic link to a folder, a file named exactly '.p4' or '*.P4', and files in folders without permission may be listed or not",
		],
	}
}
