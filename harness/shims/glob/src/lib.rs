//! Stands in for glob 0.3.1, which is not available offline: same interface (the part that p4analyzer can reach) and
//! same matching rules with the default options (names starting with a dot match, `*` may match anything within a
//! component, `**` is any number of directories and does not follow symbolic links), results in alphabetical order
//! directory by directory.
use std::fmt;
use std::path::{Path, PathBuf};

#[derive(Debug)]
pub struct PatternError {
	pub pos: usize,
	pub msg: &'static str,
}
impl fmt::Display for PatternError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "Pattern syntax error near position {}: {}", self.pos, self.msg)
	}
}
impl std::error::Error for PatternError {}

#[derive(Debug)]
pub struct GlobError {
	path: PathBuf,
	error: std::io::Error,
}
impl GlobError {
	pub fn path(&self) -> &Path { &self.path }
	pub fn error(&self) -> &std::io::Error { &self.error }
	pub fn into_error(self) -> std::io::Error { self.error }
}
impl fmt::Display for GlobError {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "attempting to read `{}` resulted in an error: {}", self.path.display(), self.error)
	}
}
impl std::error::Error for GlobError {}

pub type GlobResult = Result<PathBuf, GlobError>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct MatchOptions {
	pub case_sensitive: bool,
	pub require_literal_separator: bool,
	pub require_literal_leading_dot: bool,
}
impl Default for MatchOptions {
	fn default() -> Self { Self::new() }
}
impl MatchOptions {
	pub fn new() -> Self {
		Self { case_sensitive: true, require_literal_separator: false, require_literal_leading_dot: false }
	}
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Tok {
	Char(char),
	AnyChar,
	AnySeq,
	Within(Vec<(char, char)>, bool),
}

#[derive(Clone, Debug)]
pub struct Pattern {
	original: String,
	/// `None` is `**`
	components: Vec<Option<Vec<Tok>>>,
	absolute: bool,
}

impl Pattern {
	pub fn new(pattern: &str) -> Result<Self, PatternError> {
		let mut components = vec![];
		let mut pos = 0;
		for part in pattern.split('/') {
			if part == "**" {
				if components.last() != Some(&None) {
					components.push(None);
				}
			} else if !part.is_empty() {
				components.push(Some(tokens(part, pos)?));
			}
			pos += part.chars().count() + 1;
		}
		Ok(Self { original: pattern.to_string(), components, absolute: pattern.starts_with('/') })
	}

	pub fn escape(s: &str) -> String {
		let mut out = String::new();
		for c in s.chars() {
			match c {
				'?' | '*' | '[' | ']' => out.extend(['[', c, ']']),
				c => out.push(c),
			}
		}
		out
	}

	pub fn as_str(&self) -> &str { &self.original }

	pub fn matches(&self, s: &str) -> bool { self.matches_with(s, MatchOptions::new()) }

	pub fn matches_with(&self, s: &str, o: MatchOptions) -> bool {
		let parts: Vec<&str> = s.split('/').filter(|p| !p.is_empty()).collect();
		s.starts_with('/') == self.absolute && matches_parts(&self.components, &parts, o)
	}

	pub fn matches_path(&self, p: &Path) -> bool { p.to_str().map_or(false, |s| self.matches(s)) }

	pub fn matches_path_with(&self, p: &Path, o: MatchOptions) -> bool { p.to_str().map_or(false, |s| self.matches_with(s, o)) }
}

fn matches_parts(pat: &[Option<Vec<Tok>>], parts: &[&str], o: MatchOptions) -> bool {
	match (pat.first(), parts.first()) {
		(None, None) => true,
		(None, _) => false,
		(Some(None), _) => (0..=parts.len()).any(|n| parts[..n].iter().all(|p| !hidden(p, o)) && matches_parts(&pat[1..], &parts[n..], o)),
		(Some(Some(t)), Some(p)) => component_matches(t, p, o) && matches_parts(&pat[1..], &parts[1..], o),
		(Some(Some(_)), None) => false,
	}
}

fn tokens(part: &str, base: usize) -> Result<Vec<Tok>, PatternError> {
	let c: Vec<char> = part.chars().collect();
	let mut out = vec![];
	let mut i = 0;
	while i < c.len() {
		match c[i] {
			'?' => out.push(Tok::AnyChar),
			'*' => {
				let n = c[i..].iter().take_while(|c| **c == '*').count();
				if n > 2 {
					return Err(PatternError { pos: base + i + 2, msg: "wildcards are either regular `*` or recursive `**`" });
				}
				if n == 2 {
					return Err(PatternError { pos: base + i, msg: "recursive wildcards must form a single path component" });
				}
				out.push(Tok::AnySeq)
			}
			'[' => {
				let neg = c.get(i + 1) == Some(&'!');
				let start = i + 1 + neg as usize;
				// the first character of the set may be a closing bracket
				let end = match (start + 1..c.len()).find(|j| c[*j] == ']') {
					Some(e) => e,
					None => return Err(PatternError { pos: base + i, msg: "invalid range pattern" }),
				};
				let set = &c[start..end];
				let mut ranges = vec![];
				let mut j = 0;
				while j < set.len() {
					if j + 3 <= set.len() && set[j + 1] == '-' {
						ranges.push((set[j], set[j + 2]));
						j += 3;
					} else {
						ranges.push((set[j], set[j]));
						j += 1;
					}
				}
				out.push(Tok::Within(ranges, neg));
				i = end;
			}
			ch => out.push(Tok::Char(ch)),
		}
		i += 1;
	}
	Ok(out)
}

fn hidden(name: &str, o: MatchOptions) -> bool { o.require_literal_leading_dot && name.starts_with('.') }

fn component_matches(t: &[Tok], name: &str, o: MatchOptions) -> bool {
	(!hidden(name, o) || t.first() == Some(&Tok::Char('.'))) && name_matches(t, &name.chars().collect::<Vec<_>>(), o)
}

fn name_matches(t: &[Tok], s: &[char], o: MatchOptions) -> bool {
	match t.first() {
		None => s.is_empty(),
		Some(Tok::AnySeq) => (0..=s.len()).any(|n| name_matches(&t[1..], &s[n..], o)),
		Some(one) => match s.first() {
			None => false,
			Some(c) => {
				let ok = match one {
					Tok::Char(d) => c == d || !o.case_sensitive && c.eq_ignore_ascii_case(d),
					Tok::AnyChar => true,
					Tok::Within(r, neg) => r.iter().any(|(a, b)| {
						let within = |c: &char| a <= c && c <= b;
						within(c) || !o.case_sensitive && (within(&c.to_ascii_lowercase()) || within(&c.to_ascii_uppercase()))
					}) != *neg,
					Tok::AnySeq => unreachable!(),
				};
				ok && name_matches(&t[1..], &s[1..], o)
			}
		},
	}
}

pub struct Paths(std::vec::IntoIter<GlobResult>);
impl Iterator for Paths {
	type Item = GlobResult;
	fn next(&mut self) -> Option<GlobResult> { self.0.next() }
}

pub fn glob(pattern: &str) -> Result<Paths, PatternError> { glob_with(pattern, MatchOptions::new()) }

pub fn glob_with(pattern: &str, o: MatchOptions) -> Result<Paths, PatternError> {
	let p = Pattern::new(pattern)?;
	let root = if p.absolute { PathBuf::from("/") } else { PathBuf::new() };
	let mut out = vec![];
	walk(&root, &p.components, o, &mut out);
	Ok(Paths(out.into_iter()))
}

fn walk(dir: &Path, pat: &[Option<Vec<Tok>>], o: MatchOptions, out: &mut Vec<GlobResult>) {
	let here = || if dir.as_os_str().is_empty() { Path::new(".") } else { dir };
	let entries = |out: &mut Vec<GlobResult>| -> Vec<PathBuf> {
		match std::fs::read_dir(here()) {
			Ok(rd) => {
				let mut names: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.file_name()).collect();
				names.sort();
				names.into_iter().map(|n| dir.join(n)).collect()
			}
			Err(error) => {
				out.push(Err(GlobError { path: dir.to_path_buf(), error }));
				vec![]
			}
		}
	};
	match pat.split_first() {
		None => out.push(Ok(dir.to_path_buf())),
		Some((None, rest)) => {
			if rest.is_empty() {
				// a trailing `**` yields directories
				for e in entries(out) {
					if real_dir(&e) && !hidden(&name_of(&e), o) {
						out.push(Ok(e.clone()));
						walk(&e, pat, o, out);
					}
				}
				return;
			}
			walk(dir, rest, o, out);
			for e in entries(out) {
				if real_dir(&e) && !hidden(&name_of(&e), o) {
					walk(&e, pat, o, out);
				}
			}
		}
		Some((Some(t), rest)) => {
			// a component without wildcards is looked up, not listed
			if o.case_sensitive && t.iter().all(|t| matches!(t, Tok::Char(_))) {
				let name: String = t.iter().map(|t| if let Tok::Char(c) = t { *c } else { ' ' }).collect();
				let p = dir.join(name);
				if if rest.is_empty() { p.symlink_metadata().is_ok() } else { p.is_dir() } {
					walk(&p, rest, o, out);
				}
				return;
			}
			for e in entries(out) {
				if e.file_name().and_then(|n| n.to_str()).is_none() {
					continue;
				}
				if component_matches(t, &name_of(&e), o) && (rest.is_empty() || e.is_dir()) {
					walk(&e, rest, o, out);
				}
			}
		}
	}
}

fn real_dir(p: &Path) -> bool { p.symlink_metadata().map_or(false, |m| m.is_dir()) }

fn name_of(p: &Path) -> String { p.file_name().map_or(String::new(), |n| n.to_string_lossy().into_owned()) }
