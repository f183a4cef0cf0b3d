//! Plain-string reference for documents: lines, positions, edits.  Positions count Unicode scalar values, a line ends
//! with '\n'.
use pbt::Src;

/// Byte ranges of the lines, each with its line break.
pub fn lines(text: &str) -> Vec<std::ops::Range<usize>> {
	let mut out = vec![];
	let mut at = 0;
	for l in text.split_inclusive('\n') {
		out.push(at..at + l.len());
		at += l.len();
	}
	out
}

/// What a line/character position stands for.
pub fn offset(text: &str, line: usize, character: usize) -> usize {
	match lines(text).get(line) {
		None => text.len(),
		Some(r) => {
			let body = text[r.clone()].trim_end_matches('\n');
			r.start + body.char_indices().nth(character).map_or(body.len(), |(i, _)| i)
		}
	}
}

/// The position of the character that contains byte `b`, for `b` inside the text.
pub fn position(text: &str, b: usize) -> (usize, usize) {
	let ls = lines(text);
	let line = ls.iter().position(|r| r.contains(&b)).expect("offset inside the text");
	let start = ls[line].start;
	let within = text[start..].char_indices().take_while(|(i, _)| start + i <= b).count();
	(line, within - 1)
}

/// Byte offset of the last byte of every line.
pub fn line_ends(text: &str) -> Vec<usize> { lines(text).iter().map(|r| r.end - 1).collect() }

const CHARS: [char; 14] = ['a', '\n', 'b', ' ', 'ć', '⁺', '𒀀', '\r', '\t', '0', '\u{0}', '\u{301}', '\u{2028}', '\u{feff}'];

/// Text with many short lines, and sometimes long ones.
pub fn text(s: &mut Src) -> String {
	match s.weighted(&[6, 3, 2, 1]) {
		0 => s.list(24, |s| CHARS[s.weighted(&[6, 6, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1])]).into_iter().collect(),
		1 => {
			let rows = s.list(12, |s| {
				let mut l = s.string(10, &CHARS[..7]);
				l.retain(|c| c != '\n');
				l
			});
			let mut t = rows.join("\n");
			if s.bool() {
				t.push('\n');
			}
			t
		}
		2 => {
			let n = s.usize(5);
			"\n".repeat(n)
		}
		_ => {
			let n = s.usize(300);
			let c = *s.pick(&CHARS[..7]);
			let mut t = String::new();
			for i in 0..n {
				t.push(c);
				if i % 17 == 16 {
					t.push('\n')
				}
			}
			t
		}
	}
}

/// A position of any kind: near lines and characters of the text, at their ends, and beyond.
pub fn any_position(s: &mut Src, text: &str) -> (usize, usize) {
	let ls = lines(text);
	let line = match s.weighted(&[12, 2, 1]) {
		0 if !ls.is_empty() => s.usize(ls.len()),
		2 => *s.pick(&[usize::MAX, u32::MAX as usize, 100000]),
		_ => ls.len() + s.usize(3),
	};
	let len = ls.get(line).map_or(0, |r| text[r.clone()].chars().count());
	let ch = match s.weighted(&[12, 3, 2, 1]) {
		0 => s.usize(len + 1),
		1 => len.saturating_sub(1),
		2 => len + s.usize(3),
		_ => *s.pick(&[usize::MAX, u32::MAX as usize, 100000]),
	};
	(line, ch)
}
