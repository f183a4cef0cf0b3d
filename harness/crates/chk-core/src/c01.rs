//! C01: incremental edits; C02: position conversion.
use crate::text::*;
use analyzer_core::lsp_file::{ChangeEvent, LspFile, Position, Range};
use analyzer_core::Analyzer;
use pbt::{ensure, Ctx, Pinned, Property, Res, Src, Target};

#[derive(Debug)]
enum Edit {
	Full(String),
	Ranged((usize, usize), (usize, usize), String),
}

fn edit(s: &mut Src, model: &mut String) -> Edit {
	if s.chance(1, 10) {
		let t = text(s);
		*model = t.clone();
		return Edit::Full(t);
	}
	let (mut a, mut b) = (any_position(s, model), any_position(s, model));
	if s.chance(1, 4) {
		b = a;
	}
	let (mut x, mut y) = (offset(model, a.0, a.1), offset(model, b.0, b.1));
	if x > y {
		// a range that ends before it starts is not a range
		std::mem::swap(&mut a, &mut b);
		std::mem::swap(&mut x, &mut y);
	}
	let t = if s.chance(1, 4) { String::new() } else { text(s) };
	model.replace_range(x..y, &t);
	Edit::Ranged(a, b, t)
}

fn event(e: &Edit) -> ChangeEvent {
	match e {
		Edit::Full(t) => ChangeEvent { range: None, text: t.clone() },
		Edit::Ranged(a, b, t) => {
			ChangeEvent { range: Some(Range::new(Position::new(a.0, a.1), Position::new(b.0, b.1))), text: t.clone() }
		}
	}
}

fn same(what: &str, f: &LspFile, model: &str) -> Res {
	ensure!(f.get_file_content() == model, "text", "{what}: text is {:?}, should be {:?}", f.get_file_content(), model);
	ensure!(
		f.get_ranges() == &line_ends(model),
		"line index",
		"{what}: line index of {:?} is {:?}, should be {:?}",
		model,
		f.get_ranges(),
		line_ends(model)
	);
	let fresh = LspFile::new(&model.to_string());
	ensure!(fresh.get_ranges() == f.get_ranges(), "fresh", "{what}: a fresh document has line index {:?}", fresh.get_ranges());
	Ok(())
}

fn edits(s: &mut Src, c: &mut Ctx) -> Res {
	let mut model = text(s);
	let start = model.clone();
	let mut f = LspFile::new(&model);
	same("new", &f, &model)?;
	let mut log = vec![];
	let n = 1 + s.usize(8);
	for i in 0..n {
		let before = model.clone();
		let e = edit(s, &mut model);
		if let Edit::Ranged(a, b, t) = &e {
			c.nontrivial(!before.is_empty());
			c.label_if(a.0 != b.0, "spans lines");
			c.label_if(t.contains('\n'), "inserts line break");
			c.label_if(t.is_empty() && model != before, "deletion");
			c.label_if(offset(&before, b.0, b.1) == before.len() && !before.is_empty(), "touches end of document");
			c.label_if(!before.is_empty() && !before.ends_with('\n'), "no final line break");
		}
		log.push(e);
		c.show(format!("start {start:?} edits {log:?}"));
		f.lazy_add(&event(&log[i]));
		same(&format!("after edit {}", i + 1), &f, &model)?;
	}
	Ok(())
}

fn batches(s: &mut Src, c: &mut Ctx) -> Res {
	let mut a = Analyzer::new(|_, p| Ok(p.to_string()), |_| ());
	let names = ["file:///a.p4", "file:///b.p4", "file:///c.p4"];
	let mut models: Vec<String> = vec![];
	let mut log = vec![];
	for n in names {
		let t = text(s);
		let id = a.file_id(n);
		a.update(id, &t);
		log.push(format!("{n}: {t:?}"));
		models.push(t);
	}
	for _ in 0..1 + s.usize(5) {
		let k = s.usize(3);
		let id = a.file_id(names[k]);
		if s.chance(1, 6) {
			models[k] = text(s);
			a.update(id, &models[k]);
			log.push(format!("update {k} {:?}", models[k]));
		} else {
			let batch: Vec<Edit> = {
				let m = &mut models[k];
				(0..s.usize(4)).map(|_| edit(s, m)).collect()
			};
			c.nontrivial(batch.len() > 1);
			log.push(format!("change {k} {batch:?}"));
			a.file_change_event(id, &batch.iter().map(event).collect());
		}
		c.show(log.join("; "));
		for (n, m) in names.iter().zip(&models) {
			let id = a.file_id(n);
			ensure!(a.input(id) == Some(m), "analyzer text", "{n}: {:?}, should be {:?}", a.input(id), m);
			same(n, a.get_file(id), m)?;
		}
	}
	Ok(())
}

/// All texts over a small alphabet up to a length, with every ranged edit.
fn small(s: &mut Src, c: &mut Ctx) -> Res {
	let alphabet = ['a', '\n', 'ć'];
	let word = |s: &mut Src, max: u64| -> String { (0..s.below(max + 1)).map(|_| alphabet[s.usize(3)]).collect() };
	let mut model = word(s, 5);
	let mut f = LspFile::new(&model);
	let mut show = format!("{model:?}");
	for _ in 0..2 {
		let (x, y) = (s.usize(4), s.usize(4));
		let (u, v) = (s.usize(4), s.usize(4));
		let (p, q) = if offset(&model, x, y) <= offset(&model, u, v) { ((x, y), (u, v)) } else { ((u, v), (x, y)) };
		let t = word(s, 3);
		let e = Edit::Ranged(p, q, t.clone());
		model.replace_range(offset(&model, p.0, p.1)..offset(&model, q.0, q.1), &t);
		show += &format!(" {e:?}");
		c.show(show.clone());
		c.nontrivial(true);
		f.lazy_add(&event(&e));
		same("small", &f, &model)?;
	}
	Ok(())
}

pub fn c01() -> Property {
	Property {
		id: "C01",
		targets: vec![
			Target { name: "small edits", quick: 800_000, thorough: 16_000_000, rule: "every case", run: small },
			Target { name: "edit sequences", quick: 600_000, thorough: 12_000_000, rule: "some ranged edit of a non-empty document", run: edits },
			Target { name: "analyzer batches", quick: 120_000, thorough: 2_400_000, rule: "some batch has two or more changes", run: batches },
		],
		pinned: vec![
			Pinned {
				name: "append to a last line without line break",
				run: || {
					let mut f = LspFile::new(&"ab".to_string());
					f.lazy_add(&event(&Edit::Ranged((0, 2), (0, 2), "X".into())));
					same("append", &f, "abX")
				},
			},
		],
		assumptions: vec!["positions count Unicode scalar values and only '\\n' ends a line, as the repository's tests fix; ranges end no earlier than they start"],
	}
}

fn positions(s: &mut Src, c: &mut Ctx) -> Res {
	let t = text(s);
	// the document is sometimes the result of an edit
	let mut f = LspFile::new(&t);
	let mut model = t.clone();
	for _ in 0..s.usize(3) {
		let e = edit(s, &mut model);
		f.lazy_add(&event(&e));
	}
	c.show(format!("{model:?}"));
	let t = model;
	c.nontrivial(!t.is_empty());
	c.label_if(!t.is_ascii(), "multi-byte characters");
	c.label_if(!t.is_empty() && !t.ends_with('\n'), "no final line break");
	c.label_if(t.chars().last().map_or(false, |c| c.len_utf8() > 1), "last character multi-byte");
	let mut last = Position::new(0, 0);
	for b in 0..t.len() {
		let p = f.byte_to_lsp(b);
		let want = position(&t, b);
		ensure!((p.line, p.character) == want, "byte_to_lsp", "offset {b}: {p:?}, should be {want:?}");
		ensure!(!(p < last), "monotone", "offset {b}: {p:?} after {last:?}");
		last = p;
		let back = f.lsp_to_byte(&p);
		let floor = (0..=b).rev().find(|i| t.is_char_boundary(*i)).unwrap();
		ensure!(back == floor, "round trip", "offset {b} -> {p:?} -> {back}, should be {floor}");
	}
	for b in [t.len(), t.len() + 1, t.len() + 1000, usize::MAX] {
		let p = f.byte_to_lsp(b);
		ensure!(!(p < last), "monotone", "offset {b}: {p:?} after {last:?}");
		let back = f.lsp_to_byte(&p);
		ensure!(back == t.len(), "clamped offset", "offset {b} -> {p:?} -> {back}, should be {}", t.len());
		if t.ends_with('\n') {
			ensure!((p.line, p.character) == (lines(&t).len(), 0), "end position", "offset {b}: {p:?}");
		}
	}
	let ls = lines(&t);
	for l in 0..ls.len() + 3 {
		let want = ls.get(l).map_or(0, |r| t[r.clone()].chars().count());
		ensure!(f.line_char(l) == want, "line_char", "line {l} has {} characters, should be {want}", f.line_char(l));
		for ch in 0..want + 3 {
			let got = f.lsp_to_byte(&Position::new(l, ch));
			let exp = offset(&t, l, ch);
			ensure!(got == exp, "lsp_to_byte", "({l}, {ch}) is {got}, should be {exp}");
		}
	}
	for _ in 0..4 {
		let (p, q) = (any_position(s, &t), any_position(s, &t));
		let r = f.lsp_range_to_byte_range(&Range::new(Position::new(p.0, p.1), Position::new(q.0, q.1)));
		let want = offset(&t, p.0, p.1)..offset(&t, q.0, q.1);
		ensure!(r == want, "lsp range", "{p:?}..{q:?} is {r:?}, should be {want:?}");
		let (x, y) = (s.usize(t.len() + 2), s.usize(t.len() + 2));
		let r = f.byte_range_to_lsp_range(&(x..y));
		let want = Range::new(f.byte_to_lsp(x), f.byte_to_lsp(y));
		ensure!(r == want, "byte range", "{x}..{y} is {r:?}, should be {want:?}");
	}
	ensure!(f.line_char(usize::MAX) == 0, "line_char", "line usize::MAX");
	Ok(())
}

pub fn c02() -> Property {
	Property {
		id: "C02",
		targets: vec![Target { name: "all offsets and positions of a document", quick: 800_000, thorough: 16_000_000, rule: "non-empty document", run: positions }],
		pinned: vec![Pinned {
			name: "last character multi-byte, no final line break",
			run: || {
				let f = LspFile::new(&"aé".to_string());
				let p = f.byte_to_lsp(1);
				ensure!((p.line, p.character) == (0, 1), "byte_to_lsp", "{p:?}");
				Ok(())
			},
		}],
		assumptions: vec!["positions count Unicode scalar values and only '\\n' ends a line, as the repository's tests fix"],
	}
}
