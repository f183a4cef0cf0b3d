//! C10 watching and indexing, C07 server requests.
use crate::docs::answer;
use crate::rpc;
use crate::session::*;
use analyzer_host::json_rpc::message::{Message, Response};
use analyzer_host::json_rpc::RequestId;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use serde_json::{json, Value};
use std::collections::BTreeMap;

const FOLDERS: [&str; 7] = ["file:///w", "file:///my%2Dfiles", "file:///w2/", "file:///x%20y", "file:///w/sub", "file:///", "file:///home/u/p4-%C3%A9/"];
const NAMES: [&str; 7] = ["a.p4", "b.p4", "d/c.p4", "%C3%A9%20x.p4", "core.p4", "d/e/f.p4", "B.P4"];

struct World {
	folders: Vec<String>,
	listings: BTreeMap<String, Vec<String>>,
	disk: BTreeMap<String, String>,
}

/// Folders with files; every file has contents of its own.
fn world(s: &mut Src) -> World {
	let n = s.usize(4);
	let mut folders: Vec<String> = vec![];
	for _ in 0..n {
		let f = s.pick(&FOLDERS).to_string();
		if !folders.contains(&f) {
			folders.push(f);
		}
	}
	let mut listings = BTreeMap::new();
	let mut disk = BTreeMap::new();
	for f in &folders {
		let mut l: Vec<String> = vec![];
		// the client may know the folder by another name than the one it gives to its files
		let base = match s.weighted(&[10, 1, 1]) {
			0 => f.clone(),
			1 => f.replace("%2D", "-").replace("/w", "/%77"),
			_ => format!("file:///mnt{}", f.replace("file://", "")),
		};
		let mut names: Vec<String> = NAMES.iter().take(s.usize(8)).map(|n| n.to_string()).collect();
		if s.chance(1, 40) {
			names.extend((0..1 << s.usize(8)).map(|i| format!("many/{i}.p4")));
		}
		for name in names {
			let u = format!("{base}{}{name}", if base.ends_with('/') { "" } else { "/" });
			if !l.contains(&u) {
				if s.chance(7, 8) && !disk.contains_key(&u) {
					disk.insert(u.clone(), format!("file_{}", disk.len()));
				}
				l.push(u);
			}
		}
		listings.insert(f.clone(), l);
	}
	World { folders, listings, disk }
}

impl World {
	fn put(&self, fs: &Fs) {
		let mut f = fs.0.lock().unwrap();
		f.listings = self.listings.clone();
		f.files = self.disk.clone();
	}

	fn files(&self) -> Vec<String> {
		let mut v: Vec<String> = self.listings.values().flatten().cloned().collect();
		v.sort();
		v.dedup();
		v
	}
}

fn requests<'a>(se: &'a Session, method: &'a str) -> Vec<&'a Value> {
	se.out
		.iter()
		.filter_map(|m| match m {
			Message::Request(r) if r.method == method => Some(&r.params),
			_ => None,
		})
		.collect()
}

fn progress(se: &Session) -> Vec<&Value> {
	se.out
		.iter()
		.filter_map(|m| match m {
			Message::Notification(r) if r.method == "$/progress" => Some(&r.params),
			_ => None,
		})
		.collect()
}

/// Folders asked for, by either way, with the pattern.
fn enumerated(se: &Session) -> Vec<(String, String)> {
	let mut v: Vec<(String, String)> =
		se.fs.calls().into_iter().filter_map(|c| if let Call::Enumerate(u, p) = c { Some((u, p)) } else { None }).collect();
	for p in requests(se, "p4analyzer/enumerateFolder") {
		v.push((p["uri"].as_str().unwrap_or("?").into(), p["filePattern"].as_str().unwrap_or("?").into()));
	}
	v
}

fn loaded(se: &Session) -> Vec<String> {
	let mut v: Vec<String> = se.fs.calls().into_iter().filter_map(|c| if let Call::Contents(u) = c { Some(u) } else { None }).collect();
	v.extend(requests(se, "p4analyzer/fileContents").iter().map(|p| p["uri"].as_str().unwrap_or("?").to_string()));
	v
}

const GLOB: &str = "**/*.p4";

fn index(s: &mut Src, c: &mut Ctx) -> Res {
	let own = s.bool();
	let workspace = s.chance(5, 6);
	let supported = s.bool();
	let refuse = s.chance(1, 8);
	let w = world(s);
	let mut se = Session::new(own, None);
	w.put(&se.fs);
	se.fs.0.lock().unwrap().hold = true;
	let folders = workspace.then(|| w.folders.iter().map(|f| (f.clone(), format!("name of {f}"))).collect::<Vec<_>>());
	c.show(format!("own fs {own}, folders {folders:?}, files {:?}, progress {supported}", w.listings));
	se.request(0, "initialize", init_params(folders, true, supported, None));
	se.run();
	ensure!(se.open.is_empty() && se.fs.calls().is_empty(), "work before initialized", "{:?} {:?}", se.open, se.fs.calls());
	se.notify("initialized", json!({}));
	se.run();
	if !workspace {
		c.label("no workspace");
		se.settle();
		ensure!(se.open.is_empty() && se.fs.calls().is_empty() && progress(&se).is_empty() && se.out.len() == 1, "work without a workspace", "{:?} {:?}", se.out, se.fs.calls());
		return Ok(());
	}
	// the registration comes first, and alone
	ensure!(se.open.len() == 1 && se.open[0].1 == "client/registerCapability", "registration", "the first thing asked for: {:?}", se.open);
	ensure!(se.fs.calls().is_empty() && progress(&se).is_empty(), "work before the registration", "{:?}", se.fs.calls());
	let regs = se.open[0].2["registrations"].as_array().cloned().unwrap_or_default();
	ensure!(regs.len() == 1 && regs[0]["method"] == "workspace/didChangeWatchedFiles", "registration", "{regs:?}");
	let watchers = regs[0]["registerOptions"]["watchers"].as_array().cloned().unwrap_or_default();
	ensure!(watchers.len() == 1 && watchers[0]["globPattern"] == GLOB, "watcher", "{watchers:?}");
	let kind = watchers[0]["kind"].as_u64().unwrap_or(7);
	ensure!(kind == 7, "watcher", "kind {kind} is not create, change and delete");
	se.answer(0);
	let mut token = Value::Null;
	let mut refused = false;
	// everything else happens in whatever order
	let mut released_folders = 0;
	loop {
		se.run();
		let p = progress(&se);
		let ends = p.iter().filter(|p| p["value"]["kind"] == "end").count();
		ensure!(ends == 0 || released_folders == w.folders.len(), "end too early", "progress ended after {released_folders} folders");
		let calls = se.fs.waiting();
		let n = calls.len() + se.open.len();
		if n == 0 {
			break;
		}
		let k = s.usize(n);
		if k < calls.len() {
			released_folders += matches!(se.fs.call_at(calls[k]), Call::Enumerate(..)) as usize;
			se.fs.release(calls[k]);
			continue;
		}
		let i = k - calls.len();
		let (id, m, params) = se.open[i].clone();
		match m.as_str() {
			"window/workDoneProgress/create" => {
				ensure!(supported && token.is_null(), "progress", "unexpected {params}");
				ensure!(p.is_empty(), "progress before its token is announced", "{p:?}");
				token = params["token"].clone();
				ensure!(!token.is_null(), "progress", "no token in {params}");
				if refuse {
					refused = true;
					se.open.remove(i);
					se.respond(id, None, Some("no progress please"));
					continue;
				}
			}
			"p4analyzer/enumerateFolder" => released_folders += 1,
			"p4analyzer/fileContents" => (),
			_ => return Err(Fail::new("unexpected request", format!("{m} {params}"))),
		}
		se.answer(i);
	}
	// complete?
	let mut asked = enumerated(&se);
	let mut want: Vec<(String, String)> = w.folders.iter().map(|f| (f.clone(), GLOB.to_string())).collect();
	asked.sort();
	want.sort();
	ensure!(asked == want, "folders", "enumerated {asked:?}, the folders are {want:?}");
	ensure!(requests(&se, "client/registerCapability").len() == 1, "registration", "more than one");
	let loads = loaded(&se);
	for f in w.files() {
		ensure!(loads.contains(&f), "not loaded", "{f} is listed, loaded are {loads:?}");
	}
	let p = progress(&se);
	if supported && !refused {
		ensure!(!token.is_null(), "progress", "none was announced");
		ensure!(p.iter().all(|p| p["token"] == token), "token", "{p:?}, announced was {token}");
		let kinds: Vec<&str> = p.iter().map(|p| p["value"]["kind"].as_str().unwrap_or("?")).collect();
		let mut want = vec!["begin"];
		want.extend(vec!["report"; w.folders.len()]);
		want.push("end");
		ensure!(kinds == want, "progress", "{kinds:?} for {} folders", w.folders.len());
		c.label("progress");
	} else {
		ensure!(p.is_empty(), "progress", "the client did not agree to {p:?}");
		c.label_if(refused, "progress refused");
	}
	c.label_if(w.folders.len() > 1, "several folders");
	c.nontrivial(!w.files().is_empty());
	for (i, f) in w.files().iter().enumerate() {
		let id = 10 + i as i32;
		se.request(id, "textDocument/completion", at(f, 0, 0));
		se.settle();
		let got = answer(&se, id)?;
		match w.disk.get(f) {
			Some(t) => ensure!(got == Some(vec![t.clone()]), "not queryable", "{f} has {t:?} on disk, completions are {got:?}"),
			None => ensure!(got.as_ref().map_or(true, |l| l.is_empty()), "absent file", "{f}: {got:?}"),
		}
	}
	Ok(())
}

pub fn c10() -> Property {
	Property {
		id: "C10",
		targets: vec![Target { name: "workspaces", quick: 200_000, thorough: 6_000_000, rule: "some folder has P4 files", run: index }],
		pinned: vec![],
		assumptions: vec!["the client accepts the registration of the watcher; it may refuse to show progress", "folder URIs are pairwise different"],
	}
}

fn unknown_id(s: &mut Src, used: &[RequestId]) -> RequestId {
	loop {
		let id = match s.usize(4) {
			0 => RequestId::from(-1 - s.below(3) as i32),
			1 => RequestId::from(1000 + s.below(100) as i32),
			2 => match s.pick(used) {
				// the same digits as a string are another id
				id => RequestId::from(id.to_string().trim_matches('"').to_string()),
			},
			_ => rpc::id(s).0,
		};
		if !used.contains(&id) {
			return id;
		}
	}
}

fn ids(s: &mut Src, c: &mut Ctx) -> Res {
	let w = world(s);
	let mut se = Session::new(false, None);
	w.put(&se.fs);
	let folders = s.chance(5, 6).then(|| w.folders.iter().map(|f| (f.clone(), "n".to_string())).collect::<Vec<_>>());
	let workspace = folders.is_some();
	let mut log = vec![format!("folders {folders:?}, files {:?}", w.listings)];
	se.request(0, "initialize", init_params(folders, true, s.bool(), None));
	se.notify("initialized", json!({}));
	se.run();
	let mut used: Vec<RequestId> = vec![];
	let mut done: Vec<RequestId> = vec![];
	let mut next = 1;
	let mut asked: Vec<(i32, String)> = vec![];
	let mut outcome: BTreeMap<String, Option<String>> = BTreeMap::new(); // how the latest load of a document was answered
	let mut ambiguous: Vec<String> = vec![];
	let (mut disorder, mut strange) = (0, 0);
	let mut steps = 0;
	loop {
		se.run();
		for m in &se.out {
			if let Message::Request(r) = m {
				if !used.contains(&r.id) {
					used.push(r.id.clone());
				}
			}
		}
		let all = se.out.iter().filter(|m| matches!(m, Message::Request(_))).count();
		c.show(log.join("\n"));
		ensure!(all == used.len(), "id used twice", "{:?}", se.out.iter().filter(|m| matches!(m, Message::Request(_))).collect::<Vec<_>>());
		steps += 1;
		if se.open.is_empty() && (steps > 12 || s.chance(1, 3)) {
			break;
		}
		match s.weighted(&[6, 2, if steps > 40 { 0 } else { 3 }]) {
			0 if !se.open.is_empty() => {
				let i = s.usize(se.open.len());
				disorder += (i > 0) as u32;
				let (id, m, p) = se.open[i].clone();
				let uri = p["uri"].as_str().unwrap_or("").to_string();
				let how = if m == "client/registerCapability" || m == "p4analyzer/enumerateFolder" { 0 } else { s.weighted(&[6, 1, 1]) };
				let contents = m == "p4analyzer/fileContents";
				let content = match how {
					0 => {
						log.push(format!("answer {id} {m} {uri}"));
						se.answer(i);
						w.disk.get(&uri).cloned()
					}
					1 => {
						log.push(format!("error for {id} {m} {uri}"));
						se.open.remove(i);
						se.respond(id.clone(), None, Some("failed"));
						None
					}
					_ if contents => {
						let v = s.pick(&[json!(1), json!({}), json!([]), json!(null), json!(true)]).clone();
						log.push(format!("{id} {m} {uri} is answered by {v}"));
						se.open.remove(i);
						se.respond(id.clone(), Some(v), None);
						None
					}
					_ => {
						se.answer(i);
						None
					}
				};
				if contents {
					let content = Some(content);
					if outcome.get(&uri).map_or(false, |o| Some(o) != content.as_ref()) {
						ambiguous.push(uri.clone());
					}
					outcome.insert(uri, content.unwrap());
				}
				done.push(id);
			}
			1 if !used.is_empty() => {
				// nobody waits for this (any more)
				let id = if s.bool() && !done.is_empty() { s.pick(&done).clone() } else { unknown_id(s, &used) };
				let v = s.pick(&[json!("stray_text"), json!([{"uri": "file:///w/stray.p4"}]), Value::Null]).clone();
				log.push(format!("stray {id} {v}"));
				let error = s.chance(1, 4);
				if error {
					se.respond(id, None, Some("stray"));
				} else {
					se.send(Message::Response(Response { id, result: Some(v), error: None }));
				}
				strange += 1;
			}
			2 => {
				// another document becomes known
				let all = w.files();
				let u = if all.is_empty() || s.chance(1, 4) { format!("file:///new/{}.p4", s.below(5)) } else { s.pick(&all).clone() };
				log.push(format!("complete {u}"));
				se.request(next, "textDocument/completion", at(&u, 0, 0));
				asked.push((next, u));
				next += 1;
			}
			_ => (),
		}
	}
	// once all is answered, nothing is left hanging
	let first = next;
	let docs = w.files();
	for u in &docs {
		se.request(next, "textDocument/completion", at(u, 0, 0));
		asked.push((next, u.clone()));
		next += 1;
	}
	for _ in 0..1000 {
		se.run();
		if se.open.is_empty() {
			break;
		}
		let uri = se.open[0].2["uri"].as_str().unwrap_or("").to_string();
		let now = w.disk.get(&uri).cloned();
		if outcome.get(&uri).map_or(false, |o| *o != now) {
			ambiguous.push(uri.clone());
		}
		outcome.insert(uri, now);
		se.answer(0);
	}
	ensure!(!se.host.done(), "server ended", "");
	c.show(log.join("\n"));
	c.label_if(disorder > 0, "answers out of order");
	c.label_if(strange > 0, "stray answers");
	c.label_if(workspace, "workspace");
	c.nontrivial(disorder > 0 && outcome.len() > 1);
	for (id, u) in &asked {
		let got = answer(&se, *id)?;
		if let Some(l) = &got {
			// nobody sees another one's contents
			ensure!(l.is_empty() || w.disk.get(u).map_or(false, |t| l == &vec![t.clone()]), "foreign answer", "{u}: {got:?}");
		}
		if *id >= first && !ambiguous.contains(u) {
			match outcome.get(u) {
				Some(Some(t)) => ensure!(got == Some(vec![t.clone()]), "lost answer", "{u} was answered with {t:?}, completions are {got:?}"),
				Some(None) => ensure!(got.as_ref().map_or(true, |l| l.is_empty()), "failed load", "{u}: {got:?}"),
				None => return Err(Fail::new("no load", format!("{u} was never asked for: {got:?}"))),
			}
		}
	}
	Ok(())
}

/// Sessions in which the server sends hundreds of requests, many of which wait at the same time.
fn many(s: &mut Src, c: &mut Ctx) -> Res {
	let mut se = Session::new(false, None);
	let n = 1 + s.usize(20);
	let uris: Vec<String> = (0..n).map(|i| format!("file:///w/f{i}.p4")).collect();
	for u in &uris {
		se.fs.put(u, "start");
	}
	se.fs.0.lock().unwrap().listings.insert("file:///w".into(), uris.clone());
	se.request(0, "initialize", init_params(Some(vec![("file:///w".into(), "w".into())]), true, s.bool(), None));
	se.notify("initialized", json!({}));
	se.run();
	let rounds = 1 + s.usize(60);
	let kept = s.chance(2, 3); // every so often the requests are left for later
	let mut version = 0;
	let mut most = 0;
	for _ in 0..rounds {
		let k = 1 + s.usize(30);
		version += 1;
		let mut changes = vec![];
		for _ in 0..k {
			let u = s.pick(&uris).clone();
			se.fs.put(&u, &format!("{} v{version}", u.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
			changes.push(json!({"uri": u, "type": 2}));
		}
		se.notify("workspace/didChangeWatchedFiles", json!({ "changes": changes }));
		se.run();
		most = most.max(se.open.len());
		if !kept || s.chance(1, 8) {
			while !se.open.is_empty() {
				let i = if s.bool() { 0 } else { s.usize(se.open.len()) };
				se.answer(i);
			}
			se.run();
		}
	}
	se.settle();
	ensure!(!se.host.done(), "server ended", "");
	let mut seen = std::collections::HashSet::new();
	for m in &se.out {
		if let Message::Request(r) = m {
			ensure!(seen.insert(r.id.clone()), "id used twice", "{} after {} requests", r.id, seen.len());
		}
	}
	for (i, u) in uris.iter().enumerate() {
		se.request(1 + i as i32, "textDocument/completion", at(u, 0, 0));
	}
	se.settle();
	for (i, u) in uris.iter().enumerate() {
		let want = se.fs.get(u).map(|t| identifiers(&t)).unwrap();
		let got = answer(&se, 1 + i as i32)?;
		ensure!(got.as_ref() == Some(&want), "lost answer", "{u}: {got:?} instead of {want:?}");
	}
	c.show(format!("{n} files, {rounds} rounds, {} requests, up to {most} at once", seen.len()));
	c.label_if(seen.len() > 256, "more than 256 requests");
	c.label_if(most > 64, "more than 64 at once");
	c.nontrivial(seen.len() > 100);
	Ok(())
}

pub fn c07() -> Property {
	Property {
		id: "C07",
		targets: vec![
			Target { name: "server requests", quick: 160_000, thorough: 5_000_000, rule: "answers come out of order, for two or more documents", run: ids },
			Target { name: "hundreds of requests", quick: 1_500, thorough: 60_000, rule: "the server sends more than 100 requests", run: many },
		],
		pinned: vec![],
		assumptions: vec!["the registration of the watcher and the enumerations are answered properly, everything else also with errors and results of a wrong type"],
	}
}
