use crate::{cov, engine::*, hash, shrink, src::Rng, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{Read, Write};
use std::os::unix::{fs::FileExt, process::ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;
/// CPU seconds after which a single case counts as not terminating (cases take milliseconds).
const HANG_CPU_S: f64 = 30.0;
/// Wall-clock seconds in which a case neither ends nor uses the processor (less than `IDLE_CPU_S`): it is blocked.
/// It is run again on its own, and counts only when it blocks there as well, twice.
const BLOCKED_S: u64 = 20;
const IDLE_CPU_S: f64 = 0.5;
/// Wall-clock seconds after which a case that is neither hanging nor blocked by these rules gives no verdict.
const STUCK_S: u64 = 200;
const BLOCKED: &str = "does not terminate (blocked)";
const HANGING: &str = "does not terminate";

struct Env {
	root: PathBuf,
	seed: u64,
	thorough: bool,
}

fn env() -> Env {
	let var = |n: &str| std::env::var(n).unwrap_or_default();
	let root = if var("VERIF_ROOT").is_empty() { PathBuf::from("/verif") } else { PathBuf::from(var("VERIF_ROOT")) };
	Env { root, seed: var("VERIF_SEED").parse().unwrap_or(1), thorough: var("VERIF_TIER") == "thorough" }
}

fn known(env: &Env, id: &str) -> Vec<Value> {
	let text = std::fs::read_to_string(env.root.join("known-findings.json")).unwrap_or_else(|_| "[]".into());
	let all: Vec<Value> = serde_json::from_str(&text).expect("known-findings.json");
	all.into_iter().filter(|k| k["property"] == id && k["status"] == "known").collect()
}

pub fn main(props: Vec<Property>) {
	let args: Vec<String> = std::env::args().collect();
	let id = args.get(1).cloned().unwrap_or_default();
	let prop = match props.into_iter().find(|p| p.id == id) {
		Some(p) => p,
		None => {
			eprintln!("usage: {} PROPERTY [--replay FILE]", args[0]);
			exit(2)
		}
	};
	let env = env();
	match args.get(2).map(|s| s.as_str()) {
		Some("--worker") => worker(&prop, &env, args[3].parse().unwrap(), Path::new(&args[4])),
		Some("--tape") => {
			// run one tape in this process: target, file with the tape
			install_panic_hook();
			let t = prop.targets.iter().find(|t| t.name == args[3]).expect("target");
			let tape = read_tape(&args[4]);
			let case = isolated(t.run, Src::replay(&tape));
			println!("{}", json!({"fail": case.result.err().map(|f| json!({"sig": f.sig, "msg": f.msg})), "repr": case.ctx.repr, "tape": case.tape}));
		}
		Some("--pinned") => {
			install_panic_hook();
			let p = prop.pinned.iter().find(|p| p.name == args[3]).expect("pinned case");
			let run = p.run;
			let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || run_pinned(run)).unwrap().join().unwrap();
			println!("{}", json!({"fail": r.err().map(|f| json!({"sig": f.sig, "msg": f.msg}))}));
			exit(0)
		}
		Some("--log") => {
			// run prefix + seed in this process, logging the tape
			install_panic_hook();
			let t = prop.targets.iter().find(|t| t.name == args[3]).expect("target");
			let (prefix, seed) = read_current(&args[4]);
			isolated(t.run, Src::resume(&prefix, seed).log_to(&args[5]));
		}
		Some("--replay") => replay(&prop, &args[3]),
		_ => supervise(&prop, &env),
	}
}

/// Runs a case in a thread of its own, so that thread-local state of the code under test starts afresh, with hash
/// seeds that are part of the tape.
fn isolated(run: fn(&mut Src, &mut Ctx) -> Res, mut src: Src) -> Case {
	let h = src.below(64);
	cov::set_hash_seed(h);
	std::thread::Builder::new()
		.stack_size(8 << 20) // what a main thread has
		.spawn(move || run_case(run, src))
		.unwrap()
		.join()
		.unwrap()
}

fn read_tape(path: &str) -> Vec<u64> {
	std::fs::read_to_string(path).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect()
}

fn read_current(path: &str) -> (Vec<u64>, u64) {
	let mut v = read_tape(path);
	let seed = v.remove(0);
	let n = v.remove(0) as usize;
	v.truncate(n);
	(v, seed)
}

fn replay(prop: &Property, file: &str) {
	install_panic_hook();
	let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
	let show = |r: &Res| match r {
		Ok(()) => println!("passes"),
		Err(f) => {
			println!("FAILS [{}]\n{}", f.sig, f.msg);
			exit(1)
		}
	};
	if let Some(p) = v["pinned"].as_str() {
		let p = prop.pinned.iter().find(|x| x.name == p).expect("pinned case");
		return show(&run_pinned(p.run));
	}
	let t = prop.targets.iter().find(|t| t.name == v["target"]).expect("target");
	let tape: Vec<u64> = v["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
	let case = isolated(t.run, Src::replay(&tape));
	println!("{}", case.ctx.repr);
	show(&case.result)
}

fn mutate(rng: &mut Rng, corpus: &[Vec<u64>]) -> Vec<u64> {
	let pick = |rng: &mut Rng, n: usize| (rng.next() % n.max(1) as u64) as usize;
	let mut t = corpus[pick(rng, corpus.len())].clone();
	for _ in 0..1 + rng.next() % 3 {
		if t.len() < 2 {
			break;
		}
		let i = 1 + pick(rng, t.len() - 1);
		match rng.next() % 7 {
			0 => t.truncate(i), // keep the start, continue at random
			1 => t[i] = rng.next() % 4,
			2 => t[i] = t[i].wrapping_add(rng.next() % 5).wrapping_sub(2) & 0xffff_ffff,
			3 => {
				let n = 1 + pick(rng, 8);
				t.drain(i..(i + n).min(t.len()));
			}
			4 => {
				let n = (1 + pick(rng, 12)).min(t.len() - i);
				let part: Vec<u64> = t[i..i + n].to_vec();
				let at = 1 + pick(rng, t.len() - 1);
				t.splice(at..at, part);
			}
			5 => {
				let other = &corpus[pick(rng, corpus.len())];
				let j = pick(rng, other.len());
				t.truncate(i);
				t.extend_from_slice(&other[j..]);
			}
			_ => t[i] = rng.next() >> (rng.next() % 63),
		}
	}
	t
}

fn worker(prop: &Property, env: &Env, shard: u64, dir: &Path) {
	install_panic_hook();
	let known: Vec<String> = known(env, prop.id).iter().filter_map(|k| k["sig"].as_str().map(|s| s.to_string())).collect();
	let state = std::fs::File::create(dir.join(format!("state{shard}"))).unwrap();
	let current = std::fs::File::create(dir.join(format!("current{shard}"))).unwrap();
	let mut tick = 0u64;
	let started = Instant::now();
	let deadline = Duration::from_secs(if env.thorough { 6 * 3600 } else { 600 });
	let mut out = vec![];
	for (ti, t) in prop.targets.iter().enumerate() {
		let total = if env.thorough { t.thorough } else { t.quick };
		let mut stats = Stats::default();
		let mut hashes: HashSet<u64> = HashSet::new();
		let mut samples = vec![];
		let mut fails: Vec<Value> = vec![];
		let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
		let mut sigs = BTreeSet::new();
		let mut truncated = false;
		let mut cover = cov::Map::default();
		let mut corpus: Vec<Vec<u64>> = vec![];
		let guided = cov::Map::available();
		let mut guided_cases = 0u64;
		let mut i = shard;
		while i < total {
			if started.elapsed() > deadline {
				truncated = true;
				break;
			}
			let seed = hash(format!("{}/{}/{}/{}", env.seed, prop.id, t.name, i).as_bytes());
			let mut rng = Rng::new(seed ^ 0xabcdef);
			// with coverage feedback, half of the cases are mutations of cases that reached something new
			let prefix = if guided && corpus.len() > 8 && rng.next() % 2 == 0 {
				guided_cases += 1;
				mutate(&mut rng, &corpus)
			} else {
				vec![]
			};
			tick += 1;
			let mut cur = format!("{seed}\n{}\n", prefix.len());
			for v in &prefix {
				cur.push_str(&v.to_string());
				cur.push('\n');
			}
			let _ = current.write_all_at(cur.as_bytes(), 0);
			let _ = state.write_all_at(format!("{tick:>20} {ti:>20} {i:>20}").as_bytes(), 0);
			if guided {
				cov::Map::reset();
			}
			let case = isolated(t.run, Src::resume(&prefix, seed));
			if guided && cover.novel() && corpus.len() < 4000 {
				corpus.push(case.tape.clone());
			}
			stats.evaluations += 1;
			for l in &case.ctx.labels {
				*stats.labels.entry(l.clone()).or_default() += 1;
			}
			for l in &case.ctx.excluded {
				*stats.excluded.entry(l.to_string()).or_default() += 1;
			}
			if case.ctx.nontrivial {
				stats.nontrivial += 1;
				let bytes: Vec<u8> = case.tape[1..].iter().flat_map(|v| v.to_le_bytes()).collect();
				hashes.insert(hash(&bytes));
				if samples.len() < 2 && stats.nontrivial % 7 == 3 && !case.ctx.repr.is_empty() {
					samples.push(case.ctx.repr.chars().take(1500).collect::<String>());
				}
			}
			if let Err(f) = case.result {
				if known.contains(&f.sig) {
					*known_hits.entry(f.sig).or_default() += 1;
				} else if sigs.insert(f.sig.clone()) {
					let mut best = f.clone();
					let mut repr = case.ctx.repr.clone();
					let until = Instant::now() + Duration::from_secs(60);
					let tape = shrink::shrink(&case.tape, 4000, |cand| {
						if Instant::now() > until {
							return None;
						}
						tick += 1;
						let _ = state.write_all_at(format!("{tick:>20} {ti:>20} {i:>20}").as_bytes(), 0);
						let mut cur = format!("0\n{}\n", cand.len());
						for v in cand {
							cur.push_str(&v.to_string());
							cur.push('\n');
						}
						let _ = current.write_all_at(cur.as_bytes(), 0);
						let c = isolated(t.run, Src::replay(cand));
						match c.result {
							Err(g) if g.sig == f.sig => {
								best = g;
								repr = c.ctx.repr;
								Some(c.tape)
							}
							_ => None,
						}
					});
					// the shrinker keeps the shortest, `best` is the latest: run the result once more
					let c = isolated(t.run, Src::replay(&tape));
					let reproduced = match c.result {
						Err(g) if g.sig == f.sig => {
							best = g;
							repr = c.ctx.repr;
							true
						}
						_ => false,
					};
					fails.push(json!({"target": t.name, "index": i, "sig": best.sig, "msg": best.msg, "repr": repr,
						"tape": if reproduced { tape } else { case.tape }, "reproduced": reproduced,
						"original": case.ctx.repr.chars().take(4000).collect::<String>()}));
					if fails.len() >= 3 {
						break;
					}
				}
			}
			i += SHARDS;
		}
		let (hit, edges) = cover.edges();
		let hb: Vec<u8> = hashes.iter().flat_map(|h| h.to_le_bytes()).collect();
		std::fs::write(dir.join(format!("hashes{ti}.{shard}")), hb).unwrap();
		out.push(json!({"target": t.name, "evaluations": stats.evaluations, "nontrivial": stats.nontrivial, "labels": stats.labels,
			"excluded": stats.excluded, "samples": samples, "fails": fails, "known": known_hits, "truncated": truncated,
			"guided_cases": guided_cases, "corpus": corpus.len(), "edges_hit": hit, "edges": edges}));
		if !fails.is_empty() && !env.thorough {
			break;
		}
	}
	std::fs::write(dir.join(format!("result{shard}")), serde_json::to_vec(&out).unwrap()).unwrap();
	exit(0); // without waiting for leaked threads
}

fn spawn(args: &[&str], env: &Env, cpu_limit: Option<u64>) -> Child {
	let exe = std::env::current_exe().unwrap();
	let mut cmd = Command::new("/bin/sh");
	let limit = cpu_limit.map(|s| format!("ulimit -t {s}; ")).unwrap_or_default();
	// 6 GB of address space per process: running out of memory is an abort of the worker, not of the machine
	cmd.arg("-c").arg(format!("ulimit -c 0; ulimit -v 6291456; {limit}exec \"$0\" \"$@\"")).arg(exe).args(args);
	cmd.env("VERIF_ROOT", &env.root).stdin(Stdio::null()).stderr(Stdio::null()).stdout(Stdio::piped());
	cmd.spawn().unwrap()
}

fn cpu_seconds(pid: u32) -> f64 {
	let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
	let rest: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
	let t = |i: usize| rest.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
	(t(11) + t(12)) / 100.0
}

fn read_state(dir: &Path, shard: u64) -> Option<(u64, usize, u64)> {
	let s = std::fs::read_to_string(dir.join(format!("state{shard}"))).ok()?;
	let v: Vec<u64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
	(v.len() == 3).then(|| (v[0], v[1] as usize, v[2]))
}

/// Waits for a child that runs one case: what it printed, or how it failed to.
fn finish_child(mut c: Child) -> Result<String, String> {
	let mut out = c.stdout.take().unwrap();
	let reader = std::thread::spawn(move || {
		let mut s = vec![];
		out.read_to_end(&mut s).ok();
		String::from_utf8_lossy(&s).into_owned()
	});
	let (mut since, mut at) = (Instant::now(), 0.0);
	let started = Instant::now();
	loop {
		if let Some(st) = c.try_wait().unwrap() {
			return match st.signal() {
				Some(24) | Some(9) => Err(HANGING.into()),
				Some(n) => Err(format!("process killed by signal {n}")),
				None => Ok(reader.join().unwrap()),
			};
		}
		let cpu = cpu_seconds(c.id());
		if cpu - at > IDLE_CPU_S {
			since = Instant::now();
			at = cpu;
		}
		let blocked = since.elapsed() > Duration::from_secs(BLOCKED_S);
		if blocked || started.elapsed() > Duration::from_secs(STUCK_S) {
			let _ = c.kill();
			let _ = c.wait();
			return Err(if blocked { BLOCKED.into() } else { "no verdict".into() });
		}
		std::thread::sleep(Duration::from_millis(5));
	}
}

fn pinned_in_child(prop: &Property, env: &Env, name: &str) -> Option<Fail> {
	let c = spawn(&[prop.id, "--pinned", name], env, Some(HANG_CPU_S as u64));
	let s = match finish_child(c) {
		Ok(s) => s,
		Err(how) => return Some(Fail::new(how.clone(), how)),
	};
	// code under test may print: the last line is ours
	let v: Value = serde_json::from_str(s.trim_end().lines().last().unwrap_or("")).unwrap_or(Value::Null);
	let text = |k: &str| v["fail"][k].as_str().map(|s| s.to_string());
	Some(Fail::new(text("sig")?, text("msg")?))
}

/// Runs a tape in a child; Ok(signature) of the failure, if any.
fn run_tape(prop: &Property, env: &Env, target: &str, tape: &[u64], dir: &Path) -> Option<String> {
	let file = dir.join("probe.tape");
	std::fs::write(&file, tape.iter().map(|v| format!("{v}\n")).collect::<String>()).unwrap();
	let c = spawn(&[prop.id, "--tape", target, file.to_str().unwrap()], env, Some(HANG_CPU_S as u64));
	let s = match finish_child(c) {
		Ok(s) => s,
		Err(how) => return Some(how),
	};
	let v: Value = serde_json::from_str(s.trim_end().lines().last().unwrap_or("")).unwrap_or(Value::Null);
	v["fail"]["sig"].as_str().map(|s| s.to_string())
}

fn supervise(prop: &Property, env: &Env) {
	let started = Instant::now();
	let tmp = std::env::temp_dir().join(format!("pbt-{}-{}", prop.id, std::process::id()));
	std::fs::create_dir_all(&tmp).unwrap();
	let finish = |code: i32| -> ! {
		let _ = std::fs::remove_dir_all(&tmp);
		exit(code)
	};
	let replays = env.root.join("replays");
	let _ = std::fs::create_dir_all(&replays);
	let known = known(env, prop.id);
	let known_sigs: Vec<&str> = known.iter().filter_map(|k| k["sig"].as_str()).collect();
	let mut violations: Vec<Value> = vec![];
	let mut known_seen: BTreeMap<String, u64> = BTreeMap::new();
	let mut inconclusive: Vec<String> = vec![];

	// 1. pinned cases, each in a process of its own
	let mut pinned_evals = 0u64;
	for p in &prop.pinned {
		pinned_evals += 1;
		if let Some(f) = pinned_in_child(prop, env, p.name) {
			if known_sigs.contains(&f.sig.as_str()) {
				*known_seen.entry(f.sig).or_default() += 1;
			} else if f.sig == "no verdict" {
				inconclusive.push(format!("pinned case {}: no verdict", p.name));
			} else {
				violations.push(json!({"property": prop.id, "pinned": p.name, "sig": f.sig, "msg": f.msg}));
			}
		}
	}

	// 2. generated cases, in workers
	let mut children: Vec<(u64, Child, (u64, Instant, f64))> = (0..SHARDS)
		.map(|s| (s, spawn(&[prop.id, "--worker", &s.to_string(), tmp.to_str().unwrap()], env, None), (0, Instant::now(), 0.0)))
		.collect();
	while !children.is_empty() {
		std::thread::sleep(Duration::from_millis(50));
		let mut still = vec![];
		for (shard, mut child, mut seen) in children {
			if violations.iter().any(|v| v["sig"].as_str().unwrap_or("").starts_with(HANGING)) {
				// enough: do not wait for the other shards to hang too
				let _ = child.kill();
				let _ = child.wait();
				continue;
			}
			let bad = match child.try_wait().unwrap() {
				Some(st) if st.success() => continue,
				Some(st) => Some(match st.signal() {
					Some(n) => format!("process killed by signal {n}"),
					None => format!("worker exit code {:?}", st.code()),
				}),
				None => {
					let (tick, _, _) = read_state(&tmp, shard).unwrap_or((0, 0, 0));
					let cpu = cpu_seconds(child.id());
					if tick != seen.0 {
						seen = (tick, Instant::now(), cpu);
						None
					} else if cpu - seen.2 > HANG_CPU_S {
						let _ = child.kill();
						let _ = child.wait();
						Some(HANGING.to_string())
					} else if seen.1.elapsed() > Duration::from_secs(BLOCKED_S) && cpu - seen.2 < IDLE_CPU_S {
						let _ = child.kill();
						let _ = child.wait();
						Some(BLOCKED.to_string())
					} else if seen.1.elapsed() > Duration::from_secs(STUCK_S) {
						let _ = child.kill();
						let _ = child.wait();
						inconclusive.push(format!("shard {shard}: a case made no progress for {STUCK_S} s"));
						continue;
					} else {
						None
					}
				}
			};
			let how = match bad {
				None => {
					still.push((shard, child, seen));
					continue;
				}
				Some(how) => how,
			};
			// reproduce the case in a process of its own
			let (_, ti, index) = match read_state(&tmp, shard) {
				Some(s) => s,
				None => {
					inconclusive.push(format!("shard {shard}: {how} before its first case"));
					continue;
				}
			};
			let t = &prop.targets[ti];
			let log = tmp.join(format!("log{shard}"));
			let cur = tmp.join(format!("current{shard}"));
			let c = spawn(
				&[prop.id, "--log", t.name, cur.to_str().unwrap(), log.to_str().unwrap()],
				env,
				Some(HANG_CPU_S as u64),
			);
			let _ = finish_child(c);
			let mut tape = read_tape(log.to_str().unwrap());
			match run_tape(prop, env, t.name, &tape, &tmp) {
				Some(sig) if known_sigs.contains(&sig.as_str()) => {
					*known_seen.entry(sig).or_default() += 1;
				}
				Some(sig) if sig == "no verdict" => inconclusive.push(format!("shard {shard}: {how} in {} #{index}, no verdict alone", t.name)),
				Some(sig) => {
					let mut budget = if sig.starts_with(HANGING) { 4 } else { 400 };
					let until = Instant::now() + Duration::from_secs(90);
					tape = shrink::shrink(&tape, 400, |cand| {
						if budget == 0 || Instant::now() > until {
							return None;
						}
						budget -= 1;
						(run_tape(prop, env, t.name, cand, &tmp).as_deref() == Some(&sig)).then(|| cand.to_vec())
					});
					violations.push(json!({"property": prop.id, "target": t.name, "index": index, "sig": sig, "msg": how, "tape": tape}));
				}
				None => inconclusive.push(format!("shard {shard}: {how} in {} #{index}, not reproduced", t.name)),
			}
		}
		children = still;
	}

	// 3. merge
	let mut per_target = vec![];
	let (mut evals, mut distinct) = (pinned_evals, 0u64);
	let mut all_samples = vec![];
	let mut truncated = false;
	let mut found: BTreeMap<(String, String), Value> = BTreeMap::new();
	for (ti, t) in prop.targets.iter().enumerate() {
		let mut hashes: HashSet<u64> = HashSet::new();
		let (mut e, mut nt, mut guided, mut corpus, mut edges) = (0, 0, 0, 0, (0, 0));
		let mut labels: BTreeMap<String, u64> = BTreeMap::new();
		let mut excluded: BTreeMap<String, u64> = BTreeMap::new();
		let mut samples = vec![];
		for shard in 0..SHARDS {
			if let Ok(b) = std::fs::read(tmp.join(format!("hashes{ti}.{shard}"))) {
				hashes.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
			}
			let text = match std::fs::read(tmp.join(format!("result{shard}"))) {
				Ok(t) => t,
				Err(_) => continue,
			};
			let r: Vec<Value> = serde_json::from_slice(&text).unwrap();
			let r = match r.get(ti) {
				Some(r) => r,
				None => continue,
			};
			e += r["evaluations"].as_u64().unwrap();
			nt += r["nontrivial"].as_u64().unwrap();
			guided += r["guided_cases"].as_u64().unwrap();
			corpus += r["corpus"].as_u64().unwrap();
			edges = (edges.0.max(r["edges_hit"].as_u64().unwrap()), r["edges"].as_u64().unwrap());
			truncated |= r["truncated"].as_bool().unwrap();
			for (k, v) in r["labels"].as_object().unwrap() {
				*labels.entry(k.clone()).or_default() += v.as_u64().unwrap();
			}
			for (k, v) in r["excluded"].as_object().unwrap() {
				*excluded.entry(k.clone()).or_default() += v.as_u64().unwrap();
			}
			for (k, v) in r["known"].as_object().unwrap() {
				*known_seen.entry(k.clone()).or_default() += v.as_u64().unwrap();
			}
			samples.extend(r["samples"].as_array().unwrap().iter().cloned());
			for f in r["fails"].as_array().unwrap() {
				let key = (t.name.to_string(), f["sig"].as_str().unwrap().to_string());
				let size = |v: &Value| (v["tape"].as_array().map_or(0, |a| a.len()), v["index"].as_u64());
				match found.get(&key) {
					Some(old) if size(old) <= size(f) => (),
					_ => {
						found.insert(key, f.clone());
					}
				}
			}
		}
		evals += e;
		distinct += hashes.len() as u64;
		samples.truncate(3);
		all_samples.extend(samples.iter().map(|s| json!({"target": t.name, "case": s})));
		let mut v = json!({"target": t.name, "rule": t.rule, "cases": e, "nontrivial": nt, "distinct_nontrivial": hashes.len(), "classes": labels});
		if !excluded.is_empty() {
			v["excluded_by_known_finding"] = json!(excluded);
		}
		if edges.1 > 0 {
			v["coverage_guided_cases"] = json!(guided);
			v["corpus"] = json!(corpus);
			v["edges_hit_best_shard"] = json!(edges.0);
			v["edges_instrumented"] = json!(edges.1);
		}
		per_target.push(v);
	}
	for ((_, _), mut f) in found {
		f["property"] = json!(prop.id);
		violations.push(f);
	}

	let rule = prop.targets.iter().map(|t| format!("{}: {}", t.name, t.rule)).collect::<Vec<_>>().join("; ");
	let mut coverage = json!({"evaluations": evals, "distinct_nontrivial": distinct, "rule": rule, "samples": all_samples,
		"targets": per_target, "pinned_cases": prop.pinned.iter().map(|p| p.name).collect::<Vec<_>>()});
	if truncated {
		coverage["truncated"] = json!("the time limit was reached before all planned cases had run");
	}
	if !known_seen.is_empty() {
		coverage["known_finding_hits"] = json!(known_seen);
	}
	let evidence = json!({"property": prop.id, "tier": if env.thorough { "thorough" } else { "quick" }, "seed": env.seed, "level": "exploration",
		"coverage": coverage, "assumptions": prop.assumptions, "wall_s": (started.elapsed().as_millis() as f64) / 1000.0, "violations": violations.len()});
	let _ = std::fs::create_dir_all(env.root.join("evidence"));
	std::fs::write(env.root.join(format!("evidence/{}.json", prop.id)), serde_json::to_string_pretty(&evidence).unwrap()).unwrap();

	for k in &known {
		println!("KNOWN-FINDING: property={} {}", prop.id, k["what"].as_str().unwrap_or(""));
	}
	println!("{}: {} cases, {} distinct non-trivial, {:.1} s", prop.id, evals, distinct, started.elapsed().as_secs_f64());
	if violations.is_empty() {
		if !inconclusive.is_empty() {
			println!("INCONCLUSIVE {}", inconclusive.join("; "));
			finish(3);
		}
		finish(0);
	}
	// one report per kind of failure: the smallest
	violations.sort_by_key(|v| (v["tape"].as_array().map_or(0, |a| a.len()), v["sig"].as_str().map(|s| s.to_string())));
	let mut seen = HashSet::new();
	violations.retain(|v| seen.insert((v["target"].clone().to_string(), v["sig"].to_string())));
	for (i, v) in violations.iter().enumerate() {
		let path = replays.join(format!("{}{}.json", prop.id, if i == 0 { String::new() } else { format!("-{i}") }));
		std::fs::write(&path, serde_json::to_string_pretty(v).unwrap()).unwrap();
		println!("VIOLATION property={} replay={}", prop.id, path.display());
		println!("  [{}] {}", v["sig"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or("").chars().take(1200).collect::<String>());
		if let Some(r) = v["repr"].as_str() {
			println!("  case: {}", r.chars().take(1500).collect::<String>());
		}
		let _ = std::io::stdout().flush();
	}
	finish(1)
}
