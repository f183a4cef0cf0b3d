//! C21 completion sources, under generated schedules of several threads.
use cancellation::CancellationTokenSource;
use pbt::{ensure, Ctx, Fail, Property, Res, Src, Target};
use sched_abstractions::futures_extensions::{async_extensions::AsyncPool, FutureCompletionSource, FutureCompletionSourceError};
use sched_std::sched::{block_on, park, point, poll_once, run, State};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::Poll;

type Source = FutureCompletionSource<u32, u32>;
type Value = Result<u32, u32>;
type Waiter = Pin<Box<dyn Future<Output = Value> + Send + Sync>>;

#[derive(Clone, Debug, PartialEq)]
enum Op {
	SetValue(u32),
	SetErr(u32),
	State,
	/// Wait to the end.
	Wait,
	/// Poll so often without waiting in between, and give up.
	Polls(usize),
	/// Wait until woken once, then give up.
	WaitOnce,
	/// Start waiting and keep the future for `Resume`.
	Start,
	Resume,
	/// Drop a kept future.
	Forget,
	Clone,
	/// Run this many tasks on a pool of this thread, each of which waits; wait for all.
	Pool(usize),
}

#[derive(Clone, Debug)]
enum Saw {
	Set(Value, bool),
	Outcome(Value),
	Pending,
	Nothing,
}

#[derive(Clone, Debug)]
struct Event {
	thread: usize,
	op: Op,
	start: usize,
	end: usize,
	saw: Saw,
}

#[derive(Default)]
struct History {
	clock: usize,
	events: Vec<Event>,
	/// Operations that have begun and not ended: thread, operation, start.
	open: Vec<(usize, Op, usize)>,
}

type Shared = Arc<Mutex<History>>;

fn waiter(s: &Source) -> Waiter {
	let s = s.clone();
	Box::pin(async move { s.future().await })
}

struct Thread {
	id: usize,
	source: Source,
	kept: Vec<Waiter>,
	fresh: bool,
	history: Shared,
}

impl Thread {
	fn op(&mut self, op: &Op, f: impl FnOnce(&mut Self) -> Saw) {
		let start = {
			let mut h = self.history.lock().unwrap();
			h.clock += 1;
			let at = h.clock;
			h.open.push((self.id, op.clone(), at));
			at
		};
		let saw = f(self);
		let mut h = self.history.lock().unwrap();
		h.clock += 1;
		let end = h.clock;
		let me = self.id;
		h.open.retain(|o| o.0 != me);
		h.events.push(Event { thread: me, op: op.clone(), start, end, saw });
	}

	fn run(&mut self, script: &[Op]) {
		let poll = |p: Poll<Value>| match p {
			Poll::Ready(v) => Saw::Outcome(v),
			Poll::Pending => Saw::Pending,
		};
		for op in script {
			self.op(op, |t| match op {
				Op::SetValue(v) | Op::SetErr(v) => {
					let ok = matches!(op, Op::SetValue(_));
					let r = if ok { t.source.set_value(*v) } else { t.source.set_err(*v) };
					Saw::Set(if ok { Ok(*v) } else { Err(*v) }, r != Err(FutureCompletionSourceError::Invalid))
				}
				Op::State => poll(t.source.state()),
				Op::Wait => Saw::Outcome(block_on(waiter(&t.source), t.fresh)),
				Op::Polls(n) => {
					let mut w = waiter(&t.source);
					for _ in 0..*n {
						if let Poll::Ready(v) = poll_once(w.as_mut(), t.fresh) {
							return Saw::Outcome(v);
						}
						point();
					}
					Saw::Pending
				}
				Op::WaitOnce => {
					let mut w = waiter(&t.source);
					if let Poll::Ready(v) = poll_once(w.as_mut(), t.fresh) {
						return Saw::Outcome(v);
					}
					park();
					Saw::Nothing
				}
				Op::Start => {
					let mut w = waiter(&t.source);
					match poll_once(w.as_mut(), t.fresh) {
						Poll::Ready(v) => Saw::Outcome(v),
						Poll::Pending => {
							t.kept.push(w);
							Saw::Pending
						}
					}
				}
				Op::Resume => match t.kept.pop() {
					Some(w) => Saw::Outcome(block_on(w, t.fresh)),
					None => Saw::Nothing,
				},
				Op::Forget => {
					t.kept.pop();
					Saw::Nothing
				}
				Op::Clone => {
					t.source = t.source.clone();
					Saw::Nothing
				}
				Op::Pool(n) => t.pool(*n),
			});
			point();
		}
	}

	fn pool(&mut self, n: usize) -> Saw {
		let token = CancellationTokenSource::new();
		let got: Arc<Mutex<Vec<Value>>> = Arc::default();
		for _ in 0..n {
			let (w, got) = (waiter(&self.source), got.clone());
			AsyncPool::spawn_work(async move {
				let v = w.await;
				let mut got = got.lock().unwrap();
				got.push(v);
				if got.len() == n {
					AsyncPool::stop();
				}
			});
		}
		let _ = block_on(AsyncPool::start(token.token().clone()), self.fresh);
		let got = got.lock().unwrap();
		// all see the same: the first one that does not is reported
		match got.iter().find(|v| **v != got[0]) {
			Some(v) => Saw::Outcome(*v),
			None if got.len() == n => Saw::Outcome(got[0]),
			None => Saw::Pending,
		}
	}
}

fn gen_op(s: &mut Src, next: &mut u32, sets: u64, pool: bool) -> Op {
	*next += 1;
	match s.weighted(&[sets, sets / 2, 3, 6, 2, 3, 2, 2, 1, 1, if pool { 3 } else { 0 }]) {
		0 => Op::SetValue(*next),
		1 => Op::SetErr(*next),
		2 => Op::State,
		3 => Op::Wait,
		4 => Op::Polls(1 + s.usize(3)),
		5 => Op::WaitOnce,
		6 => Op::Start,
		7 => Op::Resume,
		8 => Op::Forget,
		9 => Op::Clone,
		_ => Op::Pool(1 + s.usize(3)),
	}
}

fn case(s: &mut Src, ctx: &mut Ctx, with_pool: bool) -> Res {
	let n = 2 + s.usize(3);
	let preset = s.chance(1, 16);
	let sets = *s.pick(&[2, 4, 10, 1]);
	let mut next = 0;
	let mut scripts: Vec<Vec<Op>> = vec![];
	for _ in 0..n {
		let mut pools = 0;
		let mut script = s.list1(5, |s| gen_op(s, &mut next, sets, with_pool));
		// a pool that has stopped does not start again
		script.retain(|o| {
			pools += matches!(o, Op::Pool(_)) as usize;
			pools < 2 || !matches!(o, Op::Pool(_))
		});
		scripts.push(script);
	}
	let fresh = s.bool();
	// the schedule: uniform, or few preemptions, or (most) none but at chosen steps
	let mode = s.usize(3);
	let every = *s.pick(&[8u64, 3, 20, 50]);
	// whoever is left waiting is served by this thread, which starts last
	scripts.push(vec![Op::SetValue(1000), Op::State, Op::Wait]);
	let shown = format!("preset {preset}, threads {:?}", scripts);

	let source = if preset { Source::new_with_value(1) } else { Source::new() };
	let history: Shared = Arc::default();
	let threads = scripts
		.iter()
		.enumerate()
		.map(|(id, script)| {
			let mut t = Thread { id, source: source.clone(), kept: vec![], fresh, history: history.clone() };
			let script = script.clone();
			Box::new(move || t.run(&script)) as Box<dyn FnOnce() + Send>
		})
		.collect();
	drop(source);
	let out = run(threads, &[n], &[], &mut |k| match mode {
		0 => {
			if s.chance(1, every) {
				s.usize(k)
			} else {
				0
			}
		}
		1 => s.usize(k),
		_ => {
			if s.chance(1, 3) {
				1.min(k - 1)
			} else {
				0
			}
		}
	});

	let h = history.lock().unwrap_or_else(|e| e.into_inner());
	let mut shown = shown + "\n";
	for e in &h.events {
		shown.push_str(&format!("{}..{} thread {}: {:?} -> {:?}\n", e.start, e.end, e.thread, e.op, e.saw));
	}
	for o in &h.open {
		shown.push_str(&format!("{}.. thread {}: {:?} did not end\n", o.2, o.0, o.1));
	}
	ctx.show(shown);

	if !out.panicked.is_empty() {
		return Err(pbt::panic_fail());
	}
	ensure!(!out.livelock, "livelock", "no end after {} steps", out.steps);
	let is_lock = |l: &[(usize, State)]| l.iter().any(|x| matches!(x.1, State::Lock(_)));
	ensure!(!is_lock(&out.stuck) && !is_lock(&out.stuck_before), "deadlock", "threads {:?} wait for a lock for ever", out.stuck_before);

	let mut winners: Vec<(Value, usize, usize)> = vec![];
	if preset {
		winners.push((Ok(1), 0, 0));
	}
	let mut attempts = vec![];
	for e in &h.events {
		if let Saw::Set(v, ok) = &e.saw {
			attempts.push(e);
			if *ok {
				winners.push((*v, e.start, e.end));
			}
		}
	}
	ensure!(winners.len() <= 1, "completed twice", "attempts that succeeded: {winners:?}");
	ensure!(out.stuck.is_empty(), "waits for ever", "threads {:?} are never woken", out.stuck);
	ensure!(winners.len() == 1, "never completed", "no attempt of {} succeeded", attempts.len());
	let (value, began, ended) = winners[0];
	let held = h.events.iter().find(|e| e.thread == n && matches!(e.op, Op::SetValue(1000))).map_or(usize::MAX, |e| e.start);
	ensure!(out.stuck_before.is_empty() || ended > held, "waits for ever", "threads {:?} were not woken by the completion at {began}..{ended}", out.stuck_before);
	let mut known_from = ended;
	for e in &h.events {
		if let Saw::Outcome(v) = &e.saw {
			ensure!(*v == value, "wrong outcome", "thread {} sees {v:?} at {}..{}, the outcome is {value:?}", e.thread, e.start, e.end);
			ensure!(e.end > began, "early outcome", "thread {} sees {v:?} at {}..{}, before {began}", e.thread, e.start, e.end);
			known_from = known_from.min(e.end);
		}
	}
	for e in &h.events {
		if matches!(e.saw, Saw::Pending) && e.start > known_from {
			return Err(Fail::new("pending after completion", format!("thread {} finds nothing at {}..{}, though it was there at {known_from}", e.thread, e.start, e.end)));
		}
		if let Saw::Set(v, ok) = &e.saw {
			ensure!(!(*ok && e.start > known_from && !preset && *v != value), "completed twice", "{v:?}");
		}
	}
	// what the case was about
	let overlaps = |a: &Event, b: &Event| a.thread != b.thread && a.start < b.end && b.start < a.end;
	let set = |e: &Event| matches!(e.op, Op::SetValue(_) | Op::SetErr(_));
	let (mut with_set, mut with_wait) = (false, false);
	for e in h.events.iter().filter(|e| set(e)) {
		for f in h.events.iter().filter(|f| overlaps(e, f)) {
			with_set |= set(f);
			with_wait |= matches!(f.op, Op::Wait | Op::Pool(_) | Op::WaitOnce | Op::Resume);
		}
	}
	ctx.label_if(with_set, "two attempts overlap");
	ctx.label_if(with_wait, "a wait overlaps an attempt");
	ctx.label_if(!out.stuck_before.is_empty(), "completed by the last thread");
	ctx.label_if(matches!(value, Err(_)), "completed with an error");
	ctx.label_if(scripts.iter().flatten().any(|o| matches!(o, Op::Pool(_))), "waiters on a pool");
	ctx.label(format!("switches: {}", match out.switches { 0..=9 => "0-9", 10..=29 => "10-29", 30..=99 => "30-99", _ => "100 or more" }));
	ctx.nontrivial(with_set || with_wait);
	Ok(())
}

pub fn property() -> Property {
	Property {
		id: "C21",
		targets: vec![
			Target { name: "threads", quick: 60_000, thorough: 3_000_000, rule: "an attempt to complete overlaps another attempt or a wait of another thread", run: |s, c| case(s, c, false) },
			Target { name: "pools", quick: 20_000, thorough: 1_000_000, rule: "an attempt to complete overlaps another attempt or a wait of another thread", run: |s, c| case(s, c, true) },
		],
		pinned: vec![],
		assumptions: vec![
			"sequentially consistent memory: reorderings allowed by relaxed atomics are not explored",
			"threads may be interleaved before and after each operation on a lock or an atomic; event-listener's operations are atomic",
		],
	}
}
