//! C20 background tasks.
use crate::exec::Task;
use analyzer_abstractions::futures_extensions::async_extensions::AsyncPool;
use cancellation::CancellationTokenSource;
use pbt::{ensure, Ctx, Property, Res, Src, Target};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

const SLOTS: usize = 4;

#[derive(Clone, Debug)]
enum Step {
	Effect,
	/// Wake oneself and suspend, n times.
	Yield(usize),
	/// Suspend; wake oneself twice per suspension.
	YieldTwice,
	/// Suspend until the slot has fired.
	Wait(usize),
	/// Suspend until one of the slots has fired.
	WaitAny(usize, usize),
	/// Yield until the slot has fired.
	Spin(usize),
	Fire(usize),
	/// Wake the waiters of a slot though it has not fired.
	Nudge(usize),
	Spawn(Vec<Step>),
}

#[derive(Default)]
struct World {
	fired: [bool; SLOTS],
	wakers: [Vec<Waker>; SLOTS],
	/// Every waker ever seen.
	old: Vec<Waker>,
	/// (task, step) of each effect, in order.
	log: Vec<(usize, usize)>,
	polls_after_end: usize,
	overlapping: usize,
	starved: bool,
	scripts: Vec<Vec<Step>>,
	ended: Vec<usize>,
	dropped: Vec<usize>,
}

type Shared = Arc<Mutex<World>>;

fn fire(w: &Shared, k: usize) {
	let wakers = {
		let mut w = w.lock().unwrap();
		w.fired[k] = true;
		std::mem::take(&mut w.wakers[k])
	};
	wakers.into_iter().for_each(|w| w.wake());
}

fn nudge(w: &Shared, k: usize) {
	let wakers = w.lock().unwrap().wakers[k].clone();
	wakers.iter().for_each(|w| w.wake_by_ref());
}

struct Scripted {
	world: Shared,
	id: usize,
	steps: Vec<Step>,
	at: usize,
	/// How often the current step has suspended.
	count: usize,
	polling: bool,
	ended: bool,
}

impl Drop for Scripted {
	fn drop(&mut self) {
		if let Ok(mut w) = self.world.lock() {
			w.dropped[self.id] += 1;
		}
	}
}

impl Future for Scripted {
	type Output = ();

	fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
		let world = self.world.clone();
		if self.polling {
			world.lock().unwrap().overlapping += 1;
		}
		if self.ended {
			world.lock().unwrap().polls_after_end += 1;
			return Poll::Ready(());
		}
		self.polling = true;
		world.lock().unwrap().old.push(cx.waker().clone());
		while self.at < self.steps.len() {
			let suspend = match self.steps[self.at].clone() {
				Step::Effect => {
					let e = (self.id, self.at);
					world.lock().unwrap().log.push(e);
					false
				}
				Step::Yield(n) => {
					let more = self.count < n;
					if more {
						cx.waker().wake_by_ref();
					}
					more
				}
				Step::YieldTwice => {
					if self.count == 0 {
						cx.waker().wake_by_ref();
						cx.waker().clone().wake();
					}
					self.count == 0
				}
				Step::Wait(k) => {
					let mut w = world.lock().unwrap();
					if !w.fired[k] {
						w.wakers[k].push(cx.waker().clone());
					}
					!w.fired[k]
				}
				Step::WaitAny(k, l) => {
					let mut w = world.lock().unwrap();
					let open = !w.fired[k] && !w.fired[l];
					if open {
						w.wakers[k].push(cx.waker().clone());
						w.wakers[l].push(cx.waker().clone());
					}
					open
				}
				Step::Spin(k) => {
					let fired = world.lock().unwrap().fired[k];
					if !fired && self.count < 3000 {
						cx.waker().wake_by_ref();
						true
					} else {
						if !fired {
							world.lock().unwrap().starved = true;
						}
						false
					}
				}
				Step::Fire(k) => {
					fire(&world, k);
					false
				}
				Step::Nudge(k) => {
					nudge(&world, k);
					false
				}
				Step::Spawn(steps) => {
					spawn(&world, steps);
					false
				}
			};
			if suspend {
				self.count += 1;
				self.polling = false;
				return Poll::Pending;
			}
			self.at += 1;
			self.count = 0;
		}
		self.ended = true;
		let id = self.id;
		world.lock().unwrap().ended[id] += 1;
		self.polling = false;
		Poll::Ready(())
	}
}

fn spawn(world: &Shared, steps: Vec<Step>) {
	let id = {
		let mut w = world.lock().unwrap();
		w.scripts.push(steps.clone());
		w.ended.push(0);
		w.dropped.push(0);
		w.scripts.len() - 1
	};
	AsyncPool::spawn_work(Scripted { world: world.clone(), id, steps, at: 0, count: 0, polling: false, ended: false });
}

fn steps(s: &mut Src, depth: usize) -> Vec<Step> {
	s.list(6, |s| {
		let k = s.usize(SLOTS);
		match s.weighted(&[5, 3, 1, 4, 1, 3, 2, if depth > 0 { 2 } else { 0 }]) {
			0 => Step::Effect,
			1 => Step::Yield(1 + s.usize(4)),
			2 => Step::YieldTwice,
			3 => Step::Wait(k),
			4 => Step::WaitAny(k, s.usize(SLOTS)),
			5 => Step::Fire(k),
			6 => Step::Nudge(k),
			_ => Step::Spawn(steps(s, depth - 1)),
		}
	})
}

fn histories(s: &mut Src, c: &mut Ctx) -> Res {
	let world: Shared = Default::default();
	let source = CancellationTokenSource::new();
	let mut pool = Task::new(AsyncPool::start(source.token().clone()));
	let mut log = vec![];
	let mut cancelled = false;
	let crowd = s.chance(1, 60);
	if s.bool() {
		pool.run();
	}
	for _ in 0..1 + s.usize(10) {
		let k = s.usize(SLOTS);
		match s.weighted(&[60, 50, 30, 20, 10, if crowd { 20 } else { 0 }]) {
			5 => {
				// many tasks woken at the same time, some of them repeatedly
				let n = 30 << s.usize(6);
				let script = match s.usize(3) {
					0 => vec![Step::Wait(k), Step::Effect],
					1 => vec![Step::Effect, Step::WaitAny(k, (k + 1) % SLOTS), Step::YieldTwice, Step::Effect],
					_ => vec![Step::Yield(3), Step::Effect, Step::Wait(k), Step::Yield(1), Step::Effect],
				};
				log.push(format!("spawn {n} times {script:?}"));
				for _ in 0..n {
					spawn(&world, script.clone());
				}
				c.label("crowd");
			}
			0 => {
				let st = steps(s, 2);
				log.push(format!("spawn {st:?}"));
				spawn(&world, st);
			}
			1 => {
				log.push("run".into());
				pool.run();
			}
			2 => {
				log.push(format!("fire {k}"));
				fire(&world, k);
			}
			3 => {
				log.push(format!("nudge {k}"));
				nudge(&world, k);
			}
			_ => {
				// from outside the pool's thread
				log.push(format!("fire {k} from another thread"));
				let w = world.clone();
				std::thread::spawn(move || fire(&w, k)).join().unwrap();
			}
		}
		c.show(log.join("; "));
	}
	// a task that only yields must let the others run
	if s.chance(1, 4) {
		world.lock().unwrap().fired[0] = false;
		log.push("spin until fired".into());
		spawn(&world, vec![Step::Spin(0)]);
		spawn(&world, vec![Step::Yield(3), Step::Fire(0)]);
		c.label("spin");
	}
	c.show(log.join("; "));
	ensure!(!pool.done(), "runner", "the runner ended by itself");
	let early = s.chance(1, 4);
	if early {
		// stopped with tasks under way
		c.label("stopped early");
		pool.run();
	} else {
		pool.run();
		for k in 0..SLOTS {
			fire(&world, k);
			pool.run();
		}
	}
	if s.chance(1, 3) {
		source.cancel();
		cancelled = true;
	}
	{
		let w = world.lock().unwrap();
		let suspensions = w.scripts.iter().flatten().filter(|s| matches!(s, Step::Yield(_) | Step::Wait(_) | Step::WaitAny(..) | Step::YieldTwice)).count();
		c.nontrivial(w.scripts.len() > 1 && suspensions > 0);
		c.label_if(w.scripts.len() > 4, "many tasks");
		ensure!(w.overlapping == 0, "polled twice at once", "{}", w.overlapping);
		ensure!(w.polls_after_end == 0, "polled after its end", "{} polls", w.polls_after_end);
		ensure!(!w.starved, "starvation", "a yielding task kept another from running");
		let mut effects = vec![vec![]; w.scripts.len()];
		for (id, step) in &w.log {
			effects[*id].push(*step);
		}
		for (id, steps) in w.scripts.iter().enumerate() {
			let got = &effects[id];
			let want: Vec<usize> = (0..steps.len()).filter(|i| matches!(steps[*i], Step::Effect)).collect();
			if early {
				ensure!(want.starts_with(got), "effects", "task {id} {steps:?}: effects {got:?}");
				// a task that waits for nothing has run to its end
				let free = steps.iter().all(|s| match s {
					Step::Wait(k) | Step::Spin(k) => w.fired[*k],
					Step::WaitAny(k, l) => w.fired[*k] || w.fired[*l],
					_ => true,
				});
				ensure!(!free || w.ended[id] == 1, "not finished", "task {id} {steps:?} ended {} times", w.ended[id]);
			} else {
				ensure!(*got == want, "effects", "task {id} {steps:?}: effects {got:?}, should be {want:?}");
				ensure!(w.ended[id] == 1, "not finished", "task {id} {steps:?} ended {} times", w.ended[id]);
				ensure!(w.dropped[id] == 1, "not released", "task {id} was dropped {} times", w.dropped[id]);
			}
		}
	}
	// the end
	AsyncPool::stop();
	pool.run();
	let want = if cancelled { "cancelled" } else { "stopped" };
	let got = match &pool.result {
		None => "still running",
		Some(Ok(())) => "stopped",
		Some(Err(_)) => "cancelled",
	};
	ensure!(got == want, "end of the runner", "the runner is {got}, should be {want}");
	// late wake-ups
	let (old, log) = {
		let mut w = world.lock().unwrap();
		(std::mem::take(&mut w.old), w.log.len())
	};
	old.into_iter().for_each(|w| w.wake());
	for k in 0..SLOTS {
		fire(&world, k);
	}
	ensure!(world.lock().unwrap().log.len() == log, "effect after the stop", "");
	Ok(())
}

pub fn c20() -> Property {
	Property {
		id: "C20",
		targets: vec![Target { name: "task histories", quick: 600_000, thorough: 16_000_000, rule: "two or more tasks, some of which suspend", run: histories }],
		pinned: vec![],
		assumptions: vec!["cancellation is noticed when the runner next wakes up (the check stops the pool after cancelling it)"],
	}
}
