//! Real threads of which exactly one runs at a time; who goes on at each point is chosen by the caller of `run`.
use ::std::cell::RefCell;
use ::std::future::Future;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum State {
	Ready,
	/// Waits for the release of the lock at this address.
	Lock(usize),
	/// Waits for its waker.
	Waker,
	/// Sleeps: may go on at any time, for nobody knows how long the others take.
	Sleep,
	/// Waits until nothing happens any more: all others have slept so often without anything else.
	Idle(u8),
	/// Is not to start before everything else has come to rest.
	Held,
	Done,
}

type Choose<'a> = Box<dyn FnMut(usize) -> usize + Send + 'a>;

struct Inner {
	state: Vec<State>,
	/// Of each thread: the number of its current waker, and whether it has been woken.
	waker: Vec<(u64, bool)>,
	current: usize,
	steps: u64,
	switches: u64,
	choose: Choose<'static>,
	/// Threads that never end by themselves: they are stopped once all others have ended.
	daemons: Vec<usize>,
	abort: bool,
	livelock: bool,
}

pub struct Sched {
	inner: Mutex<Inner>,
	turn: Vec<Condvar>,
}

const NOBODY: usize = usize::MAX;
/// After this many steps everyone gets its turn, after `LIMIT` nothing more is expected to happen.
const FAIR: u64 = 3_000;
const LIMIT: u64 = 60_000;

struct Abort;

::std::thread_local!(static ME: RefCell<Option<(Arc<Sched>, usize)>> = RefCell::new(None));

fn me() -> Option<(Arc<Sched>, usize)> { ME.try_with(|m| m.borrow().clone()).ok().flatten() }

pub fn scheduled() -> bool { me().is_some() }

impl Sched {
	fn lock(&self) -> MutexGuard<'_, Inner> { self.inner.lock().unwrap_or_else(|e| e.into_inner()) }

	/// Gives the turn to the next thread, and returns once it is `me`'s again.
	fn switch(&self, mut g: MutexGuard<'_, Inner>, me: usize, leave: bool) {
		g.steps += 1;
		if g.steps > LIMIT && !g.abort {
			g.abort = true;
			g.livelock = true;
		}
		if g.abort {
			// everyone unwinds on its own
			self.turn.iter().for_each(|c| c.notify_all());
			drop(g);
			if !leave && !::std::thread::panicking() {
				resume_unwind(Box::new(Abort));
			}
			return;
		}
		let n = g.state.len();
		let over = (0..n).all(|i| g.daemons.contains(&i) || matches!(g.state[i], State::Done | State::Held));
		let mut ready: Vec<usize> = (0..n).map(|i| (me + i) % n).filter(|i| g.state[*i] == State::Ready).collect();
		let idle = g.state.iter().position(|s| matches!(s, State::Idle(_)));
		let mut asleep: Vec<usize> = (1..=n).map(|i| (me + i) % n).filter(|i| g.state[*i] == State::Sleep).collect();
		if let (Some(i), true) = (idle, ready.is_empty()) {
			// everybody wakes up once more, or nothing has happened for long enough
			g.state[i] = match g.state[i] {
				State::Idle(k) if k > 0 && !asleep.is_empty() => State::Idle(k - 1),
				_ => State::Ready,
			};
			if g.state[i] == State::Ready {
				asleep.clear();
				ready.push(i);
			}
			for i in asleep.drain(..) {
				g.state[i] = State::Ready;
				ready.push(i);
			}
		} else if idle.is_none() {
			ready.append(&mut asleep);
		}
		if over {
			ready.clear();
		}
		if g.steps > FAIR && ready.len() > 1 {
			let mine = ready[0] == me;
			ready.rotate_left(mine as usize);
			ready.truncate(1);
		}
		// in the last rounds nobody is interrupted, so that no one can be kept from what it is about to do
		let calm = matches!(idle, Some(i) if matches!(g.state[i], State::Idle(0..=8)));
		let next = match ready.len() {
			0 => NOBODY,
			1 => ready[0],
			_ if calm => ready[0],
			k => ready[(g.choose)(k)],
		};
		if next != NOBODY && g.state[next] == State::Sleep {
			g.state[next] = State::Ready;
		}
		if next == me {
			return;
		}
		g.switches += 1;
		g.current = next;
		self.turn[if next == NOBODY { n } else { next }].notify_all();
		if leave {
			return;
		}
		while g.current != me && !g.abort {
			g = self.turn[me].wait(g).unwrap_or_else(|e| e.into_inner());
		}
		if g.abort {
			drop(g);
			if !::std::thread::panicking() {
				resume_unwind(Box::new(Abort));
			}
		}
	}
}

/// The scheduler may let another thread go on here.
pub fn point() {
	if let Some((s, me)) = me() {
		s.switch(s.lock(), me, false);
	}
}

pub fn acquire<G>(addr: usize, attempt: impl Fn() -> Option<G>, block: impl FnOnce() -> G) -> G {
	let (s, me) = match me() {
		Some(m) => m,
		None => return block(),
	};
	loop {
		s.switch(s.lock(), me, false);
		if let Some(g) = attempt() {
			s.switch(s.lock(), me, false);
			return g;
		}
		let mut g = s.lock();
		if g.abort {
			// someone who has been told to stop holds it, and is about to let go
			drop(g);
			if !::std::thread::panicking() {
				resume_unwind(Box::new(Abort));
			}
			return block();
		}
		g.state[me] = State::Lock(addr);
		s.switch(g, me, false);
	}
}

fn wake_up(g: &mut Inner, addr: usize) {
	for st in g.state.iter_mut().filter(|st| **st == State::Lock(addr)) {
		*st = State::Ready;
	}
}

pub fn released(addr: usize) {
	if let Some((s, me)) = me() {
		let mut g = s.lock();
		wake_up(&mut g, addr);
		s.switch(g, me, false);
	}
}

/// Waits for a release of `addr`; `freed` has just been released.
pub fn wait_at(addr: usize, freed: usize) {
	if let Some((s, me)) = me() {
		let mut g = s.lock();
		wake_up(&mut g, freed);
		g.state[me] = State::Lock(addr);
		s.switch(g, me, false);
	}
}

/// Lets any amount of time pass.
pub fn sleep() {
	if let Some((s, me)) = me() {
		let mut g = s.lock();
		g.state[me] = State::Sleep;
		s.switch(g, me, false);
	}
}

/// Returns when the others do nothing but sleep.
pub fn settle() {
	if let Some((s, me)) = me() {
		let mut g = s.lock();
		g.state[me] = State::Idle(12);
		s.switch(g, me, false);
	}
}

struct MyWaker(Arc<Sched>, usize, u64);

impl Wake for MyWaker {
	fn wake(self: Arc<Self>) { self.wake_by_ref() }

	fn wake_by_ref(self: &Arc<Self>) {
		let mut g = self.0.lock();
		// only the waker of the latest poll counts
		if g.waker[self.1].0 == self.2 {
			g.waker[self.1].1 = true;
			if g.state[self.1] == State::Waker {
				g.state[self.1] = State::Ready;
			}
		}
	}
}

/// Polls once, with a waker of its own if `fresh`.
pub fn poll_once<F: Future + ?Sized>(f: ::std::pin::Pin<&mut F>, fresh: bool) -> Poll<F::Output> {
	let (s, me) = me().expect("a scheduled thread");
	let n = {
		let mut g = s.lock();
		g.waker[me].0 += fresh as u64;
		g.waker[me].1 = false;
		g.waker[me].0
	};
	let waker = Waker::from(Arc::new(MyWaker(s, me, n)));
	f.poll(&mut Context::from_waker(&waker))
}

/// Waits until the waker of the last poll has been used.
pub fn park() {
	let (s, me) = me().expect("a scheduled thread");
	let mut g = s.lock();
	if !g.waker[me].1 {
		g.state[me] = State::Waker;
	}
	s.switch(g, me, false);
}

pub fn block_on<F: Future>(f: F, fresh: bool) -> F::Output {
	let mut f = Box::pin(f);
	loop {
		if let Poll::Ready(v) = poll_once(f.as_mut(), fresh) {
			return v;
		}
		park();
	}
}

pub struct Outcome {
	pub steps: u64,
	pub switches: u64,
	/// Where the threads that have not ended were when everything had come to rest, before and after the held ones.
	pub stuck_before: Vec<(usize, State)>,
	pub stuck: Vec<(usize, State)>,
	pub livelock: bool,
	/// Threads that panicked of their own accord.
	pub panicked: Vec<usize>,
}

/// Runs the threads to their end; those in `held` only start once all others have ended or cannot go on.
pub fn run(threads: Vec<Box<dyn FnOnce() + Send>>, held: &[usize], daemons: &[usize], choose: &mut (dyn FnMut(usize) -> usize + Send)) -> Outcome {
	let n = threads.len();
	let choose: Choose<'_> = Box::new(choose);
	// the scheduler does not call it after `run` has returned
	let choose: Choose<'static> = unsafe { ::std::mem::transmute(choose) };
	let state = (0..n).map(|i| if held.contains(&i) { State::Held } else { State::Ready }).collect();
	let sched = Arc::new(Sched {
		inner: Mutex::new(Inner { state, waker: vec![(0, false); n], current: NOBODY, steps: 0, switches: 0, choose, daemons: daemons.to_vec(), abort: false, livelock: false }),
		turn: (0..=n).map(|_| Condvar::new()).collect(),
	});
	let handles: Vec<_> = threads
		.into_iter()
		.enumerate()
		.map(|(i, f)| {
			let s = sched.clone();
			::std::thread::Builder::new()
				.stack_size(512 << 10)
				.spawn(move || {
					let mut g = s.lock();
					while g.current != i && !g.abort {
						g = s.turn[i].wait(g).unwrap_or_else(|e| e.into_inner());
					}
					let abort = g.abort;
					drop(g);
					let mut panicked = false;
					if !abort {
						ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
						panicked = match catch_unwind(AssertUnwindSafe(f)) {
							Err(p) => !p.is::<Abort>(),
							Ok(()) => false,
						};
						ME.with(|m| *m.borrow_mut() = None);
					}
					let mut g = s.lock();
					g.state[i] = State::Done;
					s.switch(g, i, true);
					panicked
				})
				.unwrap()
		})
		.collect();
	let rest = |g: &Inner| g.state.iter().cloned().enumerate().filter(|(i, s)| *s != State::Done && *s != State::Held && !g.daemons.contains(i)).collect::<Vec<_>>();
	let go = |mut g: MutexGuard<'_, Inner>| {
		let ready: Vec<usize> = (0..n).filter(|i| g.state[*i] == State::Ready).collect();
		if !ready.is_empty() {
			let k = if ready.len() > 1 { (g.choose)(ready.len()) } else { 0 };
			g.current = ready[k];
			sched.turn[ready[k]].notify_all();
			while g.current != NOBODY && !g.abort {
				g = sched.turn[n].wait(g).unwrap_or_else(|e| e.into_inner());
			}
		}
	};
	go(sched.lock());
	let stuck_before = rest(&sched.lock());
	{
		let mut g = sched.lock();
		held.iter().for_each(|i| g.state[*i] = State::Ready);
		if !g.abort {
			go(g);
		}
	}
	let stuck = rest(&sched.lock());
	{
		let mut g = sched.lock();
		g.abort = true;
		sched.turn.iter().for_each(|c| c.notify_all());
		drop(g);
	}
	let panicked: Vec<usize> = handles.into_iter().enumerate().filter_map(|(i, h)| h.join().unwrap_or(true).then(|| i)).collect();
	let mut g = sched.lock();
	g.choose = Box::new(|_| 0);
	Outcome { steps: g.steps, switches: g.switches, stuck_before, stuck, livelock: g.livelock, panicked }
}
