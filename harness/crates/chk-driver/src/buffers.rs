//! C27 the buffer driver's queues, under generated schedules: one thread uses them, the driver's two threads read and write.
use crate::frames;
use analyzer_host::json_rpc::message::Message;
use pbt::{ensure, Ctx, Res, Src};
use queues::{IsQueue, Queue};
use sched_driver::driver::buffer_driver::BufferStruct;
use sched_std::sched::{block_on, point, run, settle, sleep, State};
use std::collections::{BTreeSet, VecDeque};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Op {
	Add(Vec<usize>),
	Allow,
	AllowAny(usize),
	AllowAll,
	ClearMessages,
	ClearOutput,
	ClearBoth,
	/// Queue, release everything and wait until it has been read.
	Send(Vec<usize>),
	/// The same, and collect at least so many messages.
	SendReceive(Vec<usize>, usize),
	WaitRead,
	/// The server sends so many messages.
	Emit(usize),
	Collect(usize),
	Settle,
	/// Let time pass, or go on with a clone.
	Pause,
	Clone,
}

/// The input side: what is queued, how much of it is released, what has been delivered.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Input {
	queue: VecDeque<usize>,
	released: usize,
	delivered: Vec<usize>,
}

impl Input {
	fn take(&mut self) -> bool {
		let can = self.released > 0 && !self.queue.is_empty();
		if can {
			self.released -= 1;
			let n = self.queue.pop_front().unwrap();
			self.delivered.push(n);
		}
		can
	}
}

/// The driver may read at any time.
fn close(states: &mut BTreeSet<Input>) {
	for s in states.clone() {
		let mut s = s;
		while s.take() {
			states.insert(s.clone());
		}
	}
}

fn apply(states: &mut BTreeSet<Input>, f: impl Fn(&mut Input)) {
	close(states);
	*states = states
		.iter()
		.cloned()
		.map(|mut s| {
			f(&mut s);
			s
		})
		.collect();
	close(states);
}

/// The output side: messages `lo..` of those sent have not been collected or cleared, where `lo` is in `min..=max`.
#[derive(Clone, Debug)]
struct Output {
	min: usize,
	max: usize,
	sent: usize,
	/// So many have arrived for sure.
	arrived: usize,
}

struct Model {
	input: BTreeSet<Input>,
	output: Output,
}

impl Model {
	fn new() -> Self {
		Self { input: BTreeSet::from([Input { queue: VecDeque::new(), released: 0, delivered: vec![] }]), output: Output { min: 0, max: 0, sent: 0, arrived: 0 } }
	}

	/// Whether the operation is sure to end.
	fn ends(&self, op: &Op) -> bool {
		match op {
			Op::WaitRead => self.input.iter().all(|s| s.released >= s.queue.len()),
			Op::Collect(n) | Op::SendReceive(_, n) => self.output.max + n <= self.output.sent,
			_ => true,
		}
	}

	fn drained(&mut self) {
		close(&mut self.input);
		self.input.retain(|s| s.queue.is_empty());
	}

	fn step(&mut self, op: &Op) {
		match op {
			Op::Add(v) => apply(&mut self.input, |s| s.queue.extend(v)),
			Op::Allow => apply(&mut self.input, |s| s.released += 1),
			Op::AllowAny(n) => apply(&mut self.input, |s| s.released += n),
			Op::AllowAll => apply(&mut self.input, |s| s.released = s.queue.len()),
			Op::ClearMessages | Op::ClearBoth => apply(&mut self.input, |s| {
				s.queue.clear();
				s.released = 0;
			}),
			Op::Send(v) | Op::SendReceive(v, _) => {
				apply(&mut self.input, |s| s.queue.extend(v));
				apply(&mut self.input, |s| s.released = s.queue.len());
				self.drained();
			}
			Op::WaitRead => self.drained(),
			Op::Emit(n) => self.output.sent += n,
			_ => {}
		}
		if matches!(op, Op::ClearOutput | Op::ClearBoth) {
			self.output.max = self.output.sent;
			self.output.min = self.output.min.max(self.output.arrived);
		}
		if *op == Op::Settle {
			self.output.arrived = self.output.sent;
		}
	}
}

#[derive(Clone, Debug)]
enum Saw {
	Collected(Vec<String>),
	Delivered(Vec<usize>),
	Nothing,
}

#[derive(Default)]
struct Shared {
	log: Vec<(Op, Saw)>,
	delivered: Vec<Message>,
	/// How many of its messages the server is to send by now.
	emitted: usize,
	done: bool,
}

fn gen(s: &mut Src) -> (Vec<Op>, usize, usize) {
	let mut model = Model::new();
	let mut next = 0;
	let mut sent = 0;
	let mut batch = |s: &mut Src| {
		let n = s.weighted(&[1, 6, 3, 2, 1]);
		(0..n).map(|_| { next += 1; next - 1 }).collect::<Vec<_>>()
	};
	let mut ops = s.list1(12, |s| {
		let mut op = match s.weighted(&[6, 4, 2, 4, 2, 2, 1, 2, 1, 3, 5, 5, 3, 3, 1]) {
			0 => Op::Add(batch(s)),
			1 => Op::Allow,
			2 => Op::AllowAny(s.usize(4)),
			3 => Op::AllowAll,
			4 => Op::ClearMessages,
			5 => Op::ClearOutput,
			6 => Op::ClearBoth,
			7 => Op::Send(batch(s)),
			8 => Op::SendReceive(batch(s), s.usize(3)),
			9 => Op::WaitRead,
			10 => Op::Emit(1 + s.usize(3)),
			11 => Op::Collect(s.usize(4)),
			12 => Op::Settle,
			13 => Op::Pause,
			_ => Op::Clone,
		};
		if let Op::Emit(n) = &op {
			sent += n;
		}
		if !model.ends(&op) {
			op = Op::Pause;
		}
		model.step(&op);
		if matches!(op, Op::Collect(_) | Op::SendReceive(_, _)) {
			// how much was collected is not known here, but it was that at least
			model.output.max = model.output.sent;
		}
		op
	});
	ops.extend([Op::Settle, Op::Collect(0)]);
	(ops, next, sent)
}

fn queue(all: &[Message], v: &[usize]) -> Queue<Message> {
	let mut q = Queue::new();
	v.iter().for_each(|n| {
		q.add(all[*n].clone()).unwrap();
	});
	q
}

fn perform(b: &BufferStruct, op: &Op, all: &[Message], shared: &Arc<Mutex<Shared>>) -> Saw {
	match op {
		Op::Add(v) => b.add_to_queue_blocking(queue(all, v)),
		Op::Allow => block_on(b.allow_read_blocking(), false),
		Op::AllowAny(n) => block_on(b.allow_any_read_blocking(*n), false),
		Op::AllowAll => block_on(b.allow_all_read_blocking(), false),
		Op::ClearMessages => b.clear_message_buffer(),
		Op::ClearOutput => b.clear_output_buffer(),
		Op::ClearBoth => b.clear_both_buffers(),
		Op::Send(v) => block_on(b.send_messages(queue(all, v)), false),
		Op::SendReceive(v, n) => return Saw::Collected(block_on(b.send_recieve_messages(queue(all, v), *n), false)),
		Op::WaitRead => block_on(b.wait_for_process_messages(), false),
		Op::Emit(n) => shared.lock().unwrap().emitted += n,
		Op::Collect(n) => return Saw::Collected(block_on(b.get_output_buffer(*n), false)),
		Op::Settle => {
			settle();
			return Saw::Delivered(shared.lock().unwrap().delivered.iter().map(frames::number).collect());
		}
		Op::Pause => sleep(),
		Op::Clone => {}
	}
	Saw::Nothing
}

pub fn case(s: &mut Src, ctx: &mut Ctx) -> Res {
	let (ops, inputs, outputs) = gen(s);
	let first = s.chance(1, 4) && ops.iter().any(|o| matches!(o, Op::Add(_)));
	let all: Arc<Vec<Message>> = Arc::new((0..inputs).map(|n| frames::message(s, n)).collect());
	let sends: Arc<Vec<Message>> = Arc::new((0..outputs).map(|n| frames::message(s, n)).collect());
	let mode = s.usize(3);
	let every = *s.pick(&[8u64, 3, 20, 50]);
	let mut ops = ops;
	// the first batch is there from the start
	let initial = match ops.iter().position(|o| !matches!(o, Op::Pause | Op::Clone | Op::Emit(_))) {
		Some(i) if first => match ops[i].clone() {
			Op::Add(v) => {
				ops[i] = Op::Pause;
				v
			}
			_ => vec![],
		},
		_ => vec![],
	};
	let shown = format!("queued at first {initial:?}, then {ops:?}");
	ctx.show(shown.clone());

	let shared: Arc<Mutex<Shared>> = Arc::default();
	let buffer = BufferStruct::new(queue(&all, &initial));
	let user = {
		let (b, ops, all, shared) = (buffer.clone(), ops.clone(), all.clone(), shared.clone());
		move || {
			let mut b = b;
			for op in &ops {
				if *op == Op::Clone {
					b = b.clone();
				}
				let saw = perform(&b, op, &all, &shared);
				shared.lock().unwrap().log.push((op.clone(), saw));
				point();
			}
			shared.lock().unwrap().done = true;
		}
	};
	let reader = {
		let (b, shared) = (buffer.clone(), shared.clone());
		move || loop {
			match block_on(b.message_read(), false) {
				Ok(Some(m)) => shared.lock().unwrap().delivered.push(m),
				_ => return,
			}
			point();
		}
	};
	let writer = {
		let (b, shared, sends) = (buffer, shared.clone(), sends.clone());
		move || {
			for (i, m) in sends.iter().enumerate() {
				while shared.lock().unwrap().emitted <= i {
					sleep();
				}
				if block_on(b.message_write(m.clone()), false).is_err() {
					return;
				}
				point();
			}
			loop {
				sleep();
			}
		}
	};
	let out = run(vec![Box::new(user), Box::new(reader), Box::new(writer)], &[], &[1, 2], &mut |k| match mode {
		0 => match s.chance(1, every) {
			true => s.usize(k),
			false => 0,
		},
		1 => s.usize(k),
		_ => match s.chance(1, 3) {
			true => 1.min(k - 1),
			false => 0,
		},
	});
	let h = shared.lock().unwrap_or_else(|e| e.into_inner());
	let mut text = shown + "\n";
	for (op, saw) in &h.log {
		text.push_str(&format!("{op:?} -> {}\n", format!("{saw:?}").chars().take(300).collect::<String>()));
	}
	text.push_str(&format!("delivered in the end {:?}\n", h.delivered.iter().map(frames::number).collect::<Vec<_>>()));
	ctx.show(text);
	if !out.panicked.is_empty() {
		return Err(pbt::panic_fail());
	}
	ensure!(!out.livelock, "livelock", "no end after {} steps", out.steps);
	let locked = out.stuck.iter().any(|x| matches!(x.1, State::Lock(_)));
	ensure!(!locked, "deadlock", "the user waits for a lock for ever, after {} operations", h.log.len());
	ensure!(out.stuck.is_empty() && h.done, "waits for ever", "{:?} after {} operations", out.stuck, h.log.len());

	// the history against the model
	let mut model = Model::new();
	model.step(&Op::Add(initial));
	let mut pending = false;
	let mut cleared = false;
	let mut collected = 0;
	for (op, saw) in &h.log {
		pending |= model.input.len() > 1;
		cleared |= matches!(op, Op::ClearMessages | Op::ClearBoth) && model.input.iter().any(|s| !s.queue.is_empty());
		model.step(op);
		match saw {
			Saw::Delivered(d) => {
				close(&mut model.input);
				let possible = model.input.clone();
				model.input.retain(|s| (s.released == 0 || s.queue.is_empty()) && s.delivered == *d);
				let rest: Vec<_> = possible.iter().filter(|s| s.released == 0 || s.queue.is_empty()).map(|s| &s.delivered).collect();
				ensure!(!model.input.is_empty(), "wrong messages delivered", "delivered {d:?}, instead of one of {rest:?}");
			}
			Saw::Collected(v) => {
				let mut got = vec![];
				for f in v {
					let mut bodies = frames::parse(f.as_bytes())?;
					ensure!(bodies.len() == 1, "bad frame", "{} messages in {f:?}", bodies.len());
					got.push(bodies.remove(0));
				}
				let o = &mut model.output;
				let least = if let Op::Collect(n) | Op::SendReceive(_, n) = op { *n } else { 0 };
				ensure!(got.len() >= least, "too few collected", "{} instead of {least}", got.len());
				let numbers: Vec<Option<usize>> = got.iter().map(|g| (0..sends.len()).find(|n| frames::json_of(&sends[*n]) == *g)).collect();
				ensure!(numbers.iter().all(|n| n.is_some()), "message changed", "{got:?} collected");
				let numbers: Vec<usize> = numbers.into_iter().flatten().collect();
				let from = *numbers.first().unwrap_or(&o.min);
				let right = numbers.iter().enumerate().all(|(i, n)| *n == from + i);
				ensure!(right && from >= o.min && from <= o.max.max(o.min) && from + numbers.len() <= o.sent, "wrong messages collected", "{numbers:?}, though the first is one of {}..={} and {} have been sent", o.min, o.max, o.sent);
				let to = if numbers.is_empty() { o.max } else { from + numbers.len() };
				ensure!(to >= o.arrived, "wrong messages collected", "{numbers:?}, though {} have arrived", o.arrived);
				if !numbers.is_empty() {
					o.min = from + numbers.len();
					o.max = o.min;
				}
				collected += numbers.len();
			}
			Saw::Nothing => {}
		}
	}
	let d: Vec<_> = h.delivered.iter().map(|m| (frames::number(m), frames::json_of(m))).collect();
	for (n, j) in d {
		ensure!(n < all.len() && frames::json_of(&all[n]) == j, "message changed", "{j} delivered");
	}
	ctx.label_if(pending, "reads pending during operations");
	ctx.label_if(cleared, "queued messages cleared");
	ctx.label_if(collected > 0, "output collected");
	ctx.label_if(!h.delivered.is_empty(), "messages delivered");
	ctx.label(format!("switches: {}", match out.switches { 0..=19 => "0-19", 20..=59 => "20-59", _ => "60 or more" }));
	ctx.nontrivial(!h.delivered.is_empty() && pending);
	Ok(())
}
