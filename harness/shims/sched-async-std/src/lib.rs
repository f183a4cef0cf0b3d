//! A stand-in for `async_std` whose waiting is up to the scheduler of `sched-std`.
pub use real::*;

pub mod task {
	pub use real::task::*;
	use sched_std::sched;
	use std::{future::Future, time::Duration};

	pub async fn sleep(d: Duration) {
		match sched::scheduled() {
			true => sched::sleep(),
			false => real::task::sleep(d).await,
		}
	}

	pub async fn yield_now() { sleep(Duration::ZERO).await }

	pub fn block_on<F: Future>(f: F) -> F::Output {
		match sched::scheduled() {
			true => sched::block_on(f, false),
			false => real::task::block_on(f),
		}
	}
}
