//! A stand-in for `std` (crates under test are compiled with it in the place of `std`) whose locks and atomics hand
//! control to a scheduler before and after each operation.  Threads that are not part of a `Run` get the real thing.
pub use ::std::*;

pub mod sched;

pub mod sync {
	pub use crate::locks::{Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
	pub use ::std::sync::*;

	pub mod atomic {
		pub use crate::atomics::{
			AtomicBool, AtomicI16, AtomicI32, AtomicI64, AtomicI8, AtomicIsize, AtomicU16, AtomicU32, AtomicU64, AtomicU8, AtomicUsize,
		};
		pub use ::std::sync::atomic::*;
	}
}

pub mod thread {
	pub use ::std::thread::*;

	/// Lets other threads go on: nobody knows for how long.
	pub fn sleep(d: ::std::time::Duration) {
		match crate::sched::scheduled() {
			true => crate::sched::sleep(),
			false => ::std::thread::sleep(d),
		}
	}

	pub fn yield_now() { sleep(::std::time::Duration::ZERO) }
}

mod atomics;
mod locks;
