//! A small property-based testing engine.
//!
//! Every random choice of a case is one number on a *tape*.  Generators are ordinary Rust code that draws from the tape
//! ([`Src`]), so shrinking and replay work for any generator, stateful ones and schedulers included: the engine shortens
//! and lowers the tape and runs the property again.  Cases are a pure function of (VERIF_SEED, target name, case index).
//!
//! The process started by the user is a supervisor: it runs the cases in worker processes (one slice of the case indices
//! each), so that a stack overflow, an abort, an out-of-memory or an endless loop in the code under test is an observed
//! outcome and not the end of the check.
mod cov;
mod engine;
mod shrink;
mod src;
mod supervisor;

pub use engine::{panic_fail, Case, Ctx, Fail, Pinned, Property, Res, Target};
pub use src::Src;
pub use supervisor::main;

/// Turns a failed comparison into a failure of the case.
#[macro_export]
macro_rules! ensure {
	($cond:expr, $sig:expr, $($arg:tt)*) => {
		if !$cond {
			return Err($crate::Fail::new($sig, format!($($arg)*)));
		}
	};
}

pub fn hash(bytes: &[u8]) -> u64 {
	let mut h = 0xcbf29ce484222325u64;
	for b in bytes {
		h ^= *b as u64;
		h = h.wrapping_mul(0x100000001b3);
	}
	h ^= h >> 29;
	h.wrapping_mul(0xbf58476d1ce4e5b9) ^ (h >> 32)
}
