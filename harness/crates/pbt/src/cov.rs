//! Edge counters of the code under test (present only where it was compiled with inline 8-bit counters), and a
//! deterministic source for the standard library's hash seeds.
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicUsize = AtomicUsize::new(0);
static REGIONS: std::sync::Mutex<Vec<(usize, usize)>> = std::sync::Mutex::new(vec![]);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
	let (a, b) = (start as usize, stop as usize);
	if a < b {
		START.store(a, Ordering::SeqCst);
		STOP.store(b, Ordering::SeqCst);
		let mut r = REGIONS.lock().unwrap_or_else(|e| e.into_inner());
		if !r.contains(&(a, b)) {
			r.push((a, b));
		}
	}
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_: *const usize, _: *const usize) {}

static HASH_SEED: AtomicU64 = AtomicU64::new(0);

pub fn set_hash_seed(v: u64) { HASH_SEED.store(v, Ordering::SeqCst); }

/// std takes the keys of its hash maps from here.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut s = HASH_SEED.load(Ordering::SeqCst).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1;
	for i in 0..len {
		s ^= s << 13;
		s ^= s >> 7;
		s ^= s << 17;
		*buf.add(i) = (s >> 24) as u8;
	}
	len as isize
}

#[derive(Default)]
pub struct Map {
	seen: Vec<u8>,
}

impl Map {
	pub fn available() -> bool { !REGIONS.lock().unwrap().is_empty() }

	pub fn reset() {
		for (a, b) in REGIONS.lock().unwrap().iter() {
			unsafe { std::ptr::write_bytes(*a as *mut u8, 0, b - a) };
		}
	}

	/// Merges the counters; true if an edge, or an order of magnitude of an edge's count, is new.
	pub fn novel(&mut self) -> bool {
		let regions = REGIONS.lock().unwrap();
		let total: usize = regions.iter().map(|(a, b)| b - a).sum();
		self.seen.resize(total, 0);
		let mut base = 0;
		let mut new = false;
		for (a, b) in regions.iter() {
			let c = unsafe { std::slice::from_raw_parts(*a as *const u8, b - a) };
			for (i, v) in c.iter().enumerate() {
				if *v != 0 {
					let bit = match v {
						1 => 1,
						2 => 2,
						3 => 4,
						4..=7 => 8,
						8..=15 => 16,
						16..=31 => 32,
						32..=127 => 64,
						_ => 128,
					};
					if self.seen[base + i] & bit == 0 {
						self.seen[base + i] |= bit;
						new = true;
					}
				}
			}
			base += b - a;
		}
		new
	}

	pub fn edges(&self) -> (usize, usize) { (self.seen.iter().filter(|v| **v != 0).count(), self.seen.len()) }
}
