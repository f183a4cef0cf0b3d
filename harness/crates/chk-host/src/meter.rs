//! Counts what the current thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

struct Meter;

thread_local! {
	static LIVE: Cell<isize> = const { Cell::new(0) };
	static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: isize) {
	let _ = LIVE.try_with(|l| {
		l.set(l.get().wrapping_add(n));
		let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
	});
}

unsafe impl GlobalAlloc for Meter {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		add(l.size() as isize);
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		add(l.size() as isize);
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		add(-(l.size() as isize));
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		add(n as isize - l.size() as isize);
		System.realloc(p, l, n)
	}
}

#[global_allocator]
static METER: Meter = Meter;

/// Runs `f`; returns its result and how far the live bytes rose above their start.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, usize) {
	let start = LIVE.with(|l| l.get());
	PEAK.with(|p| p.set(start));
	let r = f();
	(r, (PEAK.with(|p| p.get()) - start).max(0) as usize)
}
