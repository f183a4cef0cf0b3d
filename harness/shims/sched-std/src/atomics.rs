use crate::sched::point;
use ::std::sync::atomic::Ordering;

macro_rules! atomic {
	($name:ident, $t:ty, { $($extra:tt)* }) => {
		#[derive(Default, Debug)]
		#[repr(transparent)]
		pub struct $name(::std::sync::atomic::$name);
		impl From<$t> for $name {
			fn from(v: $t) -> Self { Self::new(v) }
		}
		#[allow(deprecated)]
		impl $name {
			pub const fn new(v: $t) -> Self { Self(::std::sync::atomic::$name::new(v)) }
			pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
			pub fn into_inner(self) -> $t { self.0.into_inner() }
			atomic!(@ops $name, $t; load(o: Ordering) -> $t; store(v: $t, o: Ordering) -> (); swap(v: $t, o: Ordering) -> $t;
				compare_exchange(a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t>;
				compare_exchange_weak(a: $t, b: $t, o: Ordering, p: Ordering) -> Result<$t, $t>;
				compare_and_swap(a: $t, b: $t, o: Ordering) -> $t; $($extra)*);
			pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, a: Ordering, b: Ordering, f: F) -> Result<$t, $t> {
				point();
				let r = self.0.fetch_update(a, b, f);
				point();
				r
			}
		}
	};
	(@ops $name:ident, $t:ty; $($op:ident($($a:ident: $at:ty),*) -> $r:ty;)*) => {
		$(pub fn $op(&self, $($a: $at),*) -> $r {
			point();
			let r = self.0.$op($($a),*);
			point();
			r
		})*
	};
}

atomic!(AtomicBool, bool, { fetch_and(v: bool, o: Ordering) -> bool; fetch_or(v: bool, o: Ordering) -> bool; fetch_xor(v: bool, o: Ordering) -> bool; fetch_nand(v: bool, o: Ordering) -> bool; });
macro_rules! ints {
	($($name:ident $t:ty),*) => {
		$(atomic!($name, $t, { fetch_add(v: $t, o: Ordering) -> $t; fetch_sub(v: $t, o: Ordering) -> $t; fetch_and(v: $t, o: Ordering) -> $t;
			fetch_or(v: $t, o: Ordering) -> $t; fetch_xor(v: $t, o: Ordering) -> $t; fetch_max(v: $t, o: Ordering) -> $t; fetch_min(v: $t, o: Ordering) -> $t; });)*
	};
}
ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);
