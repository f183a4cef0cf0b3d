use crate::sched::{acquire, point, released};
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

fn map<A, B>(r: LockResult<A>, f: impl FnOnce(A) -> B) -> LockResult<B> {
	match r {
		Ok(a) => Ok(f(a)),
		Err(e) => Err(PoisonError::new(f(e.into_inner()))),
	}
}

fn map_try<A, B>(r: TryLockResult<A>, f: impl FnOnce(A) -> B) -> TryLockResult<B> {
	match r {
		Ok(a) => Ok(f(a)),
		Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(f(e.into_inner())))),
		Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
	}
}

/// Locks by trying; a scheduled thread that would block waits for the release of the lock at `addr`.
fn lock<G>(addr: usize, try_lock: impl Fn() -> TryLockResult<G>, block: impl FnOnce() -> LockResult<G>) -> LockResult<G> {
	acquire(
		addr,
		|| match try_lock() {
			Ok(g) => Some(Ok(g)),
			Err(TryLockError::Poisoned(e)) => Some(Err(e)),
			Err(TryLockError::WouldBlock) => None,
		},
		block,
	)
}

macro_rules! guard {
	($name:ident, $lock:ident, $($m:ident)?) => {
		pub struct $name<'a, T: ?Sized> {
			inner: Option<real::$name<'a, T>>,
			addr: usize,
			#[allow(dead_code)]
			lock: &'a $lock<T>,
		}
		impl<'a, T: ?Sized> Deref for $name<'a, T> {
			type Target = T;
			fn deref(&self) -> &T { self.inner.as_ref().unwrap() }
		}
		$(impl<'a, T: ?Sized> DerefMut for $name<'a, T> {
			fn deref_mut(&$m self) -> &mut T { self.inner.as_mut().unwrap() }
		})?
		impl<'a, T: ?Sized + ::std::fmt::Debug> ::std::fmt::Debug for $name<'a, T> {
			fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { (**self).fmt(f) }
		}
		impl<'a, T: ?Sized + ::std::fmt::Display> ::std::fmt::Display for $name<'a, T> {
			fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { (**self).fmt(f) }
		}
		impl<'a, T: ?Sized> Drop for $name<'a, T> {
			fn drop(&mut self) {
				if let Some(g) = self.inner.take() {
					drop(g);
					released(self.addr);
				}
			}
		}
	};
}

guard!(MutexGuard, Mutex, mut);
guard!(RwLockWriteGuard, RwLock, mut);
guard!(RwLockReadGuard, RwLock,);

#[derive(Default, Debug)]
pub struct Mutex<T: ?Sized>(real::Mutex<T>);

impl<T> Mutex<T> {
	pub const fn new(v: T) -> Self { Self(real::Mutex::new(v)) }
	pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}

impl<T: ?Sized> Mutex<T> {
	fn addr(&self) -> usize { self as *const _ as *const u8 as usize }

	fn wrap<'a>(&'a self, g: real::MutexGuard<'a, T>) -> MutexGuard<'a, T> { MutexGuard { inner: Some(g), addr: self.addr(), lock: self } }

	pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
		map(lock(self.addr(), || self.0.try_lock(), || self.0.lock()), |g| self.wrap(g))
	}

	pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
		point();
		let r = map_try(self.0.try_lock(), |g| self.wrap(g));
		point();
		r
	}

	pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
	pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
}

impl<T> From<T> for Mutex<T> {
	fn from(v: T) -> Self { Self::new(v) }
}

#[derive(Default, Debug)]
pub struct RwLock<T: ?Sized>(real::RwLock<T>);

impl<T> RwLock<T> {
	pub const fn new(v: T) -> Self { Self(real::RwLock::new(v)) }
	pub fn into_inner(self) -> LockResult<T> { self.0.into_inner() }
}

impl<T: ?Sized> RwLock<T> {
	fn addr(&self) -> usize { self as *const _ as *const u8 as usize }

	fn wrap_r<'a>(&'a self, g: real::RwLockReadGuard<'a, T>) -> RwLockReadGuard<'a, T> {
		RwLockReadGuard { inner: Some(g), addr: self.addr(), lock: self }
	}

	fn wrap_w<'a>(&'a self, g: real::RwLockWriteGuard<'a, T>) -> RwLockWriteGuard<'a, T> {
		RwLockWriteGuard { inner: Some(g), addr: self.addr(), lock: self }
	}

	pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
		map(lock(self.addr(), || self.0.try_read(), || self.0.read()), |g| self.wrap_r(g))
	}

	pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
		map(lock(self.addr(), || self.0.try_write(), || self.0.write()), |g| self.wrap_w(g))
	}

	pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
		point();
		let r = map_try(self.0.try_read(), |g| self.wrap_r(g));
		point();
		r
	}

	pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
		point();
		let r = map_try(self.0.try_write(), |g| self.wrap_w(g));
		point();
		r
	}

	pub fn is_poisoned(&self) -> bool { self.0.is_poisoned() }
	pub fn get_mut(&mut self) -> LockResult<&mut T> { self.0.get_mut() }
}

impl<T> From<T> for RwLock<T> {
	fn from(v: T) -> Self { Self::new(v) }
}

/// Waiting on it is one long wait for any notification: allowed, since waits may end early.
#[derive(Default, Debug)]
pub struct Condvar {
	real: real::Condvar,
}

impl Condvar {
	pub const fn new() -> Self { Self { real: real::Condvar::new() } }

	fn addr(&self) -> usize { self as *const _ as usize }

	pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
		let lock = guard.lock;
		if !crate::sched::scheduled() {
			return map(self.real.wait(guard.inner.take().unwrap()), |g| lock.wrap(g));
		}
		// no point between giving up the lock and waiting
		drop(guard.inner.take());
		crate::sched::wait_at(self.addr(), lock.addr());
		lock.lock()
	}

	pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
		while f(&mut g) {
			g = self.wait(g)?;
		}
		Ok(g)
	}

	pub fn notify_one(&self) { self.notify_all() }

	pub fn notify_all(&self) {
		self.real.notify_all();
		released(self.addr());
	}
}
