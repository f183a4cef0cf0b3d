//! A single-threaded executor that knows when nothing more can happen.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);

impl Wake for Flag {
	fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

pub struct Task<T> {
	future: Pin<Box<dyn Future<Output = T>>>,
	flag: Arc<Flag>,
	pub result: Option<T>,
}

impl<T> Task<T> {
	pub fn new(f: impl Future<Output = T> + 'static) -> Self {
		Self { future: Box::pin(f), flag: Arc::new(Flag(AtomicBool::new(true))), result: None }
	}

	pub fn done(&self) -> bool { self.result.is_some() }

	/// Polls until nobody has woken the future since its last poll.
	pub fn run(&mut self) {
		while self.result.is_none() && self.flag.0.swap(false, Ordering::SeqCst) {
			let waker = Waker::from(self.flag.clone());
			if let Poll::Ready(r) = self.future.as_mut().poll(&mut Context::from_waker(&waker)) {
				self.result = Some(r);
			}
		}
	}
}
