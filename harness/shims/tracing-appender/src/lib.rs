//! Stand-in for tracing-appender 0.2: files without rotation; the non-blocking writer writes at once, and nothing any more
//! when its guard is gone.
use std::io;

pub mod rolling {
	use super::*;
	use std::{fs::{File, OpenOptions}, path::Path};

	#[derive(Clone, Eq, PartialEq, Debug)]
	pub struct Rotation(&'static str);

	impl Rotation {
		pub const MINUTELY: Self = Self("minutely");
		pub const HOURLY: Self = Self("hourly");
		pub const DAILY: Self = Self("daily");
		pub const NEVER: Self = Self("never");
	}

	#[derive(Debug)]
	pub struct RollingFileAppender(File);

	impl RollingFileAppender {
		pub fn new(rotation: Rotation, directory: impl AsRef<Path>, file_name_prefix: impl AsRef<Path>) -> Self {
			assert!(rotation == Rotation::NEVER, "stand-in for tracing-appender: no rotation");
			let path = directory.as_ref().join(file_name_prefix);
			let open = || OpenOptions::new().append(true).create(true).open(&path);
			let file = open().or_else(|_| {
				std::fs::create_dir_all(directory.as_ref())?;
				open()
			});
			Self(file.expect("failed to create log file"))
		}
	}

	pub fn never(directory: impl AsRef<Path>, file_name: impl AsRef<Path>) -> RollingFileAppender { RollingFileAppender::new(Rotation::NEVER, directory, file_name) }

	impl io::Write for RollingFileAppender {
		fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.0.write(buf) }
		fn flush(&mut self) -> io::Result<()> { self.0.flush() }
	}
}

pub mod non_blocking {
	use super::*;
	use std::sync::{Arc, Mutex};
	use tracing_subscriber::fmt::MakeWriter;

	type Shared = Arc<Mutex<Option<Box<dyn io::Write + Send>>>>;

	#[must_use]
	pub struct WorkerGuard(Shared);

	impl std::fmt::Debug for WorkerGuard {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("WorkerGuard") }
	}

	impl Drop for WorkerGuard {
		fn drop(&mut self) {
			if let Some(mut w) = self.0.lock().unwrap().take() {
				let _ = w.flush();
			}
		}
	}

	#[derive(Clone)]
	pub struct NonBlocking(Shared);

	impl NonBlocking {
		pub fn new<T: io::Write + Send + 'static>(writer: T) -> (NonBlocking, WorkerGuard) {
			let shared: Shared = Arc::new(Mutex::new(Some(Box::new(writer))));
			(NonBlocking(shared.clone()), WorkerGuard(shared))
		}
	}

	impl io::Write for NonBlocking {
		fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
			if let Some(w) = self.0.lock().unwrap().as_mut() {
				let _ = w.write_all(buf);
			}
			Ok(buf.len())
		}
		fn flush(&mut self) -> io::Result<()> { Ok(()) }
	}

	impl<'a> MakeWriter<'a> for NonBlocking {
		type Writer = NonBlocking;
		fn make_writer(&'a self) -> Self::Writer { self.clone() }
	}
}

pub fn non_blocking<T: io::Write + Send + 'static>(writer: T) -> (non_blocking::NonBlocking, non_blocking::WorkerGuard) { non_blocking::NonBlocking::new(writer) }
