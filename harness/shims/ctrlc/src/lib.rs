//! Stand-in for ctrlc 3: a thread of its own calls the handler for each SIGINT.
use std::{fmt, os::raw::c_int, sync::atomic::{AtomicBool, AtomicI32, Ordering}};

static PIPE: AtomicI32 = AtomicI32::new(-1);
static SET: AtomicBool = AtomicBool::new(false);

#[derive(Debug)]
pub enum Error {
	NoSuchSignal(()),
	MultipleHandlers,
	System(std::io::Error),
}

impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "Ctrl-C error: {self:?}") }
}

impl std::error::Error for Error {}

extern "C" fn on_signal(_: c_int) { unsafe { libc::write(PIPE.load(Ordering::SeqCst), b"c".as_ptr() as *const _, 1); } }

pub fn set_handler<F: FnMut() + 'static + Send>(mut user_handler: F) -> Result<(), Error> {
	if SET.swap(true, Ordering::SeqCst) {
		return Err(Error::MultipleHandlers);
	}
	let mut fds = [0; 2];
	unsafe {
		if libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
			return Err(Error::System(std::io::Error::last_os_error()));
		}
		PIPE.store(fds[1], Ordering::SeqCst);
		let mut action: libc::sigaction = std::mem::zeroed();
		action.sa_sigaction = on_signal as usize;
		action.sa_flags = libc::SA_RESTART;
		if libc::sigaction(libc::SIGINT, &action, std::ptr::null_mut()) != 0 {
			return Err(Error::System(std::io::Error::last_os_error()));
		}
	}
	std::thread::Builder::new().name("ctrl-c".into()).spawn(move || loop {
		let mut b = 0u8;
		if unsafe { libc::read(fds[0], &mut b as *mut u8 as *mut _, 1) } == 1 {
			user_handler();
		}
	}).map_err(Error::System)?;
	Ok(())
}
