//! Stand-in for xflags 0.3, written from its documentation.
pub use xflags_macros::xflags;
use std::{ffi::OsString, fmt};

#[derive(Debug)]
pub struct Error {
	msg: String,
	help: bool,
}

pub type Result<T, E = Error> = std::result::Result<T, E>;

impl Error {
	pub fn new(message: impl Into<String>) -> Self { Self { msg: message.into(), help: false } }
	pub fn is_help(&self) -> bool { self.help }
	pub fn exit(self) -> ! {
		if self.help {
			println!("{self}");
			std::process::exit(0)
		}
		eprintln!("{self}");
		std::process::exit(2)
	}
}

impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.msg) }
}

impl std::error::Error for Error {}

#[doc(hidden)]
pub mod rt {
	use super::*;
	pub struct Parser {
		rargs: Vec<OsString>,
		after_double_dash: bool,
	}

	impl Parser {
		pub fn new(mut args: Vec<OsString>) -> Self {
			args.reverse();
			Self { rargs: args, after_double_dash: false }
		}
		pub fn new_from_env() -> Self {
			let mut args: Vec<OsString> = std::env::args_os().collect();
			args.reverse();
			args.pop();
			Self { rargs: args, after_double_dash: false }
		}
		/// A flag, or an argument.
		pub fn pop_flag(&mut self) -> Option<std::result::Result<String, OsString>> {
			if self.after_double_dash {
				return self.rargs.pop().map(Err);
			}
			let arg = self.rargs.pop()?;
			if arg == "--" {
				self.after_double_dash = true;
				return self.pop_flag();
			}
			Some(match arg.into_string() {
				Ok(s) if s.starts_with('-') => Ok(s),
				Ok(s) => Err(s.into()),
				Err(s) => Err(s),
			})
		}
		pub fn next_value(&mut self, flag: &str) -> Result<OsString> {
			self.rargs.pop().ok_or_else(|| Error::new(format!("expected a value for `{flag}`")))
		}
		pub fn next_value_from_str<T: std::str::FromStr>(&mut self, flag: &str) -> Result<T>
		where
			T::Err: fmt::Display,
		{
			let value = self.next_value(flag)?.into_string().map_err(|v| Error::new(format!("can't parse `{flag}`, invalid utf8: {v:?}")))?;
			value.parse().map_err(|e| Error::new(format!("can't parse `{flag}`, {e}")))
		}
		pub fn unexpected_flag(&self, flag: &str) -> Error { Error::new(format!("unexpected flag: `{flag}`")) }
		pub fn unexpected_arg(&self, arg: OsString) -> Error {
			// `to_string_lossy()` is appropriate here because OsString's debug formatting is escaped.
			Error::new(format!("unexpected argument: {:?}", arg.to_string_lossy()))
		}
		pub fn subcommand_required(&self) -> Error { Error::new("subcommand is required") }
		pub fn help(&self, help: &'static str) -> Error { Error { msg: help.to_string(), help: true } }
		pub fn optional<T>(&self, flag: &str, mut vals: Vec<T>) -> Result<Option<T>> {
			if vals.len() > 1 {
				return Err(Error::new(format!("flag specified more than once: `{flag}`")));
			}
			Ok(vals.pop())
		}
		pub fn required<T>(&self, flag: &str, mut vals: Vec<T>) -> Result<T> {
			if vals.len() > 1 {
				return Err(Error::new(format!("flag specified more than once: `{flag}`")));
			}
			vals.pop().ok_or_else(|| Error::new(format!("flag is required: `{flag}`")))
		}
	}
}
