//! wasm-bindgen for a native build: JavaScript values of the kinds p4analyzer uses, and a host for imported functions.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use wasm_bindgen_macro_shim::wasm_bindgen;

pub mod prelude {
	pub use crate::{wasm_bindgen, JsCast, JsValue, UnwrapThrowExt};
}

type Callback = Rc<dyn Fn(&[JsValue]) -> Result<JsValue, JsValue>>;

/// Bytes of an array buffer, shared by its views: buffer, offset, length.
#[derive(Clone)]
pub struct Bytes(pub Rc<RefCell<Vec<u8>>>, pub usize, pub usize);

#[derive(Clone)]
pub enum Kind {
	Undefined,
	Null,
	Bool(bool),
	Num(f64),
	Str(Rc<str>),
	Bytes(Bytes),
	Error(Rc<str>),
	Func(Callback),
}

#[derive(Clone)]
pub struct JsValue(pub Kind);

impl JsValue {
	pub const UNDEFINED: JsValue = JsValue(Kind::Undefined);
	pub const NULL: JsValue = JsValue(Kind::Null);
	pub const TRUE: JsValue = JsValue(Kind::Bool(true));
	pub const FALSE: JsValue = JsValue(Kind::Bool(false));

	pub fn undefined() -> Self { Self::UNDEFINED }
	pub fn null() -> Self { Self::NULL }
	pub fn from_str(s: &str) -> Self { JsValue(Kind::Str(s.into())) }
	pub fn from_f64(n: f64) -> Self { JsValue(Kind::Num(n)) }
	pub fn from_bool(b: bool) -> Self { JsValue(Kind::Bool(b)) }
	pub fn is_undefined(&self) -> bool { matches!(self.0, Kind::Undefined) }
	pub fn is_null(&self) -> bool { matches!(self.0, Kind::Null) }
	pub fn is_string(&self) -> bool { matches!(self.0, Kind::Str(_)) }
	pub fn is_function(&self) -> bool { matches!(self.0, Kind::Func(_)) }
	pub fn is_object(&self) -> bool { matches!(self.0, Kind::Bytes(_) | Kind::Error(_)) }
	pub fn is_truthy(&self) -> bool { !self.is_falsy() }
	pub fn is_falsy(&self) -> bool {
		match &self.0 {
			Kind::Undefined | Kind::Null => true,
			Kind::Bool(b) => !b,
			Kind::Num(n) => *n == 0.0 || n.is_nan(),
			Kind::Str(s) => s.is_empty(),
			_ => false,
		}
	}
	pub fn as_string(&self) -> Option<String> {
		match &self.0 {
			Kind::Str(s) => Some(s.to_string()),
			_ => None,
		}
	}
	pub fn as_f64(&self) -> Option<f64> {
		match &self.0 {
			Kind::Num(n) => Some(*n),
			_ => None,
		}
	}
	pub fn as_bool(&self) -> Option<bool> {
		match &self.0 {
			Kind::Bool(b) => Some(*b),
			_ => None,
		}
	}
}

impl fmt::Debug for JsValue {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match &self.0 {
			Kind::Undefined => write!(f, "undefined"),
			Kind::Null => write!(f, "null"),
			Kind::Bool(b) => write!(f, "{b}"),
			Kind::Num(n) => write!(f, "{n}"),
			Kind::Str(s) => write!(f, "{s:?}"),
			Kind::Bytes(b) => write!(f, "bytes[{}]", b.2),
			Kind::Error(e) => write!(f, "Error: {e}"),
			Kind::Func(_) => write!(f, "function"),
		}
	}
}

impl Default for JsValue {
	fn default() -> Self { Self::UNDEFINED }
}
impl AsRef<JsValue> for JsValue {
	fn as_ref(&self) -> &JsValue { self }
}
impl From<&str> for JsValue {
	fn from(s: &str) -> Self { Self::from_str(s) }
}
impl From<String> for JsValue {
	fn from(s: String) -> Self { Self::from_str(&s) }
}
impl From<&String> for JsValue {
	fn from(s: &String) -> Self { Self::from_str(s) }
}
impl From<bool> for JsValue {
	fn from(b: bool) -> Self { JsValue(Kind::Bool(b)) }
}
impl From<&JsValue> for JsValue {
	fn from(v: &JsValue) -> Self { v.clone() }
}
macro_rules! numbers {
	($($t:ty)*) => { $(
		impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue(Kind::Num(n as f64)) } }
		impl ToJs for $t { fn to_js(&self) -> JsValue { JsValue::from(*self) } }
		impl FromJs for $t { fn from_js(v: JsValue) -> Self { v.as_f64().unwrap_or(0.0) as $t } }
	)* }
}
numbers!(u8 u16 u32 i8 i16 i32 f32 f64 usize isize);

pub trait ToJs {
	fn to_js(&self) -> JsValue;
}
pub trait FromJs {
	fn from_js(v: JsValue) -> Self;
}
impl ToJs for JsValue {
	fn to_js(&self) -> JsValue { self.clone() }
}
impl FromJs for JsValue {
	fn from_js(v: JsValue) -> Self { v }
}
impl ToJs for str {
	fn to_js(&self) -> JsValue { JsValue::from_str(self) }
}
impl ToJs for String {
	fn to_js(&self) -> JsValue { JsValue::from_str(self) }
}
impl FromJs for String {
	fn from_js(v: JsValue) -> Self { v.as_string().unwrap_or_default() }
}
impl ToJs for bool {
	fn to_js(&self) -> JsValue { JsValue::from(*self) }
}
impl FromJs for bool {
	fn from_js(v: JsValue) -> Self { v.is_truthy() }
}
impl ToJs for [u8] {
	fn to_js(&self) -> JsValue { JsValue(Kind::Bytes(Bytes(Rc::new(RefCell::new(self.to_vec())), 0, self.len()))) }
}
impl<T: ToJs + ?Sized> ToJs for &T {
	fn to_js(&self) -> JsValue { (**self).to_js() }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
	fn unchecked_from_js(v: JsValue) -> Self;
	fn unchecked_into<T: JsCast>(self) -> T { T::unchecked_from_js(self.into()) }
}
impl JsCast for JsValue {
	fn unchecked_from_js(v: JsValue) -> Self { v }
}

pub trait UnwrapThrowExt<T>: Sized {
	fn unwrap_throw(self) -> T;
	fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
	fn unwrap_throw(self) -> T { self.unwrap() }
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
	fn unwrap_throw(self) -> T { self.unwrap() }
	fn expect_throw(self, message: &str) -> T { self.expect(message) }
}

pub fn throw_str(s: &str) -> ! { panic!("{s}") }

/// The JavaScript side.
pub mod host {
	use super::*;

	pub fn call(name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
		match name {
			// a view of the same memory, and a copy of it
			"Buffer.from" => match args.get(0) {
				Some(JsValue(Kind::Bytes(b))) => Ok(JsValue(Kind::Bytes(b.clone()))),
				Some(JsValue(Kind::Str(s))) => Ok(s.as_bytes().to_js()),
				_ => Err(JsValue(Kind::Error("TypeError".into()))),
			},
			_ if name.starts_with("console.") => Ok(JsValue::UNDEFINED),
			_ => panic!("the stand-in for JavaScript has no {name}"),
		}
	}
}
