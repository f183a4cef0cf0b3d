//! js-sys for a native build, as far as p4analyzer may need it.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{Bytes, FromJs, JsCast, JsValue, Kind, ToJs};

macro_rules! class {
	($name:ident) => {
		#[derive(Clone, Debug)]
		pub struct $name(JsValue);
		impl AsRef<JsValue> for $name {
			fn as_ref(&self) -> &JsValue { &self.0 }
		}
		impl std::ops::Deref for $name {
			type Target = JsValue;
			fn deref(&self) -> &JsValue { &self.0 }
		}
		impl From<$name> for JsValue {
			fn from(v: $name) -> Self { v.0 }
		}
		impl From<JsValue> for $name {
			fn from(v: JsValue) -> Self { $name(v) }
		}
		impl ToJs for $name {
			fn to_js(&self) -> JsValue { self.0.clone() }
		}
		impl FromJs for $name {
			fn from_js(v: JsValue) -> Self { $name(v) }
		}
		impl JsCast for $name {
			fn unchecked_from_js(v: JsValue) -> Self { $name(v) }
		}
	};
}

class!(Uint8Array);
class!(Function);
class!(Error);
class!(JsString);

impl Uint8Array {
	/// A copy of another array (or buffer); an empty array for what is none.
	pub fn new(v: &JsValue) -> Self {
		match &v.0 {
			Kind::Bytes(b) => Self::from(&b.0.borrow()[b.1..b.1 + b.2]),
			Kind::Num(n) => Self::new_with_length(*n as u32),
			_ => Self::new_with_length(0),
		}
	}
	pub fn new_with_length(n: u32) -> Self { Self::from(&vec![0; n as usize][..]) }
	fn bytes(&self) -> &Bytes {
		match &(self.0).0 {
			Kind::Bytes(b) => b,
			_ => panic!("not an array"),
		}
	}
	pub fn length(&self) -> u32 { self.bytes().2 as u32 }
	pub fn byte_length(&self) -> u32 { self.length() }
	pub fn to_vec(&self) -> Vec<u8> {
		let b = self.bytes();
		b.0.borrow()[b.1..b.1 + b.2].to_vec()
	}
	pub fn copy_from(&self, src: &[u8]) {
		let b = self.bytes();
		b.0.borrow_mut()[b.1..b.1 + b.2].copy_from_slice(src)
	}
	pub fn copy_to(&self, dst: &mut [u8]) {
		let b = self.bytes();
		dst.copy_from_slice(&b.0.borrow()[b.1..b.1 + b.2])
	}
	pub fn get_index(&self, i: u32) -> u8 { self.to_vec()[i as usize] }
	pub fn set_index(&self, i: u32, v: u8) {
		let b = self.bytes();
		b.0.borrow_mut()[b.1 + i as usize] = v
	}
	pub fn subarray(&self, begin: u32, end: u32) -> Self {
		let b = self.bytes();
		let (s, e) = ((begin as usize).min(b.2), (end as usize).min(b.2));
		Uint8Array(JsValue(Kind::Bytes(Bytes(b.0.clone(), b.1 + s, e.saturating_sub(s)))))
	}
	pub fn slice(&self, begin: u32, end: u32) -> Self { Self::new(&self.subarray(begin, end).0) }
	pub unsafe fn view(src: &[u8]) -> Self { Self::from(src) }
}

impl From<&[u8]> for Uint8Array {
	fn from(src: &[u8]) -> Self { Uint8Array(JsValue(Kind::Bytes(Bytes(Rc::new(RefCell::new(src.to_vec())), 0, src.len())))) }
}

impl Function {
	pub fn native(f: impl Fn(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Self { Function(JsValue(Kind::Func(Rc::new(f)))) }
	fn call(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
		match &(self.0).0 {
			Kind::Func(f) => f(args),
			_ => Err(JsValue(Kind::Error("TypeError: not a function".into()))),
		}
	}
	pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> { self.call(&[]) }
	pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { self.call(&[a.clone()]) }
	pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> { self.call(&[a.clone(), b.clone()]) }
}

impl Error {
	pub fn new(message: &str) -> Self { Error(JsValue(Kind::Error(message.into()))) }
	pub fn message(&self) -> JsString {
		match &(self.0).0 {
			Kind::Error(e) => JsString(JsValue::from_str(e)),
			_ => JsString(JsValue::from_str("")),
		}
	}
}

impl From<&str> for JsString {
	fn from(s: &str) -> Self { JsString(JsValue::from_str(s)) }
}
impl From<JsString> for String {
	fn from(s: JsString) -> Self { s.0.as_string().unwrap_or_default() }
}
