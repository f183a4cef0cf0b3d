//! `#[wasm_bindgen]` for a native build: what JavaScript sees is plain Rust, what Rust imports goes through
//! `wasm_bindgen::host::call`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{Attribute, FnArg, ForeignItem, ForeignItemFn, Item, Pat, ReturnType, Type};

/// The options of the `#[wasm_bindgen(...)]` attributes, as (name, value).
fn options(attrs: &[Attribute]) -> Vec<(String, String)> {
	let mut out = vec![];
	for a in attrs.iter().filter(|a| a.path.is_ident("wasm_bindgen")) {
		for part in split(a.tokens.clone()) {
			let (name, value) = part.split_once('=').map(|(a, b)| (a.trim().to_string(), b.trim().trim_matches('"').to_string())).unwrap_or((part.trim().to_string(), String::new()));
			out.push((name, value));
		}
	}
	out
}

fn split(tokens: proc_macro2::TokenStream) -> Vec<String> {
	let text = tokens.to_string();
	let inner = text.trim().trim_start_matches('(').trim_end_matches(')').to_string();
	inner.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect()
}

fn strip(attrs: &mut Vec<Attribute>) { attrs.retain(|a| !a.path.is_ident("wasm_bindgen")) }

fn base(ty: &Type) -> &Type {
	match ty {
		Type::Reference(r) => base(&r.elem),
		_ => ty,
	}
}

fn foreign(f: &ForeignItemFn) -> proc_macro2::TokenStream {
	let opts = options(&f.attrs);
	let get = |n: &str| opts.iter().find(|o| o.0 == n).map(|o| o.1.clone());
	let (vis, name) = (&f.vis, &f.sig.ident);
	let js = get("js_name").unwrap_or_else(|| name.to_string().trim_start_matches("r#").to_string());
	let catch = get("catch").is_some();
	let method = get("method").is_some() || get("structural").is_some() && f.sig.inputs.len() > 0 && get("static_method_of").is_none();
	let mut names = vec![];
	let mut types = vec![];
	for (i, a) in f.sig.inputs.iter().enumerate() {
		if let FnArg::Typed(t) = a {
			names.push(match &*t.pat {
				Pat::Ident(p) => p.ident.clone(),
				_ => format_ident!("arg{}", i),
			});
			types.push((*t.ty).clone());
		}
	}
	let ret = &f.sig.output;
	let call = |full: String, args: proc_macro2::TokenStream| match (ret, catch) {
		(ReturnType::Default, _) => quote! { let _ = wasm_bindgen::host::call(#full, vec![#args]); },
		(_, true) => quote! { wasm_bindgen::host::call(#full, vec![#args]).map(|v| wasm_bindgen::FromJs::from_js(v)) },
		_ => quote! { wasm_bindgen::FromJs::from_js(wasm_bindgen::host::call(#full, vec![#args]).expect("JavaScript exception")) },
	};
	let args = |skip: usize| {
		let n = &names[skip..];
		quote! { #(wasm_bindgen::ToJs::to_js(&#n)),* }
	};
	if let Some(class) = get("static_method_of") {
		let class_ident = format_ident!("{}", class);
		let body = call(format!("{class}.{js}"), args(0));
		return quote! { impl #class_ident { #vis fn #name(#(#names: #types),*) #ret { #body } } };
	}
	if get("constructor").is_some() {
		if let ReturnType::Type(_, t) = ret {
			let t = base(t);
			let body = call(format!("new {}", quote!(#t)), args(0));
			return quote! { impl #t { #vis fn #name(#(#names: #types),*) #ret { #body } } };
		}
	}
	if method && !types.is_empty() {
		let class = base(&types[0]).clone();
		let (n, t) = (&names[1..], &types[1..]);
		let rest = args(1);
		let body = call(format!("{}::{js}", quote!(#class)), quote! { wasm_bindgen::ToJs::to_js(self), #rest });
		return quote! { impl #class { #vis fn #name(&self, #(#n: #t),*) #ret { #body } } };
	}
	let full = match get("js_namespace") {
		Some(ns) => format!("{ns}.{js}"),
		None => js,
	};
	let body = call(full, args(0));
	quote! { #vis fn #name(#(#names: #types),*) #ret { #body } }
}

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let item = syn::parse_macro_input!(item as Item);
	match item {
		Item::ForeignMod(m) => {
			let mut out = quote! {};
			for i in &m.items {
				match i {
					ForeignItem::Type(t) => {
						let (vis, name) = (&t.vis, &t.ident);
						out.extend(quote! {
							#[derive(Clone, Debug)]
							#vis struct #name(wasm_bindgen::JsValue);
							impl AsRef<wasm_bindgen::JsValue> for #name { fn as_ref(&self) -> &wasm_bindgen::JsValue { &self.0 } }
							impl std::ops::Deref for #name { type Target = wasm_bindgen::JsValue; fn deref(&self) -> &wasm_bindgen::JsValue { &self.0 } }
							impl From<#name> for wasm_bindgen::JsValue { fn from(v: #name) -> Self { v.0 } }
							impl From<wasm_bindgen::JsValue> for #name { fn from(v: wasm_bindgen::JsValue) -> Self { #name(v) } }
							impl wasm_bindgen::FromJs for #name { fn from_js(v: wasm_bindgen::JsValue) -> Self { #name(v) } }
							impl wasm_bindgen::ToJs for #name { fn to_js(&self) -> wasm_bindgen::JsValue { self.0.clone() } }
							impl wasm_bindgen::JsCast for #name { fn unchecked_from_js(v: wasm_bindgen::JsValue) -> Self { #name(v) } }
						});
					}
					ForeignItem::Fn(f) => out.extend(foreign(f)),
					_ => (),
				}
			}
			out.into()
		}
		Item::Impl(mut i) => {
			for x in &mut i.items {
				match x {
					syn::ImplItem::Method(m) => strip(&mut m.attrs),
					syn::ImplItem::Const(c) => strip(&mut c.attrs),
					_ => (),
				}
			}
			quote!(#i).into()
		}
		Item::Struct(mut s) => {
			for f in &mut s.fields {
				strip(&mut f.attrs);
			}
			quote!(#s).into()
		}
		other => quote!(#other).into(),
	}
}

