use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Fields, FnArg, Item, ItemFn, ItemStruct, Pat, ReturnType};

#[proc_macro_attribute]
pub fn db(args: TokenStream, input: TokenStream) -> TokenStream {
	let jars = proc_macro2::TokenStream::from(args);
	let s = parse_macro_input!(input as ItemStruct);
	let name = &s.ident;
	quote! {
		#s
		impl salsa::DbWithJar<#jars> for #name {
			fn __rt(&self) -> &salsa::Runtime { self.storage.__rt() }
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn jar(_args: TokenStream, input: TokenStream) -> TokenStream {
	let s = parse_macro_input!(input as ItemStruct);
	let (vis, name) = (&s.vis, &s.ident);
	quote! { #vis struct #name; }.into()
}

#[proc_macro_attribute]
pub fn accumulator(_args: TokenStream, input: TokenStream) -> TokenStream {
	let s = parse_macro_input!(input as ItemStruct);
	let (vis, name) = (&s.vis, &s.ident);
	let ty = match &s.fields {
		Fields::Unnamed(f) => f.unnamed[0].ty.clone(),
		_ => panic!("accumulator must be a tuple struct"),
	};
	quote! {
		#vis struct #name;
		impl salsa::Accumulator for #name { type Data = #ty; }
		impl #name {
			#vis fn push<__D: ?Sized + salsa::DbWithJar<crate::Jar>>(db: &__D, data: #ty) {
				db.__rt().push::<#name, #ty>(data)
			}
		}
	}
	.into()
}

fn structure(s: ItemStruct, interned: bool) -> TokenStream {
	let (vis, name) = (&s.vis, &s.ident);
	let fields = match &s.fields {
		Fields::Named(f) => f.named.iter().collect::<Vec<_>>(),
		_ => panic!("named fields expected"),
	};
	let tys: Vec<_> = fields.iter().map(|f| f.ty.clone()).collect();
	let names: Vec<_> = fields.iter().map(|f| f.ident.clone().unwrap()).collect();
	let tuple = quote! { (#(#tys,)*) };
	let mut methods = vec![];
	for (i, f) in fields.iter().enumerate() {
		let idx = syn::Index::from(i);
		let (fvis, fname, fty) = (&f.vis, f.ident.as_ref().unwrap(), &f.ty);
		let by_ref = f.attrs.iter().any(|a| a.path.is_ident("return_ref"));
		methods.push(if by_ref {
			quote! {
				#[allow(dead_code)]
				#fvis fn #fname<'db, __D: ?Sized + salsa::DbWithJar<crate::Jar>>(self, db: &'db __D) -> &'db #fty {
					&db.__rt().get::<#tuple>(std::any::TypeId::of::<#name>(), self.0).#idx
				}
			}
		} else {
			quote! {
				#[allow(dead_code)]
				#fvis fn #fname<'db, __D: ?Sized + salsa::DbWithJar<crate::Jar>>(self, db: &'db __D) -> #fty {
					db.__rt().get::<#tuple>(std::any::TypeId::of::<#name>(), self.0).#idx.clone()
				}
			}
		});
	}
	let make = if interned { format_ident!("intern") } else { format_ident!("alloc") };
	quote! {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
		#vis struct #name(u32);
		impl #name {
			#vis fn new<__D: ?Sized + salsa::DbWithJar<crate::Jar>>(db: &__D, #(#names: #tys),*) -> Self {
				Self(db.__rt().#make(std::any::TypeId::of::<#name>(), (#(#names,)*)))
			}
			#(#methods)*
		}
	}
	.into()
}

#[proc_macro_attribute]
pub fn input(_args: TokenStream, input: TokenStream) -> TokenStream {
	structure(parse_macro_input!(input as ItemStruct), false)
}

#[proc_macro_attribute]
pub fn interned(_args: TokenStream, input: TokenStream) -> TokenStream {
	structure(parse_macro_input!(input as ItemStruct), true)
}

#[proc_macro_attribute]
pub fn tracked(args: TokenStream, input: TokenStream) -> TokenStream {
	let return_ref = args.to_string().contains("return_ref");
	match parse_macro_input!(input as Item) {
		Item::Struct(s) => structure(s, false),
		Item::Fn(f) => function(f, return_ref),
		_ => panic!("salsa shim: unsupported tracked item"),
	}
}

fn function(f: ItemFn, return_ref: bool) -> TokenStream {
	let (vis, name, block, attrs) = (&f.vis, &f.sig.ident, &f.block, &f.attrs);
	let mut args = f.sig.inputs.iter();
	let (db_pat, db_ty) = match args.next() {
		Some(FnArg::Typed(t)) => (t.pat.clone(), match &*t.ty {
			syn::Type::Reference(r) => r.elem.clone(),
			_ => panic!("db must be a reference"),
		}),
		_ => panic!("db argument expected"),
	};
	let (mut names, mut tys, mut pats) = (vec![], vec![], vec![]);
	for (i, a) in args.enumerate() {
		if let FnArg::Typed(t) = a {
			names.push(match &*t.pat {
				Pat::Ident(i) => i.ident.clone(),
				_ => format_ident!("__arg{}", i),
			});
			pats.push(t.pat.clone());
			tys.push(t.ty.clone());
		}
	}
	let ret = match &f.sig.output {
		ReturnType::Default => quote! { () },
		ReturnType::Type(_, t) => quote! { #t },
	};
	let inner = format_ident!("__salsa_body_{}", name);
	let (out, get) = if return_ref {
		(quote! { &'db #ret }, quote! {})
	} else {
		(quote! { #ret }, quote! { .clone() })
	};
	quote! {
		#[allow(non_camel_case_types)]
		#vis struct #name {}
		#[allow(non_snake_case)]
		#(#attrs)*
		fn #inner(#db_pat: &#db_ty, #(#pats: #tys),*) -> #ret #block
		#vis fn #name<'db>(db: &'db #db_ty, #(#names: #tys),*) -> #out {
			db.__rt().memo::<(#(#tys,)*), #ret>(std::any::TypeId::of::<#name>(), (#(#names.clone(),)*), || #inner(db, #(#names),*)) #get
		}
		impl #name {
			#[allow(dead_code)]
			#vis fn accumulated<'db, __A: salsa::Accumulator + 'static>(db: &'db #db_ty, #(#names: #tys),*) -> Vec<__A::Data> {
				db.__rt().accumulated::<__A, (#(#tys,)*), #ret>(std::any::TypeId::of::<#name>(), (#(#names.clone(),)*), || #inner(db, #(#names),*))
			}
		}
	}
	.into()
}
