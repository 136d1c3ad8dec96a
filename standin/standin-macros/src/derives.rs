use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{Data, DeriveInput, Fields, Ident, Index};

fn header(i: &DeriveInput, tr: TokenStream, bound: bool) -> (TokenStream, Ident) {
	let mut g = i.generics.clone();
	if bound {
		for p in g.type_params_mut() {
			p.bounds.push(syn::parse_quote!(#tr));
		}
	}
	let (ig, _, _) = g.split_for_impl();
	let (_, tg, wc) = i.generics.split_for_impl();
	let n = &i.ident;
	(quote!(impl #ig #tr for #n #tg #wc), n.clone())
}
/// Patterns binding every field with a prefix, plus the bound names.
fn pat(f: &Fields, p: &str) -> (TokenStream, Vec<Ident>) {
	match f {
		Fields::Named(n) => {
			let names: Vec<_> = n.named.iter().map(|x| x.ident.clone().unwrap()).collect();
			let b: Vec<_> = names.iter().map(|x| format_ident!("{}{}", p, x)).collect();
			(quote!({ #(#names: #b),* }), b)
		}
		Fields::Unnamed(u) => {
			let b: Vec<_> = (0..u.unnamed.len()).map(|x| format_ident!("{}{}", p, x)).collect();
			(quote!(( #(#b),* )), b)
		}
		Fields::Unit => (quote!(), vec![]),
	}
}
fn variants(i: &DeriveInput) -> Vec<(TokenStream, String, Fields)> {
	match &i.data {
		Data::Struct(s) => vec![(quote!(Self), i.ident.to_string(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let n = &v.ident;
				(quote!(Self::#n), n.to_string(), v.fields.clone())
			})
			.collect(),
		Data::Union(_) => panic!("unions are not supported"),
	}
}
pub fn debug(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::fmt::Debug), bound);
	let arms = variants(i).into_iter().map(|(path, name, f)| {
		let (p, b) = pat(&f, "f_");
		let body = match &f {
			Fields::Named(n) => {
				let names = n.named.iter().map(|x| x.ident.as_ref().unwrap().to_string());
				quote!(__fmt.debug_struct(#name) #(.field(#names, #b))* .finish())
			}
			Fields::Unnamed(_) => quote!(__fmt.debug_tuple(#name) #(.field(#b))* .finish()),
			Fields::Unit => quote!(__fmt.write_str(#name)),
		};
		quote!(#path #p => #body,)
	});
	quote!(const _: () = { #[automatically_derived] #h { fn fmt(&self, __fmt: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { match self { #(#arms)* _ => Ok(()) } } } };)
}
pub fn clone(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::clone::Clone), bound);
	let arms = variants(i).into_iter().map(|(path, _, f)| {
		let (p, b) = pat(&f, "f_");
		let build = match &f {
			Fields::Named(n) => {
				let names = n.named.iter().map(|x| x.ident.clone().unwrap());
				quote!(#path { #(#names: ::core::clone::Clone::clone(#b)),* })
			}
			Fields::Unnamed(_) => quote!(#path( #(::core::clone::Clone::clone(#b)),* )),
			Fields::Unit => quote!(#path),
		};
		quote!(#path #p => #build,)
	});
	quote!(const _: () = { #[automatically_derived] #[allow(non_snake_case)] #h { fn clone(&self) -> Self { match self { #(#arms)* } } } };)
}
pub fn partial_eq(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::cmp::PartialEq), bound);
	let arms = variants(i).into_iter().map(|(path, _, f)| {
		let (p, b) = pat(&f, "f_");
		let (q, c) = pat(&f, "g_");
		quote!((#path #p, #path #q) => true #(&& #b == #c)*,)
	});
	quote!(const _: () = { #[automatically_derived] #h { fn eq(&self, __o: &Self) -> bool { match (self, __o) { #(#arms)* _ => false } } } };)
}
pub fn eq(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::cmp::Eq), bound);
	quote!(const _: () = { #[automatically_derived] #h {} };)
}
pub fn default(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::default::Default), bound);
	let body = match &i.data {
		Data::Struct(s) => match &s.fields {
			Fields::Named(n) => {
				let names = n.named.iter().map(|x| &x.ident);
				quote!(Self { #(#names: ::core::default::Default::default()),* })
			}
			Fields::Unnamed(u) => {
				let d = u.unnamed.iter().map(|_| quote!(::core::default::Default::default()));
				quote!(Self(#(#d),*))
			}
			Fields::Unit => quote!(Self),
		},
		Data::Enum(e) => {
			let v = e
				.variants
				.iter()
				.find(|v| v.attrs.iter().any(|a| a.path().is_ident("default")))
				.or(e.variants.first())
				.expect("a variant");
			let n = &v.ident;
			quote!(Self::#n)
		}
		_ => panic!(),
	};
	quote!(const _: () = { #[automatically_derived] #h { fn default() -> Self { #body } } };)
}
pub fn partial_ord(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::cmp::PartialOrd), bound);
	quote!(const _: () = { #[automatically_derived] #h { fn partial_cmp(&self, o: &Self) -> Option<::core::cmp::Ordering> { Some(self.cmp(o)) } } };)
}
pub fn ord(i: &DeriveInput, bound: bool) -> TokenStream {
	let (h, _) = header(i, quote!(::core::cmp::Ord), bound);
	let Data::Struct(s) = &i.data else { panic!("OrdNoBound on structs only") };
	let cmp = s.fields.iter().enumerate().map(|(k, f)| match &f.ident {
		Some(n) => quote!(.then_with(|| self.#n.cmp(&o.#n))),
		None => {
			let k = Index::from(k);
			quote!(.then_with(|| self.#k.cmp(&o.#k)))
		}
	});
	quote!(const _: () = { #[automatically_derived] #h { fn cmp(&self, o: &Self) -> ::core::cmp::Ordering { ::core::cmp::Ordering::Equal #(#cmp)* } } };)
}
