//! `#[frame_support::pallet]`: turns a pallet module into plain Rust over the stand-in crates.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use std::collections::HashMap;
use syn::{parse_quote, spanned::Spanned, *};

/// Removes `#[pallet::…]` attributes and returns them as (name, tokens).
fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, TokenStream)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let p = a.path();
		if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
			let t = match &a.meta {
				Meta::List(l) => l.tokens.clone(),
				_ => TokenStream::new(),
			};
			out.push((p.segments[1].ident.to_string(), t));
			false
		} else {
			true
		}
	});
	out
}
fn has(a: &[(String, TokenStream)], n: &str) -> Option<TokenStream> {
	a.iter().find(|x| x.0 == n).map(|x| x.1.clone())
}
/// Generic parameters without the trait's own attributes; (`<T: Config, I: 'static>`, `<T, I>`).
fn generics_for(instance: bool) -> (TokenStream, TokenStream) {
	if instance {
		(quote!(T: Config<I>, I: 'static), quote!(T, I))
	} else {
		(quote!(T: Config), quote!(T))
	}
}

pub fn expand(mut m: ItemMod) -> Result<TokenStream> {
	let span = m.span();
	let items = match &mut m.content {
		Some((_, i)) => i,
		None => return Err(Error::new(span, "pallet module must be inline")),
	};
	let mut out: Vec<Item> = vec![];
	let mut instance = false;
	for i in items.iter() {
		if let Item::Trait(t) = i {
			if t.ident == "Config" && t.generics.type_params().count() > 0 {
				instance = true;
			}
		}
	}
	let (gdef, guse) = generics_for(instance);
	let config = if instance { quote!(Config<I>) } else { quote!(Config) };
	let mut getters: Vec<TokenStream> = vec![];
	let mut saw_call = false;
	let mut saw_event = false;
	let mut has_origin = false;
	for item in items.drain(..) {
		match item {
			Item::Trait(mut t) => {
				let a = take(&mut t.attrs);
				if has(&a, "config").is_some() {
					for ti in t.items.iter_mut() {
						match ti {
							TraitItem::Type(x) => {
								take(&mut x.attrs);
							}
							TraitItem::Fn(x) => {
								take(&mut x.attrs);
							}
							TraitItem::Const(x) => {
								take(&mut x.attrs);
							}
							_ => {}
						}
					}
				}
				out.push(Item::Trait(t));
			}
			Item::Struct(mut s) => {
				let a = take(&mut s.attrs);
				if has(&a, "pallet").is_some() {
					let vis = &s.vis;
					let g = &s.generics;
					let (ig, tg, wc) = g.split_for_impl();
					let name = &s.ident;
					let params: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
					let attrs = &s.attrs;
					out.push(Item::Verbatim(quote!(
						#(#attrs)*
						#vis struct #name #g (::core::marker::PhantomData<(#(#params,)*)>) #wc;
						impl #ig Clone for #name #tg #wc { fn clone(&self) -> Self { Self(::core::marker::PhantomData) } }
						impl #ig PartialEq for #name #tg #wc { fn eq(&self, _: &Self) -> bool { true } }
						impl #ig Eq for #name #tg #wc {}
						impl #ig ::core::fmt::Debug for #name #tg #wc { fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(stringify!(#name)) } }
					)));
				} else {
					for f in s.fields.iter_mut() {
						take(&mut f.attrs);
					}
					out.push(Item::Struct(s));
				}
			}
			Item::Type(mut t) => {
				let a = take(&mut t.attrs);
				if has(&a, "storage").is_some() {
					let getter = has(&a, "getter");
					let prefix_name = has(&a, "storage_prefix");
					expand_storage(&mut t, getter, prefix_name, instance, &mut out, &mut getters)?;
				} else {
					if has(&a, "origin").is_some() {
						has_origin = true;
					}
					out.push(Item::Type(t));
				}
			}
			Item::Enum(mut e) => {
				let a = take(&mut e.attrs);
				if has(&a, "event").is_some() {
					saw_event = true;
					let dep = has(&a, "generate_deposit");
					expand_event(e, dep, instance, &mut out)?;
				} else if has(&a, "error").is_some() {
					expand_error(e, instance, &mut out)?;
				} else if has(&a, "composite_enum").is_some() {
					let n = &e.ident;
					out.push(Item::Verbatim(quote!(
						#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Debug,
							::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode,
							::frame_support::__private::codec::MaxEncodedLen, ::frame_support::__private::scale_info::TypeInfo)]
						#e
						impl ::frame_support::traits::VariantCount for #n { const VARIANT_COUNT: u32 = 16; }
					)));
				} else {
					if has(&a, "origin").is_some() {
						has_origin = true;
					}
					out.push(Item::Enum(e));
				}
			}
			Item::Impl(mut i) => {
				let a = take(&mut i.attrs);
				if let Some(cattr) = has(&a, "call") {
					saw_call = true;
					expand_call(i, cattr, instance, &mut out)?;
				} else {
					for it in i.items.iter_mut() {
						if let ImplItem::Fn(f) = it {
							take(&mut f.attrs);
						}
					}
					out.push(Item::Impl(i));
				}
			}
			Item::Fn(mut f) => {
				let a = take(&mut f.attrs);
				if has(&a, "type_value").is_some() {
					let (vis, n, g, b) = (&f.vis, &f.sig.ident, &f.sig.generics, &f.block);
					let ret = match &f.sig.output {
						ReturnType::Type(_, t) => t.clone(),
						_ => return Err(Error::new(f.span(), "type_value needs a type")),
					};
					let (ig, tg, wc) = g.split_for_impl();
					let params: Vec<_> = g.type_params().map(|p| p.ident.clone()).collect();
					out.push(Item::Verbatim(quote!(
						#vis struct #n #ig (::core::marker::PhantomData<(#(#params,)*)>) #wc;
						impl #ig ::frame_support::traits::Get<#ret> for #n #tg #wc { fn get() -> #ret #b }
					)));
				} else {
					out.push(Item::Fn(f));
				}
			}
			Item::Use(mut u) => {
				take(&mut u.attrs);
				out.push(Item::Use(u));
			}
			other => out.push(other),
		}
	}
	if !getters.is_empty() {
		out.push(Item::Verbatim(quote!(impl<#gdef> Pallet<#guse> { #(#getters)* })));
	}
	let _ = (saw_event, has_origin, config);
	if !saw_call {
		// a pallet without calls still has a (never constructed) call type
		let mut c = vec![];
		expand_call(parse_quote!(impl<#gdef> Pallet<#guse> {}), TokenStream::new(), instance, &mut c)?;
		out.extend(c);
	}
	out.push(Item::Verbatim(quote!(
		impl<#gdef> ::frame_support::traits::PalletNamePrefix for Pallet<#guse> {
			fn storage_prefix() -> &'static str { module_path!() }
		}
	)));
	let (attrs, vis, name) = (&m.attrs, &m.vis, &m.ident);
	Ok(quote!(#(#attrs)* #[allow(unused_imports, dead_code, non_camel_case_types)] #vis mod #name { #(#out)* }))
}

fn expand_storage(
	t: &mut ItemType,
	getter: Option<TokenStream>,
	prefix: Option<TokenStream>,
	instance: bool,
	out: &mut Vec<Item>,
	getters: &mut Vec<TokenStream>,
) -> Result<()> {
	let name = t.ident.to_string();
	let pfx = format_ident!("_GeneratedPrefixForStorage{}", t.ident);
	let (_, guse) = generics_for(instance);
	let gdecl = if instance { quote!(T, I = ()) } else { quote!(T) };
	let gplain = if instance { quote!(T, I) } else { quote!(T) };
	let label = match prefix {
		Some(p) => quote!(#p),
		None => quote!(#name),
	};
	// the parameters in scope of the alias
	let alias_params: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let phantom_use = if alias_params.is_empty() { quote!(()) } else { quote!(#(#alias_params),*) };
	out.push(Item::Verbatim(quote!(
		#[doc(hidden)]
		pub struct #pfx<#gdecl>(::core::marker::PhantomData<(#gplain,)>);
		impl<#gplain> ::frame_support::traits::StorageInstance for #pfx<#gplain> {
			const STORAGE_PREFIX: &'static str = #label;
			fn pallet_prefix() -> &'static str { module_path!() }
		}
	)));
	// replace `_` and the ResultQuery form
	let Type::Path(p) = &mut *t.ty else { return Err(Error::new(t.span(), "storage type must be a path")) };
	let seg = p.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(args) = &mut seg.arguments else {
		return Err(Error::new(seg.span(), "storage type needs generics"));
	};
	// named generics: `StorageMap<Hasher = …, Key = …, Value = …>`
	let named: HashMap<String, Type> = args
		.args
		.iter()
		.filter_map(|a| match a {
			GenericArgument::AssocType(b) => Some((b.ident.to_string(), b.ty.clone())),
			_ => None,
		})
		.collect();
	if !named.is_empty() {
		let order: &[&str] = match kind.as_str() {
			"StorageValue" => &["Value", "QueryKind", "OnEmpty"],
			"StorageDoubleMap" => &["Hasher1", "Key1", "Hasher2", "Key2", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			"StorageNMap" | "CountedStorageNMap" => &["Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
			_ => &["Hasher", "Key", "Value", "QueryKind", "OnEmpty", "MaxValues"],
		};
		let mut na: punctuated::Punctuated<GenericArgument, Token![,]> = punctuated::Punctuated::new();
		na.push(parse_quote!(_));
		for o in order {
			if let Some(ty) = named.get(*o) {
				na.push(GenericArgument::Type(ty.clone()));
			} else {
				break;
			}
		}
		args.args = na;
	}
	for (k, a) in args.args.iter_mut().enumerate() {
		if let GenericArgument::Type(ty) = a {
			if k == 0 {
				*ty = parse_quote!(#pfx<#phantom_use>);
				continue;
			}
			if let Type::Path(q) = ty {
				let last = q.path.segments.last().unwrap();
				if last.ident == "ResultQuery" {
					if let PathArguments::AngleBracketed(ra) = &last.arguments {
						if ra.args.len() == 1 {
							if let Some(GenericArgument::Type(Type::Path(ep))) = ra.args.first() {
								let mut ep = ep.path.clone();
								let variant = ep.segments.pop().unwrap().into_value().ident;
								let last = ep.segments.pop().unwrap().into_value();
								ep.segments.push(last);
								let getter = format_ident!("__Frame_Internal_Get{}Result", t.ident);
								out.push(Item::Verbatim(quote!(
									#[doc(hidden)]
									pub struct #getter<#gdecl>(::core::marker::PhantomData<(#gplain,)>);
									impl<T: Config> ::frame_support::traits::Get<Error<T>> for #getter<T> {
										fn get() -> Error<T> { Error::<T>::#variant }
									}
								)));
								*ty = parse_quote!(ResultQuery<#ep, #getter<#phantom_use>>);
							}
						}
					}
				}
			}
		}
	}
	if let Some(g) = getter {
		// `fn name`
		let f: syn::parse::Nothing = syn::parse::Nothing;
		let _ = f;
		let fname: Ident = syn::parse2::<GetterFn>(g)?.0;
		let n = &t.ident;
		let alias = quote!(#n::<#guse>);
		let tys: Vec<Type> = args
			.args
			.iter()
			.filter_map(|a| match a {
				GenericArgument::Type(t) => Some(t.clone()),
				_ => None,
			})
			.collect();
		getters.push(match kind.as_str() {
			"StorageDoubleMap" => {
				let (k1, k2) = (&tys[2], &tys[4]);
				quote!(pub fn #fname<__K1, __K2>(a: __K1, b: __K2) -> <#n<#guse> as ::frame_support::storage::QueryOf>::Query
					where __K1: ::frame_support::__private::codec::EncodeLike<#k1>, __K2: ::frame_support::__private::codec::EncodeLike<#k2> { #alias::get(a, b) })
			}
			"StorageValue" => quote!(pub fn #fname() -> <#n<#guse> as ::frame_support::storage::QueryOf>::Query { #alias::get() }),
			_ => {
				let k1 = &tys[2];
				quote!(pub fn #fname<__K1>(a: __K1) -> <#n<#guse> as ::frame_support::storage::QueryOf>::Query
					where __K1: ::frame_support::__private::codec::EncodeLike<#k1> { #alias::get(a) })
			}
		});
	}
	out.push(Item::Type(t.clone()));
	Ok(())
}
struct GetterFn(Ident);
impl syn::parse::Parse for GetterFn {
	fn parse(i: syn::parse::ParseStream) -> Result<Self> {
		let _: Option<Visibility> = i.parse().ok();
		i.parse::<Token![fn]>()?;
		Ok(Self(i.parse()?))
	}
}

fn expand_event(mut e: ItemEnum, dep: Option<TokenStream>, instance: bool, out: &mut Vec<Item>) -> Result<()> {
	for v in e.variants.iter_mut() {
		take(&mut v.attrs);
		for f in v.fields.iter_mut() {
			take(&mut f.attrs);
		}
	}
	let (gdef, guse) = generics_for(instance);
	let generic = e.generics.type_params().count() > 0;
	let name = e.ident.clone();
	if generic {
		let params: Vec<_> = e.generics.type_params().map(|p| p.ident.clone()).collect();
		e.variants.push(parse_quote!(
			#[doc(hidden)] #[codec(skip)]
			__Ignore(::core::marker::PhantomData<(#(#params,)*)>, ::frame_support::Never)
		));
	}
	let self_ty = if generic { quote!(#name<#guse>) } else { quote!(#name) };
	out.push(Item::Verbatim(quote!(
		#[derive(::frame_support::CloneNoBound, ::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound,
			::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode)]
		#e
		impl<#gdef> From<#self_ty> for () where (): Sized { fn from(_: #self_ty) -> () { () } }
	)));
	if let Some(d) = dep {
		let DepFn(vis, f) = syn::parse2(d)?;
		let cfg = if instance { quote!(Config<I>) } else { quote!(Config) };
		out.push(Item::Verbatim(quote!(
			impl<#gdef> Pallet<#guse> {
				#vis fn #f(event: #self_ty) {
					let event = <<T as #cfg>::RuntimeEvent as From<#self_ty>>::from(event);
					let event = <<T as #cfg>::RuntimeEvent as Into<<T as ::frame_system::Config>::RuntimeEvent>>::into(event);
					<::frame_system::Pallet<T>>::deposit_event(event)
				}
			}
		)));
	}
	Ok(())
}
struct DepFn(Visibility, Ident);
impl syn::parse::Parse for DepFn {
	fn parse(i: syn::parse::ParseStream) -> Result<Self> {
		let v = i.parse()?;
		i.parse::<Token![fn]>()?;
		Ok(Self(v, i.parse()?))
	}
}

fn expand_error(mut e: ItemEnum, instance: bool, out: &mut Vec<Item>) -> Result<()> {
	let name = e.ident.clone();
	let (gplain, gdecl) = if instance { (quote!(T, I), quote!(T, I)) } else { (quote!(T), quote!(T)) };
	let _ = &gdecl;
	let mut arms = vec![];
	let mut idx = 0u8;
	let mut clones = vec![];
	for v in e.variants.iter() {
		let n = &v.ident;
		let s = n.to_string();
		let p = match v.fields {
			Fields::Unit => quote!(),
			Fields::Unnamed(_) => quote!((..)),
			Fields::Named(_) => quote!({ .. }),
		};
		arms.push(quote!(#name::#n #p => (#idx, #s),));
		if matches!(v.fields, Fields::Unit) {
			clones.push(quote!(#name::#n => #name::#n,));
		}
		idx += 1;
	}
	e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(#gplain,)>, ::frame_support::Never)));
	out.push(Item::Verbatim(quote!(
		#e
		impl<#gplain> #name<#gplain> {
			#[doc(hidden)]
			pub fn as_str(&self) -> &'static str { self.__info().1 }
			fn __info(&self) -> (u8, &'static str) { match self { #(#arms)* #name::__Ignore(_, n) => match *n {} } }
		}
		impl<#gplain> From<#name<#gplain>> for &'static str { fn from(e: #name<#gplain>) -> &'static str { e.as_str() } }
		impl<#gplain> From<#name<#gplain>> for ::frame_support::sp_runtime::DispatchError {
			fn from(e: #name<#gplain>) -> Self {
				let (i, s) = e.__info();
				::frame_support::sp_runtime::DispatchError::Module(::frame_support::sp_runtime::ModuleError {
					index: ::frame_support::traits::module_index(module_path!()),
					error: [i, 0, 0, 0],
					message: Some(s),
				})
			}
		}
		impl<#gplain> ::core::fmt::Debug for #name<#gplain> {
			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { f.write_str(self.as_str()) }
		}
		impl<#gplain> PartialEq for #name<#gplain> { fn eq(&self, o: &Self) -> bool { self.__info() == o.__info() } }
		impl<#gplain> Eq for #name<#gplain> {}
	)));
	Ok(())
}

fn expand_call(mut i: ItemImpl, cattr: TokenStream, instance: bool, out: &mut Vec<Item>) -> Result<()> {
	let (gdef, guse) = generics_for(instance);
	let gdecl_call = if instance { quote!(T: Config<I>, I: 'static = ()) } else { quote!(T: Config) };
	// `#[pallet::call(weight(<T as Config>::WeightInfo))]` or `weight = …`
	let default_weight: Option<Type> = if cattr.is_empty() {
		None
	} else {
		struct W(Type);
		impl syn::parse::Parse for W {
			fn parse(i: syn::parse::ParseStream) -> Result<Self> {
				i.parse::<Ident>()?;
				if i.peek(Token![=]) {
					i.parse::<Token![=]>()?;
					Ok(W(i.parse()?))
				} else {
					let c;
					parenthesized!(c in i);
					Ok(W(c.parse()?))
				}
			}
		}
		Some(syn::parse2::<W>(cattr)?.0)
	};
	let mut variants = vec![];
	let mut dispatch = vec![];
	let mut weights = vec![];
	let mut names = vec![];
	let mut feeless = vec![];
	let mut clones = vec![];
	let mut next = 0u8;
	for it in i.items.iter_mut() {
		let ImplItem::Fn(f) = it else { continue };
		let a = take(&mut f.attrs);
		let idx = match has(&a, "call_index") {
			Some(t) => syn::parse2::<LitInt>(t)?.base10_parse::<u8>()?,
			None => next,
		};
		next = idx.wrapping_add(1);
		let name = f.sig.ident.clone();
		let mut fields = vec![];
		let mut args = vec![];
		for (k, inp) in f.sig.inputs.iter_mut().enumerate() {
			let FnArg::Typed(p) = inp else { return Err(Error::new(inp.span(), "no self in calls")) };
			let pa = take(&mut p.attrs);
			if k == 0 {
				continue;
			}
			let Pat::Ident(id) = &*p.pat else { return Err(Error::new(p.pat.span(), "call argument must be a name")) };
			let (id, ty) = (id.ident.clone(), p.ty.clone());
			// `_name` arguments keep their name in the call variant
			let compact = if has(&pa, "compact").is_some() { quote!(#[codec(compact)]) } else { quote!() };
			fields.push(quote!(#compact #id: #ty));
			args.push(id);
		}
		let cfgs: Vec<_> = f.attrs.iter().filter(|a| a.path().is_ident("cfg")).cloned().collect();
		variants.push(quote!(#(#cfgs)* #[codec(index = #idx)] #name { #(#fields),* }));
		dispatch.push(quote!(#(#cfgs)* Self::#name { #(#args),* } => <Pallet<#guse>>::#name(origin #(, #args)*).map(Into::into).map_err(Into::into),));
		clones.push(quote!(#(#cfgs)* Self::#name { #(#args),* } => Self::#name { #(#args: ::core::clone::Clone::clone(#args)),* },));
		let w = match has(&a, "weight") {
			Some(w) => quote!({ #w }),
			None => match &default_weight {
				Some(t) => quote!(<#t>::#name()),
				None => quote!(::frame_support::weights::Weight::zero()),
			},
		};
		if let Some(f) = has(&a, "feeless_if") {
			feeless.push(quote!(#(#cfgs)* Self::#name { #(#args),* } => (#f)(origin #(, #args)*),));
		}
		let s = name.to_string();
		weights.push(quote!(#(#cfgs)* #[allow(unused_variables, clippy::all)] Self::#name { #(#args),* } => ::frame_support::dispatch::IntoDispatchInfo::into_info(#w),));
		names.push(quote!(#(#cfgs)* Self::#name { .. } => #s,));
		// every dispatchable runs in its own storage layer
		let b = f.block.clone();
		let (ok, err) = match &f.sig.output {
			ReturnType::Type(_, t) => (quote!(<#t as ::frame_support::sp_runtime::traits::ResultOk>::Ok), quote!(<#t as ::frame_support::sp_runtime::traits::ResultOk>::Err)),
			_ => return Err(Error::new(f.sig.span(), "calls return a DispatchResult")),
		};
		f.block = parse_quote!({ ::frame_support::storage::with_storage_layer::<#ok, #err, _>(|| #b) });
	}
	out.push(Item::Impl(i));
	out.push(Item::Verbatim(quote!(
		#[derive(::frame_support::EqNoBound, ::frame_support::PartialEqNoBound, ::frame_support::RuntimeDebugNoBound,
			::frame_support::__private::codec::Encode, ::frame_support::__private::codec::Decode, ::frame_support::__private::scale_info::TypeInfo)]
		#[scale_info(skip_type_params(#guse))]
		pub enum Call<#gdecl_call> {
			#[doc(hidden)] #[codec(skip)]
			__Ignore(::core::marker::PhantomData<(#guse,)>, ::frame_support::Never),
			#(#variants),*
		}
		impl<#gdef> Clone for Call<#guse> {
			fn clone(&self) -> Self { match self { #(#clones)* Self::__Ignore(_, n) => match *n {} } }
		}
		impl<#gdef> ::frame_support::traits::UnfilteredDispatchable for Call<#guse> {
			type RuntimeOrigin = <T as ::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#dispatch)* Self::__Ignore(_, n) => match n {} }
			}
		}
		impl<#gdef> ::frame_support::dispatch::GetDispatchInfo for Call<#guse> {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { #(#weights)* Self::__Ignore(_, n) => match *n {} }
			}
		}
		impl<#gdef> ::frame_support::dispatch::CheckIfFeeless for Call<#guse> {
			type Origin = <T as ::frame_system::Config>::RuntimeOrigin;
			#[allow(unused_variables, unreachable_patterns, clippy::all)]
			fn is_feeless(&self, origin: &Self::Origin) -> bool {
				match self { #(#feeless)* _ => false }
			}
		}
		impl<#gdef> ::frame_support::dispatch::GetCallName for Call<#guse> {
			fn get_call_name(&self) -> &'static str {
				match self { #(#names)* Self::__Ignore(_, n) => match *n {} }
			}
		}
		impl<#gdef> ::frame_support::dispatch::Callable<T> for Pallet<#guse> { type RuntimeCall = Call<#guse>; }
	)));
	Ok(())
}
