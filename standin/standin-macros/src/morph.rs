use proc_macro2::TokenStream;
use quote::quote;
use syn::{parse::*, Attribute, Block, Generics, Ident, Token, Type, Visibility, WhereClause};

pub struct Item {
	attrs: Vec<Attribute>,
	vis: Visibility,
	name: Ident,
	generics: Generics,
	kind: Ident,
	var: syn::Pat,
	var_ty: Type,
	out: Type,
	body: Block,
	wc: Option<WhereClause>,
}
pub struct Items(Vec<Item>);
impl Parse for Items {
	fn parse(i: ParseStream) -> Result<Self> {
		let mut v = vec![];
		while !i.is_empty() {
			let attrs = i.call(Attribute::parse_outer)?;
			let vis = i.parse()?;
			i.parse::<Token![type]>()?;
			let name = i.parse()?;
			let generics: Generics = i.parse()?;
			let kind = if i.peek(Token![:]) {
				i.parse::<Token![:]>()?;
				i.parse()?
			} else {
				Ident::new("Morph", proc_macro2::Span::call_site())
			};
			i.parse::<Token![=]>()?;
			i.parse::<Token![|]>()?;
			let var = syn::Pat::parse_single(i)?;
			i.parse::<Token![:]>()?;
			let var_ty = i.parse()?;
			i.parse::<Token![|]>()?;
			i.parse::<Token![->]>()?;
			let out = i.parse()?;
			let body = i.parse()?;
			let wc = i.parse()?;
			if i.peek(Token![;]) {
				i.parse::<Token![;]>()?;
			}
			v.push(Item { attrs, vis, name, generics, kind, var, var_ty, out, body, wc });
		}
		Ok(Self(v))
	}
}
pub fn expand(items: Items) -> TokenStream {
	let mut out = TokenStream::new();
	for Item { attrs, vis, name, generics, kind, var, var_ty, out: ret, body, wc } in items.0 {
		let (ig, tg, _) = generics.split_for_impl();
		let params: Vec<_> = generics.type_params().map(|p| p.ident.clone()).collect();
		let bare = if params.is_empty() { quote!() } else { quote!(<#(#params),*>) };
		out.extend(quote!(#(#attrs)* #vis struct #name #bare (::core::marker::PhantomData<(#(#params,)*)>);));
		if kind == "TryMorph" {
			out.extend(quote!(
				impl #ig ::sp_runtime::traits::TryMorph<#var_ty> for #name #tg #wc {
					type Outcome = <#ret as ::sp_runtime::traits::ResultOk>::Ok;
					fn try_morph(#var: #var_ty) -> #ret #body
				}
			));
		} else {
			out.extend(quote!(
				impl #ig ::sp_runtime::traits::Morph<#var_ty> for #name #tg #wc {
					type Outcome = #ret;
					fn morph(#var: #var_ty) -> #ret #body
				}
				impl #ig ::sp_runtime::traits::TryMorph<#var_ty> for #name #tg #wc {
					type Outcome = #ret;
					fn try_morph(v: #var_ty) -> ::core::result::Result<#ret, ()> { Ok(<Self as ::sp_runtime::traits::Morph<#var_ty>>::morph(v)) }
				}
			));
		}
	}
	out
}
