//! Macros of the stand-in FRAME: `#[pallet]`, the `*NoBound` derives and `morph_types!`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, DeriveInput};

mod derives;
mod morph;
mod pallet;
mod runtime;

#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as syn::ItemMod);
	pallet::expand(m).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn runtime(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as syn::ItemMod);
	runtime::expand(m).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn derive_impl(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as syn::ItemImpl);
	runtime::derive_impl(m).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro]
pub fn impl_runtime_apis(input: TokenStream) -> TokenStream {
	let f = parse_macro_input!(input as syn::File);
	runtime::apis(f).unwrap_or_else(|e| e.to_compile_error()).into()
}
#[proc_macro_attribute]
pub fn runtime_version(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
macro_rules! derive {
	($fn:ident, $name:ident, $imp:path, $bound:expr) => {
		#[proc_macro_derive($name)]
		pub fn $fn(input: TokenStream) -> TokenStream {
			$imp(&parse_macro_input!(input as DeriveInput), $bound).into()
		}
	};
}
derive!(runtime_debug, RuntimeDebug, derives::debug, true);
derive!(debug_no_bound, DebugNoBound, derives::debug, false);
derive!(runtime_debug_no_bound, RuntimeDebugNoBound, derives::debug, false);
derive!(clone_no_bound, CloneNoBound, derives::clone, false);
derive!(partial_eq_no_bound, PartialEqNoBound, derives::partial_eq, false);
derive!(eq_no_bound, EqNoBound, derives::eq, false);
derive!(default_no_bound, DefaultNoBound, derives::default, false);
derive!(ord_no_bound, OrdNoBound, derives::ord, false);
derive!(partial_ord_no_bound, PartialOrdNoBound, derives::partial_ord, false);

/// `composite_authenticator!(pub Name<Authority> { A, B })`: the composite type and its companions.
#[proc_macro]
pub fn composite_authenticator(input: TokenStream) -> TokenStream {
	let c = parse_macro_input!(input as runtime::Composite);
	let (auth, att, cred) =
		(format_ident!("{}Authenticator", c.name), format_ident!("{}DeviceAttestation", c.name), format_ident!("{}Credential", c.name));
	let (vis, authority, devices) = (c.vis, c.authority, c.devices);
	quote!(
		#vis type #auth = ::fc_traits_authn::Composite<(#(#devices,)*), #authority>;
		#vis enum #att {}
		#vis enum #cred {}
		#[allow(unused)]
		use ::fc_traits_authn::HashedUserId;
	)
	.into()
}
#[proc_macro]
pub fn morph_types(input: TokenStream) -> TokenStream {
	let items = parse_macro_input!(input as morph::Items);
	morph::expand(items).into()
}
/// `#[require_transactional]`, `#[transactional]` and friends: kept as plain items.
#[proc_macro_attribute]
pub fn transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut f = parse_macro_input!(item as syn::ItemFn);
	let b = &f.block;
	f.block = syn::parse_quote!({ ::frame_support::storage::with_storage_layer(|| #b) });
	quote!(#f).into()
}
#[proc_macro_attribute]
pub fn require_transactional(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
#[allow(unused)]
fn _unused() {
	let _ = format_ident!("a");
}
