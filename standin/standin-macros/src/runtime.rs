//! `#[frame_support::runtime]`, `#[derive_impl]` and `impl_runtime_apis!`.
use proc_macro2::TokenStream;
use quote::{format_ident, quote};
use syn::{spanned::Spanned, *};

/// Pallets that have no calls of their own.
const NO_CALL: &[&str] = &[
	"pallet_custom_origins",
	"parachain_info",
	"pallet_authorship",
	"pallet_aura",
	"cumulus_pallet_aura_ext",
	"pallet_transaction_payment",
	"pallet_asset_tx_payment",
	"pallet_skip_feeless_payment",
	"pallet_gas_transaction_payment",
	"pallet_assets_freezer",
];
const EVENTS: &[&str] = &["frame_system", "pallet_payments", "pallet_communities", "pallet_communities_manager"];
const HOLDS: &[&str] = &["pallet_payments", "pallet_preimage", "pallet_contracts"];
const FREEZES: &[&str] = &["pallet_communities"];
/// Pallets with an origin, and whether the origin is generic over the runtime.
const ORIGINS: &[(&str, bool)] =
	&[("pallet_custom_origins", false), ("pallet_communities", true), ("pallet_xcm", false), ("cumulus_pallet_xcm", false)];

struct Entry {
	name: Ident,
	path: Path,
	krate: String,
	instance: Option<Ident>,
	index: u8,
	call: bool,
}

pub fn expand(m: ItemMod) -> Result<TokenStream> {
	let span = m.span();
	let (_, items) = m.content.ok_or_else(|| Error::new(span, "runtime module must be inline"))?;
	let mut entries: Vec<Entry> = vec![];
	let mut rt = format_ident!("Runtime");
	let mut next = 0u8;
	for i in items {
		match i {
			Item::Struct(s) => rt = s.ident,
			Item::Type(t) => {
				let mut call = true;
				for a in &t.attrs {
					let n = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
					if n == "pallet_index" {
						next = a.parse_args::<LitInt>()?.base10_parse()?;
					} else if n == "disable_call" {
						call = false;
					}
				}
				let ty = match *t.ty {
					Type::Path(p) => p.path,
					// `pallet_x + pallet::Call + …`
					Type::TraitObject(o) => match o.bounds.first() {
						Some(TypeParamBound::Trait(b)) => b.path.clone(),
						_ => return Err(Error::new(t.ident.span(), "unexpected pallet")),
					},
					_ => return Err(Error::new(t.ident.span(), "unexpected pallet")),
				};
				let mut segs: Vec<PathSegment> = ty.segments.iter().cloned().collect();
				if segs.last().map_or(false, |s| s.ident == "Pallet") {
					segs.pop();
				}
				let mut instance = None;
				if let Some(l) = segs.last_mut() {
					if let PathArguments::AngleBracketed(a) = &l.arguments {
						if let Some(GenericArgument::Type(Type::Path(p))) = a.args.first() {
							instance = p.path.get_ident().cloned();
						}
					}
					l.arguments = PathArguments::None;
				}
				let krate = segs.last().map(|s| s.ident.to_string()).unwrap_or_default();
				let path = Path { leading_colon: None, segments: segs.into_iter().collect() };
				let call = call && !NO_CALL.contains(&&krate[..]);
				entries.push(Entry { name: t.ident, path, krate, instance, index: next, call });
				next = next.wrapping_add(1);
			}
			_ => {}
		}
	}
	let ty = |e: &Entry, what: &str| {
		let (p, w) = (&e.path, format_ident!("{what}"));
		match &e.instance {
			Some(i) => quote!(#p::#w<#rt, #p::#i>),
			None => quote!(#p::#w<#rt>),
		}
	};
	let aliases = entries.iter().map(|e| {
		let (n, t) = (&e.name, ty(e, "Pallet"));
		quote!(pub type #n = #t;)
	});
	let calls = entries.iter().filter(|e| e.call).map(|e| {
		let (n, t, i) = (&e.name, ty(e, "Call"), proc_macro2::Literal::u8_unsuffixed(e.index));
		quote!(#n: #t = #i,)
	});
	let events = entries.iter().filter(|e| EVENTS.contains(&&e.krate[..])).map(|e| {
		let (n, t, i) = (&e.name, ty(e, "Event"), proc_macro2::Literal::u8_unsuffixed(e.index));
		quote!(#n: #t = #i,)
	});
	let origins = entries.iter().filter_map(|e| ORIGINS.iter().find(|o| o.0 == e.krate).map(|o| (e, o.1))).map(|(e, g)| {
		let (n, p, i) = (&e.name, &e.path, proc_macro2::Literal::u8_unsuffixed(e.index));
		if g {
			quote!(#n: #p::Origin<#rt> = #i,)
		} else {
			quote!(#n: #p::Origin = #i,)
		}
	});
	let reasons = |name: &str, of: &[&str], what: &str| {
		let (name, what) = (format_ident!("{name}"), format_ident!("{what}"));
		let es: Vec<_> = entries.iter().filter(|e| of.contains(&&e.krate[..])).collect();
		let vs = es.iter().map(|e| {
			let (n, p, i) = (&e.name, &e.path, proc_macro2::Literal::u8_unsuffixed(e.index));
			quote!(#[codec(index = #i)] #n(#p::#what))
		});
		let fs = es.iter().map(|e| {
			let (n, p) = (&e.name, &e.path);
			quote!(impl From<#p::#what> for #name { fn from(r: #p::#what) -> Self { Self::#n(r) } })
		});
		let n = es.len() as u32;
		quote!(
			#[derive(Clone, Copy, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::parity_scale_codec::MaxEncodedLen, ::scale_info::TypeInfo)]
			pub enum #name { #(#vs),* }
			#(#fs)*
			impl ::frame_support::traits::VariantCount for #name { const VARIANT_COUNT: u32 = #n; }
		)
	};
	let holds = reasons("RuntimeHoldReason", HOLDS, "HoldReason");
	let freezes = reasons("RuntimeFreezeReason", FREEZES, "FreezeReason");
	let names: Vec<_> = entries.iter().map(|e| &e.name).collect();
	let idx: Vec<_> = entries.iter().map(|e| e.index as usize).collect();
	let strs: Vec<_> = entries.iter().map(|e| e.name.to_string()).collect();
	Ok(quote!(
		#(#aliases)*
		frame_system::mini_runtime! {
			pub runtime #rt, account AccountId;
			calls { #(#calls)* }
			events { #(#events)* }
			origins { #(#origins)* }
		}
		#holds
		#freezes
		pub type AllPalletsWithSystem = ( #(#names,)* );
		pub type AllPalletsWithoutSystem = AllPalletsWithSystem;
		pub struct PalletInfo;
		impl PalletInfo {
			/// Every pallet of this runtime, by name and index.
			pub const PALLETS: &'static [(&'static str, usize)] = &[#((#strs, #idx)),*];
		}
		impl ::frame_support::traits::PalletInfo for PalletInfo {
			fn index<P: 'static>() -> Option<usize> {
				let t = ::core::any::TypeId::of::<P>();
				#( if t == ::core::any::TypeId::of::<#names>() { return Some(#idx); } )*
				None
			}
		}
	))
}

/// The configuration items that the stand-in system pallet has a use for, with defaults.
const SYSTEM: &[(&str, &str)] = &[
	("RuntimeEvent", "RuntimeEvent"),
	("BaseCallFilter", "::frame_support::traits::Everything"),
	("RuntimeOrigin", "RuntimeOrigin"),
	("RuntimeCall", "RuntimeCall"),
	("Nonce", "u32"),
	("BlockNumber", "u32"),
	("Hash", "::sp_core::H256"),
	("Hashing", "::sp_runtime::traits::BlakeTwo256"),
	("AccountId", "::sp_runtime::AccountId32"),
	("Lookup", "::sp_runtime::traits::IdentityLookup<Self::AccountId>"),
	("BlockHashCount", "::frame_support::traits::ConstU32<256>"),
	("DbWeight", "()"),
];
const EXTRA: &[&str] = &[
	"Block", "Version", "PalletInfo", "AccountData", "OnNewAccount", "OnKilledAccount", "SystemWeightInfo",
	"ExtensionsWeightInfo", "BlockWeights", "BlockLength", "SS58Prefix", "OnSetCode", "MaxConsumers", "RuntimeTask",
	"SingleBlockMigrations", "MultiBlockMigrator", "PreInherents", "PostInherents", "PostTransactions",
];
pub fn derive_impl(imp: ItemImpl) -> Result<TokenStream> {
	let path = imp.trait_.as_ref().map(|t| t.1.clone()).ok_or_else(|| Error::new(imp.span(), "expected a trait"))?;
	let who = &imp.self_ty;
	let is_system = path.segments.first().map_or(false, |s| s.ident == "frame_system");
	if !is_system {
		return Ok(quote!(#imp));
	}
	let find = |n: &str| {
		imp.items.iter().find_map(|i| match i {
			ImplItem::Type(t) if t.ident == n => Some(t.clone()),
			_ => None,
		})
	};
	for i in &imp.items {
		if let ImplItem::Type(t) = i {
			let n = t.ident.to_string();
			if !SYSTEM.iter().any(|s| s.0 == n) && !EXTRA.contains(&&n[..]) {
				return Err(Error::new(t.ident.span(), "unknown configuration item"));
			}
		}
	}
	let known = SYSTEM.iter().map(|(n, d)| match find(n) {
		Some(t) => quote!(#t),
		None => {
			let (n, d): (Ident, Type) = (format_ident!("{n}"), parse_str(d).expect("a type"));
			quote!(type #n = #d;)
		}
	});
	let extra = EXTRA.iter().map(|n| match find(n) {
		Some(t) => quote!(#t),
		None if *n == "PalletInfo" => quote!(type PalletInfo = PalletInfo;),
		None => {
			let n = format_ident!("{n}");
			quote!(type #n = ();)
		}
	});
	Ok(quote!(
		impl #path for #who { #(#known)* }
		impl frame_system::ExtraConfig for #who { #(#extra)* }
	))
}

/// The runtime APIs that are kept, and which of their functions.
const APIS: &[(&str, &[&str])] = &[
	("FungiblesApi", &["query_account_balances"]),
	("AccountNonceApi", &["account_nonce"]),
	("BlockBuilder", &["apply_extrinsic"]),
	("TaggedTransactionQueue", &["validate_transaction"]),
	("TransactionPaymentApi", &["query_info", "query_fee_details", "query_weight_to_fee", "query_length_to_fee"]),
	("TransactionPaymentCallApi", &["query_call_info", "query_call_fee_details", "query_weight_to_fee", "query_length_to_fee"]),
];
pub fn apis(f: File) -> Result<TokenStream> {
	let kept = f.items.into_iter().filter_map(|i| match i {
		Item::Impl(mut i) => {
			let n = i.trait_.as_ref().and_then(|t| t.1.segments.last().map(|s| s.ident.to_string())).unwrap_or_default();
			let (_, fns) = APIS.iter().find(|a| a.0 == n)?;
			i.items.retain(|f| matches!(f, ImplItem::Fn(f) if fns.contains(&&f.sig.ident.to_string()[..])));
			Some(i)
		}
		_ => None,
	});
	Ok(quote!(
		pub struct RuntimeApi;
		pub const RUNTIME_API_VERSIONS: &[([u8; 8], u32)] = &[];
		#(#kept)*
	))
}

pub struct Composite {
	pub vis: Visibility,
	pub name: Ident,
	pub authority: Type,
	pub devices: Vec<Type>,
}
impl parse::Parse for Composite {
	fn parse(i: parse::ParseStream) -> Result<Self> {
		let vis = i.parse()?;
		let name = i.parse()?;
		i.parse::<Token![<]>()?;
		let authority = i.parse()?;
		i.parse::<Token![>]>()?;
		let c;
		braced!(c in i);
		let devices = c.parse_terminated(Type::parse, Token![,])?.into_iter().collect();
		Ok(Self { vis, name, authority, devices })
	}
}
