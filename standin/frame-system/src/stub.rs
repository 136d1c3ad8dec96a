//! Pallets of which only the configuration and the names of the calls matter.
use frame_support::{
	dispatch::{DispatchClass, DispatchErrorWithPostInfo, DispatchInfo, DispatchResultWithPostInfo, Pays, PostDispatchInfo},
	weights::Weight,
};
use parity_scale_codec::{Decode, Encode};
use sp_io::storage as kv;

/// A call that reached a stub pallet.
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
pub struct Reached {
	pub pallet: String,
	pub call: String,
	pub arg: u32,
	/// the dispatch origin, printed
	pub origin: String,
}
/// What a call says about its cost, and what it turns out to cost, read off its argument.
pub struct Work {
	pub weight: Weight,
	pub actual: Option<Weight>,
	pub class: DispatchClass,
	pub pays: Pays,
	pub pays_after: Pays,
	pub fails: bool,
}
impl Work {
	pub const OPERATIONAL: u32 = 1 << 24;
	pub const FREE: u32 = 1 << 25;
	pub const FAILS: u32 = 1 << 26;
	pub const FREE_AFTER: u32 = 1 << 27;
	pub fn of(arg: u32) -> Self {
		let n = (arg & 0xf_ffff) as u64;
		let weight = match arg >> 28 & 3 {
			0 => Weight::from_parts(n * 2_000_000, 0),
			1 => Weight::from_parts(n * 2_000_000, n * 6),
			2 => Weight::from_parts(n, n * 6),
			_ => Weight::from_parts(n * 2_000_000, n / 16),
		};
		let back = (arg >> 20 & 15) as u64;
		let bit = |b: u32| arg & b != 0;
		Self {
			weight,
			actual: (back > 0).then(|| Weight::from_parts(weight.ref_time() / 16 * (16 - back), weight.proof_size() / 16 * (16 - back))),
			class: if bit(Self::OPERATIONAL) { DispatchClass::Operational } else { DispatchClass::Normal },
			pays: if bit(Self::FREE) { Pays::No } else { Pays::Yes },
			pays_after: if bit(Self::FREE_AFTER) { Pays::No } else { Pays::Yes },
			fails: bit(Self::FAILS),
		}
	}
	pub fn info(&self) -> DispatchInfo {
		DispatchInfo { weight: self.weight, class: self.class, pays_fee: self.pays }
	}
	pub fn done(&self) -> DispatchResultWithPostInfo {
		let post_info = PostDispatchInfo { actual_weight: self.actual, pays_fee: self.pays_after };
		if self.fails {
			return Err(DispatchErrorWithPostInfo { post_info, error: sp_runtime::DispatchError::Other("asked to fail") });
		}
		Ok(post_info)
	}
}
/// Only proving that one holds a device is free.
pub fn feeless(pallet: &str, call: &str) -> bool {
	(pallet, call) == ("pallet_pass", "authenticate")
}
const KEY: &[u8] = b"stub:calls";
pub fn record(pallet: &str, call: &str, arg: u32, origin: String) {
	let mut v = reached();
	v.push(Reached { pallet: pallet.into(), call: call.into(), arg, origin });
	kv::set(KEY, &v.encode())
}
pub fn reached() -> Vec<Reached> {
	kv::get(KEY).map(|v| Decode::decode(&mut &v[..]).expect("own encoding")).unwrap_or_default()
}
pub fn clear() {
	kv::clear(KEY)
}

#[macro_export]
macro_rules! stub_instances {
	() => {
		pub use $crate::__fs::instances::*;
	};
}
#[macro_export]
macro_rules! stub_struct {
	() => {
		pub struct Pallet<T, I: 'static = ()>(core::marker::PhantomData<(T, I)>);
		impl<T: $crate::ExtraConfig, I: 'static> $crate::__fs::traits::PalletInfoAccess for Pallet<T, I> {
			fn index() -> usize {
				<T::PalletInfo as $crate::__fs::traits::PalletInfo>::index::<Self>().expect("part of the runtime")
			}
		}
	};
}
#[macro_export]
macro_rules! stub_weights {
	() => {
		pub mod weights {
			pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
		}
		pub use weights::SubstrateWeight;
	};
}
#[macro_export]
macro_rules! stub_call {
	($name:literal; $($c:ident),* $(,)?) => {
		#[allow(non_camel_case_types)]
		pub enum Call<T, I: 'static = ()> {
			$( $c { arg: u32 }, )*
			#[doc(hidden)]
			__Ignore(core::marker::PhantomData<(T, I)>, $crate::__fs::Never),
		}
		impl<T, I: 'static> Call<T, I> {
			pub const NAMES: &'static [&'static str] = &[$(stringify!($c)),*];
			pub fn all() -> Vec<Self> {
				vec![$(Self::$c { arg: 0 }),*]
			}
			pub fn name(&self) -> &'static str {
				match self {
					$( Self::$c { .. } => stringify!($c), )*
					Self::__Ignore(..) => unreachable!(),
				}
			}
			fn arg(&self) -> u32 {
				match self {
					$( Self::$c { arg } => *arg, )*
					Self::__Ignore(..) => unreachable!(),
				}
			}
			fn make(index: u8, n: u32) -> Option<Self> {
				let mut i = 0u8;
				$( if index == i { return Some(Self::$c { arg: n }); } #[allow(unused_assignments)] { i += 1; } )*
				None
			}
			fn index(&self) -> u8 {
				Self::NAMES.iter().position(|n| *n == self.name()).expect("listed") as u8
			}
		}
		impl<T, I: 'static> Clone for Call<T, I> {
			fn clone(&self) -> Self {
				Self::make(self.index(), self.arg()).expect("listed")
			}
		}
		impl<T, I: 'static> PartialEq for Call<T, I> {
			fn eq(&self, o: &Self) -> bool {
				(self.index(), self.arg()) == (o.index(), o.arg())
			}
		}
		impl<T, I: 'static> Eq for Call<T, I> {}
		impl<T, I: 'static> core::fmt::Debug for Call<T, I> {
			fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
				write!(f, "{}::{}({})", $name, self.name(), self.arg())
			}
		}
		impl<T, I: 'static> $crate::__codec::Encode for Call<T, I> {
			fn encode(&self) -> Vec<u8> {
				(self.index(), self.arg()).encode()
			}
		}
		impl<T, I: 'static> $crate::__codec::EncodeLike for Call<T, I> {}
		impl<T, I: 'static> $crate::__codec::Decode for Call<T, I> {
			fn decode<X: $crate::__codec::Input>(x: &mut X) -> Result<Self, $crate::__codec::Error> {
				let (i, n) = <(u8, u32)>::decode(x)?;
				Self::make(i, n).ok_or_else(|| "no such call".into())
			}
		}
		impl<T: 'static, I: 'static> $crate::__info::TypeInfo for Call<T, I> {
			type Identity = Self;
			fn type_info() -> $crate::__info::Type {
				$crate::__info::Type::builder()
					.path($crate::__info::Path::new("Call", $name))
					.composite($crate::__info::build::Fields::unit())
			}
		}
		impl<T, I: 'static> $crate::__fs::dispatch::GetDispatchInfo for Call<T, I> {
			fn get_dispatch_info(&self) -> $crate::__fs::dispatch::DispatchInfo {
				$crate::stub::Work::of(self.arg()).info()
			}
		}
		impl<T: $crate::Config, I: 'static> $crate::__fs::dispatch::CheckIfFeeless for Call<T, I> {
			type Origin = T::RuntimeOrigin;
			fn is_feeless(&self, _: &T::RuntimeOrigin) -> bool {
				$crate::stub::feeless($name, self.name())
			}
		}
		impl<T: $crate::Config, I: 'static> $crate::__fs::traits::UnfilteredDispatchable for Call<T, I> {
			type RuntimeOrigin = T::RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: T::RuntimeOrigin) -> $crate::__fs::dispatch::DispatchResultWithPostInfo {
				$crate::stub::record($name, self.name(), self.arg(), format!("{o:?}"));
				$crate::stub::Work::of(self.arg()).done()
			}
		}
	};
}
#[macro_export]
macro_rules! stub_config {
	($($cty:ident),* $(,)? $(; $($k:ident : $kt:ty),*)?) => {
		pub trait Config<I: 'static = ()>: $crate::ExtraConfig {
			$(type $cty;)*
			$($(const $k: $kt;)*)?
		}
	};
}
/// A pallet with nothing but a configuration and calls that are written down.
#[macro_export]
macro_rules! stub_pallet {
	($name:literal; config { $($cfg:tt)* } calls { $($c:ident),* $(,)? }) => {
		$crate::stub_config! { $($cfg)* }
		$crate::stub_instances! {}
		$crate::stub_struct! {}
		$crate::stub_weights! {}
		$crate::stub_call! { $name; $($c),* }
	};
}
