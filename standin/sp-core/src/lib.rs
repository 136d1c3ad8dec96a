//! Stand-in for `sp-core`: hashes, `Get`, bounded collections.
use parity_scale_codec::{Decode, Encode, EncodeLike, Input, MaxEncodedLen};
use scale_info::TypeInfo;

pub mod hashing;
pub use hashing::{blake2_128, blake2_256, twox_128, twox_64};
pub mod bounded;
pub mod bounded_vec {
	pub use crate::bounded::BoundedVec;
}
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec};
pub use bounded::BoundedVec as WeakBoundedVec;

#[derive(
	Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize,
)]
pub struct H256(pub [u8; 32]);
impl H256 {
	pub const fn zero() -> Self {
		Self([0; 32])
	}
	pub const fn repeat_byte(b: u8) -> Self {
		Self([b; 32])
	}
	pub fn as_bytes(&self) -> &[u8] {
		&self.0
	}
	pub fn as_fixed_bytes(&self) -> &[u8; 32] {
		&self.0
	}
	pub fn to_fixed_bytes(self) -> [u8; 32] {
		self.0
	}
	pub fn is_zero(&self) -> bool {
		self.0 == [0; 32]
	}
	pub fn from_slice(s: &[u8]) -> Self {
		Self(s.try_into().expect("32 bytes"))
	}
}
impl core::fmt::Debug for H256 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "0x")?;
		self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
	}
}
impl core::fmt::Display for H256 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl From<[u8; 32]> for H256 {
	fn from(v: [u8; 32]) -> Self {
		Self(v)
	}
}
impl From<H256> for [u8; 32] {
	fn from(v: H256) -> Self {
		v.0
	}
}
impl AsRef<[u8]> for H256 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsMut<[u8]> for H256 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}

/// `Get` and friends.
pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub trait TryGet<T> {
	fn try_get() -> Option<T>;
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! impl_const_get {
	($name:ident, $t:ty) => {
		#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
		pub struct $name<const T: $t>;
		impl<const T: $t> Get<$t> for $name<T> {
			fn get() -> $t {
				T
			}
		}
		impl<const T: $t> Get<Option<$t>> for $name<T> {
			fn get() -> Option<$t> {
				Some(T)
			}
		}
		impl<const T: $t> TypedGet for $name<T> {
			type Type = $t;
			fn get() -> $t {
				T
			}
		}
	};
}
impl_const_get!(ConstBool, bool);
impl_const_get!(ConstU8, u8);
impl_const_get!(ConstU16, u16);
impl_const_get!(ConstU32, u32);
impl_const_get!(ConstU64, u64);
impl_const_get!(ConstU128, u128);
impl_const_get!(ConstI32, i32);
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}

pub mod crypto {
	pub use super::AccountId32;
	use super::*;
	#[derive(Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, Debug)]
	pub struct KeyTypeId(pub [u8; 4]);
	pub trait ByteArray: AsRef<[u8]> {
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_ref().to_vec()
		}
	}
	impl ByteArray for AccountId32 {}
}

#[derive(
	Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, serde::Serialize, serde::Deserialize,
)]
pub struct AccountId32(pub [u8; 32]);
impl AccountId32 {
	pub const fn new(inner: [u8; 32]) -> Self {
		Self(inner)
	}
}
impl core::fmt::Debug for AccountId32 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "acc:")?;
		self.0.iter().try_for_each(|b| write!(f, "{b:02x}"))
	}
}
impl core::fmt::Display for AccountId32 {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		write!(f, "{:?}", self)
	}
}
impl From<[u8; 32]> for AccountId32 {
	fn from(v: [u8; 32]) -> Self {
		Self(v)
	}
}
impl From<AccountId32> for [u8; 32] {
	fn from(v: AccountId32) -> Self {
		v.0
	}
}
impl TryFrom<&[u8]> for AccountId32 {
	type Error = ();
	fn try_from(x: &[u8]) -> Result<Self, ()> {
		Ok(Self(x.try_into().map_err(|_| ())?))
	}
}
impl From<H256> for AccountId32 {
	fn from(v: H256) -> Self {
		Self(v.0)
	}
}
impl AsRef<[u8]> for AccountId32 {
	fn as_ref(&self) -> &[u8] {
		&self.0
	}
}
impl AsRef<[u8; 32]> for AccountId32 {
	fn as_ref(&self) -> &[u8; 32] {
		&self.0
	}
}
impl AsMut<[u8]> for AccountId32 {
	fn as_mut(&mut self) -> &mut [u8] {
		&mut self.0
	}
}

#[doc(hidden)]
pub fn _codec_anchor<T: Decode + EncodeLike, I: Input>(_: &mut I) {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct OpaqueMetadata(pub Vec<u8>);
impl OpaqueMetadata {
	pub fn new(m: Vec<u8>) -> Self {
		Self(m)
	}
}

#[macro_export]
macro_rules! parameter_types {
	( $( #[ $attr:meta ] )* $vis:vis const $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $( $rest:tt )*)? ) => (
		$( #[ $attr ] )*
		$vis struct $name $( < $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ) )?;
		$crate::parameter_types!(IMPL_CONST $name , $type , $value $( $(, $ty_params)* )?);
		$crate::parameter_types!( $( $( $rest )* )? );
	);
	( $( #[ $attr:meta ] )* $vis:vis static $name:ident : $type:ty = $value:expr $(; $( $rest:tt )*)? ) => (
		$( #[ $attr ] )*
		$vis struct $name;
		const _: () = {
			thread_local!(static CELL: ::std::cell::RefCell<$type> = ::std::cell::RefCell::new($value));
			impl $name {
				pub fn get() -> $type { CELL.with(|c| c.borrow().clone()) }
				pub fn set(t: $type) { CELL.with(|c| *c.borrow_mut() = t) }
				pub fn mutate<R>(f: impl FnOnce(&mut $type) -> R) -> R { CELL.with(|c| f(&mut c.borrow_mut())) }
				pub fn take() -> $type where $type: Default { CELL.with(|c| c.take()) }
			}
			impl<I: From<$type>> $crate::Get<I> for $name { fn get() -> I { I::from(Self::get()) } }
			impl $crate::TypedGet for $name { type Type = $type; fn get() -> $type { Self::get() } }
		};
		$crate::parameter_types!( $( $( $rest )* )? );
	);
	( $( #[ $attr:meta ] )* $vis:vis storage $name:ident : $type:ty = $value:expr $(; $( $rest:tt )*)? ) => (
		$crate::parameter_types!( $vis static $name : $type = $value; );
		$crate::parameter_types!( $( $( $rest )* )? );
	);
	( $( #[ $attr:meta ] )* $vis:vis $name:ident $(< $($ty_params:ident),* >)?: $type:ty = $value:expr $(; $( $rest:tt )*)? ) => (
		$( #[ $attr ] )*
		$vis struct $name $( < $($ty_params),* >( $(::core::marker::PhantomData<$ty_params>),* ) )?;
		$crate::parameter_types!(IMPL $name, $type, $value $( $(, $ty_params)* )?);
		$crate::parameter_types!( $( $( $rest )* )? );
	);
	() => ();
	(IMPL_CONST $name:ident, $type:ty, $value:expr $(, $ty_params:ident)*) => {
		impl< $($ty_params),* > $name< $($ty_params),* > {
			pub const fn get() -> $type { $value }
		}
		impl<_I: From<$type> $(, $ty_params)*> $crate::Get<_I> for $name< $($ty_params),* > {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl< $($ty_params),* > $crate::TypedGet for $name< $($ty_params),* > {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
	};
	(IMPL $name:ident, $type:ty, $value:expr $(, $ty_params:ident)*) => {
		impl< $($ty_params),* > $name< $($ty_params),* > {
			pub fn get() -> $type { $value }
		}
		impl<_I: From<$type>, $($ty_params),*> $crate::Get<_I> for $name< $($ty_params),* > {
			fn get() -> _I { _I::from(Self::get()) }
		}
		impl< $($ty_params),* > $crate::TypedGet for $name< $($ty_params),* > {
			type Type = $type;
			fn get() -> $type { Self::get() }
		}
	};
}
