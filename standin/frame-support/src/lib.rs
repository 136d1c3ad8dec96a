//! Stand-in for `frame-support`.
//!
//! It offers the part of the FRAME vocabulary that virto-node's pallets and runtime modules are
//! written against, with FRAME's semantics for the parts that matter to the properties: storage
//! types over a transactional key-value store, transactional dispatchables, origins, and the
//! token traits. Nothing in here is code under test.
extern crate self as frame_support;

pub use sp_core;
pub use sp_runtime;
pub use sp_weights as weights;
pub mod dispatch;
pub mod storage;
pub mod traits;
/// Which of several pallets of one kind; shared by all pallets.
pub mod instances {
	macro_rules! instances { ($($i:ident)*) => { $(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
		pub struct $i;
	)* } }
	instances!(Instance1 Instance2 Instance3 Instance4 Instance5 Instance6 Instance7 Instance8);
}
pub mod genesis_builder_helper {
	pub fn build_state() {}
	pub fn get_preset() {}
}

pub use sp_core::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use sp_core::bounded as bounded_vec;
pub use sp_runtime::RuntimeDebug;
pub use standin_macros::{
	derive_impl, pallet, runtime, require_transactional, transactional, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, OrdNoBound,
	PartialEqNoBound, PartialOrdNoBound, RuntimeDebugNoBound,
};
pub use storage::hash::{
	Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256,
	Twox64Concat,
};
pub use storage::{StorageDoubleMap, StorageMap, StorageValue};
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};

#[doc(hidden)]
pub mod __private {
	pub use parity_scale_codec as codec;
	pub use scale_info;
	pub use sp_std;
	pub use sp_io;
}

#[derive(Encode, Decode, Debug, Clone, Copy, PartialEq, Eq, scale_info::TypeInfo, MaxEncodedLen, PartialOrd, Ord)]
pub enum Never {}

/// A type that can be used as a parameter in a dispatchable function.
pub trait Parameter: Codec + EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + core::fmt::Debug + scale_info::TypeInfo> Parameter for T {}

#[derive(Clone, Copy, Eq, PartialEq, Encode, Decode, Debug, scale_info::TypeInfo, MaxEncodedLen, Ord, PartialOrd)]
pub struct PalletId(pub [u8; 8]);
impl sp_runtime::traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}

#[macro_export]
macro_rules! ensure {
	( $x:expr, $y:expr $(,)? ) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
#[macro_export]
macro_rules! fail {
	( $y:expr ) => {{
		return Err($y.into());
	}};
}
#[macro_export]
macro_rules! defensive {
	( $( $t:tt )* ) => {{ debug_assert!(false, "defensive failure"); }};
}
#[macro_export]
macro_rules! defensive_assert {
	( $c:expr $(, $( $t:tt )* )? ) => {{ debug_assert!($c); }};
}
#[macro_export]
macro_rules! assert_ok {
	( $x:expr $(,)? ) => {
		match $x {
			Ok(_) => (),
			Err(e) => panic!("Expected Ok(_). Got {:?}", e),
		}
	};
	( $x:expr, $y:expr $(,)? ) => { assert_eq!($x, Ok($y)) };
}
#[macro_export]
macro_rules! assert_err {
	( $x:expr , $y:expr $(,)? ) => { assert_eq!($x, Err($y.into())) };
}
#[macro_export]
macro_rules! assert_noop {
	( $x:expr , $y:expr $(,)? ) => {{
		let h = $crate::__private::sp_io::storage::snapshot();
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::__private::sp_io::storage::snapshot(), "storage has been mutated");
	}};
}
pub use sp_core::parameter_types;

pub mod inherent {}
pub mod pallet_prelude {
	pub use crate::dispatch::{DispatchClass, DispatchResult, DispatchResultWithPostInfo, Parameter, Pays};
	pub use crate::storage::types::{
		CountedStorageMap, Key as NMapKey, OptionQuery, ResultQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue,
		ValueQuery,
	};
	pub use crate::storage::StorageList;
	pub use crate::traits::{
		BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, ConstBool, EnsureOrigin, Get, GetDefault, GetStorageVersion,
		Hooks, IsType, PalletInfoAccess, StorageInfoTrait, StorageVersion, TypedGet, VariantCount,
	};
	pub use crate::weights::Weight;
	pub use crate::{
		ensure, fail, Blake2_128, Blake2_128Concat, Blake2_256, BoundedVec, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound,
		Identity, PartialEqNoBound, RuntimeDebug, RuntimeDebugNoBound, Twox128, Twox256, Twox64Concat, PalletId,
	};
	pub use parity_scale_codec::{Decode, Encode, HasCompact, MaxEncodedLen};
	pub use core::marker::PhantomData;
	pub use scale_info::TypeInfo;
	pub use sp_runtime::traits::{MaybeSerializeDeserialize, Member};
	pub use sp_runtime::{DispatchError, ModuleError};
	pub use crate::dispatch::DispatchErrorWithPostInfo;
	pub use sp_std::prelude::{Box, Vec};
}
