//! Stand-in for `sp-runtime`: the types and traits that virto-node's pallets are written against.
pub mod traits;
pub use sp_arithmetic::{
	traits::{SaturatedConversion, Saturating},
	ArithmeticError, FixedI64, FixedU128, PerThing, PerU16, Perbill, Percent, Permill, Perquintill, Rounding,
};
pub use sp_core::{bounded, AccountId32, BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use standin_macros::{morph_types, RuntimeDebug};
pub mod bounded_vec {
	pub use sp_core::BoundedVec;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Either<A, B> {
	Left(A),
	Right(B),
}
/// Importing it is all callers need: the operations are inherent here.
pub trait FixedPointNumber {}
impl FixedPointNumber for FixedU128 {}
impl FixedPointNumber for FixedI64 {}
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; 4],
	#[codec(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		self.index == o.index && self.error == o.error
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, PartialEq)]
pub enum DispatchError {
	Other(#[codec(skip)] &'static str),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl From<&'static str> for DispatchError {
	fn from(s: &'static str) -> Self {
		Self::Other(s)
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		Self::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		Self::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		Self::Transactional(e)
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		Self::BadOrigin
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		Self::CannotLookup
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(s) => s,
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::CannotLookup => "Cannot lookup",
			_ => "error",
		}
	}
}
pub type DispatchResult = Result<(), DispatchError>;
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info> {
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T: Default, E: Into<DispatchError>> From<E> for DispatchErrorWithPostInfo<T> {
	fn from(e: E) -> Self {
		Self { post_info: T::default(), error: e.into() }
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;

#[derive(Eq, PartialEq, Clone, Copy, Debug)]
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}

#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, PartialOrd, Ord, TypeInfo)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(BoundedRaw),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
pub type BoundedRaw = BoundedVec<u8, sp_core::ConstU32<256>>;
impl<AccountId, AccountIndex> From<AccountId> for MultiAddress<AccountId, AccountIndex> {
	fn from(a: AccountId) -> Self {
		Self::Id(a)
	}
}

#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo)]
pub enum MultiSignature {
	Ed25519([u8; 64]),
	Sr25519([u8; 64]),
	Ecdsa([u8; 65]),
}

/// Fixed-size array from a string, padded with zeroes.
pub const fn str_array<const N: usize>(s: &str) -> [u8; N] {
	let bytes = s.as_bytes();
	let mut out = [0u8; N];
	let mut i = 0;
	while i < bytes.len() && i < N {
		out[i] = bytes[i];
		i += 1;
	}
	out
}

impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
}
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, TypeInfo)]
pub enum MultiSigner {
	Ed25519([u8; 32]),
	Sr25519([u8; 32]),
	Ecdsa([u8; 33]),
}
pub mod transaction_validity {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		BadMandatory,
		MandatoryValidation,
		BadSigner,
		Custom(u8),
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl<T> From<InvalidTransaction> for Result<T, TransactionValidityError> {
		fn from(e: InvalidTransaction) -> Self {
			Err(e.into())
		}
	}
	impl<T> From<UnknownTransaction> for Result<T, TransactionValidityError> {
		fn from(e: UnknownTransaction) -> Self {
			Err(e.into())
		}
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Debug, Default)]
	pub struct ValidTransaction {
		pub priority: u64,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
}
pub type ApplyExtrinsicResult = Result<DispatchResult, transaction_validity::TransactionValidityError>;
pub enum ExtrinsicInclusionMode {
	AllExtrinsics,
	OnlyInherents,
}
pub trait BuildStorage {}
pub mod generic {
	use core::marker::PhantomData;
	pub struct Block<H, E>(PhantomData<(H, E)>);
	impl<H, E> crate::traits::Block for Block<H, E> {
		type Hashing = crate::traits::BlakeTwo256;
		type Number = u32;
		type Hash = sp_core::H256;
		type Header = H;
		type Extrinsic = E;
	}
	/// How long a transaction is good for: a period and its phase, or for ever.
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum Era {
		Immortal,
		Mortal(u64, u64),
	}
	impl Era {
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let phase = current % period;
			let factor = (period >> 12).max(1);
			Era::Mortal(period, phase / factor * factor)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(period, phase) => (current.max(phase) - phase) / period * period + phase,
			}
		}
	}
	/// What a signature covers besides the call: what is written in the transaction and what both sides take as given.
	#[derive(Clone, PartialEq, Eq, Debug)]
	pub struct Signed {
		/// whose key it is
		pub key: Vec<u8>,
		pub nonce: u32,
		pub era: Era,
		pub tip: u128,
		/// the asset to pay in, encoded
		pub asset: Option<Vec<u8>>,
		pub spec_version: u32,
		pub transaction_version: u32,
		pub genesis: [u8; 32],
		pub birth: [u8; 32],
	}
	pub struct SignedBlock<B>(PhantomData<B>);
	pub struct BlockId<B>(PhantomData<B>);
	pub struct UncheckedExtrinsic<A, C, S, E> {
		pub signature: Option<(A, Signed)>,
		pub function: C,
		/// how many bytes it takes
		pub len: u32,
		pub marker: PhantomData<(S, E)>,
	}
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn signed(function: C, by: A, signed: Signed, len: u32) -> Self {
			Self { signature: Some((by, signed)), function, len, marker: PhantomData }
		}
		pub fn bare(function: C, len: u32) -> Self {
			Self { signature: None, function, len, marker: PhantomData }
		}
	}
	pub struct SignedPayload<C, E>(PhantomData<(C, E)>);
	pub struct CheckedExtrinsic<A, C, E>(PhantomData<(A, C, E)>);
	pub struct Header<N, H>(PhantomData<(N, H)>);
	pub struct Digest;
}
pub trait BoundToRuntimeAppPublic {
	type Public;
}
#[macro_export]
macro_rules! impl_opaque_keys {
	( $(#[$a:meta])* pub struct $name:ident { $( $(#[$i:meta])* pub $f:ident : $t:ty ),* $(,)? } ) => {
		$(#[$a])*
		pub struct $name { $( pub $f: core::marker::PhantomData<$t> ),* }
		impl $crate::traits::OpaqueKeys for $name {
			type KeyTypeIdProviders = ( $( $t, )* );
		}
	};
}
#[macro_export]
macro_rules! create_runtime_str {
	($e:expr) => { $e };
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct RuntimeVersion {
	pub spec_name: &'static str,
	pub impl_name: &'static str,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: &'static [([u8; 8], u32)],
	pub transaction_version: u32,
	pub state_version: u8,
}
