use crate::{DispatchError, DispatchResultWithInfo};
pub use core::marker::PhantomData;
use core::fmt::Debug;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, Input, MaxEncodedLen};
pub use sp_arithmetic::traits::*;
pub use sp_core::{ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryGet, TypedGet};
use sp_core::H256;

pub trait Member: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static {}
impl<T: Send + Sync + Sized + Debug + Eq + PartialEq + Clone + 'static> Member for T {}
macro_rules! maybe { ($($n:ident)*) => { $(pub trait $n {} impl<T: ?Sized> $n for T {})* } }
maybe!(MaybeSerializeDeserialize MaybeSerialize MaybeDisplay MaybeFromStr MaybeHash MaybeRefUnwindSafe);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct BadOrigin;
impl From<BadOrigin> for &'static str {
	fn from(_: BadOrigin) -> &'static str {
		"Bad origin"
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct LookupError;
impl From<LookupError> for &'static str {
	fn from(_: LookupError) -> &'static str {
		"Can not lookup"
	}
}

/// Lets generic code name the parts of a `Result` type.
pub trait ResultOk {
	type Ok;
	type Err;
}
impl<T, E> ResultOk for Result<T, E> {
	type Ok = T;
	type Err = E;
}

pub trait Lookup {
	type Source;
	type Target;
	fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
}
pub trait StaticLookup {
	type Source: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo + EncodeLike;
	type Target;
	fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
	fn unlookup(t: Self::Target) -> Self::Source;
}
pub struct IdentityLookup<T>(PhantomData<T>);
impl<T: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo + EncodeLike> StaticLookup for IdentityLookup<T> {
	type Source = T;
	type Target = T;
	fn lookup(x: T) -> Result<T, LookupError> {
		Ok(x)
	}
	fn unlookup(x: T) -> T {
		x
	}
}
pub struct AccountIdLookup<AccountId, AccountIndex>(PhantomData<(AccountId, AccountIndex)>);
impl<AccountId, AccountIndex> StaticLookup for AccountIdLookup<AccountId, AccountIndex>
where
	AccountId: Codec + Clone + PartialEq + Debug + scale_info::TypeInfo + EncodeLike,
	AccountIndex: Codec + Clone + PartialEq + Debug + parity_scale_codec::HasCompact,
	crate::MultiAddress<AccountId, AccountIndex>: Codec + scale_info::TypeInfo + EncodeLike,
{
	type Source = crate::MultiAddress<AccountId, AccountIndex>;
	type Target = AccountId;
	fn lookup(x: Self::Source) -> Result<AccountId, LookupError> {
		match x {
			crate::MultiAddress::Id(i) => Ok(i),
			_ => Err(LookupError),
		}
	}
	fn unlookup(x: AccountId) -> Self::Source {
		crate::MultiAddress::Id(x)
	}
}

pub trait Hash: 'static + Clone + Eq + PartialEq + Debug {
	type Output: Member + Codec + EncodeLike + Default + Copy + Ord + AsRef<[u8]> + MaxEncodedLen + scale_info::TypeInfo;
	fn hash(s: &[u8]) -> Self::Output;
	fn hash_of<S: Encode>(s: &S) -> Self::Output {
		s.using_encoded(Self::hash)
	}
}
#[derive(PartialEq, Eq, Clone, Debug, scale_info::TypeInfo)]
pub struct BlakeTwo256;
impl Hash for BlakeTwo256 {
	type Output = H256;
	fn hash(s: &[u8]) -> H256 {
		H256(sp_core::blake2_256(s))
	}
}
pub type HashingFor<B> = <B as Block>::Hashing;
pub trait Block {
	type Hashing;
	type Number;
	type Hash;
	type Header;
	type Extrinsic;
}

pub trait Dispatchable {
	type RuntimeOrigin: Debug;
	type Config;
	type Info;
	type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Debug + Default;
	fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
}
impl Dispatchable for () {
	type RuntimeOrigin = ();
	type Config = ();
	type Info = ();
	type PostInfo = ();
	fn dispatch(self, _: ()) -> DispatchResultWithInfo<()> {
		panic!("This implementation should not be used for actual dispatch.");
	}
}

pub struct TrailingZeroInput<'a>(&'a [u8]);
impl<'a> TrailingZeroInput<'a> {
	pub fn new(data: &'a [u8]) -> Self {
		Self(data)
	}
	pub fn zeroes() -> Self {
		Self(&[][..])
	}
}
impl<'a> Input for TrailingZeroInput<'a> {
	fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
		let len_from_inner = into.len().min(self.0.len());
		into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
		for i in &mut into[len_from_inner..] {
			*i = 0;
		}
		self.0 = &self.0[len_from_inner..];
		Ok(())
	}
}

pub trait AccountIdConversion<AccountId>: Sized {
	fn into_account_truncating(&self) -> AccountId {
		self.into_sub_account_truncating(&())
	}
	fn try_into_account(&self) -> Option<AccountId> {
		self.try_into_sub_account(&())
	}
	fn try_from_account(a: &AccountId) -> Option<Self> {
		Self::try_from_sub_account::<()>(a).map(|x| x.0)
	}
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> AccountId;
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<AccountId>;
	fn try_from_sub_account<S: Decode>(x: &AccountId) -> Option<(Self, S)>;
}
pub trait TypeId {
	const TYPE_ID: [u8; 4];
}
impl<T: Encode + Decode, Id: Encode + Decode + TypeId> AccountIdConversion<T> for Id {
	fn into_sub_account_truncating<S: Encode>(&self, sub: S) -> T {
		(Id::TYPE_ID, self, sub)
			.using_encoded(|b| T::decode(&mut TrailingZeroInput(b)))
			.expect("All byte sequences are valid `AccountIds`; qed")
	}
	fn try_into_sub_account<S: Encode>(&self, sub: S) -> Option<T> {
		let encoded_seed = (Id::TYPE_ID, self, sub).encode();
		let account = T::decode(&mut TrailingZeroInput(&encoded_seed)).expect("All byte sequences are valid; qed");
		if encoded_seed.len() <= account.encoded_size() {
			Some(account)
		} else {
			None
		}
	}
	fn try_from_sub_account<S: Decode>(x: &T) -> Option<(Self, S)> {
		x.using_encoded(|d| {
			if d[0..4] != Id::TYPE_ID {
				return None;
			}
			let mut cursor = &d[4..];
			let result = Decode::decode(&mut cursor).ok()?;
			if cursor.iter().all(|x| *x == 0) {
				Some(result)
			} else {
				None
			}
		})
	}
}

pub trait Convert<A, B> {
	fn convert(a: A) -> B;
}
impl<A, B: Default> Convert<A, B> for () {
	fn convert(_: A) -> B {
		Default::default()
	}
}
pub struct Identity;
impl<T> Convert<T, T> for Identity {
	fn convert(a: T) -> T {
		a
	}
}
pub struct ConvertInto;
impl<A: Into<B>, B> Convert<A, B> for ConvertInto {
	fn convert(a: A) -> B {
		a.into()
	}
}
pub trait ConvertBack<A, B>: Convert<A, B> {
	fn convert_back(b: B) -> A;
}
pub trait TryConvert<A, B> {
	fn try_convert(a: A) -> Result<B, A>;
}
macro_rules! try_convert_tuple { ($($t:ident),+) => {
	impl<A, B, $($t: TryConvert<A, B>),+> TryConvert<A, B> for ($($t,)+) {
		fn try_convert(a: A) -> Result<B, A> {
			$( let a = match $t::try_convert(a) { Ok(b) => return Ok(b), Err(a) => a }; )+
			Err(a)
		}
	}
} }
try_convert_tuple!(T0);
try_convert_tuple!(T0, T1);
try_convert_tuple!(T0, T1, T2);
try_convert_tuple!(T0, T1, T2, T3);
try_convert_tuple!(T0, T1, T2, T3, T4);
pub trait MaybeConvert<A, B> {
	fn maybe_convert(a: A) -> Option<B>;
}
pub trait MaybeEquivalence<A, B> {
	fn convert(a: &A) -> Option<B>;
	fn convert_back(b: &B) -> Option<A>;
}

pub trait Morph<A> {
	type Outcome;
	fn morph(a: A) -> Self::Outcome;
}
pub trait TryMorph<A> {
	type Outcome;
	fn try_morph(a: A) -> Result<Self::Outcome, ()>;
}
impl<T> Morph<T> for Identity {
	type Outcome = T;
	fn morph(a: T) -> T {
		a
	}
}
impl<T> TryMorph<T> for Identity {
	type Outcome = T;
	fn try_morph(a: T) -> Result<T, ()> {
		Ok(a)
	}
}
pub struct MorphInto<T>(PhantomData<T>);
impl<T, A: Into<T>> Morph<A> for MorphInto<T> {
	type Outcome = T;
	fn morph(a: A) -> T {
		a.into()
	}
}
pub struct Replace<V>(PhantomData<V>);
impl<T, V: TypedGet> Morph<T> for Replace<V> {
	type Outcome = V::Type;
	fn morph(_: T) -> V::Type {
		V::get()
	}
}
pub struct ReplaceWithDefault<V>(PhantomData<V>);
impl<T, V: Default> Morph<T> for ReplaceWithDefault<V> {
	type Outcome = V;
	fn morph(_: T) -> V {
		Default::default()
	}
}

pub trait BlockNumberProvider {
	type BlockNumber;
	fn current_block_number() -> Self::BlockNumber;
}
pub trait IdentifyAccount {
	type AccountId;
	fn into_account(self) -> Self::AccountId;
}
pub trait Verify {
	type Signer;
}
pub trait OpaqueKeys {
	type KeyTypeIdProviders;
}
pub trait SignedExtension {}
#[allow(unused)]
type _E = DispatchError;
