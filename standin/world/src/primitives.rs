//! Types of the relay chain and of parachains in general.
use core::marker::PhantomData;
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

pub type Balance = u128;
pub type BlockNumber = u32;
pub type Moment = u64;
pub type Hash = sp_core::H256;
pub type Nonce = u32;
pub type AccountId = sp_runtime::AccountId32;
pub type Signature = sp_runtime::MultiSignature;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, Encode, Decode, MaxEncodedLen, TypeInfo, CompactAs)]
pub struct ParaId(pub u32);
impl From<u32> for ParaId {
	fn from(x: u32) -> Self {
		ParaId(x)
	}
}
impl From<ParaId> for u32 {
	fn from(x: ParaId) -> u32 {
		x.0
	}
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub struct Sibling(pub ParaId);
impl From<u32> for Sibling {
	fn from(x: u32) -> Self {
		Sibling(ParaId(x))
	}
}
impl From<Sibling> for u32 {
	fn from(x: Sibling) -> u32 {
		x.0 .0
	}
}
impl sp_runtime::traits::TypeId for Sibling {
	const TYPE_ID: [u8; 4] = *b"sibl";
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, TypeInfo)]
pub enum AggregateMessageOrigin {
	Here,
	Parent,
	Sibling(ParaId),
}
pub struct Dull<T = ()>(PhantomData<T>);
