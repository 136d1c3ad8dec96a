use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use sp_runtime::{traits::Saturating, DispatchError};

pub type Period<BlockNumber> = (BlockNumber, u32);
pub type Priority = u8;
#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, Debug, scale_info::TypeInfo, MaxEncodedLen)]
pub enum DispatchTime<BlockNumber> {
	At(BlockNumber),
	After(BlockNumber),
}
impl<BlockNumber: Saturating + Copy> DispatchTime<BlockNumber> {
	pub fn evaluate(&self, since: BlockNumber) -> BlockNumber {
		match &self {
			Self::At(m) => *m,
			Self::After(m) => m.saturating_add(since),
		}
	}
}
pub const HIGHEST_PRIORITY: Priority = 0;
pub const HARD_DEADLINE: Priority = 63;
pub const LOWEST_PRIORITY: Priority = 255;

pub mod v3 {
	use super::*;
	use crate::traits::Bounded;
	pub type TaskName = [u8; 32];
	pub trait Anon<BlockNumber, Call, Origin> {
		type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + core::fmt::Debug + scale_info::TypeInfo;
		type Hasher: sp_runtime::traits::Hash;
		fn schedule(
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel(address: Self::Address) -> Result<(), DispatchError>;
		fn reschedule(address: Self::Address, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
		fn next_dispatch_time(address: Self::Address) -> Result<BlockNumber, DispatchError>;
	}
	pub trait Named<BlockNumber, Call, Origin> {
		type Address: Codec + MaxEncodedLen + Clone + Eq + EncodeLike + core::fmt::Debug + scale_info::TypeInfo;
		type Hasher: sp_runtime::traits::Hash;
		fn schedule_named(
			id: TaskName,
			when: DispatchTime<BlockNumber>,
			maybe_periodic: Option<Period<BlockNumber>>,
			priority: Priority,
			origin: Origin,
			call: Bounded<Call, Self::Hasher>,
		) -> Result<Self::Address, DispatchError>;
		fn cancel_named(id: TaskName) -> Result<(), DispatchError>;
		fn reschedule_named(id: TaskName, when: DispatchTime<BlockNumber>) -> Result<Self::Address, DispatchError>;
		fn next_dispatch_time(id: TaskName) -> Result<BlockNumber, DispatchError>;
	}
}
pub use v3::*;
