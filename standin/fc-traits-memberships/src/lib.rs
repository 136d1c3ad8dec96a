//! Stand-in for the memberships traits: who holds which membership of which group, and its rank.
use core::num::NonZeroU8;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_runtime::{DispatchError, DispatchResult};

pub trait Inspect<AccountId> {
	type Group;
	type Membership;
	/// Memberships an account holds, in one group or in all of them.
	fn user_memberships(
		who: &AccountId,
		maybe_group: Option<Self::Group>,
	) -> Box<dyn Iterator<Item = (Self::Group, Self::Membership)>>;
	fn is_member_of(group: &Self::Group, who: &AccountId) -> bool;
	fn check_membership(who: &AccountId, m: &Self::Membership) -> Option<Self::Group>;
	fn members_total(group: &Self::Group) -> u32;
}
pub trait Manager<AccountId, ItemConfig>: Inspect<AccountId> {
	fn assign(group: &Self::Group, m: &Self::Membership, who: &AccountId) -> Result<(), DispatchError>;
	fn release(group: &Self::Group, m: &Self::Membership) -> Result<(), DispatchError>;
}
pub trait Rank<AccountId, ItemConfig>: Inspect<AccountId> {
	fn rank_of(group: &Self::Group, m: &Self::Membership) -> Option<GenericRank>;
	fn set_rank(group: &Self::Group, m: &Self::Membership, rank: impl Into<GenericRank>) -> DispatchResult;
	fn ranks_total(group: &Self::Group) -> u32;
}

#[derive(Clone, Copy, Debug, Default, Decode, Encode, Eq, MaxEncodedLen, Ord, PartialEq, PartialOrd, scale_info::TypeInfo)]
pub struct GenericRank(pub u8);
impl GenericRank {
	pub const MIN: Self = GenericRank(0);
	pub const MAX: Self = GenericRank(u8::MAX);
	pub fn promote_by(&self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_add(n.get()))
	}
	pub fn demote_by(&self, n: NonZeroU8) -> Self {
		GenericRank(self.0.saturating_sub(n.get()))
	}
	pub fn checked_add(&self, n: u8) -> Option<Self> {
		self.0.checked_add(n).map(GenericRank)
	}
}
impl From<u8> for GenericRank {
	fn from(v: u8) -> Self {
		GenericRank(v)
	}
}
impl From<GenericRank> for u8 {
	fn from(v: GenericRank) -> u8 {
		v.0
	}
}
impl From<GenericRank> for u32 {
	fn from(v: GenericRank) -> u32 {
		v.0 as u32
	}
}
