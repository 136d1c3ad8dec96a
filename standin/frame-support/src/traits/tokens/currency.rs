pub use super::ExistenceRequirement;
use super::Balance;
use sp_runtime::DispatchResult;
pub trait Currency<AccountId> {
	type Balance: Balance;
	type PositiveImbalance;
	type NegativeImbalance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn transfer(source: &AccountId, dest: &AccountId, value: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
	fn resolve_creating(who: &AccountId, value: Self::NegativeImbalance);
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn can_reserve(who: &AccountId, value: Self::Balance) -> bool;
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, value: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, value: Self::Balance) -> Self::Balance;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct WithdrawReasons(pub i8);
impl WithdrawReasons {
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn all() -> Self {
		Self(31)
	}
	pub fn except(o: Self) -> Self {
		Self(31 & !o.0)
	}
}
impl core::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
