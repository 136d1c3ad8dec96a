use super::*;
use parity_scale_codec::Encode as E;
use sp_arithmetic::traits::{CheckedAdd, CheckedSub};
use sp_runtime::{DispatchError, DispatchResult};

pub trait Inspect<AccountId>: Sized {
	type Balance: Balance;
	fn total_issuance() -> Self::Balance;
	fn active_issuance() -> Self::Balance {
		Self::total_issuance()
	}
	fn minimum_balance() -> Self::Balance;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn balance(who: &AccountId) -> Self::Balance;
	fn reducible_balance(who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
}
pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
	fn burn_from(
		who: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
		precision: Precision,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError>;
	fn transfer(
		source: &AccountId,
		dest: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
	) -> Result<Self::Balance, DispatchError>;
	fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance;
}
/// A positive amount that is not (yet) in any account.
#[must_use]
pub struct Credit<AccountId, B: Balanced<AccountId>> {
	amount: B::Balance,
	_p: core::marker::PhantomData<AccountId>,
}
impl<AccountId, B: Balanced<AccountId>> Credit<AccountId, B> {
	pub fn issued(amount: B::Balance) -> Self {
		Self { amount, _p: core::marker::PhantomData }
	}
	pub fn peek(&self) -> B::Balance {
		self.amount
	}
	pub fn split(self, amount: B::Balance) -> (Self, Self) {
		let first = if amount < self.amount { amount } else { self.amount };
		let rest = self.amount - first;
		core::mem::forget(self);
		(Self::issued(first), Self::issued(rest))
	}
	pub fn merge(self, other: Self) -> Self {
		let n = self.amount + other.amount;
		core::mem::forget((self, other));
		Self::issued(n)
	}
	pub fn into_amount(self) -> B::Balance {
		let r = self.amount;
		core::mem::forget(self);
		r
	}
}
impl<AccountId, B: Balanced<AccountId>> Drop for Credit<AccountId, B> {
	fn drop(&mut self) {
		B::on_drop_credit(self.amount)
	}
}
pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	/// A dropped credit is burned from the total issuance.
	fn on_drop_credit(amount: Self::Balance);
	fn issue(amount: Self::Balance) -> Credit<AccountId, Self>
	where
		Self: Sized;
	fn withdraw(
		who: &AccountId,
		amount: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Credit<AccountId, Self>, DispatchError>
	where
		Self: Sized;
	fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>>
	where
		Self: Sized;
}
pub struct Imbalance<B, OnDrop, OppositeOnDrop>(B, core::marker::PhantomData<(OnDrop, OppositeOnDrop)>);
pub trait BalancedHold<AccountId>: Balanced<AccountId> + hold::Inspect<AccountId> {}
pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: E + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(who: &AccountId) -> Self::Balance;
		fn balance_on_hold(reason: &Self::Reason, who: &AccountId) -> Self::Balance;
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn release(reason: &Self::Reason, who: &AccountId, amount: Self::Balance, precision: Precision) -> Result<Self::Balance, DispatchError>;
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: E + scale_info::TypeInfo + 'static;
		fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(who: &AccountId) -> Self::Balance {
			Self::total_balance(who)
		}
		fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, force: Fortitude) -> DispatchResult {
			if force == Fortitude::Polite && Self::balance_freezable(who) < amount {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::set_freeze(id, who, amount)
		}
		fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_add(&amount).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			Self::set_frozen(id, who, a, Fortitude::Force)
		}
		fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(id, who).checked_sub(&amount).ok_or(sp_runtime::ArithmeticError::Underflow)?;
			Self::set_frozen(id, who, a, Fortitude::Polite)
		}
		fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, force: Fortitude) -> DispatchResult {
			if force == Fortitude::Polite && Self::balance_freezable(who) < amount {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::extend_freeze(id, who, amount)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold};
pub struct HoldConsideration<A, F, R, D, Fp = ()>(core::marker::PhantomData<(A, F, R, D, Fp)>);
pub struct IncreaseIssuance<A, U>(core::marker::PhantomData<(A, U)>);
pub struct DecreaseIssuance<A, U>(core::marker::PhantomData<(A, U)>);
#[allow(unused)]
use Encode as _Enc;
