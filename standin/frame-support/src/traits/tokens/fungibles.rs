use super::*;
use parity_scale_codec::Encode as E;
use sp_arithmetic::traits::{CheckedAdd, CheckedSub};
use sp_runtime::{DispatchError, DispatchResult};

pub trait Inspect<AccountId>: Sized {
	type AssetId: AssetId;
	type Balance: Balance;
	fn total_issuance(asset: Self::AssetId) -> Self::Balance;
	fn active_issuance(asset: Self::AssetId) -> Self::Balance {
		Self::total_issuance(asset)
	}
	fn minimum_balance(asset: Self::AssetId) -> Self::Balance;
	fn total_balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn balance(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
	fn reducible_balance(asset: Self::AssetId, who: &AccountId, preservation: Preservation, force: Fortitude) -> Self::Balance;
	fn can_deposit(asset: Self::AssetId, who: &AccountId, amount: Self::Balance, provenance: Provenance) -> DepositConsequence;
	fn can_withdraw(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> WithdrawConsequence<Self::Balance>;
	fn asset_exists(asset: Self::AssetId) -> bool;
}
pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
pub trait Mutate<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	fn mint_into(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
	fn burn_from(
		asset: Self::AssetId,
		who: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
		precision: Precision,
		force: Fortitude,
	) -> Result<Self::Balance, DispatchError>;
	fn transfer(
		asset: Self::AssetId,
		source: &AccountId,
		dest: &AccountId,
		amount: Self::Balance,
		preservation: Preservation,
	) -> Result<Self::Balance, DispatchError>;
	fn set_balance(asset: Self::AssetId, who: &AccountId, amount: Self::Balance) -> Self::Balance;
}
/// A positive amount of an asset that is not (yet) in any account.
#[must_use]
pub struct Credit<AccountId, B: Balanced<AccountId>> {
	asset: B::AssetId,
	amount: B::Balance,
	_p: core::marker::PhantomData<AccountId>,
}
impl<AccountId, B: Balanced<AccountId>> Credit<AccountId, B> {
	pub fn issued(asset: B::AssetId, amount: B::Balance) -> Self {
		Self { asset, amount, _p: core::marker::PhantomData }
	}
	pub fn asset(&self) -> B::AssetId {
		self.asset.clone()
	}
	pub fn peek(&self) -> B::Balance {
		self.amount
	}
	pub fn split(self, amount: B::Balance) -> (Self, Self) {
		let first = if amount < self.amount { amount } else { self.amount };
		let rest = self.amount - first;
		let a = self.asset.clone();
		core::mem::forget(self);
		(Self::issued(a.clone(), first), Self::issued(a, rest))
	}
	/// The sum of both, or both as they were if they are of different assets.
	pub fn merge(self, other: Self) -> Result<Self, (Self, Self)> {
		if self.asset != other.asset {
			return Err((self, other));
		}
		let (a, n) = (self.asset.clone(), self.amount + other.amount);
		core::mem::forget((self, other));
		Ok(Self::issued(a, n))
	}
	pub fn into_parts(self) -> (B::AssetId, B::Balance) {
		let r = (self.asset.clone(), self.amount);
		core::mem::forget(self);
		r
	}
}
impl<AccountId, B: Balanced<AccountId>> Drop for Credit<AccountId, B> {
	fn drop(&mut self) {
		B::on_drop_credit(self.asset.clone(), self.amount)
	}
}
pub type CreditOf<A, B> = Credit<A, B>;
pub trait Balanced<AccountId>: Inspect<AccountId> + Unbalanced<AccountId> {
	/// A dropped credit is burned from the total issuance.
	fn on_drop_credit(asset: Self::AssetId, amount: Self::Balance);
	fn issue(asset: Self::AssetId, amount: Self::Balance) -> Credit<AccountId, Self>
	where
		Self: Sized;
	fn withdraw(
		asset: Self::AssetId,
		who: &AccountId,
		amount: Self::Balance,
		precision: Precision,
		preservation: Preservation,
		force: Fortitude,
	) -> Result<Credit<AccountId, Self>, DispatchError>
	where
		Self: Sized;
	fn resolve(who: &AccountId, credit: Credit<AccountId, Self>) -> Result<(), Credit<AccountId, Self>>
	where
		Self: Sized;
}
pub trait Create<AccountId>: Inspect<AccountId> {
	fn create(id: Self::AssetId, admin: AccountId, is_sufficient: bool, min_balance: Self::Balance) -> DispatchResult;
}
pub trait Destroy<AccountId>: Inspect<AccountId> {}
pub mod hold {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Reason: E + scale_info::TypeInfo + 'static;
		fn total_balance_on_hold(asset: Self::AssetId, who: &AccountId) -> Self::Balance;
		fn balance_on_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId) -> Self::Balance;
		fn can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> bool;
		fn reducible_total_balance_on_hold(asset: Self::AssetId, who: &AccountId, _force: Fortitude) -> Self::Balance {
			Self::total_balance_on_hold(asset, who)
		}
		fn hold_available(_asset: Self::AssetId, _reason: &Self::Reason, _who: &AccountId) -> bool {
			true
		}
		fn ensure_can_hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			if Self::can_hold(asset, reason, who, amount) {
				Ok(())
			} else {
				Err(TokenError::FundsUnavailable.into())
			}
		}
	}
	pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
	pub trait Mutate<AccountId>: Inspect<AccountId> + super::Unbalanced<AccountId> + Unbalanced<AccountId> {
		fn hold(asset: Self::AssetId, reason: &Self::Reason, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn release(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
		) -> Result<Self::Balance, DispatchError>;
		fn burn_all_held(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError> {
			let amount = Self::balance_on_hold(asset.clone(), reason, who);
			Self::burn_held(asset, reason, who, amount, precision, force)
		}
		fn burn_held(
			asset: Self::AssetId,
			reason: &Self::Reason,
			who: &AccountId,
			amount: Self::Balance,
			precision: Precision,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError>;
		fn transfer_on_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			amount: Self::Balance,
			precision: Precision,
			mode: Restriction,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError>;
		fn transfer_and_hold(
			asset: Self::AssetId,
			reason: &Self::Reason,
			source: &AccountId,
			dest: &AccountId,
			amount: Self::Balance,
			precision: Precision,
			expendability: Preservation,
			force: Fortitude,
		) -> Result<Self::Balance, DispatchError>;
	}
}
pub mod freeze {
	use super::*;
	pub trait Inspect<AccountId>: super::Inspect<AccountId> {
		type Id: E + scale_info::TypeInfo + 'static;
		fn balance_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> Self::Balance;
		fn balance_freezable(asset: Self::AssetId, who: &AccountId) -> Self::Balance {
			Self::total_balance(asset, who)
		}
		fn can_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> bool;
	}
	pub trait Mutate<AccountId>: Inspect<AccountId> {
		fn set_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn extend_freeze(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
		fn thaw(asset: Self::AssetId, id: &Self::Id, who: &AccountId) -> DispatchResult;
		fn ensure_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, force: Fortitude) -> DispatchResult {
			if force == Fortitude::Polite && Self::balance_freezable(asset.clone(), who) < amount {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::extend_freeze(asset, id, who, amount)
		}
		fn set_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance, force: Fortitude) -> DispatchResult {
			if force == Fortitude::Polite && Self::balance_freezable(asset.clone(), who) < amount {
				return Err(TokenError::FundsUnavailable.into());
			}
			Self::set_freeze(asset, id, who, amount)
		}
		fn increase_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_add(&amount).ok_or(sp_runtime::ArithmeticError::Overflow)?;
			Self::set_frozen(asset, id, who, a, Fortitude::Force)
		}
		fn decrease_frozen(asset: Self::AssetId, id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
			let a = Self::balance_frozen(asset.clone(), id, who).checked_sub(&amount).ok_or(sp_runtime::ArithmeticError::Underflow)?;
			Self::set_frozen(asset, id, who, a, Fortitude::Polite)
		}
	}
}
pub use freeze::{Inspect as InspectFreeze, Mutate as MutateFreeze};
pub use hold::{Inspect as InspectHold, Mutate as MutateHold};
#[allow(unused)]
use Encode as _Enc;
