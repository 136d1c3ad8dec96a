use core::marker::PhantomData;
use frame_support::traits::tokens::{
	fungible, fungibles, DepositConsequence, Fortitude, Precision, Preservation, Provenance, Restriction, WithdrawConsequence,
};
use parity_scale_codec::{Decode, Encode};
use sp_arithmetic::traits::{CheckedAdd, CheckedSub, Zero};
use sp_io::storage as kv;
use sp_runtime::{ArithmeticError, DispatchError, DispatchResult, TokenError};

pub trait LedgerConfig: Sized + 'static {
	type AccountId: Encode + Decode + Clone + Eq + Ord + core::fmt::Debug;
	type AssetId: fungibles_asset_id::Id;
	type Balance: frame_support::traits::tokens::Balance + CheckedAdd + CheckedSub;
	type HoldReason: Encode + scale_info::TypeInfo + 'static;
	type FreezeId: Encode + scale_info::TypeInfo + 'static;
	/// separates ledgers that live side by side
	const NAME: &'static str;
	fn minimum_balance(asset: &Self::AssetId) -> Self::Balance;
	fn asset_exists(_asset: &Self::AssetId) -> bool {
		true
	}
	/// The asset of the single-asset interface.
	fn native() -> Self::AssetId;
	/// The place of the pallet in its runtime.
	fn pallet_index() -> usize {
		0
	}
	fn create(_id: Self::AssetId, _admin: Self::AccountId, _sufficient: bool, _min: Self::Balance) -> DispatchResult {
		Ok(())
	}
	/// Fault injection: return an error to make the next movement fail.
	fn fault(_op: &'static str) -> Result<(), DispatchError> {
		Ok(())
	}
}
pub mod fungibles_asset_id {
	pub use frame_support::traits::tokens::AssetId as Id;
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, Default)]
pub struct Account<B> {
	pub free: B,
	pub holds: Vec<(Vec<u8>, B)>,
	pub freezes: Vec<(Vec<u8>, B)>,
}
impl<B: frame_support::traits::tokens::Balance> Account<B> {
	pub fn held(&self) -> B {
		self.holds.iter().fold(B::zero(), |a, h| a + h.1)
	}
	pub fn held_for(&self, r: &[u8]) -> B {
		self.holds.iter().find(|h| h.0 == r).map(|h| h.1).unwrap_or_default()
	}
	pub fn frozen(&self) -> B {
		self.freezes.iter().map(|f| f.1).fold(B::zero(), |a, b| if a > b { a } else { b })
	}
	pub fn frozen_by(&self, r: &[u8]) -> B {
		self.freezes.iter().find(|h| h.0 == r).map(|h| h.1).unwrap_or_default()
	}
	pub fn total(&self) -> B {
		self.free + self.held()
	}
}

pub struct Ledger<C>(PhantomData<C>);
type A<C> = <C as LedgerConfig>::AccountId;
type I<C> = <C as LedgerConfig>::AssetId;
type B<C> = <C as LedgerConfig>::Balance;
impl<C: LedgerConfig> Ledger<C> {
	fn prefix() -> Vec<u8> {
		(*b"ledger", C::NAME).encode()
	}
	fn key(asset: &I<C>, who: &A<C>) -> Vec<u8> {
		let mut k = Self::prefix();
		(asset, who).encode_to(&mut k);
		k
	}
	fn issuance_key(asset: &I<C>) -> Vec<u8> {
		(*b"issued", C::NAME, asset).encode()
	}
	pub fn account(asset: &I<C>, who: &A<C>) -> Account<B<C>> {
		kv::get(&Self::key(asset, who)).map(|v| Account::decode(&mut &v[..]).expect("own encoding")).unwrap_or_default()
	}
	pub fn put(asset: &I<C>, who: &A<C>, mut a: Account<B<C>>) {
		a.holds.retain(|h| !h.1.is_zero());
		a.freezes.retain(|h| !h.1.is_zero());
		let (key, value) = (Self::key(asset, who), a.encode());
		kv::note(&key);
		kv::note(&value);
		if a == Account::default() {
			kv::clear(&key)
		} else {
			kv::set(&key, &value)
		}
	}
	/// Every account there is, with its asset.
	pub fn accounts() -> Vec<(I<C>, A<C>, Account<B<C>>)> {
		let p = Self::prefix();
		kv::keys_with_prefix(&p)
			.into_iter()
			.map(|k| {
				let (i, w) = <(I<C>, A<C>)>::decode(&mut &k[p.len()..]).expect("own key");
				let a = Self::account(&i, &w);
				(i, w, a)
			})
			.collect()
	}
	pub fn issued(asset: &I<C>) -> B<C> {
		kv::get(&Self::issuance_key(asset)).map(|v| Decode::decode(&mut &v[..]).expect("own")).unwrap_or_default()
	}
	fn set_issued(asset: &I<C>, b: B<C>) {
		kv::set(&Self::issuance_key(asset), &b.encode())
	}
	pub fn endow(asset: &I<C>, who: &A<C>, amount: B<C>) -> Result<B<C>, DispatchError> {
		let i = Self::issued(asset).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		let mut a = Self::account(asset, who);
		a.free = a.free + amount;
		Self::put(asset, who, a);
		Self::set_issued(asset, i);
		Ok(amount)
	}
	fn reducible(asset: &I<C>, who: &A<C>, p: Preservation, f: Fortitude) -> B<C> {
		let a = Self::account(asset, who);
		let mut untouchable = B::<C>::zero();
		if f == Fortitude::Polite {
			// frozen funds may be covered by held ones
			untouchable = a.frozen().checked_sub(&a.held()).unwrap_or_default();
		}
		let ed = C::minimum_balance(asset);
		let keep = match p {
			Preservation::Expendable => B::<C>::zero(),
			Preservation::Protect => {
				if a.held() >= ed {
					B::<C>::zero()
				} else {
					ed
				}
			}
			Preservation::Preserve => ed,
		};
		let keep = if keep > untouchable { keep } else { untouchable };
		a.free.checked_sub(&keep).unwrap_or_default()
	}
	fn deposit(asset: &I<C>, who: &A<C>, amount: B<C>) -> DispatchResult {
		if amount.is_zero() {
			return Ok(());
		}
		let mut a = Self::account(asset, who);
		let f = a.free.checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		f.checked_add(&a.held()).ok_or(ArithmeticError::Overflow)?;
		if a.total().is_zero() && amount < C::minimum_balance(asset) {
			return Err(TokenError::BelowMinimum.into());
		}
		a.free = f;
		Self::put(asset, who, a);
		Ok(())
	}
	fn do_transfer(asset: I<C>, s: &A<C>, d: &A<C>, amount: B<C>, p: Preservation) -> Result<B<C>, DispatchError> {
		C::fault("transfer")?;
		if !C::asset_exists(&asset) {
			return Err(TokenError::UnknownAsset.into());
		}
		if amount > Self::reducible(&asset, s, p, Fortitude::Polite) {
			return Err(TokenError::FundsUnavailable.into());
		}
		if s == d || amount.is_zero() {
			return Ok(amount);
		}
		Self::deposit(&asset, d, amount)?;
		let mut a = Self::account(&asset, s);
		a.free = a.free - amount;
		Self::put(&asset, s, a);
		Ok(amount)
	}
	fn do_hold(asset: &I<C>, r: &[u8], who: &A<C>, amount: B<C>) -> DispatchResult {
		C::fault("hold")?;
		if amount.is_zero() {
			return Ok(());
		}
		if amount > Self::reducible(asset, who, Preservation::Protect, Fortitude::Force) {
			return Err(TokenError::FundsUnavailable.into());
		}
		let mut a = Self::account(asset, who);
		a.free = a.free - amount;
		Self::add_hold(&mut a, r, amount)?;
		Self::put(asset, who, a);
		Ok(())
	}
	fn add_hold(a: &mut Account<B<C>>, r: &[u8], amount: B<C>) -> DispatchResult {
		match a.holds.iter_mut().find(|h| h.0 == r) {
			Some(h) => h.1 = h.1.checked_add(&amount).ok_or(ArithmeticError::Overflow)?,
			None => a.holds.push((r.to_vec(), amount)),
		}
		Ok(())
	}
	fn take_hold(a: &mut Account<B<C>>, r: &[u8], amount: B<C>, p: Precision) -> Result<B<C>, DispatchError> {
		let have = a.held_for(r);
		let take = if amount <= have {
			amount
		} else if p == Precision::BestEffort {
			have
		} else {
			return Err(TokenError::FundsUnavailable.into());
		};
		if let Some(h) = a.holds.iter_mut().find(|h| h.0 == r) {
			h.1 = h.1 - take;
		}
		Ok(take)
	}
}

impl<C: LedgerConfig> fungibles::Inspect<A<C>> for Ledger<C> {
	type AssetId = I<C>;
	type Balance = B<C>;
	fn total_issuance(asset: I<C>) -> B<C> {
		Self::issued(&asset)
	}
	fn minimum_balance(asset: I<C>) -> B<C> {
		C::minimum_balance(&asset)
	}
	fn total_balance(asset: I<C>, who: &A<C>) -> B<C> {
		Self::account(&asset, who).total()
	}
	fn balance(asset: I<C>, who: &A<C>) -> B<C> {
		Self::account(&asset, who).free
	}
	fn reducible_balance(asset: I<C>, who: &A<C>, p: Preservation, f: Fortitude) -> B<C> {
		Self::reducible(&asset, who, p, f)
	}
	fn can_deposit(asset: I<C>, who: &A<C>, amount: B<C>, _p: Provenance) -> DepositConsequence {
		let a = Self::account(&asset, who);
		if a.total().checked_add(&amount).is_none() {
			DepositConsequence::Overflow
		} else if a.total().is_zero() && amount < C::minimum_balance(&asset) {
			DepositConsequence::BelowMinimum
		} else {
			DepositConsequence::Success
		}
	}
	fn can_withdraw(asset: I<C>, who: &A<C>, amount: B<C>) -> WithdrawConsequence<B<C>> {
		if amount <= Self::reducible(&asset, who, Preservation::Expendable, Fortitude::Polite) {
			WithdrawConsequence::Success
		} else {
			WithdrawConsequence::BalanceLow
		}
	}
	fn asset_exists(asset: I<C>) -> bool {
		C::asset_exists(&asset)
	}
}
impl<C: LedgerConfig> fungibles::Unbalanced<A<C>> for Ledger<C> {}
impl<C: LedgerConfig> fungibles::Mutate<A<C>> for Ledger<C> {
	fn mint_into(asset: I<C>, who: &A<C>, amount: B<C>) -> Result<B<C>, DispatchError> {
		let i = Self::issued(&asset).checked_add(&amount).ok_or(ArithmeticError::Overflow)?;
		Self::deposit(&asset, who, amount)?;
		Self::set_issued(&asset, i);
		Ok(amount)
	}
	fn burn_from(asset: I<C>, who: &A<C>, amount: B<C>, p: Preservation, prec: Precision, f: Fortitude) -> Result<B<C>, DispatchError> {
		let have = Self::reducible(&asset, who, p, f);
		let take = if amount <= have {
			amount
		} else if prec == Precision::BestEffort {
			have
		} else {
			return Err(TokenError::FundsUnavailable.into());
		};
		let mut a = Self::account(&asset, who);
		a.free = a.free - take;
		Self::put(&asset, who, a);
		Self::set_issued(&asset, Self::issued(&asset) - take);
		Ok(take)
	}
	fn transfer(asset: I<C>, s: &A<C>, d: &A<C>, amount: B<C>, p: Preservation) -> Result<B<C>, DispatchError> {
		Self::do_transfer(asset, s, d, amount, p)
	}
	fn set_balance(asset: I<C>, who: &A<C>, amount: B<C>) -> B<C> {
		let mut a = Self::account(&asset, who);
		let i = Self::issued(&asset) - a.free + amount;
		a.free = amount;
		Self::put(&asset, who, a);
		Self::set_issued(&asset, i);
		amount
	}
}
impl<C: LedgerConfig> fungibles::Balanced<A<C>> for Ledger<C> {
	fn on_drop_credit(asset: I<C>, amount: B<C>) {
		Self::set_issued(&asset, Self::issued(&asset) - amount)
	}
	fn issue(asset: I<C>, amount: B<C>) -> fungibles::Credit<A<C>, Self> {
		Self::set_issued(&asset, Self::issued(&asset) + amount);
		fungibles::Credit::issued(asset, amount)
	}
	fn withdraw(asset: I<C>, who: &A<C>, n: B<C>, prec: Precision, p: Preservation, f: Fortitude) -> Result<fungibles::Credit<A<C>, Self>, DispatchError> {
		let taken = <Self as fungibles::Mutate<A<C>>>::burn_from(asset.clone(), who, n, p, prec, f)?;
		Ok(<Self as fungibles::Balanced<A<C>>>::issue(asset, taken))
	}
	fn resolve(who: &A<C>, credit: fungibles::Credit<A<C>, Self>) -> Result<(), fungibles::Credit<A<C>, Self>> {
		if C::fault("deposit").is_err() || Self::deposit(&credit.asset(), who, credit.peek()).is_err() {
			return Err(credit);
		}
		let _ = credit.into_parts();
		Ok(())
	}
}
impl<C: LedgerConfig> fungibles::Create<A<C>> for Ledger<C> {
	fn create(id: I<C>, admin: A<C>, s: bool, m: B<C>) -> DispatchResult {
		C::create(id, admin, s, m)
	}
}
impl<C: LedgerConfig> fungibles::hold::Inspect<A<C>> for Ledger<C> {
	type Reason = C::HoldReason;
	fn total_balance_on_hold(asset: I<C>, who: &A<C>) -> B<C> {
		Self::account(&asset, who).held()
	}
	fn balance_on_hold(asset: I<C>, reason: &C::HoldReason, who: &A<C>) -> B<C> {
		Self::account(&asset, who).held_for(&reason.encode())
	}
	fn can_hold(asset: I<C>, _reason: &C::HoldReason, who: &A<C>, amount: B<C>) -> bool {
		amount <= Self::reducible(&asset, who, Preservation::Protect, Fortitude::Force)
	}
}
impl<C: LedgerConfig> fungibles::hold::Unbalanced<A<C>> for Ledger<C> {}
impl<C: LedgerConfig> fungibles::hold::Mutate<A<C>> for Ledger<C> {
	fn hold(asset: I<C>, reason: &C::HoldReason, who: &A<C>, amount: B<C>) -> DispatchResult {
		Self::do_hold(&asset, &reason.encode(), who, amount)
	}
	fn release(asset: I<C>, reason: &C::HoldReason, who: &A<C>, amount: B<C>, precision: Precision) -> Result<B<C>, DispatchError> {
		C::fault("release")?;
		let mut a = Self::account(&asset, who);
		let t = Self::take_hold(&mut a, &reason.encode(), amount, precision)?;
		a.free = a.free + t;
		Self::put(&asset, who, a);
		Ok(t)
	}
	fn burn_held(asset: I<C>, reason: &C::HoldReason, who: &A<C>, amount: B<C>, precision: Precision, _f: Fortitude) -> Result<B<C>, DispatchError> {
		let mut a = Self::account(&asset, who);
		let t = Self::take_hold(&mut a, &reason.encode(), amount, precision)?;
		Self::put(&asset, who, a);
		Self::set_issued(&asset, Self::issued(&asset) - t);
		Ok(t)
	}
	fn transfer_on_hold(
		asset: I<C>,
		reason: &C::HoldReason,
		s: &A<C>,
		d: &A<C>,
		amount: B<C>,
		precision: Precision,
		mode: Restriction,
		_f: Fortitude,
	) -> Result<B<C>, DispatchError> {
		C::fault("transfer")?;
		let r = reason.encode();
		let mut a = Self::account(&asset, s);
		let t = Self::take_hold(&mut a, &r, amount, precision)?;
		Self::put(&asset, s, a);
		let mut b = Self::account(&asset, d);
		if mode == Restriction::OnHold {
			Self::add_hold(&mut b, &r, t)?;
		} else {
			b.free = b.free.checked_add(&t).ok_or(ArithmeticError::Overflow)?;
		}
		Self::put(&asset, d, b);
		Ok(t)
	}
	fn transfer_and_hold(
		asset: I<C>,
		reason: &C::HoldReason,
		s: &A<C>,
		d: &A<C>,
		amount: B<C>,
		precision: Precision,
		p: Preservation,
		f: Fortitude,
	) -> Result<B<C>, DispatchError> {
		C::fault("transfer")?;
		let have = Self::reducible(&asset, s, p, f);
		let t = if amount <= have {
			amount
		} else if precision == Precision::BestEffort {
			have
		} else {
			return Err(TokenError::FundsUnavailable.into());
		};
		if t.is_zero() {
			return Ok(t);
		}
		let mut a = Self::account(&asset, s);
		a.free = a.free - t;
		Self::put(&asset, s, a);
		let mut b = Self::account(&asset, d);
		if b.total().is_zero() && t < C::minimum_balance(&asset) {
			return Err(TokenError::BelowMinimum.into());
		}
		Self::add_hold(&mut b, &reason.encode(), t)?;
		Self::put(&asset, d, b);
		Ok(t)
	}
}
impl<C: LedgerConfig> fungibles::freeze::Inspect<A<C>> for Ledger<C> {
	type Id = C::FreezeId;
	fn balance_frozen(asset: I<C>, id: &C::FreezeId, who: &A<C>) -> B<C> {
		Self::account(&asset, who).frozen_by(&id.encode())
	}
	fn can_freeze(_asset: I<C>, _id: &C::FreezeId, _who: &A<C>) -> bool {
		true
	}
}
impl<C: LedgerConfig> Ledger<C> {
	fn do_freeze(asset: I<C>, id: Vec<u8>, who: &A<C>, f: impl FnOnce(B<C>) -> B<C>) -> DispatchResult {
		C::fault("freeze")?;
		let mut a = Self::account(&asset, who);
		let v = f(a.frozen_by(&id));
		a.freezes.retain(|x| x.0 != id);
		a.freezes.push((id, v));
		Self::put(&asset, who, a);
		Ok(())
	}
}
impl<C: LedgerConfig> fungibles::freeze::Mutate<A<C>> for Ledger<C> {
	fn set_freeze(asset: I<C>, id: &C::FreezeId, who: &A<C>, amount: B<C>) -> DispatchResult {
		Self::do_freeze(asset, id.encode(), who, |_| amount)
	}
	fn extend_freeze(asset: I<C>, id: &C::FreezeId, who: &A<C>, amount: B<C>) -> DispatchResult {
		Self::do_freeze(asset, id.encode(), who, |o| if o > amount { o } else { amount })
	}
	fn thaw(asset: I<C>, id: &C::FreezeId, who: &A<C>) -> DispatchResult {
		Self::do_freeze(asset, id.encode(), who, |_| Zero::zero())
	}
}

/// The single-asset interface over the native asset of a ledger.
pub struct Native<C>(PhantomData<C>);
impl<C: LedgerConfig> fungible::Inspect<A<C>> for Native<C> {
	type Balance = B<C>;
	fn total_issuance() -> B<C> {
		Ledger::<C>::issued(&C::native())
	}
	fn minimum_balance() -> B<C> {
		C::minimum_balance(&C::native())
	}
	fn total_balance(who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).total()
	}
	fn balance(who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).free
	}
	fn reducible_balance(who: &A<C>, p: Preservation, f: Fortitude) -> B<C> {
		Ledger::<C>::reducible(&C::native(), who, p, f)
	}
	fn can_deposit(who: &A<C>, amount: B<C>, p: Provenance) -> DepositConsequence {
		<Ledger<C> as fungibles::Inspect<A<C>>>::can_deposit(C::native(), who, amount, p)
	}
	fn can_withdraw(who: &A<C>, amount: B<C>) -> WithdrawConsequence<B<C>> {
		<Ledger<C> as fungibles::Inspect<A<C>>>::can_withdraw(C::native(), who, amount)
	}
}
impl<C: LedgerConfig> fungible::Unbalanced<A<C>> for Native<C> {}
impl<C: LedgerConfig> fungible::Balanced<A<C>> for Native<C> {
	fn on_drop_credit(amount: B<C>) {
		<Ledger<C> as fungibles::Balanced<A<C>>>::on_drop_credit(C::native(), amount)
	}
	fn issue(amount: B<C>) -> fungible::Credit<A<C>, Self> {
		<Ledger<C> as fungibles::Balanced<A<C>>>::issue(C::native(), amount).into_parts();
		fungible::Credit::issued(amount)
	}
	fn withdraw(who: &A<C>, n: B<C>, prec: Precision, p: Preservation, f: Fortitude) -> Result<fungible::Credit<A<C>, Self>, DispatchError> {
		let (_, taken) = <Ledger<C> as fungibles::Balanced<A<C>>>::withdraw(C::native(), who, n, prec, p, f)?.into_parts();
		Ok(fungible::Credit::issued(taken))
	}
	fn resolve(who: &A<C>, credit: fungible::Credit<A<C>, Self>) -> Result<(), fungible::Credit<A<C>, Self>> {
		if C::fault("deposit").is_err() || Ledger::<C>::deposit(&C::native(), who, credit.peek()).is_err() {
			return Err(credit);
		}
		credit.into_amount();
		Ok(())
	}
}
impl<C: LedgerConfig> Native<C> {
	pub fn free_balance(who: impl core::borrow::Borrow<A<C>>) -> B<C> {
		Ledger::<C>::account(&C::native(), who.borrow()).free
	}
	pub fn reserved_balance(who: impl core::borrow::Borrow<A<C>>) -> B<C> {
		Ledger::<C>::account(&C::native(), who.borrow()).total() - Self::free_balance(who)
	}
}
/// What was taken out of an account and is still owed to another.
#[must_use]
pub struct NegativeImbalance<C: LedgerConfig>(B<C>);
impl<C: LedgerConfig> NegativeImbalance<C> {
	pub fn new(amount: B<C>) -> Self {
		Self(amount)
	}
	pub fn peek(&self) -> B<C> {
		self.0
	}
}
impl<C: LedgerConfig> Drop for NegativeImbalance<C> {
	fn drop(&mut self) {
		<Ledger<C> as fungibles::Balanced<A<C>>>::on_drop_credit(C::native(), self.0)
	}
}
impl<C: LedgerConfig> frame_support::traits::Currency<A<C>> for Native<C> {
	type Balance = B<C>;
	type PositiveImbalance = ();
	type NegativeImbalance = NegativeImbalance<C>;
	fn total_balance(who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).total()
	}
	fn free_balance(who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).free
	}
	fn total_issuance() -> B<C> {
		Ledger::<C>::issued(&C::native())
	}
	fn minimum_balance() -> B<C> {
		C::minimum_balance(&C::native())
	}
	fn transfer(s: &A<C>, d: &A<C>, value: B<C>, e: frame_support::traits::ExistenceRequirement) -> DispatchResult {
		let p = match e {
			frame_support::traits::ExistenceRequirement::KeepAlive => Preservation::Preserve,
			frame_support::traits::ExistenceRequirement::AllowDeath => Preservation::Expendable,
		};
		Ledger::<C>::do_transfer(C::native(), s, d, value, p).map(|_| ())
	}
	fn resolve_creating(who: &A<C>, value: NegativeImbalance<C>) {
		if Ledger::<C>::deposit(&C::native(), who, value.peek()).is_ok() {
			core::mem::forget(value);
		}
	}
}
impl<C: LedgerConfig> frame_support::traits::PalletInfoAccess for Native<C> {
	fn index() -> usize {
		C::pallet_index()
	}
}
impl<C: LedgerConfig> frame_support::traits::PalletInfoAccess for Ledger<C> {
	fn index() -> usize {
		C::pallet_index()
	}
}
impl<C: LedgerConfig> Ledger<C> {
	/// Every asset an account has something of.
	pub fn account_balances(who: A<C>) -> Vec<(I<C>, B<C>)> {
		Self::accounts().into_iter().filter(|(_, w, _)| *w == who).map(|(i, _, a)| (i, a.free)).collect()
	}
}
impl<C: LedgerConfig> fungible::Mutate<A<C>> for Native<C> {
	fn mint_into(who: &A<C>, amount: B<C>) -> Result<B<C>, DispatchError> {
		<Ledger<C> as fungibles::Mutate<A<C>>>::mint_into(C::native(), who, amount)
	}
	fn burn_from(who: &A<C>, amount: B<C>, p: Preservation, prec: Precision, f: Fortitude) -> Result<B<C>, DispatchError> {
		<Ledger<C> as fungibles::Mutate<A<C>>>::burn_from(C::native(), who, amount, p, prec, f)
	}
	fn transfer(s: &A<C>, d: &A<C>, amount: B<C>, p: Preservation) -> Result<B<C>, DispatchError> {
		<Ledger<C> as fungibles::Mutate<A<C>>>::transfer(C::native(), s, d, amount, p)
	}
	fn set_balance(who: &A<C>, amount: B<C>) -> B<C> {
		<Ledger<C> as fungibles::Mutate<A<C>>>::set_balance(C::native(), who, amount)
	}
}
impl<C: LedgerConfig> fungible::hold::Inspect<A<C>> for Native<C> {
	type Reason = C::HoldReason;
	fn total_balance_on_hold(who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).held()
	}
	fn balance_on_hold(reason: &C::HoldReason, who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).held_for(&reason.encode())
	}
}
impl<C: LedgerConfig> fungible::hold::Unbalanced<A<C>> for Native<C> {}
impl<C: LedgerConfig> fungible::hold::Mutate<A<C>> for Native<C> {
	fn hold(reason: &C::HoldReason, who: &A<C>, amount: B<C>) -> DispatchResult {
		<Ledger<C> as fungibles::hold::Mutate<A<C>>>::hold(C::native(), reason, who, amount)
	}
	fn release(reason: &C::HoldReason, who: &A<C>, amount: B<C>, p: Precision) -> Result<B<C>, DispatchError> {
		<Ledger<C> as fungibles::hold::Mutate<A<C>>>::release(C::native(), reason, who, amount, p)
	}
}
impl<C: LedgerConfig> fungible::freeze::Inspect<A<C>> for Native<C> {
	type Id = C::FreezeId;
	fn balance_frozen(id: &C::FreezeId, who: &A<C>) -> B<C> {
		Ledger::<C>::account(&C::native(), who).frozen_by(&id.encode())
	}
	fn can_freeze(_id: &C::FreezeId, _who: &A<C>) -> bool {
		true
	}
}
impl<C: LedgerConfig> fungible::freeze::Mutate<A<C>> for Native<C> {
	fn set_freeze(id: &C::FreezeId, who: &A<C>, amount: B<C>) -> DispatchResult {
		Ledger::<C>::do_freeze(C::native(), id.encode(), who, |_| amount)
	}
	fn extend_freeze(id: &C::FreezeId, who: &A<C>, amount: B<C>) -> DispatchResult {
		Ledger::<C>::do_freeze(C::native(), id.encode(), who, |o| if o > amount { o } else { amount })
	}
	fn thaw(id: &C::FreezeId, who: &A<C>) -> DispatchResult {
		Ledger::<C>::do_freeze(C::native(), id.encode(), who, |_| Zero::zero())
	}
}
