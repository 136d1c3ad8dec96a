//! Transactions as the runtime takes them: who signs, what is checked, who pays, what runs.
use core::marker::PhantomData;
use frame_support::{
	dispatch::{CheckIfFeeless, DispatchClass, DispatchInfo, GetDispatchInfo, Pays, PostDispatchInfo},
	traits::{fungibles, Get},
};
use frame_system::{
	limits::BlockWeights,
	tx::{Extension, Tx},
};
use parity_scale_codec::{Decode, Encode};
use sp_io::storage as kv;
use sp_runtime::{
	generic::{Block, UncheckedExtrinsic},
	traits::{Dispatchable, StaticLookup},
	transaction_validity::{
		InvalidTransaction as Invalid, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
	},
	ApplyExtrinsicResult,
};
use sp_weights::Weight;

type Result<X> = core::result::Result<X, Invalid>;

pub struct Executive<S, B, C, U, P, M = ()>(PhantomData<(S, B, C, U, P, M)>);
impl<S, H, A, F, G, E, C, U, P, M> Executive<S, Block<H, UncheckedExtrinsic<A, F, G, E>>, C, U, P, M>
where
	S: frame_system::Config<RuntimeCall = F>,
	S::Lookup: StaticLookup<Source = A>,
	F: Dispatchable<RuntimeOrigin = S::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + Clone,
	A: Clone,
	E: Extension<S>,
{
	fn checked(x: &UncheckedExtrinsic<A, F, G, E>) -> core::result::Result<Tx<'_, S>, TransactionValidityError> {
		let (by, signed) = x.signature.as_ref().ok_or(UnknownTransaction::NoUnsignedValidator)?;
		let who = S::Lookup::lookup(by.clone()).map_err(|_| UnknownTransaction::CannotLookup)?;
		if who.encode() != signed.key {
			return Err(Invalid::BadProof.into());
		}
		Ok(Tx { who, call: &x.function, info: x.function.get_dispatch_info(), signed, len: x.len })
	}
	pub fn apply_extrinsic(x: UncheckedExtrinsic<A, F, G, E>) -> ApplyExtrinsicResult {
		let tx = Self::checked(&x)?;
		kv::start_transaction();
		let pre = match E::before(&tx) {
			Ok(p) => p,
			Err(e) => {
				// the author leaves it out
				kv::rollback_transaction();
				return Err(e.into());
			}
		};
		let result = x.function.clone().dispatch(Some(tx.who.clone()).into_origin());
		let post = match &result {
			Ok(p) => *p,
			Err(e) => e.post_info,
		};
		E::after(pre, &tx, &post);
		kv::commit_transaction();
		Ok(result.map(|_| ()).map_err(|e| e.error))
	}
	pub fn validate_transaction<X>(_: TransactionSource, x: UncheckedExtrinsic<A, F, G, E>, _: X) -> TransactionValidity {
		let tx = Self::checked(&x)?;
		if tx.info.class == DispatchClass::Mandatory {
			return Err(Invalid::MandatoryValidation.into());
		}
		E::validate(&tx)?;
		Ok(ValidTransaction::default())
	}
}
trait IntoOrigin<O> {
	fn into_origin(self) -> O;
}
impl<A, O: From<frame_system::RawOrigin<A>>> IntoOrigin<O> for Option<A> {
	fn into_origin(self) -> O {
		O::from(frame_system::RawOrigin::from(self))
	}
}

pub struct SkipCheckIfFeeless<T, S>(PhantomData<(T, S)>);
impl<T: frame_system::Config, S: Extension<T>> Extension<T> for SkipCheckIfFeeless<T, S>
where
	T::RuntimeCall: CheckIfFeeless<Origin = T::RuntimeOrigin>,
{
	type Pre = Option<S::Pre>;
	fn before(tx: &Tx<T>) -> Result<Self::Pre> {
		if tx.call.is_feeless(&Some(tx.who.clone()).into_origin()) {
			Ok(None)
		} else {
			S::before(tx).map(Some)
		}
	}
	fn after(pre: Self::Pre, tx: &Tx<T>, post: &PostDispatchInfo) {
		if let Some(p) = pre {
			S::after(p, tx, post)
		}
	}
	fn validate(tx: &Tx<T>) -> Result<()> {
		if tx.call.is_feeless(&Some(tx.who.clone()).into_origin()) {
			Ok(())
		} else {
			S::validate(tx)
		}
	}
}

fn session<A: Encode>(key: &A) -> Vec<u8> {
	[&b"pass:session:"[..], &key.encode()].concat()
}
/// The account a session key speaks for.
pub fn session_account<A: Encode + Decode>(key: &A) -> Option<A> {
	kv::get(&session(key)).map(|v| A::decode(&mut &v[..]).expect("own encoding"))
}
pub fn set_session<A: Encode>(key: &A, account: &A) {
	kv::set(&session(key), &account.encode())
}
pub struct ChargePass<S, T, I = ()>(PhantomData<(S, T, I)>);
impl<S: Extension<T>, T: frame_system::Config, I: 'static> Extension<T> for ChargePass<S, T, I> {
	type Pre = (S::Pre, T::AccountId);
	fn before(tx: &Tx<T>) -> Result<Self::Pre> {
		let payer = session_account(&tx.who).unwrap_or_else(|| tx.who.clone());
		Ok((S::before(&tx.by(payer.clone()))?, payer))
	}
	fn after((pre, payer): Self::Pre, tx: &Tx<T>, post: &PostDispatchInfo) {
		S::after(pre, &tx.by(payer), post)
	}
}

/// The gas left in the tank of a membership.
pub mod tank {
	use super::*;
	fn key<G: Encode, M: Encode>(g: &G, m: &M) -> Vec<u8> {
		[&b"tank:"[..], &g.encode(), &m.encode()].concat()
	}
	pub fn get<G: Encode, M: Encode>(g: &G, m: &M) -> Option<Weight> {
		kv::get(&key(g, m)).map(|v| Weight::decode(&mut &v[..]).expect("own encoding"))
	}
	pub fn set<G: Encode, M: Encode>(g: &G, m: &M, w: Weight) {
		kv::set(&key(g, m), &w.encode())
	}
}
pub trait GasBurner {
	type AccountId;
	type Gas;
	fn check_available_gas(who: &Self::AccountId, estimated: &Self::Gas) -> Option<Self::Gas>;
	fn burn_gas(who: &Self::AccountId, expected: &Self::Gas, used: &Self::Gas) -> Self::Gas;
}
pub struct NonFungibleGasBurner<T, F, I>(PhantomData<(T, F, I)>);
impl<T, F, I> NonFungibleGasBurner<T, F, I>
where
	T: frame_system::Config,
	F: fc_traits_memberships::Inspect<T::AccountId>,
	F::Group: Encode,
	F::Membership: Encode,
{
	fn fuelled(who: &T::AccountId, need: &Weight) -> Option<(F::Group, F::Membership, Weight)> {
		F::user_memberships(who, None).find_map(|(g, m)| {
			let w = tank::get(&g, &m)?;
			w.all_gte(*need).then_some((g, m, w))
		})
	}
}
impl<T, F, I> GasBurner for NonFungibleGasBurner<T, F, I>
where
	T: frame_system::Config,
	F: fc_traits_memberships::Inspect<T::AccountId>,
	F::Group: Encode,
	F::Membership: Encode,
{
	type AccountId = T::AccountId;
	type Gas = Weight;
	fn check_available_gas(who: &T::AccountId, estimated: &Weight) -> Option<Weight> {
		Self::fuelled(who, estimated).map(|x| x.2.saturating_sub(*estimated))
	}
	fn burn_gas(who: &T::AccountId, expected: &Weight, used: &Weight) -> Weight {
		Self::fuelled(who, expected).map_or(Weight::zero(), |(g, m, w)| {
			let left = w.saturating_sub(*used);
			tank::set(&g, &m, left);
			left
		})
	}
}
impl GasBurner for () {
	type AccountId = ();
	type Gas = Weight;
	fn check_available_gas(_: &(), _: &Weight) -> Option<Weight> {
		None
	}
	fn burn_gas(_: &(), _: &Weight, _: &Weight) -> Weight {
		Weight::zero()
	}
}
pub struct ChargeGas<T, S = ()>(PhantomData<(T, S)>);
pub enum GasOr<P> {
	Gas,
	Inner(P),
}
impl<T, S> Extension<T> for ChargeGas<T, S>
where
	T: crate::pallets::pallet_gas_transaction_payment::Config,
	T::GasBurner: GasBurner<AccountId = T::AccountId, Gas = Weight>,
	S: Extension<T>,
{
	type Pre = GasOr<S::Pre>;
	fn before(tx: &Tx<T>) -> Result<Self::Pre> {
		match T::GasBurner::check_available_gas(&tx.who, &tx.info.weight) {
			Some(_) => Ok(GasOr::Gas),
			None => S::before(tx).map(GasOr::Inner),
		}
	}
	fn after(pre: Self::Pre, tx: &Tx<T>, post: &PostDispatchInfo) {
		match pre {
			GasOr::Gas => {
				let used = post.actual_weight.unwrap_or(tx.info.weight).min(tx.info.weight);
				T::GasBurner::burn_gas(&tx.who, &tx.info.weight, &used);
			}
			GasOr::Inner(p) => S::after(p, tx, post),
		}
	}
}

use crate::pallets::{
	pallet_asset_tx_payment as asset_payment,
	pallet_transaction_payment::{self as payment, BalanceOf, OnChargeTransaction},
};
#[derive(Clone, Debug, PartialEq)]
pub struct InclusionFee<B> {
	pub base_fee: B,
	pub len_fee: B,
	pub adjusted_weight_fee: B,
}
#[derive(Clone, Debug, PartialEq)]
pub struct FeeDetails<B> {
	pub inclusion_fee: Option<InclusionFee<B>>,
	pub tip: B,
}
impl FeeDetails<u128> {
	pub fn final_fee(&self) -> u128 {
		let f = self.inclusion_fee.as_ref().map_or(0, |f| f.base_fee.saturating_add(f.len_fee).saturating_add(f.adjusted_weight_fee));
		f.saturating_add(self.tip)
	}
}
#[derive(Clone, Debug, PartialEq)]
pub struct RuntimeDispatchInfo<B> {
	pub weight: Weight,
	pub class: DispatchClass,
	pub partial_fee: B,
}
impl<T: payment::Config> payment::Pallet<T>
where
	T::BlockWeights: Get<BlockWeights>,
	T::OnChargeTransaction: OnChargeTransaction<T, Balance = u128>,
{
	pub fn compute_fee_details(len: u32, info: &DispatchInfo, tip: u128) -> FeeDetails<u128> {
		Self::details(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_fee(len: u32, info: &DispatchInfo, tip: u128) -> u128 {
		Self::compute_fee_details(len, info, tip).final_fee()
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfo, post: &PostDispatchInfo, tip: u128) -> u128 {
		let w = post.actual_weight.unwrap_or(info.weight).min(info.weight);
		let pays = if info.pays_fee == Pays::No || post.pays_fee == Pays::No { Pays::No } else { Pays::Yes };
		Self::details(len, w, tip, pays, info.class).final_fee()
	}
	fn details(len: u32, w: Weight, tip: u128, pays: Pays, class: DispatchClass) -> FeeDetails<u128> {
		let b = T::BlockWeights::get();
		let fee = |w: Weight| Self::weight_to_fee(w.min(b.max_block));
		let inclusion_fee = (pays == Pays::Yes).then(|| InclusionFee {
			base_fee: fee(b.get(class).base_extrinsic),
			len_fee: Self::length_to_fee(len),
			adjusted_weight_fee: fee(w),
		});
		FeeDetails { inclusion_fee, tip }
	}
	pub fn query_call_info(call: T::RuntimeCall, len: u32) -> RuntimeDispatchInfo<u128>
	where
		T::RuntimeCall: GetDispatchInfo,
	{
		let i = call.get_dispatch_info();
		RuntimeDispatchInfo { weight: i.weight, class: i.class, partial_fee: Self::compute_fee(len, &i, 0) }
	}
	pub fn query_call_fee_details(call: T::RuntimeCall, len: u32) -> FeeDetails<u128>
	where
		T::RuntimeCall: GetDispatchInfo,
	{
		Self::compute_fee_details(len, &call.get_dispatch_info(), 0)
	}
	pub fn query_info<A, G, E>(x: UncheckedExtrinsic<A, T::RuntimeCall, G, E>, len: u32) -> RuntimeDispatchInfo<u128>
	where
		T::RuntimeCall: GetDispatchInfo,
	{
		let signed = x.signature.is_some();
		let mut i = Self::query_call_info(x.function, len);
		if !signed {
			i.partial_fee = 0;
		}
		i
	}
	pub fn query_fee_details<A, G, E>(x: UncheckedExtrinsic<A, T::RuntimeCall, G, E>, len: u32) -> FeeDetails<u128>
	where
		T::RuntimeCall: GetDispatchInfo,
	{
		match x.signature {
			Some(_) => Self::query_call_fee_details(x.function, len),
			None => FeeDetails { inclusion_fee: None, tip: 0 },
		}
	}
}
/// What a charge would do, undone.
fn trial<X, Y>(f: impl FnOnce() -> core::result::Result<X, Y>) -> Result<()> {
	kv::start_transaction();
	let ok = f().is_ok();
	kv::rollback_transaction();
	if ok {
		Ok(())
	} else {
		Err(Invalid::Payment)
	}
}
pub struct ChargeNative<T>(PhantomData<T>);
impl<T: payment::Config> Extension<T> for ChargeNative<T>
where
	T::BlockWeights: Get<BlockWeights>,
	T::OnChargeTransaction: OnChargeTransaction<T, Balance = u128>,
{
	type Pre = u128;
	fn before(tx: &Tx<T>) -> Result<u128> {
		let fee: BalanceOf<T> = payment::Pallet::<T>::compute_fee(tx.len, &tx.info, tx.signed.tip);
		trial(|| T::OnChargeTransaction::charge(&tx.who, fee, fee))?;
		Ok(fee)
	}
	fn after(fee: u128, tx: &Tx<T>, post: &PostDispatchInfo) {
		let used = payment::Pallet::<T>::compute_actual_fee(tx.len, &tx.info, post, tx.signed.tip);
		let _ = T::OnChargeTransaction::charge(&tx.who, fee, used);
	}
}
pub struct ChargeAsset<T>(PhantomData<T>);
impl<T: payment::Config + asset_payment::Config> Extension<T> for ChargeAsset<T>
where
	T::BlockWeights: Get<BlockWeights>,
	<T as payment::Config>::OnChargeTransaction: OnChargeTransaction<T, Balance = u128>,
	T::Fungibles: fungibles::Inspect<T::AccountId, Balance = u128>,
	<T::Fungibles as fungibles::Inspect<T::AccountId>>::AssetId: Decode + Clone,
{
	type Pre = u128;
	fn before(tx: &Tx<T>) -> Result<u128> {
		use asset_payment::OnChargeAssetTransaction;
		let fee = payment::Pallet::<T>::compute_fee(tx.len, &tx.info, tx.signed.tip);
		match &tx.signed.asset {
			_ if fee == 0 => (),
			None => trial(|| <T as payment::Config>::OnChargeTransaction::charge(&tx.who, fee, fee))?,
			Some(a) => {
				let a = Decode::decode(&mut &a[..]).map_err(|_| Invalid::Payment)?;
				trial(|| T::OnChargeAssetTransaction::charge(&tx.who, a, fee, fee))?
			}
		}
		Ok(fee)
	}
	fn after(fee: u128, tx: &Tx<T>, post: &PostDispatchInfo) {
		use asset_payment::OnChargeAssetTransaction;
		let used = payment::Pallet::<T>::compute_actual_fee(tx.len, &tx.info, post, tx.signed.tip);
		match &tx.signed.asset {
			_ if fee == 0 => (),
			None => {
				let _ = <T as payment::Config>::OnChargeTransaction::charge(&tx.who, fee, used);
			}
			Some(a) => {
				let a = Decode::decode(&mut &a[..]).expect("decoded before");
				let _ = T::OnChargeAssetTransaction::charge(&tx.who, a, fee, used);
			}
		}
	}
}
