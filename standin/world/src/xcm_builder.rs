//! The building blocks of an XCM configuration, as upstream defines them.
use super::xcm_executor::{traits::*, AssetsInHolding};
use core::marker::PhantomData;
use frame_support::traits::{
	tokens::{fungible, fungibles, Fortitude, Precision, Preservation},
	Contains, ContainsPair, EnsureOrigin, Get, OnUnbalanced, OriginTrait,
};
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::{AccountIdConversion, MaybeEquivalence, TrailingZeroInput, TryConvert};
use sp_weights::WeightToFee;
use xcm::latest::{prelude::*, Error as XcmError, Weight};

// ---- locations to accounts

pub struct ParentIsPreset<A>(PhantomData<A>);
impl<A: Decode + Eq> ConvertLocation<A> for ParentIsPreset<A> {
	fn convert_location(l: &Location) -> Option<A> {
		l.contains_parents_only(1)
			.then(|| b"Parent".using_encoded(|b| A::decode(&mut TrailingZeroInput::new(b))).expect("infinite input"))
	}
}
pub struct SiblingParachainConvertsVia<P, A>(PhantomData<(P, A)>);
impl<P: From<u32> + Into<u32> + AccountIdConversion<A>, A: Clone> ConvertLocation<A> for SiblingParachainConvertsVia<P, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(1, [Parachain(id)]) => Some(P::from(*id).into_account_truncating()),
			_ => None,
		}
	}
}
pub struct ChildParachainConvertsVia<P, A>(PhantomData<(P, A)>);
impl<P: From<u32> + Into<u32> + AccountIdConversion<A>, A: Clone> ConvertLocation<A> for ChildParachainConvertsVia<P, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(0, [Parachain(id)]) => Some(P::from(*id).into_account_truncating()),
			_ => None,
		}
	}
}
pub struct AccountId32Aliases<N, A>(PhantomData<(N, A)>);
impl<N: Get<Option<NetworkId>>, A: From<[u8; 32]> + Into<[u8; 32]> + Clone> ConvertLocation<A> for AccountId32Aliases<N, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(0, [AccountId32 { id, network: None }]) => Some((*id).into()),
			(0, [AccountId32 { id, network }]) if *network == N::get() => Some((*id).into()),
			_ => None,
		}
	}
}

pub struct AccountKey20Aliases<N, A>(PhantomData<(N, A)>);
impl<N: Get<Option<NetworkId>>, A: From<[u8; 20]> + Into<[u8; 20]> + Clone> ConvertLocation<A> for AccountKey20Aliases<N, A> {
	fn convert_location(l: &Location) -> Option<A> {
		match l.unpack() {
			(0, [AccountKey20 { key, network }]) if network.is_none() || *network == N::get() => Some((*key).into()),
			_ => None,
		}
	}
}
/// Describes a place in bytes, for accounts named after the hash of the description.
pub trait DescribeLocation {
	fn describe_location(l: &Location) -> Option<Vec<u8>>;
}
macro_rules! describe { ($($t:ident),*) => {
	impl<$($t: DescribeLocation),*> DescribeLocation for ($($t,)*) {
		fn describe_location(l: &Location) -> Option<Vec<u8>> {
			$( if let Some(v) = $t::describe_location(l) { return Some(v); } )*
			None
		}
	}
} }
describe!(T0);
describe!(T0, T1);
describe!(T0, T1, T2);
describe!(T0, T1, T2, T3);
describe!(T0, T1, T2, T3, T4);
describe!(T0, T1, T2, T3, T4, T5);
pub struct DescribeTerminus;
impl DescribeLocation for DescribeTerminus {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		matches!(l.unpack(), (0, [])).then(Vec::new)
	}
}
pub struct DescribePalletTerminal;
impl DescribeLocation for DescribePalletTerminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [PalletInstance(i)]) => Some((b"Pallet", parity_scale_codec::Compact(*i as u32)).encode()),
			_ => None,
		}
	}
}
pub struct DescribeAccountId32Terminal;
impl DescribeLocation for DescribeAccountId32Terminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [AccountId32 { id, .. }]) => Some((b"AccountId32", id).encode()),
			_ => None,
		}
	}
}
pub struct DescribeAccountKey20Terminal;
impl DescribeLocation for DescribeAccountKey20Terminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [AccountKey20 { key, .. }]) => Some((b"AccountKey20", key).encode()),
			_ => None,
		}
	}
}
pub struct DescribeTreasuryVoiceTerminal;
impl DescribeLocation for DescribeTreasuryVoiceTerminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [Plurality { id: BodyId::Treasury, part: BodyPart::Voice }]) => Some((b"Treasury", b"Voice").encode()),
			_ => None,
		}
	}
}
pub struct DescribeBodyTerminal;
impl DescribeLocation for DescribeBodyTerminal {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		match l.unpack() {
			(0, [Plurality { id, part }]) => Some((b"Body", id, part).encode()),
			_ => None,
		}
	}
}
pub type DescribeAllTerminal = (
	DescribeTerminus,
	DescribePalletTerminal,
	DescribeAccountId32Terminal,
	DescribeAccountKey20Terminal,
	DescribeTreasuryVoiceTerminal,
	DescribeBodyTerminal,
);
pub struct DescribeFamily<D>(PhantomData<D>);
impl<D: DescribeLocation> DescribeLocation for DescribeFamily<D> {
	fn describe_location(l: &Location) -> Option<Vec<u8>> {
		let inner = |js: &[Junction]| D::describe_location(&Location { parents: 0, interior: Junctions::from_slice(js)? });
		match l.unpack() {
			(0, [Parachain(n), rest @ ..]) => Some((b"ChildChain", parity_scale_codec::Compact(*n), inner(rest)?).encode()),
			(1, [Parachain(n), rest @ ..]) => Some((b"SiblingChain", parity_scale_codec::Compact(*n), inner(rest)?).encode()),
			(1, rest) => Some((b"ParentChain", inner(rest)?).encode()),
			_ => None,
		}
	}
}
pub struct HashedDescription<A, D>(PhantomData<(A, D)>);
impl<A: From<[u8; 32]> + Clone, D: DescribeLocation> ConvertLocation<A> for HashedDescription<A, D> {
	fn convert_location(l: &Location) -> Option<A> {
		Some(sp_core::blake2_256(&D::describe_location(l)?).into())
	}
}

// ---- locations to origins and back

pub struct SovereignSignedViaLocation<L, O>(PhantomData<(L, O)>);
impl<L: ConvertLocation<O::AccountId>, O: OriginTrait> ConvertOrigin<O> for SovereignSignedViaLocation<L, O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		if let OriginKind::SovereignAccount = kind {
			Ok(O::signed(L::convert_location(&o).ok_or(o)?))
		} else {
			Err(o)
		}
	}
}
pub struct RelayChainAsNative<R, O>(PhantomData<(R, O)>);
impl<R: Get<O>, O> ConvertOrigin<O> for RelayChainAsNative<R, O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		if kind == OriginKind::Native && o.contains_parents_only(1) {
			Ok(R::get())
		} else {
			Err(o)
		}
	}
}
pub struct SiblingParachainAsNative<P, O>(PhantomData<(P, O)>);
impl<P: From<u32>, O: From<P>> ConvertOrigin<O> for SiblingParachainAsNative<P, O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		match (kind, o.unpack()) {
			(OriginKind::Native, (1, [Parachain(id)])) => Ok(O::from(P::from(*id))),
			_ => Err(o),
		}
	}
}
pub struct SignedAccountId32AsNative<N, O>(PhantomData<(N, O)>);
impl<N: Get<Option<NetworkId>>, O: OriginTrait> ConvertOrigin<O> for SignedAccountId32AsNative<N, O>
where
	O::AccountId: From<[u8; 32]>,
{
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		match (kind, o.unpack()) {
			(OriginKind::Native, (0, [AccountId32 { id, network }])) if network.is_none() || *network == N::get() =>
				Ok(O::signed((*id).into())),
			_ => Err(o),
		}
	}
}
pub struct ParentAsSuperuser<O>(PhantomData<O>);
impl<O: OriginTrait> ConvertOrigin<O> for ParentAsSuperuser<O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		if kind == OriginKind::Superuser && o.contains_parents_only(1) {
			Ok(O::root())
		} else {
			Err(o)
		}
	}
}
macro_rules! superusers { ($($n:ident: $l:pat => $ok:expr),* $(,)?) => { $(
	pub struct $n<P, O>(PhantomData<(P, O)>);
	impl<P: From<u32> + IsSystem, O: OriginTrait> ConvertOrigin<O> for $n<P, O> {
		fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
			let o = o.into();
			match (kind, o.unpack()) {
				(OriginKind::Superuser, $l) if $ok => Ok(O::root()),
				_ => Err(o),
			}
		}
	}
)* } }
superusers! {
	ChildSystemParachainAsSuperuser: (0, [Parachain(id)]) => P::from(*id).is_system(),
	SiblingSystemParachainAsSuperuser: (1, [Parachain(id)]) => P::from(*id).is_system(),
}
/// Whether a parachain is run for the network.
pub trait IsSystem {
	fn is_system(&self) -> bool;
}
impl<P: Into<u32> + Copy> IsSystem for P {
	fn is_system(&self) -> bool {
		(*self).into() < 2000
	}
}
pub struct LocationAsSuperuser<F, O>(PhantomData<(F, O)>);
impl<F: Contains<Location>, O: OriginTrait> ConvertOrigin<O> for LocationAsSuperuser<F, O> {
	fn convert_origin(o: impl Into<Location>, kind: OriginKind) -> Result<O, Location> {
		let o = o.into();
		if kind == OriginKind::Superuser && F::contains(&o) {
			Ok(O::root())
		} else {
			Err(o)
		}
	}
}
pub struct OriginToPluralityVoice<O, E, B>(PhantomData<(O, E, B)>);
impl<O: Clone, E: EnsureOrigin<O>, B: Get<BodyId>> TryConvert<O, Location> for OriginToPluralityVoice<O, E, B> {
	fn try_convert(o: O) -> Result<Location, O> {
		E::try_origin(o).map(|_| Junction::Plurality { id: B::get(), part: BodyPart::Voice }.into())
	}
}
pub struct AliasForeignAccountId32<P>(PhantomData<P>);
impl<P: Contains<Location>> ContainsPair<Location, Location> for AliasForeignAccountId32<P> {
	fn contains(o: &Location, target: &Location) -> bool {
		match (o.interior().last(), target.unpack()) {
			(Some(id @ AccountId32 { .. }), (0, [t])) => {
				let js: Vec<Junction> = o.interior().iter().cloned().collect();
				let prefix = Location { parents: o.parents, interior: Junctions::from_slice(&js[..js.len() - 1]).expect("shorter") };
				id == t && P::contains(&prefix)
			}
			_ => false,
		}
	}
}
pub struct EnsureXcmOrigin<O, C>(PhantomData<(O, C)>);
impl<O: OriginTrait + Clone, C: TryConvert<O, Location>> EnsureOrigin<O> for EnsureXcmOrigin<O, C>
where
	O::PalletsOrigin: PartialEq,
{
	type Success = Location;
	fn try_origin(o: O) -> Result<Location, O> {
		let o = match C::try_convert(o) {
			Ok(l) => return Ok(l),
			Err(o) => o,
		};
		// the root origin, which may act for the chain itself
		if o.caller() == O::root().caller() {
			Ok(Location::here())
		} else {
			Err(o)
		}
	}
}
pub struct SignedToAccountId32<O, A, N>(PhantomData<(O, A, N)>);
impl<O: OriginTrait<AccountId = A> + Clone, A: Into<[u8; 32]>, N: Get<Option<NetworkId>>> TryConvert<O, Location>
	for SignedToAccountId32<O, A, N>
{
	fn try_convert(o: O) -> Result<Location, O> {
		match o.clone().into_signer() {
			Some(who) => Ok(Junction::AccountId32 { network: N::get(), id: who.into() }.into()),
			None => Err(o),
		}
	}
}

// ---- assets

pub struct IsConcrete<T>(PhantomData<T>);
impl<T: Get<Location>, B: TryFrom<u128>> MatchesFungible<B> for IsConcrete<T> {
	fn matches_fungible(a: &Asset) -> Option<B> {
		match a.fun {
			Fungibility::Fungible(n) if a.id.0 == T::get() => n.try_into().ok(),
			_ => None,
		}
	}
}
pub struct NativeAsset;
impl ContainsPair<Asset, Location> for NativeAsset {
	fn contains(a: &Asset, o: &Location) -> bool {
		a.id.0 == *o
	}
}
pub struct Case<T>(PhantomData<T>);
impl<T: Get<(AssetFilter, Location)>> ContainsPair<Asset, Location> for Case<T> {
	fn contains(a: &Asset, o: &Location) -> bool {
		let (f, l) = T::get();
		*o == l
			&& match f {
				AssetFilter::Definite(w) => w.iter().any(|x| x.id == a.id),
				AssetFilter::Wild(WildAsset::All) | AssetFilter::Wild(WildAsset::AllCounted(_)) => true,
				AssetFilter::Wild(WildAsset::AllOf { id, .. }) | AssetFilter::Wild(WildAsset::AllOfCounted { id, .. }) => id == a.id,
			}
	}
}
pub struct StartsWith<T>(PhantomData<T>);
impl<T: Get<Location>> Contains<Location> for StartsWith<T> {
	fn contains(l: &Location) -> bool {
		l.starts_with(&T::get())
	}
}
pub struct ConvertedConcreteId<A, B, CA, CB>(PhantomData<(A, B, CA, CB)>);
impl<A: Clone, B: Clone, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>> MatchesFungibles<A, B>
	for ConvertedConcreteId<A, B, CA, CB>
{
	fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
		let Fungibility::Fungible(n) = a.fun else { return Err(MatchError::AssetNotHandled) };
		let id = CA::convert(&a.id.0).ok_or(MatchError::AssetIdConversionFailed)?;
		Ok((id, CB::convert(&n).ok_or(MatchError::AmountToBalanceConversionFailed)?))
	}
}
pub struct MatchedConvertedConcreteId<A, B, M, CA, CB>(PhantomData<(A, B, M, CA, CB)>);
impl<A: Clone, B: Clone, M: Contains<Location>, CA: MaybeEquivalence<Location, A>, CB: MaybeEquivalence<u128, B>>
	MatchesFungibles<A, B> for MatchedConvertedConcreteId<A, B, M, CA, CB>
{
	fn matches_fungibles(a: &Asset) -> Result<(A, B), MatchError> {
		if !M::contains(&a.id.0) {
			return Err(MatchError::AssetNotHandled);
		}
		ConvertedConcreteId::<A, B, CA, CB>::matches_fungibles(a)
	}
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MintLocation {
	Local,
	NonLocal,
}
pub struct LocalMint<T>(PhantomData<T>);
pub struct NonLocalMint<T>(PhantomData<T>);
pub struct DualMint<L, T>(PhantomData<(L, T)>);
pub struct NoChecking;

pub struct FungibleAdapter<F, M, L, A, C>(PhantomData<(F, M, L, A, C)>);
impl<F: fungible::Mutate<A>, M: MatchesFungible<F::Balance>, L: ConvertLocation<A>, A: Eq + Clone, C> TransactAsset
	for FungibleAdapter<F, M, L, A, C>
{
	fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<(), XcmError> {
		let amount = M::matches_fungible(what).ok_or(XcmError::AssetNotFound)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::mint_into(&who, amount).map_err(|_| XcmError::FailedToTransactAsset("mint"))?;
		Ok(())
	}
	fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
		let amount = M::matches_fungible(what).ok_or(XcmError::AssetNotFound)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(&who, amount, Preservation::Expendable, Precision::Exact, Fortitude::Polite)
			.map_err(|_| XcmError::FailedToTransactAsset("burn"))?;
		Ok(what.clone().into())
	}
}
pub struct FungiblesAdapter<F, M, L, A, C, K>(PhantomData<(F, M, L, A, C, K)>);
impl<F: fungibles::Mutate<A>, M: MatchesFungibles<F::AssetId, F::Balance>, L: ConvertLocation<A>, A: Eq + Clone, C, K> TransactAsset
	for FungiblesAdapter<F, M, L, A, C, K>
{
	fn deposit_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<(), XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		if !F::asset_exists(id.clone()) {
			return Err(XcmError::FailedToTransactAsset("unknown asset"));
		}
		F::mint_into(id, &who, amount).map_err(|_| XcmError::FailedToTransactAsset("mint"))?;
		Ok(())
	}
	fn withdraw_asset(what: &Asset, who: &Location, _: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
		let (id, amount) = M::matches_fungibles(what)?;
		let who = L::convert_location(who).ok_or(MatchError::AccountIdConversionFailed)?;
		F::burn_from(id, &who, amount, Preservation::Expendable, Precision::Exact, Fortitude::Polite)
			.map_err(|_| XcmError::FailedToTransactAsset("burn"))?;
		Ok(what.clone().into())
	}
}

// ---- paying for execution

pub trait TakeRevenue {
	fn take_revenue(revenue: Asset);
}
impl TakeRevenue for () {
	fn take_revenue(_: Asset) {}
}
pub struct UsingComponents<W, L: Get<Location>, A, F: fungible::Balanced<A>, D: OnUnbalanced<fungible::Credit<A, F>>>
where
	W: WeightToFee<Balance = F::Balance>,
{
	weight: Weight,
	fee: F::Balance,
	_p: PhantomData<(W, L, A, F, D)>,
}
impl<W: WeightToFee<Balance = F::Balance>, L: Get<Location>, A, F: fungible::Balanced<A>, D: OnUnbalanced<fungible::Credit<A, F>>>
	WeightTrader for UsingComponents<W, L, A, F, D>
where
	F::Balance: Into<u128> + Copy,
{
	fn new() -> Self {
		Self { weight: Weight::zero(), fee: Default::default(), _p: PhantomData }
	}
	fn buy_weight(&mut self, weight: Weight, mut payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
		let amount = W::weight_to_fee(&weight);
		let required: Asset = (AssetId(L::get()), Into::<u128>::into(amount)).into();
		payment.checked_sub(&required).ok_or(XcmError::TooExpensive)?;
		self.weight = self.weight.saturating_add(weight);
		self.fee = self.fee + amount;
		Ok(payment)
	}
	fn refund_weight(&mut self, weight: Weight, _: &XcmContext) -> Option<Asset> {
		let weight = weight.min(self.weight);
		let mut amount = W::weight_to_fee(&weight);
		if amount > self.fee {
			amount = self.fee;
		}
		self.weight = self.weight.saturating_sub(weight);
		self.fee = self.fee - amount;
		let n: u128 = amount.into();
		(n > 0).then(|| (AssetId(L::get()), n).into())
	}
}
impl<W: WeightToFee<Balance = F::Balance>, L: Get<Location>, A, F: fungible::Balanced<A>, D: OnUnbalanced<fungible::Credit<A, F>>> Drop
	for UsingComponents<W, L, A, F, D>
{
	fn drop(&mut self) {
		D::on_unbalanced(F::issue(self.fee));
	}
}

// ---- barriers

pub struct TakeWeightCredit;
impl ShouldExecute for TakeWeightCredit {
	fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		p.weight_credit = p.weight_credit.checked_sub(&max).ok_or(ProcessMessageError::Overweight(max))?;
		Ok(())
	}
}
const MAX_ASSETS_FOR_BUY_EXECUTION: usize = 2;
pub struct AllowTopLevelPaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowTopLevelPaidExecutionFrom<T> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], max: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		if !T::contains(o) {
			return Err(ProcessMessageError::Unsupported);
		}
		let end = ins.len().min(5);
		let mut i = ins[..end].iter_mut();
		match i.next().ok_or(ProcessMessageError::BadFormat)? {
			Instruction::WithdrawAsset(a)
			| Instruction::ReserveAssetDeposited(a)
			| Instruction::ReceiveTeleportedAsset(a)
			| Instruction::ClaimAsset { assets: a, .. }
				if a.len() <= MAX_ASSETS_FOR_BUY_EXECUTION => (),
			_ => return Err(ProcessMessageError::BadFormat),
		}
		for x in i {
			match x {
				Instruction::ClearOrigin => continue,
				Instruction::BuyExecution { weight_limit: WeightLimit::Limited(w), .. } if w.all_gte(max) => {
					*w = max;
					return Ok(());
				}
				Instruction::BuyExecution { weight_limit, .. } if *weight_limit == WeightLimit::Unlimited => {
					*weight_limit = WeightLimit::Limited(max);
					return Ok(());
				}
				_ => return Err(ProcessMessageError::Overweight(max)),
			}
		}
		Err(ProcessMessageError::BadFormat)
	}
}
pub struct AllowExplicitUnpaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowExplicitUnpaidExecutionFrom<T> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], max: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		if !T::contains(o) {
			return Err(ProcessMessageError::Unsupported);
		}
		match ins.first() {
			Some(Instruction::UnpaidExecution { weight_limit: WeightLimit::Limited(m), .. }) if m.all_gte(max) => Ok(()),
			Some(Instruction::UnpaidExecution { weight_limit: WeightLimit::Unlimited, .. }) => Ok(()),
			_ => Err(ProcessMessageError::Overweight(max)),
		}
	}
}
pub struct AllowUnpaidExecutionFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowUnpaidExecutionFrom<T> {
	fn should_execute<Call>(o: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		T::contains(o).then_some(()).ok_or(ProcessMessageError::Unsupported)
	}
}
pub struct WithComputedOrigin<B, U, M>(PhantomData<(B, U, M)>);
impl<B: ShouldExecute, U: Get<InteriorLocation>, M: Get<u32>> ShouldExecute for WithComputedOrigin<B, U, M> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		let mut actual = o.clone();
		let mut skipped = 0;
		while skipped < ins.len() && skipped < M::get() as usize {
			match &ins[skipped] {
				Instruction::UniversalOrigin(g) => {
					// relative to here: up past everything of this chain's own location
					let here = U::get();
					actual = Location::new(here.len() as u8, [*g]);
				}
				Instruction::DescendOrigin(j) =>
					actual = actual.appended_with(Location::from(j.clone())).map_err(|_| ProcessMessageError::BadFormat)?,
				_ => break,
			}
			skipped += 1;
		}
		B::should_execute(&actual, &mut ins[skipped..], max, p)
	}
}
pub struct TrailingSetTopicAsId<B>(PhantomData<B>);
impl<B: ShouldExecute> ShouldExecute for TrailingSetTopicAsId<B> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		let end = match ins.last() {
			Some(Instruction::SetTopic(t)) => {
				p.message_id = Some(*t);
				ins.len() - 1
			}
			_ => ins.len(),
		};
		B::should_execute(o, &mut ins[..end], max, p)
	}
}
/// No answers are awaited here.
pub struct AllowKnownQueryResponses<B>(PhantomData<B>);
impl<B> ShouldExecute for AllowKnownQueryResponses<B> {
	fn should_execute<Call>(_: &Location, _: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		Err(ProcessMessageError::Unsupported)
	}
}
pub struct AllowSubscriptionsFrom<T>(PhantomData<T>);
impl<T: Contains<Location>> ShouldExecute for AllowSubscriptionsFrom<T> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		match ins {
			[Instruction::SubscribeVersion { .. } | Instruction::UnsubscribeVersion] if T::contains(o) => Ok(()),
			_ => Err(ProcessMessageError::Unsupported),
		}
	}
}
pub struct DenyThenTry<D, A>(PhantomData<(D, A)>);
impl<D: ShouldExecute, A: ShouldExecute> ShouldExecute for DenyThenTry<D, A> {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], max: Weight, p: &mut Properties) -> Result<(), ProcessMessageError> {
		D::should_execute(o, ins, max, p)?;
		A::should_execute(o, ins, max, p)
	}
}
pub struct DenyReserveTransferToRelayChain;
impl ShouldExecute for DenyReserveTransferToRelayChain {
	fn should_execute<Call>(_: &Location, ins: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		let denied = ins.iter().any(|i| match i {
			Instruction::InitiateReserveWithdraw { reserve: l, .. }
			| Instruction::DepositReserveAsset { dest: l, .. }
			| Instruction::TransferReserveAsset { dest: l, .. } => *l == Location::parent(),
			_ => false,
		});
		if denied { Err(ProcessMessageError::Unsupported) } else { Ok(()) }
	}
}
pub struct AllowHrmpNotificationsFromRelayChain;
impl ShouldExecute for AllowHrmpNotificationsFromRelayChain {
	fn should_execute<Call>(o: &Location, ins: &mut [Instruction<Call>], _: Weight, _: &mut Properties) -> Result<(), ProcessMessageError> {
		match ins {
			[Instruction::HrmpNewChannelOpenRequest { .. } | Instruction::HrmpChannelAccepted { .. } | Instruction::HrmpChannelClosing { .. }]
				if *o == Location::parent() => Ok(()),
			_ => Err(ProcessMessageError::Unsupported),
		}
	}
}
pub struct IsChildSystemParachain<P>(PhantomData<P>);
impl<P: From<u32> + IsSystem> Contains<Location> for IsChildSystemParachain<P> {
	fn contains(l: &Location) -> bool {
		matches!(l.unpack(), (0, [Parachain(id)]) if P::from(*id).is_system())
	}
}
pub struct IsSiblingSystemParachain<P, S>(PhantomData<(P, S)>);
impl<P: From<u32> + IsSystem, S> Contains<Location> for IsSiblingSystemParachain<P, S> {
	fn contains(l: &Location) -> bool {
		matches!(l.unpack(), (1, [Parachain(id)]) if P::from(*id).is_system())
	}
}
pub struct IsParentsOnly<N>(PhantomData<N>);
impl<N: Get<u8>> Contains<Location> for IsParentsOnly<N> {
	fn contains(l: &Location) -> bool {
		l.contains_parents_only(N::get())
	}
}

// ---- weighing

pub struct WeightInfoBounds<W, C, M>(PhantomData<(W, C, M)>);
impl<W: XcmWeightInfo<C>, C, M: Get<u32>> WeightBounds<C> for WeightInfoBounds<W, C, M>
where
	C: Clone,
{
	fn weight(message: &mut Xcm<C>) -> Result<Weight, ()> {
		let mut left = M::get();
		Self::message(message, &mut left)
	}
	fn instr_weight(i: &Instruction<C>) -> Result<Weight, ()> {
		Self::one(i, &mut u32::MAX)
	}
}
impl<W: XcmWeightInfo<C>, C: Clone, M: Get<u32>> WeightInfoBounds<W, C, M> {
	fn message(m: &Xcm<C>, left: &mut u32) -> Result<Weight, ()> {
		let mut r = Weight::zero();
		*left = left.checked_sub(m.len() as u32).ok_or(())?;
		for i in m.iter() {
			r = r.checked_add(&Self::one(i, left)?).ok_or(())?;
		}
		Ok(r)
	}
	fn one(i: &Instruction<C>, left: &mut u32) -> Result<Weight, ()> {
		let inner = match i {
			Instruction::Transact { require_weight_at_most, .. } => *require_weight_at_most,
			Instruction::SetErrorHandler(x) | Instruction::SetAppendix(x) => Self::message(x, left)?,
			_ => Weight::zero(),
		};
		i.weight::<W>().checked_add(&inner).ok_or(())
	}
}
pub struct FixedWeightBounds<T, C, M>(PhantomData<(T, C, M)>);
impl<T: Get<Weight>, C: Clone, M: Get<u32>> WeightBounds<C> for FixedWeightBounds<T, C, M> {
	fn weight(message: &mut Xcm<C>) -> Result<Weight, ()> {
		let mut left = M::get();
		Self::message(message, &mut left)
	}
	fn instr_weight(i: &Instruction<C>) -> Result<Weight, ()> {
		Self::one(i, &mut u32::MAX)
	}
}
impl<T: Get<Weight>, C: Clone, M> FixedWeightBounds<T, C, M> {
	fn message(m: &Xcm<C>, left: &mut u32) -> Result<Weight, ()> {
		let mut r = Weight::zero();
		*left = left.checked_sub(m.len() as u32).ok_or(())?;
		for i in m.iter() {
			r = r.checked_add(&Self::one(i, left)?).ok_or(())?;
		}
		Ok(r)
	}
	fn one(i: &Instruction<C>, left: &mut u32) -> Result<Weight, ()> {
		let inner = match i {
			Instruction::Transact { require_weight_at_most, .. } => *require_weight_at_most,
			Instruction::SetErrorHandler(x) | Instruction::SetAppendix(x) => Self::message(x, left)?,
			_ => Weight::zero(),
		};
		T::get().checked_add(&inner).ok_or(())
	}
}
pub struct FrameTransactionalProcessor;
pub struct ProcessXcmMessage<O, E, C>(PhantomData<(O, E, C)>);
