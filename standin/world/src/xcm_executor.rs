//! A compact executor: the instructions that move assets, change the origin, pay for execution and
//! dispatch calls, as the real one does them, over the configuration of the runtime.
pub use config::Config;
use core::marker::PhantomData;
use frame_support::{
	dispatch::{GetDispatchInfo, PostDispatchInfo},
	traits::{Contains, ContainsPair, Get},
};
use sp_io::storage as kv;
use sp_runtime::traits::Dispatchable;
use std::collections::BTreeMap;
use traits::*;
use xcm::latest::{prelude::*, Error as XcmError, Weight};

mod config {
	use super::*;
	pub trait Config {
		type RuntimeCall: frame_support::Parameter + Dispatchable<PostInfo = PostDispatchInfo> + GetDispatchInfo;
		type XcmSender;
		type AssetTransactor: TransactAsset;
		type OriginConverter: ConvertOrigin<<Self::RuntimeCall as Dispatchable>::RuntimeOrigin>;
		type IsReserve: ContainsPair<Asset, Location>;
		type IsTeleporter: ContainsPair<Asset, Location>;
		type UniversalLocation: Get<InteriorLocation>;
		type Barrier: ShouldExecute;
		type Weigher: WeightBounds<Self::RuntimeCall>;
		type Trader: WeightTrader;
		type ResponseHandler;
		type AssetTrap;
		type AssetClaims;
		type SubscriptionService;
		type PalletInstancesInfo;
		type MaxAssetsIntoHolding: Get<u32>;
		type AssetLocker;
		type AssetExchanger;
		type FeeManager;
		type MessageExporter;
		type UniversalAliases: Contains<(Location, Junction)>;
		type CallDispatcher;
		type SafeCallFilter: Contains<Self::RuntimeCall>;
		type Aliasers: ContainsPair<Location, Location>;
		type TransactionalProcessor;
		type HrmpNewChannelOpenRequestHandler;
		type HrmpChannelAcceptedHandler;
		type HrmpChannelClosingHandler;
		type XcmRecorder;
	}
}

/// Fungible assets on their way through a message.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct AssetsInHolding {
	pub fungible: BTreeMap<AssetId, u128>,
}
impl AssetsInHolding {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn is_empty(&self) -> bool {
		self.fungible.is_empty()
	}
	pub fn len(&self) -> usize {
		self.fungible.len()
	}
	pub fn subsume(&mut self, a: Asset) {
		if let Fungibility::Fungible(n) = a.fun {
			if n > 0 {
				let x = self.fungible.entry(a.id).or_default();
				*x = x.saturating_add(n);
			}
		}
	}
	pub fn subsume_assets(&mut self, o: AssetsInHolding) {
		for a in o.into_assets() {
			self.subsume(a)
		}
	}
	pub fn into_assets(self) -> Vec<Asset> {
		self.fungible.into_iter().map(|(id, n)| Asset { id, fun: Fungibility::Fungible(n) }).collect()
	}
	pub fn fungible_assets_iter(&self) -> impl Iterator<Item = Asset> + '_ {
		self.fungible.iter().map(|(id, n)| Asset { id: id.clone(), fun: Fungibility::Fungible(*n) })
	}
	/// Takes out exactly what is asked for, or nothing.
	pub fn checked_sub(&mut self, a: &Asset) -> Option<Asset> {
		let Fungibility::Fungible(n) = a.fun else { return None };
		match self.fungible.get_mut(&a.id) {
			Some(x) if *x >= n => {
				*x -= n;
				if *x == 0 {
					self.fungible.remove(&a.id);
				}
				Some(a.clone())
			}
			None if n == 0 => Some(a.clone()),
			_ => None,
		}
	}
	pub fn saturating_take(&mut self, f: &AssetFilter) -> Vec<Asset> {
		let all: Vec<Asset> = self.fungible_assets_iter().collect();
		let take: Vec<Asset> = match f {
			AssetFilter::Wild(WildAsset::All) => all,
			AssetFilter::Wild(WildAsset::AllCounted(n)) => all.into_iter().take(*n as usize).collect(),
			AssetFilter::Wild(WildAsset::AllOf { id, .. }) | AssetFilter::Wild(WildAsset::AllOfCounted { id, .. }) =>
				all.into_iter().filter(|a| a.id == *id).collect(),
			AssetFilter::Definite(w) => w
				.iter()
				.filter_map(|a| match (&a.fun, self.fungible.get(&a.id)) {
					(Fungibility::Fungible(n), Some(have)) =>
						Some(Asset { id: a.id.clone(), fun: Fungibility::Fungible((*n).min(*have)) }),
					_ => None,
				})
				.collect(),
		};
		for a in &take {
			let _ = self.checked_sub(a);
		}
		take
	}
}
impl From<Asset> for AssetsInHolding {
	fn from(a: Asset) -> Self {
		let mut h = Self::new();
		h.subsume(a);
		h
	}
}
impl From<Vec<Asset>> for AssetsInHolding {
	fn from(v: Vec<Asset>) -> Self {
		let mut h = Self::new();
		for a in v {
			h.subsume(a)
		}
		h
	}
}

pub mod traits {
	use super::*;
	pub trait ConvertLocation<AccountId> {
		fn convert_location(location: &Location) -> Option<AccountId>;
	}
	pub trait ConvertOrigin<Origin> {
		fn convert_origin(origin: impl Into<Location>, kind: OriginKind) -> Result<Origin, Location>;
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum MatchError {
		AssetNotHandled,
		AccountIdConversionFailed,
		AmountToBalanceConversionFailed,
		AssetIdConversionFailed,
		InstanceConversionFailed,
	}
	pub use MatchError as Error;
	impl From<MatchError> for XcmError {
		fn from(e: MatchError) -> Self {
			match e {
				MatchError::AssetNotHandled => XcmError::AssetNotFound,
				_ => XcmError::FailedToTransactAsset("conversion"),
			}
		}
	}
	pub trait MatchesFungible<Balance> {
		fn matches_fungible(a: &Asset) -> Option<Balance>;
	}
	pub trait MatchesFungibles<AssetId, Balance> {
		fn matches_fungibles(a: &Asset) -> Result<(AssetId, Balance), MatchError>;
	}
	pub trait TransactAsset {
		fn deposit_asset(_what: &Asset, _who: &Location, _c: Option<&XcmContext>) -> Result<(), XcmError> {
			Err(XcmError::Unimplemented)
		}
		fn withdraw_asset(_what: &Asset, _who: &Location, _c: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
			Err(XcmError::Unimplemented)
		}
		fn transfer_asset(what: &Asset, from: &Location, to: &Location, c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			let r = Self::withdraw_asset(what, from, Some(c))?;
			Self::deposit_asset(what, to, Some(c))?;
			Ok(r)
		}
	}
	pub trait WeightTrader: Sized {
		fn new() -> Self;
		fn buy_weight(&mut self, weight: Weight, payment: AssetsInHolding, c: &XcmContext) -> Result<AssetsInHolding, XcmError>;
		fn refund_weight(&mut self, _weight: Weight, _c: &XcmContext) -> Option<Asset> {
			None
		}
	}
	pub trait WeightBounds<Call> {
		fn weight(message: &mut Xcm<Call>) -> Result<Weight, ()>;
		fn instr_weight(instruction: &Instruction<Call>) -> Result<Weight, ()>;
	}
	pub struct Properties {
		pub weight_credit: Weight,
		pub message_id: Option<XcmHash>,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub enum ProcessMessageError {
		BadFormat,
		Corrupt,
		Unsupported,
		Overweight(Weight),
		Yield,
	}
	pub trait ShouldExecute {
		fn should_execute<Call>(
			origin: &Location,
			instructions: &mut [Instruction<Call>],
			max_weight: Weight,
			properties: &mut Properties,
		) -> Result<(), ProcessMessageError>;
	}
	macro_rules! tuples { ($($t:ident),*) => {
		impl<A, $($t: ConvertLocation<A>),*> ConvertLocation<A> for ($($t,)*) {
			fn convert_location(_l: &Location) -> Option<A> {
				$( if let Some(a) = $t::convert_location(_l) { return Some(a); } )*
				None
			}
		}
		impl<O, $($t: ConvertOrigin<O>),*> ConvertOrigin<O> for ($($t,)*) {
			fn convert_origin(origin: impl Into<Location>, _kind: OriginKind) -> Result<O, Location> {
				let origin = origin.into();
				$( let origin = match $t::convert_origin(origin, _kind) { Ok(o) => return Ok(o), Err(o) => o }; )*
				Err(origin)
			}
		}
		impl<$($t: TransactAsset),*> TransactAsset for ($($t,)*) {
			fn deposit_asset(_what: &Asset, _who: &Location, _c: Option<&XcmContext>) -> Result<(), XcmError> {
				$( match $t::deposit_asset(_what, _who, _c) {
					Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (),
					r => return r,
				} )*
				Err(XcmError::AssetNotFound)
			}
			fn withdraw_asset(_what: &Asset, _who: &Location, _c: Option<&XcmContext>) -> Result<AssetsInHolding, XcmError> {
				$( match $t::withdraw_asset(_what, _who, _c) {
					Err(XcmError::AssetNotFound) | Err(XcmError::Unimplemented) => (),
					r => return r,
				} )*
				Err(XcmError::AssetNotFound)
			}
		}
		#[allow(non_snake_case, unused_mut)]
		impl<$($t: WeightTrader),*> WeightTrader for ($($t,)*) {
			fn new() -> Self { ($($t::new(),)*) }
			fn buy_weight(&mut self, _w: Weight, _p: AssetsInHolding, _c: &XcmContext) -> Result<AssetsInHolding, XcmError> {
				let mut too_expensive = false;
				let ($($t,)*) = self;
				$( match $t.buy_weight(_w, _p.clone(), _c) {
					Ok(a) => return Ok(a),
					Err(XcmError::TooExpensive) => too_expensive = true,
					Err(_) => (),
				} )*
				Err(if too_expensive { XcmError::TooExpensive } else { XcmError::AssetNotFound })
			}
			fn refund_weight(&mut self, _w: Weight, _c: &XcmContext) -> Option<Asset> {
				let ($($t,)*) = self;
				$( if let Some(a) = $t.refund_weight(_w, _c) { return Some(a); } )*
				None
			}
		}
		impl<$($t: ShouldExecute),*> ShouldExecute for ($($t,)*) {
			fn should_execute<Call>(_o: &Location, _i: &mut [Instruction<Call>], _w: Weight, _p: &mut Properties) -> Result<(), ProcessMessageError> {
				$( match $t::should_execute(_o, _i, _w, _p) { Ok(()) => return Ok(()), Err(_) => () } )*
				Err(ProcessMessageError::Unsupported)
			}
		}
	} }
	tuples!();
	tuples!(T0);
	tuples!(T0, T1);
	tuples!(T0, T1, T2);
	tuples!(T0, T1, T2, T3);
	tuples!(T0, T1, T2, T3, T4);
	tuples!(T0, T1, T2, T3, T4, T5);
	tuples!(T0, T1, T2, T3, T4, T5, T6);
	tuples!(T0, T1, T2, T3, T4, T5, T6, T7);

	pub struct JustTry;
	impl<A, B> sp_runtime::traits::MaybeEquivalence<A, B> for JustTry
	where
		A: Clone + TryInto<B>,
		B: Clone + TryInto<A>,
	{
		fn convert(a: &A) -> Option<B> {
			a.clone().try_into().ok()
		}
		fn convert_back(b: &B) -> Option<A> {
			b.clone().try_into().ok()
		}
	}
	pub struct Identity;
	impl<A: Clone> sp_runtime::traits::MaybeEquivalence<A, A> for Identity {
		fn convert(a: &A) -> Option<A> {
			Some(a.clone())
		}
		fn convert_back(a: &A) -> Option<A> {
			Some(a.clone())
		}
	}
	pub trait DropAssets {}
	pub trait OnResponse {}
}

/// How a message ended.
#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
	/// the message could not be weighed
	Unweighable,
	/// the barrier turned it away
	Barred,
	/// it ran; with the error of the first instruction that failed
	Ran(Option<(usize, XcmError)>),
}
pub struct XcmExecutor<C>(PhantomData<C>);
/// The configuration an executor was made with.
pub trait HasConfig {
	type Config: Config;
}
impl<C: Config> HasConfig for XcmExecutor<C> {
	type Config = C;
}
pub struct Run<C: Config> {
	pub original: Location,
	pub origin: Option<Location>,
	pub holding: AssetsInHolding,
	pub surplus: Weight,
	pub refunded: Weight,
	context: XcmContext,
	trader: Option<C::Trader>,
}
impl<C: Config> XcmExecutor<C> {
	/// Weighs, asks the barrier, and runs a message that came from elsewhere.
	pub fn receive(origin: Location, mut message: Xcm<C::RuntimeCall>, limit: Weight, credit: Weight) -> Verdict {
		let Ok(weight) = C::Weigher::weight(&mut message) else { return Verdict::Unweighable };
		if weight.any_gt(limit) {
			return Verdict::Unweighable;
		}
		let mut p = Properties { weight_credit: credit, message_id: None };
		if C::Barrier::should_execute(&origin, message.inner_mut(), weight, &mut p).is_err() {
			return Verdict::Barred;
		}
		let mut run = Run::<C> {
			original: origin.clone(),
			origin: Some(origin),
			holding: AssetsInHolding::new(),
			surplus: Weight::zero(),
			refunded: Weight::zero(),
			context: XcmContext::with_message_id([0; 32]),
			trader: Some(C::Trader::new()),
		};
		let mut error = None;
		for (i, ins) in message.0.into_iter().enumerate() {
			// each instruction is a transaction of its own
			let depth = kv::transaction_depth();
			kv::start_transaction();
			let holding = run.holding.clone();
			let r = run.step(ins);
			match r {
				Ok(()) => kv::commit_transaction(),
				Err(e) => {
					kv::rollback_to_depth(depth);
					run.holding = holding;
					error = Some((i, e));
					break;
				}
			}
		}
		run.refund();
		// what is left is trapped, i.e. taken out of circulation here
		drop(run.trader.take());
		Verdict::Ran(error)
	}
}
impl<C: Config> Run<C> {
	fn origin(&self) -> Result<&Location, XcmError> {
		self.origin.as_ref().ok_or(XcmError::BadOrigin)
	}
	fn add(&mut self, a: AssetsInHolding) -> Result<(), XcmError> {
		let new = a.fungible.keys().filter(|k| !self.holding.fungible.contains_key(*k)).count();
		if self.holding.len() + new > C::MaxAssetsIntoHolding::get() as usize * 2 {
			return Err(XcmError::HoldingWouldOverflow);
		}
		self.holding.subsume_assets(a);
		Ok(())
	}
	fn refund(&mut self) {
		let w = self.surplus.saturating_sub(self.refunded);
		if w.any_gt(Weight::zero()) {
			self.refunded.saturating_accrue(w);
			if let Some(t) = self.trader.as_mut() {
				if let Some(a) = t.refund_weight(w, &self.context) {
					self.holding.subsume(a);
				}
			}
		}
	}
	fn step(&mut self, i: Instruction<C::RuntimeCall>) -> Result<(), XcmError> {
		use Instruction::*;
		match i {
			WithdrawAsset(assets) => {
				let who = self.origin()?.clone();
				let mut got = AssetsInHolding::new();
				for a in assets.0.into_iter() {
					got.subsume_assets(C::AssetTransactor::withdraw_asset(&a, &who, Some(&self.context))?);
				}
				self.add(got)
			}
			ReserveAssetDeposited(assets) => {
				let origin = self.origin()?.clone();
				for a in assets.iter() {
					if !C::IsReserve::contains(a, &origin) {
						return Err(XcmError::UntrustedReserveLocation);
					}
				}
				self.add(assets.0.into())
			}
			ReceiveTeleportedAsset(assets) => {
				let origin = self.origin()?.clone();
				for a in assets.iter() {
					if !C::IsTeleporter::contains(a, &origin) {
						return Err(XcmError::UntrustedTeleportLocation);
					}
				}
				self.add(assets.0.into())
			}
			TransferAsset { assets, beneficiary } => {
				let who = self.origin()?.clone();
				for a in assets.iter() {
					C::AssetTransactor::transfer_asset(a, &who, &beneficiary, &self.context)?;
				}
				Ok(())
			}
			Transact { origin_kind, require_weight_at_most, call } => {
				let origin = self.origin()?.clone();
				let call = call.try_into().map_err(|_| XcmError::FailedToDecode)?;
				if !C::SafeCallFilter::contains(&call) {
					return Err(XcmError::NoPermission);
				}
				let o = C::OriginConverter::convert_origin(origin, origin_kind).map_err(|_| XcmError::BadOrigin)?;
				let w = call.get_dispatch_info().weight;
				if w.any_gt(require_weight_at_most) {
					return Err(XcmError::MaxWeightInvalid);
				}
				let _ = call.dispatch(o);
				self.surplus.saturating_accrue(require_weight_at_most.saturating_sub(w));
				Ok(())
			}
			ClearOrigin => {
				self.origin = None;
				Ok(())
			}
			DescendOrigin(j) => {
				let o = self.origin()?.clone();
				self.origin = Some(o.appended_with(Location::from(j)).map_err(|_| XcmError::LocationFull)?);
				Ok(())
			}
			BuyExecution { fees, weight_limit } => {
				let Some(weight) = Option::<Weight>::from(weight_limit) else { return Ok(()) };
				let paid = self.holding.checked_sub(&fees).ok_or(XcmError::NotHoldingFees)?;
				let t = self.trader.as_mut().expect("running");
				let rest = t.buy_weight(weight, paid.into(), &self.context)?;
				self.add(rest)
			}
			RefundSurplus => {
				self.refund();
				Ok(())
			}
			DepositAsset { assets, beneficiary } => {
				for a in self.holding.saturating_take(&assets) {
					C::AssetTransactor::deposit_asset(&a, &beneficiary, Some(&self.context))?;
				}
				Ok(())
			}
			UnpaidExecution { check_origin, .. } => {
				if check_origin.is_some() && check_origin != self.origin {
					return Err(XcmError::BadOrigin);
				}
				Ok(())
			}
			UniversalOrigin(j) => {
				let o = self.origin()?.clone();
				if !C::UniversalAliases::contains(&(o, j)) {
					return Err(XcmError::InvalidLocation);
				}
				self.origin = Some(j.into_location());
				Ok(())
			}
			AliasOrigin(target) => {
				let o = self.origin()?;
				if *o == target || C::Aliasers::contains(o, &target) {
					self.origin = Some(target);
					Ok(())
				} else {
					Err(XcmError::NoPermission)
				}
			}
			BurnAsset(assets) => {
				self.holding.saturating_take(&AssetFilter::Definite(assets));
				Ok(())
			}
			ExpectOrigin(o) => if o == self.origin { Ok(()) } else { Err(XcmError::ExpectationFalse) },
			SetTopic(_) | ClearTopic | ClearError | ClearTransactStatus | SetFeesMode { .. } => Ok(()),
			Trap(n) => Err(XcmError::Trap(n)),
			_ => Err(XcmError::Unimplemented),
		}
	}
}
