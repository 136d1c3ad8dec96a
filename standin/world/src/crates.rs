//! Everything else the runtime imports, one module per crate.
use core::marker::PhantomData;

pub mod sp_api {
	pub use standin_macros::impl_runtime_apis;
}
pub mod sp_version {
	pub use standin_macros::runtime_version;
	pub use sp_runtime::RuntimeVersion;
	#[derive(Clone, Debug)]
	pub struct NativeVersion {
		pub runtime_version: RuntimeVersion,
		pub can_author_with: std::collections::HashSet<u32>,
	}
}
pub mod sp_block_builder {
	pub trait BlockBuilder<B: sp_runtime::traits::Block> {
		fn apply_extrinsic(x: B::Extrinsic) -> sp_runtime::ApplyExtrinsicResult;
	}
}
pub mod sp_consensus_aura {}
pub mod sp_genesis_builder {
	pub type PresetId = String;
}
pub mod sp_inherents {
	pub struct InherentData;
	pub struct CheckInherentsResult;
}
pub mod sp_offchain {}
pub mod sp_session {}
pub mod sp_transaction_pool {
	pub mod runtime_api {
		use sp_runtime::transaction_validity::*;
		pub trait TaggedTransactionQueue<B: sp_runtime::traits::Block> {
			fn validate_transaction(source: TransactionSource, tx: B::Extrinsic, hash: B::Hash) -> TransactionValidity;
		}
	}
}
pub mod pallet_transaction_payment_rpc_runtime_api {
	pub use crate::transactions::{FeeDetails, InclusionFee, RuntimeDispatchInfo};
	use sp_weights::Weight;
	pub trait TransactionPaymentApi<B: sp_runtime::traits::Block, Balance> {
		fn query_info(x: B::Extrinsic, len: u32) -> RuntimeDispatchInfo<Balance>;
		fn query_fee_details(x: B::Extrinsic, len: u32) -> FeeDetails<Balance>;
		fn query_weight_to_fee(w: Weight) -> Balance;
		fn query_length_to_fee(len: u32) -> Balance;
	}
	pub trait TransactionPaymentCallApi<B: sp_runtime::traits::Block, Balance, Call> {
		fn query_call_info(c: Call, len: u32) -> RuntimeDispatchInfo<Balance>;
		fn query_call_fee_details(c: Call, len: u32) -> FeeDetails<Balance>;
		fn query_weight_to_fee(w: Weight) -> Balance;
		fn query_length_to_fee(len: u32) -> Balance;
	}
}
pub mod frame_system_rpc_runtime_api {
	pub trait AccountNonceApi<Block, AccountId, Nonce> {
		fn account_nonce(account: AccountId) -> Nonce;
	}
}
pub mod cumulus_primitives_aura {}
pub mod cumulus_primitives_timestamp {}
pub mod cumulus_pallet_session_benchmarking {}
pub mod frame_executive {
	pub use crate::transactions::Executive;
}
pub mod cumulus_primitives_core {
	pub use crate::primitives::{AggregateMessageOrigin, ParaId};
	pub use xcm::latest::AssetId;
	pub mod relay_chain {
		pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024;
	}
}
pub mod polkadot_core_primitives {
	pub use crate::primitives::{AccountId, Balance, BlockNumber, Hash, Moment, Nonce};
	pub mod v2 {
		pub use super::*;
	}
}
pub mod polkadot_primitives {
	pub use crate::primitives::{ParaId as Id, AccountId, Balance, BlockNumber, Hash, Moment, Nonce};
}
pub mod polkadot_parachain_primitives {
	pub mod primitives {
		pub use crate::primitives::{ParaId as Id, Sibling};
		pub struct IsSystem;
	}
}
pub mod polkadot_runtime_common {
	use super::PhantomData;
	#[macro_export]
	macro_rules! __prod_or_fast {
		($prod:expr, $test:expr) => {
			$prod
		};
		($prod:expr, $test:expr, $env:expr) => {
			$prod
		};
	}
	pub use crate::__prod_or_fast as prod_or_fast;
	pub type BlockHashCount = frame_support::traits::ConstU32<4096>;
	pub struct SlowAdjustingFeeUpdate<T>(PhantomData<T>);
	pub mod xcm_sender {
		use super::PhantomData;
		pub struct NoPriceForMessageDelivery<I>(PhantomData<I>);
		pub struct ExponentialPrice<A, B, M, F>(PhantomData<(A, B, M, F)>);
	}
}
pub mod parachains_common {
	use super::PhantomData;
	pub use crate::primitives::{AccountId, Balance, BlockNumber, Hash, Nonce, Signature};
	use sp_runtime::Perbill;
	pub type Header = sp_runtime::generic::Header<BlockNumber, sp_runtime::traits::BlakeTwo256>;
	pub type AssetIdForTrustBackedAssets = u32;
	pub type AuraId = [u8; 32];
	pub mod opaque {
		pub type Header = super::Header;
	}
	pub const MILLISECS_PER_BLOCK: u64 = 12000;
	pub const MINUTES: BlockNumber = 60_000 / (MILLISECS_PER_BLOCK as BlockNumber);
	pub const HOURS: BlockNumber = MINUTES * 60;
	pub const DAYS: BlockNumber = HOURS * 24;
	pub const AVERAGE_ON_INITIALIZE_RATIO: Perbill = Perbill::from_percent(5);
	pub const NORMAL_DISPATCH_RATIO: Perbill = Perbill::from_percent(75);
	pub mod message_queue {
		use super::PhantomData;
		pub struct NarrowOriginToSibling<I>(PhantomData<I>);
		pub struct ParaIdToSibling;
		impl sp_runtime::traits::Convert<crate::primitives::ParaId, crate::primitives::AggregateMessageOrigin> for ParaIdToSibling {
			fn convert(p: crate::primitives::ParaId) -> crate::primitives::AggregateMessageOrigin {
				crate::primitives::AggregateMessageOrigin::Sibling(p)
			}
		}
	}
	pub mod impls {
		use super::PhantomData;
		pub struct NonZeroIssuance<A, B>(PhantomData<(A, B)>);
	}
	pub mod xcm_config {
		use super::PhantomData;
		use crate::crates::cumulus_primitives_utility::ChargeWeightInFungibles;
		use frame_support::traits::tokens::ConversionToAssetBalance;
		use sp_weights::{Weight, WeightToFee};
		use xcm::latest::Error as XcmError;
		/// The fee in an asset: what the weight costs natively, as a multiple of the existential deposit.
		pub struct AssetFeeAsExistentialDepositMultiplier<T, W, B, I>(PhantomData<(T, W, B, I)>);
		impl<T, W, B, I: 'static> ChargeWeightInFungibles<T::AccountId, crate::pallet_assets::Pallet<T, I>>
			for AssetFeeAsExistentialDepositMultiplier<T, W, B, I>
		where
			T: crate::pallet_assets::Config<I>,
			W: WeightToFee,
			B: ConversionToAssetBalance<W::Balance, T::AssetId, T::Balance>,
		{
			fn charge_weight_in_fungibles(asset: T::AssetId, weight: Weight) -> Result<T::Balance, XcmError> {
				let amount = W::weight_to_fee(&weight);
				B::to_asset_balance(amount, asset).map_err(|_| XcmError::TooExpensive)
			}
		}
	}
}
pub mod cumulus_primitives_utility {
	use super::PhantomData;
	use crate::xcm_builder::TakeRevenue;
	use crate::xcm_executor::{traits::*, AssetsInHolding};
	use frame_support::traits::{fungibles, Get};
	use xcm::latest::{prelude::*, Error as XcmError, Weight};
	pub trait ChargeWeightInFungibles<A, F: fungibles::Inspect<A>> {
		fn charge_weight_in_fungibles(asset: F::AssetId, weight: Weight) -> Result<F::Balance, XcmError>;
	}
	pub struct ParentAsUmp<T, W, P>(PhantomData<(T, W, P)>);
	impl<T, W, P> SendXcm for ParentAsUmp<T, W, P> {
		type Ticket = ();
		fn validate(_: &mut Option<Location>, _: &mut Option<Xcm<()>>) -> SendResult<()> {
			Err(SendError::NotApplicable)
		}
		fn deliver(_: ()) -> Result<XcmHash, SendError> {
			Ok([0; 32])
		}
	}
	/// Buys weight with the first asset paid, once per message; what was not needed is refunded.
	pub struct TakeFirstAssetTrader<A, C: ChargeWeightInFungibles<A, F>, M: MatchesFungibles<F::AssetId, F::Balance>, F: fungibles::Inspect<A>, H: TakeRevenue>
	where
		F::Balance: Into<u128>,
	{
		taken: Option<(u128, Asset)>,
		_p: PhantomData<(A, C, M, F, H)>,
	}
	impl<A, C: ChargeWeightInFungibles<A, F>, M: MatchesFungibles<F::AssetId, F::Balance>, F: fungibles::Inspect<A>, H: TakeRevenue> WeightTrader
		for TakeFirstAssetTrader<A, C, M, F, H>
	where
		F::Balance: Into<u128>,
	{
		fn new() -> Self {
			Self { taken: None, _p: PhantomData }
		}
		fn buy_weight(&mut self, weight: Weight, mut payment: AssetsInHolding, _: &XcmContext) -> Result<AssetsInHolding, XcmError> {
			if self.taken.is_some() {
				return Err(XcmError::NotWithdrawable);
			}
			let first = payment.fungible_assets_iter().next().ok_or(XcmError::AssetNotFound)?;
			let (id, _) = M::matches_fungibles(&first)?;
			let min: u128 = F::minimum_balance(id.clone()).into();
			let fee: u128 = C::charge_weight_in_fungibles(id, weight)?.into();
			let required: Asset = (first.id.clone(), fee.max(min)).into();
			payment.checked_sub(&required).ok_or(XcmError::TooExpensive)?;
			self.taken = Some((fee.max(min), required));
			Ok(payment)
		}
		fn refund_weight(&mut self, weight: Weight, _: &XcmContext) -> Option<Asset> {
			let (held, asset) = self.taken.take()?;
			let (id, _) = M::matches_fungibles(&asset).ok()?;
			let min: u128 = F::minimum_balance(id.clone()).into();
			let mut back: u128 = C::charge_weight_in_fungibles(id, weight).ok()?.into();
			// keep at least the minimum balance
			back = back.min(held.saturating_sub(min));
			self.taken = Some((held - back, (asset.id.clone(), held - back).into()));
			(back > 0).then(|| (asset.id.clone(), back).into())
		}
	}
	impl<A, C: ChargeWeightInFungibles<A, F>, M: MatchesFungibles<F::AssetId, F::Balance>, F: fungibles::Inspect<A>, H: TakeRevenue> Drop
		for TakeFirstAssetTrader<A, C, M, F, H>
	where
		F::Balance: Into<u128>,
	{
		fn drop(&mut self) {
			if let Some((n, a)) = self.taken.take() {
				if n > 0 {
					H::take_revenue(a);
				}
			}
		}
	}
	pub struct XcmFeesTo32ByteAccount<F, A, R>(PhantomData<(F, A, R)>);
	impl<F: TransactAsset, A: Clone + Into<[u8; 32]>, R: Get<A>> TakeRevenue for XcmFeesTo32ByteAccount<F, A, R> {
		fn take_revenue(revenue: Asset) {
			let to = Location::new(0, [Junction::AccountId32 { network: None, id: R::get().into() }]);
			let _ = F::deposit_asset(&revenue, &to, None);
		}
	}
}
pub mod assets_common {
	pub mod runtime_api {
		#[derive(Clone, Debug, PartialEq, Eq)]
		pub enum FungiblesAccessError {
			AssetIdConversionFailed,
			AmountToBalanceConversionFailed,
		}
		pub trait FungiblesApi<Block, AccountId> {
			fn query_account_balances(account: AccountId) -> Result<xcm::VersionedAssets, FungiblesAccessError>;
		}
	}
	pub mod fungible_conversion {
		use super::runtime_api::FungiblesAccessError;
		use crate::xcm_builder::{ConvertedConcreteId, MatchedConvertedConcreteId};
		use frame_support::traits::{Contains, Get};
		use sp_runtime::traits::MaybeEquivalence;
		use xcm::latest::prelude::*;
		pub trait Converter<A, B, CA, CB> {}
		impl<A, B, CA, CB> Converter<A, B, CA, CB> for ConvertedConcreteId<A, B, CA, CB> {}
		impl<A, B, M: Contains<Location>, CA, CB> Converter<A, B, CA, CB> for MatchedConvertedConcreteId<A, B, M, CA, CB> {}
		pub fn convert_balance<T: Get<Location>, B: TryInto<u128>>(b: B) -> Result<Asset, FungiblesAccessError> {
			let n: u128 = b.try_into().map_err(|_| FungiblesAccessError::AmountToBalanceConversionFailed)?;
			Ok((AssetId(T::get()), n).into())
		}
		pub fn convert<'a, A, B, CA, CB, C>(items: impl Iterator<Item = &'a (A, B)>) -> Result<Vec<Asset>, FungiblesAccessError>
		where
			A: 'a,
			B: 'a,
			CA: MaybeEquivalence<Location, A>,
			CB: MaybeEquivalence<u128, B>,
			C: Converter<A, B, CA, CB>,
		{
			items
				.map(|(a, b)| {
					let id = CA::convert_back(a).ok_or(FungiblesAccessError::AssetIdConversionFailed)?;
					let n = CB::convert_back(b).ok_or(FungiblesAccessError::AmountToBalanceConversionFailed)?;
					Ok((AssetId(id), n).into())
				})
				.collect()
		}
	}
}
pub mod fc_traits_authn {
	use super::PhantomData;
	pub use standin_macros::composite_authenticator;
	pub type Challenge = [u8; 32];
	pub type HashedUserId = [u8; 32];
	pub type DeviceId = [u8; 32];
	pub type AuthorityId = [u8; 32];
	pub trait Challenger {
		type Context;
		fn generate(cx: &Self::Context) -> Challenge;
		fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
			Self::generate(cx).eq(challenge).then_some(())
		}
	}
	/// What an authenticator checks challenges with.
	pub trait Challenged {
		type Challenger: Challenger;
	}
	pub struct Composite<D, A>(PhantomData<(D, A)>);
	impl<D: Challenged, A> Challenged for Composite<(D,), A> {
		type Challenger = D::Challenger;
	}
	impl<D: Challenged, E, A> Challenged for Composite<(D, E), A> {
		type Challenger = D::Challenger;
	}
	pub mod util {
		use super::PhantomData;
		pub struct AuthorityFromPalletId<I>(PhantomData<I>);
		pub mod dummy {
			use super::PhantomData;
			pub struct Dummy<A>(PhantomData<A>);
		}
	}
}
pub mod pass_webauthn {
	use super::PhantomData;
	pub struct Authenticator<C, A>(PhantomData<(C, A)>);
	impl<C: super::fc_traits_authn::Challenger, A> super::fc_traits_authn::Challenged for Authenticator<C, A> {
		type Challenger = C;
	}
}
pub mod fc_traits_gas_tank {
	pub use crate::transactions::{tank, GasBurner, NonFungibleGasBurner};
}
