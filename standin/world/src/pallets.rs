//! Pallets of which the runtime uses the configuration, the names of the calls and little else.
use core::marker::PhantomData;
use frame_support::traits::{fungible, fungibles, tokens, Currency, FindAuthor, Get, OnUnbalanced};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use sp_io::storage as kv;
use sp_runtime::traits::AccountIdConversion;
use sp_weights::Weight;

macro_rules! stubs { ($( $m:ident : $name:literal; config { $($cfg:tt)* } calls { $($c:ident),* $(,)? } $(+ extra { $($extra:item)* })? )*) => { $(
	pub mod $m {
		frame_system::stub_pallet! { $name; config { $($cfg)* } calls { $($c),* } }
		$($($extra)*)?
	}
)* } }
stubs! {
	pallet_multisig: "pallet_multisig";
		config { RuntimeEvent, RuntimeCall, Currency, DepositBase, DepositFactor, MaxSignatories, WeightInfo }
		calls { as_multi_threshold_1, as_multi, approve_as_multi, cancel_as_multi }
	pallet_utility: "pallet_utility";
		config { RuntimeEvent, RuntimeCall, PalletsOrigin, WeightInfo }
		calls { batch, as_derivative, batch_all, dispatch_as, force_batch, with_weight }
	pallet_vesting: "pallet_vesting";
		config { RuntimeEvent, Currency, BlockNumberToBalance, MinVestedTransfer, WeightInfo,
			UnvestedFundsAllowedWithdrawReasons, BlockNumberProvider; MAX_VESTING_SCHEDULES: u32 }
		calls { vest, vest_other, vested_transfer, force_vested_transfer, merge_schedules, force_remove_vesting_schedule }
	pallet_skip_feeless_payment: "pallet_skip_feeless_payment"; config { RuntimeEvent } calls { }
		+ extra { pub use crate::transactions::SkipCheckIfFeeless; }
	pallet_gas_transaction_payment: "pallet_gas_transaction_payment"; config { RuntimeEvent, GasBurner } calls { }
		+ extra { pub use crate::transactions::ChargeGas as ChargeTransactionPayment; }
	cumulus_pallet_parachain_system: "cumulus_pallet_parachain_system";
		config { WeightInfo, RuntimeEvent, OnSystemEvent, SelfParaId, OutboundXcmpMessageSource, DmpQueue,
			ReservedDmpWeight, XcmpMessageHandler, ReservedXcmpWeight, CheckAssociatedRelayNumber, ConsensusHook }
		calls { set_validation_data, sudo_send_upward_message, authorize_upgrade, enact_authorized_upgrade }
		+ extra {
			pub struct RelayNumberMonotonicallyIncreases;
			pub struct RelayNumberStrictlyIncreases;
			pub struct AnyRelayNumber;
			pub struct ExpectParentIncluded;
			pub struct ParachainSetCode<T>(core::marker::PhantomData<T>);
			pub use crate::__register_validate_block as register_validate_block;
		}
	pallet_timestamp: "pallet_timestamp"; config { Moment, OnTimestampSet, MinimumPeriod, WeightInfo } calls { set }
	pallet_message_queue: "pallet_message_queue";
		config { RuntimeEvent, WeightInfo, MessageProcessor, Size, QueueChangeHandler, QueuePausedQuery, HeapSize, MaxStale,
			ServiceWeight, IdleMaxServiceWeight }
		calls { reap_page, execute_overweight }
	cumulus_pallet_aura_ext: "cumulus_pallet_aura_ext"; config { } calls { }
		+ extra {
			pub struct FixedVelocityConsensusHook<T, const A: u32, const B: u32, const C: u32>(core::marker::PhantomData<T>);
			pub struct BlockExecutor<T, E>(core::marker::PhantomData<(T, E)>);
		}
	pallet_aura: "pallet_aura";
		config { AuthorityId, DisabledValidators, MaxAuthorities, AllowMultipleBlocksPerSlot, SlotDuration } calls { }
	cumulus_pallet_xcmp_queue: "cumulus_pallet_xcmp_queue";
		config { RuntimeEvent, ChannelInfo, VersionWrapper, XcmpQueue, MaxActiveOutboundChannels, MaxPageSize,
			MaxInboundSuspended, ControllerOrigin, ControllerOriginConverter, WeightInfo, PriceForSiblingDelivery }
		calls { suspend_xcm_execution, resume_xcm_execution, update_suspend_threshold, update_drop_threshold, update_resume_threshold }
	pallet_collator_selection: "pallet_collator_selection";
		config { RuntimeEvent, Currency, UpdateOrigin, PotId, MaxCandidates, MinEligibleCollators, MaxInvulnerables,
			KickThreshold, ValidatorId, ValidatorIdOf, ValidatorRegistration, WeightInfo }
		calls { set_invulnerables, set_desired_candidates, set_candidacy_bond, register_as_candidate, leave_intent,
			add_invulnerable, remove_invulnerable, update_bond, take_candidate_slot }
		+ extra { pub struct IdentityCollator; }
	pallet_sudo: "pallet_sudo"; config { RuntimeEvent, RuntimeCall, WeightInfo }
		calls { sudo, sudo_unchecked_weight, set_key, sudo_as, remove_key }
}
mod extras {
	use super::*;
	impl<T, I: 'static> FindAuthor<u32> for super::pallet_aura::Pallet<T, I> {
		fn find_author<'a, X>(_: X) -> Option<u32>
		where
			X: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>,
		{
			kv::get(b"author-index").map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
		}
	}
	impl<T, I: 'static> frame_support::traits::Time for super::pallet_timestamp::Pallet<T, I> {
		type Moment = u64;
		fn now() -> u64 {
			kv::get(b"now").map(|v| Decode::decode(&mut &v[..]).expect("own encoding")).unwrap_or_default()
		}
	}
	impl<T, I: 'static> xcm::latest::SendXcm for super::cumulus_pallet_xcmp_queue::Pallet<T, I> {
		type Ticket = ();
		fn validate(_: &mut Option<xcm::latest::Location>, _: &mut Option<xcm::latest::Xcm<()>>) -> xcm::latest::SendResult<()> {
			Err(xcm::latest::SendError::NotApplicable)
		}
		fn deliver(_: ()) -> Result<xcm::latest::XcmHash, xcm::latest::SendError> {
			Ok([0; 32])
		}
	}
}
#[macro_export]
macro_rules! __register_validate_block {
	($($t:tt)*) => {};
}

pub mod parachain_info {
	use super::*;
	frame_system::stub_config! {}
	frame_system::stub_struct! {}
	impl<T: Config, I: 'static> Pallet<T, I> {
		pub fn parachain_id() -> crate::primitives::ParaId {
			crate::primitives::ParaId(2281)
		}
	}
	impl<T: Config, I: 'static> Get<crate::primitives::ParaId> for Pallet<T, I> {
		fn get() -> crate::primitives::ParaId {
			Self::parachain_id()
		}
	}
}
pub mod pallet_authorship {
	use super::*;
	pub trait Config: frame_system::ExtraConfig {
		type FindAuthor: FindAuthor<Self::AccountId>;
		type EventHandler;
	}
	frame_system::stub_struct! {}
	impl<T: Config> Pallet<T> {
		pub fn author() -> Option<T::AccountId> {
			T::FindAuthor::find_author(core::iter::empty())
		}
	}
}
pub mod pallet_session {
	use super::*;
	pub trait Config: frame_system::ExtraConfig {
		type RuntimeEvent;
		type ValidatorId: Encode + Decode;
		type ValidatorIdOf;
		type ShouldEndSession;
		type NextSessionRotation;
		type SessionManager;
		type SessionHandler;
		type Keys;
		type WeightInfo;
	}
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_call! { "pallet_session"; set_keys, purge_keys }
	impl<T: Config> Pallet<T> {
		pub fn validators() -> Vec<T::ValidatorId> {
			kv::get(b"validators").map(|v| Decode::decode(&mut &v[..]).expect("own encoding")).unwrap_or_default()
		}
		pub fn set_validators(v: Vec<T::ValidatorId>) {
			kv::set(b"validators", &v.encode())
		}
	}
	pub struct FindAccountFromAuthorIndex<T, Inner>(PhantomData<(T, Inner)>);
	impl<T: Config, Inner: FindAuthor<u32>> FindAuthor<T::ValidatorId> for FindAccountFromAuthorIndex<T, Inner> {
		fn find_author<'a, X>(d: X) -> Option<T::ValidatorId>
		where
			X: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>,
		{
			let i = Inner::find_author(d)? as usize;
			Pallet::<T>::validators().into_iter().nth(i)
		}
	}
	pub struct PeriodicSessions<P, O>(PhantomData<(P, O)>);
}
pub mod pallet_treasury {
	use super::*;
	pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
		type Currency;
		type RejectOrigin;
		type RuntimeEvent;
		type SpendPeriod;
		type Burn;
		type PalletId: Get<frame_support::PalletId>;
		type BurnDestination;
		type WeightInfo;
		type SpendFunds;
		type MaxApprovals;
		type SpendOrigin;
		type AssetKind;
		type Beneficiary;
		type BeneficiaryLookup;
		type Paymaster;
		type BalanceConverter;
		type PayoutPeriod;
	}
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_treasury"; spend_local, remove_approval, spend, payout, check_status, void_spend }
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub fn account_id() -> T::AccountId
		where
			T::AccountId: parity_scale_codec::Codec,
		{
			T::PalletId::get().into_account_truncating()
		}
	}
}
pub mod pallet_proxy {
	use super::*;
	frame_system::stub_config! { RuntimeEvent, RuntimeCall, Currency, ProxyType, ProxyDepositBase, ProxyDepositFactor, MaxProxies,
		WeightInfo, MaxPending, CallHasher, AnnouncementDepositBase, AnnouncementDepositFactor }
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_call! { "pallet_proxy"; proxy, add_proxy, remove_proxy, remove_proxies, create_pure, kill_pure, announce,
		remove_announcement, reject_announcement, proxy_announced }
	pub mod weights {
		pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	}
	pub trait WeightInfo {
		fn proxy(p: u32) -> Weight;
		fn proxy_announced(a: u32, p: u32) -> Weight;
		fn remove_announcement(a: u32, p: u32) -> Weight;
		fn reject_announcement(a: u32, p: u32) -> Weight;
		fn announce(a: u32, p: u32) -> Weight;
		fn add_proxy(p: u32) -> Weight;
		fn remove_proxy(p: u32) -> Weight;
		fn remove_proxies(p: u32) -> Weight;
		fn create_pure(p: u32) -> Weight;
		fn kill_pure(p: u32) -> Weight;
	}
}
pub mod pallet_scheduler {
	use super::*;
	use doubles::scheduler::SchedulerConfig;
	pub trait Config: frame_system::ExtraConfig {
		type RuntimeOrigin;
		type RuntimeEvent;
		type PalletsOrigin: Encode + Decode + 'static;
		type RuntimeCall: Encode + Decode + 'static;
		type MaximumWeight;
		type ScheduleOrigin;
		type MaxScheduledPerBlock;
		type WeightInfo;
		type OriginPrivilegeCmp;
		type Preimages;
	}
	pub struct Book<T>(PhantomData<T>);
	impl<T: Config> SchedulerConfig for Book<T> {
		type BlockNumber = frame_system::pallet_prelude::BlockNumberFor<T>;
		type Call = <T as Config>::RuntimeCall;
		type Origin = T::PalletsOrigin;
		fn now() -> Self::BlockNumber {
			frame_system::Pallet::<T>::block_number()
		}
	}
	pub type Pallet<T> = doubles::scheduler::Scheduler<Book<T>>;
	frame_system::stub_instances! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_scheduler"; schedule, cancel, schedule_named, cancel_named, schedule_after,
		schedule_named_after, set_retry, set_retry_named, cancel_retry, cancel_retry_named }
}
pub mod pallet_preimage {
	use super::*;
	frame_system::stub_config! { WeightInfo, RuntimeEvent, Currency, ManagerOrigin, Consideration }
	pub type Pallet<T> = doubles::scheduler::Preimages<T>;
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum HoldReason {
		Preimage,
	}
	frame_system::stub_instances! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_preimage"; note_preimage, unnote_preimage, request_preimage, unrequest_preimage, ensure_updated }
}
pub mod pallet_transaction_payment {
	use super::*;
	pub trait OnChargeTransaction<T: frame_system::Config> {
		type Balance: tokens::Balance;
		/// Takes the fee in advance and gives what was not needed back.
		fn charge(who: &T::AccountId, fee: Self::Balance, used: Self::Balance) -> Result<(), ()>;
	}
	pub struct FungibleAdapter<F, OU>(PhantomData<(F, OU)>);
	impl<T: frame_system::Config, F: fungible::Balanced<T::AccountId>, OU: OnUnbalanced<fungible::Credit<T::AccountId, F>>> OnChargeTransaction<T>
		for FungibleAdapter<F, OU>
	{
		type Balance = F::Balance;
		fn charge(who: &T::AccountId, fee: F::Balance, used: F::Balance) -> Result<(), ()> {
			if fee == Default::default() {
				return Ok(());
			}
			let credit = F::withdraw(who, fee, tokens::Precision::Exact, tokens::Preservation::Preserve, tokens::Fortitude::Polite)
				.map_err(|_| ())?;
			let refund = credit.peek() - if used < credit.peek() { used } else { credit.peek() };
			let (back, keep) = credit.split(refund);
			let keep = match F::resolve(who, back) {
				Ok(()) => keep,
				Err(back) => keep.merge(back),
			};
			OU::on_unbalanced(keep);
			Ok(())
		}
	}
	pub trait Config: frame_system::ExtraConfig {
		type RuntimeEvent;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type WeightToFee: sp_weights::WeightToFee<Balance = BalanceOf<Self>>;
		type LengthToFee: sp_weights::WeightToFee<Balance = BalanceOf<Self>>;
		type FeeMultiplierUpdate;
		type OperationalFeeMultiplier;
	}
	pub type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
	pub use crate::transactions::{ChargeNative as ChargeTransactionPayment, FeeDetails, InclusionFee, RuntimeDispatchInfo};
	frame_system::stub_struct! {}
	impl<T: Config> Pallet<T> {
		pub fn weight_to_fee(w: Weight) -> BalanceOf<T> {
			<T::WeightToFee as sp_weights::WeightToFee>::weight_to_fee(&w)
		}
		pub fn length_to_fee(l: u32) -> BalanceOf<T> {
			<T::LengthToFee as sp_weights::WeightToFee>::weight_to_fee(&Weight::from_parts(l as u64, 0))
		}
	}
	impl<T: Config> sp_runtime::traits::Convert<Weight, BalanceOf<T>> for Pallet<T> {
		fn convert(w: Weight) -> BalanceOf<T> {
			Self::weight_to_fee(w)
		}
	}
}
pub mod pallet_asset_tx_payment {
	use super::*;
	use frame_support::traits::tokens::ConversionToAssetBalance;
	pub trait HandleCredit<AccountId, B: fungibles::Balanced<AccountId>> {
		fn handle_credit(credit: fungibles::Credit<AccountId, B>);
	}
	impl<A, B: fungibles::Balanced<A>> HandleCredit<A, B> for () {
		fn handle_credit(_: fungibles::Credit<A, B>) {}
	}
	pub struct FungiblesAdapter<Con, Hc>(PhantomData<(Con, Hc)>);
	pub trait OnChargeAssetTransaction<T: Config> {
		/// Takes `fee` worth of the asset in advance, gives back what was not needed and hands on the rest.
		fn charge(
			who: &T::AccountId,
			asset: <T::Fungibles as fungibles::Inspect<T::AccountId>>::AssetId,
			fee: BalanceOf<T>,
			used: BalanceOf<T>,
		) -> Result<(), ()>;
	}
	pub type BalanceOf<T> = <<T as Config>::Fungibles as fungibles::Inspect<<T as frame_system::Config>::AccountId>>::Balance;
	pub trait Config: frame_system::ExtraConfig {
		type RuntimeEvent;
		type Fungibles: fungibles::Balanced<Self::AccountId>;
		type OnChargeAssetTransaction: OnChargeAssetTransaction<Self>;
	}
	impl<T, Con, Hc> OnChargeAssetTransaction<T> for FungiblesAdapter<Con, Hc>
	where
		T: Config,
		Con: ConversionToAssetBalance<BalanceOf<T>, <T::Fungibles as fungibles::Inspect<T::AccountId>>::AssetId, BalanceOf<T>>,
		Hc: HandleCredit<T::AccountId, T::Fungibles>,
		BalanceOf<T>: From<u8>,
	{
		fn charge(
			who: &T::AccountId,
			asset: <T::Fungibles as fungibles::Inspect<T::AccountId>>::AssetId,
			fee: BalanceOf<T>,
			used: BalanceOf<T>,
		) -> Result<(), ()> {
			use fungibles::Balanced;
			let zero: BalanceOf<T> = Default::default();
			let least = |f: BalanceOf<T>| if f == zero { zero } else { 1u8.into() };
			let take = Con::to_asset_balance(fee, asset.clone()).map_err(|_| ())?.max(least(fee));
			let paid = T::Fungibles::withdraw(
				asset.clone(),
				who,
				take,
				tokens::Precision::Exact,
				tokens::Preservation::Protect,
				tokens::Fortitude::Polite,
			)
			.map_err(|_| ())?;
			let keep = Con::to_asset_balance(used, asset).map_err(|_| ())?.max(least(used));
			let (keep, refund) = paid.split(keep);
			let _ = T::Fungibles::resolve(who, refund);
			Hc::handle_credit(keep);
			Ok(())
		}
	}
	frame_system::stub_struct! {}
	pub use crate::transactions::ChargeAsset as ChargeAssetTxPayment;
}
pub mod pallet_contracts {
	use super::*;
	frame_system::stub_config! { Time, Randomness, Currency, RuntimeEvent, RuntimeCall, UploadOrigin, InstantiateOrigin, CallFilter,
		DepositPerItem, DepositPerByte, CallStack, WeightPrice, WeightInfo, Schedule, AddressGenerator, ChainExtension,
		ApiVersion, MaxCodeLen, MaxTransientStorageSize, DefaultDepositLimit, MaxStorageKeyLen, MaxDebugBufferLen,
		UnsafeUnstableInterface, CodeHashLockupDepositPercent, MaxDelegateDependencies, RuntimeHoldReason, Environment,
		Debug, Migrations, Xcm }
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_contracts"; call_old_weight, instantiate_with_code_old_weight, instantiate_old_weight,
		upload_code, remove_code, set_code, call, instantiate_with_code, instantiate, migrate }
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum HoldReason {
		CodeUploadDepositReserve,
		StorageDepositReserve,
	}
	#[derive(Clone, Debug, PartialEq, Eq)]
	pub struct Limits {
		pub event_topics: u32,
		pub memory_pages: u32,
		pub subject_len: u32,
		pub payload_len: u32,
		pub runtime_memory: u32,
		pub validator_runtime_memory: u32,
		pub event_ref_time: u64,
	}
	impl Default for Limits {
		fn default() -> Self {
			Self {
				event_topics: 4,
				memory_pages: 16,
				subject_len: 32,
				payload_len: 16 * 1024,
				runtime_memory: 128 * 1024 * 1024,
				validator_runtime_memory: 512 * 1024 * 1024,
				event_ref_time: 60_000,
			}
		}
	}
	#[derive(Clone, Debug)]
	pub struct InstructionWeights<T> {
		pub base: u32,
		pub _phantom: PhantomData<T>,
	}
	#[derive(Clone, Debug)]
	pub struct Schedule<T> {
		pub limits: Limits,
		pub instruction_weights: InstructionWeights<T>,
	}
	impl<T> Default for Schedule<T> {
		fn default() -> Self {
			Self { limits: Default::default(), instruction_weights: InstructionWeights { base: 1, _phantom: PhantomData } }
		}
	}
	pub struct Frame<T>(PhantomData<T>);
	pub struct DefaultAddressGenerator;
}
pub mod pallet_ranked_collective {
	use super::*;
	use frame_support::traits::{RankedMembers, VoteTally};
	use sp_runtime::{DispatchError, DispatchResult, Perbill};
	frame_system::stub_config! { WeightInfo, RuntimeEvent, AddOrigin, PromoteOrigin, RemoveOrigin, DemoteOrigin, ExchangeOrigin,
		MemberSwappedHandler, Polls, MinRankOfClass, MaxMemberCount, VoteWeight }
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_ranked_collective"; add_member, promote_member, demote_member, remove_member, vote,
		cleanup_poll, exchange_member }
	pub type Rank = u16;
	pub type Votes = u32;
	pub struct Linear;
	pub struct Unit;
	pub struct Geometric;
	pub struct Tally<T, I: 'static> {
		bare_ayes: u32,
		ayes: u32,
		nays: u32,
		_p: PhantomData<(T, I)>,
	}
	pub type TallyOf<T, I = ()> = Tally<T, I>;
	impl<T, I: 'static> Clone for Tally<T, I> {
		fn clone(&self) -> Self {
			Self { bare_ayes: self.bare_ayes, ayes: self.ayes, nays: self.nays, _p: PhantomData }
		}
	}
	impl<T, I: 'static> Encode for Tally<T, I> {
		fn encode(&self) -> Vec<u8> {
			(self.bare_ayes, self.ayes, self.nays).encode()
		}
	}
	impl<T, I: 'static> Decode for Tally<T, I> {
		fn decode<X: parity_scale_codec::Input>(x: &mut X) -> Result<Self, parity_scale_codec::Error> {
			let (bare_ayes, ayes, nays) = Decode::decode(x)?;
			Ok(Self { bare_ayes, ayes, nays, _p: PhantomData })
		}
	}
	impl<T, I: 'static, C> VoteTally<u32, C> for Tally<T, I> {
		fn new(_: C) -> Self {
			Self { bare_ayes: 0, ayes: 0, nays: 0, _p: PhantomData }
		}
		fn ayes(&self, _: C) -> u32 {
			self.bare_ayes
		}
		fn support(&self, _: C) -> Perbill {
			Perbill::from_rational(self.bare_ayes, 1.max(self.bare_ayes))
		}
		fn approval(&self, _: C) -> Perbill {
			Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
		}
	}
	impl<T: Config<I>, I: 'static> RankedMembers for Pallet<T, I> {
		type AccountId = T::AccountId;
		type Rank = u16;
		fn min_rank() -> u16 {
			0
		}
		fn rank_of(w: &T::AccountId) -> Option<u16> {
			kv::get(&(*b"rank", w).encode()).map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
		}
		fn induct(w: &T::AccountId) -> DispatchResult {
			if Self::rank_of(w).is_some() {
				return Err(DispatchError::Other("already in"));
			}
			kv::set(&(*b"rank", w).encode(), &0u16.encode());
			Ok(())
		}
		fn promote(w: &T::AccountId) -> DispatchResult {
			let r = Self::rank_of(w).ok_or(DispatchError::Other("not in"))?;
			kv::set(&(*b"rank", w).encode(), &(r + 1).encode());
			Ok(())
		}
		fn demote(w: &T::AccountId) -> DispatchResult {
			match Self::rank_of(w).ok_or(DispatchError::Other("not in"))? {
				0 => kv::clear(&(*b"rank", w).encode()),
				r => kv::set(&(*b"rank", w).encode(), &(r - 1).encode()),
			}
			Ok(())
		}
	}
}
pub mod pallet_referenda_tracks {
	use super::*;
	use frame_system::pallet_prelude::BlockNumberFor;
	use pallet_referenda::{BalanceOf, PalletsOriginOf, Track, TrackInfo, TracksInfo};
	use sp_runtime::{DispatchError, DispatchResult};
	use std::borrow::Cow;
	pub trait Config<I: 'static = ()>: pallet_referenda::Config<I> {
		type RuntimeEvent;
		type TrackId: Copy + frame_support::Parameter + sp_runtime::traits::Member + Ord + MaxEncodedLen;
		type MaxTracks;
		type AdminOrigin;
		type UpdateOrigin;
		type WeightInfo;
	}
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_referenda_tracks"; insert, update, remove }
	type InfoOf<T, I> = TrackInfo<BalanceOf<T, I>, BlockNumberFor<T>>;
	impl<T: Config<I>, I: 'static> Pallet<T, I>
	where
		BalanceOf<T, I>: Encode + Decode,
	{
		pub fn table() -> Vec<(T::TrackId, (InfoOf<T, I>, PalletsOriginOf<T>))> {
			let p = b"trck".encode();
			kv::keys_with_prefix(&p)
				.into_iter()
				.map(|k| {
					let v = kv::get(&k).expect("listed");
					(Decode::decode(&mut &k[p.len()..]).expect("own key"), Decode::decode(&mut &v[..]).expect("own value"))
				})
				.collect()
		}
	}
	impl<T: Config<I>, I: 'static> TracksInfo<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I>
	where
		BalanceOf<T, I>: Encode + Decode,
	{
		type Id = T::TrackId;
		type RuntimeOrigin = PalletsOriginOf<T>;
		fn tracks() -> impl Iterator<Item = Cow<'static, Track<T::TrackId, BalanceOf<T, I>, BlockNumberFor<T>>>> {
			Self::table().into_iter().map(|(id, (info, _))| Cow::Owned(Track { id, info }))
		}
		fn track_for(o: &PalletsOriginOf<T>) -> Result<T::TrackId, ()> {
			Self::table().into_iter().find(|(_, (_, x))| x == o).map(|x| x.0).ok_or(())
		}
	}
	impl<T: Config<I>, I: 'static> fc_traits_tracks::MutateTracks<BalanceOf<T, I>, BlockNumberFor<T>> for Pallet<T, I>
	where
		BalanceOf<T, I>: Encode + Decode,
	{
		fn insert(id: T::TrackId, info: InfoOf<T, I>, o: PalletsOriginOf<T>) -> DispatchResult {
			let k = (*b"trck", id).encode();
			if kv::exists(&k) {
				return Err(DispatchError::Other("track taken"));
			}
			kv::set(&k, &(info, o).encode());
			Ok(())
		}
		fn update(id: T::TrackId, info: InfoOf<T, I>) -> DispatchResult {
			let k = (*b"trck", id).encode();
			let o = Self::table().into_iter().find(|x| x.0 == id).ok_or(DispatchError::Other("no such track"))?.1 .1;
			kv::set(&k, &(info, o).encode());
			Ok(())
		}
		fn remove(id: T::TrackId, _: PalletsOriginOf<T>) -> DispatchResult {
			kv::clear(&(*b"trck", id).encode());
			Ok(())
		}
	}
}
pub mod pallet_pass {
	use super::*;
	use frame_support::traits::{EnsureOriginWithArg, OriginTrait};
	pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
		type RuntimeEvent;
		type RuntimeCall;
		type Currency: Currency<Self::AccountId>;
		type WeightInfo;
		type Authenticator;
		type PalletsOrigin;
		type PalletId;
		type MaxSessionDuration;
		type RegisterOrigin;
		type Scheduler;
	}
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_pass"; register, authenticate, add_device, remove_device, add_session_key, remove_session_key, dispatch }
	#[derive(Clone, Debug, PartialEq)]
	pub struct Deposit<A, B> {
		/// who pays, how much, and to whom
		pub source: A,
		pub amount: B,
		pub dest: A,
	}
	pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
	pub type DepositInformation<T, I = ()> = Deposit<<T as frame_system::Config>::AccountId, BalanceOf<T, I>>;
	pub struct EnsureSignedPays<T, A, D, I = ()>(PhantomData<(T, A, D, I)>);
	impl<O, T: Config<I>, A: Get<BalanceOf<T, I>>, D: Get<T::AccountId>, I: 'static, Arg> EnsureOriginWithArg<O, Arg> for EnsureSignedPays<T, A, D, I>
	where
		O: OriginTrait<AccountId = T::AccountId> + Clone,
	{
		type Success = Option<DepositInformation<T, I>>;
		fn try_origin(o: O, _: &Arg) -> Result<Self::Success, O> {
			match o.clone().into_signer() {
				Some(source) => Ok(Some(Deposit { source, amount: A::get(), dest: D::get() })),
				None => Err(o),
			}
		}
	}
	pub use crate::transactions::{session_account, set_session, ChargePass as ChargeTransactionToPassAccount};
}
pub mod cumulus_pallet_xcm {
	use super::*;
	frame_system::stub_config! { RuntimeEvent, XcmExecutor }
	frame_system::stub_instances! {}
	frame_system::stub_struct! {}
	frame_system::stub_call! { "cumulus_pallet_xcm"; }
	#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, MaxEncodedLen, scale_info::TypeInfo)]
	pub enum Origin {
		Relay,
		SiblingParachain(crate::primitives::ParaId),
	}
	impl From<crate::primitives::ParaId> for Origin {
		fn from(id: crate::primitives::ParaId) -> Self {
			Origin::SiblingParachain(id)
		}
	}
	impl From<u32> for Origin {
		fn from(id: u32) -> Self {
			Origin::SiblingParachain(id.into())
		}
	}
}
