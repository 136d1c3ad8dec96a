//! Stand-in for `frame-system`.
extern crate self as frame_system;

pub use frame_support::dispatch::RawOrigin;
use core::marker::PhantomData;
use frame_support::traits::{EnsureOrigin, Get};
pub use pallet::*;
mod runtime;
pub mod stub;
pub mod limits;
pub mod tx;
#[doc(hidden)]
pub use {frame_support as __fs, parity_scale_codec as __codec, scale_info as __info};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}

/// The part of a real system configuration that nothing here depends on.
pub trait ExtraConfig: Config {
	type Block;
	type Version;
	type PalletInfo: frame_support::traits::PalletInfo;
	type AccountData;
	type OnNewAccount;
	type OnKilledAccount;
	type SystemWeightInfo;
	type ExtensionsWeightInfo;
	type BlockWeights;
	type BlockLength;
	type SS58Prefix;
	type OnSetCode;
	type MaxConsumers;
	type RuntimeTask;
	type SingleBlockMigrations;
	type MultiBlockMigrator;
	type PreInherents;
	type PostInherents;
	type PostTransactions;
}
pub trait DefaultConfig {}
pub mod config_preludes {
	pub struct ParaChainDefaultConfig;
	pub struct SolochainDefaultConfig;
	pub struct RelayChainDefaultConfig;
	pub struct TestDefaultConfig;
}
macro_rules! extensions { ($($n:ident)*) => { $(
	pub struct $n<T>(PhantomData<T>);
	impl<T> $n<T> { pub fn new() -> Self { Self(PhantomData) } }
)* } }
extensions!(CheckNonZeroSender CheckSpecVersion CheckTxVersion CheckGenesis CheckMortality CheckNonce CheckWeight ChainContext);

pub type CheckEra<T> = CheckMortality<T>;
pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;

#[frame_support::pallet]
pub mod pallet {
	use crate::{DecRefStatus, IncRefStatus};
	use crate::pallet_prelude::*;
	use frame_support::{
		pallet_prelude::*,
		traits::{Contains, OriginTrait},
		weights::RuntimeDbWeight,
		Parameter,
	};
	use sp_runtime::traits::{AtLeast32BitUnsigned, Dispatchable, Hash, MaybeDisplay, StaticLookup};

	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type RuntimeEvent: Parameter0 + From<Event<Self>>;
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type RuntimeOrigin: Into<Result<crate::RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<crate::RawOrigin<Self::AccountId>>
			+ Clone
			+ core::fmt::Debug
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + From<Call<Self>>;
		type Nonce: Parameter + Member + AtLeast32BitUnsigned + Copy + Default + MaxEncodedLen;
		type BlockNumber: Parameter
			+ Member
			+ AtLeast32BitUnsigned
			+ Copy
			+ Default
			+ MaxEncodedLen
			+ MaybeDisplay
			+ TryFrom<u64>
			+ Into<u64>;
		type Hash: Parameter + Member + Copy + Default + AsRef<[u8]> + MaxEncodedLen + Ord + From<[u8; 32]>;
		type Hashing: Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + MaxEncodedLen + Ord;
		type Lookup: StaticLookup<Target = Self::AccountId>;
		#[pallet::constant]
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		#[pallet::constant]
		type DbWeight: Get<RuntimeDbWeight>;
	}
	/// What events must be able to do here.
	pub trait Parameter0: parity_scale_codec::FullCodec + Clone + PartialEq + core::fmt::Debug + 'static {}
	impl<T: parity_scale_codec::FullCodec + Clone + PartialEq + core::fmt::Debug + 'static> Parameter0 for T {}

	#[pallet::pallet]
	pub struct Pallet<T>(_);

	#[pallet::storage]
	pub type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	pub type ExtrinsicIndex<T: Config> = StorageValue<_, u32, OptionQuery>;
	#[pallet::storage]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub type Providers<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, u32, ValueQuery>;
	#[pallet::storage]
	pub type Consumers<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, u32, ValueQuery>;
	#[pallet::storage]
	pub type Nonces<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, T::Nonce, ValueQuery>;
	#[pallet::storage]
	pub type EventLog<T: Config> = StorageValue<_, Vec<T::RuntimeEvent>, ValueQuery>;

	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess,
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		FailedToExtractRuntimeVersion,
		CallFiltered,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		pub fn remark(_origin: OriginFor<T>, _remark: Vec<u8>) -> DispatchResultWithPostInfo {
			Ok(().into())
		}
		#[pallet::call_index(4)]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			crate::ensure_root(origin)?;
			for (k, v) in &items {
				frame_support::storage::unhashed::put(&[&b"raw"[..], k].concat(), v);
			}
			Ok(().into())
		}
		#[pallet::call_index(7)]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = crate::ensure_signed(origin)?;
			let hash = T::Hashing::hash(&remark[..]);
			Self::deposit_event(Event::<T>::Remarked { sender: who, hash });
			Ok(().into())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn deposit_event(e: impl Into<T::RuntimeEvent>) {
			let e = e.into();
			EventLog::<T>::mutate(|l| l.push(e));
		}
		pub fn events() -> Vec<T::RuntimeEvent> {
			EventLog::<T>::get()
		}
		pub fn take_events() -> Vec<T::RuntimeEvent> {
			EventLog::<T>::take()
		}
		pub fn block_number() -> BlockNumberFor<T> {
			Number::<T>::get()
		}
		pub fn set_block_number(n: BlockNumberFor<T>) {
			Number::<T>::put(n)
		}
		pub fn current_block_number() -> BlockNumberFor<T> {
			Number::<T>::get()
		}
		pub fn extrinsic_index() -> Option<u32> {
			ExtrinsicIndex::<T>::get()
		}
		pub fn set_extrinsic_index(i: u32) {
			ExtrinsicIndex::<T>::put(i)
		}
		pub fn block_hash(n: impl parity_scale_codec::EncodeLike<BlockNumberFor<T>>) -> T::Hash {
			BlockHash::<T>::get(n)
		}
		pub fn set_block_hash(n: BlockNumberFor<T>, h: T::Hash) {
			BlockHash::<T>::insert(n, h)
		}
		pub fn parent_hash() -> T::Hash {
			ParentHash::<T>::get()
		}
		pub fn account_nonce(who: impl parity_scale_codec::EncodeLike<T::AccountId>) -> T::Nonce {
			Nonces::<T>::get(who)
		}
		pub fn inc_account_nonce(who: &T::AccountId) {
			Nonces::<T>::mutate(who, |n| *n += 1u8.into())
		}
		pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
			Providers::<T>::mutate(who, |p| {
				*p = p.saturating_add(1);
				if *p == 1 { IncRefStatus::Created } else { IncRefStatus::Existed }
			})
		}
		pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, frame_support::pallet_prelude::DispatchError> {
			Providers::<T>::mutate(who, |p| {
				*p = p.saturating_sub(1);
				Ok(if *p == 0 { DecRefStatus::Reaped } else { DecRefStatus::Exists })
			})
		}
		pub fn providers(who: &T::AccountId) -> u32 {
			Providers::<T>::get(who)
		}
		pub fn account_exists(who: &T::AccountId) -> bool {
			Providers::<T>::get(who) > 0
		}
		pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
			Self::inc_providers(who)
		}
		pub fn dec_sufficients(who: &T::AccountId) -> DecRefStatus {
			Self::dec_providers(who).unwrap_or(DecRefStatus::Exists)
		}
		pub fn inc_consumers(who: &T::AccountId) -> Result<(), frame_support::pallet_prelude::DispatchError> {
			if !Self::account_exists(who) {
				return Err(frame_support::pallet_prelude::DispatchError::NoProviders);
			}
			Consumers::<T>::mutate(who, |p| *p = p.saturating_add(1));
			Ok(())
		}
		pub fn dec_consumers(who: &T::AccountId) {
			Consumers::<T>::mutate(who, |p| *p = p.saturating_sub(1))
		}
		pub fn consumers(who: &T::AccountId) -> u32 {
			Consumers::<T>::get(who)
		}
		pub fn can_inc_consumer(who: &T::AccountId) -> bool {
			Self::account_exists(who)
		}
		pub fn reference_count(who: &T::AccountId) -> u32 {
			Self::providers(who).saturating_add(Self::consumers(who))
		}
		pub fn reset_events() {
			EventLog::<T>::kill()
		}
	}
}

pub mod pallet_prelude {
	pub use crate::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root};
	pub type OriginFor<T> = <T as crate::Config>::RuntimeOrigin;
	pub type BlockNumberFor<T> = <T as crate::Config>::BlockNumber;
	pub type RuntimeCallFor<T> = <T as crate::Config>::RuntimeCall;
}

use sp_runtime::traits::BadOrigin;
pub fn ensure_signed<O, A>(o: O) -> Result<A, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O, A>(o: O) -> Result<(), BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O, A>(o: O) -> Result<Option<A>, BadOrigin>
where
	O: Into<Result<RawOrigin<A>, O>>,
{
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		Ok(RawOrigin::Root) => Ok(None),
		_ => Err(BadOrigin),
	}
}

pub struct EnsureRoot<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureRootWithSuccess<AccountId, Success>(PhantomData<(AccountId, Success)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: frame_support::traits::TypedGet> EnsureOrigin<O>
	for EnsureRootWithSuccess<A, S>
{
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(S::get()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(who) => Ok(who),
			r => Err(O::from(r)),
		})
	}
}
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, Arg> frame_support::traits::EnsureOriginWithArg<O, Arg> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O, _: &Arg) -> Result<A, O> {
		<Self as EnsureOrigin<O>>::try_origin(o)
	}
}
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, Arg> frame_support::traits::EnsureOriginWithArg<O, Arg> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O, _: &Arg) -> Result<(), O> {
		<Self as EnsureOrigin<O>>::try_origin(o)
	}
}
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: frame_support::traits::TypedGet, Arg>
	frame_support::traits::EnsureOriginWithArg<O, Arg> for EnsureRootWithSuccess<A, S>
{
	type Success = S::Type;
	fn try_origin(o: O, _: &Arg) -> Result<S::Type, O> {
		<Self as EnsureOrigin<O>>::try_origin(o)
	}
}
pub struct EnsureSignedBy<Who, AccountId>(PhantomData<(Who, AccountId)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A: Ord, W: frame_support::traits::Contains<A>> EnsureOrigin<O>
	for EnsureSignedBy<W, A>
{
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(who) if W::contains(&who) => Ok(who),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<AccountId>(PhantomData<AccountId>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<Success>(PhantomData<Success>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
impl<O, A, S> frame_support::traits::EnsureOriginWithArg<O, A> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O, _: &A) -> Result<S, O> {
		Err(o)
	}
}
#[allow(unused)]
fn _g<T: Get<u8>>() {}
