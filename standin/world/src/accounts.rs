//! Native balances and assets: both over the monitored ledger.
use core::marker::PhantomData;
use doubles::ledger::{Ledger, LedgerConfig, Native};
use frame_support::traits::{tokens, Get};
use parity_scale_codec::{Decode, Encode};
use sp_io::storage as kv;
use sp_runtime::DispatchResult;

fn index_of<T: frame_system::ExtraConfig, P: 'static>() -> usize {
	<T::PalletInfo as frame_support::traits::PalletInfo>::index::<P>().unwrap_or(usize::MAX)
}

pub mod pallet_balances {
	use super::*;
	pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
		type MaxLocks;
		type Balance: tokens::Balance + sp_arithmetic::traits::CheckedAdd + sp_arithmetic::traits::CheckedSub;
		type RuntimeEvent;
		type DustRemoval;
		type ExistentialDeposit: Get<Self::Balance>;
		type AccountStore;
		type WeightInfo;
		type MaxReserves;
		type ReserveIdentifier;
		type RuntimeHoldReason: Encode + scale_info::TypeInfo + 'static;
		type FreezeIdentifier: Encode + scale_info::TypeInfo + 'static;
		type MaxFreezes;
		type RuntimeFreezeReason;
	}
	pub struct Book<T, I>(PhantomData<(T, I)>);
	impl<T: Config<I>, I: 'static> LedgerConfig for Book<T, I> {
		type AccountId = T::AccountId;
		type AssetId = u32;
		type Balance = T::Balance;
		type HoldReason = T::RuntimeHoldReason;
		type FreezeId = T::FreezeIdentifier;
		const NAME: &'static str = "native";
		fn minimum_balance(_: &u32) -> T::Balance {
			T::ExistentialDeposit::get()
		}
		fn native() -> u32 {
			0
		}
		fn pallet_index() -> usize {
			index_of::<T, Pallet<T, I>>()
		}
	}
	pub type Pallet<T, I = ()> = Native<Book<T, I>>;
	pub type NegativeImbalance<T, I = ()> = doubles::ledger::NegativeImbalance<Book<T, I>>;
	#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Encode, Decode)]
	pub struct AccountData<B> {
		pub free: B,
		pub reserved: B,
		pub frozen: B,
	}
	frame_system::stub_instances! {}
	frame_system::stub_weights! {}
	frame_system::stub_call! { "pallet_balances";
		transfer_allow_death, force_transfer, transfer_keep_alive, transfer_all, force_unreserve, upgrade_accounts,
		force_set_balance, force_adjust_total_issuance, burn
	}
}

pub mod pallet_assets {
	use super::*;
	use frame_support::traits::fungible;
	use sp_weights::Weight;
	pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
		type RuntimeEvent;
		type Balance: tokens::Balance + sp_arithmetic::traits::CheckedAdd + sp_arithmetic::traits::CheckedSub;
		type AssetId: tokens::AssetId;
		type AssetIdParameter;
		type Currency;
		type CreateOrigin;
		type ForceOrigin;
		type AssetDeposit;
		type MetadataDepositBase;
		type MetadataDepositPerByte;
		type ApprovalDeposit;
		type StringLimit;
		type Freezer;
		type Extra;
		type WeightInfo;
		type CallbackHandle;
		type AssetAccountDeposit;
		type RemoveItemsLimit;
		type MaxHolds;
		type RuntimeHoldReason: Encode + scale_info::TypeInfo + 'static;
	}
	fn key<A: Encode>(a: &A) -> Vec<u8> {
		(*b"asset-details", a).encode()
	}
	pub struct Book<T, I>(PhantomData<(T, I)>);
	impl<T: Config<I>, I: 'static> LedgerConfig for Book<T, I> {
		type AccountId = T::AccountId;
		type AssetId = T::AssetId;
		type Balance = T::Balance;
		type HoldReason = T::RuntimeHoldReason;
		type FreezeId = ();
		const NAME: &'static str = "assets";
		fn minimum_balance(a: &T::AssetId) -> T::Balance {
			details::<T, I>(a).unwrap_or_default()
		}
		fn asset_exists(a: &T::AssetId) -> bool {
			kv::exists(&key(a))
		}
		fn native() -> T::AssetId {
			unreachable!("no native asset among the assets")
		}
		fn pallet_index() -> usize {
			index_of::<T, Pallet<T, I>>()
		}
		fn create(id: T::AssetId, _admin: T::AccountId, _s: bool, min: T::Balance) -> DispatchResult {
			if Self::asset_exists(&id) {
				return Err(sp_runtime::DispatchError::Other("InUse"));
			}
			kv::set(&key(&id), &min.encode());
			Ok(())
		}
	}
	pub(super) fn details<T: Config<I>, I: 'static>(a: &T::AssetId) -> Option<T::Balance> {
		kv::get(&key(a)).map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
	}
	pub type Pallet<T, I = ()> = Ledger<Book<T, I>>;
	frame_system::stub_instances! {}
	frame_system::stub_call! { "pallet_assets";
		create, force_create, start_destroy, destroy_accounts, destroy_approvals, finish_destroy, mint, burn, transfer,
		transfer_keep_alive, force_transfer, freeze, thaw, freeze_asset, thaw_asset, transfer_ownership, set_team,
		set_metadata, clear_metadata, force_set_metadata, force_clear_metadata, force_asset_status, approve_transfer,
		cancel_approval, force_cancel_approval, transfer_approved, touch, refund, set_min_balance, touch_other,
		refund_other, block, transfer_all
	}
	/// As many units of the asset as its minimum balance is worth of the native one's.
	pub struct BalanceToAssetBalance<F, T, Con, I = ()>(PhantomData<(F, T, Con, I)>);
	impl<F, T, Con, I> tokens::ConversionToAssetBalance<F::Balance, T::AssetId, T::Balance> for BalanceToAssetBalance<F, T, Con, I>
	where
		F: fungible::Inspect<T::AccountId>,
		T: Config<I>,
		I: 'static,
		Con: sp_runtime::traits::Convert<F::Balance, T::Balance>,
	{
		type Error = ();
		fn to_asset_balance(balance: F::Balance, asset: T::AssetId) -> Result<T::Balance, ()> {
			let min = details::<T, I>(&asset).ok_or(())?;
			let ed = Con::convert(F::minimum_balance());
			let b = Con::convert(balance);
			if ed == Default::default() {
				return Err(());
			}
			Ok(b * min / ed)
		}
	}
	pub mod weights {
		pub struct SubstrateWeight<T>(core::marker::PhantomData<T>);
	}
	pub trait WeightInfo {
		fn create() -> Weight;
		fn force_create() -> Weight;
		fn start_destroy() -> Weight;
		fn destroy_accounts(c: u32) -> Weight;
		fn destroy_approvals(a: u32) -> Weight;
		fn finish_destroy() -> Weight;
		fn mint() -> Weight;
		fn burn() -> Weight;
		fn transfer() -> Weight;
		fn transfer_keep_alive() -> Weight;
		fn force_transfer() -> Weight;
		fn freeze() -> Weight;
		fn thaw() -> Weight;
		fn freeze_asset() -> Weight;
		fn thaw_asset() -> Weight;
		fn transfer_ownership() -> Weight;
		fn set_team() -> Weight;
		fn set_metadata(n: u32, s: u32) -> Weight;
		fn clear_metadata() -> Weight;
		fn force_set_metadata(n: u32, s: u32) -> Weight;
		fn force_clear_metadata() -> Weight;
		fn force_asset_status() -> Weight;
		fn approve_transfer() -> Weight;
		fn transfer_approved() -> Weight;
		fn cancel_approval() -> Weight;
		fn force_cancel_approval() -> Weight;
		fn set_min_balance() -> Weight;
		fn touch() -> Weight;
		fn touch_other() -> Weight;
		fn refund() -> Weight;
		fn refund_other() -> Weight;
		fn block() -> Weight;
		fn transfer_all() -> Weight;
	}
}

pub mod pallet_assets_freezer {
	use super::*;
	pub trait Config<I: 'static = ()>: super::pallet_assets::Config<I> {
		type RuntimeEvent;
		type RuntimeFreezeReason: Encode + scale_info::TypeInfo + 'static;
	}
	/// The same accounts as those of the assets pallet.
	pub struct Book<T, I>(PhantomData<(T, I)>);
	impl<T: Config<I>, I: 'static> LedgerConfig for Book<T, I> {
		type AccountId = T::AccountId;
		type AssetId = T::AssetId;
		type Balance = T::Balance;
		type HoldReason = <T as super::pallet_assets::Config<I>>::RuntimeHoldReason;
		type FreezeId = T::RuntimeFreezeReason;
		const NAME: &'static str = "assets";
		fn minimum_balance(a: &T::AssetId) -> T::Balance {
			super::pallet_assets::details::<T, I>(a).unwrap_or_default()
		}
		fn asset_exists(a: &T::AssetId) -> bool {
			super::pallet_assets::Book::<T, I>::asset_exists(a)
		}
		fn native() -> T::AssetId {
			unreachable!("no native asset among the assets")
		}
		fn pallet_index() -> usize {
			index_of::<T, Pallet<T, I>>()
		}
	}
	pub type Pallet<T, I = ()> = Ledger<Book<T, I>>;
	frame_system::stub_instances! {}
}
