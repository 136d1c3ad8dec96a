//! A runtime around the payments pallet, with monitored doubles for everything it talks to.
use core::cell::{Cell, RefCell};
use doubles::{ledger::LedgerConfig, scheduler::SchedulerConfig};
use frame_support::{
	traits::{ConstU32, Contains, EnsureOrigin},
	PalletId,
};
use frame_system::RawOrigin;
use pallet_payments::types::{AssetIdOf, BalanceOf, Fees};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::{traits::{BlakeTwo256, Get, LookupError, StaticLookup}, BoundedVec, DispatchError, Percent};

pub type AccountId = u64;
pub type Balance = u128;
pub type Block = u32;

frame_system::mini_runtime! {
	pub runtime Test, account u64;
	calls { System: frame_system::Call<Test> = 0, Payments: pallet_payments::Call<Test> = 20, }
	events { System: frame_system::Event<Test> = 0, Payments: pallet_payments::Event<Test> = 20, }
	origins { }
}

/// Addresses are accounts plus this; anything lower names nobody.
pub const ADDR: u64 = 10_000;
pub struct Shifted;
impl StaticLookup for Shifted {
	type Source = u64;
	type Target = u64;
	fn lookup(s: u64) -> Result<u64, LookupError> {
		s.checked_sub(ADDR).ok_or(LookupError)
	}
	fn unlookup(t: u64) -> u64 {
		t + ADDR
	}
}
pub struct All;
impl<T> Contains<T> for All {
	fn contains(_: &T) -> bool {
		true
	}
}
impl frame_system::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type BaseCallFilter = All;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type BlockNumber = Block;
	type Hash = sp_core::H256;
	type Hashing = BlakeTwo256;
	type AccountId = AccountId;
	type Lookup = Shifted;
	type BlockHashCount = ConstU32<250>;
	type DbWeight = ();
}

#[derive(Encode, Decode, Clone, Copy, Debug, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub enum Reason {
	Payments(pallet_payments::HoldReason),
	Foreign,
}
impl From<pallet_payments::HoldReason> for Reason {
	fn from(r: pallet_payments::HoldReason) -> Self {
		Reason::Payments(r)
	}
}

thread_local! {
	/// counts down ledger operations; reaching zero makes one fail
	pub static FAULT: Cell<Option<u32>> = const { Cell::new(None) };
	pub static FAULTED: Cell<bool> = const { Cell::new(false) };
	pub static NEXT_ID: Cell<Option<u64>> = const { Cell::new(None) };
	pub static INCENTIVE: Cell<u8> = const { Cell::new(10) };
	pub static BUFFER: Cell<u32> = const { Cell::new(10) };
	pub static FEES: RefCell<FeePlan> = RefCell::new(FeePlan::default());
}
pub fn fault_here() -> Result<(), DispatchError> {
	FAULT.with(|f| match f.get() {
		Some(0) => {
			f.set(None);
			FAULTED.with(|x| x.set(true));
			Err(DispatchError::Other("injected"))
		}
		Some(n) => {
			f.set(Some(n - 1));
			Ok(())
		}
		None => Ok(()),
	})
}

pub struct Cfg;
impl LedgerConfig for Cfg {
	type AccountId = AccountId;
	type AssetId = u32;
	type Balance = Balance;
	type HoldReason = Reason;
	type FreezeId = ();
	const NAME: &'static str = "assets";
	fn minimum_balance(_: &u32) -> Balance {
		1
	}
	fn asset_exists(a: &u32) -> bool {
		*a < 3
	}
	fn native() -> u32 {
		0
	}
	fn fault(_op: &'static str) -> Result<(), DispatchError> {
		fault_here()
	}
}
pub type Assets = doubles::Ledger<Cfg>;
impl SchedulerConfig for Cfg {
	type BlockNumber = Block;
	type Call = RuntimeCall;
	type Origin = OriginCaller;
	fn now() -> Block {
		frame_system::Pallet::<Test>::block_number()
	}
	fn fault(_op: &'static str) -> Result<(), DispatchError> {
		fault_here()
	}
}
pub type Scheduler = doubles::scheduler::Scheduler<Cfg>;

/// What the fee handler quotes. It depends on every argument it is given.
#[derive(Clone, Debug, Default)]
pub struct FeePlan {
	pub sender: Vec<(u64, Quote, bool)>,
	pub beneficiary: Vec<(u64, Quote, bool)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quote {
	Fixed(u128),
	Percent(u8),
	/// one, and as much as the first byte, when there is a remark
	Remark,
	/// only when the sender is this account
	IfSender(u64, u128),
	/// only when the beneficiary is this account
	IfBeneficiary(u64, u128),
	IfAsset(u32, u128),
}
pub fn floor(percent: u8, amount: u128) -> u128 {
	let p = percent.min(100) as u128;
	(amount / 100) * p + (amount % 100) * p / 100
}
impl FeePlan {
	pub fn quote(list: &[(u64, Quote, bool)], asset: u32, s: u64, b: u64, amount: u128, remark: Option<&[u8]>) -> Vec<(u64, u128, bool)> {
		list.iter()
			.map(|(who, q, m)| {
				let v = match *q {
					Quote::Fixed(v) => v,
					Quote::Percent(p) => floor(p, amount),
					Quote::Remark => remark.map_or(0, |r| 1 + r.first().copied().unwrap_or(0) as u128),
					Quote::IfSender(x, v) => if x == s { v } else { 0 },
					Quote::IfBeneficiary(x, v) => if x == b { v } else { 0 },
					Quote::IfAsset(x, v) => if x == asset { v } else { 0 },
				};
				(*who, v, *m)
			})
			.collect()
	}
}
pub struct Handler;
impl pallet_payments::types::FeeHandler<Test> for Handler {
	fn apply_fees(asset: &AssetIdOf<Test>, s: &u64, b: &u64, amount: &BalanceOf<Test>, remark: Option<&[u8]>) -> Fees<Test> {
		FEES.with(|f| {
			let f = f.borrow();
			let q = |l| BoundedVec::try_from(FeePlan::quote(l, *asset, *s, *b, *amount, remark)).unwrap_or_default();
			Fees { sender_pays: q(&f.sender), beneficiary_pays: q(&f.beneficiary) }
		})
	}
}

#[derive(Encode, Decode, Clone, Copy, Debug, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub struct Id(pub u64);
impl pallet_payments::PaymentId<Test> for Id {
	fn next(_: &u64, _: &u64) -> Option<Self> {
		NEXT_ID.with(|n| n.get().map(Id))
	}
}

/// Signed, but not by this one.
pub struct SignedExcept<const X: u64>;
impl<const X: u64> EnsureOrigin<RuntimeOrigin> for SignedExcept<X> {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		match o.caller.clone() {
			OriginCaller::system(RawOrigin::Signed(w)) if w != X => Ok(w),
			_ => Err(o),
		}
	}
}
pub const NO_SENDER: u64 = 66;
pub const NO_BENEFICIARY: u64 = 67;
pub const ROOT_RESOLVER: u64 = 90;
pub const RESOLVER: u64 = 91;
pub const RESOLVER2: u64 = 92;
pub struct Resolver;
impl EnsureOrigin<RuntimeOrigin> for Resolver {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		match o.caller.clone() {
			OriginCaller::system(RawOrigin::Root) => Ok(ROOT_RESOLVER),
			OriginCaller::system(RawOrigin::Signed(w)) if w == RESOLVER || w == RESOLVER2 => Ok(w),
			_ => Err(o),
		}
	}
}
pub struct Incentive;
impl Get<Percent> for Incentive {
	fn get() -> Percent {
		Percent::from_percent(INCENTIVE.with(|i| i.get()))
	}
}
pub struct Buffer;
impl Get<u32> for Buffer {
	fn get() -> u32 {
		BUFFER.with(|i| i.get())
	}
}
pub struct Pid;
impl Get<PalletId> for Pid {
	fn get() -> PalletId {
		PalletId(*b"payments")
	}
}
impl pallet_payments::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type PalletsOrigin = OriginCaller;
	type RuntimeCall = RuntimeCall;
	type Assets = Assets;
	type AssetsBalance = Balance;
	type FeeHandler = Handler;
	type SenderOrigin = SignedExcept<NO_SENDER>;
	type BeneficiaryOrigin = SignedExcept<NO_BENEFICIARY>;
	type DisputeResolver = Resolver;
	type PaymentId = Id;
	type Scheduler = Scheduler;
	type Preimages = doubles::scheduler::Preimages;
	type RuntimeHoldReason = Reason;
	type WeightInfo = ();
	type PalletId = Pid;
	type IncentivePercentage = Incentive;
	type MaxRemarkLength = ConstU32<50>;
	type MaxFees = ConstU32<8>;
	type MaxDiscounts = ConstU32<8>;
	type CancelBufferBlockLength = Buffer;
}
