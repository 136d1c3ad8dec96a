//! A runtime around the communities pallets, with monitored doubles for everything they talk to.
use core::cell::Cell;
use doubles::ledger::LedgerConfig;
use fc_traits_memberships::GenericRank;
use frame_support::{
	traits::{tokens::nonfungibles_v2, ConstU32, Contains, EnsureOrigin, PollStatus, Polling, RankedMembers},
	PalletId,
};
use frame_system::RawOrigin;
use pallet_communities::{origin::EnsureCommunity, types::Tally};
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_io::storage as kv;
use sp_runtime::{
	traits::{BlakeTwo256, Get, LookupError, StaticLookup},
	AccountId32, DispatchError, DispatchResult,
};
use std::borrow::Cow;

pub type AccountId = AccountId32;
pub type Balance = u128;
pub type Block = u32;
pub type CommunityId = u16;
pub type MembershipId = u32;

frame_system::mini_runtime! {
	pub runtime Test, account AccountId32;
	calls {
		System: frame_system::Call<Test> = 0,
		Probe: probe::Call<Test> = 1,
		Communities: pallet_communities::Call<Test> = 71,
		Manager: pallet_communities_manager::Call<Test> = 75,
	}
	events {
		System: frame_system::Event<Test> = 0,
		Communities: pallet_communities::Event<Test> = 71,
		Manager: pallet_communities_manager::Event<Test> = 75,
	}
	origins { Communities: pallet_communities::Origin<Test> = 71, }
}

/// Writes down who called it.
#[frame_support::pallet]
pub mod probe {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	/// (caller's account if signed, whether root, tag)
	#[pallet::storage]
	pub type Seen<T: Config> = StorageValue<_, Vec<(Option<T::AccountId>, bool, u32)>, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::from_parts(1_000 + *tag as u64, 7), if *tag % 5 == 3 { DispatchClass::Operational } else { DispatchClass::Normal }))]
		pub fn note(origin: OriginFor<T>, tag: u32, fail: bool) -> DispatchResultWithPostInfo {
			let (who, root) = match origin.into() {
				Ok(frame_system::RawOrigin::Signed(w)) => (Some(w), false),
				Ok(frame_system::RawOrigin::Root) => (None, true),
				_ => (None, false),
			};
			Seen::<T>::mutate(|s| s.push((who, root, tag)));
			if fail {
				return Err(DispatchError::Other("asked to fail").into());
			}
			Ok(().into())
		}
		/// no ordinary account may call this
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(5, 5))]
		pub fn closed(_origin: OriginFor<T>, tag: u32) -> DispatchResultWithPostInfo {
			Seen::<T>::mutate(|s| s.push((None, true, tag)));
			Ok(().into())
		}
	}
}
impl probe::Config for Test {}

/// Accounts by number: people below 100, community accounts from 100 on.
pub fn person(n: u8) -> AccountId {
	AccountId32::new([n + 1; 32])
}
pub const IDS: [CommunityId; 6] = [1, 2, 3, 257, 65535, 0];
pub fn home(c: CommunityId) -> AccountId {
	pallet_communities::Pallet::<Test>::community_account(&c)
}
pub fn account(n: u64) -> AccountId {
	if n < 100 {
		person(n as u8)
	} else {
		home(IDS[(n - 100) as usize % IDS.len()])
	}
}
pub const ADDR: u64 = 10_000;
pub struct Shifted;
impl StaticLookup for Shifted {
	type Source = u64;
	type Target = AccountId;
	fn lookup(s: u64) -> Result<AccountId, LookupError> {
		s.checked_sub(ADDR).map(account).ok_or(LookupError)
	}
	fn unlookup(_: AccountId) -> u64 {
		0
	}
}
pub struct Open;
impl Contains<RuntimeCall> for Open {
	fn contains(c: &RuntimeCall) -> bool {
		!matches!(c, RuntimeCall::Probe(probe::Call::closed { .. }))
	}
}
impl frame_system::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type BaseCallFilter = Open;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeCall = RuntimeCall;
	type Nonce = u32;
	type BlockNumber = Block;
	type Hash = sp_core::H256;
	type Hashing = BlakeTwo256;
	type AccountId = AccountId;
	type Lookup = Shifted;
	type BlockHashCount = ConstU32<250>;
	type DbWeight = ();
}

#[derive(Encode, Decode, Clone, Copy, Debug, PartialEq, Eq, TypeInfo, MaxEncodedLen)]
pub enum Reason {
	Communities(pallet_communities::FreezeReason),
	Foreign,
}
impl From<pallet_communities::FreezeReason> for Reason {
	fn from(r: pallet_communities::FreezeReason) -> Self {
		Reason::Communities(r)
	}
}

thread_local! {
	/// counts down operations of the doubles; reaching zero makes one fail
	pub static FAULT: Cell<Option<u32>> = const { Cell::new(None) };
	pub static FAULTED: Cell<bool> = const { Cell::new(false) };
	pub static DEPOSIT: Cell<Balance> = const { Cell::new(0) };
	/// whether admin and member management origins let anyone through
	pub static GATES: Cell<(bool, bool)> = const { Cell::new((true, true)) };
}
pub fn fault_here() -> Result<(), DispatchError> {
	FAULT.with(|f| match f.get() {
		Some(0) => {
			f.set(None);
			FAULTED.with(|x| x.set(true));
			Err(DispatchError::Other("injected"))
		}
		Some(n) => {
			f.set(Some(n - 1));
			Ok(())
		}
		None => Ok(()),
	})
}

pub struct Cfg;
impl LedgerConfig for Cfg {
	type AccountId = AccountId;
	type AssetId = u32;
	type Balance = Balance;
	type HoldReason = ();
	type FreezeId = Reason;
	const NAME: &'static str = "assets";
	fn minimum_balance(_: &u32) -> Balance {
		1
	}
	fn asset_exists(a: &u32) -> bool {
		*a < 4
	}
	fn native() -> u32 {
		0
	}
	fn fault(_op: &'static str) -> Result<(), DispatchError> {
		fault_here()
	}
}
pub type Assets = doubles::Ledger<Cfg>;
pub type Native = doubles::ledger::Native<Cfg>;

fn get<T: Decode>(k: impl Encode) -> Option<T> {
	kv::get(&k.encode()).map(|v| T::decode(&mut &v[..]).expect("own encoding"))
}
fn put(k: impl Encode, v: impl Encode) {
	kv::set(&k.encode(), &v.encode())
}
fn all<K: Decode, V: Decode>(tag: [u8; 4]) -> Vec<(K, V)> {
	let p = tag.encode();
	kv::keys_with_prefix(&p)
		.into_iter()
		.map(|k| {
			let key = K::decode(&mut &k[p.len()..]).expect("own key");
			let v = kv::get(&k).expect("listed");
			(key, V::decode(&mut &v[..]).expect("own value"))
		})
		.collect()
}

// ---- memberships

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, Hash)]
pub struct Membership {
	pub group: CommunityId,
	/// nobody: still in the stock of the community
	pub holder: Option<AccountId>,
	pub rank: u8,
}
pub struct Memberships;
impl Memberships {
	pub fn at(m: MembershipId) -> Option<Membership> {
		get((*b"memb", m))
	}
	pub fn set(m: MembershipId, v: Membership) {
		put((*b"memb", m), v)
	}
	pub fn table() -> Vec<(MembershipId, Membership)> {
		all(*b"memb")
	}
}
type Listing = Box<dyn Iterator<Item = (CommunityId, MembershipId)>>;
impl fc_traits_memberships::Inspect<AccountId> for Memberships {
	type Group = CommunityId;
	type Membership = MembershipId;
	fn user_memberships(who: &AccountId, g: Option<CommunityId>) -> Listing {
		let mut v: Vec<_> = Self::table()
			.into_iter()
			.filter_map(|(m, x)| match &x.holder {
				Some(h) if h == who && g.map_or(true, |g| g == x.group) => Some((x.group, m)),
				None if g.is_none() && home(x.group) == *who => Some((0, m)),
				_ => None,
			})
			.collect();
		v.sort();
		Box::new(v.into_iter())
	}
	fn is_member_of(g: &CommunityId, who: &AccountId) -> bool {
		Self::table().iter().any(|(_, x)| x.group == *g && x.holder.as_ref() == Some(who))
	}
	fn check_membership(who: &AccountId, m: &MembershipId) -> Option<CommunityId> {
		Self::at(*m).filter(|x| x.holder.as_ref() == Some(who)).map(|x| x.group)
	}
	fn members_total(g: &CommunityId) -> u32 {
		Self::table().iter().filter(|(_, x)| x.group == *g && x.holder.is_some()).count() as u32
	}
}
const UNKNOWN: DispatchError = DispatchError::Other("unknown membership");
impl fc_traits_memberships::Manager<AccountId, pallet_nfts::ItemConfig> for Memberships {
	fn assign(g: &CommunityId, m: &MembershipId, who: &AccountId) -> Result<(), DispatchError> {
		fault_here()?;
		match Self::at(*m) {
			Some(x) if x.group == *g && x.holder.is_none() => {
				Self::set(*m, Membership { holder: Some(who.clone()), rank: 0, ..x });
				Ok(())
			}
			_ => Err(UNKNOWN),
		}
	}
	fn release(g: &CommunityId, m: &MembershipId) -> Result<(), DispatchError> {
		fault_here()?;
		match Self::at(*m) {
			Some(x) if x.group == *g && x.holder.is_some() => {
				Self::set(*m, Membership { holder: None, rank: 0, ..x });
				Ok(())
			}
			_ => Err(UNKNOWN),
		}
	}
}
impl fc_traits_memberships::Rank<AccountId, pallet_nfts::ItemConfig> for Memberships {
	fn rank_of(g: &CommunityId, m: &MembershipId) -> Option<GenericRank> {
		Self::at(*m).filter(|x| x.group == *g && x.holder.is_some()).map(|x| GenericRank(x.rank))
	}
	fn set_rank(g: &CommunityId, m: &MembershipId, rank: impl Into<GenericRank>) -> DispatchResult {
		fault_here()?;
		match Self::at(*m) {
			Some(x) if x.group == *g && x.holder.is_some() => {
				Self::set(*m, Membership { rank: rank.into().0, ..x });
				Ok(())
			}
			_ => Err(UNKNOWN),
		}
	}
	fn ranks_total(g: &CommunityId) -> u32 {
		Self::table().iter().filter(|(_, x)| x.group == *g && x.holder.is_some()).map(|(_, x)| x.rank as u32).sum()
	}
}

// ---- polls

#[derive(Clone, Encode, Decode)]
pub enum Poll {
	Ongoing(CommunityId, Tally<Test>),
	Completed(Block, bool),
}
pub struct Polls;
impl Polls {
	pub fn at(i: u32) -> Option<Poll> {
		get((*b"poll", i))
	}
	pub fn set(i: u32, p: Poll) {
		put((*b"poll", i), p)
	}
}
impl Polling<Tally<Test>> for Polls {
	type Index = u32;
	type Votes = u32;
	type Class = CommunityId;
	type Moment = Block;
	fn classes() -> Vec<CommunityId> {
		IDS.to_vec()
	}
	fn as_ongoing(i: u32) -> Option<(Tally<Test>, CommunityId)> {
		match Self::at(i) {
			Some(Poll::Ongoing(c, t)) => Some((t, c)),
			_ => None,
		}
	}
	fn access_poll<R>(i: u32, f: impl FnOnce(PollStatus<&mut Tally<Test>, Block, CommunityId>) -> R) -> R {
		match Self::at(i) {
			Some(Poll::Ongoing(c, mut t)) => {
				let r = f(PollStatus::Ongoing(&mut t, c));
				Self::set(i, Poll::Ongoing(c, t));
				r
			}
			Some(Poll::Completed(b, ok)) => f(PollStatus::Completed(b, ok)),
			None => f(PollStatus::None),
		}
	}
	fn try_access_poll<R>(
		i: u32,
		f: impl FnOnce(PollStatus<&mut Tally<Test>, Block, CommunityId>) -> Result<R, DispatchError>,
	) -> Result<R, DispatchError> {
		match Self::at(i) {
			Some(Poll::Ongoing(c, mut t)) => {
				let r = f(PollStatus::Ongoing(&mut t, c))?;
				Self::set(i, Poll::Ongoing(c, t));
				Ok(r)
			}
			Some(Poll::Completed(b, ok)) => f(PollStatus::Completed(b, ok)),
			None => f(PollStatus::None),
		}
	}
}

// ---- collections, items, tracks and the collective

pub type CollectionConfig = pallet_nfts::CollectionConfig<Balance, Block, CommunityId>;
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Collection {
	pub owner: AccountId,
	pub admin: AccountId,
	pub config: CollectionConfig,
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Item {
	pub owner: AccountId,
	pub price: Option<Balance>,
	pub buyer: Option<AccountId>,
}
pub struct Nfts;
impl Nfts {
	pub fn collection(c: CommunityId) -> Option<Collection> {
		get((*b"coll", c))
	}
	pub fn set_collection(c: CommunityId, v: Collection) {
		put((*b"coll", c), v)
	}
	pub fn collections() -> Vec<(CommunityId, Collection)> {
		all(*b"coll")
	}
	pub fn item(c: CommunityId, i: MembershipId) -> Option<Item> {
		get((*b"item", c, i))
	}
	pub fn set_item(c: CommunityId, i: MembershipId, v: Item) {
		put((*b"item", c, i), v)
	}
	pub fn items() -> Vec<((CommunityId, MembershipId), Item)> {
		all(*b"item")
	}
}
impl nonfungibles_v2::Inspect<AccountId> for Nfts {
	type CollectionId = CommunityId;
	type ItemId = MembershipId;
	fn owner(c: &CommunityId, i: &MembershipId) -> Option<AccountId> {
		Self::item(*c, *i).map(|x| x.owner)
	}
}
impl nonfungibles_v2::Create<AccountId, CollectionConfig> for Nfts {
	fn create_collection(_: &AccountId, _: &AccountId, _: &CollectionConfig) -> Result<CommunityId, DispatchError> {
		Err(DispatchError::Other("ids are chosen"))
	}
	fn create_collection_with_id(c: CommunityId, who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> DispatchResult {
		fault_here()?;
		if Self::collection(c).is_some() {
			return Err(DispatchError::Other("collection taken"));
		}
		Self::set_collection(c, Collection { owner: who.clone(), admin: admin.clone(), config: *config });
		Ok(())
	}
}
impl nonfungibles_v2::Mutate<AccountId, pallet_nfts::ItemConfig> for Nfts {
	fn mint_into(c: &CommunityId, i: &MembershipId, who: &AccountId, _: &pallet_nfts::ItemConfig, _: bool) -> DispatchResult {
		fault_here()?;
		if Self::item(*c, *i).is_some() {
			return Err(DispatchError::Other("item taken"));
		}
		Self::set_item(*c, *i, Item { owner: who.clone(), price: None, buyer: None });
		Ok(())
	}
	fn burn(_: &CommunityId, _: &MembershipId, _: Option<&AccountId>) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
}
impl nonfungibles_v2::Trading<AccountId, Balance> for Nfts {
	fn buy_item(_: &CommunityId, _: &MembershipId, _: &AccountId, _: &Balance) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
	fn set_price(c: &CommunityId, i: &MembershipId, sender: &AccountId, price: Option<Balance>, buyer: Option<AccountId>) -> DispatchResult {
		fault_here()?;
		match Self::item(*c, *i) {
			Some(x) if x.owner == *sender => {
				Self::set_item(*c, *i, Item { price, buyer, ..x });
				Ok(())
			}
			_ => Err(DispatchError::Other("not the owner")),
		}
	}
	fn item_price(c: &CommunityId, i: &MembershipId) -> Option<Balance> {
		Self::item(*c, *i).and_then(|x| x.price)
	}
}

pub type TrackInfo = pallet_referenda::TrackInfo<Balance, Block>;
pub struct Tracks;
impl Tracks {
	pub fn table() -> Vec<(CommunityId, (TrackInfo, OriginCaller))> {
		all(*b"trck")
	}
	pub fn at(c: CommunityId) -> Option<(TrackInfo, OriginCaller)> {
		get((*b"trck", c))
	}
	pub fn set(c: CommunityId, v: (TrackInfo, OriginCaller)) {
		put((*b"trck", c), v)
	}
}
impl pallet_referenda::TracksInfo<Balance, Block> for Tracks {
	type Id = CommunityId;
	type RuntimeOrigin = OriginCaller;
	fn tracks() -> impl Iterator<Item = Cow<'static, pallet_referenda::Track<CommunityId, Balance, Block>>> {
		Self::table().into_iter().map(|(id, (info, _))| Cow::Owned(pallet_referenda::Track { id, info }))
	}
	fn track_for(o: &OriginCaller) -> Result<CommunityId, ()> {
		Self::table().into_iter().find(|(_, (_, x))| x == o).map(|x| x.0).ok_or(())
	}
}
impl fc_traits_tracks::MutateTracks<Balance, Block> for Tracks {
	fn insert(id: CommunityId, info: TrackInfo, o: OriginCaller) -> DispatchResult {
		fault_here()?;
		if Self::at(id).is_some() {
			return Err(DispatchError::Other("track taken"));
		}
		Self::set(id, (info, o));
		Ok(())
	}
	fn update(_: CommunityId, _: TrackInfo) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
	fn remove(_: CommunityId, _: OriginCaller) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
}
pub struct Collective;
impl Collective {
	pub fn table() -> Vec<(AccountId, u16)> {
		all(*b"rank")
	}
	pub fn set(w: &AccountId, r: u16) {
		put((*b"rank", w), r)
	}
}
impl RankedMembers for Collective {
	type AccountId = AccountId;
	type Rank = u16;
	fn min_rank() -> u16 {
		0
	}
	fn rank_of(w: &AccountId) -> Option<u16> {
		get((*b"rank", w))
	}
	fn induct(w: &AccountId) -> DispatchResult {
		fault_here()?;
		if Self::rank_of(w).is_some() {
			return Err(DispatchError::Other("already in"));
		}
		Self::set(w, 0);
		Ok(())
	}
	fn promote(w: &AccountId) -> DispatchResult {
		let r = Self::rank_of(w).ok_or(DispatchError::Other("not in"))?;
		Self::set(w, r + 1);
		Ok(())
	}
	fn demote(_: &AccountId) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
}

// ---- configuration

pub const TREASURY: u8 = 90;
pub const BANNED: u8 = 6;
pub const MINTER: u8 = 5;
pub struct Creator;
impl EnsureOrigin<RuntimeOrigin> for Creator {
	type Success = Option<(Balance, AccountId, AccountId)>;
	fn try_origin(o: RuntimeOrigin) -> Result<Self::Success, RuntimeOrigin> {
		match o.caller.clone() {
			OriginCaller::system(RawOrigin::Root) => Ok(None),
			OriginCaller::system(RawOrigin::Signed(w)) if w != person(BANNED) => Ok(Some((DEPOSIT.with(|d| d.get()), w, person(TREASURY)))),
			_ => Err(o),
		}
	}
}
pub struct Minter;
impl EnsureOrigin<RuntimeOrigin> for Minter {
	type Success = ();
	fn try_origin(o: RuntimeOrigin) -> Result<(), RuntimeOrigin> {
		match o.caller.clone() {
			OriginCaller::system(RawOrigin::Root) => Ok(()),
			OriginCaller::system(RawOrigin::Signed(w)) if w == person(MINTER) => Ok(()),
			_ => Err(o),
		}
	}
}
/// The community itself or its admin, unless the gate is closed.
pub struct Gate<const ADMIN: bool>;
impl<const ADMIN: bool> EnsureOrigin<RuntimeOrigin> for Gate<ADMIN> {
	type Success = CommunityId;
	fn try_origin(o: RuntimeOrigin) -> Result<CommunityId, RuntimeOrigin> {
		let (a, m) = GATES.with(|g| g.get());
		if if ADMIN { a } else { m } {
			EnsureCommunity::<Test>::try_origin(o)
		} else {
			Err(o)
		}
	}
}
pub struct Pid;
impl Get<PalletId> for Pid {
	fn get() -> PalletId {
		PalletId(*b"kv/cmtys")
	}
}
pub struct Treasury;
impl Get<AccountId> for Treasury {
	fn get() -> AccountId {
		person(TREASURY)
	}
}
pub const MANAGED: CommunityId = 0;
pub struct Managed;
impl Get<CommunityId> for Managed {
	fn get() -> CommunityId {
		MANAGED
	}
}
impl pallet_communities::Config for Test {
	type CommunityId = CommunityId;
	type MembershipId = MembershipId;
	type ItemConfig = pallet_nfts::ItemConfig;
	type MemberMgmt = Memberships;
	type CreateOrigin = Creator;
	type AdminOrigin = Gate<true>;
	type MemberMgmtOrigin = Gate<false>;
	type Polls = Polls;
	type Assets = Assets;
	type AssetsFreezer = Assets;
	type Balances = Native;
	type RuntimeCall = RuntimeCall;
	type RuntimeOrigin = RuntimeOrigin;
	type RuntimeFreezeReason = Reason;
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type PalletId = Pid;
}
impl pallet_communities_manager::Config for Test {
	type RuntimeEvent = RuntimeEvent;
	type CreateCollection = Nfts;
	type Tracks = Tracks;
	type RankedCollective = Collective;
	type WeightInfo = ();
	type RegisterOrigin = Creator;
	type CreateMembershipsOrigin = Minter;
	type MembershipId = MembershipId;
	type MembershipsManagerCollectionId = Managed;
	type MembershipsManagerOwner = Treasury;
	type CreateMemberships = Nfts;
}
