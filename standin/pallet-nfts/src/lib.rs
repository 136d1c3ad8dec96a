//! Stand-in for the configuration types of the NFTs pallet.
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;

macro_rules! bits { ($n:ident) => {
	#[derive(Clone, Copy, Debug, Decode, Default, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
	pub struct $n(pub u64);
	impl $n {
		pub fn all_enabled() -> Self { Self(0) }
		pub fn all_settings_enabled() -> Self { Self(0) }
		pub fn get_disabled(&self) -> u64 { self.0 }
	}
} }
bits!(CollectionSettings);
bits!(ItemSettings);
bits!(PalletFeatures);

#[derive(Clone, Copy, Debug, Decode, Default, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub enum MintType<CollectionId> {
	#[default]
	Issuer,
	Public,
	HolderOf(CollectionId),
}
#[derive(Clone, Copy, Debug, Decode, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct MintSettings<Price, BlockNumber, CollectionId> {
	pub mint_type: MintType<CollectionId>,
	pub price: Option<Price>,
	pub start_block: Option<BlockNumber>,
	pub end_block: Option<BlockNumber>,
	pub default_item_settings: ItemSettings,
}
impl<P, B, C> Default for MintSettings<P, B, C> {
	fn default() -> Self {
		Self { mint_type: MintType::Issuer, price: None, start_block: None, end_block: None, default_item_settings: ItemSettings(0) }
	}
}
#[derive(Clone, Copy, Debug, Decode, Default, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct CollectionConfig<Price, BlockNumber, CollectionId> {
	pub settings: CollectionSettings,
	pub max_supply: Option<u32>,
	pub mint_settings: MintSettings<Price, BlockNumber, CollectionId>,
}
#[derive(Clone, Copy, Debug, Decode, Default, Encode, Eq, MaxEncodedLen, PartialEq, TypeInfo)]
pub struct ItemConfig {
	pub settings: ItemSettings,
}

// ---- the pallet: collections and items, and the memberships they stand for
use fc_traits_memberships::GenericRank;
use frame_support::traits::{tokens::nonfungibles_v2, Currency};
use frame_system::pallet_prelude::BlockNumberFor;
use sp_io::storage as kv;
use sp_runtime::{DispatchError, DispatchResult};

pub trait Config<I: 'static = ()>: frame_system::ExtraConfig {
	type RuntimeEvent;
	type CollectionId: Copy + frame_support::Parameter + Default + Ord + MaxEncodedLen + 'static;
	type ItemId: Copy + frame_support::Parameter + Ord + MaxEncodedLen + 'static;
	type Currency: Currency<Self::AccountId>;
	type ForceOrigin;
	type CreateOrigin;
	type Locker;
	type CollectionDeposit;
	type ItemDeposit;
	type MetadataDepositBase;
	type AttributeDepositBase;
	type DepositPerByte;
	type StringLimit;
	type KeyLimit;
	type ValueLimit;
	type ApprovalsLimit;
	type ItemAttributesApprovalsLimit;
	type MaxTips;
	type MaxDeadlineDuration;
	type MaxAttributesPerCall;
	type Features;
	type OffchainSignature;
	type OffchainPublic;
	type WeightInfo;
}
pub type BalanceOf<T, I = ()> = <<T as Config<I>>::Currency as Currency<<T as frame_system::Config>::AccountId>>::Balance;
pub type CollectionConfigFor<T, I = ()> = CollectionConfig<BalanceOf<T, I>, BlockNumberFor<T>, <T as Config<I>>::CollectionId>;

frame_system::stub_instances! {}
frame_system::stub_struct! {}
frame_system::stub_weights! {}
frame_system::stub_call! { "pallet_nfts";
	create, force_create, destroy, mint, force_mint, burn, transfer, redeposit, lock_item_transfer,
	unlock_item_transfer, lock_collection, transfer_ownership, set_team, force_collection_owner,
	force_collection_config, approve_transfer, cancel_approval, clear_all_transfer_approvals, lock_item_properties,
	set_attribute, force_set_attribute, clear_attribute, approve_item_attributes, cancel_item_attributes_approval,
	set_metadata, clear_metadata, set_collection_metadata, clear_collection_metadata, set_accept_ownership,
	set_collection_max_supply, update_mint_settings, set_price, buy_item, pay_tips, create_swap, cancel_swap,
	claim_swap, mint_pre_signed, set_attributes_pre_signed
}

#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Collection<A, C> {
	pub owner: A,
	pub admin: A,
	pub config: C,
}
#[derive(Clone, Debug, PartialEq, Encode, Decode)]
pub struct Item<A, B> {
	pub owner: A,
	pub price: Option<B>,
	pub buyer: Option<A>,
	pub rank: u8,
}
pub type CollectionOf<T, I> = Collection<<T as frame_system::Config>::AccountId, CollectionConfigFor<T, I>>;
pub type ItemOf<T, I> = Item<<T as frame_system::Config>::AccountId, BalanceOf<T, I>>;
fn all<K: Decode, V: Decode>(tag: [u8; 4]) -> Vec<(K, V)> {
	let p = tag.encode();
	kv::keys_with_prefix(&p)
		.into_iter()
		.map(|k| {
			let v = kv::get(&k).expect("listed");
			(K::decode(&mut &k[p.len()..]).expect("own key"), V::decode(&mut &v[..]).expect("own value"))
		})
		.collect()
}
impl<T: Config<I>, I: 'static> Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	pub fn collection(c: T::CollectionId) -> Option<CollectionOf<T, I>> {
		kv::get(&(*b"coll", c).encode()).map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
	}
	pub fn collections() -> Vec<(T::CollectionId, CollectionOf<T, I>)> {
		all(*b"coll")
	}
	pub fn item(c: T::CollectionId, i: T::ItemId) -> Option<ItemOf<T, I>> {
		kv::get(&(*b"item", c, i).encode()).map(|v| Decode::decode(&mut &v[..]).expect("own encoding"))
	}
	pub fn set_item(c: T::CollectionId, i: T::ItemId, v: Option<ItemOf<T, I>>) {
		match v {
			Some(v) => kv::set(&(*b"item", c, i).encode(), &v.encode()),
			None => kv::clear(&(*b"item", c, i).encode()),
		}
	}
	pub fn items() -> Vec<((T::CollectionId, T::ItemId), ItemOf<T, I>)> {
		all(*b"item")
	}
}
impl<T: Config<I>, I: 'static> nonfungibles_v2::Inspect<T::AccountId> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	type CollectionId = T::CollectionId;
	type ItemId = T::ItemId;
	fn owner(c: &T::CollectionId, i: &T::ItemId) -> Option<T::AccountId> {
		Self::item(*c, *i).map(|x| x.owner)
	}
}
impl<T: Config<I>, I: 'static> nonfungibles_v2::Create<T::AccountId, CollectionConfigFor<T, I>> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	fn create_collection(_: &T::AccountId, _: &T::AccountId, _: &CollectionConfigFor<T, I>) -> Result<T::CollectionId, DispatchError> {
		Err(DispatchError::Other("ids are chosen"))
	}
	fn create_collection_with_id(
		c: T::CollectionId,
		who: &T::AccountId,
		admin: &T::AccountId,
		config: &CollectionConfigFor<T, I>,
	) -> DispatchResult {
		if Self::collection(c).is_some() {
			return Err(DispatchError::Other("collection taken"));
		}
		let v: CollectionOf<T, I> = Collection { owner: who.clone(), admin: admin.clone(), config: config.clone() };
		kv::set(&(*b"coll", c).encode(), &v.encode());
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> nonfungibles_v2::Mutate<T::AccountId, ItemConfig> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	fn mint_into(c: &T::CollectionId, i: &T::ItemId, who: &T::AccountId, _: &ItemConfig, _: bool) -> DispatchResult {
		if Self::item(*c, *i).is_some() {
			return Err(DispatchError::Other("item taken"));
		}
		Self::set_item(*c, *i, Some(Item { owner: who.clone(), price: None, buyer: None, rank: 0 }));
		Ok(())
	}
	fn burn(c: &T::CollectionId, i: &T::ItemId, who: Option<&T::AccountId>) -> DispatchResult {
		match Self::item(*c, *i) {
			Some(x) if who.map_or(true, |w| *w == x.owner) => {
				Self::set_item(*c, *i, None);
				Ok(())
			}
			_ => Err(DispatchError::Other("not the owner")),
		}
	}
}
impl<T: Config<I>, I: 'static> nonfungibles_v2::Trading<T::AccountId, BalanceOf<T, I>> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	fn buy_item(_: &T::CollectionId, _: &T::ItemId, _: &T::AccountId, _: &BalanceOf<T, I>) -> DispatchResult {
		Err(DispatchError::Other("not used"))
	}
	fn set_price(
		c: &T::CollectionId,
		i: &T::ItemId,
		sender: &T::AccountId,
		price: Option<BalanceOf<T, I>>,
		buyer: Option<T::AccountId>,
	) -> DispatchResult {
		match Self::item(*c, *i) {
			Some(x) if x.owner == *sender => {
				Self::set_item(*c, *i, Some(Item { price, buyer, ..x }));
				Ok(())
			}
			_ => Err(DispatchError::Other("not the owner")),
		}
	}
	fn item_price(c: &T::CollectionId, i: &T::ItemId) -> Option<BalanceOf<T, I>> {
		Self::item(*c, *i).and_then(|x| x.price)
	}
}
/// Holding an item of a community's collection is being a member of it. Memberships not given out are items of the
/// first collection that the owner of the community's collection holds.
impl<T: Config<I>, I: 'static> fc_traits_memberships::Inspect<T::AccountId> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	type Group = T::CollectionId;
	type Membership = T::ItemId;
	fn user_memberships(
		who: &T::AccountId,
		g: Option<T::CollectionId>,
	) -> Box<dyn Iterator<Item = (T::CollectionId, T::ItemId)>> {
		let mut v: Vec<_> = Self::items()
			.into_iter()
			.filter(|((c, _), x)| x.owner == *who && g.map_or(true, |g| g == *c))
			.map(|(k, _)| k)
			.collect();
		v.sort();
		Box::new(v.into_iter())
	}
	fn is_member_of(g: &T::CollectionId, who: &T::AccountId) -> bool {
		Self::items().iter().any(|((c, _), x)| c == g && x.owner == *who)
	}
	fn check_membership(who: &T::AccountId, m: &T::ItemId) -> Option<T::CollectionId> {
		Self::items().into_iter().find(|((_, i), x)| i == m && x.owner == *who).map(|((c, _), _)| c)
	}
	fn members_total(g: &T::CollectionId) -> u32 {
		Self::items().iter().filter(|((c, _), _)| c == g).count() as u32
	}
}
const UNKNOWN: DispatchError = DispatchError::Other("unknown membership");
impl<T: Config<I>, I: 'static> fc_traits_memberships::Manager<T::AccountId, ItemConfig> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	fn assign(g: &T::CollectionId, m: &T::ItemId, who: &T::AccountId) -> Result<(), DispatchError> {
		let stock = T::CollectionId::default();
		let owner = Self::collection(*g).ok_or(UNKNOWN)?.owner;
		match Self::item(stock, *m) {
			Some(x) if x.owner == owner => {
				Self::set_item(stock, *m, None);
				Self::set_item(*g, *m, Some(Item { owner: who.clone(), price: None, buyer: None, rank: 0 }));
				Ok(())
			}
			_ => Err(UNKNOWN),
		}
	}
	fn release(g: &T::CollectionId, m: &T::ItemId) -> Result<(), DispatchError> {
		let owner = Self::collection(*g).ok_or(UNKNOWN)?.owner;
		Self::item(*g, *m).ok_or(UNKNOWN)?;
		Self::set_item(*g, *m, None);
		Self::set_item(T::CollectionId::default(), *m, Some(Item { owner, price: None, buyer: None, rank: 0 }));
		Ok(())
	}
}
impl<T: Config<I>, I: 'static> fc_traits_memberships::Rank<T::AccountId, ItemConfig> for Pallet<T, I>
where
	BalanceOf<T, I>: Copy,
{
	fn rank_of(g: &T::CollectionId, m: &T::ItemId) -> Option<GenericRank> {
		Self::item(*g, *m).map(|x| GenericRank(x.rank))
	}
	fn set_rank(g: &T::CollectionId, m: &T::ItemId, rank: impl Into<GenericRank>) -> DispatchResult {
		let x = Self::item(*g, *m).ok_or(UNKNOWN)?;
		Self::set_item(*g, *m, Some(Item { rank: rank.into().0, ..x }));
		Ok(())
	}
	fn ranks_total(g: &T::CollectionId) -> u32 {
		Self::items().iter().filter(|((c, _), _)| c == g).map(|(_, x)| x.rank as u32).sum()
	}
}
