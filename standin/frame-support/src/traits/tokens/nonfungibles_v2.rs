use crate::Parameter;
use sp_runtime::{DispatchError, DispatchResult};
pub trait Inspect<AccountId> {
	type ItemId: Parameter;
	type CollectionId: Parameter;
	fn owner(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<AccountId>;
	fn collection_owner(_collection: &Self::CollectionId) -> Option<AccountId> {
		None
	}
	fn attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _key: &[u8]) -> Option<Vec<u8>> {
		None
	}
	fn can_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> bool {
		true
	}
}
pub trait InspectEnumerable<AccountId>: Inspect<AccountId> {}
pub trait Create<AccountId, CollectionConfig>: Inspect<AccountId> {
	fn create_collection(who: &AccountId, admin: &AccountId, config: &CollectionConfig) -> Result<Self::CollectionId, DispatchError>;
	fn create_collection_with_id(
		collection: Self::CollectionId,
		who: &AccountId,
		admin: &AccountId,
		config: &CollectionConfig,
	) -> Result<(), DispatchError>;
}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(
		collection: &Self::CollectionId,
		item: &Self::ItemId,
		who: &AccountId,
		config: &ItemConfig,
		deposit_collection_owner: bool,
	) -> DispatchResult;
	fn burn(collection: &Self::CollectionId, item: &Self::ItemId, maybe_check_owner: Option<&AccountId>) -> DispatchResult;
	fn set_attribute(_c: &Self::CollectionId, _i: &Self::ItemId, _key: &[u8], _value: &[u8]) -> DispatchResult {
		Err(sp_runtime::TokenError::Unsupported.into())
	}
	fn set_typed_attribute<K: parity_scale_codec::Encode, V: parity_scale_codec::Encode>(
		c: &Self::CollectionId,
		i: &Self::ItemId,
		key: &K,
		value: &V,
	) -> DispatchResult {
		Self::set_attribute(c, i, &key.encode(), &value.encode())
	}
}
pub trait Transfer<AccountId>: Inspect<AccountId> {
	fn transfer(collection: &Self::CollectionId, item: &Self::ItemId, destination: &AccountId) -> DispatchResult;
	fn disable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
		Err(sp_runtime::TokenError::Unsupported.into())
	}
	fn enable_transfer(_c: &Self::CollectionId, _i: &Self::ItemId) -> DispatchResult {
		Err(sp_runtime::TokenError::Unsupported.into())
	}
}
pub trait Trading<AccountId, ItemPrice>: Inspect<AccountId> {
	fn buy_item(collection: &Self::CollectionId, item: &Self::ItemId, buyer: &AccountId, bid_price: &ItemPrice) -> DispatchResult;
	fn set_price(
		collection: &Self::CollectionId,
		item: &Self::ItemId,
		sender: &AccountId,
		price: Option<ItemPrice>,
		whitelisted_buyer: Option<AccountId>,
	) -> DispatchResult;
	fn item_price(collection: &Self::CollectionId, item: &Self::ItemId) -> Option<ItemPrice>;
}
