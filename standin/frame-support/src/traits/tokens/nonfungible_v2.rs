use sp_runtime::DispatchResult;
pub struct ItemOf<F, A, AccountId>(core::marker::PhantomData<(F, A, AccountId)>);
pub trait Inspect<AccountId> {
	type ItemId;
	fn owner(item: &Self::ItemId) -> Option<AccountId>;
}
pub trait Mutate<AccountId, ItemConfig>: Inspect<AccountId> {
	fn mint_into(item: &Self::ItemId, who: &AccountId, config: &ItemConfig, deposit: bool) -> DispatchResult;
}
