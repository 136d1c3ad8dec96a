use super::{fungible, fungibles};
use crate::traits::{OnUnbalanced, TypedGet};
pub struct ResolveTo<A, B>(core::marker::PhantomData<(A, B)>);
impl<A: TypedGet, B: fungible::Balanced<A::Type>> OnUnbalanced<fungible::Credit<A::Type, B>> for ResolveTo<A, B> {
	fn on_nonzero_unbalanced(credit: fungible::Credit<A::Type, B>) {
		let _ = B::resolve(&A::get(), credit).map_err(drop);
	}
}
pub struct ResolveAssetTo<A, B>(core::marker::PhantomData<(A, B)>);
impl<A: TypedGet, B: fungibles::Balanced<A::Type>> OnUnbalanced<fungibles::Credit<A::Type, B>> for ResolveAssetTo<A, B> {
	fn on_nonzero_unbalanced(credit: fungibles::Credit<A::Type, B>) {
		let _ = B::resolve(&A::get(), credit).map_err(drop);
	}
}
