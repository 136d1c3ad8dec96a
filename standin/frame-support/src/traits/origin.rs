use super::*;
use crate::dispatch::RawOrigin;
use core::marker::PhantomData;
use sp_runtime::{
	traits::{BadOrigin, Morph, Replace},
	DispatchError,
};
use parity_scale_codec::MaxEncodedLen;
use sp_runtime::traits::Member;
use crate::Parameter;

pub trait CallerTrait<AccountId>: Parameter + Member + From<RawOrigin<AccountId>> {
	fn into_system(self) -> Option<RawOrigin<AccountId>>;
	fn as_system_ref(&self) -> Option<&RawOrigin<AccountId>>;
	fn as_signed(&self) -> Option<&AccountId> {
		self.as_system_ref().and_then(RawOrigin::as_signed)
	}
	fn is_root(&self) -> bool {
		self.as_system_ref().map_or(false, RawOrigin::is_root)
	}
	fn is_none(&self) -> bool {
		self.as_system_ref().map_or(false, RawOrigin::is_none)
	}
}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Send + Sync + Into<Self> + CallerTrait<Self::AccountId> + MaxEncodedLen;
	type AccountId;
	fn add_filter(&mut self, filter: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller(&mut self, caller: Self::PalletsOrigin);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn try_with_caller<R>(mut self, f: impl FnOnce(Self::PalletsOrigin) -> Result<R, Self::PalletsOrigin>) -> Result<R, Self>
	where
		Self: Clone,
	{
		match f(self.caller().clone()) {
			Ok(r) => Ok(r),
			Err(caller) => {
				self.set_caller(caller);
				Err(self)
			}
		}
	}
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn into_signer(self) -> Option<Self::AccountId> {
		self.into_caller().into_system().and_then(|s| if let RawOrigin::Signed(w) = s { Some(w) } else { None })
	}
	fn as_signed(&self) -> Option<&Self::AccountId> {
		self.caller().as_signed()
	}
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>> {
		self.caller().as_system_ref()
	}
}
pub trait AsTransactionAuthorizedOrigin {
	fn is_transaction_authorized(&self) -> bool;
}
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller().is_root() {
			return Ok(None);
		} else {
			Self::ensure_origin(o).map(Some)
		}
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<EO>(PhantomData<EO>);
impl<O, A, EO: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<EO> {
	type Success = EO::Success;
	fn try_origin(o: O, _: &A) -> Result<EO::Success, O> {
		EO::try_origin(o)
	}
}
pub struct MapSuccess<EO, Mutator>(PhantomData<(EO, Mutator)>);
impl<O, EO: EnsureOrigin<O>, Mutator: Morph<EO::Success>> EnsureOrigin<O> for MapSuccess<EO, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		Ok(Mutator::morph(EO::try_origin(o)?))
	}
}
pub struct TryMapSuccess<EO, Mutator>(PhantomData<(EO, Mutator)>);
impl<O: Clone, EO: EnsureOrigin<O>, Mutator: TryMorph<EO::Success>> EnsureOrigin<O> for TryMapSuccess<EO, Mutator> {
	type Success = Mutator::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		let orig = o.clone();
		Mutator::try_morph(EO::try_origin(o)?).map_err(|()| orig)
	}
}
pub type EnsureOriginWithReplace<EO, V> = MapSuccess<EO, Replace<V>>;
pub use sp_runtime::Either;
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A>> EnsureOriginWithArg<O, A> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		L::try_origin(o, a).map_or_else(|o| R::try_origin(o, a).map(Either::Right), |o| Ok(Either::Left(o)))
	}
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(R::try_origin)
	}
}
impl<O, A, L: EnsureOriginWithArg<O, A>, R: EnsureOriginWithArg<O, A, Success = L::Success>> EnsureOriginWithArg<O, A> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O, a: &A) -> Result<Self::Success, O> {
		L::try_origin(o, a).or_else(|o| R::try_origin(o, a))
	}
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub struct TransformOrigin<E, O, N, C>(PhantomData<(E, O, N, C)>);
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
#[allow(unused)]
type _D = DispatchError;
