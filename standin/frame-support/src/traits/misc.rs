use crate::dispatch::DispatchResultWithPostInfo;
use crate::weights::Weight;
use core::marker::PhantomData;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
pub use sp_core::{ConstBool, ConstI32, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, GetDefault, TryGet, TypedGet};
pub use sp_runtime::traits::{Identity as IdentityMorph, TryMorph};

pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> DispatchResultWithPostInfo;
}
pub trait StorageInstance {
	const STORAGE_PREFIX: &'static str;
	fn pallet_prefix() -> &'static str;
}
pub trait PalletNamePrefix {
	fn storage_prefix() -> &'static str;
}
/// A stable small index per pallet module, for `ModuleError::index`.
pub fn module_index(path: &str) -> u8 {
	path.bytes().fold(7u8, |a, b| a.wrapping_mul(31).wrapping_add(b))
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str {
		""
	}
	fn module_name() -> &'static str {
		""
	}
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
}
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
impl VariantCount for () {
	const VARIANT_COUNT: u32 = 0;
}
pub struct VariantCountOf<T: VariantCount>(PhantomData<T>);
impl<T: VariantCount> Get<u32> for VariantCountOf<T> {
	fn get() -> u32 {
		T::VARIANT_COUNT
	}
}
pub trait Hooks<BlockNumber> {
	fn on_initialize(_n: BlockNumber) -> Weight {
		Weight::zero()
	}
	fn on_finalize(_n: BlockNumber) {}
	fn on_idle(_n: BlockNumber, _w: Weight) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn integrity_test() {}
}
pub trait OnInitialize<B> {
	fn on_initialize(_n: B) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<B> {
	fn on_finalize(_n: B) {}
}
pub trait BuildGenesisConfig {
	fn build(&self);
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Default)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(v: u16) -> Self {
		Self(v)
	}
}
pub trait GetStorageVersion {}
pub trait StorageInfoTrait {}
pub trait WhitelistedStorageKeys {}

pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
macro_rules! tuples { ($($t:ident),*) => {
	impl<T, $($t: Contains<T>),*> Contains<T> for ($($t,)*) {
		fn contains(_x: &T) -> bool { $( if $t::contains(_x) { return true; } )* false }
	}
	impl<A, B, $($t: ContainsPair<A, B>),*> ContainsPair<A, B> for ($($t,)*) {
		fn contains(_a: &A, _b: &B) -> bool { $( if $t::contains(_a, _b) { return true; } )* false }
	}
} }
tuples!();
tuples!(T0);
tuples!(T0, T1);
tuples!(T0, T1, T2);
tuples!(T0, T1, T2, T3);
tuples!(T0, T1, T2, T3, T4);
tuples!(T0, T1, T2, T3, T4, T5);
pub struct Everything;
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
pub type AllowAll = Everything;
pub struct Nothing;
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<A, B> ContainsPair<A, B> for Nothing {
	fn contains(_: &A, _: &B) -> bool {
		false
	}
}
pub struct EverythingBut<E>(PhantomData<E>);
impl<T, E: Contains<T>> Contains<T> for EverythingBut<E> {
	fn contains(t: &T) -> bool {
		!E::contains(t)
	}
}
pub struct TheseExcept<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && !B::contains(t)
	}
}
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
pub struct Equals<V>(PhantomData<V>);
impl<X: PartialEq, T: Get<X>> Contains<X> for Equals<T> {
	fn contains(t: &X) -> bool {
		t == &T::get()
	}
}

pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, t: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<core::cmp::Ordering>;
}
pub struct EqualPrivilegeOnly;
impl<O: PartialEq> PrivilegeCmp<O> for EqualPrivilegeOnly {
	fn cmp_privilege(l: &O, r: &O) -> Option<core::cmp::Ordering> {
		(l == r).then(|| core::cmp::Ordering::Equal)
	}
}
pub trait Randomness<Output, BlockNumber> {
	fn random(subject: &[u8]) -> (Output, BlockNumber);
	fn random_seed() -> (Output, BlockNumber) {
		Self::random(&[][..])
	}
}
pub trait FindAuthor<A> {
	fn find_author<'a, I>(digests: I) -> Option<A>
	where
		I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>;
}
impl<A> FindAuthor<A> for () {
	fn find_author<'a, I>(_: I) -> Option<A>
	where
		I: 'a + IntoIterator<Item = ([u8; 4], &'a [u8])>,
	{
		None
	}
}
pub trait OnUnbalanced<Imbalance> {
	fn on_unbalanceds(amounts: impl Iterator<Item = Imbalance>) {
		amounts.for_each(Self::on_unbalanced)
	}
	fn on_unbalanced(amount: Imbalance) {
		Self::on_nonzero_unbalanced(amount)
	}
	fn on_nonzero_unbalanced(amount: Imbalance) {
		drop(amount)
	}
}
impl<I> OnUnbalanced<I> for () {}

/// Types that have a successor.
pub trait Incrementable: Sized {
	fn increment(&self) -> Option<Self>;
	fn initial_value() -> Option<Self>;
}
macro_rules! incr { ($($t:ty)*) => { $( impl Incrementable for $t {
	fn increment(&self) -> Option<Self> { self.checked_add(1) }
	fn initial_value() -> Option<Self> { Some(0) }
} )* } }
incr!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);

/// What should not happen stops a test run and is survived on chain.
fn odd(what: &str) {
	debug_assert!(false, "defensive failure: {what}");
}
pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, o: Self) -> Self;
	fn defensive_saturating_sub(self, o: Self) -> Self;
	fn defensive_saturating_mul(self, o: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, o: Self);
	fn defensive_saturating_reduce(&mut self, o: Self);
}
impl<T: sp_runtime::Saturating + sp_runtime::traits::CheckedAdd + sp_runtime::traits::CheckedSub + sp_runtime::traits::CheckedMul + Copy>
	DefensiveSaturating for T
{
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.checked_add(&o).defensive_unwrap_or_else(|| self.saturating_add(o))
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.checked_sub(&o).defensive_unwrap_or_else(|| self.saturating_sub(o))
	}
	fn defensive_saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).defensive_unwrap_or_else(|| self.saturating_mul(o))
	}
	fn defensive_saturating_accrue(&mut self, o: Self) {
		*self = self.defensive_saturating_add(o)
	}
	fn defensive_saturating_reduce(&mut self, o: Self) {
		*self = self.defensive_saturating_sub(o)
	}
}
pub trait DefensiveMin<T> {
	fn defensive_min(self, o: T) -> Self;
}
impl<T: Ord> DefensiveMin<T> for T {
	fn defensive_min(self, o: T) -> Self {
		if self > o {
			odd("min");
			return o;
		}
		self
	}
}
pub trait DefensiveMax<T> {
	fn defensive_max(self, o: T) -> Self;
}
impl<T: Ord> DefensiveMax<T> for T {
	fn defensive_max(self, o: T) -> Self {
		if self < o {
			odd("max");
			return o;
		}
		self
	}
}
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, v: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, v: T) -> T {
		self.defensive().unwrap_or(v)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		if self.is_none() {
			odd("none");
		}
		self
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		if self.is_none() {
			odd(proof);
		}
		self
	}
}
impl<T, E: core::fmt::Debug> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, v: T) -> T {
		self.defensive().unwrap_or(v)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		if let Err(e) = &self {
			odd(&format!("{e:?}"));
		}
		self
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		if self.is_err() {
			odd(proof);
		}
		self
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E: core::fmt::Debug> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.defensive().map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.defensive().map_or_else(default, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.defensive().ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.defensive().map(f)
	}
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or_else<E: core::fmt::Debug, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E: core::fmt::Debug>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.defensive().map_or_else(default, f)
	}
	fn defensive_ok_or_else<E: core::fmt::Debug, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.defensive().ok_or_else(err)
	}
	fn defensive_ok_or<E: core::fmt::Debug>(self, err: E) -> Result<T, E> {
		self.defensive().ok_or(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.defensive().map(f)
	}
}
pub trait DefensiveTruncateFrom<T> {
	fn defensive_truncate_from(unbound: T) -> Self;
}
impl<T, S: Get<u32>> DefensiveTruncateFrom<Vec<T>> for sp_core::BoundedVec<T, S> {
	fn defensive_truncate_from(v: Vec<T>) -> Self {
		if v.len() > S::get() as usize {
			odd("truncated");
		}
		Self::truncate_from(v)
	}
}
pub trait Len {
	fn len(&self) -> usize;
}
impl<T> Len for Vec<T> {
	fn len(&self) -> usize {
		Vec::len(self)
	}
}
/// Collecting into something bounded.
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
impl<I: ExactSizeIterator, S: Get<u32>> TryCollect<sp_core::BoundedVec<I::Item, S>> for I {
	type Error = &'static str;
	fn try_collect(self) -> Result<sp_core::BoundedVec<I::Item, S>, Self::Error> {
		sp_core::BoundedVec::try_from(self.collect::<Vec<_>>()).map_err(|_| "iterator length too big")
	}
}

#[derive(Encode, Decode, Clone, Copy, PartialEq, Eq, Debug, Default, MaxEncodedLen, scale_info::TypeInfo)]
pub struct Footprint {
	pub count: u64,
	pub size: u64,
}
impl Footprint {
	pub fn from_parts(items: usize, len: usize) -> Self {
		Self { count: items as u64, size: len as u64 }
	}
	pub fn from_encodable(e: impl Encode) -> Self {
		Self::from_parts(1, e.encoded_size())
	}
}
pub struct LinearStoragePrice<Base, Slope, Balance>(PhantomData<(Base, Slope, Balance)>);
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
pub trait UnixTime {
	fn now() -> core::time::Duration;
}
pub trait TrackedStorageKey {}
pub trait EstimateNextSessionRotation<B> {}
pub trait AccountTouch<AssetId, AccountId> {}
pub trait ContractsMigrateStub {}
