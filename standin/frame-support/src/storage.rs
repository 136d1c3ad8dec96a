//! Storage types over the thread-local transactional store in `sp-io`.
use sp_io::storage as kv;
pub use sp_runtime::TransactionOutcome;
use sp_runtime::DispatchError;
pub use append::{StorageAppend, StorageDecodeLength, StorageTryAppend};

/// Lists in storage that grow at the end.
pub mod append {
	use parity_scale_codec::{Compact, Decode};
	pub trait StorageAppend<Item>: Default {
		fn add(&mut self, i: Item);
	}
	impl<I> StorageAppend<I> for Vec<I> {
		fn add(&mut self, i: I) {
			self.push(i)
		}
	}
	pub trait StorageTryAppend<Item>: Default {
		fn try_add(&mut self, i: Item) -> Result<(), ()>;
	}
	impl<I, S: sp_core::Get<u32>> StorageTryAppend<I> for sp_core::BoundedVec<I, S> {
		fn try_add(&mut self, i: I) -> Result<(), ()> {
			self.try_push(i).map_err(|_| ())
		}
	}
	pub trait StorageDecodeLength {
		fn decode_length(mut raw: &[u8]) -> Option<usize> {
			Compact::<u32>::decode(&mut raw).ok().map(|n| n.0 as usize)
		}
	}
	impl<I> StorageDecodeLength for Vec<I> {}
	impl<I, S> StorageDecodeLength for sp_core::BoundedVec<I, S> {}
}

pub mod hash {
	use parity_scale_codec::Encode;
	pub trait StorageHasher: 'static {
		type Output: AsRef<[u8]>;
		fn hash(x: &[u8]) -> Self::Output;
	}
	/// A hasher whose output ends with its input.
	pub trait ReversibleStorageHasher: StorageHasher {
		fn reverse(x: &[u8]) -> &[u8];
	}
	macro_rules! hasher { ($n:ident, $out:ty, |$x:ident| $e:expr $(, rev $r:expr)?) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n { type Output = $out; fn hash($x: &[u8]) -> $out { $e } }
		$( impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { &x[$r..] } } )?
	} }
	hasher!(Identity, Vec<u8>, |x| x.to_vec(), rev 0);
	hasher!(Blake2_128Concat, Vec<u8>, |x| [&sp_core::blake2_128(x)[..], x].concat(), rev 16);
	hasher!(Twox64Concat, Vec<u8>, |x| [&sp_core::twox_64(x)[..], x].concat(), rev 8);
	hasher!(Blake2_128, [u8; 16], |x| sp_core::blake2_128(x));
	hasher!(Blake2_256, [u8; 32], |x| sp_core::blake2_256(x));
	hasher!(Twox128, [u8; 16], |x| sp_core::twox_128(x));
	hasher!(Twox256, [u8; 16], |x| sp_core::twox_128(x));
	pub trait Hashable: Encode {
		fn blake2_256(&self) -> [u8; 32] {
			sp_core::blake2_256(&self.encode())
		}
	}
	impl<T: Encode> Hashable for T {}
}

pub fn with_transaction<T, E, F>(f: F) -> Result<T, E>
where
	E: From<DispatchError>,
	F: FnOnce() -> TransactionOutcome<Result<T, E>>,
{
	kv::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			kv::commit_transaction();
			r
		}
		TransactionOutcome::Rollback(r) => {
			kv::rollback_transaction();
			r
		}
	}
}
pub fn with_storage_layer<T, E, F>(f: F) -> Result<T, E>
where
	E: From<DispatchError>,
	F: FnOnce() -> Result<T, E>,
{
	with_transaction(|| {
		let r = f();
		if r.is_ok() {
			TransactionOutcome::Commit(r)
		} else {
			TransactionOutcome::Rollback(r)
		}
	})
}
pub mod transactional {
	pub use super::{with_storage_layer, with_transaction};
}
pub mod unhashed {
	use super::kv;
	use parity_scale_codec::{Decode, Encode};
	pub fn get<T: Decode>(key: &[u8]) -> Option<T> {
		kv::get(key).and_then(|v| T::decode(&mut &v[..]).ok())
	}
	pub fn put<T: Encode + ?Sized>(key: &[u8], value: &T) {
		value.using_encoded(|v| kv::set(key, v))
	}
	pub fn kill(key: &[u8]) {
		kv::clear(key)
	}
	pub fn exists(key: &[u8]) -> bool {
		kv::exists(key)
	}
}

/// The query type of a storage alias, for getters.
pub trait QueryOf {
	type Query;
}
pub trait StorageList {}
// The storage *traits*; the stand-in's storage types have inherent methods, so these are markers.
pub trait StorageMap<K, V> {}
pub trait StorageDoubleMap<K1, K2, V> {}
pub trait StorageValue<V> {}
/// Result of clearing a prefix.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}

pub mod types {
	use super::{hash::*, kv, MultiRemovalResults, QueryOf, StorageAppend, StorageDecodeLength, StorageTryAppend};
	use crate::traits::{Get, GetDefault, StorageInstance};
	use core::marker::PhantomData;
	use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec};

	pub trait QueryKindTrait<Value, OnEmpty> {
		type Query: 'static;
		fn from_optional_value_to_query(v: Option<Value>) -> Self::Query;
		fn from_query_to_optional_value(v: Self::Query) -> Option<Value>;
	}
	pub struct OptionQuery;
	impl<Value: 'static, OnEmpty> QueryKindTrait<Value, OnEmpty> for OptionQuery {
		type Query = Option<Value>;
		fn from_optional_value_to_query(v: Option<Value>) -> Self::Query {
			v
		}
		fn from_query_to_optional_value(v: Self::Query) -> Option<Value> {
			v
		}
	}
	pub struct ValueQuery;
	impl<Value: 'static, OnEmpty: Get<Value>> QueryKindTrait<Value, OnEmpty> for ValueQuery {
		type Query = Value;
		fn from_optional_value_to_query(v: Option<Value>) -> Value {
			v.unwrap_or_else(OnEmpty::get)
		}
		fn from_query_to_optional_value(v: Value) -> Option<Value> {
			Some(v)
		}
	}
	pub struct ResultQuery<Error, OnErr>(PhantomData<(Error, OnErr)>);
	impl<Value: 'static, Error: 'static, OnErr: Get<Error>, OnEmpty> QueryKindTrait<Value, OnEmpty> for ResultQuery<Error, OnErr> {
		type Query = Result<Value, Error>;
		fn from_optional_value_to_query(v: Option<Value>) -> Self::Query {
			v.ok_or_else(OnErr::get)
		}
		fn from_query_to_optional_value(v: Self::Query) -> Option<Value> {
			v.ok()
		}
	}
	fn prefix<P: StorageInstance>() -> Vec<u8> {
		[sp_core::twox_128(P::pallet_prefix().as_bytes()), sp_core::twox_128(P::STORAGE_PREFIX.as_bytes())].concat()
	}
	fn read<V: Decode>(k: &[u8]) -> Option<V> {
		kv::get(k).and_then(|v| V::decode(&mut &v[..]).ok())
	}
	fn write<V: Encode>(k: &[u8], v: &V) {
		v.using_encoded(|b| kv::set(k, b))
	}
	fn rw<V, Q, E, R, ER>(k: &[u8], f: impl FnOnce(&mut Q::Query) -> Result<R, ER>) -> Result<R, ER>
	where
		V: FullCodec,
		Q: QueryKindTrait<V, E>,
	{
		let mut q = Q::from_optional_value_to_query(read::<V>(k));
		let r = f(&mut q)?;
		match Q::from_query_to_optional_value(q) {
			Some(v) => write(k, &v),
			None => kv::clear(k),
		}
		Ok(r)
	}
	enum Void {}

	pub struct StorageValue<P, V, Q = OptionQuery, E = GetDefault>(PhantomData<(P, V, Q, E)>);
	impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> QueryOf for StorageValue<P, V, Q, E> {
		type Query = Q::Query;
	}
	impl<P: StorageInstance, V: FullCodec + 'static, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
		pub fn hashed_key() -> Vec<u8> {
			prefix::<P>()
		}
		pub fn exists() -> bool {
			kv::exists(&prefix::<P>())
		}
		pub fn get() -> Q::Query {
			Q::from_optional_value_to_query(read(&prefix::<P>()))
		}
		pub fn try_get() -> Result<V, ()> {
			read(&prefix::<P>()).ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			v.using_encoded(|b| kv::set(&prefix::<P>(), b))
		}
		pub fn set(q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => write(&prefix::<P>(), &v),
				None => kv::clear(&prefix::<P>()),
			}
		}
		pub fn kill() {
			kv::clear(&prefix::<P>())
		}
		pub fn take() -> Q::Query {
			let r = Self::get();
			Self::kill();
			r
		}
		pub fn mutate<R>(f: impl FnOnce(&mut Q::Query) -> R) -> R {
			match rw::<V, Q, E, R, Void>(&prefix::<P>(), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate<R, ER>(f: impl FnOnce(&mut Q::Query) -> Result<R, ER>) -> Result<R, ER> {
			rw::<V, Q, E, R, ER>(&prefix::<P>(), f)
		}
		pub fn append<I>(i: I)
		where
			V: StorageAppend<I>,
		{
			let k = prefix::<P>();
			let mut v = read::<V>(&k).unwrap_or_default();
			v.add(i);
			write(&k, &v)
		}
		pub fn try_append<I>(i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			let k = prefix::<P>();
			let mut v = read::<V>(&k).unwrap_or_default();
			v.try_add(i)?;
			write(&k, &v);
			Ok(())
		}
		pub fn decode_len() -> Option<usize>
		where
			V: StorageDecodeLength,
		{
			kv::get(&prefix::<P>()).and_then(|b| V::decode_length(&b))
		}
		pub fn mutate_extant<R: Default>(f: impl FnOnce(&mut V) -> R) -> R {
			let k = prefix::<P>();
			match read::<V>(&k) {
				Some(mut v) => {
					let r = f(&mut v);
					write(&k, &v);
					r
				}
				None => R::default(),
			}
		}
		pub fn try_mutate_exists<R, ER>(f: impl FnOnce(&mut Option<V>) -> Result<R, ER>) -> Result<R, ER> {
			rw::<V, OptionQuery, (), R, ER>(&prefix::<P>(), f)
		}
		pub fn mutate_exists<R>(f: impl FnOnce(&mut Option<V>) -> R) -> R {
			match rw::<V, OptionQuery, (), R, Void>(&prefix::<P>(), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
	}

	pub struct StorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, E, M)>);
	pub type CountedStorageMap<P, H, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault> = StorageMap<P, H, K, V, Q, E, M>;
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> QueryOf
		for StorageMap<P, H, K, V, Q, E, M>
	{
		type Query = Q::Query;
	}
	impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
		pub fn hashed_key_for<KA: EncodeLike<K>>(k: KA) -> Vec<u8> {
			let mut p = prefix::<P>();
			k.using_encoded(|b| p.extend_from_slice(H::hash(b).as_ref()));
			p
		}
		pub fn final_prefix() -> Vec<u8> {
			prefix::<P>()
		}
		pub fn contains_key<KA: EncodeLike<K>>(k: KA) -> bool {
			kv::exists(&Self::hashed_key_for(k))
		}
		pub fn get<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			Q::from_optional_value_to_query(read(&Self::hashed_key_for(k)))
		}
		pub fn try_get<KA: EncodeLike<K>>(k: KA) -> Result<V, ()> {
			read(&Self::hashed_key_for(k)).ok_or(())
		}
		pub fn insert<KA: EncodeLike<K>, VA: EncodeLike<V>>(k: KA, v: VA) {
			v.using_encoded(|b| kv::set(&Self::hashed_key_for(k), b))
		}
		pub fn set<KA: EncodeLike<K>>(k: KA, q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => write(&Self::hashed_key_for(k), &v),
				None => kv::clear(&Self::hashed_key_for(k)),
			}
		}
		pub fn remove<KA: EncodeLike<K>>(k: KA) {
			kv::clear(&Self::hashed_key_for(k))
		}
		pub fn take<KA: EncodeLike<K>>(k: KA) -> Q::Query {
			let k = Self::hashed_key_for(k);
			let r = Q::from_optional_value_to_query(read(&k));
			kv::clear(&k);
			r
		}
		pub fn append<KA: EncodeLike<K>, I>(k: KA, i: I)
		where
			V: StorageAppend<I>,
		{
			let k = Self::hashed_key_for(k);
			let mut v = read::<V>(&k).unwrap_or_default();
			v.add(i);
			write(&k, &v)
		}
		pub fn try_append<KA: EncodeLike<K>, I>(k: KA, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			let k = Self::hashed_key_for(k);
			let mut v = read::<V>(&k).unwrap_or_default();
			v.try_add(i)?;
			write(&k, &v);
			Ok(())
		}
		pub fn decode_len<KA: EncodeLike<K>>(k: KA) -> Option<usize>
		where
			V: StorageDecodeLength,
		{
			kv::get(&Self::hashed_key_for(k)).and_then(|b| V::decode_length(&b))
		}
		pub fn mutate_extant<KA: EncodeLike<K>, R: Default>(k: KA, f: impl FnOnce(&mut V) -> R) -> R {
			let k = Self::hashed_key_for(k);
			match read::<V>(&k) {
				Some(mut v) => {
					let r = f(&mut v);
					write(&k, &v);
					r
				}
				None => R::default(),
			}
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (a, b) = (Self::hashed_key_for(a), Self::hashed_key_for(b));
			let (x, y) = (kv::get(&a), kv::get(&b));
			for (k, v) in [(a, y), (b, x)] {
				match v {
					Some(v) => kv::set(&k, &v),
					None => kv::clear(&k),
				}
			}
		}
		pub fn mutate<KA: EncodeLike<K>, R>(k: KA, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			match rw::<V, Q, E, R, Void>(&Self::hashed_key_for(k), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate<KA: EncodeLike<K>, R, ER>(k: KA, f: impl FnOnce(&mut Q::Query) -> Result<R, ER>) -> Result<R, ER> {
			rw::<V, Q, E, R, ER>(&Self::hashed_key_for(k), f)
		}
		pub fn mutate_exists<KA: EncodeLike<K>, R>(k: KA, f: impl FnOnce(&mut Option<V>) -> R) -> R
		where
			V: 'static,
		{
			match rw::<V, OptionQuery, (), R, Void>(&Self::hashed_key_for(k), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate_exists<KA: EncodeLike<K>, R, ER>(k: KA, f: impl FnOnce(&mut Option<V>) -> Result<R, ER>) -> Result<R, ER>
		where
			V: 'static,
		{
			rw::<V, OptionQuery, (), R, ER>(&Self::hashed_key_for(k), f)
		}
		pub fn iter_values() -> std::vec::IntoIter<V> {
			kv::keys_with_prefix(&prefix::<P>()).iter().filter_map(|k| read(k)).collect::<Vec<_>>().into_iter()
		}
		pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			let n = kv::clear_prefix(&prefix::<P>());
			MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
		}
		pub fn count() -> u32 {
			kv::keys_with_prefix(&prefix::<P>()).len() as u32
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M>
		StorageMap<P, H, K, V, Q, E, M>
	{
		pub fn iter() -> std::vec::IntoIter<(K, V)> {
			let p = prefix::<P>();
			kv::keys_with_prefix(&p)
				.iter()
				.filter_map(|k| Some((K::decode(&mut H::reverse(&k[p.len()..])).ok()?, read(k)?)))
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_keys() -> std::vec::IntoIter<K> {
			Self::iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		pub fn drain() -> std::vec::IntoIter<(K, V)> {
			let r = Self::iter();
			kv::clear_prefix(&prefix::<P>());
			r
		}
	}

	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(
		PhantomData<(P, H1, K1, H2, K2, V, Q, E, M)>,
	);
	impl<P, H1, K1, H2, K2, V, Q, E, M> QueryOf for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
	where
		Q: QueryKindTrait<V, E>,
	{
		type Query = Q::Query;
	}
	impl<P, H1, K1, H2, K2, V, Q, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M>
	where
		P: StorageInstance,
		H1: StorageHasher,
		K1: FullCodec,
		H2: StorageHasher,
		K2: FullCodec,
		V: FullCodec,
		Q: QueryKindTrait<V, E>,
	{
		fn p1<A: EncodeLike<K1>>(a: A) -> Vec<u8> {
			let mut p = prefix::<P>();
			a.using_encoded(|b| p.extend_from_slice(H1::hash(b).as_ref()));
			p
		}
		pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> {
			let mut p = Self::p1(a);
			b.using_encoded(|b| p.extend_from_slice(H2::hash(b).as_ref()));
			p
		}
		pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
			kv::exists(&Self::hashed_key_for(a, b))
		}
		pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool {
			!kv::keys_with_prefix(&Self::p1(a)).is_empty()
		}
		pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			Q::from_optional_value_to_query(read(&Self::hashed_key_for(a, b)))
		}
		pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
			read(&Self::hashed_key_for(a, b)).ok_or(())
		}
		pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, VA: EncodeLike<V>>(a: A, b: B, v: VA) {
			v.using_encoded(|x| kv::set(&Self::hashed_key_for(a, b), x))
		}
		pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => write(&Self::hashed_key_for(a, b), &v),
				None => kv::clear(&Self::hashed_key_for(a, b)),
			}
		}
		pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
			kv::clear(&Self::hashed_key_for(a, b))
		}
		pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
			let k = Self::hashed_key_for(a, b);
			let r = Q::from_optional_value_to_query(read(&k));
			kv::clear(&k);
			r
		}
		pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R>(a: A, b: B, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			match rw::<V, Q, E, R, Void>(&Self::hashed_key_for(a, b), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, ER>(
			a: A,
			b: B,
			f: impl FnOnce(&mut Q::Query) -> Result<R, ER>,
		) -> Result<R, ER> {
			rw::<V, Q, E, R, ER>(&Self::hashed_key_for(a, b), f)
		}
		pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R>(a: A, b: B, f: impl FnOnce(&mut Option<V>) -> R) -> R
		where
			V: 'static,
		{
			match rw::<V, OptionQuery, (), R, Void>(&Self::hashed_key_for(a, b), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, ER>(
			a: A,
			b: B,
			f: impl FnOnce(&mut Option<V>) -> Result<R, ER>,
		) -> Result<R, ER>
		where
			V: 'static,
		{
			rw::<V, OptionQuery, (), R, ER>(&Self::hashed_key_for(a, b), f)
		}
		pub fn append<A: EncodeLike<K1>, B: EncodeLike<K2>, I>(a: A, b: B, i: I)
		where
			V: StorageAppend<I>,
		{
			let k = Self::hashed_key_for(a, b);
			let mut v = read::<V>(&k).unwrap_or_default();
			v.add(i);
			write(&k, &v)
		}
		pub fn try_append<A: EncodeLike<K1>, B: EncodeLike<K2>, I>(a: A, b: B, i: I) -> Result<(), ()>
		where
			V: StorageTryAppend<I>,
		{
			let k = Self::hashed_key_for(a, b);
			let mut v = read::<V>(&k).unwrap_or_default();
			v.try_add(i)?;
			write(&k, &v);
			Ok(())
		}
		pub fn decode_len<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Option<usize>
		where
			V: StorageDecodeLength,
		{
			kv::get(&Self::hashed_key_for(a, b)).and_then(|b| V::decode_length(&b))
		}
		pub fn mutate_extant<A: EncodeLike<K1>, B: EncodeLike<K2>, R: Default>(a: A, b: B, f: impl FnOnce(&mut V) -> R) -> R {
			let k = Self::hashed_key_for(a, b);
			match read::<V>(&k) {
				Some(mut v) => {
					let r = f(&mut v);
					write(&k, &v);
					r
				}
				None => R::default(),
			}
		}
		pub fn swap<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<K1>, D: EncodeLike<K2>>(a: A, b: B, c: C, d: D) {
			let (a, b) = (Self::hashed_key_for(a, b), Self::hashed_key_for(c, d));
			let (x, y) = (kv::get(&a), kv::get(&b));
			for (k, v) in [(a, y), (b, x)] {
				match v {
					Some(v) => kv::set(&k, &v),
					None => kv::clear(&k),
				}
			}
		}
		pub fn clear(_limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			let n = kv::clear_prefix(&prefix::<P>());
			MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
		}
		pub fn drain() -> std::vec::IntoIter<(K1, K2, V)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			let r = Self::iter();
			kv::clear_prefix(&prefix::<P>());
			r
		}
		pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<V> {
			kv::keys_with_prefix(&Self::p1(a)).iter().filter_map(|k| read(k)).collect::<Vec<_>>().into_iter()
		}
		pub fn iter_values() -> std::vec::IntoIter<V> {
			kv::keys_with_prefix(&prefix::<P>()).iter().filter_map(|k| read(k)).collect::<Vec<_>>().into_iter()
		}
		pub fn clear_prefix<A: EncodeLike<K1>>(a: A, _limit: u32, _c: Option<&[u8]>) -> MultiRemovalResults {
			let n = kv::clear_prefix(&Self::p1(a));
			MultiRemovalResults { maybe_cursor: None, backend: n, unique: n, loops: n }
		}
		pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)>
		where
			H2: ReversibleStorageHasher,
		{
			let p = Self::p1(a);
			kv::keys_with_prefix(&p)
				.iter()
				.filter_map(|k| Some((K2::decode(&mut H2::reverse(&k[p.len()..])).ok()?, read(k)?)))
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<K2>
		where
			H2: ReversibleStorageHasher,
		{
			Self::iter_prefix(a).map(|x| x.0).collect::<Vec<_>>().into_iter()
		}
		pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> std::vec::IntoIter<(K2, V)>
		where
			H2: ReversibleStorageHasher,
		{
			let p = Self::p1(a);
			let r = kv::keys_with_prefix(&p)
				.iter()
				.filter_map(|k| Some((K2::decode(&mut H2::reverse(&k[p.len()..])).ok()?, read(k)?)))
				.collect::<Vec<_>>()
				.into_iter();
			kv::clear_prefix(&p);
			r
		}
		pub fn iter() -> std::vec::IntoIter<(K1, K2, V)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			let p = prefix::<P>();
			kv::keys_with_prefix(&p)
				.iter()
				.filter_map(|k| {
					let mut c = H1::reverse(&k[p.len()..]);
					let k1 = K1::decode(&mut c).ok()?;
					let k2 = K2::decode(&mut H2::reverse(c)).ok()?;
					Some((k1, k2, read(k)?))
				})
				.collect::<Vec<_>>()
				.into_iter()
		}
		pub fn iter_keys() -> std::vec::IntoIter<(K1, K2)>
		where
			H1: ReversibleStorageHasher,
			H2: ReversibleStorageHasher,
		{
			Self::iter().map(|x| (x.0, x.1)).collect::<Vec<_>>().into_iter()
		}
	}

	/// One key of an n-map.
	pub struct Key<H, K>(PhantomData<(H, K)>);
	pub trait KeyGenerator {
		type Key: FullCodec;
		fn final_key(k: &Self::Key) -> Vec<u8>;
	}
	macro_rules! nmap_keys { ($($h:ident $k:ident $i:tt),+) => {
		impl<$($h: StorageHasher, $k: FullCodec),+> KeyGenerator for ($(Key<$h, $k>,)+) {
			type Key = ($($k,)+);
			fn final_key(k: &Self::Key) -> Vec<u8> { let mut v = Vec::new(); $( k.$i.using_encoded(|b| v.extend_from_slice($h::hash(b).as_ref())); )+ v }
		}
	} }
	nmap_keys!(HA A 0, HB B 1);
	nmap_keys!(HA A 0, HB B 1, HC C 2);
	nmap_keys!(HA A 0, HB B 1, HC C 2, HD D 3);
	pub struct StorageNMap<P, K, V, Q = OptionQuery, E = GetDefault, M = GetDefault>(PhantomData<(P, K, V, Q, E, M)>);
	impl<P: StorageInstance, K: KeyGenerator, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, K, V, Q, E, M> {
		fn key<A: EncodeLike<K::Key>>(k: A) -> Vec<u8> {
			let k = K::Key::decode(&mut &k.encode()[..]).expect("encode-like keys decode; qed");
			[prefix::<P>(), K::final_key(&k)].concat()
		}
		pub fn contains_key<A: EncodeLike<K::Key>>(k: A) -> bool {
			kv::exists(&Self::key(k))
		}
		pub fn get<A: EncodeLike<K::Key>>(k: A) -> Q::Query {
			Q::from_optional_value_to_query(read(&Self::key(k)))
		}
		pub fn insert<A: EncodeLike<K::Key>, VA: EncodeLike<V>>(k: A, v: VA) {
			v.using_encoded(|x| kv::set(&Self::key(k), x))
		}
		pub fn try_get<A: EncodeLike<K::Key>>(k: A) -> Result<V, ()> {
			read(&Self::key(k)).ok_or(())
		}
		pub fn set<A: EncodeLike<K::Key>>(k: A, q: Q::Query) {
			match Q::from_query_to_optional_value(q) {
				Some(v) => write(&Self::key(k), &v),
				None => kv::clear(&Self::key(k)),
			}
		}
		pub fn iter_values() -> std::vec::IntoIter<V> {
			kv::keys_with_prefix(&prefix::<P>()).iter().filter_map(|k| read(k)).collect::<Vec<_>>().into_iter()
		}
		pub fn mutate_exists<A: EncodeLike<K::Key>, R>(k: A, f: impl FnOnce(&mut Option<V>) -> R) -> R
		where
			V: 'static,
		{
			match rw::<V, OptionQuery, (), R, Void>(&Self::key(k), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate_exists<A: EncodeLike<K::Key>, R, ER>(k: A, f: impl FnOnce(&mut Option<V>) -> Result<R, ER>) -> Result<R, ER>
		where
			V: 'static,
		{
			rw::<V, OptionQuery, (), R, ER>(&Self::key(k), f)
		}
		pub fn remove<A: EncodeLike<K::Key>>(k: A) {
			kv::clear(&Self::key(k))
		}
		pub fn take<A: EncodeLike<K::Key>>(k: A) -> Q::Query {
			let k = Self::key(k);
			let r = Q::from_optional_value_to_query(read(&k));
			kv::clear(&k);
			r
		}
		pub fn mutate<A: EncodeLike<K::Key>, R>(k: A, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			match rw::<V, Q, E, R, Void>(&Self::key(k), |q| Ok(f(q))) {
				Ok(r) => r,
				Err(n) => match n {},
			}
		}
		pub fn try_mutate<A: EncodeLike<K::Key>, R, ER>(k: A, f: impl FnOnce(&mut Q::Query) -> Result<R, ER>) -> Result<R, ER> {
			rw::<V, Q, E, R, ER>(&Self::key(k), f)
		}
	}
}
