//! Bounded collections with the behaviour of `bounded-collections`.
use crate::Get;
use core::{marker::PhantomData, ops::Deref};
use parity_scale_codec::{Decode, Encode, EncodeLike, Error, Input, MaxEncodedLen};
use scale_info::TypeInfo;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Encode, TypeInfo)]
#[scale_info(skip_type_params(S))]
pub struct BoundedVec<T, S>(Vec<T>, PhantomData<S>);

impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let inner = Vec::<T>::decode(input)?;
		if inner.len() > S::get() as usize {
			return Err("BoundedVec exceeds its limit".into());
		}
		Ok(Self(inner, PhantomData))
	}
}
impl<T: Encode, S> EncodeLike<Vec<T>> for BoundedVec<T, S> where Vec<T>: Encode {}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S>
where
	BoundedVec<T, S>: Encode,
{
	fn max_encoded_len() -> usize {
		parity_scale_codec::Compact(S::get())
			.encoded_size()
			.saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len()))
	}
}
impl<T, S> Default for BoundedVec<T, S> {
	fn default() -> Self {
		Self(Vec::new(), PhantomData)
	}
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
	fn clone(&self) -> Self {
		Self(self.0.clone(), PhantomData)
	}
}
impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> {
	fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: PartialEq, S, S2> PartialEq<BoundedVec<T, S2>> for BoundedVec<T, S> {
	fn eq(&self, o: &BoundedVec<T, S2>) -> bool {
		self.0 == o.0
	}
}
impl<T: PartialEq, S> PartialEq<Vec<T>> for BoundedVec<T, S> {
	fn eq(&self, o: &Vec<T>) -> bool {
		&self.0 == o
	}
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: PartialOrd, S> PartialOrd for BoundedVec<T, S> {
	fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
		self.0.partial_cmp(&o.0)
	}
}
impl<T: Ord, S> Ord for BoundedVec<T, S> {
	fn cmp(&self, o: &Self) -> core::cmp::Ordering {
		self.0.cmp(&o.0)
	}
}
impl<T, S> Deref for BoundedVec<T, S> {
	type Target = Vec<T>;
	fn deref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
	fn as_ref(&self) -> &[T] {
		&self.0
	}
}
impl<T, S> AsRef<Vec<T>> for BoundedVec<T, S> {
	fn as_ref(&self) -> &Vec<T> {
		&self.0
	}
}
impl<T, S> From<BoundedVec<T, S>> for Vec<T> {
	fn from(b: BoundedVec<T, S>) -> Vec<T> {
		b.0
	}
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
	type Error = Vec<T>;
	fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
		if v.len() <= S::get() as usize {
			Ok(Self(v, PhantomData))
		} else {
			Err(v)
		}
	}
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
	type Item = T;
	type IntoIter = std::vec::IntoIter<T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
	type Item = &'a T;
	type IntoIter = std::slice::Iter<'a, T>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<T, S> BoundedVec<T, S> {
	pub const fn new() -> Self {
		Self(Vec::new(), PhantomData)
	}
	pub fn into_inner(self) -> Vec<T> {
		self.0
	}
	pub fn as_slice(&self) -> &[T] {
		&self.0
	}
	pub fn remove(&mut self, i: usize) -> T {
		self.0.remove(i)
	}
	pub fn swap_remove(&mut self, i: usize) -> T {
		self.0.swap_remove(i)
	}
	pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn truncate(&mut self, n: usize) {
		self.0.truncate(n)
	}
	pub fn pop(&mut self) -> Option<T> {
		self.0.pop()
	}
	pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
		self.0.iter_mut()
	}
	pub fn sort(&mut self)
	where
		T: Ord,
	{
		self.0.sort()
	}
	pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.0.sort_by(f)
	}
	pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
		self.0.sort_by_key(f)
	}
	pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
		self.0.drain(r)
	}
	pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
		self.0.get_mut(i)
	}
	pub fn last_mut(&mut self) -> Option<&mut T> {
		self.0.last_mut()
	}
	pub fn map<N, F: FnMut(T) -> N>(self, f: F) -> BoundedVec<N, S> {
		BoundedVec(self.0.into_iter().map(f).collect(), PhantomData)
	}
	pub fn try_map<N, E, F: FnMut(T) -> Result<N, E>>(self, f: F) -> Result<BoundedVec<N, S>, E> {
		Ok(BoundedVec(self.0.into_iter().map(f).collect::<Result<_, E>>()?, PhantomData))
	}
}
impl<T, S: Get<u32>> BoundedVec<T, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn is_full(&self) -> bool {
		self.0.len() >= Self::bound()
	}
	pub fn try_push(&mut self, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.push(t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_insert(&mut self, i: usize, t: T) -> Result<(), T> {
		if self.0.len() < Self::bound() {
			self.0.insert(i, t);
			Ok(())
		} else {
			Err(t)
		}
	}
	pub fn try_extend(&mut self, it: impl IntoIterator<Item = T>) -> Result<(), ()> {
		let add: Vec<T> = it.into_iter().collect();
		if self.0.len().saturating_add(add.len()) <= Self::bound() {
			self.0.extend(add);
			Ok(())
		} else {
			Err(())
		}
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn truncate_from(mut v: Vec<T>) -> Self {
		v.truncate(Self::bound());
		Self(v, PhantomData)
	}
	pub fn defensive_truncate_from(v: Vec<T>) -> Self {
		Self::truncate_from(v)
	}
}
impl<T, S> serde::Serialize for BoundedVec<T, S>
where
	T: serde::Serialize,
{
	fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
		self.0.serialize(z)
	}
}
impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for BoundedVec<T, S> {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let v = Vec::<T>::deserialize(d)?;
		Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
	}
}

pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> {
	type Error = &'a [T];
	fn try_from(s: &'a [T]) -> Result<Self, &'a [T]> {
		if s.len() <= S::get() as usize {
			Ok(Self(s, PhantomData))
		} else {
			Err(s)
		}
	}
}

#[derive(Encode, TypeInfo)]
#[scale_info(skip_type_params(S))]
pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
impl<K, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self(BTreeMap::new(), PhantomData)
	}
}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < S::get() as usize || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
}
#[derive(Encode, TypeInfo)]
#[scale_info(skip_type_params(S))]
pub struct BoundedBTreeSet<K, S>(BTreeSet<K>, PhantomData<S>);
impl<K, S> Default for BoundedBTreeSet<K, S> {
	fn default() -> Self {
		Self(BTreeSet::new(), PhantomData)
	}
}
impl<K, S> Deref for BoundedBTreeSet<K, S> {
	type Target = BTreeSet<K>;
	fn deref(&self) -> &BTreeSet<K> {
		&self.0
	}
}
