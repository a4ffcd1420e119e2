//! bounded-collections
use crate::support::traits::{Get, Len, TryCollect};
use parity_scale_codec::{Compact, Decode, DecodeLength, Encode, EncodeLike, Error, Input, MaxEncodedLen, Output};
use scale_info::TypeInfo;
use std::{
	cmp::Ordering,
	collections::{BTreeMap, BTreeSet},
	fmt,
	hash::{Hash, Hasher},
	marker::PhantomData,
	ops::{Deref, Index, IndexMut},
	slice::SliceIndex,
};

macro_rules! seq {
	($name:ident, $strict:expr) => {
		pub struct $name<T, S>(Vec<T>, PhantomData<fn() -> S>);
		impl<T, S> $name<T, S> {
			pub const fn new() -> Self {
				$name(vec![], PhantomData)
			}
			fn unchecked_from(v: Vec<T>) -> Self {
				$name(v, PhantomData)
			}
			pub fn into_inner(self) -> Vec<T> {
				self.0
			}
			pub fn as_slice(&self) -> &[T] {
				&self.0
			}
			pub fn as_mut_slice(&mut self) -> &mut [T] {
				&mut self.0
			}
			pub fn clear(&mut self) {
				self.0.clear()
			}
			pub fn remove(&mut self, i: usize) -> T {
				self.0.remove(i)
			}
			pub fn swap_remove(&mut self, i: usize) -> T {
				self.0.swap_remove(i)
			}
			pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
				self.0.retain(f)
			}
			pub fn retain_mut<F: FnMut(&mut T) -> bool>(&mut self, f: F) {
				self.0.retain_mut(f)
			}
			pub fn truncate(&mut self, n: usize) {
				self.0.truncate(n)
			}
			pub fn pop(&mut self) -> Option<T> {
				self.0.pop()
			}
			pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
				self.0.iter_mut()
			}
			pub fn last_mut(&mut self) -> Option<&mut T> {
				self.0.last_mut()
			}
			pub fn first_mut(&mut self) -> Option<&mut T> {
				self.0.first_mut()
			}
			pub fn get_mut<I: SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut I::Output> {
				self.0.get_mut(i)
			}
			pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> {
				self.0.drain(r)
			}
			pub fn sort(&mut self)
			where
				T: Ord,
			{
				self.0.sort()
			}
			pub fn sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) {
				self.0.sort_by(f)
			}
			pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) {
				self.0.sort_by_key(f)
			}
			pub fn reverse(&mut self) {
				self.0.reverse()
			}
		}
		impl<T, S: Get<u32>> $name<T, S> {
			pub fn bound() -> usize {
				S::get() as usize
			}
			pub fn is_full(&self) -> bool {
				self.0.len() >= Self::bound()
			}
			pub fn with_bounded_capacity(n: usize) -> Self {
				Self::unchecked_from(Vec::with_capacity(n.min(Self::bound())))
			}
			pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> {
				f(&mut self.0);
				(self.0.len() <= Self::bound()).then_some(self)
			}
			pub fn try_push(&mut self, x: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.push(x);
					Ok(())
				} else {
					Err(x)
				}
			}
			pub fn try_insert(&mut self, i: usize, x: T) -> Result<(), T> {
				if self.0.len() < Self::bound() {
					self.0.insert(i, x);
					Ok(())
				} else {
					Err(x)
				}
			}
			pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> {
				if o.len().saturating_add(self.0.len()) > Self::bound() {
					Err(())
				} else {
					self.0.append(o);
					Ok(())
				}
			}
			pub fn try_extend(&mut self, it: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> {
				if it.len().saturating_add(self.0.len()) <= Self::bound() {
					self.0.extend(it);
					Ok(())
				} else {
					Err(())
				}
			}
			pub fn try_resize(&mut self, n: usize, v: T) -> Result<(), ()>
			where
				T: Clone,
			{
				if n > Self::bound() {
					return Err(())
				}
				self.0.resize(n, v);
				Ok(())
			}
			pub fn truncate_from(mut v: Vec<T>) -> Self {
				v.truncate(Self::bound());
				Self::unchecked_from(v)
			}
			pub fn bounded_resize(&mut self, n: usize, v: T)
			where
				T: Clone,
			{
				self.0.resize(n.min(Self::bound()), v)
			}
			pub fn force_push(&mut self, x: T) {
				self.try_push(x).ok();
			}
			pub fn force_from(v: Vec<T>, _: Option<&'static str>) -> Self {
				Self::unchecked_from(v)
			}
		}
		impl<T, S> Default for $name<T, S> {
			fn default() -> Self {
				Self::unchecked_from(vec![])
			}
		}
		impl<T: fmt::Debug, S> fmt::Debug for $name<T, S> {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.debug_tuple(stringify!($name)).field(&self.0).finish()
			}
		}
		impl<T: Clone, S> Clone for $name<T, S> {
			fn clone(&self) -> Self {
				Self::unchecked_from(self.0.clone())
			}
		}
		impl<T: PartialEq, S1, S2> PartialEq<$name<T, S2>> for $name<T, S1> {
			fn eq(&self, o: &$name<T, S2>) -> bool {
				self.0 == o.0
			}
		}
		impl<T: Eq, S> Eq for $name<T, S> {}
		impl<T: PartialEq, S> PartialEq<Vec<T>> for $name<T, S> {
			fn eq(&self, o: &Vec<T>) -> bool {
				&self.0 == o
			}
		}
		impl<T: PartialEq, S, const N: usize> PartialEq<[T; N]> for $name<T, S> {
			fn eq(&self, o: &[T; N]) -> bool {
				self.0.as_slice() == o.as_slice()
			}
		}
		impl<'a, T: PartialEq, S> PartialEq<&'a [T]> for $name<T, S> {
			fn eq(&self, o: &&'a [T]) -> bool {
				self.0.as_slice() == *o
			}
		}
		impl<T: PartialOrd, S> PartialOrd for $name<T, S> {
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
				self.0.partial_cmp(&o.0)
			}
		}
		impl<T: Ord, S> Ord for $name<T, S> {
			fn cmp(&self, o: &Self) -> Ordering {
				self.0.cmp(&o.0)
			}
		}
		impl<T: Hash, S> Hash for $name<T, S> {
			fn hash<H: Hasher>(&self, h: &mut H) {
				self.0.hash(h)
			}
		}
		impl<T, S> Deref for $name<T, S> {
			type Target = Vec<T>;
			fn deref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<Vec<T>> for $name<T, S> {
			fn as_ref(&self) -> &Vec<T> {
				&self.0
			}
		}
		impl<T, S> AsRef<[T]> for $name<T, S> {
			fn as_ref(&self) -> &[T] {
				&self.0
			}
		}
		impl<T, S> AsMut<[T]> for $name<T, S> {
			fn as_mut(&mut self) -> &mut [T] {
				&mut self.0
			}
		}
		impl<T, S, I: SliceIndex<[T]>> Index<I> for $name<T, S> {
			type Output = I::Output;
			fn index(&self, i: I) -> &I::Output {
				&self.0[i]
			}
		}
		impl<T, S, I: SliceIndex<[T]>> IndexMut<I> for $name<T, S> {
			fn index_mut(&mut self, i: I) -> &mut I::Output {
				&mut self.0[i]
			}
		}
		impl<T, S> IntoIterator for $name<T, S> {
			type Item = T;
			type IntoIter = std::vec::IntoIter<T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.into_iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a $name<T, S> {
			type Item = &'a T;
			type IntoIter = std::slice::Iter<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter()
			}
		}
		impl<'a, T, S> IntoIterator for &'a mut $name<T, S> {
			type Item = &'a mut T;
			type IntoIter = std::slice::IterMut<'a, T>;
			fn into_iter(self) -> Self::IntoIter {
				self.0.iter_mut()
			}
		}
		impl<T, S: Get<u32>> TryFrom<Vec<T>> for $name<T, S> {
			type Error = Vec<T>;
			fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
				if v.len() <= Self::bound() {
					Ok(Self::unchecked_from(v))
				} else {
					Err(v)
				}
			}
		}
		impl<T, S> From<$name<T, S>> for Vec<T> {
			fn from(x: $name<T, S>) -> Vec<T> {
				x.0
			}
		}
		impl<T: Encode, S> Encode for $name<T, S> {
			fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
				self.0.encode_to(dest)
			}
		}
		impl<T: Encode, S> EncodeLike for $name<T, S> {}
		impl<T: Encode, S> EncodeLike<Vec<T>> for $name<T, S> {}
		impl<T: Decode, S: Get<u32>> Decode for $name<T, S> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let n = Compact::<u32>::decode(input)?.0;
				if $strict && n > S::get() {
					return Err("BoundedVec exceeds its limit".into())
				}
				let mut v = vec![];
				input.descend_ref()?;
				for _ in 0..n {
					v.push(T::decode(input)?);
				}
				input.ascend_ref();
				Ok(Self::unchecked_from(v))
			}
		}
		impl<T: Decode, S> DecodeLength for $name<T, S> {
			fn len(e: &[u8]) -> Result<usize, Error> {
				<Vec<T> as DecodeLength>::len(e)
			}
		}
		impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $name<T, S> {
			fn max_encoded_len() -> usize {
				Compact(S::get()).encoded_size().saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len()))
			}
		}
		impl<T, S> TypeInfo for $name<T, S> {
			type Identity = Self;
			fn type_info() -> scale_info::Type {
				Default::default()
			}
		}
		impl<T, S> Len for $name<T, S> {
			fn len(&self) -> usize {
				self.0.len()
			}
		}
		impl<T: serde::Serialize, S> serde::Serialize for $name<T, S> {
			fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
				self.0.serialize(s)
			}
		}
		impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $name<T, S> {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let v = Vec::<T>::deserialize(d)?;
				Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds"))
			}
		}
		impl<I: ExactSizeIterator, S: Get<u32>> TryCollect<$name<I::Item, S>> for I {
			type Error = &'static str;
			fn try_collect(self) -> Result<$name<I::Item, S>, Self::Error> {
				if self.len() > S::get() as usize {
					Err("iterator length too big")
				} else {
					Ok($name::unchecked_from(self.collect()))
				}
			}
		}
	};
}
seq!(BoundedVec, true);
seq!(WeakBoundedVec, false);
pub type BoundedSlice<'a, T, S> = (&'a [T], PhantomData<S>);

pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<fn() -> S>);
impl<K: Ord, V, S> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self {
		BoundedBTreeMap(BTreeMap::new(), PhantomData)
	}
	pub fn into_inner(self) -> BTreeMap<K, V> {
		self.0
	}
	pub fn clear(&mut self) {
		self.0.clear()
	}
	pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.get_mut(k)
	}
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<V>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove(k)
	}
	pub fn remove_entry<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<(K, V)>
	where
		K: std::borrow::Borrow<Q>,
	{
		self.0.remove_entry(k)
	}
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) {
		self.0.retain(f)
	}
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> {
		self.0.iter_mut()
	}
	pub fn values_mut(&mut self) -> std::collections::btree_map::ValuesMut<'_, K, V> {
		self.0.values_mut()
	}
}
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn bound() -> usize {
		S::get() as usize
	}
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeMap<K, V>)) -> Option<Self> {
		f(&mut self.0);
		(self.0.len() <= Self::bound()).then_some(self)
	}
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> {
		if self.0.len() < Self::bound() || self.0.contains_key(&k) {
			Ok(self.0.insert(k, v))
		} else {
			Err((k, v))
		}
	}
}
impl<K: Ord, V, S> Default for BoundedBTreeMap<K, V, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<K: Clone, V: Clone, S> Clone for BoundedBTreeMap<K, V, S> {
	fn clone(&self) -> Self {
		BoundedBTreeMap(self.0.clone(), PhantomData)
	}
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for BoundedBTreeMap<K, V, S> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		f.debug_tuple("BoundedBTreeMap").field(&self.0).finish()
	}
}
impl<K: PartialEq, V: PartialEq, S1, S2> PartialEq<BoundedBTreeMap<K, V, S2>> for BoundedBTreeMap<K, V, S1> {
	fn eq(&self, o: &BoundedBTreeMap<K, V, S2>) -> bool {
		self.0 == o.0
	}
}
impl<K: PartialEq, V: PartialEq, S> PartialEq<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	fn eq(&self, o: &BTreeMap<K, V>) -> bool {
		&self.0 == o
	}
}
impl<K: Eq, V: Eq, S> Eq for BoundedBTreeMap<K, V, S> {}
impl<K, V, S> Deref for BoundedBTreeMap<K, V, S> {
	type Target = BTreeMap<K, V>;
	fn deref(&self) -> &BTreeMap<K, V> {
		&self.0
	}
}
impl<K: Ord, V, S: Get<u32>> TryFrom<BTreeMap<K, V>> for BoundedBTreeMap<K, V, S> {
	type Error = ();
	fn try_from(v: BTreeMap<K, V>) -> Result<Self, ()> {
		(v.len() <= Self::bound()).then_some(BoundedBTreeMap(v, PhantomData)).ok_or(())
	}
}
impl<K, V, S> IntoIterator for BoundedBTreeMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = std::collections::btree_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a BoundedBTreeMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = std::collections::btree_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<K: Encode, V: Encode, S> Encode for BoundedBTreeMap<K, V, S> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.0.encode_to(dest)
	}
}
impl<K: Encode, V: Encode, S> EncodeLike for BoundedBTreeMap<K, V, S> {}
impl<K: Decode + Ord, V: Decode, S: Get<u32>> Decode for BoundedBTreeMap<K, V, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let n = Compact::<u32>::decode(input)?.0;
		if n > S::get() {
			return Err("BoundedBTreeMap exceeds its limit".into())
		}
		let mut m = BTreeMap::new();
		for _ in 0..n {
			let (k, v) = <(K, V)>::decode(input)?;
			m.insert(k, v);
		}
		Ok(BoundedBTreeMap(m, PhantomData))
	}
}
impl<K: MaxEncodedLen, V: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeMap<K, V, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(K::max_encoded_len().saturating_add(V::max_encoded_len())).saturating_add(Compact(S::get()).encoded_size())
	}
}
impl<K, V, S> TypeInfo for BoundedBTreeMap<K, V, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}

pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<fn() -> S>);
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn new() -> Self {
		BoundedBTreeSet(BTreeSet::new(), PhantomData)
	}
	pub fn into_inner(self) -> BTreeSet<T> {
		self.0
	}
	pub fn try_insert(&mut self, x: T) -> Result<bool, T> {
		if self.0.len() < S::get() as usize || self.0.contains(&x) {
			Ok(self.0.insert(x))
		} else {
			Err(x)
		}
	}
	pub fn remove(&mut self, x: &T) -> bool {
		self.0.remove(x)
	}
}
impl<T, S> Deref for BoundedBTreeSet<T, S> {
	type Target = BTreeSet<T>;
	fn deref(&self) -> &BTreeSet<T> {
		&self.0
	}
}
impl<T: Ord, S: Get<u32>> Default for BoundedBTreeSet<T, S> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: Clone, S> Clone for BoundedBTreeSet<T, S> {
	fn clone(&self) -> Self {
		BoundedBTreeSet(self.0.clone(), PhantomData)
	}
}
impl<T: fmt::Debug, S> fmt::Debug for BoundedBTreeSet<T, S> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: PartialEq, S> PartialEq for BoundedBTreeSet<T, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: Eq, S> Eq for BoundedBTreeSet<T, S> {}
impl<T: Encode, S> Encode for BoundedBTreeSet<T, S> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.0.encode_to(dest)
	}
}
impl<T: Encode, S> EncodeLike for BoundedBTreeSet<T, S> {}
impl<T: Decode + Ord, S: Get<u32>> Decode for BoundedBTreeSet<T, S> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let s = BTreeSet::<T>::decode(input)?;
		if s.len() > S::get() as usize {
			return Err("BoundedBTreeSet exceeds its limit".into())
		}
		Ok(BoundedBTreeSet(s, PhantomData))
	}
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedBTreeSet<T, S> {
	fn max_encoded_len() -> usize {
		(S::get() as usize).saturating_mul(T::max_encoded_len()).saturating_add(Compact(S::get()).encoded_size())
	}
}
impl<T, S> TypeInfo for BoundedBTreeSet<T, S> {
	type Identity = Self;
	fn type_info() -> scale_info::Type {
		Default::default()
	}
}
