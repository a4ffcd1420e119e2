//! frame_support::storage
pub use self::types::Key;
use super::traits::{Get, GetDefault, Len, StorageInstance};
use crate::core_::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
use crate::hashing::*;
use parity_scale_codec::{Decode, Encode, EncodeLike, FullCodec, FullEncode, MaxEncodedLen};
use std::marker::PhantomData;

pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: MaxEncodedLen>() -> usize {
		0
	}
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
macro_rules! hasher {
	($n:ident, $o:ty, |$x:ident| $e:expr $(, rev $k:expr)?) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n {
			type Output = $o;
			fn hash($x: &[u8]) -> $o { $e }
		}
		$( impl ReversibleStorageHasher for $n {
			fn reverse(x: &[u8]) -> &[u8] { x.get($k..).unwrap_or(&[]) }
		} )?
	};
}
hasher!(Identity, Vec<u8>, |x| x.to_vec(), rev 0);
hasher!(Twox64Concat, Vec<u8>, |x| [&twox_64(x)[..], x].concat(), rev 8);
hasher!(Blake2_128Concat, Vec<u8>, |x| [&blake2_128(x)[..], x].concat(), rev 16);
hasher!(Blake2_128, [u8; 16], |x| blake2_128(x));
hasher!(Blake2_256, [u8; 32], |x| blake2_256(x));
hasher!(Twox128, [u8; 16], |x| twox_128(x));
hasher!(Twox256, [u8; 32], |x| twox_256(x));
pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: parity_scale_codec::Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		self.using_encoded(blake2_128)
	}
	fn blake2_256(&self) -> [u8; 32] {
		self.using_encoded(blake2_256)
	}
	fn blake2_128_concat(&self) -> Vec<u8> {
		self.using_encoded(Blake2_128Concat::hash)
	}
	fn twox_128(&self) -> [u8; 16] {
		self.using_encoded(twox_128)
	}
	fn twox_256(&self) -> [u8; 32] {
		self.using_encoded(twox_256)
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		self.using_encoded(Twox64Concat::hash)
	}
	fn identity(&self) -> Vec<u8> {
		self.encode()
	}
}

pub mod unhashed {
	use super::*;
	pub fn get<T: Decode>(k: &[u8]) -> Option<T> {
		crate::io::storage::get(k).and_then(|v| match T::decode(&mut &v[..]) {
			Ok(x) => Some(x),
			Err(_) => {
				super::DECODE_FAILURES.with(|c| c.set(c.get() + 1));
				log::error!("Corrupted state at `{k:?}`");
				None
			},
		})
	}
	pub fn put<T: Encode + ?Sized>(k: &[u8], v: &T) {
		crate::io::storage::set(k, &v.encode())
	}
	pub fn take<T: Decode>(k: &[u8]) -> Option<T> {
		let r = get(k);
		if r.is_some() {
			kill(k)
		}
		r
	}
	pub fn exists(k: &[u8]) -> bool {
		crate::io::storage::exists(k)
	}
	pub fn kill(k: &[u8]) {
		crate::io::storage::clear(k)
	}
	pub fn get_raw(k: &[u8]) -> Option<Vec<u8>> {
		crate::io::storage::get(k)
	}
	pub fn put_raw(k: &[u8], v: &[u8]) {
		crate::io::storage::set(k, v)
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>, _: Option<&[u8]>) -> crate::io::MultiRemovalResults {
		crate::io::storage::clear_prefix(p, limit)
	}
}
thread_local! { static DECODE_FAILURES: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// not in frame-support: stored values that did not decode since the last call
pub fn take_decode_failures() -> u64 {
	DECODE_FAILURES.with(|c| c.replace(0))
}
pub mod child {
	use super::*;
	pub use crate::core_::storage::{ChildInfo, StateVersion};
	use crate::io::default_child_storage as s;
	pub fn get<T: Decode>(c: &ChildInfo, k: &[u8]) -> Option<T> {
		s::get(c.storage_key(), k).and_then(|v| T::decode(&mut &v[..]).ok())
	}
	pub fn put<T: Encode>(c: &ChildInfo, k: &[u8], v: &T) {
		s::set(c.storage_key(), k, &v.encode())
	}
	pub fn get_raw(c: &ChildInfo, k: &[u8]) -> Option<Vec<u8>> {
		s::get(c.storage_key(), k)
	}
	pub fn put_raw(c: &ChildInfo, k: &[u8], v: &[u8]) {
		s::set(c.storage_key(), k, v)
	}
	pub fn kill(c: &ChildInfo, k: &[u8]) {
		s::clear(c.storage_key(), k)
	}
	pub fn exists(c: &ChildInfo, k: &[u8]) -> bool {
		s::exists(c.storage_key(), k)
	}
	pub fn clear_storage(c: &ChildInfo, limit: Option<u32>, _: Option<&[u8]>) -> crate::io::MultiRemovalResults {
		s::storage_kill(c.storage_key(), limit)
	}
	pub fn root(c: &ChildInfo, _: StateVersion) -> Vec<u8> {
		s::root(c.storage_key())
	}
}
pub struct ChildTriePrefixIterator<T> {
	prefix: Vec<u8>,
	child: child::ChildInfo,
	previous: Vec<u8>,
	first: bool,
	decode: fn(&[u8], &[u8]) -> Result<T, parity_scale_codec::Error>,
}
impl<T: Decode + Sized> ChildTriePrefixIterator<(Vec<u8>, T)> {
	pub fn with_prefix(c: &child::ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator {
			prefix: prefix.to_vec(),
			child: c.clone(),
			previous: prefix.to_vec(),
			first: true,
			decode: |k, mut v| Ok((k.to_vec(), T::decode(&mut v)?)),
		}
	}
}
impl<K: Decode + Sized, T: Decode + Sized> ChildTriePrefixIterator<(K, T)> {
	pub fn with_prefix_over_key<H: ReversibleStorageHasher>(c: &child::ChildInfo, prefix: &[u8]) -> Self {
		ChildTriePrefixIterator {
			prefix: prefix.to_vec(),
			child: c.clone(),
			previous: prefix.to_vec(),
			first: true,
			decode: |k, mut v| Ok((K::decode(&mut H::reverse(k))?, T::decode(&mut v)?)),
		}
	}
}
impl<T> Iterator for ChildTriePrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		use crate::io::default_child_storage as s;
		loop {
			let c = self.child.storage_key();
			let k = if std::mem::take(&mut self.first) && s::exists(c, &self.prefix) {
				self.prefix.clone()
			} else {
				s::next_key(c, &self.previous).filter(|n| n.starts_with(&self.prefix))?
			};
			self.previous = k;
			let Some(raw) = s::get(c, &self.previous) else { continue };
			match (self.decode)(&self.previous[self.prefix.len()..], &raw[..]) {
				Ok(x) => return Some(x),
				Err(e) => {
					log::error!("(key, value) failed to decode at {:?}: {:?}", self.previous, e);
					continue
				},
			}
		}
	}
}

/// keys below a prefix, found one after the other, so that mutation while iterating is seen
pub struct PrefixIterator<T> {
	prefix: Vec<u8>,
	previous: Vec<u8>,
	drain: bool,
	f: Box<dyn Fn(&[u8], &[u8]) -> Result<T, parity_scale_codec::Error>>,
}
pub type KeyPrefixIterator<T> = PrefixIterator<T>;
impl<T> PrefixIterator<T> {
	fn over(prefix: Vec<u8>, f: impl Fn(&[u8], &[u8]) -> Result<T, parity_scale_codec::Error> + 'static) -> Self {
		PrefixIterator { previous: prefix.clone(), prefix, drain: false, f: Box::new(f) }
	}
	pub fn drain(mut self) -> Self {
		self.drain = true;
		self
	}
	/// from the key after `k`
	fn after(mut self, k: Vec<u8>) -> Self {
		self.previous = k;
		self
	}
	pub fn last_raw_key(&self) -> &[u8] {
		&self.previous
	}
	pub fn set_last_raw_key(&mut self, k: Vec<u8>) {
		self.previous = k
	}
}
impl<T> Iterator for PrefixIterator<T> {
	type Item = T;
	fn next(&mut self) -> Option<T> {
		loop {
			let k = crate::io::storage::next_key(&self.previous).filter(|n| n.starts_with(&self.prefix))?;
			self.previous = k;
			let Some(raw) = crate::io::storage::get(&self.previous) else { continue };
			if self.drain {
				crate::io::storage::clear(&self.previous)
			}
			match (self.f)(&self.previous[self.prefix.len()..], &raw[..]) {
				Ok(x) => return Some(x),
				Err(e) => {
					DECODE_FAILURES.with(|c| c.set(c.get() + 1));
					log::error!("(key, value) failed to decode at {:?}: {:?}", self.previous, e);
					continue
				},
			}
		}
	}
}

pub struct OptionQuery;
pub struct ValueQuery;
pub struct ResultQuery<E>(PhantomData<E>);
pub trait QueryKindTrait<V, OnEmpty> {
	type Query: 'static;
	fn from_optional_value_to_query(v: Option<V>) -> Self::Query;
	fn from_query_to_optional_value(q: Self::Query) -> Option<V>;
}
impl<V: 'static> QueryKindTrait<V, GetDefault> for OptionQuery {
	type Query = Option<V>;
	fn from_optional_value_to_query(v: Option<V>) -> Option<V> {
		v
	}
	fn from_query_to_optional_value(q: Option<V>) -> Option<V> {
		q
	}
}
impl<V: 'static, O: Get<V>> QueryKindTrait<V, O> for ValueQuery {
	type Query = V;
	fn from_optional_value_to_query(v: Option<V>) -> V {
		v.unwrap_or_else(O::get)
	}
	fn from_query_to_optional_value(q: V) -> Option<V> {
		Some(q)
	}
}
pub fn storage_prefix(pallet: &[u8], item: &[u8]) -> [u8; 32] {
	let mut r = [0; 32];
	r[..16].copy_from_slice(&twox_128(pallet));
	r[16..].copy_from_slice(&twox_128(item));
	r
}
pub trait StorageAppend<Item: Encode>: sealed::S {}
pub trait StorageDecodeLength: sealed::S {}
pub trait TryAppendValue {
	type Item;
	fn bound() -> usize;
}
mod sealed {
	pub trait S {}
}
impl<T, B: Get<u32>> TryAppendValue for BoundedVec<T, B> {
	type Item = T;
	fn bound() -> usize {
		B::get() as usize
	}
}
impl<T, B: Get<u32>> TryAppendValue for BoundedBTreeSet<T, B> {
	type Item = T;
	fn bound() -> usize {
		B::get() as usize
	}
}
#[allow(dead_code)]
type _U<K, V, S> = BoundedBTreeMap<K, V, S>;

/// operations on the value under one final key, shared by all kinds of storage item
struct Slot<V, Q, O>(Vec<u8>, PhantomData<(V, Q, O)>);
impl<V: FullCodec, Q: QueryKindTrait<V, O>, O: 'static> Slot<V, Q, O> {
	fn new(k: Vec<u8>) -> Self {
		Slot(k, PhantomData)
	}
	fn opt(&self) -> Option<V> {
		unhashed::get(&self.0)
	}
	fn get(&self) -> Q::Query {
		Q::from_optional_value_to_query(self.opt())
	}
	fn store(&self, v: Option<V>) {
		match v {
			Some(v) => unhashed::put(&self.0, &v),
			None => unhashed::kill(&self.0),
		}
	}
	fn set(&self, q: Q::Query) {
		self.store(Q::from_query_to_optional_value(q))
	}
	fn take(&self) -> Q::Query {
		Q::from_optional_value_to_query(unhashed::take(&self.0))
	}
	fn try_mutate<R, E>(&self, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
		let mut v = self.get();
		let r = f(&mut v);
		if r.is_ok() {
			self.set(v)
		}
		r
	}
	fn try_mutate_exists<R, E>(&self, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
		let mut v = self.opt();
		let r = f(&mut v);
		if r.is_ok() {
			self.store(v)
		}
		r
	}
	fn try_append<I: Encode>(&self, item: I) -> Result<(), ()>
	where
		V: TryAppendValue + Len,
	{
		let n = self.opt().map_or(0, |v| Len::len(&v));
		if n < V::bound() {
			crate::io::storage::append(&self.0, item.encode());
			Ok(())
		} else {
			Err(())
		}
	}
}
fn ok<T>(r: Result<T, std::convert::Infallible>) -> T {
	match r {
		Ok(x) => x,
		Err(e) => match e {},
	}
}
fn value_prefix<P: StorageInstance>() -> Vec<u8> {
	storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec()
}

pub mod types {
	use super::*;
	pub use super::{OptionQuery, QueryKindTrait, ResultQuery, ValueQuery};
	macro_rules! common {
		() => {
			pub fn module_prefix() -> &'static [u8] {
				P::pallet_prefix().as_bytes()
			}
			pub fn prefix_hash() -> [u8; 32] {
				storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
			}
			pub fn clear(limit: u32, _: Option<&[u8]>) -> crate::io::MultiRemovalResults {
				crate::io::storage::clear_prefix(&value_prefix::<P>(), Some(limit))
			}
			pub fn remove_all(limit: Option<u32>) -> crate::io::MultiRemovalResults {
				crate::io::storage::clear_prefix(&value_prefix::<P>(), limit)
			}
		};
	}
	/// per-key operations, for items whose key is `$k`
	macro_rules! keyed {
		(($($a:ident : $t:ident),*), ($($g:ident: EncodeLike<$b:ident>),*), $key:expr) => {
			#[allow(unused)]
			fn slot<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Slot<V, Q, O> {
				Slot::new($key)
			}
			pub fn hashed_key_for<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Vec<u8> {
				Self::slot($($a),*).0
			}
			pub fn contains_key<$($g: EncodeLike<$b>),*>($($a: $t),*) -> bool {
				unhashed::exists(&Self::slot($($a),*).0)
			}
			pub fn get<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Q::Query {
				Self::slot($($a),*).get()
			}
			pub fn try_get<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Result<V, ()> {
				Self::slot($($a),*).opt().ok_or(())
			}
			pub fn insert<$($g: EncodeLike<$b>,)* VV: EncodeLike<V>>($($a: $t,)* v: VV) {
				unhashed::put(&Self::slot($($a),*).0, &v)
			}
			pub fn set<$($g: EncodeLike<$b>),*>($($a: $t,)* q: Q::Query) {
				Self::slot($($a),*).set(q)
			}
			pub fn remove<$($g: EncodeLike<$b>),*>($($a: $t),*) {
				unhashed::kill(&Self::slot($($a),*).0)
			}
			pub fn take<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Q::Query {
				Self::slot($($a),*).take()
			}
			pub fn mutate<$($g: EncodeLike<$b>,)* R, F: FnOnce(&mut Q::Query) -> R>($($a: $t,)* f: F) -> R {
				ok(Self::slot($($a),*).try_mutate(|v| Ok(f(v))))
			}
			pub fn try_mutate<$($g: EncodeLike<$b>,)* R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>($($a: $t,)* f: F) -> Result<R, E> {
				Self::slot($($a),*).try_mutate(f)
			}
			pub fn mutate_exists<$($g: EncodeLike<$b>,)* R, F: FnOnce(&mut Option<V>) -> R>($($a: $t,)* f: F) -> R {
				ok(Self::slot($($a),*).try_mutate_exists(|v| Ok(f(v))))
			}
			pub fn try_mutate_exists<$($g: EncodeLike<$b>,)* R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>($($a: $t,)* f: F) -> Result<R, E> {
				Self::slot($($a),*).try_mutate_exists(f)
			}
			pub fn append<$($g: EncodeLike<$b>,)* I: Encode>($($a: $t,)* item: I) where V: Len {
				crate::io::storage::append(&Self::slot($($a),*).0, item.encode())
			}
			pub fn try_append<$($g: EncodeLike<$b>,)* I: Encode>($($a: $t,)* item: I) -> Result<(), ()> where V: TryAppendValue + Len {
				Self::slot($($a),*).try_append(item)
			}
			pub fn decode_len<$($g: EncodeLike<$b>),*>($($a: $t),*) -> Option<usize> where V: Len {
				Self::slot($($a),*).opt().map(|v| Len::len(&v))
			}
		};
	}
	pub struct StorageValue<P, V, Q = OptionQuery, O = GetDefault>(PhantomData<(P, V, Q, O)>);
	impl<P: StorageInstance, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static> StorageValue<P, V, Q, O> {
		fn slot() -> Slot<V, Q, O> {
			Slot::new(value_prefix::<P>())
		}
		pub fn hashed_key() -> [u8; 32] {
			storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes())
		}
		pub fn exists() -> bool {
			unhashed::exists(&Self::slot().0)
		}
		pub fn get() -> Q::Query {
			Self::slot().get()
		}
		pub fn try_get() -> Result<V, ()> {
			Self::slot().opt().ok_or(())
		}
		pub fn put<A: EncodeLike<V>>(v: A) {
			unhashed::put(&Self::slot().0, &v)
		}
		pub fn set(q: Q::Query) {
			Self::slot().set(q)
		}
		pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
			ok(Self::slot().try_mutate(|v| Ok(f(v))))
		}
		pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
			Self::slot().try_mutate(f)
		}
		pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R {
			ok(Self::slot().try_mutate_exists(|v| Ok(f(v))))
		}
		pub fn try_mutate_exists<R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(f: F) -> Result<R, E> {
			Self::slot().try_mutate_exists(f)
		}
		pub fn kill() {
			unhashed::kill(&Self::slot().0)
		}
		pub fn take() -> Q::Query {
			Self::slot().take()
		}
		pub fn append<I: Encode>(item: I)
		where
			V: Len,
		{
			crate::io::storage::append(&Self::slot().0, item.encode())
		}
		pub fn try_append<I: Encode>(item: I) -> Result<(), ()>
		where
			V: TryAppendValue + Len,
		{
			Self::slot().try_append(item)
		}
		pub fn decode_len() -> Option<usize>
		where
			V: Len,
		{
			Self::slot().opt().map(|v| Len::len(&v))
		}
		pub fn translate<Old: Decode, F: FnOnce(Option<Old>) -> Option<V>>(f: F) -> Result<Option<V>, ()> {
			let k = Self::slot().0;
			let old = match crate::io::storage::get(&k) {
				None => None,
				Some(d) => Some(Old::decode(&mut &d[..]).map_err(|_| ())?),
			};
			let new = f(old);
			match new.as_ref() {
				Some(v) => unhashed::put(&k, v),
				None => unhashed::kill(&k),
			}
			Ok(new)
		}
	}
	pub struct StorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullEncode + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
		common!();
		keyed!((k: KA), (KA: EncodeLike<K>), [value_prefix::<P>().as_slice(), k.using_encoded(H::hash).as_ref()].concat());
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::over(value_prefix::<P>(), |_, mut v| V::decode(&mut v))
		}
		pub fn migrate_key<OH: StorageHasher, KA: EncodeLike<K>>(k: KA) -> Option<V> {
			let old = [value_prefix::<P>().as_slice(), k.using_encoded(OH::hash).as_ref()].concat();
			let v: Option<V> = unhashed::take(&old);
			if let Some(v) = &v {
				unhashed::put(&Self::hashed_key_for(k), v)
			}
			v
		}
		pub fn translate_values<Old: Decode, F: FnMut(Old) -> Option<V>>(mut f: F) {
			let mut k = value_prefix::<P>();
			while let Some(next) = crate::io::storage::next_key(&k).filter(|n| n.starts_with(&value_prefix::<P>())) {
				if let Some(old) = unhashed::get::<Old>(&next) {
					match f(old) {
						Some(v) => unhashed::put(&next, &v),
						None => unhashed::kill(&next),
					}
				}
				k = next;
			}
		}
		pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
			let (x, y) = (Self::slot(a), Self::slot(b));
			let (vx, vy) = (x.opt(), y.opt());
			x.store(vy);
			y.store(vx);
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> StorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			PrefixIterator::over(value_prefix::<P>(), |k, mut v| Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut v)?)))
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			PrefixIterator::over(value_prefix::<P>(), |k, _| K::decode(&mut H::reverse(k)))
		}
		pub fn iter_from(starting_raw_key: Vec<u8>) -> PrefixIterator<(K, V)> {
			Self::iter().after(starting_raw_key)
		}
		pub fn iter_from_key(k: impl EncodeLike<K>) -> PrefixIterator<(K, V)> {
			Self::iter_from(Self::hashed_key_for(k))
		}
		pub fn iter_keys_from(starting_raw_key: Vec<u8>) -> PrefixIterator<K> {
			Self::iter_keys().after(starting_raw_key)
		}
		pub fn iter_keys_from_key(k: impl EncodeLike<K>) -> PrefixIterator<K> {
			Self::iter_keys_from(Self::hashed_key_for(k))
		}
		pub fn drain() -> PrefixIterator<(K, V)> {
			Self::iter().drain()
		}
		pub fn translate<Old: Decode, F: FnMut(K, Old) -> Option<V>>(mut f: F) {
			for (k, old) in PrefixIterator::<(K, Old)>::over(value_prefix::<P>(), |k, mut v| Ok((K::decode(&mut H::reverse(k))?, Old::decode(&mut v)?))) {
				let key = k.using_encoded(|e| [value_prefix::<P>().as_slice(), H::hash(e).as_ref()].concat());
				match f(k, old) {
					Some(v) => unhashed::put(&key, &v),
					None => unhashed::kill(&key),
				}
			}
		}
	}
	/// a map that counts its entries
	pub struct CountedStorageMap<P, H, K, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H, K, V, Q, O, M)>);
	impl<P: StorageInstance, H: StorageHasher, K: FullEncode + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		fn counter() -> Vec<u8> {
			storage_prefix(P::pallet_prefix().as_bytes(), format!("CounterFor{}", P::STORAGE_PREFIX).as_bytes()).to_vec()
		}
		fn counted<R>(k: &[u8], f: impl FnOnce() -> R) -> R {
			let before = unhashed::exists(k);
			let r = f();
			let n = Self::count();
			match (before, unhashed::exists(k)) {
				(false, true) => unhashed::put(&Self::counter(), &n.saturating_add(1)),
				(true, false) => unhashed::put(&Self::counter(), &n.saturating_sub(1)),
				_ => (),
			}
			r
		}
		pub fn count() -> u32 {
			unhashed::get(&Self::counter()).unwrap_or(0)
		}
		pub fn contains_key(k: impl EncodeLike<K>) -> bool {
			StorageMap::<P, H, K, V, Q, O, M>::contains_key(k)
		}
		pub fn hashed_key_for(k: impl EncodeLike<K>) -> Vec<u8> {
			StorageMap::<P, H, K, V, Q, O, M>::hashed_key_for(k)
		}
		pub fn get(k: impl EncodeLike<K>) -> Q::Query {
			StorageMap::<P, H, K, V, Q, O, M>::get(k)
		}
		pub fn try_get(k: impl EncodeLike<K>) -> Result<V, ()> {
			StorageMap::<P, H, K, V, Q, O, M>::try_get(k)
		}
		fn slot(k: impl EncodeLike<K>) -> Slot<V, Q, O> {
			Slot::new(Self::hashed_key_for(k))
		}
		pub fn insert(k: impl EncodeLike<K>, v: impl EncodeLike<V>) {
			let s = Self::slot(k);
			Self::counted(&s.0, || unhashed::put(&s.0, &v))
		}
		pub fn set(k: impl EncodeLike<K>, q: Q::Query) {
			let s = Self::slot(k);
			Self::counted(&s.0, || s.set(q))
		}
		pub fn remove(k: impl EncodeLike<K>) {
			let s = Self::slot(k);
			Self::counted(&s.0, || unhashed::kill(&s.0))
		}
		pub fn take(k: impl EncodeLike<K>) -> Q::Query {
			let s = Self::slot(k);
			Self::counted(&s.0, || s.take())
		}
		pub fn mutate<R>(k: impl EncodeLike<K>, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			let s = Self::slot(k);
			Self::counted(&s.0, || ok(s.try_mutate(|v| Ok(f(v)))))
		}
		pub fn try_mutate<R, E>(k: impl EncodeLike<K>, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			let s = Self::slot(k);
			Self::counted(&s.0, || s.try_mutate(f))
		}
		pub fn mutate_exists<R>(k: impl EncodeLike<K>, f: impl FnOnce(&mut Option<V>) -> R) -> R {
			let s = Self::slot(k);
			Self::counted(&s.0, || ok(s.try_mutate_exists(|v| Ok(f(v)))))
		}
		pub fn try_mutate_exists<R, E>(k: impl EncodeLike<K>, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
			let s = Self::slot(k);
			Self::counted(&s.0, || s.try_mutate_exists(f))
		}
		pub fn iter_values() -> PrefixIterator<V> {
			StorageMap::<P, H, K, V, Q, O, M>::iter_values()
		}
	}
	impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> CountedStorageMap<P, H, K, V, Q, O, M> {
		pub fn iter() -> PrefixIterator<(K, V)> {
			StorageMap::<P, H, K, V, Q, O, M>::iter()
		}
		pub fn iter_keys() -> PrefixIterator<K> {
			StorageMap::<P, H, K, V, Q, O, M>::iter_keys()
		}
	}
	pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, H1, K1, H2, K2, V, Q, O, M)>);
	impl<P: StorageInstance, H1: StorageHasher, K1: FullEncode + 'static, H2: StorageHasher, K2: FullEncode + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		common!();
		keyed!((k1: KA, k2: KB), (KA: EncodeLike<K1>, KB: EncodeLike<K2>), [value_prefix::<P>().as_slice(), k1.using_encoded(H1::hash).as_ref(), k2.using_encoded(H2::hash).as_ref()].concat());
		fn prefix1(k1: impl EncodeLike<K1>) -> Vec<u8> {
			[value_prefix::<P>().as_slice(), k1.using_encoded(H1::hash).as_ref()].concat()
		}
		pub fn iter_prefix_values(k1: impl EncodeLike<K1>) -> PrefixIterator<V> {
			PrefixIterator::over(Self::prefix1(k1), |_, mut v| V::decode(&mut v))
		}
		pub fn clear_prefix(k1: impl EncodeLike<K1>, limit: u32, _: Option<&[u8]>) -> crate::io::MultiRemovalResults {
			crate::io::storage::clear_prefix(&Self::prefix1(k1), Some(limit))
		}
		pub fn remove_prefix(k1: impl EncodeLike<K1>, limit: Option<u32>) -> crate::io::KillStorageResult {
			crate::io::storage::clear_prefix(&Self::prefix1(k1), limit).into()
		}
		pub fn swap<A1: EncodeLike<K1>, A2: EncodeLike<K2>, B1: EncodeLike<K1>, B2: EncodeLike<K2>>(a1: A1, a2: A2, b1: B1, b2: B2) {
			let (x, y) = (Self::slot(a1, a2), Self::slot(b1, b2));
			let (vx, vy) = (x.opt(), y.opt());
			x.store(vy);
			y.store(vx);
		}
		pub fn contains_prefix(k1: impl EncodeLike<K1>) -> bool {
			let p = Self::prefix1(k1);
			crate::io::storage::next_key(&p).map_or(false, |k| k.starts_with(&p))
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::over(value_prefix::<P>(), |_, mut v| V::decode(&mut v))
		}
	}
	impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec + 'static, H2: ReversibleStorageHasher, K2: FullCodec + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M>
		StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>
	{
		pub fn iter_prefix(k1: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
			PrefixIterator::over(Self::prefix1(k1), |k, mut v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut v)?)))
		}
		pub fn iter_key_prefix(k1: impl EncodeLike<K1>) -> PrefixIterator<K2> {
			PrefixIterator::over(Self::prefix1(k1), |k, _| K2::decode(&mut H2::reverse(k)))
		}
		pub fn iter_prefix_from(k1: impl EncodeLike<K1>, starting_raw_key: Vec<u8>) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(k1).after(starting_raw_key)
		}
		pub fn iter_key_prefix_from(k1: impl EncodeLike<K1>, starting_raw_key: Vec<u8>) -> PrefixIterator<K2> {
			Self::iter_key_prefix(k1).after(starting_raw_key)
		}
		pub fn iter_from(starting_raw_key: Vec<u8>) -> PrefixIterator<(K1, K2, V)> {
			Self::iter().after(starting_raw_key)
		}
		pub fn iter_keys_from(starting_raw_key: Vec<u8>) -> PrefixIterator<(K1, K2)> {
			Self::iter_keys().after(starting_raw_key)
		}
		pub fn translate<Old: Decode, F: FnMut(K1, K2, Old) -> Option<V>>(mut f: F) {
			let all: Vec<(K1, K2, Old)> = PrefixIterator::over(value_prefix::<P>(), |k, mut v| {
				let mut r = H1::reverse(k);
				let k1 = K1::decode(&mut r)?;
				Ok((k1, K2::decode(&mut H2::reverse(r))?, Old::decode(&mut v)?))
			})
			.collect();
			for (k1, k2, old) in all {
				let key = [value_prefix::<P>().as_slice(), k1.using_encoded(H1::hash).as_ref(), k2.using_encoded(H2::hash).as_ref()].concat();
				match f(k1, k2, old) {
					Some(v) => unhashed::put(&key, &v),
					None => unhashed::kill(&key),
				}
			}
		}
		pub fn drain_prefix(k1: impl EncodeLike<K1>) -> PrefixIterator<(K2, V)> {
			Self::iter_prefix(k1).drain()
		}
		pub fn iter() -> PrefixIterator<(K1, K2, V)> {
			PrefixIterator::over(value_prefix::<P>(), |k, mut v| {
				let mut r = H1::reverse(k);
				let k1 = K1::decode(&mut r)?;
				Ok((k1, K2::decode(&mut H2::reverse(r))?, V::decode(&mut v)?))
			})
		}
		pub fn iter_keys() -> PrefixIterator<(K1, K2)> {
			PrefixIterator::over(value_prefix::<P>(), |k, _| {
				let mut r = H1::reverse(k);
				let k1 = K1::decode(&mut r)?;
				Ok((k1, K2::decode(&mut H2::reverse(r))?))
			})
		}
		pub fn drain() -> PrefixIterator<(K1, K2, V)> {
			Self::iter().drain()
		}
	}
	/// one component of an n-map key
	pub struct Key<H, K>(PhantomData<(H, K)>);
	pub struct StorageNMap<P, Ks, V, Q = OptionQuery, O = GetDefault, M = GetDefault>(PhantomData<(P, Ks, V, Q, O, M)>);
	pub trait KeyGenerator {
		type Key;
		fn decode(k: &[u8]) -> Result<Self::Key, parity_scale_codec::Error>;
	}
	pub trait EncodeKey<Ks> {
		fn final_key(&self) -> Vec<u8>;
	}
	/// a tuple that is a proper prefix of the key
	pub trait EncodePrefix<Ks> {
		type Rest;
		fn partial_key(&self) -> Vec<u8>;
		fn decode_rest(k: &[u8]) -> Result<Self::Rest, parity_scale_codec::Error>;
	}
	macro_rules! nmap {
		($($h:ident $k:ident $a:ident $i:tt),+) => {
			impl<$($h: ReversibleStorageHasher, $k: FullCodec),+> KeyGenerator for ($(Key<$h, $k>,)+) {
				type Key = ($($k,)+);
				#[allow(unused_assignments)]
				fn decode(mut k: &[u8]) -> Result<Self::Key, parity_scale_codec::Error> {
					Ok(($({ k = $h::reverse(k); $k::decode(&mut k)? },)+))
				}
			}
			impl<$($h: StorageHasher, $k: FullEncode, $a: EncodeLike<$k>),+> EncodeKey<($(Key<$h, $k>,)+)> for ($($a,)+) {
				fn final_key(&self) -> Vec<u8> {
					let mut r = vec![];
					$( r.extend_from_slice(self.$i.using_encoded($h::hash).as_ref()); )+
					r
				}
			}
		};
	}
	nmap!(H1 K1 A1 0, H2 K2 A2 1);
	nmap!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2);
	nmap!(H1 K1 A1 0, H2 K2 A2 1, H3 K3 A3 2, H4 K4 A4 3);
	impl<H1: StorageHasher, K1: FullEncode, A1: EncodeLike<K1>, H2: ReversibleStorageHasher, K2: FullCodec, H3: ReversibleStorageHasher, K3: FullCodec>
		EncodePrefix<(Key<H1, K1>, Key<H2, K2>, Key<H3, K3>)> for (A1,)
	{
		type Rest = (K2, K3);
		fn partial_key(&self) -> Vec<u8> {
			self.0.using_encoded(H1::hash).as_ref().to_vec()
		}
		fn decode_rest(k: &[u8]) -> Result<Self::Rest, parity_scale_codec::Error> {
			<(Key<H2, K2>, Key<H3, K3>)>::decode(k)
		}
	}
	impl<H1: StorageHasher, K1: FullEncode, A1: EncodeLike<K1>, H2: StorageHasher, K2: FullEncode, A2: EncodeLike<K2>, H3: ReversibleStorageHasher, K3: FullCodec>
		EncodePrefix<(Key<H1, K1>, Key<H2, K2>, Key<H3, K3>)> for (A1, A2)
	{
		type Rest = K3;
		fn partial_key(&self) -> Vec<u8> {
			[self.0.using_encoded(H1::hash).as_ref(), self.1.using_encoded(H2::hash).as_ref()].concat()
		}
		fn decode_rest(k: &[u8]) -> Result<Self::Rest, parity_scale_codec::Error> {
			K3::decode(&mut H3::reverse(k))
		}
	}
	impl<P: StorageInstance, Ks: KeyGenerator + 'static, V: FullCodec + 'static, Q: QueryKindTrait<V, O>, O: 'static, M> StorageNMap<P, Ks, V, Q, O, M> {
		common!();
		fn slot(k: impl EncodeKey<Ks>) -> Slot<V, Q, O> {
			Slot::new([value_prefix::<P>(), k.final_key()].concat())
		}
		pub fn hashed_key_for(k: impl EncodeKey<Ks>) -> Vec<u8> {
			Self::slot(k).0
		}
		pub fn contains_key(k: impl EncodeKey<Ks>) -> bool {
			unhashed::exists(&Self::slot(k).0)
		}
		pub fn get(k: impl EncodeKey<Ks>) -> Q::Query {
			Self::slot(k).get()
		}
		pub fn try_get(k: impl EncodeKey<Ks>) -> Result<V, ()> {
			Self::slot(k).opt().ok_or(())
		}
		pub fn insert(k: impl EncodeKey<Ks>, v: impl EncodeLike<V>) {
			unhashed::put(&Self::slot(k).0, &v)
		}
		pub fn set(k: impl EncodeKey<Ks>, q: Q::Query) {
			Self::slot(k).set(q)
		}
		pub fn remove(k: impl EncodeKey<Ks>) {
			unhashed::kill(&Self::slot(k).0)
		}
		pub fn take(k: impl EncodeKey<Ks>) -> Q::Query {
			Self::slot(k).take()
		}
		pub fn mutate<R>(k: impl EncodeKey<Ks>, f: impl FnOnce(&mut Q::Query) -> R) -> R {
			ok(Self::slot(k).try_mutate(|v| Ok(f(v))))
		}
		pub fn try_mutate<R, E>(k: impl EncodeKey<Ks>, f: impl FnOnce(&mut Q::Query) -> Result<R, E>) -> Result<R, E> {
			Self::slot(k).try_mutate(f)
		}
		pub fn mutate_exists<R>(k: impl EncodeKey<Ks>, f: impl FnOnce(&mut Option<V>) -> R) -> R {
			ok(Self::slot(k).try_mutate_exists(|v| Ok(f(v))))
		}
		pub fn append<I: Encode>(k: impl EncodeKey<Ks>, item: I)
		where
			V: Len,
		{
			crate::io::storage::append(&Self::slot(k).0, item.encode())
		}
		pub fn try_append<I: Encode>(k: impl EncodeKey<Ks>, item: I) -> Result<(), ()>
		where
			V: TryAppendValue + Len,
		{
			Self::slot(k).try_append(item)
		}
		pub fn decode_len(k: impl EncodeKey<Ks>) -> Option<usize>
		where
			V: Len,
		{
			Self::slot(k).opt().map(|v| Len::len(&v))
		}
		pub fn remove_prefix<KP: EncodePrefix<Ks>>(k: KP, limit: Option<u32>) -> crate::io::KillStorageResult {
			crate::io::storage::clear_prefix(&[value_prefix::<P>(), k.partial_key()].concat(), limit).into()
		}
		pub fn contains_prefix<KP: EncodePrefix<Ks>>(k: KP) -> bool {
			let p = [value_prefix::<P>(), k.partial_key()].concat();
			crate::io::storage::next_key(&p).map_or(false, |n| n.starts_with(&p))
		}
		pub fn iter_prefix_from<KP: EncodePrefix<Ks>>(k: KP, starting_raw_key: Vec<u8>) -> PrefixIterator<(KP::Rest, V)> {
			Self::iter_prefix(k).after(starting_raw_key)
		}
		pub fn try_mutate_exists<R, E>(k: impl EncodeKey<Ks>, f: impl FnOnce(&mut Option<V>) -> Result<R, E>) -> Result<R, E> {
			Self::slot(k).try_mutate_exists(f)
		}
		pub fn iter() -> PrefixIterator<(Ks::Key, V)> {
			PrefixIterator::over(value_prefix::<P>(), |k, mut v| Ok((Ks::decode(k)?, V::decode(&mut v)?)))
		}
		pub fn iter_keys() -> PrefixIterator<Ks::Key> {
			PrefixIterator::over(value_prefix::<P>(), |k, _| Ks::decode(k))
		}
		pub fn iter_values() -> PrefixIterator<V> {
			PrefixIterator::over(value_prefix::<P>(), |_, mut v| V::decode(&mut v))
		}
		pub fn drain() -> PrefixIterator<(Ks::Key, V)> {
			Self::iter().drain()
		}
		pub fn iter_prefix<KP: EncodePrefix<Ks>>(k: KP) -> PrefixIterator<(KP::Rest, V)> {
			PrefixIterator::over([value_prefix::<P>(), k.partial_key()].concat(), |k, mut v| Ok((KP::decode_rest(k)?, V::decode(&mut v)?)))
		}
		pub fn iter_key_prefix<KP: EncodePrefix<Ks>>(k: KP) -> PrefixIterator<KP::Rest> {
			PrefixIterator::over([value_prefix::<P>(), k.partial_key()].concat(), |k, _| KP::decode_rest(k))
		}
		pub fn iter_prefix_values<KP: EncodePrefix<Ks>>(k: KP) -> PrefixIterator<V> {
			PrefixIterator::over([value_prefix::<P>(), k.partial_key()].concat(), |_, mut v| V::decode(&mut v))
		}
		pub fn clear_prefix<KP: EncodePrefix<Ks>>(k: KP, limit: u32, _: Option<&[u8]>) -> crate::io::MultiRemovalResults {
			crate::io::storage::clear_prefix(&[value_prefix::<P>(), k.partial_key()].concat(), Some(limit))
		}
		pub fn drain_prefix<KP: EncodePrefix<Ks>>(k: KP) -> PrefixIterator<(KP::Rest, V)> {
			Self::iter_prefix(k).drain()
		}
	}
	pub use Key as NMapKey;
}
pub mod generator {
	use super::types;
	use super::*;
	macro_rules! gen {
		($t:ident, [$($g:tt)*], $ty:ty) => {
			pub trait $t {
				fn pallet_prefix() -> &'static [u8];
				fn storage_prefix() -> &'static [u8];
				fn prefix_hash() -> [u8; 32] {
					super::storage_prefix(Self::pallet_prefix(), Self::storage_prefix())
				}
			}
			impl<P: StorageInstance, $($g)*> $t for $ty {
				fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() }
				fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
			}
		};
	}
	gen!(StorageValue, [V, Q, O], types::StorageValue<P, V, Q, O>);
	gen!(StorageMap, [H, K, V, Q, O, M], types::StorageMap<P, H, K, V, Q, O, M>);
	gen!(StorageDoubleMap, [H1, K1, H2, K2, V, Q, O, M], types::StorageDoubleMap<P, H1, K1, H2, K2, V, Q, O, M>);
	gen!(StorageNMap, [K, V, Q, O, M], types::StorageNMap<P, K, V, Q, O, M>);
}

#[derive(Debug, Clone)]
pub enum TransactionOutcome<R> {
	Commit(R),
	Rollback(R),
}
pub fn with_transaction<T, E: From<crate::runtime::DispatchError>>(f: impl FnOnce() -> TransactionOutcome<Result<T, E>>) -> Result<T, E> {
	crate::io::storage::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			crate::io::storage::commit_transaction();
			r
		},
		TransactionOutcome::Rollback(r) => {
			crate::io::storage::rollback_transaction();
			r
		},
	}
}
pub fn with_storage_layer<T, E: From<crate::runtime::DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	with_transaction(|| match f() {
		r @ Ok(_) => TransactionOutcome::Commit(r),
		r @ Err(_) => TransactionOutcome::Rollback(r),
	})
}
pub fn with_transaction_unchecked<R>(f: impl FnOnce() -> TransactionOutcome<R>) -> R {
	crate::io::storage::start_transaction();
	match f() {
		TransactionOutcome::Commit(r) => {
			crate::io::storage::commit_transaction();
			r
		},
		TransactionOutcome::Rollback(r) => {
			crate::io::storage::rollback_transaction();
			r
		},
	}
}
pub mod transactional {
	pub use super::{with_storage_layer, with_transaction, with_transaction_unchecked};
	pub fn is_transactional() -> bool {
		crate::io::storage::transaction_depth() > 0
	}
}
pub fn in_storage_layer<T, E: From<crate::runtime::DispatchError>>(f: impl FnOnce() -> Result<T, E>) -> Result<T, E> {
	if crate::io::storage::transaction_depth() > 0 {
		f()
	} else {
		with_storage_layer(f)
	}
}
