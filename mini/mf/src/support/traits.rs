//! frame_support::traits
use super::dispatch::{DispatchResult, RawOrigin};
use crate::core_::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec};
use crate::runtime::traits::BadOrigin;
use crate::runtime::{DispatchError, TryRuntimeError};
use crate::weights::Weight;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, FullCodec, MaxEncodedLen};
use scale_info::TypeInfo;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
pub use crate::core_::storage::Storage;
pub use crate::runtime::traits::{ConstBool as _CB, TypedGet as _TG};

pub trait Get<T> {
	fn get() -> T;
}
impl<T: Default> Get<T> for () {
	fn get() -> T {
		T::default()
	}
}
pub struct GetDefault;
impl<T: Default> Get<T> for GetDefault {
	fn get() -> T {
		T::default()
	}
}
pub trait TypedGet {
	type Type;
	fn get() -> Self::Type;
}
macro_rules! konst {
	($($n:ident $t:ty),*) => {$(
		#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
		pub struct $n<const T: $t>;
		impl<const T: $t> Get<$t> for $n<T> { fn get() -> $t { T } }
		impl<const T: $t> Get<Option<$t>> for $n<T> { fn get() -> Option<$t> { Some(T) } }
		impl<const T: $t> TypedGet for $n<T> { type Type = $t; fn get() -> $t { T } }
	)*}
}
konst!(ConstBool bool, ConstU8 u8, ConstU16 u16, ConstU32 u32, ConstU64 u64, ConstU128 u128, ConstI8 i8, ConstI16 i16, ConstI32 i32, ConstI64 i64, ConstI128 i128);
pub struct ConstInt<const T: i32>;

pub trait Len {
	fn len(&self) -> usize;
	fn is_empty(&self) -> bool {
		self.len() == 0
	}
}
impl<T> Len for Vec<T> {
	fn len(&self) -> usize {
		Vec::len(self)
	}
}
impl<K: Ord, V, S> Len for BoundedBTreeMap<K, V, S> {
	fn len(&self) -> usize {
		std::ops::Deref::deref(self).len()
	}
}
impl<K: Ord, S> Len for BoundedBTreeSet<K, S> {
	fn len(&self) -> usize {
		std::ops::Deref::deref(self).len()
	}
}
impl<K: Ord, V> Len for BTreeMap<K, V> {
	fn len(&self) -> usize {
		BTreeMap::len(self)
	}
}
impl<K: Ord> Len for BTreeSet<K> {
	fn len(&self) -> usize {
		BTreeSet::len(self)
	}
}
pub trait TryCollect<C> {
	type Error;
	fn try_collect(self) -> Result<C, Self::Error>;
}
pub trait Contains<T> {
	fn contains(t: &T) -> bool;
}
pub trait ContainsPair<A, B> {
	fn contains(a: &A, b: &B) -> bool;
}
pub enum Everything {}
impl<T> Contains<T> for Everything {
	fn contains(_: &T) -> bool {
		true
	}
}
impl<A, B> ContainsPair<A, B> for Everything {
	fn contains(_: &A, _: &B) -> bool {
		true
	}
}
pub enum Nothing {}
impl<T> Contains<T> for Nothing {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<T> Contains<T> for () {
	fn contains(_: &T) -> bool {
		false
	}
}
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for (A, B) {
	fn contains(t: &T) -> bool {
		A::contains(t) || B::contains(t)
	}
}
pub struct EverythingBut<X>(PhantomData<X>);
impl<T, X: Contains<T>> Contains<T> for EverythingBut<X> {
	fn contains(t: &T) -> bool {
		!X::contains(t)
	}
}
pub struct TheseExcept<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for TheseExcept<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && !B::contains(t)
	}
}
pub struct FromContainsPair<C>(PhantomData<C>);
pub struct InsideBoth<A, B>(PhantomData<(A, B)>);
impl<T, A: Contains<T>, B: Contains<T>> Contains<T> for InsideBoth<A, B> {
	fn contains(t: &T) -> bool {
		A::contains(t) && B::contains(t)
	}
}
/// types convertible both ways; equal only to themselves
pub trait IsType<T>: Into<T> + From<T> {
	fn from_ref(t: &T) -> &Self;
	fn into_ref(&self) -> &T;
	fn from_mut(t: &mut T) -> &mut Self;
	fn into_mut(&mut self) -> &mut T;
}
impl<T> IsType<T> for T {
	fn from_ref(t: &T) -> &Self {
		t
	}
	fn into_ref(&self) -> &T {
		self
	}
	fn from_mut(t: &mut T) -> &mut Self {
		t
	}
	fn into_mut(&mut self) -> &mut T {
		self
	}
}
pub trait IsSubType<T> {
	fn is_sub_type(&self) -> Option<&T>;
}
pub trait TypeId {
	const TYPE_ID: [u8; 4];
}
pub type LockIdentifier = [u8; 8];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Encode, Decode, Default, TypeInfo, MaxEncodedLen)]
pub struct StorageVersion(u16);
impl StorageVersion {
	pub const fn new(n: u16) -> Self {
		Self(n)
	}
	pub fn storage_key<P: PalletInfoAccess>() -> [u8; 32] {
		let mut k = [0u8; 32];
		k[..16].copy_from_slice(&crate::hashing::twox_128(P::name().as_bytes()));
		k[16..].copy_from_slice(&crate::hashing::twox_128(b":__STORAGE_VERSION__:"));
		k
	}
	pub fn put<P: PalletInfoAccess>(&self) {
		crate::io::storage::set(&Self::storage_key::<P>(), &self.encode())
	}
	pub fn get<P: PalletInfoAccess>() -> Self {
		crate::io::storage::get(&Self::storage_key::<P>()).and_then(|v| Self::decode(&mut &v[..]).ok()).unwrap_or_default()
	}
	pub fn exists<P: PalletInfoAccess>() -> bool {
		crate::io::storage::exists(&Self::storage_key::<P>())
	}
}
impl PartialEq<u16> for StorageVersion {
	fn eq(&self, o: &u16) -> bool {
		self.0 == *o
	}
}
impl PartialOrd<u16> for StorageVersion {
	fn partial_cmp(&self, o: &u16) -> Option<std::cmp::Ordering> {
		Some(self.0.cmp(o))
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct NoStorageVersionSet;
pub trait GetStorageVersion {
	type CurrentStorageVersion;
	fn current_storage_version() -> Self::CurrentStorageVersion;
	fn on_chain_storage_version() -> StorageVersion;
}
pub trait PalletInfo {
	fn index<P: 'static>() -> Option<usize>;
	fn name<P: 'static>() -> Option<&'static str>;
	fn module_name<P: 'static>() -> Option<&'static str> {
		Self::name::<P>()
	}
}
pub trait PalletInfoAccess {
	fn index() -> usize;
	fn name() -> &'static str;
	fn module_name() -> &'static str {
		Self::name()
	}
}
pub trait Instance: 'static {
	const PREFIX: &'static str;
	const INDEX: u8;
}
pub trait StorageInstance {
	fn pallet_prefix() -> &'static str;
	const STORAGE_PREFIX: &'static str;
}
pub trait OnInitialize<B> {
	fn on_initialize(_: B) -> Weight {
		Weight::zero()
	}
}
pub trait OnFinalize<B> {
	fn on_finalize(_: B) {}
}
pub trait OnIdle<B> {
	fn on_idle(_: B, _: Weight) -> Weight {
		Weight::zero()
	}
}
pub trait OffchainWorker<B> {
	fn offchain_worker(_: B) {}
}
pub trait IntegrityTest {
	fn integrity_test() {}
}
pub trait OnRuntimeUpgrade {
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn pre_upgrade() -> Result<Vec<u8>, TryRuntimeError> {
		Ok(vec![])
	}
	fn post_upgrade(_: Vec<u8>) -> Result<(), TryRuntimeError> {
		Ok(())
	}
}
impl OnRuntimeUpgrade for () {}
macro_rules! upgrades {
	($($t:ident)*) => {
		impl<$($t: OnRuntimeUpgrade),*> OnRuntimeUpgrade for ($($t,)*) {
			fn on_runtime_upgrade() -> Weight {
				let mut w = Weight::zero();
				$( w = w.saturating_add($t::on_runtime_upgrade()); )*
				w
			}
		}
	};
}
upgrades!(A);
upgrades!(A B);
upgrades!(A B C);
upgrades!(A B C D);
pub trait Hooks<B> {
	fn on_finalize(_: B) {}
	fn on_idle(_: B, _: Weight) -> Weight {
		Weight::zero()
	}
	fn on_poll(_: B) {}
	fn on_initialize(_: B) -> Weight {
		Weight::zero()
	}
	fn on_runtime_upgrade() -> Weight {
		Weight::zero()
	}
	fn pre_upgrade() -> Result<Vec<u8>, TryRuntimeError> {
		Ok(vec![])
	}
	fn post_upgrade(_: Vec<u8>) -> Result<(), TryRuntimeError> {
		Ok(())
	}
	fn try_state(_: B) -> Result<(), TryRuntimeError> {
		Ok(())
	}
	fn offchain_worker(_: B) {}
	fn integrity_test() {}
}
macro_rules! hooks_tuples {
	($($t:ident),*) => {
		impl<BN: Clone, $($t: OnInitialize<BN>),*> OnInitialize<BN> for ($($t,)*) {
			#[allow(unused_mut, unused_variables)]
			fn on_initialize(n: BN) -> Weight { let mut w = Weight::zero(); $(w = w.saturating_add($t::on_initialize(n.clone()));)* w }
		}
		impl<BN: Clone, $($t: OnFinalize<BN>),*> OnFinalize<BN> for ($($t,)*) {
			#[allow(unused_variables)]
			fn on_finalize(n: BN) { $($t::on_finalize(n.clone());)* }
		}
		impl<BN: Clone, $($t: OffchainWorker<BN>),*> OffchainWorker<BN> for ($($t,)*) {
			#[allow(unused_variables)]
			fn offchain_worker(n: BN) { $($t::offchain_worker(n.clone());)* }
		}
	};
}
macro_rules! each_tuple {
	() => { hooks_tuples!(); };
	($h:ident $($t:ident)*) => { hooks_tuples!($h $(, $t)*); each_tuple!($($t)*); };
}
each_tuple!(A B C D E F G H I J K L M N O P Q R S T U V W X Y Z A1 B1 C1 D1 E1 F1 G1 H1 I1 J1);

pub trait BuildGenesisConfig: Default {
	fn build(&self);
}
pub trait EnsureOrigin<OuterOrigin> {
	type Success;
	fn ensure_origin(o: OuterOrigin) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin) -> Result<Self::Success, OuterOrigin>;
	fn ensure_origin_or_root(o: OuterOrigin) -> Result<Option<Self::Success>, BadOrigin>
	where
		OuterOrigin: OriginTrait,
	{
		if o.caller_is_root() {
			return Ok(None)
		}
		Self::ensure_origin(o).map(Some)
	}
	#[cfg(feature = "runtime-benchmarks")]
	fn try_successful_origin() -> Result<OuterOrigin, ()> {
		Err(())
	}
}
pub struct EitherOfDiverse<L, R>(PhantomData<(L, R)>);
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Either<L, R> {
	Left(L),
	Right(R),
}
impl<O: Clone, L: EnsureOrigin<O>, R: EnsureOrigin<O>> EnsureOrigin<O> for EitherOfDiverse<L, R> {
	type Success = Either<L::Success, R::Success>;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).map_or_else(|o| R::try_origin(o).map(Either::Right), |x| Ok(Either::Left(x)))
	}
}
pub struct EitherOf<L, R>(PhantomData<(L, R)>);
impl<O, L: EnsureOrigin<O>, R: EnsureOrigin<O, Success = L::Success>> EnsureOrigin<O> for EitherOf<L, R> {
	type Success = L::Success;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		L::try_origin(o).or_else(R::try_origin)
	}
}
pub struct MapSuccess<E, M>(PhantomData<(E, M)>);
impl<O, E: EnsureOrigin<O>, M: crate::runtime::traits::Morph<E::Success>> EnsureOrigin<O> for MapSuccess<E, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		E::try_origin(o).map(M::morph)
	}
}
pub struct TryMapSuccess<E, M>(PhantomData<(E, M)>);
impl<O: Clone, E: EnsureOrigin<O>, M: crate::runtime::traits::TryMorph<E::Success>> EnsureOrigin<O> for TryMapSuccess<E, M> {
	type Success = M::Outcome;
	fn try_origin(o: O) -> Result<Self::Success, O> {
		let again = o.clone();
		M::try_morph(E::try_origin(o)?).map_err(|()| again)
	}
}
pub trait EnsureOriginWithArg<OuterOrigin, Argument> {
	type Success;
	fn ensure_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, BadOrigin> {
		Self::try_origin(o, a).map_err(|_| BadOrigin)
	}
	fn try_origin(o: OuterOrigin, a: &Argument) -> Result<Self::Success, OuterOrigin>;
}
pub struct AsEnsureOriginWithArg<E>(PhantomData<E>);
impl<O, A, E: EnsureOrigin<O>> EnsureOriginWithArg<O, A> for AsEnsureOriginWithArg<E> {
	type Success = E::Success;
	fn try_origin(o: O, _: &A) -> Result<Self::Success, O> {
		E::try_origin(o)
	}
}
pub struct NeverEnsureOrigin<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for NeverEnsureOrigin<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub trait CallerTrait<AccountId>: Clone + std::fmt::Debug + Eq {}
pub trait OriginTrait: Sized {
	type Call;
	type PalletsOrigin: Clone + std::fmt::Debug + Eq + From<RawOrigin<Self::AccountId>>;
	type AccountId;
	fn add_filter(&mut self, _: impl Fn(&Self::Call) -> bool + 'static);
	fn reset_filter(&mut self);
	fn set_caller_from(&mut self, other: impl Into<Self>);
	fn filter_call(&self, call: &Self::Call) -> bool;
	fn caller(&self) -> &Self::PalletsOrigin;
	fn into_caller(self) -> Self::PalletsOrigin;
	fn none() -> Self;
	fn root() -> Self;
	fn signed(by: Self::AccountId) -> Self;
	fn as_system_ref(&self) -> Option<&RawOrigin<Self::AccountId>>;
	fn caller_is_root(&self) -> bool {
		matches!(self.as_system_ref(), Some(RawOrigin::Root))
	}
	fn as_signed(self) -> Option<Self::AccountId>
	where
		Self::AccountId: Clone,
	{
		match self.as_system_ref() {
			Some(RawOrigin::Signed(x)) => Some(x.clone()),
			_ => None,
		}
	}
}
pub trait GetCallName {
	fn get_call_names() -> &'static [&'static str];
	fn get_call_name(&self) -> &'static str;
}
pub trait GetCallIndex {
	fn get_call_index(&self) -> u8;
}
pub trait GetCallMetadata {
	fn get_call_metadata(&self) -> CallMetadata;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CallMetadata {
	pub function_name: &'static str,
	pub pallet_name: &'static str,
}
pub trait UnfilteredDispatchable {
	type RuntimeOrigin;
	fn dispatch_bypass_filter(self, origin: Self::RuntimeOrigin) -> super::dispatch::DispatchResultWithPostInfo;
}
pub trait ChangeMembers<AccountId: Clone + Ord> {
	fn change_members(incoming: &[AccountId], outgoing: &[AccountId], mut new: Vec<AccountId>) {
		new.sort();
		Self::change_members_sorted(incoming, outgoing, &new[..]);
	}
	fn change_members_sorted(incoming: &[AccountId], outgoing: &[AccountId], sorted_new: &[AccountId]);
	fn set_members_sorted(new_members: &[AccountId], old_members: &[AccountId]) {
		let i: Vec<_> = new_members.iter().filter(|x| !old_members.contains(x)).cloned().collect();
		let o: Vec<_> = old_members.iter().filter(|x| !new_members.contains(x)).cloned().collect();
		Self::change_members_sorted(&i, &o, new_members);
	}
	fn set_prime(_: Option<AccountId>) {}
	fn get_prime() -> Option<AccountId> {
		None
	}
}
pub trait OnUnbalanced<I> {
	fn on_unbalanceds<B>(amounts: impl Iterator<Item = I>)
	where
		I: Imbalance<B>,
	{
		amounts.for_each(Self::on_unbalanced)
	}
	fn on_unbalanced(amount: I) {
		Self::on_nonzero_unbalanced(amount)
	}
	fn on_nonzero_unbalanced(amount: I) {
		drop(amount)
	}
}
impl<I> OnUnbalanced<I> for () {}
pub trait Imbalance<B> {
	fn peek(&self) -> B;
}
pub trait OnNewAccount<A> {
	fn on_new_account(_: &A) {}
}
impl<A> OnNewAccount<A> for () {}
pub trait OnKilledAccount<A> {
	fn on_killed_account(_: &A) {}
}
impl<A> OnKilledAccount<A> for () {}
pub trait HandleLifetime<T> {
	fn created(_: &T) -> Result<(), DispatchError> {
		Ok(())
	}
	fn killed(_: &T) -> Result<(), DispatchError> {
		Ok(())
	}
}
pub trait StoredMap<K, T: Default> {
	fn get(k: &K) -> T;
	fn try_mutate_exists<R, E: From<DispatchError>>(k: &K, f: impl FnOnce(&mut Option<T>) -> Result<R, E>) -> Result<R, E>;
	fn mutate<R>(k: &K, f: impl FnOnce(&mut T) -> R) -> Result<R, DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<R, DispatchError> {
			let mut v = x.take().unwrap_or_default();
			let r = f(&mut v);
			*x = Some(v);
			Ok(r)
		})
	}
	fn insert(k: &K, t: T) -> Result<(), DispatchError> {
		Self::mutate(k, |i| *i = t)
	}
	fn remove(k: &K) -> Result<(), DispatchError> {
		Self::try_mutate_exists(k, |x| -> Result<(), DispatchError> {
			*x = None;
			Ok(())
		})
	}
}
/// read-only storage maps: the accounts of frame_system
pub trait StoredMapLike {}
/// what `defensive!` does in a test build: the place was believed to be unreachable
#[track_caller]
pub fn defensive_failure(what: &str) {
	log::error!("a defensive failure has been triggered: {what}");
	debug_assert!(false, "a defensive failure has been triggered: {what}");
}
pub trait Defensive<T> {
	fn defensive_unwrap_or(self, other: T) -> T;
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T;
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default;
	fn defensive(self) -> Self;
	fn defensive_proof(self, proof: &'static str) -> Self;
}
impl<T> Defensive<T> for Option<T> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.defensive().unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(f)
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self.defensive_proof("nothing there")
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		if self.is_none() {
			defensive_failure(proof)
		}
		self
	}
}
impl<T, E: std::fmt::Debug> Defensive<T> for Result<T, E> {
	fn defensive_unwrap_or(self, other: T) -> T {
		self.defensive().unwrap_or(other)
	}
	fn defensive_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> T {
		self.defensive().unwrap_or_else(|_| f())
	}
	fn defensive_unwrap_or_default(self) -> T
	where
		T: Default,
	{
		self.defensive().unwrap_or_default()
	}
	fn defensive(self) -> Self {
		self.defensive_proof("an error")
	}
	fn defensive_proof(self, proof: &'static str) -> Self {
		if self.is_err() {
			defensive_failure(proof)
		}
		self
	}
}
pub trait DefensiveResult<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F>;
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok(self) -> Option<T>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E>;
}
impl<T, E: std::fmt::Debug> DefensiveResult<T, E> for Result<T, E> {
	fn defensive_map_err<F, O: FnOnce(E) -> F>(self, o: O) -> Result<T, F> {
		self.defensive().map_err(o)
	}
	fn defensive_map_or_else<U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.defensive().map_or_else(default, f)
	}
	fn defensive_ok(self) -> Option<T> {
		self.defensive().ok()
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Result<U, E> {
		self.defensive().map(f)
	}
}
pub trait DefensiveOption<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U;
	fn defensive_ok_or_else<E: std::fmt::Debug, F: FnOnce() -> E>(self, err: F) -> Result<T, E>;
	fn defensive_ok_or<E: std::fmt::Debug>(self, err: E) -> Result<T, E>;
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U>;
}
impl<T> DefensiveOption<T> for Option<T> {
	fn defensive_map_or_else<U, D: FnOnce() -> U, F: FnOnce(T) -> U>(self, default: D, f: F) -> U {
		self.defensive().map_or_else(default, f)
	}
	fn defensive_ok_or_else<E: std::fmt::Debug, F: FnOnce() -> E>(self, err: F) -> Result<T, E> {
		self.defensive().ok_or_else(err)
	}
	fn defensive_ok_or<E: std::fmt::Debug>(self, err: E) -> Result<T, E> {
		self.defensive().ok_or(err)
	}
	fn defensive_map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> {
		self.defensive().map(f)
	}
}
pub trait DefensiveSaturating {
	fn defensive_saturating_add(self, other: Self) -> Self;
	fn defensive_saturating_sub(self, other: Self) -> Self;
	fn defensive_saturating_mul(self, other: Self) -> Self;
	fn defensive_saturating_accrue(&mut self, other: Self);
	fn defensive_saturating_reduce(&mut self, other: Self);
	fn defensive_saturating_inc(&mut self);
	fn defensive_saturating_dec(&mut self);
}
impl<T: crate::runtime::traits::Saturating + crate::runtime::traits::CheckedAdd + crate::runtime::traits::CheckedMul + crate::runtime::traits::CheckedSub + crate::runtime::traits::One + Copy>
	DefensiveSaturating for T
{
	fn defensive_saturating_add(self, o: Self) -> Self {
		self.checked_add(&o).defensive_unwrap_or_else(|| crate::runtime::traits::Saturating::saturating_add(self, o))
	}
	fn defensive_saturating_sub(self, o: Self) -> Self {
		self.checked_sub(&o).defensive_unwrap_or_else(|| crate::runtime::traits::Saturating::saturating_sub(self, o))
	}
	fn defensive_saturating_mul(self, o: Self) -> Self {
		self.checked_mul(&o).defensive_unwrap_or_else(|| crate::runtime::traits::Saturating::saturating_mul(self, o))
	}
	fn defensive_saturating_accrue(&mut self, o: Self) {
		*self = self.defensive_saturating_add(o)
	}
	fn defensive_saturating_reduce(&mut self, o: Self) {
		*self = self.defensive_saturating_sub(o)
	}
	fn defensive_saturating_inc(&mut self) {
		self.defensive_saturating_accrue(T::one())
	}
	fn defensive_saturating_dec(&mut self) {
		self.defensive_saturating_reduce(T::one())
	}
}
pub trait DefensiveMax<T> {
	fn defensive_max(self, other: T) -> Self;
}
impl<T: PartialOrd> DefensiveMax<T> for T {
	fn defensive_max(self, o: T) -> T {
		if self < o {
			defensive_failure("the maximum");
			o
		} else {
			self
		}
	}
}
pub trait DefensiveMin<T> {
	fn defensive_min(self, other: T) -> Self;
}
impl<T: PartialOrd> DefensiveMin<T> for T {
	fn defensive_min(self, o: T) -> T {
		if self > o {
			defensive_failure("the minimum");
			o
		} else {
			self
		}
	}
}
pub trait DefensiveTruncateFrom<T> {
	fn defensive_truncate_from(unbound: T) -> Self;
}
impl<T, S: Get<u32>> DefensiveTruncateFrom<Vec<T>> for BoundedVec<T, S> {
	fn defensive_truncate_from(mut v: Vec<T>) -> Self {
		if v.len() > S::get() as usize {
			defensive_failure("does not fit");
			v.truncate(S::get() as usize);
		}
		Self::try_from(v).unwrap_or_else(|_| unreachable!())
	}
}
pub trait UnixTime {
	fn now() -> std::time::Duration;
}
pub trait SortedMembers<T: Ord> {
	fn contains(t: &T) -> bool {
		Self::sorted_members().binary_search(t).is_ok()
	}
	fn sorted_members() -> Vec<T>;
	fn count() -> usize {
		Self::sorted_members().len()
	}
}
pub struct IsInVec<T>(PhantomData<T>);
impl<X: Ord + PartialOrd, T: Get<Vec<X>>> Contains<X> for IsInVec<T> {
	fn contains(t: &X) -> bool {
		T::get().contains(t)
	}
}
impl<X: Ord + PartialOrd, T: Get<Vec<X>>> SortedMembers<X> for IsInVec<T> {
	fn sorted_members() -> Vec<X> {
		let mut r = T::get();
		r.sort();
		r
	}
}
pub trait PrivilegeCmp<Origin> {
	fn cmp_privilege(left: &Origin, right: &Origin) -> Option<std::cmp::Ordering>;
}
pub trait VariantCount {
	const VARIANT_COUNT: u32;
}
impl VariantCount for () {
	const VARIANT_COUNT: u32 = 0;
}
pub trait WhitelistedStorageKeys {}
pub trait EstimateCallFee<C, B> {
	fn estimate_call_fee(call: &C, post: super::dispatch::PostDispatchInfo) -> B;
}
pub struct EqualPrivilegeOnly;
pub struct LinearStoragePrice<B, S, Bal>(PhantomData<(B, S, Bal)>);
/// what keeping so many bytes costs: the SDK's `Convert<Footprint, Balance>` of a price
pub trait StoragePrice {
	fn price(bytes: u64) -> u128;
}
impl<B: Get<Bal>, S: Get<Bal>, Bal: Into<u128>> StoragePrice for LinearStoragePrice<B, S, Bal> {
	fn price(bytes: u64) -> u128 {
		let (base, slope): (u128, u128) = (B::get().into(), S::get().into());
		base.saturating_add(slope.saturating_mul(bytes.into()))
	}
}
pub struct EnqueueWithOrigin<E, O>(PhantomData<(E, O)>);
pub trait InstanceFilter<T>: Sized + Send + Sync {
	fn filter(&self, _: &T) -> bool;
	fn is_superset(&self, _o: &Self) -> bool {
		false
	}
}
pub trait Randomness<O, B> {
	fn random(s: &[u8]) -> (O, B);
}
pub trait Time {
	type Moment;
	fn now() -> Self::Moment;
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub enum ExistenceRequirement {
	KeepAlive,
	AllowDeath,
}
#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, Debug, TypeInfo, MaxEncodedLen)]
pub enum BalanceStatus {
	Free,
	Reserved,
}
#[derive(Copy, Clone, Eq, PartialEq, Debug, Encode, Decode, MaxEncodedLen)]
pub struct WithdrawReasons(u8);
impl WithdrawReasons {
	pub const TRANSACTION_PAYMENT: Self = Self(1);
	pub const TRANSFER: Self = Self(2);
	pub const RESERVE: Self = Self(4);
	pub const FEE: Self = Self(8);
	pub const TIP: Self = Self(16);
	pub fn all() -> Self {
		Self(31)
	}
	pub fn empty() -> Self {
		Self(0)
	}
	pub fn contains(&self, o: Self) -> bool {
		self.0 & o.0 == o.0
	}
	pub fn intersects(&self, o: Self) -> bool {
		self.0 & o.0 != 0
	}
	pub fn bits(&self) -> u8 {
		self.0
	}
}
impl std::ops::BitOr for WithdrawReasons {
	type Output = Self;
	fn bitor(self, o: Self) -> Self {
		Self(self.0 | o.0)
	}
}
pub trait Currency<AccountId> {
	type Balance: tokens::Balance;
	type PositiveImbalance: Imbalance<Self::Balance>;
	type NegativeImbalance: Imbalance<Self::Balance>;
	fn total_balance(who: &AccountId) -> Self::Balance;
	fn total_issuance() -> Self::Balance;
	fn minimum_balance() -> Self::Balance;
	fn free_balance(who: &AccountId) -> Self::Balance;
	fn make_free_balance_be(who: &AccountId, b: Self::Balance);
	fn deposit_creating(who: &AccountId, b: Self::Balance);
	fn transfer(s: &AccountId, d: &AccountId, v: Self::Balance, e: ExistenceRequirement) -> DispatchResult;
	fn withdraw(who: &AccountId, v: Self::Balance, r: WithdrawReasons, e: ExistenceRequirement) -> Result<Self::NegativeImbalance, DispatchError>;
	fn deposit_into_existing(who: &AccountId, v: Self::Balance) -> Result<Self::PositiveImbalance, DispatchError>;
}
pub trait ReservableCurrency<AccountId>: Currency<AccountId> {
	fn reserved_balance(who: &AccountId) -> Self::Balance;
	fn reserve(who: &AccountId, v: Self::Balance) -> DispatchResult;
	fn unreserve(who: &AccountId, v: Self::Balance) -> Self::Balance;
}
pub trait LockableCurrency<AccountId>: Currency<AccountId> {
	type Moment;
	type MaxLocks: Get<u32>;
	fn set_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
	fn extend_lock(id: LockIdentifier, who: &AccountId, amount: Self::Balance, reasons: WithdrawReasons);
	fn remove_lock(id: LockIdentifier, who: &AccountId);
}
pub mod fungible {
	pub use super::tokens::fungible::*;
}
pub mod tokens {
	use super::*;
	pub use super::{BalanceStatus, ExistenceRequirement, WithdrawReasons};
	use crate::runtime::traits::{AtLeast32BitUnsigned, Member};
	use crate::runtime::TokenError;
	pub trait AssetId: FullCodec + Clone + Eq + PartialEq + std::fmt::Debug + TypeInfo + MaxEncodedLen {}
	pub trait Balance: AtLeast32BitUnsigned + FullCodec + Copy + Default + std::fmt::Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + crate::arith::FixedPointOperand {}
	impl<T: AtLeast32BitUnsigned + FullCodec + Copy + Default + std::fmt::Debug + TypeInfo + MaxEncodedLen + Send + Sync + 'static + crate::arith::FixedPointOperand> Balance for T {}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Preservation {
		Expendable,
		Protect,
		Preserve,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Fortitude {
		Polite,
		Force,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Precision {
		Exact,
		BestEffort,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Provenance {
		Minted,
		Extant,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum Restriction {
		Free,
		OnHold,
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum WithdrawConsequence<B> {
		BalanceLow,
		WouldDie,
		UnknownAsset,
		Underflow,
		Overflow,
		Frozen,
		ReducedToZero(B),
		Success,
	}
	impl<B: crate::runtime::traits::Zero> WithdrawConsequence<B> {
		pub fn into_result(self, keep_nonzero: bool) -> Result<B, DispatchError> {
			use WithdrawConsequence::*;
			match self {
				BalanceLow => Err(TokenError::FundsUnavailable.into()),
				WouldDie => Err(TokenError::OnlyProvider.into()),
				UnknownAsset => Err(TokenError::UnknownAsset.into()),
				Underflow => Err(crate::runtime::ArithmeticError::Underflow.into()),
				Overflow => Err(crate::runtime::ArithmeticError::Overflow.into()),
				Frozen => Err(TokenError::Frozen.into()),
				ReducedToZero(_) if keep_nonzero => Err(TokenError::NotExpendable.into()),
				ReducedToZero(x) => Ok(x),
				Success => Ok(B::zero()),
			}
		}
	}
	#[derive(Copy, Clone, Debug, Eq, PartialEq)]
	pub enum DepositConsequence {
		BelowMinimum,
		CannotCreate,
		UnknownAsset,
		Overflow,
		Success,
		Blocked,
	}
	#[derive(PartialEq, Eq, Encode, Decode, Debug, Clone, TypeInfo, MaxEncodedLen)]
	pub struct IdAmount<Id, B> {
		pub id: Id,
		pub amount: B,
	}
	pub struct PayFromAccount<F, A>(std::marker::PhantomData<(F, A)>);
	pub struct UnityAssetBalanceConversion;
	pub mod fungible {
		use super::*;
		pub struct HoldConsideration<A, F, R, D>(std::marker::PhantomData<(A, F, R, D)>);
		impl<A, F, R, D: super::StoragePrice> super::StoragePrice for HoldConsideration<A, F, R, D> {
			fn price(bytes: u64) -> u128 {
				D::price(bytes)
			}
		}
		pub trait Inspect<AccountId>: Sized {
			type Balance: tokens::Balance;
			fn total_issuance() -> Self::Balance;
			fn active_issuance() -> Self::Balance {
				Self::total_issuance()
			}
			fn minimum_balance() -> Self::Balance;
			fn total_balance(who: &AccountId) -> Self::Balance;
			fn balance(who: &AccountId) -> Self::Balance;
			fn reducible_balance(who: &AccountId, p: Preservation, f: Fortitude) -> Self::Balance;
			fn can_deposit(who: &AccountId, a: Self::Balance, p: Provenance) -> DepositConsequence;
			fn can_withdraw(who: &AccountId, a: Self::Balance) -> WithdrawConsequence<Self::Balance>;
		}
		pub trait InspectFreeze<AccountId>: Inspect<AccountId> {
			type Id: Codec + TypeInfo + 'static;
			fn balance_frozen(id: &Self::Id, who: &AccountId) -> Self::Balance;
			fn balance_freezable(who: &AccountId) -> Self::Balance {
				Self::total_balance(who)
			}
			fn can_freeze(id: &Self::Id, who: &AccountId) -> bool;
		}
		pub trait MutateFreeze<AccountId>: InspectFreeze<AccountId> {
			fn set_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn extend_freeze(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult;
			fn thaw(id: &Self::Id, who: &AccountId) -> DispatchResult;
			fn set_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				frame_ensure(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable)?;
				Self::set_freeze(id, who, amount)
			}
			fn ensure_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance, fortitude: Fortitude) -> DispatchResult {
				let force = fortitude == Fortitude::Force;
				frame_ensure(force || Self::balance_freezable(who) >= amount, TokenError::FundsUnavailable)?;
				Self::extend_freeze(id, who, amount)
			}
			fn decrease_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
				use crate::runtime::traits::CheckedSub;
				let a = Self::balance_frozen(id, who).checked_sub(&amount).ok_or(crate::runtime::ArithmeticError::Underflow)?;
				Self::set_frozen(id, who, a, Fortitude::Force)
			}
			fn increase_frozen(id: &Self::Id, who: &AccountId, amount: Self::Balance) -> DispatchResult {
				use crate::runtime::traits::CheckedAdd;
				let a = Self::balance_frozen(id, who).checked_add(&amount).ok_or(crate::runtime::ArithmeticError::Overflow)?;
				Self::set_frozen(id, who, a, Fortitude::Force)
			}
		}
		fn frame_ensure(c: bool, e: TokenError) -> DispatchResult {
			if c {
				Ok(())
			} else {
				Err(e.into())
			}
		}
		pub trait Mutate<AccountId>: Inspect<AccountId> {
			fn mint_into(who: &AccountId, amount: Self::Balance) -> Result<Self::Balance, DispatchError>;
			fn burn_from(who: &AccountId, amount: Self::Balance, precision: Precision, force: Fortitude) -> Result<Self::Balance, DispatchError>;
			fn set_balance(who: &AccountId, amount: Self::Balance) -> Self::Balance;
			fn transfer(source: &AccountId, dest: &AccountId, amount: Self::Balance, p: Preservation) -> Result<Self::Balance, DispatchError>;
		}
		pub trait InspectHold<AccountId>: Inspect<AccountId> {}
		pub trait Balanced<AccountId>: Inspect<AccountId> {}
		pub trait Unbalanced<AccountId>: Inspect<AccountId> {}
		pub fn _m<T: Member>() {}
	}
}
/// SCALE codec bounds of storage parameters
pub trait Parameter: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::StaticTypeInfo {}
impl<T: Codec + EncodeLike + Clone + Eq + std::fmt::Debug + scale_info::StaticTypeInfo> Parameter for T {}
/// the names of the tests' mock
pub trait OnSetCode<T> {}
impl<T> OnSetCode<T> for () {}
