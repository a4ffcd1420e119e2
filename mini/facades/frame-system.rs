//deps: frame-support sp-runtime sp-std sp-weights sp-core
extern crate self as frame_system;
use frame_support::dispatch::{DispatchClass, DispatchResult};
use frame_support::traits::{EnsureOrigin, Get, StoredMap};
use frame_support::weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{BadOrigin, One, Saturating, Zero};
use sp_runtime::DispatchError;
use std::marker::PhantomData;
pub use frame_support::dispatch::RawOrigin;
pub use pallet::*;
pub mod limits;

pub type RefCount = u32;
#[derive(Clone, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
pub struct AccountInfo<Nonce, AccountData> {
	pub nonce: Nonce,
	pub consumers: RefCount,
	pub providers: RefCount,
	pub sufficients: RefCount,
	pub data: AccountData,
}
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, Default, TypeInfo)]
pub enum Phase {
	ApplyExtrinsic(u32),
	Finalization,
	#[default]
	Initialization,
}
#[derive(Encode, Decode, Debug, PartialEq, Eq, Clone, TypeInfo)]
pub struct EventRecord<E, H> {
	pub phase: Phase,
	pub event: E,
	pub topics: Vec<H>,
}
pub trait ConsumerLimits {
	fn max_consumers() -> u32;
	fn max_overflow() -> u32;
}
impl<const Z: u32> ConsumerLimits for frame_support::traits::ConstU32<Z> {
	fn max_consumers() -> u32 {
		Z
	}
	fn max_overflow() -> u32 {
		Z
	}
}
pub trait SetCode<T> {}
pub trait WeightInfo {}
impl WeightInfo for () {}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DecRefStatus {
	Reaped,
	Exists,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum IncRefStatus {
	Created,
	Existed,
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_support::traits::{Contains, OnKilledAccount as _, OnNewAccount as _, OriginTrait};
	use sp_runtime::traits::{self, Block as _, HeaderProvider as _};
	#[pallet::config]
	pub trait Config: 'static + Eq + Clone {
		type BaseCallFilter: Contains<Self::RuntimeCall>;
		type BlockWeights: Get<limits::BlockWeights>;
		type BlockLength: Get<limits::BlockLength>;
		type RuntimeOrigin: Into<Result<RawOrigin<Self::AccountId>, Self::RuntimeOrigin>>
			+ From<RawOrigin<Self::AccountId>>
			+ Clone
			+ OriginTrait<Call = Self::RuntimeCall, AccountId = Self::AccountId>;
		type RuntimeCall: Parameter + Member + frame_support::dispatch::Dispatchable<RuntimeOrigin = Self::RuntimeOrigin> + std::fmt::Debug + From<Call<Self>>;
		type RuntimeTask;
		type Nonce: Parameter + Member + Default + traits::MaybeDisplay + traits::AtLeast32Bit + Copy + MaxEncodedLen;
		type Hash: Parameter + Member + Default + Copy + Ord + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + MaxEncodedLen + From<[u8; 32]> + std::fmt::Display;
		type Hashing: traits::Hash<Output = Self::Hash> + TypeInfo;
		type AccountId: Parameter + Member + std::fmt::Debug + traits::MaybeDisplay + Ord + MaxEncodedLen;
		type Lookup: traits::StaticLookup<Target = Self::AccountId>;
		type Block: traits::Block<Hash = Self::Hash>;
		type RuntimeEvent: Parameter + Member + From<Event<Self>> + std::fmt::Debug;
		type BlockHashCount: Get<BlockNumberFor<Self>>;
		type DbWeight: Get<frame_support::weights::RuntimeDbWeight>;
		type Version: Get<mf::runtime::RuntimeVersion>;
		type PalletInfo: frame_support::traits::PalletInfo;
		type AccountData: Member + FullCodec + Clone + Default + TypeInfo + MaxEncodedLen;
		type OnNewAccount: frame_support::traits::OnNewAccount<Self::AccountId>;
		type OnKilledAccount: frame_support::traits::OnKilledAccount<Self::AccountId>;
		type SystemWeightInfo;
		type SS58Prefix;
		type OnSetCode;
		type MaxConsumers: ConsumerLimits;
	}
	use parity_scale_codec::FullCodec;
	pub type BlockNumberFor<T> = <<<T as Config>::Block as traits::HeaderProvider>::HeaderT as traits::Header>::Number;
	pub type HeaderFor<T> = <<T as Config>::Block as traits::HeaderProvider>::HeaderT;
	pub type EventRecordOf<T> = EventRecord<<T as Config>::RuntimeEvent, <T as Config>::Hash>;

	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		ExtrinsicSuccess { dispatch_info: frame_support::dispatch::DispatchInfo },
		ExtrinsicFailed { dispatch_error: DispatchError, dispatch_info: frame_support::dispatch::DispatchInfo },
		CodeUpdated,
		NewAccount { account: T::AccountId },
		KilledAccount { account: T::AccountId },
		Remarked { sender: T::AccountId, hash: T::Hash },
	}
	#[pallet::error]
	pub enum Error<T> {
		InvalidSpecName,
		SpecVersionNeedsToIncrease,
		FailedToExtractRuntimeVersion,
		NonDefaultComposite,
		NonZeroRefCount,
		CallFiltered,
		InvalidTask,
		FailedTask,
	}
	#[pallet::origin]
	pub type Origin<T> = RawOrigin<<T as Config>::AccountId>;
	#[pallet::storage]
	#[pallet::getter(fn account)]
	pub type Account<T: Config> = StorageMap<_, Blake2_128Concat, T::AccountId, AccountInfo<T::Nonce, T::AccountData>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_hash)]
	pub type BlockHash<T: Config> = StorageMap<_, Twox64Concat, BlockNumberFor<T>, T::Hash, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn block_number)]
	pub(super) type Number<T: Config> = StorageValue<_, BlockNumberFor<T>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn parent_hash)]
	pub(super) type ParentHash<T: Config> = StorageValue<_, T::Hash, ValueQuery>;
	#[pallet::storage]
	pub(super) type Events<T: Config> = StorageValue<_, Vec<EventRecordOf<T>>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn event_count)]
	pub(super) type EventCount<T: Config> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	pub(super) type ExecutionPhase<T: Config> = StorageValue<_, Phase>;
	#[pallet::storage]
	pub(super) type BlockWeightUsed<T: Config> = StorageValue<_, limits::PerDispatchClass<Weight>, ValueQuery>;

	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		#[serde(skip)]
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {
			<BlockHash<T>>::insert::<BlockNumberFor<T>, _>(Zero::zero(), T::Hash::from([69u8; 32]));
			<ParentHash<T>>::put(T::Hash::from([69u8; 32]));
		}
	}
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(1_000_000 + remark.len() as u64, 0))]
		pub fn remark(_origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = remark;
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_heap_pages(origin: OriginFor<T>, pages: u64) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			frame_support::storage::unhashed::put_raw(b":heappages", &pages.encode());
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_code(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = code;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_code_without_checks(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = code;
			Ok(().into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn set_storage(origin: OriginFor<T>, items: Vec<(Vec<u8>, Vec<u8>)>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for i in &items {
				frame_support::storage::unhashed::put_raw(&i.0, &i.1);
			}
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn kill_storage(origin: OriginFor<T>, keys: Vec<Vec<u8>>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			for key in &keys {
				frame_support::storage::unhashed::kill(key);
			}
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn kill_prefix(origin: OriginFor<T>, prefix: Vec<u8>, subkeys: u32) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = frame_support::storage::unhashed::clear_prefix(&prefix, Some(subkeys), None);
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(2_000_000 + remark.len() as u64, 0))]
		pub fn remark_with_event(origin: OriginFor<T>, remark: Vec<u8>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let hash = <T::Hashing as traits::Hash>::hash(&remark[..]);
			Self::deposit_event(Event::Remarked { sender: who, hash });
			Ok(().into())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn deposit_event(event: impl Into<T::RuntimeEvent>) {
			Self::deposit_event_indexed(&[], event.into());
		}
		pub fn deposit_event_indexed(topics: &[T::Hash], event: T::RuntimeEvent) {
			if Self::block_number().is_zero() {
				return
			}
			let phase = ExecutionPhase::<T>::get().unwrap_or_default();
			EventCount::<T>::mutate(|c| *c += 1);
			Events::<T>::append(EventRecord { phase, event, topics: topics.to_vec() });
		}
		pub fn events() -> Vec<EventRecordOf<T>> {
			Events::<T>::get()
		}
		pub fn read_events_no_consensus() -> impl Iterator<Item = Box<EventRecordOf<T>>> {
			Events::<T>::get().into_iter().map(Box::new)
		}
		pub fn reset_events() {
			Events::<T>::kill();
			EventCount::<T>::kill();
		}
		#[track_caller]
		pub fn assert_has_event(event: T::RuntimeEvent) {
			let all = Self::events();
			assert!(all.iter().any(|r| r.event == event), "expected event {event:?} not found in {all:?}");
		}
		#[track_caller]
		pub fn assert_last_event(event: T::RuntimeEvent) {
			assert_eq!(Self::events().last().expect("an event").event, event);
		}
		pub fn set_block_number(n: BlockNumberFor<T>) {
			Number::<T>::put(n);
		}
		pub fn set_extrinsic_index(i: u32) {
			ExecutionPhase::<T>::put(Phase::ApplyExtrinsic(i));
		}
		pub fn extrinsic_index() -> Option<u32> {
			match ExecutionPhase::<T>::get() {
				Some(Phase::ApplyExtrinsic(i)) => Some(i),
				_ => None,
			}
		}
		pub fn set_parent_hash(h: T::Hash) {
			ParentHash::<T>::put(h)
		}
		pub fn initialize(number: &BlockNumberFor<T>, parent_hash: &T::Hash, _digest: &sp_runtime::generic::Digest) {
			Number::<T>::put(*number);
			ParentHash::<T>::put(*parent_hash);
			BlockHash::<T>::insert(*number - One::one(), *parent_hash);
			ExecutionPhase::<T>::put(Phase::Initialization);
			Self::reset_events();
			let drop = number.saturating_sub(T::BlockHashCount::get()).saturating_sub(One::one());
			if !drop.is_zero() {
				BlockHash::<T>::remove(drop);
			}
		}
		pub fn current_block_number() -> BlockNumberFor<T> {
			Self::block_number()
		}
		pub fn account_nonce(who: impl parity_scale_codec::EncodeLike<T::AccountId>) -> T::Nonce {
			Account::<T>::get(who).nonce
		}
		pub fn inc_account_nonce(who: impl parity_scale_codec::EncodeLike<T::AccountId>) {
			Account::<T>::mutate(who, |a| a.nonce += T::Nonce::one());
		}
		pub fn account_exists(who: &T::AccountId) -> bool {
			Account::<T>::contains_key(who)
		}
		pub fn providers(who: &T::AccountId) -> RefCount {
			Account::<T>::get(who).providers
		}
		pub fn consumers(who: &T::AccountId) -> RefCount {
			Account::<T>::get(who).consumers
		}
		pub fn sufficients(who: &T::AccountId) -> RefCount {
			Account::<T>::get(who).sufficients
		}
		pub fn reference_count(who: &T::AccountId) -> RefCount {
			let a = Account::<T>::get(who);
			a.consumers + a.providers + a.sufficients
		}
		pub fn inc_providers(who: &T::AccountId) -> IncRefStatus {
			Account::<T>::mutate(who, |a| {
				if a.providers == 0 && a.sufficients == 0 {
					a.providers = 1;
					Self::on_created_account(who.clone());
					IncRefStatus::Created
				} else {
					a.providers = a.providers.saturating_add(1);
					IncRefStatus::Existed
				}
			})
		}
		pub fn dec_providers(who: &T::AccountId) -> Result<DecRefStatus, DispatchError> {
			Account::<T>::try_mutate_exists(who, |maybe| {
				if let Some(mut a) = maybe.take() {
					if a.providers == 0 {
						a.providers = 1;
					}
					match (a.providers, a.consumers, a.sufficients) {
						(1, 0, 0) => {
							Self::on_killed_account(who.clone());
							Ok(DecRefStatus::Reaped)
						},
						(1, c, _) if c > 0 => {
							*maybe = Some(a);
							Err(DispatchError::ConsumerRemaining)
						},
						(x, _, _) => {
							a.providers = x - 1;
							*maybe = Some(a);
							Ok(DecRefStatus::Exists)
						},
					}
				} else {
					Ok(DecRefStatus::Reaped)
				}
			})
		}
		pub fn inc_sufficients(who: &T::AccountId) -> IncRefStatus {
			Account::<T>::mutate(who, |a| {
				if a.providers + a.sufficients == 0 {
					a.sufficients = 1;
					Self::on_created_account(who.clone());
					IncRefStatus::Created
				} else {
					a.sufficients = a.sufficients.saturating_add(1);
					IncRefStatus::Existed
				}
			})
		}
		pub fn inc_consumers(who: &T::AccountId) -> Result<(), DispatchError> {
			Account::<T>::try_mutate(who, |a| {
				if a.providers > 0 {
					if a.consumers < T::MaxConsumers::max_consumers() {
						a.consumers = a.consumers.saturating_add(1);
						Ok(())
					} else {
						Err(DispatchError::TooManyConsumers)
					}
				} else {
					Err(DispatchError::NoProviders)
				}
			})
		}
		pub fn inc_consumers_without_limit(who: &T::AccountId) -> Result<(), DispatchError> {
			Account::<T>::try_mutate(who, |a| {
				if a.providers > 0 {
					a.consumers = a.consumers.saturating_add(1);
					Ok(())
				} else {
					Err(DispatchError::NoProviders)
				}
			})
		}
		pub fn dec_consumers(who: &T::AccountId) {
			Account::<T>::mutate(who, |a| a.consumers = a.consumers.saturating_sub(1))
		}
		pub fn can_dec_provider(who: &T::AccountId) -> bool {
			let a = Account::<T>::get(who);
			a.consumers == 0 || a.providers > 1
		}
		pub fn can_inc_consumer(who: &T::AccountId) -> bool {
			let a = Account::<T>::get(who);
			a.providers > 0 && a.consumers < T::MaxConsumers::max_consumers()
		}
		pub fn is_provider_required(who: &T::AccountId) -> bool {
			Account::<T>::get(who).consumers != 0
		}
		fn on_created_account(who: T::AccountId) {
			T::OnNewAccount::on_new_account(&who);
			Self::deposit_event(Event::NewAccount { account: who });
		}
		fn on_killed_account(who: T::AccountId) {
			T::OnKilledAccount::on_killed_account(&who);
			Self::deposit_event(Event::KilledAccount { account: who });
		}
	}
	impl<T: Config> StoredMap<T::AccountId, T::AccountData> for Pallet<T> {
		fn get(k: &T::AccountId) -> T::AccountData {
			Account::<T>::get(k).data
		}
		fn try_mutate_exists<R, E: From<DispatchError>>(k: &T::AccountId, f: impl FnOnce(&mut Option<T::AccountData>) -> Result<R, E>) -> Result<R, E> {
			let a = Account::<T>::get(k);
			let is_default = a.data == T::AccountData::default();
			let mut data = if is_default { None } else { Some(a.data) };
			let r = f(&mut data)?;
			if Self::providers(k) > 0 || Self::sufficients(k) > 0 {
				Account::<T>::mutate(k, |a| a.data = data.unwrap_or_default());
			} else {
				Account::<T>::remove(k)
			}
			Ok(r)
		}
	}
	impl<T: Config> sp_runtime::traits::BlockNumberProvider for Pallet<T> {
		type BlockNumber = BlockNumberFor<T>;
		fn current_block_number() -> BlockNumberFor<T> {
			Self::block_number()
		}
	}
	#[allow(dead_code)]
	type _Unused<T> = (Zeroed, PhantomData<T>);
	struct Zeroed;
	#[allow(dead_code)]
	fn _u<T: Config>() where T::Block: traits::Block {}
}
pub mod pallet_prelude {
	pub use super::{ensure_none, ensure_root, ensure_signed, ensure_signed_or_root, pallet::BlockNumberFor, pallet::HeaderFor};
	pub type OriginFor<T> = <T as super::Config>::RuntimeOrigin;
	pub type RuntimeCallFor<T> = <T as super::Config>::RuntimeCall;
}
use pallet_prelude::OriginFor;
pub fn ensure_signed<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<A, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Signed(t)) => Ok(t),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_signed_or_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<Option<A>, BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(None),
		Ok(RawOrigin::Signed(t)) => Ok(Some(t)),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_root<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::Root) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub fn ensure_none<O: Into<Result<RawOrigin<A>, O>>, A>(o: O) -> Result<(), BadOrigin> {
	match o.into() {
		Ok(RawOrigin::None) => Ok(()),
		_ => Err(BadOrigin),
	}
}
pub struct EnsureRoot<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureRoot<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::Root => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureSigned<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureSigned<A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(w) => Ok(w),
			r => Err(O::from(r)),
		})
	}
}
/// root, with the given value
pub struct EnsureRootWithSuccess<A, S>(PhantomData<(A, S)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A, S: frame_support::traits::TypedGet> EnsureOrigin<O> for EnsureRootWithSuccess<A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		EnsureRoot::<A>::try_origin(o).map(|()| S::get())
	}
}
pub struct EnsureWithSuccess<E, A, S>(PhantomData<(E, A, S)>);
impl<O, E: EnsureOrigin<O>, A, S: frame_support::traits::TypedGet> EnsureOrigin<O> for EnsureWithSuccess<E, A, S> {
	type Success = S::Type;
	fn try_origin(o: O) -> Result<S::Type, O> {
		E::try_origin(o).map(|_| S::get())
	}
}
pub struct EnsureSignedBy<Who, A>(PhantomData<(Who, A)>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, Who: frame_support::traits::SortedMembers<A>, A: PartialEq + Clone + Ord + Decode> EnsureOrigin<O> for EnsureSignedBy<Who, A> {
	type Success = A;
	fn try_origin(o: O) -> Result<A, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Signed(ref who) if Who::contains(who) => Ok(who.clone()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNone<A>(PhantomData<A>);
impl<O: Into<Result<RawOrigin<A>, O>> + From<RawOrigin<A>>, A> EnsureOrigin<O> for EnsureNone<A> {
	type Success = ();
	fn try_origin(o: O) -> Result<(), O> {
		o.into().and_then(|o| match o {
			RawOrigin::None => Ok(()),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureNever<S>(PhantomData<S>);
impl<O, S> EnsureOrigin<O> for EnsureNever<S> {
	type Success = S;
	fn try_origin(o: O) -> Result<S, O> {
		Err(o)
	}
}
pub mod mocking {
	use sp_runtime::generic;
	pub type MockUncheckedExtrinsic<T, Signature = (), Extra = ()> =
		generic::UncheckedExtrinsic<<T as super::Config>::AccountId, <T as super::Config>::RuntimeCall, Signature, Extra>;
	pub type MockBlock<T> = generic::Block<generic::Header<u64, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
	pub type MockBlockU32<T> = generic::Block<generic::Header<u32, sp_runtime::traits::BlakeTwo256>, MockUncheckedExtrinsic<T>>;
}
#[allow(dead_code)]
fn _unused(_: DispatchResult, _: Weight, _: DispatchClass) {}
#[allow(unused)]
type _O<T> = OriginFor<T>;

pub struct ChainContext<T>(PhantomData<T>);
pub mod extensions {
	use super::*;
	use sp_runtime::generic::Era;
	use sp_runtime::traits::{DispatchInfoOf, SignedExtension};
	use sp_runtime::transaction_validity::{InvalidTransaction, TransactionValidity, TransactionValidityError, ValidTransaction};
	macro_rules! extension {
		($n:ident ($($f:ty),*) $add:ty = |$this:ident| $val:expr, |$who:ident| $check:expr) => {
			#[derive(Encode, Decode, TypeInfo)]
			#[scale_info(skip_type_params(T))]
			#[codec(encode_bound(), decode_bound())]
			pub struct $n<T: Config>($($f,)* PhantomData<T>);
			impl<T: Config> Clone for $n<T> {
				fn clone(&self) -> Self {
					Self::decode(&mut &self.encode()[..]).expect("its own encoding")
				}
			}
			impl<T: Config> PartialEq for $n<T> {
				fn eq(&self, o: &Self) -> bool {
					self.encode() == o.encode()
				}
			}
			impl<T: Config> Eq for $n<T> {}
			impl<T: Config> std::fmt::Debug for $n<T> {
				fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
					f.write_str(stringify!($n))
				}
			}
			impl<T: Config + Send + Sync> SignedExtension for $n<T> {
				const IDENTIFIER: &'static str = stringify!($n);
				type AccountId = T::AccountId;
				type Call = T::RuntimeCall;
				type AdditionalSigned = $add;
				type Pre = ();
				fn additional_signed(&self) -> Result<$add, TransactionValidityError> {
					let $this = self;
					Ok($val)
				}
				fn validate(&self, $who: &T::AccountId, _: &T::RuntimeCall, _: &DispatchInfoOf<T::RuntimeCall>, _: usize) -> TransactionValidity {
					$check
				}
				fn pre_dispatch(self, who: &T::AccountId, c: &T::RuntimeCall, i: &DispatchInfoOf<T::RuntimeCall>, l: usize) -> Result<(), TransactionValidityError> {
					self.validate(who, c, i, l).map(|_| ())
				}
			}
		};
	}
	extension!(CheckNonZeroSender() () = |_x| (), |who| if who.using_encoded(|d| d.iter().all(|x| *x == 0)) { Err(InvalidTransaction::BadSigner.into()) } else { Ok(ValidTransaction::default()) });
	extension!(CheckSpecVersion() u32 = |_x| T::Version::get().spec_version, |_who| Ok(ValidTransaction::default()));
	extension!(CheckTxVersion() u32 = |_x| T::Version::get().transaction_version, |_who| Ok(ValidTransaction::default()));
	extension!(CheckGenesis() T::Hash = |_x| Pallet::<T>::block_hash(BlockNumberFor::<T>::zero()), |_who| Ok(ValidTransaction::default()));
	extension!(CheckEra(Era) T::Hash = |x| {
		let now = sp_runtime::traits::SaturatedConversion::saturated_into::<u64>(Pallet::<T>::block_number());
		let birth = sp_runtime::traits::SaturatedConversion::saturated_into::<BlockNumberFor<T>>(x.0.birth(now));
		if !BlockHash::<T>::contains_key(birth) {
			return Err(InvalidTransaction::AncientBirthBlock.into())
		}
		Pallet::<T>::block_hash(birth)
	}, |_who| Ok(ValidTransaction::default()));
	extension!(CheckWeight() () = |_x| (), |_who| Ok(ValidTransaction::default()));
	macro_rules! news { ($($n:ident),*) => {$(impl<T: Config> $n<T> { pub fn new() -> Self { Self(PhantomData) } })*}; }
	news!(CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckGenesis, CheckWeight);
	impl<T: Config> CheckEra<T> {
		pub fn from(e: Era) -> Self {
			Self(e, PhantomData)
		}
	}
}
pub use extensions::{CheckEra, CheckGenesis, CheckNonZeroSender, CheckSpecVersion, CheckTxVersion, CheckWeight};
