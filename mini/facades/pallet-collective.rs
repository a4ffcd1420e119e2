//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io
//! pallet_collective as in polkadot v1.6.0 (reduced)
extern crate self as pallet_collective;
use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{BuildGenesisConfig, ChangeMembers, EnsureOrigin, Get};
use frame_support::weights::Weight;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use sp_runtime::traits::{Dispatchable, Hash};
use std::marker::PhantomData;
pub use pallet::*;

pub type ProposalIndex = u32;
pub type MemberCount = u32;
macro_rules! instances {
	($($n:ident $i:literal $p:literal),*) => {$(
		#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, MaxEncodedLen, Default)]
		pub struct $n;
	)*};
}
instances!(Instance1 1 "Instance1", Instance2 2 "Instance2");

pub trait DefaultVote {
	fn default_vote(prime: Option<bool>, yes: MemberCount, no: MemberCount, len: MemberCount) -> bool;
}
pub struct PrimeDefaultVote;
impl DefaultVote for PrimeDefaultVote {
	fn default_vote(prime: Option<bool>, _: MemberCount, _: MemberCount, _: MemberCount) -> bool {
		prime.unwrap_or(false)
	}
}
#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, MaxEncodedLen)]
#[scale_info(skip_type_params(I))]
pub enum RawOrigin<AccountId, I> {
	Members(MemberCount, MemberCount),
	Member(AccountId),
	_Phantom(PhantomData<I>),
}
#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
pub struct Votes<AccountId, BlockNumber> {
	pub index: ProposalIndex,
	pub threshold: MemberCount,
	pub ayes: Vec<AccountId>,
	pub nays: Vec<AccountId>,
	pub end: BlockNumber,
}
pub trait WeightInfo {
	fn w() -> Weight {
		Weight::from_parts(10_000_000, 0)
	}
}
impl WeightInfo for () {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::pallet]
	pub struct Pallet<T, I = ()>(PhantomData<(T, I)>);
	#[pallet::config]
	pub trait Config<I: 'static = ()>: frame_system::Config {
		type RuntimeOrigin: From<RawOrigin<Self::AccountId, I>> + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type Proposal: Parameter
			+ Dispatchable<RuntimeOrigin = <Self as Config<I>>::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ From<frame_system::Call<Self>>
			+ GetDispatchInfo;
		type RuntimeEvent: From<Event<Self, I>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type MotionDuration: Get<BlockNumberFor<Self>>;
		type MaxProposals: Get<ProposalIndex>;
		type MaxMembers: Get<MemberCount>;
		type DefaultVote: DefaultVote;
		type WeightInfo;
		type SetMembersOrigin: EnsureOrigin<<Self as frame_system::Config>::RuntimeOrigin>;
		type MaxProposalWeight: Get<Weight>;
	}
	#[pallet::genesis_config]
	pub struct GenesisConfig<T: Config<I>, I: 'static = ()> {
		pub phantom: PhantomData<I>,
		pub members: Vec<T::AccountId>,
	}
	impl<T: Config<I>, I: 'static> Default for GenesisConfig<T, I> {
		fn default() -> Self {
			Self { phantom: PhantomData, members: vec![] }
		}
	}
	#[pallet::genesis_build]
	impl<T: Config<I>, I: 'static> BuildGenesisConfig for GenesisConfig<T, I> {
		fn build(&self) {
			if !self.members.is_empty() {
				let mut m = self.members.clone();
				m.sort();
				Members::<T, I>::put(m);
			}
		}
	}
	#[pallet::origin]
	pub type Origin<T, I = ()> = RawOrigin<<T as frame_system::Config>::AccountId, I>;
	#[pallet::storage]
	#[pallet::getter(fn proposals)]
	pub type Proposals<T: Config<I>, I: 'static = ()> = StorageValue<_, BoundedVec<T::Hash, T::MaxProposals>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_of)]
	pub type ProposalOf<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, <T as Config<I>>::Proposal, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn voting)]
	pub type Voting<T: Config<I>, I: 'static = ()> = StorageMap<_, Identity, T::Hash, Votes<T::AccountId, BlockNumberFor<T>>, OptionQuery>;
	#[pallet::storage]
	#[pallet::getter(fn proposal_count)]
	pub type ProposalCount<T: Config<I>, I: 'static = ()> = StorageValue<_, u32, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn members)]
	pub type Members<T: Config<I>, I: 'static = ()> = StorageValue<_, Vec<T::AccountId>, ValueQuery>;
	#[pallet::storage]
	#[pallet::getter(fn prime)]
	pub type Prime<T: Config<I>, I: 'static = ()> = StorageValue<_, T::AccountId, OptionQuery>;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config<I>, I: 'static = ()> {
		Proposed { account: T::AccountId, proposal_index: ProposalIndex, proposal_hash: T::Hash, threshold: MemberCount },
		Voted { account: T::AccountId, proposal_hash: T::Hash, voted: bool, yes: MemberCount, no: MemberCount },
		Approved { proposal_hash: T::Hash },
		Disapproved { proposal_hash: T::Hash },
		Executed { proposal_hash: T::Hash, result: DispatchResult },
		MemberExecuted { proposal_hash: T::Hash, result: DispatchResult },
		Closed { proposal_hash: T::Hash, yes: MemberCount, no: MemberCount },
	}
	#[pallet::error]
	pub enum Error<T, I = ()> {
		NotMember,
		DuplicateProposal,
		ProposalMissing,
		WrongIndex,
		DuplicateVote,
		AlreadyInitialized,
		TooEarly,
		TooManyProposals,
		WrongProposalWeight,
		WrongProposalLength,
		PrimeAccountNotMember,
	}
	#[pallet::call]
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		#[pallet::call_index(0)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn set_members(origin: OriginFor<T>, new_members: Vec<T::AccountId>, prime: Option<T::AccountId>, _old_count: MemberCount) -> DispatchResultWithPostInfo {
			T::SetMembersOrigin::ensure_origin(origin)?;
			if let Some(p) = &prime {
				ensure!(new_members.contains(p), Error::<T, I>::PrimeAccountNotMember);
			}
			let mut m = new_members;
			m.sort();
			let old = Self::members();
			<Self as ChangeMembers<T::AccountId>>::set_members_sorted(&m, &old);
			Prime::<T, I>::set(prime);
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn execute(origin: OriginFor<T>, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let members = Self::members();
			ensure!(members.contains(&who), Error::<T, I>::NotMember);
			ensure!(proposal.encoded_size() <= length_bound as usize, Error::<T, I>::WrongProposalLength);
			let proposal_hash = T::Hashing::hash_of(&proposal);
			let result = proposal.dispatch(RawOrigin::Member(who).into());
			Self::deposit_event(Event::MemberExecuted { proposal_hash, result: result.map(|_| ()).map_err(|e| e.error) });
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn propose(origin: OriginFor<T>, #[pallet::compact] threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			if threshold < 2 {
				Self::do_propose_execute(proposal, length_bound)?;
			} else {
				Self::do_propose_proposed(who, threshold, proposal, length_bound)?;
			}
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn vote(origin: OriginFor<T>, proposal: T::Hash, #[pallet::compact] index: ProposalIndex, approve: bool) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Self::members().contains(&who), Error::<T, I>::NotMember);
			let mut voting = Self::voting(&proposal).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(voting.index == index, Error::<T, I>::WrongIndex);
			let yes = voting.ayes.iter().position(|a| a == &who);
			let no = voting.nays.iter().position(|a| a == &who);
			if approve {
				if yes.is_none() {
					voting.ayes.push(who.clone());
				} else {
					return Err(Error::<T, I>::DuplicateVote.into())
				}
				if let Some(p) = no {
					voting.nays.swap_remove(p);
				}
			} else {
				if no.is_none() {
					voting.nays.push(who.clone());
				} else {
					return Err(Error::<T, I>::DuplicateVote.into())
				}
				if let Some(p) = yes {
					voting.ayes.swap_remove(p);
				}
			}
			let (y, n) = (voting.ayes.len() as MemberCount, voting.nays.len() as MemberCount);
			Self::deposit_event(Event::Voted { account: who, proposal_hash: proposal, voted: approve, yes: y, no: n });
			Voting::<T, I>::insert(&proposal, voting);
			Ok(().into())
		}
		#[pallet::call_index(5)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn disapprove_proposal(origin: OriginFor<T>, proposal_hash: T::Hash) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			Self::remove_proposal(proposal_hash);
			Self::deposit_event(Event::Disapproved { proposal_hash });
			Ok(().into())
		}
		#[pallet::call_index(6)]
		#[pallet::weight((<() as WeightInfo>::w(), DispatchClass::Operational))]
		pub fn close(origin: OriginFor<T>, proposal_hash: T::Hash, #[pallet::compact] index: ProposalIndex, proposal_weight_bound: Weight, #[pallet::compact] length_bound: u32) -> DispatchResultWithPostInfo {
			let _ = ensure_signed(origin)?;
			let _ = proposal_weight_bound;
			let voting = Self::voting(&proposal_hash).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(voting.index == index, Error::<T, I>::WrongIndex);
			let mut no = voting.nays.len() as MemberCount;
			let mut yes = voting.ayes.len() as MemberCount;
			let seats = Self::members().len() as MemberCount;
			let approved = yes >= voting.threshold;
			let disapproved = seats.saturating_sub(no) < voting.threshold;
			if approved {
				let proposal = Self::checked(&proposal_hash, length_bound)?;
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::approve(seats, yes, proposal_hash, proposal);
				return Ok(().into())
			} else if disapproved {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::remove_proposal(proposal_hash);
				Self::deposit_event(Event::Disapproved { proposal_hash });
				return Ok(().into())
			}
			ensure!(frame_system::Pallet::<T>::block_number() >= voting.end, Error::<T, I>::TooEarly);
			let prime = Self::prime().map(|w| voting.ayes.iter().any(|a| a == &w));
			let default = T::DefaultVote::default_vote(prime, yes, no, seats);
			let abstentions = seats - (yes + no);
			if default {
				yes += abstentions
			} else {
				no += abstentions
			}
			if yes >= voting.threshold {
				let proposal = Self::checked(&proposal_hash, length_bound)?;
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::approve(seats, yes, proposal_hash, proposal);
			} else {
				Self::deposit_event(Event::Closed { proposal_hash, yes, no });
				Self::remove_proposal(proposal_hash);
				Self::deposit_event(Event::Disapproved { proposal_hash });
			}
			Ok(().into())
		}
	}
	impl<T: Config<I>, I: 'static> Pallet<T, I> {
		pub fn is_member(who: &T::AccountId) -> bool {
			Self::members().contains(who)
		}
		pub fn do_propose_execute(proposal: Box<<T as Config<I>>::Proposal>, length_bound: MemberCount) -> Result<(u32, DispatchResultWithPostInfo), DispatchError> {
			let len = proposal.encoded_size();
			ensure!(len <= length_bound as usize, Error::<T, I>::WrongProposalLength);
			let proposal_hash = T::Hashing::hash_of(&proposal);
			ensure!(!<ProposalOf<T, I>>::contains_key(proposal_hash), Error::<T, I>::DuplicateProposal);
			let seats = Self::members().len() as MemberCount;
			let result = proposal.dispatch(RawOrigin::Members(1, seats).into());
			Self::deposit_event(Event::Executed { proposal_hash, result: result.clone().map(|_| ()).map_err(|e| e.error) });
			Ok((len as u32, result))
		}
		pub fn do_propose_proposed(who: T::AccountId, threshold: MemberCount, proposal: Box<<T as Config<I>>::Proposal>, length_bound: MemberCount) -> Result<(u32, u32), DispatchError> {
			let len = proposal.encoded_size();
			ensure!(len <= length_bound as usize, Error::<T, I>::WrongProposalLength);
			let proposal_hash = T::Hashing::hash_of(&proposal);
			ensure!(!<ProposalOf<T, I>>::contains_key(proposal_hash), Error::<T, I>::DuplicateProposal);
			let active = <Proposals<T, I>>::try_mutate(|p| -> Result<usize, DispatchError> {
				p.try_push(proposal_hash).map_err(|_| Error::<T, I>::TooManyProposals)?;
				Ok(p.len())
			})?;
			let index = Self::proposal_count();
			<ProposalCount<T, I>>::mutate(|i| *i += 1);
			<ProposalOf<T, I>>::insert(proposal_hash, *proposal);
			let end = frame_system::Pallet::<T>::block_number() + T::MotionDuration::get();
			<Voting<T, I>>::insert(proposal_hash, Votes { index, threshold, ayes: vec![], nays: vec![], end });
			Self::deposit_event(Event::Proposed { account: who, proposal_index: index, proposal_hash, threshold });
			Ok((len as u32, active as u32))
		}
		fn checked(hash: &T::Hash, length_bound: u32) -> Result<<T as Config<I>>::Proposal, DispatchError> {
			let p = ProposalOf::<T, I>::get(hash).ok_or(Error::<T, I>::ProposalMissing)?;
			ensure!(p.encoded_size() <= length_bound as usize, Error::<T, I>::WrongProposalLength);
			Ok(p)
		}
		fn approve(seats: MemberCount, yes: MemberCount, proposal_hash: T::Hash, proposal: <T as Config<I>>::Proposal) {
			Self::deposit_event(Event::Approved { proposal_hash });
			let result = proposal.dispatch(RawOrigin::Members(yes, seats).into());
			Self::deposit_event(Event::Executed { proposal_hash, result: result.map(|_| ()).map_err(|e| e.error) });
			Self::remove_proposal(proposal_hash);
		}
		fn remove_proposal(proposal_hash: T::Hash) {
			ProposalOf::<T, I>::remove(&proposal_hash);
			Voting::<T, I>::remove(&proposal_hash);
			Proposals::<T, I>::mutate(|p| p.retain(|h| h != &proposal_hash));
		}
	}
	impl<T: Config<I>, I: 'static> ChangeMembers<T::AccountId> for Pallet<T, I> {
		fn change_members_sorted(_incoming: &[T::AccountId], outgoing: &[T::AccountId], new: &[T::AccountId]) {
			for h in Self::proposals().into_iter() {
				Voting::<T, I>::mutate(h, |v| {
					if let Some(v) = v {
						v.ayes.retain(|a| !outgoing.contains(a));
						v.nays.retain(|a| !outgoing.contains(a));
					}
				});
			}
			Members::<T, I>::put(new.to_vec());
			Prime::<T, I>::kill();
		}
	}
}

macro_rules! ensure_proportion {
	($n:ident, $op:tt) => {
		pub struct $n<AccountId, I: 'static, const N: u32, const D: u32>(PhantomData<(AccountId, I)>);
		impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, AccountId, I, const N: u32, const D: u32> EnsureOrigin<O> for $n<AccountId, I, N, D> {
			type Success = ();
			fn try_origin(o: O) -> Result<(), O> {
				o.into().and_then(|o| match o {
					RawOrigin::Members(n, m) if n * D $op N * m => Ok(()),
					r => Err(O::from(r)),
				})
			}
		}
	};
}
ensure_proportion!(EnsureProportionMoreThan, >);
ensure_proportion!(EnsureProportionAtLeast, >=);
pub struct EnsureMembers<AccountId, I: 'static, const N: u32>(PhantomData<(AccountId, I)>);
impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, AccountId, I, const N: u32> EnsureOrigin<O> for EnsureMembers<AccountId, I, N> {
	type Success = (MemberCount, MemberCount);
	fn try_origin(o: O) -> Result<Self::Success, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Members(n, m) if n >= N => Ok((n, m)),
			r => Err(O::from(r)),
		})
	}
}
pub struct EnsureMember<AccountId, I: 'static>(PhantomData<(AccountId, I)>);
impl<O: Into<Result<RawOrigin<AccountId, I>, O>> + From<RawOrigin<AccountId, I>>, I, AccountId> EnsureOrigin<O> for EnsureMember<AccountId, I> {
	type Success = AccountId;
	fn try_origin(o: O) -> Result<AccountId, O> {
		o.into().and_then(|o| match o {
			RawOrigin::Member(id) => Ok(id),
			r => Err(O::from(r)),
		})
	}
}
