//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_democracy: inert stand-in: configuration and some calls
extern crate self as pallet_democracy;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type CooloffPeriod;
		type Currency;
		type EnactmentPeriod;
		type RuntimeEvent;
		type FastTrackVotingPeriod;
		type InstantAllowed;
		type LaunchPeriod;
		type MaxProposals;
		type MaxVotes;
		type MinimumDeposit;
		type Scheduler;
		type Slash;
		type WeightInfo;
		type VoteLockingPeriod;
		type VotingPeriod;
		type Preimages;
		type MaxDeposits;
		type MaxBlacklisted;
		type ExternalDefaultOrigin;
		type ExternalMajorityOrigin;
		type ExternalOrigin;
		type SubmitOrigin;
		type FastTrackOrigin;
		type InstantOrigin;
		type PalletsOrigin;
		type CancellationOrigin;
		type CancelProposalOrigin;
		type BlacklistOrigin;
		type VetoOrigin;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn second(origin: OriginFor<T>, proposal: u32) -> DispatchResultWithPostInfo {
			let _ = (origin, proposal);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn delegate(origin: OriginFor<T>, to: T::AccountId) -> DispatchResultWithPostInfo {
			let _ = (origin, to);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn undelegate(origin: OriginFor<T>) -> DispatchResultWithPostInfo {
			let _ = (origin);
			Err(DispatchError::Other("not emulated").into())
		}
	}
}
