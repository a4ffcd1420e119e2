//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_collator_selection: inert stand-in: configuration and some calls
extern crate self as pallet_collator_selection;
pub use pallet::*;
pub struct IdentityCollator;
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type Currency;
		type UpdateOrigin;
		type PotId;
		type MaxCandidates;
		type MinEligibleCollators;
		type MaxInvulnerables;
		type KickThreshold;
		type ValidatorId;
		type ValidatorIdOf;
		type ValidatorRegistration;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn set_invulnerables(origin: OriginFor<T>, new: Vec<T::AccountId>) -> DispatchResultWithPostInfo {
			let _ = (origin, new);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn set_desired_candidates(origin: OriginFor<T>, max: u32) -> DispatchResultWithPostInfo {
			let _ = (origin, max);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn set_candidacy_bond(origin: OriginFor<T>, bond: u128) -> DispatchResultWithPostInfo {
			let _ = (origin, bond);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn register_as_candidate(origin: OriginFor<T>) -> DispatchResultWithPostInfo {
			let _ = (origin);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(4)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn leave_intent(origin: OriginFor<T>) -> DispatchResultWithPostInfo {
			let _ = (origin);
			Err(DispatchError::Other("not emulated").into())
		}
	}
}
