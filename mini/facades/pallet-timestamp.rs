//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_timestamp: inert stand-in: configuration and some calls
extern crate self as pallet_timestamp;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type Moment;
		type OnTimestampSet;
		type MinimumPeriod;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::from_parts(10_000_000, 0), DispatchClass::Mandatory))]
		pub fn set(origin: OriginFor<T>, #[pallet::compact] now: u64) -> DispatchResultWithPostInfo {
			ensure_none(origin)?;
			let _ = now;
			Ok(().into())
		}
	}
}
