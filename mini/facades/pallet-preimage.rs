//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_preimage: inert stand-in: configuration and some calls
extern crate self as pallet_preimage;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type WeightInfo;
		type RuntimeEvent;
		type Currency;
		type ManagerOrigin;
		type Consideration;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn note_preimage(origin: OriginFor<T>, bytes: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = (origin, bytes);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn unnote_preimage(origin: OriginFor<T>, hash: T::Hash) -> DispatchResultWithPostInfo {
			let _ = (origin, hash);
			Err(DispatchError::Other("not emulated").into())
		}
	}
	#[pallet::composite_enum]
	pub enum HoldReason {
		Preimage,
	}
}
