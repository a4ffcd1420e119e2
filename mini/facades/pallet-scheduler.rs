//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_scheduler: inert stand-in: configuration and some calls
extern crate self as pallet_scheduler;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type RuntimeOrigin;
		type PalletsOrigin;
		type RuntimeCall: Parameter;
		type MaximumWeight;
		type ScheduleOrigin;
		type MaxScheduledPerBlock;
		type WeightInfo;
		type OriginPrivilegeCmp;
		type Preimages;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn schedule(origin: OriginFor<T>, when: BlockNumberFor<T>, priority: u8, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let _ = (origin, when, priority, call);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn cancel(origin: OriginFor<T>, when: BlockNumberFor<T>, index: u32) -> DispatchResultWithPostInfo {
			let _ = (origin, when, index);
			Err(DispatchError::Other("not emulated").into())
		}
	}
}
