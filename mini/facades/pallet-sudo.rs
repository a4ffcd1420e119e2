//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_sudo: calls by the key holder
extern crate self as pallet_sudo;
pub use pallet::*;
use frame_support::dispatch::GetDispatchInfo;
use frame_support::traits::UnfilteredDispatchable;
pub mod weights {
	pub struct SubstrateWeight<T>(std::marker::PhantomData<T>);
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type RuntimeCall: Parameter + UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin> + GetDispatchInfo;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::storage]
	pub type Key<T: Config> = StorageValue<_, T::AccountId>;
	#[pallet::error]
	pub enum Error<T> {
		RequireSudo,
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let i = call.get_dispatch_info(); (i.weight, i.class) })]
		pub fn sudo(origin: OriginFor<T>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			ensure!(Key::<T>::get() == Some(who), Error::<T>::RequireSudo);
			let _ = call.dispatch_bypass_filter(frame_system::RawOrigin::Root.into());
			Ok(Pays::No.into())
		}
	}
}
