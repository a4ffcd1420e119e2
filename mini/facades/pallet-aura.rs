//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_aura: inert stand-in: configuration and some calls
extern crate self as pallet_aura;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type AuthorityId;
		type DisabledValidators;
		type MaxAuthorities;
		type AllowMultipleBlocksPerSlot;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
}
