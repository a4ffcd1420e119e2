//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! cumulus_pallet_aura_ext: inert stand-in: configuration and some calls
extern crate self as cumulus_pallet_aura_ext;
pub use pallet::*;
use std::marker::PhantomData;
pub struct FixedVelocityConsensusHook<T, const A: u32, const B: u32, const C: u32>(PhantomData<T>);
pub struct BlockExecutor<T, E>(PhantomData<(T, E)>);
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
}
