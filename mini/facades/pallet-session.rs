//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_session: inert stand-in: configuration and some calls
extern crate self as pallet_session;
pub use pallet::*;
use std::marker::PhantomData;
pub struct FindAccountFromAuthorIndex<T, I>(PhantomData<(T, I)>);
pub struct PeriodicSessions<P, O>(PhantomData<(P, O)>);
pub trait ShouldEndSession<N> {
	fn should_end_session(now: N) -> bool;
}
impl<P: frame_support::traits::Get<u32>, O: frame_support::traits::Get<u32>> ShouldEndSession<u32> for PeriodicSessions<P, O> {
	fn should_end_session(now: u32) -> bool {
		now >= O::get() && (now - O::get()) % P::get() == 0
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type ValidatorId;
		type ValidatorIdOf;
		type ShouldEndSession;
		type NextSessionRotation;
		type SessionManager;
		type SessionHandler;
		type Keys;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event {
		Done,
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn set_keys(origin: OriginFor<T>, proof: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = (origin, proof);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn purge_keys(origin: OriginFor<T>) -> DispatchResultWithPostInfo {
			let _ = (origin);
			Err(DispatchError::Other("not emulated").into())
		}
	}
}
