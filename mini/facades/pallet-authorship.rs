//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_authorship: inert stand-in: configuration and some calls
extern crate self as pallet_authorship;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type FindAuthor;
		type EventHandler;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
}
