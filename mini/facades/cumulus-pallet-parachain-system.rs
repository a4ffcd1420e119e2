//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! cumulus_pallet_parachain_system: inert stand-in: configuration and some calls
extern crate self as cumulus_pallet_parachain_system;
pub use pallet::*;
use std::marker::PhantomData;
pub struct RelayNumberMonotonicallyIncreases;
pub struct ParachainSetCode<T>(PhantomData<T>);
#[macro_export]
macro_rules! register_validate_block {
	($($t:tt)*) => {};
}
std::thread_local! { static RELAY: std::cell::Cell<u32> = const { std::cell::Cell::new(0) }; }
/// the number of the relay chain's block, set by the harness
pub struct RelaychainDataProvider<T>(PhantomData<T>);
impl<T> RelaychainDataProvider<T> {
	pub fn set(n: u32) {
		RELAY.with(|r| r.set(n))
	}
}
impl<T> sp_runtime::traits::BlockNumberProvider for RelaychainDataProvider<T> {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		RELAY.with(|r| r.get())
	}
}
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type OnSystemEvent;
		type SelfParaId;
		type DmpQueue;
		type ReservedDmpWeight;
		type OutboundXcmpMessageSource;
		type XcmpMessageHandler;
		type ReservedXcmpWeight;
		type CheckAssociatedRelayNumber;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::from_parts(10_000_000, 0), DispatchClass::Mandatory))]
		pub fn set_validation_data(origin: OriginFor<T>, data: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_none(origin)?;
			let _ = data;
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Operational))]
		pub fn sudo_send_upward_message(origin: OriginFor<T>, message: Vec<u8>) -> DispatchResultWithPostInfo {
			ensure_root(origin)?;
			let _ = message;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), Pays::No))]
		pub fn enact_authorized_upgrade(origin: OriginFor<T>, code: Vec<u8>) -> DispatchResultWithPostInfo {
			let _ = (origin, code);
			Err(DispatchError::Other("not emulated").into())
		}
	}
	impl<T: Config> frame_support::unsigned::ValidateUnsigned for Pallet<T> {
		type Call = Call<T>;
		fn validate_unsigned(_: frame_support::unsigned::TransactionSource, _: &Call<T>) -> frame_support::unsigned::TransactionValidity {
			Err(frame_support::unsigned::InvalidTransaction::Call.into())
		}
	}
}
