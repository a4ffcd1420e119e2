//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_multisig: a threshold of one is emulated, nothing else
extern crate self as pallet_multisig;
pub use pallet::*;
use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo, RawOrigin};
use sp_runtime::traits::{Dispatchable, TrailingZeroInput};
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo;
		type Currency;
		type DepositBase;
		type DepositFactor;
		type MaxSignatories;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let i = call.get_dispatch_info(); (i.weight, i.class) })]
		pub fn as_multi_threshold_1(origin: OriginFor<T>, other_signatories: Vec<T::AccountId>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let mut all = other_signatories;
			all.push(who);
			all.sort();
			let id = Self::multi_account_id(&all, 1);
			call.dispatch(RawOrigin::Signed(id).into()).map(|_| ().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn approve_as_multi(origin: OriginFor<T>, threshold: u16, call_hash: [u8; 32]) -> DispatchResultWithPostInfo {
			let _ = (origin, threshold, call_hash);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn cancel_as_multi(origin: OriginFor<T>, threshold: u16, call_hash: [u8; 32]) -> DispatchResultWithPostInfo {
			let _ = (origin, threshold, call_hash);
			Err(DispatchError::Other("not emulated").into())
		}
	}
	impl<T: Config> Pallet<T> {
		pub fn multi_account_id(who: &[T::AccountId], threshold: u16) -> T::AccountId {
			let entropy = (b"modlpy/utilisuba", who, threshold).using_encoded(sp_io::hashing::blake2_256);
			Decode::decode(&mut TrailingZeroInput::new(entropy.as_ref())).expect("infinite length input")
		}
	}
}
