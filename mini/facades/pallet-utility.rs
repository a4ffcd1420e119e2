//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io
//! pallet_utility as in polkadot v1.6.0
extern crate self as pallet_utility;
use frame_support::dispatch::{extract_actual_weight, DispatchClass, GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{IsSubType, OriginTrait, UnfilteredDispatchable};
use frame_support::weights::Weight;
use sp_runtime::traits::Dispatchable;
use sp_runtime::DispatchError;
pub use pallet::*;

pub trait WeightInfo {
	fn batch(c: u32) -> Weight {
		Weight::from_parts(7_000_000u64.saturating_add(5_000_000u64.saturating_mul(c as u64)), 3997)
	}
	fn as_derivative() -> Weight {
		Weight::from_parts(5_000_000, 3997)
	}
	fn batch_all(c: u32) -> Weight {
		Self::batch(c)
	}
	fn dispatch_as() -> Weight {
		Weight::from_parts(10_000_000, 0)
	}
	fn force_batch(c: u32) -> Weight {
		Self::batch(c)
	}
}
impl WeightInfo for () {}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter
			+ Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo>
			+ GetDispatchInfo
			+ From<frame_system::Call<Self>>
			+ UnfilteredDispatchable<RuntimeOrigin = Self::RuntimeOrigin>
			+ IsSubType<Call<Self>>
			+ IsType<<Self as frame_system::Config>::RuntimeCall>;
		type PalletsOrigin: Parameter + Into<<Self as frame_system::Config>::RuntimeOrigin>;
		type WeightInfo: WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event {
		BatchInterrupted { index: u32, error: DispatchError },
		BatchCompleted,
		BatchCompletedWithErrors,
		ItemCompleted,
		ItemFailed { error: DispatchError },
		DispatchedAs { result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		TooManyCalls,
	}
	fn sum<T: Config>(calls: &[<T as Config>::RuntimeCall]) -> (Weight, DispatchClass) {
		let infos: Vec<_> = calls.iter().map(|c| c.get_dispatch_info()).collect();
		let w = infos.iter().fold(Weight::zero(), |a, i| a.saturating_add(i.weight));
		let all_op = infos.iter().all(|i| i.class == DispatchClass::Operational);
		(w, if all_op { DispatchClass::Operational } else { DispatchClass::Normal })
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let (w, c) = sum::<T>(calls); (w.saturating_add(T::WeightInfo::batch(calls.len() as u32)), c) })]
		pub fn batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(sp_runtime::traits::BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			let calls_len = calls.len();
			ensure!(calls_len <= 10_922, Error::<T>::TooManyCalls);
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				if let Err(e) = result {
					Self::deposit_event(Event::BatchInterrupted { index: index as u32, error: e.error });
					let base = T::WeightInfo::batch(index.saturating_add(1) as u32);
					return Ok(Some(base + weight).into())
				}
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			let base = T::WeightInfo::batch(calls_len as u32);
			Ok(Some(base + weight).into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight({ let i = call.get_dispatch_info(); (T::WeightInfo::as_derivative().saturating_add(i.weight), i.class) })]
		pub fn as_derivative(origin: OriginFor<T>, index: u16, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let _ = (origin, index, call);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight({ let (w, c) = sum::<T>(calls); (w.saturating_add(T::WeightInfo::batch_all(calls.len() as u32)), c) })]
		pub fn batch_all(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(sp_runtime::traits::BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			let calls_len = calls.len();
			ensure!(calls_len <= 10_922, Error::<T>::TooManyCalls);
			let mut weight = Weight::zero();
			for (index, call) in calls.into_iter().enumerate() {
				let info = call.get_dispatch_info();
				let result = if is_root {
					call.dispatch_bypass_filter(origin.clone())
				} else {
					let mut filtered = origin.clone();
					filtered.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
						let c = <T as Config>::RuntimeCall::from_ref(c);
						!matches!(c.is_sub_type(), Some(Call::batch_all { .. }))
					});
					call.dispatch(filtered)
				};
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				result.map_err(|mut err| {
					let base = T::WeightInfo::batch_all(index.saturating_add(1) as u32);
					err.post_info = Some(base + weight).into();
					err
				})?;
				Self::deposit_event(Event::ItemCompleted);
			}
			Self::deposit_event(Event::BatchCompleted);
			let base = T::WeightInfo::batch_all(calls_len as u32);
			Ok(Some(base.saturating_add(weight)).into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight({ let i = call.get_dispatch_info(); (T::WeightInfo::dispatch_as().saturating_add(i.weight), i.class) })]
		pub fn dispatch_as(origin: OriginFor<T>, as_origin: Box<T::PalletsOrigin>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResult {
			ensure_root(origin)?;
			let res = call.dispatch_bypass_filter((*as_origin).into());
			Self::deposit_event(Event::DispatchedAs { result: res.map(|_| ()).map_err(|e| e.error) });
			Ok(())
		}
		#[pallet::call_index(4)]
		#[pallet::weight({ let (w, c) = sum::<T>(calls); (w.saturating_add(T::WeightInfo::force_batch(calls.len() as u32)), c) })]
		pub fn force_batch(origin: OriginFor<T>, calls: Vec<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			if ensure_none(origin.clone()).is_ok() {
				return Err(sp_runtime::traits::BadOrigin.into())
			}
			let is_root = ensure_root(origin.clone()).is_ok();
			let calls_len = calls.len();
			ensure!(calls_len <= 10_922, Error::<T>::TooManyCalls);
			let mut weight = Weight::zero();
			let mut has_error = false;
			for call in calls.into_iter() {
				let info = call.get_dispatch_info();
				let result = if is_root { call.dispatch_bypass_filter(origin.clone()) } else { call.dispatch(origin.clone()) };
				weight = weight.saturating_add(extract_actual_weight(&result, &info));
				if let Err(e) = result {
					has_error = true;
					Self::deposit_event(Event::ItemFailed { error: e.error });
				} else {
					Self::deposit_event(Event::ItemCompleted);
				}
			}
			Self::deposit_event(if has_error { Event::BatchCompletedWithErrors } else { Event::BatchCompleted });
			let base = T::WeightInfo::batch(calls_len as u32);
			Ok(Some(base.saturating_add(weight)).into())
		}
	}
}
