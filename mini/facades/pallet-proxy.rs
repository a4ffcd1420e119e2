//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_proxy: as in polkadot v1.6.0, without deposits, delays and announcements
extern crate self as pallet_proxy;
pub use pallet::*;
use frame_support::dispatch::{GetDispatchInfo, PostDispatchInfo};
use frame_support::traits::{InstanceFilter, IsSubType, OriginTrait};
use sp_runtime::traits::{Dispatchable, StaticLookup};
#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type RuntimeCall: Parameter + Dispatchable<RuntimeOrigin = Self::RuntimeOrigin, PostInfo = PostDispatchInfo> + GetDispatchInfo + From<frame_system::Call<Self>> + IsSubType<Call<Self>> + IsType<<Self as frame_system::Config>::RuntimeCall>;
		type Currency;
		type ProxyType: Parameter + Member + Ord + PartialOrd + InstanceFilter<<Self as Config>::RuntimeCall> + Default + MaxEncodedLen;
		type ProxyDepositBase;
		type ProxyDepositFactor;
		type MaxProxies;
		type MaxPending;
		type CallHasher;
		type AnnouncementDepositBase;
		type AnnouncementDepositFactor;
		type WeightInfo;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	type AccountIdLookupOf<T> = <<T as frame_system::Config>::Lookup as StaticLookup>::Source;
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		ProxyExecuted { result: DispatchResult },
	}
	#[pallet::error]
	pub enum Error<T> {
		NotFound,
		NotProxy,
		Duplicate,
		NoSelfProxy,
	}
	#[pallet::storage]
	pub type Proxies<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, Vec<(T::AccountId, T::ProxyType)>, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight({ let di = call.get_dispatch_info(); (Weight::from_parts(10_000_000, 0).saturating_add(di.weight), di.class) })]
		pub fn proxy(origin: OriginFor<T>, real: AccountIdLookupOf<T>, force_proxy_type: Option<T::ProxyType>, call: Box<<T as Config>::RuntimeCall>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let real = T::Lookup::lookup(real)?;
			let def = Proxies::<T>::get(&real)
				.into_iter()
				.find(|(d, t)| d == &who && force_proxy_type.as_ref().map_or(true, |y| t == y))
				.ok_or(Error::<T>::NotProxy)?
				.1;
			let mut origin: T::RuntimeOrigin = frame_system::RawOrigin::Signed(real).into();
			origin.add_filter(move |c: &<T as frame_system::Config>::RuntimeCall| {
				let c = <T as Config>::RuntimeCall::from_ref(c);
				match c.is_sub_type() {
					Some(Call::add_proxy { ref proxy_type, .. }) | Some(Call::remove_proxy { ref proxy_type, .. }) if !def.is_superset(proxy_type) => false,
					Some(Call::remove_proxies { .. }) if def != T::ProxyType::default() => false,
					_ => def.filter(c),
				}
			});
			let e = call.dispatch(origin);
			Self::deposit_event(Event::ProxyExecuted { result: e.map(|_| ()).map_err(|e| e.error) });
			Ok(().into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn add_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let _ = delay;
			let delegate = T::Lookup::lookup(delegate)?;
			ensure!(who != delegate, Error::<T>::NoSelfProxy);
			Proxies::<T>::try_mutate(&who, |p| -> DispatchResult {
				ensure!(!p.contains(&(delegate.clone(), proxy_type.clone())), Error::<T>::Duplicate);
				p.push((delegate, proxy_type));
				Ok(())
			})?;
			Ok(().into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn remove_proxy(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, proxy_type: T::ProxyType, delay: BlockNumberFor<T>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			let _ = delay;
			let delegate = T::Lookup::lookup(delegate)?;
			Proxies::<T>::try_mutate(&who, |p| -> DispatchResult {
				let n = p.len();
				p.retain(|x| x != &(delegate.clone(), proxy_type.clone()));
				ensure!(p.len() < n, Error::<T>::NotFound);
				Ok(())
			})?;
			Ok(().into())
		}
		#[pallet::call_index(3)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn remove_proxies(origin: OriginFor<T>) -> DispatchResultWithPostInfo {
			let who = ensure_signed(origin)?;
			Proxies::<T>::remove(&who);
			Ok(().into())
		}
		#[pallet::call_index(7)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn reject_announcement(origin: OriginFor<T>, delegate: AccountIdLookupOf<T>, call_hash: T::Hash) -> DispatchResultWithPostInfo {
			let _ = (ensure_signed(origin)?, delegate, call_hash);
			Err(Error::<T>::NotFound.into())
		}
	}
}
