//deps: frame-support frame-system sp-runtime sp-core sp-std sp-io 
//! pallet_treasury: inert stand-in: configuration and some calls
extern crate self as pallet_treasury;
pub use pallet::*;

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type PalletId;
		type Currency;
		type RuntimeEvent;
		type WeightInfo;
		type ApproveOrigin;
		type RejectOrigin;
		type SpendOrigin;
		type OnSlash;
		type ProposalBond;
		type ProposalBondMinimum;
		type ProposalBondMaximum;
		type SpendPeriod;
		type Burn;
		type BurnDestination;
		type SpendFunds;
		type MaxApprovals;
		type AssetKind;
		type Beneficiary;
		type BeneficiaryLookup;
		type Paymaster;
		type BalanceConverter;
		type PayoutPeriod;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	pub enum Event<T: Config> {
		Done { who: T::AccountId },
	}
	#[pallet::genesis_config]
	#[derive(frame_support::DefaultNoBound)]
	pub struct GenesisConfig<T: Config> {
		pub _config: std::marker::PhantomData<T>,
	}
	#[pallet::genesis_build]
	impl<T: Config> BuildGenesisConfig for GenesisConfig<T> {
		fn build(&self) {}
	}
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn propose_spend(origin: OriginFor<T>, value: u128, beneficiary: T::AccountId) -> DispatchResultWithPostInfo {
			let _ = (origin, value, beneficiary);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(1)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn reject_proposal(origin: OriginFor<T>, proposal_id: u32) -> DispatchResultWithPostInfo {
			let _ = (origin, proposal_id);
			Err(DispatchError::Other("not emulated").into())
		}
		#[pallet::call_index(2)]
		#[pallet::weight(Weight::from_parts(10_000_000, 0))]
		pub fn approve_proposal(origin: OriginFor<T>, proposal_id: u32) -> DispatchResultWithPostInfo {
			let _ = (origin, proposal_id);
			Err(DispatchError::Other("not emulated").into())
		}
	}
}
