//deps: frame-support frame-system sp-runtime sp-core sp-std serde
//! pallet_transaction_payment as in polkadot v1.6.0
extern crate self as pallet_transaction_payment;
use frame_support::dispatch::{DispatchClass, DispatchInfo, DispatchResult, Pays, PostDispatchInfo};
use frame_support::traits::{Currency, ExistenceRequirement, Get, Imbalance, WithdrawReasons};
use frame_support::weights::{Weight, WeightToFee};
use parity_scale_codec::{Decode, Encode};
use scale_info::TypeInfo;
use sp_runtime::traits::{DispatchInfoOf, Dispatchable, One, PostDispatchInfoOf, SaturatedConversion, Saturating, SignedExtension, Zero};
use sp_runtime::transaction_validity::{InvalidTransaction, TransactionPriority, TransactionValidity, TransactionValidityError, ValidTransaction};
use sp_runtime::{FixedPointOperand, FixedU128};
use std::marker::PhantomData;
pub use pallet::*;

pub type Multiplier = FixedU128;

#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo, serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct InclusionFee<Balance> {
	pub base_fee: Balance,
	pub len_fee: Balance,
	pub adjusted_weight_fee: Balance,
}
impl<B: Saturating + Copy> InclusionFee<B> {
	pub fn inclusion_fee(&self) -> B {
		self.base_fee.saturating_add(self.len_fee).saturating_add(self.adjusted_weight_fee)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo, serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct FeeDetails<Balance> {
	pub inclusion_fee: Option<InclusionFee<Balance>>,
	#[serde(skip)]
	pub tip: Balance,
}
impl<B: Saturating + Copy + Zero> FeeDetails<B> {
	pub fn final_fee(&self) -> B {
		self.inclusion_fee.as_ref().map(|i| i.inclusion_fee()).unwrap_or_else(B::zero).saturating_add(self.tip)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, Debug, TypeInfo, serde::Serialize, serde::Deserialize)]
#[serde(rename_all = "camelCase")]
pub struct RuntimeDispatchInfo<Balance> {
	pub partial_fee: Balance,
}
pub trait MultiplierUpdate {}
impl MultiplierUpdate for () {}
pub struct ConstFeeMultiplier<M>(PhantomData<M>);

pub trait OnChargeTransaction<T: Config> {
	type Balance: frame_support::traits::tokens::Balance;
	type LiquidityInfo: Default;
	fn withdraw_fee(
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		fee: Self::Balance,
		tip: Self::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError>;
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		info: &DispatchInfoOf<T::RuntimeCall>,
		post: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: Self::Balance,
		tip: Self::Balance,
		paid: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError>;
}
pub struct CurrencyAdapter<C, OU>(PhantomData<(C, OU)>);
impl<T: Config, C, OU> OnChargeTransaction<T> for CurrencyAdapter<C, OU>
where
	C: Currency<<T as frame_system::Config>::AccountId>,
{
	type Balance = C::Balance;
	type LiquidityInfo = Option<C::NegativeImbalance>;
	fn withdraw_fee(
		who: &T::AccountId,
		_: &T::RuntimeCall,
		_: &DispatchInfoOf<T::RuntimeCall>,
		fee: C::Balance,
		tip: C::Balance,
	) -> Result<Self::LiquidityInfo, TransactionValidityError> {
		if fee.is_zero() {
			return Ok(None)
		}
		let reason = if tip.is_zero() { WithdrawReasons::TRANSACTION_PAYMENT } else { WithdrawReasons::TRANSACTION_PAYMENT | WithdrawReasons::TIP };
		C::withdraw(who, fee, reason, ExistenceRequirement::KeepAlive).map(Some).map_err(|_| InvalidTransaction::Payment.into())
	}
	fn correct_and_deposit_fee(
		who: &T::AccountId,
		_: &DispatchInfoOf<T::RuntimeCall>,
		_: &PostDispatchInfoOf<T::RuntimeCall>,
		corrected: C::Balance,
		_tip: C::Balance,
		paid: Self::LiquidityInfo,
	) -> Result<(), TransactionValidityError> {
		if let Some(paid) = paid {
			let refund = paid.peek().saturating_sub(corrected);
			// both imbalances adjust the total issuance when they are dropped
			drop(C::deposit_into_existing(who, refund).ok());
			drop(paid);
		}
		Ok(())
	}
}

#[frame_support::pallet]
pub mod pallet {
	use super::*;
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	pub type BalanceOfT<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
	#[pallet::config]
	pub trait Config: frame_system::Config {
		type RuntimeEvent: From<Event<Self>> + IsType<<Self as frame_system::Config>::RuntimeEvent>;
		type OnChargeTransaction: OnChargeTransaction<Self>;
		type OperationalFeeMultiplier: Get<u8>;
		type WeightToFee: WeightToFee<Balance = BalanceOfT<Self>>;
		type LengthToFee: WeightToFee<Balance = BalanceOfT<Self>>;
		type FeeMultiplierUpdate;
	}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::event]
	#[pallet::generate_deposit(pub(super) fn deposit_event)]
	pub enum Event<T: Config> {
		TransactionFeePaid { who: T::AccountId, actual_fee: BalanceOfT<T>, tip: BalanceOfT<T> },
	}
	#[pallet::type_value]
	pub fn NextFeeMultiplierOnEmpty() -> Multiplier {
		Multiplier::saturating_from_integer(1)
	}
	#[pallet::storage]
	#[pallet::getter(fn next_fee_multiplier)]
	pub type NextFeeMultiplier<T: Config> = StorageValue<_, Multiplier, ValueQuery, NextFeeMultiplierOnEmpty>;
	#[pallet::hooks]
	impl<T: Config> Hooks<BlockNumberFor<T>> for Pallet<T> {}
}
type BalanceOf<T> = <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::Balance;
impl<T: Config> Pallet<T>
where
	BalanceOf<T>: FixedPointOperand,
{
	pub fn compute_fee_details(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> FeeDetails<BalanceOf<T>>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_raw(len, info.weight, tip, info.pays_fee, info.class)
	}
	pub fn compute_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo>,
	{
		Self::compute_fee_details(len, info, tip).final_fee()
	}
	pub fn compute_actual_fee(len: u32, info: &DispatchInfoOf<T::RuntimeCall>, post: &PostDispatchInfoOf<T::RuntimeCall>, tip: BalanceOf<T>) -> BalanceOf<T>
	where
		T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	{
		Self::compute_fee_raw(len, post.calc_actual_weight(info), tip, post.pays_fee(info), info.class).final_fee()
	}
	fn compute_fee_raw(len: u32, weight: Weight, tip: BalanceOf<T>, pays: Pays, class: DispatchClass) -> FeeDetails<BalanceOf<T>> {
		if pays == Pays::Yes {
			let unadjusted = Self::weight_to_fee(weight);
			let adjusted_weight_fee = Self::next_fee_multiplier().saturating_mul_int(unadjusted);
			let len_fee = Self::length_to_fee(len);
			let base_fee = Self::weight_to_fee(T::BlockWeights::get().get(class).base_extrinsic);
			FeeDetails { inclusion_fee: Some(InclusionFee { base_fee, len_fee, adjusted_weight_fee }), tip }
		} else {
			FeeDetails { inclusion_fee: None, tip }
		}
	}
	pub fn length_to_fee(length: u32) -> BalanceOf<T> {
		T::LengthToFee::weight_to_fee(&Weight::from_parts(length as u64, 0))
	}
	pub fn weight_to_fee(weight: Weight) -> BalanceOf<T> {
		let capped = weight.min(T::BlockWeights::get().max_block);
		T::WeightToFee::weight_to_fee(&capped)
	}
}
#[derive(Encode, Decode, Clone, Eq, PartialEq, TypeInfo)]
#[scale_info(skip_type_params(T))]
pub struct ChargeTransactionPayment<T: Config>(#[codec(compact)] BalanceOf<T>);
impl<T: Config> std::fmt::Debug for ChargeTransactionPayment<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "ChargeTransactionPayment<{:?}>", self.0)
	}
}
impl<T: Config> ChargeTransactionPayment<T>
where
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
	BalanceOf<T>: Send + Sync + FixedPointOperand,
{
	pub fn from(fee: BalanceOf<T>) -> Self {
		Self(fee)
	}
	pub fn tip(&self) -> BalanceOf<T> {
		self.0
	}
	pub fn get_priority(info: &DispatchInfoOf<T::RuntimeCall>, len: usize, tip: BalanceOf<T>, final_fee: BalanceOf<T>) -> TransactionPriority {
		let max_block_weight = T::BlockWeights::get().max_block;
		let max_block_length = *T::BlockLength::get().max.get(info.class) as u64;
		let w = info.weight.max(Weight::from_parts(1, 1)).min(max_block_weight);
		let l = (len as u64).clamp(1, max_block_length);
		let per_weight = (max_block_weight.ref_time() / w.ref_time().max(1)).min(max_block_weight.proof_size() / w.proof_size().max(1));
		let per_length = max_block_length / l;
		let per_block: BalanceOf<T> = per_length.min(per_weight).saturated_into::<BalanceOf<T>>();
		let max_reward = |v: BalanceOf<T>| v.saturating_mul(per_block);
		let scaled_tip = max_reward(tip.saturating_add(One::one()));
		match info.class {
			DispatchClass::Normal | DispatchClass::Mandatory => scaled_tip,
			DispatchClass::Operational => {
				let m = T::OperationalFeeMultiplier::get();
				scaled_tip.saturating_add(max_reward(final_fee.saturating_mul(m.into())))
			},
		}
		.saturated_into::<TransactionPriority>()
	}
	#[allow(clippy::type_complexity)]
	fn withdraw_fee(
		&self,
		who: &T::AccountId,
		call: &T::RuntimeCall,
		info: &DispatchInfoOf<T::RuntimeCall>,
		len: usize,
	) -> Result<(BalanceOf<T>, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo), TransactionValidityError> {
		let tip = self.0;
		let fee = Pallet::<T>::compute_fee(len as u32, info, tip);
		<<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::withdraw_fee(who, call, info, fee, tip).map(|i| (fee, i))
	}
}
impl<T: Config> SignedExtension for ChargeTransactionPayment<T>
where
	BalanceOf<T>: Send + Sync + FixedPointOperand,
	T::RuntimeCall: Dispatchable<Info = DispatchInfo, PostInfo = PostDispatchInfo>,
{
	const IDENTIFIER: &'static str = "ChargeTransactionPayment";
	type AccountId = T::AccountId;
	type Call = T::RuntimeCall;
	type AdditionalSigned = ();
	type Pre = (BalanceOf<T>, Self::AccountId, <<T as Config>::OnChargeTransaction as OnChargeTransaction<T>>::LiquidityInfo);
	fn additional_signed(&self) -> Result<(), TransactionValidityError> {
		Ok(())
	}
	fn validate(&self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> TransactionValidity {
		let (final_fee, _) = self.withdraw_fee(who, call, info, len)?;
		Ok(ValidTransaction { priority: Self::get_priority(info, len, self.0, final_fee), ..Default::default() })
	}
	fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
		let (_fee, imbalance) = self.withdraw_fee(who, call, info, len)?;
		Ok((self.0, who.clone(), imbalance))
	}
	fn post_dispatch(
		maybe_pre: Option<Self::Pre>,
		info: &DispatchInfoOf<Self::Call>,
		post_info: &PostDispatchInfoOf<Self::Call>,
		len: usize,
		_result: &DispatchResult,
	) -> Result<(), TransactionValidityError> {
		if let Some((tip, who, imbalance)) = maybe_pre {
			let actual_fee = Pallet::<T>::compute_actual_fee(len as u32, info, post_info, tip);
			<T as Config>::OnChargeTransaction::correct_and_deposit_fee(&who, info, post_info, actual_fee, tip, imbalance)?;
			Pallet::<T>::deposit_event(Event::<T>::TransactionFeePaid { who, actual_fee, tip });
		}
		Ok(())
	}
}
