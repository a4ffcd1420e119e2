//! sp-weights
use crate::arith::{traits::*, *};
use parity_scale_codec::{CompactAs, Decode, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
use smallvec::SmallVec;
use std::fmt;
use std::ops::{Add, AddAssign, Div, Mul, Sub, SubAssign};

pub mod constants {
	use super::*;
	pub const WEIGHT_REF_TIME_PER_SECOND: u64 = 1_000_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MILLIS: u64 = 1_000_000_000;
	pub const WEIGHT_REF_TIME_PER_MICROS: u64 = 1_000_000;
	pub const WEIGHT_REF_TIME_PER_NANOS: u64 = 1_000;
	pub const WEIGHT_PROOF_SIZE_PER_MB: u64 = 1024 * 1024;
	pub const WEIGHT_PROOF_SIZE_PER_KB: u64 = 1024;
	pub struct RocksDbWeight;
	impl RocksDbWeight {
		pub const fn get() -> RuntimeDbWeight {
			RuntimeDbWeight { read: 25_000 * WEIGHT_REF_TIME_PER_NANOS, write: 100_000 * WEIGHT_REF_TIME_PER_NANOS }
		}
	}
	impl<I: From<RuntimeDbWeight>> crate::support::traits::Get<I> for RocksDbWeight {
		fn get() -> I {
			I::from(RocksDbWeight::get())
		}
	}
	pub struct ParityDbWeight;
	impl<I: From<RuntimeDbWeight>> crate::support::traits::Get<I> for ParityDbWeight {
		fn get() -> I {
			I::from(RuntimeDbWeight { read: 8_000 * WEIGHT_REF_TIME_PER_NANOS, write: 50_000 * WEIGHT_REF_TIME_PER_NANOS })
		}
	}
	pub struct ExtrinsicBaseWeight;
	impl ExtrinsicBaseWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS * 113_638, 0)
		}
	}
	pub struct BlockExecutionWeight;
	impl BlockExecutionWeight {
		pub const fn get() -> Weight {
			Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS * 431_614, 0)
		}
	}
}

#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, Hash, serde::Serialize, serde::Deserialize)]
pub struct Weight {
	#[codec(compact)]
	ref_time: u64,
	#[codec(compact)]
	proof_size: u64,
}
#[derive(Encode, Decode, MaxEncodedLen, TypeInfo, Eq, PartialEq, Copy, Clone, Debug, Default, CompactAs)]
pub struct OldWeight(pub u64);
impl From<u64> for OldWeight {
	fn from(x: u64) -> Self {
		OldWeight(x)
	}
}
pub trait WeightMeter {}

impl Weight {
	pub const MAX: Self = Self { ref_time: u64::MAX, proof_size: u64::MAX };
	pub const fn from_parts(ref_time: u64, proof_size: u64) -> Self {
		Self { ref_time, proof_size }
	}
	pub const fn from_all(v: u64) -> Self {
		Self { ref_time: v, proof_size: v }
	}
	pub const fn zero() -> Self {
		Self { ref_time: 0, proof_size: 0 }
	}
	pub const fn ref_time(&self) -> u64 {
		self.ref_time
	}
	pub const fn proof_size(&self) -> u64 {
		self.proof_size
	}
	pub fn ref_time_mut(&mut self) -> &mut u64 {
		&mut self.ref_time
	}
	pub const fn set_ref_time(mut self, c: u64) -> Self {
		self.ref_time = c;
		self
	}
	pub const fn set_proof_size(mut self, c: u64) -> Self {
		self.proof_size = c;
		self
	}
	pub const fn add_ref_time(self, c: u64) -> Self {
		Self { ref_time: self.ref_time + c, proof_size: self.proof_size }
	}
	pub const fn add_proof_size(self, c: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size + c }
	}
	pub const fn sub_ref_time(self, c: u64) -> Self {
		Self { ref_time: self.ref_time - c, proof_size: self.proof_size }
	}
	pub const fn sub_proof_size(self, c: u64) -> Self {
		Self { ref_time: self.ref_time, proof_size: self.proof_size - c }
	}
	pub const fn without_ref_time(&self) -> Self {
		Self { ref_time: 0, proof_size: self.proof_size }
	}
	pub const fn without_proof_size(&self) -> Self {
		Self { ref_time: self.ref_time, proof_size: 0 }
	}
	pub fn is_zero(&self) -> bool {
		*self == Self::zero()
	}
	pub const fn saturating_add(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_add(o.ref_time), proof_size: self.proof_size.saturating_add(o.proof_size) }
	}
	pub const fn saturating_sub(self, o: Self) -> Self {
		Self { ref_time: self.ref_time.saturating_sub(o.ref_time), proof_size: self.proof_size.saturating_sub(o.proof_size) }
	}
	pub const fn saturating_mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_mul(s), proof_size: self.proof_size.saturating_mul(s) }
	}
	pub const fn saturating_div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time.saturating_div(s), proof_size: self.proof_size.saturating_div(s) }
	}
	pub fn saturating_accrue(&mut self, o: Self) {
		*self = self.saturating_add(o)
	}
	pub fn saturating_reduce(&mut self, o: Self) {
		*self = self.saturating_sub(o)
	}
	pub const fn div(self, s: u64) -> Self {
		Self { ref_time: self.ref_time / s, proof_size: self.proof_size / s }
	}
	pub const fn mul(self, s: u64) -> Self {
		Self { ref_time: self.ref_time * s, proof_size: self.proof_size * s }
	}
	pub const fn add(self, o: &Self) -> Self {
		Self { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
	pub fn checked_add(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_add(o.ref_time)?, proof_size: self.proof_size.checked_add(o.proof_size)? })
	}
	pub fn checked_sub(&self, o: &Self) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_sub(o.ref_time)?, proof_size: self.proof_size.checked_sub(o.proof_size)? })
	}
	pub fn checked_mul(self, s: u64) -> Option<Self> {
		Some(Self { ref_time: self.ref_time.checked_mul(s)?, proof_size: self.proof_size.checked_mul(s)? })
	}
	pub fn min(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.min(o.ref_time), proof_size: self.proof_size.min(o.proof_size) }
	}
	pub fn max(&self, o: Self) -> Self {
		Self { ref_time: self.ref_time.max(o.ref_time), proof_size: self.proof_size.max(o.proof_size) }
	}
	pub const fn any_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time || self.proof_size > o.proof_size
	}
	pub const fn all_gt(self, o: Self) -> bool {
		self.ref_time > o.ref_time && self.proof_size > o.proof_size
	}
	pub const fn any_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time || self.proof_size >= o.proof_size
	}
	pub const fn all_gte(self, o: Self) -> bool {
		self.ref_time >= o.ref_time && self.proof_size >= o.proof_size
	}
	pub const fn any_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time || self.proof_size < o.proof_size
	}
	pub const fn all_lt(self, o: Self) -> bool {
		self.ref_time < o.ref_time && self.proof_size < o.proof_size
	}
	pub const fn all_lte(self, o: Self) -> bool {
		self.ref_time <= o.ref_time && self.proof_size <= o.proof_size
	}
}
impl Add for Weight {
	type Output = Self;
	fn add(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time + o.ref_time, proof_size: self.proof_size + o.proof_size }
	}
}
impl Sub for Weight {
	type Output = Self;
	fn sub(self, o: Self) -> Self {
		Weight { ref_time: self.ref_time - o.ref_time, proof_size: self.proof_size - o.proof_size }
	}
}
impl AddAssign for Weight {
	fn add_assign(&mut self, o: Self) {
		*self = *self + o
	}
}
impl SubAssign for Weight {
	fn sub_assign(&mut self, o: Self) {
		*self = *self - o
	}
}
impl Mul<u64> for Weight {
	type Output = Self;
	fn mul(self, b: u64) -> Self {
		Weight { ref_time: self.ref_time * b, proof_size: self.proof_size * b }
	}
}
impl Mul<Weight> for u64 {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		b * self
	}
}
impl Mul<Weight> for Perbill {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size }
	}
}
impl Mul<Weight> for Permill {
	type Output = Weight;
	fn mul(self, b: Weight) -> Weight {
		Weight { ref_time: self * b.ref_time, proof_size: self * b.proof_size }
	}
}
impl Div<u64> for Weight {
	type Output = Self;
	fn div(self, b: u64) -> Self {
		Weight { ref_time: self.ref_time / b, proof_size: self.proof_size / b }
	}
}
impl Zero for Weight {
	fn zero() -> Self {
		Weight::zero()
	}
	fn is_zero(&self) -> bool {
		*self == Weight::zero()
	}
}
impl Bounded for Weight {
	fn min_value() -> Self {
		Weight::zero()
	}
	fn max_value() -> Self {
		Weight::MAX
	}
}
impl fmt::Display for Weight {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "Weight(ref_time: {}, proof_size: {})", self.ref_time, self.proof_size)
	}
}

#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct RuntimeDbWeight {
	pub read: u64,
	pub write: u64,
}
impl RuntimeDbWeight {
	pub const fn reads(self, r: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r), 0)
	}
	pub const fn writes(self, w: u64) -> Weight {
		Weight::from_parts(self.write.saturating_mul(w), 0)
	}
	pub const fn reads_writes(self, r: u64, w: u64) -> Weight {
		Weight::from_parts(self.read.saturating_mul(r).saturating_add(self.write.saturating_mul(w)), 0)
	}
}

#[derive(Clone, Debug, Encode, Decode, TypeInfo)]
pub struct WeightToFeeCoefficient<Balance> {
	pub coeff_integer: Balance,
	pub coeff_frac: Perbill,
	pub negative: bool,
	pub degree: u8,
}
pub type WeightToFeeCoefficients<T> = SmallVec<[WeightToFeeCoefficient<T>; 4]>;
pub trait WeightToFee {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn weight_to_fee(weight: &Weight) -> Self::Balance;
}
pub trait WeightToFeePolynomial {
	type Balance: BaseArithmetic + From<u32> + Copy + Unsigned;
	fn polynomial() -> WeightToFeeCoefficients<Self::Balance>;
}
impl<T: WeightToFeePolynomial> WeightToFee for T {
	type Balance = <Self as WeightToFeePolynomial>::Balance;
	fn weight_to_fee(weight: &Weight) -> Self::Balance {
		Self::polynomial().iter().fold(Self::Balance::saturated_from(0u32), |mut acc, args| {
			let w = (0..args.degree).fold(Self::Balance::one(), |a, _| Saturating::saturating_mul(a, Self::Balance::saturated_from(weight.ref_time())));
			let frac = mul_per(args.coeff_frac, w);
			let integer = Saturating::saturating_mul(args.coeff_integer, w);
			if args.negative {
				acc = Saturating::saturating_sub(acc, frac);
				acc = Saturating::saturating_sub(acc, integer);
			} else {
				acc = Saturating::saturating_add(acc, frac);
				acc = Saturating::saturating_add(acc, integer);
			}
			acc
		})
	}
}
fn mul_per<B: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(p: Perbill, b: B) -> B {
	let x: u128 = b.unique_saturated_into();
	B::unique_saturated_from(p * x)
}
pub struct IdentityFee<T>(std::marker::PhantomData<T>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for IdentityFee<T> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		T::saturated_from(weight.ref_time())
	}
}
pub struct ConstantMultiplier<T, M>(std::marker::PhantomData<(T, M)>);
impl<T: BaseArithmetic + From<u32> + Copy + Unsigned, M: crate::support::traits::Get<T>> WeightToFee for ConstantMultiplier<T, M> {
	type Balance = T;
	fn weight_to_fee(weight: &Weight) -> T {
		Saturating::saturating_mul(T::saturated_from(weight.ref_time()), M::get())
	}
}
pub type FixedFee<const F: u32, T> = ConstFee<F, T>;
pub struct ConstFee<const F: u32, T>(std::marker::PhantomData<T>);
impl<const F: u32, T: BaseArithmetic + From<u32> + Copy + Unsigned> WeightToFee for ConstFee<F, T> {
	type Balance = T;
	fn weight_to_fee(_: &Weight) -> T {
		F.into()
	}
}
