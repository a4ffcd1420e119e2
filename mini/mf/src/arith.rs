//! sp-arithmetic
use parity_scale_codec::{CompactAs, Decode, Encode, HasCompact, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt;

pub mod traits {
	pub use num_traits::{
		ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedNeg, CheckedRem, CheckedShl, CheckedShr, CheckedSub},
		Bounded, One, Signed, Unsigned, Zero,
	};
	use parity_scale_codec::HasCompact;
	use std::ops::*;

	pub trait IntegerSquareRoot: Sized {
		fn integer_sqrt(&self) -> Self;
		fn integer_sqrt_checked(&self) -> Option<Self>;
	}
	macro_rules! isqrt {
		($($t:ty)*) => {$( impl IntegerSquareRoot for $t {
			#[allow(unused_comparisons)]
			fn integer_sqrt_checked(&self) -> Option<Self> {
				if *self < 0 { return None }
				let (mut lo, mut hi) = (0 as $t, *self);
				while lo < hi {
					let m = hi - (hi - lo) / 2;
					if m <= *self / m { lo = m } else { hi = m - 1 }
				}
				Some(lo)
			}
			fn integer_sqrt(&self) -> Self { self.integer_sqrt_checked().expect("cannot calculate square root of negative number") }
		} )*}
	}
	isqrt!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128);

	/// Saturating arithmetic operations, returning maximum or minimum values instead of overflowing.
	pub trait Saturating {
		fn saturating_add(self, rhs: Self) -> Self;
		fn saturating_sub(self, rhs: Self) -> Self;
		fn saturating_mul(self, rhs: Self) -> Self;
		fn saturating_pow(self, exp: usize) -> Self;
		fn saturating_less_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_sub(One::one())
		}
		fn saturating_plus_one(self) -> Self
		where
			Self: One,
		{
			self.saturating_add(One::one())
		}
		fn saturating_inc(&mut self)
		where
			Self: One,
		{
			let mut o = Self::one();
			std::mem::swap(&mut o, self);
			*self = o.saturating_add(One::one());
		}
		fn saturating_dec(&mut self)
		where
			Self: One,
		{
			let mut o = Self::one();
			std::mem::swap(&mut o, self);
			*self = o.saturating_sub(One::one());
		}
		fn saturating_accrue(&mut self, amount: Self)
		where
			Self: One,
		{
			let mut o = Self::one();
			std::mem::swap(&mut o, self);
			*self = o.saturating_add(amount);
		}
		fn saturating_reduce(&mut self, amount: Self)
		where
			Self: One,
		{
			let mut o = Self::one();
			std::mem::swap(&mut o, self);
			*self = o.saturating_sub(amount);
		}
	}
	impl<T: Clone + Zero + One + PartialOrd + CheckedMul + Bounded + num_traits::Saturating> Saturating for T {
		fn saturating_add(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_add(self, o)
		}
		fn saturating_sub(self, o: Self) -> Self {
			<Self as num_traits::Saturating>::saturating_sub(self, o)
		}
		fn saturating_mul(self, o: Self) -> Self {
			self.checked_mul(&o).unwrap_or_else(|| {
				if (self < T::zero()) != (o < T::zero()) {
					Bounded::min_value()
				} else {
					Bounded::max_value()
				}
			})
		}
		fn saturating_pow(self, exp: usize) -> Self {
			let neg = self < T::zero() && exp % 2 != 0;
			num_traits::checked_pow(self, exp).unwrap_or_else(|| if neg { Bounded::min_value() } else { Bounded::max_value() })
		}
	}
	pub trait SaturatedConversion {
		fn saturated_from<T>(t: T) -> Self
		where
			Self: UniqueSaturatedFrom<T>,
		{
			<Self as UniqueSaturatedFrom<T>>::unique_saturated_from(t)
		}
		fn saturated_into<T>(self) -> T
		where
			Self: UniqueSaturatedInto<T>,
		{
			<Self as UniqueSaturatedInto<T>>::unique_saturated_into(self)
		}
	}
	impl<T: Sized> SaturatedConversion for T {}
	pub trait UniqueSaturatedFrom<T: Sized>: Sized {
		fn unique_saturated_from(t: T) -> Self;
	}
	pub trait UniqueSaturatedInto<T: Sized>: Sized {
		fn unique_saturated_into(self) -> T;
	}
	impl<T: Sized, S: TryFrom<T> + Bounded + Sized> UniqueSaturatedFrom<T> for S {
		fn unique_saturated_from(t: T) -> Self {
			S::try_from(t).unwrap_or_else(|_| Bounded::max_value())
		}
	}
	impl<T: Bounded + Sized, S: TryInto<T> + Sized> UniqueSaturatedInto<T> for S {
		fn unique_saturated_into(self) -> T {
			self.try_into().unwrap_or_else(|_| Bounded::max_value())
		}
	}
	pub trait BaseArithmetic:
		From<u8>
		+ Zero
		+ One
		+ IntegerSquareRoot
		+ Add<Self, Output = Self>
		+ AddAssign<Self>
		+ Sub<Self, Output = Self>
		+ SubAssign<Self>
		+ Mul<Self, Output = Self>
		+ MulAssign<Self>
		+ Div<Self, Output = Self>
		+ DivAssign<Self>
		+ Rem<Self, Output = Self>
		+ RemAssign<Self>
		+ Shl<u32, Output = Self>
		+ Shr<u32, Output = Self>
		+ CheckedShl
		+ CheckedShr
		+ CheckedAdd
		+ CheckedSub
		+ CheckedMul
		+ CheckedDiv
		+ CheckedRem
		+ EnsureOps
		+ Saturating
		+ PartialOrd<Self>
		+ Ord
		+ Bounded
		+ HasCompact
		+ Sized
		+ Clone
		+ TryFrom<u8>
		+ TryInto<u8>
		+ TryFrom<u16>
		+ TryInto<u16>
		+ TryFrom<u32>
		+ TryInto<u32>
		+ TryFrom<u64>
		+ TryInto<u64>
		+ TryFrom<u128>
		+ TryInto<u128>
		+ TryFrom<usize>
		+ TryInto<usize>
		+ UniqueSaturatedFrom<u8>
		+ UniqueSaturatedInto<u8>
		+ UniqueSaturatedFrom<u16>
		+ UniqueSaturatedInto<u16>
		+ UniqueSaturatedFrom<u32>
		+ UniqueSaturatedInto<u32>
		+ UniqueSaturatedFrom<u64>
		+ UniqueSaturatedInto<u64>
		+ UniqueSaturatedFrom<u128>
		+ UniqueSaturatedInto<u128>
	{
	}
	impl<T> BaseArithmetic for T where
		T: From<u8>
			+ Zero
			+ One
			+ IntegerSquareRoot
			+ Add<Self, Output = Self>
			+ AddAssign<Self>
			+ Sub<Self, Output = Self>
			+ SubAssign<Self>
			+ Mul<Self, Output = Self>
			+ MulAssign<Self>
			+ Div<Self, Output = Self>
			+ DivAssign<Self>
			+ Rem<Self, Output = Self>
			+ RemAssign<Self>
			+ Shl<u32, Output = Self>
			+ Shr<u32, Output = Self>
			+ CheckedShl
			+ CheckedShr
			+ CheckedAdd
			+ CheckedSub
			+ CheckedMul
			+ CheckedDiv
			+ CheckedRem
			+ EnsureOps
			+ Saturating
			+ PartialOrd<Self>
			+ Ord
			+ Bounded
			+ HasCompact
			+ Sized
			+ Clone
			+ TryFrom<u8>
			+ TryInto<u8>
			+ TryFrom<u16>
			+ TryInto<u16>
			+ TryFrom<u32>
			+ TryInto<u32>
			+ TryFrom<u64>
			+ TryInto<u64>
			+ TryFrom<u128>
			+ TryInto<u128>
			+ TryFrom<usize>
			+ TryInto<usize>
			+ UniqueSaturatedFrom<u8>
			+ UniqueSaturatedInto<u8>
			+ UniqueSaturatedFrom<u16>
			+ UniqueSaturatedInto<u16>
			+ UniqueSaturatedFrom<u32>
			+ UniqueSaturatedInto<u32>
			+ UniqueSaturatedFrom<u64>
			+ UniqueSaturatedInto<u64>
			+ UniqueSaturatedFrom<u128>
			+ UniqueSaturatedInto<u128>
	{
	}
	pub trait AtLeast8Bit: BaseArithmetic + From<u8> {}
	impl<T: BaseArithmetic + From<u8>> AtLeast8Bit for T {}
	pub trait AtLeast16Bit: BaseArithmetic + From<u16> {}
	impl<T: BaseArithmetic + From<u16>> AtLeast16Bit for T {}
	pub trait AtLeast32Bit: BaseArithmetic + From<u16> + From<u32> {}
	impl<T: BaseArithmetic + From<u16> + From<u32>> AtLeast32Bit for T {}
	pub trait AtLeast8BitUnsigned: AtLeast8Bit + Unsigned {}
	impl<T: AtLeast8Bit + Unsigned> AtLeast8BitUnsigned for T {}
	pub trait AtLeast16BitUnsigned: AtLeast16Bit + Unsigned {}
	impl<T: AtLeast16Bit + Unsigned> AtLeast16BitUnsigned for T {}
	pub trait AtLeast32BitUnsigned: AtLeast32Bit + Unsigned {}
	impl<T: AtLeast32Bit + Unsigned> AtLeast32BitUnsigned for T {}

	use super::ArithmeticError;
	pub trait EnsureAdd: CheckedAdd + PartialOrd + Zero {
		fn ensure_add(self, v: Self) -> Result<Self, ArithmeticError> {
			self.checked_add(&v).ok_or(ArithmeticError::Overflow)
		}
	}
	macro_rules! ensure_assign {
		($($n:ident $b:ident $f:ident $c:ident $e:ident;)*) => {$(
			pub trait $n: $b + PartialOrd + Zero {
				fn $f(&mut self, v: Self) -> Result<(), ArithmeticError> {
					*self = self.$c(&v).ok_or(ArithmeticError::$e)?;
					Ok(())
				}
			}
			impl<T: $b + PartialOrd + Zero> $n for T {}
		)*};
	}
	ensure_assign! {
		EnsureAddAssign CheckedAdd ensure_add_assign checked_add Overflow;
		EnsureSubAssign CheckedSub ensure_sub_assign checked_sub Underflow;
		EnsureMulAssign CheckedMul ensure_mul_assign checked_mul Overflow;
		EnsureDivAssign CheckedDiv ensure_div_assign checked_div DivisionByZero;
	}
	pub trait EnsureOp: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {}
	impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOp for T {}
	pub trait EnsureOpAssign: EnsureAddAssign + EnsureSubAssign + EnsureMulAssign + EnsureDivAssign {}
	impl<T: EnsureAddAssign + EnsureSubAssign + EnsureMulAssign + EnsureDivAssign> EnsureOpAssign for T {}
	pub trait EnsureSub: CheckedSub + PartialOrd + Zero {
		fn ensure_sub(self, v: Self) -> Result<Self, ArithmeticError> {
			self.checked_sub(&v).ok_or(ArithmeticError::Underflow)
		}
	}
	pub trait EnsureMul: CheckedMul + PartialOrd + Zero {
		fn ensure_mul(self, v: Self) -> Result<Self, ArithmeticError> {
			self.checked_mul(&v).ok_or(ArithmeticError::Overflow)
		}
	}
	pub trait EnsureDiv: CheckedDiv + PartialOrd + Zero {
		fn ensure_div(self, v: Self) -> Result<Self, ArithmeticError> {
			self.checked_div(&v).ok_or(ArithmeticError::DivisionByZero)
		}
	}
	impl<T: CheckedAdd + PartialOrd + Zero> EnsureAdd for T {}
	impl<T: CheckedSub + PartialOrd + Zero> EnsureSub for T {}
	impl<T: CheckedMul + PartialOrd + Zero> EnsureMul for T {}
	impl<T: CheckedDiv + PartialOrd + Zero> EnsureDiv for T {}
	pub trait EnsureOps: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv {}
	impl<T: EnsureAdd + EnsureSub + EnsureMul + EnsureDiv> EnsureOps for T {}
	pub use EnsureOps as Ensure;
	pub trait EnsureFrom<T>: TryFrom<T> {
		fn ensure_from(t: T) -> Result<Self, ArithmeticError> {
			Self::try_from(t).map_err(|_| ArithmeticError::Overflow)
		}
	}
	impl<T, S: TryFrom<T>> EnsureFrom<T> for S {}
	pub trait EnsureInto<T>: TryInto<T> {
		fn ensure_into(self) -> Result<T, ArithmeticError> {
			self.try_into().map_err(|_| ArithmeticError::Overflow)
		}
	}
	impl<T, S: TryInto<T>> EnsureInto<T> for S {}
}
use traits::*;

#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize, serde::Deserialize)]
pub enum ArithmeticError {
	Underflow,
	Overflow,
	DivisionByZero,
}
impl From<ArithmeticError> for &'static str {
	fn from(e: ArithmeticError) -> &'static str {
		match e {
			ArithmeticError::Underflow => "An underflow would occur",
			ArithmeticError::Overflow => "An overflow would occur",
			ArithmeticError::DivisionByZero => "Division by zero",
		}
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rounding {
	Up,
	Down,
	NearestPrefUp,
	NearestPrefDown,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SignedRounding {
	High,
	Low,
	NearestPrefHigh,
	NearestPrefLow,
	Major,
	Minor,
	NearestPrefMajor,
	NearestPrefMinor,
}

fn div_rounded_u128(n: u128, d: u128, r: Rounding) -> u128 {
	let mut q = n / d;
	let rem = n % d;
	let half = d / 2;
	let up = match r {
		Rounding::Up => rem > 0,
		Rounding::Down => false,
		Rounding::NearestPrefUp => rem >= half + d % 2 && rem > 0,
		Rounding::NearestPrefDown => rem > half,
	};
	if up {
		q += 1
	}
	q
}

/// floor(a * b / c), `None` when c is zero or the result does not fit
pub fn mul_div(a: u128, b: u128, c: u128) -> Option<u128> {
	if c == 0 {
		return None
	}
	if let Some(p) = a.checked_mul(b) {
		return Some(p / c)
	}
	let (a1, a0) = (a >> 64, a & u64::MAX as u128);
	let (b1, b0) = (b >> 64, b & u64::MAX as u128);
	let (p00, p01, p10, p11) = (a0 * b0, a0 * b1, a1 * b0, a1 * b1);
	let mid = (p00 >> 64) + (p01 & u64::MAX as u128) + (p10 & u64::MAX as u128);
	let lo = (p00 & u64::MAX as u128) | (mid << 64);
	let hi = p11 + (p01 >> 64) + (p10 >> 64) + (mid >> 64);
	if hi >= c {
		return None
	}
	let (mut rem, mut q) = (hi, 0u128);
	for i in (0..128).rev() {
		let carry = rem >> 127;
		rem = (rem << 1) | ((lo >> i) & 1);
		q <<= 1;
		if carry == 1 || rem >= c {
			rem = rem.wrapping_sub(c);
			q |= 1;
		}
	}
	Some(q)
}

pub trait PerThing:
	Sized + Saturating + Copy + Default + Eq + PartialEq + Ord + PartialOrd + fmt::Debug + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self>
{
	type Inner: BaseArithmetic + Unsigned + Copy + Into<u128> + fmt::Debug;
	const ACCURACY: Self::Inner;
	fn zero() -> Self {
		Self::from_parts(Self::Inner::zero())
	}
	fn one() -> Self {
		Self::from_parts(Self::ACCURACY)
	}
	fn is_zero(&self) -> bool {
		self.deconstruct() == Self::Inner::zero()
	}
	fn is_one(&self) -> bool {
		self.deconstruct() == Self::ACCURACY
	}
	fn deconstruct(self) -> Self::Inner;
	fn from_parts(parts: Self::Inner) -> Self;
}

fn mul_with<N>(b: N, part: u128, acc: u128, r: Rounding) -> N
where
	N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>,
{
	let x: u128 = b.unique_saturated_into();
	let full = (x / acc).saturating_mul(part);
	let rem = div_rounded_u128((x % acc) * part, acc, r);
	N::unique_saturated_from(full.saturating_add(rem))
}

macro_rules! per_thing {
	($name:ident, $t:ty, $acc:expr) => {
		#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, TypeInfo, MaxEncodedLen, CompactAs, Hash, serde::Serialize, serde::Deserialize)]
		pub struct $name($t);
		impl Default for $name {
			fn default() -> Self {
				$name(0)
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				write!(f, "{}({}/{})", stringify!($name), self.0, $acc)
			}
		}
		impl PerThing for $name {
			type Inner = $t;
			const ACCURACY: $t = $acc;
			fn deconstruct(self) -> $t {
				self.0
			}
			fn from_parts(p: $t) -> Self {
				$name(p.min($acc))
			}
		}
		impl $name {
			pub const fn from_parts(p: $t) -> Self {
				$name(if p > $acc { $acc } else { p })
			}
			pub const fn from_percent(x: $t) -> Self {
				$name(if x > 100 { $acc } else { ($acc as u128 * x as u128 / 100) as $t })
			}
			pub const fn from_perthousand(x: $t) -> Self {
				$name(if (x as u128) > 1000 { $acc } else { ($acc as u128 * x as u128 / 1000) as $t })
			}
			pub const fn zero() -> Self {
				$name(0)
			}
			pub const fn one() -> Self {
				$name($acc)
			}
			pub fn is_zero(&self) -> bool {
				self.0 == 0
			}
			pub fn is_one(&self) -> bool {
				self.0 == $acc
			}
			pub const fn deconstruct(self) -> $t {
				self.0
			}
			pub fn square(self) -> Self {
				self * self
			}
			pub fn left_from_one(self) -> Self {
				$name($acc - self.0)
			}
			pub fn from_rational<N: UniqueSaturatedInto<u128> + Clone>(p: N, q: N) -> Self {
				Self::from_rational_with_rounding(p, q, Rounding::Down).unwrap_or(Self::one())
			}
			/// as sp-arithmetic: numerator and denominator are first scaled into the inner type
			pub fn from_rational_with_rounding<N: UniqueSaturatedInto<u128> + Clone>(p: N, q: N, r: Rounding) -> Result<Self, ()> {
				let (p, q): (u128, u128) = (p.unique_saturated_into(), q.unique_saturated_into());
				if q == 0 || p > q {
					return Err(())
				}
				let factor = div_rounded_u128(q, $acc as u128, Rounding::Up).max(1);
				let q = div_rounded_u128(q, factor, r);
				let p = div_rounded_u128(p, factor, r);
				Ok($name(div_rounded_u128(p * $acc as u128, q, r) as $t))
			}
			pub fn mul_floor<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				mul_with(b, self.0 as u128, $acc as u128, Rounding::Down)
			}
			pub fn mul_ceil<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				mul_with(b, self.0 as u128, $acc as u128, Rounding::Up)
			}
			pub fn saturating_reciprocal_mul<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, b: N) -> N {
				let x: u128 = b.unique_saturated_into();
				N::unique_saturated_from(mul_div(x, $acc as u128, self.0 as u128).unwrap_or(u128::MAX))
			}
			pub fn saturating_add(self, o: Self) -> Self {
				$name((self.0 as u128 + o.0 as u128).min($acc as u128) as $t)
			}
			pub fn saturating_sub(self, o: Self) -> Self {
				$name(self.0.saturating_sub(o.0))
			}
		}
		impl Saturating for $name {
			fn saturating_add(self, o: Self) -> Self {
				$name::saturating_add(self, o)
			}
			fn saturating_sub(self, o: Self) -> Self {
				$name::saturating_sub(self, o)
			}
			fn saturating_mul(self, o: Self) -> Self {
				self * o
			}
			fn saturating_pow(self, exp: usize) -> Self {
				(0..exp).fold(Self::one(), |a, _| a * self)
			}
		}
		impl Bounded for $name {
			fn min_value() -> Self {
				Self::zero()
			}
			fn max_value() -> Self {
				Self::one()
			}
		}
		impl std::ops::Div for $name {
			type Output = Self;
			fn div(self, o: Self) -> Self {
				Self::from_rational(self.0, o.0)
			}
		}
		impl std::ops::Sub for $name {
			type Output = Self;
			fn sub(self, o: Self) -> Self {
				$name(self.0 - o.0)
			}
		}
		impl std::ops::Add for $name {
			type Output = Self;
			fn add(self, o: Self) -> Self {
				$name(self.0 + o.0)
			}
		}
		impl<N: PerMulOperand> std::ops::Mul<N> for $name {
			type Output = N;
			fn mul(self, b: N) -> N {
				b.per_mul(self.0 as u128, $acc as u128)
			}
		}
		impl PerMulOperand for $name {
			fn per_mul(self, part: u128, acc: u128) -> Self {
				$name(mul_with(self.0, part, acc, Rounding::Down))
			}
		}
	};
}
pub trait PerMulOperand: Sized {
	fn per_mul(self, part: u128, acc: u128) -> Self;
}
impl<N: Clone + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + Unsigned> PerMulOperand for N {
	fn per_mul(self, part: u128, acc: u128) -> Self {
		mul_with(self, part, acc, Rounding::NearestPrefDown)
	}
}
per_thing!(Percent, u8, 100u8);
per_thing!(Permill, u32, 1_000_000u32);
per_thing!(Perbill, u32, 1_000_000_000u32);
per_thing!(Perquintill, u64, 1_000_000_000_000_000_000u64);
per_thing!(PerU16, u16, 65535u16);

pub trait FixedPointOperand: Copy + Clone + Bounded + Zero + Saturating + PartialOrd<Self> + UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128> + TryFrom<u128> {}
impl FixedPointOperand for u32 {}
impl FixedPointOperand for u64 {}
impl FixedPointOperand for u128 {}

/// the part of the fixed-point trait that runtime code uses; the types have the rest themselves
pub trait FixedPointNumber: Sized {
	type Inner;
	fn from_inner(x: Self::Inner) -> Self;
	fn into_inner(self) -> Self::Inner;
	fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(x: N) -> Self;
	fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self;
	fn saturating_mul_int<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N;
}
macro_rules! fixed {
	($name:ident, $t:ty, $div:expr) => {
		#[derive(Encode, Decode, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, TypeInfo, MaxEncodedLen, CompactAs, Hash, Default, Debug, serde::Serialize, serde::Deserialize)]
		pub struct $name($t);
		impl $name {
			pub const DIV: $t = $div;
			pub const fn from_inner(x: $t) -> Self {
				$name(x)
			}
			pub const fn into_inner(self) -> $t {
				self.0
			}
			pub const fn from_u32(x: u32) -> Self {
				$name(x as $t * $div)
			}
			pub fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(x: N) -> Self {
				let x: u128 = x.unique_saturated_into();
				$name(x.saturating_mul($div as u128).min(<$t>::MAX as u128) as $t)
			}
			pub fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
				$name(mul_div(n.unique_saturated_into(), $div as u128, d.unique_saturated_into()).unwrap_or(u128::MAX).min(<$t>::MAX as u128) as $t)
			}
			pub fn saturating_mul_int<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N {
				N::unique_saturated_from(mul_div(self.0 as u128, n.unique_saturated_into(), $div as u128).unwrap_or(u128::MAX))
			}
			pub fn one() -> Self {
				$name($div)
			}
			pub fn is_zero(&self) -> bool {
				self.0 == 0
			}
		}
		impl FixedPointNumber for $name {
			type Inner = $t;
			fn from_inner(x: $t) -> Self {
				$name(x)
			}
			fn into_inner(self) -> $t {
				self.0
			}
			fn saturating_from_integer<N: UniqueSaturatedInto<u128>>(x: N) -> Self {
				$name::saturating_from_integer(x)
			}
			fn saturating_from_rational<N: UniqueSaturatedInto<u128>, D: UniqueSaturatedInto<u128>>(n: N, d: D) -> Self {
				$name::saturating_from_rational(n, d)
			}
			fn saturating_mul_int<N: UniqueSaturatedInto<u128> + UniqueSaturatedFrom<u128>>(self, n: N) -> N {
				$name::saturating_mul_int(self, n)
			}
		}
	};
}
fixed!(FixedU64, u64, 1_000_000_000u64);
fixed!(FixedU128, u128, 1_000_000_000_000_000_000u128);

#[allow(unused)]
fn _assert(_: impl HasCompact) {}
