//ver: 0.7.9
pub use mf::mf_macros::bitflags;
pub trait BitFlag: Copy + 'static {
	type Numeric: Copy + std::ops::BitOr<Output = Self::Numeric> + std::ops::BitAnd<Output = Self::Numeric> + std::ops::Not<Output = Self::Numeric> + PartialEq + std::fmt::Debug;
	const ALL_BITS: Self::Numeric;
	const EMPTY_BITS: Self::Numeric;
	fn variants() -> &'static [Self];
	fn bit(self) -> Self::Numeric;
}
pub struct BitFlags<T: BitFlag>(T::Numeric);
#[derive(Debug)]
pub struct FromBitsError;
impl<T: BitFlag> Clone for BitFlags<T> {
	fn clone(&self) -> Self {
		*self
	}
}
impl<T: BitFlag> Copy for BitFlags<T> {}
impl<T: BitFlag> PartialEq for BitFlags<T> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<T: BitFlag> Eq for BitFlags<T> {}
impl<T: BitFlag> Default for BitFlags<T> {
	fn default() -> Self {
		Self::EMPTY
	}
}
impl<T: BitFlag> std::fmt::Debug for BitFlags<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "BitFlags({:?})", self.0)
	}
}
impl<T: BitFlag> BitFlags<T> {
	pub const EMPTY: Self = Self(T::EMPTY_BITS);
	pub const ALL: Self = Self(T::ALL_BITS);
	pub fn empty() -> Self {
		Self::EMPTY
	}
	pub fn all() -> Self {
		Self::ALL
	}
	pub fn is_empty(self) -> bool {
		self.0 == T::EMPTY_BITS
	}
	pub fn is_all(self) -> bool {
		self.0 == T::ALL_BITS
	}
	pub fn bits(self) -> T::Numeric {
		self.0
	}
	pub fn from_bits(b: T::Numeric) -> Result<Self, FromBitsError> {
		if b & !T::ALL_BITS == T::EMPTY_BITS {
			Ok(Self(b))
		} else {
			Err(FromBitsError)
		}
	}
	pub fn from_bits_truncate(b: T::Numeric) -> Self {
		Self(b & T::ALL_BITS)
	}
	pub fn contains(self, x: impl Into<Self>) -> bool {
		let x = x.into();
		self.0 & x.0 == x.0
	}
	pub fn intersects(self, x: impl Into<Self>) -> bool {
		self.0 & x.into().0 != T::EMPTY_BITS
	}
	pub fn insert(&mut self, x: impl Into<Self>) {
		self.0 = self.0 | x.into().0
	}
	pub fn remove(&mut self, x: impl Into<Self>) {
		self.0 = self.0 & !x.into().0
	}
	pub fn toggle(&mut self, x: impl Into<Self> + Copy) {
		if self.contains(x) {
			self.remove(x)
		} else {
			self.insert(x)
		}
	}
	pub fn set(&mut self, x: impl Into<Self>, c: bool) {
		if c {
			self.insert(x)
		} else {
			self.remove(x)
		}
	}
	pub fn len(self) -> usize {
		self.iter().count()
	}
	pub fn iter(self) -> impl Iterator<Item = T> + Clone {
		T::variants().iter().copied().filter(move |v| self.0 & v.bit() == v.bit())
	}
}
impl<T: BitFlag> From<T> for BitFlags<T> {
	fn from(t: T) -> Self {
		Self(t.bit())
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitOr<B> for BitFlags<T> {
	type Output = Self;
	fn bitor(self, o: B) -> Self {
		Self(self.0 | o.into().0)
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitAnd<B> for BitFlags<T> {
	type Output = Self;
	fn bitand(self, o: B) -> Self {
		Self(self.0 & o.into().0)
	}
}
impl<T: BitFlag, B: Into<BitFlags<T>>> std::ops::BitOrAssign<B> for BitFlags<T> {
	fn bitor_assign(&mut self, o: B) {
		self.insert(o)
	}
}
impl<T: BitFlag> FromIterator<T> for BitFlags<T> {
	fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
		it.into_iter().fold(Self::EMPTY, |mut a, b| {
			a.insert(b);
			a
		})
	}
}
