//! Stand-in for parity-scale-codec: the SCALE encoding as specified, for the part of the API the
//! pallets and the other stand-ins use.
extern crate alloc as alloc_crate;
pub mod alloc {
	pub use alloc_crate::*;
}
extern crate self as parity_scale_codec;
pub use codec_derive::{CompactAs, Decode, Encode, MaxEncodedLen};
use std::{
	collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque},
	fmt,
	marker::PhantomData,
	rc::Rc,
	sync::Arc,
};

#[derive(Clone, PartialEq, Eq)]
pub struct Error {
	chain: Vec<&'static str>,
}
impl Error {
	pub fn chain(mut self, desc: &'static str) -> Self {
		self.chain.push(desc);
		self
	}
}
impl From<&'static str> for Error {
	fn from(s: &'static str) -> Self {
		Error { chain: vec![s] }
	}
}
impl fmt::Debug for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "Error({})", self.chain.join(" < "))
	}
}
impl fmt::Display for Error {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		fmt::Debug::fmt(self, f)
	}
}
impl std::error::Error for Error {}

pub trait Input {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
	fn read_byte(&mut self) -> Result<u8, Error> {
		let mut b = [0u8];
		self.read(&mut b)?;
		Ok(b[0])
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		Ok(())
	}
	fn ascend_ref(&mut self) {}
}
impl<'a> Input for &'a [u8] {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(Some(self.len()))
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		if into.len() > self.len() {
			return Err("Not enough data to fill buffer".into())
		}
		let len = into.len();
		into.copy_from_slice(&self[..len]);
		*self = &self[len..];
		Ok(())
	}
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		Ok(None)
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.0.read_exact(into).map_err(|_| "io error".into())
	}
}

pub trait Output {
	fn write(&mut self, bytes: &[u8]);
	fn push_byte(&mut self, byte: u8) {
		self.write(&[byte]);
	}
	fn push<V: Encode + ?Sized>(&mut self, value: &V)
	where
		Self: Sized,
	{
		value.encode_to(self);
	}
}
impl Output for Vec<u8> {
	fn write(&mut self, bytes: &[u8]) {
		self.extend_from_slice(bytes)
	}
}
struct SizeTracker(usize);
impl Output for SizeTracker {
	fn write(&mut self, bytes: &[u8]) {
		self.0 += bytes.len()
	}
}

pub trait Encode {
	fn size_hint(&self) -> usize {
		0
	}
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		self.using_encoded(|b| dest.write(b));
	}
	fn encode(&self) -> Vec<u8> {
		let mut r = Vec::with_capacity(self.size_hint());
		self.encode_to(&mut r);
		r
	}
	fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
		f(&self.encode())
	}
	fn encoded_size(&self) -> usize {
		let mut s = SizeTracker(0);
		self.encode_to(&mut s);
		s.0
	}
}
pub trait Decode: Sized {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
	fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
		Self::decode(input).map(|_| ())
	}
	fn encoded_fixed_size() -> Option<usize> {
		None
	}
}
pub trait Codec: Decode + Encode {}
impl<S: Decode + Encode> Codec for S {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
pub trait FullEncode: Encode + EncodeLike {}
impl<T: Encode + EncodeLike> FullEncode for T {}
pub trait FullCodec: Decode + FullEncode {}
impl<T: Decode + FullEncode> FullCodec for T {}
pub trait MaxEncodedLen: Encode {
	fn max_encoded_len() -> usize;
}
pub trait ConstEncodedLen: MaxEncodedLen {}

pub trait DecodeAll: Sized {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
	fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(input)?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
struct DepthInput<'a, I> {
	input: &'a mut I,
	depth: u32,
	max: u32,
}
impl<'a, I: Input> Input for DepthInput<'a, I> {
	fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
		self.input.remaining_len()
	}
	fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
		self.input.read(into)
	}
	fn descend_ref(&mut self) -> Result<(), Error> {
		self.input.descend_ref()?;
		self.depth += 1;
		if self.depth > self.max {
			Err("Maximum recursion depth reached when decoding".into())
		} else {
			Ok(())
		}
	}
	fn ascend_ref(&mut self) {
		self.input.ascend_ref();
		self.depth -= 1;
	}
}
pub trait DecodeLimit: Sized {
	fn decode_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
	fn decode_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		T::decode(&mut DepthInput { input, depth: 0, max: limit })
	}
	fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
		let r = T::decode(&mut DepthInput { input, depth: 0, max: limit })?;
		if input.is_empty() {
			Ok(r)
		} else {
			Err("Input buffer has still data left after decoding!".into())
		}
	}
}
pub trait DecodeLength {
	fn len(self_encoded: &[u8]) -> Result<usize, Error>;
}
pub trait EncodeAppend {
	type Item: Encode;
}
impl<T: Encode> EncodeAppend for Vec<T> {
	type Item = T;
}
pub trait KeyedVec {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8>;
}
impl<T: Encode> KeyedVec for T {
	fn to_keyed_vec(&self, prepend_key: &[u8]) -> Vec<u8> {
		let mut r = prepend_key.to_vec();
		self.encode_to(&mut r);
		r
	}
}
pub trait Joiner {
	fn and<V: Encode + Sized>(self, value: &V) -> Self;
}
impl Joiner for Vec<u8> {
	fn and<V: Encode + Sized>(mut self, value: &V) -> Self {
		value.encode_to(&mut self);
		self
	}
}

// ---- integers ----
macro_rules! int {
	($($t:ty)*) => {$(
		impl Encode for $t {
			fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
			fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
			fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { dest.write(&self.to_le_bytes()) }
		}
		impl Decode for $t {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				let mut b = [0u8; std::mem::size_of::<$t>()];
				input.read(&mut b)?;
				Ok(<$t>::from_le_bytes(b))
			}
			fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
		}
		impl EncodeLike for $t {}
		impl MaxEncodedLen for $t { fn max_encoded_len() -> usize { std::mem::size_of::<$t>() } }
		impl ConstEncodedLen for $t {}
	)*}
}
int!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64);
macro_rules! nonzero {
	($($n:ident $t:ty),*) => {$(
		impl Encode for core::num::$n { fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) { self.get().encode_to(dest) } }
		impl Decode for core::num::$n { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
			Self::new(<$t>::decode(input)?).ok_or_else(|| "cannot create non-zero number from 0".into()) } }
		impl EncodeLike for core::num::$n {}
		impl MaxEncodedLen for core::num::$n { fn max_encoded_len() -> usize { <$t>::max_encoded_len() } }
	)*}
}
nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128);

impl Encode for bool {
	fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
		dest.push_byte(*self as u8)
	}
}
impl Decode for bool {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(false),
			1 => Ok(true),
			_ => Err("Invalid boolean representation".into()),
		}
	}
}
impl EncodeLike for bool {}
impl MaxEncodedLen for bool {
	fn max_encoded_len() -> usize {
		1
	}
}

// ---- compact ----
#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
	fn from(x: T) -> Self {
		Compact(x)
	}
}
impl<'a, T: Copy> From<&'a T> for Compact<T> {
	fn from(x: &'a T) -> Self {
		Compact(*x)
	}
}
impl<T: fmt::Debug> fmt::Debug for Compact<T> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: Default> Default for Compact<T> {
	fn default() -> Self {
		Compact(T::default())
	}
}
pub struct CompactRef<'a, T>(pub &'a T);
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
	fn from(x: &'a T) -> Self {
		CompactRef(x)
	}
}
impl<'a, T> Encode for CompactRef<'a, T>
where
	Compact<T>: Encode,
	T: Clone,
{
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		Compact(self.0.clone()).encode_to(dest)
	}
}
/// a type with a compact form
pub trait HasCompact: Sized {
	type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}
pub trait EncodeAsRef<'a, T: 'a> {
	type RefType: Encode + From<&'a T>;
}
impl<'a, T: 'a + Clone> EncodeAsRef<'a, T> for Compact<T>
where
	Compact<T>: Encode,
{
	type RefType = CompactRef<'a, T>;
}
impl<T: 'static + Clone> HasCompact for T
where
	Compact<T>: for<'a> EncodeAsRef<'a, T> + Decode + From<Self> + Into<Self>,
{
	type Type = Compact<T>;
}
pub trait CompactAs: From<Compact<Self>> {
	type As;
	fn encode_as(&self) -> &Self::As;
	fn decode_from(x: Self::As) -> Result<Self, Error>;
}
pub trait CompactLen<T> {
	fn compact_len(val: &T) -> usize;
}
fn compact_encode<O: Output + ?Sized>(v: u128, dest: &mut O) {
	if v < 1 << 6 {
		dest.push_byte((v as u8) << 2)
	} else if v < 1 << 14 {
		dest.write(&(((v as u16) << 2) | 1).to_le_bytes())
	} else if v < 1 << 30 {
		dest.write(&(((v as u32) << 2) | 2).to_le_bytes())
	} else {
		let n = (16 - v.leading_zeros() as usize / 8).max(4);
		dest.push_byte(3 + ((n - 4) << 2) as u8);
		dest.write(&v.to_le_bytes()[..n])
	}
}
fn compact_decode<I: Input>(input: &mut I, bytes: usize) -> Result<u128, Error> {
	const RANGE: &str = "out of range Compact value";
	let p = input.read_byte()?;
	let v = match p % 4 {
		0 => (p >> 2) as u128,
		1 => {
			let x = (u16::from_le_bytes([p, input.read_byte()?]) >> 2) as u128;
			if x < 1 << 6 || bytes == 1 && x > 0xff {
				return Err(RANGE.into())
			}
			x
		},
		2 => {
			let mut b = [p, 0, 0, 0];
			input.read(&mut b[1..])?;
			let x = (u32::from_le_bytes(b) >> 2) as u128;
			if x < 1 << 14 || bytes < 2 || bytes == 2 && x > 0xffff {
				return Err(RANGE.into())
			}
			x
		},
		_ => {
			let n = (p >> 2) as usize + 4;
			if n > bytes || bytes < 4 {
				return Err(RANGE.into())
			}
			let mut b = [0u8; 16];
			input.read(&mut b[..n])?;
			let x = u128::from_le_bytes(b);
			if n == 4 && x < 1 << 30 || n > 4 && x >> ((n - 1) * 8) == 0 {
				return Err(RANGE.into())
			}
			x
		},
	};
	Ok(v)
}
macro_rules! compact_int {
	($($t:ty),*) => {$(
		impl Encode for Compact<$t> {
			fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) { compact_encode(self.0 as u128, dest) }
		}
		impl Decode for Compact<$t> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				compact_decode(input, std::mem::size_of::<$t>()).map(|x| Compact(x as $t))
			}
		}
		impl From<Compact<$t>> for $t { fn from(x: Compact<$t>) -> $t { x.0 } }
		impl EncodeLike for Compact<$t> {}
		impl MaxEncodedLen for Compact<$t> {
			fn max_encoded_len() -> usize { match std::mem::size_of::<$t>() { 1 => 2, 2 => 4, 4 => 5, 8 => 9, _ => 17 } }
		}
		impl CompactLen<$t> for Compact<$t> { fn compact_len(v: &$t) -> usize { Compact(*v).encoded_size() } }
	)*}
}
compact_int!(u8, u16, u32, u64, u128);
impl Encode for Compact<()> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl Decode for Compact<()> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(Compact(()))
	}
}
impl From<Compact<()>> for () {
	fn from(_: Compact<()>) {}
}
impl<T: CompactAs> Encode for Compact<T>
where
	T::As: Clone,
	Compact<T::As>: Encode,
{
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		Compact(self.0.encode_as().clone()).encode_to(dest)
	}
}
impl<T: CompactAs> Decode for Compact<T>
where
	Compact<T::As>: Decode,
{
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(Compact(T::decode_from(Compact::<T::As>::decode(input)?.0)?))
	}
}

// ---- references and wrappers ----
macro_rules! wrap {
	($([$($g:tt)*] $t:ty),* $(,)?) => {$(
		impl<$($g)*> Encode for $t {
			fn size_hint(&self) -> usize { (**self).size_hint() }
			fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) { (**self).encode_to(dest) }
			fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { (**self).using_encoded(f) }
			fn encode(&self) -> Vec<u8> { (**self).encode() }
		}
	)*}
}
wrap!(['a, T: Encode + ?Sized] &'a T, ['a, T: Encode + ?Sized] &'a mut T, [T: Encode + ?Sized] Box<T>, [T: Encode + ?Sized] Rc<T>, [T: Encode + ?Sized] Arc<T>,
	['a, T: ToOwned + Encode + ?Sized] std::borrow::Cow<'a, T>);
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<U> for &'a T {}
impl<'a, T: Encode> EncodeLike<T> for &'a mut T {}
impl<T: Encode + ?Sized> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode + ?Sized> EncodeLike for Arc<T> {}
impl<T: Encode + ?Sized> EncodeLike for Rc<T> {}
macro_rules! wrapd {
	($($t:ident),*) => {$(
		impl<T: Decode> Decode for $t<T> {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
				input.descend_ref()?;
				let r = T::decode(input)?;
				input.ascend_ref();
				Ok($t::new(r))
			}
		}
	)*}
}
wrapd!(Box, Rc, Arc);
impl<T: MaxEncodedLen> MaxEncodedLen for Box<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len()
	}
}
impl<'a, T: ToOwned + ?Sized> Decode for std::borrow::Cow<'a, T>
where
	T::Owned: Decode,
{
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(std::borrow::Cow::Owned(T::Owned::decode(input)?))
	}
}
impl<T> Encode for PhantomData<T> {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl<T> Decode for PhantomData<T> {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(PhantomData)
	}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> MaxEncodedLen for PhantomData<T> {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for () {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {}
}
impl Decode for () {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Ok(())
	}
}
impl EncodeLike for () {}
impl MaxEncodedLen for () {
	fn max_encoded_len() -> usize {
		0
	}
}
impl Encode for core::convert::Infallible {
	fn encode_to<O: Output + ?Sized>(&self, _: &mut O) {
		match *self {}
	}
}
impl EncodeLike for core::convert::Infallible {}
impl Decode for core::convert::Infallible {
	fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
		Err("uninhabited".into())
	}
}
impl MaxEncodedLen for core::convert::Infallible {
	fn max_encoded_len() -> usize {
		0
	}
}

impl<T: Encode> Encode for Option<T> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		match self {
			None => dest.push_byte(0),
			Some(x) => {
				dest.push_byte(1);
				x.encode_to(dest)
			},
		}
	}
}
impl<T: Decode> Decode for Option<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(None),
			1 => Ok(Some(T::decode(input)?)),
			_ => Err("unexpected first byte decoding Option".into()),
		}
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: MaxEncodedLen> MaxEncodedLen for Option<T> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_add(1)
	}
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		match self {
			Ok(x) => {
				dest.push_byte(0);
				x.encode_to(dest)
			},
			Err(x) => {
				dest.push_byte(1);
				x.encode_to(dest)
			},
		}
	}
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		match input.read_byte()? {
			0 => Ok(Ok(T::decode(input)?)),
			1 => Ok(Err(E::decode(input)?)),
			_ => Err("unexpected first byte decoding Result".into()),
		}
	}
}
impl<T: EncodeLike<A>, A: Encode, E: EncodeLike<B>, B: Encode> EncodeLike<Result<A, B>> for Result<T, E> {}
impl<T: MaxEncodedLen, E: MaxEncodedLen> MaxEncodedLen for Result<T, E> {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().max(E::max_encoded_len()).saturating_add(1)
	}
}

// ---- sequences ----
fn encode_seq<'a, T: Encode + 'a, O: Output + ?Sized>(n: usize, it: impl Iterator<Item = &'a T>, dest: &mut O) {
	compact_encode(n as u32 as u128, dest);
	for x in it {
		x.encode_to(dest)
	}
}
fn decode_vec<T: Decode, I: Input>(input: &mut I) -> Result<Vec<T>, Error> {
	let n = Compact::<u32>::decode(input)?.0 as usize;
	let mut r = Vec::with_capacity(n.min(1024));
	input.descend_ref()?;
	for _ in 0..n {
		r.push(T::decode(input)?);
	}
	input.ascend_ref();
	Ok(r)
}
impl<T: Encode> Encode for [T] {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		encode_seq(self.len(), self.iter(), dest)
	}
}
impl<T: Encode> Encode for Vec<T> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.as_slice().encode_to(dest)
	}
}
impl<T: Decode> Decode for Vec<T> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		decode_vec(input)
	}
}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<'a, T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &'a [T] {}
impl<T: Decode> DecodeLength for Vec<T> {
	fn len(mut e: &[u8]) -> Result<usize, Error> {
		Ok(Compact::<u32>::decode(&mut e)?.0 as usize)
	}
}
macro_rules! coll {
	($($t:ident [$($b:tt)*]),*) => {$(
		impl<T: Encode> Encode for $t<T> { fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) { encode_seq(self.len(), self.iter(), dest) } }
		impl<T: Decode $($b)*> Decode for $t<T> { fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(decode_vec(input)?.into_iter().collect()) } }
		impl<T: EncodeLike<U>, U: Encode> EncodeLike<$t<U>> for $t<T> {}
	)*}
}
coll!(BTreeSet [+ Ord], VecDeque [], LinkedList [], BinaryHeap [+ Ord]);
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		compact_encode(self.len() as u128, dest);
		for (k, v) in self {
			k.encode_to(dest);
			v.encode_to(dest);
		}
	}
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		Ok(decode_vec::<(K, V), I>(input)?.into_iter().collect())
	}
}
impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode, V: Decode> DecodeLength for BTreeMap<K, V> {
	fn len(mut e: &[u8]) -> Result<usize, Error> {
		Ok(Compact::<u32>::decode(&mut e)?.0 as usize)
	}
}
impl<T: Encode, const N: usize> Encode for [T; N] {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		for x in self {
			x.encode_to(dest)
		}
	}
}
impl<T: Decode, const N: usize> Decode for [T; N] {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let mut v = Vec::with_capacity(N);
		for _ in 0..N {
			v.push(T::decode(input)?);
		}
		v.try_into().map_err(|_| "array".into())
	}
}
impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: MaxEncodedLen, const N: usize> MaxEncodedLen for [T; N] {
	fn max_encoded_len() -> usize {
		T::max_encoded_len().saturating_mul(N)
	}
}
impl Encode for str {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.as_bytes().encode_to(dest)
	}
}
impl Encode for String {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		self.as_bytes().encode_to(dest)
	}
}
impl Decode for String {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		String::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
	}
}
impl EncodeLike for String {}
impl<'a> EncodeLike<String> for &'a str {}
impl Encode for core::time::Duration {
	fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) {
		(self.as_secs(), self.subsec_nanos()).encode_to(dest)
	}
}
impl Decode for core::time::Duration {
	fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
		let (s, n) = <(u64, u32)>::decode(input)?;
		if n >= 1_000_000_000 {
			return Err("Could not decode Duration".into())
		}
		Ok(core::time::Duration::new(s, n))
	}
}

macro_rules! tuple {
	($(($($t:ident $u:ident $i:tt),+))*) => {$(
		impl<$($t: Encode),+> Encode for ($($t,)+) {
			fn encode_to<O: Output + ?Sized>(&self, dest: &mut O) { $( self.$i.encode_to(dest); )+ }
		}
		impl<$($t: Decode),+> Decode for ($($t,)+) {
			fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(($( $t::decode(input)?, )+)) }
		}
		impl<$($t: EncodeLike<$u>, $u: Encode),+> EncodeLike<($($u,)+)> for ($($t,)+) {}
		impl<$($t: MaxEncodedLen),+> MaxEncodedLen for ($($t,)+) {
			fn max_encoded_len() -> usize { 0usize $( .saturating_add($t::max_encoded_len()) )+ }
		}
	)*}
}
tuple!(
	(A0 B0 0)
	(A0 B0 0, A1 B1 1)
	(A0 B0 0, A1 B1 1, A2 B2 2)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9, A10 B10 10)
	(A0 B0 0, A1 B1 1, A2 B2 2, A3 B3 3, A4 B4 4, A5 B5 5, A6 B6 6, A7 B7 7, A8 B8 8, A9 B9 9, A10 B10 10, A11 B11 11)
);
