//! sp-core
pub use crate::hashing;
pub use crate::hashing::{blake2_128, blake2_256, blake2_64, twox_128, twox_256, twox_64};
pub use crate::bounded_vec;
pub use crate::support::traits::{ConstBool, ConstI128, ConstI16, ConstI32, ConstI64, ConstI8, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet};
pub use crate::{parameter_types, RuntimeDebug};
pub use parity_scale_codec::{self as codec, Decode, DecodeLimit, Encode, MaxEncodedLen};
use scale_info::TypeInfo;
pub use serde;
use std::fmt;

pub mod defer {}

fn hexs(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
	let s = s.strip_prefix("0x").unwrap_or(s);
	if s.len() % 2 != 0 || !s.is_ascii() {
		return None
	}
	(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

thread_local! { static ENTROPY: std::cell::Cell<u64> = const { std::cell::Cell::new(0x5DEECE66D) }; }
/// reseeds the deterministic randomness behind `random()`, `generate()` and signature nonces
pub fn seed_entropy(seed: u64) {
	ENTROPY.with(|e| e.set(seed))
}
fn entropy<const N: usize>() -> [u8; N] {
	let mut r = [0u8; N];
	for c in r.chunks_mut(8) {
		let x = ENTROPY.with(|e| {
			let s = e.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
			e.set(s);
			let mut y = s;
			y = (y ^ (y >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
			y = (y ^ (y >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
			y ^ (y >> 31)
		});
		c.copy_from_slice(&x.to_le_bytes()[..c.len()]);
	}
	r
}

macro_rules! fixed_hash {
	($name:ident, $n:expr) => {
		#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
		pub struct $name(pub [u8; $n]);
		impl $name {
			pub const fn zero() -> Self {
				$name([0; $n])
			}
			pub const fn repeat_byte(b: u8) -> Self {
				$name([b; $n])
			}
			pub fn random() -> Self {
				$name(entropy())
			}
			pub fn from_slice(s: &[u8]) -> Self {
				$name(s.try_into().expect("length"))
			}
			pub fn from_low_u64_be(x: u64) -> Self {
				let mut r = [0; $n];
				r[$n - 8..].copy_from_slice(&x.to_be_bytes());
				$name(r)
			}
			pub fn from_low_u64_le(x: u64) -> Self {
				let mut r = [0; $n];
				r[$n - 8..].copy_from_slice(&x.to_le_bytes());
				$name(r)
			}
			pub fn as_bytes(&self) -> &[u8] {
				&self.0
			}
			pub fn as_fixed_bytes(&self) -> &[u8; $n] {
				&self.0
			}
			pub fn to_fixed_bytes(self) -> [u8; $n] {
				self.0
			}
			pub fn is_zero(&self) -> bool {
				self.0 == [0; $n]
			}
		}
		impl Default for $name {
			fn default() -> Self {
				Self::zero()
			}
		}
		impl AsRef<[u8]> for $name {
			fn as_ref(&self) -> &[u8] {
				&self.0
			}
		}
		impl AsMut<[u8]> for $name {
			fn as_mut(&mut self) -> &mut [u8] {
				&mut self.0
			}
		}
		impl From<[u8; $n]> for $name {
			fn from(x: [u8; $n]) -> Self {
				$name(x)
			}
		}
		impl<'a> From<&'a [u8; $n]> for $name {
			fn from(x: &'a [u8; $n]) -> Self {
				$name(*x)
			}
		}
		impl From<$name> for [u8; $n] {
			fn from(x: $name) -> Self {
				x.0
			}
		}
		impl fmt::Debug for $name {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				write!(f, "0x{}", hexs(&self.0))
			}
		}
		impl fmt::Display for $name {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				write!(f, "0x{}…{}", hexs(&self.0[..2]), hexs(&self.0[$n - 2..]))
			}
		}
		impl fmt::LowerHex for $name {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				write!(f, "{}", hexs(&self.0))
			}
		}
		impl serde::Serialize for $name {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&format!("0x{}", hexs(&self.0)))
			}
		}
		impl<'de> serde::Deserialize<'de> for $name {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = <String as serde::Deserialize>::deserialize(d)?;
				unhex(&s).and_then(|v| v.try_into().ok()).map($name).ok_or_else(|| serde::de::Error::custom("invalid hash"))
			}
		}
		impl std::str::FromStr for $name {
			type Err = &'static str;
			fn from_str(s: &str) -> Result<Self, Self::Err> {
				unhex(s).and_then(|v| v.try_into().ok()).map($name).ok_or("invalid hash")
			}
		}
		impl parity_scale_codec::EncodeLike<[u8; $n]> for $name {}
	};
}
fixed_hash!(H160, 20);
fixed_hash!(H256, 32);
fixed_hash!(H512, 64);

#[derive(Clone, PartialEq, Eq, Debug, Encode, Decode, Default, Hash, PartialOrd, Ord, TypeInfo)]
pub struct Bytes(pub Vec<u8>);
impl From<Vec<u8>> for Bytes {
	fn from(v: Vec<u8>) -> Self {
		Bytes(v)
	}
}
impl std::ops::Deref for Bytes {
	type Target = [u8];
	fn deref(&self) -> &[u8] {
		&self.0
	}
}
impl serde::Serialize for Bytes {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&format!("0x{}", hexs(&self.0)))
	}
}
impl<'de> serde::Deserialize<'de> for Bytes {
	fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
		let s = <String as serde::Deserialize>::deserialize(d)?;
		unhex(&s).map(Bytes).ok_or_else(|| serde::de::Error::custom("invalid hex"))
	}
}

pub mod hexdisplay {
	use std::fmt;
	pub struct HexDisplay<'a>(&'a [u8]);
	impl<'a> HexDisplay<'a> {
		pub fn from<R: AsRef<[u8]> + ?Sized>(d: &'a R) -> Self {
			HexDisplay(d.as_ref())
		}
	}
	impl<'a> fmt::Display for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			f.write_str(&super::hexs(self.0))
		}
	}
	impl<'a> fmt::Debug for HexDisplay<'a> {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			f.write_str(&super::hexs(self.0))
		}
	}
}

pub mod crypto {
	use super::*;
	#[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, Debug, TypeInfo)]
	pub struct KeyTypeId(pub [u8; 4]);
	pub mod key_types {
		use super::KeyTypeId;
		pub const DUMMY: KeyTypeId = KeyTypeId(*b"dumy");
		pub const ACCOUNT: KeyTypeId = KeyTypeId(*b"acco");
	}
	pub trait ByteArray: AsRef<[u8]> + AsMut<[u8]> + for<'a> TryFrom<&'a [u8], Error = ()> {
		const LEN: usize;
		fn from_slice(data: &[u8]) -> Result<Self, ()> {
			Self::try_from(data)
		}
		fn to_raw_vec(&self) -> Vec<u8> {
			self.as_slice().to_vec()
		}
		fn as_slice(&self) -> &[u8] {
			self.as_ref()
		}
	}
	pub trait UncheckedFrom<T> {
		fn unchecked_from(t: T) -> Self;
	}
	#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Encode, Decode, MaxEncodedLen, TypeInfo, Hash)]
	pub struct AccountId32([u8; 32]);
	impl AccountId32 {
		pub const fn new(x: [u8; 32]) -> Self {
			AccountId32(x)
		}
	}
	impl fmt::Debug for AccountId32 {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			write!(f, "{}", hexs(&self.0))
		}
	}
	impl fmt::Display for AccountId32 {
		fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
			write!(f, "{}", hexs(&self.0))
		}
	}
	impl AsRef<[u8]> for AccountId32 {
		fn as_ref(&self) -> &[u8] {
			&self.0
		}
	}
	impl AsMut<[u8]> for AccountId32 {
		fn as_mut(&mut self) -> &mut [u8] {
			&mut self.0
		}
	}
	impl AsRef<[u8; 32]> for AccountId32 {
		fn as_ref(&self) -> &[u8; 32] {
			&self.0
		}
	}
	impl From<[u8; 32]> for AccountId32 {
		fn from(x: [u8; 32]) -> Self {
			AccountId32(x)
		}
	}
	impl From<AccountId32> for [u8; 32] {
		fn from(x: AccountId32) -> [u8; 32] {
			x.0
		}
	}
	impl<'a> TryFrom<&'a [u8]> for AccountId32 {
		type Error = ();
		fn try_from(x: &'a [u8]) -> Result<Self, ()> {
			x.try_into().map(AccountId32).map_err(|_| ())
		}
	}
	impl ByteArray for AccountId32 {
		const LEN: usize = 32;
	}
	impl UncheckedFrom<H256> for AccountId32 {
		fn unchecked_from(h: H256) -> Self {
			AccountId32(h.0)
		}
	}
	impl From<super::sr25519::Public> for AccountId32 {
		fn from(k: super::sr25519::Public) -> Self {
			AccountId32(k.0)
		}
	}
	impl From<super::ed25519::Public> for AccountId32 {
		fn from(k: super::ed25519::Public) -> Self {
			AccountId32(k.0)
		}
	}
	impl serde::Serialize for AccountId32 {
		fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
			s.serialize_str(&to_ss58(&self.0))
		}
	}
	impl<'de> serde::Deserialize<'de> for AccountId32 {
		fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
			let s = <String as serde::Deserialize>::deserialize(d)?;
			from_ss58(&s).map(AccountId32).ok_or_else(|| serde::de::Error::custom("invalid account"))
		}
	}
	const BASE58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	fn check(b: &[u8]) -> [u8; 2] {
		let h = crate::hashing::blake2_512(&[b"SS58PRE", b].concat());
		[h[0], h[1]]
	}
	/// the address of an account, with the generic prefix 42
	pub fn to_ss58(a: &[u8; 32]) -> String {
		let mut b = vec![42];
		b.extend(a);
		let c = check(&b);
		b.extend(c);
		let mut digits = vec![0u8];
		for x in &b {
			let mut carry = *x as u32;
			for d in digits.iter_mut() {
				carry += (*d as u32) << 8;
				*d = (carry % 58) as u8;
				carry /= 58;
			}
			while carry > 0 {
				digits.push((carry % 58) as u8);
				carry /= 58;
			}
		}
		digits.iter().rev().map(|d| BASE58[*d as usize] as char).collect()
	}
	pub fn from_ss58(s: &str) -> Option<[u8; 32]> {
		let mut bytes = vec![0u8];
		for c in s.bytes() {
			let mut carry = BASE58.iter().position(|x| *x == c)? as u32;
			for b in bytes.iter_mut() {
				carry += *b as u32 * 58;
				*b = carry as u8;
				carry >>= 8;
			}
			while carry > 0 {
				bytes.push(carry as u8);
				carry >>= 8;
			}
		}
		bytes.reverse();
		// one byte of prefix or two
		let n = match bytes.len() {
			35 if bytes[0] < 64 => 1,
			36 if bytes[0] & 0xc0 == 0x40 => 2,
			_ => return None,
		};
		let (body, sum) = bytes.split_at(n + 32);
		(check(body) == sum).then(|| body[n..].try_into().unwrap())
	}
	impl std::str::FromStr for AccountId32 {
		type Err = &'static str;
		fn from_str(s: &str) -> Result<Self, Self::Err> {
			unhex(s).and_then(|v| v.try_into().ok()).map(AccountId32).ok_or("invalid account")
		}
	}
	pub trait Ss58Codec: Sized {}
	impl Ss58Codec for AccountId32 {}
	pub trait Public: ByteArray + Clone + Eq + fmt::Debug {}
	pub trait IsWrappedBy<Outer>: From<Outer> + Into<Outer> {}
	/// Key pairs whose signatures only the checks here take seriously: `nonce || hash(public, nonce,
	/// message)`. Like sr25519, signing twice gives two different signatures, both valid.
	pub trait Pair: Sized + Clone + 'static {
		type Public: ByteArray + Clone + PartialEq + fmt::Debug;
		type Signature: Clone + PartialEq + fmt::Debug + Encode + Decode;
		type Seed: Default + AsRef<[u8]> + AsMut<[u8]> + Clone;
		fn generate() -> (Self, Self::Seed);
		fn from_seed(seed: &Self::Seed) -> Self;
		fn from_string(s: &str, password: Option<&str>) -> Result<Self, SecretStringError>;
		fn from_seed_slice(seed: &[u8]) -> Result<Self, SecretStringError> {
			let mut s = Self::Seed::default();
			if s.as_ref().len() != seed.len() {
				return Err(SecretStringError::InvalidSeedLength)
			}
			s.as_mut().copy_from_slice(seed);
			Ok(Self::from_seed(&s))
		}
		fn sign(&self, message: &[u8]) -> Self::Signature;
		fn verify<M: AsRef<[u8]>>(sig: &Self::Signature, message: M, pubkey: &Self::Public) -> bool;
		fn public(&self) -> Self::Public;
	}
	#[derive(Debug, Clone, PartialEq, Eq)]
	pub enum SecretStringError {
		InvalidFormat(String),
		InvalidSeedLength,
	}
}
pub use crypto::{ByteArray, Pair, Public};

macro_rules! scheme {
	($name:ident, $publen:expr, $siglen:expr, $tag:expr) => {
		pub mod $name {
			use super::crypto::{ByteArray, SecretStringError};
			use super::*;
			#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
			pub struct Public(pub [u8; $publen]);
			impl Public {
				pub fn from_raw(x: [u8; $publen]) -> Self {
					Public(x)
				}
			}
			impl fmt::Debug for Public {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
					write!(f, "{}", hexs(&self.0))
				}
			}
			impl fmt::Display for Public {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
					write!(f, "{}", hexs(&self.0))
				}
			}
			impl AsRef<[u8]> for Public {
				fn as_ref(&self) -> &[u8] {
					&self.0
				}
			}
			impl AsRef<[u8; $publen]> for Public {
				fn as_ref(&self) -> &[u8; $publen] {
					&self.0
				}
			}
			impl AsMut<[u8]> for Public {
				fn as_mut(&mut self) -> &mut [u8] {
					&mut self.0
				}
			}
			impl<'a> TryFrom<&'a [u8]> for Public {
				type Error = ();
				fn try_from(x: &'a [u8]) -> Result<Self, ()> {
					x.try_into().map(Public).map_err(|_| ())
				}
			}
			impl From<Public> for [u8; $publen] {
				fn from(x: Public) -> Self {
					x.0
				}
			}
			impl ByteArray for Public {
				const LEN: usize = $publen;
			}
			#[derive(Clone, PartialEq, Eq, Hash, Encode, Decode, MaxEncodedLen, TypeInfo)]
			pub struct Signature(pub [u8; $siglen]);
			impl Signature {
				pub fn from_raw(x: [u8; $siglen]) -> Self {
					Signature(x)
				}
				pub fn from_slice(x: &[u8]) -> Option<Self> {
					x.try_into().ok().map(Signature)
				}
			}
			impl fmt::Debug for Signature {
				fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
					write!(f, "{}", hexs(&self.0))
				}
			}
			impl AsRef<[u8]> for Signature {
				fn as_ref(&self) -> &[u8] {
					&self.0
				}
			}
			impl From<Signature> for [u8; $siglen] {
				fn from(x: Signature) -> Self {
					x.0
				}
			}
			#[derive(Clone)]
			pub struct Pair {
				pub seed: [u8; 32],
				public: [u8; $publen],
			}
			fn mac(public: &[u8; $publen], nonce: &[u8], msg: &[u8]) -> Vec<u8> {
				let mut v = vec![$tag];
				v.extend_from_slice(public);
				v.extend_from_slice(nonce);
				v.extend_from_slice(msg);
				crate::hashing::blake2b(&v, 32)
			}
			impl super::Pair for Pair {
				type Public = Public;
				type Signature = Signature;
				type Seed = [u8; 32];
				fn generate() -> (Self, [u8; 32]) {
					let s = entropy();
					(Self::from_seed(&s), s)
				}
				fn from_seed(seed: &[u8; 32]) -> Self {
					let mut p = vec![$tag];
					p.extend_from_slice(seed);
					Pair { seed: *seed, public: crate::hashing::blake2b(&p, $publen).try_into().unwrap() }
				}
				fn from_string(s: &str, _: Option<&str>) -> Result<Self, SecretStringError> {
					Ok(Self::from_seed(&crate::hashing::blake2_256(s.as_bytes())))
				}
				fn sign(&self, message: &[u8]) -> Signature {
					let nonce: [u8; $siglen - 32] = entropy();
					let mut r = [0u8; $siglen];
					r[..$siglen - 32].copy_from_slice(&nonce);
					r[$siglen - 32..].copy_from_slice(&mac(&self.public, &nonce, message));
					Signature(r)
				}
				fn verify<M: AsRef<[u8]>>(sig: &Signature, message: M, pubkey: &Public) -> bool {
					let (n, m) = sig.0.split_at($siglen - 32);
					mac(&pubkey.0, n, message.as_ref()) == m
				}
				fn public(&self) -> Public {
					Public(self.public)
				}
			}
		}
	};
}
scheme!(sr25519, 32, 64, 1u8);
scheme!(ed25519, 32, 64, 2u8);
scheme!(ecdsa, 33, 65, 3u8);

pub mod storage {
	use parity_scale_codec::{Decode, Encode};
	use std::collections::BTreeMap;
	pub mod well_known_keys {
		pub const CODE: &[u8] = b":code";
		pub const EXTRINSIC_INDEX: &[u8] = b":extrinsic_index";
		pub const INTRABLOCK_ENTROPY: &[u8] = b":intrablock_entropy";
		pub const CHILD_STORAGE_KEY_PREFIX: &[u8] = b":child_storage:";
		pub const DEFAULT_CHILD_STORAGE_KEY_PREFIX: &[u8] = b":child_storage:default:";
	}
	#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Encode, Decode)]
	pub struct StorageKey(pub Vec<u8>);
	#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Encode, Decode)]
	pub struct PrefixedStorageKey(pub Vec<u8>);
	#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Encode, Decode)]
	pub struct ChildInfo(Vec<u8>);
	impl ChildInfo {
		pub fn new_default(storage_key: &[u8]) -> Self {
			ChildInfo(storage_key.to_vec())
		}
		pub fn new_default_from_vec(storage_key: Vec<u8>) -> Self {
			ChildInfo(storage_key)
		}
		pub fn storage_key(&self) -> &[u8] {
			&self.0
		}
		pub fn prefixed_storage_key(&self) -> PrefixedStorageKey {
			PrefixedStorageKey([well_known_keys::DEFAULT_CHILD_STORAGE_KEY_PREFIX, &self.0[..]].concat())
		}
	}
	#[derive(Clone, Default, Debug, PartialEq, Eq)]
	pub struct Storage {
		pub top: BTreeMap<Vec<u8>, Vec<u8>>,
		pub children_default: BTreeMap<Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>>,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum StateVersion {
		V0,
		V1,
	}
}
pub mod offchain {
	use super::*;
	pub const STORAGE_PREFIX: &[u8] = b"storage";
	#[derive(Debug, Clone, Copy, PartialEq, Eq, Encode, Decode)]
	#[repr(C)]
	pub enum StorageKind {
		PERSISTENT = 1,
		LOCAL = 2,
	}
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Encode, Decode)]
	pub struct Timestamp(u64);
	#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default, Encode, Decode)]
	pub struct Duration(u64);
	impl Duration {
		pub const fn from_millis(m: u64) -> Self {
			Duration(m)
		}
		pub fn millis(&self) -> u64 {
			self.0
		}
	}
	impl Timestamp {
		pub fn from_unix_millis(m: u64) -> Self {
			Timestamp(m)
		}
		pub fn add(&self, d: Duration) -> Timestamp {
			Timestamp(self.0.saturating_add(d.0))
		}
		pub fn sub(&self, d: Duration) -> Timestamp {
			Timestamp(self.0.saturating_sub(d.0))
		}
		pub fn diff(&self, o: &Self) -> Duration {
			Duration(self.0.saturating_sub(o.0))
		}
		pub fn unix_millis(&self) -> u64 {
			self.0
		}
	}
	pub trait OffchainStorage: Clone + Send + Sync {
		fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]);
		fn remove(&mut self, prefix: &[u8], key: &[u8]);
		fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>>;
		fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool;
	}
	pub mod testing {
		use super::*;
		use std::collections::{BTreeMap, VecDeque};
		use std::sync::{Arc, Mutex};
		#[derive(Debug, Default, Clone, PartialEq, Eq)]
		pub struct PendingRequest {
			pub method: String,
			pub uri: String,
			pub meta: Vec<u8>,
			pub headers: Vec<(String, String)>,
			pub body: Vec<u8>,
			pub sent: bool,
			pub response: Option<Vec<u8>>,
			pub read: usize,
			pub response_headers: Vec<(String, String)>,
			/// not in sp-core: HTTP status, 200 when zero
			pub status: u16,
		}
		type Db = Arc<Mutex<BTreeMap<Vec<u8>, Vec<u8>>>>;
		#[derive(Debug, Clone, Default)]
		pub struct TestPersistentOffchainDB {
			persistent: Db,
		}
		impl TestPersistentOffchainDB {
			pub fn new() -> Self {
				Default::default()
			}
			pub fn len(&self) -> usize {
				self.persistent.lock().unwrap().len()
			}
			/// not in sp-core: a copy of everything stored
			pub fn snapshot(&self) -> BTreeMap<Vec<u8>, Vec<u8>> {
				self.persistent.lock().unwrap().clone()
			}
			/// not in sp-core: puts a copy back
			pub fn restore(&self, s: BTreeMap<Vec<u8>, Vec<u8>>) {
				*self.persistent.lock().unwrap() = s
			}
		}
		fn k(prefix: &[u8], key: &[u8]) -> Vec<u8> {
			[prefix, b"/", key].concat()
		}
		impl OffchainStorage for TestPersistentOffchainDB {
			fn set(&mut self, prefix: &[u8], key: &[u8], value: &[u8]) {
				self.persistent.lock().unwrap().insert(k(prefix, key), value.to_vec());
			}
			fn remove(&mut self, prefix: &[u8], key: &[u8]) {
				self.persistent.lock().unwrap().remove(&k(prefix, key));
			}
			fn get(&self, prefix: &[u8], key: &[u8]) -> Option<Vec<u8>> {
				self.persistent.lock().unwrap().get(&k(prefix, key)).cloned()
			}
			fn compare_and_set(&mut self, prefix: &[u8], key: &[u8], old: Option<&[u8]>, new: &[u8]) -> bool {
				let mut m = self.persistent.lock().unwrap();
				let kk = k(prefix, key);
				if m.get(&kk).map(|x| x.as_slice()) == old {
					m.insert(kk, new.to_vec());
					true
				} else {
					false
				}
			}
		}
		#[derive(Debug, Default)]
		pub struct OffchainState {
			pub requests: BTreeMap<u16, PendingRequest>,
			pub expected_requests: VecDeque<PendingRequest>,
			pub persistent_storage: TestPersistentOffchainDB,
			pub local_storage: TestPersistentOffchainDB,
			pub timestamp: Timestamp,
			/// not in sp-core: milliseconds added to the clock by every read of it
			pub tick: u64,
		}
		impl OffchainState {
			pub fn expect_request(&mut self, expected: PendingRequest) {
				self.expected_requests.push_back(expected)
			}
		}
		pub use parking_lot::RwLock as Lock;
		#[derive(Clone)]
		pub struct TestOffchainExt(pub Arc<Lock<OffchainState>>);
		impl TestOffchainExt {
			pub fn new() -> (Self, Arc<Lock<OffchainState>>) {
				Self::with_offchain_db(Default::default())
			}
			pub fn with_offchain_db(db: TestPersistentOffchainDB) -> (Self, Arc<Lock<OffchainState>>) {
				let s: Arc<Lock<OffchainState>> = Default::default();
				s.write().persistent_storage = db;
				(TestOffchainExt(s.clone()), s)
			}
		}
		pub struct TestTransactionPoolExt;
	}
	pub trait IntoState {
		fn into_state(self) -> std::sync::Arc<testing::Lock<testing::OffchainState>>;
	}
	impl IntoState for testing::TestOffchainExt {
		fn into_state(self) -> std::sync::Arc<testing::Lock<testing::OffchainState>> {
			self.0
		}
	}
	impl IntoState for testing::TestPersistentOffchainDB {
		fn into_state(self) -> std::sync::Arc<testing::Lock<testing::OffchainState>> {
			testing::TestOffchainExt::with_offchain_db(self).1
		}
	}
	pub struct OffchainDbExt(pub std::sync::Arc<testing::Lock<testing::OffchainState>>);
	impl OffchainDbExt {
		pub fn new(x: impl IntoState) -> Self {
			OffchainDbExt(x.into_state())
		}
	}
	pub struct OffchainWorkerExt(pub std::sync::Arc<testing::Lock<testing::OffchainState>>);
	impl OffchainWorkerExt {
		pub fn new(x: impl IntoState) -> Self {
			OffchainWorkerExt(x.into_state())
		}
	}
}

pub mod bounded {
	pub use super::bounded_impl::*;
	pub use crate::support::traits::{Get, TryCollect};
}
#[path = "bounded.rs"]
pub mod bounded_impl;
pub use bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub mod traits {
	#[derive(Clone, Copy, PartialEq, Eq, Debug)]
	pub enum CallContext {
		Onchain,
		Offchain,
	}
}

/// Encoded metadata; opaque here.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct OpaqueMetadata(pub Vec<u8>);
impl OpaqueMetadata {
    pub fn new(b: Vec<u8>) -> Self {
        Self(b)
    }
}
