//! sp-runtime
pub use crate::arith::{FixedPointNumber, 
	self, ArithmeticError, FixedPointOperand, FixedU128, FixedU64, PerThing, PerU16, Perbill, Percent, Permill,
	Perquintill, Rounding,
};
pub use crate::core_::{
	bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec},
	crypto::{self, AccountId32, KeyTypeId},
	ecdsa, ed25519, sr25519, storage::Storage, ConstBool, ConstI128, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, RuntimeDebug, H160, H256, H512,
};
pub use crate::support::print;
pub use traits::{SaturatedConversion, Saturating};
pub use parity_scale_codec as codec;
pub use scale_info;
pub use serde;
pub use crate::std_ as sp_std;
use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, MaxEncodedLen};
use scale_info::TypeInfo;
use std::fmt;

pub use crate::core_::storage::StateVersion;
pub use crate::{ensure, fail};
pub use generic::{Digest, DigestItem};
pub type ConsensusEngineId = [u8; 4];
pub type RuntimeString = std::borrow::Cow<'static, str>;
pub type DispatchResult = Result<(), DispatchError>;
pub type ApplyExtrinsicResult = Result<DispatchOutcome, transaction_validity::TransactionValidityError>;
pub type DispatchOutcome = Result<(), DispatchError>;
pub type Justification = ([u8; 4], Vec<u8>);
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, Default)]
pub struct Justifications(Vec<Justification>);
pub const MAX_MODULE_ERROR_ENCODED_SIZE: usize = 4;

#[derive(Eq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize)]
pub struct ModuleError {
	pub index: u8,
	pub error: [u8; MAX_MODULE_ERROR_ENCODED_SIZE],
	#[codec(skip)]
	#[serde(skip)]
	pub message: Option<&'static str>,
}
impl PartialEq for ModuleError {
	fn eq(&self, o: &Self) -> bool {
		(self.index == o.index) && (self.error == o.error)
	}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize)]
pub enum TokenError {
	FundsUnavailable,
	OnlyProvider,
	BelowMinimum,
	CannotCreate,
	UnknownAsset,
	Frozen,
	Unsupported,
	CannotCreateHold,
	NotExpendable,
	Blocked,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize)]
pub enum TransactionalError {
	LimitReached,
	NoLayer,
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, serde::Serialize)]
pub enum DispatchError {
	Other(
		#[codec(skip)]
		#[serde(skip)]
		&'static str,
	),
	CannotLookup,
	BadOrigin,
	Module(ModuleError),
	ConsumerRemaining,
	NoProviders,
	TooManyConsumers,
	Token(TokenError),
	Arithmetic(ArithmeticError),
	Transactional(TransactionalError),
	Exhausted,
	Corruption,
	Unavailable,
	RootNotAllowed,
}
impl DispatchError {
	pub fn stripped(self) -> Self {
		match self {
			DispatchError::Module(ModuleError { index, error, message: Some(_) }) => DispatchError::Module(ModuleError { index, error, message: None }),
			m => m,
		}
	}
}
impl From<TokenError> for DispatchError {
	fn from(e: TokenError) -> Self {
		DispatchError::Token(e)
	}
}
impl From<ArithmeticError> for DispatchError {
	fn from(e: ArithmeticError) -> Self {
		DispatchError::Arithmetic(e)
	}
}
impl From<TransactionalError> for DispatchError {
	fn from(e: TransactionalError) -> Self {
		DispatchError::Transactional(e)
	}
}
impl From<traits::LookupError> for DispatchError {
	fn from(_: traits::LookupError) -> Self {
		DispatchError::CannotLookup
	}
}
impl From<traits::BadOrigin> for DispatchError {
	fn from(_: traits::BadOrigin) -> Self {
		DispatchError::BadOrigin
	}
}
impl From<&'static str> for DispatchError {
	fn from(e: &'static str) -> Self {
		DispatchError::Other(e)
	}
}
impl From<DispatchError> for &'static str {
	fn from(e: DispatchError) -> &'static str {
		match e {
			DispatchError::Other(m) => m,
			DispatchError::CannotLookup => "Cannot lookup",
			DispatchError::BadOrigin => "Bad origin",
			DispatchError::Module(ModuleError { message, .. }) => message.unwrap_or("Unknown module error"),
			DispatchError::ConsumerRemaining => "Consumer remaining",
			DispatchError::NoProviders => "No providers",
			DispatchError::TooManyConsumers => "Too many consumers",
			DispatchError::Token(_) => "Token error",
			DispatchError::Arithmetic(_) => "Arithmetic error",
			DispatchError::Transactional(_) => "Transactional error",
			DispatchError::Exhausted => "Resources exhausted",
			DispatchError::Corruption => "State corrupt",
			DispatchError::Unavailable => "Resource unavailable",
			DispatchError::RootNotAllowed => "Root not allowed",
		}
	}
}
impl traits::Printable for DispatchError {
	fn print(&self) {}
}
#[derive(Eq, PartialEq, Clone, Copy, Encode, Decode, Debug, TypeInfo)]
pub struct DispatchErrorWithPostInfo<Info>
where
	Info: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable,
{
	pub post_info: Info,
	pub error: DispatchError,
}
impl<T, E> From<E> for DispatchErrorWithPostInfo<T>
where
	T: Eq + PartialEq + Clone + Copy + Encode + Decode + traits::Printable + Default,
	E: Into<DispatchError>,
{
	fn from(e: E) -> Self {
		Self { post_info: Default::default(), error: e.into() }
	}
}
pub type DispatchResultWithInfo<T> = Result<T, DispatchErrorWithPostInfo<T>>;
#[derive(Eq, PartialEq, Debug, Clone, Copy)]
pub enum TryRuntimeErrorInner {}
pub type TryRuntimeError = DispatchError;

#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, MaxEncodedLen, Debug, TypeInfo)]
pub enum MultiSignature {
	Ed25519(ed25519::Signature),
	Sr25519(sr25519::Signature),
	Ecdsa(ecdsa::Signature),
}
macro_rules! multi {
	($v:ident, $m:ident) => {
		impl From<$m::Signature> for MultiSignature {
			fn from(x: $m::Signature) -> Self {
				MultiSignature::$v(x)
			}
		}
		impl From<$m::Public> for MultiSigner {
			fn from(x: $m::Public) -> Self {
				MultiSigner::$v(x)
			}
		}
		impl PartialOrd for $m::Signature {
			fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Ord for $m::Signature {
			fn cmp(&self, o: &Self) -> std::cmp::Ordering {
				self.0.cmp(&o.0)
			}
		}
		impl traits::Verify for $m::Signature {
			type Signer = $m::Public;
			fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &$m::Public) -> bool {
				<$m::Pair as crate::core_::Pair>::verify(self, msg.get(), signer)
			}
		}
		impl traits::IdentifyAccount for $m::Public {
			type AccountId = Self;
			fn into_account(self) -> Self {
				self
			}
		}
	};
}
multi!(Ed25519, ed25519);
multi!(Sr25519, sr25519);
multi!(Ecdsa, ecdsa);
#[derive(Eq, PartialEq, Ord, PartialOrd, Clone, Encode, Decode, Debug, TypeInfo)]
pub enum MultiSigner {
	Ed25519(ed25519::Public),
	Sr25519(sr25519::Public),
	Ecdsa(ecdsa::Public),
}
impl traits::IdentifyAccount for MultiSigner {
	type AccountId = AccountId32;
	fn into_account(self) -> AccountId32 {
		match self {
			MultiSigner::Ed25519(x) => AccountId32::new(x.0),
			MultiSigner::Sr25519(x) => AccountId32::new(x.0),
			MultiSigner::Ecdsa(x) => AccountId32::new(crate::hashing::blake2_256(x.as_ref())),
		}
	}
}
impl traits::Verify for MultiSignature {
	type Signer = MultiSigner;
	fn verify<L: traits::Lazy<[u8]>>(&self, mut msg: L, signer: &AccountId32) -> bool {
		use crate::core_::Pair;
		let b: [u8; 32] = signer.clone().into();
		match self {
			Self::Ed25519(s) => ed25519::Pair::verify(s, msg.get(), &ed25519::Public(b)),
			Self::Sr25519(s) => sr25519::Pair::verify(s, msg.get(), &sr25519::Public(b)),
			// the mock ecdsa scheme cannot recover a public key, so an ecdsa signature never verifies
			// against an account
			Self::Ecdsa(_) => false,
		}
	}
}
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, Hash, TypeInfo, MaxEncodedLen)]
pub enum MultiAddress<AccountId, AccountIndex> {
	Id(AccountId),
	Index(#[codec(compact)] AccountIndex),
	Raw(Vec0),
	Address32([u8; 32]),
	Address20([u8; 20]),
}
/// bytes whose bound is not known
#[derive(Encode, Decode, PartialEq, Eq, Clone, Debug, Hash, TypeInfo, Default)]
pub struct Vec0(pub Vec<u8>);
impl MaxEncodedLen for Vec0 {
	fn max_encoded_len() -> usize {
		usize::MAX / 4
	}
}
impl<A, I> From<A> for MultiAddress<A, I> {
	fn from(a: A) -> Self {
		MultiAddress::Id(a)
	}
}
#[derive(PartialEq, Eq, Clone, Default, Debug, TypeInfo, Encode, Decode)]
pub struct OpaqueExtrinsic(Vec<u8>);
impl OpaqueExtrinsic {
	pub fn from_bytes(b: &[u8]) -> Result<Self, codec::Error> {
		Ok(OpaqueExtrinsic(b.to_vec()))
	}
}
impl traits::Extrinsic for OpaqueExtrinsic {
	type Call = ();
	type SignaturePayload = ();
}
impl serde::Serialize for OpaqueExtrinsic {
	fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
		serde::Serialize::serialize(&self.0, s)
	}
}
pub trait BuildStorage {
	fn build_storage(&self) -> Result<Storage, String> {
		let mut s = Storage::default();
		self.assimilate_storage(&mut s)?;
		Ok(s)
	}
	fn assimilate_storage(&self, storage: &mut Storage) -> Result<(), String>;
}
impl BuildStorage for () {
	fn assimilate_storage(&self, _: &mut Storage) -> Result<(), String> {
		Err("`assimilate_storage` not implemented for `()`".into())
	}
}
impl BuildStorage for Storage {
	fn assimilate_storage(&self, s: &mut Storage) -> Result<(), String> {
		s.top.extend(self.top.clone());
		for (k, v) in &self.children_default {
			s.children_default.entry(k.clone()).or_default().extend(v.clone())
		}
		Ok(())
	}
}
#[macro_export]
macro_rules! mf_impl_opaque_keys {
	($(#[$a:meta])* $v:vis struct $n:ident { $($t:tt)* }) => {
		$(#[$a])*
		$v struct $n;
		impl $crate::runtime::traits::OpaqueKeys for $n {
			type KeyTypeIdProviders = ();
		}
	};
}
#[macro_export]
macro_rules! mf_create_runtime_str { ($e:expr) => { $e }; }
pub use crate::{mf_create_runtime_str as create_runtime_str, mf_impl_opaque_keys as impl_opaque_keys};

pub mod traits {
	use super::*;
	pub use crate::arith::traits::*;
	pub use crate::core_::{ConstBool, ConstI128, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Get, TypedGet};
	use crate::runtime::transaction_validity::*;
	pub use crate::support::traits::IsType as _IsType;
	use serde::de::DeserializeOwned;
	use std::{fmt::Display, marker::PhantomData, ops};

	pub trait Lazy<T: ?Sized> {
		fn get(&mut self) -> &T;
	}
	impl<'a> Lazy<[u8]> for &'a [u8] {
		fn get(&mut self) -> &[u8] {
			self
		}
	}
	pub trait IdentifyAccount {
		type AccountId;
		fn into_account(self) -> Self::AccountId;
	}
	pub trait Verify {
		type Signer: IdentifyAccount;
		fn verify<L: Lazy<[u8]>>(&self, msg: L, signer: &<Self::Signer as IdentifyAccount>::AccountId) -> bool;
	}
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct LookupError;
	#[derive(Debug, Clone, Copy, PartialEq, Eq)]
	pub struct BadOrigin;
	impl From<BadOrigin> for &'static str {
		fn from(_: BadOrigin) -> &'static str {
			"Bad origin"
		}
	}
	impl From<LookupError> for &'static str {
		fn from(_: LookupError) -> &'static str {
			"Can not lookup"
		}
	}
	pub trait Lookup {
		type Source;
		type Target;
		fn lookup(&self, s: Self::Source) -> Result<Self::Target, LookupError>;
	}
	pub trait StaticLookup {
		type Source: Codec + Clone + PartialEq + fmt::Debug + TypeInfo + EncodeLike + 'static;
		type Target;
		fn lookup(s: Self::Source) -> Result<Self::Target, LookupError>;
		fn unlookup(t: Self::Target) -> Self::Source;
	}
	#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
	pub struct IdentityLookup<T>(PhantomData<T>);
	impl<T: Codec + Clone + PartialEq + fmt::Debug + TypeInfo + EncodeLike + 'static> StaticLookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(x: T) -> Result<T, LookupError> {
			Ok(x)
		}
		fn unlookup(x: T) -> T {
			x
		}
	}
	impl<T> Lookup for IdentityLookup<T> {
		type Source = T;
		type Target = T;
		fn lookup(&self, x: T) -> Result<T, LookupError> {
			Ok(x)
		}
	}
	pub struct AccountIdLookup<A, I>(PhantomData<(A, I)>);
	impl<A, I> StaticLookup for AccountIdLookup<A, I>
	where
		A: Codec + Clone + PartialEq + fmt::Debug + TypeInfo + EncodeLike + 'static,
		I: Codec + Clone + PartialEq + fmt::Debug + TypeInfo + EncodeLike + 'static + parity_scale_codec::HasCompact,
		MultiAddress<A, I>: Codec + TypeInfo + EncodeLike,
	{
		type Source = MultiAddress<A, I>;
		type Target = A;
		fn lookup(x: Self::Source) -> Result<A, LookupError> {
			match x {
				MultiAddress::Id(i) => Ok(i),
				_ => Err(LookupError),
			}
		}
		fn unlookup(x: A) -> Self::Source {
			MultiAddress::Id(x)
		}
	}
	pub trait Convert<A, B> {
		fn convert(a: A) -> B;
	}
	impl<A, B: Default> Convert<A, B> for () {
		fn convert(_: A) -> B {
			Default::default()
		}
	}
	#[derive(Default, Clone, Copy, Debug)]
	pub struct Identity;
	impl<T> Convert<T, T> for Identity {
		fn convert(a: T) -> T {
			a
		}
	}
	#[derive(Default, Clone, Copy, Debug)]
	pub struct ConvertInto;
	impl<A, B: From<A>> Convert<A, B> for ConvertInto {
		fn convert(a: A) -> B {
			a.into()
		}
	}
	pub trait CheckedConversion {
		fn checked_from<T>(t: T) -> Option<Self>
		where
			Self: TryFrom<T>,
			Self: Sized,
		{
			<Self as TryFrom<T>>::try_from(t).ok()
		}
		fn checked_into<T>(self) -> Option<T>
		where
			Self: TryInto<T>,
			Self: Sized,
		{
			<Self as TryInto<T>>::try_into(self).ok()
		}
	}
	impl<T: Sized> CheckedConversion for T {}

	macro_rules! bundle {
		($($n:ident: $b:path;)*) => {$( pub trait $n: $b {} impl<T: $b> $n for T {} )*}
	}
	pub trait Member: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static {}
	impl<T: Send + Sync + Sized + fmt::Debug + Eq + PartialEq + Clone + 'static> Member for T {}
	bundle! { MaybeDisplay: Display; MaybeDebug: fmt::Debug; MaybeSerialize: serde::Serialize; MaybeFromStr: std::str::FromStr; MaybeHash: std::hash::Hash; MaybeSerializeDeserialize0: serde::Serialize; }
	pub trait MaybeSerializeDeserialize: DeserializeOwned + serde::Serialize {}
	impl<T: DeserializeOwned + serde::Serialize> MaybeSerializeDeserialize for T {}
	pub trait IsMember<M> {
		fn is_member(m: &M) -> bool;
	}
	pub trait Printable {
		fn print(&self);
	}
	impl<T: Printable> Printable for &T {
		fn print(&self) {}
	}
	impl Printable for () {
		fn print(&self) {}
	}
	impl Printable for &'static str {
		fn print(&self) {}
	}

	pub trait Hash: 'static + fmt::Debug + Clone + Eq + PartialEq + Default {
		type Output: HashOutput;
		fn hash(s: &[u8]) -> Self::Output;
		fn hash_of<S: Encode>(s: &S) -> Self::Output {
			Encode::using_encoded(s, Self::hash)
		}
		fn ordered_trie_root(input: Vec<Vec<u8>>) -> Self::Output {
			Self::hash_of(&input)
		}
	}
	pub trait HashOutput:
		Member + DeserializeOwned + serde::Serialize + fmt::Debug + Display + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + EncodeLike + MaxEncodedLen + TypeInfo + std::str::FromStr
	{
	}
	impl<T> HashOutput for T where
		T: Member + DeserializeOwned + serde::Serialize + fmt::Debug + Display + std::hash::Hash + AsRef<[u8]> + AsMut<[u8]> + Copy + Ord + Default + Encode + Decode + EncodeLike + MaxEncodedLen + TypeInfo + std::str::FromStr
	{
	}
	#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Default, serde::Serialize, serde::Deserialize)]
	pub struct BlakeTwo256;
	impl Hash for BlakeTwo256 {
		type Output = H256;
		fn hash(s: &[u8]) -> H256 {
			H256(crate::hashing::blake2_256(s))
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, TypeInfo, Default, serde::Serialize, serde::Deserialize)]
	pub struct Keccak256;

	pub trait BlockNumber:
		Member + MaybeSerializeDeserialize + fmt::Debug + std::hash::Hash + Copy + Display + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Codec + EncodeLike + std::str::FromStr
	{
	}
	impl<T> BlockNumber for T where
		T: Member + MaybeSerializeDeserialize + fmt::Debug + std::hash::Hash + Copy + Display + AtLeast32BitUnsigned + Default + TypeInfo + MaxEncodedLen + Codec + EncodeLike + std::str::FromStr
	{
	}
	pub trait Header: Clone + Send + Sync + Codec + Eq + MaybeSerialize + fmt::Debug + TypeInfo + 'static {
		type Number: BlockNumber;
		type Hash: HashOutput;
		type Hashing: Hash<Output = Self::Hash>;
		fn new(number: Self::Number, extrinsics_root: Self::Hash, state_root: Self::Hash, parent_hash: Self::Hash, digest: crate::runtime::generic::Digest) -> Self;
		fn number(&self) -> &Self::Number;
		fn parent_hash(&self) -> &Self::Hash;
		fn hash(&self) -> Self::Hash {
			<Self::Hashing as Hash>::hash_of(self)
		}
	}
	#[doc(hidden)]
	pub trait HeaderProvider {
		type HeaderT: Header;
	}
	pub trait Extrinsic: Sized {
		type Call: TypeInfo;
		type SignaturePayload: SignaturePayload;
		fn is_signed(&self) -> Option<bool> {
			None
		}
		fn new(_call: Self::Call, _: Option<Self::SignaturePayload>) -> Option<Self> {
			None
		}
	}
	pub trait SignaturePayload {}
	impl<T> SignaturePayload for T {}
	pub trait ExtrinsicMetadata {
		const VERSION: u8;
		type SignedExtensions;
	}
	pub trait ExtrinsicCall: Extrinsic {
		fn call(&self) -> &Self::Call;
	}
	pub trait Block: HeaderProvider<HeaderT = <Self as Block>::Header> + Clone + Send + Sync + Codec + Eq + fmt::Debug + 'static {
		type Extrinsic: Member + Codec + Extrinsic;
		type Header: Header<Hash = Self::Hash>;
		type Hash: HashOutput;
		fn header(&self) -> &Self::Header;
		fn extrinsics(&self) -> &[Self::Extrinsic];
		fn deconstruct(self) -> (Self::Header, Vec<Self::Extrinsic>);
		fn new(header: Self::Header, extrinsics: Vec<Self::Extrinsic>) -> Self;
		fn hash(&self) -> Self::Hash {
			<<Self::Header as Header>::Hashing as Hash>::hash_of(self.header())
		}
	}
	pub type HashFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Hash;
	pub type HashingFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Hashing;
	pub type NumberFor<B> = <<B as HeaderProvider>::HeaderT as Header>::Number;
	pub trait BlockNumberProvider {
		type BlockNumber: Codec + Clone + Ord + Eq + AtLeast32BitUnsigned + TypeInfo + fmt::Debug + MaxEncodedLen + Copy + EncodeLike;
		fn current_block_number() -> Self::BlockNumber;
	}
	impl BlockNumberProvider for () {
		type BlockNumber = u32;
		fn current_block_number() -> u32 {
			0
		}
	}
	pub trait Dispatchable {
		type RuntimeOrigin: fmt::Debug;
		type Config;
		type Info;
		type PostInfo: Eq + PartialEq + Clone + Copy + Encode + Decode + Printable;
		fn dispatch(self, origin: Self::RuntimeOrigin) -> DispatchResultWithInfo<Self::PostInfo>;
	}
	pub type DispatchInfoOf<T> = <T as Dispatchable>::Info;
	pub type PostDispatchInfoOf<T> = <T as Dispatchable>::PostInfo;
	pub trait SignedExtension: Codec + fmt::Debug + Sync + Send + Clone + Eq + PartialEq + scale_info::StaticTypeInfo {
		const IDENTIFIER: &'static str;
		type AccountId;
		type Call: Dispatchable;
		type AdditionalSigned: Encode + TypeInfo;
		type Pre;
		fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError>;
		fn validate(&self, _who: &Self::AccountId, _call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch(self, who: &Self::AccountId, call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<Self::Pre, TransactionValidityError>;
		fn validate_unsigned(_call: &Self::Call, _info: &DispatchInfoOf<Self::Call>, _len: usize) -> TransactionValidity {
			Ok(ValidTransaction::default())
		}
		fn pre_dispatch_unsigned(call: &Self::Call, info: &DispatchInfoOf<Self::Call>, len: usize) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(call, info, len).map(|_| ())
		}
		fn post_dispatch(
			_pre: Option<Self::Pre>,
			_info: &DispatchInfoOf<Self::Call>,
			_post_info: &PostDispatchInfoOf<Self::Call>,
			_len: usize,
			_result: &DispatchResult,
		) -> Result<(), TransactionValidityError> {
			Ok(())
		}
	}
	macro_rules! tuple_ext {
		($($t:ident $p:ident $i:tt),*) => {
			impl<Acc, Cal: Dispatchable, $($t: SignedExtension<AccountId = Acc, Call = Cal>),*> SignedExtension for ($($t,)*) {
				const IDENTIFIER: &'static str = "Tuple";
				type AccountId = Acc;
				type Call = Cal;
				type AdditionalSigned = ($($t::AdditionalSigned,)*);
				type Pre = ($($t::Pre,)*);
				fn additional_signed(&self) -> Result<Self::AdditionalSigned, TransactionValidityError> {
					Ok(($(self.$i.additional_signed()?,)*))
				}
				fn validate(&self, who: &Acc, call: &Cal, info: &DispatchInfoOf<Cal>, len: usize) -> TransactionValidity {
					let v = ValidTransaction::default();
					$(let v = v.combine_with(self.$i.validate(who, call, info, len)?);)*
					Ok(v)
				}
				fn pre_dispatch(self, who: &Acc, call: &Cal, info: &DispatchInfoOf<Cal>, len: usize) -> Result<Self::Pre, TransactionValidityError> {
					Ok(($(self.$i.pre_dispatch(who, call, info, len)?,)*))
				}
				fn post_dispatch(pre: Option<Self::Pre>, info: &DispatchInfoOf<Cal>, post: &PostDispatchInfoOf<Cal>, len: usize, result: &DispatchResult) -> Result<(), TransactionValidityError> {
					match pre {
						Some(x) => { $($t::post_dispatch(Some(x.$i), info, post, len, result)?;)* },
						None => { $($t::post_dispatch(None, info, post, len, result)?;)* },
					}
					Ok(())
				}
			}
		};
	}
	tuple_ext!(A a 0);
	tuple_ext!(A a 0, B b 1);
	tuple_ext!(A a 0, B b 1, C c 2);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5, G g 6);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5, G g 6, H h 7);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5, G g 6, H h 7, I i 8);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5, G g 6, H h 7, I i 8, J j 9);
	tuple_ext!(A a 0, B b 1, C c 2, D d 3, E e 4, F f 5, G g 6, H h 7, I i 8, J j 9, K k 10);
	pub trait ValidateUnsigned {
		type Call;
		fn pre_dispatch(call: &Self::Call) -> Result<(), TransactionValidityError> {
			Self::validate_unsigned(TransactionSource::InBlock, call).map(|_| ()).map_err(Into::into)
		}
		fn validate_unsigned(source: TransactionSource, call: &Self::Call) -> TransactionValidity;
	}
	pub trait OpaqueKeys {
		type KeyTypeIdProviders;
	}

	pub struct AppendZerosInput<'a, T>(pub &'a mut T);
	pub struct TrailingZeroInput<'a>(&'a [u8]);
	impl<'a> TrailingZeroInput<'a> {
		pub fn new(data: &'a [u8]) -> Self {
			Self(data)
		}
		pub fn zeroes() -> Self {
			Self::new(&[][..])
		}
	}
	impl<'a> parity_scale_codec::Input for TrailingZeroInput<'a> {
		fn remaining_len(&mut self) -> Result<Option<usize>, parity_scale_codec::Error> {
			Ok(None)
		}
		fn read(&mut self, into: &mut [u8]) -> Result<(), parity_scale_codec::Error> {
			let len_from_inner = into.len().min(self.0.len());
			into[..len_from_inner].copy_from_slice(&self.0[..len_from_inner]);
			for i in &mut into[len_from_inner..] {
				*i = 0;
			}
			self.0 = &self.0[len_from_inner..];
			Ok(())
		}
	}
	pub trait AccountIdConversion<AccountId>: Sized {
		fn into_account_truncating(&self) -> AccountId;
		fn try_from_account(a: &AccountId) -> Option<Self>;
	}
	impl<T: Encode + Decode, Id: Encode + Decode + crate::support::traits::TypeId> AccountIdConversion<T> for Id {
		fn into_account_truncating(&self) -> T {
			(Id::TYPE_ID, self).using_encoded(|b| T::decode(&mut TrailingZeroInput(b))).expect("all byte sequences are valid accounts")
		}
		fn try_from_account(_: &T) -> Option<Self> {
			None
		}
	}
	pub trait Morph<A> {
		type Outcome;
		fn morph(a: A) -> Self::Outcome;
	}
	impl<T> Morph<T> for Identity {
		type Outcome = T;
		fn morph(a: T) -> T {
			a
		}
	}
	pub trait TryMorph<A> {
		type Outcome;
		fn try_morph(a: A) -> Result<Self::Outcome, ()>;
	}
	impl<T> TryMorph<T> for Identity {
		type Outcome = T;
		fn try_morph(a: T) -> Result<T, ()> {
			Ok(a)
		}
	}
	/// anything becomes the given value
	pub struct Replace<V>(PhantomData<V>);
	impl<T, V: TypedGet> Morph<T> for Replace<V> {
		type Outcome = V::Type;
		fn morph(_: T) -> V::Type {
			V::get()
		}
	}
	pub struct ReplaceWithDefault<V>(PhantomData<V>);
	impl<T, V: Default> Morph<T> for ReplaceWithDefault<V> {
		type Outcome = V;
		fn morph(_: T) -> V {
			V::default()
		}
	}
	pub struct MorphInto<T>(PhantomData<T>);
	impl<T, A: Into<T>> Morph<A> for MorphInto<T> {
		type Outcome = T;
		fn morph(a: A) -> T {
			a.into()
		}
	}
	pub struct ReduceBy<N>(PhantomData<N>);
	impl<N: TypedGet> Morph<N::Type> for ReduceBy<N>
	where
		N::Type: CheckedSub + Zero,
	{
		type Outcome = N::Type;
		fn morph(a: N::Type) -> N::Type {
			a.checked_sub(&N::get()).unwrap_or(Zero::zero())
		}
	}
	pub trait TryConvert<A, B> {
		fn try_convert(a: A) -> Result<B, A>;
	}
	pub trait MaybeConvert<A, B> {
		fn maybe_convert(a: A) -> Option<B>;
	}
	pub trait ConvertBack<A, B>: Convert<A, B> {
		fn convert_back(b: B) -> A;
	}
	impl<T> ConvertBack<T, T> for Identity {
		fn convert_back(b: T) -> T {
			b
		}
	}
	pub trait CheckEqual {
		fn check_equal(&self, other: &Self);
	}
	pub trait IdentifyAccountWithLookup<AccountId> {}
	pub fn _u<T: ops::Add>() {}
}

pub mod generic {
	use super::*;
	use traits::{BlockNumber as BN, Hash as HashT};
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, Default, serde::Serialize, serde::Deserialize)]
	pub struct Digest {
		pub logs: Vec<DigestItem>,
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, serde::Serialize, serde::Deserialize)]
	pub enum DigestItem {
		PreRuntime([u8; 4], Vec<u8>),
		Consensus([u8; 4], Vec<u8>),
		Seal([u8; 4], Vec<u8>),
		Other(Vec<u8>),
		RuntimeEnvironmentUpdated,
	}
	#[derive(Clone, Copy, PartialEq, Eq, Debug, Encode, Decode)]
	pub enum BlockId<B: traits::Block> {
		Hash(traits::HashFor<B>),
		Number(traits::NumberFor<B>),
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo, serde::Serialize)]
	#[serde(bound = "")]
	pub struct Header<Number: BN, Hash: HashT> {
		pub parent_hash: Hash::Output,
		#[codec(compact)]
		pub number: Number,
		pub state_root: Hash::Output,
		pub extrinsics_root: Hash::Output,
		pub digest: Digest,
	}
	impl<Number: BN, Hash: HashT + TypeInfo> traits::Header for Header<Number, Hash>
	where
		Number: parity_scale_codec::HasCompact,
		Self: Codec + Send + Sync,
	{
		type Number = Number;
		type Hash = Hash::Output;
		type Hashing = Hash;
		fn new(number: Number, extrinsics_root: Hash::Output, state_root: Hash::Output, parent_hash: Hash::Output, digest: Digest) -> Self {
			Header { number, extrinsics_root, state_root, parent_hash, digest }
		}
		fn number(&self) -> &Number {
			&self.number
		}
		fn parent_hash(&self) -> &Hash::Output {
			&self.parent_hash
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
	pub struct Block<Header, Extrinsic> {
		pub header: Header,
		pub extrinsics: Vec<Extrinsic>,
	}
	impl<H: traits::Header, E> traits::HeaderProvider for Block<H, E> {
		type HeaderT = H;
	}
	impl<H: traits::Header, E: traits::Member + Codec + traits::Extrinsic> traits::Block for Block<H, E>
	where
		Self: Codec,
	{
		type Extrinsic = E;
		type Header = H;
		type Hash = H::Hash;
		fn header(&self) -> &H {
			&self.header
		}
		fn extrinsics(&self) -> &[E] {
			&self.extrinsics
		}
		fn deconstruct(self) -> (H, Vec<E>) {
			(self.header, self.extrinsics)
		}
		fn new(header: H, extrinsics: Vec<E>) -> Self {
			Block { header, extrinsics }
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, TypeInfo)]
	pub struct UncheckedExtrinsic<Address, Call, Signature, Extra> {
		pub signature: Option<(Address, Signature, Extra)>,
		pub function: Call,
	}
	/// the version of the format, and the bit that tells that there is a signature
	const FORMAT: u8 = 4;
	const SIGNED: u8 = 0x80;
	impl<A: Encode, C: Encode, S: Encode, E: Encode> Encode for UncheckedExtrinsic<A, C, S, E> {
		fn encode(&self) -> Vec<u8> {
			let mut b = match &self.signature {
				None => vec![FORMAT],
				Some(s) => [vec![FORMAT | SIGNED], s.encode()].concat(),
			};
			self.function.encode_to(&mut b);
			b.encode()
		}
	}
	impl<A: Encode, C: Encode, S: Encode, E: Encode> parity_scale_codec::EncodeLike for UncheckedExtrinsic<A, C, S, E> {}
	impl<A: Decode, C: Decode, S: Decode, E: Decode> Decode for UncheckedExtrinsic<A, C, S, E> {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
			let b = Vec::<u8>::decode(i)?;
			let mut b = &b[..];
			let signature = match u8::decode(&mut b)? {
				FORMAT => None,
				x if x == FORMAT | SIGNED => Some(Decode::decode(&mut b)?),
				_ => return Err("Invalid transaction version".into()),
			};
			let x = Self { signature, function: C::decode(&mut b)? };
			if b.is_empty() { Ok(x) } else { Err("Invalid length prefix".into()) }
		}
	}
	impl<A, C, S, E> UncheckedExtrinsic<A, C, S, E> {
		pub fn new_unsigned(function: C) -> Self {
			Self { signature: None, function }
		}
		pub fn new_signed(function: C, a: A, s: S, e: E) -> Self {
			Self { signature: Some((a, s, e)), function }
		}
	}
	impl<A: TypeInfo, C: TypeInfo, S: TypeInfo, E: TypeInfo> traits::Extrinsic for UncheckedExtrinsic<A, C, S, E> {
		type Call = C;
		type SignaturePayload = (A, S, E);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
	}
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode)]
	pub struct SignedBlock<B> {
		pub block: B,
		pub justifications: Option<Justifications>,
	}
	impl<A, C: crate::support::dispatch::GetDispatchInfo, S, E> crate::support::dispatch::GetDispatchInfo for UncheckedExtrinsic<A, C, S, E> {
		fn get_dispatch_info(&self) -> crate::support::dispatch::DispatchInfo {
			self.function.get_dispatch_info()
		}
	}
	#[derive(PartialEq, Eq, Clone, Copy, Debug, TypeInfo)]
	pub enum Era {
		Immortal,
		/// period and phase
		Mortal(u64, u64),
	}
	impl Era {
		pub fn mortal(period: u64, current: u64) -> Self {
			let period = period.checked_next_power_of_two().unwrap_or(1 << 16).clamp(4, 1 << 16);
			let step = (period >> 12).max(1);
			Era::Mortal(period, current % period / step * step)
		}
		pub fn immortal() -> Self {
			Era::Immortal
		}
		pub fn is_immortal(&self) -> bool {
			matches!(self, Era::Immortal)
		}
		pub fn birth(self, current: u64) -> u64 {
			match self {
				Era::Immortal => 0,
				Era::Mortal(period, phase) => (current.max(phase) - phase) / period * period + phase,
			}
		}
		pub fn death(self, current: u64) -> u64 {
			match self {
				Era::Immortal => u64::MAX,
				Era::Mortal(period, _) => self.birth(current) + period,
			}
		}
	}
	impl Encode for Era {
		fn encode(&self) -> Vec<u8> {
			match self {
				Era::Immortal => vec![0],
				Era::Mortal(period, phase) => {
					let step = (period >> 12).max(1);
					let x = (period.trailing_zeros() - 1).clamp(1, 15) as u16 | ((phase / step) << 4) as u16;
					x.encode()
				},
			}
		}
	}
	impl parity_scale_codec::EncodeLike for Era {}
	impl Decode for Era {
		fn decode<I: parity_scale_codec::Input>(i: &mut I) -> Result<Self, parity_scale_codec::Error> {
			let first = u8::decode(i)? as u64;
			if first == 0 {
				return Ok(Era::Immortal)
			}
			let x = first + ((u8::decode(i)? as u64) << 8);
			let period = 2 << (x % 16);
			let phase = (x >> 4) * (period >> 12).max(1);
			if period >= 4 && phase < period { Ok(Era::Mortal(period, phase)) } else { Err("Invalid period and phase".into()) }
		}
	}
}

pub type ApisVec = &'static [([u8; 8], u32)];
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct RuntimeVersion {
	pub spec_name: &'static str,
	pub impl_name: &'static str,
	pub authoring_version: u32,
	pub spec_version: u32,
	pub impl_version: u32,
	pub apis: ApisVec,
	pub transaction_version: u32,
	pub state_version: u8,
}
pub mod transaction_validity {
	use super::*;
	pub type TransactionPriority = u64;
	pub type TransactionLongevity = u64;
	pub type TransactionTag = Vec<u8>;
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum InvalidTransaction {
		Call,
		Payment,
		Future,
		Stale,
		BadProof,
		AncientBirthBlock,
		ExhaustsResources,
		Custom(u8),
		BadMandatory,
		MandatoryValidation,
		BadSigner,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum UnknownTransaction {
		CannotLookup,
		NoUnsignedValidator,
		Custom(u8),
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Copy, Debug, TypeInfo)]
	pub enum TransactionValidityError {
		Invalid(InvalidTransaction),
		Unknown(UnknownTransaction),
	}
	impl From<InvalidTransaction> for TransactionValidityError {
		fn from(e: InvalidTransaction) -> Self {
			Self::Invalid(e)
		}
	}
	impl From<UnknownTransaction> for TransactionValidityError {
		fn from(e: UnknownTransaction) -> Self {
			Self::Unknown(e)
		}
	}
	impl From<TransactionValidityError> for &'static str {
		fn from(e: TransactionValidityError) -> &'static str {
			match e {
				TransactionValidityError::Invalid(_) => "invalid transaction",
				TransactionValidityError::Unknown(_) => "unknown transaction",
			}
		}
	}
	impl From<InvalidTransaction> for &'static str {
		fn from(_: InvalidTransaction) -> &'static str {
			"invalid transaction"
		}
	}
	pub type TransactionValidity = Result<ValidTransaction, TransactionValidityError>;
	impl From<InvalidTransaction> for TransactionValidity {
		fn from(e: InvalidTransaction) -> Self {
			Err(e.into())
		}
	}
	impl From<UnknownTransaction> for TransactionValidity {
		fn from(e: UnknownTransaction) -> Self {
			Err(e.into())
		}
	}
	#[derive(Copy, Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
	pub enum TransactionSource {
		InBlock,
		Local,
		External,
	}
	#[derive(Clone, PartialEq, Eq, Encode, Decode, Debug, TypeInfo)]
	pub struct ValidTransaction {
		pub priority: TransactionPriority,
		pub requires: Vec<TransactionTag>,
		pub provides: Vec<TransactionTag>,
		pub longevity: TransactionLongevity,
		pub propagate: bool,
	}
	impl Default for ValidTransaction {
		fn default() -> Self {
			Self { priority: 0, requires: vec![], provides: vec![], longevity: u64::MAX, propagate: true }
		}
	}
	impl ValidTransaction {
		pub fn with_tag_prefix(prefix: &'static str) -> ValidTransactionBuilder {
			ValidTransactionBuilder { prefix: Some(prefix), validity: Default::default() }
		}
		pub fn combine_with(mut self, mut o: ValidTransaction) -> Self {
			self.priority = self.priority.saturating_add(o.priority);
			self.requires.append(&mut o.requires);
			self.provides.append(&mut o.provides);
			self.longevity = self.longevity.min(o.longevity);
			self.propagate = self.propagate && o.propagate;
			self
		}
	}
	#[derive(Default, Clone, Debug)]
	pub struct ValidTransactionBuilder {
		prefix: Option<&'static str>,
		validity: ValidTransaction,
	}
	impl ValidTransactionBuilder {
		pub fn priority(mut self, p: TransactionPriority) -> Self {
			self.validity.priority = p;
			self
		}
		pub fn longevity(mut self, p: TransactionLongevity) -> Self {
			self.validity.longevity = p;
			self
		}
		pub fn propagate(mut self, p: bool) -> Self {
			self.validity.propagate = p;
			self
		}
		fn tag(&self, t: impl Encode) -> Vec<u8> {
			match self.prefix {
				Some(p) => (p, t).encode(),
				None => t.encode(),
			}
		}
		pub fn and_requires(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.requires.push(t);
			self
		}
		pub fn and_provides(mut self, t: impl Encode) -> Self {
			let t = self.tag(t);
			self.validity.provides.push(t);
			self
		}
		pub fn combine_with(mut self, v: ValidTransaction) -> Self {
			self.validity = self.validity.combine_with(v);
			self
		}
		pub fn build(self) -> TransactionValidity {
			Ok(self.validity)
		}
	}
}

pub mod testing {
	use super::*;
	pub use crate::core_::H256;
	pub type Header = generic::Header<u64, traits::BlakeTwo256>;
	pub type Digest = generic::Digest;
	pub type Block<Xt> = generic::Block<Header, Xt>;
	#[derive(PartialEq, Eq, Clone, Debug, Encode, Decode, TypeInfo)]
	pub struct TestXt<Call, Extra> {
		pub signature: Option<(u64, Extra)>,
		pub call: Call,
	}
	impl<Call, Extra> TestXt<Call, Extra> {
		pub fn new(call: Call, signature: Option<(u64, Extra)>) -> Self {
			Self { call, signature }
		}
	}
	impl<Call: Codec + Sync + Send + TypeInfo, Extra: TypeInfo> traits::Extrinsic for TestXt<Call, Extra> {
		type Call = Call;
		type SignaturePayload = (u64, Extra);
		fn is_signed(&self) -> Option<bool> {
			Some(self.signature.is_some())
		}
		fn new(c: Call, sig: Option<Self::SignaturePayload>) -> Option<Self> {
			Some(TestXt { signature: sig, call: c })
		}
	}
	impl<C: crate::support::dispatch::GetDispatchInfo, E> crate::support::dispatch::GetDispatchInfo for TestXt<C, E> {
		fn get_dispatch_info(&self) -> crate::support::dispatch::DispatchInfo {
			self.call.get_dispatch_info()
		}
	}
	#[derive(Default, PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo)]
	pub struct UintAuthorityId(pub u64);
}

pub mod offchain {
	pub use crate::core_::offchain::{Duration, StorageKind, Timestamp};
	pub mod storage {
		use crate::core_::offchain::StorageKind;
		use parity_scale_codec::{Codec, Decode};
		pub struct StorageValueRef<'a> {
			key: std::borrow::Cow<'a, [u8]>,
			kind: StorageKind,
		}
		#[derive(Debug, Copy, Clone, PartialEq, Eq)]
		pub enum StorageRetrievalError {
			Undecodable,
		}
		#[derive(Debug, Copy, Clone, PartialEq, Eq)]
		pub enum MutateStorageError<T, E> {
			ConcurrentModification(T),
			ValueFunctionFailed(E),
		}
		impl<'a> StorageValueRef<'a> {
			pub fn persistent(key: &'a [u8]) -> Self {
				Self { key: key.into(), kind: StorageKind::PERSISTENT }
			}
			pub fn local(key: &'a [u8]) -> Self {
				Self { key: key.into(), kind: StorageKind::LOCAL }
			}
			pub fn set(&self, value: &impl parity_scale_codec::Encode) {
				value.using_encoded(|val| crate::io::offchain::local_storage_set(self.kind, &self.key, val))
			}
			pub fn clear(&mut self) {
				crate::io::offchain::local_storage_clear(self.kind, &self.key)
			}
			pub fn get<T: Decode>(&self) -> Result<Option<T>, StorageRetrievalError> {
				crate::io::offchain::local_storage_get(self.kind, &self.key)
					.map(|val| T::decode(&mut &*val).map_err(|_| StorageRetrievalError::Undecodable))
					.transpose()
			}
			pub fn mutate<T, E, F>(&self, mutate_val: F) -> Result<T, MutateStorageError<T, E>>
			where
				T: Codec,
				F: FnOnce(Result<Option<T>, StorageRetrievalError>) -> Result<T, E>,
			{
				let value = crate::io::offchain::local_storage_get(self.kind, &self.key);
				let decoded = value.as_deref().map(|mut bytes| T::decode(&mut bytes).map_err(|_| StorageRetrievalError::Undecodable)).transpose();
				let val = mutate_val(decoded).map_err(MutateStorageError::ValueFunctionFailed)?;
				let set = val.using_encoded(|new_val| crate::io::offchain::local_storage_compare_and_set(self.kind, &self.key, value, new_val));
				if set {
					Ok(val)
				} else {
					Err(MutateStorageError::ConcurrentModification(val))
				}
			}
		}
	}
	pub mod storage_lock {
		use super::storage::{MutateStorageError, StorageRetrievalError, StorageValueRef};
		use super::{Duration, Timestamp};
		use crate::runtime::traits::{BlockNumberProvider, Bounded, Saturating};
		use parity_scale_codec::{Codec, Decode, Encode};
		use std::fmt;
		const STORAGE_LOCK_DEFAULT_EXPIRY_DURATION: Duration = Duration::from_millis(20_000);
		const STORAGE_LOCK_DEFAULT_EXPIRY_BLOCKS: u32 = 4;
		const STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MIN: Duration = Duration::from_millis(10);
		const STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX: Duration = Duration::from_millis(100);
		pub trait Lockable: Sized {
			type Deadline: Sized + Codec + Clone;
			fn deadline(&self) -> Self::Deadline;
			fn has_expired(deadline: &Self::Deadline) -> bool;
			fn snooze(_deadline: &Self::Deadline) {
				crate::io::offchain::sleep_until(crate::io::offchain::timestamp().add(STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX));
			}
		}
		#[derive(Encode, Decode)]
		pub struct Time {
			expiration_duration: Duration,
		}
		impl Default for Time {
			fn default() -> Self {
				Self { expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION }
			}
		}
		impl Lockable for Time {
			type Deadline = Timestamp;
			fn deadline(&self) -> Timestamp {
				crate::io::offchain::timestamp().add(self.expiration_duration)
			}
			fn has_expired(deadline: &Timestamp) -> bool {
				let now = crate::io::offchain::timestamp();
				now > *deadline
			}
			fn snooze(deadline: &Timestamp) {
				let now = crate::io::offchain::timestamp();
				let remainder = now.diff(deadline);
				let snooze = remainder.clamp(STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MIN, STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX);
				crate::io::offchain::sleep_until(now.add(snooze));
			}
		}
		#[derive(Encode, Decode, Eq, PartialEq)]
		pub struct BlockAndTimeDeadline<B: BlockNumberProvider> {
			pub block_number: B::BlockNumber,
			pub timestamp: Timestamp,
		}
		impl<B: BlockNumberProvider> Clone for BlockAndTimeDeadline<B> {
			fn clone(&self) -> Self {
				Self { block_number: self.block_number, timestamp: self.timestamp }
			}
		}
		impl<B: BlockNumberProvider> Default for BlockAndTimeDeadline<B> {
			fn default() -> Self {
				Self { block_number: B::current_block_number() + STORAGE_LOCK_DEFAULT_EXPIRY_BLOCKS.into(), timestamp: Timestamp::default() }
			}
		}
		pub struct BlockAndTime<B: BlockNumberProvider> {
			expiration_block_number_offset: u32,
			expiration_duration: Duration,
			_phantom: std::marker::PhantomData<B>,
		}
		impl<B: BlockNumberProvider> Default for BlockAndTime<B> {
			fn default() -> Self {
				Self {
					expiration_block_number_offset: STORAGE_LOCK_DEFAULT_EXPIRY_BLOCKS,
					expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION,
					_phantom: Default::default(),
				}
			}
		}
		impl<B: BlockNumberProvider> Lockable for BlockAndTime<B> {
			type Deadline = BlockAndTimeDeadline<B>;
			fn deadline(&self) -> Self::Deadline {
				let block_number = <B as BlockNumberProvider>::current_block_number() + self.expiration_block_number_offset.into();
				BlockAndTimeDeadline { timestamp: crate::io::offchain::timestamp().add(self.expiration_duration), block_number }
			}
			fn has_expired(deadline: &Self::Deadline) -> bool {
				crate::io::offchain::timestamp() > deadline.timestamp && <B as BlockNumberProvider>::current_block_number() > deadline.block_number
			}
			fn snooze(deadline: &Self::Deadline) {
				let now = crate::io::offchain::timestamp();
				let remainder = now.diff(&deadline.timestamp);
				let snooze = remainder.clamp(STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MIN, STORAGE_LOCK_PER_CHECK_ITERATION_SNOOZE_MAX);
				crate::io::offchain::sleep_until(now.add(snooze));
			}
		}
		pub struct StorageLock<'a, L = Time> {
			value_ref: StorageValueRef<'a>,
			lockable: L,
		}
		impl<'a, L: Lockable + Default> StorageLock<'a, L> {
			pub fn new(key: &'a [u8]) -> Self {
				Self::with_lockable(key, Default::default())
			}
		}
		impl<'a, L: Lockable> StorageLock<'a, L> {
			pub fn with_lockable(key: &'a [u8], lockable: L) -> Self {
				Self { value_ref: StorageValueRef::<'a>::persistent(key), lockable }
			}
			fn extend_active_lock(&mut self) -> Result<L::Deadline, ()> {
				let res = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| match s {
					Ok(Some(deadline)) if !L::has_expired(&deadline) => Ok(self.lockable.deadline()),
					_ => Err(()),
				});
				match res {
					Ok(deadline) => Ok(deadline),
					Err(MutateStorageError::ConcurrentModification(_)) => Err(()),
					Err(MutateStorageError::ValueFunctionFailed(e)) => Err(e),
				}
			}
			fn try_lock_inner(&mut self, new_deadline: L::Deadline) -> Result<(), L::Deadline> {
				let res = self.value_ref.mutate(|s: Result<Option<L::Deadline>, StorageRetrievalError>| match s {
					Ok(Some(deadline)) =>
						if L::has_expired(&deadline) {
							Ok(new_deadline)
						} else {
							Err(deadline)
						},
					Ok(None) => Ok(new_deadline),
					Err(_) => Ok(new_deadline),
				});
				match res {
					Ok(_) => Ok(()),
					Err(MutateStorageError::ConcurrentModification(deadline)) => Err(deadline),
					Err(MutateStorageError::ValueFunctionFailed(e)) => Err(e),
				}
			}
			pub fn try_lock(&mut self) -> Result<StorageLockGuard<'a, '_, L>, L::Deadline> {
				self.try_lock_inner(self.lockable.deadline())?;
				Ok(StorageLockGuard::<'a, '_> { lock: Some(self) })
			}
			pub fn lock(&mut self) -> StorageLockGuard<'a, '_, L> {
				while let Err(deadline) = self.try_lock_inner(self.lockable.deadline()) {
					L::snooze(&deadline);
				}
				StorageLockGuard::<'a, '_, L> { lock: Some(self) }
			}
			fn unlock(&mut self) {
				self.value_ref.clear();
			}
		}
		pub struct StorageLockGuard<'a, 'b, L: Lockable> {
			lock: Option<&'b mut StorageLock<'a, L>>,
		}
		impl<'a, 'b, L: Lockable> StorageLockGuard<'a, 'b, L> {
			pub fn forget(mut self) {
				let _ = self.lock.take();
			}
			pub fn extend_lock(&mut self) -> Result<L::Deadline, ()> {
				if let Some(ref mut lock) = self.lock {
					lock.extend_active_lock()
				} else {
					Err(())
				}
			}
		}
		impl<'a, 'b, L: Lockable> fmt::Debug for StorageLockGuard<'a, 'b, L> {
			fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
				f.write_str("StorageLockGuard")
			}
		}
		impl<'a, 'b, L: Lockable> Drop for StorageLockGuard<'a, 'b, L> {
			fn drop(&mut self) {
				if let Some(lock) = self.lock.take() {
					lock.unlock();
				}
			}
		}
		impl<'a> StorageLock<'a, Time> {
			pub fn with_deadline(key: &'a [u8], expiration_duration: Duration) -> Self {
				Self { value_ref: StorageValueRef::<'a>::persistent(key), lockable: Time { expiration_duration } }
			}
		}
		impl<'a, B: BlockNumberProvider> StorageLock<'a, BlockAndTime<B>> {
			pub fn with_block_deadline(key: &'a [u8], expiration_block_number_offset: u32) -> Self {
				Self {
					value_ref: StorageValueRef::<'a>::persistent(key),
					lockable: BlockAndTime::<B> {
						expiration_block_number_offset,
						expiration_duration: STORAGE_LOCK_DEFAULT_EXPIRY_DURATION,
						_phantom: Default::default(),
					},
				}
			}
			pub fn with_block_and_time_deadline(key: &'a [u8], expiration_block_number_offset: u32, expiration_duration: Duration) -> Self {
				Self {
					value_ref: StorageValueRef::<'a>::persistent(key),
					lockable: BlockAndTime::<B> { expiration_block_number_offset, expiration_duration, _phantom: Default::default() },
				}
			}
		}
		#[allow(dead_code)]
		fn _unused<T: Bounded + Saturating>() {}
	}
	/// HTTP answered from the requests the test registered; `status` and `response` of the prepared
	/// request decide the outcome (no response: the deadline is reached)
	pub mod http {
		use super::Timestamp;
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum Error {
			DeadlineReached,
			IoError,
			Unknown,
		}
		#[derive(Debug, Clone, Copy, PartialEq, Eq)]
		pub enum HttpError {
			DeadlineReached,
			IoError,
			Invalid,
		}
		pub struct Request<'a, T = Vec<&'a [u8]>> {
			method: &'static str,
			url: &'a str,
			body: T,
			headers: Vec<(String, String)>,
			deadline: Option<Timestamp>,
		}
		impl<'a, T> Request<'a, T> {
			pub fn post(url: &'a str, body: T) -> Self {
				Request { method: "POST", url, body, headers: vec![], deadline: None }
			}
			pub fn add_header(mut self, n: &str, v: &str) -> Self {
				self.headers.push((n.into(), v.into()));
				self
			}
			pub fn deadline(mut self, d: Timestamp) -> Self {
				self.deadline = Some(d);
				self
			}
		}
		impl<'a, I: AsRef<[u8]>, T: IntoIterator<Item = I>> Request<'a, T> {
			pub fn send(self) -> Result<PendingRequest, HttpError> {
				let body = self.body.into_iter().flat_map(|x| x.as_ref().to_vec()).collect::<Vec<_>>();
				match crate::io::offchain::http(self.method, self.url, &self.headers, &body) {
					Some(p) => Ok(PendingRequest(p)),
					None => Err(HttpError::IoError),
				}
			}
		}
		pub struct PendingRequest(crate::core_::offchain::testing::PendingRequest);
		pub type HttpResult = Result<Response, Error>;
		impl PendingRequest {
			pub fn try_wait(self, _: impl Into<Option<Timestamp>>) -> Result<HttpResult, PendingRequest> {
				match &self.0.response {
					None => Err(self),
					Some(r) => Ok(Ok(Response { code: if self.0.status == 0 { 200 } else { self.0.status }, body: r.clone() })),
				}
			}
			pub fn wait(self) -> HttpResult {
				self.try_wait(None).unwrap_or(Err(Error::DeadlineReached))
			}
		}
		#[derive(Debug, PartialEq, Eq)]
		pub struct Response {
			pub code: u16,
			body: Vec<u8>,
		}
		impl Response {
			pub fn body(&self) -> std::vec::IntoIter<u8> {
				self.body.clone().into_iter()
			}
		}
	}
}
