//! frame_support
pub mod dispatch;
pub mod storage;
pub mod traits;
pub use storage::{
	Blake2_128, Blake2_128Concat, Blake2_256, Hashable, Identity, ReversibleStorageHasher, StorageHasher, Twox128, Twox256, Twox64Concat,
};
pub use storage::{child, unhashed};
pub use traits::Parameter;
pub use crate::core_::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedSlice, BoundedVec, WeakBoundedVec};
pub use crate::core_::RuntimeDebug;
pub fn print<T>(_: T) {}
pub mod error {
	pub use crate::runtime::traits::{BadOrigin, LookupError};
}
pub mod unsigned {
	pub use crate::runtime::traits::ValidateUnsigned;
	pub use crate::runtime::transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidity, TransactionValidityError, UnknownTransaction};
}
pub mod inherent {
	pub struct InherentData;
}
pub mod instances {}
#[derive(Clone, Copy, Eq, PartialEq, Debug, parity_scale_codec::Encode, parity_scale_codec::Decode, scale_info::TypeInfo, parity_scale_codec::MaxEncodedLen)]
pub struct PalletId(pub [u8; 8]);
impl traits::TypeId for PalletId {
	const TYPE_ID: [u8; 4] = *b"modl";
}
pub fn storage_root(v: crate::core_::storage::StateVersion) -> [u8; 32] {
	crate::io::storage::root(v).try_into().unwrap()
}
/// what `use frame_support::pallet_prelude::*` brings into scope (macros are added by the facade)
pub mod pallet_prelude {
	pub use super::storage;
	pub use super::dispatch::{DispatchClass, DispatchError, DispatchResult, DispatchResultWithPostInfo, Pays};
	pub use crate::runtime::traits::{CheckedAdd, CheckedConversion, CheckedDiv, CheckedMul, CheckedSub, One, Zero};
	pub use super::traits::{ConstBool, OriginTrait, PalletInfoAccess};
	pub use super::storage::types::{CountedStorageMap, Key as NMapKey, OptionQuery, StorageDoubleMap, StorageMap, StorageNMap, StorageValue, ValueQuery};
	pub use super::traits::{
		BuildGenesisConfig, ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, EnsureOrigin, Get, GetDefault, GetStorageVersion, Hooks, IsType, Parameter, StorageInstance,
		StorageVersion, TypedGet,
	};
	pub use super::storage::{Blake2_128, Blake2_128Concat, Blake2_256, Identity, StorageHasher, Twox128, Twox256, Twox64Concat};
	pub use crate::runtime::traits::{MaybeSerializeDeserialize, Member, ValidateUnsigned};
	pub use crate::runtime::transaction_validity::{
		InvalidTransaction, TransactionLongevity, TransactionPriority, TransactionSource, TransactionTag, TransactionValidity, TransactionValidityError, UnknownTransaction, ValidTransaction,
	};
	pub use crate::core_::bounded::{BoundedBTreeMap, BoundedBTreeSet, BoundedVec, WeakBoundedVec};
	pub use crate::weights::Weight;
	pub use parity_scale_codec::{self, Decode, Encode, MaxEncodedLen};
	pub use crate::core_::RuntimeDebug;
	pub use scale_info::TypeInfo;
	pub use std::marker::PhantomData;
}
#[macro_export]
macro_rules! ensure {
	($x:expr, $y:expr $(,)?) => {{
		if !$x {
			$crate::fail!($y);
		}
	}};
}
/// in a test build, a place believed to be unreachable that is reached is a panic
#[macro_export]
macro_rules! defensive {
	() => { $crate::support::traits::defensive_failure("defensive!") };
	($e:expr $(,)?) => { $crate::support::traits::defensive_failure(&format!("{:?}", $e)) };
	($e:expr, $p:expr $(,)?) => { $crate::support::traits::defensive_failure(&format!("{:?}: {:?}", $e, $p)) };
}
#[macro_export]
macro_rules! defensive_assert {
	($c:expr $(, $p:expr)* $(,)?) => {
		if !$c {
			$crate::support::traits::defensive_failure(stringify!($c))
		}
	};
}
#[macro_export]
macro_rules! ord_parameter_types {
	($($(#[$a:meta])* $v:vis const $n:ident: $t:ty = $e:expr;)*) => {
		$crate::parameter_types! { $($(#[$a])* $v const $n: $t = $e;)* }
		$(impl $crate::support::traits::SortedMembers<$t> for $n {
			fn contains(t: &$t) -> bool { &$e == t }
			fn sorted_members() -> Vec<$t> { vec![$e] }
		})*
	};
}
#[macro_export]
macro_rules! bounded_vec {
	($($x:expr),* $(,)?) => { $crate::core_::bounded::BoundedVec::try_from(vec![$($x),*]).unwrap() };
	($x:expr; $n:expr) => { $crate::core_::bounded::BoundedVec::try_from(vec![$x; $n]).unwrap() };
}
#[macro_export]
macro_rules! fail {
	($y:expr $(,)?) => {{
		return Err($y.into())
	}};
}
#[macro_export]
macro_rules! assert_ok {
	($x:expr $(,)?) => {
		let is = $x;
		match is {
			Ok(_) => (),
			_ => assert!(false, "Expected Ok(_). Got {:#?}", is),
		}
	};
	($x:expr, $y:expr $(,)?) => {
		assert_eq!($x, Ok($y));
	};
}
#[macro_export]
macro_rules! assert_err {
	($x:expr , $y:expr $(,)?) => {
		assert_eq!($x, Err($y.into()));
	};
}
#[macro_export]
macro_rules! assert_err_ignore_postinfo {
	($x:expr , $y:expr $(,)?) => {
		$crate::assert_err!($x.map(|_| ()).map_err(|e| e.error), $y);
	};
}
#[macro_export]
macro_rules! assert_noop {
	($x:expr , $y:expr $(,)?) => {
		let h = $crate::support::storage_root($crate::core_::storage::StateVersion::V1);
		$crate::assert_err!($x, $y);
		assert_eq!(h, $crate::support::storage_root($crate::core_::storage::StateVersion::V1), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! assert_storage_noop {
	($x:expr) => {
		let h = $crate::support::storage_root($crate::core_::storage::StateVersion::V1);
		$x;
		assert_eq!(h, $crate::support::storage_root($crate::core_::storage::StateVersion::V1), "storage has been mutated");
	};
}
#[macro_export]
macro_rules! parameter_types {
	($(#[$a:meta])* $v:vis const $n:ident: $t:ty = $e:expr; $($r:tt)*) => {
		$(#[$a])* $v struct $n;
		#[allow(dead_code)]
		impl $n { pub const fn get() -> $t { $e } }
		impl<I: From<$t>> $crate::support::traits::Get<I> for $n { fn get() -> I { I::from(Self::get()) } }
		impl $crate::support::traits::TypedGet for $n { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($r)*);
	};
	($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr; $($r:tt)*) => {
		$crate::mf_macros::mf_static_parameter!($(#[$a])* $v static $n: $t = $e;);
		$crate::parameter_types!($($r)*);
	};
	($(#[$a:meta])* $v:vis storage $n:ident: $t:ty = $e:expr; $($r:tt)*) => { compile_error!("storage parameters are not supported"); };
	($(#[$a:meta])* $v:vis $n:ident: $t:ty = $e:expr; $($r:tt)*) => {
		$(#[$a])* $v struct $n;
		#[allow(dead_code)]
		impl $n { pub fn get() -> $t { $e } }
		impl<I: From<$t>> $crate::support::traits::Get<I> for $n { fn get() -> I { I::from(Self::get()) } }
		impl $crate::support::traits::TypedGet for $n { type Type = $t; fn get() -> $t { Self::get() } }
		$crate::parameter_types!($($r)*);
	};
	() => {};
}
