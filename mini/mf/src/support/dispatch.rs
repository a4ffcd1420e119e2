//! frame_support::dispatch
pub use crate::runtime::traits::{Dispatchable, BadOrigin};
pub use crate::runtime::{DispatchError, DispatchErrorWithPostInfo as GenericErrorWithPostInfo};
pub use super::traits::{CallMetadata, GetCallIndex, GetCallMetadata, GetCallName, UnfilteredDispatchable};
pub use crate::weights::Weight;
pub use parity_scale_codec::{Codec, Decode, Encode, EncodeLike, HasCompact, Input, MaxEncodedLen, Output};
pub use scale_info::TypeInfo;
pub use super::traits::Parameter;

pub type DispatchErrorWithPostInfo = GenericErrorWithPostInfo<PostDispatchInfo>;
pub type DispatchResult = Result<(), DispatchError>;
pub type DispatchResultWithPostInfo = Result<PostDispatchInfo, DispatchErrorWithPostInfo>;

#[derive(PartialEq, Eq, Clone, Encode, Decode, Debug, TypeInfo, MaxEncodedLen, Copy)]
pub enum RawOrigin<AccountId> {
	Root,
	Signed(AccountId),
	None,
}
impl<A> From<Option<A>> for RawOrigin<A> {
	fn from(s: Option<A>) -> Self {
		match s {
			Some(w) => RawOrigin::Signed(w),
			None => RawOrigin::None,
		}
	}
}
impl<A> RawOrigin<A> {
	pub fn as_signed(&self) -> Option<&A> {
		match self {
			RawOrigin::Signed(x) => Some(x),
			_ => None,
		}
	}
}
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug, Encode, Decode, TypeInfo)]
pub enum Pays {
	#[default]
	Yes,
	No,
}
#[derive(Clone, Copy, Default, PartialEq, Eq, Debug, Encode, Decode, TypeInfo, PartialOrd, Ord)]
pub enum DispatchClass {
	#[default]
	Normal,
	Operational,
	Mandatory,
}
impl DispatchClass {
	pub fn all() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]
	}
	pub fn non_mandatory() -> &'static [DispatchClass] {
		&[DispatchClass::Normal, DispatchClass::Operational]
	}
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct DispatchInfo {
	pub weight: Weight,
	pub class: DispatchClass,
	pub pays_fee: Pays,
}
pub trait GetDispatchInfo {
	fn get_dispatch_info(&self) -> DispatchInfo;
}
#[derive(Clone, Copy, Eq, PartialEq, Default, Debug, Encode, Decode, TypeInfo)]
pub struct PostDispatchInfo {
	pub actual_weight: Option<Weight>,
	pub pays_fee: Pays,
}
impl PostDispatchInfo {
	pub fn calc_unspent(&self, i: &DispatchInfo) -> Weight {
		i.weight - self.calc_actual_weight(i)
	}
	pub fn calc_actual_weight(&self, i: &DispatchInfo) -> Weight {
		self.actual_weight.map_or(i.weight, |w| w.min(i.weight))
	}
	pub fn pays_fee(&self, i: &DispatchInfo) -> Pays {
		if i.pays_fee == Pays::No || self.pays_fee == Pays::No {
			Pays::No
		} else {
			Pays::Yes
		}
	}
}
impl crate::runtime::traits::Printable for PostDispatchInfo {
	fn print(&self) {}
}
impl From<()> for PostDispatchInfo {
	fn from(_: ()) -> Self {
		Self::default()
	}
}
impl From<Option<Weight>> for PostDispatchInfo {
	fn from(w: Option<Weight>) -> Self {
		Self { actual_weight: w, pays_fee: Default::default() }
	}
}
impl From<Pays> for PostDispatchInfo {
	fn from(p: Pays) -> Self {
		Self { actual_weight: None, pays_fee: p }
	}
}
impl From<(Option<Weight>, Pays)> for PostDispatchInfo {
	fn from((actual_weight, pays_fee): (Option<Weight>, Pays)) -> Self {
		Self { actual_weight, pays_fee }
	}
}
pub trait WithPostDispatchInfo {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo;
}
impl<T: Into<DispatchError>> WithPostDispatchInfo for T {
	fn with_weight(self, w: Weight) -> DispatchErrorWithPostInfo {
		DispatchErrorWithPostInfo { post_info: PostDispatchInfo { actual_weight: Some(w), pays_fee: Default::default() }, error: self.into() }
	}
}
/// what `#[pallet::weight(...)]` may hold
pub trait IntoDispatchInfo {
	fn into_dispatch_info(self) -> DispatchInfo;
}
impl IntoDispatchInfo for Weight {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self, ..Default::default() }
	}
}
impl IntoDispatchInfo for u64 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for i32 {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: Weight::from_parts(self as u64, 0), ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, pays_fee: self.1, ..Default::default() }
	}
}
impl IntoDispatchInfo for (Weight, DispatchClass, Pays) {
	fn into_dispatch_info(self) -> DispatchInfo {
		DispatchInfo { weight: self.0, class: self.1, pays_fee: self.2 }
	}
}
pub fn extract_actual_weight(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Weight {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.calc_actual_weight(i)
}
pub fn extract_actual_pays_fee(r: &DispatchResultWithPostInfo, i: &DispatchInfo) -> Pays {
	match r {
		Ok(p) => p,
		Err(e) => &e.post_info,
	}
	.pays_fee(i)
}
