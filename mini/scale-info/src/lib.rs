//! Stand-in for scale-info: the trait is there, the metadata is not.
pub use scale_info_derive::TypeInfo;
pub mod prelude {
	pub use std::{any, borrow, boxed, cmp, collections, fmt, format, hash, marker, mem, num, ops, string, vec};
}
#[derive(Default, Clone, Debug)]
pub struct Type;
#[derive(Default, Clone, Debug)]
pub struct MetaType;
pub fn meta_type<T: ?Sized>() -> MetaType {
	MetaType
}
#[derive(Default, Clone, Debug)]
pub struct Path;
impl Path {
	pub fn new(_: &'static str, _: &'static str) -> Self {
		Path
	}
}
#[derive(Clone, Debug)]
pub struct TypeParameter;
impl TypeParameter {
	pub fn new(_: &'static str, _: Option<MetaType>) -> Self {
		TypeParameter
	}
}
impl Type {
	pub fn builder() -> build::TypeBuilder {
		build::TypeBuilder
	}
}
pub mod build {
	use super::*;
	pub struct TypeBuilder;
	impl TypeBuilder {
		pub fn path(self, _: Path) -> Self {
			self
		}
		pub fn type_params(self, _: impl IntoIterator<Item = TypeParameter>) -> Self {
			self
		}
		pub fn docs(self, _: &[&'static str]) -> Self {
			self
		}
		pub fn composite<F>(self, _: F) -> Type {
			Type
		}
	}
	pub struct Fields;
	pub struct FieldsBuilder;
	impl Fields {
		pub fn unit() -> FieldsBuilder {
			FieldsBuilder
		}
		pub fn named() -> FieldsBuilder {
			FieldsBuilder
		}
		pub fn unnamed() -> FieldsBuilder {
			FieldsBuilder
		}
	}
	pub struct FieldBuilder;
	impl FieldBuilder {
		pub fn ty<T: ?Sized>(self) -> Self {
			self
		}
		pub fn compact<T: ?Sized>(self) -> Self {
			self
		}
		pub fn name(self, _: &'static str) -> Self {
			self
		}
		pub fn type_name(self, _: &'static str) -> Self {
			self
		}
		pub fn docs(self, _: &[&'static str]) -> Self {
			self
		}
	}
	impl FieldsBuilder {
		pub fn field(self, f: impl FnOnce(FieldBuilder) -> FieldBuilder) -> Self {
			f(FieldBuilder);
			self
		}
	}
}
pub trait TypeInfo {
	type Identity: ?Sized;
	fn type_info() -> Type;
}
pub trait StaticTypeInfo: TypeInfo + 'static {}
impl<T: TypeInfo + 'static + ?Sized> StaticTypeInfo for T {}
macro_rules! ti {
	($([$($g:tt)*] $t:ty),* $(,)?) => {$( impl<$($g)*> TypeInfo for $t { type Identity = Self; fn type_info() -> Type { Type } } )*}
}
ti!([] u8, [] u16, [] u32, [] u64, [] u128, [] i8, [] i16, [] i32, [] i64, [] i128, [] bool, [] char, [] String, [] str, [] (), [] core::convert::Infallible,
	[T] Vec<T>, [T] Option<T>, [T, E] Result<T, E>, [T: ?Sized] Box<T>, [T: ?Sized] std::sync::Arc<T>, [T: ?Sized] std::rc::Rc<T>, [T: ?Sized] std::marker::PhantomData<T>, ['a, T: ?Sized] &'a T,
	[T] [T], [T, const N: usize] [T; N], [K, V] std::collections::BTreeMap<K, V>, [K] std::collections::BTreeSet<K>, [K] std::collections::VecDeque<K>,
	[A] (A,), [A, B] (A, B), [A, B, C] (A, B, C), [A, B, C, D] (A, B, C, D), [A, B, C, D, E] (A, B, C, D, E), [A, B, C, D, E, F] (A, B, C, D, E, F),
	[A, B, C, D, E, F, G] (A, B, C, D, E, F, G), [A, B, C, D, E, F, G, H] (A, B, C, D, E, F, G, H), [A, B, C, D, E, F, G, H, I] (A, B, C, D, E, F, G, H, I),
	[A, B, C, D, E, F, G, H, I, J] (A, B, C, D, E, F, G, H, I, J), [A, B, C, D, E, F, G, H, I, J, K] (A, B, C, D, E, F, G, H, I, J, K), [A, B, C, D, E, F, G, H, I, J, K, L] (A, B, C, D, E, F, G, H, I, J, K, L));
