//deps: sp-runtime
pub use mf::mf_macros::ignored_attr as runtime_version;
pub use mf::runtime::{ApisVec, RuntimeVersion};
#[derive(Debug)]
pub struct NativeVersion {
	pub runtime_version: RuntimeVersion,
	pub can_author_with: std::collections::HashSet<u32>,
}
