//deps: sp-runtime serde
extern crate self as frame_support;
pub use mf as __mf;
pub use mf::support::*;
pub use mf::{bounded_vec, defensive, defensive_assert, ord_parameter_types};
pub use mf::mf_macros::{require_transactional, transactional};
pub use mf::{assert_err, assert_err_ignore_postinfo, assert_noop, assert_ok, assert_storage_noop, ensure, fail, parameter_types};
pub use mf::mf_macros::{construct_runtime, pallet, storage_alias, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
pub use mf::mf_macros::RuntimeDebug;
pub use mf::codec;
pub use mf::core_::storage::StateVersion;
pub use sp_runtime;
pub use mf::weights;
pub use mf::std_ as sp_std;
pub use mf::io as sp_io;
pub use mf::core_ as sp_core;
pub use mf::hashing;
pub use serde;
pub use mf::log;
pub use mf::scale_info;
pub mod pallet_prelude {
	pub use mf::support::pallet_prelude::*;
	pub use mf::{defensive, defensive_assert};
	pub use mf::{assert_err, assert_noop, assert_ok, ensure, fail};
	pub use mf::mf_macros::{pallet, CloneNoBound, DebugNoBound, DefaultNoBound, EqNoBound, PartialEqNoBound, RuntimeDebugNoBound};
	pub use mf::mf_macros::ignored_attr as inject_config;
	pub use mf::mf_macros::ignored_attr as disable_frame_system_supertrait_check;
}
pub mod migrations {
	pub use mf::support::traits::OnRuntimeUpgrade;
}
pub mod genesis_builder_helper {
	pub fn build_config() {}
	pub fn create_default_config() {}
}
