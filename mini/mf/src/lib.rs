//! What FRAME pallets need of polkadot-sdk to run, reimplemented small. Facade crates re-export the
//! modules under the names the pallets use.
#![allow(clippy::all, unexpected_cfgs)]
extern crate self as mf;
pub mod arith;
pub mod core_;
pub mod hashing;
pub mod io;
pub mod runtime;
pub mod std_;
#[macro_use]
pub mod support;
pub mod weights;
pub use core_::bounded_impl as bounded;
pub use mf_macros::RuntimeDebug;
#[doc(hidden)]
pub use parity_scale_codec as codec;
#[doc(hidden)]
pub use scale_info;
#[doc(hidden)]
pub use serde;
#[doc(hidden)]
pub use log;
#[doc(hidden)]
pub use serde_json;
pub use mf_macros;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Never {}
impl parity_scale_codec::Encode for Never {
	fn encode_to<O: parity_scale_codec::Output + ?Sized>(&self, _: &mut O) {
		match *self {}
	}
}
