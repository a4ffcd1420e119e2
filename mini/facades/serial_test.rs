//ver: 3.0.0
pub use mf::mf_macros::serial;
