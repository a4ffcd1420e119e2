pub use mf::core_::*;
