pub use mf::weights::*;
