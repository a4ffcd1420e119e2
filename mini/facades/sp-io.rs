pub use mf::io::*;
