//ver: 1.4.0
pub use std::{assert_eq, assert_ne};
#[macro_export]
macro_rules! assert_str_eq {
	($($t:tt)*) => { ::core::assert_eq!($($t)*) };
}
