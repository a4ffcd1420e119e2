pub use mf::std_::*;
#[macro_export]
macro_rules! if_std { ($($t:tt)*) => { $($t)* }; }
#[macro_export]
macro_rules! map { ($($k:expr => $v:expr),* $(,)?) => {{ let mut m = std::collections::BTreeMap::new(); $(m.insert($k, $v);)* m }}; }
