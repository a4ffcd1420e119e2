//! sp-std
pub use std::{
	alloc, any, ascii, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, sync, vec,
};
pub mod collections {
	pub use std::collections::{btree_map, btree_set, vec_deque};
	pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
}
pub mod prelude {
	pub use std::{
		borrow::ToOwned,
		boxed::Box,
		clone::Clone,
		cmp::{Eq, PartialEq, Reverse},
		iter::IntoIterator,
		vec,
		vec::Vec,
	};
}
