//! `sp_std`
pub use std::{alloc, any, borrow, boxed, cell, clone, cmp, convert, default, fmt, hash, iter, marker, mem, num, ops, ptr, rc, result, slice, str, string, sync, time, vec};
pub mod collections {
	pub use std::collections::{btree_map, btree_set, hash_map, vec_deque, BTreeMap, BTreeSet, HashMap, VecDeque};
}
pub mod prelude {
	pub use std::prelude::v1::*;
	pub use std::borrow::ToOwned;
	pub use std::boxed::Box;
	pub use std::vec::Vec;
	pub use std::vec;
}
#[macro_export]
macro_rules! if_std {
	($($c:tt)*) => { $($c)* };
}
