//! Storage hashers.
use crate::codec::{Codec, Encode, MaxEncodedLen};
use crate::hashing::*;

pub trait StorageHasher: 'static {
	type Output: AsRef<[u8]>;
	fn hash(x: &[u8]) -> Self::Output;
	fn max_len<K: MaxEncodedLen>() -> usize {
		0
	}
}
pub trait ReversibleStorageHasher: StorageHasher {
	fn reverse(x: &[u8]) -> &[u8];
}
/// Length of the hash part, used by iteration for hashers that keep the key.
macro_rules! opaque {
	($($n:ident $f:ident $len:expr),*) => { $(
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n { type Output = [u8; $len]; fn hash(x: &[u8]) -> [u8; $len] { $f(x) } }
	)* }
}
opaque!(Twox128 twox_128 16, Twox256 twox_256 32, Blake2_128 blake2_128 16, Blake2_256 blake2_256 32);
macro_rules! concat {
	($($n:ident $f:ident $len:expr),*) => { $(
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct $n;
		impl StorageHasher for $n {
			type Output = Vec<u8>;
			fn hash(x: &[u8]) -> Vec<u8> { let mut v = $f(x).to_vec(); v.extend_from_slice(x); v }
		}
		impl ReversibleStorageHasher for $n { fn reverse(x: &[u8]) -> &[u8] { if x.len() < $len { &[] } else { &x[$len..] } } }
	)* }
}
concat!(Twox64Concat twox_64 8, Blake2_128Concat blake2_128 16);
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Identity;
impl StorageHasher for Identity {
	type Output = Vec<u8>;
	fn hash(x: &[u8]) -> Vec<u8> {
		x.to_vec()
	}
}
impl ReversibleStorageHasher for Identity {
	fn reverse(x: &[u8]) -> &[u8] {
		x
	}
}

pub trait Hashable: Sized {
	fn blake2_128(&self) -> [u8; 16];
	fn blake2_256(&self) -> [u8; 32];
	fn blake2_128_concat(&self) -> Vec<u8>;
	fn twox_128(&self) -> [u8; 16];
	fn twox_256(&self) -> [u8; 32];
	fn twox_64_concat(&self) -> Vec<u8>;
	fn identity(&self) -> Vec<u8>;
}
impl<T: Codec> Hashable for T {
	fn blake2_128(&self) -> [u8; 16] {
		self.using_encoded(blake2_128)
	}
	fn blake2_256(&self) -> [u8; 32] {
		self.using_encoded(blake2_256)
	}
	fn blake2_128_concat(&self) -> Vec<u8> {
		self.using_encoded(Blake2_128Concat::hash)
	}
	fn twox_128(&self) -> [u8; 16] {
		self.using_encoded(twox_128)
	}
	fn twox_256(&self) -> [u8; 32] {
		self.using_encoded(twox_256)
	}
	fn twox_64_concat(&self) -> Vec<u8> {
		self.using_encoded(Twox64Concat::hash)
	}
	fn identity(&self) -> Vec<u8> {
		self.encode()
	}
}
