//! The people of the simulation and their keys.
use crate::chain::{Acc, Hash};
const SPEC_VERSION: u32 = 90;
use frequency_runtime::{RuntimeCall, SignedExtra, UncheckedExtrinsic};
use simsdk::codec::{Compact, Decode, Encode};
use simsdk::sp_core::crypto::Pair as _;
use simsdk::sp_core::{ecdsa, ed25519, sr25519};
use simsdk::sp_runtime::generic::Era;
use simsdk::sp_runtime::{MultiAddress, MultiSignature};

pub const N: usize = 16;
pub const SUDO: usize = 15;
/// accounts without tokens
pub const POOR: [usize; 4] = [11, 12, 13, 14];

enum Key {
	Sr(sr25519::Pair),
	Ed(ed25519::Pair),
	Ec(ecdsa::Pair),
}
pub struct User {
	key: Key,
	pub acc: Acc,
	pub public: Vec<u8>,
}
thread_local! {
	static USERS: &'static Vec<User> = Box::leak(Box::new((0..N).map(make).collect()));
}
fn make(i: usize) -> User {
	let seed = format!("//user{}", i);
	match i {
		3 | 10 | 12 => {
			let p = ed25519::Pair::from_string(&seed, None).unwrap();
			let b: [u8; 32] = AsRef::<[u8]>::as_ref(&p.public()).try_into().unwrap();
			User { acc: Acc::from(b), public: b.to_vec(), key: Key::Ed(p) }
		},
		5 | 13 => {
			let p = ecdsa::Pair::from_string(&seed, None).unwrap();
			let b = AsRef::<[u8]>::as_ref(&p.public()).to_vec();
			User { acc: Acc::from(simsdk::hashing::blake2_256(&b)), public: b, key: Key::Ec(p) }
		},
		_ => {
			let p = sr25519::Pair::from_string(&seed, None).unwrap();
			let b: [u8; 32] = AsRef::<[u8]>::as_ref(&p.public()).try_into().unwrap();
			User { acc: Acc::from(b), public: b.to_vec(), key: Key::Sr(p) }
		},
	}
}
pub fn all() -> &'static [User] {
	USERS.with(|u| *u)
}
pub fn acc(i: usize) -> Acc {
	all()[i].acc.clone()
}
pub fn index(a: &Acc) -> Option<usize> {
	all().iter().position(|u| &u.acc == a)
}
pub fn sudo() -> Acc {
	acc(SUDO)
}
pub fn sign(i: usize, m: &[u8]) -> MultiSignature {
	match &all()[i].key {
		Key::Sr(p) => MultiSignature::Sr25519(p.sign(m)),
		Key::Ed(p) => MultiSignature::Ed25519(p.sign(m)),
		Key::Ec(p) => MultiSignature::Ecdsa(p.sign(m)),
	}
}
/// What a wallet signs for a payload.
pub fn sign_payload(i: usize, p: &[u8]) -> MultiSignature {
	sign(i, &[&b"<Bytes>"[..], p, &b"</Bytes>"[..]].concat())
}
pub fn extra(era: Era, nonce: u32, tip: u128) -> SignedExtra {
	let b = (era, Compact(nonce), Compact(tip)).encode();
	SignedExtra::decode(&mut &b[..]).expect("signed extensions")
}
pub fn sign_tx(i: usize, call: RuntimeCall, era: Era, nonce: u32, tip: u128, genesis: Hash, birth: Hash) -> UncheckedExtrinsic {
	let ex = extra(era, nonce, tip);
	let mut m = (&call, &ex, (SPEC_VERSION, 1u32, genesis, birth)).encode();
	if m.len() > 256 {
		m = simsdk::hashing::blake2_256(&m).to_vec();
	}
	UncheckedExtrinsic::new_signed(call, MultiAddress::Id(acc(i)), sign(i, &m), ex)
}
