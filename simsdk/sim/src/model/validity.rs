//! Which transactions a block may contain, and what including one costs.
use super::*;
use frequency_runtime::{Runtime, UncheckedExtrinsic};
use simsdk::codec::Encode;
use simsdk::frame_support::dispatch::{GetDispatchInfo, Pays};
use simsdk::pallets::transaction_payment as tp;
use simsdk::sp_runtime::generic::Era;
use simsdk::sp_weights::{Weight, WeightToFee};
use simsdk::storage::{self, State};

pub const SPEC_VERSION: u32 = 90;

/// What an extrinsic signs besides its call.
pub struct Chain<'a> {
	pub genesis: crate::chain::Hash,
	/// hash of an ancestor (or the parent) by number
	pub hash_at: &'a dyn Fn(u32) -> Option<crate::chain::Hash>,
	pub state: &'a Arc<State>,
	/// pool: a nonce still to come is fine
	pub pool: bool,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Fee {
	/// at most this many tokens, given back in part when less weight was used
	Tokens(Bal),
	/// between the two
	Range(Bal, Bal),
	Capacity(u64, Bal),
	Free,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Ticket {
	pub payer: Acc,
	pub fee: Fee,
	pub nonce: u32,
	/// the account gets a record by this
	pub record: bool,
}
pub fn is_free(c: &RuntimeCall) -> bool {
	matches!(
		c,
		RuntimeCall::Msa(pallet_msa::Call::revoke_delegation_by_delegator { .. } | pallet_msa::Call::revoke_delegation_by_provider { .. } | pallet_msa::Call::delete_msa_public_key { .. } | pallet_msa::Call::retire_msa { .. }) |
			RuntimeCall::Handles(pallet_handles::Call::retire_handle { .. })
	)
}
/// The weights Capacity fees are computed from: (base, per unit, units, proof size, reads, writes).
pub fn stable_weight(c: &RuntimeCall) -> Option<Weight> {
	use pallet_handles::Call as H;
	use pallet_messages::Call as G;
	use pallet_msa::Call as A;
	use pallet_stateful_storage::types::ItemAction;
	use pallet_stateful_storage::Call as S;
	macro_rules! added {
		($a:expr) => {
			$a.iter().map(|x| if let ItemAction::Add { data } = x { data.len() as u64 } else { 0 }).sum::<u64>()
		};
	}
	let (base, per, units, proof, r, w): (u64, u64, u64, u64, u64, u64) = match c {
		RuntimeCall::Msa(A::create_sponsored_account_with_delegation { add_provider_payload, .. }) => (123_084_817, 138_668, add_provider_payload.schema_ids.len() as u64, 14946, 10, 7),
		RuntimeCall::Msa(A::add_public_key_to_msa { .. }) => (177_629_000, 0, 0, 18396, 8, 7),
		RuntimeCall::Msa(A::grant_delegation { add_provider_payload, .. }) => (115_947_313, 192_710, add_provider_payload.schema_ids.len() as u64, 14946, 8, 4),
		RuntimeCall::Messages(G::add_onchain_message { payload, .. }) => (174_064_230, 1_527, payload.len() as u64, 59148, 4, 1),
		RuntimeCall::Messages(G::add_ipfs_message { .. }) => (159_242_000, 0, 0, 48664, 3, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions { actions, .. }) => (104_137_090, 7_325, added!(actions), 45745, 4, 1),
		RuntimeCall::StatefulStorage(S::upsert_page { payload, .. }) => (32_297_181, 594, payload.len() as u64, 12791, 4, 1),
		RuntimeCall::StatefulStorage(S::delete_page { .. }) => (37_792_000, 0, 0, 13950, 4, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature { payload, .. }) => (158_947_612, 13_664, added!(payload.actions), 45752, 3, 1),
		RuntimeCall::StatefulStorage(S::apply_item_actions_with_signature_v2 { payload, .. }) => (158_947_612, 13_664, added!(payload.actions), 45752, 3, 1),
		RuntimeCall::StatefulStorage(S::upsert_page_with_signature { payload, .. }) => (87_768_259, 6_648, payload.payload.len() as u64, 12724, 3, 1),
		RuntimeCall::StatefulStorage(S::upsert_page_with_signature_v2 { payload, .. }) => (87_768_259, 6_648, payload.payload.len() as u64, 12724, 3, 1),
		RuntimeCall::StatefulStorage(S::delete_page_with_signature { .. } | S::delete_page_with_signature_v2 { .. }) => (90_631_000, 0, 0, 13883, 3, 1),
		RuntimeCall::Handles(H::claim_handle { payload, .. }) => (85_480_476, 107_272, payload.base_handle.len() as u64, 12434, 3, 3),
		RuntimeCall::Handles(H::change_handle { payload, .. }) => (95_748_064, 212_118, payload.base_handle.len() as u64, 12434, 3, 4),
		_ => return None,
	};
	Some(Weight::from_parts(base + per * units + r * 25_000_000 + w * 100_000_000, proof))
}
fn weight_fee(w: Weight) -> Bal {
	<Runtime as tp::Config>::WeightToFee::weight_to_fee(&w)
}
fn length_fee(l: usize) -> Bal {
	<Runtime as tp::Config>::LengthToFee::weight_to_fee(&Weight::from_parts(l as u64, 0))
}
pub fn capacity_fee(calls: &[&RuntimeCall], len: usize) -> Option<Bal> {
	let mut w = Weight::zero();
	for c in calls {
		w = w.saturating_add(stable_weight(c)?);
	}
	let (b, l, w) = capacity_parts(w, len);
	Some(b + l + w)
}
/// base, length and weight fee
pub fn capacity_parts(w: Weight, len: usize) -> (Bal, Bal, Bal) {
	(weight_fee(Weight::from_parts(105_455_000, 0)), length_fee(len), weight_fee(w))
}
/// The token fee, by the fee schedule at that state.
pub fn token_fee(st: &Arc<State>, c: &RuntimeCall, len: usize, tip: Bal) -> Bal {
	let info = c.get_dispatch_info();
	storage::query(st, || tp::Pallet::<Runtime>::compute_fee(len as u32, &info, tip))
}
/// What is inside a transaction paid with Capacity.
pub fn capacity_calls(c: &RuntimeCall) -> Option<Vec<&RuntimeCall>> {
	use pallet_frequency_tx_payment::Call as F;
	match c {
		RuntimeCall::FrequencyTxPayment(F::pay_with_capacity { call }) => Some(vec![call]),
		RuntimeCall::FrequencyTxPayment(F::pay_with_capacity_batch_all { calls }) => Some(calls.iter().collect()),
		_ => None,
	}
}
/// (era, nonce, tip)
pub fn extra(x: &frequency_runtime::SignedExtra) -> (Era, u32, Bal) {
	use simsdk::codec::{Compact, Decode};
	let b = x.encode();
	let mut b = &b[..];
	let e = Era::decode(&mut b).expect("era");
	let n = Compact::<u32>::decode(&mut b).expect("nonce").0;
	let t = Compact::<Bal>::decode(&mut b).expect("tip").0;
	assert!(b.is_empty(), "unknown signed extension data");
	(e, n, t)
}
impl M {
	fn can_pay(&self, who: &Acc, fee: Bal) -> bool {
		let free = self.v.free(who);
		fee == 0 || (free >= fee && free - fee >= ED.max(self.frozen(who)))
	}
	fn exists(&self, a: &Acc) -> bool {
		self.v.bal.acc.get(a).map(|x| x.providers > 0 || x.consumers > 0 || x.sufficients > 0).unwrap_or(false)
	}
	/// May the transaction be included now?
	pub fn admit(&self, xt: &UncheckedExtrinsic, len: usize, ch: &Chain) -> R<Ticket> {
		let call = &xt.function;
		let Some((addr, sig, ex)) = &xt.signature else { return self.admit_unsigned(call, len, ch) };
		let who = address(addr)?;
		let (era, nonce, tip) = extra(ex);
		let birth = match era {
			Era::Immortal => 0,
			Era::Mortal(..) => era.birth(if ch.pool { self.env.n as u64 } else { self.env.n as u64 }) as u32,
		};
		let Some(h) = (ch.hash_at)(birth) else { return no("C18", "the block of its birth is not on this chain") };
		let mut msg = (call, ex, (SPEC_VERSION, 1u32, ch.genesis, h)).encode();
		if msg.len() > 256 {
			msg = simsdk::hashing::blake2_256(&msg).to_vec();
		}
		need(sig.verify(&msg[..], &who), "C18", "not signed by the account for this chain")?;
		let cur = self.v.nonce(&who);
		need(nonce == cur || (ch.pool && nonce > cur), "C18", "not the account's next nonce")?;
		let info = call.get_dispatch_info();
		let free = is_free(call);
		if free != (info.pays_fee == Pays::No) {
			return no("C04", "free of charge without being one of the free calls (or the reverse)")
		}
		if free {
			// the caller will succeed, otherwise it must not be included
			let mut m = self.clone();
			match m.dispatch(&Origin::signed(who.clone()), call) {
				Ok(()) => (),
				Err(Stop::No(w)) => return no("C04", w.text),
				Err(e) => return Err(e),
			}
			need(self.can_pay(&who, tip), "C16", "cannot pay the tip")?;
			let fee = if tip == 0 { Fee::Free } else { Fee::Tokens(tip) };
			return Ok(Ticket { record: self.exists(&who), payer: who, fee, nonce })
		}
		if let Some(calls) = capacity_calls(call) {
			let Some(fee) = capacity_fee(&calls, len) else { return no("C11", "not eligible for Capacity") };
			let a = self.v.bal.acc.get(&who).cloned().unwrap_or_default();
			need(a.free + a.reserved >= ED, "C11", "no token balance")?;
			let msa = self.need_msa(&who, "C11")?;
			let mut m = self.clone();
			m.spend_capacity(msa, fee)?;
			return Ok(Ticket { payer: who, fee: Fee::Capacity(msa, fee), nonce, record: true })
		}
		let fee = token_fee(ch.state, call, len, tip);
		need(self.can_pay(&who, fee), "C16", "cannot pay the fee from tokens that are not held back")?;
		Ok(Ticket { payer: who, fee: Fee::Tokens(fee), nonce, record: true })
	}
	fn admit_unsigned(&self, call: &RuntimeCall, len: usize, ch: &Chain) -> R<Ticket> {
		let RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload }) = call else { return no("C17", "unsigned") };
		let c = &payload.passkey_call;
		use simsdk::pallets::balances::Call as B;
		need(
			matches!(*c.call, RuntimeCall::Balances(B::transfer_keep_alive { .. } | B::transfer_allow_death { .. } | B::transfer_all { .. })),
			"C17",
			"the call is not allowed for passkeys",
		)?;
		need(signed_by(&c.account_ownership_proof, &payload.passkey_public_key, &c.account_id), "C17", "the account did not sign for this passkey")?;
		let cur = self.v.nonce(&c.account_id);
		need(c.account_nonce == cur || (ch.pool && c.account_nonce > cur), "C17", "not the account's next nonce")?;
		// the call's own length is paid for, that of the envelope around it (version, pallet, length) may be
		let own = simsdk::codec::Encode::encode(call).len() - 1;
		let (lo, hi) = (token_fee(ch.state, call, own, 0), token_fee(ch.state, call, len.max(own), 0));
		if !self.can_pay(&c.account_id, lo) {
			return no("C17", "the account cannot pay the fee")
		}
		if !self.can_pay(&c.account_id, hi) {
			return Err(Stop::Maybe("the fee is not exactly known"))
		}
		Ok(Ticket { payer: c.account_id.clone(), fee: Fee::Range(lo, hi), nonce: c.account_nonce, record: true })
	}
	/// Includes the transaction: nonce, fee, call. `paid`: what was finally charged according to the events.
	pub fn include(&mut self, xt: &UncheckedExtrinsic, t: &Ticket, paid: Option<Bal>) -> R {
		if t.record {
			self.bal().acc.entry(t.payer.clone()).or_default().nonce = t.nonce + 1;
		}
		match &t.fee {
			Fee::Free => (),
			Fee::Tokens(f) => {
				// during the call the whole fee is gone
				self.bal().acc.entry(t.payer.clone()).or_default().free -= f;
			},
			Fee::Range(lo, _) => self.bal().acc.entry(t.payer.clone()).or_default().free -= lo,
			Fee::Capacity(m, f) => self.spend_capacity(*m, *f)?,
		}
		let r = match &xt.function {
			RuntimeCall::Passkey(pallet_passkey::Call::proxy { payload }) => {
				let mut o = Origin::signed(payload.passkey_call.account_id.clone());
				o.top = false;
				self.dispatch(&o, &payload.passkey_call.call)
			},
			c => self.dispatch(&Origin::signed(t.payer.clone()), c),
		};
		if let Fee::Tokens(f) = &t.fee {
			let back = f.saturating_sub(paid.unwrap_or(*f));
			self.bal().acc.entry(t.payer.clone()).or_default().free += back;
		}
		r
	}
}
