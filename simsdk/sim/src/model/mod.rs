//! The executable reference: what one transaction may do, written from the documented behaviour of each pallet.
//!
//! It works on decoded views of storage and uses no code of the pallets; the only shared things are the call and payload
//! types (what a transaction says) and the signature scheme of the simulated host.
pub mod capacity;
pub mod gov;
pub mod handles;
pub mod messages;
pub mod msa;
pub mod offices;
pub mod release;
pub mod schemas;
pub mod storage;
pub mod validity;

use crate::chain::Acc;
use crate::view::*;
use frequency_runtime::{ProxyType, RuntimeCall};
use simsdk::codec::Encode;
use simsdk::sp_runtime::traits::Verify;
use simsdk::sp_runtime::{MultiAddress, MultiSignature};
use std::sync::Arc;

pub const ED: Bal = 1_000_000;
pub const DOLLAR: Bal = 100_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Why {
	pub tag: &'static str,
	pub text: &'static str,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Stop {
	No(Why),
	/// the reference does not decide this call
	Maybe(&'static str),
}
pub type R<T = ()> = Result<T, Stop>;
pub fn no<T>(tag: &'static str, text: &'static str) -> R<T> {
	Err(Stop::No(Why { tag, text }))
}
pub fn need(c: bool, tag: &'static str, text: &'static str) -> R {
	if c {
		Ok(())
	} else {
		no(tag, text)
	}
}

#[derive(Clone, Copy, Debug)]
pub struct Env {
	/// number of the block being built
	pub n: u32,
	pub relay: u32,
	pub max_sigs: u32,
	/// place of the transaction in the block, the inherents counted
	pub xt: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Filt {
	Base,
	Proxy(u8),
	NoBatchAll,
}
#[derive(Clone, Debug)]
pub struct Origin {
	/// None: root or none
	pub who: Option<Acc>,
	pub root: bool,
	pub filters: Vec<Filt>,
	/// the call is the transaction itself
	pub top: bool,
	/// the council or the committee speaks
	pub voice: Option<gov::Voice>,
}
impl Origin {
	pub fn signed(a: Acc) -> Self {
		Origin { who: Some(a), root: false, filters: vec![Filt::Base], top: true, voice: None }
	}
	pub fn root() -> Self {
		Origin { who: None, root: true, filters: vec![], top: false, voice: None }
	}
}

#[derive(Clone)]
pub struct M {
	pub v: View,
	pub env: Env,
	/// balances of accounts no longer follow from the calls the reference knows
	pub loose_bal: bool,
	/// findings that this call ran into, if it did succeed: (property, signature)
	pub known: Vec<(&'static str, &'static str)>,
	/// which kinds of calls ran to completion (coverage)
	pub ran: Vec<&'static str>,
	/// signatures that were consumed
	pub used: Vec<Vec<u8>>,
	/// (canonical base, suffix) assigned
	pub suffixed: Vec<(Vec<u8>, u16)>,
	/// schemas created, and in whose name
	pub creators: Vec<(Acc, u16)>,
	/// calls whose effect the reference did not decide were executed: adopt everything
	pub maybe: Option<&'static str>,
}
impl M {
	pub fn new(v: View, env: Env) -> M {
		M {
			v,
			env,
			loose_bal: false,
			known: vec![],
			ran: vec![],
			used: vec![],
			suffixed: vec![],
			creators: vec![],
			maybe: None,
		}
	}
	pub fn msa(&mut self) -> &mut MsaD {
		Arc::make_mut(&mut self.v.msa)
	}
	pub fn del(&mut self) -> &mut DelegD {
		Arc::make_mut(&mut self.v.del)
	}
	pub fn sig(&mut self) -> &mut SigD {
		Arc::make_mut(&mut self.v.sig)
	}
	pub fn cap(&mut self) -> &mut CapD {
		Arc::make_mut(&mut self.v.cap)
	}
	pub fn hand(&mut self) -> &mut HandD {
		Arc::make_mut(&mut self.v.hand)
	}
	pub fn msg(&mut self) -> &mut MsgD {
		Arc::make_mut(&mut self.v.msg)
	}
	pub fn sch(&mut self) -> &mut SchD {
		Arc::make_mut(&mut self.v.sch)
	}
	pub fn stor(&mut self) -> &mut StorD {
		Arc::make_mut(&mut self.v.stor)
	}
	pub fn tr(&mut self) -> &mut TrD {
		Arc::make_mut(&mut self.v.tr)
	}
	pub fn gov(&mut self) -> &mut GovD {
		Arc::make_mut(&mut self.v.gov)
	}
	pub fn bal(&mut self) -> &mut BalD {
		Arc::make_mut(&mut self.v.bal)
	}

	/// Runs a call in its own layer: refused calls leave nothing behind.
	pub fn dispatch(&mut self, o: &Origin, call: &RuntimeCall) -> R {
		self.dispatch_with(o, call, true)
	}
	fn dispatch_with(&mut self, o: &Origin, call: &RuntimeCall, filtered: bool) -> R {
		let save = self.v.clone();
		let (lu, ls) = (self.used.len(), self.suffixed.len());
		let lc = self.creators.len();
		let (lb, lk) = (self.loose_bal, self.known.len());
		let r = self.inner(o, call, filtered);
		match &r {
			Ok(()) => self.ran.push(kind(call)),
			Err(_) => {
				self.v = save;
				self.used.truncate(lu);
				self.suffixed.truncate(ls);
				self.creators.truncate(lc);
				self.loose_bal = lb;
				self.known.truncate(lk);
			},
		}
		r
	}
	fn inner(&mut self, o: &Origin, call: &RuntimeCall, filtered: bool) -> R {
		use frequency_runtime::RuntimeCall as C;
		for f in o.filters.iter().filter(|_| filtered) {
			match f {
				Filt::Base => need(base_allows(call), "C19", "the call is disallowed for users")?,
				Filt::NoBatchAll => need(!matches!(call, C::Utility(simsdk::pallets::utility::Call::batch_all { .. })), "C19", "batch_all inside batch_all")?,
				Filt::Proxy(t) => need(proxy_allows(*t, call), "C19", "the proxy may not make this call")?,
			}
		}
		match call {
			C::Msa(c) => self.msa_call(o, c),
			C::Capacity(c) => self.capacity_call(o, c),
			C::Handles(c) => self.handles_call(o, c),
			C::Messages(c) => self.messages_call(o, c),
			C::Schemas(c) => self.schemas_call(o, c),
			C::StatefulStorage(c) => self.storage_call(o, c),
			C::TimeRelease(c) => self.release_call(o, c),
			C::FrequencyTxPayment(c) => self.payment_call(o, c),
			C::Utility(c) => self.utility_call(o, c),
			C::Proxy(c) => self.proxy_call(o, c),
			C::Sudo(c) => self.sudo_call(o, c),
			C::Balances(c) => self.balances_call(o, c),
			C::Council(c) => self.body_call(o, 0, c),
			C::TechnicalCommittee(c) => self.body_call(o, 1, c),
			C::Treasury(c) => self.treasury_call(o, c),
			C::Scheduler(c) => self.scheduler_call(o, c),
			C::Democracy(c) => self.democracy_call(o, c),
			C::Preimage(c) => self.preimage_call(o, c),
			C::CollatorSelection(c) => self.collator_call(o, c),
			C::Multisig(c) => self.multisig_call(o, c),
			C::Passkey(_) => no("C17", "a passkey call comes without a signature"),
			C::System(c) => match c {
				simsdk::frame_system::Call::remark { .. } | simsdk::frame_system::Call::remark_with_event { .. } => need(o.root || o.who.is_some(), "C19", "needs an origin"),
				_ => Err(Stop::Maybe("system")),
			},
			_ => Err(Stop::Maybe("other pallet")),
		}
	}
	pub fn signed(&self, o: &Origin) -> R<Acc> {
		match &o.who {
			Some(a) => Ok(a.clone()),
			None => no("C19", "needs a signed origin"),
		}
	}
	fn utility_call(&mut self, o: &Origin, c: &simsdk::pallets::utility::Call<frequency_runtime::Runtime>) -> R {
		use simsdk::pallets::utility::Call as U;
		let user = o.root || o.who.is_some() || o.voice.is_some();
		let o = &Origin { top: false, ..o.clone() };
		// root skips the filters of its calls
		match c {
			U::batch { calls } => {
				need(user, "C19", "needs an origin")?;
				need(calls.len() <= 10_000, "C19", "too many calls")?;
				for c in calls {
					match self.dispatch(o, c) {
						Ok(()) => (),
						Err(Stop::No(_)) => break,
						Err(e) => return Err(e),
					}
				}
				Ok(())
			},
			U::force_batch { calls } => {
				need(user, "C19", "needs an origin")?;
				for c in calls {
					match self.dispatch(o, c) {
						Ok(()) | Err(Stop::No(_)) => (),
						Err(e) => return Err(e),
					}
				}
				Ok(())
			},
			U::batch_all { calls } => {
				need(user, "C19", "needs an origin")?;
				let mut o = o.clone();
				if !o.root {
					o.filters.push(Filt::NoBatchAll);
				}
				for c in calls {
					self.dispatch(&o, c)?;
				}
				Ok(())
			},
			U::as_derivative { index, call } => {
				let who = self.signed(o)?;
				let mut d = o.clone();
				d.who = Some(derivative(&who, *index));
				self.dispatch(&d, call)
			},
			_ => Err(Stop::Maybe("utility")),
		}
	}
	fn proxy_call(&mut self, o: &Origin, c: &simsdk::pallets::proxy::Call<frequency_runtime::Runtime>) -> R {
		use simsdk::pallets::proxy::Call as P;
		match c {
			P::proxy { real, force_proxy_type, call } => {
				let who = self.signed(o)?;
				let real = address(real)?;
				let defs = self.v.prox.map.get(&real).cloned().unwrap_or_default();
				let want = force_proxy_type.as_ref().map(|t| t.encode()[0]);
				let Some(d) = defs.iter().find(|d| d.0 == who && want.map(|w| w == d.1).unwrap_or(true)) else {
					return no("C19", "not a proxy of that account")
				};
				need(d.2 == 0, "C19", "the proxy has to announce")?;
				let mut p = Origin::signed(real);
				p.top = false;
				p.filters.push(Filt::Proxy(d.1));
				// `proxy` reports success whatever the call returned
				match self.dispatch(&p, call) {
					Ok(()) | Err(Stop::No(_)) => Ok(()),
					Err(e) => Err(e),
				}
			},
			P::add_proxy { delegate, proxy_type, delay } => {
				let who = self.signed(o)?;
				let d = (address(delegate)?, proxy_type.encode()[0], *delay);
				need(d.0 != who, "C19", "a proxy of oneself")?;
				let l = Arc::make_mut(&mut self.v.prox).map.entry(who).or_default();
				need(!l.contains(&d), "C19", "already a proxy")?;
				need(l.len() < 32, "C19", "too many proxies")?;
				l.push(d);
				l.sort();
				Ok(())
			},
			P::remove_proxy { delegate, proxy_type, delay } => {
				let who = self.signed(o)?;
				let d = (address(delegate)?, proxy_type.encode()[0], *delay);
				let m = &mut Arc::make_mut(&mut self.v.prox).map;
				let Some(l) = m.get_mut(&who) else { return no("C19", "not a proxy") };
				need(l.contains(&d), "C19", "not a proxy")?;
				l.retain(|x| *x != d);
				if l.is_empty() {
					m.remove(&who);
				}
				Ok(())
			},
			P::remove_proxies {} => {
				let who = self.signed(o)?;
				Arc::make_mut(&mut self.v.prox).map.remove(&who);
				Ok(())
			},
			_ => {
				self.signed(o)?;
				no("C19", "no such announcement")
			},
		}
	}
	fn sudo_call(&mut self, o: &Origin, c: &simsdk::pallets::sudo::Call<frequency_runtime::Runtime>) -> R {
		use simsdk::pallets::sudo::Call as S;
		match c {
			S::sudo { call } => {
				let who = self.signed(o)?;
				need(who == crate::users::sudo(), "C19", "only the sudo key")?;
				match self.dispatch(&Origin::root(), call) {
					Ok(()) | Err(Stop::No(_)) => Ok(()),
					Err(e) => Err(e),
				}
			},
			S::sudo_as { who, call } => {
				let sender = self.signed(o)?;
				need(sender == crate::users::sudo(), "C19", "only the sudo key")?;
				let mut a = Origin::signed(address(who)?);
				a.top = false;
				// what the base filter keeps from everybody can be done this way, but the calls inside that call are filtered
				match self.dispatch_with(&a, call, false) {
					Ok(()) | Err(Stop::No(_)) => Ok(()),
					Err(e) => Err(e),
				}
			},
			_ => Err(Stop::Maybe("sudo")),
		}
	}
	fn balances_call(&mut self, o: &Origin, c: &simsdk::pallets::balances::Call<frequency_runtime::Runtime>) -> R {
		use simsdk::pallets::balances::Call as B;
		match c {
			B::transfer_keep_alive { dest, value } => {
				let who = self.signed(o)?;
				let dest = address(dest)?;
				self.pay(&who, &dest, *value, true, "C16")
			},
			_ => Err(Stop::Maybe("balances")),
		}
	}
	/// Moves tokens that are neither frozen nor needed to keep the sender alive.
	pub fn pay(&mut self, from: &Acc, to: &Acc, value: Bal, keep: bool, tag: &'static str) -> R {
		if value == 0 {
			return Ok(())
		}
		let (f, t) = (self.v.free(from), self.v.free(to));
		need(f >= value, tag, "not enough tokens")?;
		need(f - value >= self.frozen(from), tag, "frozen tokens cannot be spent")?;
		if f - value < ED {
			return if keep { no(tag, "would kill the sender") } else { Err(Stop::Maybe("kills the sender")) }
		}
		need(t + value >= ED, tag, "below the existential deposit")?;
		if from == to {
			return Ok(())
		}
		let b = self.bal();
		b.acc.get_mut(from).unwrap().free -= value;
		b.acc.entry(to.clone()).or_default().free += value;
		Ok(())
	}
	pub fn frozen(&self, a: &Acc) -> Bal {
		self.v.bal.freezes.get(a).map(|f| f.values().copied().max().unwrap_or(0)).unwrap_or(0)
	}
	pub fn freeze(&mut self, a: &Acc, reason: (u8, u8), amount: Bal) {
		let b = self.bal();
		if amount == 0 {
			if let Some(m) = b.freezes.get_mut(a) {
				m.remove(&reason);
				if m.is_empty() {
					b.freezes.remove(a);
				}
			}
		} else {
			b.freezes.entry(a.clone()).or_default().insert(reason, amount);
		}
	}
	fn payment_call(&mut self, o: &Origin, c: &pallet_frequency_tx_payment::Call<frequency_runtime::Runtime>) -> R {
		let o = &Origin { top: false, ..o.clone() };
		use pallet_frequency_tx_payment::Call as F;
		match c {
			F::pay_with_capacity { call } => {
				self.signed(o)?;
				self.dispatch(o, call)
			},
			F::pay_with_capacity_batch_all { calls } => {
				self.signed(o)?;
				need(calls.len() <= 10, "C11", "too many calls")?;
				for c in calls {
					self.dispatch(o, c)?;
				}
				Ok(())
			},
			_ => Err(Stop::Maybe("tx payment")),
		}
	}
}
pub fn address(a: &MultiAddress<Acc, ()>) -> R<Acc> {
	match a {
		MultiAddress::Id(x) => Ok(x.clone()),
		_ => no("C19", "unknown kind of address"),
	}
}
pub fn derivative(who: &Acc, i: u16) -> Acc {
	let e = (b"modlpy/utilisuba", who, i).encode();
	Acc::from(simsdk::hashing::blake2_256(&e))
}
pub fn wrapped(p: &[u8]) -> Vec<u8> {
	[&b"<Bytes>"[..], p, b"</Bytes>"].concat()
}
/// A wallet signs payloads wrapped in `<Bytes>`.
pub fn signed_by(sig: &MultiSignature, payload: &[u8], who: &Acc) -> bool {
	sig.verify(&wrapped(payload)[..], who)
}

/// What users may call.
pub fn base_allows(c: &RuntimeCall) -> bool {
	use simsdk::pallets::utility::Call as U;
	use RuntimeCall as C;
	let free = |c: &RuntimeCall| {
		matches!(
			c,
			C::Msa(pallet_msa::Call::revoke_delegation_by_delegator { .. })
				| C::Msa(pallet_msa::Call::revoke_delegation_by_provider { .. })
				| C::Msa(pallet_msa::Call::delete_msa_public_key { .. })
				| C::Msa(pallet_msa::Call::retire_msa { .. })
				| C::Handles(pallet_handles::Call::retire_handle { .. })
		)
	};
	match c {
		C::Msa(pallet_msa::Call::create_provider { .. }) => false,
		C::Schemas(pallet_schemas::Call::create_schema { .. } | pallet_schemas::Call::create_schema_v2 { .. } | pallet_schemas::Call::create_schema_v3 { .. }) => false,
		C::Utility(u) => match u {
			U::batch { calls } | U::batch_all { calls } | U::force_batch { calls } =>
				calls.iter().all(|c| base_allows(c) && !free(c) && !matches!(c, C::Utility(U::batch { .. } | U::batch_all { .. } | U::force_batch { .. }) | C::FrequencyTxPayment(..))),
			_ => true,
		},
		_ => true,
	}
}
pub fn proxy_allows(t: u8, c: &RuntimeCall) -> bool {
	use simsdk::pallets::proxy::Call as P;
	use RuntimeCall as C;
	// a proxy never gains more rights for itself than it has
	let any = ProxyType::Any.encode()[0];
	let (nt, gov, stk, can) = (ProxyType::NonTransfer.encode()[0], ProxyType::Governance.encode()[0], ProxyType::Staking.encode()[0], ProxyType::CancelProxy.encode()[0]);
	if let C::Proxy(P::add_proxy { proxy_type, .. } | P::remove_proxy { proxy_type, .. }) = c {
		let p = proxy_type.encode()[0];
		if !(t == any || t == p) {
			return false
		}
	}
	if let C::Proxy(P::remove_proxies { .. }) = c {
		if t != any {
			return false
		}
	}
	if t == any {
		return true
	}
	if t == nt {
		return matches!(
			c,
			C::Capacity(..)
				| C::CollatorSelection(..)
				| C::Council(..)
				| C::Democracy(..)
				| C::FrequencyTxPayment(..)
				| C::Handles(..)
				| C::Messages(..)
				| C::Msa(..)
				| C::Multisig(..)
				| C::Preimage(..)
				| C::Scheduler(..)
				| C::Schemas(..)
				| C::Session(..)
				| C::StatefulStorage(..)
				| C::TechnicalCommittee(..)
				| C::TimeRelease(pallet_time_release::Call::claim { .. } | pallet_time_release::Call::claim_for { .. })
				| C::Treasury(..)
				| C::Utility(..)
		)
	}
	if t == gov {
		return matches!(c, C::Treasury(..) | C::Democracy(..) | C::TechnicalCommittee(..) | C::Council(..) | C::Utility(..))
	}
	if t == stk {
		return matches!(c, C::Capacity(pallet_capacity::Call::stake { .. }) | C::CollatorSelection(simsdk::pallets::offices::collator_selection::Call::set_candidacy_bond { .. }))
	}
	if t == can {
		return matches!(c, C::Proxy(P::reject_announcement { .. }))
	}
	false
}
/// A short name of a call.
pub fn kind(c: &RuntimeCall) -> &'static str {
	use frequency_runtime::RuntimeCall as C;
	use simsdk::pallets::offices::{collator_selection, democracy, multisig, preimage, scheduler, treasury};
	use simsdk::pallets::{balances, collective, proxy, sudo, utility};
	macro_rules! names {
		($($v:ident, $p:ident : $($n:ident)*;)*) => {{
			$( names!(@ $v $p $($n)*); )*
			"other"
		}};
		(@ $v:ident $p:ident $($n:ident)*) => {
			if let C::$v(x) = c {
				return match x {
					$( $p::Call::$n { .. } => concat!(stringify!($v), ".", stringify!($n)), )*
					_ => concat!(stringify!($v), ".other"),
				}
			}
		};
	}
	names! {
		Msa, pallet_msa: create create_sponsored_account_with_delegation create_provider grant_delegation revoke_delegation_by_delegator add_public_key_to_msa delete_msa_public_key revoke_delegation_by_provider revoke_schema_permissions retire_msa propose_to_be_provider create_provider_via_governance;
		Capacity, pallet_capacity: stake withdraw_unstaked unstake set_epoch_length;
		Handles, pallet_handles: claim_handle retire_handle change_handle;
		Messages, pallet_messages: add_ipfs_message add_onchain_message;
		Schemas, pallet_schemas: create_schema set_max_schema_model_bytes propose_to_create_schema create_schema_via_governance create_schema_v2 propose_to_create_schema_v2 create_schema_via_governance_v2 create_schema_v3 propose_to_create_schema_name create_schema_name_via_governance;
		StatefulStorage, pallet_stateful_storage: apply_item_actions upsert_page delete_page apply_item_actions_with_signature upsert_page_with_signature delete_page_with_signature apply_item_actions_with_signature_v2 upsert_page_with_signature_v2 delete_page_with_signature_v2;
		TimeRelease, pallet_time_release: claim transfer update_release_schedules claim_for;
		FrequencyTxPayment, pallet_frequency_tx_payment: pay_with_capacity pay_with_capacity_batch_all;
		Passkey, pallet_passkey: proxy;
		Utility, utility: batch batch_all force_batch as_derivative;
		Proxy, proxy: proxy add_proxy remove_proxy remove_proxies;
		Sudo, sudo: sudo sudo_as;
		Balances, balances: transfer_keep_alive transfer_allow_death transfer_all;
		Council, collective: propose vote close execute set_members disapprove_proposal;
		TechnicalCommittee, collective: propose vote close execute set_members disapprove_proposal;
		Treasury, treasury: propose_spend reject_proposal approve_proposal spend_local remove_approval;
		Scheduler, scheduler: schedule cancel schedule_named cancel_named schedule_after;
		Democracy, democracy: propose emergency_cancel external_propose external_propose_majority external_propose_default fast_track veto_external cancel_referendum clear_public_proposals blacklist cancel_proposal;
		Preimage, preimage: request_preimage unrequest_preimage;
		CollatorSelection, collator_selection: set_invulnerables set_desired_candidates set_candidacy_bond add_invulnerable remove_invulnerable;
		Multisig, multisig: as_multi_threshold_1 as_multi approve_as_multi cancel_as_multi;
	}
}
