//! Treasury, scheduler, democracy, preimages, collator settings and multisig: who may do what.
use super::gov::{Voice, COUNCIL};
use super::*;
use frequency_runtime::Runtime;
use simsdk::codec::Decode;
use simsdk::frame_support::dispatch::GetDispatchInfo;
use simsdk::hashing::blake2_256;
use simsdk::pallets::offices::{collator_selection, democracy, multisig, preimage, scheduler, treasury};

pub const COMMITTEE: usize = 1;
pub const MAX_TASKS: usize = 50;
const MAX_APPROVALS: usize = 64;
const MAX_PUBLIC: usize = 100;
/// three hours
pub const FAST: u32 = 900;
/// a week
const COOLOFF: u32 = 50_400;
const MAX_INVULNERABLES: usize = 16;
const MAX_SIGNATORIES: usize = 100;

impl M {
	pub fn ext(&mut self) -> &mut ExtD {
		Arc::make_mut(&mut self.v.ext)
	}
	/// Decided by root, or by at least `of.0 / of.1` of a body.
	fn share(&self, o: &Origin, body: usize, of: (u32, u32), text: &'static str) -> R {
		let ok = o.root || matches!(o.voice, Some(Voice::Members(b, n, m)) if b == body && n * of.1 >= of.0 * m);
		need(ok, "C27", text)
	}
	/// Decided by root, or by more than half of the council.
	fn more_than_half(&self, o: &Origin) -> R {
		let ok = o.root || matches!(o.voice, Some(Voice::Members(COUNCIL, n, m)) if 2 * n > m);
		need(ok, "C27", "neither root nor more than half of the council")
	}
	fn only_root(&self, o: &Origin) -> R {
		need(o.root, "C27", "not root")
	}
	pub fn treasury_call(&mut self, o: &Origin, c: &treasury::Call<Runtime>) -> R {
		use treasury::Call as T;
		match c {
			T::propose_spend { value, beneficiary } => {
				let who = self.signed(o)?;
				let e = self.ext();
				e.spends.insert(e.spend_count, (who, *value, beneficiary.clone()));
				e.spend_count += 1;
				Ok(())
			},
			T::reject_proposal { proposal_id } => {
				self.more_than_half(o)?;
				need(self.v.ext.spends.contains_key(proposal_id), "C27", "no such proposal")?;
				self.ext().spends.remove(proposal_id);
				Ok(())
			},
			T::approve_proposal { proposal_id } => {
				self.share(o, COUNCIL, (3, 5), "neither root nor three fifths of the council")?;
				need(self.v.ext.spends.contains_key(proposal_id), "C27", "no such proposal")?;
				need(self.v.ext.approvals.len() < MAX_APPROVALS, "C27", "too many approvals")?;
				self.ext().approvals.push(*proposal_id);
				Ok(())
			},
			T::remove_approval { proposal_id } => {
				self.more_than_half(o)?;
				let Some(i) = self.v.ext.approvals.iter().position(|x| x == proposal_id) else { return no("C27", "not approved") };
				self.ext().approvals.remove(i);
				Ok(())
			},
			T::spend_local { .. } => no("C27", "nobody may spend without a proposal"),
			_ => Err(Stop::Maybe("treasury")),
		}
	}

	fn may_schedule(&self, o: &Origin) -> R<By> {
		self.share(o, COUNCIL, (1, 2), "neither root nor half of the council")?;
		Ok(match &o.voice {
			_ if o.root => By::Root,
			Some(v) => By::Voice(v.clone()),
			None => return Err(Stop::Maybe("who schedules?")),
		})
	}
	fn push(&mut self, when: u32, t: Task) -> R {
		let e = self.ext();
		let l = e.agenda.entry(when).or_default();
		let i = if l.len() < MAX_TASKS {
			l.push(None);
			l.len() - 1
		} else {
			match l.iter().position(|x| x.is_none()) {
				Some(i) => i,
				None => return no("C27", "the agenda is full"),
			}
		};
		if let Some(id) = t.id {
			e.lookup.insert(id, (when, i as u32));
		}
		l[i] = Some(t);
		Ok(())
	}
	fn place(&mut self, by: By, id: Option<[u8; 32]>, when: u32, periodic: Option<(u32, u32)>, prio: u8, call: &RuntimeCall) -> R {
		need(when > self.env.n, "C27", "scheduled for the past")?;
		let periodic = periodic.filter(|p| p.0 > 0 && p.1 > 1).map(|p| (p.0, p.1 - 1));
		self.push(when, Task { id, prio, call: call.encode(), periodic, by })
	}
	fn unplan(&mut self, when: u32, i: u32) -> Option<Task> {
		let e = self.ext();
		let l = e.agenda.get_mut(&when)?;
		let t = l.get_mut(i as usize)?.take()?;
		while matches!(l.last(), Some(None)) {
			l.pop();
		}
		if l.is_empty() {
			e.agenda.remove(&when);
		}
		if let Some(id) = t.id {
			e.lookup.remove(&id);
		}
		Some(t)
	}
	fn cancel(&mut self, by: By, when: u32, i: u32) -> R {
		let t = self.v.ext.agenda.get(&when).and_then(|l| l.get(i as usize)).and_then(|t| t.as_ref());
		let Some(t) = t else { return no("C27", "no such task") };
		need(t.by == by, "C27", "scheduled by another authority")?;
		self.unplan(when, i);
		Ok(())
	}
	pub fn scheduler_call(&mut self, o: &Origin, c: &scheduler::Call<Runtime>) -> R {
		use scheduler::Call as S;
		match c {
			S::schedule { when, maybe_periodic, priority, call } => {
				let by = self.may_schedule(o)?;
				self.place(by, None, *when, *maybe_periodic, *priority, call)
			},
			S::schedule_after { after, maybe_periodic, priority, call } => {
				let by = self.may_schedule(o)?;
				let when = self.env.n.saturating_add(*after).saturating_add(1);
				self.place(by, None, when, *maybe_periodic, *priority, call)
			},
			S::schedule_named { id, when, maybe_periodic, priority, call } => {
				let by = self.may_schedule(o)?;
				need(!self.v.ext.lookup.contains_key(id), "C27", "the name is taken")?;
				self.place(by, Some(*id), *when, *maybe_periodic, *priority, call)
			},
			S::cancel { when, index } => {
				let by = self.may_schedule(o)?;
				self.cancel(by, *when, *index)
			},
			S::cancel_named { id } => {
				let by = self.may_schedule(o)?;
				let Some((when, i)) = self.v.ext.lookup.get(id).copied() else { return no("C27", "no such task") };
				self.cancel(by, when, i)
			},
			_ => Err(Stop::Maybe("scheduler")),
		}
	}
	/// What is due in this block, carried out with the authority that scheduled it.
	pub fn agenda(&mut self) {
		let now = self.env.n;
		let Some(l) = self.v.ext.agenda.get(&now) else { return };
		let mut order: Vec<(u8, u32)> = l.iter().enumerate().filter_map(|(i, t)| t.as_ref().map(|t| (t.prio, i as u32))).collect();
		order.sort();
		for (_, i) in order {
			let Some(mut t) = self.unplan(now, i) else { continue };
			let o = match &t.by {
				By::Root => Origin::root(),
				By::Voice(v) => Origin::voice(v.clone()),
				By::Other(_) => {
					self.maybe = Some("a task of somebody else");
					continue
				},
			};
			match RuntimeCall::decode(&mut &t.call[..]) {
				Ok(call) => match self.dispatch(&o, &call) {
					Err(Stop::Maybe(w)) => self.maybe = Some(w),
					_ => (),
				},
				Err(_) => self.maybe = Some("unreadable task"),
			}
			self.ran.push("a task of the scheduler");
			if let Some((period, count)) = t.periodic {
				t.periodic = (count > 1).then(|| (period, count - 1));
				let _ = self.push(now.saturating_add(period), t);
			}
		}
	}

	fn black(&self, h: &[u8; 32]) -> R {
		need(self.v.ext.black.get(h).map(|b| self.env.n >= b.0).unwrap_or(true), "C27", "the proposal is blacklisted")
	}
	pub fn democracy_call(&mut self, o: &Origin, c: &democracy::Call<Runtime>) -> R {
		use democracy::Call as D;
		match c {
			D::propose { proposal } => {
				let who = self.signed(o)?;
				need(self.v.ext.props.len() < MAX_PUBLIC, "C27", "too many proposals")?;
				self.black(&proposal.0)?;
				let e = self.ext();
				e.props.push((e.prop_count, proposal.0, who));
				e.prop_count += 1;
				Ok(())
			},
			D::emergency_cancel { ref_index } => {
				self.share(o, COUNCIL, (2, 3), "neither root nor two thirds of the council")?;
				let Some(h) = self.v.ext.refs.get(ref_index).map(|r| r.1) else { return no("C27", "no such referendum") };
				need(!self.v.ext.cancelled.contains_key(&h), "C27", "cancelled once already")?;
				let e = self.ext();
				e.cancelled.insert(h, true);
				e.refs.remove(ref_index);
				Ok(())
			},
			D::external_propose { proposal } => {
				self.share(o, COUNCIL, (1, 2), "neither root nor half of the council")?;
				need(self.v.ext.next.is_none(), "C27", "another proposal waits")?;
				self.black(&proposal.0)?;
				self.ext().next = Some((proposal.0, 0));
				Ok(())
			},
			D::external_propose_majority { proposal } => {
				self.more_than_half(o)?;
				self.ext().next = Some((proposal.0, 2));
				Ok(())
			},
			D::external_propose_default { proposal } => {
				self.share(o, COUNCIL, (1, 1), "neither root nor all of the council")?;
				self.ext().next = Some((proposal.0, 1));
				Ok(())
			},
			D::fast_track { proposal_hash, voting_period, delay } => {
				let fast = *voting_period >= FAST && self.share(o, COMMITTEE, (2, 3), "").is_ok();
				if !fast {
					self.share(o, COMMITTEE, (1, 1), "neither root nor enough of the technical committee")?;
				}
				need(*voting_period > 0, "C27", "no time to vote")?;
				let Some((h, t)) = self.v.ext.next else { return no("C27", "no proposal waits") };
				need(t != 0, "C27", "not put by a majority")?;
				need(h == proposal_hash.0, "C27", "another proposal waits")?;
				let end = self.env.n.saturating_add(*voting_period);
				let e = self.ext();
				e.next = None;
				e.refs.insert(e.ref_count, (end, h, t, *delay));
				e.ref_count += 1;
				Ok(())
			},
			D::veto_external { proposal_hash } => {
				let Some(Voice::Member(COMMITTEE, who)) = o.voice.clone() else { return no("C27", "no member of the technical committee") };
				let h = proposal_hash.0;
				need(self.v.ext.next.map(|n| n.0) == Some(h), "C27", "no such proposal waits")?;
				let mut l = self.v.ext.black.get(&h).map(|b| b.1.clone()).unwrap_or_default();
				need(!l.contains(&who), "C27", "vetoed once already")?;
				l.push(who);
				l.sort();
				let until = self.env.n.saturating_add(COOLOFF);
				let e = self.ext();
				e.black.insert(h, (until, l));
				e.next = None;
				Ok(())
			},
			D::cancel_referendum { ref_index } => {
				self.only_root(o)?;
				self.ext().refs.remove(ref_index);
				Ok(())
			},
			D::clear_public_proposals {} => {
				self.only_root(o)?;
				self.ext().props.clear();
				Ok(())
			},
			D::blacklist { proposal_hash, maybe_ref_index } => {
				self.only_root(o)?;
				let h = proposal_hash.0;
				let e = self.ext();
				e.black.insert(h, (u32::MAX, vec![]));
				e.props.retain(|p| p.1 != h);
				if e.next.map(|n| n.0) == Some(h) {
					e.next = None;
				}
				if let Some(i) = maybe_ref_index {
					if e.refs.get(i).map(|r| r.1) == Some(h) {
						e.refs.remove(i);
					}
				}
				Ok(())
			},
			D::cancel_proposal { prop_index } => {
				self.share(o, COMMITTEE, (1, 1), "neither root nor all of the technical committee")?;
				self.ext().props.retain(|p| p.0 != *prop_index);
				Ok(())
			},
			_ => Err(Stop::Maybe("democracy")),
		}
	}
	pub fn preimage_call(&mut self, o: &Origin, c: &preimage::Call<Runtime>) -> R {
		let ok = o.root || matches!(o.voice, Some(Voice::Member(COMMITTEE, _)));
		need(ok, "C27", "neither root nor a member of the technical committee")?;
		match c {
			preimage::Call::request_preimage { hash } => {
				*self.ext().images.entry(hash.0).or_default() += 1;
				Ok(())
			},
			preimage::Call::unrequest_preimage { hash } => {
				let Some(n) = self.v.ext.images.get(&hash.0).copied() else { return no("C27", "not requested") };
				if n == 1 {
					self.ext().images.remove(&hash.0);
				} else {
					self.ext().images.insert(hash.0, n - 1);
				}
				Ok(())
			},
			_ => Err(Stop::Maybe("preimage")),
		}
	}
	pub fn collator_call(&mut self, o: &Origin, c: &collator_selection::Call<Runtime>) -> R {
		use collator_selection::Call as C;
		self.share(o, COUNCIL, (3, 5), "neither root nor three fifths of the council")?;
		match c {
			C::set_invulnerables { new } => {
				need(!new.is_empty(), "C27", "nobody would be left to build blocks")?;
				need(new.len() <= MAX_INVULNERABLES, "C27", "too many")?;
				let mut l = new.clone();
				l.sort();
				l.dedup();
				self.ext().invulnerables = l;
			},
			C::set_desired_candidates { max } => self.ext().desired = *max,
			C::set_candidacy_bond { bond } => self.ext().bond = *bond,
			C::add_invulnerable { who } => {
				need(self.v.ext.invulnerables.len() < MAX_INVULNERABLES, "C27", "too many")?;
				need(!self.v.ext.invulnerables.contains(who), "C27", "one already")?;
				let l = &mut self.ext().invulnerables;
				l.push(who.clone());
				l.sort();
			},
			C::remove_invulnerable { who } => {
				need(self.v.ext.invulnerables.len() > 1, "C27", "nobody would be left to build blocks")?;
				need(self.v.ext.invulnerables.contains(who), "C27", "not one")?;
				self.ext().invulnerables.retain(|x| x != who);
			},
			_ => return Err(Stop::Maybe("collators")),
		}
		Ok(())
	}

	fn together(&self, who: Acc, other: &[Acc]) -> R<Vec<Acc>> {
		need(!other.is_empty(), "C19", "alone")?;
		need(other.len() < MAX_SIGNATORIES, "C19", "too many signatories")?;
		need(other.windows(2).all(|w| w[0] < w[1]), "C19", "signatories out of order")?;
		need(!other.contains(&who), "C19", "the sender twice")?;
		let mut l = other.to_vec();
		l.push(who);
		l.sort();
		Ok(l)
	}
	pub fn multisig_call(&mut self, o: &Origin, c: &multisig::Call<Runtime>) -> R {
		use multisig::Call as S;
		let who = self.signed(o)?;
		match c {
			S::as_multi_threshold_1 { other_signatories, call } => {
				let l = self.together(who, other_signatories)?;
				self.as_account(multi(&l, 1), call)
			},
			S::as_multi { threshold, other_signatories, maybe_timepoint, call, max_weight } => {
				let h = blake2_256(&call.encode());
				let light = call.get_dispatch_info().weight.all_lte(*max_weight);
				self.sign_on(who, *threshold, other_signatories, maybe_timepoint.map(|t| (t.height, t.index)), h, Some((call, light)))
			},
			S::approve_as_multi { threshold, other_signatories, maybe_timepoint, call_hash, .. } =>
				self.sign_on(who, *threshold, other_signatories, maybe_timepoint.map(|t| (t.height, t.index)), *call_hash, None),
			S::cancel_as_multi { threshold, other_signatories, timepoint, call_hash } => {
				need(*threshold >= 2, "C19", "a threshold below two")?;
				let key = (multi(&self.together(who.clone(), other_signatories)?, *threshold), *call_hash);
				let Some(m) = self.v.ext.multi.get(&key) else { return no("C19", "no such multisig") };
				need(m.when == (timepoint.height, timepoint.index), "C19", "another multisig")?;
				need(m.by == who, "C19", "opened by somebody else")?;
				self.ext().multi.remove(&key);
				Ok(())
			},
			_ => Err(Stop::Maybe("multisig")),
		}
	}
	fn as_account(&mut self, id: Acc, call: &RuntimeCall) -> R {
		let mut o = Origin::signed(id);
		o.top = false;
		self.dispatch(&o, call)
	}
	fn sign_on(&mut self, who: Acc, threshold: u16, other: &[Acc], at: Option<(u32, u32)>, h: [u8; 32], call: Option<(&RuntimeCall, bool)>) -> R {
		need(threshold >= 2, "C19", "a threshold below two")?;
		let key = (multi(&self.together(who.clone(), other)?, threshold), h);
		let Some(m) = self.v.ext.multi.get(&key).cloned() else {
			need(at.is_none(), "C19", "no such multisig")?;
			let when = (self.env.n, self.env.xt);
			self.ext().multi.insert(key, Multi { when, by: who.clone(), approvals: vec![who] });
			return Ok(())
		};
		need(at == Some(m.when), "C19", "another multisig")?;
		let new = !m.approvals.contains(&who) && m.approvals.len() < threshold as usize;
		if let Some((call, light)) = call.filter(|_| m.approvals.len() + new as usize >= threshold as usize) {
			need(light, "C19", "heavier than said")?;
			self.ext().multi.remove(&key);
			self.ran.push("a call of several");
			return match self.as_account(key.0, call) {
				Ok(()) | Err(Stop::No(_)) => Ok(()),
				Err(e) => Err(e),
			}
		}
		need(new, "C19", "approved already")?;
		let m = self.ext().multi.get_mut(&key).unwrap();
		m.approvals.push(who);
		m.approvals.sort();
		Ok(())
	}
}
pub fn multi(l: &[Acc], threshold: u16) -> Acc {
	Acc::from(blake2_256(&(b"modlpy/utilisuba", l.to_vec(), threshold).encode()))
}
