//! Motions of the council and the technical committee, and who decides what.
use super::*;
use frequency_runtime::Runtime;
use simsdk::codec::{Decode, Encode};
use simsdk::frame_support::dispatch::GetDispatchInfo;
use simsdk::hashing::blake2_256;
use simsdk::pallets::collective::Call as G;

pub const COUNCIL: usize = 0;
pub const MAX_OPEN: usize = 25;
pub const VOTING_TIME: u32 = 36_000;
/// half of a block
const MOST: (u64, u64) = (250_000_000_000, 2_621_440);

/// An origin that speaks for a body.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Voice {
	/// (body, so many, of so many seats)
	Members(usize, u32, u32),
	Member(usize, Acc),
}
/// A simple majority of the council.
pub fn majority(seats: usize) -> u32 {
	(seats / 2 + 1) as u32
}
impl Origin {
	pub fn voice(v: Voice) -> Self {
		Origin { who: None, root: false, filters: vec![Filt::Base], top: false, voice: Some(v) }
	}
}
impl M {
	/// Decided by root, or by at least so many council members.
	pub fn any_council(&self, o: &Origin, least: u32) -> R {
		let ok = o.root || matches!(o.voice, Some(Voice::Members(COUNCIL, n, _)) if n >= least);
		need(ok, "C26", "decided neither by root nor by the council")
	}
	/// Decided by root, or by more than half of the council.
	pub fn most_of_council(&self, o: &Origin) -> R {
		let ok = o.root || matches!(o.voice, Some(Voice::Members(COUNCIL, n, m)) if 2 * n > m);
		need(ok, "C26", "decided neither by root nor by a majority of the council")
	}
	/// A motion that waits for votes.
	pub fn motion(&mut self, b: usize, threshold: u32, call: &RuntimeCall) -> R {
		let w = call.get_dispatch_info().weight;
		if w.ref_time() > MOST.0 || w.proof_size() > MOST.1 {
			return Err(Stop::Maybe("a heavy motion"))
		}
		let bytes = call.encode();
		let h = blake2_256(&bytes);
		let end = self.env.n + VOTING_TIME;
		let body = &mut self.gov().body[b];
		need(!body.calls.contains_key(&h), "C26", "the motion is open already")?;
		need(body.open.len() < MAX_OPEN, "C26", "too many open motions")?;
		body.open.push(h);
		body.calls.insert(h, bytes);
		body.votes.insert(h, Votes { index: body.count, threshold, ayes: vec![], nays: vec![], end });
		body.count += 1;
		Ok(())
	}
	fn carry_out(&mut self, v: Voice, call: &RuntimeCall) -> R {
		match self.dispatch(&Origin::voice(v), call) {
			Ok(()) | Err(Stop::No(_)) => Ok(()),
			Err(e) => Err(e),
		}
	}
	fn drop_motion(&mut self, b: usize, h: &[u8; 32]) {
		let body = &mut self.gov().body[b];
		body.open.retain(|x| x != h);
		body.calls.remove(h);
		body.votes.remove(h);
	}
	pub fn body_call<I: Copy + 'static>(&mut self, o: &Origin, b: usize, c: &G<Runtime, I>) -> R
	where
		Runtime: simsdk::pallets::collective::Config<I, Proposal = RuntimeCall>,
	{
		let member = |m: &M| -> R<Acc> {
			let who = m.signed(o)?;
			need(m.v.gov.body[b].members.contains(&who), "C26", "not a member")?;
			Ok(who)
		};
		let seats = self.v.gov.body[b].members.len() as u32;
		match c {
			G::set_members { new_members, prime, .. } => {
				need(o.root, "C26", "only root")?;
				need(prime.as_ref().map(|p| new_members.contains(p)).unwrap_or(true), "C26", "the prime is no member")?;
				let body = &mut self.gov().body[b];
				for v in body.votes.values_mut() {
					v.ayes.retain(|a| new_members.contains(a));
					v.nays.retain(|a| new_members.contains(a));
				}
				body.members = new_members.clone();
				body.members.sort();
				body.prime = prime.clone();
				Ok(())
			},
			G::execute { proposal, length_bound } => {
				let who = member(self)?;
				need(proposal.encode().len() <= *length_bound as usize, "C26", "longer than said")?;
				self.carry_out(Voice::Member(b, who), proposal)
			},
			G::propose { threshold, proposal, length_bound } => {
				member(self)?;
				need(proposal.encode().len() <= *length_bound as usize, "C26", "longer than said")?;
				if *threshold < 2 {
					return self.carry_out(Voice::Members(b, 1, seats), proposal)
				}
				self.motion(b, *threshold, proposal)
			},
			G::vote { proposal, index, approve } => {
				let who = member(self)?;
				let Some(v) = self.gov().body[b].votes.get_mut(&proposal.0) else { return no("C26", "no such motion") };
				need(v.index == *index, "C26", "another motion")?;
				need(!(if *approve { &v.ayes } else { &v.nays }).contains(&who), "C26", "voted so already")?;
				v.ayes.retain(|a| *a != who);
				v.nays.retain(|a| *a != who);
				(if *approve { &mut v.ayes } else { &mut v.nays }).push(who);
				Ok(())
			},
			G::disapprove_proposal { proposal_hash } => {
				need(o.root, "C26", "only root")?;
				self.drop_motion(b, &proposal_hash.0);
				Ok(())
			},
			G::close { proposal_hash, index, proposal_weight_bound, length_bound } => {
				self.signed(o)?;
				let body = &self.v.gov.body[b];
				let Some(v) = body.votes.get(&proposal_hash.0).cloned() else { return no("C26", "no such motion") };
				need(v.index == *index, "C26", "another motion")?;
				let (mut yes, nays) = (v.ayes.len() as u32, v.nays.len() as u32);
				if yes < v.threshold && seats.saturating_sub(nays) >= v.threshold {
					need(self.env.n >= v.end, "C26", "neither accepted nor rejected so far")?;
					// who kept silent follows the prime
					if body.prime.as_ref().map(|p| v.ayes.contains(p)).unwrap_or(false) {
						yes = seats - nays;
					}
				}
				if yes >= v.threshold {
					let Some(bytes) = body.calls.get(&proposal_hash.0).cloned() else { return no("C26", "no such motion") };
					let Ok(call) = RuntimeCall::decode(&mut &bytes[..]) else { return Err(Stop::Maybe("unreadable motion")) };
					need(bytes.len() <= *length_bound as usize, "C26", "longer than said")?;
					need(call.get_dispatch_info().weight.all_lte(*proposal_weight_bound), "C26", "heavier than said")?;
					self.carry_out(Voice::Members(b, yes, seats), &call)?;
				}
				self.drop_motion(b, &proposal_hash.0);
				Ok(())
			},
			_ => Err(Stop::Maybe("collective")),
		}
	}
}
