//! Staking and Capacity.
use super::*;
use frequency_runtime::Runtime;
use pallet_capacity::Call as C;
use simsdk::sp_runtime::Perbill;

pub const MIN_STAKE: Bal = ED;
pub const THAW: u32 = 30;
pub const MAX_CHUNKS: usize = 4;
pub const MAX_EPOCH_LEN: u32 = 7200;
pub const DEFAULT_EPOCH_LEN: u32 = 7200;
/// the freeze reason of the Capacity pallet
pub const FREEZE: (u8, u8) = (64, 0);

pub fn issued_for(amount: Bal) -> Bal {
	Perbill::from_percent(2) * amount
}

impl M {
	pub fn chunks(&self, a: &Acc) -> Bal {
		self.v.cap.unlocks.get(a).map(|c| c.iter().map(|x| x.0).sum()).unwrap_or(0)
	}
	pub fn active(&self, a: &Acc) -> Bal {
		self.v.cap.ledger.get(a).map(|x| x.0).unwrap_or(0)
	}
	/// What `on_initialize` does.
	pub fn begin_block(&mut self) {
		self.agenda();
		let len = self.v.cap.epoch_len.unwrap_or(DEFAULT_EPOCH_LEN);
		let n = self.env.n;
		if n.saturating_sub(self.v.cap.epoch_start) >= len {
			let c = self.cap();
			c.epoch += 1;
			c.epoch_start = n;
		}
	}
	pub fn capacity_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		match c {
			C::stake { target, amount } => {
				let who = self.signed(o)?;
				need(*amount > 0, "C09", "stake of nothing")?;
				need(self.v.del.prov.contains_key(target), "C09", "target is no provider")?;
				let held = self.active(&who) + self.chunks(&who);
				let amount = (*amount).min(self.v.free(&who).saturating_sub(DOLLAR).saturating_sub(held));
				need(amount > 0, "C09", "not enough tokens to stake")?;
				let active = self.active(&who) + amount;
				need(active >= MIN_STAKE, "C09", "stake below the minimum")?;
				let cap = issued_for(amount);
				let held = active + self.chunks(&who);
				let d = self.cap();
				let t = d.ledger.get(&who).map(|x| x.1).unwrap_or(0);
				d.ledger.insert(who.clone(), (active, t));
				let e = d.target.entry((who.clone(), *target)).or_insert((0, 0));
				e.0 += amount;
				e.1 += cap;
				let e = d.cap.entry(*target).or_default();
				e.staked += amount;
				e.issued += cap;
				e.remaining += cap;
				self.freeze(&who, FREEZE, held);
				Ok(())
			},
			C::unstake { target, requested_amount } => {
				let who = self.signed(o)?;
				let amount = *requested_amount;
				need(amount > 0, "C09", "unstake of nothing")?;
				let Some((active, ty)) = self.v.cap.ledger.get(&who).copied() else { return no("C09", "nothing staked") };
				need(amount <= active, "C09", "more than staked")?;
				let amount = if active - amount <= MIN_STAKE { active } else { amount };
				let Some((staked, cap)) = self.v.cap.target.get(&(who.clone(), *target)).copied() else { return no("C09", "nothing staked on the target") };
				need(amount <= staked, "C09", "more than staked on the target")?;
				let Some(d) = self.v.cap.cap.get(target).cloned() else { return no("C09", "target without Capacity") };
				let n = self.v.cap.unlocks.get(&who).map(|x| x.len()).unwrap_or(0);
				need(n < MAX_CHUNKS, "C10", "too many unlocking chunks")?;
				let gone = if amount == staked { cap } else { Perbill::from_rational(amount, d.staked).mul_ceil(d.issued).min(cap) };
				let thaw = self.v.cap.epoch.saturating_add(THAW);
				let c = self.cap();
				if active == amount {
					c.ledger.remove(&who);
				} else {
					c.ledger.insert(who.clone(), (active - amount, ty));
				}
				c.unlocks.entry(who.clone()).or_default().push((amount, thaw));
				if staked == amount {
					c.target.remove(&(who, *target));
				} else {
					c.target.insert((who, *target), (staked - amount, cap.saturating_sub(gone)));
				}
				let e = c.cap.get_mut(target).unwrap();
				e.staked = e.staked.saturating_sub(amount);
				e.issued = e.issued.saturating_sub(gone);
				e.remaining = e.remaining.saturating_sub(gone);
				Ok(())
			},
			C::withdraw_unstaked {} => {
				let who = self.signed(o)?;
				let Some(chunks) = self.v.cap.unlocks.get(&who).cloned() else { return no("C10", "nothing unstaked") };
				let now = self.v.cap.epoch;
				let left: Vec<_> = chunks.iter().copied().filter(|c| now < c.1).collect();
				need(left.len() < chunks.len(), "C10", "nothing thawed")?;
				let c = self.cap();
				if left.is_empty() {
					c.unlocks.remove(&who);
				} else {
					c.unlocks.insert(who.clone(), left);
				}
				let held = self.active(&who) + self.chunks(&who);
				self.freeze(&who, FREEZE, held);
				Ok(())
			},
			C::set_epoch_length { length } => {
				need(o.root, "C10", "only root")?;
				need(*length <= MAX_EPOCH_LEN, "C10", "epoch too long")?;
				self.cap().epoch_len = Some(*length);
				Ok(())
			},
			_ => Err(Stop::Maybe("capacity")),
		}
	}
	/// Replenishes when a new epoch began, then takes the fee.
	pub fn spend_capacity(&mut self, provider: u64, fee: Bal) -> R {
		let epoch = self.v.cap.epoch;
		let Some(d) = self.v.cap.cap.get(&provider).cloned() else { return no("C11", "the MSA has no Capacity") };
		let mut d = d;
		if d.last_epoch < epoch {
			d.remaining = d.issued;
			d.last_epoch = epoch;
		}
		need(d.remaining >= fee, "C11", "not enough Capacity")?;
		d.remaining -= fee;
		self.cap().cap.insert(provider, d);
		Ok(())
	}
}
