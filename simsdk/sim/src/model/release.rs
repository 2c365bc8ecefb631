//! Time release.
use super::*;
use frequency_runtime::Runtime;
use pallet_time_release::ReleaseSchedule;
use pallet_time_release::Call as C;

pub const FREEZE: (u8, u8) = (40, 0);
pub const MIN_TRANSFER: Bal = 0;
pub const MAX_SCHEDULES: usize = 50;

impl Sched {
	pub fn end(&self) -> Option<u32> {
		self.period.checked_mul(self.count).and_then(|x| x.checked_add(self.start))
	}
	pub fn total(&self) -> Bal {
		self.per.saturating_mul(self.count as Bal)
	}
	/// What is still held back at a (relay) block.
	pub fn held(&self, at: u32) -> Bal {
		if at <= self.start {
			return self.total()
		}
		let done = ((at - self.start) / self.period.max(1)).min(self.count);
		self.per.saturating_mul((self.count - done) as Bal)
	}
}
pub fn sched(s: &ReleaseSchedule<u32, Bal>) -> Sched {
	Sched { start: s.start, period: s.period, count: s.period_count, per: s.per_period }
}
impl M {
	fn valid(s: &Sched) -> R<Bal> {
		need(s.period > 0, "C16", "period of zero")?;
		need(s.count > 0, "C16", "no periods")?;
		need(s.end().is_some(), "C16", "the schedule never ends")?;
		let Some(t) = s.per.checked_mul(s.count as Bal) else { return no("C16", "total overflows") };
		need(t >= MIN_TRANSFER, "C16", "below the minimum transfer")?;
		Ok(t)
	}
	/// Drops finished schedules; what the others hold back.
	fn prune(&mut self, a: &Acc) -> Bal {
		let at = self.env.relay;
		let Some(l) = self.v.tr.map.get(a).cloned() else { return 0 };
		let l: Vec<_> = l.into_iter().filter(|s| s.held(at) > 0).collect();
		let held = l.iter().map(|s| s.held(at)).fold(0u128, |a, b| a.saturating_add(b));
		if l.is_empty() {
			self.tr().map.remove(a);
		} else {
			self.tr().map.insert(a.clone(), l);
		}
		held
	}
	fn release_claim(&mut self, a: &Acc) -> R {
		let held = self.prune(a);
		self.freeze(a, FREEZE, held);
		Ok(())
	}
	pub fn release_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		match c {
			C::claim {} => {
				let who = self.signed(o)?;
				self.release_claim(&who)
			},
			C::claim_for { dest } => {
				self.signed(o)?;
				let dest = address(dest)?;
				self.release_claim(&dest)
			},
			C::transfer { dest, schedule } => {
				let who = self.signed(o)?;
				let dest = address(dest)?;
				let s = sched(schedule);
				let total = Self::valid(&s)?;
				if who == dest {
					need(self.v.free(&who) >= total, "C16", "more than the balance")?;
				}
				let held = self.prune(&dest);
				self.pay(&who, &dest, total, false, "C16")?;
				self.freeze(&dest, FREEZE, held + total);
				let l = self.tr().map.entry(dest).or_default();
				l.push(s);
				let n = l.len();
				need(n <= MAX_SCHEDULES, "C16", "too many schedules")
			},
			C::update_release_schedules { who, release_schedules } => {
				need(o.root, "C16", "only root")?;
				let who = address(who)?;
				let l: Vec<Sched> = release_schedules.iter().map(sched).collect();
				need(l.len() <= MAX_SCHEDULES, "C16", "too many schedules")?;
				if l.is_empty() {
					self.tr().map.remove(&who);
					self.freeze(&who, FREEZE, 0);
					return Ok(())
				}
				let mut total = 0u128;
				for s in &l {
					total = total.saturating_add(Self::valid(s)?);
				}
				need(self.v.free(&who) >= total, "C16", "more than the balance")?;
				self.tr().map.insert(who.clone(), l);
				self.freeze(&who, FREEZE, total);
				Ok(())
			},
			_ => Err(Stop::Maybe("time release")),
		}
	}
}
