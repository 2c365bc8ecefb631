//! tokio::time, as far as sealing uses it.
use crate::world;
use std::future::Future;
use std::pin::Pin;
pub use std::time::Duration;
use std::task::{Context, Poll};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(u64);
impl Instant {
	pub fn now() -> Self {
		Instant(world::with(|w| w.now))
	}
	pub fn elapsed(&self) -> Duration {
		Duration::from_millis(Self::now().0 - self.0)
	}
	pub fn duration_since(&self, o: Instant) -> Duration {
		Duration::from_millis(self.0.saturating_sub(o.0))
	}
}
impl std::ops::Add<Duration> for Instant {
	type Output = Instant;
	fn add(self, d: Duration) -> Instant {
		Instant(self.0 + d.as_millis() as u64)
	}
}
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub enum MissedTickBehavior {
	#[default]
	Burst,
	Delay,
	Skip,
}
#[derive(Debug)]
pub struct Interval {
	next: u64,
	period: u64,
	missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
	interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
	assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
	Interval { next: start.0, period: period.as_millis() as u64, missed: Default::default() }
}
impl Interval {
	pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
		let now = world::with(|w| w.now);
		if now < self.next {
			world::at(self.next, cx.waker());
			return Poll::Pending
		}
		let due = self.next;
		self.next = match self.missed {
			_ if now <= due + 5 => due + self.period,
			MissedTickBehavior::Burst => due + self.period,
			MissedTickBehavior::Delay => now + self.period,
			MissedTickBehavior::Skip => now + self.period - (now - due) % self.period,
		};
		Poll::Ready(Instant(due))
	}
	pub async fn tick(&mut self) -> Instant {
		futures::future::poll_fn(|cx| self.poll_tick(cx)).await
	}
	pub fn reset(&mut self) {
		self.next = world::with(|w| w.now) + self.period;
	}
	pub fn period(&self) -> Duration {
		Duration::from_millis(self.period)
	}
	pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
		self.missed = b;
	}
	pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
		self.missed
	}
}
pub struct Sleep(u64);
impl Future for Sleep {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if world::with(|w| w.now) >= self.0 {
			return Poll::Ready(())
		}
		world::at(self.0, cx.waker());
		Poll::Pending
	}
}
pub fn sleep(d: Duration) -> Sleep {
	Sleep(world::with(|w| w.now) + d.as_millis() as u64)
}
pub fn sleep_until(t: Instant) -> Sleep {
	Sleep(t.0)
}
