//! Simulations of parts that do not need a chain.
mod avro;
mod names;
#[cfg(feature = "sealing")]
mod sealing;
mod suffixes;
use crate::oracle::{Cov, Viol};
use crate::runner::{Outcome, Unit};
thread_local! {
	/// for runs that take the process with them
	static LIVE: bool = std::env::var("LIVE").is_ok();
}
pub fn all() -> Vec<Unit> {
	vec![
		avro::unit(),
		names::unit(),
		suffixes::unit(),
		#[cfg(feature = "sealing")]
		sealing::unit(),
	]
}
/// What a run of a unit has seen so far.
pub struct Run {
	pub viols: Vec<(usize, Viol)>,
	pub cov: Cov,
	pub trace: Option<Vec<String>>,
	pub step: usize,
	pub time: u64,
	print: u64,
}
impl Run {
	pub fn new(trace: bool) -> Run {
		Run { viols: vec![], cov: Cov::default(), trace: trace.then(Vec::new), step: 0, time: 0, print: 0x1234_5678_9abc_def1 }
	}
	pub fn fail(&mut self, prop: &'static str, sig: &str, text: String) {
		self.note(|| format!("VIOLATION {}", text));
		self.viols.push((self.step, Viol { prop, also: vec![], sig: sig.into(), text }));
	}
	pub fn note(&mut self, f: impl FnOnce() -> String) {
		let s = self.step;
		if LIVE.with(|l| *l) {
			eprintln!("{}: {}", s, f());
			return
		}
		if let Some(t) = &mut self.trace {
			t.push(format!("{:3}: {}", s, f()));
		}
	}
	/// observable result, for telling runs apart and for comparing repetitions
	pub fn seen(&mut self, b: &[u8]) {
		for x in b {
			self.print = (self.print ^ *x as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23);
		}
	}
	/// one thing examined
	pub fn did(&mut self, k: &str) {
		self.cov.add(format!("unit {}", k), 1);
	}
	/// one fault injected
	pub fn fault(&mut self, k: &str) {
		self.cov.add(format!("fault: {}", k), 1);
	}
	pub fn done(mut self) -> Outcome {
		for v in self.viols.clone() {
			self.seen(v.1.text.as_bytes());
		}
		self.cov.states.insert(self.print);
		Outcome { viols: self.viols, cov: self.cov, trace: self.trace.unwrap_or_default(), sim_time: self.time, print: self.print }
	}
}
/// Runs `f` on a thread of its own, whose hash maps are seeded by the simulator.
pub fn isolated(seed: u64, f: impl FnOnce() -> Outcome + Send) -> Outcome {
	std::thread::scope(|s| {
		let run = move || {
			crate::seam::seed(seed);
			f()
		};
		match std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, run).unwrap().join() {
			Ok(o) => o,
			Err(e) => std::panic::resume_unwind(e),
		}
	})
}
