//! One process per run: nothing a run leaves behind (a static of the code under test, an abort, a loop) reaches another run,
//! so that a run depends on its operations alone and its replay file fails again.
//!
//! For every plan a process is forked that prepares the genesis block; it forks one server for each of the search's threads,
//! and those fork a process for every run. For C21 there is also, beside each server, a process that has executed nothing at all:
//! it forks nodes that have just started, which are given a state and a block to execute on it.
use crate::oracle::{Cov, Viol};
use crate::runner::{Outcome, Plan};
use crate::world::Op;
use frequency_runtime as rt;
use simsdk::codec::{Decode, Encode};
use simsdk::storage::State;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::sync::Mutex;

extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn kill(pid: i32, sig: i32) -> i32;
	fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
	fn _exit(code: i32) -> !;
	fn alarm(seconds: u32) -> u32;
	fn dup2(a: i32, b: i32) -> i32;
	fn getppid() -> i32;
}
const PR_SET_PDEATHSIG: i32 = 1;
const SIGKILL: i32 = 9;
const SIGALRM: i32 = 14;
/// exit code of a run that has given its outcome
const GIVEN: i32 = 77;

pub struct Farm {
	pids: Vec<i32>,
	/// by plan and thread
	lines: Vec<Vec<Mutex<UnixStream>>>,
}
/// What became of a run.
pub enum End {
	Done(Outcome),
	Died(i32),
	Stuck,
}
fn stuck() -> u32 {
	if std::env::var("VERIF_STUCK").is_ok() {
		5
	} else {
		100
	}
}
/// Forks; the child dies with the thread that made it and leaves with 0 when `f` returns.
fn child(f: impl FnOnce()) -> i32 {
	let me = std::process::id() as i32;
	match unsafe { fork() } {
		-1 => panic!("fork: {}", std::io::Error::last_os_error()),
		0 => unsafe {
			prctl(PR_SET_PDEATHSIG, SIGKILL as u64, 0, 0, 0);
			if getppid() != me {
				_exit(1);
			}
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
			_exit(if r.is_ok() { 0 } else { 101 })
		},
		p => p,
	}
}
fn wait(pid: i32) -> i32 {
	let mut s = 0;
	while unsafe { waitpid(pid, &mut s, 0) } == -1 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {}
	s
}
impl Farm {
	/// To be called while no other thread is running.
	pub fn new(plans: &[Plan], threads: usize) -> Farm {
		crate::users::acc(0);
		let mut farm = Farm { pids: vec![], lines: vec![] };
		let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("null");
		for p in plans {
			let (near, far): (Vec<_>, Vec<_>) = (0..threads).map(|_| UnixStream::pair().expect("socket pair")).unzip();
			let pid = child(|| {
				unsafe { dup2(null.as_raw_fd(), 1) };
				if std::env::var("PANICS").is_err() {
					unsafe { dup2(null.as_raw_fd(), 2) };
				}
				let (ask, answer): (Vec<_>, Vec<_>) = (0..threads).map(|_| UnixStream::pair().expect("socket pair")).unzip();
				let mut l: Vec<i32> = answer.iter().map(|s| child(|| start_nodes(p, s))).collect();
				p.execute(&[], false);
				l.extend(far.iter().zip(&ask).map(|(s, a)| child(|| serve(p, s, a))));
				for c in l {
					wait(c);
				}
			});
			farm.pids.push(pid);
			farm.lines.push(near.into_iter().map(Mutex::new).collect());
		}
		farm
	}
	pub fn end(&self, plan: usize, thread: usize, ops: &[Op], trace: bool, started: bool) -> End {
		let mut s = self.lines[plan][thread].lock().unwrap();
		let mut b = vec![trace as u8 | (started as u8) << 1];
		b.extend((ops.len() as u32).to_le_bytes());
		for o in ops {
			b.push(o.kind);
			b.extend(o.r.to_le_bytes());
		}
		let mut get = || -> std::io::Result<End> {
			s.write_all(&b)?;
			let mut h = [0; 5];
			s.read_exact(&mut h)?;
			let n = u32::from_le_bytes(h[1..].try_into().unwrap());
			if h[0] == 1 {
				return Ok(if n as i32 == SIGALRM { End::Stuck } else { End::Died(n as i32) })
			}
			let mut b = vec![0; n as usize];
			s.read_exact(&mut b)?;
			Ok(End::Done(decode(&b)))
		};
		// the server itself is gone
		get().unwrap_or(End::Died(SIGKILL))
	}
	/// `prop` is the property that a death or a hang is held against.
	pub fn run(&self, plan: usize, thread: usize, ops: &[Op], trace: bool, prop: &'static str) -> Outcome {
		let (sig, text) = match self.end(plan, thread, ops, trace, prop == "C21") {
			End::Done(o) => return o,
			End::Died(SIGKILL) => {
				let v = Viol { prop: "SIM", also: vec![], sig: "harness".into(), text: "the run was killed".into() };
				return Outcome { viols: vec![(0, v)], cov: Cov::default(), trace: vec![], sim_time: 0, print: 0 }
			},
			End::Died(0) => ("abort", "the process ends itself".to_string()),
			End::Died(s) => ("abort", format!("the process dies of signal {}", s)),
			End::Stuck => ("hang", "the process does not come to an end".to_string()),
		};
		let v = Viol { prop: "C21", also: vec![prop], sig: sig.into(), text };
		Outcome { viols: vec![(ops.len(), v)], cov: Cov::default(), trace: vec![], sim_time: 0, print: 1 }
	}
}
impl Drop for Farm {
	fn drop(&mut self) {
		for p in &self.pids {
			unsafe { kill(*p, SIGKILL) };
		}
		for p in &self.pids {
			wait(*p);
		}
	}
}
/// Has a block executed by a node that has just started.
pub fn on_started_node(s: &UnixStream, parent: &State, block: &rt::Block) -> Result<(), String> {
	let mut s = s;
	let mut b = vec![];
	let bytes = |b: &mut Vec<u8>, x: &[u8]| {
		b.extend((x.len() as u32).to_le_bytes());
		b.extend(x);
	};
	bytes(&mut b, &block.encode());
	for (k, v) in &parent.map {
		bytes(&mut b, k);
		bytes(&mut b, v);
	}
	s.write_all(&(b.len() as u32).to_le_bytes()).and_then(|_| s.write_all(&b)).expect("the started nodes");
	let mut h = [0; 4];
	s.read_exact(&mut h).expect("the started nodes");
	let mut b = vec![0; u32::from_le_bytes(h) as usize];
	s.read_exact(&mut b).expect("the started nodes");
	match b.is_empty() {
		true => Ok(()),
		false => Err(String::from_utf8_lossy(&b).into()),
	}
}
fn start_nodes(p: &Plan, s: &UnixStream) {
	let mut s = s;
	loop {
		let mut h = [0; 4];
		if s.read_exact(&mut h).is_err() {
			return
		}
		let mut b = vec![0; u32::from_le_bytes(h) as usize];
		if s.read_exact(&mut b).is_err() {
			return
		}
		let pid = child(|| {
			let at = std::cell::Cell::new(0);
			let bytes = || {
				let i = at.get() + 4;
				let n = u32::from_le_bytes(b[i - 4..i].try_into().unwrap()) as usize;
				at.set(i + n);
				&b[i..i + n]
			};
			if let Plan::Chain(p) = p {
				rt::set_max_sigs(p.max_sigs);
			}
			let block = rt::Block::decode(&mut bytes()).expect("block");
			let mut state = State::default();
			let mut all = vec![];
			while at.get() < b.len() {
				{
				let k = bytes().into();
				all.push((k, Some(bytes().into())));
			}
			}
			state.apply(&all.into_iter().collect());
			let e = crate::chain::import_block(&state.into(), block).err().unwrap_or_default();
			let e = e.as_bytes();
			let _ = s.write_all(&(e.len() as u32).to_le_bytes()).and_then(|_| s.write_all(e));
			unsafe { _exit(GIVEN) };
		});
		let st = wait(pid);
		if !(st & 0x7f == 0 && st >> 8 == GIVEN) {
			let e = b"the process dies";
			let _ = s.write_all(&(e.len() as u32).to_le_bytes()).and_then(|_| s.write_all(e));
		}
	}
}
fn serve(p: &Plan, s: &UnixStream, started: &UnixStream) {
	let mut s = s;
	loop {
		let mut h = [0; 5];
		if s.read_exact(&mut h).is_err() {
			return
		}
		let n = u32::from_le_bytes(h[1..].try_into().unwrap()) as usize;
		let mut b = vec![0; n * 9];
		if s.read_exact(&mut b).is_err() {
			return
		}
		let ops: Vec<Op> = b.chunks(9).map(|c| Op { kind: c[0], r: u64::from_le_bytes(c[1..].try_into().unwrap()) }).collect();
		let pid = child(|| {
			unsafe { alarm(stuck()) };
			let o = p.execute_with(&ops, h[0] & 1 == 1, (h[0] & 2 == 2).then_some(started));
			let b = encode(&o);
			let mut m = vec![0];
			m.extend((b.len() as u32).to_le_bytes());
			m.extend(b);
			let _ = s.write_all(&m);
			unsafe { _exit(GIVEN) };
		});
		let st = wait(pid);
		if st & 0x7f == 0 && st >> 8 == GIVEN {
			continue
		}
		// an exit that is not ours counts as signal 0
		let sig = (st & 0x7f) as u32;
		let mut m = vec![1];
		m.extend(sig.to_le_bytes());
		if s.write_all(&m).is_err() {
			return
		}
	}
}
fn text(b: &mut Vec<u8>, s: &str) {
	b.extend((s.len() as u32).to_le_bytes());
	b.extend(s.as_bytes());
}
fn encode(o: &Outcome) -> Vec<u8> {
	let mut b = vec![];
	let num = |b: &mut Vec<u8>, n: u64| b.extend(n.to_le_bytes());
	num(&mut b, o.print);
	num(&mut b, o.sim_time);
	num(&mut b, o.viols.len() as u64);
	for (step, v) in &o.viols {
		num(&mut b, *step as u64);
		text(&mut b, v.prop);
		num(&mut b, v.also.len() as u64);
		v.also.iter().for_each(|a| text(&mut b, a));
		text(&mut b, &v.sig);
		text(&mut b, &v.text);
	}
	for m in [&o.cov.n, &o.cov.shapes] {
		num(&mut b, m.len() as u64);
		for (k, x) in m {
			text(&mut b, k);
			num(&mut b, *x);
		}
	}
	num(&mut b, o.cov.states.len() as u64);
	o.cov.states.iter().for_each(|s| num(&mut b, *s));
	num(&mut b, o.trace.len() as u64);
	o.trace.iter().for_each(|t| text(&mut b, t));
	b
}
fn decode(b: &[u8]) -> Outcome {
	let at = std::cell::Cell::new(0);
	let bytes = |n: usize| {
		let i = at.get();
		at.set(i + n);
		&b[i..i + n]
	};
	let num = || u64::from_le_bytes(bytes(8).try_into().unwrap());
	let text = || {
		let n = u32::from_le_bytes(bytes(4).try_into().unwrap());
		String::from_utf8(bytes(n as usize).to_vec()).expect("text")
	};
	let print = num();
	let sim_time = num();
	let viols = (0..num())
		.map(|_| {
			let step = num() as usize;
			let prop = name(&text());
			let also = (0..num()).map(|_| name(&text())).collect();
			let sig = text();
			(step, Viol { prop, also, sig, text: text() })
		})
		.collect();
	let map = || (0..num()).map(|_| (text(), num())).collect::<BTreeMap<_, _>>();
	let n = map();
	let shapes = map();
	let states = (0..num()).map(|_| num()).collect();
	let trace = (0..num()).map(|_| text()).collect();
	Outcome { viols, cov: Cov { n, shapes, states }, trace, sim_time, print }
}
/// The lasting copy of a property's name.
pub fn name(s: &str) -> &'static str {
	static NAMES: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
	let mut l = NAMES.lock().unwrap();
	match l.iter().find(|n| **n == s) {
		Some(n) => n,
		None => {
			let n: &'static str = Box::leak(s.to_string().into_boxed_str());
			l.push(n);
			n
		},
	}
}
