//! Search over seeds, minimisation, replay, evidence.
use crate::farm::Farm;
use crate::oracle::{Cov, Viol};
use crate::profiles;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const ROOT: &str = "/verif";
const T0: u64 = 1_700_000_000_000;

pub struct Outcome {
	pub viols: Vec<(usize, Viol)>,
	pub cov: Cov,
	pub trace: Vec<String>,
	pub sim_time: u64,
	/// everything observable about the run
	pub print: u64,
}
/// A simulation of a part of the code that does not need a chain.
#[derive(Clone)]
pub struct Unit {
	pub name: &'static str,
	pub ops: &'static [(&'static str, u32)],
	pub len: (u64, u64),
	pub run: fn(&[Op], bool) -> Outcome,
}
#[derive(Clone)]
pub enum Plan {
	Chain(Profile),
	Unit(Unit),
}
impl Plan {
	pub fn all() -> Vec<Plan> {
		profiles::all().into_iter().map(Plan::Chain).chain(crate::unit::all().into_iter().map(Plan::Unit)).collect()
	}
	pub fn named(name: &str) -> Plan {
		Self::all().into_iter().find(|p| p.name() == name).unwrap_or_else(|| panic!("no profile {}", name))
	}
	pub fn name(&self) -> &'static str {
		match self {
			Plan::Chain(p) => p.name,
			Plan::Unit(u) => u.name,
		}
	}
	pub fn ops(&self, seed: u64) -> Vec<Op> {
		match self {
			Plan::Chain(p) => p.ops(seed),
			Plan::Unit(u) => {
				let w: Vec<u32> = u.ops.iter().map(|o| o.1).collect();
				draw(&w, u.len, seed)
			},
		}
	}
	fn op_name(&self, k: u8) -> &'static str {
		match self {
			Plan::Chain(_) => OP_NAMES[k as usize],
			Plan::Unit(u) => u.ops[k as usize].0,
		}
	}
	fn op_kind(&self, n: &str) -> u8 {
		(match self {
			Plan::Chain(_) => OP_NAMES.iter().position(|x| *x == n),
			Plan::Unit(u) => u.ops.iter().position(|x| x.0 == n),
		})
		.expect("operation") as u8
	}
	pub fn execute(&self, ops: &[Op], trace: bool) -> Outcome {
		self.execute_with(ops, trace, None)
	}
	pub fn execute_with(&self, ops: &[Op], trace: bool, started: Option<&UnixStream>) -> Outcome {
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match self {
			Plan::Chain(p) => chain(p, ops, trace, started),
			Plan::Unit(u) => (u.run)(ops, trace),
		}));
		r.unwrap_or_else(|e| {
			let text = format!("the simulator itself panicked: {}", crate::chain::panic_text(e));
			Outcome { viols: vec![(0, Viol { prop: "SIM", also: vec![], sig: "harness".into(), text })], cov: Cov::default(), trace: vec![], sim_time: 0, print: 0 }
		})
	}
	fn json(&self, ops: &[Op]) -> Value {
		Value::Array(ops.iter().map(|o| json!([self.op_name(o.kind), o.r.to_string()])).collect())
	}
	fn parse(&self, v: &Value) -> Vec<Op> {
		let l = v.as_array().expect("operations");
		l.iter().map(|x| Op { kind: self.op_kind(x[0].as_str().unwrap()), r: x[1].as_str().unwrap().parse().unwrap() }).collect()
	}
}
/// Some blocks of the run, executed once more by nodes that have just started.
fn started_nodes(w: &mut World, s: &UnixStream) {
	let mut l: Vec<_> = w.blocks.values().filter(|b| !b.xts.is_empty() && w.blocks.contains_key(&b.parent)).cloned().collect();
	l.sort_by_key(|b| (b.hash.0[7], b.hash));
	l.truncate(STARTS);
	for b in l {
		w.cov.add("blocks executed by a node that has just started", 1);
		let parent = w.blocks[&b.parent].state.clone();
		if let Err(e) = crate::farm::on_started_node(s, &parent, &b.block()) {
			let calls: Vec<String> = b.xts.iter().map(|x| crate::oracle::describe(&x.tx.xt.function)).collect();
			let text = format!("block {} with {} is refused by a node that has just started: {}", b.number, calls.join("; "), e);
			w.viols.push((w.step, Viol { prop: "C21", also: vec![], sig: "started".into(), text }));
			return
		}
	}
}
const STARTS: usize = 8;
fn chain(p: &Profile, ops: &[Op], trace: bool, started: Option<&UnixStream>) -> Outcome {
	let mut w = World::new(p);
	if trace {
		w.trace = Some(vec![]);
	}
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(ops)));
	if let Some(s) = started {
		started_nodes(&mut w, s);
	}
	if let Err(e) = r {
		let t = crate::chain::panic_text(e);
		w.viols.push((w.step, Viol { prop: "SIM", also: vec![], sig: "harness".into(), text: format!("the simulator itself panicked: {}", t) }));
	}
	let h = w.nodes.first().map(|n| n.head);
	let sim_time = h.map(|h| w.blocks[&h].time.saturating_sub(T0)).unwrap_or(0);
	let mut print = h.map(|h| u64::from_be_bytes(h.0[..8].try_into().unwrap())).unwrap_or(0);
	let mut mix = |x: u64| print = (print ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
	mix(w.blocks.len() as u64);
	for n in &w.nodes {
		mix(u64::from_be_bytes(n.head.0[..8].try_into().unwrap()));
	}
	for (k, n) in w.cov.n.iter().chain(w.cov.shapes.iter()) {
		k.bytes().for_each(|b| mix(b as u64));
		mix(*n);
	}
	for v in &w.viols {
		mix(v.0 as u64);
		v.1.text.bytes().for_each(|b| mix(b as u64));
	}
	Outcome { viols: w.viols, cov: w.cov, trace: w.trace.unwrap_or_default(), sim_time, print }
}
#[derive(Clone)]
pub struct Known {
	prop: String,
	sig: String,
	text: String,
}
pub fn known() -> Vec<Known> {
	std::fs::read_to_string(format!("{}/known-findings.txt", ROOT))
		.unwrap_or_default()
		.lines()
		.filter_map(|l| {
			let l = l.strip_prefix("finding: property=")?;
			let mut i = l.splitn(3, ' ');
			Some(Known { prop: i.next()?.to_string(), sig: i.next()?.strip_prefix("signature=")?.to_string(), text: i.next()?.to_string() })
		})
		.collect()
}
fn listed(v: &Viol, known: &[Known]) -> bool {
	known.iter().any(|k| k.prop == v.prop && k.sig == v.sig)
}
fn about(v: &Viol, prop: &str) -> bool {
	v.prop == prop || v.also.contains(&prop)
}
/// The first failure of a property that is not listed, preferring its own over those it only shares.
fn wanted<'a>(o: &'a Outcome, prop: &str, known: &[Known]) -> Option<&'a (usize, Viol)> {
	let l = || o.viols.iter().filter(|v| about(&v.1, prop) && !listed(&v.1, known));
	l().find(|v| v.1.prop == prop).or_else(|| l().next())
}
/// Removes operations as long as it still fails in the same way.
fn minimise(ops: Vec<Op>, last: Option<usize>, budget: Duration, fails: &dyn Fn(&[Op]) -> bool) -> Vec<Op> {
	let t0 = Instant::now();
	let mut ops = ops;
	if let Some(s) = last {
		let cut = ops[..s.min(ops.len())].to_vec();
		if fails(&cut) {
			ops = cut;
		}
	}
	let mut n = 2;
	while ops.len() >= 2 && t0.elapsed() < budget {
		let size = (ops.len() + n - 1) / n;
		let mut changed = false;
		let mut i = 0;
		while i < ops.len() && t0.elapsed() < budget {
			let j = (i + size).min(ops.len());
			let mut less = ops[..i].to_vec();
			less.extend_from_slice(&ops[j..]);
			if fails(&less) {
				ops = less;
				changed = true;
			} else {
				i = j;
			}
		}
		if !changed {
			if size == 1 {
				break
			}
			n = (n * 2).min(ops.len());
		}
	}
	if ops.len() == 1 && fails(&[]) {
		ops.clear();
	}
	ops
}
pub fn seed_of(base: u64, profile: &str, i: u64) -> u64 {
	let mut h = base.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i.wrapping_mul(0xd134_2543_de82_ef95);
	for b in profile.bytes() {
		h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
	}
	h
}
#[derive(Default)]
struct Search {
	runs: u64,
	again: u64,
	cov: Cov,
	sim_time: u64,
	/// index, plan, seed, violation
	found: Option<(u64, Plan, u64, Viol, usize)>,
	known: BTreeMap<String, u64>,
	broken: Option<String>,
	heads: BTreeSet<u64>,
	samples: BTreeMap<u64, String>,
}
/// calls that make a run count for a property
fn telling(prop: &str) -> &'static [&'static str] {
	match prop {
		"C01" => &["ran Msa.create", "ran Msa.add_public", "ran Msa.delete_", "ran Msa.retire_msa"],
		"C02" => &["ran Msa.grant", "ran Msa.create_sponsored", "ran Msa.add_public"],
		"C03" => &["ran Msa.grant", "ran Msa.revoke", "ran Msa.create_sponsored"],
		"C04" => &["ran Msa.revoke_delegation", "ran Msa.delete_msa", "ran Msa.retire_msa", "ran Handles.retire"],
		"C05" => &["index"],
		"C06" | "C07" | "C08" => &["ran Handles.", "unit "],
		"C09" | "C10" => &["ran Capacity."],
		"C11" => &["ran FrequencyTxPayment."],
		"C12" | "C13" => &["ran StatefulStorage."],
		"C14" => &["ran Messages."],
		"C15" => &["ran Schemas."],
		"C16" => &["ran TimeRelease."],
		"C17" => &["ran Passkey."],
		"C19" => &["ran Utility.", "ran Proxy.", "ran Multisig."],
		"C20" => &["upgrade:"],
		"C22" | "C23" => &["unit "],
		"C24" => &["query"],
		"C25" => &["events read"],
		"C27" => &["ran Treasury.", "ran Scheduler.", "ran Democracy.", "ran Preimage.", "ran CollatorSelection.", "ran a task"],
		_ => &["transactions included", "unit "],
	}
}
fn threads() -> usize {
	std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
}
/// Runs seeds on all cores until the number is reached, the time is up, or something fails; of failures the one with the smallest index counts.
fn search(prop: &'static str, plans: &[Plan], farm: &Farm, base: u64, budget: Duration, max_runs: u64) -> Search {
	let known = known();
	let next = AtomicU64::new(0);
	let limit = AtomicU64::new(max_runs);
	let t0 = Instant::now();
	let total = Mutex::new(Search::default());
	std::thread::scope(|s| {
		for k in 0..threads() {
			let (next, limit, total, known) = (&next, &limit, &total, &known);
			let run = move || {
				let mut mine = Search::default();
				loop {
					if t0.elapsed() > budget {
						break
					}
					let i = next.fetch_add(1, Relaxed);
					if i >= limit.load(Relaxed) {
						break
					}
					let at = (i % plans.len() as u64) as usize;
					let p = &plans[at];
					let seed = seed_of(base, p.name(), i);
					let ops = p.ops(seed);
					let o = farm.run(at, k, &ops, false, prop);
					mine.runs += 1;
					mine.sim_time += o.sim_time;
					mine.cov.merge(&o.cov);
					let t = telling(prop);
					if o.cov.n.keys().any(|k| t.iter().any(|t| k.starts_with(t))) {
						mine.heads.insert(o.print);
					}
					if i < 5 {
						let what = o.cov.n.get("blocks").map(|b| format!("{} blocks, {} transactions included", b, o.cov.n.get("transactions included").unwrap_or(&0)));
						mine.samples.insert(i, format!("{} seed {}: {} operations{}", p.name(), seed, ops.len(), what.map(|w| format!(", {}", w)).unwrap_or_default()));
					}
					for v in &o.viols {
						if about(&v.1, prop) && listed(&v.1, known) {
							*mine.known.entry(format!("{} {}", v.1.prop, v.1.sig)).or_default() += 1;
						}
					}
					if let Some(v) = o.viols.iter().find(|v| v.1.prop == "SIM") {
						mine.broken.get_or_insert(format!("profile {} seed {}: {}", p.name(), seed, v.1.text));
					}
					let mut bad = wanted(&o, prop, known).cloned();
					if i % 16 == 7 {
						mine.again += 1;
						if farm.run(at, k, &ops, false, prop).print != o.print {
							let text = format!("two executions of profile {} with seed {} differ", p.name(), seed);
							if prop == "C21" {
								bad = bad.or(Some((ops.len(), Viol { prop: "C21", also: vec![], sig: "repeat".into(), text })));
							} else {
								mine.broken.get_or_insert(text);
							}
						}
					}
					if let Some((step, v)) = bad {
						limit.fetch_min(i, Relaxed);
						if mine.found.as_ref().map(|f| f.0 > i).unwrap_or(true) {
							mine.found = Some((i, p.clone(), seed, v, step));
						}
					}
				}
				let mut t = total.lock().unwrap();
				t.runs += mine.runs;
				t.again += mine.again;
				t.sim_time += mine.sim_time;
				t.cov.merge(&mine.cov);
				t.heads.extend(mine.heads);
				t.samples.extend(mine.samples);
				if let Some(f) = mine.found {
					if t.found.as_ref().map(|o| o.0 > f.0).unwrap_or(true) {
						t.found = Some(f);
					}
				}
				if t.broken.is_none() {
					t.broken = mine.broken;
				}
				for (k, n) in mine.known {
					*t.known.entry(k).or_default() += n;
				}
			};
			s.spawn(run);
		}
	});
	total.into_inner().unwrap()
}

fn write_replay(prop: &str, p: &Plan, seed: u64, ops: &[Op], v: &Viol, trace: Vec<String>) -> String {
	let dir = format!("{}/replays", ROOT);
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{}/{}-{:x}.json", dir, prop, seed);
	let j = json!({
		"property": prop, "profile": p.name(), "seed": seed.to_string(), "of": v.prop, "signature": v.sig, "violation": v.text,
		"operations": p.json(ops), "trace": trace,
	});
	std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
	path
}
pub fn replay(path: &str) -> i32 {
	let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("JSON");
	let prop = crate::farm::name(j["property"].as_str().unwrap());
	let sig = j["signature"].as_str().unwrap();
	let p = Plan::named(j["profile"].as_str().unwrap());
	let ops = p.parse(&j["operations"]);
	let farm = Farm::new(&[p], 1);
	let o = farm.run(0, 0, &ops, true, prop);
	for l in &o.trace {
		println!("{}", l);
	}
	let failed = match sig {
		"repeat" => (farm.run(0, 0, &ops, true, prop).print != o.print).then(|| "two executions differ".to_string()),
		_ => o.viols.iter().find(|v| v.1.prop == j["of"].as_str().unwrap() && v.1.sig == sig).map(|v| format!("step {}: {}", v.0, v.1.text)),
	};
	match failed {
		Some(v) => {
			println!("{}", v);
			println!("VIOLATION property={} replay={}", prop, path);
			1
		},
		None => {
			println!("does not fail on this tree");
			0
		},
	}
}
pub fn single(name: &str, seed: u64, trace: bool) -> i32 {
	let p = Plan::named(name);
	let ops = p.ops(seed);
	let t0 = Instant::now();
	let o = p.execute(&ops, trace);
	for l in &o.trace {
		println!("{}", l);
	}
	for v in &o.viols {
		println!("step {}: {} {:?} [{}] {}", v.0, v.1.prop, v.1.also, v.1.sig, v.1.text);
	}
	println!("{:?} {:x}\n{:#?}\n{:#?}", t0.elapsed(), o.print, o.cov.n, o.cov.shapes);
	0
}
/// Everything that fails, by property and kind, over some runs.
pub fn survey(runs: u64, only: Option<&str>) -> i32 {
	let seen: Mutex<BTreeMap<String, (u64, String)>> = Default::default();
	let cov = Mutex::new(Cov::default());
	let next = AtomicU64::new(0);
	let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let plans: Vec<Plan> = Plan::all().into_iter().filter(|p| only.map(|o| o == p.name()).unwrap_or(true)).collect();
	let t0 = Instant::now();
	std::thread::scope(|s| {
		for _ in 0..threads() {
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, || loop {
					let i = next.fetch_add(1, Relaxed);
					if i >= runs {
						break
					}
					let p = &plans[(i % plans.len() as u64) as usize];
					let seed = seed_of(base, p.name(), i);
					if std::env::var("SEEDS").is_ok() { eprintln!("start {}", seed); }
					let o = p.execute(&p.ops(seed), false);
					if std::env::var("SEEDS").is_ok() { eprintln!("end {}", seed); }
					cov.lock().unwrap().merge(&o.cov);
					let mut seen = seen.lock().unwrap();
					for (st, v) in o.viols {
						let words: Vec<&str> = v.text.split(|c: char| !c.is_alphabetic()).filter(|w| w.len() > 2).collect();
						let k = format!("{} {} {}", v.prop, v.sig, words[..words.len().min(14)].join(" "));
						let e = seen.entry(k).or_insert((0, format!("{}:{} step {}: {}", p.name(), seed, st, v.text)));
						e.0 += 1;
					}
				})
				.unwrap();
		}
	});
	let seen = seen.into_inner().unwrap();
	let mut l: Vec<_> = seen.into_iter().collect();
	l.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
	for (k, (n, t)) in l.iter().take(60) {
		println!("{} x {}\n      {}", n, k, t);
	}
	let cov = cov.into_inner().unwrap();
	println!("{} kinds of failures, {:?}", l.len(), t0.elapsed());
	if only.is_some() || std::env::var("COV").is_ok() {
		println!("{:#?}\n{:#?}", cov.n, cov.shapes);
	}
	0
}
pub fn check(prop: &str, tier: &str) -> i32 {
	let prop = crate::farm::name(prop);
	let t0 = Instant::now();
	let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
	let (runs, budget) = profiles::effort(prop, tier);
	let plans: Vec<Plan> = profiles::of(prop).iter().map(|n| Plan::named(n)).collect();
	let farm = Farm::new(&plans, threads());
	let s = search(prop, &plans, &farm, base, budget, runs);
	let known = known();
	for k in known.iter().filter(|k| k.prop == prop) {
		let n = s.known.get(&format!("{} {}", k.prop, k.sig)).copied().unwrap_or(0);
		println!("KNOWN-FINDING: property={} {} [{}, met {} times]", prop, k.text, k.sig, n);
	}
	let mut code = 0;
	if let Some((_, p, seed, v, step)) = &s.found {
		let (of, sig) = (v.prop, v.sig.clone());
		let at = plans.iter().position(|x| x.name() == p.name()).unwrap();
		let fails = |ops: &[Op]| farm.run(at, 0, ops, false, prop).viols.iter().any(|x| x.1.prop == of && x.1.sig == sig);
		let ops = if sig == "repeat" || sig == "hang" { p.ops(*seed) } else { minimise(p.ops(*seed), Some(*step), Duration::from_secs(60), &fails) };
		let o = farm.run(at, 0, &ops, true, prop);
		let v = o.viols.iter().find(|x| x.1.prop == of && x.1.sig == sig).map(|x| x.1.clone()).unwrap_or(v.clone());
		let path = write_replay(prop, p, *seed, &ops, &v, o.trace);
		evidence(prop, tier, &s, t0.elapsed().as_secs_f64(), Some(&v.text));
		println!("profile {} seed {}, {} of {} operations left: {}", p.name(), seed, ops.len(), p.ops(*seed).len(), v.text);
		println!("VIOLATION property={} replay={}", prop, path);
		code = 1;
	} else if let Some(b) = &s.broken {
		eprintln!("{}", b);
		code = 2;
	} else {
		evidence(prop, tier, &s, t0.elapsed().as_secs_f64(), None);
		println!("{} held in {} runs ({} repeated), {} blocks, {:.1} s", prop, s.runs, s.again, s.cov.n.get("blocks").unwrap_or(&0), t0.elapsed().as_secs_f64());
	}
	code
}
fn evidence(prop: &str, tier: &str, s: &Search, wall: f64, viol: Option<&str>) {
	let pick = |f: &dyn Fn(&str) -> bool| s.cov.n.iter().filter(|x| f(x.0)).map(|(k, n)| (k.clone(), json!(n))).collect::<serde_json::Map<_, _>>();
	let faults: serde_json::Map<String, Value> = s
		.cov
		.n
		.iter()
		.filter_map(|(k, n)| match k.strip_prefix("fault: ") {
			Some(f) => Some((f.to_string(), json!(n))),
			None if k == "reorganisations" => Some((k.clone(), json!(n))),
			None => None,
		})
		.collect();
	let (real, stub) = profiles::parts(prop);
	let j = json!({
		"property": prop,
		"tier": tier,
		"level": "exploration",
		"seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
		"wall_s": (wall * 100.0).round() / 100.0,
		"coverage": {
			"evaluations": s.runs,
			"distinct_nontrivial": s.heads.len(),
			"rule": format!("one evaluation is one simulated run (one seed); non-trivial if it executed at least one of: {}; distinct by fingerprint of its final state, event counts and schedule", telling(prop).join(", ")),
			"samples": s.samples.values().collect::<Vec<_>>(),
			"runs_repeated_and_compared": s.again,
			"runs_per_hour": (s.runs as f64 / wall.max(0.01) * 3600.0).round(),
			"simulated_seconds": s.sim_time / 1000,
			"faults_injected": faults,
			"distinct_states": s.cov.states.len(),
			"distinct_call_outcomes": s.cov.shapes.len(),
			"executed": pick(&|k| !k.starts_with("fault: ")),
			"call_outcomes": s.cov.shapes.iter().filter(|x| telling(prop).iter().any(|t| t.strip_prefix("ran ").map(|t| x.0.starts_with(t)).unwrap_or(false))).map(|(k, n)| (k.clone(), json!(n))).collect::<serde_json::Map<_, _>>(),
			"real_code": real,
			"stubs": stub,
			"known_findings_met": s.known,
		},
		"violations": viol.is_some() as u32,
		"violation": viol,
		"assumptions": profiles::assumed(prop),
	});
	let dir = format!("{}/evidence", ROOT);
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(format!("{}/{}.json", dir, prop), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}
