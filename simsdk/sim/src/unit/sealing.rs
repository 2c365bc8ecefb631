//! A development node that seals blocks by itself: transactions and commands come in, the timer ticks, clients leave without
//! waiting for their answer, proposals and imports fail or take long, the node restarts.
use super::*;
use crate::rng::Rng;
use crate::world::Op;
use frequency_sealing::world::{self as W, with, Blk, Fault, Hash};
use frequency_sealing::{block_sealing, config, Answer, Configuration, CreatedBlock, EngineCommand, OffchainWorkerConfig, Role, SealingMode, MANUAL_SEAL_ENGINE_ID};
use futures::channel::oneshot;
use std::collections::BTreeSet;

const OPS: &[(&str, u32)] = &[("submit", 40), ("seal", 22), ("finalize", 6), ("tick", 40), ("wait", 14), ("fault", 22), ("drop", 4), ("restart", 3), ("jump", 4)];
pub fn unit() -> Unit {
	Unit { name: "sealing", ops: OPS, len: (30, 90), run }
}
#[derive(Debug, Clone)]
struct Cmd {
	empty: bool,
	fin: bool,
	parent: Option<Hash>,
}
type Wait<T> = oneshot::Receiver<Result<T, String>>;
struct Node {
	mode: SealingMode,
	period: u64,
	empty: bool,
	role: Role,
	offchain: bool,
	start: u64,
	/// ticks and notifications already accounted for
	ticks: u64,
	notes: u64,
	cmds: Vec<(Cmd, Option<Wait<CreatedBlock<Hash>>>)>,
	fins: Vec<(Hash, Option<Vec<u8>>, Option<Wait<()>>)>,
	/// since the last rest
	blocks: usize,
	hits: usize,
	best: Hash,
	last: Hash,
	next: u32,
	dead: bool,
	down: bool,
}
fn run(ops: &[Op], trace: bool) -> Outcome {
	let seed = ops.iter().fold(11, |a: u64, o| (a ^ o.r).wrapping_mul(0x9e37_79b9_7f4a_7c15));
	isolated(seed, || {
		let mut x = Run::new(trace);
		W::reset(seed);
		let mut n = boot(&mut x, &mut Rng::new(ops.first().map_or(0, |o| o.r)), 0);
		for (i, o) in ops.iter().enumerate() {
			if n.dead {
				break
			}
			x.step = i + 1;
			step(&mut x, OPS[o.kind as usize].0, &mut Rng::new(o.r), &mut n);
		}
		if !n.dead {
			x.step = ops.len() + 1;
			recover(&mut x, &mut n);
		}
		x.time = with(|w| w.now) - 1_700_000_000_000;
		for b in with(|w| w.blocks.clone()) {
			x.seen(format!("{:?}", b).as_bytes());
		}
		x.cov.add("blocks", with(|w| w.blocks.len() as u64 - 1));
		x.cov.add("reorganisations", with(|w| w.switches));
		for f in with(|w| w.hit.clone()) {
			x.fault(match f {
				Fault::Init => "block cannot be begun",
				Fault::Inherents => "inherents missing",
				Fault::Propose => "proposal failed",
				Fault::Import => "import refused",
				Fault::Best => "best chain unknown",
				Fault::Full => "transactions do not fit",
				Fault::Slow(_) => "slow block production",
			});
		}
		W::reset(1);
		x.done()
	})
}
fn boot(x: &mut Run, r: &mut Rng, next: u32) -> Node {
	let mode = *r.pick(&[SealingMode::Instant, SealingMode::Manual, SealingMode::Interval, SealingMode::Interval]);
	let mut n = Node {
		mode,
		period: *r.pick(&[1, 2, 6, 12, 300]),
		empty: r.pct(50),
		role: if r.pct(94) { Role::Authority } else { Role::Full },
		offchain: r.pct(50),
		start: with(|w| w.now),
		ticks: 0,
		notes: with(|w| w.notified),
		cmds: vec![],
		fins: vec![],
		blocks: 0,
		hits: 0,
		best: 0,
		last: 0,
		next,
		dead: false,
		down: false,
	};
	x.note(|| format!("start {:?}, every {} s, empty blocks {}, {:?}, off-chain workers {}", n.mode, n.period, n.empty, n.role, n.offchain));
	let c = Configuration { network: config::NetworkConfiguration, offchain_worker: OffchainWorkerConfig { enabled: n.offchain, indexing_enabled: true }, role: n.role };
	mark(&mut n);
	match crate::chain::guarded(|| block_sealing::frequency_dev_sealing(c, n.mode, n.period as u16, n.empty).map(|t| std::mem::forget(t)).map_err(|e| e.0)) {
		Ok(Ok(())) => (),
		Ok(Err(e)) | Err(e) => {
			x.fail("C23", "start", format!("the node does not start: {}", e));
			n.dead = true;
			return n
		},
	}
	let first = n.mode == SealingMode::Interval && n.role.is_authority();
	rest(x, &mut n, first);
	let (net, runs, rpc, sink) = with(|w| (w.network_started, w.offchain_runs, w.rpc.as_ref().map(|m| m.offchain), w.rpc.as_ref().map(|m| m.sink.is_some())));
	if !net || rpc.is_none() {
		x.fail("C23", "start", "the node starts without network or queries".into());
	}
	if runs != n.offchain as u32 || rpc != Some(n.offchain) {
		x.fail("C23", "offchain", format!("off-chain workers are {} but ran {} times", n.offchain, runs));
	}
	if sink != Some(n.role.is_authority()) {
		x.fail("C23", "commands", format!("a node with role {:?} {} commands", n.role, if sink == Some(true) { "takes" } else { "takes no" }));
	}
	n
}
/// remembers how things are at rest
fn mark(n: &mut Node) {
	with(|w| {
		n.blocks = w.blocks.len();
		n.hits = w.hit.len();
		n.best = w.best;
		n.last = w.finalized;
		n.notes = w.notified;
		if n.mode == SealingMode::Interval {
			n.ticks = if w.now == n.start && n.ticks == 0 { 0 } else { (w.now - n.start) / (n.period * 1000) + 1 };
		}
	})
}
fn fail(x: &mut Run, n: &mut Node, sig: &str, text: String) {
	x.fail("C23", sig, format!("{:?} sealing every {} s, empty blocks {}: {}", n.mode, n.period, n.empty, text));
	n.dead = true;
}
/// Lets the node come to rest and compares what it sealed with what was asked for. `first`: the timer starts now.
fn rest(x: &mut Run, n: &mut Node, first: bool) {
	let (pool, switches) = with(|w| (w.ready.clone(), w.switches));
	match crate::chain::guarded(W::settle) {
		Ok(Ok(())) => (),
		Ok(Err(e)) => return fail(x, n, "restless", e),
		Err(e) => return fail(x, n, "panic", format!("the node panics with {}", e)),
	}
	if let Some(t) = with(|w| w.ended.first().cloned()) {
		return fail(x, n, "stopped", format!("the task {} ended", t))
	}
	if with(|w| w.busy) {
		return
	}
	let authority = n.role.is_authority();
	let mut trig: Vec<Cmd> = n.cmds.iter().map(|c| c.0.clone()).collect();
	let (new, hits, ready, now, notified) =
		with(|w| (w.blocks[n.blocks..].to_vec(), w.hit[n.hits..].to_vec(), w.ready.iter().copied().collect::<BTreeSet<_>>(), w.now, w.notified));
	if authority {
		match n.mode {
			SealingMode::Instant =>
				for _ in n.notes..notified {
					trig.push(Cmd { empty: true, fin: true, parent: None });
				},
			SealingMode::Interval => {
				let due = (now - n.start) / (n.period * 1000) + 1;
				for _ in n.ticks..due {
					trig.push(Cmd { empty: n.empty, fin: true, parent: None });
				}
			},
			SealingMode::Manual => (),
		}
	}
	let hard = hits.iter().filter(|f| !matches!(f, Fault::Slow(_) | Fault::Full)).count();
	let full = hits.contains(&Fault::Full);
	let calm = n.fins.is_empty() && !hits.iter().any(|f| matches!(f, Fault::Slow(_)));
	x.note(|| format!("  at rest: {} triggers, {} new blocks{}{}", trig.len(), new.len(), if hits.is_empty() { String::new() } else { format!(", {:?}", hits) }, if ready.is_empty() { String::new() } else { format!(", {} waiting", ready.len()) }));
	let show = |b: &Blk| format!("block {} with {} transactions on {}, {}", b.number, b.txs.len(), b.parent % 1000, if b.sealed_final { "final" } else { "not final" });
	for b in &new {
		x.did("blocks sealed");
		x.note(|| format!("  {}", show(b)));
	}
	// what one trigger does is exactly known
	let mut want: Option<bool> = None;
	if trig.len() == 1 && calm {
		let t = &trig[0];
		let parent = t.parent.unwrap_or(n.best);
		let fits = with(|w| w.block(parent).is_some() && (!t.fin || w.chain(parent).iter().any(|b| b.hash == n.last)));
		let here: BTreeSet<u32> = with(|w| {
			let have = w.included(parent);
			pool.iter().copied().filter(|t| !have.contains(t)).collect()
		});
		let some = !here.is_empty() && !full;
		let due = hard == 0 && fits && (t.empty || some);
		if first && n.blocks + new.len() == n.blocks {
			// the first tick may as well come one interval later
		} else if due != (new.len() == 1) || new.len() > 1 {
			return fail(x, n, "wrong-number", format!("{:?} with {} waiting leads to {} blocks, not {}", t, here.len(), new.len(), due as u32))
		} else if let Some(b) = new.first() {
			let txs: BTreeSet<u32> = b.txs.iter().copied().collect();
			if b.parent != parent || b.sealed_final != t.fin || txs != if full { BTreeSet::new() } else { here.clone() } {
				return fail(x, n, "wrong-block", format!("{:?} with {} waiting leads to {}", t, here.len(), show(b)))
			}
		}
		want = Some(due);
		x.did("single triggers");
	} else {
		x.did("several triggers");
	}
	// whatever the order
	let (e, f) = (trig.iter().filter(|t| t.empty).count(), trig.iter().filter(|t| t.fin).count());
	let empty = new.iter().filter(|b| b.txs.is_empty()).count();
	let fin = new.iter().filter(|b| b.sealed_final).count();
	if new.len() > trig.len() {
		return fail(x, n, "unasked", format!("{} triggers lead to {} blocks", trig.len(), new.len()))
	}
	if empty > e {
		return fail(x, n, "unasked-empty", format!("{} empty blocks are sealed, but only {} of {} triggers allow them", empty, e, trig.len()))
	}
	if fin > f || new.len() - fin > trig.len() - f {
		return fail(x, n, "finality", format!("{} of {} blocks are final as they are sealed, but {} of {} triggers ask for it", fin, new.len(), f, trig.len()))
	}
	let free = trig.iter().filter(|t| t.parent.is_none()).count();
	let sure = trig.iter().filter(|t| t.parent.is_none() && t.empty).count();
	// commands for other forks may make a later block impossible to finalize
	let plain = free == trig.len() && calm && with(|w| w.switches) == switches && with(|w| w.chain(n.best).iter().any(|b| b.hash == n.last));
	if plain && !first && new.len() + hard < sure {
		return fail(x, n, "missing", format!("{} triggers that allow empty blocks and {} failures lead to {} blocks only", sure, hard, new.len()))
	}
	if plain && !first && !full && free > hard && !ready.is_empty() {
		return fail(x, n, "left-waiting", format!("{} triggers and {} failures leave {} transactions waiting", free, hard, ready.len()))
	}
	// answers
	for (c, w) in std::mem::take(&mut n.cmds) {
		let Some(mut w) = w else { continue };
		match w.try_recv() {
			Ok(None) => return fail(x, n, "unanswered", format!("the command {:?} gets no answer", c)),
			Ok(Some(Ok(b))) => {
				x.did("commands answered");
				if !new.iter().any(|x| x.hash == b.hash) || want == Some(false) {
					return fail(x, n, "answer", format!("the command {:?} is answered with a block that was not sealed", c))
				}
			},
			Ok(Some(Err(_))) | Err(_) =>
				if want == Some(true) {
					return fail(x, n, "answer", format!("the command {:?} is answered with an error although its block was sealed", c))
				},
		}
	}
	let alone = trig.is_empty() && n.fins.len() == 1;
	for (h, j, w) in std::mem::take(&mut n.fins) {
		let is = with(|w| w.block(h).map_or(false, |b| b.finalized));
		let line = with(|w| w.block(h).is_some() && w.chain(h).iter().any(|b| b.hash == n.last));
		if alone && line && !is {
			return fail(x, n, "not-finalized", format!("a command to finalize block {} does not", h % 1000))
		}
		if let Some(mut w) = w {
			match w.try_recv() {
				Ok(None) => return fail(x, n, "unanswered", "a command to finalize gets no answer".into()),
				Ok(Some(Ok(()))) =>
					if !is || (j.is_some() && !with(|w| w.justified.contains(&(h, MANUAL_SEAL_ENGINE_ID, j.clone().unwrap())))) {
						return fail(x, n, "not-finalized", format!("block {} is said to be finalized", h % 1000))
					},
				Ok(Some(Err(_))) | Err(_) =>
					if alone && line {
						return fail(x, n, "answer", "a command to finalize is answered with an error".into())
					},
			}
		}
	}
	mark(n);
	if with(|w| w.now) == n.start && n.mode == SealingMode::Interval {
		n.ticks = 1;
	}
}
fn command(n: &mut Node, x: &mut Run, c: EngineCommand<Hash>) {
	let sent = with(|w| w.rpc.as_mut().and_then(|m| m.sink.as_mut().map(|s| s.try_send(c).map_err(|e| e.to_string()))));
	match sent {
		Some(Ok(())) => (),
		Some(Err(e)) => fail(x, n, "commands", format!("the node takes no commands any more: {}", e)),
		None => (),
	}
}
fn some_block(r: &mut Rng) -> Hash {
	with(|w| match r.below(8) {
		0 => 4,
		1 | 2 => w.blocks[r.idx(w.blocks.len())].hash,
		3 => w.finalized,
		_ => w.blocks[w.blocks.len() - 1 - r.idx(w.blocks.len().min(4))].hash,
	})
}
fn step(x: &mut Run, kind: &str, r: &mut Rng, n: &mut Node) {
	let calm = r.pct(75);
	match kind {
		"submit" => {
			let k = if r.pct(80) { 1 } else { r.range(2, 5) };
			x.note(|| format!("submit {} transactions", k));
			for _ in 0..k {
				let t = n.next;
				n.next += 1;
				let needs = (r.pct(12) && t > 0).then(|| t - 1);
				with(|w| w.submit(t, needs));
			}
		},
		"seal" if n.role.is_authority() => {
			let k = if r.pct(85) { 1 } else { r.range(2, 3) };
			for _ in 0..k {
				let c = Cmd { empty: r.pct(50), fin: r.pct(50), parent: r.pct(25).then(|| some_block(r)) };
				x.note(|| format!("command {:?}", c));
				let (mut tx, mut rx): (Answer<CreatedBlock<Hash>>, _) = (None, None);
				if r.pct(70) {
					let (a, b) = oneshot::channel();
					tx = Some(a);
					if r.pct(85) {
						rx = Some(b);
					} else {
						x.fault("client gone before the answer");
					}
				}
				command(n, x, EngineCommand::SealNewBlock { create_empty: c.empty, finalize: c.fin, parent_hash: c.parent, sender: tx });
				n.cmds.push((c, rx));
			}
		},
		"finalize" if n.role.is_authority() => {
			let h = some_block(r);
			let j = r.pct(40).then(|| vec![r.next() as u8; 3]);
			x.note(|| format!("command to finalize {}", h % 1000));
			let (a, b) = oneshot::channel();
			command(n, x, EngineCommand::FinalizeBlock { hash: h, sender: Some(a), justification: j.clone() });
			n.fins.push((h, j, r.pct(80).then_some(b)));
		},
		"tick" => {
			let now = with(|w| w.now);
			let p = n.period * 1000;
			let at = n.start + ((now - n.start) / p + 1) * p;
			x.note(|| format!("the clock reaches the next interval ({} ms later)", at - now));
			// once just before, once then
			if r.pct(20) {
				W::advance(at - 1);
				rest(x, n, false);
				if n.dead {
					return
				}
			}
			W::advance(at);
		},
		"wait" => {
			let d = r.range(1, 5000);
			x.note(|| format!("{} ms pass", d));
			W::advance(with(|w| w.now) + d);
		},
		"jump" => {
			let d = n.period * 1000 * r.range(1, 6) + r.below(1000);
			x.note(|| format!("the machine sleeps for {} ms", d));
			x.fault("machine asleep for several intervals");
			W::advance(with(|w| w.now) + d);
		},
		"fault" => {
			let f = match r.below(9) {
				0 => Fault::Init,
				1 => Fault::Inherents,
				2 => Fault::Best,
				3 | 4 => Fault::Propose,
				5 => Fault::Import,
				6 => Fault::Full,
				_ => Fault::Slow(r.range(1, 20_000)),
			};
			x.note(|| format!("next time: {:?}", f));
			with(|w| w.faults.push_back(f));
			return
		},
		"drop" => {
			with(|w| {
				if !w.ready.is_empty() {
					let i = r.idx(w.ready.len());
					let t = w.ready.remove(i);
					w.future.retain(|_, n| *n != t);
				}
			});
			x.note(|| "a waiting transaction becomes invalid".into());
			x.fault("waiting transaction invalid");
		},
		"restart" => {
			x.note(|| "the node restarts".into());
			x.fault("node restarted");
			let next = n.next;
			W::crash();
			*n = boot(x, r, next);
			return
		},
		_ => return,
	}
	if calm {
		rest(x, n, false);
	}
}
/// Once faults stop, what waits is sealed by the next trigger.
fn recover(x: &mut Run, n: &mut Node) {
	with(|w| w.faults.clear());
	for _ in 0..50 {
		rest(x, n, false);
		if n.dead {
			return
		}
		let Some(t) = with(|w| if w.busy { w.next_timer() } else { None }) else { break };
		W::advance(t);
	}
	if !n.role.is_authority() {
		return
	}
	x.note(|| "faults stop".into());
	match n.mode {
		SealingMode::Instant => with(|w| w.submit(n.next, None)),
		SealingMode::Interval => {
			let t = with(|w| w.now) + n.period * 1000;
			W::advance(t)
		},
		SealingMode::Manual => {
			let c = Cmd { empty: false, fin: true, parent: None };
			// the best block may be on a fork that cannot be finalized any more
			let fin = with(|w| w.chain(w.best).iter().any(|b| b.hash == w.finalized));
			let c = Cmd { fin, ..c };
			command(n, x, EngineCommand::SealNewBlock { create_empty: c.empty, finalize: c.fin, parent_hash: None, sender: None });
			n.cmds.push((c, None));
		},
	}
	rest(x, n, false);
	if !n.dead && with(|w| !w.ready.is_empty() && w.chain(w.best).iter().any(|b| b.hash == w.finalized)) {
		fail(x, n, "left-waiting", "transactions are still waiting after the faults stopped".into());
	}
	x.did("recoveries");
}
