//! Nodes and clients drawing suffixes: each opens sequences for (range, base), draws from them a piece at a time while others do
//! the same, loses them in a restart and opens them again at a remembered cursor.
use super::*;
use crate::rng::Rng;
use crate::world::Op;
use handles_utils::suffix as S;
use std::collections::BTreeMap;

const OPS: &[(&str, u32)] = &[("open", 14), ("draw", 60), ("drain", 8), ("restart", 6), ("jump", 12), ("seed", 6)];
pub fn unit() -> Unit {
	Unit { name: "suffixes", ops: OPS, len: (40, 120), run }
}
type Key = (u16, u16, String);
/// drawn so far, order of earlier releases
type Seen = (BTreeMap<Key, Vec<u16>>, BTreeMap<Key, Vec<u16>>);
struct Client {
	key: Key,
	it: Box<dyn Iterator<Item = u16>>,
	at: usize,
}
fn run(ops: &[Op], trace: bool) -> Outcome {
	let seed = ops.iter().fold(5, |a: u64, o| (a ^ o.r).wrapping_mul(0x9e37_79b9_7f4a_7c15));
	isolated(seed, || {
		let mut x = Run::new(trace);
		let mut seen = Seen::default();
		let mut clients: Vec<Client> = vec![];
		let mut seeds: BTreeMap<String, u64> = BTreeMap::new();
		for (i, o) in ops.iter().enumerate() {
			x.step = i + 1;
			x.time += 1000;
			let mut r = Rng::new(o.r);
			let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step(&mut x, OPS[o.kind as usize].0, &mut r, &mut seen, &mut clients, &mut seeds)));
			if let Err(e) = e {
				x.fail("C07", "panic", format!("drawing suffixes panics with {}", crate::chain::panic_text(e)));
				break
			}
		}
		x.done()
	})
}
fn base(r: &mut Rng) -> String {
	let n = r.range(0, 40);
	let wide = *r.pick(&[0, 0, 10, 100]);
	(0..n).map(|_| if r.pct(wide) { char::from_u32(0x400 + r.below(0x800) as u32).unwrap() } else { *r.pick(&['a', 'b', 'c', 'd', '1', '_']) }).collect()
}
fn range(r: &mut Rng) -> (u16, u16) {
	match r.below(25) / 4 {
		// as the runtime has it
		0..=2 => (10, 99),
		3 => {
			let a = r.below(1000) as u16;
			(a, a + r.below(60) as u16)
		},
		4 => (0, r.below(300) as u16),
		5 => {
			let b = 65535 - if r.pct(50) { 0 } else { r.below(200) as u16 };
			(b - r.below(500) as u16, b)
		},
		// far more than a byte, a signed word or a page holds
		_ => {
			let n = *r.pick(&[1 << 10, 1 << 12, 40_000, 65_535u16]) - r.below(100) as u16;
			let a = r.below(65_536 - n as u64) as u16;
			(a, a + n)
		},
	}
}
fn open(k: &Key) -> Box<dyn Iterator<Item = u16>> {
	let b: &'static str = Box::leak(k.2.clone().into_boxed_str());
	Box::new(S::generate_unique_suffixes(k.0, k.1, b))
}
/// The element at a place of a sequence is the same whenever and by whomever it is drawn.
fn drew(x: &mut Run, seen: &mut Seen, k: &Key, at: usize, got: Option<u16>) {
	x.did("suffixes drawn");
	let size = (k.1 - k.0) as usize + 1;
	let (all, order) = (seen.0.entry(k.clone()).or_default(), &mut seen.1);
	match got {
		None if at < size => x.fail("C07", "exhausted", format!("{:?} is exhausted after {} of {} suffixes", k, at, size)),
		None => (),
		Some(s) if at >= size => x.fail("C07", "too-many", format!("{:?} gives a suffix {} after all {}", k, s, size)),
		Some(s) if s < k.0 || s > k.1 => x.fail("C07", "range", format!("{:?} gives {}", k, s)),
		Some(s) => {
			x.seen(&s.to_le_bytes());
			if at < all.len() {
				if all[at] != s {
					x.fail("C07", "sequence", format!("{:?} gives {} at {} where it gave {}", k, s, at, all[at]));
				}
			} else if all.len() < 1000 && all.contains(&s) {
				// (beyond, the order of earlier releases tells)
				x.fail("C07", "repeated", format!("{:?} gives {} at {} again", k, s, at));
			} else if at == all.len() {
				all.push(s);
				let want = order.entry(k.clone()).or_insert_with(|| crate::refhandle::sequence(k.0, k.1, &k.2))[at];
				if s != want {
					x.fail("C07", "release", format!("{:?} gives {} at {} where earlier releases gave {}", k, s, at, want));
				}
			}
		},
	}
}
fn step(x: &mut Run, kind: &str, r: &mut Rng, seen: &mut Seen, clients: &mut Vec<Client>, seeds: &mut BTreeMap<String, u64>) {
	match kind {
		"open" => {
			let known: Vec<Key> = seen.0.keys().cloned().collect();
			let key = if known.is_empty() || r.pct(50) {
				let (a, b) = range(r);
				(a, b, base(r))
			} else if r.pct(30) {
				let (a, b) = range(r);
				(a, b, r.pick(&known).2.clone())
			} else {
				r.pick(&known).clone()
			};
			x.note(|| format!("open {:?}", key));
			clients.push(Client { it: open(&key), key, at: 0 });
		},
		"draw" | "drain" if !clients.is_empty() => {
			let i = r.idx(clients.len());
			let size = (clients[i].key.1 - clients[i].key.0) as u64 + 2;
			let n = if kind == "drain" { size } else { r.range(1, 12) };
			x.note(|| format!("{} {} from {:?} at {}", kind, n, clients[i].key, clients[i].at));
			for _ in 0..n {
				let c = &mut clients[i];
				let got = c.it.next();
				drew(x, seen, &c.key, c.at, got);
				c.at += 1;
				if got.is_none() {
					break
				}
			}
			if kind == "drain" {
				x.did("ranges drained");
			}
		},
		"restart" => {
			x.note(|| "restart".into());
			x.fault("clients restarted");
			for c in clients.iter_mut() {
				c.it = open(&c.key);
				for _ in 0..c.at {
					c.it.next();
				}
			}
		},
		// the runtime asks for one place at a time
		"jump" if !seen.0.is_empty() => {
			let known: Vec<Key> = seen.0.keys().cloned().collect();
			let k = r.pick(&known).clone();
			let len = seen.0[&k].len();
			let at = if len > 0 && r.pct(70) { r.idx(len) } else { len };
			let got = open(&k).nth(at);
			x.note(|| format!("jump to {} of {:?}: {:?}", at, k, got));
			drew(x, seen, &k, at, got);
		},
		"seed" => {
			let b = base(r);
			let s = S::generate_seed(&b);
			if *seeds.entry(b.clone()).or_insert(s) != s || S::generate_seed(&b) != s {
				x.fail("C07", "seed", format!("{:?} has different seeds", b));
			}
		},
		_ => (),
	}
}
