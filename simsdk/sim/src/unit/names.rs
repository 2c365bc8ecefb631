//! Users who try look-alikes: several people write the same name their way (case, spaces, marks, confusable characters), nodes
//! canonicalize what reaches them, again and in any order, and everybody must agree.
use super::*;
use crate::refhandle as R;
use crate::rng::Rng;
use crate::world::Op;
use handles_utils::{converter as C, validator as V};

const OPS: &[(&str, u32)] = &[("write", 20), ("disguise", 60), ("scramble", 20), ("reserved", 12), ("block", 10), ("display", 15), ("sweep", 8)];
pub fn unit() -> Unit {
	Unit { name: "names", ops: OPS, len: (30, 80), run }
}
fn seed(ops: &[Op]) -> u64 {
	ops.iter().fold(3, |a, o| (a ^ o.r).wrapping_mul(0x9e37_79b9_7f4a_7c15))
}
fn run(ops: &[Op], trace: bool) -> Outcome {
	isolated(seed(ops), || {
		let mut x = Run::new(trace);
		let mut names: Vec<String> = vec![];
		for (i, o) in ops.iter().enumerate() {
			x.step = i + 1;
			x.time += 1000;
			step(&mut x, OPS[o.kind as usize].0, &mut Rng::new(o.r), &mut names);
		}
		x.done()
	})
}
/// any character of the supported sets
fn letter(r: &mut Rng) -> char {
	let l = R::ranges();
	loop {
		// small and large sets alike, then any
		let (a, b) = *r.pick(l);
		if let Some(c) = char::from_u32(r.range(a as u64, b as u64) as u32) {
			if !R::BLOCKED.contains(c) {
				return c
			}
		}
	}
}
fn ascii(r: &mut Rng) -> char {
	loop {
		let c = (0x20 + r.below(95) as u8) as char;
		if !R::BLOCKED.contains(c) {
			return c
		}
	}
}
fn fresh(r: &mut Rng) -> String {
	let latin = r.pct(50);
	(0..r.range(1, 20)).map(|_| if latin || r.pct(20) { ascii(r) } else { letter(r) }).collect()
}
const SPACES: [char; 12] = [' ', '\t', '\n', '\r', '\u{b}', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{3000}'];
const MARKS: [char; 10] = ['\u{300}', '\u{301}', '\u{308}', '\u{323}', '\u{327}', '\u{338}', '\u{345}', '\u{1dc4}', '\u{20d0}', '\u{fe20}'];
fn disguise(s: &str, r: &mut Rng) -> String {
	let mut o = String::new();
	let pct = *r.pick(&[10, 30, 60, 100]);
	for c in s.chars() {
		if !r.pct(pct) {
			o.push(c);
			continue
		}
		match r.below(6) {
			0 => o.extend(if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }.to_string().chars()),
			1 => {
				o.push(*r.pick(&SPACES));
				o.push(c);
			},
			2 => {
				o.push(c);
				for _ in 0..r.range(1, 3) {
					o.push(*r.pick(&MARKS));
				}
			},
			_ => {
				let l = R::lookalikes(c);
				o.push(if l.is_empty() { c } else { *r.pick(&l) });
			},
		}
	}
	o
}
/// known finding: L becomes l, but l becomes 1
fn letter_l(canon: &str) -> String {
	canon.replace('l', "1")
}
fn guarded<T>(x: &mut Run, what: &str, s: &str, f: impl FnOnce() -> T) -> Option<T> {
	match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
		Ok(t) => Some(t),
		Err(e) => {
			x.fail("C08", "panic", format!("{} {:?} panics with {}", what, s, crate::chain::panic_text(e)));
			None
		},
	}
}
/// canonical form of the tree, compared with the reference and with itself
fn canonical(x: &mut Run, s: &str) -> Option<String> {
	let c = guarded(x, "canonicalizing", s, || C::convert_to_canonical(s))?;
	x.did("names canonicalized");
	x.seen(c.as_bytes());
	let want = R::canonical(s);
	if c != want {
		x.fail("C08", "canonical", format!("{:?} has the canonical form {:?}, not {:?}", s, c, want));
		return None
	}
	if guarded(x, "canonicalizing", s, || C::convert_to_canonical(s))? != c {
		x.fail("C08", "canonical", format!("{:?} gets another canonical form the second time", s));
	}
	let again = guarded(x, "canonicalizing", &c, || C::convert_to_canonical(&c))?;
	if again != R::canonical(&c) {
		x.fail("C08", "canonical", format!("{:?} has the canonical form {:?}, not {:?}", c, again, R::canonical(&c)));
	}
	if again != c && R::supported(s) {
		// known finding: white space that appears only when a character is taken apart stays
		let packed = |s: &str| letter_l(s).split_whitespace().collect::<String>();
		let sig = if again == letter_l(&c) {
			"letter-l"
		} else if again == letter_l(&c).replace('ö', "0") {
			"marked-replacement"
		} else if packed(&again) == packed(&c).replace('ö', "0") {
			"inner-space"
		} else {
			"unstable"
		};
		x.fail("C08", sig, format!("the canonical form {:?} of {:?} becomes {:?} when canonicalized again", c, s, again));
	}
	Some(c)
}
/// what the validator says, compared with the reference
fn judged(x: &mut Run, s: &str) {
	let c = R::canonical(s);
	let Some(b) = guarded(x, "looking for blocked characters in", s, || V::contains_blocked_characters(s)) else { return };
	if b != R::blocked(s) {
		x.fail("C08", "blocked", format!("{:?} is said {} to contain blocked characters", s, if b { "" } else { "not" }));
	}
	let Some(r) = guarded(x, "looking for reserved words in", s, || V::is_reserved_handle(s)) else { return };
	if r != R::reserved(s, &c) {
		x.fail("C08", "reserved", format!("{:?} (canonical {:?}) is said {} to be reserved", s, c, if r { "" } else { "not" }));
	}
	// only characters of the basic plane are told apart (known finding of the chain simulation)
	if s.chars().all(|c| (c as u32) < 0x10000) {
		let Some(u) = guarded(x, "looking for unsupported characters in", s, || V::consists_of_supported_unicode_character_sets(s)) else { return };
		if u != R::supported(s) {
			x.fail("C08", "supported", format!("{:?} is said {} to consist of supported characters", s, if u { "" } else { "not" }));
		}
	}
	x.did("names judged");
}
fn step(x: &mut Run, kind: &str, r: &mut Rng, names: &mut Vec<String>) {
	match kind {
		"write" => {
			let s = fresh(r);
			x.note(|| format!("write {:?}", s));
			judged(x, &s);
			canonical(x, &s);
			names.push(s);
		},
		"disguise" => {
			let s = if names.is_empty() { fresh(r) } else { r.pick(names).clone() };
			let d = disguise(&s, r);
			x.note(|| format!("disguise {:?} as {:?}", s, d));
			judged(x, &d);
			let (Some(a), Some(b)) = (canonical(x, &s), canonical(x, &d)) else { return };
			if a != b {
				let sig = if letter_l(&a) == letter_l(&b) { "letter-l" } else { "lookalike" };
				x.fail("C08", sig, format!("{:?} and its look-alike {:?} have different canonical forms {:?} and {:?}", s, d, a, b));
			}
			x.did("look-alikes");
			if r.pct(40) {
				names.push(d);
			}
		},
		"scramble" => {
			let s: String = (0..r.range(0, 12)).filter_map(|_| char::from_u32(if r.pct(80) { r.below(0x10000) } else { r.below(0x110000) } as u32)).collect();
			x.note(|| format!("scramble {:?}", s));
			judged(x, &s);
			// characters the reference table does not know are not supported either
			if s.chars().all(|c| R::table().contains_key(&c) || R::supported(&c.to_string())) {
				canonical(x, &s);
			} else {
				guarded(x, "canonicalizing", &s, || C::convert_to_canonical(&s));
			}
		},
		"reserved" => {
			let mut s = r.pick(&R::RESERVED).to_string();
			if r.pct(80) {
				s = disguise(&s, r);
			}
			if r.pct(25) {
				let k = r.idx(s.chars().count() + 1);
				s = s.chars().take(k).chain([ascii(r)]).chain(s.chars().skip(k)).collect();
			}
			x.note(|| format!("reserved {:?}", s));
			judged(x, &s);
			x.did("reserved words");
		},
		"block" => {
			let mut s = fresh(r);
			let b: Vec<char> = R::BLOCKED.chars().collect();
			let c = *r.pick(&b);
			let near = char::from_u32((c as u32).wrapping_add_signed(r.below(3) as i32 - 1)).unwrap_or(c);
			let k = r.idx(s.chars().count() + 1);
			s = s.chars().take(k).chain([near]).chain(s.chars().skip(k)).collect();
			x.note(|| format!("block {:?}", s));
			judged(x, &s);
		},
		"display" => {
			let base: String = if r.pct(60) { fresh(r) } else { names.last().cloned().unwrap_or_default() };
			let suffix = if r.pct(50) { r.range(10, 99) as u16 } else { r.next() as u16 };
			let d = format!("{}{}{}", base, C::HANDLE_DELIMITER, suffix);
			if C::HANDLE_DELIMITER != '.' {
				x.fail("C08", "delimiter", format!("the delimiter is {:?}", C::HANDLE_DELIMITER));
			}
			x.note(|| format!("display {:?}", d));
			let Some(p) = guarded(x, "splitting", &d, || C::split_display_name(&d)) else { return };
			if !base.contains('.') && p != Some((base.clone(), suffix)) {
				x.fail("C08", "split", format!("{:?} built of {:?} and {} splits into {:?}", d, base, suffix, p));
			}
			// no display name at all
			let bad = match r.below(5) {
				0 => base.clone(),
				1 => format!("{}.", base),
				2 => format!("{}.{}.{}", base, suffix, suffix),
				3 => format!("{}.{}x", base, suffix),
				_ => format!("{}.{}", base, 65536 + r.below(100000)),
			};
			let Some(p) = guarded(x, "splitting", &bad, || C::split_display_name(&bad)) else { return };
			if !base.contains('.') && p.is_some() {
				x.fail("C08", "split", format!("{:?} is taken for a display name: {:?}", bad, p));
			}
			x.did("display names split");
		},
		_ => {
			// one block of characters, each for itself
			let a = (r.below(0x10000 / 64) * 64) as u32;
			x.note(|| format!("sweep from {:x}", a));
			for u in a..a + 64 {
				let Some(c) = char::from_u32(u) else { continue };
				let s = c.to_string();
				judged(x, &s);
				if R::table().contains_key(&c) || R::supported(&s) {
					canonical(x, &s);
				}
			}
			x.did("character blocks swept");
		},
	}
}
