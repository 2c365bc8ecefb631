//! What counts as the same handle: the reference table (character -> canonical characters) is fixed data of this framework.
use std::collections::HashMap;
use std::sync::OnceLock;

const CANON: &str = include_str!("../data/canonical.txt");
const SUPPORTED: &str = include_str!("../data/supported.txt");
pub const BLOCKED: &str = "\"#%(),.:;<>@\\`{}";
pub const RESERVED: [&str; 8] = ["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];

fn hex(s: &str) -> u32 {
	u32::from_str_radix(s, 16).unwrap()
}
pub fn table() -> &'static HashMap<char, String> {
	static T: OnceLock<HashMap<char, String>> = OnceLock::new();
	T.get_or_init(|| {
		CANON
			.lines()
			.map(|l| {
				let mut p = l.split(' ').map(hex).map(|u| char::from_u32(u).unwrap());
				(p.next().unwrap(), p.collect::<String>())
			})
			.collect()
	})
}
pub fn ranges() -> &'static Vec<(u32, u32)> {
	static T: OnceLock<Vec<(u32, u32)>> = OnceLock::new();
	T.get_or_init(|| SUPPORTED.lines().map(|l| l.split_once(' ').map(|(a, b)| (hex(a), hex(b))).unwrap()).collect())
}
pub fn canonical(s: &str) -> String {
	let t = table();
	let mut o = String::new();
	for c in s.chars() {
		match t.get(&c) {
			Some(k) => o.push_str(k),
			None => o.push(c),
		}
	}
	o
}
pub fn blocked(s: &str) -> bool {
	s.chars().any(|c| BLOCKED.contains(c))
}
pub fn supported(s: &str) -> bool {
	s.chars().all(|c| ranges().iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1))
}
pub fn reserved(s: &str, canon: &str) -> bool {
	RESERVED.iter().any(|w| *w == s || canonical(w) == canon)
}
/// characters whose canonical form is the same
pub fn lookalikes(c: char) -> Vec<char> {
	static T: OnceLock<HashMap<String, Vec<char>>> = OnceLock::new();
	let t = T.get_or_init(|| {
		let mut m: HashMap<String, Vec<char>> = HashMap::new();
		for (c, k) in table() {
			if k.chars().count() == 1 {
				m.entry(k.clone()).or_default().push(*c);
			}
		}
		for v in m.values_mut() {
			v.sort();
		}
		m
	});
	t.get(&canonical(&c.to_string())).cloned().unwrap_or_default()
}
/// The order in which suffixes are drawn: chains store how many were drawn only, so every release must draw them in this order.
pub fn sequence(min: u16, max: u16, canon: &str) -> Vec<u16> {
	use std::hash::Hasher;
	let mut h = twox_hash::XxHash64::with_seed(0);
	h.write(canon.as_bytes());
	h.write(&[0; 4]);
	let mut rng = oorandom::Rand32::new(h.finish());
	let mut left: Vec<u16> = (min..=max).collect();
	let mut out = vec![];
	for k in (0..left.len()).rev() {
		let j = rng.rand_range(min as u32..min as u32 + k as u32 + 1) - min as u32;
		left.swap(k, j as usize);
		out.push(left[k]);
	}
	out
}
