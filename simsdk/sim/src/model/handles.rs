//! Handles.
use super::*;
use frequency_runtime::Runtime;
use pallet_handles::Call as C;
use simsdk::codec::Encode;
use std::cell::RefCell;
use std::collections::HashMap;

pub const MORTALITY: u32 = 100;
pub const MIN: u16 = 10;
pub const MAX: u16 = 99;
pub const DELIM: char = '.';

thread_local! {
	static SEQ: RefCell<HashMap<String, Result<Vec<u16>, String>>> = RefCell::new(HashMap::new());
}
/// The order in which the suffixes of a base are handed out; an error when it is no permutation of the range.
pub fn sequence(canonical: &str) -> Result<Vec<u16>, String> {
	SEQ.with(|s| {
		s.borrow_mut()
			.entry(canonical.to_string())
			.or_insert_with(|| {
				let v: Vec<u16> = handles_utils::suffix::generate_unique_suffixes(MIN, MAX, canonical).collect();
				let mut w = v.clone();
				w.sort();
				if w != (MIN..=MAX).collect::<Vec<_>>() {
					return Err(format!("{:?} is no permutation of {}..={}", v, MIN, MAX))
				}
				let w = crate::refhandle::sequence(MIN, MAX, canonical);
				if v != w {
					return Err(format!("{:?} is not the order {:?} of earlier releases", v, w))
				}
				Ok(v)
			})
			.clone()
	})
}
/// What is wrong with a base handle.
pub const BEYOND: &str = "character beyond the basic plane";
pub fn refuse(base: &[u8]) -> Option<&'static str> {
	if base.len() > 32 {
		return Some("more than 32 bytes")
	}
	let Ok(s) = std::str::from_utf8(base) else { return Some("not UTF-8") };
	let n = s.chars().count();
	if !(3..=20).contains(&n) {
		return Some("length outside the limits")
	}
	if crate::refhandle::blocked(s) {
		return Some("blocked character")
	}
	let c = crate::refhandle::canonical(s);
	if crate::refhandle::reserved(s, &c) {
		return Some("reserved")
	}
	let odd = !crate::refhandle::supported(&c);
	if odd {
		// known: only the low 16 bits of a character are looked at
		let low: String = c.chars().map(|c| char::from_u32(c as u32 & 0xffff).unwrap_or('\u{1}')).collect();
		if !crate::refhandle::supported(&low) {
			return Some("unsupported character")
		}
	}
	if !(3..=20).contains(&c.chars().count()) {
		return Some("canonical length outside the limits")
	}
	if c.len() > 32 {
		return Some("canonical form longer than 32 bytes")
	}
	odd.then_some(BEYOND)
}
/// Splits at the last delimiter.
pub fn split(display: &[u8]) -> Option<(String, u16)> {
	let s = std::str::from_utf8(display).ok()?;
	let i = s.rfind(DELIM)?;
	Some((s[..i].to_string(), s[i + 1..].parse().ok()?))
}

impl M {
	fn claim(&mut self, id: u64, base: &[u8], expires: u32) -> R {
		need(!self.v.hand.name.contains_key(&id), "C06", "the MSA has a handle")?;
		match refuse(base) {
			Some(BEYOND) => self.known.push(("C08", "beyond-basic-plane")),
			Some(w) => return no("C08", w),
			None => (),
		}
		let base = std::str::from_utf8(base).unwrap();
		let canonical = crate::refhandle::canonical(base);
		let key = canonical.as_bytes().to_vec();
		let index = match self.v.hand.seq.get(&key) {
			Some((i, min)) if *min == MIN => *i as usize + 1,
			_ => 0,
		};
		let seq = match sequence(&canonical) {
			Ok(s) => s,
			Err(_) => return Err(Stop::Maybe("the sequence is broken")),
		};
		need(index < seq.len(), "C07", "suffixes exhausted")?;
		let suffix = seq[index];
		let display = format!("{}{}{}", base, DELIM, suffix).into_bytes();
		let h = self.hand();
		h.owner.insert((key.clone(), suffix), id);
		h.seq.insert(key.clone(), (index as u16, MIN));
		h.name.insert(id, (display, expires));
		self.suffixed.push((key, suffix));
		Ok(())
	}
	fn drop_handle(&mut self, id: u64) -> R {
		let Some((d, _)) = self.v.hand.name.get(&id).cloned() else { return no("C06", "no handle") };
		let Some((base, suffix)) = split(&d) else { return Err(Stop::Maybe("display name")) };
		let key = crate::refhandle::canonical(&base).into_bytes();
		let h = self.hand();
		h.name.remove(&id);
		h.owner.remove(&(key, suffix));
		Ok(())
	}
	pub fn handles_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		let n = self.env.n;
		match c {
			C::claim_handle { msa_owner_key, proof, payload } | C::change_handle { msa_owner_key, proof, payload } => {
				self.signed(o)?;
				let Some(id) = self.v.msa_of(msa_owner_key) else { return no("C06", "the owner has no MSA") };
				need(n < payload.expiration, "C06", "the payload expired")?;
				need(payload.expiration < n + MORTALITY, "C06", "the payload expires too far in the future")?;
				need(signed_by(proof, &payload.encode(), msa_owner_key), "C06", "not signed by the owner")?;
				if let C::change_handle { .. } = c {
					need(self.v.hand.name.contains_key(&id), "C06", "no handle to change")?;
					self.drop_handle(id)?;
				}
				self.claim(id, &payload.base_handle, payload.expiration)
			},
			C::retire_handle {} => {
				let who = self.signed(o)?;
				let Some(id) = self.v.msa_of(&who) else { return no("C06", "the key has no MSA") };
				let Some((_, expires)) = self.v.hand.name.get(&id) else { return no("C06", "no handle") };
				need(n >= *expires, "C06", "the claim payload has not expired")?;
				self.drop_handle(id)
			},
			_ => Err(Stop::Maybe("handles")),
		}
	}
}
