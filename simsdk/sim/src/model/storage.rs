//! Stateful storage: who may write where, and what a page holds afterwards.
use super::*;
use frequency_runtime::Runtime;
use pallet_stateful_storage::types::ItemAction;
use pallet_stateful_storage::Call as C;
use simsdk::codec::Encode;
use simsdk::hashing::twox_64;

pub const MORTALITY: u32 = 14_400;
pub const MAX_PAGE: u16 = 32;
pub const ITEM_PAGE_BYTES: usize = 10 * 1026;
pub const ITEMIZED: u8 = 2;
pub const PAGINATED: u8 = 3;
pub const APPEND_ONLY: u16 = 1;
pub const SIGNED_ONLY: u16 = 2;

/// The hash by which clients name the state they have seen; nothing stored and no data both read 0.
pub fn page_hash(p: Option<&(u16, Vec<u8>)>) -> u32 {
	match p {
		Some((n, d)) if !d.is_empty() => {
			let h = u64::from_le_bytes(twox_64(&[&n.to_le_bytes()[..], d].concat()));
			(h >> 32) as u32
		},
		_ => 0,
	}
}
/// The items of a page: (length, bytes) one after the other.
pub fn items(mut d: &[u8]) -> Option<Vec<Vec<u8>>> {
	let mut v = vec![];
	while !d.is_empty() {
		let l = u16::from_le_bytes(d.get(..2)?.try_into().ok()?) as usize;
		v.push(d.get(2..2 + l)?.to_vec());
		d = &d[2 + l..];
	}
	Some(v)
}
pub fn pack<'a>(v: impl IntoIterator<Item = &'a Vec<u8>>) -> Vec<u8> {
	let mut o = vec![];
	for i in v {
		o.extend_from_slice(&(i.len() as u16).to_le_bytes());
		o.extend_from_slice(i);
	}
	o
}
pub enum Act {
	Add(Vec<u8>),
	Del(u16),
}
fn acts<S: simsdk::sp_core::Get<u32> + Clone + std::fmt::Debug + PartialEq>(a: &[ItemAction<S>]) -> Vec<Act> {
	a.iter()
		.map(|a| match a {
			ItemAction::Add { data } => Act::Add(data.to_vec()),
			ItemAction::Delete { index } => Act::Del(*index),
		})
		.collect()
}
impl M {
	/// The caller writes its own state, or has a live grant for that schema.
	fn may_write(&self, who: &Acc, owner: u64, schema: u16) -> R<bool> {
		let m = self.need_msa(who, "C13")?;
		if m != owner {
			self.acts_for(m, owner, Some(schema), "C13")?;
		}
		Ok(m == owner)
	}
	fn schema_for(&self, schema: u16, location: u8, owner_says: bool, deletes: bool) -> R {
		let Some(s) = self.v.sch.info.get(&schema) else { return no("C13", "unknown schema") };
		need(s.location == location, "C13", "the schema stores elsewhere")?;
		need(s.settings & SIGNED_ONLY == 0 || owner_says, "C13", "the schema needs the owner's signature")?;
		need(s.settings & APPEND_ONLY == 0 || !deletes, "C13", "the schema is append-only")
	}
	/// A signed payload: inside its window and signed by a key of the owner.
	fn signed_write(&self, key: &Acc, proof: &MultiSignature, payload: &[u8], expires: u32, msa: Option<u64>) -> R<u64> {
		let n = self.env.n;
		need(expires > n, "C13", "the payload expired")?;
		need(expires < n + MORTALITY, "C13", "the payload expires too far in the future")?;
		need(signed_by(proof, payload, key), "C13", "not signed by the owner")?;
		let m = self.need_msa(key, "C13")?;
		need(msa.map(|x| x == m).unwrap_or(true), "C13", "the payload names another MSA")?;
		Ok(m)
	}
	fn write_items(&mut self, owner: u64, schema: u16, target: u32, acts: Vec<Act>) -> R {
		let old = self.v.stor.items.get(&(owner, schema)).cloned();
		need(target == page_hash(old.as_ref()), "C12", "stale target hash")?;
		let (nonce, data) = old.unwrap_or((0, vec![]));
		let Some(list) = items(&data) else { return no("C12", "the page is corrupt") };
		let mut keep: Vec<Option<Vec<u8>>> = list.into_iter().map(Some).collect();
		let mut add = vec![];
		for a in acts {
			match a {
				Act::Add(d) => add.push(d),
				Act::Del(i) => {
					let gone = keep.get_mut(i as usize).and_then(|x| x.take());
					need(gone.is_some(), "C12", "no such item")?;
				},
			}
		}
		let all: Vec<Vec<u8>> = keep.into_iter().flatten().chain(add).collect();
		let data = pack(&all);
		need(data.len() <= ITEM_PAGE_BYTES, "C12", "the page is full")?;
		let d = self.stor();
		if data.is_empty() {
			d.items.remove(&(owner, schema));
		} else {
			d.items.insert((owner, schema), (nonce.wrapping_add(1), data));
		}
		Ok(())
	}
	fn write_page(&mut self, owner: u64, schema: u16, page: u16, target: u32, data: Vec<u8>) -> R {
		let old = self.v.stor.pages.get(&(owner, schema, page)).cloned();
		need(target == page_hash(old.as_ref()), "C12", "stale target hash")?;
		let nonce = old.map(|o| o.0).unwrap_or(0).wrapping_add(1);
		self.stor().pages.insert((owner, schema, page), (nonce, data));
		Ok(())
	}
	fn drop_page(&mut self, owner: u64, schema: u16, page: u16, target: u32) -> R {
		let Some(old) = self.v.stor.pages.get(&(owner, schema, page)) else { return Ok(()) };
		need(target == page_hash(Some(old)), "C12", "stale target hash")?;
		self.stor().pages.remove(&(owner, schema, page));
		Ok(())
	}
	pub fn storage_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		let who = self.signed(o)?;
		let page_ok = |p: u16| need(p <= MAX_PAGE, "C12", "page id too large");
		let dels = |a: &Vec<Act>| a.iter().any(|x| matches!(x, Act::Del(_)));
		match c {
			C::apply_item_actions { state_owner_msa_id, schema_id, target_hash, actions } => {
				let a = acts(actions);
				let own = self.may_write(&who, *state_owner_msa_id, *schema_id)?;
				self.schema_for(*schema_id, ITEMIZED, own, dels(&a))?;
				self.write_items(*state_owner_msa_id, *schema_id, *target_hash, a)
			},
			C::upsert_page { state_owner_msa_id, schema_id, page_id, target_hash, payload } => {
				page_ok(*page_id)?;
				let own = self.may_write(&who, *state_owner_msa_id, *schema_id)?;
				self.schema_for(*schema_id, PAGINATED, own, false)?;
				self.write_page(*state_owner_msa_id, *schema_id, *page_id, *target_hash, payload.to_vec())
			},
			C::delete_page { state_owner_msa_id, schema_id, page_id, target_hash } => {
				page_ok(*page_id)?;
				let own = self.may_write(&who, *state_owner_msa_id, *schema_id)?;
				self.schema_for(*schema_id, PAGINATED, own, true)?;
				self.drop_page(*state_owner_msa_id, *schema_id, *page_id, *target_hash)
			},
			C::apply_item_actions_with_signature { delegator_key, proof, payload: p } => {
				let a = acts(&p.actions);
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, Some(p.msa_id))?;
				self.schema_for(p.schema_id, ITEMIZED, true, dels(&a))?;
				self.write_items(m, p.schema_id, p.target_hash, a)
			},
			C::apply_item_actions_with_signature_v2 { delegator_key, proof, payload: p } => {
				let a = acts(&p.actions);
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, None)?;
				self.schema_for(p.schema_id, ITEMIZED, true, dels(&a))?;
				self.write_items(m, p.schema_id, p.target_hash, a)
			},
			C::upsert_page_with_signature { delegator_key, proof, payload: p } => {
				page_ok(p.page_id)?;
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, Some(p.msa_id))?;
				self.schema_for(p.schema_id, PAGINATED, true, false)?;
				self.write_page(m, p.schema_id, p.page_id, p.target_hash, p.payload.to_vec())
			},
			C::upsert_page_with_signature_v2 { delegator_key, proof, payload: p } => {
				page_ok(p.page_id)?;
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, None)?;
				self.schema_for(p.schema_id, PAGINATED, true, false)?;
				self.write_page(m, p.schema_id, p.page_id, p.target_hash, p.payload.to_vec())
			},
			C::delete_page_with_signature { delegator_key, proof, payload: p } => {
				page_ok(p.page_id)?;
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, Some(p.msa_id))?;
				self.schema_for(p.schema_id, PAGINATED, true, true)?;
				self.drop_page(m, p.schema_id, p.page_id, p.target_hash)
			},
			C::delete_page_with_signature_v2 { delegator_key, proof, payload: p } => {
				page_ok(p.page_id)?;
				let m = self.signed_write(delegator_key, proof, &p.encode(), p.expiration, None)?;
				self.schema_for(p.schema_id, PAGINATED, true, true)?;
				self.drop_page(m, p.schema_id, p.page_id, p.target_hash)
			},
			_ => Err(Stop::Maybe("stateful storage")),
		}
	}
}
