//! Keys, delegations and the registry of used signatures.
use super::*;
use frequency_runtime::Runtime;
use pallet_msa::Call as C;
use simsdk::codec::Encode;

pub const MAX_KEYS: u8 = 25;
pub const MAX_SCHEMAS: usize = 30;
pub const MORTALITY: u32 = 100;

impl M {
	pub fn need_msa(&self, a: &Acc, tag: &'static str) -> R<u64> {
		match self.v.msa_of(a) {
			Some(m) => Ok(m),
			None => no(tag, "the key has no MSA"),
		}
	}
	fn new_msa(&mut self, key: &Acc) -> R<u64> {
		need(self.v.msa_of(key).is_none(), "C01", "the key already controls an MSA")?;
		let m = self.msa();
		m.max_id += 1;
		let id = m.max_id;
		m.keys.insert(key.clone(), id);
		m.count.insert(id, 1);
		Ok(id)
	}
	/// A signature is accepted once, and only inside its window.
	pub fn register(&mut self, sig: &MultiSignature, expires: u32) -> R {
		let (n, max) = (self.env.n, self.env.max_sigs);
		let s = sig.encode();
		need(n < expires, "C02", "the payload expired")?;
		need(expires < n + MORTALITY, "C02", "the payload expires too far in the future")?;
		let known = self.v.sig.list.contains_key(&s) || self.v.sig.ptr.as_ref().map(|p| p.0 == s).unwrap_or(false);
		need(!known, "C02", "the signature was used already")?;
		let d = self.sig();
		match d.ptr.clone() {
			None => d.ptr = Some((s.clone(), expires, s.clone(), 1)),
			Some((newest, newest_exp, mut oldest, mut count)) => {
				// the list holds all but the newest, each with its successor
				if count >= max {
					let old_exp = if oldest == newest { newest_exp } else { d.list.get(&oldest).map(|x| x.0).unwrap_or(u32::MAX) };
					need(n > old_exp, "C02", "the registry is full of unexpired signatures")?;
				}
				if count < max {
					count += 1;
				} else {
					match d.list.remove(&oldest) {
						Some((_, next)) => oldest = next,
						None => return Err(Stop::Maybe("registry of one entry")),
					}
				}
				d.list.insert(newest, (newest_exp, s.clone()));
				d.ptr = Some((s.clone(), expires, oldest, count));
			},
		}
		self.used.push(s);
		Ok(())
	}
	fn schema_ids_exist(&self, ids: &[u16]) -> R {
		need(ids.len() <= MAX_SCHEMAS, "C03", "too many schemas")?;
		need(ids.iter().all(|i| *i <= self.v.sch.max_id), "C03", "unknown schema")
	}
	fn provider(&self, m: u64) -> R {
		need(self.v.del.prov.contains_key(&m), "C03", "not a registered provider")
	}
	/// Does the provider act for the delegator (on a schema) in the current block?
	pub fn acts_for(&self, provider: u64, delegator: u64, schema: Option<u16>, tag: &'static str) -> R {
		let n = self.env.n;
		let Some(d) = self.v.del.map.get(&(delegator, provider)) else { return no(tag, "no delegation") };
		need(alive(d.revoked_at, n), tag, "the delegation was revoked")?;
		if let Some(s) = schema {
			match d.perms.get(&s) {
				None => return no(tag, "the schema was not granted"),
				Some(x) => need(alive(*x, n), tag, "the schema grant was revoked")?,
			}
		}
		Ok(())
	}
	fn revoke(&mut self, delegator: u64, provider: u64) -> R {
		let n = self.env.n;
		match self.v.del.map.get(&(delegator, provider)) {
			None => return no("C03", "no delegation"),
			Some(d) => need(d.revoked_at == 0, "C03", "the delegation is revoked already")?,
		}
		self.del().map.get_mut(&(delegator, provider)).unwrap().revoked_at = n;
		Ok(())
	}
	pub fn msa_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		match c {
			C::create {} => {
				let who = self.signed(o)?;
				self.new_msa(&who).map(|_| ())
			},
			C::create_sponsored_account_with_delegation { delegator_key, proof, add_provider_payload } => {
				let who = self.signed(o)?;
				need(signed_by(proof, &add_provider_payload.encode(), delegator_key), "C02", "not signed by the delegator")?;
				self.register(proof, add_provider_payload.expiration)?;
				let p = self.need_msa(&who, "C01")?;
				need(add_provider_payload.authorized_msa_id == p, "C02", "the payload names another provider")?;
				self.provider(p)?;
				let d = self.new_msa(delegator_key)?;
				self.schema_ids_exist(&add_provider_payload.schema_ids)?;
				let perms: std::collections::BTreeMap<u16, u32> = add_provider_payload.schema_ids.iter().map(|s| (*s, 0)).collect();
				need(perms.len() <= MAX_SCHEMAS, "C03", "too many schemas")?;
				self.del().map.insert((d, p), Deleg { revoked_at: 0, perms });
				Ok(())
			},
			C::grant_delegation { delegator_key, proof, add_provider_payload } => {
				let who = self.signed(o)?;
				need(signed_by(proof, &add_provider_payload.encode(), delegator_key), "C02", "not signed by the delegator")?;
				self.register(proof, add_provider_payload.expiration)?;
				let p = self.need_msa(&who, "C03")?;
				let d = self.need_msa(delegator_key, "C03")?;
				need(add_provider_payload.authorized_msa_id == p, "C02", "the payload names another provider")?;
				need(p != d, "C03", "delegation to oneself")?;
				self.provider(p)?;
				self.schema_ids_exist(&add_provider_payload.schema_ids)?;
				let n = self.env.n;
				let mut e = self.v.del.map.get(&(d, p)).cloned().unwrap_or_default();
				// what is not listed ends now, what is listed holds (again), the rest stays revoked as it was
				for (s, r) in e.perms.iter_mut() {
					if add_provider_payload.schema_ids.contains(s) {
						*r = 0;
					} else if *r == 0 {
						*r = n;
					}
				}
				for s in &add_provider_payload.schema_ids {
					e.perms.entry(*s).or_insert(0);
				}
				need(e.perms.len() <= MAX_SCHEMAS, "C03", "too many schemas")?;
				e.revoked_at = 0;
				self.del().map.insert((d, p), e);
				Ok(())
			},
			C::create_provider { provider_name } => {
				let who = self.signed(o)?;
				let m = self.need_msa(&who, "C03")?;
				self.new_provider(m, provider_name)
			},
			C::create_provider_via_governance { provider_key, provider_name } => {
				self.any_council(o, 1)?;
				let m = self.need_msa(provider_key, "C03")?;
				self.new_provider(m, provider_name)
			},
			C::propose_to_be_provider { provider_name } => {
				let who = self.signed(o)?;
				need(provider_name.len() <= 16, "C03", "provider name too long")?;
				self.need_msa(&who, "C03")?;
				// one vote is enough, but the proposer's say is not
				self.motion(gov::COUNCIL, 1, &C::create_provider_via_governance { provider_key: who, provider_name: provider_name.clone() }.into())
			},
			C::revoke_delegation_by_delegator { provider_msa_id } => {
				let who = self.signed(o)?;
				if !o.top && self.v.msa_of(&who).is_none() {
					// from inside another call this is a no-op
					return Ok(())
				}
				let d = self.need_msa(&who, "C03")?;
				self.revoke(d, *provider_msa_id)
			},
			C::revoke_delegation_by_provider { delegator } => {
				let who = self.signed(o)?;
				if !o.top && self.v.msa_of(&who).is_none() {
					// from inside another call this is a no-op
					return Ok(())
				}
				let p = self.need_msa(&who, "C03")?;
				self.revoke(*delegator, p)
			},
			C::revoke_schema_permissions { provider_msa_id, schema_ids } => {
				let who = self.signed(o)?;
				let d = self.need_msa(&who, "C03")?;
				let n = self.env.n;
				let Some(mut e) = self.v.del.map.get(&(d, *provider_msa_id)).cloned() else { return no("C03", "no delegation") };
				need(schema_ids.len() <= MAX_SCHEMAS, "C03", "too many schemas")?;
				self.schema_ids_exist(schema_ids)?;
				for s in schema_ids {
					match e.perms.get_mut(s) {
						None => return no("C03", "the schema was not granted"),
						Some(x) => {
							// a revoked permission stays revoked since then
							if *x == 0 {
								*x = n
							}
						},
					}
				}
				self.del().map.insert((d, *provider_msa_id), e);
				Ok(())
			},
			C::add_public_key_to_msa { msa_owner_public_key, msa_owner_proof, new_key_owner_proof, add_key_payload } => {
				self.signed(o)?;
				let p = add_key_payload.encode();
				need(signed_by(msa_owner_proof, &p, msa_owner_public_key), "C02", "not signed by a control key")?;
				need(signed_by(new_key_owner_proof, &p, &add_key_payload.new_public_key), "C02", "not signed by the new key")?;
				self.register(msa_owner_proof, add_key_payload.expiration)?;
				self.register(new_key_owner_proof, add_key_payload.expiration)?;
				let m = self.need_msa(msa_owner_public_key, "C01")?;
				need(m == add_key_payload.msa_id, "C01", "the key does not control the MSA of the payload")?;
				need(self.v.msa_of(&add_key_payload.new_public_key).is_none(), "C01", "the new key already controls an MSA")?;
				let n = self.v.msa.count.get(&m).copied().unwrap_or(0);
				need(n < MAX_KEYS, "C01", "too many keys")?;
				let d = self.msa();
				d.keys.insert(add_key_payload.new_public_key.clone(), m);
				d.count.insert(m, n + 1);
				Ok(())
			},
			C::delete_msa_public_key { public_key_to_delete } => {
				let who = self.signed(o)?;
				if !o.top && self.v.msa_of(&who).is_none() {
					// from inside another call this is a no-op
					return Ok(())
				}
				let m = self.need_msa(&who, "C01")?;
				need(&who != public_key_to_delete, "C01", "a key cannot delete itself")?;
				need(self.v.msa_of(public_key_to_delete) == Some(m), "C01", "not a key of the same MSA")?;
				self.drop_key(public_key_to_delete, m);
				Ok(())
			},
			C::retire_msa {} => {
				let who = self.signed(o)?;
				if !o.top && self.v.msa_of(&who).is_none() {
					// from inside another call this is a no-op
					return Ok(())
				}
				let m = self.need_msa(&who, "C01")?;
				need(!self.v.del.prov.contains_key(&m), "C01", "a registered provider cannot retire")?;
				need(!self.v.hand.name.contains_key(&m), "C01", "the MSA has a handle")?;
				need(self.v.keys_of(m).len() == 1, "C01", "the MSA has other keys")?;
				let n = self.env.n;
				let open = self.v.del.map.iter().any(|(k, d)| k.0 == m && alive(d.revoked_at, n));
				if open && !o.top {
					// known: only the outermost call is checked for delegations
					self.known.push(("C03", "retire-delegated"));
				} else {
					need(!open, "C01", "the MSA has delegations")?;
				}
				self.drop_key(&who, m);
				Ok(())
			},
			_ => Err(Stop::Maybe("msa")),
		}
	}
	fn drop_key(&mut self, key: &Acc, m: u64) {
		let n = self.v.msa.count.get(&m).copied().unwrap_or(0);
		let d = self.msa();
		d.keys.remove(key);
		if n <= 1 {
			d.count.remove(&m);
		} else {
			d.count.insert(m, n - 1);
		}
	}
	fn new_provider(&mut self, m: u64, name: &[u8]) -> R {
		need(name.len() <= 16, "C03", "provider name too long")?;
		need(!self.v.del.prov.contains_key(&m), "C03", "already a provider")?;
		self.del().prov.insert(m, name.to_vec());
		Ok(())
	}
}
/// A grant or delegation revoked in a block still holds in that block.
pub fn alive(revoked_at: u32, at: u32) -> bool {
	revoked_at == 0 || revoked_at >= at
}
