//! Messages.
use super::*;
use frequency_runtime::Runtime;
use pallet_messages::Call as C;
use simsdk::codec::Encode;

pub const MAX_BYTES: usize = 3072;
pub const ONCHAIN: u8 = 0;
pub const IPFS: u8 = 1;

/// The binary form of an acceptable content identifier.
pub fn cid(c: &[u8]) -> Option<Vec<u8>> {
	let s = std::str::from_utf8(c).ok()?;
	if s.len() <= 2 || s.starts_with("Qm") {
		return None
	}
	let b = simsdk::multibase::decode(s).ok()?.1;
	simsdk::cid::Cid::read_bytes(&b[..]).ok()?;
	Some(b)
}
impl M {
	fn post(&mut self, schema: u16, msg: Msg) {
		let n = self.env.n;
		let d = self.msg();
		let i = d.index;
		d.map.insert((n, schema, i), msg);
		d.index = i.saturating_add(1);
	}
	fn schema_at(&self, schema: u16, location: u8) -> R {
		match self.v.sch.info.get(&schema) {
			None => no("C14", "unknown schema"),
			Some(s) => need(s.location == location, "C14", "the schema has another payload location"),
		}
	}
	pub fn messages_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		let who = self.signed(o)?;
		match c {
			C::add_ipfs_message { schema_id, cid: text, payload_length } => {
				let Some(b) = cid(text) else { return no("C14", "not an acceptable CID") };
				let payload = (b, *payload_length).encode();
				need(payload.len() <= MAX_BYTES, "C14", "payload too long")?;
				self.schema_at(*schema_id, IPFS)?;
				let p = self.need_msa(&who, "C14")?;
				self.post(*schema_id, Msg { payload, provider: p, msa: None });
				Ok(())
			},
			C::add_onchain_message { on_behalf_of, schema_id, payload } => {
				need(payload.len() <= MAX_BYTES, "C14", "payload too long")?;
				self.schema_at(*schema_id, ONCHAIN)?;
				let p = self.need_msa(&who, "C14")?;
				if let Some(d) = on_behalf_of {
					self.acts_for(p, *d, Some(*schema_id), "C14")?;
				}
				self.post(*schema_id, Msg { payload: payload.clone(), provider: p, msa: Some(on_behalf_of.unwrap_or(p)) });
				Ok(())
			},
			_ => Err(Stop::Maybe("messages")),
		}
	}
}
