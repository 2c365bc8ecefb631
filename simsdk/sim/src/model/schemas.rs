//! Schemas and their names.
use super::*;
use common_primitives::schema::{ModelType, PayloadLocation, SchemaSetting};
use frequency_runtime::Runtime;
use pallet_schemas::Call as C;
use simsdk::codec::Encode;

pub const MIN_BYTES: usize = 8;
pub const MAX_VERSIONS: usize = 254;
pub const LIMIT_BYTES: u32 = 65_500;

/// Parquet models the simulation uses, and whether they are well formed.
pub const PARQUET: &[(&str, bool)] = &[
	(r#"[{"name":"Baz","column_type":"BOOLEAN","compression":"UNCOMPRESSED","bloom_filter":true}]"#, true),
	(r#"[{"name":"Baz","column_type":{"INTEGER":{"bit_width":32,"sign":false}},"compression":"UNCOMPRESSED","bloom_filter":true}]"#, true),
	(r#"[{"name":"a","compression":"UNCOMPRESSED","bloom_filter":false}]"#, false),
	(r#"[{"name":"a","column_type":"NOSUCH","compression":"UNCOMPRESSED","bloom_filter":false}]"#, false),
	(r#"{"type":"record"}"#, false),
	(r#"[1,2,3,4,5]"#, false),
];
/// namespace and descriptor
pub fn parse_name(b: &[u8], strict: bool) -> Option<(Vec<u8>, Vec<u8>)> {
	if b.len() > 32 || !b.is_ascii() {
		return None
	}
	let s = String::from_utf8(b.to_vec()).ok()?.to_ascii_lowercase();
	let s = s.trim();
	let part = |p: &str, min: usize, max: usize| p.len() >= min && p.len() <= max && p.bytes().all(|c| c.is_ascii_lowercase() || c == b'-') && !p.starts_with('-') && !p.ends_with('-');
	let mut it = s.split('.');
	let (ns, de) = (it.next()?, it.next());
	if it.next().is_some() || (de.is_none() && strict) || !part(ns, 3, 30) {
		return None
	}
	match de {
		Some(d) if !part(d, 1, 28) => None,
		d => Some((ns.into(), d.unwrap_or("").into())),
	}
}
impl M {
	fn name(&mut self, id: u16, name: (Vec<u8>, Vec<u8>)) -> R {
		let l = self.sch().names.entry(name).or_default();
		need(!l.contains(&id), "C15", "the name has this schema already")?;
		need(l.len() < MAX_VERSIONS, "C15", "too many versions")?;
		l.push(id);
		Ok(())
	}
	fn create(&mut self, creator: &Acc, model: &[u8], ty: &ModelType, loc: &PayloadLocation, settings: &[SchemaSetting], name: Option<&[u8]>) -> R {
		match ty {
			ModelType::AvroBinary => need(matches!(serde_json::from_slice(model), Ok(serde_json::Value::Object(_))), "C15", "not an Avro model")?,
			ModelType::Parquet => match PARQUET.iter().find(|p| p.0.as_bytes() == model) {
				Some(p) => need(p.1, "C15", "not a Parquet model")?,
				None => need(matches!(serde_json::from_slice(model), Ok(serde_json::Value::Array(_))), "C15", "not a Parquet model").and(Err(Stop::Maybe("parquet model")))?,
			},
		}
		need(model.len() >= MIN_BYTES, "C15", "model too short")?;
		need(model.len() <= self.v.sch.max_bytes as usize, "C15", "model too long")?;
		let bits = settings.iter().fold(0, |b, s| {
			b | match s {
				SchemaSetting::AppendOnly => storage::APPEND_ONLY,
				SchemaSetting::SignatureRequired => storage::SIGNED_ONLY,
			}
		});
		let location = loc.encode()[0];
		need(bits & storage::APPEND_ONLY == 0 || location == storage::ITEMIZED, "C15", "append-only is for itemized schemas")?;
		let name = match name {
			None => None,
			Some(n) => match parse_name(n, true) {
				None => return no("C15", "not a schema name"),
				p => p,
			},
		};
		let Some(id) = self.v.sch.max_id.checked_add(1) else { return no("C15", "no ids left") };
		self.creators.push((creator.clone(), id));
		let has_name = name.is_some();
		if let Some(n) = name {
			self.name(id, n)?;
		}
		let d = self.sch();
		d.max_id = id;
		d.info.insert(id, SchemaI { model_type: ty.encode()[0], location, settings: bits, has_name });
		d.model.insert(id, model.to_vec());
		Ok(())
	}
	pub fn schemas_call(&mut self, o: &Origin, c: &C<Runtime>) -> R {
		match c {
			C::set_max_schema_model_bytes { max_size } => {
				need(o.root, "C15", "only root")?;
				need(*max_size <= LIMIT_BYTES, "C15", "limit too large")?;
				self.sch().max_bytes = *max_size;
				Ok(())
			},
			C::create_schema_via_governance { creator_key, model, model_type, payload_location, settings } => {
				self.most_of_council(o)?;
				self.create(creator_key, model, model_type, payload_location, settings, None)
			},
			C::create_schema_via_governance_v2 { creator_key, model, model_type, payload_location, settings, schema_name } => {
				self.most_of_council(o)?;
				self.create(creator_key, model, model_type, payload_location, settings, schema_name.as_ref().map(|n| &n[..]))
			},
			C::create_schema_name_via_governance { schema_id, schema_name } => {
				self.most_of_council(o)?;
				self.may_name(*schema_id)?;
				let Some(n) = parse_name(schema_name, true) else { return no("C15", "not a schema name") };
				self.name(*schema_id, n)?;
				self.sch().info.get_mut(schema_id).unwrap().has_name = true;
				Ok(())
			},
			// for everybody on test networks only: elsewhere the base filter keeps them from all but `sudo_as`
			C::create_schema { model, model_type, payload_location } => {
				let who = self.signed(o)?;
				self.create(&who, model, model_type, payload_location, &[], None)
			},
			C::create_schema_v2 { model, model_type, payload_location, settings } => {
				let who = self.signed(o)?;
				self.create(&who, model, model_type, payload_location, settings, None)
			},
			C::create_schema_v3 { model, model_type, payload_location, settings, schema_name } => {
				let who = self.signed(o)?;
				self.create(&who, model, model_type, payload_location, settings, schema_name.as_ref().map(|n| &n[..]))
			},
			C::propose_to_create_schema { model, model_type, payload_location, settings } => {
				let creator_key = self.signed(o)?;
				self.propose(C::create_schema_via_governance { creator_key, model: model.clone(), model_type: *model_type, payload_location: *payload_location, settings: settings.clone() })
			},
			C::propose_to_create_schema_v2 { model, model_type, payload_location, settings, schema_name } => {
				let creator_key = self.signed(o)?;
				self.propose(C::create_schema_via_governance_v2 {
					creator_key,
					model: model.clone(),
					model_type: *model_type,
					payload_location: *payload_location,
					settings: settings.clone(),
					schema_name: schema_name.clone(),
				})
			},
			C::propose_to_create_schema_name { schema_id, schema_name } => {
				self.signed(o)?;
				self.may_name(*schema_id)?;
				need(parse_name(schema_name, true).is_some(), "C15", "not a schema name")?;
				self.propose(C::create_schema_name_via_governance { schema_id: *schema_id, schema_name: schema_name.clone() })
			},
			_ => Err(Stop::Maybe("schemas")),
		}
	}
	fn propose(&mut self, c: C<Runtime>) -> R {
		let t = gov::majority(self.v.gov.body[gov::COUNCIL].members.len());
		self.motion(gov::COUNCIL, t, &c.into())
	}
	fn may_name(&self, id: u16) -> R {
		match self.v.sch.info.get(&id) {
			None => no("C15", "unknown schema"),
			Some(i) => need(!i.has_name, "C15", "the schema has a name"),
		}
	}
}
