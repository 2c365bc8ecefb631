//! Publishers and consumers of records: a registry holds canonical forms, publishers write with the text they know or with
//! what the registry has, payloads travel over a network that truncates and corrupts, consumers restart and know only the registry.
use super::*;
use crate::rng::Rng;
use crate::world::Op;
use apache_avro::{types::Value, Schema};
use common_helpers::avro as A;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

const OPS: &[(&str, u32)] = &[("register", 10), ("publish", 40), ("consume", 35), ("corrupt", 25), ("truncate", 10), ("restart", 6), ("junk-model", 12), ("mismatch", 8)];
pub fn unit() -> Unit {
	Unit { name: "avro", ops: OPS, len: (30, 90), run }
}

/// An Avro type.
#[derive(Clone, Debug)]
enum T {
	Prim(&'static str),
	/// logical type over a primitive
	Logic(&'static str, &'static str),
	Decimal,
	Array(Box<T>),
	Map(Box<T>),
	Union(Vec<T>),
	Enum(String, Vec<String>),
	Fixed(String, usize),
	Record(String, Vec<(String, T)>),
	Ref(String),
}
/// full name -> definition
type Names = BTreeMap<String, T>;
const PRIMS: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
const LOGIC: [(&str, &str); 6] = [("int", "date"), ("int", "time-millis"), ("long", "time-micros"), ("long", "timestamp-millis"), ("long", "timestamp-micros"), ("string", "uuid")];

fn name(r: &mut Rng) -> String {
	let first = b"abcXYZ_";
	let rest = b"abcdXYZ_0129";
	let mut s = String::new();
	s.push(*r.pick(first) as char);
	for _ in 0..r.below(6) {
		s.push(*r.pick(rest) as char);
	}
	s
}
struct Gen<'a> {
	r: &'a mut Rng,
	names: Names,
	/// being defined
	open: Vec<String>,
	spaces: bool,
	budget: usize,
}
impl Gen<'_> {
	fn fresh(&mut self) -> String {
		loop {
			let mut n = name(self.r);
			if self.spaces {
				for _ in 0..self.r.range(1, 2) {
					n = format!("{}.{}", name(self.r), n);
				}
			}
			if !self.names.contains_key(&n) && !self.open.contains(&n) {
				return n
			}
		}
	}
	fn any(&mut self, depth: u32) -> T {
		self.budget = self.budget.saturating_sub(1);
		let n = if depth >= 4 || self.budget == 0 { 12 } else { 24 };
		match self.r.below(n) {
			0..=7 => T::Prim(*self.r.pick(&PRIMS)),
			8 => T::Prim("string"),
			9 => T::Prim("int"),
			10 => {
				let (b, l) = *self.r.pick(&LOGIC);
				T::Logic(b, l)
			},
			11 => T::Decimal,
			12 | 13 => T::Array(Box::new(self.item(depth))),
			14 => T::Map(Box::new(self.any(depth + 1))),
			15..=17 => self.union(depth),
			18 => {
				let n = self.fresh();
				let mut s: Vec<String> = vec![];
				for _ in 0..self.r.range(1, 5) {
					let x = name(self.r);
					if !s.contains(&x) {
						s.push(x);
					}
				}
				let t = T::Enum(n.clone(), s);
				self.names.insert(n, t.clone());
				t
			},
			19 => {
				let n = self.fresh();
				let t = T::Fixed(n.clone(), self.r.range(0, 40) as usize);
				self.names.insert(n, t.clone());
				t
			},
			20 | 21 if !self.names.is_empty() => {
				let k: Vec<&String> = self.names.keys().collect();
				T::Ref(k[self.r.idx(k.len())].clone())
			},
			_ => self.record(depth),
		}
	}
	/// an array of things that take no space lets a few bytes stand for any number of them
	fn item(&mut self, depth: u32) -> T {
		loop {
			let before = self.names.clone();
			let t = self.any(depth + 1);
			if size(&t, &self.names) > 0 {
				return t
			}
			self.names = before;
		}
	}
	fn union(&mut self, depth: u32) -> T {
		let mut l: Vec<T> = vec![];
		if self.r.pct(70) {
			l.push(T::Prim("null"));
		}
		for _ in 0..self.r.range(1, 3) {
			let before = self.names.clone();
			let t = if self.r.pct(10) && !self.open.is_empty() && !l.is_empty() && matches!(l[0], T::Prim("null")) { T::Ref(self.open[self.r.idx(self.open.len())].clone()) } else { self.any(depth + 1) };
			let k = |t: &T| match t {
				T::Prim(p) => p.to_string(),
				T::Logic(b, _) => b.to_string(),
				T::Decimal => "bytes".into(),
				T::Array(_) => "array".into(),
				T::Map(_) => "map".into(),
				T::Union(_) => "union".into(),
				T::Enum(n, _) | T::Fixed(n, _) | T::Record(n, _) | T::Ref(n) => n.clone(),
			};
			if !matches!(t, T::Union(_)) && !l.iter().any(|x| k(x) == k(&t)) {
				l.push(t);
			} else {
				self.names = before;
			}
		}
		if l.is_empty() {
			l.push(T::Prim("null"));
		}
		T::Union(l)
	}
	fn record(&mut self, depth: u32) -> T {
		let n = self.fresh();
		self.open.push(n.clone());
		let mut f: Vec<(String, T)> = vec![];
		for _ in 0..self.r.range(if depth == 0 { 1 } else { 0 }, 5) {
			let x = name(self.r);
			if f.iter().all(|y| y.0 != x) {
				let t = self.any(depth + 1);
				f.push((x, t));
			}
		}
		self.open.pop();
		let t = T::Record(n.clone(), f);
		self.names.insert(n, t.clone());
		t
	}
}
/// least number of bytes a value takes
fn size(t: &T, names: &Names) -> usize {
	match t {
		T::Prim("null") => 0,
		T::Fixed(_, n) => *n,
		T::Record(_, f) => f.iter().map(|x| size(&x.1, names)).sum(),
		T::Ref(n) => names.get(n).map(|t| size(t, names)).unwrap_or(0),
		_ => 1,
	}
}
/// Writes the schema down, as people do: in any order and with extras.
fn text(t: &T, r: &mut Rng, spaces: bool) -> String {
	let obj = |mut l: Vec<(&str, String)>, r: &mut Rng| {
		if r.pct(40) {
			r.shuffle(&mut l);
		}
		let sp = *r.pick(&["", " ", "\n\t"]);
		format!("{{{}{}}}", l.iter().map(|(k, v)| format!("{}\"{}\":{}{}", sp, k, sp, v)).collect::<Vec<_>>().join(","), sp)
	};
	let named = |kind: &str, n: &str, r: &mut Rng, mut l: Vec<(&'static str, String)>| {
		l.insert(0, ("type", format!("\"{}\"", kind)));
		match n.rsplit_once('.') {
			Some((a, b)) if r.pct(50) => {
				l.insert(1, ("namespace", format!("\"{}\"", a)));
				l.insert(1, ("name", format!("\"{}\"", b)));
			},
			_ => l.insert(1, ("name", format!("\"{}\"", n))),
		}
		if r.pct(20) {
			l.push(("doc", "\"about \\\"it\\\"\"".into()));
		}
		obj(l, r)
	};
	match t {
		T::Prim(p) if r.pct(80) => format!("\"{}\"", p),
		T::Prim(p) => format!("{{\"type\":\"{}\"}}", p),
		T::Logic(b, l) => obj(vec![("type", format!("\"{}\"", b)), ("logicalType", format!("\"{}\"", l))], r),
		T::Decimal => obj(vec![("type", "\"bytes\"".into()), ("logicalType", "\"decimal\"".into()), ("precision", "9".into()), ("scale", "2".into())], r),
		T::Array(i) => {
			let i = text(i, r, spaces);
			obj(vec![("type", "\"array\"".into()), ("items", i)], r)
		},
		T::Map(i) => {
			let i = text(i, r, spaces);
			obj(vec![("type", "\"map\"".into()), ("values", i)], r)
		},
		T::Union(l) => format!("[{}]", l.iter().map(|t| text(t, r, spaces)).collect::<Vec<_>>().join(", ")),
		T::Enum(n, s) => named("enum", n, r, vec![("symbols", format!("[{}]", s.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")))]),
		T::Fixed(n, k) => named("fixed", n, r, vec![("size", k.to_string())]),
		T::Ref(n) => format!("\"{}\"", n),
		T::Record(n, f) => {
			let mut l = vec![];
			for (k, t) in f {
				let mut o = vec![("name", format!("\"{}\"", k)), ("type", text(t, r, spaces))];
				if r.pct(15) {
					o.push(("doc", "\"a field\"".into()));
				}
				if r.pct(20) {
					match t {
						T::Prim("long") => o.push(("default", "42".into())),
						T::Prim("string") => o.push(("default", "\"x\"".into())),
						T::Union(l) if matches!(l[0], T::Prim("null")) => o.push(("default", "null".into())),
						_ => (),
					}
				}
				l.push(obj(o, r));
			}
			named("record", n, r, vec![("fields", format!("[{}]", l.join(",")))])
		},
	}
}
fn string(r: &mut Rng) -> String {
	let n = if r.pct(5) { r.below(400) } else { r.below(12) };
	(0..n)
		.map(|_| match r.below(6) {
			0 => char::from_u32(0x1F600 + r.below(60) as u32).unwrap(),
			1 => char::from_u32(0xC0 + r.below(500) as u32).unwrap(),
			2 => '\0',
			_ => (b' ' + r.below(95) as u8) as char,
		})
		.collect()
}
fn int(r: &mut Rng) -> i32 {
	match r.below(5) {
		0 => *r.pick(&[0, 1, -1, 63, 64, -64, -65, i32::MAX, i32::MIN]),
		1 => r.next() as i32,
		_ => r.next() as i32 >> r.below(31),
	}
}
fn long(r: &mut Rng) -> i64 {
	match r.below(5) {
		0 => *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, 1 << 35]),
		1 => r.next() as i64,
		_ => r.next() as i64 >> r.below(63),
	}
}
fn value(t: &T, names: &Names, r: &mut Rng, depth: u32) -> Value {
	let few = |r: &mut Rng| if depth > 6 { 0 } else if r.pct(3) { r.below(200) } else { r.below(5) };
	match t {
		T::Prim(p) => match *p {
			"null" => Value::Null,
			"boolean" => Value::Boolean(r.pct(50)),
			"int" => Value::Int(int(r)),
			"long" => Value::Long(long(r)),
			"float" => Value::Float((long(r) as f32) / 7.0),
			"double" => Value::Double((long(r) as f64) / 3.0),
			"bytes" => {
				let n = r.below(40) as usize;
				Value::Bytes(r.bytes(n))
			},
			_ => Value::String(string(r)),
		},
		T::Logic(_, l) => {
			let (i, g) = (int(r), long(r));
			let u = r.bytes(16);
			match *l {
				"date" => Value::Date(i),
				"time-millis" => Value::TimeMillis(i),
				"uuid" => {
					let h: String = u.iter().map(|x| format!("{:02x}", x)).collect();
					Value::Uuid(format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..]).parse().unwrap())
				},
				"time-micros" => Value::TimeMicros(g),
				"timestamp-millis" => Value::TimestampMillis(g),
				_ => Value::TimestampMicros(g),
			}
		},
		T::Decimal => {
			// no leading byte that a shorter form could leave out
			let mut b = r.bytes(3);
			b[0] = 1 + b[0] % 100;
			Value::Decimal(b.into())
		},
		T::Array(i) => Value::Array((0..few(r)).map(|_| value(i, names, r, depth + 1)).collect()),
		T::Map(i) => Value::Map((0..few(r)).map(|_| (string(r), value(i, names, r, depth + 1))).collect()),
		T::Union(l) => {
			let i = if depth > 5 && matches!(l[0], T::Prim("null")) { 0 } else { r.idx(l.len()) };
			Value::Union(i as u32, Box::new(value(&l[i], names, r, depth + 1)))
		},
		T::Enum(_, s) => {
			let i = r.idx(s.len());
			Value::Enum(i as u32, s[i].clone())
		},
		T::Fixed(_, n) => Value::Fixed(*n, r.bytes(*n)),
		T::Record(_, f) => Value::Record(f.iter().map(|(k, t)| (k.clone(), value(t, names, r, depth + 1))).collect()),
		T::Ref(n) => value(&names[n], names, r, depth + 1),
	}
}
struct Entry {
	t: T,
	names: Names,
	raw: String,
	canon: Vec<u8>,
	/// what the publisher parsed
	own: Schema,
	/// what the consumer made of the registry's bytes
	cache: Option<Schema>,
}
struct Parcel {
	e: usize,
	fields: HashMap<String, Value>,
	bytes: Vec<u8>,
}
fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(crate::chain::panic_text)
}
/// Parsing uses regular expressions, whose shared caches would make hash maps of the calling thread differ from repetition to
/// repetition: it gets a thread of its own.
fn parsing<R: Send>(f: impl FnOnce() -> R + Send) -> R {
	let run = move || {
		crate::seam::seed(77);
		f()
	};
	std::thread::scope(|s| match std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, run).unwrap().join() {
		Ok(r) => r,
		Err(e) => std::panic::resume_unwind(e),
	})
}
fn fingerprint(raw: &str) -> Result<(Schema, Vec<u8>), String> {
	parsing(|| A::fingerprint_raw_schema(raw).map_err(|e| shown(&e)))
}
fn translate(canon: Vec<u8>) -> Result<Schema, String> {
	parsing(|| A::translate_schema(canon).map_err(|e| shown(&e)))
}
fn validate(model: &Vec<u8>) -> Result<(), String> {
	parsing(|| A::validate_raw_avro_schema(model).map_err(|e| shown(&e)))
}
fn shown<K: std::fmt::Debug>(x: &K) -> String {
	format!("{:?}", x).chars().take(300).collect()
}
fn seed(ops: &[Op]) -> u64 {
	ops.iter().fold(7, |a, o| (a ^ o.r).wrapping_mul(0x9e37_79b9_7f4a_7c15))
}
fn run(ops: &[Op], trace: bool) -> Outcome {
	apache_avro::max_allocation_bytes(1 << 20);
	isolated(seed(ops), || {
		let mut x = Run::new(trace);
		let mut reg: Vec<Entry> = vec![];
		let mut net: Vec<Parcel> = vec![];
		for (i, o) in ops.iter().enumerate() {
			x.step = i + 1;
			x.time += 1000;
			let mut r = Rng::new(o.r);
			step(&mut x, o, &mut r, &mut reg, &mut net);
		}
		x.done()
	})
}
fn register(x: &mut Run, r: &mut Rng) -> Option<Entry> {
	let spaces = r.pct(30);
	let mut g = Gen { r, names: Names::new(), open: vec![], spaces, budget: 25 };
	let t = g.record(0);
	let names = g.names;
	let raw = text(&t, r, spaces);
	x.did("schemas registered");
	x.note(|| format!("register {}", raw));
	let (own, canon) = match guarded(|| fingerprint(&raw)) {
		Ok(Ok(p)) => p,
		Ok(Err(e)) => {
			let e = shown(&e);
			x.fail("C22", "valid-schema-refused", format!("a valid schema is refused with {}: {}", e, raw));
			return None
		},
		Err(e) => {
			x.fail("C22", "schema-crash", format!("fingerprinting a valid schema panics with {}: {}", e, raw));
			return None
		},
	};
	if let Ok(Err(e)) | Err(e) = guarded(|| validate(&raw.clone().into_bytes()).map_err(|e| shown(&e))) {
		x.fail("C22", "valid-schema-invalid", format!("validation refuses ({}) the schema {}", e, raw));
	}
	match guarded(|| translate(canon.clone())) {
		Ok(Ok(s)) => {
			x.seen(&canon);
			let again = guarded(|| fingerprint(std::str::from_utf8(&canon).unwrap()).map(|p| p.1).map_err(|e| shown(&e)));
			if again != Ok(Ok(canon.clone())) {
				x.fail("C22", "canonical-unstable", format!("the canonical form {} becomes {:?}", String::from_utf8_lossy(&canon), again.map(|a| a.map(|b| String::from_utf8_lossy(&b).to_string()))));
			} else if s.canonical_form().as_bytes() != canon {
				x.fail("C22", "canonical-unstable", format!("translating {} gives a schema with canonical form {}", String::from_utf8_lossy(&canon), s.canonical_form()));
			}
			if let Ok(Err(e)) | Err(e) = guarded(|| validate(&canon).map_err(|e| shown(&e))) {
				x.fail("C22", "valid-schema-invalid", format!("validation refuses ({}) the canonical form {}", e, String::from_utf8_lossy(&canon)));
			}
		},
		Ok(Err(e)) => {
			let e = shown(&e);
			x.fail("C22", "stored-schema-unusable", format!("translating the canonical form of {} fails with {}: {}", raw, e, String::from_utf8_lossy(&canon)));
			return None
		},
		Err(e) => {
			x.fail("C22", "schema-crash", format!("translating the canonical form {} panics with {}", String::from_utf8_lossy(&canon), e));
			return None
		},
	}
	Some(Entry { t, names, raw, canon, own, cache: None })
}
fn read(x: &mut Run, what: &str, bytes: &Vec<u8>, s: &Schema) -> Option<Result<HashMap<String, Value>, String>> {
	let (got, most) = crate::seam::largest(|| guarded(|| A::get_schema_data_map(bytes, s).map_err(|e| shown(&e))));
	if most > (4 << 20) + 200 * bytes.len() {
		let sig = if what.contains("as it was written") { "huge-request" } else { "huge-count" };
		x.fail("C22", sig, format!("reading {} of {} bytes asks for {} bytes of memory at once", what, bytes.len(), most));
	}
	match got {
		Ok(g) => Some(g),
		Err(e) if one_beyond(&e) && shown_schema_has_enum(s) => {
			x.fail("C22", "enum-index", format!("reading {} panics with {}", what, e));
			None
		},
		Err(e) => {
			x.fail("C22", "read-crash", format!("reading {} {:?} panics with {}; schema {}", what, bytes, e, s.canonical_form()));
			None
		},
	}
}
/// "index out of bounds: the len is 3 but the index is 3"
fn one_beyond(e: &str) -> bool {
	let n: Vec<&str> = e.split(|c: char| !c.is_ascii_digit()).filter(|p| !p.is_empty()).collect();
	e.starts_with("index out of bounds") && n.len() == 2 && n[0] == n[1]
}
fn shown_schema_has_enum(s: &Schema) -> bool {
	s.canonical_form().contains("\"enum\"")
}
fn step(x: &mut Run, o: &Op, r: &mut Rng, reg: &mut Vec<Entry>, net: &mut Vec<Parcel>) {
	let kind = OPS[o.kind as usize].0;
	if reg.is_empty() && !matches!(kind, "register" | "junk-model") {
		return
	}
	match kind {
		"register" => {
			if let Some(e) = register(x, r) {
				reg.push(e);
			}
		},
		"publish" => {
			let e = r.idx(reg.len());
			let plain = r.pct(50);
			let n = &reg[e];
			let schema = if plain { translate(n.canon.clone()).expect("translated before") } else { n.own.clone() };
			let Value::Record(mut fields) = value(&n.t, &n.names, r, 0) else { unreachable!() };
			let mut all: Vec<Vec<u8>> = vec![];
			let orders = r.range(1, 3);
			for k in 0..orders {
				if k > 0 {
					r.shuffle(&mut fields);
				}
				let mut m = HashMap::new();
				for (k, v) in &fields {
					m.insert(k.clone(), v.clone());
				}
				match guarded(|| A::populate_schema_and_serialize(&schema, &m).map_err(|e| shown(&e))) {
					Ok(Ok(b)) => all.push(b),
					Ok(Err(e)) => return x.fail("C22", "conforming-refused", format!("the record {} does not serialize with {}: {}", shown(&m), n.raw, e)),
					Err(e) => return x.fail("C22", "write-crash", format!("serializing {} with {} panics with {}", shown(&m), n.raw, e)),
				}
			}
			x.did("records written");
			let fields: HashMap<String, Value> = fields.into_iter().collect();
			// maps inside have no order of their own
			if !has_map(&n.t, &n.names, 0) {
				x.seen(&all[0]);
				if all.iter().any(|b| *b != all[0]) {
					x.fail("C22", "order-matters", format!("{} with schema {} serializes to {:?} depending on the order of the fields", shown(&fields), n.raw, all));
				}
			}
			x.note(|| format!("publish with schema {} ({}) {} as {:?}", e, if plain { "stored" } else { "text" }, shown(&fields), all[0]));
			let i = r.idx(all.len());
			net.push(Parcel { e, fields, bytes: all.swap_remove(i) });
		},
		"consume" if !net.is_empty() => {
			let i = r.idx(net.len());
			let p = &net[i];
			let e = &mut reg[p.e];
			if e.cache.is_none() {
				match translate(e.canon.clone()) {
					Ok(s) => e.cache = Some(s),
					Err(_) => return,
				}
			}
			let s = if r.pct(70) { e.cache.clone().unwrap() } else { e.own.clone() };
			x.did("records read");
			match read(x, "a record as it was written", &p.bytes, &s) {
				None => (),
				Some(Err(er)) => x.fail("C22", "unreadable", format!("{} written as {:?} with {} is not readable: {}", shown(&p.fields), p.bytes, e.raw, er)),
				Some(Ok(m)) if m != p.fields => x.fail("C22", "changed", format!("{} written with {} is read back as {}", shown(&p.fields), e.raw, shown(&m))),
				Some(Ok(_)) => (),
			}
			if r.pct(50) {
				net.swap_remove(i);
			}
		},
		"corrupt" | "truncate" if !net.is_empty() => {
			let p = &net[r.idx(net.len())];
			let e = &reg[p.e];
			let mut b = p.bytes.clone();
			if kind == "truncate" {
				b.truncate(r.idx(b.len() + 1));
				x.fault("payloads truncated");
			} else {
				for _ in 0..r.range(1, 3) {
					if b.is_empty() || r.pct(10) {
						let (k, v) = (r.idx(b.len() + 1), r.next() as u8);
						b.insert(k, v);
					} else {
						let k = r.idx(b.len());
						match r.below(4) {
							0 => b[k] ^= 1 << r.below(8),
							1 => b[k] = r.next() as u8,
							2 => b[k] = *r.pick(&[0xff, 0x80, 0x7f, 0xfe, 1, 2, 0]),
							_ => {
								b.remove(k);
							},
						}
					}
				}
				x.fault("payloads corrupted");
			}
			let s = if r.pct(50) { e.own.clone() } else { translate(e.canon.clone()).expect("translated before") };
			x.note(|| format!("{} {:?}", kind, b));
			if let Some(g) = read(x, "a damaged record", &b, &s) {
				x.seen(&[g.is_ok() as u8]);
				x.cov.add(if g.is_ok() { "damaged records read as something" } else { "damaged records refused" }, 1);
			}
		},
		"restart" => {
			reg.iter_mut().for_each(|e| e.cache = None);
			x.fault("consumers restarted");
		},
		"junk-model" => {
			let b = if reg.is_empty() || r.pct(25) {
				let n = r.below(60) as usize;
				match r.below(3) {
					0 => r.bytes(n),
					1 => (0..n).flat_map(|_| r.pick(&["{", "}", "\"type\"", ":", "\"record\"", ",", "[", "]", "\"name\"", "\"a\"", "1", "null", "\"fixed\"", "\"size\"", "-1", "\"enum\"", "\"symbols\"", "\"fields\"", "\"int\""]).as_bytes().to_vec()).collect(),
					_ => r.pick(&["", "{}", "[]", "null", "1", "\"\"", "\"int\"", "{\"type\":\"fixed\",\"name\":\"a\",\"size\":\"3\"}", "{\"type\":\"fixed\",\"name\":\"a\",\"size\":-1}", "{\"type\":\"record\",\"name\":\"\",\"fields\":[]}", "{\"type\":\"record\",\"name\":\"a\"}", "{\"type\":\"enum\",\"name\":\"a\",\"symbols\":[1]}", "{\"type\":{\"type\":\"array\"}}", "[\"int\",\"int\"]", "{\"name\":\"x\",\"type\":\"record\",\"fields\":[{\"name\":\"y\",\"type\":\"x\"}]}"]).as_bytes().to_vec(),
				}
			} else {
				let e = &reg[r.idx(reg.len())];
				let mut b = if r.pct(50) { e.raw.clone().into_bytes() } else { e.canon.clone() };
				for _ in 0..r.range(1, 3) {
					if b.is_empty() {
						break
					}
					let k = r.idx(b.len());
					match r.below(5) {
						0 => b.truncate(k),
						1 => b[k] = r.next() as u8,
						2 => b[k] = *r.pick(b"{}[]\",:0-"),
						3 => {
							b.remove(k);
						},
						_ => {
							let j = (k + r.idx(12)).min(b.len());
							let part = b[k..j].to_vec();
							let at = r.idx(b.len());
							b.splice(at..at, part);
						},
					}
				}
				b
			};
			x.fault("models damaged");
			x.note(|| format!("junk model {}", String::from_utf8_lossy(&b)));
			let valid = guarded(|| validate(&b).is_ok());
			let parsed = guarded(|| translate(b.clone()).map(|_| ()).is_ok());
			let fp = std::str::from_utf8(&b).ok().map(|s| guarded(|| fingerprint(s).map(|p| p.1).map_err(|e| shown(&e))));
			for (what, r) in [("validating", valid.as_ref().err()), ("translating", parsed.as_ref().err()), ("fingerprinting", fp.as_ref().and_then(|f| f.as_ref().err()))] {
				if let Some(e) = r {
					let sig = match e {
						e if e.contains("InvalidSchemaName") => "model-crash-name",
						e if e == "called `Option::unwrap()` on a `None` value" && b.windows(6).any(|w| w == b"\"size\"") => "model-crash-size",
						_ => "model-crash",
					};
					return x.fail("C22", sig, format!("{} {} panics with {}", what, String::from_utf8_lossy(&b), e))
				}
			}
			let (valid, parsed) = (valid.unwrap(), parsed.unwrap());
			x.seen(&[valid as u8]);
			let good = matches!(fp, Some(Ok(Ok(_))));
			if valid != parsed || valid != good {
				return x.fail("C22", "validity-disagrees", format!("the model {} is {} for validation, {} for translation and {} for fingerprinting", String::from_utf8_lossy(&b), valid, parsed, good))
			}
			if valid {
				x.did("damaged models still valid");
				if let Some(Ok(Ok(c))) = fp {
					let again = guarded(|| fingerprint(&String::from_utf8(c.clone()).unwrap()).map(|p| p.1).map_err(|e| shown(&e)));
					if again != Ok(Ok(c.clone())) {
						let sig = if odd_names(&b) { "canonical-odd-names" } else { "canonical-unstable" };
						x.fail("C22", sig, format!("the canonical form {} of {} becomes {:?}", String::from_utf8_lossy(&c), String::from_utf8_lossy(&b), again.map(|a| a.map(|b| String::from_utf8_lossy(&b).to_string()))));
					}
				}
			}
		},
		"mismatch" if !net.is_empty() => {
			// a consumer or publisher that took the wrong schema
			let p = &net[r.idx(net.len())];
			let e = &reg[r.idx(reg.len())];
			x.fault("wrong schema used");
			let _ = read(x, "a record with another schema", &p.bytes, &e.own);
			if let Err(t) = guarded(|| A::populate_schema_and_serialize(&e.own, &p.fields).is_ok()) {
				x.fail("C22", "write-crash", format!("serializing {} with {} panics with {}", shown(&p.fields), e.raw, t));
			}
		},
		_ => (),
	}
}
/// names that Avro does not allow
fn odd_names(model: &[u8]) -> bool {
	fn walk(v: &serde_json::Value) -> bool {
		match v {
			serde_json::Value::Object(m) => m.iter().any(|(k, v)| {
				let odd = matches!(k.as_str(), "name" | "namespace") &&
					v.as_str().map_or(false, |s| s.split('.').any(|p| p.starts_with(|c: char| c.is_ascii_digit()) || p.is_empty() || !p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')));
				odd || walk(v)
			}),
			serde_json::Value::Array(l) => l.iter().any(walk),
			_ => false,
		}
	}
	serde_json::from_slice(model).map_or(false, |v| walk(&v))
}
fn has_map(t: &T, names: &Names, at: u32) -> bool {
	at > 12 || match t {
		T::Map(_) => true,
		T::Array(i) => has_map(i, names, at + 1),
		T::Union(l) => l.iter().any(|t| has_map(t, names, at + 1)),
		T::Record(_, f) => f.iter().any(|x| has_map(&x.1, names, at + 1)),
		T::Ref(n) => names.get(n).map(|t| has_map(t, names, at + 1)).unwrap_or(true),
		_ => false,
	}
}
