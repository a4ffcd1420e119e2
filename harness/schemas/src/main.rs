//! C20, C21: schemas and their names created in every way there is, well-formed and not, compared with
//! a register kept by the harness.
use common_primitives::schema::*;
use frame_support::{parameter_types, BoundedVec};
use kit::*;
use pallet_schemas as schemas;
use pallet_schemas_rpc::{SchemasApiServer, SchemasHandler};
use std::{cell::RefCell, collections::BTreeMap, sync::Arc};

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Schemas: pallet_schemas::{Pallet, Call, Storage, Event<T>},
	}
);
kit::system!(Rt, u64, ());
parameter_types! {
	pub static MinModel: u32 = 8;
	pub static Registrations: u16 = 65000;
}
const LIMIT: u32 = 2000;
#[derive(Clone, Debug, PartialEq, Eq, scale_info::TypeInfo, parity_scale_codec::Encode, parity_scale_codec::Decode, parity_scale_codec::MaxEncodedLen)]
pub struct Limit;
impl Get<u32> for Limit {
	fn get() -> u32 {
		LIMIT
	}
}
thread_local! {
	static PROPOSED: RefCell<Vec<RuntimeCall>> = RefCell::new(vec![]);
}
pub struct Council;
impl common_primitives::node::ProposalProvider<u64, RuntimeCall> for Council {
	fn propose(_: u64, _: u32, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		PROPOSED.with(|v| v.borrow_mut().push(*p));
		Ok((0, 0))
	}
	fn propose_with_simple_majority(_: u64, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		PROPOSED.with(|v| v.borrow_mut().push(*p));
		Ok((0, 0))
	}
}
impl schemas::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MinSchemaModelSizeBytes = MinModel;
	type SchemaModelMaxBytesBoundedVecLimit = Limit;
	type MaxSchemaRegistrations = Registrations;
	type MaxSchemaSettingsPerSchema = ConstU32<3>;
	type Proposal = RuntimeCall;
	type ProposalProvider = Council;
	type CreateSchemaViaGovernanceOrigin = frame_system::EnsureRoot<u64>;
}
kit::client!(Rt, Api);
impl pallet_schemas_runtime_api::SchemasRuntimeApi<Block> for Api {
	fn get_by_schema_id(&self, _: sp_core::H256, id: SchemaId) -> Result<Option<SchemaResponse>, sp_api::ApiError> {
		Ok(Schemas::get_schema_by_id(id))
	}
	fn get_schema_versions_by_name(&self, _: sp_core::H256, n: Vec<u8>) -> Result<Option<Vec<SchemaVersionResponse>>, sp_api::ApiError> {
		Ok(Schemas::get_schema_versions(n))
	}
}

#[derive(Clone, Debug)]
struct Created {
	model: Vec<u8>,
	model_type: ModelType,
	location: PayloadLocation,
	settings: Vec<SchemaSetting>,
	name: Option<(String, String)>,
}
/// a name as the documentation describes it; the second part says whether it had blanks around it
enum Reading {
	Name(String, String),
	/// a namespace alone
	Space(String),
	Bad,
}
fn read_name(raw: &[u8]) -> (Reading, bool) {
	let Ok(t) = std::str::from_utf8(raw) else { return (Reading::Bad, false) };
	if !t.is_ascii() || raw.len() > 32 {
		return (Reading::Bad, false)
	}
	let trimmed = t.trim();
	let blank = trimmed.len() != t.len();
	let part_ok = |p: &str, min: usize, max: usize| p.len() >= min && p.len() <= max && p.bytes().all(|b| b.is_ascii_alphabetic() || b == b'-') && !p.starts_with('-') && !p.ends_with('-');
	let low: String = trimmed.bytes().map(|b| b.to_ascii_lowercase() as char).collect();
	let parts: Vec<&str> = low.split('.').collect();
	let r = match parts[..] {
		[n, d] if part_ok(n, 3, 30) && part_ok(d, 1, 28) => Reading::Name(n.into(), d.into()),
		[n] if part_ok(n, 3, 30) => Reading::Space(n.into()),
		_ => Reading::Bad,
	};
	(r, blank)
}
struct H<'a> {
	o: Mon<'a>,
	all: Vec<Created>,
	/// the id of the first entry of `all`
	base: u32,
	versions: BTreeMap<(String, String), Vec<u16>>,
	max_model: u32,
	pool: Vec<Vec<u8>>,
}
fn settings_vec(s: &[SchemaSetting]) -> BoundedVec<SchemaSetting, ConstU32<3>> {
	s.to_vec().try_into().unwrap()
}
fn s(b: &[u8]) -> String {
	String::from_utf8_lossy(b).to_string()
}
/// a list of Parquet columns with the types and codecs of the Parquet format that are documented as
/// supported, possibly with one mistake in it
fn columns(g: &mut Rng) -> (Vec<u8>, bool) {
	let n = g.usize(4);
	let bad = if n > 0 && g.chance(1, 3) { Some(g.usize(n)) } else { None };
	let yes = |g: &mut Rng| if g.chance(1, 2) { "true" } else { "false" };
	let mut list = vec![];
	for i in 0..n {
		let mut kind = match g.below(8) {
			0 => format!("{{\"INTEGER\":{{\"bit_width\":{},\"sign\":{}}}}}", g.pick(&[0, 8, 16, 32, 64, 255]), yes(g)),
			1 => format!("{{\"DECIMAL\":{{\"scale\":{},\"precision\":{}}}}}", g.below(256), g.below(256)),
			2 | 3 => {
				let what = *g.pick(&["TIME", "TIMESTAMP"]);
				format!("{{\"{what}\":{{\"is_adjusted_to_utc\":{},\"unit\":\"{}\"}}}}", yes(g), g.pick(&["MILLIS", "MICROS", "NANOS"]))
			},
			4 => format!("\"{}\"", g.pick(&["STRING", "UUID", "DATE", "INTERVAL"])),
			_ => format!("\"{}\"", g.pick(&["BOOLEAN", "INT32", "INT64", "FLOAT", "DOUBLE", "BYTE_ARRAY", "FIXED_LEN_BYTE_ARRAY"])),
		};
		let mut codec = g.pick(&["UNCOMPRESSED", "SNAPPY", "GZIP", "LZO", "BROTLI", "ZSTD", "LZ4_RAW"]).to_string();
		let mut bloom = yes(g).to_string();
		let mut name = g.pick(&["\"\"", "\"a\"", "\"a longer name\"", "\"\\u00e9\""]).to_string();
		let mut drop = 9;
		if bad == Some(i) {
			match g.below(6) {
				0 => kind = g.pick(&["\"INT96\"", "\"string\"", "\"ENUM\"", "\"INTEGER\"", "{}", "null", "7", "{\"INTEGER\":{\"bit_width\":256,\"sign\":true}}", "{\"INTEGER\":{\"bit_width\":-1,\"sign\":true}}", "{\"INTEGER\":{\"sign\":true}}", "{\"DECIMAL\":{\"scale\":1}}", "{\"TIME\":{\"is_adjusted_to_utc\":true,\"unit\":\"SECONDS\"}}", "{\"TIMESTAMP\":{\"unit\":\"NANOS\"}}", "{\"STRING\":{}}"]).to_string(),
				1 => codec = g.pick(&["gzip", "LZ4", "ZIP", "", "NONE"]).to_string(),
				2 => bloom = g.pick(&["1", "null", "\"true\"", "{}"]).to_string(),
				3 => name = g.pick(&["1", "null", "[]", "true"]).to_string(),
				_ => drop = g.below(4),
			}
		}
		let mut fields = vec![format!("\"name\":{name}"), format!("\"column_type\":{kind}"), format!("\"compression\":\"{codec}\""), format!("\"bloom_filter\":{bloom}")];
		if drop < 4 {
			fields.remove(drop as usize);
		}
		if g.chance(1, 3) {
			let k = g.usize(fields.len());
			fields.rotate_left(k);
		}
		list.push(format!("{{{}}}", fields.join(",")));
	}
	(format!("[{}]", list.join(",")).into_bytes(), bad.is_none())
}
fn model(g: &mut Rng, max: u32) -> (Vec<u8>, ModelType, Option<bool>) {
	let avro_ok = ["{\"type\":\"record\",\"name\":\"X\",\"fields\":[]}", "{}", "{\"a\":1}", " {\"a\": [1, 2, {\"b\": null}]} ", "{\"type\":\"bytes\"}", "{\"é\":\"ü\"}"];
	let avro_bad = ["", "null", "[1,2,3,4,5]", "\"string\"", "12345678", "{\"a\":}", "{\"a\":1", "{a:1,b:2}", "true    ", "{}{}{}{}", "{\"a\":1}x", "{'a':'b'}", "{\"a\":1,}", "{\"a\":01}"];
	let parquet_ok = [
		"[{\"name\":\"Foo\",\"column_type\":\"BOOLEAN\",\"compression\":\"UNCOMPRESSED\",\"bloom_filter\":true}]",
		"[{\"name\":\"B\",\"column_type\":{\"INTEGER\":{\"bit_width\":32,\"sign\":false}},\"compression\":\"GZIP\",\"bloom_filter\":false}]",
		"[{\"name\":\"S\",\"column_type\":\"STRING\",\"compression\":\"SNAPPY\",\"bloom_filter\":false},{\"name\":\"F\",\"column_type\":\"BYTE_ARRAY\",\"compression\":\"LZ4_RAW\",\"bloom_filter\":true}]",
	];
	let parquet_bad = [
		"{\"name\":\"John Doe\"}",
		"[{\"name\":\"Foo\",\"column_type\":\"BOOL\",\"compression\":\"UNCOMPRESSED\",\"bloom_filter\":true}]",
		"[{\"name\":\"Foo\",\"column_type\":\"BOOLEAN\",\"bloom_filter\":true}]",
		"[{\"name\":1,\"column_type\":\"BOOLEAN\",\"compression\":\"GZIP\",\"bloom_filter\":true}]",
		"[{\"name\":\"a\",\"column_type\":\"BOOLEAN\",\"compression\":\"ZIP\",\"bloom_filter\":true}]",
		"[{\"name\":\"a\",\"column_type\":\"BOOLEAN\",\"compression\":\"GZIP\",\"bloom_filter\":1}]",
		"\"BOOLEAN\"",
		"",
		"[[[[[[]]]]]]",
	];
	match g.below(12) {
		10 | 11 => {
			let (m, ok) = columns(g);
			(m, ModelType::Parquet, Some(ok))
		},
		0 => (g.pick(&avro_bad).as_bytes().to_vec(), ModelType::AvroBinary, Some(false)),
		1 => (g.pick(&parquet_bad).as_bytes().to_vec(), ModelType::Parquet, Some(false)),
		2 => (g.pick(&parquet_ok).as_bytes().to_vec(), ModelType::Parquet, Some(true)),
		// the model of the other type
		3 => (g.pick(&parquet_ok).as_bytes().to_vec(), ModelType::AvroBinary, Some(false)),
		4 => (g.pick(&avro_ok).as_bytes().to_vec(), ModelType::Parquet, Some(false)),
		5 => {
			// exactly at the limits
			let n = *g.pick(&[MinModel::get() as usize, MinModel::get().saturating_sub(1) as usize, MinModel::get() as usize + 1, max as usize, max as usize + 1, (max as usize).saturating_sub(1)]);
			let n = n.min(LIMIT as usize);
			let mut m = "{".to_string();
			while m.len() + 1 < n {
				m.push(' ');
			}
			m.push('}');
			(m.into_bytes(), ModelType::AvroBinary, Some(true))
		},
		6 => {
			let n = g.usize(20);
			let mut m = b"{\"a\":\"\xff\xfe\"}".to_vec();
			m.extend(g.bytes(n));
			(m, ModelType::AvroBinary, Some(false))
		},
		_ => (g.pick(&avro_ok).as_bytes().to_vec(), ModelType::AvroBinary, Some(true)),
	}
}
impl<'a> H<'a> {
	fn next(&self) -> u32 {
		self.base + self.all.len() as u32
	}
	fn a_name(&mut self) -> Vec<u8> {
		let g = &mut self.o.g;
		if g.chance(3, 4) {
			return g.pick(&self.pool).clone()
		}
		let a = |g: &mut Rng, n: usize| -> String { (0..n).map(|_| *g.pick(&['a', 'b', 'C', 'Z', '-'])).collect() };
		let t = match g.below(8) {
			0 => {
				let n = *g.pick(&[0usize, 1, 2, 3, 29, 30, 31]);
				let m = *g.pick(&[0usize, 1, 2, 27, 28, 29]);
				format!("{}.{}", "n".repeat(n), "d".repeat(m))
			},
			1 => g.pick(&["abc", "abc.", ".abc", "abc.d.e", "-abc.d", "abc-.d", "abc.-d", "abc.d-", "ab1.d", "abc.d_e", "a c.d", "abc..d", "", ".", "abc.é", "äbc.d"]).to_string(),
			2 => {
				let (x, y) = (g.usize(8), g.usize(8));
				format!("{}.{}", a(g, x), a(g, y))
			},
			3 => {
				let b = g.pick(&self.pool).clone();
				format!(" {}\t", s(&b))
			},
			4 => {
				let b = g.pick(&self.pool).clone();
				s(&b).to_uppercase()
			},
			5 => {
				let (x, y) = (3 + g.usize(3), 1 + g.usize(3));
				format!("{}.{}", "q".repeat(x), "r".repeat(y))
			},
			6 => {
				let n = g.usize(6);
				let mut b = b"abc.".to_vec();
				b.extend(g.bytes(n));
				b.truncate(32);
				return b
			},
			_ => "dsnp.broadcast".to_string(),
		};
		let mut b = t.into_bytes();
		b.truncate(32);
		b
	}
	fn create(&mut self) {
		let (m, mt, good) = model(&mut self.o.g, self.max_model);
		let location = *self.o.g.pick(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]);
		let all = [SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired];
		let settings: Vec<SchemaSetting> = match self.o.g.below(5) {
			0 => vec![all[0]],
			1 => vec![all[1]],
			2 => vec![all[1], all[0]],
			3 => vec![all[0], all[0], all[1]],
			_ => vec![],
		};
		let how = self.o.g.below(7);
		let name = if self.o.g.chance(1, 2) { Some(self.a_name()) } else { None };
		let mut why: Vec<(&'static str, &'static str)> = vec![];
		let mut unsure = false;
		let (settings, name) = match how {
			0 => (vec![], None),
			1 | 2 | 3 => (settings, None),
			_ => (settings, name),
		};
		if good == Some(false) {
			why.push(("C20", "the_model_is_not_well_formed"));
		}
		if m.len() < MinModel::get() as usize {
			why.push(("C20", "the_model_is_too_small"));
		}
		if m.len() > self.max_model as usize {
			why.push(("C20", "the_model_is_too_large"));
		}
		if settings.contains(&all[0]) && location != PayloadLocation::Itemized {
			why.push(("C20", "append_only_is_for_itemized_storage"));
		}
		if settings.contains(&all[1]) && matches!(location, PayloadLocation::OnChain | PayloadLocation::IPFS) {
			unsure = true;
		}
		if self.next() > Registrations::get() as u32 {
			why.push(("C20", "no_more_schemas_may_be_registered"));
		}
		let mut parsed = None;
		if let Some(n) = &name {
			let (r, blank) = read_name(n);
			unsure |= blank;
			match r {
				Reading::Name(a, b) => parsed = Some((a, b)),
				_ => why.push(("C21", "the_name_is_malformed")),
			}
		}
		if let Some(p) = &parsed {
			if self.versions.get(p).map_or(0, |v| v.len()) >= 254 {
				why.push(("C21", "the_name_has_all_its_versions"));
			}
		}
		let bounded: BoundedVec<u8, Limit> = m.clone().try_into().unwrap();
		let st = settings_vec(&settings);
		let nm = name.clone().map(|n| BoundedVec::try_from(n).unwrap());
		let call = match how {
			0 => schemas::Call::create_schema { model: bounded, model_type: mt, payload_location: location },
			1 => schemas::Call::create_schema_v2 { model: bounded, model_type: mt, payload_location: location, settings: st },
			2 => schemas::Call::create_schema_via_governance { creator_key: 3, model: bounded, model_type: mt, payload_location: location, settings: st },
			3 => schemas::Call::propose_to_create_schema { model: bounded, model_type: mt, payload_location: location, settings: st },
			4 => schemas::Call::create_schema_via_governance_v2 { creator_key: 3, model: bounded, model_type: mt, payload_location: location, settings: st, schema_name: nm },
			5 => schemas::Call::propose_to_create_schema_v2 { model: bounded, model_type: mt, payload_location: location, settings: st, schema_name: nm },
			_ => schemas::Call::create_schema_v3 { model: bounded, model_type: mt, payload_location: location, settings: st, schema_name: nm },
		};
		let op = ["create", "create_v2", "governance", "proposal", "governance_v2", "proposal_v2", "create_v3"][how as usize];
		let what = format!("{op} {mt:?} {location:?} {settings:?} name {:?} model {}", name.as_ref().map(|n| s(n)), s(&m).chars().take(60).collect::<String>());
		let mut call = RuntimeCall::Schemas(call);
		let mut origin = RuntimeOrigin::signed(3);
		if how == 3 || how == 5 {
			// the council passes it on
			PROPOSED.with(|p| p.borrow_mut().clear());
			let r = guarded(|| dispatch(call, RuntimeOrigin::signed(3)));
			let p = PROPOSED.with(|p| p.borrow_mut().pop());
			let (Ok(Ok(())), Some(p)) = (&r, p) else {
				self.o.check("C20", !why.is_empty() || unsure, "proposal_of_a_valid_schema_refused", || json!({"what": what, "outcome": dbg(&r)}));
				return
			};
			call = p;
			origin = RuntimeOrigin::root();
		}
		if how == 2 || how == 4 {
			if self.o.g.chance(1, 6) {
				why.push(("C20", "the_origin_is_not_governance"));
			} else {
				origin = RuntimeOrigin::root();
			}
		}
		frame_system::Pallet::<Rt>::reset_events();
		let Some(res) = self.o.attempt("C20", what, || dispatch(call, origin).map_err(names)) else { return };
		let main = if parsed.is_some() { "C21" } else { "C20" };
		if !self.o.verdict(op, main, &why, unsure, &res) || self.o.bad {
			return
		}
		let id = self.next() as u16;
		self.announced(id, true, parsed.as_ref());
		let mut st: Vec<SchemaSetting> = settings;
		st.sort_by_key(|x| *x as u16);
		st.dedup();
		if let Some(p) = &parsed {
			self.versions.entry(p.clone()).or_default().push(id);
			self.o.r.count("names_given_at_creation");
		}
		self.all.push(Created { model: m, model_type: mt, location, settings: st, name: parsed });
		self.o.r.count("schemas_created");
		self.read_schema(id);
	}
	fn announced(&mut self, id: u16, created: bool, name: Option<&(String, String)>) {
		let mut ids = vec![];
		let mut nm = vec![];
		for e in frame_system::Pallet::<Rt>::events() {
			match e.event {
				RuntimeEvent::Schemas(schemas::Event::SchemaCreated { schema_id, .. }) => ids.push(schema_id),
				RuntimeEvent::Schemas(schemas::Event::SchemaNameCreated { schema_id, name }) => nm.push((schema_id, s(&name))),
				_ => (),
			}
		}
		let want: Vec<u16> = if created { vec![id] } else { vec![] };
		self.o.check("C20", ids == want, "announced_id_is_not_the_next_one", || json!({"announced": ids, "expected": want}));
		let want: Vec<(u16, String)> = name.iter().map(|n| (id, format!("{}.{}", n.0, n.1))).collect();
		self.o.check("C21", nm == want, "announced_name_differs", || json!({"announced": nm, "expected": want}));
	}
	fn name(&mut self) {
		let raw = self.a_name();
		let top = self.next();
		let id = if self.o.g.chance(1, 12) { self.o.g.u16() } else { (self.base as u64 + self.o.g.below((top - self.base) as u64 + 2)) as u32 as u16 }.max(if self.base == 1 { 0 } else { 1 });
		let known = (id as u32) >= self.base && (id as u32) < top;
		let mut why: Vec<(&'static str, &'static str)> = vec![];
		let (r, blank) = read_name(&raw);
		let mut parsed = None;
		match r {
			Reading::Name(a, b) => parsed = Some((a, b)),
			_ => why.push(("C21", "the_name_is_malformed")),
		}
		if !known {
			why.push(("C21", "the_schema_does_not_exist"));
		} else if self.all[(id as u32 - self.base) as usize].name.is_some() {
			why.push(("C21", "the_schema_has_a_name_already"));
		}
		if let Some(p) = &parsed {
			if self.versions.get(p).map_or(0, |v| v.len()) >= 254 {
				why.push(("C21", "the_name_has_all_its_versions"));
			}
		}
		let name: BoundedVec<u8, ConstU32<32>> = raw.clone().try_into().unwrap();
		let mut origin = RuntimeOrigin::root();
		let mut call = RuntimeCall::Schemas(schemas::Call::create_schema_name_via_governance { schema_id: id, schema_name: name.clone() });
		let what = format!("name schema {id} {:?}", s(&raw));
		match self.o.g.below(4) {
			0 => {
				PROPOSED.with(|p| p.borrow_mut().clear());
				let c = RuntimeCall::Schemas(schemas::Call::propose_to_create_schema_name { schema_id: id, schema_name: name });
				let r = guarded(|| dispatch(c, RuntimeOrigin::signed(1)));
				let p = PROPOSED.with(|p| p.borrow_mut().pop());
				let (Ok(Ok(())), Some(p)) = (&r, p) else {
					self.o.check("C21", !why.is_empty() || blank, "proposal_of_a_valid_name_refused", || json!({"what": what, "outcome": dbg(&r)}));
					return
				};
				call = p;
			},
			1 => {
				origin = RuntimeOrigin::signed(1);
				why.push(("C21", "the_origin_is_not_governance"));
			},
			_ => (),
		}
		frame_system::Pallet::<Rt>::reset_events();
		let Some(res) = self.o.attempt("C21", what, || dispatch(call, origin).map_err(names)) else { return };
		if !self.o.verdict("name", "C21", &why, blank, &res) || self.o.bad {
			return
		}
		self.announced(id, false, parsed.as_ref());
		let p = parsed.unwrap();
		self.versions.entry(p.clone()).or_default().push(id);
		self.all[(id as u32 - self.base) as usize].name = Some(p);
		self.o.r.count("names_given_later");
		self.read_schema(id);
	}
	fn resize(&mut self) {
		let n = *self.o.g.pick(&[0u32, 8, 40, 100, 200, LIMIT, LIMIT + 1, u32::MAX]);
		let root = self.o.g.chance(3, 4);
		let mut why = vec![];
		if n > LIMIT {
			why.push(("C20", "it_exceeds_the_hard_limit"));
		}
		if !root {
			why.push(("C20", "the_origin_is_not_root"));
		}
		let c = RuntimeCall::Schemas(schemas::Call::set_max_schema_model_bytes { max_size: n });
		let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(1) };
		let Some(res) = self.o.attempt("C20", format!("largest model {n}"), || dispatch(c, o).map_err(names)) else { return };
		if self.o.verdict("resize", "C20", &why, false, &res) {
			self.max_model = n;
		}
	}
	fn read_schema(&mut self, id: u16) {
		let known = (id as u32) >= self.base && (id as u32) < self.next();
		let want = known.then(|| {
			let c = &self.all[(id as u32 - self.base) as usize];
			SchemaResponse { schema_id: id, model: c.model.clone(), model_type: c.model_type, payload_location: c.location, settings: c.settings.clone() }
		});
		let got = Schemas::get_schema_by_id(id);
		self.o.r.count("schemas_read");
		self.o.check("C20", got == want, "schema_reads_back_differently", || json!({"id": id, "got": dbg(&got), "want": dbg(&want)}));
		let info = Schemas::get_schema_info_by_id(id);
		let want = want.map(|w| SchemaInfoResponse { schema_id: id, model_type: w.model_type, payload_location: w.payload_location, settings: w.settings });
		self.o.check("C20", info == want, "schema_information_reads_back_differently", || json!({"id": id, "got": dbg(&info), "want": dbg(&want)}));
	}
	fn observe(&mut self, rpc: &SchemasHandler<Client, Block>) {
		let (lo, hi) = (self.base, self.next());
		for id in lo..(hi + 2).min(65536) {
			self.read_schema(id as u16);
			let r = rpc.get_by_schema_id(id as u16).ok().flatten();
			let d = Schemas::get_schema_by_id(id as u16);
			self.o.check("C20", r == d, "rpc_reads_another_schema", || json!(id));
			let v = <Schemas as SchemaValidator<SchemaId>>::are_all_schema_ids_valid(&vec![lo as u16, id as u16]);
			if hi > lo {
				self.o.check("C20", v == (id < hi), "validity_of_ids_differs", || json!({"id": id, "issued": hi - 1, "valid": v}));
			}
		}
		if lo == 1 {
			self.read_schema(0);
		}
		// names
		let mut queries: Vec<Vec<u8>> = self.versions.keys().map(|k| format!("{}.{}", k.0, k.1).into_bytes()).collect();
		queries.extend(self.versions.keys().map(|k| k.0.clone().into_bytes()));
		queries.extend(self.pool.clone());
		for _ in 0..4 {
			let n = self.a_name();
			queries.push(n);
		}
		for mut q in queries {
			if self.o.g.chance(1, 3) {
				q = s(&q).to_uppercase().into_bytes();
			}
			let (r, blank) = read_name(&q);
			let want: Option<Vec<(u16, u8, String)>> = match r {
				Reading::Bad => None,
				Reading::Name(a, b) => Some(self.listing(|k| k.0 == a && k.1 == b)),
				Reading::Space(a) => Some(self.listing(|k| k.0 == a)),
			};
			let got = match guarded(|| (Schemas::get_schema_versions(q.clone()), rpc.get_versions(s(&q)).ok().flatten())) {
				Ok(g) => g,
				Err(p) => {
					self.o.fail("C21", &format!("panic_{}", panic_sig(&p)), json!(s(&q)));
					return
				},
			};
			let flat = |g: Option<Vec<SchemaVersionResponse>>| {
				g.map(|v| {
					let mut v: Vec<(u16, u8, String)> = v.into_iter().map(|x| (x.schema_id, x.schema_version, s(&x.schema_name))).collect();
					v.sort_by(|a, b| (&a.2, a.1).cmp(&(&b.2, b.1)));
					v
				})
			};
			let (direct, by_rpc) = (flat(got.0), flat(got.1));
			self.o.r.count("names_looked_up");
			let ok = direct == want || (blank && direct.is_none());
			self.o.check("C21", ok, "versions_of_a_name_differ", || json!({"query": s(&q), "got": dbg(&direct), "want": dbg(&want)}));
			if std::str::from_utf8(&q).is_ok() {
				self.o.check("C21", by_rpc == direct, "rpc_lists_other_versions", || json!({"query": s(&q)}));
			}
			if self.o.bad {
				return
			}
		}
	}
	fn listing(&self, f: impl Fn(&(String, String)) -> bool) -> Vec<(u16, u8, String)> {
		let mut v: Vec<(u16, u8, String)> = self
			.versions
			.iter()
			.filter(|(k, _)| f(k))
			.flat_map(|(k, ids)| ids.iter().enumerate().map(move |(i, id)| (*id, (i + 1) as u8, format!("{}.{}", k.0, k.1))))
			.collect();
		v.sort_by(|a, b| (&a.2, a.1).cmp(&(&b.2, b.1)));
		v
	}
}
/// with the size limit voted in, or the one the chain starts with
fn externalities(max: u32, genesis: bool) -> TestExternalities {
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	if genesis {
		let c = if max == 1024 { Default::default() } else { schemas::GenesisConfig::<Rt> { initial_max_schema_model_size: max, ..Default::default() } };
		c.assimilate_storage(&mut t).unwrap();
	}
	let mut ext = TestExternalities::new(t);
	ext.execute_with(|| {
		frame_system::Pallet::<Rt>::set_block_number(1);
		if !genesis {
			dispatch(RuntimeCall::Schemas(schemas::Call::set_max_schema_model_bytes { max_size: max }), RuntimeOrigin::root()).unwrap();
		}
	});
	ext
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 31 + 13);
	MinModel::set(*g.pick(&[0u32, 2, 8, 8, 30]));
	Registrations::set(if g.chance(1, 6) { g.below(20) as u16 } else { 65000 });
	let max = *g.pick(&[40u32, 100, 300, 1024, LIMIT]);
	let genesis = g.chance(1, 2);
	let pool: Vec<Vec<u8>> = (0..g.range(1, 5))
		.map(|_| g.pick(&["dsnp.broadcast", "dsnp.reply", "dsnp.x", "dsn.pbroadcast", "dsnpp.x", "foo-bar.baz-qux", "foo.bar", "abc.d", "nnnnnnnnnnnnnnnnnnnnnnnnnnnnnn.d", "abc.dddddddddddddddddddddddddddd"]).as_bytes().to_vec())
		.collect();
	// near the end of the id space now and then
	let base: u32 = if g.chance(1, 12) { 65535 - g.below(6) as u32 } else { 1 };
	if base > 1 {
		Registrations::set(65535);
	}
	let about = json!({"smallest_model": MinModel::get(), "registrations": Registrations::get(), "first_id": base, "largest_model": max, "from_genesis": genesis});
	let mut ext = externalities(max, genesis);
	if genesis {
		r.count("histories_under_the_limit_of_the_genesis");
	}
	let rpc = SchemasHandler::<Client, Block>::new(Arc::new(Client::default()));
	let ops = g.range(5, if r.thorough() { 200 } else { 60 });
	let mut h = H { o: Mon::new(r, g, about), all: vec![], base, versions: Default::default(), max_model: max, pool };
	ext.execute_with(|| {
		Schemas::set_schema_count(base as u16 - 1);
		for i in 0..ops {
			match h.o.g.weighted(&[10, 6, 1]) {
				0 => h.create(),
				1 => h.name(),
				_ => h.resize(),
			}
			if h.o.bad {
				return
			}
			if i % 16 == 15 {
				h.observe(&rpc);
				if h.o.bad {
					return
				}
			}
		}
		h.observe(&rpc);
	});
	let sig = (h.all.len(), h.base, h.versions.clone(), h.o.log.len());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		let v = json!({"schemas": h.all.len(), "names": h.versions.len(), "last_operations": last});
		h.o.r.sample(v);
	}
}
/// one name with all the versions it can have
fn many_versions(r: &mut Run) {
	MinModel::set(0);
	Registrations::set(65000);
	let g = r.rng(21);
	let mut ext = externalities(LIMIT, false);
	let rpc = SchemasHandler::<Client, Block>::new(Arc::new(Client::default()));
	let mut h = H { o: Mon::new(r, g, json!({"scenario": "all versions of one name"})), all: vec![], base: 1, versions: Default::default(), max_model: LIMIT, pool: vec![b"abc.d".to_vec()] };
	ext.execute_with(|| {
		let mut beyond = 0;
		for i in 0..20000 {
			if h.versions.values().any(|v| v.len() >= 254) {
				beyond += 1;
				if beyond > 60 {
					break
				}
			}
			if i % 3 == 0 {
				h.name();
			} else {
				h.create();
			}
			if h.o.bad {
				return
			}
		}
		h.observe(&rpc);
	});
	let n = h.versions.values().map(|v| v.len()).max().unwrap_or(0);
	h.o.r.max("most_versions_of_one_name", n as u64);
}
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system is a stand-in written after polkadot v1.6.0 (DESIGN.md); the schemas pallet and its RPC are compiled unmodified from the tree");
	r.assume("a signature requirement on a location without stateful storage and blanks around a name may be accepted or refused");
	if r.prop == "C20" {
		r.require("schemas_created", 5000);
		r.require("schemas_read", 20000);
		r.require("histories_under_the_limit_of_the_genesis", 20);
		r.require("rejected:create_v3:the_model_is_not_well_formed", 200);
		r.require("rejected:create_v2:append_only_is_for_itemized_storage", 200);
	} else {
		r.require("names_given_at_creation", 500);
		r.require("names_given_later", 500);
		r.require("names_looked_up", 5000);
		r.require("rejected:name:the_schema_has_a_name_already", 200);
		r.require("rejected:name:the_name_is_malformed", 200);
		r.require("most_versions_of_one_name", 254);
		many_versions(&mut r);
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		history(&mut r, n);
	}
	r.add("histories", n);
	r.finish("a history is distinct if the schemas, names and versions created or its length differ from every other")
}
