//! C31: the Avro helper functions, driven with generated schemas, records and byte strings.
use apache_avro::{schema::Schema, types::Value as V};
use common_helpers::avro::*;
use std::collections::HashMap;
use vmon::*;

#[derive(Clone, Debug)]
enum T {
	Null,
	Bool,
	Int,
	Long,
	Float,
	Double,
	Bytes,
	Str,
	Enum(String, Vec<String>),
	Fixed(String, usize),
	Array(Box<T>),
	Map(Box<T>),
	Union(Vec<T>),
	Rec(String, Vec<(String, T)>),
	Date,
	TsMillis,
}

struct Gen {
	g: Rng,
	n: usize,
	logical: bool,
	seqs: bool,
}

impl Gen {
	fn name(&mut self, p: &str) -> String {
		self.n += 1;
		format!("{p}{}", self.n)
	}
	fn ty(&mut self, depth: u32) -> T {
		let top = if depth == 0 { 8 } else { 14 };
		match self.g.below(top) {
			0 => T::Bool,
			1 => T::Int,
			2 => T::Long,
			3 => T::Float,
			4 => T::Double,
			5 => T::Bytes,
			6 => T::Str,
			7 =>
				if self.logical {
					if self.g.chance(1, 2) {
						T::Date
					} else {
						T::TsMillis
					}
				} else {
					T::Long
				},
			8 => {
				let n = self.name("E");
				let k = 1 + self.g.usize(5);
				T::Enum(n, (0..k).map(|i| format!("S{i}")).collect())
			},
			9 => {
				let n = self.name("F");
				let k = 1 + self.g.usize(20);
				T::Fixed(n, k)
			},
			10 if self.seqs => T::Array(Box::new(self.ty(depth - 1))),
			11 if self.seqs => T::Map(Box::new(self.ty(depth - 1))),
			10..=12 => {
				// unions: null plus distinct primitive branches
				let mut pool = vec![T::Bool, T::Long, T::Double, T::Bytes, T::Str];
				self.g.shuffle(&mut pool);
				pool.truncate(1 + self.g.usize(3));
				let at = self.g.usize(pool.len() + 1);
				pool.insert(at, T::Null);
				T::Union(pool)
			},
			_ => self.rec(depth - 1),
		}
	}
	fn rec(&mut self, depth: u32) -> T {
		let n = self.name("R");
		let k = 1 + self.g.usize(6);
		let f = (0..k).map(|i| (format!("f{i}"), self.ty(depth))).collect();
		T::Rec(n, f)
	}
	fn value(&mut self, t: &T) -> V {
		match t {
			T::Null => V::Null,
			T::Bool => V::Boolean(self.g.chance(1, 2)),
			T::Int => V::Int(*self.g.fork().pick(&[0, -1, i32::MIN, i32::MAX, self.g.u32() as i32])),
			T::Long => V::Long(*self.g.fork().pick(&[0, -1, i64::MIN, i64::MAX, self.g.u64() as i64])),
			T::Float => V::Float((self.g.u32() as i32) as f32 / 7.0),
			T::Double => V::Double((self.g.u64() as i64) as f64 / 3.0),
			T::Bytes => {
				let k = self.len();
				V::Bytes(self.g.bytes(k))
			},
			T::Str => {
				let k = self.len();
				V::String((0..k).map(|_| char::from_u32(self.g.below(0xD000) as u32).unwrap()).collect())
			},
			T::Enum(_, s) => {
				let i = self.g.usize(s.len());
				V::Enum(i as u32, s[i].clone())
			},
			T::Fixed(_, k) => V::Fixed(*k, self.g.bytes(*k)),
			T::Array(t) => {
				let k = self.g.usize(5);
				V::Array((0..k).map(|_| self.value(t)).collect())
			},
			T::Map(t) => {
				let k = self.g.usize(5);
				V::Map((0..k).map(|i| (format!("k{i}"), self.value(t))).collect())
			},
			T::Union(ts) => {
				let i = self.g.usize(ts.len());
				V::Union(i as u32, Box::new(self.value(&ts[i])))
			},
			T::Rec(_, f) => V::Record(f.iter().map(|(n, t)| (n.clone(), self.value(t))).collect()),
			T::Date => V::Date(self.g.u32() as i32),
			T::TsMillis => V::TimestampMillis(self.g.u64() as i64),
		}
	}
	fn len(&mut self) -> usize {
		match self.g.below(10) {
			0 => 0,
			1 => 63 + self.g.usize(4),
			2 => self.g.usize(3000),
			_ => self.g.usize(20),
		}
	}
}

fn js(t: &T) -> Value {
	match t {
		T::Null => json!("null"),
		T::Bool => json!("boolean"),
		T::Int => json!("int"),
		T::Long => json!("long"),
		T::Float => json!("float"),
		T::Double => json!("double"),
		T::Bytes => json!("bytes"),
		T::Str => json!("string"),
		T::Enum(n, s) => json!({"type": "enum", "name": n, "symbols": s}),
		T::Fixed(n, k) => json!({"type": "fixed", "name": n, "size": k}),
		T::Array(t) => json!({"type": "array", "items": js(t)}),
		T::Map(t) => json!({"type": "map", "values": js(t)}),
		T::Union(ts) => Value::Array(ts.iter().map(js).collect()),
		T::Rec(n, f) => json!({"type": "record", "name": n, "doc": "d",
			"fields": f.iter().map(|(n, t)| json!({"name": n, "type": js(t)})).collect::<Vec<_>>()}),
		T::Date => json!({"type": "int", "logicalType": "date"}),
		T::TsMillis => json!({"type": "long", "logicalType": "timestamp-millis"}),
	}
}

/// a value that is valid for no schema of this type
fn wrong(t: &T) -> V {
	match t {
		T::Null | T::Bool | T::Int | T::Long | T::Float | T::Double | T::Date | T::TsMillis =>
			V::Map([("x".to_string(), V::Boolean(true))].into_iter().collect()),
		_ => V::Boolean(true),
	}
}

fn has_bool(t: &T) -> bool {
	matches!(t, T::Union(ts) if ts.iter().any(|t| matches!(t, T::Bool))) || matches!(t, T::Bool)
}

/// signature of a panic while decoding
fn decode_panic(p: &str) -> String {
	let nums: Vec<&str> = p.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
	if p.contains("apache-avro-") && p.contains("decode.rs") && p.contains("index out of bounds") && nums.len() > 2 &&
		nums[nums.len() - 1] == nums[nums.len() - 2]
	{
		return "panic:apache-avro:enum_index_equal_to_symbol_count".to_string()
	}
	format!("panic:get_schema_data_map:{}", panic_sig(p))
}

fn verdict_sig(what: &str, got: &Result<bool, String>) -> String {
	match got {
		Err(p) if p.contains("apache-avro-") && p.contains("InvalidSchemaName") =>
			"panic:apache-avro:InvalidSchemaName".to_string(),
		Err(p) => format!("panic:{what}:{}", panic_sig(p)),
		_ => format!("{what}_verdict_wrong"),
	}
}

fn main() {
	let mut r = Run::from_env(20, 300);
	let mut g = r.rng(31);
	let cap = if r.thorough() { u64::MAX } else { 12_000 };
	let mut n = 0u64;
	let mut texts: Vec<String> = vec![];
	while r.time_left() && !r.too_many() && n < cap {
		n += 1;
		let logical = g.chance(1, 4);
		let seqs = g.chance(1, 2);
		let mut gen = Gen { g: g.fork(), n: 0, logical, seqs };
		let depth = gen.g.below(4) as u32;
		let t = gen.rec(depth);
		let T::Rec(_, fields) = &t else { unreachable!() };
		let raw = js(&t).to_string();
		r.case(raw.as_str());
		let fp = match guarded(|| fingerprint_raw_schema(&raw)) {
			Ok(Ok(x)) => x,
			Ok(Err(e)) => {
				r.violation("valid_schema_refused", json!({"schema": raw, "error": e.to_string()}));
				continue
			},
			Err(p) => {
				r.violation("panic:fingerprint", json!({"schema": raw, "panic": p}));
				continue
			},
		};
		if texts.len() < 400 {
			texts.push(raw.clone())
		}
		let (schema, canon) = fp;
		r.check(
			matches!(guarded(|| validate_raw_avro_schema(&raw.clone().into_bytes())), Ok(Ok(()))),
			"valid_schema_reported_invalid",
			|| json!({"schema": raw}),
		);
		r.check(
			Schema::parse_str(&raw).map(|s| s.canonical_form().into_bytes()).ok() == Some(canon.clone()),
			"stored_form_is_not_the_canonical_form",
			|| json!({"schema": raw, "stored": String::from_utf8_lossy(&canon)}),
		);
		let back = match guarded(|| translate_schema(canon.clone())) {
			Ok(Ok(s)) => s,
			o => {
				r.violation("stored_schema_does_not_parse", json!({"schema": raw, "got": format!("{o:?}")}));
				continue
			},
		};
		r.check(back.canonical_form().as_bytes() == canon, "translated_schema_differs", || {
			json!({"schema": raw, "stored": String::from_utf8_lossy(&canon), "translated": back.canonical_form()})
		});
		for _ in 0..3 {
			let V::Record(vals) = gen.value(&t) else { unreachable!() };
			let rec: HashMap<String, V> = vals.into_iter().collect();
			let ser = match guarded(|| populate_schema_and_serialize(&schema, &rec)) {
				Ok(Ok(b)) => b,
				o => {
					r.violation("valid_record_refused", json!({"schema": raw, "record": dbg(&rec), "got": format!("{o:?}")}));
					continue
				},
			};
			r.count("records_round_tripped");
			r.add("bytes_serialized", ser.len() as u64);
			match guarded(|| get_schema_data_map(&ser, &schema)) {
				Ok(Ok(m)) => {
					r.check(m == rec, "round_trip_changes_record", || {
						json!({"schema": raw, "in": dbg(&rec), "out": dbg(&m)})
					});
				},
				o => r.violation("own_output_unreadable", json!({"schema": raw, "record": dbg(&rec), "got": format!("{o:?}")})),
			}
			if !logical {
				match guarded(|| get_schema_data_map(&ser, &back)) {
					Ok(Ok(m)) => {
						r.count("records_read_with_stored_schema");
						r.check(m == rec, "stored_schema_reads_differently", || {
							json!({"schema": raw, "in": dbg(&rec), "out": dbg(&m)})
						});
					},
					o => r.violation("unreadable_with_stored_schema", json!({"schema": raw, "got": format!("{o:?}")})),
				}
			}
			if r.wants_sample() {
				r.sample(json!({"schema": raw, "record": dbg(&rec), "bytes": hex(&ser)}));
			}
			// a field of the wrong type, or a required field left out, is refused
			let i = g.usize(fields.len());
			if !has_bool(&fields[i].1) {
				let mut bad = rec.clone();
				bad.insert(fields[i].0.clone(), wrong(&fields[i].1));
				let o = guarded(|| populate_schema_and_serialize(&schema, &bad));
				r.count("ill_typed_records_tried");
				r.check(matches!(o, Ok(Err(_))), "ill_typed_record_accepted", || {
					json!({"schema": raw, "record": dbg(&bad), "got": format!("{o:?}")})
				});
			}
			if !matches!(fields[i].1, T::Union(_)) {
				let mut bad = rec.clone();
				bad.remove(&fields[i].0);
				let o = guarded(|| populate_schema_and_serialize(&schema, &bad));
				r.count("incomplete_records_tried");
				r.check(matches!(o, Ok(Err(_))), "incomplete_record_accepted", || {
					json!({"schema": raw, "record": dbg(&bad), "got": format!("{o:?}")})
				});
			}
			// damaged bytes never panic; truncation of a non-empty datum is an error
			if !seqs {
				let mut b = ser.clone();
				if !b.is_empty() {
					for _ in 0..1 + g.usize(3) {
						let i = g.usize(b.len());
						b[i] = g.u8();
					}
				}
				if let Err(p) = guarded(|| get_schema_data_map(&b, &schema).map(|_| ()).map_err(|_| ())) {
					r.violation(&decode_panic(&p), json!({"schema": raw, "bytes": hex(&b), "panic": p}));
				}
				let k = g.usize(40);
				let b = g.bytes(k);
				if let Err(p) = guarded(|| get_schema_data_map(&b, &schema).map(|_| ()).map_err(|_| ())) {
					r.violation(&decode_panic(&p), json!({"schema": raw, "bytes": hex(&b), "panic": p}));
				}
				r.add("damaged_inputs_tried", 2);
				if !ser.is_empty() {
					let cut = ser[..g.usize(ser.len())].to_vec();
					let o = guarded(|| get_schema_data_map(&cut, &schema).map(|m| format!("{m:?}")).map_err(|_| ()));
					r.count("truncated_inputs_tried");
					match o {
						Ok(Err(())) => r.count("truncated_inputs_refused"),
						// apache-avro itself reads a missing trailing boolean as null
						Ok(Ok(_)) => r.count("truncated_inputs_read"),
						Err(p) => r.violation(&decode_panic(&p), json!({"schema": raw, "bytes": hex(&cut), "panic": p})),
					}
				}
			}
		}
	}
	// schema text: validity verdict equals parsability, for damaged and arbitrary text and bytes
	let mut m = 0u64;
	let cap = if r.thorough() { 400_000 } else { 12_000 };
	while !texts.is_empty() && !r.too_many() && m < cap {
		m += 1;
		let mut b = g.pick(&texts).clone().into_bytes();
		match g.below(8) {
			0 => b = {
				let k = g.usize(60);
				g.bytes(k)
			},
			1 => b.truncate(g.usize(b.len())),
			2 => {
				let i = g.usize(b.len());
				b[i] = g.u8();
			},
			3 => {
				let i = g.usize(b.len());
				b.insert(i, *g.pick(b"{}[]\",: \n0a"));
			},
			4 => {
				let s = String::from_utf8(b.clone()).unwrap();
				let (from, to) = *g.pick(&[
					("\"string\"", "\"strin\""), ("record", "recrd"), ("\"f0\"", "\"\""), ("\"name\"", "\"nam\""),
					("\"fields\"", "\"field\""), ("\"long\"", "[\"null\",\"null\"]"), ("\"int\"", "null"),
				]);
				b = s.replacen(from, to, 1).into_bytes();
			},
			5 => {
				let i = g.usize(b.len());
				let j = i + g.usize(b.len() - i);
				b.drain(i..j);
			},
			_ => {},
		}
		let want = std::str::from_utf8(&b).ok().and_then(|s| guarded(|| Schema::parse_str(s).is_ok()).ok());
		let got = guarded(|| validate_raw_avro_schema(&b).is_ok());
		r.case(&b);
		match (&want, &got) {
			(Some(true), Ok(true)) => r.count("schema_texts_valid"),
			_ => r.count("schema_texts_invalid"),
		}
		r.check(got == Ok(want.unwrap_or(false)), &verdict_sig("validity", &got), || {
			json!({"text": String::from_utf8_lossy(&b), "parses": want, "got": dbg(&got)})
		});
		let tr = guarded(|| translate_schema(b.clone()).is_ok());
		r.check(tr == Ok(want.unwrap_or(false)), &verdict_sig("translation", &tr), || {
			json!({"text": String::from_utf8_lossy(&b), "parses": want, "got": dbg(&tr)})
		});
		if let Ok(s) = std::str::from_utf8(&b) {
			let f = guarded(|| fingerprint_raw_schema(s).is_ok());
			r.check(f == Ok(want.unwrap_or(false)), &verdict_sig("fingerprint", &f), || json!({"text": s, "got": dbg(&f)}));
		}
	}
	// a schema that is not a record cannot hold a record
	for s in ["\"string\"", "{\"type\":\"array\",\"items\":\"long\"}", "[\"null\",\"long\"]"] {
		let sch = Schema::parse_str(s).unwrap();
		let o = guarded(|| populate_schema_and_serialize(&sch, &HashMap::new()));
		r.check(matches!(o, Ok(Err(AvroError::InvalidSchema(_)))), "non_record_schema_accepted", || json!({"schema": s, "got": format!("{o:?}")}));
		let o = guarded(|| get_schema_data_map(&vec![0, 0], &sch).map(|_| ()).map_err(|_| ()));
		r.check(matches!(o, Ok(Err(_))), "non_record_datum_accepted", || json!({"schema": s}));
		r.count("non_record_schemas_tried");
	}
	r.require("records_round_tripped", 1000);
	r.require("records_read_with_stored_schema", 500);
	r.require("schema_texts_invalid", 500);
	r.require("damaged_inputs_tried", 500);
	r.assume("array and map schemas are not fed damaged bytes: apache-avro reserves memory for the declared element count");
	r.finish("random record schemas (primitives, enums, fixed, unions, arrays, maps, nested records, logical types), three random records each, ill-typed/incomplete/damaged/truncated variants, and damaged schema texts; distinct by schema text or bytes")
}
