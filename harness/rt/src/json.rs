// C42: the same questions, by their published names and in JSON, to the module the node serves.
use node_rpc::rpc::{create_full, DenyUnsafe, FullDeps, RpcExtension};
use serde_json::Value;
type NodeBlock = common_primitives::node::Block;
const BEST: u8 = 0xbe;
impl sp_api::ProvideRuntimeApi<NodeBlock> for Client {
	type Api = rt::RuntimeApi;
	fn runtime_api(&self) -> sp_api::ApiRef<'_, rt::RuntimeApi> {
		&self.0
	}
}
impl sp_blockchain::HeaderBackend<NodeBlock> for Client {
	fn info(&self) -> sp_blockchain::Info<NodeBlock> {
		let n = rt::System::block_number();
		let (best_hash, genesis_hash, finalized_hash) = (H256::repeat_byte(BEST), H256::repeat_byte(0x9e), H256::repeat_byte(0xf1));
		sp_blockchain::Info { best_hash, best_number: n, genesis_hash, finalized_hash, finalized_number: n.saturating_sub(1) }
	}
}
impl sc_client_api::AuxStore for Client {}
impl<B> sc_client_api::StorageProvider<NodeBlock, B> for Client {}
impl sp_blockchain::HeaderMetadata<NodeBlock> for Client {
	type Error = sp_blockchain::Error;
}
const SERVED: &[&str] = &[
	"frequencyTxPayment_computeCapacityFeeDetails",
	"frequency_getEvents",
	"frequency_getMissingNonceValues",
	"handles_getHandleForMsa",
	"handles_getMsaForHandle",
	"handles_getNextSuffixes",
	"handles_validateHandle",
	"messages_getBySchemaId",
	"msa_checkDelegations",
	"msa_getAllGrantedDelegationsByMsaId",
	"msa_getKeysByMsaId",
	"msa_grantedSchemaIdsByMsaId",
	"payment_queryFeeDetails",
	"payment_queryInfo",
	"schemas_checkSchemaValidity",
	"schemas_getBySchemaId",
	"schemas_getVersions",
	"statefulStorage_getItemizedStorage",
	"statefulStorage_getPaginatedStorage",
	"system_accountNextIndex",
];
fn hex(b: &[u8]) -> String {
	format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
}
fn text(b: &[u8]) -> String {
	String::from_utf8(b.to_vec()).expect("text")
}
fn address(k: &Key) -> String {
	sp_core::crypto::to_ss58(k.as_ref())
}
fn message(m: &MessageResponse) -> Value {
	let mut v = json!({"provider_msa_id": m.provider_msa_id, "index": m.index, "block_number": m.block_number});
	// what there is none of is left out
	if let Some(x) = m.msa_id {
		v["msa_id"] = json!(x);
	}
	if let Some(x) = &m.payload {
		v["payload"] = json!(hex(x));
	}
	if let Some(x) = &m.cid {
		v["cid"] = json!(text(x));
	}
	if let Some(x) = m.payload_length {
		v["payload_length"] = json!(x);
	}
	v
}
fn settings(l: &[common_primitives::schema::SchemaSetting]) -> Value {
	l.iter().map(|s| match s {
		AppendOnly => "AppendOnly",
		SignatureRequired => "SignatureRequired",
	}).collect()
}
/// lists whose order is of no meaning, in one
fn ordered(mut v: Value) -> Value {
	if let Value::Array(l) = &mut v {
		*l = l.drain(..).map(ordered).collect();
		l.sort_by_key(|x| x.to_string());
	} else if let Value::Object(m) = &mut v {
		for x in m.values_mut() {
			*x = ordered(x.take());
		}
	}
	v
}
enum Order {
	Kept,
	Any,
}
use Order::*;
/// a question: the name, the parameters, of which the last so many may be left out, and the answer: `None`
/// if there must be none
struct Question {
	name: &'static str,
	params: Vec<Value>,
	optional: usize,
	/// the block whose state it is about
	at: u8,
	answer: Option<Value>,
	order: Order,
}
impl World<'_> {
	fn questions(&mut self, v: &View, keys: &[(u64, Vec<Key>)], pool: &Pool, history: u32) -> Vec<Question> {
		let mut l = vec![];
		let mut put = |name: &'static str, params: Value, optional: usize, answer: Option<Value>, order: Order| {
			let Value::Array(params) = params else { unreachable!() };
			l.push(Question { name, params, optional, at: BEST, answer, order });
		};
		// delegations
		let mut pairs: Vec<(u64, u64)> = v.grants.keys().copied().collect();
		pairs.push((self.any_msa(), self.any_msa()));
		let (d, p) = *self.o.g.pick(&pairs);
		let n = self.o.g.usize(5);
		let list: Vec<u64> = (0..n).map(|_| if self.o.g.chance(1, 3) { d } else { self.any_msa() }).collect();
		let schema = if self.o.g.chance(2, 3) { Some(self.o.g.below(SCHEMAS as u64 + 2) as u16) } else { None };
		let block = self.now.saturating_sub(self.o.g.below(2) as u32);
		let until = |r: u32| r == 0 || block <= r;
		let may = |d: u64| v.grants.get(&(d, p)).is_some_and(|(at, s)| until(*at) && schema.map_or(true, |x| s.get(&x).is_some_and(|r| until(*r))));
		put("msa_checkDelegations", json!([list, p, block, schema]), schema.is_none() as usize, Some(json!(list.iter().map(|d| json!([d, may(*d)])).collect::<Vec<_>>())), Kept);
		let effective = |x: &(u32, Map<u16, u32>)| -> Value {
			x.1.iter().map(|(s, r)| json!({"schema_id": s, "revoked_at": if x.0 > 0 && (*r == 0 || *r > x.0) { x.0 } else { *r }})).collect()
		};
		put("msa_grantedSchemaIdsByMsaId", json!([d, p]), 0, Some(v.grants.get(&(d, p)).filter(|x| !x.1.is_empty()).map_or(Value::Null, effective)), Any);
		let all: Vec<Value> = v.grants.iter().filter(|((x, _), _)| *x == d).map(|((_, p), x)| json!({"provider_id": p, "permissions": effective(x)})).collect();
		put("msa_getAllGrantedDelegationsByMsaId", json!([d]), 0, Some(json!(all)), Any);
		let m = if keys.is_empty() || self.o.g.chance(1, 3) { self.any_msa() } else { self.o.g.pick(keys).0 };
		let want = keys.iter().find(|x| x.0 == m).map_or(Value::Null, |(m, k)| json!({"msa_id": m, "msa_keys": k.iter().map(address).collect::<Vec<_>>()}));
		put("msa_getKeysByMsaId", json!([m]), 0, Some(want), Kept);
		// handles
		let m = if v.handles.is_empty() || self.o.g.chance(1, 3) { self.any_msa() } else { *self.o.g.pick(&v.handles.keys().copied().collect::<Vec<_>>()) };
		let have = v.handles.get(&m).map(|h| text(&h.0));
		let parts = have.as_ref().and_then(|h| h.rsplit_once('.')).map(|(b, s)| (b.to_string(), s.parse::<u16>().expect("a suffix")));
		let want = parts.as_ref().map_or(Value::Null, |(b, s)| json!({"base_handle": b, "canonical_base": handles_utils::converter::convert_to_canonical(b), "suffix": s}));
		put("handles_getHandleForMsa", json!([m]), 0, Some(want), Kept);
		let asked = have.clone().unwrap_or_else(|| ["", ".", "alice", "alice.99999", "a.b.c", "Æ.1"][self.o.g.usize(6)].into());
		put("handles_getMsaForHandle", json!([asked]), 0, Some(have.map_or(Value::Null, |_| json!(m))), Kept);
		let base = ["alice", "ALICE", "Bobby", "Ævar"][self.o.g.usize(4)];
		let count = [None, Some(1u16), Some(3), Some(100), Some(u16::MAX)][self.o.g.usize(5)];
		let direct = rt::Handles::get_next_suffixes(base.as_bytes().to_vec().try_into().expect("short"), count.unwrap_or(1).min(100));
		put("handles_getNextSuffixes", json!([base, count]), count.is_none() as usize, Some(json!({"base_handle": base, "suffixes": direct.suffixes})), Kept);
		let name = ["alice", "ab", "admin", "has.dot", "ok name", "Ævar", "@nope", "\u{1f600}abc"][self.o.g.usize(8)];
		put("handles_validateHandle", json!([name]), 0, Some(json!(rt::Handles::validate_handle(name.as_bytes().to_vec()))), Kept);
		// stored contents
		for (itemized, s) in [(true, [3u16, 5]), (false, [4, 6])] {
			let held: Vec<(u64, u16)> = v.owned.iter().filter(|(k, x)| s.contains(&k.1) && x.contains("payload: [")).map(|x| *x.0).collect();
			let (m, s) = if held.is_empty() || self.o.g.chance(1, 4) { (self.any_msa(), *self.o.g.pick(&s)) } else { *self.o.g.pick(&held) };
			let s = if self.o.g.chance(1, 8) { self.o.g.below(SCHEMAS as u64 + 2) as u16 } else { s };
			if itemized {
				let want = rt::StatefulStorage::get_itemized_storage(m, s).ok().map(|x| {
					let items: Vec<Value> = x.items.iter().map(|i| json!({"index": i.index, "payload": hex(&i.payload)})).collect();
					json!({"msa_id": x.msa_id, "schema_id": x.schema_id, "content_hash": x.content_hash, "nonce": x.nonce, "items": items})
				});
				put("statefulStorage_getItemizedStorage", json!([m, s]), 0, want, Kept);
			} else {
				let want = rt::StatefulStorage::get_paginated_storage(m, s).ok().map(|x| {
					x.iter().map(|p| json!({"page_id": p.page_id, "msa_id": p.msa_id, "schema_id": p.schema_id, "content_hash": p.content_hash, "nonce": p.nonce, "payload": hex(&p.payload)})).collect()
				});
				put("statefulStorage_getPaginatedStorage", json!([m, s]), 0, want, Any);
			}
		}
		// schemas
		let s = self.o.g.below(SCHEMAS as u64 + 3) as u16;
		let want = rt::Schemas::get_schema_by_id(s).map_or(Value::Null, |x| {
			let model_type = match x.model_type {
				ModelType::AvroBinary => "AvroBinary",
				ModelType::Parquet => "Parquet",
			};
			let place = match x.payload_location {
				OnChain => "OnChain",
				IPFS => "IPFS",
				Itemized => "Itemized",
				Paginated => "Paginated",
			};
			json!({"schema_id": x.schema_id, "model": text(&x.model), "model_type": model_type, "payload_location": place, "settings": settings(&x.settings)})
		});
		put("schemas_getBySchemaId", json!([s]), 0, Some(want), Kept);
		let name = ["test.one", "test.two", "test.none", "test", "", "1.2", "a.b.c"][self.o.g.usize(7)];
		let want = rt::Schemas::get_schema_versions(name.as_bytes().to_vec()).map_or(Value::Null, |l| {
			l.iter().map(|x| json!({"schema_name": text(&x.schema_name), "schema_version": x.schema_version, "schema_id": x.schema_id})).collect()
		});
		put("schemas_getVersions", json!([name]), 0, Some(want), Any);
		let (model, good) = [(MODEL, true), ("{}", false), ("", false), ("\"string\"", true), ("{\"type\":\"int\"}", true), ("\u{0}", false)][self.o.g.usize(6)];
		let at = if self.o.g.chance(1, 2) { json!(null) } else { json!(hex(&[7; 32])) };
		put("schemas_checkSchemaValidity", json!([model.as_bytes(), at]), at.is_null() as usize, good.then_some(json!(true)), Kept);
		// messages, page by page
		let (s, place) = if self.o.g.chance(1, 12) { (self.o.g.below(2) as u16 * 200, OnChain) } else { *self.o.g.pick(&[(1u16, OnChain), (2, IPFS)]) };
		let from = self.now.saturating_sub(self.o.g.below(12) as u32).max(history);
		let to = from + self.o.g.below(14) as u32;
		let (index, size) = (if self.o.g.chance(1, 2) { 0 } else { self.o.g.below(4) as u32 }, [0, 1, 2, 3, 5, 10_000, 10_001, u32::MAX][self.o.g.usize(8)]);
		let to = if self.o.g.chance(1, 16) { *self.o.g.pick(&[from + 50_001, u32::MAX]) } else { to };
		let fine = (1..=10_000).contains(&size) && from < to && to - from <= 50_000 && (1..=SCHEMAS).contains(&s);
		let want = fine.then(|| {
			let mut content = vec![];
			let mut next = None;
			'all: for b in from..to.min(self.now + 1) {
				let here = rt::Messages::get_messages_by_schema_and_block(s, place, b);
				for (i, m) in here.iter().enumerate().skip(if b == from { index as usize } else { 0 }) {
					content.push(message(m));
					if content.len() == size as usize {
						next = Some(if i + 1 == here.len() { (b + 1, 0) } else { (b, i + 1) }).filter(|x| x.0 < to);
						break 'all
					}
				}
			}
			let mut v = json!({"content": content, "has_next": next.is_some()});
			if let Some((b, i)) = next {
				v["next_block"] = json!(b);
				v["next_index"] = json!(i);
			}
			v
		});
		put("messages_getBySchemaId", json!([s, {"from_block": from, "from_index": index, "to_block": to, "page_size": size}]), 0, want, Kept);
		// the node's own
		let events: Vec<Value> = rt::System::events()
			.into_iter()
			.map(|e| {
				let b = e.event.encode();
				let phase = match e.phase {
					frame_system::Phase::ApplyExtrinsic(i) => json!(i),
					_ => Value::Null,
				};
				json!({"phase": phase, "pallet": b[0], "event": b[1], "data": hex(&b[2..])})
			})
			.collect();
		put("frequency_getEvents", json!([hex(&[9; 32])]), 0, Some(json!(events)), Kept);
		let k = self.someone();
		let nonce = rt::System::account_nonce(&k);
		let waiting: Vec<u32> = pool.futures.iter().filter_map(|t| <(Key, u32)>::decode(&mut &t.provides[0][..]).ok()).filter(|x| x.0 == k).map(|x| x.1).collect();
		let want: Vec<u32> = waiting.iter().max().map_or(vec![], |last| (nonce..*last).filter(|n| !waiting.contains(n)).collect());
		put("frequency_getMissingNonceValues", json!([address(&k)]), 0, Some(json!(want)), Kept);
		put("system_accountNextIndex", json!([address(&k)]), 0, Some(json!(nonce)), Kept);
		// the price of a transaction
		let (a, call) = self.operation();
		if let Some(k) = (0..PEOPLE).find(|i| acc(*i) == a) {
			let call: RuntimeCall = if self.o.g.chance(1, 2) { Paid::pay_with_capacity { call: Box::new(call) }.into() } else { call };
			let xt = self.extrinsic(k, call, rt::System::account_nonce(&a), false, 0);
			let bytes = xt.encode();
			use pallet_frequency_tx_payment_rpc::CapacityTransactionPaymentRuntimeApi;
			let fee = CapacityTransactionPaymentRuntimeApi::<rt::Block, u128>::compute_capacity_fee(&rt::RuntimeApi, H256::zero(), xt, bytes.len() as u32).expect("a fee");
			let want = fee.inclusion_fee.map_or(Value::Null, |f| {
				let n = |x: u128| format!("0x{x:x}");
				json!({"baseFee": n(f.base_fee), "lenFee": n(f.len_fee), "adjustedWeightFee": n(f.adjusted_weight_fee)})
			});
			let junk = self.o.g.chance(1, 6);
			let sent = if junk { hex(&bytes[1..bytes.len() / 2]) } else { hex(&bytes) };
			let at = if self.o.g.chance(1, 2) { json!(null) } else { json!(hex(&[7; 32])) };
			put("frequencyTxPayment_computeCapacityFeeDetails", json!([sent, at]), at.is_null() as usize, if junk { None } else { Some(json!({"inclusionFee": want})) }, Kept);
		}
		for q in &mut l {
			q.at = match q.name {
				"frequency_getEvents" => 9,
				_ if q.params.last() == Some(&json!(hex(&[7; 32]))) => 7,
				_ => BEST,
			};
		}
		l
	}
	/// a parameter spoilt: of another kind, too large, or missing
	fn spoilt(&mut self, q: &Question) -> Option<Value> {
		let needed = q.params.len() - usize::from(matches!(q.name, "msa_checkDelegations" | "handles_getNextSuffixes" | "schemas_checkSchemaValidity" | "frequencyTxPayment_computeCapacityFeeDetails"));
		let mut l = q.params.clone();
		match self.o.g.below(4) {
			0 => {
				l.truncate(self.o.g.usize(needed));
				return Some(json!(l))
			},
			1 => return Some(if self.o.g.chance(1, 2) { json!("text") } else { json!(5) }),
			_ => (),
		}
		let i = self.o.g.usize(needed);
		let bad: Vec<Value> = match &l[i] {
			Value::Number(_) => vec![json!(-1), json!(1.5), json!("1"), json!(null), json!([]), json!(1e30), json!({})],
			Value::String(s) if s.starts_with("0x") => vec![json!("0x0g"), json!(null), json!(7), json!("0xzz")],
			Value::String(s) if s.len() > 40 => vec![json!("5Grw"), json!(null), json!(7), json!("0x00"), json!("")],
			Value::String(_) => vec![json!(5), json!(null), json!(["a"]), json!({})],
			Value::Array(_) => vec![json!(5), json!(null), json!(["a"]), json!([-1]), json!([1.5])],
			_ => vec![json!(5), json!(null), json!({}), json!({"from_block": 1, "to_block": 2, "from_index": 0}), json!({"from_block": "1", "to_block": 2, "from_index": 0, "page_size": 5})],
		};
		l[i] = self.o.g.pick(&bad).clone();
		Some(json!(l))
	}
	fn in_json(&mut self, client: &Arc<Client>, v: &View, history: u32) {
		// the index, and the pool
		let mut db = TestPersistentOffchainDB::new();
		let mut keys: Vec<(u64, Vec<Key>)> = vec![];
		for m in v.keys.values().copied().collect::<Set<_>>() {
			if self.o.g.chance(1, 2) {
				let l: Vec<Key> = v.keys.iter().filter(|x| *x.1 == m).map(|x| x.0.clone()).collect();
				db.set(sp_offchain::STORAGE_PREFIX, &get_msa_account_storage_key_name(m), &l.encode());
				keys.push((m, l));
			}
		}
		let mut pool = Pool::default();
		for _ in 0..self.o.g.usize(4) {
			let k = self.someone();
			let nonce = rt::System::account_nonce(&k) + 1 + self.o.g.below(6) as u32;
			let tag = (k.clone(), nonce).encode();
			if pool.futures.iter().all(|t| t.provides[0] != tag) {
				pool.futures.push(Waiting { hash: self.o.g.u64(), requires: vec![(k, nonce - 1).encode()], provides: vec![tag], priority: 0, longevity: 64 });
			}
		}
		let sealing = self.o.g.chance(1, 2);
		let sink = sealing.then(futures::channel::mpsc::Sender::stand_in);
		let off = self.o.g.chance(1, 10);
		let deps = FullDeps { client: client.clone(), pool: Arc::new(pool.clone()), deny_unsafe: DenyUnsafe::Yes, command_sink: sink };
		let module: RpcExtension = match guarded(|| create_full(deps, if off { None } else { Some(db) })) {
			Ok(Ok(m)) => m,
			Ok(Err(e)) => return self.o.fail("C42", "the_interface_is_not_served", json!({"error": e.to_string()})),
			Err(p) => return self.o.fail("C42", &format!("panic_{}", panic_sig(&p)), json!({"panic": p})),
		};
		let served: Set<&str> = module.method_names().collect();
		let missing: Vec<&&str> = SERVED.iter().filter(|n| !served.contains(**n)).collect();
		self.o.check("C42", missing.is_empty(), "a_method_is_not_served", || json!({"missing": dbg(&missing), "served": dbg(&served)}));
		self.o.check("C42", served.contains("engine_createBlock") == sealing, "blocks_can_be_ordered_where_they_must_not_be", || json!({"sealing": sealing, "served": dbg(&served)}));
		let ask = |name: &str, params: &Value| {
			sp_api::ASKED.with(|a| a.borrow_mut().clear());
			let r = guarded(|| module.ask(name, Some(params)));
			(r, sp_api::ASKED.with(|a| a.take()))
		};
		for q in self.questions(v, &keys, &pool, history) {
			let mut forms = vec![q.params.clone()];
			if q.optional > 0 {
				forms.push(q.params[..q.params.len() - q.optional].to_vec());
			}
			let no_index = off && q.name == "msa_getKeysByMsaId";
			for p in forms {
				let p = json!(p);
				let (got, at) = ask(q.name, &p);
				let same = match (&got, &q.answer) {
					(Ok(Some(Err(_))), None) => true,
					(Ok(Some(Err(_))), _) if no_index => true,
					(Ok(Some(Ok(g))), Some(w)) => !no_index && match q.order {
						Kept => g == w,
						Any => ordered(g.clone()) == ordered(w.clone()),
					},
					_ => false,
				};
				let kind = match &q.answer {
					None => "refused",
					Some(Value::Null) => "nothing",
					Some(Value::Array(l)) if l.is_empty() => "nothing",
					Some(Value::Object(m)) if m.get("has_next") == Some(&json!(true)) => "answered_in_part",
					Some(Value::Object(m)) if m.get("content").or(m.get("items")).is_some_and(|c| *c == json!([])) => "nothing",
					_ => "answered",
				};
				self.o.r.count(&format!("{}:{kind}", q.name));
				self.o.check("C42", same, &format!("{}_is_answered_wrongly", q.name), || json!({"params": p, "expected": q.answer, "got": dbg(&got)}));
				let right = at.iter().all(|h| *h == [q.at; 32]);
				self.o.check("C42", right, &format!("{}_is_asked_of_another_block", q.name), || json!({"params": p, "asked": dbg(&at), "expected": hex(&[q.at; 32])}));
				if !at.is_empty() {
					self.o.r.count(if q.at == BEST { "at:best" } else { "at:given" });
				}
			}
			// nothing is made up when there is nothing to look at
			if self.o.g.chance(1, 3) && q.name != "msa_getKeysByMsaId" {
				sp_api::DOWN.with(|d| d.set(true));
				let (got, _) = ask(q.name, &json!(q.params));
				sp_api::DOWN.with(|d| d.set(false));
				let fine = match &got {
					Ok(Some(Err(_))) => true,
					// not allowed, as far as is known
					Ok(Some(Ok(v))) => q.name == "msa_checkDelegations" && v.as_array().is_some_and(|l| l.iter().all(|x| x[1] == json!(false))) || q.name == "schemas_checkSchemaValidity" && q.answer.as_ref() == Some(v),
					_ => false,
				};
				self.o.r.count("asked_in_vain");
				self.o.check("C42", fine, &format!("{}_is_made_up", q.name), || json!({"params": q.params, "got": dbg(&got)}));
			}
			if let Some(bad) = self.spoilt(&q) {
				let (got, _) = ask(q.name, &bad);
				self.o.r.count("malformed");
				self.o.check("C42", matches!(&got, Ok(Some(Err(_)))), &format!("{}_takes_what_is_malformed", q.name), || json!({"params": bad, "got": dbg(&got)}));
			}
		}
	}
}
pub fn published(r: &mut Run, n: u64) {
	let g = r.rng(0x4200 + n);
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	o.prop = "C42".into();
	let (mut w, s) = world(o);
	let client = Arc::new(Client::default());
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		w.setting();
		for (s, name) in [(2u16, "test.one"), (1, "test.two"), (5, "test.one")] {
			let r = dispatch::<RuntimeCall>(pallet_schemas::Call::create_schema_name_via_governance { schema_id: s, schema_name: name.as_bytes().to_vec().try_into().unwrap() }.into(), RuntimeOrigin::root());
			w.must(r);
		}
		let history = rt::System::block_number();
		for _ in 0..120 {
			if w.o.bad {
				break
			}
			if w.o.g.chance(1, 6) {
				w.now += 1 + w.o.g.below(3) as u32;
				rt::System::reset_events();
				Executive::initialize_at(w.now);
			}
			for _ in 0..3 {
				let (actor, call) = w.operation();
				if matches!(call, C::System(..)) {
					continue
				}
				rt::System::set_extrinsic_index(w.o.g.below(100) as u32);
				let what = format!("{call:?}");
				let _ = w.o.attempt("C42", what, || dispatch(call, RuntimeOrigin::signed(actor)).map_err(names));
			}
			let v = view();
			let before = state();
			w.in_json(&client, &v, history);
			w.o.check("C42", before == state(), "asking_changed_the_state", || json!(null));
			let k = format!("{v:?}");
			w.o.r.case(&(NETWORK, k.as_str()));
		}
	});
}
