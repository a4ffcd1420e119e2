// C43: the weight a call declares covers what it does to the state and the data it carries, calls that
// carry others declare theirs as well, and the class of a call and who may call for free are as documented.
use frame_support::dispatch::DispatchClass as Class;
use frame_support::traits::Hooks;

/// what the benchmarks of the platform leave out: the bookkeeping of the block, counted with its base weight
fn counted(k: &[u8]) -> bool {
	let system = sp_io::hashing::twox_128(b"System");
	let account = sp_io::hashing::twox_128(b"Account");
	let issuance = [sp_io::hashing::twox_128(b"Balances"), sp_io::hashing::twox_128(b"TotalIssuance")].concat();
	if k.starts_with(b":") || k.starts_with(&issuance) {
		return k.starts_with(b":child_storage:")
	}
	!k.starts_with(&system) || k[16..].starts_with(&account)
}
/// reads, writes and the bytes read
fn cost(t: &sp_io::Touched, left_out: &[Vec<u8>]) -> (u64, u64, u64) {
	let there = |k: &[u8]| counted(k) && !left_out.iter().any(|x| x == k);
	let read: Vec<u64> = t.read.iter().filter(|(k, _)| there(k)).map(|(_, n)| *n as u64).collect();
	(read.len() as u64, t.written.iter().filter(|k| there(k)).count() as u64, read.iter().sum())
}
/// of the database that is assumed, in picoseconds
fn picoseconds(reads: u64, writes: u64) -> u64 {
	reads * 25_000_000 + writes * 100_000_000
}
fn ours(c: &RuntimeCall) -> bool {
	let m = c.get_call_metadata();
	["Msa", "Messages", "Schemas", "StatefulStorage", "Capacity", "Handles", "TimeRelease"].contains(&m.pallet_name)
}
impl World<'_> {
	fn judge_weights(&mut self) {
		for d in DONE.with(|d| d.borrow_mut().replace(vec![])).unwrap_or_default() {
			self.weight_of(d)
		}
	}
	fn weight_of(&mut self, d: Done) {
		let Done { by, call, info, actual, ok, touched } = d;
		let name = label(&call);
		let w = info.weight;
		let mut paid = once_a_block();
		// the account that signs is part of what every transaction weighs
		paid.extend(by.as_ref().map(|k| frame_system::Account::<Runtime>::hashed_key_for(k)));
		let (reads, writes, bytes) = cost(&touched, &paid);
		self.o.r.case(&(NETWORK, name.as_str(), reads, writes, w.ref_time()));
		let shown = || json!({"network": NETWORK, "call": dbg(&call), "done": ok, "reads": reads, "writes": writes, "bytes_read": bytes, "picoseconds": picoseconds(reads, writes), "declared": format!("{w:?}"), "actual": format!("{actual:?}")});
		if let (Some(a), true) = (actual, ours(&call) || name.starts_with("FrequencyTxPayment.")) {
			self.o.r.count("actual_weight_given");
			self.o.check("C43", w.all_gte(a), &format!("more_weight_was_used_than_declared:{name}"), shown);
		}
		if !ours(&call) {
			self.o.r.count("call_of_the_platform");
			return
		}
		self.o.r.count(&format!("weighed:{name}:{}", if ok { "done" } else { "refused" }));
		self.o.check("C43", w.ref_time() >= picoseconds(reads, writes), &format!("the_state_touched_is_not_weighed:{name}"), shown);
		self.o.check("C43", w.proof_size() >= bytes, &format!("the_state_read_is_not_in_the_proof_size:{name}"), shown);
		if self.o.r.wants_sample() && ok && writes > 2 {
			self.o.r.sample(shown());
		}
	}
	/// the class of a call and whether it is free
	fn class_of(&mut self, call: &RuntimeCall) {
		let info = call.get_dispatch_info();
		let name = label(call);
		let shown = || json!({"network": NETWORK, "call": dbg(call), "info": dbg(&info)});
		match call {
			c if ours(c) => {
				let free = ["Msa.revoke_delegation_by_delegator", "Msa.revoke_delegation_by_provider", "Msa.delete_msa_public_key", "Msa.retire_msa", "Handles.retire_handle"].contains(&name.as_str());
				self.o.r.count(if free { "class:free" } else { "class:paid" });
				self.o.check("C43", (info.pays_fee == Pays::No) == free, &format!("free_or_not_as_documented:{name}"), shown);
				let class = if name == "Schemas.set_max_schema_model_bytes" { Class::Operational } else { Class::Normal };
				self.o.check("C43", info.class == class, &format!("not_of_its_class:{name}"), shown);
				self.o.check("C43", info.weight.ref_time() > 0, &format!("weighs_nothing:{name}"), shown);
			},
			_ => (),
		}
	}
	/// what carries other calls
	fn carriers(&mut self) {
		let n = 1 + self.o.g.usize(4);
		let calls: Vec<RuntimeCall> = (0..n).map(|_| if self.o.g.chance(1, 2) { self.of_any_size() } else { self.operation().1 }).collect();
		let c = calls[0].clone();
		let inner = c.get_dispatch_info();
		self.class_of(&c);
		// one read for the MSA, one for its capacity, which is written
		let overhead = picoseconds(2, 1);
		let one: RuntimeCall = Paid::pay_with_capacity { call: Box::new(c.clone()) }.into();
		let info = one.get_dispatch_info();
		self.o.r.count("carrier:pay_with_capacity");
		let shown = |what: &DispatchInfo| json!({"network": NETWORK, "carried": calls.iter().map(|c| (label(c), dbg(&c.get_dispatch_info()))).collect::<Vec<_>>(), "carrier": dbg(what)});
		self.o.check("C43", info.weight.ref_time() >= inner.weight.ref_time().saturating_add(overhead) && info.weight.proof_size() >= inner.weight.proof_size(), "pay_with_capacity_weighs_less_than_what_it_carries", || shown(&info));
		self.o.check("C43", info.class == inner.class && info.pays_fee == Pays::Yes, "pay_with_capacity_changes_the_class_or_is_free", || shown(&info));
		let all: RuntimeCall = Paid::pay_with_capacity_batch_all { calls: calls.clone() }.into();
		let info = all.get_dispatch_info();
		let (time, proof) = calls.iter().map(|c| c.get_dispatch_info().weight).fold((0u64, 0u64), |(t, p), w| (t.saturating_add(w.ref_time()), p.saturating_add(w.proof_size())));
		self.o.r.count(&format!("carrier:batch_of_{n}"));
		self.o.check("C43", info.weight.ref_time() >= time.saturating_add(overhead) && info.weight.proof_size() >= proof, "pay_with_capacity_batch_all_weighs_less_than_what_it_carries", || shown(&info));
		self.o.check("C43", info.class == Class::Normal && info.pays_fee == Pays::Yes, "pay_with_capacity_batch_all_is_free_or_not_normal", || shown(&info));
		if let Some(x) = passkeys::transaction([2; 33], acc(0), 0, signed(0, vec![1]), c.clone()) {
			let info = x.function.get_dispatch_info();
			self.o.r.count("carrier:passkey");
			self.o.check("C43", info.weight.ref_time() > inner.weight.ref_time() && info.weight.proof_size() >= inner.weight.proof_size(), "a_passkey_call_weighs_less_than_what_it_carries", || shown(&info));
			self.o.check("C43", info.class == inner.class && info.pays_fee == Pays::Yes, "a_passkey_call_changes_the_class_or_is_free", || shown(&info));
		}
	}
	/// the same call with more and more data
	fn sizes(&mut self) {
		let kind = self.o.g.usize(KINDS);
		let top = most(kind);
		let a = self.o.g.below(top as u64) as usize;
		let most = if self.o.g.chance(1, 2) { 3 } else { top - a };
		let b = (a + 1 + self.o.g.usize(most)).min(top);
		let (x, y) = (of_size(kind, a), of_size(kind, b));
		let (p, q) = (x.get_dispatch_info().weight, y.get_dispatch_info().weight);
		let name = label(&x);
		self.o.r.count(&format!("sized:{name}"));
		let shown = || json!({"network": NETWORK, "call": name, "sizes": [a, b], "weights": [dbg(&p), dbg(&q)]});
		// the actions on items weigh at least what a removal does, which is more than any five additions
		let strict = !name.contains("apply_item_actions");
		self.o.check("C43", if strict { q.ref_time() > p.ref_time() } else { q.ref_time() >= p.ref_time() }, &format!("more_data_does_not_weigh_more:{name}"), shown);
		self.o.check("C43", q.proof_size() >= p.proof_size(), &format!("more_data_has_a_smaller_proof:{name}"), shown);
		self.class_of(&x);
		self.o.r.case(&(NETWORK, name.as_str(), a, b));
		// the same done for somebody who signed it, whose signature has to be checked
		let plain = match kind {
			5 | 6 => Some(of_size(4, a)),
			8 | 9 => Some(of_size(7, a)),
			_ => None,
		};
		if let Some(plain) = plain {
			let without = plain.get_dispatch_info().weight;
			self.o.r.count("signed_and_not");
			self.o.check("C43", p.ref_time() > without.ref_time(), &format!("checking_a_signature_weighs_nothing:{name}"), || json!({"network": NETWORK, "signed": dbg(&p), "not": dbg(&without), "bytes": a}));
		}
	}
	/// what the start of a block does
	fn hooks(&mut self) {
		let now = self.now + self.o.g.below(3) as u32 * 50;
		let each: [(&str, fn(u32) -> frame_support::weights::Weight); 8] = [
			("Msa", |n| pallet_msa::Pallet::<Runtime>::on_initialize(n)),
			("Messages", |n| pallet_messages::Pallet::<Runtime>::on_initialize(n)),
			("Capacity", |n| pallet_capacity::Pallet::<Runtime>::on_initialize(n)),
			("Schemas", |n| pallet_schemas::Pallet::<Runtime>::on_initialize(n)),
			("StatefulStorage", |n| pallet_stateful_storage::Pallet::<Runtime>::on_initialize(n)),
			("Handles", |n| pallet_handles::Pallet::<Runtime>::on_initialize(n)),
			("TimeRelease", |n| pallet_time_release::Pallet::<Runtime>::on_initialize(n)),
			("FrequencyTxPayment", |n| pallet_frequency_tx_payment::Pallet::<Runtime>::on_initialize(n)),
		];
		for (name, f) in each {
			let (w, t) = sp_io::touching(|| tentatively(|| f(now)));
			let (reads, writes, bytes) = cost(&t, &[]);
			self.o.r.count(&format!("start_of_block:{name}:{reads}:{writes}"));
			let shown = || json!({"network": NETWORK, "pallet": name, "block": now, "reads": reads, "writes": writes, "bytes": bytes, "declared": dbg(&w)});
			// which single calls leave to it
			let (reads, writes) = if matches!(name, "Msa" | "Messages") { (reads.max(1), writes.max(1)) } else { (reads, writes) };
			self.o.check("C43", w.ref_time() >= picoseconds(reads, writes), &format!("the_start_of_a_block_is_not_weighed:{name}"), shown);
		}
	}
}
const KINDS: usize = 23;
/// the most data there may be of
fn most(kind: usize) -> usize {
	match kind {
		0 | 1 | 2 => 30,
		3 => 3072,
		4 | 5 | 6 => 5 * 1024,
		7 | 8 | 9 => 1024,
		10 | 11 => 32,
		12 => 50,
		13 => 10,
		_ => 65_500,
	}
}
fn of_size(kind: usize, n: usize) -> RuntimeCall {
	use pallet_schemas::Call as S;
	let (owner, schema_id, page_id, target_hash, expiration) = (1, 1, 0, 0, 50);
	let (key, proof) = (acc(0), signed(0, vec![1]));
	let schema_ids: Vec<u16> = (0..n.min(30) as u16).collect();
	let grant = || AddProvider { authorized_msa_id: 1, schema_ids: schema_ids.clone(), expiration };
	let handle = || ClaimHandlePayload::<u32>::new(vec![b'h'; n], expiration);
	// five items, as evenly filled as can be
	macro_rules! items {
		() => {
			(0..5).map(|i| st::ItemAction::Add { data: vec![7; (n + i) / 5].try_into().unwrap() }).collect::<Vec<_>>().try_into().unwrap()
		};
	}
	macro_rules! model {
		() => {
			vec![b' '; n].try_into().unwrap()
		};
	}
	let (model_type, payload_location) = (ModelType::AvroBinary, OnChain);
	let named = || Some(b"dsnp.a".to_vec().try_into().unwrap());
	#[allow(deprecated)]
	match kind {
		0 => Msa::create_sponsored_account_with_delegation { delegator_key: key, proof, add_provider_payload: grant() }.into(),
		1 => Msa::grant_delegation { delegator_key: key, proof, add_provider_payload: grant() }.into(),
		2 => Msa::revoke_schema_permissions { provider_msa_id: 1, schema_ids }.into(),
		3 => pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id, payload: vec![1; n] }.into(),
		4 => State::apply_item_actions { state_owner_msa_id: owner, schema_id, target_hash, actions: items!() }.into(),
		5 => State::apply_item_actions_with_signature { delegator_key: key, proof, payload: st::ItemizedSignaturePayload { msa_id: owner, schema_id, target_hash, expiration, actions: items!() } }.into(),
		6 => State::apply_item_actions_with_signature_v2 { delegator_key: key, proof, payload: st::ItemizedSignaturePayloadV2 { schema_id, target_hash, expiration, actions: items!() } }.into(),
		7 => State::upsert_page { state_owner_msa_id: owner, schema_id, page_id, target_hash, payload: model!() }.into(),
		8 => State::upsert_page_with_signature { delegator_key: key, proof, payload: st::PaginatedUpsertSignaturePayload { msa_id: owner, schema_id, page_id, target_hash, expiration, payload: model!() } }.into(),
		9 => State::upsert_page_with_signature_v2 { delegator_key: key, proof, payload: st::PaginatedUpsertSignaturePayloadV2 { schema_id, page_id, target_hash, expiration, payload: model!() } }.into(),
		10 => Handle::claim_handle { msa_owner_key: key, proof, payload: handle() }.into(),
		11 => Handle::change_handle { msa_owner_key: key, proof, payload: handle() }.into(),
		12 => pallet_time_release::Call::update_release_schedules { who: id(&key), release_schedules: vec![pallet_time_release::ReleaseSchedule { start: 1, period: 1, period_count: 1, per_period: 1 }; n] }.into(),
		13 => Paid::pay_with_capacity_batch_all { calls: vec![Msa::create {}.into(); n] }.into(),
		14 => S::create_schema { model: model!(), model_type, payload_location }.into(),
		15 => S::create_schema_v2 { model: model!(), model_type, payload_location, settings: Default::default() }.into(),
		16 => S::create_schema_v3 { model: model!(), model_type, payload_location, settings: Default::default(), schema_name: None }.into(),
		17 => S::create_schema_v3 { model: model!(), model_type, payload_location, settings: Default::default(), schema_name: named() }.into(),
		18 => S::propose_to_create_schema { model: model!(), model_type, payload_location, settings: Default::default() }.into(),
		19 => S::propose_to_create_schema_v2 { model: model!(), model_type, payload_location, settings: Default::default(), schema_name: None }.into(),
		20 => S::propose_to_create_schema_v2 { model: model!(), model_type, payload_location, settings: Default::default(), schema_name: named() }.into(),
		21 => S::create_schema_via_governance { creator_key: key, model: model!(), model_type, payload_location, settings: Default::default() }.into(),
		_ => S::create_schema_via_governance_v2 { creator_key: key, model: model!(), model_type, payload_location, settings: Default::default(), schema_name: None }.into(),
	}
}
/// what is declared to be kept in memory during a block, as a single call counts neither reading nor writing it
fn once_a_block() -> Vec<Vec<u8>> {
	[("Msa", "OffchainIndexEventCount"), ("Messages", "BlockMessageIndex"), ("Capacity", "CurrentEpoch")]
		.map(|(p, s)| [sp_io::hashing::twox_128(p.as_bytes()), sp_io::hashing::twox_128(s.as_bytes())].concat())
		.to_vec()
}
pub fn weights_run(r: &mut Run, n: u64) {
	let g = r.rng(0x4300 + n);
	let o = Mon::new(r, g, json!({"network": NETWORK}));
	let (mut w, s) = world(o);
	DONE.with(|d| *d.borrow_mut() = Some(vec![]));
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		w.setting();
		w.judge_weights();
		if n % 4 < 2 {
			for _ in 0..120 {
				if w.o.bad {
					break
				}
				match w.o.g.below(8) {
					0 => w.advance(1),
					1 if w.o.g.chance(1, 8) => {
						let model: Vec<u8> = b"{\"type\":\"string\"}".to_vec();
						#[allow(deprecated)]
						let call = pallet_schemas::Call::create_schema_via_governance { creator_key: acc(w.o.g.usize(PEOPLE)), model: model.try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: OnChain, settings: Default::default() };
						let _ = taken(call.into(), None);
					},
					1 => w.decree(),
					2 => w.carriers(),
					3 => w.sizes(),
					4 if w.o.g.chance(1, 10) => w.hooks(),
					_ => {
						let (actor, call) = w.operation();
						w.class_of(&call);
						w.o.note(format!("#{} {} {call:?}", w.now, w.name(&actor)));
						let _ = guarded(|| taken(call, Some(actor)));
					},
				}
				w.judge_weights();
			}
		} else {
			w.case((n / 4) as usize % EDGE_CASES);
			w.judge_weights();
		}
	});
	DONE.with(|d| *d.borrow_mut() = None);
}
