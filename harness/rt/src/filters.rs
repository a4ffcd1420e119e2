// C34: what may be called at all, in a batch, through a proxy, with a passkey, with capacity.
include!("calls.rs");
use common::proxy::ProxyType;
use frame_support::traits::{Contains, InstanceFilter};
use pallet_frequency_tx_payment::GetStableWeight;
use rt::{BaseCallFilter, CapacityEligibleCalls, PasskeyCallFilter};
use RuntimeCall as C;

/// proposals go through the council on the main network
fn council_only(c: &RuntimeCall) -> bool {
	matches!(
		c,
		C::Msa(pallet_msa::Call::create_provider { .. }) |
			C::Schemas(pallet_schemas::Call::create_schema { .. }) |
			C::Schemas(pallet_schemas::Call::create_schema_v2 { .. }) |
			C::Schemas(pallet_schemas::Call::create_schema_v3 { .. })
	)
}
fn inner(c: &RuntimeCall) -> Option<&Vec<RuntimeCall>> {
	match c {
		C::Utility(pallet_utility::Call::batch { calls }) |
		C::Utility(pallet_utility::Call::batch_all { calls }) |
		C::Utility(pallet_utility::Call::force_batch { calls }) => Some(calls),
		_ => None,
	}
}
fn batchable(c: &RuntimeCall) -> bool {
	inner(c).is_none() && !matches!(c, C::FrequencyTxPayment(..)) && !council_only(c) && c.get_dispatch_info().pays_fee == Pays::Yes
}
/// None: a batch of nothing, about which nothing is claimed
fn permitted(c: &RuntimeCall) -> Option<bool> {
	match inner(c) {
		Some(v) if v.is_empty() => None,
		Some(v) => Some(v.iter().all(batchable)),
		None => Some(!(MAINNET && council_only(c))),
	}
}
const TYPES: [ProxyType; 5] = [ProxyType::Any, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking, ProxyType::CancelProxy];
fn proxied(t: ProxyType, c: &RuntimeCall) -> bool {
	match t {
		ProxyType::Any => true,
		ProxyType::NonTransfer => match c {
			C::TimeRelease(pallet_time_release::Call::claim { .. }) | C::TimeRelease(pallet_time_release::Call::claim_for { .. }) => true,
			C::Capacity(..) | C::CollatorSelection(..) | C::Council(..) | C::Democracy(..) | C::FrequencyTxPayment(..) | C::Handles(..) => true,
			C::Messages(..) | C::Msa(..) | C::Multisig(..) | C::Preimage(..) | C::Scheduler(..) | C::Schemas(..) | C::Session(..) => true,
			C::StatefulStorage(..) | C::TechnicalCommittee(..) | C::Treasury(..) | C::Utility(..) => true,
			_ => false,
		},
		ProxyType::Governance => matches!(c, C::Treasury(..) | C::Democracy(..) | C::TechnicalCommittee(..) | C::Council(..) | C::Utility(..)),
		ProxyType::Staking => matches!(
			c,
			C::Capacity(pallet_capacity::Call::stake { .. }) | C::CollatorSelection(pallet_collator_selection::Call::set_candidacy_bond { .. })
		),
		ProxyType::CancelProxy => matches!(c, C::Proxy(pallet_proxy::Call::reject_announcement { .. })),
	}
}
fn by_passkey(c: &RuntimeCall) -> bool {
	matches!(
		c,
		C::Balances(pallet_balances::Call::transfer_keep_alive { .. }) |
			C::Balances(pallet_balances::Call::transfer_allow_death { .. }) |
			C::Balances(pallet_balances::Call::transfer_all { .. })
	)
}
fn added(v: &[pallet_stateful_storage::types::ItemAction<rt_blob!()>]) -> u64 {
	use pallet_stateful_storage::types::ItemAction::*;
	v.iter().map(|a| match a {
		Add { data } => data.len() as u64,
		Delete { .. } => 0,
	}).sum()
}
/// The weight a capacity transaction is charged for: (fixed part, part per unit, units, reads, writes),
/// with the values that were published as stable.
fn stable(c: &RuntimeCall) -> Option<u64> {
	use pallet_handles::Call as Handle;
	use pallet_messages::Call as Message;
	use pallet_msa::Call as Msa;
	use pallet_stateful_storage::Call as State;
	let (base, per, units, reads, writes) = match c {
		C::Msa(Msa::add_public_key_to_msa { .. }) => (177_629_000u64, 0u64, 0u64, 8u64, 7u64),
		C::Msa(Msa::create_sponsored_account_with_delegation { add_provider_payload: p, .. }) => (123_084_817, 138_668, p.schema_ids.len() as u64, 10, 7),
		C::Msa(Msa::grant_delegation { add_provider_payload: p, .. }) => (115_947_313, 192_710, p.schema_ids.len() as u64, 8, 4),
		C::Messages(Message::add_ipfs_message { .. }) => (159_242_000, 0, 0, 3, 1),
		C::Messages(Message::add_onchain_message { payload, .. }) => (174_064_230, 1_527, payload.len() as u64, 4, 1),
		C::StatefulStorage(State::apply_item_actions { actions, .. }) => (104_137_090, 7_325, added(actions), 4, 1),
		C::StatefulStorage(State::upsert_page { payload, .. }) => (32_297_181, 594, payload.len() as u64, 4, 1),
		C::StatefulStorage(State::delete_page { .. }) => (37_792_000, 0, 0, 4, 1),
		C::StatefulStorage(State::apply_item_actions_with_signature { payload, .. }) => (158_947_612, 13_664, added(&payload.actions), 3, 1),
		C::StatefulStorage(State::apply_item_actions_with_signature_v2 { payload, .. }) => (158_947_612, 13_664, added(&payload.actions), 3, 1),
		C::StatefulStorage(State::upsert_page_with_signature { payload, .. }) => (87_768_259, 6_648, payload.payload.len() as u64, 3, 1),
		C::StatefulStorage(State::upsert_page_with_signature_v2 { payload, .. }) => (87_768_259, 6_648, payload.payload.len() as u64, 3, 1),
		C::StatefulStorage(State::delete_page_with_signature { .. }) => (90_631_000, 0, 0, 3, 1),
		C::StatefulStorage(State::delete_page_with_signature_v2 { .. }) => (90_631_000, 0, 0, 3, 1),
		C::Handles(Handle::claim_handle { payload, .. }) => (85_480_476, 107_272, payload.base_handle.len() as u64, 3, 3),
		C::Handles(Handle::change_handle { payload, .. }) => (95_748_064, 212_118, payload.base_handle.len() as u64, 3, 4),
		_ => return None,
	};
	Some(base + per * units + reads * 25_000_000 + writes * 100_000_000)
}

/// calls for which the answers differ from the ordinary
fn special(g: &mut Rng, all: &[u8], depth: u32) -> RuntimeCall {
	let who = acc(g.usize(6));
	let n = g.usize(20);
	match g.below(if depth > 2 { 16 } else { 21 }) {
		0 => pallet_msa::Call::create_provider { provider_name: g.bytes(4) }.into(),
		1 => pallet_msa::Call::retire_msa {}.into(),
		2 => pallet_msa::Call::revoke_delegation_by_provider { delegator: g.below(4) }.into(),
		3 => pallet_msa::Call::delete_msa_public_key { public_key_to_delete: who }.into(),
		4 => pallet_handles::Call::retire_handle {}.into(),
		5 => pallet_balances::Call::transfer_allow_death { dest: id(&who), value: g.below(1 << 40) as u128 }.into(),
		6 => pallet_balances::Call::transfer_keep_alive { dest: id(&who), value: g.below(1 << 40) as u128 }.into(),
		7 => pallet_balances::Call::transfer_all { dest: id(&who), keep_alive: g.chance(1, 2) }.into(),
		8 => pallet_msa::Call::create {}.into(),
		9 => frame_system::Call::remark { remark: g.bytes(n) }.into(),
		10 => pallet_capacity::Call::stake { target: g.below(4), amount: g.below(1 << 40) as u128 }.into(),
		11 => pallet_time_release::Call::claim {}.into(),
		12 => pallet_proxy::Call::add_proxy { delegate: id(&who), proxy_type: *g.pick(&TYPES), delay: 0 }.into(),
		13 => pallet_stateful_storage::Call::upsert_page { state_owner_msa_id: 1, schema_id: 1, page_id: 0, target_hash: 0, payload: g.bytes(n).try_into().unwrap() }.into(),
		14 => decoded(g, all),
		15 => {
			let proof = || sp_runtime::MultiSignature::Sr25519(sp_core::sr25519::Signature::from_raw([3; 64]));
			pallet_msa::Call::add_public_key_to_msa {
				msa_owner_public_key: who.clone(),
				msa_owner_proof: proof(),
				new_key_owner_proof: proof(),
				add_key_payload: pallet_msa::types::AddKeyData { msa_id: g.below(4), expiration: g.below(9) as u32, new_public_key: who },
			}
			.into()
		},
		16 => pallet_frequency_tx_payment::Call::pay_with_capacity { call: Box::new(special(g, all, depth + 1)) }.into(),
		17 => {
			let n = g.usize(4);
			pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls: (0..n).map(|_| special(g, all, depth + 1)).collect() }.into()
		},
		18 => pallet_proxy::Call::proxy { real: id(&who), force_proxy_type: None, call: Box::new(special(g, all, depth + 1)) }.into(),
		_ => {
			let n = g.usize(4);
			let v = (0..n).map(|_| special(g, all, depth + 1)).collect();
			batch(g, v)
		},
	}
}
/// a batch with calls that are mostly allowed in one
fn mixed(g: &mut Rng, all: &[u8]) -> RuntimeCall {
	let n = 1 + g.usize(5);
	let odd = g.usize(2 * n);
	let v = (0..n)
		.map(|i| {
			for _ in 0..8 {
				let c = special(g, all, 1);
				if batchable(&c) != (i == odd) {
					return c
				}
			}
			frame_system::Call::remark { remark: vec![] }.into()
		})
		.collect();
	batch(g, v)
}
fn fresh(g: &mut Rng) -> TestExternalities {
	let mut s = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let balances = (0..6).map(|k| (acc(k), if g.chance(1, 8) { 1_000_000 } else { 1 << 50 })).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut s).unwrap();
	TestExternalities::new(s)
}
fn answers(o: &mut Mon, c: &RuntimeCall, all: &[u8]) {
	let shown = || json!({"call": dbg(c)});
	// at the top
	match guarded(|| BaseCallFilter::contains(c)) {
		Err(p) => o.fail("C34", &format!("panic_{}", panic_sig(&p)), shown()),
		Ok(got) => {
			if let Some(want) = permitted(c) {
				let kind = if inner(c).is_some() { "batch" } else { "call" };
				o.r.count(&format!("{}_{kind}", if want { "admitted" } else { "refused" }));
				if got && !want {
					o.fail("C34", &format!("a_{kind}_that_has_to_be_refused_is_admitted"), shown());
				}
				if !got && want {
					o.fail("C34", &format!("a_permitted_{kind}_is_refused"), shown());
				}
			}
		},
	}
	for t in TYPES {
		let (want, got) = (proxied(t, c), t.filter(c));
		o.r.count(&format!("proxy:{t:?}:{want}"));
		o.check("C34", want || !got, &format!("a_{t:?}_proxy_may_call_too_much"), shown);
		o.check("C34", got || !want, &format!("a_{t:?}_proxy_may_not_call_enough"), shown);
	}
	let (want, got) = (by_passkey(c), PasskeyCallFilter::contains(c));
	o.r.count(&format!("passkey:{want}"));
	o.check("C34", want == got, if got { "a_passkey_may_call_too_much" } else { "a_passkey_may_not_transfer" }, shown);
	let (want, got) = (stable(c), CapacityEligibleCalls::get_stable_weight(c));
	if want.is_some() {
		o.r.count(&format!("capacity:{}", label(c)));
	}
	o.check("C34", want.is_some() == got.is_some(), if got.is_some() { "capacity_pays_for_a_call_that_is_not_eligible" } else { "capacity_does_not_pay_for_an_eligible_call" }, shown);
	if let (Some(w), Some(g)) = (want, got) {
		o.check("C34", g.ref_time() == w, "an_eligible_call_does_not_have_its_stable_weight", || json!({"call": dbg(c), "stable": w, "got": g.ref_time()}));
	}
	let want: Vec<&RuntimeCall> = match c {
		C::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity { call }) => vec![&**call],
		C::FrequencyTxPayment(pallet_frequency_tx_payment::Call::pay_with_capacity_batch_all { calls }) => calls.iter().collect(),
		c => vec![c],
	};
	let got = CapacityEligibleCalls::get_inner_calls(c);
	o.check("C34", got.as_ref() == Some(&want), "the_calls_paid_for_are_not_those_inside", shown);
	let _ = all;
}
/// a real dispatch: what the filter refuses is refused without a trace
fn acted(o: &mut Mon, c: RuntimeCall) {
	let Some(want) = permitted(&c) else { return };
	let who = acc(o.g.usize(6));
	let shown = format!("{c:?}");
	let plain = inner(&c).is_none() && !matches!(c, C::FrequencyTxPayment(..) | C::Multisig(..));
	let filtered: DispatchError = frame_system::Error::<Runtime>::CallFiltered.into();
	let mut got = None;
	let before = facts();
	let Some(_) = o.attempt("C34", shown.clone(), || {
		let r = dispatch(c, RuntimeOrigin::signed(who));
		got = Some(r);
		r.map_err(names)
	}) else { return };
	let got = got.unwrap();
	if !want {
		o.r.count("refused_on_dispatch");
		o.check("C34", got == Err(filtered), "a_call_was_executed_that_the_filter_refuses", || json!({"call": shown, "result": dbg(&got)}));
		o.check("C34", facts() == before, "a_refused_call_changed_state", || json!(shown));
	} else if plain {
		o.check("C34", got != Err(filtered), "a_permitted_call_was_filtered", || json!(shown));
	}
}
/// what a delegate may do in the name of another account
fn through_proxy(o: &mut Mon, all: &[u8]) {
	let t = *o.g.pick(&TYPES);
	let (real, delegate) = (acc(0), acc(1));
	let c = if o.g.chance(1, 3) { mixed(&mut o.g, all) } else { special(&mut o.g, all, 0) };
	let shown = format!("as {t:?}: {c:?}");
	// proxied with one type only
	let _ = dispatch::<RuntimeCall>(pallet_proxy::Call::remove_proxies {}.into(), RuntimeOrigin::signed(real.clone()));
	let set = dispatch::<RuntimeCall>(pallet_proxy::Call::add_proxy { delegate: id(&delegate), proxy_type: t, delay: 0 }.into(), RuntimeOrigin::signed(real.clone()));
	o.check("C34", set.is_ok(), "a_proxy_cannot_be_added", || json!(dbg(&set)));
	let free = rt::Balances::free_balance(&real);
	let allowed = proxied(t, &c) && permitted(&c).unwrap_or(true) && may_administer(t, &c);
	let unsure = permitted(&c).is_none();
	let plain = inner(&c).is_none() && !matches!(c, C::FrequencyTxPayment(..) | C::Multisig(..));
	rt::System::reset_events();
	let call: RuntimeCall = pallet_proxy::Call::proxy { real: id(&real), force_proxy_type: None, call: Box::new(c) }.into();
	let before = facts();
	if o.attempt("C34", shown.clone(), || dispatch(call, RuntimeOrigin::signed(delegate.clone())).map_err(names)).is_none() {
		return
	}
	let filtered: DispatchError = frame_system::Error::<Runtime>::CallFiltered.into();
	let result = rt::System::events().into_iter().rev().find_map(|e| match e.event {
		rt::RuntimeEvent::Proxy(pallet_proxy::Event::ProxyExecuted { result }) => Some(result),
		_ => None,
	});
	if !allowed && !unsure {
		o.r.count(&format!("proxied_refused:{t:?}"));
		o.check("C34", result == Some(Err(filtered)), "a_proxy_did_what_it_may_not", || json!({"call": shown, "result": dbg(&result)}));
		o.check("C34", facts() == before, "a_refused_proxy_call_changed_state", || json!(shown));
	} else if plain && !unsure {
		o.r.count(&format!("proxied_allowed:{t:?}"));
		o.check("C34", result != Some(Err(filtered)), "a_proxy_was_kept_from_what_it_may_do", || json!(shown));
	}
	if t != ProxyType::Any {
		let now = rt::Balances::free_balance(&real);
		o.check("C34", now >= free, "tokens_were_moved_by_a_proxy_that_may_not_transfer", || json!({"call": shown, "before": free.to_string(), "after": now.to_string()}));
	}
}
/// proxies hand out no more than they have
fn may_administer(t: ProxyType, c: &RuntimeCall) -> bool {
	match c {
		C::Proxy(pallet_proxy::Call::add_proxy { proxy_type, .. }) | C::Proxy(pallet_proxy::Call::remove_proxy { proxy_type, .. }) => t == ProxyType::Any || t == *proxy_type,
		C::Proxy(pallet_proxy::Call::remove_proxies {}) => t == ProxyType::Any,
		_ => true,
	}
}
pub fn run(r: &mut Run, n: u64) {
	let g = r.rng(0x3400 + n);
	let all = pallets();
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	fresh(&mut o.g).execute_with(|| {
		rt::System::set_block_number(1);
		for a in TYPES {
			for b in TYPES {
				let sup = InstanceFilter::<RuntimeCall>::is_superset(&a, &b);
				let must = a == b || a == ProxyType::Any;
				let never = a != ProxyType::Any && (b == ProxyType::Any || (a != ProxyType::NonTransfer && a != b));
				o.check("C34", sup || !must, "a_proxy_type_does_not_cover_what_it_has_to", || json!(format!("{a:?} {b:?}")));
				o.check("C34", !sup || !never, "a_proxy_type_covers_more_than_it_may", || json!(format!("{a:?} {b:?}")));
			}
		}
		for _ in 0..1500 {
			let c = match o.g.below(3) {
				0 => mixed(&mut o.g, &all),
				1 => special(&mut o.g, &all, 0),
				_ => decoded(&mut o.g, &all),
			};
			o.r.count(&format!("seen:{NETWORK}:{}", label(&c)));
			answers(&mut o, &c, &all);
			let k = (NETWORK, c.encode());
			o.r.case(&k);
			if o.r.wants_sample() && inner(&c).is_some_and(|v| v.len() > 1) {
				let v = json!({"network": NETWORK, "call": dbg(&c), "admitted": permitted(&c)});
				o.r.sample(v);
			}
			if o.g.chance(1, 3) {
				acted(&mut o, c);
			}
			if o.g.chance(1, 4) {
				through_proxy(&mut o, &all);
			}
			if o.bad {
				break
			}
		}
	});
}
