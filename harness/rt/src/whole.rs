// C35: whatever wraps a call - proxies, multisigs, batches, capacity payment - only those entitled to
// a change bring it about, and the safeguards of each operation hold.
include!("calls.rs");
use common_primitives::{handles::ClaimHandlePayload, messages::MessageResponse, utils::wrap_binary_data};
use common::proxy::ProxyType;
use pallet_frequency_tx_payment::Call as Paid;
use pallet_handles::Call as Handle;
use pallet_msa::types::{AddKeyData, AddProvider};
use pallet_msa::Call as Msa;
use pallet_stateful_storage::types as st;
use pallet_stateful_storage::Call as State;
use rt::Executive;
use sp_runtime::{
	generic::Era,
	traits::Verify,
	transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError},
	MultiSignature,
};
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use RuntimeCall as C;

type Key = AccountId;
const PEOPLE: usize = 9;
const SCHEMAS: u16 = 6;
const UNIT: u128 = 100_000_000;

#[derive(Clone, PartialEq, Debug, Default)]
struct View {
	keys: Map<Key, u64>,
	last_msa: u64,
	handles: Map<u64, (Vec<u8>, u32)>,
	/// (delegator, provider): (revoked at, schema: revoked at)
	grants: Map<(u64, u64), (u32, Map<u16, u32>)>,
	providers: Set<u64>,
	schemas: u16,
	/// remaining, or restored when next used
	capacity: Map<u64, u128>,
	/// staked and thawing
	stakes: Map<Key, (u128, u128)>,
	targets: Set<(Key, u64)>,
	/// free and reserved, frozen, nonce
	accounts: Map<Key, (u128, u128, u32)>,
	alive: Set<Key>,
	issuance: u128,
	owned: Map<(u64, u16), String>,
	messages: Vec<(u16, u64, u64, u16, String)>,
}
fn view() -> View {
	use frame_support::traits::fungible::Inspect;
	let last_msa = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
	let mut v = View {
		keys: pallet_msa::PublicKeyToMsaId::<Runtime>::iter().collect(),
		last_msa,
		handles: pallet_handles::MSAIdToDisplayName::<Runtime>::iter().map(|(m, (h, e))| (m, (h.into_inner(), e))).collect(),
		grants: pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter()
			.map(|(d, p, x)| ((d.0, p.0), (x.revoked_at, x.schema_permissions.iter().map(|(s, b)| (*s, *b)).collect())))
			.collect(),
		providers: pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().map(|(p, _)| p.0).collect(),
		schemas: rt::Schemas::get_current_schema_identifier_maximum(),
		capacity: pallet_capacity::CapacityLedger::<Runtime>::iter()
			.map(|(m, d)| (m, if d.last_replenished_epoch < rt::Capacity::get_current_epoch() { d.total_capacity_issued } else { d.remaining_capacity }))
			.collect(),
		targets: pallet_capacity::StakingTargetLedger::<Runtime>::iter().map(|(a, m, _)| (a, m)).collect(),
		issuance: rt::Balances::total_issuance(),
		..Default::default()
	};
	for (a, d) in pallet_capacity::StakingAccountLedger::<Runtime>::iter() {
		v.stakes.entry(a).or_default().0 = d.active;
	}
	for (a, l) in pallet_capacity::UnstakeUnlocks::<Runtime>::iter() {
		v.stakes.entry(a).or_default().1 = l.iter().map(|c| c.value).sum();
	}
	for (a, i) in frame_system::Account::<Runtime>::iter() {
		if i.providers + i.sufficients > 0 {
			v.alive.insert(a.clone());
		}
		v.accounts.insert(a, (i.data.free + i.data.reserved, i.data.frozen, i.nonce));
	}
	for m in 1..=last_msa {
		for s in 1..=SCHEMAS {
			let x = match s {
				3 | 5 => format!("{:?}", rt::StatefulStorage::get_itemized_storage(m, s)),
				4 | 6 => {
					let mut p = rt::StatefulStorage::get_paginated_storage(m, s);
					if let Ok(p) = &mut p {
						p.sort_by_key(|p| p.page_id);
					}
					format!("{p:?}")
				},
				_ => continue,
			};
			v.owned.insert((m, s), x);
		}
	}
	let now = rt::System::block_number();
	for (s, l) in [(1, OnChain), (2, IPFS)] {
		for MessageResponse { provider_msa_id, msa_id, index, payload, cid, .. } in rt::Messages::get_messages_by_schema_and_block(s, l, now) {
			v.messages.push((s, provider_msa_id, msa_id.unwrap_or(provider_msa_id), index, format!("{payload:?} {cid:?}")));
		}
	}
	v
}
use common_primitives::schema::{ModelType, PayloadLocation::*, SchemaSetting::*};

#[derive(Debug, Clone)]
struct Leaf {
	actor: Key,
	call: RuntimeCall,
	batched: bool,
	wrapped: bool,
}
fn multi(others: &[Key], who: &Key) -> Key {
	let mut all = others.to_vec();
	all.push(who.clone());
	all.sort();
	rt::Multisig::multi_account_id(&all, 1)
}
/// the calls inside, each with the account it acts for
fn leaves(actor: &Key, c: &RuntimeCall, batched: bool, wrapped: bool, out: &mut Vec<Leaf>) {
	match c {
		C::Utility(pallet_utility::Call::batch { calls }) |
		C::Utility(pallet_utility::Call::batch_all { calls }) |
		C::Utility(pallet_utility::Call::force_batch { calls }) =>
			for c in calls {
				leaves(actor, c, true, true, out)
			},
		C::FrequencyTxPayment(Paid::pay_with_capacity { call }) => leaves(actor, call, batched, true, out),
		C::FrequencyTxPayment(Paid::pay_with_capacity_batch_all { calls }) =>
			for c in calls {
				leaves(actor, c, true, true, out)
			},
		C::Proxy(pallet_proxy::Call::proxy { real: MultiAddress::Id(real), call, .. }) => leaves(real, call, false, true, out),
		C::Multisig(pallet_multisig::Call::as_multi_threshold_1 { other_signatories, call }) => {
			leaves(&multi(other_signatories, actor), call, false, true, out)
		},
		c => out.push(Leaf { actor: actor.clone(), call: c.clone(), batched, wrapped }),
	}
}
fn proven(proof: &MultiSignature, key: &Key, payload: Vec<u8>) -> bool {
	proof.verify(&payload[..], key) || proof.verify(&wrap_binary_data(payload)[..], key)
}

struct World<'a> {
	o: Mon<'a>,
	all: Vec<u8>,
	now: u32,
	people: Vec<Key>,
	multis: Vec<(Key, usize, Vec<Key>)>,
	/// transactions that were included
	past: Vec<(rt::UncheckedExtrinsic, Key, u32, u128)>,
	told: Told,
}
include!("taken.rs");
include!("tell.rs");
impl World<'_> {
	fn someone(&mut self) -> Key {
		let n = self.people.len() + self.multis.len();
		let k = self.o.g.usize(n);
		if k < self.people.len() {
			self.people[k].clone()
		} else {
			self.multis[k - self.people.len()].0.clone()
		}
	}
	fn msa_of(&mut self, a: &Key) -> u64 {
		if self.o.g.chance(1, 12) {
			return self.o.g.below(12)
		}
		pallet_msa::PublicKeyToMsaId::<Runtime>::get(a).unwrap_or(1)
	}
	fn any_msa(&mut self) -> u64 {
		let last = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
		self.o.g.below(last + 2)
	}
	/// mostly one that keeps a key and, if asked for, a provider
	fn holder(&mut self, provider: bool) -> Key {
		let m: Vec<Key> = pallet_msa::PublicKeyToMsaId::<Runtime>::iter()
			.filter(|(_, m)| !provider || pallet_msa::ProviderToRegistryEntry::<Runtime>::contains_key(common_primitives::msa::ProviderId(*m)))
			.map(|(k, _)| k)
			.collect();
		if m.is_empty() || self.o.g.chance(1, 10) {
			return self.someone()
		}
		self.o.g.pick(&m).clone()
	}
	fn sign(&mut self, k: &Key, payload: Vec<u8>) -> MultiSignature {
		let bytes = if self.o.g.chance(1, 20) { payload } else { wrap_binary_data(payload) };
		let mut who = (0..PEOPLE).find(|i| acc(*i) == *k).unwrap_or(0);
		if self.o.g.chance(1, 15) {
			who = self.o.g.usize(PEOPLE);
		}
		MultiSignature::Sr25519(pair(who).sign(&bytes))
	}
	fn expiration(&mut self) -> u32 {
		match self.o.g.below(12) {
			0 => self.now,
			1 => self.now + 1,
			2 => self.now + 99_999,
			_ => self.now + 1 + self.o.g.below(40) as u32,
		}
	}
	fn schema_ids(&mut self) -> Vec<u16> {
		let n = self.o.g.usize(4);
		(0..n).map(|_| 1 + self.o.g.below(SCHEMAS as u64) as u16).collect::<Set<_>>().into_iter().collect()
	}
	/// an operation and the account it is for
	fn operation(&mut self) -> (Key, RuntimeCall) {
		if self.o.g.chance(1, 6) {
			if let Some(x) = self.follow_up() {
				return x
			}
		}
		let a = self.someone();
		let h = self.holder(false);
		let p = self.holder(true);
		match self.o.g.below(40) {
			0 => (a, Msa::create {}.into()),
			1 | 2 => {
				let new = a;
				let payload = AddKeyData::<Runtime> { msa_id: self.msa_of(&h), expiration: self.expiration(), new_public_key: new.clone() };
				let call = Msa::add_public_key_to_msa {
					msa_owner_public_key: h.clone(),
					msa_owner_proof: self.sign(&h, payload.encode()),
					new_key_owner_proof: self.sign(&new, payload.encode()),
					add_key_payload: payload,
				};
				(if self.o.g.chance(1, 2) { h } else { self.someone() }, call.into())
			},
			3 | 4 => {
				let other = self.holder(false);
				let all: Vec<_> = pallet_msa::PublicKeyToMsaId::<Runtime>::iter().collect();
				let m = self.msa_of(&h);
				let same: Vec<_> = all.into_iter().filter(|(_, x)| *x == m).map(|(k, _)| k).collect();
				let k = if same.is_empty() || self.o.g.chance(1, 3) { other } else { self.o.g.pick(&same).clone() };
				(h, Msa::delete_msa_public_key { public_key_to_delete: k }.into())
			},
			5 | 6 | 7 => (h, Msa::retire_msa {}.into()),
			8 | 9 => {
				let payload = AddProvider { authorized_msa_id: self.msa_of(&p), schema_ids: self.schema_ids(), expiration: self.expiration() };
				let call = Msa::grant_delegation { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), add_provider_payload: payload };
				(p, call.into())
			},
			10 => {
				let payload = AddProvider { authorized_msa_id: self.msa_of(&p), schema_ids: self.schema_ids(), expiration: self.expiration() };
				let call = Msa::create_sponsored_account_with_delegation { delegator_key: a.clone(), proof: self.sign(&a, payload.encode()), add_provider_payload: payload };
				(p, call.into())
			},
			11 | 12 => (h, Msa::revoke_delegation_by_delegator { provider_msa_id: self.msa_of(&p) }.into()),
			13 => (p, Msa::revoke_delegation_by_provider { delegator: self.msa_of(&h) }.into()),
			14 => (h, Msa::revoke_schema_permissions { provider_msa_id: self.msa_of(&p), schema_ids: self.schema_ids() }.into()),
			15 | 16 | 17 | 18 => {
				let name = ["alice", "bobby", "carol", "ALICE", "x", "with space"][self.o.g.usize(6)].as_bytes();
				let payload = ClaimHandlePayload::<u32>::new(name.to_vec(), self.expiration());
				let proof = self.sign(&h, payload.encode());
				let sender = if self.o.g.chance(1, 2) { h.clone() } else { self.someone() };
				(sender, if self.o.g.chance(2, 3) { Handle::claim_handle { msa_owner_key: h, proof, payload }.into() } else { Handle::change_handle { msa_owner_key: h, proof, payload }.into() })
			},
			19 | 20 | 21 => (h, Handle::retire_handle {}.into()),
			22 | 23 => (a, pallet_capacity::Call::stake { target: self.msa_of(&p), amount: UNIT * (1 + self.o.g.below(200)) as u128 }.into()),
			24 => (a, pallet_capacity::Call::unstake { target: self.msa_of(&p), requested_amount: UNIT * self.o.g.below(200) as u128 }.into()),
			25 => (a, pallet_capacity::Call::withdraw_unstaked {}.into()),
			26 => {
				let (dest, value) = (id(&self.someone()), UNIT * self.o.g.below(300) as u128);
				let call = match self.o.g.below(3) {
					0 => pallet_balances::Call::transfer_allow_death { dest, value },
					1 => pallet_balances::Call::transfer_keep_alive { dest, value },
					_ => pallet_balances::Call::transfer_all { dest, keep_alive: self.o.g.chance(1, 2) },
				};
				(a, call.into())
			},
			27 => {
				let schedule = pallet_time_release::ReleaseSchedule {
					start: self.now + self.o.g.below(5) as u32,
					period: 1 + self.o.g.below(5) as u32,
					period_count: 1 + self.o.g.below(5) as u32,
					per_period: UNIT * (1 + self.o.g.below(20)) as u128,
				};
				(a, pallet_time_release::Call::transfer { dest: id(&self.someone()), schedule }.into())
			},
			28 => (a, pallet_time_release::Call::claim {}.into()),
			29 => (a, pallet_time_release::Call::claim_for { dest: id(&self.someone()) }.into()),
			30 | 31 => {
				let n = self.o.g.usize(10);
				let payload = self.o.g.bytes(n);
				let on_behalf_of = if self.o.g.chance(2, 3) { Some(self.msa_of(&h)) } else { None };
				let cid = b"bafkreidgvpkjawlxz6sffxzwgooowe5yt7i6wsyg236mfoks77nywkptdq".to_vec();
				(p, if self.o.g.chance(3, 4) { pallet_messages::Call::add_onchain_message { on_behalf_of, schema_id: 1, payload }.into() } else { pallet_messages::Call::add_ipfs_message { schema_id: 2, cid, payload_length: 9 }.into() })
			},
			32 | 33 => {
				let who = if self.o.g.chance(1, 2) { h.clone() } else { p };
				let owner = self.msa_of(&h);
				let page_id = self.o.g.below(3) as u16;
				let schema_id = 1 + self.o.g.below(SCHEMAS as u64) as u16;
				let n = 1 + self.o.g.usize(10);
				let data = self.o.g.bytes(n);
				(who, match self.o.g.below(5) {
					0 | 1 => State::apply_item_actions { state_owner_msa_id: owner, schema_id, target_hash: hash_of_items(owner, schema_id), actions: vec![st::ItemAction::Add { data: data.try_into().unwrap() }].try_into().unwrap() },
					2 | 3 => State::upsert_page { state_owner_msa_id: owner, schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id), payload: data.try_into().unwrap() },
					_ => State::delete_page { state_owner_msa_id: owner, schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id) },
				}.into())
			},
			34 | 35 => {
				let owner = self.msa_of(&h);
				let page_id = self.o.g.below(3) as u16;
				let schema_id = 1 + self.o.g.below(SCHEMAS as u64) as u16;
				let n = 1 + self.o.g.usize(10);
				let data = self.o.g.bytes(n);
				let expiration = self.expiration();
				// the earlier form of the call, whose payload names the MSA
				let old = self.o.g.chance(1, 2);
				#[allow(deprecated)]
				let call = match self.o.g.below(5) {
					0 | 1 if old => {
						let payload = st::ItemizedSignaturePayload::<Runtime> { msa_id: owner, schema_id, target_hash: hash_of_items(owner, schema_id), expiration, actions: vec![st::ItemAction::Add { data: data.try_into().unwrap() }].try_into().unwrap() };
						State::apply_item_actions_with_signature { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
					2 | 3 if old => {
						let payload = st::PaginatedUpsertSignaturePayload::<Runtime> { msa_id: owner, schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id), expiration, payload: data.try_into().unwrap() };
						State::upsert_page_with_signature { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
					0 | 1 => {
						let payload = st::ItemizedSignaturePayloadV2::<Runtime> { schema_id, target_hash: hash_of_items(owner, schema_id), expiration, actions: vec![st::ItemAction::Add { data: data.try_into().unwrap() }].try_into().unwrap() };
						State::apply_item_actions_with_signature_v2 { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
					2 | 3 => {
						let payload = st::PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id), expiration, payload: data.try_into().unwrap() };
						State::upsert_page_with_signature_v2 { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
					_ if !old => {
						let payload = st::PaginatedDeleteSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id), expiration };
						State::delete_page_with_signature_v2 { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
					_ => {
						let payload = st::PaginatedDeleteSignaturePayload::<Runtime> { msa_id: owner, schema_id, page_id, target_hash: hash_of_page(owner, schema_id, page_id), expiration };
						State::delete_page_with_signature { delegator_key: h.clone(), proof: self.sign(&h, payload.encode()), payload }
					},
				};
				(p, call.into())
			},
			36 => {
				let n = self.o.g.usize(20);
				(h, Msa::create_provider { provider_name: vec![b'n'; n] }.into())
			},
			37 => {
				let model: Vec<u8> = b"{\"type\":\"string\"}".to_vec();
				let (model, model_type, payload_location) = (model.try_into().unwrap(), ModelType::AvroBinary, OnChain);
				use pallet_schemas::Call as S;
				#[allow(deprecated)]
				let call = match self.o.g.below(6) {
					0 => S::create_schema { model, model_type, payload_location },
					1 => S::create_schema_v2 { model, model_type, payload_location, settings: Default::default() },
					2 => S::propose_to_create_schema_name { schema_id: 1 + self.o.g.below(SCHEMAS as u64 + 2) as u16, schema_name: [*b"dsnp.na", *b"dsnp.nb", *b"dsnp.nc", *b"dsnp.n1"][self.o.g.usize(4)].to_vec().try_into().unwrap() },
					_ => {
						let name = [*b"own.na", *b"own.nb", *b"own.nc", *b"own.n1"][self.o.g.usize(4)].to_vec();
						let schema_name = if self.o.g.chance(1, 2) { Some(name.try_into().unwrap()) } else { None };
						S::create_schema_v3 { model, model_type, payload_location, settings: Default::default(), schema_name }
					},
				};
				(a, call.into())
			},
			38 => {
				let delegate = id(&self.someone());
				let proxy_type = *self.o.g.pick(&[ProxyType::Any, ProxyType::NonTransfer, ProxyType::Governance, ProxyType::Staking]);
				(a, pallet_proxy::Call::add_proxy { delegate, proxy_type, delay: 0 }.into())
			},
			_ => (a, decoded(&mut self.o.g, &self.all)),
		}
	}
	/// how it is submitted: (sender, call)
	fn wrap(&mut self, actor: Key, call: RuntimeCall, depth: u32) -> (Key, RuntimeCall) {
		if let Some((_, k, others)) = self.multis.iter().find(|m| m.0 == actor).cloned() {
			let call = pallet_multisig::Call::as_multi_threshold_1 { other_signatories: others, call: Box::new(call) }.into();
			let sender = acc(k);
			return if depth < 2 && self.o.g.chance(1, 6) { self.wrap(sender, call, depth + 1) } else { (sender, call) }
		}
		if depth > 2 {
			return (actor, call)
		}
		match self.o.g.below(12) {
			0 | 1 | 2 => {
				let delegates = pallet_proxy::Proxies::<Runtime>::get(&actor);
				if delegates.is_empty() {
					return (actor, call)
				}
				let (d, t) = self.o.g.pick(&delegates).clone();
				let force_proxy_type = if self.o.g.chance(1, 4) { Some(t) } else { None };
				let call = pallet_proxy::Call::proxy { real: id(&actor), force_proxy_type, call: Box::new(call) }.into();
				self.wrap(d, call, depth + 1)
			},
			3 => {
				// in the company of other calls of the same account
				let n = self.o.g.usize(3);
				let mut v = vec![call];
				for _ in 0..n {
					let (_, c) = self.operation();
					v.push(c);
				}
				self.o.g.shuffle(&mut v);
				let call = batch(&mut self.o.g, v);
				self.wrap(actor, call, depth + 1)
			},
			4 | 5 => {
				let call = if self.o.g.chance(2, 3) {
					Paid::pay_with_capacity { call: Box::new(call) }
				} else {
					Paid::pay_with_capacity_batch_all { calls: vec![call] }
				};
				(actor, call.into())
			},
			_ => (actor, call),
		}
	}
	fn extrinsic(&mut self, k: usize, call: RuntimeCall, nonce: u32, forged: bool, tip: u128) -> rt::UncheckedExtrinsic {
		// immortal, nonce and tip, as they are encoded
		let bytes = (Era::Immortal, parity_scale_codec::Compact(nonce), parity_scale_codec::Compact(tip)).encode();
		let extra = rt::SignedExtra::decode(&mut &bytes[..]).expect("the form of a transaction");
		let bytes = Executive::payload(&call, &extra).unwrap_or_default();
		let by = if forged { (k + 1) % PEOPLE } else { k };
		let sig = MultiSignature::Sr25519(pair(by).sign(&bytes));
		rt::UncheckedExtrinsic::new_signed(call, id(&acc(k)), sig, extra)
	}
	fn submit(&mut self) {
		let replayed = !self.past.is_empty() && self.o.g.chance(1, 15);
		let (xt, sender, nonce, forged, tip) = if replayed {
			let i = self.o.g.usize(self.past.len());
			let (x, s, n, t) = self.past[i].clone();
			(x, s, n, false, t)
		} else if self.o.g.chance(1, 16) {
			let Some((x, s, n, forged)) = self.by_passkey() else { return };
			(x, s, n, forged, 0)
		} else {
			let (actor, call) = self.operation();
			let (sender, call) = self.wrap(actor, call, 0);
			let Some(k) = (0..PEOPLE).find(|i| acc(*i) == sender) else { return };
			let current = rt::System::account_nonce(&sender);
			let nonce = match self.o.g.below(30) {
				0 => current.wrapping_sub(1),
				1 => current + 1,
				_ => current,
			};
			let forged = self.o.g.chance(1, 30);
			let tip = if self.o.g.chance(1, 10) { self.o.g.below(1000) as u128 } else { 0 };
			(self.extrinsic(k, call, nonce, forged, tip), sender, nonce, forged, tip)
		};
		self.judge(xt, sender, nonce, forged, tip, replayed);
	}
	fn judge(&mut self, xt: rt::UncheckedExtrinsic, sender: Key, nonce: u32, forged: bool, tip: u128, replayed: bool) {
		let call = xt.function.clone();
		let mut inside = vec![];
		match passkeys::inside(&call) {
			Some((account, c)) if xt.signature.is_none() => leaves(&account, &c, true, true, &mut inside),
			_ => leaves(&sender, &call, false, false, &mut inside),
		}
		let who = self.name(&sender);
		let names: Vec<String> = inside.iter().map(|l| format!("{}:{}", self.name(&l.actor), label(&l.call))).collect();
		self.o.note(format!("#{} {who}{} {} = {:?}", self.now, if replayed { " again" } else { "" }, label(&call), names));
		let before = view();
		let whole = facts();
		let pool = guarded(|| Executive::validate_transaction(TransactionSource::External, xt.clone(), Default::default()));
		let done = guarded(|| Executive::apply_extrinsic(xt.clone()));
		let (pool, done) = match (pool, done) {
			(Ok(p), Ok(d)) => (p, d),
			(Err(p), _) | (_, Err(p)) => {
				self.o.fail("C35", &format!("panic_{}", panic_sig(&p)), json!({"call": dbg(&call), "panic": p}));
				return
			},
		};
		let after = view();
		self.o.note(format!("  -> {done:?}"));
		let shown = || json!({"sender": who, "call": dbg(&call), "inside": names, "outcome": dbg(&done)});
		// included or not
		let current = before.accounts.get(&sender).map_or(0, |a| a.2);
		match &done {
			Err(e) => {
				self.o.r.count("not_included");
				self.o.check("C35", facts() == whole, "a_transaction_that_is_not_included_left_a_trace", || shown());
				let waits = matches!(e, TransactionValidityError::Invalid(InvalidTransaction::Future) | TransactionValidityError::Invalid(InvalidTransaction::ExhaustsResources));
				self.o.check("C35", waits || pool.is_err(), "the_pool_admits_what_a_block_refuses", || shown());
				if replayed && nonce != current {
					self.o.r.count("replays_refused");
				}
				self.told(&before, &after, &shown);
				return
			},
			Ok(_) => {
				self.o.r.count("included");
				self.o.check("C35", pool.is_ok(), "a_block_admits_what_the_pool_refuses", || shown());
				self.o.check("C35", !forged, "a_forged_transaction_is_included", || shown());
				self.o.check("C35", nonce == current, "a_transaction_with_a_wrong_nonce_is_included", || shown());
				self.past.push((xt.clone(), sender.clone(), nonce, tip));
			},
		}
		let ok = matches!(done, Ok(Ok(())));
		if let Ok(Err(e)) = &done {
			let crowded = [pallet_balances::Error::<Runtime>::TooManyFreezes.into(), pallet_balances::Error::<Runtime>::TooManyHolds.into()].contains(e);
			self.o.check("C35", !crowded, "stakes_and_release_schedules_exclude_each_other", || shown());
		}
		for l in &inside {
			self.o.r.count(&format!("{}:{}{}", if ok { "executed" } else { "failed" }, label(&l.call), if l.wrapped { ":wrapped" } else { "" }));
		}
		let free = call.get_dispatch_info().pays_fee == Pays::No;
		if free && matches!(call, C::Msa(..) | C::Handles(..)) {
			self.o.r.count("free");
			self.o.check("C35", ok, "a_free_transaction_is_included_and_fails", || shown());
		}
		if xt.signature.is_none() {
			self.o.r.count(if ok { "passkey:done" } else { "passkey:failed" });
		}
		self.rules(&before, &after, &sender, tip, &call, &inside, &shown);
		self.told(&before, &after, &shown);
		self.told_of(ok, xt.signature.is_none(), &sender, &inside, &shown);
		let k = format!("{call:?}");
		self.o.r.case(&(NETWORK, k.as_str()));
		if self.o.r.wants_sample() && ok && inside.iter().any(|l| l.wrapped) {
			let v = json!({"network": NETWORK, "call": k, "inside": names});
			self.o.r.sample(v);
		}
	}
	fn name(&self, a: &Key) -> String {
		if let Some(k) = (0..PEOPLE).find(|i| acc(*i) == *a) {
			return format!("p{k}")
		}
		match self.multis.iter().position(|m| m.0 == *a) {
			Some(i) => format!("multi{i}"),
			None => "other".into(),
		}
	}
	fn rules(&mut self, b: &View, a: &View, sender: &Key, tip: u128, call: &RuntimeCall, inside: &[Leaf], shown: &dyn Fn() -> Value) {
		let now = self.now;
		let o = &mut self.o;
		let mut holds: Set<(Key, u64)> = b.keys.iter().chain(a.keys.iter()).map(|(k, m)| (k.clone(), *m)).collect();
		for l in inside {
			if let C::Msa(Msa::add_public_key_to_msa { add_key_payload: p, .. }) = &l.call {
				holds.insert((p.new_public_key.clone(), p.msa_id));
			}
		}
		let holds = |k: &Key, m: u64| holds.contains(&(k.clone(), m));
		let actors: Set<&Key> = inside.iter().map(|l| &l.actor).chain([sender]).collect();
		let any = |f: &dyn Fn(&Leaf) -> bool| inside.iter().any(|l| f(l));
		// keys
		for (k, m) in &b.keys {
			if a.keys.get(k) == Some(m) {
				continue
			}
			o.r.count("seen:key_removed");
			let right = any(&|l| match &l.call {
				C::Msa(Msa::delete_msa_public_key { public_key_to_delete: x }) => x == k && l.actor != *k && holds(&l.actor, *m),
				C::Msa(Msa::retire_msa {}) => l.actor == *k,
				_ => false,
			});
			o.check("C35", right, "a_key_was_removed_by_someone_without_the_right_to", || shown());
		}
		for (k, m) in &a.keys {
			if b.keys.get(k) == Some(m) {
				continue
			}
			o.r.count("seen:key_added");
			let right = any(&|l| match &l.call {
				C::Msa(Msa::create {}) => l.actor == *k && *m > b.last_msa,
				C::Msa(Msa::create_sponsored_account_with_delegation { delegator_key, proof, add_provider_payload: p }) => delegator_key == k && *m > b.last_msa && proven(proof, k, p.encode()),
				C::Msa(Msa::add_public_key_to_msa { msa_owner_public_key: h, msa_owner_proof, new_key_owner_proof, add_key_payload: p }) =>
					p.msa_id == *m && p.new_public_key == *k && holds(h, *m) && proven(msa_owner_proof, h, p.encode()) && proven(new_key_owner_proof, k, p.encode()),
				_ => false,
			});
			o.check("C35", right, "a_key_was_added_without_the_consent_of_both_sides", || shown());
		}
		let of = |v: &View, m: u64| v.keys.values().filter(|x| **x == m).count();
		for m in 1..=a.last_msa {
			let count = pallet_msa::Pallet::<Runtime>::get_public_key_count_by_msa_id(m) as usize;
			o.check("C35", count == of(a, m), "the_number_of_keys_is_wrong", || json!({"msa": m, "counted": count, "keys": of(a, m), "after": shown()}));
			if of(a, m) == 0 {
				o.check("C35", !a.handles.contains_key(&m), "an_msa_without_keys_has_a_handle", || shown());
				o.check("C35", !a.providers.contains(&m), "an_msa_without_keys_is_a_provider", || shown());
			}
			if of(b, m) > 0 && of(a, m) == 0 {
				o.r.count("seen:msa_retired");
				let left = a.grants.iter().any(|((d, _), (at, _))| *d == m && *at == 0);
				let wrapped = any(&|l| l.wrapped && matches!(l.call, C::Msa(Msa::retire_msa {})));
				if left && wrapped && o.prop == "C35" {
					// recorded finding: the history goes on
					let v = shown();
					o.r.violation("a_wrapped_retire_msa_leaves_active_delegations", v);
				} else {
					o.check("C35", !left, "a_retired_msa_has_active_delegations", || shown());
				}
			}
			o.check("C35", m > b.last_msa || of(b, m) > 0 || of(a, m) == 0, "a_retired_msa_has_keys_again", || shown());
		}
		// handles
		for m in 1..=a.last_msa {
			let (x, y) = (b.handles.get(&m), a.handles.get(&m));
			if x == y {
				continue
			}
			let claims = any(&|l| matches!(&l.call, C::Handles(Handle::claim_handle { msa_owner_key: k, proof, payload }) if holds(k, m) && proven(proof, k, payload.encode())));
			let changes = any(&|l| matches!(&l.call, C::Handles(Handle::change_handle { msa_owner_key: k, proof, payload }) if holds(k, m) && proven(proof, k, payload.encode())));
			let retires = any(&|l| matches!(&l.call, C::Handles(Handle::retire_handle {})) && holds(&l.actor, m));
			let may_go = retires && x.map_or(true, |h| now >= h.1);
			o.r.count(&format!("seen:handle:{}{}", x.is_some() as u8, y.is_some() as u8));
			match (x, y) {
				(None, _) => o.check("C35", claims, "a_handle_was_given_without_the_consent_of_its_holder", || shown()),
				(_, None) => o.check("C35", may_go, "a_handle_was_retired_by_someone_else_or_too_early", || shown()),
				_ => o.check("C35", changes || (claims && may_go), "a_handle_was_changed_without_the_consent_of_its_holder", || shown()),
			};
		}
		// delegations
		let pairs: Set<_> = b.grants.keys().chain(a.grants.keys()).collect();
		for &(d, p) in pairs {
			let (x, y) = (b.grants.get(&(d, p)), a.grants.get(&(d, p)));
			if x == y {
				continue
			}
			let Some(y) = y else {
				o.fail("C35", "a_delegation_vanished", shown());
				continue
			};
			let empty = (0, Map::new());
			let old = x.unwrap_or(&empty);
			let mut grown: Vec<u16> = y.1.iter().filter(|(s, at)| **at == 0 && old.1.get(s) != Some(&0)).map(|(s, _)| *s).collect();
			grown.extend(y.1.iter().filter(|(s, at)| **at == 0 && old.0 != 0 && y.0 == 0 && old.1.get(s) == Some(&0)).map(|(s, _)| *s));
			let revived = x.is_none() || (old.0 != 0 && y.0 == 0) || (y.0 > old.0 && old.0 != 0);
			let granted = any(&|l| {
				let (k, proof, g) = match &l.call {
					C::Msa(Msa::grant_delegation { delegator_key: k, proof, add_provider_payload: g }) => (k, proof, g),
					C::Msa(Msa::create_sponsored_account_with_delegation { delegator_key: k, proof, add_provider_payload: g }) if d > b.last_msa => (k, proof, g),
					_ => return false,
				};
				holds(k, d) && g.authorized_msa_id == p && holds(&l.actor, p) && proven(proof, k, g.encode()) && grown.iter().all(|s| g.schema_ids.contains(s))
			});
			if revived || !grown.is_empty() {
				o.r.count("seen:granted");
				o.check("C35", granted, "a_delegation_grew_without_the_consent_of_the_delegator", || shown());
			} else {
				o.r.count("seen:revoked");
				let right = granted ||
					any(&|l| match &l.call {
						C::Msa(Msa::revoke_delegation_by_delegator { provider_msa_id }) => *provider_msa_id == p && holds(&l.actor, d),
						C::Msa(Msa::revoke_delegation_by_provider { delegator }) => *delegator == d && holds(&l.actor, p),
						C::Msa(Msa::revoke_schema_permissions { provider_msa_id, .. }) => *provider_msa_id == p && holds(&l.actor, d),
						_ => false,
					});
				o.check("C35", right, "a_delegation_was_revoked_by_someone_without_the_right_to", || shown());
			}
		}
		// providers and schemas
		for p in a.providers.difference(&b.providers) {
			o.r.count("seen:provider");
			let asked = any(&|l| !l.batched && matches!(l.call, C::Msa(Msa::create_provider { .. })) && holds(&l.actor, *p));
			o.check("C35", asked && !MAINNET, "a_provider_was_created_without_the_council", || shown());
		}
		o.check("C35", b.providers.is_subset(&a.providers), "a_provider_vanished", || shown());
		if a.schemas != b.schemas {
			o.r.count("seen:schema");
			let n = inside
				.iter()
				.filter(|l| !l.batched && matches!(l.call, C::Schemas(pallet_schemas::Call::create_schema { .. }) | C::Schemas(pallet_schemas::Call::create_schema_v2 { .. }) | C::Schemas(pallet_schemas::Call::create_schema_v3 { .. })))
				.count();
			o.check("C35", !MAINNET && a.schemas > b.schemas && (a.schemas - b.schemas) as usize <= n, "a_schema_was_created_without_the_council", || shown());
		}
		// money
		let touched: Set<&Key> = b.accounts.keys().chain(a.accounts.keys()).collect();
		for k in touched {
			let (x, y) = (b.accounts.get(k).copied().unwrap_or_default(), a.accounts.get(k).copied().unwrap_or_default());
			if !actors.contains(k) {
				o.check("C35", y.0 >= x.0, "someone_not_involved_lost_tokens", || json!({"who": self.people.iter().position(|p| p == k), "before": x.0.to_string(), "after": y.0.to_string(), "call": shown()}));
				o.check("C35", y.0.saturating_sub(y.1) >= x.0.saturating_sub(x.1), "tokens_of_someone_not_involved_were_frozen", || shown());
				o.check("C35", b.stakes.get(k) == a.stakes.get(k), "the_stake_of_someone_not_involved_changed", || shown());
				o.check("C35", x.2 == y.2, "the_nonce_of_someone_not_involved_changed", || shown());
			}
			let want = if k == sender { x.2 + 1 } else { x.2 };
			o.check("C35", y.2 == want || !a.alive.contains(k), "a_nonce_is_wrong", || json!({"before": x.2, "after": y.2, "call": shown()}));
			o.check("C35", y.1 <= y.0 || y.0 == x.0 && y.1 == x.1 || a.stakes.get(k).is_none(), "more_is_frozen_than_there_is", || shown());
		}
		let sum: u128 = a.accounts.values().map(|x| x.0).sum();
		o.check("C35", a.issuance == sum, "the_issuance_is_not_the_sum_of_balances", || json!({"issuance": a.issuance.to_string(), "sum": sum.to_string(), "call": shown()}));
		o.check("C35", a.issuance <= b.issuance, "tokens_were_created", || shown());
		let lost = |k: &Key| b.accounts.get(k).map_or(0, |x| x.0).saturating_sub(a.accounts.get(k).map_or(0, |x| x.0));
		let by_capacity = matches!(call, C::FrequencyTxPayment(Paid::pay_with_capacity { .. }) | C::FrequencyTxPayment(Paid::pay_with_capacity_batch_all { .. }));
		let free = call.get_dispatch_info().pays_fee == Pays::No;
		if free || by_capacity {
			o.check("C35", lost(sender) <= tip, "a_transaction_paid_with_capacity_or_free_cost_tokens", || json!({"lost": lost(sender).to_string(), "call": shown()}));
		} else {
			let simple = inside.len() == 1 && !matches!(inside[0].call, C::Balances(..) | C::TimeRelease(..));
			if simple && !label(call).starts_with("Sudo") {
				o.check("C35", lost(sender) > tip, "a_transaction_with_a_fee_cost_nothing", || shown());
			}
		}
		// staking
		for (k, m) in &a.targets {
			o.check("C35", a.providers.contains(m), "tokens_are_staked_to_an_msa_that_is_no_provider", || json!({"who": self.people.iter().position(|p| p == k), "msa": m, "call": shown()}));
		}
		for (k, (active, thawing)) in &a.stakes {
			let frozen = a.accounts.get(k).map_or(0, |x| x.1);
			o.check("C35", frozen >= active + thawing, "staked_tokens_are_not_frozen", || shown());
		}
		for (m, x) in &b.capacity {
			let y = a.capacity.get(m).copied().unwrap_or(0);
			if y < *x {
				o.r.count("seen:capacity_used");
				let paid = by_capacity && b.keys.get(sender) == Some(m);
				let unstaked = any(&|l| matches!(&l.call, C::Capacity(pallet_capacity::Call::unstake { target, .. }) if target == m));
				o.check("C35", paid || unstaked, "capacity_was_used_by_someone_without_the_right_to", || shown());
			} else if by_capacity && b.keys.get(sender) == Some(m) {
				o.check("C35", false, "a_transaction_paid_with_capacity_used_none", || shown());
			}
		}
		// messages and state
		let may = |p: u64, d: u64, s: u16| {
			[b, a].iter().any(|v| match v.grants.get(&(d, p)) {
				Some((at, perms)) => (*at == 0 || *at >= now) && perms.get(&s).is_some_and(|at| *at == 0 || *at >= now),
				None => false,
			})
		};
		o.check("C35", b.messages.iter().all(|m| a.messages.contains(m)), "a_message_vanished", || shown());
		for m in &a.messages {
			if b.messages.contains(m) {
				continue
			}
			o.r.count("seen:message");
			let (s, p, d, ..) = *m;
			let right = any(&|l| match &l.call {
				C::Messages(pallet_messages::Call::add_onchain_message { schema_id, on_behalf_of, .. }) => *schema_id == s && holds(&l.actor, p) && on_behalf_of.unwrap_or(p) == d,
				C::Messages(pallet_messages::Call::add_ipfs_message { schema_id, .. }) => *schema_id == s && holds(&l.actor, p) && p == d,
				_ => false,
			});
			o.check("C35", right && (p == d || may(p, d, s)), "a_message_was_sent_for_someone_who_has_not_delegated_it", || shown());
		}
		for (&(m, s), y) in &a.owned {
			let x = b.owned.get(&(m, s));
			if x == Some(y) || (x.is_none() && m > b.last_msa) {
				continue
			}
			o.r.count("seen:state");
			let right = any(&|l| {
				let signed = |k: &Key, proof: &MultiSignature, sid: u16, owner: Option<u64>, bytes: Vec<u8>| holds(k, m) && sid == s && owner.unwrap_or(m) == m && proven(proof, k, bytes);
				let direct = |owner: u64, sid: u16| owner == m && sid == s && (holds(&l.actor, m) || (s < 5 && b.keys.iter().chain(a.keys.iter()).any(|(k, p)| *k == l.actor && may(*p, m, s))));
				match &l.call {
					C::StatefulStorage(State::apply_item_actions { state_owner_msa_id, schema_id, .. }) |
					C::StatefulStorage(State::upsert_page { state_owner_msa_id, schema_id, .. }) |
					C::StatefulStorage(State::delete_page { state_owner_msa_id, schema_id, .. }) => direct(*state_owner_msa_id, *schema_id),
					C::StatefulStorage(State::apply_item_actions_with_signature { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, Some(p.msa_id), p.encode()),
					C::StatefulStorage(State::upsert_page_with_signature { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, Some(p.msa_id), p.encode()),
					C::StatefulStorage(State::delete_page_with_signature { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, Some(p.msa_id), p.encode()),
					C::StatefulStorage(State::apply_item_actions_with_signature_v2 { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, None, p.encode()),
					C::StatefulStorage(State::upsert_page_with_signature_v2 { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, None, p.encode()),
					C::StatefulStorage(State::delete_page_with_signature_v2 { delegator_key: k, proof, payload: p }) => signed(k, proof, p.schema_id, None, p.encode()),
					_ => false,
				}
			});
			o.check("C35", right, "the_state_of_an_msa_was_changed_by_someone_without_the_right_to", || json!({"msa": m, "schema": s, "call": shown()}));
		}
	}
	fn next_block(&mut self) {
		let before = view();
		Executive::conclude(self.now);
		let shown = || json!("end of a block");
		self.told(&before, &view(), &shown);
		self.told.read = 0;
		self.told.messages = 0;
		self.now += match self.o.g.below(40) {
			0 => 1 + self.o.g.below(4000) as u32,
			1..=4 => 1 + self.o.g.below(40) as u32,
			_ => 1,
		};
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(self.now);
		Executive::initialize_at(self.now);
		let after = view();
		let still = |v: &View| View { messages: vec![], capacity: Map::new(), ..v.clone() };
		let shown = || json!("start of a block");
		self.told(&after, &after, &shown);
		self.o.check("C35", still(&before) == still(&after), "time_alone_changed_something", || json!({"before": format!("{before:?}"), "after": format!("{after:?}")}));
	}
	fn must(&mut self, r: Result<(), DispatchError>) {
		if let Err(e) = r {
			self.o.fail("C35", "the_setting_cannot_be_made", json!(dbg(&e)));
		}
	}
	fn setting(&mut self) {
		let root = RuntimeOrigin::root;
		let r = taken(pallet_schemas::Call::set_max_schema_model_bytes { max_size: 1000 }.into(), None);
		self.must(r);
		for s in 1..=SCHEMAS {
			let (payload_location, settings) = match s {
				1 => (OnChain, vec![]),
				2 => (IPFS, vec![]),
				3 => (Itemized, vec![]),
				4 => (Paginated, vec![]),
				5 => (Itemized, vec![SignatureRequired]),
				_ => (Paginated, vec![SignatureRequired]),
			};
			let model: Vec<u8> = b"{\"name\":\"n\",\"type\":\"record\",\"fields\":[]}".to_vec();
			let r = dispatch::<RuntimeCall>(
				pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acc(0), model: model.try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location, settings: settings.try_into().unwrap(), schema_name: None }.into(),
				root(),
			);
			self.must(r);
		}
		for k in 0..2 {
			let r = taken(Msa::create {}.into(), Some(acc(k)));
			self.must(r);
			let r = taken(Msa::create_provider_via_governance { provider_key: acc(k), provider_name: b"p".to_vec() }.into(), None);
			self.must(r);
			let r = taken(pallet_capacity::Call::stake { target: 1 + k as u64, amount: 500 * UNIT }.into(), Some(acc(k)));
			self.must(r);
		}
		for k in 2..6 {
			if self.o.g.chance(2, 3) {
				let _ = taken(Msa::create {}.into(), Some(acc(k)));
			}
		}
		for k in 0..PEOPLE {
			if self.o.g.chance(1, 2) {
				let delegate = id(&acc((k + 1 + self.o.g.usize(PEOPLE - 1)) % PEOPLE));
				let proxy_type = *self.o.g.pick(&[ProxyType::Any, ProxyType::NonTransfer, ProxyType::Staking]);
				let r = taken(pallet_proxy::Call::add_proxy { delegate, proxy_type, delay: 0 }.into(), Some(acc(k)));
				self.must(r);
			}
		}
	}
}
fn hash_of_items(m: u64, s: u16) -> u32 {
	rt::StatefulStorage::get_itemized_storage(m, s).map_or(0, |p| p.content_hash)
}
fn hash_of_page(m: u64, s: u16, page: u16) -> u32 {
	rt::StatefulStorage::get_paginated_storage(m, s).ok().and_then(|p| p.into_iter().find(|p| p.page_id == page)).map_or(0, |p| p.content_hash)
}
fn world(o: Mon) -> (World, sp_core::storage::Storage) {
	let people: Vec<Key> = (0..PEOPLE).map(acc).collect();
	let multis = (0..2)
		.map(|i| {
			let others = vec![acc(i + 3)];
			(multi(&others, &acc(i)), i, others)
		})
		.collect::<Vec<_>>();
	let mut s = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let mut balances: Vec<_> = (0..PEOPLE - 2).map(|k| (acc(k), 2000 * UNIT)).collect();
	balances.extend(multis.iter().map(|m| (m.0.clone(), 2000 * UNIT)));
	balances.push((acc(PEOPLE - 2), UNIT / 2));
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut s).unwrap();
	(World { o, all: pallets(), now: 1, people, multis, past: vec![], told: Told::default() }, s)
}
pub fn run(r: &mut Run, n: u64) {
	let g = r.rng(0x3500 + n);
	let o = Mon::new(r, g, json!({"network": NETWORK}));
	let (mut w, s) = world(o);
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		w.told.max_model = rt::Schemas::get_schema_model_max_bytes();
		w.told.epoch_length = pallet_capacity::EpochLength::<Runtime>::get();
		w.setting();
		let made = view();
		w.told(&made, &made, &|| json!("the setting"));
		for _ in 0..160 {
			if w.o.bad {
				break
			}
			if w.o.g.chance(1, 6) {
				w.next_block();
			}
			if w.o.prop == "C39" && w.o.g.chance(1, 12) {
				w.decree();
			}
			if w.o.prop == "C39" && w.o.g.chance(1, 100) {
				for _ in 0..32 {
					w.next_block();
				}
			}
			w.submit();
		}
	});
}
