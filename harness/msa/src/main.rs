//! C05-C09: accounts, keys, delegations, payload signatures and the off-chain key index under random
//! histories, compared with an independent model.
use common_primitives::{
	handles::HandleResponse,
	msa::{DelegatorId, MessageSourceId, ProviderId, SchemaId},
	msa::{DelegationValidator, SchemaGrantValidator},
	offchain::{get_index_value, get_msa_account_storage_key_name},
	schema::SchemaValidator,
	utils::wrap_binary_data,
};
use frame_support::parameter_types;
use kit::*;
use pallet_msa as msa;
use parity_scale_codec::Encode;
use sp_core::{
	crypto::AccountId32,
	offchain::{
		testing::{OffchainState, PendingRequest, TestOffchainExt},
		OffchainDbExt, OffchainWorkerExt,
	},
	sr25519, Pair, H256,
};
use sp_runtime::{
	traits::{ConvertInto, SignedExtension},
	MultiSignature,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet, VecDeque},
};

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Msa: pallet_msa::{Pallet, Call, Storage, Event<T>},
	}
);
kit::system!(Rt, AccountId32, ());
parameter_types! {
	pub static MaxKeys: u8 = 25;
	pub static MaxGrants: u32 = 30;
	pub static MaxName: u32 = 16;
	pub static Mortality: u32 = 100;
	pub static MaxSigs: Option<u32> = Some(100);
}
thread_local! {
	static HANDLES: RefCell<BTreeSet<u64>> = RefCell::new(BTreeSet::new());
	static SCHEMAS: RefCell<u16> = RefCell::new(5);
	static PROPOSED: RefCell<Vec<RuntimeCall>> = RefCell::new(vec![]);
}
pub struct Outside;
impl SchemaValidator<SchemaId> for Outside {
	fn are_all_schema_ids_valid(ids: &Vec<SchemaId>) -> bool {
		SCHEMAS.with(|s| ids.iter().all(|i| *i >= 1 && *i <= *s.borrow()))
	}
	fn set_schema_count(n: SchemaId) {
		SCHEMAS.with(|s| *s.borrow_mut() = n)
	}
}
impl common_primitives::handles::HandleProvider for Outside {
	fn get_handle_for_msa(id: MessageSourceId) -> Option<HandleResponse> {
		HANDLES.with(|h| h.borrow().contains(&id)).then(|| HandleResponse { base_handle: b"a".to_vec(), canonical_base: b"a".to_vec(), suffix: 1 })
	}
}
impl common_primitives::node::ProposalProvider<AccountId32, RuntimeCall> for Outside {
	fn propose(_: AccountId32, _: u32, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		PROPOSED.with(|v| v.borrow_mut().push(*p));
		Ok((0, 0))
	}
	fn propose_with_simple_majority(_: AccountId32, p: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		PROPOSED.with(|v| v.borrow_mut().push(*p));
		Ok((0, 0))
	}
}
impl msa::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MaxPublicKeysPerMsa = MaxKeys;
	type MaxSchemaGrantsPerDelegation = MaxGrants;
	type MaxProviderNameSize = MaxName;
	type SchemaValidator = Outside;
	type HandleProvider = Outside;
	type MortalityWindowSize = Mortality;
	type MaxSignaturesStored = MaxSigs;
	type Proposal = RuntimeCall;
	type ProposalProvider = Outside;
	type CreateProviderViaGovernanceOrigin = frame_system::EnsureRoot<AccountId32>;
}

fn pair(k: usize) -> sr25519::Pair {
	let mut s = [7u8; 32];
	s[..8].copy_from_slice(&(k as u64).to_le_bytes());
	sr25519::Pair::from_seed(&s)
}
fn acc(k: usize) -> AccountId32 {
	AccountId32::from(pair(k).public())
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Deleg {
	revoked: Option<u32>,
	/// schema -> (block of the latest grant, block in which the grant last ended)
	schemas: BTreeMap<u16, (u32, Option<u32>)>,
	since: u32,
}
impl Deleg {
	fn end(&self, s: u16) -> Option<u32> {
		let own = self.schemas[&s].1;
		match (own, self.revoked) {
			(Some(a), Some(b)) => Some(a.min(b)),
			(a, b) => a.or(b),
		}
	}
}
#[derive(Clone, Default)]
struct Model {
	keys: BTreeMap<usize, u64>,
	top: u64,
	retired: BTreeSet<u64>,
	providers: BTreeSet<u64>,
	deleg: BTreeMap<(u64, u64), Deleg>,
	/// registered signatures, oldest first
	registry: VecDeque<(MultiSignature, u32)>,
	used: Vec<MultiSignature>,
}
impl Model {
	fn count(&self, id: u64) -> usize {
		self.keys.values().filter(|v| **v == id).count()
	}
}
#[derive(Clone, Debug)]
enum Signed {
	Provider { key: usize, sig: MultiSignature, payload: msa::AddProvider },
	Key { owner: usize, new: usize, so: MultiSignature, sn: MultiSignature, payload: msa::AddKeyData<Rt> },
}
type Why = Vec<(&'static str, &'static str)>;

struct H<'a> {
	o: Mon<'a>,
	m: Model,
	now: u32,
	pool: usize,
	old: Vec<Signed>,
	// keys of every MSA at the end of each block
	at: BTreeMap<u32, BTreeMap<u64, BTreeSet<AccountId32>>>,
	finalized: u32,
	// the newest state the first index may have been made from, and whether it is complete
	indexed_from: u32,
	settled: bool,
	// workers that stopped on their way, the block they go on in, and whether the node crashes then
	paused: Vec<(node::Worker, u32, bool)>,
	interrupts: bool,
	crashes: bool,
	// block and time until which a lock of a crashed node may hold
	blocked: (u32, u64),
	// accounts that were there before the index
	bulk: u64,
}
fn h256(n: u32) -> H256 {
	let mut b = [0xabu8; 32];
	b[..4].copy_from_slice(&n.to_le_bytes());
	H256::from(b)
}
fn sign(k: usize, data: Vec<u8>) -> MultiSignature {
	pair(k).sign(&wrap_binary_data(data)).into()
}

impl H<'_> {
	fn key(&mut self) -> usize {
		self.o.g.usize(self.pool)
	}
	fn owned_key(&mut self) -> usize {
		let v: Vec<usize> = self.m.keys.keys().copied().collect();
		if v.is_empty() || self.o.g.chance(1, 8) {
			self.key()
		} else {
			*self.o.g.pick(&v)
		}
	}
	fn provider_key(&mut self) -> usize {
		let v: Vec<usize> = self.m.keys.iter().filter(|(_, id)| self.m.providers.contains(id)).map(|x| *x.0).collect();
		if v.is_empty() || self.o.g.chance(1, 6) {
			self.owned_key()
		} else {
			*self.o.g.pick(&v)
		}
	}
	fn some_id(&mut self) -> u64 {
		self.o.g.range(0, self.m.top + 1)
	}
	fn schemas(&mut self) -> Vec<u16> {
		let n = match self.o.g.below(8) {
			0 => 0,
			1 => MaxGrants::get() as u64 + 1,
			2 => MaxGrants::get() as u64,
			_ => self.o.g.range(1, 4),
		};
		let top = SCHEMAS.with(|s| *s.borrow()) as u64;
		let hi = if self.o.g.chance(1, 10) { top + 1 } else { top };
		let lo = if self.o.g.chance(1, 20) { 0 } else { 1 };
		(0..n).map(|_| self.o.g.range(lo, hi) as u16).collect()
	}
	fn expiration(&mut self) -> u32 {
		let m = Mortality::get();
		match self.o.g.below(12) {
			0 => self.now,
			1 => self.now.saturating_sub(1),
			2 => self.now + 1,
			3 => self.now + m,
			4 => self.now + m - 1,
			5 => self.now + m + 1,
			6 => *self.o.g.pick(&[0, u32::MAX]),
			_ => self.now + self.o.g.range(1, m as u64 - 1) as u32,
		}
	}
	/// why a signature with this expiration cannot be used now; second: either outcome is right
	fn sig_reasons(&self, registry: &VecDeque<(MultiSignature, u32)>, sig: &MultiSignature, exp: u32, why: &mut Why) -> bool {
		if exp <= self.now {
			why.push(("C07", "the_signature_has_expired"));
		}
		if exp >= self.now.saturating_add(Mortality::get()) {
			why.push(("C07", "its_expiration_lies_beyond_the_mortality_window"));
		}
		if self.m.used.contains(sig) || registry.iter().any(|(s, _)| s == sig) {
			why.push(("C07", "the_signature_was_used_before"));
		}
		if registry.len() as u32 >= MaxSigs::get().unwrap() {
			if registry.iter().all(|(_, e)| *e > self.now) {
				why.push(("C07", "the_registry_is_full_of_unexpired_signatures"));
			} else if registry.front().unwrap().1 >= self.now {
				return true
			}
		}
		false
	}
	fn register(reg: &mut VecDeque<(MultiSignature, u32)>, sig: &MultiSignature, exp: u32) {
		if reg.len() as u32 >= MaxSigs::get().unwrap() {
			reg.pop_front();
		}
		reg.push_back((sig.clone(), exp));
	}
	/// as a transaction: the signed extension decides first, then the call is executed
	fn submit(&mut self, prop: &str, who: Option<usize>, call: msa::Call<Rt>) -> Option<Result<(), String>> {
		let what = format!("b{} {}: {:?}", self.now, who.map_or("root".into(), |k| format!("key{k}(msa {:?})", self.m.keys.get(&k))), short(&call));
		let free = matches!(
			call,
			msa::Call::revoke_delegation_by_delegator { .. } | msa::Call::revoke_delegation_by_provider { .. } | msa::Call::delete_msa_public_key { .. } | msa::Call::retire_msa { .. }
		);
		let mut admitted_and_failed = None;
		let res = self.o.attempt(prop, what, || {
			let call = RuntimeCall::Msa(call);
			let Some(k) = who else { return dispatch(call, RuntimeOrigin::root()).map_err(names) };
			let ext = msa::CheckFreeExtrinsicUse::<Rt>::new();
			let info = call.get_dispatch_info();
			ext.validate(&acc(k), &call, &info, 0).map_err(|e| format!("{e:?}"))?;
			ext.clone().pre_dispatch(&acc(k), &call, &info, 0).map_err(|e| format!("{e:?}"))?;
			let r = dispatch(call, RuntimeOrigin::signed(acc(k))).map_err(names);
			if let (Err(e), true) = (&r, free) {
				admitted_and_failed = Some(e.clone());
			}
			r
		});
		if free {
			self.o.r.count("free_transactions_offered");
		}
		if let Some(e) = admitted_and_failed {
			self.o.fail("C08", "a_free_transaction_was_admitted_and_then_failed", json!(e));
		}
		res
	}
	fn create(&mut self) {
		let k = self.key();
		let Some(res) = self.submit("C05", Some(k), msa::Call::create {}) else { return };
		let why: Why = if self.m.keys.contains_key(&k) { vec![("C05", "the_key_already_has_an_account")] } else { vec![] };
		if self.o.verdict("create", "C05", &why, false, &res) {
			self.m.top += 1;
			self.m.keys.insert(k, self.m.top);
		}
	}
	fn make_add_provider(&mut self) -> (usize, usize, MultiSignature, msa::AddProvider, Why) {
		let pk = self.provider_key();
		let dk = if self.o.g.chance(1, 2) { self.owned_key() } else { self.key() };
		let id = if self.o.g.chance(1, 10) { self.some_id() } else { self.m.keys.get(&pk).copied().unwrap_or(1) };
		let payload = msa::AddProvider::new(id, Some(self.schemas()), self.expiration());
		let mut why = vec![];
		let sig = match self.o.g.below(16) {
			0 => {
				why.push(("C07", "another_key_signed"));
				let k = (dk + 1) % self.pool;
				sign(k, payload.encode())
			},
			1 => {
				why.push(("C07", "other_data_was_signed"));
				let mut p = payload.clone();
				match self.o.g.below(3) {
					0 => p.authorized_msa_id += 1,
					1 => p.schema_ids.push(1),
					_ => p.expiration ^= 1,
				}
				sign(dk, p.encode())
			},
			2 => {
				why.push(("C07", "the_payload_was_signed_unwrapped"));
				pair(dk).sign(&payload.encode()).into()
			},
			_ => sign(dk, payload.encode()),
		};
		if why.is_empty() {
			self.old.push(Signed::Provider { key: dk, sig: sig.clone(), payload: payload.clone() });
		}
		(pk, dk, sig, payload, why)
	}
	fn schema_reasons(&self, ids: &[u16], why: &mut Why) {
		if ids.len() as u32 > MaxGrants::get() {
			why.push(("C06", "too_many_schemas_are_granted"));
		}
		let top = SCHEMAS.with(|s| *s.borrow());
		if ids.iter().any(|i| *i == 0 || *i > top) {
			why.push(("C06", "a_schema_does_not_exist"));
		}
	}
	fn grant(&mut self, pk: usize, dk: usize, sig: MultiSignature, payload: msa::AddProvider, mut why: Why) {
		let sponsored = self.o.g.chance(1, if self.m.keys.contains_key(&dk) { 8 } else { 1 });
		let mut unsure = self.sig_reasons(&self.m.registry, &sig, payload.expiration, &mut why);
		match self.m.keys.get(&pk) {
			None => why.push(("C08", "the_caller_has_no_account")),
			Some(id) => {
				if !self.m.providers.contains(id) {
					why.push(("C08", "the_caller_is_not_a_provider"));
				}
				if *id != payload.authorized_msa_id {
					why.push(("C08", "the_payload_names_another_provider"));
				}
			},
		}
		self.schema_reasons(&payload.schema_ids, &mut why);
		let ids: BTreeSet<u16> = payload.schema_ids.iter().copied().collect();
		let op;
		let call = if sponsored {
			op = "create_sponsored";
			if self.m.keys.contains_key(&dk) {
				why.push(("C05", "the_key_already_has_an_account"));
			}
			msa::Call::create_sponsored_account_with_delegation { delegator_key: acc(dk), proof: sig.clone(), add_provider_payload: payload.clone() }
		} else {
			op = "grant_delegation";
			match self.m.keys.get(&dk) {
				None => why.push(("C08", "the_delegator_has_no_account")),
				Some(d) => {
					if self.m.keys.get(&pk) == Some(d) {
						why.push(("C06", "one_cannot_delegate_to_oneself"));
					}
					if let Some(x) = self.m.keys.get(&pk).and_then(|p| self.m.deleg.get(&(*d, *p))) {
						let all: BTreeSet<u16> = x.schemas.keys().copied().chain(ids.iter().copied()).collect();
						if all.len() as u32 > MaxGrants::get() {
							why.push(("C06", "the_delegation_holds_too_many_schemas"));
						}
					}
				},
			}
			msa::Call::grant_delegation { delegator_key: acc(dk), proof: sig.clone(), add_provider_payload: payload.clone() }
		};
		unsure |= false;
		let Some(res) = self.submit("C06", Some(pk), call) else { return };
		if !self.o.verdict(op, "C06", &why, unsure, &res) || self.o.bad {
			return
		}
		Self::register(&mut self.m.registry, &sig, payload.expiration);
		self.m.used.push(sig);
		let p = self.m.keys[&pk];
		if sponsored {
			self.m.top += 1;
			self.m.keys.insert(dk, self.m.top);
		}
		let d = self.m.keys[&dk];
		let now = self.now;
		let x = self.m.deleg.entry((d, p)).or_insert_with(|| Deleg { since: now, ..Default::default() });
		if x.revoked.is_some() {
			x.since = now;
		}
		let old: Vec<u16> = x.schemas.keys().copied().collect();
		for s in old {
			if !ids.contains(&s) {
				let e = x.end(s).unwrap_or(now);
				x.schemas.get_mut(&s).unwrap().1 = Some(e);
			}
		}
		for s in ids {
			match x.schemas.get(&s) {
				Some(_) if x.end(s).is_none() => {},
				_ => drop(x.schemas.insert(s, (now, None))),
			}
		}
		x.revoked = None;
		self.o.r.count("delegations_granted");
	}
	fn add_key(&mut self, owner: usize, new: usize, so: MultiSignature, sn: MultiSignature, payload: msa::AddKeyData<Rt>, mut why: Why) {
		let caller = self.key();
		let mut unsure = self.sig_reasons(&self.m.registry, &so, payload.expiration, &mut why);
		let mut reg = self.m.registry.clone();
		Self::register(&mut reg, &so, payload.expiration);
		unsure |= self.sig_reasons(&reg, &sn, payload.expiration, &mut why);
		// evicting for the first one may forget an unexpired one only in cases already refused
		if self.m.keys.get(&owner) != Some(&payload.msa_id) {
			why.push(("C08", "the_owner_key_does_not_hold_the_account"));
		}
		if payload.new_public_key != acc(new) {
			why.push(("C07", "another_key_signed"));
		}
		if self.m.keys.iter().any(|(k, _)| acc(*k) == payload.new_public_key) {
			why.push(("C05", "the_key_already_has_an_account"));
		}
		if self.m.count(payload.msa_id) >= MaxKeys::get() as usize {
			why.push(("C05", "the_account_has_the_maximum_of_keys"));
		}
		let call = msa::Call::add_public_key_to_msa { msa_owner_public_key: acc(owner), msa_owner_proof: so.clone(), new_key_owner_proof: sn.clone(), add_key_payload: payload.clone() };
		let Some(res) = self.submit("C05", Some(caller), call) else { return };
		if self.o.verdict("add_key", "C05", &why, unsure, &res) && !self.o.bad {
			Self::register(&mut reg, &sn, payload.expiration);
			self.m.registry = reg;
			self.m.used.push(so);
			self.m.used.push(sn);
			self.m.keys.insert(new, payload.msa_id);
		}
	}
	fn fresh_key(&mut self) {
		let (owner, new) = (self.owned_key(), self.key());
		let id = if self.o.g.chance(1, 10) { self.some_id() } else { self.m.keys.get(&owner).copied().unwrap_or(1) };
		let payload = msa::AddKeyData::<Rt> { msa_id: id, expiration: self.expiration(), new_public_key: acc(new) };
		let mut why = vec![];
		let mut so = sign(owner, payload.encode());
		let mut sn = sign(new, payload.encode());
		match self.o.g.below(24) {
			0 => {
				so = sign((owner + 1) % self.pool, payload.encode());
				why.push(("C07", "another_key_signed_for_the_owner"));
			},
			1 => {
				sn = sign((new + 1) % self.pool, payload.encode());
				why.push(("C07", "another_key_signed_for_the_new_key"));
			},
			2 => {
				let mut p = payload.clone();
				p.msa_id += 1;
				so = sign(owner, p.encode());
				why.push(("C07", "the_owner_signed_other_data"));
			},
			3 => {
				let mut p = payload.clone();
				p.expiration ^= 1;
				sn = sign(new, p.encode());
				why.push(("C07", "the_new_key_signed_other_data"));
			},
			4 => {
				sn = so.clone();
				if owner != new {
					why.push(("C07", "another_key_signed_for_the_new_key"));
				}
			},
			5 => {
				so = pair(owner).sign(&payload.encode()).into();
				why.push(("C07", "the_payload_was_signed_unwrapped"));
			},
			_ => self.old.push(Signed::Key { owner, new, so: so.clone(), sn: sn.clone(), payload: payload.clone() }),
		}
		self.add_key(owner, new, so, sn, payload, why);
	}
	/// an old payload again, unchanged: also by other callers and after other changes
	fn replay(&mut self) {
		if self.old.is_empty() {
			return
		}
		let n = self.old.len();
		let i = if self.o.g.chance(1, 2) { n - 1 - self.o.g.usize(n.min(6)) } else { self.o.g.usize(n) };
		self.o.r.count("replays");
		match self.old[i].clone() {
			Signed::Provider { key, sig, payload } => {
				let pk = self.m.keys.iter().find(|x| *x.1 == payload.authorized_msa_id).map(|x| *x.0).unwrap_or_else(|| self.key());
				self.grant(pk, key, sig, payload, vec![]);
			},
			Signed::Key { owner, new, so, sn, payload } => {
				if self.o.g.chance(1, 3) {
					// half of an old pair with a new signature
					let (a, b) = if self.o.g.chance(1, 2) { (sign(owner, payload.encode()), sn) } else { (so, sign(new, payload.encode())) };
					self.add_key(owner, new, a, b, payload, vec![]);
				} else {
					self.add_key(owner, new, so, sn, payload, vec![]);
				}
			},
		}
	}
	fn revoke(&mut self) {
		let pairs: Vec<(u64, u64)> = self.m.deleg.keys().copied().collect();
		let (mut d, mut p) = if pairs.is_empty() { (self.some_id(), self.some_id()) } else { *self.o.g.pick(&pairs) };
		let by_provider = self.o.g.chance(1, 2);
		let actor = if by_provider { p } else { d };
		let k = self.m.keys.iter().find(|x| *x.1 == actor).map(|x| *x.0);
		let k = if let (Some(k), true) = (k, self.o.g.chance(7, 8)) { k } else { self.key() };
		let actor = self.m.keys.get(&k).copied();
		let call = if by_provider {
			p = actor.unwrap_or(0);
			msa::Call::revoke_delegation_by_provider { delegator: d }
		} else {
			d = actor.unwrap_or(0);
			msa::Call::revoke_delegation_by_delegator { provider_msa_id: p }
		};
		let Some(res) = self.submit("C06", Some(k), call) else { return };
		let mut why: Why = vec![];
		if actor.is_none() {
			why.push(("C08", "the_caller_has_no_account"));
		} else {
			match self.m.deleg.get(&(d, p)) {
				None => why.push(("C08", "there_is_no_such_delegation_of_the_caller")),
				Some(x) if x.revoked.is_some() => why.push(("C08", "the_delegation_is_already_revoked")),
				_ => {},
			}
		}
		if self.o.verdict("revoke_delegation", "C08", &why, false, &res) && !self.o.bad {
			self.m.deleg.get_mut(&(d, p)).unwrap().revoked = Some(self.now);
			self.o.r.count("delegations_revoked");
		}
	}
	fn revoke_schemas(&mut self) {
		let pairs: Vec<(u64, u64)> = self.m.deleg.keys().copied().collect();
		let (d, p) = if pairs.is_empty() { (self.some_id(), self.some_id()) } else { *self.o.g.pick(&pairs) };
		let k = self.m.keys.iter().find(|x| *x.1 == d).map(|x| *x.0);
		let k = if let (Some(k), true) = (k, self.o.g.chance(7, 8)) { k } else { self.key() };
		let d = self.m.keys.get(&k).copied();
		let mut ids = self.schemas();
		if let Some(x) = self.m.deleg.get(&(d.unwrap_or(0), p)) {
			if self.o.g.chance(4, 5) {
				ids = x.schemas.keys().copied().filter(|_| self.o.g.chance(1, 2)).collect();
			}
		}
		let mut why: Why = vec![];
		if d.is_none() {
			why.push(("C08", "the_caller_has_no_account"));
		}
		self.schema_reasons(&ids, &mut why);
		match self.m.deleg.get(&(d.unwrap_or(0), p)) {
			None => why.push(("C06", "there_is_no_such_delegation_of_the_caller")),
			Some(x) =>
				if ids.iter().any(|s| !x.schemas.contains_key(s)) {
					why.push(("C06", "a_schema_was_never_granted"));
				},
		}
		let Some(res) = self.submit("C06", Some(k), msa::Call::revoke_schema_permissions { provider_msa_id: p, schema_ids: ids.clone() }) else { return };
		if self.o.verdict("revoke_schemas", "C06", &why, false, &res) && !self.o.bad {
			let now = self.now;
			let x = self.m.deleg.get_mut(&(d.unwrap(), p)).unwrap();
			for s in ids {
				let e = x.schemas.get_mut(&s).unwrap();
				e.1 = e.1.or(Some(now));
			}
			self.o.r.count("schemas_revoked");
		}
	}
	fn delete_key(&mut self) {
		let by = self.owned_key();
		let mine: Vec<usize> = self.m.keys.iter().filter(|x| Some(x.1) == self.m.keys.get(&by)).map(|x| *x.0).collect();
		let target = if !mine.is_empty() && self.o.g.chance(2, 3) { *self.o.g.pick(&mine) } else { self.key() };
		let mut why: Why = vec![];
		if by == target {
			why.push(("C08", "a_key_cannot_delete_itself"));
		} else if !self.m.keys.contains_key(&by) {
			why.push(("C08", "the_caller_has_no_account"));
		} else if self.m.keys.get(&by) != self.m.keys.get(&target) {
			why.push(("C08", "the_key_does_not_belong_to_the_callers_account"));
		}
		let Some(res) = self.submit("C05", Some(by), msa::Call::delete_msa_public_key { public_key_to_delete: acc(target) }) else { return };
		if self.o.verdict("delete_key", "C08", &why, false, &res) && !self.o.bad {
			self.m.keys.remove(&target);
		}
	}
	fn retire(&mut self) {
		let k = self.owned_key();
		let mut why: Why = vec![];
		let mut unsure = false;
		let id = self.m.keys.get(&k).copied();
		match id {
			None => why.push(("C08", "the_caller_has_no_account")),
			Some(id) => {
				if self.m.providers.contains(&id) {
					why.push(("C08", "the_account_is_a_provider"));
				}
				if HANDLES.with(|h| h.borrow().contains(&id)) {
					why.push(("C08", "the_account_holds_a_handle"));
				}
				if self.m.count(id) > 1 {
					why.push(("C08", "the_account_has_several_keys"));
				}
				for (_, x) in self.m.deleg.iter().filter(|x| x.0 .0 == id) {
					match x.revoked {
						None => why.push(("C08", "the_account_has_delegations")),
						Some(b) if b >= self.now => unsure = true,
						_ => {},
					}
				}
			},
		}
		let Some(res) = self.submit("C05", Some(k), msa::Call::retire_msa {}) else { return };
		if self.o.verdict("retire", "C08", &why, unsure, &res) && !self.o.bad {
			self.m.keys.remove(&k);
			self.m.retired.insert(id.unwrap());
			self.o.r.count("accounts_retired");
		}
	}
	fn provider(&mut self) {
		let k = self.owned_key();
		let len = match self.o.g.below(6) {
			0 => MaxName::get() as usize + 1,
			1 => MaxName::get() as usize,
			2 => 0,
			_ => 3,
		};
		let name = self.o.g.bytes(len);
		let mut why: Why = vec![];
		match self.m.keys.get(&k) {
			None => why.push(("C08", "the_key_has_no_account")),
			Some(id) if self.m.providers.contains(id) => why.push(("C08", "it_is_already_a_provider")),
			_ => {},
		}
		if len > MaxName::get() as usize {
			why.push(("C08", "the_name_is_too_long"));
		}
		let how = self.o.g.below(4);
		let (who, call) = match how {
			0 => (None, msa::Call::create_provider_via_governance { provider_key: acc(k), provider_name: name.clone() }),
			1 => {
				why.push(("C08", "only_governance_may_register_another"));
				(Some(self.key()), msa::Call::create_provider_via_governance { provider_key: acc(k), provider_name: name.clone() })
			},
			_ => (Some(k), msa::Call::create_provider { provider_name: name.clone() }),
		};
		let Some(res) = self.submit("C08", who, call) else { return };
		if self.o.verdict("create_provider", "C08", &why, false, &res) && !self.o.bad {
			let id = self.m.keys[&k];
			self.m.providers.insert(id);
			let got = Msa::get_provider_registry_entry(ProviderId(id)).map(|e| e.provider_name.to_vec());
			self.o.check("C08", got == Some(name.clone()), "a_provider_is_recorded_under_another_name", || json!([id, hex(&name), dbg(&got)]));
		}
	}
	fn propose(&mut self) {
		let k = self.owned_key();
		PROPOSED.with(|p| p.borrow_mut().clear());
		let name = self.o.g.bytes(4);
		let why: Why = if self.m.keys.contains_key(&k) { vec![] } else { vec![("C08", "the_caller_has_no_account")] };
		let Some(res) = self.submit("C08", Some(k), msa::Call::propose_to_be_provider { provider_name: name.clone() }) else { return };
		if self.o.verdict("propose", "C08", &why, false, &res) {
			let want = vec![RuntimeCall::Msa(msa::Call::create_provider_via_governance { provider_key: acc(k), provider_name: name })];
			let got = PROPOSED.with(|p| p.borrow().clone());
			self.o.check("C08", got == want, "the_proposal_is_not_for_the_proposer", || dbg(&got));
		}
	}
	fn handle(&mut self) {
		let id = self.some_id();
		HANDLES.with(|h| {
			let mut h = h.borrow_mut();
			if !h.remove(&id) {
				h.insert(id);
			}
		});
	}
	fn compare(&mut self) {
		// C05
		let mut want: BTreeMap<AccountId32, u64> = BTreeMap::new();
		for (k, id) in &self.m.keys {
			want.insert(acc(*k), *id);
		}
		let got: BTreeMap<AccountId32, u64> = msa::PublicKeyToMsaId::<Rt>::iter().collect();
		self.o.check("C05", got == want, "the_keys_differ_from_history", || json!({"chain": dbg(&got), "expected": dbg(&want)}));
		let top = Msa::get_current_msa_identifier_maximum();
		let m = self.m.top;
		self.o.check("C05", top == m, "the_highest_id_differs_from_history", || json!([top, m]));
		let seen: BTreeSet<u64> = got.values().copied().collect();
		for id in 0..=self.m.top + 1 {
			let n = Msa::get_public_key_count_by_msa_id(id) as usize;
			let w = got.values().filter(|v| **v == id).count();
			self.o.check("C05", n == w, "the_key_count_differs_from_the_keys_that_resolve", || json!({"msa": id, "count": n, "keys": w}));
			self.o.check("C05", n <= MaxKeys::get() as usize, "more_keys_than_the_maximum", || json!([id, n]));
			if self.m.retired.contains(&id) {
				self.o.check("C05", !seen.contains(&id), "a_retired_account_is_alive", || json!(id));
			} else if id >= 1 && id <= self.m.top {
				self.o.check("C05", seen.contains(&id), "a_living_account_has_no_key", || json!(id));
			}
			let p = Msa::is_registered_provider(id);
			let wp = self.m.providers.contains(&id);
			self.o.check("C08", p == wp, "the_registered_providers_differ_from_history", || json!([id, p, wp]));
		}
		self.o.r.count("key_tables_compared");
		// C06
		for (d, p, x) in msa::DelegatorAndProviderToDelegation::<Rt>::iter() {
			let known = self.m.deleg.get(&(d.0, p.0));
			if known.is_none() {
				self.o.fail("C06", "a_delegation_nobody_granted", json!([d.0, p.0]));
			}
			let n = x.schema_permissions.len() as u32;
			self.o.check("C06", n <= MaxGrants::get(), "more_schema_grants_than_the_maximum", || json!(n));
		}
		let pairs: Vec<_> = self.m.deleg.iter().map(|x| (*x.0, x.1.clone())).collect();
		for ((d, p), x) in pairs {
			let (di, pi) = (DelegatorId(d), ProviderId(p));
			let blocks = [self.now, self.now - 1, self.now + 1, x.revoked.unwrap_or(self.now), x.revoked.unwrap_or(self.now) + 1, x.since];
			for b in blocks {
				let r = Msa::ensure_valid_delegation(pi, di, Some(b)).is_ok();
				let want = if b > self.now {
					Some(false)
				} else if x.revoked.map_or(false, |e| b > e) {
					Some(false)
				} else if b >= x.since || x.revoked.is_some() {
					Some(true)
				} else {
					None
				};
				if let Some(w) = want {
					self.o.check("C06", r == w, if w { "a_delegation_in_force_is_not_honoured" } else { "a_delegation_is_honoured_when_it_should_not_be" }, || {
						json!({"delegator": d, "provider": p, "block": b, "model": dbg(&x)})
					});
				}
				self.o.r.count("delegation_queries");
			}
			let r = Msa::ensure_valid_delegation(pi, di, None).is_ok();
			let w = x.revoked.map_or(true, |e| e >= self.now);
			self.o.check("C06", r == w, "the_delegation_is_judged_wrongly_at_the_current_block", || json!({"delegator": d, "provider": p, "model": dbg(&x)}));
			let top = SCHEMAS.with(|s| *s.borrow());
			for s in 0..=top + 1 {
				let end = x.schemas.get(&s).map(|g| (g.0, x.end(s)));
				let e = end.and_then(|e| e.1).unwrap_or(self.now);
				for b in [self.now, self.now + 1, e, e + 1, self.now - 1] {
					let r = Msa::ensure_valid_schema_grant(pi, di, s, b).is_ok();
					let want = match end {
						_ if b > self.now => Some(false),
						None => Some(false),
						Some((_, Some(e))) => Some(b <= e),
						Some((since, None)) => (b >= since).then_some(true),
					};
					if let Some(w) = want {
						self.o.check("C06", r == w, if w { "a_granted_schema_is_not_honoured" } else { "a_schema_is_honoured_when_it_should_not_be" }, || {
							json!({"delegator": d, "provider": p, "schema": s, "block": b, "now": self.now, "model": dbg(&x)})
						});
					}
				}
			}
			let listed = Msa::get_granted_schemas_by_msa_id(di, Some(pi));
			let want: Vec<(u16, u32)> = x.schemas.keys().map(|s| (*s, x.end(*s).unwrap_or(0))).collect();
			match listed {
				Ok(v) => {
					let got: Vec<(u16, u32)> = v.iter().flat_map(|r| r.permissions.iter().map(|g| (g.schema_id, g.revoked_at))).collect();
					self.o.check("C06", v.len() == 1 && v[0].provider_id == pi && got == want, "the_listed_grants_differ_from_history", || json!({"listed": dbg(&v), "expected": dbg(&want)}));
				},
				Err(e) => {
					self.o.check("C06", want.is_empty(), "the_listed_grants_differ_from_history", || json!({"error": err_name(&e), "expected": dbg(&want)}));
				},
			}
		}
		let strangers: Vec<(u64, u64)> = (0..4).map(|_| (self.some_id(), self.some_id())).collect();
		for (d, p) in strangers {
			if !self.m.deleg.contains_key(&(d, p)) {
				let r = Msa::ensure_valid_delegation(ProviderId(p), DelegatorId(d), None).is_ok() || Msa::ensure_valid_schema_grant(ProviderId(p), DelegatorId(d), 1, self.now).is_ok();
				self.o.check("C06", !r, "a_delegation_nobody_granted_is_honoured", || json!([d, p]));
			}
		}
	}
	fn block(&mut self, ops: u64) {
		System::set_block_number(self.now);
		// hashes of the blocks before
		for b in self.now.saturating_sub(20)..self.now {
			frame_system::BlockHash::<Rt>::insert(b, h256(b));
		}
		Msa::on_initialize(self.now);
		for _ in 0..ops {
			let w: [u32; 11] = match self.o.prop.as_str() {
				"C05" => [6, 4, 10, 3, 2, 0, 8, 6, 2, 1, 1],
				"C06" => [3, 14, 2, 2, 6, 6, 1, 1, 3, 1, 0],
				"C07" => [3, 10, 8, 14, 2, 1, 3, 1, 3, 1, 0],
				"C09" => [6, 3, 12, 2, 1, 0, 10, 5, 2, 0, 0],
				_ => [4, 6, 5, 3, 6, 2, 6, 8, 4, 2, 2],
			};
			match self.o.g.weighted(&w) {
				0 => self.create(),
				1 => {
					let (a, b, c, d, e) = self.make_add_provider();
					self.grant(a, b, c, d, e)
				},
				2 => self.fresh_key(),
				3 => self.replay(),
				4 => self.revoke(),
				5 => self.revoke_schemas(),
				6 => self.delete_key(),
				7 => self.retire(),
				8 => self.provider(),
				9 => self.propose(),
				_ => self.handle(),
			}
			if self.o.bad {
				return
			}
			if self.o.prop != "C09" {
				self.compare();
			}
			if self.o.bad {
				return
			}
		}
		let mut t: BTreeMap<u64, BTreeSet<AccountId32>> = BTreeMap::new();
		for (k, id) in &self.m.keys {
			t.entry(*id).or_default().insert(acc(*k));
		}
		self.at.insert(self.now, t);
	}
	/// one run of the off-chain worker after block `now`, with `finalized` as the node's answer
	fn worker(&mut self, ext: &TestExternalities, state: &std::sync::Arc<parking_lot::RwLock<OffchainState>>) {
		let mut status = 200;
		let answer = match self.o.g.below(12) {
			// an answer that is not one
			0 => Some(match self.o.g.below(6) {
				0 => br#"{"id":10,"error":"busy"}"#.to_vec(),
				1 => b"{\"result\":\"0x\xff\xfe\"}".to_vec(),
				2 => br#"{"result":"0xzz"}"#.to_vec(),
				3 => br#"{"result":"0x00"}"#.to_vec(),
				4 => br#"{"result":7}"#.to_vec(),
				// a failing server that names the newest block, which is not final
				_ => {
					status = *self.o.g.pick(&[500, 404, 201, 302]);
					format!("{{\"jsonrpc\":\"2\",\"id\":10,\"result\":\"0x{}\"}}", hex(h256(self.now - 1).as_ref())).into_bytes()
				},
			}),
			1 => Some(format!("{{\"result\":\"0x{}\"}}", "d1".repeat(32)).into_bytes()),
			2 => None,
			_ => {
				let f = self.o.g.range(self.finalized as u64, self.now as u64 - 1) as u32;
				// a node reports the finalized head of a chain that only grows
				self.finalized = f;
				Some(serde_json::to_vec(&serde_json::json!({"jsonrpc": "2.0", "result": format!("0x{}", hex(h256(f).as_ref())), "id": 10})).unwrap())
			},
		};
		let good = answer.as_ref().map_or(false, |a| a.windows(3).any(|w| w == b"2.0"));
		state.write().expect_request(PendingRequest {
			method: "POST".into(),
			uri: msa::RPC_FINALIZED_BLOCK_REQUEST_URL.into(),
			headers: vec![("Content-Type".into(), "application/json".into())],
			sent: true,
			body: msa::RPC_FINALIZED_BLOCK_REQUEST_BODY.to_vec(),
			response: answer,
			status,
			..Default::default()
		});
		let f = self.finalized;
		if good && f > 0 && !self.settled {
			self.indexed_from = self.now;
		}
		let early = self.crashes && !self.settled && self.blocked.0 == 0;
		let stop = (self.interrupts && (early || self.now > self.blocked.0 && self.o.g.chance(1, 3))).then(|| match self.o.g.below(3) {
			_ if early && self.bulk > 0 => self.o.g.range(10, 5 * self.bulk),
			0 => self.o.g.range(6, 24),
			1 => self.o.g.range(1, 60),
			_ => 1 << self.o.g.below(if self.bulk > 0 { 15 } else { 8 }),
		});
		self.o.note(format!("b{} off-chain worker, finalized {f} answered {good}{}", self.now, stop.map_or(String::new(), |n| format!(", stops at access {n}"))));
		self.o.r.count("worker_runs");
		let w = node::start(ext.fork(), self.now, stop);
		match w.wait() {
			node::Outcome::Stopped => {
				self.o.note("  stopped on its way".into());
				self.o.r.count("worker_runs_stopped_on_their_way");
				if !self.paused.is_empty() {
					self.o.r.count("runs_stopped_while_others_were");
				}
				// the locks of a worker hold for at least 20 blocks
				let until = self.now + self.o.g.range(0, 12) as u32;
				let die = self.crashes && (early && self.o.g.chance(1, 2) || self.o.g.chance(1, 3));
				self.paused.push((w, until, die));
				return
			},
			node::Outcome::Finished(Err(p)) => return self.o.fail("C09", &format!("the_worker_panicked_{}", panic_sig(&p)), json!(p)),
			node::Outcome::Finished(Ok(())) => (),
		}
		let last = ext.fork().execute_with(|| get_index_value::<u32>(&msa::LAST_PROCESSED_BLOCK_STORAGE_NAME[..]).unwrap_or(None));
		self.o.note(format!("  last processed block {last:?}"));
		if !self.paused.is_empty() {
			self.o.r.count("runs_while_others_were_stopped");
		}
		let ts = state.read().timestamp.unix_millis();
		if !good || f == 0 || !self.paused.is_empty() || self.now <= self.blocked.0 || ts <= self.blocked.1 {
			return
		}
		if !self.settled && self.blocked.0 > 0 {
			self.o.r.count("recoveries_after_a_crash");
		}
		self.settled = true;
		// the first run starts from the newest state, which finality reaches later
		if f < self.indexed_from {
			return
		}
		let top = self.m.top;
		let index: Vec<Vec<AccountId32>> = ext.fork().execute_with(|| (0..=top).map(|id| get_index_value(&get_msa_account_storage_key_name(id)).unwrap_or(None).unwrap_or_default()).collect());
		for id in 1..=top {
			let want: BTreeSet<AccountId32> = self.at[&f].get(&id).cloned().unwrap_or_default();
			let got = &index[id as usize];
			let set: BTreeSet<AccountId32> = got.iter().cloned().collect();
			self.o.check("C09", set.len() == got.len(), "a_key_is_indexed_twice", || json!([id, dbg(&got)]));
			let (stale, missing) = (set.difference(&want).count(), want.difference(&set).count());
			self.o.check("C09", stale == 0, "the_index_lists_a_key_the_account_does_not_have", || json!({"msa": id, "finalized": f, "index": dbg(&got), "chain": dbg(&want)}));
			self.o.check("C09", missing == 0, "the_index_lacks_a_key_of_the_account", || json!({"msa": id, "finalized": f, "index": dbg(&got), "chain": dbg(&want)}));
			self.o.r.count("index_entries_compared");
		}
		if self.bulk > 0 {
			let n = self.bulk;
			let bad = ext.fork().execute_with(|| (0..n).find(|i| get_index_value::<Vec<AccountId32>>(&get_msa_account_storage_key_name(BULK + i)) != Ok(Some(vec![bulk_key(*i)]))));
			self.o.check("C09", bad.is_none(), "an_account_from_before_the_index_is_missing", || json!({"of": n, "which": bad}));
			self.o.r.count("old_accounts_compared");
		}
	}
	/// lets stopped workers go on, or ends the node with all of them where they stand
	fn resume(&mut self, ext: &TestExternalities, state: &std::sync::Arc<parking_lot::RwLock<OffchainState>>) {
		while let Some(i) = self.paused.iter().position(|p| p.1 <= self.now) {
			let (w, _, die) = self.paused.remove(i);
			if die {
				let db = ext.offchain_db().snapshot();
				w.end(node::Tell::Die);
				for (w, ..) in std::mem::take(&mut self.paused) {
					w.end(node::Tell::Die);
				}
				ext.offchain_db().restore(db);
				// a lock the node left behind holds 40 blocks and 5 s at most
				self.blocked = (self.now + 40, state.read().timestamp.unix_millis() + 5_000);
				self.settled = false;
				self.o.note(format!("b{} the node crashes with its workers", self.now));
				self.o.r.count("crashes");
			} else {
				self.o.note(format!("b{} a stopped worker goes on", self.now));
				if let Some(p) = w.end(node::Tell::Resume) {
					return self.o.fail("C09", &format!("the_worker_panicked_{}", panic_sig(&p)), json!(p))
				}
				self.o.r.count("stopped_workers_finished");
			}
		}
	}
}
const BULK: u64 = 1 << 40;
fn bulk_key(i: u64) -> AccountId32 {
	let mut b = [0xb0u8; 32];
	b[..8].copy_from_slice(&i.to_le_bytes());
	AccountId32::from(b)
}
/// off-chain workers as threads that stop at a chosen access to the off-chain database
mod node {
	use super::*;
	use std::sync::mpsc::*;
	pub enum Tell {
		Resume,
		Die,
	}
	pub enum Outcome {
		Stopped,
		Finished(Result<(), String>),
	}
	pub struct Worker {
		tell: Sender<Tell>,
		out: Receiver<Outcome>,
		thread: std::thread::JoinHandle<()>,
	}
	pub fn start(mut ext: TestExternalities, now: u32, stop: Option<u64>) -> Worker {
		let (tell, told) = channel();
		let (say, out) = channel();
		let thread = std::thread::spawn(move || {
			let (s, mut n) = (say.clone(), 0);
			sp_io::offchain::on_access(Some(Box::new(move || {
				n += 1;
				if n == 300_000 {
					panic!("the worker does not come to an end")
				}
				if stop == Some(n) {
					let _ = s.send(Outcome::Stopped);
					if !matches!(told.recv(), Ok(Tell::Resume)) {
						std::panic::resume_unwind(Box::new("the node is gone"))
					}
				}
			})));
			let r = ext.execute_with(|| guarded(|| Msa::offchain_worker(now)));
			let _ = say.send(Outcome::Finished(r));
		});
		Worker { tell, out, thread }
	}
	impl Worker {
		pub fn wait(&self) -> Outcome {
			self.out.recv().expect("the worker's thread ended without an answer")
		}
		/// the panic of a worker that was to go on
		pub fn end(self, t: Tell) -> Option<String> {
			let die = matches!(t, Tell::Die);
			let _ = self.tell.send(t);
			let r = self.wait();
			let _ = self.thread.join();
			match r {
				Outcome::Finished(Err(p)) if !die => Some(p),
				_ => None,
			}
		}
	}
}
fn short(c: &msa::Call<Rt>) -> String {
	let s = format!("{c:?}");
	let mut out = String::new();
	// signatures and keys are long: keep the first digits
	let mut run = 0;
	for ch in s.chars() {
		run = if ch.is_ascii_hexdigit() { run + 1 } else { 0 };
		if run <= 8 {
			out.push(ch);
		}
	}
	out
}

fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n);
	MaxKeys::set(*g.pick(&[2, 3, 25, 255]));
	MaxGrants::set(*g.pick(&[1, 3, 5, 30]));
	Mortality::set(*g.pick(&[3, 10, 100]));
	MaxSigs::set(Some(*g.pick(&[2, 3, 5, 8, 1000])));
	HANDLES.with(|h| h.borrow_mut().clear());
	SCHEMAS.with(|s| *s.borrow_mut() = g.range(1, 6) as u16);
	let about = json!({"max_keys": MaxKeys::get(), "max_grants": MaxGrants::get(), "mortality": Mortality::get(), "max_signatures": MaxSigs::get()});
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let (off, state) = TestOffchainExt::with_offchain_db(ext.offchain_db());
	ext.register_extension(OffchainDbExt::new(off.clone()));
	ext.register_extension(OffchainWorkerExt::new(off));
	let pool = g.range(2, 9) as usize;
	let blocks = g.range(3, if r.thorough() { 60 } else { 25 });
	// a node whose worker is switched on only later starts with the state it finds
	let worker_from = if g.chance(1, 2) { 2 } else { g.range(2, 12) as u32 };
	let worker_rate = g.range(1, 6);
	let first = g.range(1, 3) as u32;
	let mut h = H { o: Mon::new(r, g, about), m: Default::default(), now: first, pool, old: vec![], at: Default::default(), finalized: 0, indexed_from: 0, settled: false, paused: vec![], interrupts: false, crashes: false, blocked: (0, 0), bulk: 0 };
	if h.o.prop == "C09" {
		h.interrupts = h.o.g.chance(2, 3);
		h.crashes = h.interrupts && h.o.g.chance(1, 2);
		if h.o.g.chance(1, 20) {
			h.crashes |= h.interrupts && h.o.g.chance(1, 2);
			h.bulk = h.o.g.range(990, 1200);
			ext.execute_with(|| (0..h.bulk).for_each(|i| msa::PublicKeyToMsaId::<Rt>::insert(bulk_key(i), BULK + i)));
		}
	}
	let blocks = if h.crashes { blocks + h.o.g.range(40, 70) } else { blocks };
	for b in 0..=first {
		h.at.insert(b, Default::default());
	}
	for _ in 0..blocks {
		let ops = if h.now <= h.blocked.0 { h.o.g.below(3) } else { h.o.g.range(0, 8) };
		ext.execute_with(|| h.block(ops));
		if h.o.bad {
			break
		}
		ext.persist_offchain_overlay();
		h.resume(&ext, &state);
		if h.o.bad {
			break
		}
		if h.now >= worker_from && h.o.g.chance(1, worker_rate) && h.o.prop == "C09" {
			h.worker(&ext, &state);
			state.write().expected_requests.clear();
			if h.o.bad {
				break
			}
		}
		let step = if h.o.prop == "C09" { 1 } else { *h.o.g.pick(&[1u32, 1, 1, 2, 5, 20]) };
		for b in h.now + 1..h.now + step {
			h.at.insert(b, h.at[&h.now].clone());
		}
		h.now += step;
		let t = h.o.g.below(9000);
		let mut s = state.write();
		s.timestamp = s.timestamp.add(sp_core::offchain::Duration::from_millis(t));
	}
	for (w, ..) in std::mem::take(&mut h.paused) {
		w.end(node::Tell::Die);
	}
	let sig = (h.m.top, h.now, h.o.log.len(), h.m.keys.clone(), h.m.used.len());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		let v = json!({"ids_issued": h.m.top, "blocks": h.now, "last_operations": last});
		h.o.r.sample(v);
	}
}

fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system, signatures and the off-chain database are stand-ins written after polkadot v1.6.0 (DESIGN.md); the msa pallet is compiled unmodified from the tree");
	r.assume("schemas, handles and the council are reduced to what the pallet asks of them");
	match r.prop.as_str() {
		"C05" => {
			r.require("accepted:add_key", 500);
			r.require("accounts_retired", 100);
			r.require("rejected:add_key:the_account_has_the_maximum_of_keys", 20);
		},
		"C06" => {
			r.require("delegations_granted", 500);
			r.require("schemas_revoked", 100);
			r.require("delegation_queries", 5000);
		},
		"C07" => {
			r.require("replays", 1000);
			r.require("rejected:grant_delegation:the_signature_was_used_before", 100);
			r.require("rejected:add_key:the_signature_was_used_before", 100);
			r.require("rejected:grant_delegation:the_registry_is_full_of_unexpired_signatures", 20);
		},
		"C09" => {
			r.require("worker_runs", 500);
			r.require("index_entries_compared", 1000);
			r.require("stopped_workers_finished", 100);
			r.require("runs_while_others_were_stopped", 50);
			r.require("crashes", 20);
			r.require("recoveries_after_a_crash", 10);
		},
		_ => {
			r.require("free_transactions_offered", 1000);
			r.require("accounts_retired", 100);
			r.require("rejected:retire:the_account_has_delegations", 20);
			r.require("rejected:delete_key:the_key_does_not_belong_to_the_callers_account", 50);
		},
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		history(&mut r, n);
	}
	r.add("histories", n);
	r.finish("a history is distinct if its accounts, keys, accepted signatures or length differ from every other")
}
