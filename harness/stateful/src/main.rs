//! C22-C25: pages written by random callers with fresh and stale hashes, with and without signatures,
//! read back directly and through the RPC, compared with a model of what was accepted.
mod keys;
use common_primitives::{
	msa::{DelegatorId, MessageSourceId, MsaLookup, MsaValidator, ProviderId, SchemaGrantValidator},
	schema::*,
	stateful_storage::*,
	utils::wrap_binary_data,
};
use frame_support::{parameter_types, BoundedVec};
use kit::*;
use pallet_stateful_storage as ss;
use pallet_stateful_storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
use parity_scale_codec::Encode;
use sp_core::{crypto::AccountId32, sr25519, Pair};
use sp_runtime::{traits::ConvertInto, MultiSignature};
use ss::types::*;
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet},
	sync::Arc,
};

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Stateful: pallet_stateful_storage::{Pallet, Call, Storage, Event<T>},
	}
);
kit::system!(Rt, AccountId32, ());
parameter_types! {
	pub static ItemPage: u32 = 100;
	pub static PagePage: u32 = 100;
	pub static Blob: u32 = 50;
	pub static LastPage: u16 = 16;
	pub static Actions: u32 = 5;
	pub static Window: u32 = 100;
}
macro_rules! size {
	($n:ident, $of:ident) => {
		#[derive(Clone, Debug, Default, PartialEq, Eq, Encode, parity_scale_codec::Decode, scale_info::TypeInfo, parity_scale_codec::MaxEncodedLen)]
		pub struct $n;
		impl Get<u32> for $n {
			fn get() -> u32 {
				$of::get()
			}
		}
	};
}
size!(ItemPageSize, ItemPage);
size!(PagePageSize, PagePage);
size!(BlobSize, Blob);
size!(ActionCount, Actions);
#[derive(Default)]
struct World {
	msas: BTreeMap<usize, u64>,
	schemas: BTreeMap<u16, (PayloadLocation, Vec<SchemaSetting>)>,
	/// provider, delegator, schema
	grants: BTreeSet<(u64, u64, u16)>,
	now: u32,
}
thread_local! {
	static W: RefCell<World> = RefCell::new(World::default());
	static COLLISIONS: RefCell<u32> = RefCell::new(0);
}
const KEYS: usize = 9;
pub struct Outside;
impl MsaLookup for Outside {
	type AccountId = AccountId32;
	fn get_msa_id(k: &AccountId32) -> Option<MessageSourceId> {
		let i = (0..KEYS).find(|i| acc(*i) == *k)?;
		W.with(|w| w.borrow().msas.get(&i).copied())
	}
}
impl MsaValidator for Outside {
	type AccountId = AccountId32;
	fn ensure_valid_msa_key(k: &AccountId32) -> Result<MessageSourceId, DispatchError> {
		Self::get_msa_id(k).ok_or(DispatchError::Other("no msa"))
	}
}
impl SchemaGrantValidator<u32> for Outside {
	fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: SchemaId, b: u32) -> Result<(), DispatchError> {
		W.with(|w| {
			let w = w.borrow();
			// grants of the past and of the future are not those of now
			(b == w.now && w.grants.contains(&(p.0, d.0, s))).then_some(()).ok_or(DispatchError::Other("no grant"))
		})
	}
}
impl SchemaProvider<SchemaId> for Outside {
	fn get_schema_by_id(id: SchemaId) -> Option<SchemaResponse> {
		Self::get_schema_info_by_id(id).map(|s| SchemaResponse { schema_id: id, model: b"m".to_vec(), model_type: s.model_type, payload_location: s.payload_location, settings: s.settings })
	}
	fn get_schema_info_by_id(id: SchemaId) -> Option<SchemaInfoResponse> {
		W.with(|w| w.borrow().schemas.get(&id).map(|(l, s)| SchemaInfoResponse { schema_id: id, model_type: ModelType::AvroBinary, payload_location: *l, settings: s.clone() }))
	}
}
impl ss::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Outside;
	type SchemaGrantValidator = Outside;
	type SchemaProvider = Outside;
	type MaxItemizedPageSizeBytes = ItemPageSize;
	type MaxPaginatedPageSizeBytes = PagePageSize;
	type MaxItemizedBlobSizeBytes = BlobSize;
	type MaxPaginatedPageId = LastPage;
	type MaxItemizedActionsCount = ActionCount;
	type KeyHasher = frame_support::Twox128;
	type ConvertIntoAccountId32 = ConvertInto;
	type MortalityWindowSize = Window;
}
kit::client!(Rt, Api);
impl pallet_stateful_storage_runtime_api::StatefulStorageRuntimeApi<Block> for Api {
	fn get_paginated_storage(&self, _: sp_core::H256, m: MessageSourceId, s: SchemaId) -> Result<Result<Vec<PaginatedStorageResponse>, DispatchError>, sp_api::ApiError> {
		Ok(Stateful::get_paginated_storage(m, s))
	}
	fn get_itemized_storage(&self, _: sp_core::H256, m: MessageSourceId, s: SchemaId) -> Result<Result<ItemizedStoragePageResponse, DispatchError>, sp_api::ApiError> {
		Ok(Stateful::get_itemized_storage(m, s))
	}
}
fn pair(k: usize) -> sr25519::Pair {
	let mut s = [9u8; 32];
	s[..8].copy_from_slice(&(k as u64).to_le_bytes());
	sr25519::Pair::from_seed(&s)
}
fn acc(k: usize) -> AccountId32 {
	AccountId32::from(pair(k).public())
}

/// the account, schema and page of a page; itemized if there is no page number
type Key = (u64, u16, Option<u16>);
/// a page's content: the items, or the one blob
type Content = Vec<Vec<u8>>;
#[derive(Clone, Debug)]
enum Op {
	Items(Vec<ItemAction<BlobSize>>),
	Upsert(Vec<u8>),
	Delete,
}
type Acts = BoundedVec<ItemAction<BlobSize>, ActionCount>;
type Blobs = BoundedVec<u8, PagePageSize>;
impl Op {
	fn acts(&self) -> Acts {
		match self {
			Op::Items(a) => a.clone().try_into().unwrap(),
			_ => unreachable!(),
		}
	}
	fn blob(&self) -> Blobs {
		match self {
			Op::Upsert(b) => b.clone().try_into().unwrap(),
			_ => unreachable!(),
		}
	}
	fn show(&self) -> String {
		match self {
			Op::Items(a) => a
				.iter()
				.map(|a| match a {
					ItemAction::Add { data } => format!("+{}", hex(data)),
					ItemAction::Delete { index } => format!("-{index}"),
				})
				.collect::<Vec<_>>()
				.join(" "),
			Op::Upsert(b) => format!("write {}", hex(b)),
			Op::Delete => "delete".into(),
		}
	}
}
/// everything a signature covers
#[derive(Clone, Debug)]
struct Order {
	key: Key,
	hash: u32,
	expires: u32,
	op: Op,
	v1: bool,
}
impl Order {
	fn payload(&self) -> Vec<u8> {
		let (m, s, p) = self.key;
		let (h, e) = (self.hash, self.expires);
		let p = p.unwrap_or(0);
		match (&self.op, self.v1) {
			(Op::Items(_), true) => ItemizedSignaturePayload::<Rt> { msa_id: m, schema_id: s, target_hash: h, expiration: e, actions: self.op.acts() }.encode(),
			(Op::Items(_), false) => ItemizedSignaturePayloadV2::<Rt> { schema_id: s, target_hash: h, expiration: e, actions: self.op.acts() }.encode(),
			(Op::Upsert(_), true) => PaginatedUpsertSignaturePayload::<Rt> { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e, payload: self.op.blob() }.encode(),
			(Op::Upsert(_), false) => PaginatedUpsertSignaturePayloadV2::<Rt> { schema_id: s, page_id: p, target_hash: h, expiration: e, payload: self.op.blob() }.encode(),
			(Op::Delete, true) => PaginatedDeleteSignaturePayload::<Rt> { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e }.encode(),
			(Op::Delete, false) => PaginatedDeleteSignaturePayloadV2::<Rt> { schema_id: s, page_id: p, target_hash: h, expiration: e }.encode(),
		}
	}
	#[allow(deprecated)]
	fn signed_call(&self, k: AccountId32, proof: MultiSignature) -> ss::Call<Rt> {
		let (m, s, p) = self.key;
		let (h, e) = (self.hash, self.expires);
		let p = p.unwrap_or(0);
		match (&self.op, self.v1) {
			(Op::Items(_), true) => ss::Call::apply_item_actions_with_signature { delegator_key: k, proof, payload: ItemizedSignaturePayload { msa_id: m, schema_id: s, target_hash: h, expiration: e, actions: self.op.acts() } },
			(Op::Items(_), false) => ss::Call::apply_item_actions_with_signature_v2 { delegator_key: k, proof, payload: ItemizedSignaturePayloadV2 { schema_id: s, target_hash: h, expiration: e, actions: self.op.acts() } },
			(Op::Upsert(_), true) => ss::Call::upsert_page_with_signature { delegator_key: k, proof, payload: PaginatedUpsertSignaturePayload { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e, payload: self.op.blob() } },
			(Op::Upsert(_), false) => ss::Call::upsert_page_with_signature_v2 { delegator_key: k, proof, payload: PaginatedUpsertSignaturePayloadV2 { schema_id: s, page_id: p, target_hash: h, expiration: e, payload: self.op.blob() } },
			(Op::Delete, true) => ss::Call::delete_page_with_signature { delegator_key: k, proof, payload: PaginatedDeleteSignaturePayload { msa_id: m, schema_id: s, page_id: p, target_hash: h, expiration: e } },
			(Op::Delete, false) => ss::Call::delete_page_with_signature_v2 { delegator_key: k, proof, payload: PaginatedDeleteSignaturePayloadV2 { schema_id: s, page_id: p, target_hash: h, expiration: e } },
		}
	}
	fn direct_call(&self) -> ss::Call<Rt> {
		let (m, s, p) = self.key;
		match &self.op {
			Op::Items(_) => ss::Call::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash: self.hash, actions: self.op.acts() },
			Op::Upsert(_) => ss::Call::upsert_page { state_owner_msa_id: m, schema_id: s, page_id: p.unwrap(), target_hash: self.hash, payload: self.op.blob() },
			Op::Delete => ss::Call::delete_page { state_owner_msa_id: m, schema_id: s, page_id: p.unwrap(), target_hash: self.hash },
		}
	}
}
struct H<'a> {
	o: Mon<'a>,
	rpc: StatefulStorageHandler<Client, Block>,
	pages: BTreeMap<Key, Content>,
	/// hashes a page had since it was last empty, oldest first, and all it ever had with the content
	since_empty: BTreeMap<Key, Vec<u32>>,
	ever: BTreeMap<Key, BTreeMap<u32, Content>>,
	msas: Vec<u64>,
	sids: Vec<u16>,
	pids: Vec<u16>,
	signed: Vec<(Order, usize, MultiSignature)>,
	writes: u64,
}
impl<'a> H<'a> {
	/// the hash readers are told: the only way to learn it
	fn hash_of(&self, k: Key) -> Option<u32> {
		match k.2 {
			None => Stateful::get_itemized_storage(k.0, k.1).ok().map(|p| p.content_hash),
			Some(n) => Stateful::get_paginated_storage(k.0, k.1).ok().map(|v| v.iter().find(|p| p.page_id == n).map_or(0, |p| p.content_hash)),
		}
	}
	fn a_key(&mut self, items: bool) -> Key {
		let m = *self.o.g.pick(&self.msas);
		let s = *self.o.g.pick(&self.sids);
		let p = if items { None } else { Some(*self.o.g.pick(&self.pids)) };
		(m, s, p)
	}
	fn an_op(&mut self, k: Key) -> Op {
		let now = self.pages.get(&k).cloned().unwrap_or_default();
		let g = &mut self.o.g;
		if k.2.is_none() {
			let n = g.range(0, (Actions::get() as u64).min(6) + 1).min(Actions::get() as u64);
			let mut fresh: Vec<u16> = (0..now.len() as u16).collect();
			g.shuffle(&mut fresh);
			let a = (0..n)
				.map(|_| {
					if !now.is_empty() && g.chance(2, 5) {
						let index = match g.below(12) {
							0 => now.len() as u16,
							1 => *g.pick(&[0u16, 1, 255, 256, u16::MAX]),
							2 => g.below(now.len() as u64) as u16,
							_ => fresh.pop().unwrap_or(now.len() as u16),
						};
						ItemAction::Delete { index }
					} else {
						let n = match g.below(8) {
							0 => Blob::get(),
							1 => 0,
							_ => g.below(Blob::get().min(12) as u64 + 1) as u32,
						};
						let data = if g.chance(1, 3) { vec![7; n as usize] } else { g.bytes(n as usize) };
						ItemAction::Add { data: data.try_into().unwrap() }
					}
				})
				.collect();
			Op::Items(a)
		} else if g.chance(1, 5) {
			Op::Delete
		} else {
			let max = PagePage::get() as usize;
			let n = match g.below(8) {
				0 => max,
				1 => 0,
				_ => g.usize(max.min(20) + 1),
			};
			// often what was there before
			let old: Vec<Vec<u8>> = self.ever.get(&k).map(|e| e.values().filter_map(|c| c.first().cloned()).collect()).unwrap_or_default();
			match g.below(4) {
				0 if !now.is_empty() => Op::Upsert(now[0].clone()),
				1 if !old.is_empty() => Op::Upsert(g.pick(&old).clone()),
				_ => Op::Upsert(g.bytes(n)),
			}
		}
	}
	fn a_hash(&mut self, k: Key) -> u32 {
		let cur = self.hash_of(k).unwrap_or(0);
		let old: Vec<u32> = self.ever.get(&k).map(|m| m.keys().copied().collect()).unwrap_or_default();
		let all: Vec<u32> = self.ever.values().flat_map(|m| m.keys().copied()).collect();
		let g = &mut self.o.g;
		match g.below(14) {
			0 | 1 if !old.is_empty() => *g.pick(&old),
			2 if !all.is_empty() => *g.pick(&all),
			3 => 0,
			4 => *g.pick(&[cur.wrapping_add(1), cur ^ 0x8000_0000, cur ^ 1, u32::MAX, cur.swap_bytes()]),
			_ => cur,
		}
	}
	/// what a page becomes, or why it cannot
	fn result(&self, k: Key, op: &Op) -> Result<Option<Content>, &'static str> {
		let now = self.pages.get(&k).cloned();
		match op {
			Op::Delete => Ok(None),
			Op::Upsert(b) => Ok(Some(vec![b.clone()])),
			Op::Items(acts) => {
				let old = now.unwrap_or_default();
				let mut gone = BTreeSet::new();
				let mut add = vec![];
				for a in acts {
					match a {
						ItemAction::Add { data } => add.push(data.to_vec()),
						ItemAction::Delete { index } =>
							if *index as usize >= old.len() || !gone.insert(*index as usize) {
								return Err("there_is_no_such_item")
							},
					}
				}
				let mut new: Content = old.into_iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|(_, d)| d).collect();
				new.extend(add);
				// every item takes its bytes and a header of two
				if new.iter().map(|i| i.len() + 2).sum::<usize>() > ItemPage::get() as usize {
					return Err("the_page_would_exceed_its_size")
				}
				Ok((!new.is_empty()).then_some(new))
			},
		}
	}
	fn write(&mut self) {
		let items = self.o.g.chance(1, 2);
		let key = self.a_key(items);
		let op = self.an_op(key);
		let hash = self.a_hash(key);
		let order = Order { key, hash, expires: 0, op, v1: false };
		if self.o.g.chance(1, 2) {
			self.direct(order)
		} else {
			self.by_signature(order)
		}
	}
	fn schema_reasons(&mut self, k: Key, op: &Op, by_owner: bool) -> (Vec<(&'static str, &'static str)>, bool) {
		let mut why = vec![];
		let mut unsure = false;
		match W.with(|w| w.borrow().schemas.get(&k.1).cloned()) {
			None => why.push(("C24", "the_schema_does_not_exist")),
			Some((l, s)) => {
				if l != if k.2.is_none() { PayloadLocation::Itemized } else { PayloadLocation::Paginated } {
					why.push(("C24", "the_schema_is_of_another_location"));
				}
				let deletes = match op {
					Op::Items(a) => a.iter().any(|a| matches!(a, ItemAction::Delete { .. })),
					Op::Delete => true,
					_ => false,
				};
				if s.contains(&SchemaSetting::AppendOnly) {
					if deletes {
						why.push(("C24", "the_schema_is_append_only"));
					}
					// overwriting a whole page of such a schema is not specified
					unsure = k.2.is_some();
				}
				if s.contains(&SchemaSetting::SignatureRequired) && !by_owner {
					why.push(("C24", "the_schema_requires_a_signature"));
				}
			},
		}
		if k.2.map_or(false, |p| p > LastPage::get()) {
			why.push(("C23", "the_page_number_is_too_high"));
		}
		(why, unsure)
	}
	fn direct(&mut self, order: Order) {
		let by = if self.o.g.chance(1, 2) {
			// somebody of that account, if there is
			let o: Vec<usize> = W.with(|w| w.borrow().msas.iter().filter(|x| *x.1 == order.key.0).map(|x| *x.0).collect());
			if o.is_empty() { 0 } else { *self.o.g.pick(&o) }
		} else {
			self.o.g.usize(KEYS)
		};
		let msa = W.with(|w| w.borrow().msas.get(&by).copied());
		let (mut why, unsure) = self.schema_reasons(order.key, &order.op, msa == Some(order.key.0));
		match msa {
			None => why.push(("C24", "the_key_has_no_account")),
			Some(m) if m != order.key.0 =>
				if !W.with(|w| w.borrow().grants.contains(&(m, order.key.0, order.key.1))) {
					why.push(("C24", "there_is_no_grant_for_the_schema"));
				},
			_ => (),
		}
		let what = format!("key {by} ({msa:?}) {:?} hash {} {}", order.key, order.hash, order.op.show());
		let call = RuntimeCall::Stateful(order.direct_call());
		self.submit("direct", order.key, order, why, unsure, what, call, by);
	}
	fn by_signature(&mut self, mut order: Order) {
		let now = W.with(|w| w.borrow().now);
		let window = Window::get();
		let g = &mut self.o.g;
		if !self.signed.is_empty() && g.chance(1, 5) {
			// an order signed earlier, as it is
			let (o, signer, proof) = g.pick(&self.signed).clone();
			return self.submit_signed(o, signer, proof, vec![], true, "again")
		}
		order.v1 = g.chance(1, 2);
		order.expires = match g.below(12) {
			0 => now,
			1 => now.saturating_sub(1),
			2 => 0,
			3 => now + window,
			4 => now + window + 1,
			5 => now + window - 1,
			6 => now + 1,
			7 => u32::MAX,
			_ => now + 1 + g.below(window as u64 - 1) as u32,
		};
		let owners: Vec<usize> = W.with(|w| w.borrow().msas.iter().filter(|x| *x.1 == order.key.0).map(|x| *x.0).collect());
		let signer = if g.chance(5, 6) && !owners.is_empty() { *g.pick(&owners) } else { g.usize(KEYS) };
		let mut covers = order.clone();
		let mut why = vec![];
		let mut by = signer;
		match g.below(20) {
			0 => {
				by = (signer + 1 + g.usize(KEYS - 1)) % KEYS;
				why.push(("C24", "another_key_signed"));
			},
			1 => {
				covers.hash ^= 1;
				why.push(("C24", "the_signature_is_for_another_hash"));
			},
			2 => {
				covers.expires ^= 1;
				why.push(("C24", "the_signature_is_for_another_expiration"));
			},
			3 => {
				covers.key.1 ^= 1;
				why.push(("C24", "the_signature_is_for_another_schema"));
			},
			4 => {
				match &mut covers.op {
					Op::Items(a) =>
						if a.is_empty() {
							a.push(ItemAction::Delete { index: 0 })
						} else {
							a.pop();
						},
					Op::Upsert(b) =>
						if b.is_empty() {
							b.push(1)
						} else {
							b[0] ^= 1;
						},
					Op::Delete => covers.op = Op::Upsert(vec![]),
				}
				why.push(("C24", "the_signature_is_for_another_content"));
			},
			5 if covers.key.2.is_some() => {
				covers.key.2 = covers.key.2.map(|p| p ^ 1);
				why.push(("C24", "the_signature_is_for_another_page"));
			},
			6 if covers.v1 => {
				covers.key.0 ^= 1;
				why.push(("C24", "the_signature_is_for_another_account"));
			},
			7 => {
				covers.v1 = !covers.v1;
				why.push(("C24", "the_signature_is_for_another_kind_of_payload"));
			},
			_ => (),
		}
		let mut payload = wrap_binary_data(covers.payload());
		if g.chance(1, 30) {
			payload = covers.payload();
			why.push(("C24", "the_signed_payload_is_not_wrapped"));
		}
		let proof: MultiSignature = pair(by).sign(&payload).into();
		if why.is_empty() {
			self.signed.push((order.clone(), signer, proof.clone()));
		}
		self.submit_signed(order, signer, proof, why, false, "signed")
	}
	fn submit_signed(&mut self, order: Order, signer: usize, proof: MultiSignature, mut why: Vec<(&'static str, &'static str)>, _again: bool, kind: &str) {
		let now = W.with(|w| w.borrow().now);
		let msa = W.with(|w| w.borrow().msas.get(&signer).copied());
		let (w, unsure) = self.schema_reasons(order.key, &order.op, true);
		why.extend(w);
		if order.expires <= now {
			why.push(("C24", "the_signature_has_expired"));
		}
		if order.expires as u64 >= now as u64 + Window::get() as u64 {
			why.push(("C24", "the_signature_lasts_too_long"));
		}
		match msa {
			None => why.push(("C24", "the_key_has_no_account")),
			Some(m) if order.v1 && m != order.key.0 => why.push(("C24", "the_key_is_of_another_account")),
			_ => (),
		}
		// a payload of the second version is about the account of the key that signed it
		let mut key = order.key;
		if !order.v1 {
			key.0 = msa.unwrap_or(key.0);
		}
		let by = self.o.g.usize(KEYS);
		let what = format!("block {now} {kind} by {signer} ({msa:?}) v{} submitted by {by}: {:?} hash {} expires {} {}", 2 - order.v1 as u8, key, order.hash, order.expires, order.op.show());
		let call = RuntimeCall::Stateful(order.signed_call(acc(signer), proof));
		self.submit(if order.v1 { "signed_v1" } else { "signed_v2" }, key, order, why, unsure, what, call, by);
	}
	fn submit(&mut self, route: &str, key: Key, order: Order, mut why: Vec<(&'static str, &'static str)>, mut unsure: bool, what: String, call: RuntimeCall, by: usize) {
		let kind = match order.op {
			Op::Items(_) => "items",
			Op::Upsert(_) => "upsert",
			Op::Delete => "delete",
		};
		let result = self.result(key, &order.op);
		let missing = matches!(order.op, Op::Delete) && !self.pages.contains_key(&key);
		if missing {
			// deleting what is not there may be refused or do nothing
			unsure = true;
		}
		let before = self.hash_of(key);
		match before {
			Some(h) if h != order.hash && !missing => why.push(("C22", "the_hash_is_not_the_current_one")),
			_ => (),
		}
		if let Err(w) = result {
			why.push(("C23", w));
		}
		let main = if why.is_empty() { "C24" } else { why[0].0 };
		let Some(res) = self.o.attempt(main, what, || dispatch(call, RuntimeOrigin::signed(acc(by))).map_err(names)) else { return };
		let main = match &res {
			Err(e) if e.contains("Stale") => "C22",
			Err(e) if e.contains("ItemAction") || e.contains("Corrupted") || e.contains("Page") => "C23",
			_ => "C24",
		};
		if self.o.verdict(&format!("{route}_{kind}"), main, &why, unsure, &res) && !self.o.bad {
			if missing {
				self.o.r.count("deletions_of_nothing");
			} else {
				self.accepted(key, result.unwrap_or(None), before.unwrap_or(0));
			}
		}
		if !self.o.bad {
			self.read(key);
		}
		if !self.o.bad && (self.o.prop == "C25" || self.o.g.chance(1, 16)) {
			self.read_all();
		}
	}
	fn accepted(&mut self, key: Key, new: Option<Content>, before: u32) {
		self.o.r.count("writes_accepted");
		self.writes += 1;
		let empty = new.as_ref().map_or(true, |c| key.2.is_some() && c[0].is_empty());
		match &new {
			None => {
				self.pages.remove(&key);
			},
			Some(c) => {
				self.pages.insert(key, c.clone());
			},
		}
		let Some(h) = self.hash_of(key) else {
			self.o.fail("C23", "accepted_page_cannot_be_read_back", json!(dbg(&key)));
			return
		};
		// what the event says is what a reader is told
		let ev = System::events().last().map(|e| e.event.clone());
		let told = match ev {
			Some(RuntimeEvent::Stateful(ss::Event::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash })) => Some(((msa_id, schema_id, None), prev_content_hash, curr_content_hash)),
			Some(RuntimeEvent::Stateful(ss::Event::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash })) => Some(((msa_id, schema_id, Some(page_id)), prev_content_hash, curr_content_hash)),
			Some(RuntimeEvent::Stateful(ss::Event::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash })) => Some(((msa_id, schema_id, None), prev_content_hash, 0)),
			Some(RuntimeEvent::Stateful(ss::Event::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash })) => Some(((msa_id, schema_id, Some(page_id)), prev_content_hash, 0)),
			_ => None,
		};
		self.o.check("C22", told == Some((key, before, h)), "the_event_tells_other_hashes", || json!({"event": dbg(&told), "page": dbg(&key), "before": before, "after": h}));
		System::reset_events();
		if empty {
			self.since_empty.remove(&key);
			return
		}
		let past = self.since_empty.entry(key).or_default();
		let repeated = past.contains(&h) || h == before;
		past.push(h);
		let content = new.unwrap();
		let clash = self.ever.entry(key).or_default().insert(h, content.clone()).map_or(false, |c| c != content);
		if repeated || clash {
			// hashes have 32 bits: two clashes in one run are no accident
			let n = COLLISIONS.with(|c| {
				*c.borrow_mut() += 1;
				*c.borrow()
			});
			if n >= 2 {
				let sig = if repeated { "a_write_leaves_a_hash_readers_already_hold" } else { "different_contents_have_one_hash" };
				self.o.fail("C22", sig, json!({"page": dbg(&key), "hash": h, "before": before}));
			}
		}
	}
	fn read(&mut self, k: Key) {
		let loc = W.with(|w| w.borrow().schemas.get(&k.1).map(|s| s.0));
		let p = if self.o.prop == "C25" { "C25" } else { "C23" };
		self.o.r.count("pages_read");
		let direct = match guarded(|| (Stateful::get_itemized_storage(k.0, k.1), Stateful::get_paginated_storage(k.0, k.1))) {
			Ok(d) => d,
			Err(e) => {
				self.o.fail(p, &format!("panic_{}", panic_sig(&e)), json!(dbg(&k)));
				return
			},
		};
		let via = (self.rpc.get_itemized_storage(k.0, k.1).ok(), self.rpc.get_paginated_storage(k.0, k.1).ok());
		let same = direct.0.clone().ok() == via.0 && direct.1.clone().ok() == via.1;
		self.o.check(p, same, "rpc_reads_something_else", || json!({"page": dbg(&k), "direct": dbg(&direct), "rpc": dbg(&via)}));
		let items = direct.0.ok();
		let wanted = (loc == Some(PayloadLocation::Itemized)).then(|| self.pages.get(&(k.0, k.1, None)).cloned().unwrap_or_default());
		let ok = match (&items, &wanted) {
			(None, None) => true,
			(Some(i), Some(w)) => i.msa_id == k.0 && i.schema_id == k.1 && i.items.len() == w.len() && i.items.iter().zip(w).enumerate().all(|(n, (i, w))| i.index as usize == n && i.payload == *w) && (i.content_hash == 0) == w.is_empty(),
			_ => false,
		};
		self.o.check(p, ok, "items_read_back_differently", || json!({"page": dbg(&(k.0, k.1)), "read": dbg(&items), "wanted": dbg(&wanted)}));
		let pages = direct.1.ok().map(|mut v| {
			v.sort_by_key(|p| p.page_id);
			v
		});
		let wanted: Option<Vec<(u16, Vec<u8>)>> = (loc == Some(PayloadLocation::Paginated)).then(|| {
			self.pages.range((k.0, k.1, Some(0))..=(k.0, k.1, Some(u16::MAX))).map(|(k, c)| (k.2.unwrap(), c[0].clone())).collect()
		});
		let ok = match (&pages, &wanted) {
			(None, None) => true,
			(Some(a), Some(w)) => a.len() == w.len() && a.iter().zip(w).all(|(a, w)| a.msa_id == k.0 && a.schema_id == k.1 && a.page_id == w.0 && a.payload == w.1 && (a.content_hash == 0) == w.1.is_empty()),
			_ => false,
		};
		self.o.check(p, ok, "pages_read_back_differently", || json!({"page": dbg(&(k.0, k.1)), "read": dbg(&pages), "wanted": dbg(&wanted)}));
	}
	fn read_all(&mut self) {
		let all: Vec<(u64, u16)> = self.msas.iter().flat_map(|m| self.sids.iter().map(move |s| (*m, *s))).collect();
		for (m, s) in all {
			self.read((m, s, None));
			if self.o.bad {
				return
			}
		}
	}
	/// somebody else reads, writes first, and the first reader's write comes too late
	fn race(&mut self) {
		let items = self.o.g.chance(1, 2);
		let key = self.a_key(items);
		let owners: Vec<usize> = W.with(|w| w.borrow().msas.iter().filter(|x| *x.1 == key.0).map(|x| *x.0).collect());
		if owners.is_empty() {
			return
		}
		let Some(seen) = self.hash_of(key) else { return };
		let n = self.o.g.range(2, 5);
		let mut left = None;
		for _ in 0..n {
			let op = self.an_op(key);
			let o = Order { key, hash: seen, expires: 0, op, v1: false };
			let before = self.writes;
			self.direct(o);
			if self.o.bad {
				return
			}
			let won = self.writes > before;
			if won && left == Some(true) {
				self.o.fail("C22", "two_writers_with_one_view_succeeded", json!(dbg(&key)));
				return
			}
			if won {
				left = Some(self.hash_of(key) != Some(0));
				self.o.r.count("races_won");
			} else if left == Some(true) {
				self.o.r.count("races_lost");
			}
		}
	}
	fn outside(&mut self) {
		let g = &mut self.o.g;
		let msas = self.msas.clone();
		let sids = self.sids.clone();
		W.with(|w| {
			let mut w = w.borrow_mut();
			match g.below(5) {
				0 => {
					let k = g.usize(KEYS);
					if g.chance(1, 3) {
						w.msas.remove(&k);
					} else {
						w.msas.insert(k, *g.pick(&msas));
					}
				},
				1 | 2 => {
					let x = (*g.pick(&msas), *g.pick(&msas), *g.pick(&sids));
					if !w.grants.remove(&x) {
						w.grants.insert(x);
					}
				},
				_ => {
					w.now += *g.pick(&[1u32, 1, 2, 5, 30]);
					System::set_block_number(w.now);
				},
			}
		});
	}
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 37 + 5);
	ItemPage::set(*g.pick(&[20u32, 60, 200, 1000]));
	PagePage::set(*g.pick(&[1u32, 16, 100, 1024]));
	Blob::set(*g.pick(&[1u32, 10, 64, 300]));
	LastPage::set(*g.pick(&[0u16, 1, 16, 300, u16::MAX]));
	Actions::set(*g.pick(&[1u32, 3, 5, 20]));
	Window::set(*g.pick(&[2u32, 10, 50, 14400]));
	// numbers whose encodings resemble one another
	let pool = [1u64, 2, 3, 256, 257, 512, 65536, 65537, 58, 0x3a3a, 0x3a3a3a3a3a3a3a3a, 1 << 32, 1 << 63, u64::MAX, 0];
	let msas: Vec<u64> = (0..g.range(2, 5)).map(|_| *g.pick(&pool)).collect::<BTreeSet<_>>().into_iter().collect();
	let sids: Vec<u16> = (0..g.range(2, 6)).map(|_| *g.pick(&[1u16, 2, 3, 255, 256, 257, 513, 0x0101, 65535, 0])).collect::<BTreeSet<_>>().into_iter().collect();
	let last = LastPage::get();
	let pids: Vec<u16> = (0..g.range(1, 5)).map(|_| *g.pick(&[0u16, 1, 2, 3, 15, 16, 256, 257, last, last.saturating_add(1), last.saturating_sub(1)])).collect::<BTreeSet<_>>().into_iter().collect();
	let start = *g.pick(&[1u32, 100, 100_000]);
	W.with(|w| {
		let mut w = w.borrow_mut();
		*w = World::default();
		w.now = start;
		for k in 0..KEYS {
			if g.chance(5, 6) {
				w.msas.insert(k, *g.pick(&msas));
			}
		}
		for s in &sids {
			if g.chance(1, 12) {
				continue
			}
			let l = *g.pick(&[PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::Itemized, PayloadLocation::Paginated, PayloadLocation::OnChain, PayloadLocation::IPFS]);
			let mut st = vec![];
			if g.chance(1, 5) {
				st.push(SchemaSetting::AppendOnly);
			}
			if g.chance(1, 5) {
				st.push(SchemaSetting::SignatureRequired);
			}
			w.schemas.insert(*s, (l, st));
		}
		for _ in 0..g.below(12) {
			let x = (*g.pick(&msas), *g.pick(&msas), *g.pick(&sids));
			w.grants.insert(x);
		}
	});
	let about = json!({"item_page": ItemPage::get(), "page": PagePage::get(), "blob": Blob::get(), "last_page": last, "actions": Actions::get(), "window": Window::get(),
		"schemas": W.with(|w| dbg(&w.borrow().schemas))});
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let ops = g.range(10, if r.thorough() { 250 } else { 80 });
	let mut h = H {
		o: Mon::new(r, g, about),
		rpc: StatefulStorageHandler::new(Arc::new(Client::default())),
		pages: Default::default(),
		since_empty: Default::default(),
		ever: Default::default(),
		msas,
		sids,
		pids,
		signed: vec![],
		writes: 0,
	};
	ext.execute_with(|| {
		System::set_block_number(start);
		for _ in 0..ops {
			match h.o.g.weighted(&[16, 2, 3]) {
				0 => h.write(),
				1 => h.race(),
				_ => h.outside(),
			}
			if h.o.bad {
				return
			}
		}
		h.read_all();
	});
	let sig = (h.pages.clone(), h.o.log.len());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		let v = json!({"pages": h.pages.len(), "last_operations": last});
		h.o.r.sample(v);
	}
}
/// the same content written to one page until every counter of 16 bits has come round
fn one_page_for_ever(r: &mut Run) {
	ItemPage::set(100);
	PagePage::set(100);
	Blob::set(50);
	Actions::set(5);
	LastPage::set(10);
	W.with(|w| {
		let mut w = w.borrow_mut();
		*w = World::default();
		w.now = 1;
		w.msas.insert(0, 1);
		w.schemas.insert(1, (PayloadLocation::Paginated, vec![]));
		w.schemas.insert(2, (PayloadLocation::Itemized, vec![]));
	});
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let bad = ext.execute_with(|| {
		System::set_block_number(1);
		for items in [false, true] {
			let mut hash = 0u32;
			let mut same = 0;
			let mut all = BTreeSet::new();
			for i in 0..66_000u32 {
				let call = if items {
					let actions: Acts = if i == 0 { vec![ItemAction::Add { data: vec![1, 2, 3].try_into().unwrap() }] } else { vec![] }.try_into().unwrap();
					ss::Call::apply_item_actions { state_owner_msa_id: 1, schema_id: 2, target_hash: hash, actions }
				} else {
					ss::Call::upsert_page { state_owner_msa_id: 1, schema_id: 1, page_id: 3, target_hash: hash, payload: vec![1, 2, 3].try_into().unwrap() }
				};
				match guarded(|| dispatch(RuntimeCall::Stateful(call), RuntimeOrigin::signed(acc(0)))) {
					Ok(Ok(())) => (),
					e => return Some(("a_write_with_the_current_hash_is_refused", json!({"items": items, "write": i, "outcome": dbg(&e)}))),
				}
				System::reset_events();
				let h = if items { Stateful::get_itemized_storage(1, 2).unwrap().content_hash } else { Stateful::get_paginated_storage(1, 1).unwrap()[0].content_hash };
				if h == hash {
					same += 1;
					if same > 1 {
						return Some(("a_write_leaves_a_hash_readers_already_hold", json!({"items": items, "write": i})))
					}
				}
				hash = h;
				all.insert(h);
			}
			// 65536 hashes of 32 bits hardly ever coincide
			if all.len() < 65_000 {
				return Some(("successive_states_of_a_page_share_hashes", json!({"items": items, "distinct": all.len()})))
			}
		}
		None
	});
	r.add("writes_of_one_content", 132_000);
	if let Some((sig, v)) = bad {
		r.violation(sig, v);
	}
}
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system, child tries and signatures are stand-ins written after polkadot v1.6.0 (DESIGN.md); the pallet and its RPC are compiled unmodified from the tree");
	r.assume("deleting a page that does not exist and overwriting a page of an append-only schema may be accepted or refused; accounts, delegations and schemas are given by the environment (C05, C06, C20)");
	match r.prop.as_str() {
		"C22" => {
			r.require("races_won", 2000);
			r.require("races_lost", 2000);
			for k in ["direct_items", "direct_upsert", "direct_delete", "signed_v1_items", "signed_v2_items", "signed_v1_upsert", "signed_v2_upsert", "signed_v1_delete", "signed_v2_delete"] {
				r.require(&format!("rejected:{k}:the_hash_is_not_the_current_one"), 20);
			}
			one_page_for_ever(&mut r);
		},
		"C23" => {
			r.require("writes_accepted", 20_000);
			r.require("pages_read", 50_000);
			r.require("rejected:direct_items:there_is_no_such_item", 200);
			r.require("rejected:direct_items:the_page_would_exceed_its_size", 200);
			r.require("rejected:direct_upsert:the_page_number_is_too_high", 100);
			r.require("rejected:direct_delete:the_page_number_is_too_high", 20);
		},
		"C24" => {
			for k in ["direct_items", "direct_upsert", "direct_delete", "signed_v1_items", "signed_v2_items", "signed_v1_upsert", "signed_v2_upsert", "signed_v1_delete", "signed_v2_delete"] {
				r.require(&format!("accepted:{k}"), 200);
			}
			r.require("rejected:direct_upsert:there_is_no_grant_for_the_schema", 200);
			r.require("rejected:direct_items:the_schema_requires_a_signature", 100);
			r.require("rejected:signed_v2_items:the_schema_is_append_only", 100);
			r.require("rejected:signed_v2_upsert:the_signature_has_expired", 100);
			r.require("rejected:signed_v2_upsert:the_signature_lasts_too_long", 100);
			r.require("rejected:signed_v1_upsert:the_key_is_of_another_account", 50);
		},
		_ => {
			r.require("pages_read", 50_000);
			keys::run(&mut r);
		},
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		history(&mut r, n);
		n += 1;
		if r.prop == "C25" && n % 20 == 0 {
			keys::history(&mut r, n);
		}
	}
	r.finish("a history is distinct if the pages it leaves or its length differ from every other")
}
