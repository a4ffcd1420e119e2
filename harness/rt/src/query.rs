// C37: what the node answers when it is asked.
include!("whole.rs");
use common_primitives::{
	msa::{DelegatorId, ProviderId},
	offchain::get_msa_account_storage_key_name,
	rpc::RpcEvent,
};
use node_rpc::frequency_rpc::{FrequencyRpcApiServer, FrequencyRpcHandler};
use pallet_frequency_tx_payment_rpc::{CapacityPaymentApiServer, CapacityPaymentHandler};
use pallet_handles_rpc::{HandlesApiServer, HandlesHandler};
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use pallet_msa_rpc::{MsaApiServer, MsaHandler};
use pallet_schemas_rpc::{SchemasApiServer, SchemasHandler};
use pallet_stateful_storage_rpc::{StatefulStorageApiServer, StatefulStorageHandler};
use sc_transaction_pool_api::{InPoolTransaction, PoolStatus, ReadyTransactions, TransactionPool};
use sp_core::{offchain::testing::TestPersistentOffchainDB, offchain::OffchainStorage, H256};
use std::sync::Arc;

#[derive(Default)]
struct Client(rt::RuntimeApi);
impl sp_api::ProvideRuntimeApi<rt::Block> for Client {
	type Api = rt::RuntimeApi;
	fn runtime_api(&self) -> sp_api::ApiRef<'_, rt::RuntimeApi> {
		&self.0
	}
}
impl sp_blockchain::HeaderBackend<rt::Block> for Client {
	fn info(&self) -> sp_blockchain::Info<rt::Block> {
		let (n, h) = (rt::System::block_number(), H256::repeat_byte(0xbb));
		sp_blockchain::Info { best_hash: h, best_number: n, genesis_hash: h, finalized_hash: h, finalized_number: n }
	}
}
/// a transaction as the pool sees it
#[derive(Clone, Debug)]
struct Waiting {
	hash: u64,
	requires: Vec<Vec<u8>>,
	provides: Vec<Vec<u8>>,
	priority: u64,
	longevity: u64,
}
impl InPoolTransaction for Waiting {
	type Transaction = ();
	type Hash = u64;
	fn data(&self) -> &() {
		&()
	}
	fn hash(&self) -> &u64 {
		&self.hash
	}
	fn priority(&self) -> &u64 {
		&self.priority
	}
	fn longevity(&self) -> &u64 {
		&self.longevity
	}
	fn requires(&self) -> &[Vec<u8>] {
		&self.requires
	}
	fn provides(&self) -> &[Vec<u8>] {
		&self.provides
	}
	fn is_propagable(&self) -> bool {
		true
	}
}
/// as the pool of Substrate: what can be included now, in an order in which it can; what cannot yet
#[derive(Default, Clone, Debug)]
struct Pool {
	ready: Vec<Arc<Waiting>>,
	futures: Vec<Waiting>,
}
struct Ready(std::vec::IntoIter<Arc<Waiting>>);
impl Iterator for Ready {
	type Item = Arc<Waiting>;
	fn next(&mut self) -> Option<Arc<Waiting>> {
		self.0.next()
	}
}
impl ReadyTransactions for Ready {
	fn report_invalid(&mut self, _: &Arc<Waiting>) {}
}
impl TransactionPool for Pool {
	type Block = rt::Block;
	type Hash = u64;
	type InPoolTransaction = Waiting;
	type Error = ();
	fn ready(&self) -> Box<dyn ReadyTransactions<Item = Arc<Waiting>> + Send> {
		Box::new(Ready(self.ready.clone().into_iter()))
	}
	fn futures(&self) -> Vec<Waiting> {
		self.futures.clone()
	}
	fn status(&self) -> PoolStatus {
		PoolStatus { ready: self.ready.len(), future: self.futures.len(), ..Default::default() }
	}
	fn hash_of(&self, _: &rt::UncheckedExtrinsic) -> u64 {
		0
	}
	fn ready_transaction(&self, h: &u64) -> Option<Arc<Waiting>> {
		self.ready.iter().find(|t| t.hash == *h).cloned()
	}
}
impl Pool {
	/// brings in transactions in this order
	fn filled(incoming: Vec<Waiting>, done: &Set<Vec<u8>>) -> Pool {
		let mut p = Pool::default();
		let mut have = done.clone();
		for t in incoming {
			if p.ready.iter().any(|r| r.provides == t.provides) {
				continue
			}
			p.futures.push(t);
			loop {
				let Some(i) = p.futures.iter().position(|t| t.requires.iter().all(|r| have.contains(r))) else { break };
				let t = p.futures.remove(i);
				if p.ready.iter().all(|r| r.provides != t.provides) {
					have.extend(t.provides.iter().cloned());
					p.ready.push(Arc::new(t));
				}
			}
		}
		p
	}
}
const MODEL: &str = "{\"name\":\"n\",\"type\":\"record\",\"fields\":[]}";
type Nonce = u32;
impl World<'_> {
	fn nonces(&mut self, client: &Arc<Client>) {
		let who: Vec<Key> = (0..3).map(|_| self.someone()).collect();
		let mut incoming = vec![];
		let mut done = Set::new();
		let far = self.o.g.chance(1, 30);
		for k in &who {
			let now = rt::System::account_nonce(k);
			// the pool may not have caught up with the state
			let behind = if self.o.g.chance(1, 4) { now.min(self.o.g.below(3) as u32) } else { 0 };
			let from = now - behind;
			if from > 0 {
				done.insert((k.clone(), from - 1).encode());
			}
			let n = self.o.g.usize(8);
			for _ in 0..n {
				let nonce = from + self.o.g.below(if far { 2000 } else { 9 }) as u32;
				let requires = if nonce > from { vec![(k.clone(), nonce - 1).encode()] } else { vec![] };
				incoming.push(Waiting { hash: self.o.g.u64(), requires, provides: vec![(k.clone(), nonce).encode()], priority: self.o.g.below(9), longevity: 64 });
			}
		}
		// others, with tags of their own
		for _ in 0..self.o.g.usize(3) {
			let n = self.o.g.usize(40);
			let tag = self.o.g.bytes(n);
			let requires = if self.o.g.chance(1, 2) { vec![vec![1]] } else { vec![] };
			incoming.push(Waiting { hash: self.o.g.u64(), requires, provides: if self.o.g.chance(1, 4) { vec![] } else { vec![tag] }, priority: 0, longevity: 64 });
		}
		self.o.g.shuffle(&mut incoming);
		let pool = Pool::filled(incoming, &done);
		for k in &who {
			let nonce = rt::System::account_nonce(k);
			let of = |t: &[Vec<u8>]| {
				let e = k.encode();
				t.first().filter(|t| t.len() == e.len() + 4 && t.starts_with(&e)).and_then(|t| u32::decode(&mut &t[e.len()..]).ok())
			};
			let ready: Set<u32> = pool.ready.iter().filter_map(|t| of(&t.provides)).collect();
			let future: Set<u32> = pool.futures.iter().filter_map(|t| of(&t.provides)).collect();
			let repeated = pool.futures.iter().filter_map(|t| of(&t.provides)).count() > future.len();
			let mut next = nonce;
			while ready.contains(&next) {
				next += 1;
			}
			let want: Vec<u32> = match future.iter().max() {
				Some(last) => (next..*last).filter(|n| !future.contains(n)).take(1000).collect(),
				None => vec![],
			};
			let h = FrequencyRpcHandler::<Pool, Client, rt::Block>::new(client.clone(), Arc::new(pool.clone()));
			let got = guarded(|| FrequencyRpcApiServer::<rt::Block, AccountId, Nonce>::get_missing_nonce_values(&h, k.clone()));
			self.o.r.count(&format!("nonces:{}", if future.is_empty() { "nothing_waits" } else if repeated { "one_twice" } else if want.len() == 1000 { "very_many_missing" } else { "some_wait" }));
			let shown = json!({"nonce": nonce, "ready": dbg(&ready), "waiting": dbg(&pool.futures.iter().filter_map(|t| of(&t.provides)).collect::<Vec<_>>()), "expected": dbg(&want), "got": dbg(&got)});
			self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == want), "the_missing_nonces_are_wrong", || shown);
		}
	}
	fn delegations(&mut self, client: &Arc<Client>, v: &View) {
		let h = MsaHandler::<Client, rt::Block, TestPersistentOffchainDB>::new(client.clone(), None);
		type Ask<'a> = dyn MsaApiServer<H256, AccountId> + 'a;
		let h: &Ask = &h;
		let mut pairs: Vec<(u64, u64)> = v.grants.keys().copied().collect();
		pairs.push((self.any_msa(), self.any_msa()));
		let (d, p) = *self.o.g.pick(&pairs);
		let grant = v.grants.get(&(d, p));
		// who may what, and since when not
		let n = self.o.g.usize(6);
		let list: Vec<u64> = (0..n).map(|_| if self.o.g.chance(1, 3) { d } else { self.any_msa() }).collect();
		let schema = if self.o.g.chance(2, 3) { Some(self.o.g.below(SCHEMAS as u64 + 2) as u16) } else { None };
		let mut blocks = vec![0, 1, self.now, self.now + 1, self.now.saturating_sub(1)];
		if let Some((at, s)) = grant {
			blocks.extend(s.values().chain([at]).flat_map(|b| [*b, b + 1, b.saturating_sub(1)]));
		}
		let block = *self.o.g.pick(&blocks);
		let now = self.now;
		let may = |d: u64| match v.grants.get(&(d, p)) {
			Some((at, s)) =>
				block <= now && (*at == 0 || block <= *at) &&
					match schema {
						None => true,
						Some(x) => s.get(&x).is_some_and(|r| *r == 0 || block <= *r),
					},
			None => false,
		};
		let want: Vec<(u64, bool)> = list.iter().map(|d| (*d, may(*d))).collect();
		let got = guarded(|| h.check_delegations(list.iter().map(|d| DelegatorId(*d)).collect(), ProviderId(p), block, schema).map(|v| v.into_iter().map(|(d, b)| (d.0, b)).collect::<Vec<_>>()));
		for (_, b) in &want {
			self.o.r.count(&format!("delegation:{b}"));
		}
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == want), "the_delegations_are_wrong", || {
			json!({"provider": p, "asked": dbg(&list), "block": block, "now": now, "schema": schema, "granted": dbg(&list.iter().map(|d| v.grants.get(&(*d, p))).collect::<Vec<_>>()), "expected": dbg(&want), "got": dbg(&got)})
		});
		// what is granted
		let effective = |x: &(u32, Map<u16, u32>)| x.1.iter().map(|(s, r)| (*s, if x.0 > 0 && (*r == 0 || *r > x.0) { x.0 } else { *r })).collect::<Map<u16, u32>>();
		let want = grant.filter(|x| !x.1.is_empty()).map(effective);
		let got = guarded(|| h.get_granted_schemas_by_msa_id(DelegatorId(d), ProviderId(p)).map(|o| o.map(|l| l.into_iter().map(|g| (g.schema_id, g.revoked_at)).collect::<Vec<_>>())));
		let same = match (&want, &got) {
			(None, Ok(Ok(None))) => true,
			(Some(w), Ok(Ok(Some(g)))) => g.len() == w.len() && g.iter().all(|(s, r)| w.get(s) == Some(r)),
			_ => false,
		};
		self.o.r.count(&format!("granted:{}", want.is_some()));
		self.o.check("C37", same, "the_granted_schemas_are_wrong", || json!({"delegator": d, "provider": p, "expected": dbg(&want), "got": dbg(&got)}));
		let want: Map<u64, Map<u16, u32>> = v.grants.iter().filter(|((x, _), _)| *x == d).map(|((_, p), x)| (*p, effective(x))).collect();
		let got = guarded(|| h.get_all_granted_delegations_by_msa_id(DelegatorId(d)).map(|l| l.into_iter().map(|r| (r.provider_id.0, r.permissions.into_iter().map(|g| (g.schema_id, g.revoked_at)).collect::<Vec<_>>())).collect::<Vec<_>>()));
		let same = matches!(&got, Ok(Ok(g)) if g.len() == want.len() && g.iter().all(|(p, l)| want.get(p).is_some_and(|w| l.len() == w.len() && l.iter().all(|(s, r)| w.get(s) == Some(r)))));
		self.o.r.count(&format!("granted_by_all:{}", want.len().min(2)));
		self.o.check("C37", same, "the_delegations_of_an_msa_are_wrong", || json!({"delegator": d, "expected": dbg(&want), "got": dbg(&got)}));
	}
	fn index(&mut self, client: &Arc<Client>, v: &View) {
		let m = self.any_msa();
		let mut keys: Vec<Key> = v.keys.iter().filter(|(_, x)| **x == m).map(|(k, _)| k.clone()).collect();
		self.o.g.shuffle(&mut keys);
		let mut db = TestPersistentOffchainDB::new();
		let other = self.any_msa();
		if other != m {
			db.set(sp_offchain::STORAGE_PREFIX, &get_msa_account_storage_key_name(other), &vec![acc(0)].encode());
		}
		let state = self.o.g.below(4);
		let bytes = match state {
			0 => None,
			1 => Some(vec![0xff; 5]),
			_ => Some(keys.encode()),
		};
		if let Some(b) = &bytes {
			db.set(sp_offchain::STORAGE_PREFIX, &get_msa_account_storage_key_name(m), b);
		}
		let off = self.o.g.chance(1, 8);
		let h = MsaHandler::<Client, rt::Block, TestPersistentOffchainDB>::new(client.clone(), if off { None } else { Some(db) });
		let h: &dyn MsaApiServer<H256, AccountId> = &h;
		let got = guarded(|| h.get_keys_by_msa_id(m).map(|r| r.map(|r| (r.msa_id, r.msa_keys))));
		let same = match (&got, state) {
			(Ok(Err(_)), _) if off => true,
			(Ok(Ok(None)), 0) => !off,
			(Ok(Err(_)), 1) => true,
			(Ok(Ok(Some((id, k)))), 2..) => !off && *id == m && *k == keys,
			_ => false,
		};
		self.o.r.count(if off { "keys:no_index" } else { ["keys:none", "keys:damaged", "keys:found", "keys:found"][state as usize] });
		self.o.check("C37", same, "the_keys_of_an_msa_are_wrong", || json!({"msa": m, "indexed": dbg(&keys), "state": state, "index": !off, "got": dbg(&got)}));
	}
	fn handles(&mut self, client: &Arc<Client>, v: &View) {
		let h = HandlesHandler::<Client, rt::Block>::new(client.clone());
		let h: &dyn HandlesApiServer<H256> = &h;
		let m = self.any_msa();
		let have = v.handles.get(&m).map(|h| String::from_utf8_lossy(&h.0).to_string());
		let got = guarded(|| h.get_handle_for_msa(m).map(|r| r.map(|r| (format!("{}.{}", String::from_utf8_lossy(&r.base_handle), r.suffix), r.canonical_base))));
		let same = match (&have, &got) {
			(None, Ok(Ok(None))) => true,
			(Some(w), Ok(Ok(Some((g, c))))) => {
				let base = w.rsplit_once('.').map_or("", |x| x.0);
				g == w && *c == handles_utils::converter::convert_to_canonical(base).into_bytes()
			},
			_ => false,
		};
		self.o.r.count(&format!("handle:{}", have.is_some()));
		self.o.check("C37", same, "the_handle_of_an_msa_is_wrong", || json!({"msa": m, "handle": have, "got": dbg(&got)}));
		// and back, also in another spelling
		let text = match (&have, self.o.g.below(6)) {
			(Some(x), 0..=2) => x.clone(),
			(Some(x), 3) => x.to_uppercase().replace('L', "l"),
			(Some(x), 4) => format!("{x}0"),
			_ => ["", ".", "alice", "alice.", ".5", "alice.99999", "alice.-1", "a.b.c", "\u{202e}.1"][self.o.g.usize(9)].to_string(),
		};
		// the same to the eye
		let seen = |x: &str| x.rsplit_once('.').map(|(b, s)| (handles_utils::converter::convert_to_canonical(b), s.to_string()));
		let want = v.handles.iter().find(|(_, h)| seen(&String::from_utf8_lossy(&h.0)) == seen(&text)).map(|x| *x.0);
		let got = guarded(|| h.get_msa_for_handle(text.clone()));
		self.o.r.count(&format!("msa_of_handle:{}", want.is_some()));
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == want), "the_msa_of_a_handle_is_wrong", || json!({"handle": text, "expected": want, "got": dbg(&got)}));
		// what would be given next
		let base = ["alice", "bobby", "carol", "ALICE"][self.o.g.usize(4)];
		let count = [None, Some(0), Some(1), Some(3), Some(100), Some(101), Some(u16::MAX)][self.o.g.usize(7)];
		let got = guarded(|| h.get_next_suffixes(base.to_string(), count).map(|r| (r.base_handle.clone(), r.suffixes)));
		// two digits, of which some may be gone
		let canonical = handles_utils::converter::convert_to_canonical(base);
		let gone = pallet_handles::CanonicalBaseHandleToSuffixIndex::<Runtime>::get(frame_support::BoundedVec::try_from(canonical.into_bytes()).unwrap()).map_or(0, |x| x.0 as usize + 1);
		let n = (count.unwrap_or(1).min(100) as usize).min(90 - gone);
		let sound = matches!(&got, Ok(Ok((b, s))) if b == base.as_bytes() && s.len() == n && s.iter().collect::<Set<_>>().len() == n);
		self.o.check("C37", sound, "the_next_suffixes_are_wrong", || json!({"handle": base, "count": count, "got": dbg(&got)}));
		if let Ok(Ok((_, s))) = &got {
			let k = self.someone();
			if v.keys.get(&k).is_some_and(|m| !v.handles.contains_key(m)) && !s.is_empty() {
				let m = v.keys[&k];
				let payload = ClaimHandlePayload::<u32>::new(base.as_bytes().to_vec(), self.now + 20);
				let proof = MultiSignature::Sr25519(pair((0..PEOPLE).find(|i| acc(*i) == k).unwrap_or(0)).sign(&wrap_binary_data(payload.encode())));
				let c: RuntimeCall = Handle::claim_handle { msa_owner_key: k.clone(), proof, payload }.into();
				let given = tentatively(|| {
					let r = dispatch(c, RuntimeOrigin::signed(k));
					r.ok().and_then(|_| rt::Handles::get_handle_for_msa(m)).map(|h| h.suffix)
				});
				if let Some(g) = given {
					self.o.r.count("suffix_compared");
					self.o.check("C37", g == s[0], "a_suffix_other_than_the_next_is_given", || json!({"handle": base, "next": dbg(s), "given": g}));
				}
			}
		}
		let long = "x".repeat(33);
		let all = [("alice", true), ("ab", false), ("admin", false), ("has.dot", false), ("ok name", true), (" lead", true), ("two  spaces", true), ("\u{1f600}abc", false), (long.as_str(), false), ("Ævar", true), ("@nope", false)];
		let (name, want) = all[self.o.g.usize(all.len())];
		let got = guarded(|| h.validate_handle(name.to_string()));
		let direct = rt::Handles::validate_handle(name.as_bytes().to_vec());
		let _ = want;
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == direct), "the_validity_of_a_handle_is_wrong", || json!({"handle": name, "expected": direct, "got": dbg(&got)}));
	}
	fn contents(&mut self, client: &Arc<Client>, v: &View) {
		let h = StatefulStorageHandler::<Client, rt::Block>::new(client.clone());
		let h: &dyn StatefulStorageApiServer<H256> = &h;
		let (m, s) = (self.any_msa(), 3 + self.o.g.below(4) as u16);
		let (got, direct) = if s % 2 == 1 {
			(guarded(|| h.get_itemized_storage(m, s).ok().map(|x| format!("Ok({x:?})"))), rt::StatefulStorage::get_itemized_storage(m, s).ok().map(|_| v.owned.get(&(m, s)).cloned().unwrap_or_else(|| format!("{:?}", rt::StatefulStorage::get_itemized_storage(m, s)))))
		} else {
			(
				guarded(|| {
					h.get_paginated_storage(m, s).ok().map(|mut x| {
						x.sort_by_key(|p| p.page_id);
						format!("Ok({x:?})")
					})
				}),
				rt::StatefulStorage::get_paginated_storage(m, s).ok().map(|_| v.owned.get(&(m, s)).cloned().unwrap_or_else(|| "Ok([])".into())),
			)
		};
		self.o.r.count(&format!("contents:{}", direct.is_some()));
		self.o.check("C37", matches!(&got, Ok(g) if *g == direct), "the_stored_contents_are_wrong", || json!({"msa": m, "schema": s, "expected": direct, "got": dbg(&got)}));
		// what is kept elsewhere, or in no such schema
		let s = self.o.g.below(SCHEMAS as u64 + 2) as u16;
		let itemized = self.o.g.chance(1, 2);
		let right = s != 0 && s <= SCHEMAS && (s == if itemized { 3 } else { 4 } || s == if itemized { 5 } else { 6 });
		let got = guarded(|| if itemized { h.get_itemized_storage(m, s).map(|_| ()) } else { h.get_paginated_storage(m, s).map(|_| ()) });
		self.o.r.count(&format!("readable:{right}"));
		self.o.check("C37", matches!(&got, Ok(g) if g.is_ok() == right || s > SCHEMAS), "contents_are_given_for_the_wrong_schema", || json!({"msa": m, "schema": s, "itemized": itemized, "got": dbg(&got)}));
		// schemas
		let h = SchemasHandler::<Client, rt::Block>::new(client.clone());
		let h: &dyn SchemasApiServer<H256> = &h;
		let s = self.o.g.below(SCHEMAS as u64 + 3) as u16;
		let got = guarded(|| h.get_by_schema_id(s).map(|r| r.map(|r| (r.schema_id, r.payload_location, s > SCHEMAS || r.model == MODEL.as_bytes() && (r.settings == vec![SignatureRequired]) == (s > 4)))));
		let want = if s == 0 || s > v.schemas { None } else { Some((s, if s > SCHEMAS { OnChain } else { [OnChain, OnChain, IPFS, Itemized, Paginated, Itemized, Paginated][s as usize] }, true)) };
		self.o.r.count(&format!("schema:{}", want.is_some()));
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == want), "a_schema_is_wrong", || json!({"schema": s, "got": dbg(&got)}));
		let name = ["test.one", "TEST.one", "test.two", "test.none", "test", "", "1.2", "a.b.c"][self.o.g.usize(8)];
		let got = guarded(|| h.get_versions(name.to_string()).map(|r| r.map(|l| l.into_iter().map(|v| (String::from_utf8_lossy(&v.schema_name).to_string(), v.schema_version as u16, v.schema_id)).collect::<Set<_>>())));
		let want: Option<Set<(String, u16, u16)>> = match name.to_lowercase().as_str() {
			"test.one" => Some([2u16, 5].iter().enumerate().map(|(i, s)| ("test.one".to_string(), i as u16 + 1, *s)).collect()),
			"test.two" => Some([("test.two".to_string(), 1, 1)].into()),
			// every name below it
			"test" => Some([("test.one".to_string(), 1, 2), ("test.one".to_string(), 2, 5), ("test.two".to_string(), 1, 1)].into()),
			_ => None,
		};
		self.o.r.count(&format!("versions:{}", want.is_some()));
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if g.clone().unwrap_or_default() == want.clone().unwrap_or_default()), "the_versions_of_a_schema_are_wrong", || json!({"name": name, "expected": dbg(&want), "got": dbg(&got)}));
		let (model, want) = [(MODEL, true), ("{}", false), ("", false), ("\"string\"", true), ("{\"type\":\"int\"}", true), ("{\"type\":\"nothing\"}", false), ("\u{0}", false)][self.o.g.usize(7)];
		let got = guarded(|| h.check_schema_validity(model.as_bytes().to_vec(), None));
		self.o.check("C37", matches!(&got, Ok(Ok(true)) if want) || matches!(&got, Ok(Err(_)) if !want), "the_validity_of_a_schema_is_wrong", || json!({"model": model, "expected": want, "got": dbg(&got)}));
		// messages of this block
		let h = MessagesHandler::<Client, rt::Block>::new(client.clone());
		let h: &dyn MessagesApiServer = &h;
		let s = 1 + self.o.g.below(2) as u16;
		let page = common_primitives::messages::BlockPaginationRequest { from_block: self.now, from_index: 0, to_block: self.now + 1, page_size: 1000 };
		let got = guarded(|| h.get_messages_by_schema_id(s, page).map(|r| (r.has_next, r.content.into_iter().map(|m| (s, m.provider_msa_id, m.msa_id.unwrap_or(m.provider_msa_id), m.index, format!("{:?} {:?}", m.payload, m.cid))).collect::<Vec<_>>())));
		let want: Vec<_> = v.messages.iter().filter(|m| m.0 == s).cloned().collect();
		self.o.r.count(&format!("messages:{}", want.len().min(3)));
		self.o.check("C37", matches!(&got, Ok(Ok((false, g))) if *g == want), "the_messages_of_a_block_are_wrong", || json!({"schema": s, "expected": dbg(&want), "got": dbg(&got)}));
	}
	fn events(&mut self, client: &Arc<Client>) {
		let h = FrequencyRpcHandler::<Pool, Client, rt::Block>::new(client.clone(), Arc::new(Pool::default()));
		let got = guarded(|| FrequencyRpcApiServer::<rt::Block, AccountId, Nonce>::get_events(&h, H256::zero()));
		let want: Vec<RpcEvent> = rt::System::events()
			.into_iter()
			.map(|e| {
				let b = e.event.encode();
				let phase = match e.phase {
					frame_system::Phase::ApplyExtrinsic(i) => Some(i),
					_ => None,
				};
				RpcEvent { phase, pallet: b[0], event: b[1], data: b[2..].to_vec() }
			})
			.collect();
		self.o.r.count(&format!("events:{}", want.len().min(4)));
		self.o.check("C37", matches!(&got, Ok(Ok(g)) if *g == want), "the_events_of_a_block_are_wrong", || json!({"expected": dbg(&want), "got": dbg(&got)}));
	}
	/// the fee that is announced, and what is then taken
	fn fees(&mut self, client: &Arc<Client>) {
		let h = CapacityPaymentHandler::<Client, rt::Block>::new(client.clone());
		let ask = |b: Vec<u8>| guarded(|| CapacityPaymentApiServer::<H256, u128>::compute_capacity_fee_details(&h, sp_core::Bytes(b), None));
		let n = self.o.g.usize(60);
		let junk = self.o.g.bytes(n);
		if let Err(p) = ask(junk.clone()) {
			self.o.fail("C37", &format!("panic_{}", panic_sig(&p)), json!({"bytes": dbg(&junk)}));
		}
		let (a, call) = self.operation();
		let Some(k) = (0..PEOPLE).find(|i| acc(*i) == a) else { return };
		use pallet_frequency_tx_payment::GetStableWeight;
		let eligible = rt::CapacityEligibleCalls::get_stable_weight(&call).is_some();
		let call: RuntimeCall = match self.o.g.below(3) {
			0 => {
				let mut calls = vec![call];
				for _ in 0..self.o.g.usize(3) {
					let (_, c) = self.operation();
					calls.push(c);
				}
				Paid::pay_with_capacity_batch_all { calls: calls.try_into().unwrap() }.into()
			},
			_ => Paid::pay_with_capacity { call: Box::new(call) }.into(),
		};
		let xt = self.extrinsic(k, call.clone(), rt::System::account_nonce(&a), false, 0);
		let got = ask(xt.encode());
		let number = |x: &sp_rpc::number::NumberOrHex| x.value();
		let Ok(Ok(d)) = &got else {
			self.o.fail("C37", "a_fee_cannot_be_computed", json!({"call": dbg(&call), "got": format!("{:?}", got.map(|r| r.map(|_| ())))}));
			return
		};
		let fee = d.inclusion_fee.as_ref().map(|f| number(&f.base_fee) + number(&f.len_fee) + number(&f.adjusted_weight_fee));
		self.o.r.count(if eligible { "fee:eligible" } else { "fee:not_eligible" });
		let m = pallet_msa::PublicKeyToMsaId::<Runtime>::get(&a);
		let before = view().capacity;
		let taken = tentatively(|| {
			let r = guarded(|| Executive::apply_extrinsic(xt));
			let after = view().capacity;
			match r {
				Ok(Ok(_)) => m.map(|m| before.get(&m).copied().unwrap_or(0) - after.get(&m).copied().unwrap_or(0)),
				_ => None,
			}
		});
		if let Some(t) = taken {
			self.o.r.count("fee_compared");
			self.o.check("C37", fee.is_some_and(|f| f >= t && t > 0), "more_capacity_is_taken_than_announced", || json!({"call": dbg(&call), "announced": fee.map(|x| x.to_string()), "taken": t.to_string()}));
		}
	}
}
pub fn ask(r: &mut Run, n: u64) {
	let g = r.rng(0x3700 + n);
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	o.prop = "C37".into();
	let (mut w, s) = world(o);
	let client = Arc::new(Client::default());
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		w.setting();
		for (s, name) in [(2u16, "test.one"), (1, "test.two"), (5, "test.one")] {
			let r = dispatch::<RuntimeCall>(pallet_schemas::Call::create_schema_name_via_governance { schema_id: s, schema_name: name.as_bytes().to_vec().try_into().unwrap() }.into(), RuntimeOrigin::root());
			w.must(r);
		}
		for _ in 0..150 {
			if w.o.bad {
				break
			}
			if w.o.g.chance(1, 8) {
				w.now += 1 + w.o.g.below(3) as u32;
				rt::System::reset_events();
				Executive::initialize_at(w.now);
			}
			for _ in 0..3 {
				let (actor, call) = w.operation();
				if matches!(call, C::System(..)) {
					continue
				}
				rt::System::set_extrinsic_index(w.o.g.below(100) as u32);
				let what = format!("{call:?}");
				let _ = w.o.attempt("C37", what, || dispatch(call, RuntimeOrigin::signed(actor)).map_err(names));
			}
			let v = view();
			let before = state();
			w.delegations(&client, &v);
			w.handles(&client, &v);
			w.index(&client, &v);
			w.contents(&client, &v);
			w.events(&client);
			w.nonces(&client);
			w.o.check("C37", before == state(), "asking_changed_the_state", || json!(null));
			w.fees(&client);
			let k = format!("{v:?}");
			w.o.r.case(&(NETWORK, k.as_str()));
		}
	});
}
include!("json.rs");
