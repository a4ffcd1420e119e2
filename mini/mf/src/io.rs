//! sp-io: the state a runtime sees, with transactional layers, child tries, the off-chain overlay
//! and database, all in thread-local memory.
use crate::core_::offchain::testing::{Lock, OffchainState, TestPersistentOffchainDB};
use crate::core_::storage::Storage;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
enum Undo {
	Top(Vec<u8>, Option<Vec<u8>>),
	Child(Vec<u8>, Vec<u8>, Option<Vec<u8>>),
	Off(Vec<u8>, Option<Option<Vec<u8>>>),
}
#[derive(Default)]
pub struct Ext {
	top: Map,
	children: BTreeMap<Vec<u8>, Map>,
	layers: Vec<Vec<Undo>>,
	overlay: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
	offchain: Option<Arc<Lock<OffchainState>>>,
	db: Option<Arc<Lock<OffchainState>>>,
	/// reads and writes of storage so far
	pub reads: u64,
	pub writes: u64,
}
/// not in sp-io: the distinct keys touched while recording, child keys behind the name of their trie
#[derive(Default, Clone, Debug)]
pub struct Touched {
	/// read before it was written, with the bytes that were there
	pub read: BTreeMap<Vec<u8>, usize>,
	pub written: std::collections::BTreeSet<Vec<u8>>,
}
thread_local! { static TOUCHED: RefCell<Option<Touched>> = const { RefCell::new(None) }; }
/// not in sp-io: records what `f` touches
pub fn touching<R>(f: impl FnOnce() -> R) -> (R, Touched) {
	let outer = TOUCHED.with(|t| t.borrow_mut().replace(Touched::default()));
	let r = f();
	let seen = TOUCHED.with(|t| std::mem::replace(&mut *t.borrow_mut(), outer));
	(r, seen.unwrap_or_default())
}
fn touch(c: &[u8], k: &[u8], write: bool, size: usize) {
	TOUCHED.with(|t| {
		if let Some(t) = t.borrow_mut().as_mut() {
			let key = [c, k].concat();
			if write {
				t.written.insert(key);
			} else if !t.written.contains(&key) {
				t.read.entry(key).or_insert(size);
			}
		}
	})
}
thread_local! { static CURRENT: RefCell<Vec<Ext>> = const { RefCell::new(Vec::new()) }; }

fn with<R>(f: impl FnOnce(&mut Ext) -> R) -> R {
	CURRENT.with(|c| f(c.borrow_mut().last_mut().expect("called outside of an Externalities-provided environment")))
}

impl Ext {
	fn put(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		touch(b"", k, true, 0);
		let old = match v {
			Some(v) => self.top.insert(k.to_vec(), v),
			None => self.top.remove(k),
		};
		if let Some(l) = self.layers.last_mut() {
			l.push(Undo::Top(k.to_vec(), old))
		}
	}
	fn put_child(&mut self, c: &[u8], k: &[u8], v: Option<Vec<u8>>) {
		self.writes += 1;
		touch(c, k, true, 0);
		let m = self.children.entry(c.to_vec()).or_default();
		let old = match v {
			Some(v) => m.insert(k.to_vec(), v),
			None => m.remove(k),
		};
		if m.is_empty() {
			self.children.remove(c);
		}
		if let Some(l) = self.layers.last_mut() {
			l.push(Undo::Child(c.to_vec(), k.to_vec(), old))
		}
	}
	fn put_off(&mut self, k: &[u8], v: Option<Vec<u8>>) {
		let old = self.overlay.insert(k.to_vec(), v);
		if let Some(l) = self.layers.last_mut() {
			l.push(Undo::Off(k.to_vec(), old))
		}
	}
	fn rollback(&mut self) {
		for u in self.layers.pop().expect("no open transaction").into_iter().rev() {
			match u {
				Undo::Top(k, Some(v)) => drop(self.top.insert(k, v)),
				Undo::Top(k, None) => drop(self.top.remove(&k)),
				Undo::Child(c, k, Some(v)) => drop(self.children.entry(c).or_default().insert(k, v)),
				Undo::Child(c, k, None) => {
					let m = self.children.entry(c.clone()).or_default();
					m.remove(&k);
					if m.is_empty() {
						self.children.remove(&c);
					}
				},
				Undo::Off(k, Some(v)) => drop(self.overlay.insert(k, v)),
				Undo::Off(k, None) => drop(self.overlay.remove(&k)),
			}
		}
	}
	fn commit(&mut self) {
		let l = self.layers.pop().expect("no open transaction");
		if let Some(p) = self.layers.last_mut() {
			p.extend(l)
		}
	}
}

pub trait Extension {
	fn register(self, ext: &mut Ext);
}
impl Extension for crate::core_::offchain::OffchainDbExt {
	fn register(self, ext: &mut Ext) {
		ext.db = Some(self.0)
	}
}
impl Extension for crate::core_::offchain::OffchainWorkerExt {
	fn register(self, ext: &mut Ext) {
		ext.offchain = Some(self.0)
	}
}

pub struct TestExternalities {
	ext: Ext,
	db: TestPersistentOffchainDB,
}
impl Default for TestExternalities {
	fn default() -> Self {
		Self::new(Storage::default())
	}
}
impl From<Storage> for TestExternalities {
	fn from(s: Storage) -> Self {
		Self::new(s)
	}
}
impl TestExternalities {
	pub fn new(s: Storage) -> Self {
		TestExternalities { ext: Ext { top: s.top, children: s.children_default, ..Default::default() }, db: Default::default() }
	}
	pub fn new_empty() -> Self {
		Self::default()
	}
	pub fn execute_with<R>(&mut self, f: impl FnOnce() -> R) -> R {
		struct Guard<'a>(&'a mut Ext);
		impl Drop for Guard<'_> {
			fn drop(&mut self) {
				let mut e = CURRENT.with(|c| c.borrow_mut().pop()).unwrap();
				while !e.layers.is_empty() {
					e.rollback(); // only after a panic
				}
				*self.0 = e;
			}
		}
		let e = std::mem::take(&mut self.ext);
		CURRENT.with(|c| c.borrow_mut().push(e));
		let _g = Guard(&mut self.ext);
		f()
	}
	pub fn register_extension<E: Extension>(&mut self, e: E) {
		e.register(&mut self.ext)
	}
	pub fn offchain_db(&self) -> TestPersistentOffchainDB {
		self.db.clone()
	}
	/// moves what the runtime indexed into the off-chain database, as importing a block does
	pub fn persist_offchain_overlay(&mut self) {
		use crate::core_::offchain::OffchainStorage;
		for (k, v) in std::mem::take(&mut self.ext.overlay) {
			match v {
				Some(v) => self.db.set(b"", &k, &v),
				None => self.db.remove(b"", &k),
			}
		}
	}
	pub fn commit_all(&mut self) -> Result<(), String> {
		Ok(())
	}
	/// not in sp-io: a copy of the whole state
	pub fn snapshot(&self) -> Storage {
		Storage { top: self.ext.top.clone(), children_default: self.ext.children.clone() }
	}
	/// not in sp-io: an independent copy, sharing the off-chain extensions
	pub fn fork(&self) -> TestExternalities {
		TestExternalities {
			ext: Ext {
				top: self.ext.top.clone(),
				children: self.ext.children.clone(),
				offchain: self.ext.offchain.clone(),
				db: self.ext.db.clone(),
				..Default::default()
			},
			db: self.db.clone(),
		}
	}
}

/// not in sp-io: a copy of the state from inside `execute_with`
pub fn state_snapshot() -> Storage {
	with(|e| Storage { top: e.top.clone(), children_default: e.children.clone() })
}
/// not in sp-io: number of storage writes so far
pub fn write_count() -> u64 {
	with(|e| e.writes)
}

pub enum KillStorageResult {
	AllRemoved(u32),
	SomeRemaining(u32),
}
impl From<MultiRemovalResults> for KillStorageResult {
	fn from(r: MultiRemovalResults) -> Self {
		match r.maybe_cursor {
			None => KillStorageResult::AllRemoved(r.loops),
			Some(_) => KillStorageResult::SomeRemaining(r.loops),
		}
	}
}
#[derive(Debug, Clone)]
pub struct MultiRemovalResults {
	pub maybe_cursor: Option<Vec<u8>>,
	pub backend: u32,
	pub unique: u32,
	pub loops: u32,
}
fn under<'a>(m: &'a Map, p: &'a [u8]) -> impl Iterator<Item = &'a Vec<u8>> {
	m.range(p.to_vec()..).map(|x| x.0).take_while(move |k| k.starts_with(p))
}
fn next(m: &Map, k: &[u8]) -> Option<Vec<u8>> {
	m.range::<[u8], _>((std::ops::Bound::Excluded(k), std::ops::Bound::Unbounded)).next().map(|x| x.0.clone())
}
fn removal(keys: &[Vec<u8>], limit: Option<u32>) -> (usize, Option<Vec<u8>>) {
	let n = keys.len().min(limit.map_or(usize::MAX, |l| l as usize));
	(n, keys.get(n).cloned())
}
pub mod storage {
	use super::*;
	pub fn get(k: &[u8]) -> Option<Vec<u8>> {
		with(|e| {
			e.reads += 1;
			let v = e.top.get(k).cloned();
			touch(b"", k, false, v.as_ref().map_or(0, |v| v.len()));
			v
		})
	}
	pub fn set(k: &[u8], v: &[u8]) {
		with(|e| e.put(k, Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		with(|e| e.put(k, None))
	}
	pub fn exists(k: &[u8]) -> bool {
		with(|e| {
			touch(b"", k, false, e.top.get(k).map_or(0, |v| v.len()));
			e.top.contains_key(k)
		})
	}
	pub fn append(k: &[u8], v: Vec<u8>) {
		// like the host function: a raw item is appended to a SCALE vector
		use parity_scale_codec::{Compact, Decode, Encode};
		let old = get(k).unwrap_or_default();
		let mut input = &old[..];
		let (n, rest) = match Compact::<u32>::decode(&mut input) {
			Ok(Compact(n)) => (n, input.to_vec()),
			Err(_) => (0, vec![]),
		};
		set(k, &[Compact(n + 1).encode(), rest, v].concat())
	}
	pub fn next_key(k: &[u8]) -> Option<Vec<u8>> {
		with(|e| {
			let n = next(&e.top, k);
			touch(b"", n.as_deref().unwrap_or(k), false, 0);
			n
		})
	}
	pub fn clear_prefix(p: &[u8], limit: Option<u32>) -> MultiRemovalResults {
		let keys = with(|e| under(&e.top, p).cloned().collect::<Vec<_>>());
		let (n, cursor) = removal(&keys, limit);
		keys[..n].iter().for_each(|k| clear(k));
		MultiRemovalResults { maybe_cursor: cursor, backend: n as u32, unique: n as u32, loops: n as u32 }
	}
	pub fn root(_: crate::core_::storage::StateVersion) -> Vec<u8> {
		use parity_scale_codec::Encode;
		with(|e| crate::hashing::blake2_256(&(&e.top, &e.children).encode()).to_vec())
	}
	pub fn start_transaction() {
		with(|e| e.layers.push(vec![]))
	}
	pub fn rollback_transaction() {
		with(|e| e.rollback())
	}
	pub fn commit_transaction() {
		with(|e| e.commit())
	}
	pub fn transaction_depth() -> usize {
		with(|e| e.layers.len())
	}
}
pub mod default_child_storage {
	use super::*;
	pub fn get(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		with(|e| {
			let v = e.children.get(c).and_then(|m| m.get(k)).cloned();
			touch(c, k, false, v.as_ref().map_or(0, |v| v.len()));
			v
		})
	}
	pub fn set(c: &[u8], k: &[u8], v: &[u8]) {
		with(|e| e.put_child(c, k, Some(v.to_vec())))
	}
	pub fn clear(c: &[u8], k: &[u8]) {
		with(|e| e.put_child(c, k, None))
	}
	pub fn exists(c: &[u8], k: &[u8]) -> bool {
		with(|e| {
			let v = e.children.get(c).and_then(|m| m.get(k));
			touch(c, k, false, v.map_or(0, |v| v.len()));
			v.is_some()
		})
	}
	pub fn next_key(c: &[u8], k: &[u8]) -> Option<Vec<u8>> {
		with(|e| {
			let n = e.children.get(c).and_then(|m| next(m, k));
			touch(c, n.as_deref().unwrap_or(k), false, 0);
			n
		})
	}
	pub fn storage_kill(c: &[u8], limit: Option<u32>) -> MultiRemovalResults {
		clear_prefix(c, b"", limit)
	}
	pub fn clear_prefix(c: &[u8], p: &[u8], limit: Option<u32>) -> MultiRemovalResults {
		let keys = with(|e| e.children.get(c).map_or(vec![], |m| under(m, p).cloned().collect::<Vec<_>>()));
		let (n, cursor) = removal(&keys, limit);
		keys[..n].iter().for_each(|k| clear(c, k));
		MultiRemovalResults { maybe_cursor: cursor, backend: n as u32, unique: n as u32, loops: n as u32 }
	}
	pub fn root(c: &[u8]) -> Vec<u8> {
		use parity_scale_codec::Encode;
		with(|e| crate::hashing::blake2_256(&e.children.get(c).cloned().unwrap_or_default().encode()).to_vec())
	}
}
pub use crate::hashing;
pub mod offchain_index {
	use super::*;
	pub fn set(k: &[u8], v: &[u8]) {
		with(|e| e.put_off(k, Some(v.to_vec())))
	}
	pub fn clear(k: &[u8]) {
		with(|e| e.put_off(k, None))
	}
}
pub mod offchain {
	use super::*;
	use crate::core_::offchain::{Duration, OffchainStorage, StorageKind, Timestamp};
	fn state() -> Arc<Lock<OffchainState>> {
		with(|e| e.offchain.clone()).expect("no OffchainWorkerExt registered")
	}
	fn db() -> Arc<Lock<OffchainState>> {
		with(|e| e.db.clone()).expect("no OffchainDbExt registered")
	}
	fn store(kind: StorageKind) -> TestPersistentOffchainDB {
		let d = db();
		let s = d.read();
		match kind {
			StorageKind::PERSISTENT => s.persistent_storage.clone(),
			StorageKind::LOCAL => s.local_storage.clone(),
		}
	}
	pub fn timestamp() -> Timestamp {
		let s = state();
		let mut s = s.write();
		let t = s.timestamp;
		s.timestamp = t.add(Duration::from_millis(s.tick));
		t
	}
	pub fn sleep_until(t: Timestamp) {
		let s = state();
		let mut s = s.write();
		s.timestamp = s.timestamp.max(t)
	}
	pub fn random_seed() -> [u8; 32] {
		crate::core_::H256::random().0
	}
	pub fn is_validator() -> bool {
		true
	}
	thread_local! { static HOOK: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) }; }
	/// not in sp-io: called on this thread before every access to the off-chain database
	pub fn on_access(h: Option<Box<dyn FnMut()>>) {
		HOOK.with(|c| *c.borrow_mut() = h)
	}
	fn access() {
		let h = HOOK.with(|c| c.borrow_mut().take());
		if let Some(mut h) = h {
			h();
			HOOK.with(|c| *c.borrow_mut() = Some(h));
		}
	}
	pub fn local_storage_set(kind: StorageKind, k: &[u8], v: &[u8]) {
		access();
		store(kind).set(b"", k, v)
	}
	pub fn local_storage_clear(kind: StorageKind, k: &[u8]) {
		access();
		store(kind).remove(b"", k)
	}
	pub fn local_storage_get(kind: StorageKind, k: &[u8]) -> Option<Vec<u8>> {
		access();
		store(kind).get(b"", k)
	}
	pub fn local_storage_compare_and_set(kind: StorageKind, k: &[u8], old: Option<Vec<u8>>, new: &[u8]) -> bool {
		access();
		store(kind).compare_and_set(b"", k, old.as_deref(), new)
	}
	/// the answer the test prepared for a request with this method, uri, headers and body
	pub fn http(method: &str, uri: &str, headers: &[(String, String)], body: &[u8]) -> Option<crate::core_::offchain::testing::PendingRequest> {
		let s = state();
		let mut s = s.write();
		let want = s.expected_requests.front()?;
		if want.method != method || want.uri != uri || want.body != body || want.headers != headers {
			panic!("unexpected request {method} {uri} {:?}", String::from_utf8_lossy(body));
		}
		s.expected_requests.pop_front()
	}
}
pub mod crypto {
	use crate::core_::{ecdsa, ed25519, sr25519, Pair};
	pub fn sr25519_verify(s: &sr25519::Signature, m: &[u8], p: &sr25519::Public) -> bool {
		sr25519::Pair::verify(s, m, p)
	}
	pub fn ed25519_verify(s: &ed25519::Signature, m: &[u8], p: &ed25519::Public) -> bool {
		ed25519::Pair::verify(s, m, p)
	}
	pub fn ecdsa_verify(s: &ecdsa::Signature, m: &[u8], p: &ecdsa::Public) -> bool {
		ecdsa::Pair::verify(s, m, p)
	}
}
/// runs with the given storage as the state
pub fn with_storage<R>(s: &mut Storage, f: impl FnOnce() -> R) -> R {
	let mut t = TestExternalities::new(std::mem::take(s));
	let r = t.execute_with(f);
	s.top = t.ext.top;
	s.children_default = t.ext.children;
	r
}
