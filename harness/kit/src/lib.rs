//! What every pallet harness needs: the configuration of frame_system, transactional dispatch and
//! whole-state snapshots.
pub use frame_support::dispatch::GetDispatchInfo;
pub use frame_support::traits::{ConstU128, ConstU16, ConstU32, ConstU64, ConstU8, Everything, Get, Hooks, OriginTrait};
pub use sp_io::TestExternalities;
pub use sp_runtime::traits::{BlakeTwo256, Dispatchable, IdentityLookup};
pub use sp_runtime::{BuildStorage, DispatchError};
pub use vmon::*;
use frame_support::dispatch::DispatchResultWithPostInfo;

/// `kit::system!(Rt, AccountId, AccountData);` for a runtime `Rt` made by construct_runtime!
#[macro_export]
macro_rules! system {
	($rt:ident, $acc:ty, $data:ty) => {
		$crate::system!($rt, $acc, $data, $crate::Everything);
	};
	($rt:ident, $acc:ty, $data:ty, $filter:ty) => {
		impl frame_system::Config for $rt {
			type BaseCallFilter = $filter;
			type BlockWeights = ();
			type BlockLength = ();
			type DbWeight = ();
			type RuntimeOrigin = RuntimeOrigin;
			type RuntimeCall = RuntimeCall;
			type Nonce = u32;
			type Block = frame_system::mocking::MockBlockU32<$rt>;
			type Hash = sp_core::H256;
			type Hashing = sp_runtime::traits::BlakeTwo256;
			type AccountId = $acc;
			type Lookup = sp_runtime::traits::IdentityLookup<$acc>;
			type RuntimeEvent = RuntimeEvent;
			type RuntimeTask = RuntimeTask;
			type BlockHashCount = $crate::ConstU32<250>;
			type Version = ();
			type PalletInfo = PalletInfo;
			type AccountData = $data;
			type OnNewAccount = ();
			type OnKilledAccount = ();
			type SystemWeightInfo = ();
			type SS58Prefix = $crate::ConstU16<42>;
			type OnSetCode = ();
			type MaxConsumers = $crate::ConstU32<16>;
		}
	};
}
#[macro_export]
macro_rules! balances {
	($rt:ident, $balance:ty, $ed:ty, $freeze:ty, $max_freezes:ty) => {
		impl pallet_balances::Config for $rt {
			type RuntimeEvent = RuntimeEvent;
			type RuntimeHoldReason = ();
			type RuntimeFreezeReason = ();
			type WeightInfo = ();
			type Balance = $balance;
			type DustRemoval = ();
			type ExistentialDeposit = $ed;
			type AccountStore = System;
			type ReserveIdentifier = [u8; 8];
			type FreezeIdentifier = $freeze;
			type MaxLocks = $crate::ConstU32<10>;
			type MaxReserves = ();
			type MaxHolds = $crate::ConstU32<0>;
			type MaxFreezes = $max_freezes;
		}
	};
}

/// every key and value of the chain state
pub fn state() -> impl PartialEq + Clone + std::fmt::Debug {
	mf::io::state_snapshot()
}

/// an extrinsic: filtered, transactional dispatch
pub fn dispatch<C: Dispatchable>(call: C, origin: C::RuntimeOrigin) -> Result<(), DispatchError>
where
	Result<C::PostInfo, sp_runtime::DispatchErrorWithPostInfo<C::PostInfo>>: Clone,
	C::PostInfo: Clone,
{
	call.dispatch(origin).map(|_| ()).map_err(|e| e.error)
}
pub fn ok(r: DispatchResultWithPostInfo) -> Result<(), DispatchError> {
	r.map(|_| ()).map_err(|e| e.error)
}
/// the name of an error, for coverage counters
pub fn err_name(e: &DispatchError) -> String {
	match e {
		DispatchError::Module(m) => m.message.unwrap_or("module error").to_string(),
		e => format!("{e:?}").chars().take(40).collect(),
	}
}

/// A pallet whose storage is all of the state: whatever decides about one property also runs when
/// another is checked, but only failures of the one being checked are reported.
pub struct Mon<'a> {
	pub r: &'a mut Run,
	pub g: Rng,
	pub prop: String,
	pub log: Vec<String>,
	pub bad: bool,
	pub about: Value,
}
impl<'a> Mon<'a> {
	pub fn new(r: &'a mut Run, g: Rng, about: Value) -> Self {
		let prop = r.prop.clone();
		Mon { r, g, prop, log: vec![], bad: false, about }
	}
	pub fn note(&mut self, s: String) {
		self.log.push(s.chars().take(400).collect());
	}
	pub fn fail(&mut self, prop: &str, sig: &str, detail: Value) {
		self.bad = true;
		if prop == self.prop {
			let from = self.log.len().saturating_sub(40);
			let d = json!({"what": detail, "settings": self.about, "history": self.log[from..]});
			self.r.violation(sig, d);
		}
	}
	pub fn check(&mut self, prop: &str, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
		if !ok {
			let d = detail();
			self.fail(prop, sig, d);
		}
		ok
	}
	/// runs an operation; one that is refused must leave the state as it was
	pub fn attempt(&mut self, prop: &str, what: String, f: impl FnOnce() -> Result<(), String>) -> Option<Result<(), String>> {
		self.note(what);
		let before = state();
		match guarded(f) {
			Err(p) => {
				self.fail(prop, &format!("panic_{}", panic_sig(&p)), json!(p));
				None
			},
			Ok(Err(e)) => {
				self.note(format!("  -> {e}"));
				self.r.count(&format!("refused:{e}"));
				if state() != before {
					self.fail(prop, "a_refused_operation_changed_state", json!(e));
				}
				Some(Err(e))
			},
			Ok(Ok(())) => Some(Ok(())),
		}
	}
	/// Compares an outcome with the reasons there are to refuse: (property, reason) pairs. `unsure`:
	/// either outcome is right.
	pub fn verdict(&mut self, op: &str, main: &str, why_not: &[(&str, &str)], unsure: bool, res: &Result<(), String>) -> bool {
		match res {
			Ok(()) => {
				self.r.count(&format!("accepted:{op}"));
				for (p, w) in why_not {
					self.fail(p, &format!("{op}_accepted_although_{w}"), json!(self.log.last()));
				}
				true
			},
			Err(e) => {
				for (_, w) in why_not {
					self.r.count(&format!("rejected:{op}:{w}"));
				}
				if why_not.is_empty() && !unsure {
					self.fail(main, &format!("valid_{op}_refused"), json!(e));
				}
				false
			},
		}
	}
}
/// an extrinsic that passes the signed extension and is then dispatched
pub fn names(e: DispatchError) -> String {
	err_name(&e)
}

/// the outcome an operation would have: everything it does is undone
pub fn tentatively<R>(f: impl FnOnce() -> R) -> R {
	let mut out = None;
	let _ = frame_support::storage::with_transaction(|| -> sp_runtime::TransactionOutcome<Result<(), DispatchError>> {
		out = Some(f());
		sp_runtime::TransactionOutcome::Rollback(Ok(()))
	});
	out.unwrap()
}
/// a node's client over the externalities of the current thread: `kit::client!(Rt, Api);` gives
/// `Client` with an API object of type `Api` on which the runtime API traits are implemented
#[macro_export]
macro_rules! client {
	($rt:ident, $api:ident) => {
		pub type Block = frame_system::mocking::MockBlockU32<$rt>;
		#[derive(Default)]
		pub struct $api;
		#[derive(Default)]
		pub struct Client($api);
		impl sp_api::ProvideRuntimeApi<Block> for Client {
			type Api = $api;
			fn runtime_api(&self) -> sp_api::ApiRef<'_, $api> {
				&self.0
			}
		}
		impl sp_blockchain::HeaderBackend<Block> for Client {
			fn info(&self) -> sp_blockchain::Info<Block> {
				let n = frame_system::Pallet::<$rt>::block_number();
				let h = sp_core::H256::repeat_byte(0xbb);
				sp_blockchain::Info { best_hash: h, best_number: n, genesis_hash: h, finalized_hash: h, finalized_number: n }
			}
		}
	};
}
/// the chain state without the log of events
pub fn facts() -> mf::core_::storage::Storage {
	let mut s = mf::io::state_snapshot();
	let system = mf::hashing::twox_128(b"System");
	for item in [&b"Events"[..], b"EventCount", b"EventTopics"] {
		let key = [&system[..], &mf::hashing::twox_128(item)[..]].concat();
		s.top.retain(|k, _| !k.starts_with(&key));
	}
	s
}
pub fn difference(want: &mf::core_::storage::Storage, got: &mf::core_::storage::Storage) -> Vec<Value> {
	let keys: std::collections::BTreeSet<_> = want.top.keys().chain(got.top.keys()).collect();
	keys.into_iter()
		.filter(|k| want.top.get(*k) != got.top.get(*k))
		.take(6)
		.map(|k| json!({"key": hex(k), "want": want.top.get(k).map(|v| hex(v)), "got": got.top.get(k).map(|v| hex(v))}))
		.collect()
}
