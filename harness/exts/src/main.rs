//! C29, C30: transactions of many accounts with right and wrong nonces, and passkey transactions
//! with right and wrong proofs, interleaved on the same accounts.
use common_runtime::extensions::check_nonce::CheckNonce;
use frame_support::{
	dispatch::{DispatchClass, DispatchInfo, Pays},
	parameter_types,
	traits::{Contains, Currency},
	unsigned::ValidateUnsigned,
	weights::{Weight, WeightToFee as WeightToFeeT},
	BoundedVec,
};
use kit::*;
use pallet_balances::Call as Bal;
use pallet_passkey as pk;
use parity_scale_codec::Encode;
use sp_core::{crypto::AccountId32, ed25519, sr25519, Pair};
use sp_runtime::{
	traits::{ConvertInto, SignedExtension},
	transaction_validity::{InvalidTransaction, TransactionSource, TransactionValidityError, ValidTransaction},
	MultiSignature,
};
use std::collections::BTreeMap;

/// calls that cost nothing or are urgent, which no pallet used here has
#[frame_support::pallet]
pub mod probe {
	use frame_support::pallet_prelude::*;
	use frame_system::pallet_prelude::*;
	#[pallet::config]
	pub trait Config: frame_system::Config {}
	#[pallet::pallet]
	pub struct Pallet<T>(_);
	#[pallet::storage]
	pub type Calls<T: Config> = StorageMap<_, Twox64Concat, T::AccountId, u32, ValueQuery>;
	#[pallet::call]
	impl<T: Config> Pallet<T> {
		#[pallet::call_index(0)]
		#[pallet::weight((Weight::from_parts(1_000_000, 0), DispatchClass::Normal, Pays::No))]
		pub fn free(origin: OriginFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Calls::<T>::mutate(who, |n| *n += 1);
			Ok(())
		}
		#[pallet::call_index(1)]
		#[pallet::weight((Weight::from_parts(2_000_000, 0), DispatchClass::Operational))]
		pub fn urgent(origin: OriginFor<T>) -> DispatchResult {
			let who = ensure_signed(origin)?;
			Calls::<T>::mutate(who, |n| *n += 100);
			Ok(())
		}
	}
}
frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
		Passkey: pallet_passkey::{Pallet, Storage, Call, Event<T>, ValidateUnsigned},
		TransactionPayment: pallet_transaction_payment::{Pallet, Storage, Event<T>},
		Probe: probe::{Pallet, Call, Storage},
	}
);
kit::system!(Rt, AccountId32, pallet_balances::AccountData<u128>);
kit::balances!(Rt, u128, Ed, RuntimeFreezeReason, ConstU32<4>);
parameter_types! {
	pub static Ed: u128 = 1;
	pub static Num: u128 = 1;
	pub static Den: u128 = 1;
	pub static Byte: u128 = 1;
	pub static Allowed: u8 = 0xff;
}
pub struct W2F;
impl WeightToFeeT for W2F {
	type Balance = u128;
	fn weight_to_fee(w: &Weight) -> u128 {
		(w.ref_time() as u128).saturating_mul(Num::get()) / Den::get()
	}
}
pub struct L2F;
impl WeightToFeeT for L2F {
	type Balance = u128;
	fn weight_to_fee(w: &Weight) -> u128 {
		(w.ref_time() as u128).saturating_mul(Byte::get())
	}
}
impl pallet_transaction_payment::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type OnChargeTransaction = pallet_transaction_payment::CurrencyAdapter<Balances, ()>;
	type WeightToFee = W2F;
	type LengthToFee = L2F;
	type FeeMultiplierUpdate = ();
	type OperationalFeeMultiplier = ConstU8<5>;
}
/// which kinds of calls a passkey may make is drawn anew for each history
pub struct Permitted;
impl Contains<RuntimeCall> for Permitted {
	fn contains(c: &RuntimeCall) -> bool {
		let k = match c {
			RuntimeCall::System(frame_system::Call::remark { .. }) => 0,
			RuntimeCall::Balances(Bal::transfer_allow_death { .. }) => 1,
			RuntimeCall::Balances(Bal::transfer_keep_alive { .. }) => 2,
			RuntimeCall::Balances(Bal::transfer_all { .. }) => 3,
			RuntimeCall::Probe(probe::Call::free { .. }) => 4,
			RuntimeCall::Probe(probe::Call::urgent { .. }) => 5,
			_ => return false,
		};
		Allowed::get() & (1 << k) != 0
	}
}
impl probe::Config for Rt {}
impl pk::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type PasskeyCallFilter = Permitted;
}

#[derive(Clone)]
enum Key {
	Sr(sr25519::Pair),
	Ed(ed25519::Pair),
}
impl Key {
	fn of(n: usize) -> Key {
		let mut s = [9u8; 32];
		s[0] = n as u8;
		if n % 3 == 2 {
			Key::Ed(ed25519::Pair::from_seed(&s))
		} else {
			Key::Sr(sr25519::Pair::from_seed(&s))
		}
	}
	fn id(&self) -> AccountId32 {
		match self {
			Key::Sr(p) => p.public().into(),
			Key::Ed(p) => p.public().into(),
		}
	}
	fn sign(&self, m: &[u8]) -> MultiSignature {
		match self {
			Key::Sr(p) => MultiSignature::Sr25519(p.sign(m)),
			Key::Ed(p) => MultiSignature::Ed25519(p.sign(m)),
		}
	}
}
const PEOPLE: usize = 8;
type Account = frame_system::Account<Rt>;

struct H<'a> {
	o: Mon<'a>,
	keys: Vec<Key>,
	sent: Vec<pk::Call<Rt>>,
	tags: BTreeMap<Vec<u8>, (AccountId32, u32)>,
}
/// what an account's record says apart from the nonce
fn rest(a: &AccountId32) -> (bool, u32, u32, u32, pallet_balances::AccountData<u128>) {
	let r = Account::get(a);
	(Account::contains_key(a), r.providers, r.consumers, r.sufficients, r.data)
}
impl<'a> H<'a> {
	fn who(&mut self) -> usize {
		self.o.g.usize(PEOPLE)
	}
	fn nonce(&mut self, current: u32) -> u32 {
		match self.o.g.below(10) {
			0 => current.saturating_sub(1),
			1 => current + 1,
			2 => current + 2,
			3 => *self.o.g.pick(&[0, 1, u32::MAX, u32::MAX - 1, 1 << 31, 256, 255]),
			_ => current,
		}
	}
	fn tagged(&mut self, prop: &str, who: &AccountId32, nonce: u32, current: u32, v: &ValidTransaction) {
		let tag = (who, nonce).encode();
		// a tag belongs to one account and nonce, whatever bytes it has
		let one = v.provides.len() == 1;
		self.o.check(prop, one, "a_transaction_does_not_provide_exactly_its_nonce", || json!({"provides": v.provides.len()}));
		if one {
			let old = self.tags.insert(v.provides[0].clone(), (who.clone(), nonce));
			self.o.check(prop, old.is_none() || old == Some((who.clone(), nonce)), "two_nonces_share_a_tag", || json!({"one": dbg(&old), "other": dbg(&(who, nonce))}));
			self.o.check(prop, v.provides[0] == tag, "the_tag_is_not_the_account_and_nonce", || json!(hex(&v.provides[0])));
		}
		let want: Vec<Vec<u8>> = if nonce > current { vec![(who, nonce - 1).encode()] } else { vec![] };
		self.o.check(prop, v.requires == want, "a_transaction_does_not_wait_for_exactly_the_nonce_before", || json!({"nonce": nonce, "current": current, "requires": v.requires.iter().map(|t| hex(t)).collect::<Vec<_>>()}));
	}
	/// C29
	fn signed(&mut self) {
		let w = self.who();
		let who = self.keys[w].id();
		let current = Account::get(&who).nonce;
		let nonce = self.nonce(current);
		let pays = if self.o.g.chance(1, 2) { Pays::Yes } else { Pays::No };
		let info = DispatchInfo { weight: Weight::from_parts(self.o.g.below(1000), 0), class: *self.o.g.pick(&[DispatchClass::Normal, DispatchClass::Operational, DispatchClass::Mandatory]), pays_fee: pays };
		let call: RuntimeCall = frame_system::Call::remark { remark: vec![1] }.into();
		let len = self.o.g.below(1000) as usize;
		let before = rest(&who);
		let others: Vec<_> = self.keys.iter().map(|k| k.id()).filter(|i| *i != who).map(|i| (rest(&i), Account::get(&i).nonce)).collect();
		// the pool
		let s = state();
		let v = guarded(|| CheckNonce::<Rt>::from(nonce).validate(&who, &call, &info, len));
		let quiet = s == state();
		self.o.check("C29", quiet, "the_pool_changed_state", || json!(null));
		self.o.note(format!("signed by {w}: nonce {nonce} of {current}, {pays:?}, existing {}", before.0));
		match v {
			Err(p) => return self.o.fail("C29", &format!("panic_{}", panic_sig(&p)), json!(p)),
			Ok(Ok(v)) => {
				self.o.check("C29", nonce >= current, "a_stale_transaction_enters_the_pool", || json!({"nonce": nonce, "current": current}));
				self.tagged("C29", &who, nonce, current, &v);
				self.o.check("C29", v.longevity == u64::MAX && v.propagate, "a_valid_transaction_is_not_kept_or_spread", || dbg(&v));
				self.o.r.count(if nonce > current { "pool_waits" } else { "pool_ready" });
			},
			Ok(Err(e)) => {
				self.o.check("C29", nonce < current && e == InvalidTransaction::Stale.into(), "the_pool_refuses_a_transaction_that_is_not_stale", || json!({"error": dbg(&e), "nonce": nonce, "current": current}));
				self.o.r.count("pool_stale");
			},
		}
		if self.o.bad {
			return
		}
		// the block
		let mut why = vec![];
		let mut error = None;
		if nonce < current {
			why.push(("C29", "the_nonce_is_stale"));
			error = Some(InvalidTransaction::Stale);
		}
		if nonce > current {
			why.push(("C29", "the_nonce_is_in_the_future"));
			error = Some(InvalidTransaction::Future);
		}
		let mut got = None;
		let Some(res) = self.o.attempt("C29", format!("  included"), || {
			CheckNonce::<Rt>::from(nonce).pre_dispatch(&who, &call, &info, len).map_err(|e| {
				got = Some(e);
				format!("{e:?}")
			})
		}) else { return };
		if self.o.verdict("signed", "C29", &why, false, &res) && !self.o.bad {
			let exists = before.1 + before.2 + before.3 > 0;
			let (after, now) = (rest(&who), Account::get(&who).nonce);
			let good = if exists || pays == Pays::Yes {
				self.o.r.count(if exists { "advanced_existing" } else { "advanced_paying_newcomer" });
				now == current + 1 && after.0
			} else if before.0 {
				// a record that only holds a nonce: whether that is an account is not said
				self.o.r.count("bare_record");
				now == current || now == current + 1
			} else {
				self.o.r.count("free_newcomer");
				now == 0 && !after.0
			};
			self.o.check("C29", good, "the_nonce_did_not_advance_by_one_for_exactly_those_who_exist_or_pay", || json!({"exists": exists, "pays": dbg(&pays), "before": current, "after": now, "record_before": before.0, "record_after": after.0}));
			let same = (after.1, after.2, after.3, &after.4) == (before.1, before.2, before.3, &before.4);
			self.o.check("C29", same, "something_besides_the_nonce_changed", || json!({"before": dbg(&before), "after": dbg(&after)}));
			let now: Vec<_> = self.keys.iter().map(|k| k.id()).filter(|i| *i != who).map(|i| (rest(&i), Account::get(&i).nonce)).collect();
			self.o.check("C29", now == others, "another_account_changed", || json!(null));
		} else if !self.o.bad {
			self.o.check("C29", got == error.map(TransactionValidityError::Invalid), "the_wrong_reason_is_given", || json!({"got": dbg(&got), "want": dbg(&error)}));
		}
	}
	fn call(&mut self, from: usize) -> RuntimeCall {
		let have = Balances::free_balance(&self.keys[from].id());
		let g = &mut self.o.g;
		let dest = self.keys[g.usize(PEOPLE)].id();
		let value = match g.below(6) {
			0 => have,
			1 => have.saturating_add(1),
			2 => have / 2,
			_ => g.below(1000) as u128,
		};
		match g.below(16) {
			12 | 13 => probe::Call::free {}.into(),
			14 => probe::Call::urgent {}.into(),
			0..=2 => frame_system::Call::remark { remark: g.bytes(5) }.into(),
			3 | 4 => Bal::transfer_allow_death { dest, value }.into(),
			5 | 6 => Bal::transfer_keep_alive { dest, value }.into(),
			7 => Bal::transfer_all { dest, keep_alive: g.chance(1, 2) }.into(),
			8 => Bal::force_transfer { source: self.keys[0].id(), dest, value }.into(),
			9 => frame_system::Call::remark_with_event { remark: vec![] }.into(),
			10 => frame_system::Call::set_storage { items: vec![(vec![1], vec![2])] }.into(),
			_ => pk::Call::proxy { payload: self.payload(1).0 }.into(),
		}
	}
	/// a payload, whether its proof is right, and of what kind it is
	fn payload(&mut self, depth: u32) -> (pk::PasskeyPayload<Rt>, bool, &'static str) {
		let w = self.who();
		let account_id = self.keys[w].id();
		let current = Account::get(&account_id).nonce;
		let account_nonce = self.nonce(current);
		let mut public = [0u8; 33];
		public.copy_from_slice(&self.o.g.bytes(33));
		if self.o.g.chance(1, 6) {
			public = [if self.o.g.chance(1, 2) { 0 } else { 0xff }; 33];
		}
		let wrapped = [b"<Bytes>", &public[..], b"</Bytes>"].concat();
		let (proof, kind) = match self.o.g.below(18) {
			0 => (self.keys[(w + 1) % PEOPLE].sign(&wrapped), "another_account_signed"),
			1 => {
				let mut p = public;
				p[self.o.g.usize(33)] ^= 1 << self.o.g.below(8);
				(self.keys[w].sign(&[b"<Bytes>", &p[..], b"</Bytes>"].concat()), "another_key_was_signed")
			},
			2 => (self.keys[w].sign(&public), "the_key_was_not_wrapped"),
			3 => (self.keys[w].sign(&[b"<Bytes>", &public[..]].concat()), "the_end_is_missing"),
			4 => (self.keys[w].sign(&wrapped[7..]), "the_start_is_missing"),
			5 => {
				let mut s = self.keys[w].sign(&wrapped).encode();
				let n = s.len();
				s[1 + self.o.g.usize(n - 1)] ^= 1 << self.o.g.below(8);
				(parity_scale_codec::Decode::decode(&mut &s[..]).unwrap(), "the_signature_is_damaged")
			},
			6 => {
				// the same bytes under another scheme
				let mut s = self.keys[w].sign(&wrapped).encode();
				s[0] ^= 1;
				(parity_scale_codec::Decode::decode(&mut &s[..]).unwrap(), "the_scheme_is_another")
			},
			7 => (MultiSignature::Sr25519(parity_scale_codec::Decode::decode(&mut &[0u8; 64][..]).unwrap()), "the_signature_is_empty"),
			8 => (self.keys[w].sign(&[b"<Bytes>", account_id.encode().as_slice(), b"</Bytes>"].concat()), "the_account_was_signed"),
			_ => (self.keys[w].sign(&wrapped), ""),
		};
		let call = if depth == 0 { self.call(w) } else { frame_system::Call::remark { remark: vec![] }.into() };
		let mut bytes = |n: usize| self.o.g.bytes(n);
		let payload = pk::PasskeyPayload {
			passkey_public_key: public,
			verifiable_passkey_signature: pk::VerifiablePasskeySignature {
				signature: BoundedVec::try_from(bytes(64)).unwrap(),
				authenticator_data: BoundedVec::try_from(bytes(37)).unwrap(),
				client_data_json: BoundedVec::try_from(bytes(32)).unwrap(),
			},
			passkey_call: pk::PasskeyCall { account_id, account_nonce, account_ownership_proof: proof, call: Box::new(call) },
		};
		(payload, kind.is_empty(), kind)
	}
	/// C30
	fn passkey(&mut self) {
		let replay = !self.sent.is_empty() && self.o.g.chance(1, 5);
		let (call, right, kind) = if replay {
			(self.o.g.pick(&self.sent).clone(), true, "")
		} else {
			let (payload, right, kind) = self.payload(0);
			(pk::Call::proxy { payload }, right, kind)
		};
		let pk::Call::proxy { payload } = &call else { return };
		let who = payload.passkey_call.account_id.clone();
		let inner = (*payload.passkey_call.call).clone();
		let current = Account::get(&who).nonce;
		let nonce = payload.passkey_call.account_nonce;
		let info = call.get_dispatch_info();
		let fee = |len: usize| TransactionPayment::compute_fee(len as u32, &info, 0);
		let (least, most) = (fee(0), fee(call.encoded_size() + 512));
		let usable = |a: &AccountId32| Balances::free_balance(a).saturating_sub(Ed::get());
		let mut why = vec![];
		if !right {
			why.push(("C30", kind));
		}
		if !Permitted::contains(&inner) {
			why.push(("C30", "the_call_is_not_permitted"));
		}
		if nonce < current {
			why.push(("C30", "the_nonce_is_stale"));
		}
		let ahead = nonce > current;
		if Balances::free_balance(&who) < least {
			why.push(("C30", "the_fee_cannot_be_paid"));
		}
		let unsure = usable(&who) < most;
		let what = format!("passkey{} for {} nonce {nonce} of {current} proof ok {right} {kind}: {inner:?}", if replay { " (again)" } else { "" }, hex(&who.encode()[..3]));
		// the pool
		let v = tentatively(|| guarded(|| <Passkey as ValidateUnsigned>::validate_unsigned(TransactionSource::External, &call)));
		self.o.note(what.clone());
		match v {
			Err(p) => return self.o.fail("C30", &format!("panic_{}", panic_sig(&p)), json!(p)),
			Ok(Ok(v)) => {
				for (_, w) in &why {
					self.o.fail("C30", &format!("the_pool_accepts_although_{w}"), json!(what));
				}
				if !self.o.bad {
					self.tagged("C30", &who, nonce, current, &v);
					self.o.r.count(if ahead { "pool_waits" } else { "pool_ready" });
				}
			},
			Ok(Err(e)) => {
				self.o.check("C30", !why.is_empty() || unsure, "the_pool_refuses_a_valid_passkey_transaction", || dbg(&e));
			},
		}
		if self.o.bad {
			return
		}
		// the block
		if ahead {
			why.push(("C30", "the_nonce_is_in_the_future"));
		}
		let before = (rest(&who), Balances::total_issuance());
		let mut s = facts();
		let Some(res) = self.o.attempt("C30", "  included".into(), || {
			let mut r = Ok(());
			let _ = frame_support::storage::with_transaction(|| -> sp_runtime::TransactionOutcome<Result<(), DispatchError>> {
				match <Passkey as ValidateUnsigned>::pre_dispatch(&call) {
					Ok(()) => sp_runtime::TransactionOutcome::Commit(Ok(())),
					Err(e) => {
						r = Err(format!("{e:?}"));
						sp_runtime::TransactionOutcome::Rollback(Ok(()))
					},
				}
			});
			r
		}) else { return };
		if !self.o.verdict("passkey", "C30", &why, unsure, &res) || self.o.bad {
			if replay && !self.o.bad {
				self.o.r.count("replays_refused");
			}
			return
		}
		let paid = before.0 .4.free - Balances::free_balance(&who);
		let now = Account::get(&who).nonce;
		self.o.check("C30", now == current + 1, "an_accepted_passkey_transaction_did_not_consume_its_nonce", || json!({"before": current, "after": now}));
		self.o.check("C30", paid >= least && paid <= most && before.1 - Balances::total_issuance() == paid, "the_fee_was_not_paid_by_the_account", || json!({"paid": paid.to_string(), "least": least.to_string(), "most": most.to_string()}));
		// nothing else has happened yet
		let key = Account::hashed_key_for(&who);
		let issuance = [&sp_io::hashing::twox_128(b"Balances")[..], &sp_io::hashing::twox_128(b"TotalIssuance")[..]].concat();
		let mut a = facts();
		for k in [&key, &issuance] {
			s.top.remove(k);
			a.top.remove(k);
		}
		self.o.check("C30", a == s, "something_besides_nonce_and_fee_changed", || json!(difference(&s, &a)));
		if self.o.bad {
			return
		}
		// and now exactly what the account could do by itself
		let (want_ok, want) = tentatively(|| {
			let ok = inner.clone().dispatch(RuntimeOrigin::signed(who.clone())).is_ok();
			(ok, facts())
		});
		let got = guarded(|| dispatch(RuntimeCall::Passkey(call.clone()), RuntimeOrigin::none()));
		let now = facts();
		self.o.check("C30", matches!(&got, Ok(r) if r.is_ok() == want_ok) && now == want, "the_call_did_not_run_as_the_account_itself", || json!({"by_itself": want_ok, "got": dbg(&got), "different": difference(&want, &now)}));
		self.o.r.count(if want_ok { "calls_that_succeeded" } else { "calls_that_failed" });
		self.sent.push(call);
	}
	/// a passkey call only ever comes without a signature of its own
	fn wrong_origin(&mut self) {
		let (payload, _, _) = self.payload(0);
		let w = self.who();
		let o = if self.o.g.chance(1, 3) { RuntimeOrigin::root() } else { RuntimeOrigin::signed(self.keys[w].id()) };
		let c = RuntimeCall::Passkey(pk::Call::proxy { payload });
		if let Some(res) = self.o.attempt("C30", format!("proxy with origin {o:?}"), || dispatch(c, o).map_err(names)) {
			self.o.verdict("proxy_call", "C30", &[("C30", "the_origin_is_not_none")], false, &res);
		}
	}
	fn other(&mut self) {
		let w = self.who();
		let a = self.keys[w].id();
		match self.o.g.below(8) {
			0 => {
				let v = self.o.g.below(100_000) as u128 * Ed::get();
				let _ = Balances::deposit_creating(&a, v);
				self.o.note(format!("{w} receives {v}"));
			},
			1 => {
				let v = Balances::free_balance(&a);
				let to = self.keys[self.o.g.usize(PEOPLE)].id();
				let r = dispatch(RuntimeCall::Balances(Bal::transfer_all { dest: to, keep_alive: false }), RuntimeOrigin::signed(a));
				self.o.note(format!("{w} gives everything ({v}) away: {r:?}"));
			},
			2 => {
				System::inc_sufficients(&a);
				self.o.note(format!("{w} is sufficient"));
			},
			3 => {
				let r = System::inc_consumers(&a);
				self.o.note(format!("{w} is consumed: {r:?}"));
			},
			4 => {
				Account::mutate(&a, |r| r.nonce = *self.o.g.pick(&[0u32, 1, 255, 256, 65535, 1 << 31, u32::MAX - 200]));
				self.o.note(format!("{w} is at nonce {}", Account::get(&a).nonce));
			},
			_ => {
				// so little that the fee decides
				let v = self.o.g.below(3) as u128 + Ed::get() + self.o.g.below(2) as u128 * 10u128.pow(self.o.g.below(12) as u32);
				let _ = dispatch(RuntimeCall::Balances(Bal::force_set_balance { who: a, new_free: v }), RuntimeOrigin::root());
				self.o.note(format!("{w} has {v}"));
			},
		}
	}
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 31 + 7);
	Ed::set(*g.pick(&[1, 1, 10, 1000]));
	let (num, den) = *g.pick(&[(1u128, 1u128), (1, 1_000_000), (1, 100_000), (3, 70_000), (0, 1)]);
	Num::set(num);
	Den::set(den);
	Byte::set(*g.pick(&[1u128, 1, 2, 50]));
	let allowed = if g.chance(2, 3) { 0xff } else { g.u8() };
	Allowed::set(allowed);
	let about = json!({"fee": format!("{num}/{den} per weight, {} per byte", Byte::get()), "deposit": Ed::get().to_string(), "permitted_kinds": allowed});
	let passkeys = r.prop == "C30";
	let mut h = H { o: Mon::new(r, g, about), keys: (0..PEOPLE).map(Key::of).collect(), sent: vec![], tags: BTreeMap::new() };
	TestExternalities::default().execute_with(|| {
		System::set_block_number(1);
		let rich = 10u128.pow(h.o.g.range(4, 14) as u32);
		for w in 0..PEOPLE - 2 {
			let _ = Balances::deposit_creating(&h.keys[w].id(), rich);
		}
		let steps = h.o.g.range(20, 100);
		for _ in 0..steps {
			match h.o.g.weighted(&if passkeys { [4, 12, 1, 4] } else { [16, 3, 0, 4] }) {
				0 => h.signed(),
				1 => h.passkey(),
				2 => h.wrong_origin(),
				_ => h.other(),
			}
			if h.o.bad {
				return
			}
		}
	});
	let log = h.o.log.clone();
	h.o.r.case(&log);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		h.o.r.sample(json!({ "last_operations": last }));
	}
}
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system, pallet_balances and pallet_transaction_payment are stand-ins written after polkadot v1.6.0 and signatures are stand-in schemes (DESIGN.md); pallet-passkey and the extension are compiled unmodified from the tree");
	r.assume("a transaction whose validity is refused leaves no trace in the block: the block builder drops what it did");
	if r.prop == "C29" {
		for k in ["accepted:signed", "pool_waits", "pool_ready", "pool_stale"] {
			r.require(k, 2000);
		}
		for k in ["advanced_existing", "advanced_paying_newcomer", "free_newcomer", "rejected:signed:the_nonce_is_stale", "rejected:signed:the_nonce_is_in_the_future"] {
			r.require(k, 500);
		}
	} else {
		r.require("accepted:passkey", 1000);
		r.require("replays_refused", 300);
		r.require("calls_that_succeeded", 500);
		r.require("calls_that_failed", 100);
		r.require("rejected:proxy_call:the_origin_is_not_none", 300);
		for k in ["another_account_signed", "another_key_was_signed", "the_key_was_not_wrapped", "the_signature_is_damaged", "the_scheme_is_another", "the_call_is_not_permitted", "the_nonce_is_stale", "the_nonce_is_in_the_future", "the_fee_cannot_be_paid"] {
			r.require(&format!("rejected:passkey:{k}"), 200);
		}
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		history(&mut r, n);
		n += 1;
	}
	r.finish("a history is distinct if its operations or outcomes differ from every other")
}
