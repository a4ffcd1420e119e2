//! C28: transactions paid with capacity or with tokens, each executed as the chain does (validate,
//! pre_dispatch, dispatch, post_dispatch) and compared with what the same calls do by themselves.
use common_primitives::{
	msa::MessageSourceId,
	node::{AccountId, ProposalProvider, UtilityProvider},
	schema::{SchemaId, SchemaValidator},
};
use frame_support::{
	dispatch::{DispatchInfo, DispatchResult, DispatchResultWithPostInfo, PostDispatchInfo},
	parameter_types,
	traits::{ConstU128, Hooks},
	weights::{Weight, WeightToFee as WeightToFeeT},
};
use kit::*;
use pallet_balances::Call as Bal;
use pallet_frequency_tx_payment as ftp;
use pallet_frequency_tx_payment::{capacity_stable_weights::CAPACITY_EXTRINSIC_BASE_WEIGHT, ChargeFrqTransactionPayment, GetStableWeight};
use pallet_transaction_payment::ChargeTransactionPayment;
use sp_runtime::{
	traits::{Convert, SignedExtension},
	transaction_validity::TransactionValidityError,
	Perbill,
};
use std::collections::BTreeSet;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
		Msa: pallet_msa::{Pallet, Call, Storage, Event<T>},
		Capacity: pallet_capacity::{Pallet, Call, Storage, Event<T>, FreezeReason},
		TransactionPayment: pallet_transaction_payment::{Pallet, Storage, Event<T>},
		FrequencyTxPayment: pallet_frequency_tx_payment::{Pallet, Call, Event<T>},
		Utility: pallet_utility::{Pallet, Call, Storage, Event},
	}
);
kit::system!(Rt, u64, pallet_balances::AccountData<u128>);
kit::balances!(Rt, u128, Ed, RuntimeFreezeReason, ConstU32<4>);
parameter_types! {
	pub static Ed: u128 = 1;
	pub static Per: Perbill = Perbill::from_percent(50);
	pub static Num: u128 = 1;
	pub static Den: u128 = 1;
	pub static Byte: u128 = 1;
	pub static MaxBatch: u8 = 10;
	pub static Weights: [Option<Weight>; 5] = [None; 5];
}
pub struct Outside;
impl SchemaValidator<SchemaId> for Outside {
	fn are_all_schema_ids_valid(_: &Vec<SchemaId>) -> bool {
		true
	}
	fn set_schema_count(_: SchemaId) {}
}
impl ProposalProvider<u64, RuntimeCall> for Outside {
	fn propose(_: u64, _: u32, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((1, 1))
	}
	fn propose_with_simple_majority(_: u64, _: Box<RuntimeCall>) -> Result<(u32, u32), DispatchError> {
		Ok((1, 1))
	}
}
impl common_primitives::capacity::TargetValidator for Outside {
	fn validate(_: MessageSourceId) -> bool {
		true
	}
}
impl Convert<u64, AccountId> for Outside {
	fn convert(x: u64) -> AccountId {
		AccountId::new([x as u8; 32])
	}
}
impl UtilityProvider<RuntimeOrigin, RuntimeCall> for Outside {
	fn batch_all(origin: RuntimeOrigin, calls: Vec<RuntimeCall>) -> DispatchResultWithPostInfo {
		Utility::batch_all(origin, calls)
	}
}
impl pallet_msa::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = Outside;
	type MaxPublicKeysPerMsa = ConstU8<25>;
	type MaxSchemaGrantsPerDelegation = ConstU32<30>;
	type MaxProviderNameSize = ConstU32<16>;
	type SchemaValidator = Outside;
	type HandleProvider = ();
	type MortalityWindowSize = ConstU32<100>;
	type MaxSignaturesStored = ConstU32<8000>;
	type Proposal = RuntimeCall;
	type ProposalProvider = Outside;
	type CreateProviderViaGovernanceOrigin = frame_system::EnsureSigned<u64>;
}
impl pallet_capacity::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type WeightInfo = ();
	type Currency = Balances;
	type TargetValidator = Outside;
	type MinimumStakingAmount = ConstU128<10>;
	type MinimumTokenBalance = ConstU128<10>;
	type MaxUnlockingChunks = ConstU32<4>;
	type UnstakingThawPeriod = ConstU16<2>;
	type MaxEpochLength = ConstU32<100>;
	type EpochNumber = u32;
	type CapacityPerToken = Per;
}
pub struct W2F;
impl WeightToFeeT for W2F {
	type Balance = u128;
	fn weight_to_fee(w: &Weight) -> u128 {
		(w.ref_time() as u128).saturating_mul(Num::get()) / Den::get()
	}
}
pub struct L2F;
impl WeightToFeeT for L2F {
	type Balance = u128;
	fn weight_to_fee(w: &Weight) -> u128 {
		(w.ref_time() as u128).saturating_mul(Byte::get())
	}
}
impl pallet_transaction_payment::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type OnChargeTransaction = pallet_transaction_payment::CurrencyAdapter<Balances, ()>;
	type WeightToFee = W2F;
	type LengthToFee = L2F;
	type FeeMultiplierUpdate = ();
	type OperationalFeeMultiplier = ConstU8<5>;
}
impl pallet_utility::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type PalletsOrigin = OriginCaller;
	type WeightInfo = ();
}
impl ftp::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeCall = RuntimeCall;
	type Capacity = Capacity;
	type WeightInfo = ();
	type CapacityCalls = Eligible;
	type OnChargeCapacityTransaction = ftp::CapacityAdapter<Balances, Msa>;
	type MaximumCapacityBatchLength = MaxBatch;
	type BatchProvider = Outside;
}
/// which calls are eligible, and at what weight, is drawn anew for each history
pub struct Eligible;
fn kind(c: &RuntimeCall) -> Option<usize> {
	match c {
		RuntimeCall::Balances(Bal::transfer_allow_death { .. }) => Some(0),
		RuntimeCall::Balances(Bal::transfer_keep_alive { .. }) => Some(1),
		RuntimeCall::Msa(pallet_msa::Call::create { .. }) => Some(2),
		RuntimeCall::Msa(pallet_msa::Call::create_provider { .. }) => Some(3),
		RuntimeCall::System(frame_system::Call::remark { .. }) => Some(4),
		_ => None,
	}
}
impl GetStableWeight<RuntimeCall, Weight> for Eligible {
	fn get_stable_weight(c: &RuntimeCall) -> Option<Weight> {
		Weights::get()[kind(c)?]
	}
	fn get_inner_calls(c: &RuntimeCall) -> Option<Vec<&RuntimeCall>> {
		Some(match c {
			RuntimeCall::FrequencyTxPayment(ftp::Call::pay_with_capacity { call }) => vec![&**call],
			RuntimeCall::FrequencyTxPayment(ftp::Call::pay_with_capacity_batch_all { calls }) => calls.iter().collect(),
			c => vec![c],
		})
	}
}
type Ext = ChargeFrqTransactionPayment<Rt>;
type Plain = ChargeTransactionPayment<Rt>;

/// a transaction as the chain executes it; the extension decides whether it is included at all
fn execute<E: SignedExtension<AccountId = u64, Call = RuntimeCall>>(e: E, who: u64, call: RuntimeCall, len: usize) -> Result<DispatchResult, TransactionValidityError> {
	let info: DispatchInfo = call.get_dispatch_info();
	let pre = e.pre_dispatch(&who, &call, &info, len)?;
	let res = call.dispatch(RuntimeOrigin::signed(who));
	let post: PostDispatchInfo = match &res {
		Ok(p) => p.clone(),
		Err(e) => e.post_info.clone(),
	};
	let out = res.map(|_| ()).map_err(|e| e.error);
	E::post_dispatch(Some(pre), &info, &post, len, &out)?;
	Ok(out)
}
fn capped(w: Weight) -> u128 {
	let max = <<Rt as frame_system::Config>::BlockWeights as Get<frame_system::limits::BlockWeights>>::get().max_block;
	(w.ref_time().min(max.ref_time()) as u128).saturating_mul(Num::get()) / Den::get()
}
struct H<'a> {
	o: Mon<'a>,
	msas: Vec<MessageSourceId>,
	seen: BTreeSet<(bool, bool, usize)>,
}
const PEOPLE: [u64; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 9];
impl<'a> H<'a> {
	fn who(&mut self) -> u64 {
		*self.o.g.pick(&PEOPLE)
	}
	fn inner(&mut self, depth: u32) -> RuntimeCall {
		let w = self.who();
		let have = Balances::free_balance(&w);
		let g = &mut self.o.g;
		let dest = *g.pick(&PEOPLE);
		let value = match g.below(6) {
			0 => have,
			1 => have.saturating_add(1),
			2 => u128::MAX,
			3 => Ed::get().saturating_sub(1),
			_ => g.below(1000) as u128,
		};
		match g.below(if depth > 1 { 6 } else { 9 }) {
			0 => Bal::transfer_allow_death { dest, value }.into(),
			1 => Bal::transfer_keep_alive { dest, value }.into(),
			2 => pallet_msa::Call::create {}.into(),
			3 => pallet_msa::Call::create_provider { provider_name: g.bytes(4) }.into(),
			4 | 5 => {
				let n = g.usize(6);
				frame_system::Call::remark { remark: g.bytes(n) }.into()
			},
			6 => ftp::Call::pay_with_capacity { call: Box::new(self.inner(depth + 1)) }.into(),
			7 => {
				let n = g.usize(3);
				ftp::Call::pay_with_capacity_batch_all { calls: (0..n).map(|_| self.inner(depth + 1)).collect() }.into()
			},
			_ => {
				let n = g.usize(3);
				pallet_utility::Call::batch { calls: (0..n).map(|_| self.inner(depth + 1)).collect() }.into()
			},
		}
	}
	/// a call drawn so that eligible ones are common
	fn likely(&mut self) -> RuntimeCall {
		for _ in 0..6 {
			let c = self.inner(0);
			if Eligible::get_stable_weight(&c).is_some() || self.o.g.chance(1, 25) {
				return c
			}
		}
		self.inner(0)
	}
	fn length(&mut self) -> usize {
		match self.o.g.below(12) {
			0 => 0,
			1 => u32::MAX as usize,
			2 => 1 << self.o.g.below(32),
			_ => self.o.g.below(600) as usize,
		}
	}
	fn with_capacity(&mut self) {
		let who = self.who();
		let batch = self.o.g.chance(1, 2);
		let n = if !batch {
			1
		} else if self.o.g.chance(1, 8) {
			MaxBatch::get() as usize + self.o.g.usize(3)
		} else {
			self.o.g.usize(MaxBatch::get() as usize + 1)
		};
		let calls: Vec<RuntimeCall> = (0..n).map(|_| self.likely()).collect();
		let len = self.length();
		let tip = *self.o.g.pick(&[0u128, 1, 1000, u128::MAX]);
		let outer: RuntimeCall = if batch {
			ftp::Call::pay_with_capacity_batch_all { calls: calls.clone() }.into()
		} else {
			ftp::Call::pay_with_capacity { call: Box::new(calls[0].clone()) }.into()
		};
		// what there is to say about it
		let mut why: Vec<(&str, &str)> = vec![];
		let stable: Vec<Option<Weight>> = calls.iter().map(Eligible::get_stable_weight).collect();
		if stable.iter().any(|w| w.is_none()) {
			why.push(("C28", "a_call_is_not_eligible"));
		}
		let ref_time = stable.iter().flatten().fold(0u64, |a, w| a.saturating_add(w.ref_time()));
		let fee = capped(CAPACITY_EXTRINSIC_BASE_WEIGHT)
			.saturating_add(capped(Weight::from_parts(ref_time, 0)))
			.saturating_add((len as u128).saturating_mul(Byte::get()));
		if Balances::free_balance(&who) + Balances::reserved_balance(&who) < Ed::get() {
			why.push(("C28", "the_balance_is_below_the_minimum"));
		}
		let msa = pallet_msa::PublicKeyToMsaId::<Rt>::get(who);
		let epoch = Capacity::get_current_epoch();
		let mut ledger = msa.and_then(Capacity::get_capacity_for);
		let mut refill = false;
		match (msa, &mut ledger) {
			(None, _) => why.push(("C28", "the_key_has_no_msa")),
			(_, None) => why.push(("C28", "there_is_no_capacity")),
			(_, Some(l)) => {
				if l.last_replenished_epoch < epoch {
					refill = true;
					l.remaining_capacity = l.total_capacity_issued;
					l.last_replenished_epoch = epoch;
				}
				if l.remaining_capacity < fee {
					why.push(("C28", "there_is_too_little_capacity"));
				} else {
					l.remaining_capacity -= fee;
				}
			},
		}
		// the ledger as it has to be, and then the calls by themselves
		let expected = why.is_empty().then(|| {
			tentatively(|| {
				Capacity::set_capacity_for(msa.unwrap(), ledger.clone().unwrap());
				let done = tentatively_or(n <= MaxBatch::get() as usize, || {
					calls.iter().all(|c| c.clone().dispatch(RuntimeOrigin::signed(who)).is_ok())
				});
				(done, facts())
			})
		});
		let before = facts();
		let seen = tentatively(|| {
			let info = outer.get_dispatch_info();
			guarded(|| Ext::from(tip).validate(&who, &outer, &info, len).map(|_| ()))
		});
		let mut outcome = None;
		let out = outer.clone();
		let Some(res) = self.o.attempt("C28", format!("epoch {epoch}, {who} (msa {msa:?}) pays with capacity, length {len}, tip {tip}, fee {fee}: {calls:?}"), || {
			// a transaction that may not be included leaves no trace
			let mut r = Ok(());
			let _ = frame_support::storage::with_transaction(|| -> sp_runtime::TransactionOutcome<Result<(), DispatchError>> {
				match execute(Ext::from(tip), who, out, len) {
					Ok(d) => {
						outcome = Some(d);
						sp_runtime::TransactionOutcome::Commit(Ok(()))
					},
					Err(e) => {
						r = Err(format!("{e:?}"));
						sp_runtime::TransactionOutcome::Rollback(Ok(()))
					},
				}
			});
			r
		}) else { return };
		match seen {
			Err(p) => {
				self.o.fail("C28", &format!("panic_{}", panic_sig(&p)), json!(p));
				return
			},
			Ok(v) => {
				self.o.check("C28", v.is_ok() == res.is_ok(), "the_pool_and_the_block_disagree", || json!({"pool": dbg(&v), "block": dbg(&res)}));
			},
		}
		if self.o.verdict("capacity_payment", "C28", &why, false, &res) && !self.o.bad {
			let (done, want) = expected.unwrap();
			let now = facts();
			let got = outcome.unwrap();
			self.seen.insert((done, batch, n));
			self.o.r.count(if done { "calls_that_succeeded" } else { "calls_that_failed_after_payment" });
			self.o.r.count(if batch { "batches_paid" } else { "single_calls_paid" });
			if refill {
				self.o.r.count("replenished_before_payment");
			}
			if ledger.as_ref().unwrap().remaining_capacity == 0 && fee > 0 {
				self.o.r.count("spent_to_the_last_unit");
			}
			self.o.check("C28", got.is_ok() == done, "the_calls_did_not_run_as_they_do_by_themselves", || json!({"by_themselves": done, "paid_with_capacity": dbg(&got)}));
			if now != want {
				let m = msa.unwrap();
				let (l, b) = (Capacity::get_capacity_for(m), Balances::free_balance(&who));
				let diff = difference(&want, &now);
				self.o.fail(
					"C28",
					if l != ledger { "capacity_is_not_lowered_by_the_fee" } else { "something_besides_the_capacity_changed" },
					json!({"capacity": dbg(&l), "expected_capacity": dbg(&ledger), "fee": fee.to_string(), "balance": b.to_string(), "different": diff, "unchanged": now == before}),
				);
			}
			if !self.o.bad {
				self.details(&outer, ref_time, len);
			}
		}
	}
	/// what the fee estimate says about a transaction that has just been paid
	fn details(&mut self, outer: &RuntimeCall, ref_time: u64, len: usize) {
		let dispatch = if self.o.g.chance(1, 2) { Weight::zero() } else { outer.get_dispatch_info().weight };
		let d = match guarded(|| FrequencyTxPayment::compute_capacity_fee_details(outer, &dispatch, len as u32)) {
			Ok(d) => d,
			Err(p) => return self.o.fail("C28", &format!("panic_{}", panic_sig(&p)), json!(p)),
		};
		if let Some(f) = d.inclusion_fee {
			let base = capped(CAPACITY_EXTRINSIC_BASE_WEIGHT);
			let l = (len as u128).saturating_mul(Byte::get());
			let w = capped(Weight::from_parts(ref_time, 0));
			let fits = if dispatch.is_zero() { f.adjusted_weight_fee == w } else { f.adjusted_weight_fee >= w };
			self.o.check("C28", f.base_fee == base && f.len_fee == l && fits && d.tip == 0, "the_fee_estimate_is_not_the_fee", || {
				json!({"base": [f.base_fee.to_string(), base.to_string()], "length": [f.len_fee.to_string(), l.to_string()], "weight": [f.adjusted_weight_fee.to_string(), w.to_string()], "tip": d.tip.to_string()})
			});
			self.o.r.count("estimates_compared");
		}
	}
	fn with_tokens(&mut self) {
		let who = self.who();
		let call = loop {
			let c = self.inner(0);
			if !matches!(c, RuntimeCall::FrequencyTxPayment(_)) {
				break c
			}
		};
		let len = self.length();
		let tip = match self.o.g.below(4) {
			0 => Balances::free_balance(&who),
			1 => self.o.g.below(50) as u128,
			2 => u128::MAX,
			_ => 0,
		};
		let plain = tentatively(|| {
			let r = execute(Plain::from(tip), who, call.clone(), len);
			(r, facts())
		});
		let ledgers: Vec<_> = self.msas.iter().map(|m| Capacity::get_capacity_for(*m)).collect();
		let mut outcome = None;
		let out = call.clone();
		let info = call.get_dispatch_info();
		let fee = TransactionPayment::compute_fee(len as u32, &info, tip);
		let Some(res) = self.o.attempt("C28", format!("{who} pays with tokens, length {len}, tip {tip}: {call:?}"), || {
			outcome = Some(execute(Ext::from(tip), who, out, len).map_err(|e| format!("{e:?}"))?);
			Ok(())
		}) else { return };
		match (&plain.0, &res) {
			(Ok(d), Ok(())) => {
				self.o.r.count("accepted:token_payment");
				let now = facts();
				let after: Vec<_> = self.msas.iter().map(|m| Capacity::get_capacity_for(*m)).collect();
				self.o.check("C28", after == ledgers, "a_token_payment_touched_capacity", || json!({"before": dbg(&ledgers), "after": dbg(&after)}));
				self.o.check("C28", outcome.as_ref() == Some(d) && now == plain.1, "a_token_payment_is_not_the_standard_one", || json!({"standard": dbg(d), "got": dbg(&outcome), "fee": fee.to_string(), "different": difference(&plain.1, &now)}));
			},
			(Err(_), Err(_)) => self.o.r.count("rejected:token_payment"),
			(p, r) => {
				let d = json!({"standard": dbg(p), "got": dbg(r)});
				self.o.fail("C28", "a_token_payment_is_not_the_standard_one", d);
			},
		}
	}
	fn other(&mut self) {
		let who = self.who();
		let g = &mut self.o.g;
		match g.below(9) {
			0 | 1 => {
				let n = System::block_number() + 1;
				System::set_block_number(n);
				Capacity::on_initialize(n);
				self.o.note(format!("block {n}, epoch {}", Capacity::get_current_epoch()));
			},
			2 | 3 => {
				let target = *g.pick(&self.msas);
				let free = Balances::free_balance(&who);
				let amount = 10 + g.below((free / 3).min(u64::MAX as u128 - 1) as u64 + 1) as u128;
				let r = dispatch(RuntimeCall::Capacity(pallet_capacity::Call::stake { target, amount }), RuntimeOrigin::signed(who));
				self.o.note(format!("{who} stakes {amount} to {target}: {r:?}"));
			},
			4 => {
				let target = *g.pick(&self.msas);
				let amount = g.below(2000) as u128;
				let r = Capacity::unstake(RuntimeOrigin::signed(who), target, amount);
				self.o.note(format!("{who} unstakes {amount} from {target}: {r:?}"));
			},
			5 => {
				let m = *g.pick(&self.msas);
				let r = if g.chance(1, 2) { Msa::add_key(m, &who, |_| Ok(())) } else { Msa::delete_key_for_msa(m, &who) };
				self.o.note(format!("key {who} of {m}: {r:?}"));
			},
			6 => {
				Ed::set(*g.pick(&[1, 1, 1, 10, 1000, 100_000]));
				self.o.note(format!("existential deposit {}", Ed::get()));
			},
			_ => {
				// just enough or just too little for a plain remark
				let m = *g.pick(&self.msas);
				if let Some(mut l) = Capacity::get_capacity_for(m) {
					let w = Weights::get()[4].map_or(0, capped);
					let f = capped(CAPACITY_EXTRINSIC_BASE_WEIGHT).saturating_add(w).saturating_add(Byte::get().saturating_mul(g.below(600) as u128));
					let want = f.saturating_add(g.below(3) as u128).saturating_sub(1);
					if want <= l.total_capacity_issued {
						l.remaining_capacity = want;
						Capacity::set_capacity_for(m, l);
						self.o.note(format!("capacity of {m} set to {want}"));
					}
				}
			},
		}
	}
	/// exactly the fee of a remark is left, or one less
	fn edge(&mut self) {
		let Some(w) = Weights::get()[4] else { return };
		let who = self.who();
		let Some(m) = pallet_msa::PublicKeyToMsaId::<Rt>::get(who) else { return };
		let Some(mut l) = Capacity::get_capacity_for(m) else { return };
		if l.last_replenished_epoch < Capacity::get_current_epoch() || Balances::free_balance(&who) < Ed::get() {
			return
		}
		let len = self.o.g.below(600) as usize;
		let fee = capped(CAPACITY_EXTRINSIC_BASE_WEIGHT) + capped(w) + len as u128 * Byte::get();
		let short = self.o.g.chance(1, 2);
		if fee == 0 || l.total_capacity_issued < fee {
			return
		}
		l.remaining_capacity = if short { fee - 1 } else { fee };
		Capacity::set_capacity_for(m, l);
		let c: RuntimeCall = ftp::Call::pay_with_capacity { call: Box::new(frame_system::Call::remark { remark: vec![] }.into()) }.into();
		let r = tentatively(|| guarded(|| (execute(Ext::from(0), who, c, len), Capacity::get_capacity_for(m).map(|l| l.remaining_capacity))));
		self.o.r.count(if short { "one_unit_short" } else { "exactly_enough" });
		let good = match &r {
			Ok((Err(_), _)) => short,
			Ok((Ok(Ok(())), left)) => !short && *left == Some(0),
			_ => false,
		};
		self.o.check("C28", good, "the_boundary_of_what_the_capacity_covers_is_wrong", || json!({"fee": fee.to_string(), "one_short": short, "outcome": dbg(&r)}));
	}
}
/// runs calls so that they all happen or none do
fn tentatively_or(allowed: bool, f: impl FnOnce() -> bool) -> bool {
	if !allowed {
		return false
	}
	let mut done = false;
	let _ = frame_support::storage::with_transaction(|| -> sp_runtime::TransactionOutcome<Result<(), DispatchError>> {
		done = f();
		if done {
			sp_runtime::TransactionOutcome::Commit(Ok(()))
		} else {
			sp_runtime::TransactionOutcome::Rollback(Ok(()))
		}
	});
	done
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 31 + 5);
	let max_batch = *g.pick(&[1u8, 2, 3, 10, 10]);
	MaxBatch::set(max_batch);
	let (num, den) = *g.pick(&[(0u128, 1u128), (1, 1), (1, 1_000_000), (1, 100_000), (3, 70_000), (7, 1), (1, 105_455_001)]);
	Num::set(num);
	Den::set(den);
	let byte = *g.pick(&[0u128, 1, 1, 2, 50]);
	Byte::set(byte);
	Ed::set(*g.pick(&[1, 1, 10, 1000]));
	Per::set(Perbill::from_percent(*g.pick(&[2, 50, 100])));
	let mut w = [None; 5];
	for x in w.iter_mut() {
		*x = match g.below(8) {
			0 => None,
			1 => Some(Weight::zero()),
			2 => Some(Weight::from_parts(u64::MAX >> g.below(3), 0)),
			3 => Some(Weight::from_parts(g.u64() >> g.below(64), g.u64() >> g.below(64))),
			_ => Some(Weight::from_parts(g.below(400_000_000), g.below(20_000))),
		};
	}
	Weights::set(w);
	let about = json!({"fee": format!("{num}/{den} per weight, {byte} per byte"), "max_batch": max_batch, "weights": dbg(&w)});
	let mut h = H { o: Mon::new(r, g, about), msas: vec![], seen: BTreeSet::new() };
	TestExternalities::default().execute_with(|| {
		System::set_block_number(1);
		let rich = 10u128.pow(h.o.g.range(3, 25) as u32);
		for p in PEOPLE {
			if p < 9 {
				Balances::set(p, rich + h.o.g.below(100_000) as u128);
			}
			if p <= 6 {
				match Msa::create_account(p, |_| Ok(())) {
					Ok((id, _)) => h.msas.push(id),
					Err(_) => unreachable!(),
				}
			}
		}
		// another key of an MSA, which has no tokens
		let _ = Msa::add_key(h.msas[0], &9, |_| Ok(()));
		let _ = dispatch(RuntimeCall::Capacity(pallet_capacity::Call::set_epoch_length { length: 3 + h.o.g.below(6) as u32 }), RuntimeOrigin::root());
		for _ in 0..4 {
			let (p, t) = (h.who(), h.msas[h.o.g.usize(4)]);
			let amount = rich / 2;
			let _ = dispatch(RuntimeCall::Capacity(pallet_capacity::Call::stake { target: t, amount }), RuntimeOrigin::signed(p));
		}
		let steps = h.o.g.range(20, 120);
		for _ in 0..steps {
			match h.o.g.weighted(&[12, 4, 6, 2]) {
				0 => h.with_capacity(),
				1 => h.with_tokens(),
				2 => h.other(),
				_ => h.edge(),
			}
			if h.o.bad {
				return
			}
		}
	});
	let sig = (h.o.log.clone(), h.seen.clone());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		h.o.r.sample(json!({ "last_operations": last }));
	}
}
trait Give {
	fn set(w: u64, v: u128);
}
impl Give for Balances {
	fn set(w: u64, v: u128) {
		use frame_support::traits::Currency;
		let _ = <Balances as Currency<u64>>::deposit_creating(&w, v);
	}
}
/// the price list: what costs more work never costs less
fn prices(r: &mut Run) {
	use ftp::capacity_stable_weights::{SubstrateWeight, WeightInfo};
	type S = SubstrateWeight<Rt>;
	let sized: [(&str, fn(u32) -> Weight); 9] = [
		("create_sponsored_account_with_delegation", S::create_sponsored_account_with_delegation),
		("grant_delegation", S::grant_delegation),
		("add_onchain_message", S::add_onchain_message),
		("apply_item_actions", S::apply_item_actions),
		("upsert_page", S::upsert_page),
		("apply_item_actions_with_signature", S::apply_item_actions_with_signature),
		("upsert_page_with_signature", S::upsert_page_with_signature),
		("claim_handle", S::claim_handle),
		("change_handle", S::change_handle),
	];
	let mut g = r.rng(99);
	for (name, f) in sized {
		let mut last = Weight::zero();
		let mut n = 0u32;
		while n < 100_000 {
			let w = guarded(|| f(n));
			r.count("prices_compared");
			let Ok(w) = w else { return r.violation(&format!("panic_{name}"), dbg(&w)) };
			if !r.check(w.ref_time() > 0 && w.ref_time() >= last.ref_time(), "a_larger_call_is_cheaper", || json!({"call": name, "size": n, "weight": dbg(&w), "of_a_smaller_one": dbg(&last)})) {
				return
			}
			last = w;
			n += 1 + g.below(1 + n as u64 / 20) as u32;
		}
	}
	for (name, w) in [("add_public_key_to_msa", S::add_public_key_to_msa()), ("add_ipfs_message", S::add_ipfs_message()), ("delete_page", S::delete_page()), ("delete_page_with_signature", S::delete_page_with_signature())] {
		r.check(w.ref_time() > 0, "a_call_is_free", || json!(name));
	}
}
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system, pallet_balances, pallet_transaction_payment and pallet_utility are stand-ins written after polkadot v1.6.0 (DESIGN.md); pallet-frequency-tx-payment, pallet-capacity and pallet-msa are compiled unmodified from the tree");
	r.assume("a transaction whose validity is refused leaves no trace in the block: the block builder drops what it did");
	r.require("accepted:capacity_payment", 2000);
	r.require("accepted:token_payment", 500);
	r.require("calls_that_failed_after_payment", 300);
	r.require("calls_that_succeeded", 500);
	r.require("batches_paid", 500);
	r.require("replenished_before_payment", 200);
	r.require("one_unit_short", 100);
	r.require("exactly_enough", 100);
	r.require("estimates_compared", 500);
	for w in ["a_call_is_not_eligible", "the_balance_is_below_the_minimum", "the_key_has_no_msa", "there_is_no_capacity", "there_is_too_little_capacity"] {
		r.require(&format!("rejected:capacity_payment:{w}"), 100);
	}
	prices(&mut r);
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		history(&mut r, n);
		n += 1;
	}
	r.finish("a history is distinct if its settings, operations or outcomes differ from every other")
}
