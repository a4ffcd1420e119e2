//! C01-C04: capacity staking under random histories, compared with an independent ledger.
use common_primitives::{
	capacity::{Nontransferable, Replenishable, TargetValidator},
	msa::MessageSourceId,
};
use frame_support::{parameter_types, traits::fungible::InspectFreeze};
use kit::*;
use pallet_capacity as cap;
use sp_runtime::Perbill;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
		Capacity: pallet_capacity::{Pallet, Call, Storage, Event<T>, FreezeReason},
	}
);
kit::system!(Rt, u64, pallet_balances::AccountData<u128>);
kit::balances!(Rt, u128, Ed, RuntimeFreezeReason, ConstU32<4>);
parameter_types! {
	pub static Ed: u128 = 1;
	pub static MinStake: u128 = 10;
	pub static MinBalance: u128 = 10;
	pub static MaxChunks: u32 = 4;
	pub static Thaw: u16 = 2;
	pub static MaxEpoch: u32 = 100;
	pub static Per: Perbill = Perbill::from_percent(10);
	pub static Targets: u64 = 4;
}
pub struct Validator;
impl TargetValidator for Validator {
	fn validate(t: MessageSourceId) -> bool {
		t > 0 && t <= Targets::get()
	}
}
impl cap::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = RuntimeFreezeReason;
	type WeightInfo = ();
	type Currency = Balances;
	type TargetValidator = Validator;
	type MinimumStakingAmount = MinStake;
	type MinimumTokenBalance = MinBalance;
	type MaxUnlockingChunks = MaxChunks;
	type UnstakingThawPeriod = Thaw;
	type MaxEpochLength = MaxEpoch;
	type EpochNumber = u32;
	type CapacityPerToken = Per;
}
const REASON: RuntimeFreezeReason = RuntimeFreezeReason::Capacity(cap::FreezeReason::CapacityStaking);

#[derive(Clone, Debug, Default)]
struct Provider {
	tokens: u128,
	issued: u128,
	remaining: u128,
	last_refill: u32,
	// of the current epoch
	spent: u128,
	allowance: u128,
}
#[derive(Clone, Debug, Default)]
struct Model {
	stake: BTreeMap<(u64, u64), u128>,
	thawing: BTreeMap<u64, Vec<(u128, u32)>>,
	prov: BTreeMap<u64, Provider>,
	epoch: u32,
	epoch_start: u32,
	epoch_len: u32,
}
impl Model {
	fn active(&self, who: u64) -> u128 {
		self.stake.iter().filter(|((w, _), _)| *w == who).map(|(_, a)| *a).sum()
	}
	fn frozen(&self, who: u64) -> u128 {
		self.active(who) + self.thawing.get(&who).map(|v| v.iter().map(|c| c.0).sum()).unwrap_or(0)
	}
	fn set_stake(&mut self, who: u64, t: u64, v: u128) {
		if v == 0 {
			self.stake.remove(&(who, t));
		} else {
			self.stake.insert((who, t), v);
		}
	}
}

struct H<'a> {
	r: &'a mut Run,
	g: Rng,
	m: Model,
	prop: String,
	log: Vec<String>,
	block: u32,
	stakers: Vec<u64>,
	bad: bool,
}
impl H<'_> {
	/// reports only what belongs to the property being checked
	fn fail(&mut self, prop: &str, sig: &str, detail: Value) {
		self.bad = true;
		if prop == self.prop {
			let from = self.log.len().saturating_sub(40);
			let d = json!({"what": detail, "history": self.log[from..], "min_stake": MinStake::get().to_string(), "min_balance": MinBalance::get().to_string()});
			self.r.violation(sig, d);
		}
	}
	fn amount(&mut self, hint: u128) -> u128 {
		let min = MinStake::get();
		match self.g.below(14) {
			0 => 0,
			1 => 1,
			2 => min,
			3 => min.saturating_sub(1),
			4 => min + 1,
			5 => hint,
			6 => hint + 1,
			7 => hint.saturating_sub(1),
			8 => hint.saturating_sub(min),
			9 => hint.saturating_sub(min + 1),
			10 => u128::MAX >> self.g.below(40),
			_ => self.g.below(hint.min(u64::MAX as u128 / 2) as u64 + 20) as u128,
		}
	}
	fn call(&mut self, who: u64, c: cap::Call<Rt>) -> Option<Result<(), DispatchError>> {
		self.log.push(format!("b{} e{} {who}: {c:?}", self.block, self.m.epoch));
		let before = state();
		let res = guarded(|| dispatch(RuntimeCall::Capacity(c), RuntimeOrigin::signed(who)));
		match res {
			Err(p) => {
				self.fail("C01", &format!("panic_{}", panic_sig(&p)), json!(p));
				None
			},
			Ok(r) => {
				if let Err(e) = &r {
					let n = format!("refused:{}", err_name(e));
					self.r.count(&n);
					self.log.push(format!("  -> {}", err_name(e)));
					if state() != before {
						self.fail("C01", "a_refused_operation_changed_state", json!(self.log.last()));
					}
				}
				Some(r)
			},
		}
	}
	/// proportional share of `total` rounded, with the slack that fixed-point ratios cause
	fn near_share(part: u128, whole: u128, total: u128, got: u128) -> bool {
		if whole == 0 {
			return true
		}
		let exact = total as f64 * (part as f64 / whole as f64);
		let slack = 2.0 + total as f64 * 4e-9 + exact * 1e-9;
		(got as f64 - exact).abs() <= slack
	}
	fn provider_seen(&self, t: u64) -> (u128, u128, u128, u32) {
		Capacity::get_capacity_for(t).map_or((0, 0, 0, 0), |d| (d.total_tokens_staked, d.total_capacity_issued, d.remaining_capacity, d.last_replenished_epoch))
	}
	fn stake(&mut self) {
		let who = *self.g.pick(&self.stakers.clone());
		let t = self.g.range(0, Targets::get() + 1);
		let bal = Balances::free_balance(who);
		let hint = bal.saturating_sub(self.m.frozen(who));
		let amount = self.amount(hint);
		let seen0 = self.provider_seen(t);
		let cap0 = Capacity::get_target_for(who, t).map_or(0, |d| d.capacity);
		let Some(res) = self.call(who, cap::Call::stake { target: t, amount }) else { return };
		let free = bal.saturating_sub(MinBalance::get()).saturating_sub(self.m.frozen(who));
		let expect = amount.min(free);
		match res {
			Ok(()) => {
				self.r.count("stakes");
				let taken = Capacity::get_target_for(who, t).map_or(0, |d| d.amount).saturating_sub(self.m.stake.get(&(who, t)).copied().unwrap_or(0));
				if t == 0 || t > Targets::get() {
					self.fail("C01", "staked_to_an_invalid_target", json!(t));
				}
				if amount == 0 || taken > amount {
					self.fail("C01", "staked_more_than_asked", json!([amount.to_string(), taken.to_string()]));
				}
				if taken > expect {
					self.fail("C01", "staked_tokens_the_account_does_not_have", json!({"balance": bal.to_string(), "already_frozen": self.m.frozen(who).to_string(), "taken": taken.to_string()}));
				} else if taken < expect {
					self.fail("C01", "staked_less_than_asked_and_available", json!([expect.to_string(), taken.to_string()]));
				}
				let v = self.m.stake.get(&(who, t)).copied().unwrap_or(0) + taken;
				self.m.set_stake(who, t, v);
				let active = self.m.active(who);
				if active < MinStake::get() {
					self.fail("C01", "staked_less_than_the_minimum", json!({"active": active.to_string(), "minimum": MinStake::get().to_string()}));
				}
				let p = self.m.prov.entry(t).or_default();
				p.tokens += taken;
				let seen = self.provider_seen(t);
				let gained = seen.1.saturating_sub(seen0.1);
				let cap = Capacity::get_target_for(who, t).map_or(0, |d| d.capacity);
				if cap != cap0.saturating_add(gained) {
					self.fail("C04", "the_capacity_of_a_stake_differs_from_what_it_issued", json!({"before": cap0.to_string(), "after": cap.to_string(), "issued": gained.to_string()}));
				}
				if seen.2.saturating_sub(seen0.2) != gained || seen.3 != seen0.3 || seen.1 < seen0.1 {
					self.fail("C04", "staking_changed_remaining_capacity_differently_from_issued", json!([dbg(&seen0), dbg(&seen)]));
				}
				let exact = Per::get().deconstruct() as f64 * taken as f64 / 1e9;
				if (gained as f64 - exact).abs() > 1.0 + exact * 1e-9 {
					self.fail("C04", "issued_capacity_is_not_the_configured_share_of_the_stake", json!([taken.to_string(), gained.to_string()]));
				}
				let p = self.m.prov.get_mut(&t).unwrap();
				p.issued += gained;
				p.remaining += gained;
				p.allowance += gained;
			},
			Err(e) => {
				let could = t > 0 && t <= Targets::get() && expect > 0 && self.m.active(who).checked_add(expect).map_or(false, |x| x >= MinStake::get());
				let fits = self.m.prov.get(&t).map_or(true, |p| p.tokens.checked_add(expect).is_some());
				if could && fits {
					self.fail("C01", "a_valid_stake_was_refused", json!([err_name(&e), amount.to_string()]));
				}
			},
		}
	}
	fn unstake(&mut self) {
		let pairs: Vec<(u64, u64)> = self.m.stake.keys().copied().collect();
		let (who, t) = if !pairs.is_empty() && self.g.chance(7, 8) { *self.g.pick(&pairs) } else { (*self.g.pick(&self.stakers.clone()), self.g.range(0, Targets::get() + 1)) };
		let here = self.m.stake.get(&(who, t)).copied().unwrap_or(0);
		let active = self.m.active(who);
		let hint = if self.g.chance(1, 4) { active } else { here };
		let amount = self.amount(hint);
		let seen0 = self.provider_seen(t);
		let cap0 = Capacity::get_target_for(who, t).map_or(0, |d| d.capacity);
		let Some(res) = self.call(who, cap::Call::unstake { target: t, requested_amount: amount }) else { return };
		let chunks = self.m.thawing.get(&who).map_or(0, |v| v.len() as u32);
		match res {
			Ok(()) => {
				self.r.count("unstakes");
				if pairs.iter().filter(|(w, _)| *w == who).count() > 1 {
					self.r.count("unstakes_with_several_targets");
				}
				let after = Capacity::get_target_for(who, t).map_or(0, |d| d.amount);
				let after_active = Capacity::get_staking_account_for(who).map_or(0, |d| d.active);
				let taken = here.saturating_sub(after);
				let released = active.saturating_sub(after_active);
				if amount > here {
					self.fail("C01", "unstaked_more_than_staked_to_the_provider", json!({"staked_there": here.to_string(), "asked": amount.to_string(), "active_fell_by": released.to_string()}));
				}
				if amount == 0 {
					self.fail("C01", "unstaked_zero", json!(t));
				}
				if taken != released {
					self.fail("C01", "active_stake_and_provider_stake_fell_differently", json!({"provider": taken.to_string(), "active": released.to_string(), "asked": amount.to_string()}));
				}
				if taken < amount {
					self.fail("C01", "unstaked_less_than_asked", json!([amount.to_string(), taken.to_string()]));
				}
				if taken > amount && (active - amount) > MinStake::get() {
					self.fail("C01", "unstaked_more_than_asked", json!([amount.to_string(), taken.to_string()]));
				}
				if amount <= active && active - amount < MinStake::get() {
					self.r.count("unstakes_of_all_but_dust");
					if taken < here {
						self.fail("C01", "less_than_the_minimum_stays_staked", json!({"asked": amount.to_string(), "taken": taken.to_string(), "staked_there": here.to_string(), "active": active.to_string()}));
					}
				}
				self.m.set_stake(who, t, here - taken);
				if chunks >= MaxChunks::get() {
					self.fail("C02", "more_pending_unlocks_than_the_maximum", json!(chunks));
				}
				let at = self.m.epoch + Thaw::get() as u32;
				self.m.thawing.entry(who).or_default().push((taken, at));
				let seen = self.provider_seen(t);
				let p = self.m.prov.entry(t).or_default();
				p.tokens = p.tokens.saturating_sub(taken);
				let (tokens0, issued0) = (seen0.0, seen0.1);
				let lost = issued0.saturating_sub(seen.1);
				p.issued = seen.1;
				p.remaining = seen.2;
				if seen.1 > issued0 || seen.2 > seen0.2 || seen.3 != seen0.3 || seen.2 != seen0.2.saturating_sub(lost) {
					self.fail("C04", "unstaking_changed_capacity_wrongly", json!([dbg(&seen0), dbg(&seen)]));
				}
				let whole = here == taken;
				let cap = Capacity::get_target_for(who, t).map_or(0, |d| d.capacity);
				// the provider's total never goes below zero, rounded shares may ask for more
				let fits = if seen.1 > 0 { cap == cap0.saturating_sub(lost) } else { cap <= cap0.saturating_sub(lost) };
				if !fits || (whole && cap != 0) {
					self.fail("C04", "the_capacity_of_a_stake_differs_from_what_was_taken_back", json!({"before": cap0.to_string(), "after": cap.to_string(), "taken_back": lost.to_string()}));
				}
				if !whole && !Self::near_share(taken, tokens0, issued0, lost) && lost != issued0 {
					self.fail("C04", "unstaking_took_the_wrong_share_of_capacity", json!({"taken": taken.to_string(), "of": tokens0.to_string(), "issued": issued0.to_string(), "lost": lost.to_string()}));
				}
			},
			Err(e) => {
				if amount > 0 && amount <= here && chunks < MaxChunks::get() {
					self.fail("C01", "a_valid_unstake_was_refused", json!([err_name(&e), amount.to_string(), here.to_string()]));
				}
				if chunks >= MaxChunks::get() {
					self.r.count("unlock_limit_reached");
				}
			},
		}
	}
	fn withdraw(&mut self) {
		let who = *self.g.pick(&self.stakers.clone());
		let due: u128 = self.m.thawing.get(&who).map_or(0, |v| v.iter().filter(|c| c.1 <= self.m.epoch).map(|c| c.0).sum());
		let waiting: u128 = self.m.frozen(who) - self.m.active(who) - due;
		let f0 = Balances::balance_frozen(&REASON, &who);
		let Some(res) = self.call(who, cap::Call::withdraw_unstaked {}) else { return };
		let freed = f0.saturating_sub(Balances::balance_frozen(&REASON, &who));
		match res {
			Ok(()) => {
				self.r.count("withdrawals");
				if due == 0 || freed > due {
					self.fail("C02", "tokens_released_before_the_thaw_period_ended_or_twice", json!({"due": due.to_string(), "freed": freed.to_string(), "waiting": waiting.to_string()}));
				} else if freed < due {
					self.fail("C02", "thawed_tokens_were_not_released", json!({"due": due.to_string(), "freed": freed.to_string()}));
				}
				let e = self.m.epoch;
				if let Some(v) = self.m.thawing.get_mut(&who) {
					v.retain(|c| c.1 > e);
					if v.is_empty() {
						self.m.thawing.remove(&who);
					}
				}
			},
			Err(e) => {
				if waiting > 0 {
					self.r.count("early_withdrawals_refused");
				}
				if due > 0 {
					self.fail("C02", "a_due_withdrawal_was_refused", json!([err_name(&e), due.to_string()]));
				}
			},
		}
	}
	fn blocks(&mut self, n: u32) {
		for _ in 0..n {
			self.block += 1;
			System::set_block_number(self.block);
			let (e0, i0) = (Capacity::get_current_epoch(), Capacity::get_current_epoch_info().epoch_start);
			if guarded(|| Capacity::on_initialize(self.block)).is_err() {
				self.fail("C03", "on_initialize_panicked", json!(self.block));
				return
			}
			let due = self.block - self.m.epoch_start >= self.m.epoch_len;
			if due {
				self.m.epoch += 1;
				self.m.epoch_start = self.block;
				for p in self.m.prov.values_mut() {
					p.spent = 0;
					p.allowance = p.issued;
				}
				self.r.count("epochs");
			}
			let (e1, i1) = (Capacity::get_current_epoch(), Capacity::get_current_epoch_info().epoch_start);
			self.r.count("blocks");
			if (e1, i1) != (self.m.epoch, self.m.epoch_start) {
				let d = json!({"block": self.block, "epoch_length": self.m.epoch_len, "before": [e0, i0], "after": [e1, i1], "expected": [self.m.epoch, self.m.epoch_start]});
				let sig = if e1 < e0 {
					"the_epoch_went_backward"
				} else if due {
					"an_epoch_that_was_due_did_not_start"
				} else {
					"an_epoch_started_early"
				};
				self.fail("C03", sig, d);
				return
			}
		}
	}
	fn epoch_length(&mut self) {
		let len = match self.g.below(8) {
			0 => 0,
			1 => 1,
			2 => MaxEpoch::get(),
			3 => MaxEpoch::get() + 1,
			4 => u32::MAX,
			_ => self.g.range(1, MaxEpoch::get() as u64) as u32,
		};
		let root = self.g.chance(5, 6);
		let origin = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(1) };
		self.log.push(format!("b{} set_epoch_length {len} root={root}", self.block));
		let before = (Capacity::get_current_epoch(), Capacity::get_current_epoch_info().epoch_start);
		let res = dispatch(RuntimeCall::Capacity(cap::Call::set_epoch_length { length: len }), origin);
		let allowed = root && len <= MaxEpoch::get();
		if res.is_ok() != allowed {
			self.fail("C03", "epoch_length_change_wrongly_decided", json!({"length": len, "root": root, "max": MaxEpoch::get(), "result": dbg(&res)}));
		}
		if res.is_ok() {
			self.m.epoch_len = len;
			self.r.count("epoch_length_changes");
		}
		if before != (Capacity::get_current_epoch(), Capacity::get_current_epoch_info().epoch_start) {
			self.fail("C03", "changing_the_epoch_length_moved_the_epoch", json!(len));
		}
	}
	/// what the fee payment does: refill when allowed, then spend
	fn spend(&mut self) {
		let t = self.g.range(0, Targets::get() + 1);
		let seen0 = self.provider_seen(t);
		let exists = Capacity::get_capacity_for(t).is_some();
		let refill = self.g.chance(4, 5);
		if refill {
			let can = Capacity::can_replenish(t);
			let should = exists && seen0.3 < self.m.epoch;
			if can != should {
				self.fail("C04", "refill_offered_wrongly", json!({"can": can, "epoch": self.m.epoch, "last": seen0.3}));
			}
			if can {
				self.log.push(format!("b{} e{} refill {t}", self.block, self.m.epoch));
				let r = Capacity::replenish_all_for(t);
				let s = self.provider_seen(t);
				self.r.count("refills");
				if r.is_err() || s != (seen0.0, seen0.1, seen0.1, self.m.epoch) {
					self.fail("C04", "a_refill_did_not_restore_exactly_the_issued_total", json!([dbg(&seen0), dbg(&s)]));
				}
				if Capacity::can_replenish(t) {
					self.fail("C04", "a_second_refill_is_possible_in_one_epoch", json!(self.m.epoch));
				}
				if let Some(p) = self.m.prov.get_mut(&t) {
					p.remaining = p.issued;
					p.last_refill = self.m.epoch;
				}
			}
		} else if seen0.3 < self.m.epoch {
			// spending what was left before a refill is not what the runtime does
			return
		}
		let s1 = self.provider_seen(t);
		let amount = self.amount(s1.2);
		self.log.push(format!("b{} e{} spend {t} {amount}", self.block, self.m.epoch));
		let before = state();
		let res = match guarded(|| frame_support::storage::with_storage_layer(|| Capacity::deduct(t, amount))) {
			Ok(r) => r,
			Err(p) => return self.fail("C04", &format!("panic_{}", panic_sig(&p)), json!(p)),
		};
		let s2 = self.provider_seen(t);
		match res {
			Ok(()) => {
				self.r.count("spends");
				if amount > s1.2 {
					self.fail("C04", "spent_more_than_remained", json!([s1.2.to_string(), amount.to_string()]));
				} else if s2 != (s1.0, s1.1, s1.2 - amount, s1.3) {
					self.fail("C04", "a_spend_did_not_lower_remaining_by_exactly_the_amount", json!([dbg(&s1), amount.to_string(), dbg(&s2)]));
				}
				if let Some(p) = self.m.prov.get_mut(&t) {
					p.remaining = p.remaining.saturating_sub(amount);
					p.spent += amount;
					if p.spent > p.allowance {
						let d = json!({"spent": p.spent.to_string(), "allowance": p.allowance.to_string()});
						self.fail("C04", "spending_in_one_epoch_exceeds_what_was_issued", d);
					}
				}
			},
			Err(_) => {
				self.r.count("spends_refused");
				if state() != before {
					self.fail("C04", "a_refused_spend_changed_state", json!(amount.to_string()));
				}
				if exists && amount <= s1.2 {
					self.fail("C04", "a_covered_spend_was_refused", json!([s1.2.to_string(), amount.to_string()]));
				}
			},
		}
	}
	fn transfer(&mut self) {
		let from = *self.g.pick(&self.stakers.clone());
		let to = *self.g.pick(&self.stakers.clone());
		let free = Balances::free_balance(from);
		let v = self.amount(free.saturating_sub(self.m.frozen(from)));
		let frozen = self.m.frozen(from);
		self.log.push(format!("transfer {from}->{to} {v}"));
		let r = dispatch(RuntimeCall::Balances(pallet_balances::Call::transfer_allow_death { dest: to, value: v }), RuntimeOrigin::signed(from));
		if r.is_ok() && v > 0 && from != to {
			self.r.count("transfers");
			if Balances::free_balance(from) < frozen {
				self.fail("C02", "tokens_were_spent_while_staked_or_thawing", json!({"left": Balances::free_balance(from).to_string(), "must_stay": frozen.to_string()}));
			}
		}
	}
	fn invariants(&mut self) {
		// C01: three ledgers, the freeze and the model agree
		let mut per_staker: BTreeMap<u64, u128> = BTreeMap::new();
		let mut per_target: BTreeMap<u64, u128> = BTreeMap::new();
		let mut seen_pairs = BTreeMap::new();
		for (w, t, d) in cap::StakingTargetLedger::<Rt>::iter() {
			*per_staker.entry(w).or_default() += d.amount;
			*per_target.entry(t).or_default() += d.amount;
			seen_pairs.insert((w, t), d.amount);
		}
		if seen_pairs != self.m.stake {
			self.fail("C01", "stake_per_provider_differs_from_history", json!({"ledger": dbg(&seen_pairs), "expected": dbg(&self.m.stake)}));
		}
		for &w in &self.stakers.clone() {
			let active = Capacity::get_staking_account_for(w).map_or(0, |d| d.active);
			let sum = per_staker.get(&w).copied().unwrap_or(0);
			if active != sum {
				self.fail("C01", "active_stake_differs_from_the_sum_over_providers", json!({"staker": w, "active": active.to_string(), "sum": sum.to_string()}));
			}
			let list = Capacity::get_unstake_unlocking_for(w).unwrap_or_default();
			let thawing: u128 = list.iter().map(|c| c.value).sum();
			let frozen = Balances::balance_frozen(&REASON, &w);
			if frozen != active + thawing {
				self.fail("C01", "frozen_balance_differs_from_active_plus_thawing", json!({"staker": w, "frozen": frozen.to_string(), "active": active.to_string(), "thawing": thawing.to_string()}));
			}
			if frozen > Balances::free_balance(w) {
				self.fail("C01", "more_tokens_staked_than_owned", json!({"staker": w, "frozen": frozen.to_string(), "balance": Balances::free_balance(w).to_string()}));
			}
			let mut got: Vec<(u128, u32)> = list.iter().map(|c| (c.value, c.thaw_at)).collect();
			let mut want = self.m.thawing.get(&w).cloned().unwrap_or_default();
			// how chunks of one epoch are grouped is not observable
			let merge = |v: &mut Vec<(u128, u32)>| {
				let mut m: BTreeMap<u32, u128> = BTreeMap::new();
				for (a, e) in v.iter() {
					*m.entry(*e).or_default() += a;
				}
				m
			};
			if merge(&mut got) != merge(&mut want) {
				self.fail("C02", "pending_unlocks_differ_from_history", json!({"staker": w, "ledger": dbg(&got), "expected": dbg(&want)}));
			}
			if list.len() as u32 > MaxChunks::get() {
				self.fail("C02", "more_pending_unlocks_than_the_maximum", json!(list.len()));
			}
			self.r.max("max_pending_unlocks", list.len() as u64);
		}
		for (t, d) in cap::CapacityLedger::<Rt>::iter() {
			let sum = per_target.get(&t).copied().unwrap_or(0);
			if d.total_tokens_staked != sum {
				self.fail("C01", "provider_total_differs_from_the_sum_over_its_stakers", json!({"provider": t, "recorded": d.total_tokens_staked.to_string(), "sum": sum.to_string()}));
			}
			if d.remaining_capacity > d.total_capacity_issued {
				self.fail("C04", "remaining_capacity_exceeds_issued", json!({"provider": t, "details": dbg(&d)}));
			}
			if d.last_replenished_epoch > self.m.epoch {
				self.fail("C04", "refilled_in_a_future_epoch", dbg(&d));
			}
		}
		for t in per_target.keys() {
			if Capacity::get_capacity_for(t).is_none() {
				self.fail("C01", "a_staked_provider_has_no_total", json!(t));
			}
		}
		self.r.count("ledgers_compared");
	}
}

fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n);
	let small = g.chance(2, 3);
	Ed::set(*g.pick(&[1, 1, 5]));
	MinStake::set(*g.pick(&[1, 10, 10, 50]));
	MinBalance::set(*g.pick(&[0, 10, 10, 30]));
	MaxChunks::set(*g.pick(&[1, 2, 4, 4, 40]));
	Thaw::set(*g.pick(&[0, 1, 2, 30]));
	MaxEpoch::set(*g.pick(&[2, 10, 100]));
	Per::set(*g.pick(&[Perbill::from_percent(10), Perbill::from_percent(2), Perbill::one(), Perbill::from_parts(1)]));
	Targets::set(g.range(1, 5));
	let stakers: Vec<u64> = (1..=g.range(1, 4)).collect();
	let scale: u128 = if small { 1 } else { *g.pick(&[100_000_000, 10u128.pow(17)]) };
	let balances: Vec<(u64, u128)> = stakers.iter().map(|s| (*s, 5 + g.below(1000) as u128 * scale)).collect();
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Rt> { balances }.assimilate_storage(&mut t).unwrap();
	let mut ext = TestExternalities::new(t);
	let start_len = g.range(1, MaxEpoch::get() as u64) as u32;
	let prop = r.prop.clone();
	let len = g.range(10, if r.thorough() { 400 } else { 120 });
	ext.execute_with(|| {
		System::set_block_number(1);
		cap::EpochLength::<Rt>::set(start_len);
		let mut h = H { r, g, m: Model { epoch_len: start_len, ..Default::default() }, prop, log: vec![], block: 0, stakers, bad: false };
		h.blocks(1);
		for _ in 0..len {
			let w: [u32; 7] = match h.prop.as_str() {
				"C03" => [1, 1, 1, 8, 4, 1, 0],
				"C04" => [5, 3, 1, 3, 1, 10, 1],
				"C02" => [5, 6, 6, 5, 1, 0, 2],
				_ => [8, 8, 3, 2, 1, 1, 2],
			};
			match h.g.weighted(&w) {
				0 => h.stake(),
				1 => h.unstake(),
				2 => h.withdraw(),
				3 => {
					let n = match h.g.below(4) {
						0 => 1,
						1 => h.m.epoch_len.min(120),
						2 => h.g.range(1, 5) as u32,
						_ => (h.m.epoch_len.saturating_sub(1)).clamp(1, 120),
					};
					h.blocks(n)
				},
				4 => h.epoch_length(),
				5 => h.spend(),
				_ => h.transfer(),
			}
			h.invariants();
			if h.bad {
				break
			}
		}
		let sig = (h.m.stake.clone(), h.m.epoch, h.log.len(), h.m.thawing.clone());
		let last: Vec<String> = h.log.iter().rev().take(4).cloned().collect();
		h.r.case(&sig);
		if h.r.wants_sample() && h.log.len() > 20 {
			let (st, ep) = (dbg(&h.m.stake), h.m.epoch);
			h.r.sample(json!({"final_stakes": st, "epoch": ep, "last_operations": last}));
		}
	});
}

/// no rounding, exact arithmetic at the edges of the integer range
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system and pallet_balances are stand-ins written after polkadot v1.6.0 (DESIGN.md); the capacity pallet is compiled unmodified from the tree");
	r.assume("tokens leave an account only through transfers that respect freezes");
	match r.prop.as_str() {
		"C02" => {
			r.require("withdrawals", 300);
			r.require("early_withdrawals_refused", 100);
			r.require("unlock_limit_reached", 50);
		},
		"C03" => {
			r.require("epochs", 2000);
			r.require("epoch_length_changes", 300);
		},
		"C04" => {
			r.require("spends", 500);
			r.require("refills", 200);
			r.require("spends_refused", 100);
		},
		_ => {
			r.require("stakes", 500);
			r.require("unstakes_with_several_targets", 200);
			r.require("withdrawals", 50);
		},
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		history(&mut r, n);
	}
	r.add("histories", n);
	r.finish("a history is distinct if its final ledgers, epoch or length differ from every other")
}
