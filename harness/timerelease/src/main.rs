//! C26, C27: release schedules made, claimed, replaced and spent against under a clock that only
//! moves forward, compared with what the periods themselves say.
use frame_support::{
	parameter_types,
	traits::{
		fungible::{InspectFreeze, MutateFreeze},
		BuildGenesisConfig, EnsureOrigin,
	},
};
use kit::*;
use pallet_time_release as tr;
use parity_scale_codec::{Decode, Encode};
use sp_runtime::traits::BlockNumberProvider;
use std::collections::BTreeMap;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Balances: pallet_balances::{Pallet, Call, Storage, Config<T>, Event<T>},
		Release: pallet_time_release::{Pallet, Storage, Call, Event<T>, Config<T>, FreezeReason},
	}
);
kit::system!(Rt, u64, pallet_balances::AccountData<u128>);
kit::balances!(Rt, u128, Ed, Reason, ConstU32<2>);
parameter_types! {
	pub static Ed: u128 = 1;
	pub static Min: u128 = 1;
	pub static MaxSchedules: u32 = 5;
	pub static Clock: u32 = 0;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Encode, Decode, scale_info::TypeInfo, parity_scale_codec::MaxEncodedLen)]
pub enum Reason {
	Release,
	Other,
}
impl From<tr::FreezeReason> for Reason {
	fn from(_: tr::FreezeReason) -> Self {
		Reason::Release
	}
}
impl BlockNumberProvider for Clock {
	type BlockNumber = u32;
	fn current_block_number() -> u32 {
		Clock::get()
	}
}
/// accounts from 100 on may not make schedules
pub struct Permitted;
impl EnsureOrigin<RuntimeOrigin> for Permitted {
	type Success = u64;
	fn try_origin(o: RuntimeOrigin) -> Result<u64, RuntimeOrigin> {
		match frame_system::ensure_signed(o.clone()) {
			Ok(a) if a < 100 => Ok(a),
			_ => Err(o),
		}
	}
}
impl tr::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type RuntimeFreezeReason = Reason;
	type Balance = u128;
	type Currency = Balances;
	type MinReleaseTransfer = Min;
	type TransferOrigin = Permitted;
	type WeightInfo = ();
	type MaxReleaseSchedules = MaxSchedules;
	type BlockNumberProvider = Clock;
}
type Schedule = tr::ReleaseSchedule<u32, u128>;
fn total(s: &Schedule) -> Option<u128> {
	s.per_period.checked_mul(s.period_count as u128)
}
fn end(s: &Schedule) -> u128 {
	s.start as u128 + s.period as u128 * s.period_count as u128
}
/// the tokens of the periods that have not ended: period i (from one) ends at start + i * period
fn unvested(s: &Schedule, now: u32) -> u128 {
	let ended = if now <= s.start { 0 } else { ((now - s.start) / s.period).min(s.period_count) };
	(s.period_count - ended) as u128 * s.per_period
}
fn reasons(s: &Schedule) -> Vec<(&'static str, &'static str)> {
	let mut why = vec![];
	if s.period == 0 {
		why.push(("C27", "the_period_is_zero"));
	}
	if s.period_count == 0 {
		why.push(("C27", "the_count_is_zero"));
	}
	if end(s) > u32::MAX as u128 {
		why.push(("C27", "the_end_overflows"));
	}
	match total(s) {
		None => why.push(("C27", "the_total_overflows")),
		Some(t) if t < Min::get() => why.push(("C27", "the_total_is_below_the_minimum")),
		_ => (),
	}
	why
}
struct H<'a> {
	o: Mon<'a>,
	lists: BTreeMap<u64, Vec<Schedule>>,
	all: u128,
	huge: bool,
}
fn frozen_for(w: u64) -> u128 {
	<Balances as InspectFreeze<u64>>::balance_frozen(&Reason::Release, &w)
}
fn frozen(w: u64) -> u128 {
	frozen_for(w).max(<Balances as InspectFreeze<u64>>::balance_frozen(&Reason::Other, &w))
}
fn free(w: u64) -> u128 {
	Balances::free_balance(&w)
}
impl<'a> H<'a> {
	fn unvested(&self, w: u64) -> u128 {
		self.lists.get(&w).map_or(0, |l| l.iter().map(|s| unvested(s, Clock::get())).sum())
	}
	fn who(&mut self) -> u64 {
		*self.o.g.pick(&[1u64, 2, 3, 4, 5, 6, 100, 101])
	}
	fn schedule(&mut self, budget: u128) -> Schedule {
		let now = Clock::get();
		let g = &mut self.o.g;
		let start = match g.below(8) {
			0 => 0,
			1 => now.saturating_sub(g.below(50) as u32),
			2 => now,
			3 => *g.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 10, 1 << 31]),
			_ => now.saturating_add(g.below(30) as u32),
		};
		let period = match g.below(20) {
			0 => 0,
			1 => *g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 1 << 30]),
			2 => 1,
			_ => 1 + g.below(20) as u32,
		};
		let count = match g.below(20) {
			0 => 0,
			1 => *g.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, 1 << 30]),
			2 => 1,
			_ => 1 + g.below(12) as u32,
		};
		let c = count.max(1) as u128;
		let per = match g.below(12) {
			0 => 0,
			1 => *g.pick(&[u128::MAX, u128::MAX / c, (u128::MAX / c).saturating_add(1), u128::MAX / 2, 1 << 64]),
			2 => budget / c,
			3 => (budget / c).saturating_add(1),
			4 => Min::get() / c,
			5 => (Min::get() + c - 1) / c,
			_ => {
				let b = (budget / c).min(u64::MAX as u128) as u64;
				g.below(b.max(1)) as u128
			},
		};
		Schedule { start, period, period_count: count, per_period: per }
	}
	fn balances(&self) -> BTreeMap<u64, u128> {
		[1u64, 2, 3, 4, 5, 6, 100, 101].iter().map(|w| (*w, Balances::total_balance_of(*w))).collect()
	}
	fn transfer(&mut self) {
		let (from, to) = (self.who(), if self.o.g.chance(1, 6) { 0 } else { self.who() });
		let to = if to == 0 { from } else { to };
		let have = free(from).saturating_sub(frozen(from));
		let s = self.schedule(have);
		let mut why = reasons(&s);
		let mut unsure = false;
		if from >= 100 {
			why.push(("C26", "the_sender_is_not_permitted"));
		}
		let now = Clock::get();
		if let (Some(t), true) = (total(&s), s.period > 0) {
			if free(from).saturating_sub(self.unvested(from)) < t {
				why.push(("C26", "the_tokens_are_not_there_or_not_released"));
			}
			// claims outstanding, other freezes and the existential deposit are not part of this
			if have < t || free(from) - t < Ed::get().max(frozen(from)) || (free(to) == 0 && t < Ed::get()) {
				unsure = true;
			}
			if self.unvested(to).checked_add(t).is_none() {
				why.push(("C27", "the_sum_overflows"));
			}
		}
		let mut list: Vec<Schedule> = self.lists.get(&to).cloned().unwrap_or_default();
		list.retain(|s| unvested(s, now) > 0);
		list.push(s.clone());
		if list.len() > MaxSchedules::get() as usize {
			why.push(("C27", "there_are_too_many_schedules"));
		}
		let before = self.balances();
		let c = RuntimeCall::Release(tr::Call::transfer { dest: to, schedule: s.clone() });
		let Some(res) = self.o.attempt("C27", format!("at {now} {from} -> {to} {s:?}"), || dispatch(c, RuntimeOrigin::signed(from)).map_err(names)) else { return };
		if self.o.verdict("transfer", "C26", &why, unsure, &res) && !self.o.bad {
			let t = total(&s).unwrap();
			let mut want = before.clone();
			*want.get_mut(&from).unwrap() -= t;
			*want.get_mut(&to).unwrap() += t;
			self.lists.insert(to, list);
			self.moved(before, Some((from, to, t)));
		}
	}
	/// exactly the given movement, give or take dust of a sender left below the existential deposit
	fn moved(&mut self, before: BTreeMap<u64, u128>, what: Option<(u64, u64, u128)>) {
		let mut want = before;
		if let Some((f, t, n)) = what {
			*want.get_mut(&f).unwrap() -= n;
			*want.get_mut(&t).unwrap() += n;
			if want[&f] < Ed::get() && f != t {
				let dust = want[&f];
				self.all -= dust;
				want.insert(f, 0);
			}
		}
		let got = self.balances();
		self.o.check("C26", got == want, "balances_change_otherwise", || json!({"got": dbg(&got), "want": dbg(&want)}));
		let issued = Balances::total_issuance();
		let all = self.all;
		self.o.check("C26", issued == all && got.values().sum::<u128>() == all, "total_balances_are_not_conserved", || json!({"issued": issued.to_string(), "expected": all.to_string()}));
	}
	fn update(&mut self) {
		let who = self.who();
		let root = self.o.g.chance(5, 6);
		let n = match self.o.g.below(6) {
			0 => 0,
			1 => MaxSchedules::get() as u64 + self.o.g.below(2),
			_ => self.o.g.range(1, 3),
		};
		let mut b = free(who);
		let mut list = vec![];
		for _ in 0..n {
			let s = self.schedule(b / 2);
			if let Some(t) = total(&s) {
				b = b.saturating_sub(t);
			}
			list.push(s);
		}
		let mut why: Vec<_> = list.iter().flat_map(reasons).collect();
		if !root {
			why.push(("C26", "the_origin_is_not_root"));
		}
		if list.len() > MaxSchedules::get() as usize {
			why.push(("C27", "there_are_too_many_schedules"));
		}
		let sum = list.iter().try_fold(0u128, |a, s| a.checked_add(total(s)?));
		match sum {
			None => why.push(("C27", "the_sum_overflows")),
			Some(t) if free(who) < t => why.push(("C26", "the_tokens_are_not_there_or_not_released")),
			_ => (),
		}
		let before = self.balances();
		let c = RuntimeCall::Release(tr::Call::update_release_schedules { who, release_schedules: list.clone() });
		let o = if root { RuntimeOrigin::root() } else { RuntimeOrigin::signed(who) };
		let Some(res) = self.o.attempt("C27", format!("at {} update {who} {list:?}", Clock::get()), || dispatch(c, o).map_err(names)) else { return };
		// a freeze of an account that does not exist is refused by the currency
		let unsure = free(who) == 0;
		if self.o.verdict("update", "C26", &why, unsure, &res) && !self.o.bad {
			let gone = list.is_empty();
			self.lists.insert(who, list);
			self.moved(before, None);
			if gone {
				self.o.check("C26", frozen_for(who) == 0, "an_emptied_account_is_still_frozen", || json!(who));
			}
		}
	}
	fn claim(&mut self) {
		let by = self.who();
		let who = if self.o.g.chance(1, 2) { by } else { self.who() };
		let c = if by == who && self.o.g.chance(1, 2) { tr::Call::claim {} } else { tr::Call::claim_for { dest: who } };
		let before = self.balances();
		let was = frozen_for(who);
		let Some(res) = self.o.attempt("C27", format!("at {} {by} claims for {who}", Clock::get()), || dispatch(RuntimeCall::Release(c), RuntimeOrigin::signed(by)).map_err(names)) else { return };
		if self.o.verdict("claim", "C26", &[], false, &res) && !self.o.bad {
			let now = Clock::get();
			self.lists.entry(who).or_default().retain(|s| unvested(s, now) > 0);
			self.moved(before, None);
			let (got, want) = (frozen_for(who), self.unvested(who));
			self.o.check("C26", got == want, "claimed_account_has_other_tokens_frozen", || json!({"who": who, "frozen": got.to_string(), "unreleased": want.to_string()}));
			if want < was {
				self.o.r.count("claims_that_released");
			}
			if want == 0 && was > 0 {
				self.o.r.count("claims_of_the_last_period");
			}
			let kept: Vec<Schedule> = Release::release_schedules(who).into_inner();
			let model = self.lists[&who].clone();
			self.o.check("C26", kept == model, "claimed_account_lists_other_schedules", || json!({"got": dbg(&kept), "want": dbg(&model)}));
		}
	}
	fn spend(&mut self) {
		let (from, to) = (self.who(), self.who());
		if from == to {
			return
		}
		let now = Clock::get();
		let have = free(from);
		let kept = self.unvested(from);
		let g = &mut self.o.g;
		let n = match g.below(6) {
			0 => have,
			1 => have.saturating_sub(kept),
			2 => have.saturating_sub(kept).saturating_add(1),
			3 => have.saturating_sub(frozen(from)),
			_ => g.below((have.min(u64::MAX as u128) as u64).max(1)) as u128,
		};
		let death = g.chance(1, 2);
		let c = if death { pallet_balances::Call::transfer_allow_death { dest: to, value: n } } else { pallet_balances::Call::transfer_keep_alive { dest: to, value: n } };
		let mut why = vec![];
		if have.saturating_sub(n) < kept || n > have {
			why.push(("C26", "the_tokens_are_not_there_or_not_released"));
		}
		let before = self.balances();
		let Some(res) = self.o.attempt("C27", format!("at {now} {from} pays {to} {n}"), || dispatch(RuntimeCall::Balances(c), RuntimeOrigin::signed(from)).map_err(names)) else { return };
		let free_to_spend = have.saturating_sub(frozen(from)) >= n && have - n >= Ed::get() && free(to) >= Ed::get();
		if self.o.verdict("payment", "C26", &why, !free_to_spend, &res) && !self.o.bad {
			self.moved(before, Some((from, to, n)));
		}
	}
	fn tick(&mut self) {
		let g = &mut self.o.g;
		let d = *g.pick(&[1u32, 1, 2, 3, 5, 10, 10, 40, 200]);
		let mut t = Clock::get().saturating_add(d);
		if self.huge && g.chance(1, 6) {
			t = t.max(*g.pick(&[1 << 31, u32::MAX - 12, u32::MAX - 1, u32::MAX]));
		}
		Clock::set(t);
		self.o.note(format!("time {t}"));
	}
	fn other(&mut self) {
		let who = self.who();
		if free(who) < Ed::get() {
			return
		}
		let g = &mut self.o.g;
		if g.chance(1, 2) {
			let _ = <Balances as MutateFreeze<u64>>::thaw(&Reason::Other, &who);
		} else {
			let n = g.below(free(who).min((u64::MAX - 1) as u128) as u64 + 1) as u128;
			let _ = <Balances as MutateFreeze<u64>>::set_freeze(&Reason::Other, &who, n);
		}
	}
	fn observe(&mut self) {
		for w in [1u64, 2, 3, 4, 5, 6, 100, 101] {
			let (have, kept, fr) = (free(w), self.unvested(w), frozen_for(w));
			self.o.r.count("accounts_observed");
			if kept > 0 {
				self.o.r.count("accounts_with_unreleased_tokens");
			}
			let ok = have >= kept && fr >= kept;
			self.o.check("C26", ok, "unreleased_tokens_are_not_frozen_or_gone", || json!({"who": w, "has": have.to_string(), "unreleased": kept.to_string(), "frozen": fr.to_string()}));
			let n = Release::release_schedules(w).len();
			self.o.check("C27", n <= MaxSchedules::get() as usize, "more_schedules_than_allowed", || json!({"who": w, "schedules": n}));
			if self.o.bad {
				return
			}
		}
	}
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 43 + 3);
	Ed::set(*g.pick(&[1u128, 1, 10]));
	Min::set(*g.pick(&[0u128, 1, 10, 100]));
	MaxSchedules::set(*g.pick(&[1u32, 2, 3, 5, 50]));
	let huge = g.chance(1, 3);
	Clock::set(*g.pick(&[0u32, 0, 1, 100]));
	let mut all = 0u128;
	let mut init = vec![];
	for w in [1u64, 2, 3, 4, 5, 100] {
		let b = match g.below(6) {
			0 => continue,
			1 if huge => u128::MAX / 7,
			2 => Ed::get(),
			_ => Ed::get() + g.below(2000) as u128,
		};
		init.push((w, b));
		all += b;
	}
	let about = json!({"existential_deposit": Ed::get().to_string(), "minimum": Min::get().to_string(), "schedules": MaxSchedules::get(), "balances": dbg(&init)});
	let mut t = frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap();
	pallet_balances::GenesisConfig::<Rt> { balances: init.clone() }.assimilate_storage(&mut t).unwrap();
	let mut ext = TestExternalities::new(t);
	let ops = g.range(5, if r.thorough() { 200 } else { 60 });
	let mut h = H { o: Mon::new(r, g, about), lists: Default::default(), all, huge };
	ext.execute_with(|| {
		System::set_block_number(1);
		if h.o.g.chance(1, 4) && !init.is_empty() {
			// schedules the chain starts with
			let mut items = vec![];
			let mut bad = false;
			for _ in 0..h.o.g.range(1, 4) {
				let (w, b) = *h.o.g.pick(&init);
				let s = h.schedule(b / 2);
				bad |= !reasons(&s).is_empty();
				items.push((w, s.start, s.period, s.period_count, s.per_period));
				let l = h.lists.entry(w).or_default();
				l.push(s);
				bad |= l.len() > MaxSchedules::get() as usize;
			}
			for (w, l) in &h.lists {
				let sum = l.iter().try_fold(0u128, |a, s| a.checked_add(total(s)?));
				bad |= sum.map_or(true, |t| t > free(*w));
			}
			h.o.note(format!("genesis {items:?}"));
			let res = guarded(|| BuildGenesisConfig::build(&tr::GenesisConfig::<Rt> { _config: Default::default(), schedules: items }));
			if bad {
				h.o.r.count("bad_genesis");
				h.o.check("C27", res.is_err(), "an_invalid_genesis_is_accepted", || json!(null));
				return
			}
			h.o.r.count("good_genesis");
			if !h.o.check("C27", res.is_ok(), "a_valid_genesis_is_refused", || dbg(&res)) {
				return
			}
			h.observe();
		}
		for _ in 0..ops {
			match h.o.g.weighted(&[8, 3, 6, 5, 8, 1]) {
				0 => h.transfer(),
				1 => h.update(),
				2 => h.claim(),
				3 => h.spend(),
				4 => h.tick(),
				_ => h.other(),
			}
			if h.o.bad {
				return
			}
			h.observe();
			if h.o.bad {
				return
			}
		}
		// in the end everything is released
		if h.o.g.chance(1, 2) {
			let last = h.lists.values().flatten().map(end).max().unwrap_or(0);
			Clock::set(Clock::get().max(last as u32));
			for w in [1u64, 2, 3, 4, 5, 6, 100, 101] {
				let c = RuntimeCall::Release(tr::Call::claim_for { dest: w });
				let res = h.o.attempt("C27", format!("at {} last claim for {w}", Clock::get()), || dispatch(c, RuntimeOrigin::signed(1)).map_err(names));
				let f = frozen_for(w);
				let l = Release::release_schedules(w).len();
				h.o.check("C26", res == Some(Ok(())) && f == 0 && l == 0, "tokens_stay_frozen_after_the_last_period", || json!({"who": w, "frozen": f.to_string(), "schedules": l, "claim": dbg(&res)}));
				h.o.r.count("final_claims");
				if h.o.bad {
					return
				}
			}
		}
	});
	let sig = (h.lists.iter().map(|(k, v)| (*k, v.encode())).collect::<Vec<_>>(), h.o.log.len(), Clock::get());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		h.o.r.sample(json!({ "last_operations": last }));
	}
}
/// the arithmetic of one schedule at the edges of every integer
fn arithmetic(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 47 + 11);
	for _ in 0..200 {
		let e32 = |g: &mut Rng| match g.below(4) {
			0 => g.u32(),
			1 => g.below(20) as u32,
			2 => (1u64 << g.below(33)).wrapping_sub(g.below(2)) as u32,
			_ => u32::MAX - g.below(5) as u32,
		};
		let per = match g.below(4) {
			0 => g.u64() as u128 * g.u64() as u128,
			1 => g.below(1000) as u128,
			2 => u128::MAX >> g.below(128),
			_ => u128::MAX / (1 + e32(&mut g) as u128),
		};
		let s = Schedule { start: e32(&mut g), period: e32(&mut g), period_count: e32(&mut g), per_period: per };
		let got = guarded(|| (s.end(), s.total_amount()));
		let want = ((end(&s) <= u32::MAX as u128).then(|| end(&s) as u32), total(&s));
		r.count("schedules_computed");
		if !r.check(got == Ok(want), "end_or_total_differs", || json!({"schedule": dbg(&s), "got": dbg(&got), "want": dbg(&want)})) {
			return
		}
		if s.period == 0 || want.0.is_none() || want.1.is_none() {
			continue
		}
		for _ in 0..8 {
			let p = g.below(s.period_count as u64 + 2) as u32;
			let t = match g.below(3) {
				0 => s.start.saturating_add(s.period.saturating_mul(p)).saturating_sub(g.below(2) as u32),
				1 => e32(&mut g),
				_ => want.0.unwrap().saturating_sub(g.below(3) as u32),
			};
			let f = guarded(|| s.frozen_amount(t));
			let u = unvested(&s, t);
			r.count("frozen_amounts_computed");
			if !r.check(f == Ok(u), "frozen_amount_differs", || json!({"schedule": dbg(&s), "time": t, "got": dbg(&f), "want": u.to_string()})) {
				return
			}
		}
	}
}
trait Total {
	fn total_balance_of(w: u64) -> u128;
}
impl Total for Balances {
	fn total_balance_of(w: u64) -> u128 {
		Balances::free_balance(&w) + Balances::reserved_balance(&w)
	}
}
fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system and pallet_balances are stand-ins written after polkadot v1.6.0 (DESIGN.md); the pallet is compiled unmodified from the tree");
	r.assume("time is monotone; dust of an account reaped by its own transfer leaves the issuance");
	if r.prop == "C26" {
		r.require("accepted:transfer", 2000);
		r.require("accepted:update", 300);
		r.require("claims_that_released", 1000);
		r.require("claims_of_the_last_period", 200);
		r.require("final_claims", 1000);
		r.require("rejected:payment:the_tokens_are_not_there_or_not_released", 500);
	} else {
		r.require("accepted:transfer", 2000);
		for w in ["the_period_is_zero", "the_count_is_zero", "the_end_overflows", "the_total_overflows", "the_total_is_below_the_minimum", "there_are_too_many_schedules"] {
			r.require(&format!("rejected:transfer:{w}"), 100);
			r.require(&format!("rejected:update:{w}"), 50);
		}
		r.require("bad_genesis", 100);
		r.require("good_genesis", 100);
		r.require("frozen_amounts_computed", 50_000);
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		history(&mut r, n);
		if r.prop == "C27" {
			arithmetic(&mut r, n);
		}
		n += 1;
	}
	r.finish("a history is distinct if the schedules it leaves, its length or the time it ends at differ from every other")
}
