// C39: someone who follows the events knows the state. `Told` is built from nothing but the events of
// the blocks, and compared with the chain after every transaction.
type Schedule = pallet_time_release::ReleaseSchedule<u32, u128>;

#[derive(Default, Clone)]
struct Told {
	/// events of this block that were read
	read: usize,
	keys: Map<Key, u64>,
	last_msa: u64,
	retired: Set<u64>,
	providers: Set<u64>,
	delegations: Set<(u64, u64)>,
	handles: Map<u64, Vec<u8>>,
	schemas: u16,
	names: Map<Vec<u8>, Vec<u16>>,
	max_model: u32,
	epoch_length: u32,
	/// (tokens, capacity)
	staked: Map<(Key, u64), (u128, u128)>,
	thawing: Map<Key, u128>,
	items: Map<(u64, u16), u32>,
	pages: Map<(u64, u16, u16), u32>,
	schedules: Map<Key, Vec<Schedule>>,
	/// as last said to be frozen
	frozen: Map<Key, u128>,
	messages: u32,
	by_passkey: Vec<Key>,
	/// in this step
	withdrawn: Map<u64, u128>,
	restaked: Set<u64>,
	regranted: Set<(u64, u64)>,
	claimed: Vec<Key>,
	updated: Vec<Key>,
}
fn left(v: &[Schedule], now: u32) -> u128 {
	v.iter()
		.map(|s| {
			let full = now.saturating_sub(s.start) / s.period;
			s.per_period * s.period_count.saturating_sub(full) as u128
		})
		.sum()
}
impl Told {
	/// what does not fit what was told before
	fn read(&mut self, now: u32) -> (Vec<(&'static str, String)>, Vec<&'static str>) {
		use rt::RuntimeEvent as E;
		self.withdrawn.clear();
		self.restaked.clear();
		self.regranted.clear();
		self.claimed.clear();
		self.updated.clear();
		self.by_passkey.clear();
		let mut wrong = vec![];
		let mut kinds = vec![];
		let all = rt::System::events();
		for e in &all[self.read.min(all.len())..] {
			let mut says = |k: &'static str, fits: bool| {
				kinds.push(k);
				if !fits {
					wrong.push((k, format!("{:?}", e.event)));
				}
			};
			match e.event.clone() {
				E::Msa(m) => {
					use pallet_msa::Event as M;
					match m {
						M::MsaCreated { msa_id, key } => {
							says("MsaCreated", msa_id == self.last_msa + 1 && !self.keys.contains_key(&key));
							self.last_msa = msa_id;
							self.keys.insert(key, msa_id);
						},
						M::PublicKeyAdded { msa_id, key } => {
							says("PublicKeyAdded", self.keys.values().any(|m| *m == msa_id) && !self.keys.contains_key(&key));
							self.keys.insert(key, msa_id);
						},
						M::PublicKeyDeleted { key } => says("PublicKeyDeleted", self.keys.remove(&key).is_some()),
						M::MsaRetired { msa_id } => says("MsaRetired", msa_id > 0 && msa_id <= self.last_msa && self.keys.values().all(|m| *m != msa_id) && self.retired.insert(msa_id)),
						M::ProviderCreated { provider_id } => says("ProviderCreated", self.providers.insert(provider_id.0)),
						M::DelegationGranted { provider_id, delegator_id } => {
							says("DelegationGranted", true);
							self.delegations.insert((delegator_id.0, provider_id.0));
							self.regranted.insert((delegator_id.0, provider_id.0));
						},
						M::DelegationRevoked { provider_id, delegator_id } => {
							says("DelegationRevoked", self.delegations.remove(&(delegator_id.0, provider_id.0)));
							self.regranted.insert((delegator_id.0, provider_id.0));
						},
						M::DelegationUpdated { provider_id, delegator_id } => {
							says("DelegationUpdated", true);
							self.regranted.insert((delegator_id.0, provider_id.0));
						},
						_ => (),
					}
				},
				E::Handles(h) => {
					use pallet_handles::Event as H;
					match h {
						H::HandleClaimed { msa_id, handle } => says("HandleClaimed", self.handles.insert(msa_id, handle).is_none()),
						H::HandleRetired { msa_id, handle } => says("HandleRetired", self.handles.remove(&msa_id) == Some(handle)),
						_ => (),
					}
				},
				E::Schemas(s) => {
					use pallet_schemas::Event as S;
					match s {
						S::SchemaCreated { schema_id, .. } => {
							says("SchemaCreated", schema_id == self.schemas + 1);
							self.schemas = schema_id;
						},
						S::SchemaMaxSizeChanged { max_size } => {
							says("SchemaMaxSizeChanged", true);
							self.max_model = max_size;
						},
						S::SchemaNameCreated { schema_id, name } => {
							says("SchemaNameCreated", schema_id <= self.schemas && !self.names.values().flatten().any(|s| *s == schema_id));
							self.names.entry(name).or_default().push(schema_id);
						},
						_ => (),
					}
				},
				E::StatefulStorage(s) => {
					use pallet_stateful_storage::Event as S;
					match s {
						S::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash } =>
							says("ItemizedPageUpdated", self.items.insert((msa_id, schema_id), curr_content_hash).unwrap_or(0) == prev_content_hash),
						S::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash } => says("ItemizedPageDeleted", self.items.remove(&(msa_id, schema_id)).unwrap_or(0) == prev_content_hash),
						S::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash } =>
							says("PaginatedPageUpdated", self.pages.insert((msa_id, schema_id, page_id), curr_content_hash).unwrap_or(0) == prev_content_hash),
						S::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash } => says("PaginatedPageDeleted", self.pages.remove(&(msa_id, schema_id, page_id)) == Some(prev_content_hash)),
						_ => (),
					}
				},
				E::Messages(pallet_messages::Event::MessagesInBlock) => {
					self.messages += 1;
					says("MessagesInBlock", self.messages == 1);
				},
				E::Capacity(c) => {
					use pallet_capacity::Event as P;
					match c {
						P::Staked { account, target, amount, capacity } => {
							says("Staked", amount > 0);
							let x = self.staked.entry((account, target)).or_default();
							*x = (x.0 + amount, x.1 + capacity);
							self.restaked.insert(target);
						},
						P::UnStaked { account, target, amount, capacity } => {
							let x = self.staked.entry((account.clone(), target)).or_default();
							let fits = x.0 >= amount && x.1 >= capacity;
							*x = (x.0.saturating_sub(amount), x.1.saturating_sub(capacity));
							*self.thawing.entry(account).or_default() += amount;
							self.restaked.insert(target);
							says("UnStaked", fits);
						},
						P::StakeWithdrawn { account, amount } => {
							let x = self.thawing.entry(account).or_default();
							says("StakeWithdrawn", amount > 0 && *x >= amount);
							*x = x.saturating_sub(amount);
						},
						P::EpochLengthUpdated { blocks } => {
							says("EpochLengthUpdated", true);
							self.epoch_length = blocks;
						},
						P::CapacityWithdrawn { msa_id, amount } => {
							says("CapacityWithdrawn", self.staked.keys().any(|(_, m)| *m == msa_id));
							*self.withdrawn.entry(msa_id).or_default() += amount;
						},
						_ => (),
					}
				},
				E::TimeRelease(t) => {
					use pallet_time_release::Event as T;
					match t {
						T::ReleaseScheduleAdded { to, release_schedule, .. } => {
							says("ReleaseScheduleAdded", release_schedule.period > 0);
							let v = self.schedules.entry(to.clone()).or_default();
							let frozen = left(v, now) + release_schedule.per_period * release_schedule.period_count as u128;
							v.push(release_schedule);
							self.frozen.insert(to, frozen);
						},
						T::Claimed { who, amount } => {
							// what remains frozen, or what no longer is
							let remains = left(self.schedules.get(&who).map_or(&[], |v| &v[..]), now);
							let before = self.frozen.insert(who.clone(), remains).unwrap_or(0);
							says("Claimed", amount == remains || amount == before.saturating_sub(remains));
							self.claimed.push(who);
						},
						T::ReleaseSchedulesUpdated { who } => {
							says("ReleaseSchedulesUpdated", true);
							let v = pallet_time_release::ReleaseSchedules::<Runtime>::get(&who).into_inner();
							self.frozen.insert(who.clone(), v.iter().map(|s| s.per_period * s.period_count as u128).sum());
							self.schedules.insert(who.clone(), v);
							self.updated.push(who);
						},
						_ => (),
					}
				},
				e =>
					if let Some(account_id) = passkeys::told(&e) {
						says("TransactionExecutionSuccess", true);
						self.by_passkey.push(account_id);
					},
			}
		}
		self.read = all.len();
		(wrong, kinds)
	}
}
impl World<'_> {
	fn told(&mut self, b: &View, a: &View, shown: &dyn Fn() -> Value) {
		if self.o.prop != "C39" {
			return
		}
		let now = self.now;
		let mut t = std::mem::take(&mut self.told);
		let (wrong, kinds) = t.read(now);
		let o = &mut self.o;
		for k in kinds {
			o.r.count(&format!("event:{k}"));
		}
		for (k, e) in wrong {
			o.check("C39", false, &format!("{k}_does_not_fit_what_was_told_before"), || json!({"event": e, "call": shown()}));
		}
		macro_rules! same {
			($what:literal, $told:expr, $is:expr) => {{
				let (told, is) = ($told, $is);
				o.check("C39", told == is, concat!($what, "_differ_from_what_was_told"), || json!({"told": format!("{told:?}"), "is": format!("{is:?}"), "call": shown()}));
			}};
		}
		o.r.count("compared");
		same!("keys", &t.keys, &a.keys);
		same!("providers", &t.providers, &a.providers);
		let active: Set<(u64, u64)> = a.grants.iter().filter(|(_, x)| x.0 == 0).map(|(k, _)| *k).collect();
		same!("delegations", &t.delegations, &active);
		for (k, x) in &a.grants {
			if b.grants.get(k) != Some(x) {
				o.check("C39", t.regranted.contains(k), "a_delegation_changed_without_an_event", || json!({"delegation": k, "call": shown()}));
			}
		}
		let gone: Set<u64> = (1..=a.last_msa).filter(|m| a.keys.values().all(|x| x != m)).collect();
		same!("retired_msas", &t.retired, &gone);
		let handles: Map<u64, Vec<u8>> = a.handles.iter().map(|(m, h)| (*m, h.0.clone())).collect();
		same!("handles", &t.handles, &handles);
		same!("schemas", t.schemas, a.schemas);
		for (name, ids) in &t.names {
			let is: Vec<(u8, u16)> = rt::Schemas::get_schema_versions(name.clone()).unwrap_or_default().into_iter().map(|v| (v.schema_version, v.schema_id)).collect();
			let told: Vec<(u8, u16)> = ids.iter().enumerate().map(|(i, s)| (i as u8 + 1, *s)).collect();
			same!("schema_names", told, is);
		}
		for s in 1..=a.schemas {
			let named = rt::Schemas::get_schema_info(s).is_some_and(|i| i.has_name);
			same!("named_schemas", t.names.values().flatten().any(|x| *x == s), named);
		}
		same!("size_limits_of_models", t.max_model, rt::Schemas::get_schema_model_max_bytes());
		same!("epoch_lengths", t.epoch_length, pallet_capacity::EpochLength::<Runtime>::get());
		// staking
		let staked: Map<(Key, u64), (u128, u128)> = t.staked.iter().filter(|(_, x)| x.0 > 0).map(|(k, x)| (k.clone(), *x)).collect();
		let is: Map<(Key, u64), (u128, u128)> = pallet_capacity::StakingTargetLedger::<Runtime>::iter().map(|(k, m, d)| ((k, m), (d.amount, d.capacity))).collect();
		same!("stakes", staked, is);
		let mut issued: Map<u64, (u128, u128)> = Map::new();
		for ((_, m), x) in &t.staked {
			let y = issued.entry(*m).or_default();
			*y = (y.0 + x.0, y.1 + x.1);
		}
		let is: Map<u64, (u128, u128)> = pallet_capacity::CapacityLedger::<Runtime>::iter().map(|(m, d)| (m, (d.total_tokens_staked, d.total_capacity_issued))).collect();
		same!("issued_capacities", issued, is);
		for (k, (_, thawing)) in &a.stakes {
			same!("thawing_stakes", t.thawing.get(k).copied().unwrap_or(0), *thawing);
		}
		for (k, x) in &t.thawing {
			same!("thawing_stakes", *x, a.stakes.get(k).map_or(0, |s| s.1));
		}
		for (m, x) in &b.capacity {
			if !t.restaked.contains(m) {
				let used = x.saturating_sub(a.capacity.get(m).copied().unwrap_or(0));
				same!("capacity_withdrawals", t.withdrawn.get(m).copied().unwrap_or(0), used);
			}
		}
		// stored state
		for m in 1..=a.last_msa {
			for s in [3, 5] {
				if let Ok(p) = rt::StatefulStorage::get_itemized_storage(m, s) {
					same!("item_hashes", t.items.get(&(m, s)).copied().unwrap_or(0), p.content_hash);
				}
			}
			for s in [4, 6] {
				if let Ok(v) = rt::StatefulStorage::get_paginated_storage(m, s) {
					let told: Map<u16, u32> = t.pages.range((m, s, 0)..=(m, s, u16::MAX)).map(|(k, h)| (k.2, *h)).collect();
					let is: Map<u16, u32> = v.into_iter().map(|p| (p.page_id, p.content_hash)).collect();
					same!("page_hashes", told, is);
				}
			}
		}
		same!("blocks_with_messages", t.messages > 0, !a.messages.is_empty());
		// release schedules
		let mut is: Map<Key, Vec<Schedule>> = Map::new();
		for (k, v) in pallet_time_release::ReleaseSchedules::<Runtime>::iter() {
			is.insert(k, v.into_inner());
		}
		for v in [&mut is, &mut t.schedules] {
			for l in v.values_mut() {
				l.retain(|s| left(&[s.clone()], now) > 0);
			}
			v.retain(|_, l| !l.is_empty());
		}
		same!("release_schedules", &t.schedules, &is);
		self.told = t;
	}
	/// the parts of it that tell of an outcome only
	fn told_of(&mut self, ok: bool, unsigned: bool, sender: &Key, inside: &[Leaf], shown: &dyn Fn() -> Value) {
		if self.o.prop != "C39" {
			return
		}
		let (t, o) = (&self.told, &mut self.o);
		let want: Vec<Key> = if ok && unsigned { vec![sender.clone()] } else { vec![] };
		o.check("C39", t.by_passkey == want, "the_success_of_a_passkey_call_is_not_told_as_it_was", || shown());
		if let ([Leaf { call, actor, batched: false, wrapped: false }], true) = (inside, ok) {
			let want = match call {
				C::TimeRelease(pallet_time_release::Call::claim {}) => Some(actor.clone()),
				C::TimeRelease(pallet_time_release::Call::claim_for { dest: MultiAddress::Id(d) }) => Some(d.clone()),
				_ => None,
			};
			o.check("C39", t.claimed == want.into_iter().collect::<Vec<_>>(), "a_claim_is_not_told_as_it_was", || shown());
		}
	}
	/// what governance may do
	fn decree(&mut self) {
		use pallet_schemas::Call as S;
		let before = view();
		let schedules = |g: &mut Rng, now: u32| -> Vec<Schedule> {
			let n = g.usize(3);
			(0..n)
				.map(|_| Schedule { start: now + g.below(5) as u32, period: 1 + g.below(5) as u32, period_count: 1 + g.below(5) as u32, per_period: UNIT * (1 + g.below(5)) as u128 })
				.collect()
		};
		let names: [&[u8]; 6] = [b"dsnp.a", b"dsnp.b", b"dsnp.A", b"other.a", b"bad", b"bad.-x"];
		let mut g = self.o.g.clone();
		let name = g.pick(&names).to_vec();
		let last = rt::Schemas::get_current_schema_identifier_maximum();
		let model: Vec<u8> = b"{\"type\":\"string\"}".to_vec();
		let mut replaced = None;
		let call: RuntimeCall = match g.below(6) {
			0 => S::set_max_schema_model_bytes { max_size: 900 + g.below(70000) as u32 }.into(),
			1 => pallet_capacity::Call::set_epoch_length { length: if g.chance(2, 3) { 1 } else { 1 + g.below(400) as u32 } }.into(),
			2 => S::create_schema_name_via_governance { schema_id: g.below(last as u64 + 2) as u16, schema_name: name.try_into().unwrap() }.into(),
			3 => {
				let schema_name = if g.chance(1, 4) { None } else { Some(name.try_into().unwrap()) };
				S::create_schema_via_governance_v2 { creator_key: acc(1), model: model.try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: OnChain, settings: Default::default(), schema_name }.into()
			},
			4 => {
				let who = g.pick(&self.people).clone();
				let v = schedules(&mut g, self.now);
				replaced = Some((who.clone(), v.clone()));
				pallet_time_release::Call::update_release_schedules { who: id(&who), release_schedules: v }.into()
			},
			_ => Msa::create_provider_via_governance { provider_key: g.pick(&self.people).clone(), provider_name: b"x".to_vec() }.into(),
		};
		self.o.g = g;
		self.o.note(format!("#{} decree {call:?}", self.now));
		let got = taken(call.clone(), None);
		self.o.r.count(&format!("decree:{}:{}", label(&call), if got.is_ok() { "done" } else { "refused" }));
		let shown = || json!({"decree": dbg(&call), "outcome": dbg(&got)});
		self.told(&before, &view(), &shown);
		if let (Some((who, v)), true) = (replaced, got.is_ok()) {
			let is = pallet_time_release::ReleaseSchedules::<Runtime>::get(&who).into_inner();
			self.o.check("C39", is == v, "the_schedules_are_not_those_ordered", || shown());
			let t = &self.told.updated;
			self.o.check("C39", *t == [who], "an_update_of_schedules_is_not_told_as_it_was", || shown());
		}
	}
	/// a call that a passkey makes for an account
	fn by_passkey(&mut self) -> Option<(rt::UncheckedExtrinsic, Key, u32, bool)> {
		let k = self.o.g.usize(PEOPLE);
		let owner = acc(k);
		let (dest, value) = (id(&self.someone()), UNIT * self.o.g.below(300) as u128);
		let call: RuntimeCall = match self.o.g.below(5) {
			0 => pallet_balances::Call::transfer_allow_death { dest, value }.into(),
			1 | 2 => pallet_balances::Call::transfer_keep_alive { dest, value }.into(),
			3 => pallet_balances::Call::transfer_all { dest, keep_alive: self.o.g.chance(1, 2) }.into(),
			_ => self.operation().1,
		};
		let mut passkey = [0u8; 33];
		passkey.copy_from_slice(&self.o.g.bytes(33));
		let current = rt::System::account_nonce(&owner);
		let account_nonce = match self.o.g.below(10) {
			0 => current.wrapping_sub(1),
			1 => current + 1,
			_ => current,
		};
		let how = self.o.g.below(20);
		let (by, signed) = match how {
			0 => ((k + 1) % PEOPLE, wrap_binary_data(passkey.to_vec())),
			1 => (k, passkey.to_vec()),
			2 => (k, wrap_binary_data(vec![1; 33])),
			_ => (k, wrap_binary_data(passkey.to_vec())),
		};
		let proof = MultiSignature::Sr25519(pair(by).sign(&signed));
		Some((passkeys::transaction(passkey, owner.clone(), account_nonce, proof, call)?, owner, account_nonce, how < 3))
	}
	/// what follows on what is there
	fn follow_up(&mut self) -> Option<(Key, RuntimeCall)> {
		let v = view();
		let holder = |m: u64| v.keys.iter().find(|(_, x)| **x == m).map(|(k, _)| k.clone());
		let mut g = self.o.g.clone();
		fn one<T: Clone>(g: &mut Rng, v: Vec<T>) -> Option<T> {
			if v.is_empty() {
				return None
			}
			Some(g.pick(&v).clone())
		}
		let got = (|| -> Option<(Key, RuntimeCall)> {
			let pair = |g: &mut Rng| one(g, v.grants.iter().filter(|(_, x)| x.0 == 0).map(|(k, x)| (*k, x.1.keys().copied().collect::<Vec<u16>>())).collect());
			Some(match g.below(8) {
				0 | 1 => {
					let (k, m) = one(&mut g, v.targets.iter().cloned().collect())?;
					let all = pallet_capacity::StakingTargetLedger::<Runtime>::get(&k, m)?.amount;
					let requested_amount = match g.below(6) {
						0 | 1 => all,
						2 => all.saturating_sub(1 + g.below(2_000_000) as u128),
						_ => all / (2 + g.below(9) as u128),
					};
					(k, pallet_capacity::Call::unstake { target: m, requested_amount }.into())
				},
				2 => {
					let k = one(&mut g, v.stakes.iter().filter(|(_, x)| x.1 > 0).map(|(k, _)| k.clone()).collect())?;
					(k, pallet_capacity::Call::withdraw_unstaked {}.into())
				},
				3 => {
					let ((d, p), _) = pair(&mut g)?;
					(holder(d)?, Msa::revoke_delegation_by_delegator { provider_msa_id: p }.into())
				},
				4 => {
					let ((d, p), schemas) = pair(&mut g)?;
					(holder(d)?, Msa::revoke_schema_permissions { provider_msa_id: p, schema_ids: vec![one(&mut g, schemas)?] }.into())
				},
				5 => {
					let ((d, p), _) = pair(&mut g)?;
					(holder(p)?, Msa::revoke_delegation_by_provider { delegator: d }.into())
				},
				6 => {
					let (m, s) = one(&mut g, (1..=v.last_msa).flat_map(|m| [(m, 3), (m, 5)]).filter(|(m, s)| hash_of_items(*m, *s) != 0).collect())?;
					let n = rt::StatefulStorage::get_itemized_storage(m, s).ok()?.items.len() as u16;
					let all = g.chance(1, 2);
					let actions: Vec<_> = (0..if all { n } else { 1 }).map(|i| st::ItemAction::Delete { index: i }).collect();
					(holder(m)?, State::apply_item_actions { state_owner_msa_id: m, schema_id: s, target_hash: hash_of_items(m, s), actions: actions.try_into().ok()? }.into())
				},
				_ => {
					let all: Vec<_> = (1..=v.last_msa).flat_map(|m| [(m, 4), (m, 6)]).flat_map(|(m, s)| (0..3).map(move |p| (m, s, p))).filter(|(m, s, p)| hash_of_page(*m, *s, *p) != 0).collect();
					let (m, s, p) = one(&mut g, all)?;
					(holder(m)?, State::delete_page { state_owner_msa_id: m, schema_id: s, page_id: p, target_hash: hash_of_page(m, s, p) }.into())
				},
			})
		})();
		self.o.g = g;
		got
	}
}
