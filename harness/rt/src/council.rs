// C36: what the council approves is what is created, and nothing is created without it.
include!("calls.rs");
use common_primitives::schema::{ModelType, PayloadLocation, PayloadLocation::*, SchemaSetting, SchemaSetting::*};
use pallet_msa::Call as Msa;
use pallet_schemas::Call as Sch;
use rt::{Council, RuntimeEvent};
use sp_core::H256;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use RuntimeCall as C;

const PEOPLE: usize = 12;
const MAX_OPEN: usize = 25;
const DURATION: u32 = 36_000;

#[derive(Clone, PartialEq, Debug)]
struct Schema {
	model: Vec<u8>,
	model_type: ModelType,
	location: PayloadLocation,
	settings: Set<String>,
}
/// what the council decides on
#[derive(Clone, PartialEq, Debug, Default)]
struct Register {
	last_msa: u64,
	msas: Map<AccountId, u64>,
	providers: Map<u64, Vec<u8>>,
	schemas: Vec<Schema>,
	names: Map<String, Vec<u16>>,
	max_bytes: u32,
	epoch: u32,
}
const NAMES: [&str; 6] = ["graph.follow", "Graph.Follow", "dsnp.profile", "dsnp.post-it", "abc.d", "graph.follow-x"];
fn observed() -> Register {
	Register {
		last_msa: pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get(),
		msas: pallet_msa::PublicKeyToMsaId::<Runtime>::iter().collect(),
		providers: pallet_msa::ProviderToRegistryEntry::<Runtime>::iter().map(|(p, e)| (p.0, e.provider_name.into_inner())).collect(),
		schemas: (1..=rt::Schemas::get_current_schema_identifier_maximum())
			.filter_map(rt::Schemas::get_schema_by_id)
			.map(|s| Schema { model: s.model, model_type: s.model_type, location: s.payload_location, settings: s.settings.iter().map(|x| format!("{x:?}")).collect() })
			.collect(),
		names: NAMES
			.iter()
			.filter_map(|n| {
				let v = rt::Schemas::get_schema_versions(n.as_bytes().to_vec())?;
				let mut ids: Vec<_> = v.into_iter().map(|x| (x.schema_version, x.schema_id)).collect();
				ids.sort();
				(!ids.is_empty()).then(|| (n.to_lowercase(), ids.into_iter().map(|x| x.1).collect()))
			})
			.collect(),
		max_bytes: rt::Schemas::get_schema_model_max_bytes(),
		epoch: rt::Capacity::get_epoch_length(),
	}
}
/// Who a call is from: root, an account, or so many of the council.
#[derive(Clone, Debug, PartialEq)]
enum By {
	Root,
	Account(AccountId),
	Motion { yes: u32, seats: u32 },
	/// one member, acting on its own
	Member,
}
impl Register {
	fn named(name: &[u8]) -> Option<String> {
		let s = std::str::from_utf8(name).ok()?;
		NAMES.iter().any(|n| n.eq_ignore_ascii_case(s)).then(|| s.to_lowercase())
	}
	fn add_schema(&mut self, model: &[u8], model_type: ModelType, location: PayloadLocation, settings: &[SchemaSetting], name: Option<&[u8]>) -> bool {
		let sound = model == GOOD.as_bytes() || model == LONGER.as_bytes();
		if !sound || model.len() as u32 > self.max_bytes || (settings.contains(&AppendOnly) && location != Itemized) {
			return false
		}
		let name = match name.map(Self::named) {
			Some(None) => return false,
			Some(Some(n)) => Some(n),
			None => None,
		};
		self.schemas.push(Schema { model: model.to_vec(), model_type, location, settings: settings.iter().map(|s| format!("{s:?}")).collect() });
		if let Some(n) = name {
			let id = self.schemas.len() as u16;
			self.names.entry(n).or_default().push(id);
		}
		true
	}
	fn nameable(&self, id: u16, name: &[u8]) -> bool {
		Self::named(name).is_some() && id >= 1 && id as usize <= self.schemas.len() && !self.names.values().any(|v| v.contains(&id))
	}
	/// does what the call ought to do; whether it ought to succeed (None: not decided here)
	fn carry_out(&mut self, c: &RuntimeCall, by: &By) -> Option<bool> {
		let provider_right = matches!(by, By::Root) || matches!(by, By::Motion { yes, .. } if *yes >= 1);
		let schema_right = matches!(by, By::Root) || matches!(by, By::Motion { yes, seats } if 2 * yes > *seats);
		let open = |by: &By| matches!(by, By::Account(_)) && !MAINNET;
		Some(match c {
			C::Msa(Msa::create_provider_via_governance { provider_key, provider_name }) => {
				if !provider_right {
					return Some(false)
				}
				self.provider(provider_key, provider_name)
			},
			C::Msa(Msa::create_provider { provider_name }) => match by {
				By::Account(a) if open(by) => self.provider(a, provider_name),
				_ => false,
			},
			C::Schemas(Sch::create_schema_via_governance { model, model_type, payload_location, settings, .. }) => schema_right && self.add_schema(model, *model_type, *payload_location, settings, None),
			C::Schemas(Sch::create_schema_via_governance_v2 { model, model_type, payload_location, settings, schema_name, .. }) =>
				schema_right && self.add_schema(model, *model_type, *payload_location, settings, schema_name.as_ref().map(|n| &n[..])),
			C::Schemas(Sch::create_schema { model, model_type, payload_location }) => open(by) && self.add_schema(model, *model_type, *payload_location, &[], None),
			C::Schemas(Sch::create_schema_v2 { model, model_type, payload_location, settings }) => open(by) && self.add_schema(model, *model_type, *payload_location, settings, None),
			C::Schemas(Sch::create_schema_v3 { model, model_type, payload_location, settings, schema_name }) =>
				open(by) && self.add_schema(model, *model_type, *payload_location, settings, schema_name.as_ref().map(|n| &n[..])),
			C::Schemas(Sch::create_schema_name_via_governance { schema_id, schema_name }) => {
				if !schema_right || !self.nameable(*schema_id, schema_name) {
					return Some(false)
				}
				self.names.entry(Self::named(schema_name).unwrap()).or_default().push(*schema_id);
				true
			},
			C::Schemas(Sch::set_max_schema_model_bytes { max_size }) => {
				let most = <Runtime as pallet_schemas::Config>::SchemaModelMaxBytesBoundedVecLimit::get();
				if *by != By::Root || *max_size > most {
					return Some(false)
				}
				self.max_bytes = *max_size;
				true
			},
			C::Capacity(pallet_capacity::Call::set_epoch_length { length }) => {
				let most = <Runtime as pallet_capacity::Config>::MaxEpochLength::get();
				if *by != By::Root || *length > most {
					return Some(false)
				}
				self.epoch = *length;
				true
			},
			C::System(frame_system::Call::remark { .. }) => return None,
			C::Msa(Msa::create {}) => match by {
				By::Account(a) if !self.msas.contains_key(a) => {
					self.last_msa += 1;
					self.msas.insert(a.clone(), self.last_msa);
					true
				},
				_ => false,
			},
			// what it may not do is judged when a transaction is admitted: see C35
			C::Msa(Msa::retire_msa {}) => match by {
				By::Account(a) => {
					self.msas.remove(a)?;
					true
				},
				_ => false,
			},
			_ => return None,
		})
	}
	fn provider(&mut self, key: &AccountId, name: &[u8]) -> bool {
		let Some(m) = self.msas.get(key) else { return false };
		let most: u32 = <Runtime as pallet_msa::Config>::MaxProviderNameSize::get();
				let most = most as usize;
		if self.providers.contains_key(m) || name.len() > most {
			return false
		}
		self.providers.insert(*m, name.to_vec());
		true
	}
}
const GOOD: &str = r#"{"name":"n","type":"record","fields":[{"name":"a","type":"string"}]}"#;
const LONGER: &str = r#"{"name":"longer","type":"record","fields":[{"name":"a","type":"string"},{"name":"bb","type":"int"}]}"#;
#[derive(Clone, Debug)]
struct Motion {
	hash: H256,
	call: RuntimeCall,
	index: u32,
	threshold: u32,
	ayes: Set<AccountId>,
	nays: Set<AccountId>,
	end: u32,
}
struct World<'a> {
	o: Mon<'a>,
	all: Vec<u8>,
	now: u32,
	want: Register,
	members: Vec<AccountId>,
	prime: Option<AccountId>,
	motions: Vec<Motion>,
}
impl World<'_> {
	fn someone(&mut self) -> AccountId {
		acc(self.o.g.usize(PEOPLE))
	}
	fn member(&mut self) -> AccountId {
		if self.members.is_empty() || self.o.g.chance(1, 10) {
			self.someone()
		} else {
			self.o.g.pick(&self.members).clone()
		}
	}
	fn model(&mut self) -> Vec<u8> {
		match self.o.g.below(8) {
			0 => b"{\"name\":\"n\" broken".to_vec(),
			1 => b"{}".to_vec(),
			2 | 3 => LONGER.into(),
			_ => GOOD.into(),
		}
	}
	fn name(&mut self) -> Vec<u8> {
		if self.o.g.chance(1, 8) {
			return ["no", "1bad.name", "too.many.parts", "ends.with-", "sp ace.x"][self.o.g.usize(5)].into()
		}
		(*self.o.g.pick(&NAMES)).into()
	}
	fn schema_id(&mut self) -> u16 {
		let n = self.want.schemas.len() as u64;
		self.o.g.below(n + 3) as u16
	}
	fn settings(&mut self) -> (PayloadLocation, Vec<SchemaSetting>) {
		match self.o.g.below(8) {
			0 => (OnChain, vec![]),
			1 => (IPFS, vec![]),
			2 => (Itemized, vec![AppendOnly]),
			3 => (Itemized, vec![SignatureRequired, AppendOnly]),
			4 => (Paginated, vec![SignatureRequired]),
			5 => (Paginated, vec![AppendOnly]),
			6 => (Itemized, vec![]),
			_ => (Paginated, vec![]),
		}
	}
	fn provider_name(&mut self) -> Vec<u8> {
		let n = self.o.g.pick(&[0usize, 1, 5, 15, 16, 17, 40]).clone();
		self.o.g.bytes(n)
	}
	/// something the council has a say in
	fn matter(&mut self) -> RuntimeCall {
		let key = self.someone();
		let (payload_location, settings) = self.settings();
		let settings: Vec<_> = settings;
		let model = self.model().try_into().unwrap();
		let model_type = ModelType::AvroBinary;
		let schema_name = if self.o.g.chance(1, 2) { Some(self.name().try_into().unwrap()) } else { None };
		match self.o.g.below(12) {
			0 | 1 => Msa::create_provider_via_governance { provider_key: key, provider_name: self.provider_name() }.into(),
			2 | 3 => Sch::create_schema_via_governance_v2 { creator_key: key, model, model_type, payload_location, settings: settings.try_into().unwrap(), schema_name }.into(),
			4 => Sch::create_schema_via_governance { creator_key: key, model, model_type, payload_location, settings: settings.try_into().unwrap() }.into(),
			5 => Sch::create_schema_name_via_governance { schema_id: self.schema_id(), schema_name: self.name().try_into().unwrap() }.into(),
			6 => Sch::set_max_schema_model_bytes { max_size: [60, 80, 100, 5000, 70_000][self.o.g.usize(5)] }.into(),
			7 => pallet_capacity::Call::set_epoch_length { length: self.o.g.below(120) as u32 }.into(),
			8 => Msa::create_provider { provider_name: self.provider_name() }.into(),
			9 => Sch::create_schema_v3 { model, model_type, payload_location, settings: settings.try_into().unwrap(), schema_name }.into(),
			10 => Sch::create_schema_v2 { model, model_type, payload_location, settings: settings.try_into().unwrap() }.into(),
			_ => Sch::create_schema { model, model_type, payload_location }.into(),
		}
	}
	fn compare(&mut self, what: &str, shown: &str) {
		let got = observed();
		if got == self.want {
			return
		}
		let w = &self.want;
		let sig = if got.providers.len() > w.providers.len() {
			"a_provider_was_created_without_approval"
		} else if got.schemas.len() > w.schemas.len() {
			"a_schema_was_created_without_approval"
		} else if got.providers.len() < w.providers.len() {
			"an_approved_provider_was_not_created"
		} else if got.schemas.len() < w.schemas.len() {
			"an_approved_schema_was_not_created"
		} else if got.providers != w.providers {
			"the_provider_is_not_what_was_asked_for"
		} else if got.schemas != w.schemas {
			"the_schema_is_not_what_was_asked_for"
		} else if got.names != w.names {
			"the_schema_names_are_not_what_was_approved"
		} else if got.max_bytes != w.max_bytes || got.epoch != w.epoch {
			"a_limit_was_set_by_someone_without_the_right_to"
		} else {
			"the_msas_are_not_as_expected"
		};
		self.o.fail("C36", sig, json!({"step": what, "call": shown, "expected": dbg(&self.want), "got": dbg(&got)}));
	}
	/// the motions as recorded
	fn compare_motions(&mut self, shown: &str) {
		let hashes: Vec<H256> = Council::proposals().into_inner();
		let want: Vec<H256> = self.motions.iter().map(|m| m.hash).collect();
		if hashes != want {
			self.o.fail("C36", "the_open_motions_are_not_as_expected", json!({"call": shown, "expected": dbg(&want), "got": dbg(&hashes)}));
			return
		}
		for m in self.motions.clone() {
			let call = Council::proposal_of(m.hash);
			let v = Council::voting(m.hash);
			let same = call.as_ref() == Some(&m.call) && v.as_ref().is_some_and(|v| v.index == m.index && v.threshold == m.threshold && v.end == m.end);
			self.o.check("C36", same, "a_motion_is_not_what_was_proposed", || json!({"call": shown, "expected": dbg(&m), "got": dbg(&(call, v))}));
		}
	}
	/// A motion made by one of the calls of the pallets: what it has to be, and how many have to agree.
	fn proposed(&self, who: &AccountId, c: &RuntimeCall) -> Option<(RuntimeCall, u32)> {
		let half = (self.members.len() / 2 + 1) as u32;
		let key = who.clone();
		Some(match c.clone() {
			C::Msa(Msa::propose_to_be_provider { provider_name }) => {
				let most: u32 = <Runtime as pallet_msa::Config>::MaxProviderNameSize::get();
				let most = most as usize;
				if provider_name.len() > most || !self.want.msas.contains_key(who) {
					return None
				}
				(Msa::create_provider_via_governance { provider_key: key, provider_name }.into(), 1)
			},
			#[allow(deprecated)]
			C::Schemas(Sch::propose_to_create_schema { model, model_type, payload_location, settings }) =>
				(Sch::create_schema_via_governance { creator_key: key, model, model_type, payload_location, settings }.into(), half),
			C::Schemas(Sch::propose_to_create_schema_v2 { model, model_type, payload_location, settings, schema_name }) =>
				(Sch::create_schema_via_governance_v2 { creator_key: key, model, model_type, payload_location, settings, schema_name }.into(), half),
			C::Schemas(Sch::propose_to_create_schema_name { schema_id, schema_name }) => {
				if !self.want.nameable(schema_id, &schema_name) {
					return None
				}
				(Sch::create_schema_name_via_governance { schema_id, schema_name }.into(), half)
			},
			_ => return None,
		})
	}
	fn record(&mut self, call: RuntimeCall, threshold: u32) {
		let hash = Council::proposals().last().copied().unwrap_or_default();
		self.motions.push(Motion { hash, call, index: Council::proposal_count().wrapping_sub(1), threshold, ayes: Set::new(), nays: Set::new(), end: self.now + DURATION });
	}
	fn run_call(&mut self, c: RuntimeCall, who: RuntimeOrigin) -> Option<Result<(), DispatchError>> {
		let mut got = None;
		self.o.attempt("C36", format!("{c:?}"), || {
			let r = dispatch(c, who);
			got = Some(r);
			r.map_err(names)
		})?;
		got
	}
	fn verdict(&mut self, what: &str, by: &By, want: Option<bool>, got: Result<(), DispatchError>, c: &RuntimeCall) {
		if let Some(w) = want {
			self.o.r.count(&format!("{what}:{}", if w { "done" } else { "refused" }));
			let sig = if w { "is_refused" } else { "is_allowed" };
			self.o.check("C36", got.is_ok() == w, &format!("{what}_{sig}"), || json!({"by": dbg(by), "call": dbg(c), "result": dbg(&got)}));
		}
	}
	fn step(&mut self) {
		match self.o.g.below(30) {
			// asking for something
			0..=5 => {
				let who = self.someone();
				let (payload_location, settings) = self.settings();
				let model = self.model().try_into().unwrap();
				let model_type = ModelType::AvroBinary;
				let schema_name = if self.o.g.chance(1, 2) { Some(self.name().try_into().unwrap()) } else { None };
				#[allow(deprecated)]
				let c: RuntimeCall = match self.o.g.below(5) {
					0 | 1 => Msa::propose_to_be_provider { provider_name: self.provider_name() }.into(),
					2 => Sch::propose_to_create_schema_v2 { model, model_type, payload_location, settings: settings.try_into().unwrap(), schema_name }.into(),
					3 => Sch::propose_to_create_schema { model, model_type, payload_location, settings: settings.try_into().unwrap() }.into(),
					_ => Sch::propose_to_create_schema_name { schema_id: self.schema_id(), schema_name: self.name().try_into().unwrap() }.into(),
				};
				let motion = self.proposed(&who, &c);
				let open = self.motions.len() < MAX_OPEN;
				let again = motion.as_ref().is_some_and(|(m, _)| self.motions.iter().any(|x| x.call == *m));
				let want = motion.is_some() && open && !again;
				let Some(got) = self.run_call(c.clone(), RuntimeOrigin::signed(who.clone())) else { return };
				let shown = format!("{who} {c:?}");
				self.verdict("proposal", &By::Account(who), Some(want), got, &c);
				if want && got.is_ok() {
					let (call, threshold) = motion.unwrap();
					self.o.r.count(&format!("proposed:{}", label(&call)));
					self.record(call, threshold);
				}
				self.compare_motions(&shown);
				self.compare("proposal", &shown);
			},
			// a motion of a member, or something a member does on its own
			6 | 7 => {
				let who = self.member();
				let c = if self.o.g.chance(1, 10) { decoded(&mut self.o.g, &self.all) } else { self.matter() };
				let threshold = self.o.g.below(self.members.len() as u64 + 2) as u32;
				let is_member = self.members.contains(&who);
				let again = self.motions.iter().any(|x| x.call == c);
				let length_bound = c.encoded_size() as u32;
				let open = self.motions.len() < MAX_OPEN;
				let call: RuntimeCall = pallet_collective::Call::<Runtime, pallet_collective::Instance1>::propose { threshold, proposal: Box::new(c.clone()), length_bound }.into();
				if threshold < 2 && Register::default().carry_out(&c, &By::Member).is_none() {
					return
				}
				let Some(got) = self.run_call(call.clone(), RuntimeOrigin::signed(who.clone())) else { return };
				let shown = format!("{who} {call:?}");
				let want = is_member && !again && (threshold < 2 || open);
				self.verdict("motion_of_a_member", &By::Account(who), Some(want), got, &call);
				if want && got.is_ok() {
					if threshold < 2 {
						let by = By::Motion { yes: 1, seats: self.members.len() as u32 };
						let r = self.want.carry_out(&c, &by);
						self.executed(&c, &by, r);
					} else {
						self.record(c, threshold);
					}
				}
				self.compare_motions(&shown);
				self.compare("motion", &shown);
			},
			8 => {
				let who = self.member();
				let c = self.matter();
				let is_member = self.members.contains(&who);
				let length_bound = c.encoded_size() as u32;
				let call: RuntimeCall = pallet_collective::Call::<Runtime, pallet_collective::Instance1>::execute { proposal: Box::new(c.clone()), length_bound }.into();
				let Some(got) = self.run_call(call.clone(), RuntimeOrigin::signed(who.clone())) else { return };
				let shown = format!("{who} {call:?}");
				self.verdict("execution_by_a_member", &By::Account(who), Some(is_member), got, &call);
				if is_member {
					let r = self.want.carry_out(&c, &By::Member);
					self.executed(&c, &By::Member, r);
				}
				self.compare("execution by a member", &shown);
			},
			9..=17 if !self.motions.is_empty() => {
				let who = self.member();
				let k = self.o.g.usize(self.motions.len());
				let m = self.motions[k].clone();
				let approve = self.o.g.chance(3, 4);
				let call: RuntimeCall = pallet_collective::Call::<Runtime, pallet_collective::Instance1>::vote { proposal: m.hash, index: m.index, approve }.into();
				let want = self.members.contains(&who) && !(if approve { &m.ayes } else { &m.nays }).contains(&who);
				let Some(got) = self.run_call(call.clone(), RuntimeOrigin::signed(who.clone())) else { return };
				self.verdict("vote", &By::Account(who.clone()), Some(want), got, &call);
				if want && got.is_ok() {
					let m = &mut self.motions[k];
					m.ayes.remove(&who);
					m.nays.remove(&who);
					if approve { &mut m.ayes } else { &mut m.nays }.insert(who.clone());
				}
				let shown = format!("{who} {call:?}");
				self.compare("vote", &shown);
			},
			18..=22 if !self.motions.is_empty() => {
				let who = self.someone();
				let k = self.o.g.usize(self.motions.len());
				let m = self.motions[k].clone();
				let seats = self.members.len() as u32;
				let (yes, no) = (m.ayes.len() as u32, m.nays.len() as u32);
				let prime = self.prime.as_ref().is_some_and(|p| m.ayes.contains(p));
				let all_in = if prime { seats - no } else { yes };
				let outcome = if yes >= m.threshold {
					Some(Some(yes))
				} else if seats.saturating_sub(no) < m.threshold {
					Some(None)
				} else if self.now < m.end {
					None
				} else if all_in >= m.threshold {
					Some(Some(all_in))
				} else {
					Some(None)
				};
				if matches!(outcome, Some(Some(_))) && Register::default().carry_out(&m.call, &By::Member).is_none() {
					return
				}
				let call: RuntimeCall = pallet_collective::Call::<Runtime, pallet_collective::Instance1>::close {
					proposal_hash: m.hash,
					index: m.index,
					proposal_weight_bound: frame_support::weights::Weight::from_parts(u64::MAX / 4, u64::MAX / 4),
					length_bound: m.call.encoded_size() as u32,
				}
				.into();
				let Some(got) = self.run_call(call.clone(), RuntimeOrigin::signed(who.clone())) else { return };
				let shown = format!("{who} {call:?} of {m:?}");
				self.verdict("closing", &By::Account(who), Some(outcome.is_some()), got, &call);
				if outcome.is_some() && got.is_ok() {
					self.motions.remove(k);
					if let Some(Some(yes)) = outcome {
						let by = By::Motion { yes, seats };
						let r = self.want.carry_out(&m.call, &by);
						self.executed(&m.call, &by, r);
						self.o.r.count(&format!("approved_by:{}", if 2 * yes > seats { "more_than_half" } else { "half_or_less" }));
					} else {
						self.o.r.count("rejected");
					}
				}
				self.compare_motions(&shown);
				self.compare("closing", &shown);
			},
			23 => {
				// of its own accord
				let c = self.matter();
				let by = if self.o.g.chance(1, 2) { By::Root } else { By::Account(self.someone()) };
				let origin = match &by {
					By::Account(a) => RuntimeOrigin::signed(a.clone()),
					_ => RuntimeOrigin::root(),
				};
				let want = self.want.carry_out(&c, &by);
				let Some(got) = self.run_call(c.clone(), origin) else { return };
				self.verdict(if by == By::Root { "by_root" } else { "by_anyone" }, &by, want, got, &c);
				let shown = format!("{by:?} {c:?}");
				self.compare("directly", &shown);
			},
			24 => {
				let a = self.someone();
				let c: RuntimeCall = if self.o.g.chance(1, 4) { Msa::retire_msa {}.into() } else { Msa::create {}.into() };
				if self.want.msas.get(&a).is_some_and(|m| self.want.providers.contains_key(m)) {
					return
				}
				let by = By::Account(a.clone());
				let want = self.want.carry_out(&c, &by);
				let Some(got) = self.run_call(c.clone(), RuntimeOrigin::signed(a)) else { return };
				self.verdict("msa", &by, want, got, &c);
				self.compare("msa", &format!("{by:?} {c:?}"));
			},
			25 if self.o.g.chance(1, 3) => self.seat(),
			26 if self.o.g.chance(1, 8) && !self.motions.is_empty() => {
				self.now = self.o.g.pick(&self.motions).end + self.o.g.below(3) as u32 - 1;
				rt::System::set_block_number(self.now);
			},
			_ => {
				self.now += 1;
				rt::System::set_block_number(self.now);
			},
		}
	}
	fn executed(&mut self, c: &RuntimeCall, by: &By, want: Option<bool>) {
		// the last thing that was executed
		let result = rt::System::events().into_iter().rev().find_map(|e| match e.event {
			RuntimeEvent::Council(pallet_collective::Event::Executed { result, .. }) => Some(result),
			RuntimeEvent::Council(pallet_collective::Event::MemberExecuted { result, .. }) => Some(result),
			_ => None,
		});
		let Some(want) = want else { return };
		let who = match by {
			By::Motion { .. } => "by_motion",
			_ => "by_member",
		};
		self.o.r.count(&format!("{who}:{}:{}", label(c), if want { "done" } else { "refused" }));
		self.o.check("C36", result.is_some_and(|r| r.is_ok() == want), if want { "an_approved_motion_is_refused" } else { "a_motion_does_what_it_may_not" }, || json!({"by": dbg(by), "call": dbg(c), "result": dbg(&result)}));
		if self.o.r.wants_sample() && want {
			let v = json!({"network": NETWORK, "by": dbg(by), "call": dbg(c)});
			self.o.r.sample(v);
		}
		let k = format!("{by:?} {c:?}");
		self.o.r.case(&(NETWORK, k.as_str()));
	}
	/// other members
	fn seat(&mut self) {
		let n = 1 + self.o.g.usize(7);
		let mut v: Vec<AccountId> = (0..PEOPLE).map(acc).collect();
		self.o.g.shuffle(&mut v);
		v.truncate(n);
		v.sort();
		let prime = if self.o.g.chance(1, 3) { Some(v[0].clone()) } else { None };
		let call: RuntimeCall = pallet_collective::Call::<Runtime, pallet_collective::Instance1>::set_members { new_members: v.clone(), prime: prime.clone(), _old_count: 10 }.into();
		let Some(got) = self.run_call(call, RuntimeOrigin::root()) else { return };
		self.o.check("C36", got.is_ok(), "members_cannot_be_set", || json!(dbg(&got)));
		for m in &mut self.motions {
			m.ayes.retain(|a| v.contains(a));
			m.nays.retain(|a| v.contains(a));
		}
		self.members = v;
		self.prime = prime;
	}
}
pub fn run(r: &mut Run, n: u64) {
	let g = r.rng(0x3600 + n);
	let o = Mon::new(r, g, json!({"network": NETWORK}));
	let mut s = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let balances = (0..PEOPLE).map(|k| (acc(k), 1u128 << 50)).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut s).unwrap();
	let mut w = World { o, all: pallets(), now: 1, want: Register::default(), members: vec![], prime: None, motions: vec![] };
	TestExternalities::new(s).execute_with(|| {
		rt::System::set_block_number(1);
		w.want.epoch = rt::Capacity::get_epoch_length();
		let c: RuntimeCall = Sch::set_max_schema_model_bytes { max_size: 5000 }.into();
		w.want.carry_out(&c, &By::Root);
		let got = dispatch(c, RuntimeOrigin::root());
		w.o.check("C36", got.is_ok(), "root_cannot_set_a_limit", || json!(dbg(&got)));
		w.seat();
		for _ in 0..400 {
			if w.o.bad {
				break
			}
			w.step();
		}
	});
}
