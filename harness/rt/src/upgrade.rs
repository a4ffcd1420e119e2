// C33: a storage migration carries every record over, once.
//
// A history of current calls gives a state in the new form. It is turned back into the form that
// was stored before (written down here, not taken from the migration), upgraded, and compared with
// what it was made from: every key of the chain state has to be as it was.
include!("calls.rs");
use frame_support::traits::fungible::{InspectFreeze, Mutate, MutateFreeze};
use frame_support::traits::{GetStorageVersion, LockIdentifier, LockableCurrency, OnRuntimeUpgrade, StorageVersion, WithdrawReasons};
use frame_support::{storage::Key as NMapKey, Blake2_128Concat, StorageHasher, Twox64Concat};
use pallet_capacity as cap;
use pallet_time_release as rel;
use sp_runtime::traits::BlockNumberProvider;

const PEOPLE: usize = 9;
const UNIT: u128 = 100_000_000;
const MAINNET_GENESIS: &str = "4a587bf17a404e3572747add7aab7bbe56e805a5479c6c436f07f36fcc8d3ae1";
const PASEO_GENESIS: &str = "203c6838fc78ea3660a2f298a58d859519c72a5efdc0f194abd6f0d5ce1838e0";
const REL_LOCK: LockIdentifier = *b"timeRels";
type Balances = pallet_balances::Pallet<Runtime>;
type RelMig = rel::migration::v2::MigrationToV2<Runtime, Balances>;
type Number = u32;
type Bytes = frame_support::BoundedVec<u8, frame_support::traits::ConstU32<1000>>;
// what each record is stored as, as documented by the pallets
#[frame_support::storage_alias]
type SchemaInfos<T: pallet_schemas::Config> = StorageMap<pallet_schemas::Pallet<T>, Twox64Concat, u16, pallet_schemas::SchemaInfo>;
#[frame_support::storage_alias]
type SchemaNameToIds<T: pallet_schemas::Config> = StorageDoubleMap<pallet_schemas::Pallet<T>, Blake2_128Concat, Bytes, Blake2_128Concat, Bytes, pallet_schemas::SchemaVersionId>;
#[frame_support::storage_alias]
type MessagesV2<T: pallet_messages::Config> =
	StorageNMap<pallet_messages::Pallet<T>, (NMapKey<Twox64Concat, Number>, NMapKey<Twox64Concat, u16>, NMapKey<Twox64Concat, u16>), pallet_messages::Message<<T as pallet_messages::Config>::MessagesMaxPayloadSizeBytes>>;
type Snap = mf::core_::storage::Storage;

fn frozen_by(r: rt::RuntimeFreezeReason, a: &AccountId) -> u128 {
	<Balances as InspectFreeze<AccountId>>::balance_frozen(&r, a)
}
fn unfreeze(r: rt::RuntimeFreezeReason, a: &AccountId) {
	<Balances as MutateFreeze<AccountId>>::thaw(&r, a).unwrap();
}
fn vesting() -> rt::RuntimeFreezeReason {
	rel::FreezeReason::TimeReleaseVesting.into()
}
fn go(o: &mut Mon, c: RuntimeCall, by: &AccountId) -> bool {
	let l = label(&c);
	let done = dispatch(c, RuntimeOrigin::signed(by.clone())).is_ok();
	o.r.count(&format!("history:{l}:{}", if done { "done" } else { "refused" }));
	done
}
fn lock_of(id: LockIdentifier, a: &AccountId) -> u128 {
	Balances::locks(a).iter().filter(|l| l.id == id).map(|l| l.amount).sum()
}
/// what is the same whichever way funds are held
fn rest(a: &AccountId) -> (u128, u128, u128) {
	let d = rt::System::account(a).data;
	(d.free, d.reserved, d.frozen)
}
fn version_of<P: GetStorageVersion + frame_support::traits::PalletInfoAccess>() -> u16 {
	(0..=u16::MAX).find(|n| StorageVersion::get::<P>() == StorageVersion::new(*n)).unwrap_or(0)
}
fn set_relay(n: u32) {
	cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(n);
}
fn set_block(n: u32) {
	rt::System::set_block_number(n);
	set_relay(n);
}
/// stakes, unstakes, retargets, withdrawals, schedules and claims
fn live(o: &mut Mon) {
	let providers: Vec<u64> = (0..3)
		.map(|k| {
			pallet_msa::Pallet::<Runtime>::create(RuntimeOrigin::signed(acc(k))).unwrap();
			pallet_msa::Pallet::<Runtime>::create_provider_via_governance(RuntimeOrigin::root(), acc(k), b"p".to_vec().try_into().unwrap()).unwrap();
			pallet_msa::Pallet::<Runtime>::get_msa_by_public_key(&acc(k)).unwrap()
		})
		.collect();
	let mut block = 1;
	let steps = 10 + o.g.below(60);
	for _ in 0..steps {
		let a = acc(o.g.usize(PEOPLE - 1));
		let target = *o.g.pick(&providers);
		let amount = UNIT * o.g.below(120) as u128 + o.g.below(3) as u128;
		let c: RuntimeCall = match o.g.below(14) {
			0..=3 => cap::Call::stake { target, amount }.into(),
			4 | 5 => {
				let all = cap::StakingAccountLedger::<Runtime>::get(&a).map_or(1, |l| l.active);
				cap::Call::unstake { target, requested_amount: if o.g.chance(1, 2) { all } else { amount.max(1) } }.into()
			},
			6 => cap::Call::withdraw_unstaked {}.into(),
			7..=10 => {
				let schedule = rel::ReleaseSchedule { start: block + o.g.below(6) as u32, period: 1 + o.g.below(5) as u32, period_count: 1 + o.g.below(5) as u32, per_period: UNIT * (1 + o.g.below(20)) as u128 };
				rel::Call::transfer { dest: id(&acc(o.g.usize(PEOPLE - 1))), schedule }.into()
			},
			11 => rel::Call::claim {}.into(),
			_ => {
				block += 1 + o.g.below(6) as u32;
				set_block(block);
				cap::CurrentEpoch::<Runtime>::mutate(|e| *e += 1 + o.g.below(12) as u32);
				continue
			},
		};
		go(o, c, &a);
	}
}
/// locks of other kinds and funds held by nobody else's rules have to stay as they are
fn strangers(o: &mut Mon) {
	for k in 0..PEOPLE {
		if o.g.chance(1, 4) {
			let n = UNIT * (1 + o.g.below(500)) as u128;
			Balances::set_lock(*b"stranger", &acc(k), n, WithdrawReasons::all());
			o.r.count("foreign_lock");
		}
	}
}
/// the chain state; the order in which freezes are listed means nothing
fn facts() -> Snap {
	let mut s = kit::facts();
	let at = key(b"Balances", b"Freezes");
	for (k, v) in s.top.iter_mut() {
		if k.starts_with(&at) {
			let mut list = Vec::<frame_support::traits::tokens::IdAmount<rt::RuntimeFreezeReason, u128>>::decode(&mut &v[..]).unwrap();
			list.sort_by_key(|e| e.id.encode());
			*v = list.encode();
		}
	}
	s
}
fn same(o: &mut Mon, what: &str, want: &Snap, got: &Snap) {
	if want != got {
		let d = difference(want, got);
		o.fail("C33", &format!("{what}_state_differs"), json!(d));
	}
	o.r.count(&format!("{what}_compared"));
	o.r.case(&format!("{what}{}", hash_of(&format!("{:?}", got.top))));
}
fn twice(o: &mut Mon, what: &str, run: fn()) {
	let s = facts();
	for _ in 0..2 {
		run();
		same(o, &format!("{what}_again"), &s, &facts());
	}
}
fn older(o: &mut Mon, target: u16) -> u16 {
	o.g.below(target as u64) as u16
}
fn migrate(o: &mut Mon, what: &str, run: fn()) {
	o.r.count(&format!("{what}_run"));
	if let Err(p) = guarded(run) {
		o.fail("C33", &format!("{what}_panic_{}", panic_sig(&p)), json!(p));
	}
}

/// the version key of a pallet as it is now
fn own_version<P: frame_support::traits::PalletInfoAccess>(s: &mut Snap) {
	let key = [&mf::hashing::twox_128(P::name().as_bytes())[..], &mf::hashing::twox_128(b":__STORAGE_VERSION__:")[..]].concat();
	match facts().top.get(&key) {
		Some(v) => {
			s.top.insert(key, v.clone());
		},
		None => {
			s.top.remove(&key);
		},
	}
}
fn claim_all() {
	for k in 0..PEOPLE {
		let _ = rel::Pallet::<Runtime>::claim(RuntimeOrigin::signed(acc(k)));
	}
}
fn schedules_of(a: &AccountId) -> Vec<rel::ReleaseSchedule<u32, u128>> {
	rel::ReleaseSchedules::<Runtime>::get(a).to_vec()
}
fn release(o: &mut Mon) {
	live(o);
	strangers(o);
	let claimed = o.g.chance(1, 2);
	let held: Vec<(AccountId, u128)> = (0..PEOPLE).map(|k| (acc(k), frozen_by(vesting(), &acc(k)))).collect();
	let total: Vec<u128> = held.iter().map(|(a, _)| schedules_of(a).iter().map(|s| s.per_period * s.period_count as u128).sum()).collect();
	let written: Vec<_> = held.iter().map(|(a, _)| schedules_of(a)).collect();
	let want = tentatively(|| {
		claim_all();
		facts()
	});
	let unclaimed = facts();
	let free: Vec<_> = held.iter().map(|(a, _)| (rest(a).0, rest(a).1)).collect();
	for (a, n) in &held {
		if *n > 0 {
			unfreeze(vesting(), a);
			Balances::set_lock(REL_LOCK, a, *n, WithdrawReasons::all());
			o.r.count("vesting_lock");
		}
	}
	StorageVersion::new(older(o, 2)).put::<rel::Pallet<Runtime>>();
	migrate(o, "release", || {
		RelMig::on_runtime_upgrade();
	});
	if o.bad {
		return
	}
	let mut exact = true;
	for (k, (a, n)) in held.iter().enumerate() {
		let lock = lock_of(REL_LOCK, a);
		let got = frozen_by(vesting(), a);
		let due = total[k];
		exact &= got == *n;
		if *n > 0 {
			o.r.count(if due == *n { "vesting:whole" } else { "vesting:partly_claimed" });
		}
		o.check("C33", lock == 0, "an_old_vesting_lock_stays", || json!({"account": k, "lock": lock.to_string()}));
		o.check("C33", got >= *n && got <= due, "the_vesting_freeze_is_not_what_was_locked", || json!({"account": k, "frozen": got.to_string(), "locked": n.to_string(), "scheduled": due.to_string()}));
		o.check("C33", schedules_of(a) == written[k], "a_schedule_changed", || json!({"account": k, "was": format!("{:?}", written[k]), "is": format!("{:?}", schedules_of(a))}));
		o.check("C33", (rest(a).0, rest(a).1) == free[k], "funds_changed", || json!(k));
	}
	o.check("C33", version_of::<rel::Pallet<Runtime>>() == 2, "the_version_is_not_recorded", || json!("time release"));
	let mut unclaimed = unclaimed;
	own_version::<rel::Pallet<Runtime>>(&mut unclaimed);
	if exact {
		same(o, "release", &unclaimed, &facts());
	}
	twice(o, "release", || {
		RelMig::on_runtime_upgrade();
	});
	if claimed {
		claim_all();
		let mut want = want;
		own_version::<rel::Pallet<Runtime>>(&mut want);
		same(o, "release_claimed", &want, &facts());
	}
}

fn key(pallet: &[u8], item: &[u8]) -> Vec<u8> {
	[mf::hashing::twox_128(pallet), mf::hashing::twox_128(item)].concat()
}
fn messages(o: &mut Mon) {
	use pallet_messages::Message;
	let blocks = o.g.below(8);
	let mut all = vec![];
	let mut raw: Vec<(Vec<u8>, Vec<u8>)> = vec![];
	for _ in 0..blocks {
		let block = if o.g.chance(1, 8) { u32::MAX - o.g.below(3) as u32 } else { o.g.below(9) as u32 };
		let mut index: u16 = if o.g.chance(1, 10) { u16::MAX - 250 } else { 0 };
		let schemas: Vec<u16> = (0..o.g.below(4)).map(|_| if o.g.chance(1, 8) { o.g.u16() } else { 1 + o.g.below(6) as u16 }).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
		if all.iter().any(|m: &(u32, u16, u16, Vec<u8>, u64, Option<u64>)| m.0 == block) {
			continue
		}
		let mut per: std::collections::BTreeMap<u16, Vec<(u16, Vec<u8>, u64, Option<u64>)>> = Default::default();
		let many = if o.g.chance(1, 12) { 200 } else { o.g.below(9) };
		for _ in 0..many {
			if schemas.is_empty() {
				break
			}
			let s = *o.g.pick(&schemas);
			let n = match o.g.below(12) {
				0 => 0,
				1 if many < 50 => <Runtime as pallet_messages::Config>::MessagesMaxPayloadSizeBytes::get() as usize - o.g.usize(100),
				_ => o.g.usize(40),
			};
			let payload = o.g.bytes(n);
			let provider = if o.g.chance(1, 3) { o.g.u64() } else { o.g.below(5) };
			let msa = if o.g.chance(1, 2) { Some(if o.g.chance(1, 3) { o.g.u64() } else { o.g.below(5) }) } else { None };
			per.entry(s).or_default().push((index, payload, provider, msa));
			index += if o.g.chance(1, 6) { 2 } else { 1 };
		}
		for (s, list) in per {
			let k = [key(b"Messages", b"Messages"), Twox64Concat::hash(&block.encode()), Twox64Concat::hash(&s.encode())].concat();
			let v: Vec<(Vec<u8>, u64, Option<u64>, u16)> = list.iter().map(|(i, p, pr, m)| (p.clone(), *pr, *m, *i)).collect();
			raw.push((k, v.encode()));
			o.r.max("messages_in_a_block_and_schema", list.len() as u64);
			for (i, p, pr, m) in list {
				all.push((block, s, i, p, pr, m));
			}
		}
	}
	let expected = tentatively(|| {
		for (b, s, i, p, pr, m) in &all {
			MessagesV2::<Runtime>::insert((b, s, i), Message { payload: p.clone().try_into().unwrap(), provider_msa_id: *pr, msa_id: *m });
		}
		StorageVersion::new(2).put::<pallet_messages::Pallet<Runtime>>();
		facts()
	});
	for (k, v) in &raw {
		sp_io::storage::set(k, v);
	}
	o.r.add("old_messages", all.len() as u64);
	StorageVersion::new(older(o, 2)).put::<pallet_messages::Pallet<Runtime>>();
	o.note(format!("{} messages in {} buckets", all.len(), raw.len()));
	migrate(o, "messages", || {
		pallet_messages::migration::v2::MigrateToV2::<Runtime>::on_runtime_upgrade();
	});
	if o.bad {
		return
	}
	same(o, "messages", &expected, &facts());
	let mut found: Vec<_> = MessagesV2::<Runtime>::iter().map(|((b, s, i), m)| (b, s, i, m.payload.to_vec(), m.provider_msa_id, m.msa_id)).collect();
	found.sort();
	all.sort();
	o.check("C33", found == all, "messages_differ", || json!({"want": all.len(), "got": found.len()}));
	twice(o, "messages", || {
		pallet_messages::migration::v2::MigrateToV2::<Runtime>::on_runtime_upgrade();
	});
}

fn schemas(o: &mut Mon) {
	use pallet_schemas::Call;
	type Model = frame_support::BoundedVec<u8, <Runtime as pallet_schemas::Config>::SchemaModelMaxBytesBoundedVecLimit>;
	let upto = o.g.below(14) as u16;
	let known = ["dsnp.update", "dsnp.profile", "dsnp.public-key-key-agreement", "dsnp.public-follows", "dsnp.private-follows", "dsnp.private-connections"];
	for n in 1..=upto {
		let model: Model = format!("{{\"type\":\"record\",\"name\":\"n{n}\",\"fields\":[]}}").into_bytes().try_into().unwrap();
		let name = match o.g.below(6) {
			0 => Some(*o.g.pick(&known)),
			1 => Some(*o.g.pick(&["dsnp.other", "frequency.update", "abc.profile", "dsnp.broadcast"])),
			_ => None,
		};
		let c: RuntimeCall = Call::create_schema_via_governance_v2 {
			creator_key: acc(0),
			model,
			model_type: common_primitives::schema::ModelType::AvroBinary,
			payload_location: *o.g.pick(&[common_primitives::schema::PayloadLocation::OnChain, common_primitives::schema::PayloadLocation::IPFS]),
			settings: Default::default(),
			schema_name: name.map(|n| n.as_bytes().to_vec().try_into().unwrap()),
		}
		.into();
		if let Err(e) = dispatch(c, RuntimeOrigin::root()) {
			o.r.count(&format!("schema_refused:{}", err_name(&e)));
		}
	}
	if pallet_msa::Pallet::<Runtime>::get_msa_by_public_key(&acc(0)).is_some() && upto > 0 {
		o.check("C33", pallet_schemas::Pallet::<Runtime>::get_current_schema_identifier_maximum() > 0, "harness_made_no_schemas", || json!(null));
	}
	// gaps, such as schemas that never were
	for n in 5..=10u16 {
		if o.g.chance(1, 10) {
			SchemaInfos::<Runtime>::remove(n);
			o.r.count("schema_gap");
		}
	}
	let main = o.g.chance(3, 4);
	let mut genesis: [u8; 32] = decode_hex(if main || o.g.chance(1, 2) { MAINNET_GENESIS } else { PASEO_GENESIS });
	let mut changed = false;
	if !main && o.g.chance(2, 3) {
		let i = o.g.usize(32);
		genesis[i] ^= 1 << o.g.below(8);
		changed = true;
	}
	let is_main = genesis == decode_hex(MAINNET_GENESIS);
	assert!(!(changed && is_main));
	frame_system::BlockHash::<Runtime>::insert(0u32, sp_core::H256::from(genesis));
	let mut named = 0;
	let want = tentatively(|| {
		if is_main {
			for (i, n) in known.iter().enumerate() {
				let id = 5 + i as u16;
				let Some(mut info) = SchemaInfos::<Runtime>::get(id) else { continue };
				let (space, what) = n.split_once('.').unwrap();
				let space: Bytes = space.as_bytes().to_vec().try_into().unwrap();
				let what: Bytes = what.as_bytes().to_vec().try_into().unwrap();
				SchemaNameToIds::<Runtime>::insert(space, what, pallet_schemas::SchemaVersionId { ids: vec![id].try_into().unwrap() });
				info.has_name = true;
				SchemaInfos::<Runtime>::insert(id, info);
				named += 1;
			}
		}
		StorageVersion::new(4).put::<pallet_schemas::Pallet<Runtime>>();
		facts()
	});
	o.r.count(if is_main { "schemas_of_the_main_network" } else { "schemas_elsewhere" });
	o.r.add("schemas_named", named);
	StorageVersion::new(older(o, 4)).put::<pallet_schemas::Pallet<Runtime>>();
	o.note(format!("{upto} schemas, {named} to name"));
	migrate(o, "schemas", || {
		rt::Executive::execute_on_runtime_upgrade();
	});
	if o.bad {
		return
	}
	same(o, "schemas", &want, &facts());
	// names that were given since
	for n in known {
		if o.g.chance(1, 3) {
			let (space, what) = n.split_once('.').unwrap();
			let space: Bytes = space.as_bytes().to_vec().try_into().unwrap();
			let what: Bytes = what.as_bytes().to_vec().try_into().unwrap();
			let ids = vec![5 + o.g.below(6) as u16, 700 + o.g.below(9) as u16];
			SchemaNameToIds::<Runtime>::insert(space, what, pallet_schemas::SchemaVersionId { ids: ids.try_into().unwrap() });
			o.r.count("named_since");
		}
	}
	twice(o, "schemas", || {
		rt::Executive::execute_on_runtime_upgrade();
	});
}
fn decode_hex(s: &str) -> [u8; 32] {
	let v: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
	v.try_into().unwrap()
}
/// a migration whose version is already recorded does nothing, whatever the state looks like
fn done_already(o: &mut Mon) {
	live(o);
	for k in 0..PEOPLE {
		if o.g.chance(1, 3) {
			Balances::set_lock(REL_LOCK, &acc(k), UNIT, WithdrawReasons::all());
		}
	}
	frame_system::BlockHash::<Runtime>::insert(0u32, sp_core::H256::from(decode_hex(MAINNET_GENESIS)));
	sp_io::storage::set(&[key(b"Messages", b"Messages"), Twox64Concat::hash(&1u32.encode()), Twox64Concat::hash(&1u16.encode())].concat(), &vec![(vec![1u8], 1u64, Some(2u64), 0u16)].encode());
	let later = o.g.below(3) as u16;
	StorageVersion::new(2 + later).put::<rel::Pallet<Runtime>>();
	StorageVersion::new(2 + later).put::<pallet_messages::Pallet<Runtime>>();
	StorageVersion::new(4 + later).put::<pallet_schemas::Pallet<Runtime>>();
	let s = facts();
	RelMig::on_runtime_upgrade();
	same(o, "release_done_already", &s, &facts());
	pallet_messages::migration::v2::MigrateToV2::<Runtime>::on_runtime_upgrade();
	same(o, "messages_done_already", &s, &facts());
	rt::Executive::execute_on_runtime_upgrade();
	same(o, "schemas_done_already", &s, &facts());
}
pub fn run(r: &mut Run, n: u64) {
	let g = r.rng(0x3300 + n);
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	let mut s = frame_system::GenesisConfig::<Runtime>::default().build_storage().unwrap();
	let balances = (0..PEOPLE - 1).map(|k| (acc(k), 2000 * UNIT)).collect();
	pallet_balances::GenesisConfig::<Runtime> { balances }.assimilate_storage(&mut s).unwrap();
	TestExternalities::new(s).execute_with(|| {
		set_block(1);
		match o.g.below(9) {
			0 | 1 | 2 => release(&mut o),
			3 | 4 | 5 => messages(&mut o),
			6 | 7 => {
				pallet_msa::Pallet::<Runtime>::create(RuntimeOrigin::signed(acc(0))).unwrap();
				pallet_schemas::Pallet::<Runtime>::set_max_schema_model_bytes(RuntimeOrigin::root(), 10_000).unwrap();
				schemas(&mut o)
			},
			_ => done_already(&mut o),
		}
	});
}
