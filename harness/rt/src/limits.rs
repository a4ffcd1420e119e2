// C41: the limits, windows and prices of the network are the ones published. Part of the module of
// whole.rs. Every limit is met from both sides with the runtime's own pallets.
const EDGE_CASES: usize = 20;
fn signed(k: usize, payload: Vec<u8>) -> MultiSignature {
	MultiSignature::Sr25519(pair(k).sign(&wrap_binary_data(payload)))
}
fn act(who: usize, c: impl Into<RuntimeCall>) -> Result<(), DispatchError> {
	taken(c.into(), Some(acc(who)))
}
fn decree(c: impl Into<RuntimeCall>) -> Result<(), DispatchError> {
	taken(c.into(), None)
}
thread_local! {
	static TURNS: std::cell::RefCell<Map<u32, u64>> = Default::default();
}
/// each side of a limit in turn, wherever it is met
fn turn(limit: u32) -> u64 {
	TURNS.with(|t| {
		let mut t = t.borrow_mut();
		let x = t.entry(limit).or_default();
		*x += 1;
		(*x - 1) % 4
	})
}
impl World<'_> {
	/// an amount of something of which `limit` are allowed, mostly near the limit
	#[track_caller]
	fn near(&mut self, limit: u64) -> u64 {
		match turn(std::panic::Location::caller().line()) {
			0 => limit,
			1 => limit + 1,
			2 => limit.saturating_sub(1),
			_ => self.o.g.below(limit + limit / 2 + 2),
		}
	}
	/// the operation has to be done if `within` and refused otherwise, without a trace
	fn edge(&mut self, what: &str, within: bool, value: u64, f: impl FnOnce() -> Result<(), DispatchError>) -> bool {
		let before = facts();
		let res = match guarded(f) {
			Ok(r) => r,
			Err(p) => {
				self.o.fail("C41", &format!("panic_{}", panic_sig(&p)), json!({"limit": what, "value": value}));
				return false
			},
		};
		let ok = res.is_ok();
		self.o.note(format!("{what}: {value} -> {}", res.map_err(names).map_or_else(|e| e, |_| "done".into())));
		self.o.r.count(&format!("{what}:{}", if within { "within" } else { "beyond" }));
		self.o.r.case(&(NETWORK, what, value, within));
		let sig = if within { "refused_within_the_limit" } else { "accepted_beyond_the_limit" };
		self.o.check("C41", ok == within, &format!("{what}_{sig}"), || json!({"value": value}));
		if !ok {
			self.o.check("C41", facts() == before, &format!("{what}_refused_but_changed_something"), || json!({"value": value}));
		}
		ok
	}
	/// something else observed at a limit
	fn exact(&mut self, what: &str, got: u128, want: u128) {
		self.o.r.count(&format!("{what}:exact"));
		self.o.check("C41", got == want, &format!("{what}_is_not_as_published"), || json!({"got": got.to_string(), "want": want.to_string()}));
	}
	fn advance(&mut self, blocks: u32) {
		for _ in 0..blocks {
			Executive::conclude(self.now);
			self.now += 1;
			cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(self.now);
			Executive::initialize_at(self.now);
		}
	}
	/// windows of signatures are drawn from before the current block to past their end
	#[track_caller]
	fn ahead(&mut self, window: u64) -> (u32, bool) {
		let d = match turn(std::panic::Location::caller().line()) {
			0 => window - 1,
			1 => window,
			2 => self.o.g.below(2),
			_ => self.o.g.below(window + window / 4),
		};
		(self.now + d as u32, d > 0 && d < window)
	}
	fn new_person(&mut self, k: usize, amount: u128) {
		let r = decree(pallet_balances::Call::force_set_balance { who: id(&acc(k)), new_free: amount });
		self.must(r);
	}
	fn grant_of(&mut self, k: usize, schema_ids: Vec<u16>, expiration: u32) -> RuntimeCall {
		let payload = AddProvider { authorized_msa_id: 1, schema_ids, expiration };
		Msa::create_sponsored_account_with_delegation { delegator_key: acc(k), proof: signed(k, payload.encode()), add_provider_payload: payload }.into()
	}
	fn a_schema(location: common_primitives::schema::PayloadLocation) -> RuntimeCall {
		let model: Vec<u8> = b"{\"name\":\"n\",\"type\":\"record\",\"fields\":[]}".to_vec();
		pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acc(0), model: model.try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: location, settings: Default::default(), schema_name: None }.into()
	}
	fn case(&mut self, which: usize) {
		let now = self.now;
		match which {
			0 => {
				// 25 keys of an MSA
				for i in 1..=26u64 {
					let payload = AddKeyData::<Runtime> { msa_id: 1, expiration: now + 50, new_public_key: acc(100 + i as usize) };
					let c = Msa::add_public_key_to_msa { msa_owner_public_key: acc(0), msa_owner_proof: signed(0, payload.encode()), new_key_owner_proof: signed(100 + i as usize, payload.encode()), add_key_payload: payload };
					if i < 20 {
						let r = act(0, c);
						self.must(r);
					} else {
						self.edge("keys_of_an_msa", i + 1 <= 25, i + 1, || act(0, c));
					}
				}
			},
			1 => {
				let n = self.near(16);
				let r = act(6, Msa::create {});
				let _ = r;
				self.edge("provider_name_bytes", n <= 16, n, || decree(Msa::create_provider_via_governance { provider_key: acc(6), provider_name: vec![b'n'; n as usize] }));
			},
			2 => {
				let (expiration, within) = self.ahead(100);
				let c = self.grant_of(100, vec![1], expiration);
				self.edge("msa_signature_window", within, (expiration - now) as u64, || act(0, c));
			},
			3 => {
				// 50,000 signatures kept
				let c = self.grant_of(100, vec![1], now + 90);
				let r = act(0, c);
				self.must(r);
				let key = [mf::hashing::twox_128(b"Msa"), mf::hashing::twox_128(b"PayloadSignatureRegistryPointer")].concat();
				let mut v = mf::io::storage::get(&key).unwrap_or(vec![0; 4]);
				let n = v.len();
				let count = *self.o.g.pick(&[49_999u32, 49_998, 50_000, 10]);
				v[n - 4..].copy_from_slice(&count.to_le_bytes());
				mf::io::storage::set(&key, &v);
				for i in 0..2 {
					let c = self.grant_of(101 + i, vec![1], now + 60);
					let kept = count + i as u32 + 1;
					if !self.edge("signatures_kept", kept <= 50_000, kept as u64, || act(0, c)) {
						break
					}
				}
			},
			4 => {
				for _ in 0..40 {
					let r = decree(Self::a_schema(OnChain));
					self.must(r);
				}
				let n = self.near(30);
				let c = self.grant_of(100, (1..=n as u16).collect(), now + 50);
				self.edge("schemas_of_a_delegation", n <= 30, n, || act(0, c));
			},
			5 => {
				let at = self.near(65_000).max(1);
				rt::Schemas::set_schema_count((at - 1).min(65_534) as u16);
				self.edge("schemas_there_are", at <= 65_000, at, || decree(Self::a_schema(Itemized)));
			},
			6 => {
				let n = self.near(65_500);
				self.edge("largest_model_limit", n <= 65_500, n, || decree(pallet_schemas::Call::set_max_schema_model_bytes { max_size: n as u32 }));
				let model = [&b"{\"a\":"[..], &vec![b' '; self.near(65_500) as usize - 7], b"1}"].concat();
				let r = decree(pallet_schemas::Call::set_max_schema_model_bytes { max_size: 65_500 });
				self.must(r);
				let n = model.len() as u64;
				self.edge("model_bytes", n <= 65_500, n, || {
					let model = model.try_into().map_err(|_| DispatchError::Other("too long"))?;
					decree(pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acc(0), model, model_type: ModelType::AvroBinary, payload_location: OnChain, settings: Default::default(), schema_name: None })
				});
				let n = 7 + self.o.g.below(3) as usize;
				let model = [&b"{\"a\":"[..], &vec![b' '; n - 7], b"1}"].concat();
				self.edge("smallest_model_bytes", n >= 8, n as u64, || {
					decree(pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acc(0), model: model.try_into().unwrap(), model_type: ModelType::AvroBinary, payload_location: OnChain, settings: Default::default(), schema_name: None })
				});
				let n = self.near(2);
				let settings = vec![SignatureRequired; n as usize];
				self.edge("settings_of_a_schema", n <= 2, n, || {
					let settings = settings.try_into().map_err(|_| DispatchError::Other("too many"))?;
					let model = b"{\"a\":123}".to_vec().try_into().unwrap();
					decree(pallet_schemas::Call::create_schema_via_governance_v2 { creator_key: acc(0), model, model_type: ModelType::AvroBinary, payload_location: Itemized, settings, schema_name: None })
				});
			},
			7 => {
				// the suffixes of a handle are 10 to 99
				let mut seen = Set::new();
				for i in 0..91usize {
					let r = act(100 + i, Msa::create {});
					self.must(r);
					let payload = ClaimHandlePayload::<u32>::new(b"limits".to_vec(), now + 50);
					let c = Handle::claim_handle { msa_owner_key: acc(100 + i), proof: signed(100 + i, payload.encode()), payload };
					let m = pallet_msa::PublicKeyToMsaId::<Runtime>::get(acc(100 + i)).unwrap_or(0);
					if !self.edge("claims_of_a_handle", i < 90, i as u64 + 1, || act(100 + i, c)) {
						break
					}
					if let Some(h) = rt::Handles::get_handle_for_msa(m) {
						seen.insert(h.suffix);
					}
				}
				self.o.check("C41", seen == (10..=99).collect(), "suffixes_are_not_10_to_99", || json!(dbg(&seen)));
			},
			8 => {
				let (expiration, within) = self.ahead(100);
				let payload = ClaimHandlePayload::<u32>::new(b"window".to_vec(), expiration);
				self.edge("handle_signature_window", within, (expiration - now) as u64, || act(5, Handle::claim_handle { msa_owner_key: acc(0), proof: signed(0, payload.encode()), payload }));
			},
			9 => {
				let n = self.near(3072);
				self.edge("message_bytes", n <= 3072, n, || act(0, pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id: 1, payload: vec![1; n as usize] }));
			},
			10 => {
				// 10 items of 1024 bytes with their headers fill a page
				let n = self.near(1024);
				self.edge("item_bytes", n <= 1024, n, || {
					let data = vec![7u8; n as usize].try_into().map_err(|_| DispatchError::Other("too long"))?;
					act(0, State::apply_item_actions { state_owner_msa_id: 1, schema_id: 3, target_hash: 0, actions: vec![st::ItemAction::Add { data }].try_into().unwrap() })
				});
				let add = |n: usize| st::ItemAction::Add { data: vec![3u8; n].try_into().unwrap() };
				for n in [4, 4] {
					let r = act(1, State::apply_item_actions { state_owner_msa_id: 2, schema_id: 3, target_hash: hash_of_items(2, 3), actions: vec![add(1024); n].try_into().unwrap() });
					self.must(r);
				}
				// three items of 2046 bytes together fill it
				let n = self.near(2046).min(3000);
				let x = 550 + self.o.g.below(300);
				let (x, y) = (x.min(n), 500.min(n - x.min(n)));
				let z = (n - x - y).min(1024);
				let total = 8 * 1026 + x + y + z + 6;
				let items: Vec<_> = [x, y, z].iter().map(|n| add(*n as usize)).collect();
				self.edge("bytes_of_an_itemized_page", total <= 10_260, total, || act(1, State::apply_item_actions { state_owner_msa_id: 2, schema_id: 3, target_hash: hash_of_items(2, 3), actions: items.try_into().unwrap() }));
			},
			11 => {
				let n = self.near(5);
				let actions: Vec<_> = (0..n).map(|_| st::ItemAction::Add { data: vec![1u8].try_into().unwrap() }).collect();
				if n > 0 {
					self.edge("actions_of_a_transaction", n <= 5, n, || {
						let actions = actions.try_into().map_err(|_| DispatchError::Other("too many"))?;
						act(0, State::apply_item_actions { state_owner_msa_id: 1, schema_id: 3, target_hash: 0, actions })
					});
				}
			},
			12 => {
				let page_id = self.near(32);
				self.edge("page_id", page_id <= 32, page_id, || act(0, State::upsert_page { state_owner_msa_id: 1, schema_id: 4, page_id: page_id as u16, target_hash: 0, payload: vec![1].try_into().unwrap() }));
				let n = self.near(1024).max(1);
				self.edge("bytes_of_a_page", n <= 1024, n, || {
					let payload = vec![1; n as usize].try_into().map_err(|_| DispatchError::Other("too long"))?;
					act(0, State::upsert_page { state_owner_msa_id: 1, schema_id: 4, page_id: 1, target_hash: hash_of_page(1, 4, 1), payload })
				});
			},
			13 => {
				let (expiration, within) = self.ahead(14_400);
				let payload = st::PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id: 4, page_id: 2, target_hash: 0, expiration, payload: vec![1, 2].try_into().unwrap() };
				self.edge("storage_signature_window", within, (expiration - now) as u64, || act(1, State::upsert_page_with_signature_v2 { delegator_key: acc(0), proof: signed(0, payload.encode()), payload }));
			},
			14 => {
				// one token stays, the stake is a hundredth of a token at least
				let extra = [0, 1, 999_999, 1_000_000, 1_000_001, 7_000_000][self.o.g.usize(6)];
				self.new_person(100, UNIT + extra);
				let asked = [1_000_000, 1_000_000, 999_999, 2_000_000, 5 * UNIT][self.o.g.usize(5)];
				let stake = asked.min(extra);
				let had = rt::Capacity::get_capacity_for(1).map_or(0, |c| c.total_capacity_issued);
				if self.edge("tokens_staked", stake >= 1_000_000, stake as u64, || act(100, pallet_capacity::Call::stake { target: 1, amount: asked })) {
					let issued = rt::Capacity::get_capacity_for(1).map_or(0, |c| c.total_capacity_issued) - had;
					self.exact("capacity_for_a_stake", issued, stake / 50);
					let active = rt::Capacity::get_staking_account_for(acc(100)).map_or(0, |s| s.active);
					self.exact("tokens_left_out_of_a_stake", UNIT + extra - active, UNIT + extra - stake);
				}
			},
			15 => {
				// four chunks thaw at once, for 30 epochs
				let r = decree(pallet_capacity::Call::set_epoch_length { length: 3 });
				self.must(r);
				self.advance(1 + now % 3);
				for i in 1..=5u64 {
					self.edge("chunks_thawing", i <= 4, i, || act(0, pallet_capacity::Call::unstake { target: 1, requested_amount: 5 * UNIT }));
				}
				let from = rt::Capacity::get_current_epoch();
				let mut waited = 0u32;
				while rt::Capacity::get_current_epoch() < from + 28 && waited < 200 {
					self.advance(1);
					waited += 1;
				}
				for _ in 0..10 {
					let e = rt::Capacity::get_current_epoch() - from;
					if self.edge("epochs_of_thawing", e >= 30, e as u64, || act(0, pallet_capacity::Call::withdraw_unstaked {})) {
						break
					}
					self.advance(1);
				}
			},
			16 => {
				let n = self.near(7200);
				self.edge("epoch_length", n <= 7200, n, || decree(pallet_capacity::Call::set_epoch_length { length: n as u32 }));
			},
			17 => {
				let n = self.near(10).max(1);
				let cid = b"bafkreidgvpkjawlxz6sffxzwgooowe5yt7i6wsyg236mfoks77nywkptdq".to_vec();
				let calls = (0..n).map(|_| pallet_messages::Call::add_ipfs_message { schema_id: 2, cid: cid.clone(), payload_length: 9 }.into()).collect();
				self.edge("calls_of_a_capacity_batch", n <= 10, n, || act(0, Paid::pay_with_capacity_batch_all { calls }));
			},
			18 => {
				for i in 1..=51u64 {
					let schedule = pallet_time_release::ReleaseSchedule { start: now + 5, period: 1, period_count: 2, per_period: 1 };
					let c = pallet_time_release::Call::transfer { dest: id(&acc(5)), schedule };
					if i < 48 {
						let r = act(0, c);
						self.must(r);
					} else {
						self.edge("release_schedules", i <= 50, i, || act(0, c));
					}
				}
			},
			19 => {
				let n = self.near(1_000_000);
				let c = if self.o.g.chance(1, 2) { pallet_balances::Call::transfer_allow_death { dest: id(&acc(120)), value: n as u128 } } else { pallet_balances::Call::transfer_keep_alive { dest: id(&acc(120)), value: n as u128 } };
				self.edge("tokens_of_a_new_account", n >= 1_000_000, n, || act(0, c));
			},
			_ => self.parameters(),
		}
	}
	/// what is not an operation of Frequency's own: the parameters the pallets are given
	fn parameters(&mut self) {
		use pallet_collective::{Instance1 as I1, Instance2 as I2};
		type R = Runtime;
		let main = |a: u128, b: u128| if MAINNET { a } else { b };
		const DAY: u128 = 7200;
		const HOUR: u128 = 300;
		const MINUTE: u128 = 5;
		macro_rules! get {
			($($p:ident $([$i:ty])?.$n:ident as $k:ty = $v:expr;)*) => { $( {
				let got = <<R as $p::Config $(<$i>)?>::$n as frame_support::traits::Get<$k>>::get();
				self.exact(concat!(stringify!($p), ".", stringify!($n)), got as u128, $v);
			} )* };
		}
		get! {
			frame_system.SS58Prefix as u16 = main(90, 42);
			pallet_balances.ExistentialDeposit as u128 = 1_000_000;
			pallet_balances.MaxLocks as u32 = 50;
			pallet_balances.MaxReserves as u32 = 50;
			pallet_balances.MaxFreezes as u32 = 2;
			pallet_collective [I1].MotionDuration as u32 = 5 * DAY;
			pallet_collective [I1].MaxProposals as u32 = 25;
			pallet_collective [I1].MaxMembers as u32 = 10;
			pallet_collective [I2].MotionDuration as u32 = 5 * DAY;
			pallet_collective [I2].MaxProposals as u32 = 25;
			pallet_collective [I2].MaxMembers as u32 = 10;
			pallet_democracy.LaunchPeriod as u32 = main(7 * DAY, DAY);
			pallet_democracy.VotingPeriod as u32 = main(7 * DAY, DAY);
			pallet_democracy.FastTrackVotingPeriod as u32 = main(3 * HOUR, 30 * MINUTE);
			pallet_democracy.EnactmentPeriod as u32 = main(8 * DAY, 30 * HOUR);
			pallet_democracy.VoteLockingPeriod as u32 = main(8 * DAY, 30 * HOUR);
			pallet_democracy.CooloffPeriod as u32 = main(7 * DAY, DAY);
			pallet_democracy.MinimumDeposit as u128 = main(100 * UNIT, 10_000 * UNIT);
			pallet_treasury.SpendPeriod as u32 = main(7 * DAY, 10 * MINUTE);
			pallet_treasury.PayoutPeriod as u32 = 30 * DAY;
			pallet_treasury.ProposalBondMinimum as u128 = 100 * UNIT;
			pallet_treasury.MaxApprovals as u32 = 64;
			pallet_proxy.ProxyDepositBase as u128 = 20 * UNIT + 800_000;
			pallet_proxy.ProxyDepositFactor as u128 = 3_300_000;
			pallet_proxy.MaxProxies as u32 = 32;
			pallet_proxy.MaxPending as u32 = 32;
			pallet_proxy.AnnouncementDepositBase as u128 = 20 * UNIT + 800_000;
			pallet_proxy.AnnouncementDepositFactor as u128 = 6_600_000;
			pallet_multisig.DepositBase as u128 = 20 * UNIT + 8_800_000;
			pallet_multisig.DepositFactor as u128 = 3_200_000;
			pallet_multisig.MaxSignatories as u32 = 100;
			pallet_scheduler.MaxScheduledPerBlock as u32 = 50;
			pallet_transaction_payment.OperationalFeeMultiplier as u8 = 5;
			pallet_timestamp.MinimumPeriod as u64 = 6000;
			pallet_time_release.MinReleaseTransfer as u128 = 0;
			pallet_democracy.MaxProposals as u32 = 100;
			pallet_democracy.MaxVotes as u32 = 100;
			pallet_democracy.MaxDeposits as u32 = 100;
			pallet_democracy.MaxBlacklisted as u32 = 100;
			pallet_democracy.InstantAllowed as bool = 1;
			pallet_treasury.ProposalBondMaximum as u128 = 1000 * UNIT;
			pallet_collator_selection.MaxCandidates as u32 = 50;
			pallet_collator_selection.MinEligibleCollators as u32 = main(1, 0);
			pallet_collator_selection.MaxInvulnerables as u32 = main(16, 5);
			pallet_collator_selection.KickThreshold as u32 = 6 * HOUR;
		}
		use frame_support::{dispatch::DispatchClass, traits::StoragePrice};
		let price = |bytes| <<R as pallet_preimage::Config>::Consideration as StoragePrice>::price(bytes);
		// an item is 20 tokens and a byte a thousandth of one
		self.exact("preimage_deposit_of_nothing", price(0), 200 * UNIT + 64 * 100_000);
		self.exact("preimage_deposit_of_a_byte", price(1001) - price(1000), 100_000);
		let ends = |now| <<R as pallet_session::Config>::ShouldEndSession as pallet_session::ShouldEndSession<u32>>::should_end_session(now);
		let at = self.o.g.below(100_000) as u32;
		self.exact("sessions_in_six_hours", (at..at + 1800).filter(|n| ends(*n)).count() as u128, 1);
		self.exact("a_session_ends", ends(1800 * (1 + at % 50)) as u128, 1);
		let w = <R as frame_system::Config>::BlockWeights::get();
		let whole = (500_000_000_000u128, 5 * 1024 * 1024u128);
		let two = |w: frame_support::weights::Weight| (w.ref_time() as u128, w.proof_size() as u128);
		let parts = |(a, b): (u128, u128), of: u128| (a * of / 100, b * of / 100);
		let class = |c| w.per_class.get(c).max_total.map_or((0, 0), two);
		for (what, got, want) in [
			("weight_of_a_block", two(w.max_block), whole),
			("weight_of_operations", class(DispatchClass::Operational), whole),
			("weight_of_what_is_normal", class(DispatchClass::Normal), parts(whole, 75)),
			("weight_of_what_is_scheduled", two(<<R as pallet_scheduler::Config>::MaximumWeight as frame_support::traits::Get<_>>::get()), parts(whole, 10)),
			("weight_of_a_motion", two(<<R as pallet_collective::Config<I1>>::MaxProposalWeight as frame_support::traits::Get<_>>::get()), parts(whole, 50)),
			("weight_of_a_committee_motion", two(<<R as pallet_collective::Config<I2>>::MaxProposalWeight as frame_support::traits::Get<_>>::get()), parts(whole, 50)),
		] {
			self.exact(what, got.0, want.0);
			self.exact(what, got.1, want.1);
		}
		let l = <R as frame_system::Config>::BlockLength::get();
		self.exact("bytes_of_a_block", *l.max.get(DispatchClass::Operational) as u128, whole.1);
		self.exact("bytes_of_what_is_normal", *l.max.get(DispatchClass::Normal) as u128, whole.1 * 3 / 4);
		self.exact("default_epoch_length", pallet_capacity::EpochLength::<R>::get() as u128, 100);
	}
	/// what can be paid with capacity, of every size; whether it is done does not matter to its price
	fn of_any_size(&mut self) -> RuntimeCall {
		let n = match self.o.g.below(3) {
			0 => self.o.g.below(4),
			1 => self.o.g.below(40),
			_ => self.o.g.below(1025),
		} as usize;
		let (owner, schema_id, page_id, target_hash, expiration) = (self.any_msa(), 1 + self.o.g.below(6) as u16, self.o.g.below(3) as u16, 0, self.now + 50);
		let (key, proof) = (acc(self.o.g.usize(PEOPLE)), signed(0, vec![1]));
		let schema_ids: Vec<u16> = (0..n.min(30) as u16).collect();
		let grant = AddProvider { authorized_msa_id: 1, schema_ids, expiration };
		let mut actions = vec![];
		for _ in 0..self.o.g.usize(6) {
			actions.push(if self.o.g.chance(1, 3) { st::ItemAction::Delete { index: 1 } } else { st::ItemAction::Add { data: vec![5; n].try_into().unwrap() } });
		}
		let handle = || ClaimHandlePayload::<u32>::new(vec![b'h'; n.min(100)], expiration);
		match self.o.g.below(16) {
			0 => Msa::create_sponsored_account_with_delegation { delegator_key: key, proof, add_provider_payload: grant }.into(),
			1 => Msa::grant_delegation { delegator_key: key, proof, add_provider_payload: grant }.into(),
			2 => Msa::add_public_key_to_msa { msa_owner_public_key: key.clone(), msa_owner_proof: proof.clone(), new_key_owner_proof: proof, add_key_payload: AddKeyData::<Runtime> { msa_id: owner, expiration, new_public_key: key } }.into(),
			3 => pallet_messages::Call::add_onchain_message { on_behalf_of: None, schema_id, payload: vec![1; 3 * n] }.into(),
			4 => pallet_messages::Call::add_ipfs_message { schema_id, cid: vec![1; n.min(200)], payload_length: n as u32 }.into(),
			5 => State::apply_item_actions { state_owner_msa_id: owner, schema_id, target_hash, actions: actions.try_into().unwrap() }.into(),
			6 => State::upsert_page { state_owner_msa_id: owner, schema_id, page_id, target_hash, payload: vec![2; n].try_into().unwrap() }.into(),
			7 => State::delete_page { state_owner_msa_id: owner, schema_id, page_id, target_hash }.into(),
			8 => State::apply_item_actions_with_signature { delegator_key: key, proof, payload: st::ItemizedSignaturePayload { msa_id: owner, schema_id, target_hash, expiration, actions: actions.try_into().unwrap() } }.into(),
			9 => State::apply_item_actions_with_signature_v2 { delegator_key: key, proof, payload: st::ItemizedSignaturePayloadV2 { schema_id, target_hash, expiration, actions: actions.try_into().unwrap() } }.into(),
			10 => State::upsert_page_with_signature { delegator_key: key, proof, payload: st::PaginatedUpsertSignaturePayload { msa_id: owner, schema_id, page_id, target_hash, expiration, payload: vec![3; n].try_into().unwrap() } }.into(),
			11 => State::upsert_page_with_signature_v2 { delegator_key: key, proof, payload: st::PaginatedUpsertSignaturePayloadV2 { schema_id, page_id, target_hash, expiration, payload: vec![3; n].try_into().unwrap() } }.into(),
			12 => State::delete_page_with_signature { delegator_key: key, proof, payload: st::PaginatedDeleteSignaturePayload { msa_id: owner, schema_id, page_id, target_hash, expiration } }.into(),
			13 => State::delete_page_with_signature_v2 { delegator_key: key, proof, payload: st::PaginatedDeleteSignaturePayloadV2 { schema_id, page_id, target_hash, expiration } }.into(),
			14 => Handle::claim_handle { msa_owner_key: key, proof, payload: handle() }.into(),
			_ => Handle::change_handle { msa_owner_key: key, proof, payload: handle() }.into(),
		}
	}
	/// the price of a transaction in tokens and capacity
	fn price(&mut self) {
		let (actor, call) = match self.o.g.below(3) {
			0 => (acc(self.o.g.usize(2)), self.of_any_size()),
			_ => self.operation(),
		};
		let k = (0..PEOPLE).find(|i| acc(*i) == actor).unwrap_or(0);
		let call = match self.o.g.below(5) {
			0 | 1 => Paid::pay_with_capacity { call: Box::new(call) }.into(),
			2 => Paid::pay_with_capacity_batch_all { calls: vec![call; 1 + self.o.g.usize(3)] }.into(),
			_ => call,
		};
		let tip = if self.o.g.chance(1, 2) { self.o.g.below(5000) as u128 } else { 0 };
		let xt = self.extrinsic(k, call.clone(), rt::System::account_nonce(acc(k)), false, tip);
		let len = xt.encode().len() as u128;
		self.o.note(format!("#{} p{k} {} of {len} bytes", self.now, label(&call)));
		let info = call.get_dispatch_info();
		let before = view();
		rt::System::reset_events();
		let Ok(done) = guarded(|| Executive::apply_extrinsic(xt)) else { return };
		if done.is_err() {
			self.o.r.count("price:not_included");
			return
		}
		let after = view();
		let paid: Vec<(Key, u128, u128)> = rt::System::events()
			.into_iter()
			.filter_map(|e| match e.event {
				rt::RuntimeEvent::TransactionPayment(pallet_transaction_payment::Event::TransactionFeePaid { who, actual_fee, tip }) => Some((who, actual_fee, tip)),
				_ => None,
			})
			.collect();
		let shown = |fee: u128, want: u128| json!({"call": label(&call), "bytes": len.to_string(), "weight": info.weight.ref_time(), "tip": tip.to_string(), "fee": fee.to_string(), "want": want.to_string(), "told": dbg(&paid)});
		// plancks for a weight: a thousandth of a token per base weight
		let base = common::weights::extrinsic_weights::ExtrinsicBaseWeight::get().ref_time() as u128;
		let near = |x: u128, y: u128| x.abs_diff(y) <= 3 + y / 100_000;
		match &call {
			C::FrequencyTxPayment(Paid::pay_with_capacity { call: c }) => self.in_capacity(&[(**c).clone()], len, base, &before, k, &shown),
			C::FrequencyTxPayment(Paid::pay_with_capacity_batch_all { calls }) => self.in_capacity(calls, len, base, &before, k, &shown),
			c if info.pays_fee == Pays::No => {
				self.o.r.count("price:free");
				self.o.check("C41", paid.iter().all(|p| p.1 <= tip), "a_free_transaction_has_a_price", || shown(0, 0));
				let _ = c;
			},
			c => {
				let total: u128 = paid.iter().map(|p| p.1).sum();
				let least = 100_000 + len * 10_000 + tip;
				let most = least + info.weight.ref_time() as u128 * 100_000 / base;
				// Frequency's own calls have one weight each
				let fixed = matches!(c, C::Msa(..) | C::Messages(..) | C::Schemas(..) | C::StatefulStorage(..) | C::Capacity(..) | C::Handles(..) | C::TimeRelease(..));
				self.o.r.count(if fixed { "price:tokens" } else { "price:other" });
				self.o.check("C41", paid.len() == 1 && paid[0].0 == acc(k) && paid[0].2 == tip, "the_price_is_not_told", || shown(total, most));
				if fixed && info.pays_fee == Pays::Yes {
					self.o.check("C41", near(total, most), "the_price_in_tokens_is_not_as_published", || shown(total, most));
				} else {
					self.o.check("C41", total + 3 + total / 2000 >= least && total <= most + 3 + most / 2000, "the_price_in_tokens_is_not_as_published", || shown(total, most));
				}
				self.o.check("C41", before.issuance >= after.issuance + total || matches!(c, C::Balances(..) | C::Utility(..)), "the_price_is_not_taken_from_circulation", || shown(total, most));
				let lost = before.accounts.get(&acc(k)).map_or(0, |x| x.0).saturating_sub(after.accounts.get(&acc(k)).map_or(0, |x| x.0));
				if fixed && !matches!(c, C::TimeRelease(..)) {
					self.o.check("C41", lost == total, "the_price_told_is_not_the_one_paid", || json!({"lost": lost.to_string(), "told": shown(total, most)}));
				}
			},
		}
		self.o.r.case(&(NETWORK, label(&call), len, tip));
	}
	fn in_capacity(&mut self, calls: &[RuntimeCall], len: u128, base: u128, before: &View, k: usize, shown: &dyn Fn(u128, u128) -> Value) {
		let Some(m) = before.keys.get(&acc(k)).copied() else { return };
		let mut w = 0;
		for c in calls {
			let Some(x) = stable(c) else {
				self.o.check("C41", false, "a_call_without_a_price_was_paid_with_capacity", || json!(label(c)));
				return
			};
			w += x;
			self.o.r.count(&format!("price:capacity:{}", label(c)));
		}
		let left = pallet_capacity::CapacityLedger::<Runtime>::get(m).map_or(0, |d| d.remaining_capacity);
		let fee = before.capacity.get(&m).copied().unwrap_or(0).saturating_sub(left);
		let want = (105_455_000 + w) * 100_000 / base + len * 10_000;
		self.o.r.count("price:capacity");
		self.o.check("C41", fee.abs_diff(want) <= 3 + want / 100_000, "the_price_in_capacity_is_not_as_published", || shown(fee, want));
	}
}
/// the stable weights, in picoseconds: base, per unit, reads, writes
fn stable(c: &RuntimeCall) -> Option<u128> {
	let added = |a: &[st::ItemAction<rt_blob!()>]| -> u128 {
		a.iter()
			.map(|x| match x {
				st::ItemAction::Add { data } => data.len() as u128,
				_ => 0,
			})
			.sum()
	};
	let (base, per, n, r, w) = match c {
		C::Msa(Msa::create_sponsored_account_with_delegation { add_provider_payload: p, .. }) => (123_084_817, 138_668, p.schema_ids.len() as u128, 10, 7),
		C::Msa(Msa::add_public_key_to_msa { .. }) => (177_629_000, 0, 0, 8, 7),
		C::Msa(Msa::grant_delegation { add_provider_payload: p, .. }) => (115_947_313, 192_710, p.schema_ids.len() as u128, 8, 4),
		C::Messages(pallet_messages::Call::add_onchain_message { payload, .. }) => (174_064_230, 1_527, payload.len() as u128, 4, 1),
		C::Messages(pallet_messages::Call::add_ipfs_message { .. }) => (159_242_000, 0, 0, 3, 1),
		C::StatefulStorage(State::apply_item_actions { actions, .. }) => (104_137_090, 7_325, added(actions), 4, 1),
		C::StatefulStorage(State::upsert_page { payload, .. }) => (32_297_181, 594, payload.len() as u128, 4, 1),
		C::StatefulStorage(State::delete_page { .. }) => (37_792_000, 0, 0, 4, 1),
		C::StatefulStorage(State::apply_item_actions_with_signature { payload: p, .. }) => (158_947_612, 13_664, added(&p.actions), 3, 1),
		C::StatefulStorage(State::apply_item_actions_with_signature_v2 { payload: p, .. }) => (158_947_612, 13_664, added(&p.actions), 3, 1),
		C::StatefulStorage(State::upsert_page_with_signature { payload: p, .. }) => (87_768_259, 6_648, p.payload.len() as u128, 3, 1),
		C::StatefulStorage(State::upsert_page_with_signature_v2 { payload: p, .. }) => (87_768_259, 6_648, p.payload.len() as u128, 3, 1),
		C::StatefulStorage(State::delete_page_with_signature { .. }) => (90_631_000, 0, 0, 3, 1),
		C::StatefulStorage(State::delete_page_with_signature_v2 { .. }) => (90_631_000, 0, 0, 3, 1),
		C::Handles(Handle::claim_handle { payload: p, .. }) => (85_480_476, 107_272, p.base_handle.len() as u128, 3, 3),
		C::Handles(Handle::change_handle { payload: p, .. }) => (95_748_064, 212_118, p.base_handle.len() as u128, 3, 4),
		_ => return None,
	};
	Some(base + per * n + r * 25_000_000 + w * 100_000_000)
}
pub fn limits_run(r: &mut Run, n: u64) {
	let g = r.rng(0x4100 + n);
	let o = Mon::new(r, g, json!({"network": NETWORK}));
	let (mut w, s) = world(o);
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		if w.o.g.chance(1, 2) {
			w.now = 1 + w.o.g.below(100_000) as u32;
			cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(w.now);
			rt::System::set_block_number(w.now);
		}
		if n < 5 {
			w.parameters();
		}
		w.setting();
		if n % 4 < 2 {
			for _ in 0..80 {
				if w.o.bad {
					return
				}
				if w.o.g.chance(1, 6) {
					w.advance(1);
				}
				w.price();
			}
		} else {
			w.case((n / 4) as usize % EDGE_CASES);
		}
	});
}
