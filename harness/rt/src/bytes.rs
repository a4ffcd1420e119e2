// C40: a client that knows nothing but the published interface - the numbers of pallets, calls,
// events and errors, the layout of their fields and of what is signed, and the keys and layout of the
// state - is understood by the chain and understands it. Everything such a client would send or
// expect to read is put together here byte by byte.
include!("whole.rs");
use rt::RuntimeEvent;
use sp_core::hashing::{blake2_128, blake2_256, twox_128, twox_64};

type B = Vec<u8>;
macro_rules! cat {
	($($x:expr),* $(,)?) => {{
		#[allow(unused_mut)]
		let mut v: B = vec![];
		$(v.extend_from_slice(&$x[..]);)*
		v
	}};
}
fn u8_(x: u8) -> B {
	vec![x]
}
fn u16_(x: u16) -> B {
	x.to_le_bytes().to_vec()
}
fn u32_(x: u32) -> B {
	x.to_le_bytes().to_vec()
}
fn u64_(x: u64) -> B {
	x.to_le_bytes().to_vec()
}
fn u128_(x: u128) -> B {
	x.to_le_bytes().to_vec()
}
/// the compact form of a number
fn compact(x: impl Into<u128>) -> B {
	let x: u128 = x.into();
	if x < 1 << 6 {
		return vec![(x as u8) << 2]
	}
	if x < 1 << 14 {
		return (((x as u16) << 2) | 1).to_le_bytes().to_vec()
	}
	if x < 1 << 30 {
		return (((x as u32) << 2) | 2).to_le_bytes().to_vec()
	}
	let mut b = x.to_le_bytes().to_vec();
	while b.len() > 4 && b.last() == Some(&0) {
		b.pop();
	}
	cat![[((b.len() as u8 - 4) << 2) | 3], b]
}
fn bytes(x: &[u8]) -> B {
	cat![compact(x.len() as u32), x]
}
fn list(x: &[B]) -> B {
	cat![compact(x.len() as u32), x.concat()]
}
fn opt(x: Option<B>) -> B {
	x.map_or(vec![0], |x| cat![[1], x])
}
fn key(a: &AccountId) -> B {
	let a: &[u8; 32] = a.as_ref();
	a.to_vec()
}
/// an account as the address of a transaction
fn to(a: &AccountId) -> B {
	cat![[0], key(a)]
}
fn sig(s: &MultiSignature) -> B {
	match s {
		MultiSignature::Ed25519(s) => cat![[0], AsRef::<[u8]>::as_ref(s)],
		MultiSignature::Sr25519(s) => cat![[1], AsRef::<[u8]>::as_ref(s)],
		MultiSignature::Ecdsa(s) => cat![[2], AsRef::<[u8]>::as_ref(s)],
	}
}
/// where an item of a pallet is kept
fn item(pallet: &str, name: &str) -> B {
	cat![twox_128(pallet.as_bytes()), twox_128(name.as_bytes())]
}
fn twox(k: B) -> B {
	cat![twox_64(&k), k]
}
fn blake(k: B) -> B {
	cat![blake2_128(&k), k]
}
fn stored(k: &B) -> Option<B> {
	sp_io::storage::get(k).map(|b| b.to_vec())
}
fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}

/// as published: the numbers of the errors of the pallets of this repository
const ERRORS: &[(u8, &str, &[&str])] = &[
	(64, "Capacity", &[
		"InvalidTarget",
		"InsufficientBalance",
		"InsufficientStakingAmount",
		"ZeroAmountNotAllowed",
		"NotAStakingAccount",
		"NoUnstakedTokensAvailable",
		"UnstakedAmountIsZero",
		"AmountToUnstakeExceedsAmountStaked",
		"StakerTargetRelationshipNotFound",
		"TargetCapacityNotFound",
		"MaxUnlockingChunksExceeded",
		"IncreaseExceedsAvailable",
		"MaxEpochLengthExceeded",
		"BalanceTooLowtoStake",
		"NoThawedTokenAvailable",
	]),
	(65, "FrequencyTxPayment", &[
		"BatchedCallAmountExceedsMaximum",
	]),
	(66, "Handles", &[
		"InvalidHandleEncoding",
		"InvalidHandleByteLength",
		"InvalidHandleCharacterLength",
		"HandleIsNotAllowed",
		"HandleContainsBlockedCharacters",
		"HandleDoesNotConsistOfSupportedCharacterSets",
		"SuffixesExhausted",
		"InvalidMessageSourceAccount",
		"InvalidSignature",
		"MSAHandleAlreadyExists",
		"MSAHandleDoesNotExist",
		"ProofHasExpired",
		"ProofNotYetValid",
		"HandleWithinMortalityPeriod",
		"InvalidHandle",
	]),
	(61, "Messages", &[
		"TooManyMessagesInBlock",
		"ExceedsMaxMessagePayloadSizeBytes",
		"TypeConversionOverflow",
		"InvalidMessageSourceAccount",
		"InvalidSchemaId",
		"UnAuthorizedDelegate",
		"InvalidPayloadLocation",
		"UnsupportedCidVersion",
		"InvalidCid",
	]),
	(60, "Msa", &[
		"KeyAlreadyRegistered",
		"MsaIdOverflow",
		"MsaOwnershipInvalidSignature",
		"NotMsaOwner",
		"InvalidSignature",
		"NotKeyOwner",
		"NoKeyExists",
		"KeyLimitExceeded",
		"InvalidSelfRemoval",
		"InvalidSelfProvider",
		"InvalidSchemaId",
		"DuplicateProvider",
		"AddProviderSignatureVerificationFailed",
		"UnauthorizedDelegator",
		"UnauthorizedProvider",
		"DelegationRevoked",
		"DelegationNotFound",
		"DuplicateProviderRegistryEntry",
		"ExceedsMaxProviderNameSize",
		"ExceedsMaxSchemaGrantsPerDelegation",
		"SchemaNotGranted",
		"ProviderNotRegistered",
		"ProofHasExpired",
		"ProofNotYetValid",
		"SignatureAlreadySubmitted",
		"NewKeyOwnershipInvalidSignature",
		"CannotPredictValidityPastCurrentBlock",
		"SignatureRegistryLimitExceeded",
		"SignatureRegistryCorrupted",
		"MsaCannotBeRetired",
	]),
	(62, "Schemas", &[
		"InvalidSchema",
		"ExceedsMaxSchemaModelBytes",
		"LessThanMinSchemaModelBytes",
		"SchemaCountOverflow",
		"InvalidSetting",
		"InvalidSchemaNameEncoding",
		"InvalidSchemaNameCharacters",
		"InvalidSchemaNameStructure",
		"InvalidSchemaNameLength",
		"InvalidSchemaNamespaceLength",
		"InvalidSchemaDescriptorLength",
		"ExceedsMaxNumberOfVersions",
		"SchemaIdAlreadyExists",
		"SchemaIdDoesNotExist",
		"SchemaIdAlreadyHasName",
	]),
	(63, "StatefulStorage", &[
		"PageIdExceedsMaxAllowed",
		"PageExceedsMaxPageSizeBytes",
		"InvalidSchemaId",
		"UnsupportedOperationForSchema",
		"SchemaPayloadLocationMismatch",
		"InvalidMessageSourceAccount",
		"UnauthorizedDelegate",
		"CorruptedState",
		"InvalidItemAction",
		"StalePageState",
		"InvalidSignature",
		"ProofHasExpired",
		"ProofNotYetValid",
	]),
	(40, "TimeRelease", &[
		"ZeroReleasePeriod",
		"ZeroReleasePeriodCount",
		"InsufficientBalanceToFreeze",
		"TooManyReleaseSchedules",
		"AmountLow",
		"MaxReleaseSchedulesExceeded",
	]),
	(67, "Passkey", &[
		"InvalidAccountSignature",
	]),
];

use common_primitives::{
	msa::{DelegatorId, ProviderId},
	schema::{PayloadLocation, SchemaSetting},
};
use pallet_time_release::ReleaseSchedule;

struct Gen<'a, 'b> {
	o: &'a mut Mon<'b>,
}
impl Gen<'_, '_> {
	fn who(&mut self) -> AccountId {
		AccountId::new(self.o.g.bytes(32).try_into().unwrap())
	}
	fn proof(&mut self) -> MultiSignature {
		match self.o.g.below(3) {
			0 => {
				let b: [u8; 64] = self.o.g.bytes(64).try_into().unwrap();
				MultiSignature::decode(&mut &cat![[0], b][..]).unwrap()
			},
			1 => {
				let b: [u8; 64] = self.o.g.bytes(64).try_into().unwrap();
				MultiSignature::decode(&mut &cat![[1], b][..]).unwrap()
			},
			_ => {
				let b: [u8; 65] = self.o.g.bytes(65).try_into().unwrap();
				MultiSignature::decode(&mut &cat![[2], b][..]).unwrap()
			},
		}
	}
	fn small(&mut self, max: usize) -> B {
		let n = match self.o.g.below(4) {
			0 => 0,
			1 => self.o.g.usize(max.min(4) + 1),
			_ => self.o.g.usize(max + 1),
		};
		self.o.g.bytes(n)
	}
	/// numbers of every size there is a compact form for
	fn n(&mut self, bits: u32) -> u128 {
		let k = 1 + self.o.g.below(bits as u64) as u32;
		let x = (self.o.g.u64() as u128) << 64 | self.o.g.u64() as u128;
		match self.o.g.below(8) {
			0 => 0,
			1 => (1u128 << (k - 1)) - 1,
			2 => 1u128 << (k - 1),
			_ => x >> (128 - k),
		}
	}
	fn n16(&mut self) -> u16 {
		self.n(16) as u16
	}
	fn n32(&mut self) -> u32 {
		self.n(32) as u32
	}
	fn n64(&mut self) -> u64 {
		self.n(64) as u64
	}
	fn n128(&mut self) -> u128 {
		self.n(128)
	}
	fn model(&mut self) -> (ModelType, u8) {
		*self.o.g.pick(&[(ModelType::AvroBinary, 0), (ModelType::Parquet, 1)])
	}
	fn location(&mut self) -> (PayloadLocation, u8) {
		use PayloadLocation::*;
		*self.o.g.pick(&[(OnChain, 0), (IPFS, 1), (Itemized, 2), (Paginated, 3)])
	}
	fn settings(&mut self) -> (Vec<SchemaSetting>, B) {
		let n = self.o.g.usize(3);
		let v: Vec<_> = (0..n).map(|_| *self.o.g.pick(&[(SchemaSetting::AppendOnly, 1), (SchemaSetting::SignatureRequired, 2)])).collect();
		(v.iter().map(|x| x.0).collect(), list(&v.iter().map(|x| vec![x.1]).collect::<Vec<_>>()))
	}
	fn schedule(&mut self) -> (ReleaseSchedule<u32, u128>, B) {
		let s = ReleaseSchedule { start: self.n32(), period: self.n32(), period_count: self.n32(), per_period: self.n128() };
		let b = cat![u32_(s.start), u32_(s.period), u32_(s.period_count), compact(s.per_period)];
		(s, b)
	}
	fn actions(&mut self) -> (Vec<st::ItemAction<rt_blob!()>>, B) {
		let n = self.o.g.usize(4);
		let mut v = vec![];
		let mut b = vec![];
		for _ in 0..n {
			if self.o.g.chance(1, 2) {
				let d = self.small(100);
				b.push(cat![[0], bytes(&d)]);
				v.push(st::ItemAction::Add { data: d.try_into().unwrap() });
			} else {
				let index = self.n16();
				b.push(cat![[1], u16_(index)]);
				v.push(st::ItemAction::Delete { index });
			}
		}
		(v, list(&b))
	}
	/// bytes a client sends or reads stand for exactly this value
	fn means<T: Encode + Decode + PartialEq + std::fmt::Debug>(&mut self, what: &str, b: B, x: T) {
		self.o.r.count(&format!("form:{what}"));
		let read = guarded(|| {
			let mut rest = &b[..];
			let y = T::decode(&mut rest);
			(y.map(|y| y == x), rest.len())
		});
		let ok = matches!(read, Ok((Ok(true), 0)));
		let written = x.encode();
		self.o.check("C40", ok && written == b, &format!("{what}_is_encoded_differently_from_what_is_published"), || {
			json!({"published": hex(&b), "actual": hex(&written), "read": format!("{read:?}").chars().take(300).collect::<String>(), "value": format!("{x:?}").chars().take(600).collect::<String>()})
		});
	}
	fn call(&mut self, what: &str, b: B, c: impl Into<RuntimeCall>) {
		let c = c.into();
		let name = label(&c);
		self.o.check("C40", name == what, "a_call_is_named_differently_from_what_is_published", || json!([name, what]));
		self.means(what, b, c);
	}
	fn event(&mut self, what: &str, b: B, e: impl Into<RuntimeEvent>) {
		self.means(what, b, e.into());
	}
	fn calls(&mut self) {
		use pallet_capacity::Call as Cap;
		use pallet_messages::Call as Messages;
		use pallet_schemas::Call as Schemas;
		use pallet_time_release::Call as Time;
		let (w, w2, p, p2) = (self.who(), self.who(), self.proof(), self.proof());
		let (a, x, y, m) = (self.n128(), self.n64(), self.n32(), self.n16());
		self.call("Capacity.stake", cat![[64, 0], u64_(x), u128_(a)], Cap::stake { target: x, amount: a });
		self.call("Capacity.withdraw_unstaked", cat![[64, 1]], Cap::withdraw_unstaked {});
		self.call("Capacity.unstake", cat![[64, 2], u64_(x), u128_(a)], Cap::unstake { target: x, requested_amount: a });
		self.call("Capacity.set_epoch_length", cat![[64, 3], u32_(y)], Cap::set_epoch_length { length: y });
		let inner = cat![[64, 0], u64_(x), u128_(a)];
		let typed: RuntimeCall = Cap::stake { target: x, amount: a }.into();
		self.call("FrequencyTxPayment.pay_with_capacity", cat![[65, 0], inner], Paid::pay_with_capacity { call: Box::new(typed.clone()) });
		self.call(
			"FrequencyTxPayment.pay_with_capacity_batch_all",
			cat![[65, 1], list(&[inner.clone(), cat![[66, 1]]])],
			Paid::pay_with_capacity_batch_all { calls: vec![typed.clone(), Handle::retire_handle {}.into()] },
		);
		let (h, e) = (self.small(32), self.n32());
		let claim = ClaimHandlePayload::<u32>::new(h.clone(), e);
		let claimed = cat![bytes(&h), u32_(e)];
		self.means("ClaimHandlePayload", claimed.clone(), claim.clone());
		self.call("Handles.claim_handle", cat![[66, 0], key(&w), sig(&p), claimed], Handle::claim_handle { msa_owner_key: w.clone(), proof: p.clone(), payload: claim.clone() });
		self.call("Handles.retire_handle", cat![[66, 1]], Handle::retire_handle {});
		self.call("Handles.change_handle", cat![[66, 2], key(&w), sig(&p), claimed], Handle::change_handle { msa_owner_key: w.clone(), proof: p.clone(), payload: claim });
		let data = self.small(200);
		self.call("Messages.add_ipfs_message", cat![[61, 0], compact(m), bytes(&data), compact(y)], Messages::add_ipfs_message { schema_id: m, cid: data.clone(), payload_length: y });
		let behalf = if self.o.g.chance(1, 2) { Some(x) } else { None };
		self.call(
			"Messages.add_onchain_message",
			cat![[61, 1], opt(behalf.map(u64_)), compact(m), bytes(&data)],
			Messages::add_onchain_message { on_behalf_of: behalf, schema_id: m, payload: data.clone() },
		);
		let n = self.o.g.usize(6);
		let schema_ids: Vec<u16> = (0..n).map(|_| self.n16()).collect();
		let ids = list(&schema_ids.iter().map(|s| u16_(*s)).collect::<Vec<_>>());
		let grant = AddProvider { authorized_msa_id: x, schema_ids: schema_ids.clone(), expiration: y };
		let granted = cat![u64_(x), ids, u32_(y)];
		self.means("AddProvider", granted.clone(), grant.clone());
		self.call("Msa.create", cat![[60, 0]], Msa::create {});
		self.call(
			"Msa.create_sponsored_account_with_delegation",
			cat![[60, 1], key(&w), sig(&p), granted],
			Msa::create_sponsored_account_with_delegation { delegator_key: w.clone(), proof: p.clone(), add_provider_payload: grant.clone() },
		);
		self.call("Msa.create_provider", cat![[60, 2], bytes(&data)], Msa::create_provider { provider_name: data.clone() });
		self.call("Msa.grant_delegation", cat![[60, 3], key(&w), sig(&p), granted], Msa::grant_delegation { delegator_key: w.clone(), proof: p.clone(), add_provider_payload: grant });
		self.call("Msa.revoke_delegation_by_delegator", cat![[60, 4], compact(x)], Msa::revoke_delegation_by_delegator { provider_msa_id: x });
		let add = AddKeyData::<Runtime> { msa_id: x, expiration: y, new_public_key: w2.clone() };
		let added = cat![u64_(x), u32_(y), key(&w2)];
		self.means("AddKeyData", added.clone(), add.clone());
		self.call(
			"Msa.add_public_key_to_msa",
			cat![[60, 5], key(&w), sig(&p), sig(&p2), added],
			Msa::add_public_key_to_msa { msa_owner_public_key: w.clone(), msa_owner_proof: p.clone(), new_key_owner_proof: p2.clone(), add_key_payload: add },
		);
		self.call("Msa.delete_msa_public_key", cat![[60, 6], key(&w)], Msa::delete_msa_public_key { public_key_to_delete: w.clone() });
		self.call("Msa.revoke_delegation_by_provider", cat![[60, 7], compact(x)], Msa::revoke_delegation_by_provider { delegator: x });
		self.call("Msa.revoke_schema_permissions", cat![[60, 9], u64_(x), ids], Msa::revoke_schema_permissions { provider_msa_id: x, schema_ids });
		self.call("Msa.retire_msa", cat![[60, 10]], Msa::retire_msa {});
		self.call("Msa.propose_to_be_provider", cat![[60, 11], bytes(&data)], Msa::propose_to_be_provider { provider_name: data.clone() });
		self.call(
			"Msa.create_provider_via_governance",
			cat![[60, 12], key(&w), bytes(&data)],
			Msa::create_provider_via_governance { provider_key: w.clone(), provider_name: data.clone() },
		);
		let (t, l, (s, sb)) = (self.model(), self.location(), self.settings());
		let name: Option<B> = if self.o.g.chance(1, 2) { Some(self.small(32)) } else { None };
		let model = || data.clone().try_into().unwrap();
		let settings = || s.clone().try_into().unwrap();
		let schema_name = || name.clone().map(|n| n.try_into().unwrap());
		let named = opt(name.as_ref().map(|n| bytes(n)));
		let plain = cat![bytes(&data), [t.1, l.1]];
		let (model_type, payload_location) = (t.0, l.0);
		self.call("Schemas.create_schema", cat![[62, 0], plain], Schemas::create_schema { model: model(), model_type, payload_location });
		self.call("Schemas.set_max_schema_model_bytes", cat![[62, 1], compact(y)], Schemas::set_max_schema_model_bytes { max_size: y });
		self.call("Schemas.propose_to_create_schema", cat![[62, 2], plain, sb], Schemas::propose_to_create_schema { model: model(), model_type, payload_location, settings: settings() });
		self.call(
			"Schemas.create_schema_via_governance",
			cat![[62, 3], key(&w), plain, sb],
			Schemas::create_schema_via_governance { creator_key: w.clone(), model: model(), model_type, payload_location, settings: settings() },
		);
		self.call("Schemas.create_schema_v2", cat![[62, 4], plain, sb], Schemas::create_schema_v2 { model: model(), model_type, payload_location, settings: settings() });
		self.call(
			"Schemas.propose_to_create_schema_v2",
			cat![[62, 5], plain, sb, named],
			Schemas::propose_to_create_schema_v2 { model: model(), model_type, payload_location, settings: settings(), schema_name: schema_name() },
		);
		self.call(
			"Schemas.create_schema_via_governance_v2",
			cat![[62, 6], key(&w), plain, sb, named],
			Schemas::create_schema_via_governance_v2 { creator_key: w.clone(), model: model(), model_type, payload_location, settings: settings(), schema_name: schema_name() },
		);
		self.call(
			"Schemas.create_schema_v3",
			cat![[62, 7], plain, sb, named],
			Schemas::create_schema_v3 { model: model(), model_type, payload_location, settings: settings(), schema_name: schema_name() },
		);
		let title = self.small(32);
		self.call(
			"Schemas.propose_to_create_schema_name",
			cat![[62, 8], u16_(m), bytes(&title)],
			Schemas::propose_to_create_schema_name { schema_id: m, schema_name: title.clone().try_into().unwrap() },
		);
		self.call(
			"Schemas.create_schema_name_via_governance",
			cat![[62, 9], u16_(m), bytes(&title)],
			Schemas::create_schema_name_via_governance { schema_id: m, schema_name: title.try_into().unwrap() },
		);
		let (page, hash, (acts, ab)) = (self.n16(), self.n32(), self.actions());
		let actions = || acts.clone().try_into().unwrap();
		let payload = || data.clone().try_into().unwrap();
		let (msa_id, schema_id, page_id, target_hash, expiration) = (x, m, page, hash, y);
		self.call(
			"StatefulStorage.apply_item_actions",
			cat![[63, 0], compact(x), compact(m), compact(hash), ab],
			State::apply_item_actions { state_owner_msa_id: x, schema_id, target_hash, actions: actions() },
		);
		self.call(
			"StatefulStorage.upsert_page",
			cat![[63, 1], compact(x), compact(m), compact(page), compact(hash), bytes(&data)],
			State::upsert_page { state_owner_msa_id: x, schema_id, page_id, target_hash, payload: payload() },
		);
		self.call(
			"StatefulStorage.delete_page",
			cat![[63, 2], compact(x), compact(m), compact(page), compact(hash)],
			State::delete_page { state_owner_msa_id: x, schema_id, page_id, target_hash },
		);
		let by = |i: u8, b: &B| cat![[63, i], key(&w), sig(&p), b];
		let delegator_key = || w.clone();
		let proof = || p.clone();
		let b = cat![compact(x), compact(m), compact(hash), u32_(y), ab];
		let v = st::ItemizedSignaturePayload::<Runtime> { msa_id, schema_id, target_hash, expiration, actions: actions() };
		self.means("ItemizedSignaturePayload", b.clone(), v.clone());
		self.call("StatefulStorage.apply_item_actions_with_signature", by(3, &b), State::apply_item_actions_with_signature { delegator_key: delegator_key(), proof: proof(), payload: v });
		let b = cat![compact(x), compact(m), compact(page), compact(hash), u32_(y), bytes(&data)];
		let v = st::PaginatedUpsertSignaturePayload::<Runtime> { msa_id, schema_id, page_id, target_hash, expiration, payload: payload() };
		self.means("PaginatedUpsertSignaturePayload", b.clone(), v.clone());
		self.call("StatefulStorage.upsert_page_with_signature", by(4, &b), State::upsert_page_with_signature { delegator_key: delegator_key(), proof: proof(), payload: v });
		let b = cat![compact(x), compact(m), compact(page), compact(hash), u32_(y)];
		let v = st::PaginatedDeleteSignaturePayload::<Runtime> { msa_id, schema_id, page_id, target_hash, expiration };
		self.means("PaginatedDeleteSignaturePayload", b.clone(), v.clone());
		self.call("StatefulStorage.delete_page_with_signature", by(5, &b), State::delete_page_with_signature { delegator_key: delegator_key(), proof: proof(), payload: v });
		let b = cat![compact(m), compact(hash), u32_(y), ab];
		let v = st::ItemizedSignaturePayloadV2::<Runtime> { schema_id, target_hash, expiration, actions: actions() };
		self.means("ItemizedSignaturePayloadV2", b.clone(), v.clone());
		self.call("StatefulStorage.apply_item_actions_with_signature_v2", by(6, &b), State::apply_item_actions_with_signature_v2 { delegator_key: delegator_key(), proof: proof(), payload: v });
		let b = cat![compact(m), compact(page), compact(hash), u32_(y), bytes(&data)];
		let v = st::PaginatedUpsertSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash, expiration, payload: payload() };
		self.means("PaginatedUpsertSignaturePayloadV2", b.clone(), v.clone());
		self.call("StatefulStorage.upsert_page_with_signature_v2", by(7, &b), State::upsert_page_with_signature_v2 { delegator_key: delegator_key(), proof: proof(), payload: v });
		let b = cat![compact(m), compact(page), compact(hash), u32_(y)];
		let v = st::PaginatedDeleteSignaturePayloadV2::<Runtime> { schema_id, page_id, target_hash, expiration };
		self.means("PaginatedDeleteSignaturePayloadV2", b.clone(), v.clone());
		self.call("StatefulStorage.delete_page_with_signature_v2", by(8, &b), State::delete_page_with_signature_v2 { delegator_key: delegator_key(), proof: proof(), payload: v });
		let (s1, b1) = self.schedule();
		let (s2, b2) = self.schedule();
		self.call("TimeRelease.claim", cat![[40, 0]], Time::claim {});
		self.call("TimeRelease.transfer", cat![[40, 1], to(&w), b1], Time::transfer { dest: id(&w), schedule: s1.clone() });
		self.call(
			"TimeRelease.update_release_schedules",
			cat![[40, 2], to(&w), list(&[b1.clone(), b2])],
			Time::update_release_schedules { who: id(&w), release_schedules: vec![s1.clone(), s2] },
		);
		self.call("TimeRelease.claim_for", cat![[40, 3], to(&w)], Time::claim_for { dest: id(&w) });
		self.events(w, w2, x, a, y, m, page, (s1, b1));
	}
	#[allow(clippy::too_many_arguments)]
	fn events(&mut self, w: AccountId, w2: AccountId, x: u64, a: u128, y: u32, m: u16, page: u16, (schedule, sb): (ReleaseSchedule<u32, u128>, B)) {
		use pallet_capacity::Event as Cap;
		use pallet_handles::Event as Handle;
		use pallet_messages::Event as Messages;
		use pallet_msa::Event as Msa;
		use pallet_schemas::Event as Schemas;
		use pallet_stateful_storage::Event as State;
		use pallet_time_release::Event as Time;
		let (c, x2, y2) = (self.n128(), self.n64(), self.n32());
		let h = self.small(32);
		self.event("Staked", cat![[64, 0], key(&w), u64_(x), u128_(a), u128_(c)], Cap::Staked { account: w.clone(), target: x, amount: a, capacity: c });
		self.event("StakeWithdrawn", cat![[64, 1], key(&w), u128_(a)], Cap::StakeWithdrawn { account: w.clone(), amount: a });
		self.event("UnStaked", cat![[64, 2], key(&w), u64_(x), u128_(a), u128_(c)], Cap::UnStaked { account: w.clone(), target: x, amount: a, capacity: c });
		self.event("EpochLengthUpdated", cat![[64, 3], u32_(y)], Cap::EpochLengthUpdated { blocks: y });
		self.event("CapacityWithdrawn", cat![[64, 4], u64_(x), u128_(a)], Cap::CapacityWithdrawn { msa_id: x, amount: a });
		self.event("HandleClaimed", cat![[66, 0], u64_(x), bytes(&h)], Handle::HandleClaimed { msa_id: x, handle: h.clone() });
		self.event("HandleRetired", cat![[66, 1], u64_(x), bytes(&h)], Handle::HandleRetired { msa_id: x, handle: h.clone() });
		self.event("MessagesStored", cat![[61, 0], u16_(m), u32_(y)], Messages::MessagesStored { schema_id: m, block_number: y });
		self.event("MessagesInBlock", cat![[61, 1]], Messages::MessagesInBlock);
		let (provider_id, delegator_id) = (ProviderId(x), DelegatorId(x2));
		self.event("MsaCreated", cat![[60, 0], u64_(x), key(&w)], Msa::MsaCreated { msa_id: x, key: w.clone() });
		self.event("PublicKeyAdded", cat![[60, 1], u64_(x), key(&w)], Msa::PublicKeyAdded { msa_id: x, key: w.clone() });
		self.event("PublicKeyDeleted", cat![[60, 2], key(&w)], Msa::PublicKeyDeleted { key: w.clone() });
		self.event("DelegationGranted", cat![[60, 3], u64_(x), u64_(x2)], Msa::DelegationGranted { provider_id, delegator_id });
		self.event("ProviderCreated", cat![[60, 4], u64_(x)], Msa::ProviderCreated { provider_id });
		self.event("DelegationRevoked", cat![[60, 5], u64_(x), u64_(x2)], Msa::DelegationRevoked { provider_id, delegator_id });
		self.event("MsaRetired", cat![[60, 6], u64_(x)], Msa::MsaRetired { msa_id: x });
		self.event("DelegationUpdated", cat![[60, 7], u64_(x), u64_(x2)], Msa::DelegationUpdated { provider_id, delegator_id });
		self.event("SchemaCreated", cat![[62, 0], key(&w), u16_(m)], Schemas::SchemaCreated { key: w.clone(), schema_id: m });
		self.event("SchemaMaxSizeChanged", cat![[62, 1], u32_(y)], Schemas::SchemaMaxSizeChanged { max_size: y });
		self.event("SchemaNameCreated", cat![[62, 2], u16_(m), bytes(&h)], Schemas::SchemaNameCreated { schema_id: m, name: h.clone() });
		let (msa_id, schema_id, prev_content_hash, curr_content_hash, page_id) = (x, m, y, y2, page);
		self.event("ItemizedPageUpdated", cat![[63, 0], u64_(x), u16_(m), u32_(y), u32_(y2)], State::ItemizedPageUpdated { msa_id, schema_id, prev_content_hash, curr_content_hash });
		self.event("ItemizedPageDeleted", cat![[63, 1], u64_(x), u16_(m), u32_(y)], State::ItemizedPageDeleted { msa_id, schema_id, prev_content_hash });
		self.event(
			"PaginatedPageUpdated",
			cat![[63, 2], u64_(x), u16_(m), u16_(page), u32_(y), u32_(y2)],
			State::PaginatedPageUpdated { msa_id, schema_id, page_id, prev_content_hash, curr_content_hash },
		);
		self.event("PaginatedPageDeleted", cat![[63, 3], u64_(x), u16_(m), u16_(page), u32_(y)], State::PaginatedPageDeleted { msa_id, schema_id, page_id, prev_content_hash });
		self.event("ReleaseScheduleAdded", cat![[40, 0], key(&w), key(&w2), sb], Time::ReleaseScheduleAdded { from: w.clone(), to: w2, release_schedule: schedule });
		self.event("Claimed", cat![[40, 1], key(&w), u128_(a)], Time::Claimed { who: w.clone(), amount: a });
		self.event("ReleaseSchedulesUpdated", cat![[40, 2], key(&w)], Time::ReleaseSchedulesUpdated { who: w });
	}
	/// what the runtime's own queries answer with
	fn answers(&mut self) {
		use common_primitives::{handles as h, messages as me, msa as ms, rpc, schema as sc, stateful_storage as ss};
		let (x, y, m, m2, w) = (self.n64(), self.n32(), self.n16(), self.n16(), self.who());
		let (d, d2) = (self.small(60), self.small(60));
		self.means("SchemaGrant", cat![u16_(m), u32_(y)], ms::SchemaGrant { schema_id: m, revoked_at: y });
		self.means(
			"DelegationResponse",
			cat![u64_(x), list(&[cat![u16_(m), u32_(y)]])],
			ms::DelegationResponse { provider_id: ProviderId(x), permissions: vec![ms::SchemaGrant { schema_id: m, revoked_at: y }] },
		);
		self.means("HandleResponse", cat![bytes(&d), bytes(&d2), u16_(m)], h::HandleResponse { base_handle: d.clone(), canonical_base: d2.clone(), suffix: m });
		self.means("PresumptiveSuffixesResponse", cat![bytes(&d), list(&[u16_(m), u16_(m2)])], h::PresumptiveSuffixesResponse { base_handle: d.clone(), suffixes: vec![m, m2] });
		self.means(
			"PaginatedStorageResponse",
			cat![u16_(m), u64_(x), u16_(m2), u32_(y), u16_(m), bytes(&d)],
			ss::PaginatedStorageResponse { page_id: m, msa_id: x, schema_id: m2, content_hash: y, nonce: m, payload: d.clone() },
		);
		self.means(
			"ItemizedStoragePageResponse",
			cat![u64_(x), u16_(m2), u32_(y), u16_(m), list(&[cat![u16_(m), bytes(&d)]])],
			ss::ItemizedStoragePageResponse { msa_id: x, schema_id: m2, content_hash: y, nonce: m, items: vec![ss::ItemizedStorageResponse { index: m, payload: d.clone() }] },
		);
		let (t, l, (s, sb)) = (self.model(), self.location(), self.settings());
		self.means(
			"SchemaResponse",
			cat![u16_(m), bytes(&d), [t.1, l.1], sb],
			sc::SchemaResponse { schema_id: m, model: d.clone(), model_type: t.0, payload_location: l.0, settings: s },
		);
		let v = self.o.g.u8();
		self.means("SchemaVersionResponse", cat![bytes(&d), [v], u16_(m)], sc::SchemaVersionResponse { schema_name: d.clone(), schema_version: v, schema_id: m });
		let one = |g: &mut Rng| g.chance(1, 2);
		let (msa_id, payload, cid, payload_length) = (
			one(&mut self.o.g).then_some(x),
			one(&mut self.o.g).then(|| d.clone()),
			one(&mut self.o.g).then(|| d2.clone()),
			one(&mut self.o.g).then_some(y),
		);
		self.means(
			"MessageResponse",
			cat![u64_(x), u16_(m), u32_(y), opt(msa_id.map(u64_)), opt(payload.as_ref().map(|p| bytes(p))), opt(cid.as_ref().map(|p| bytes(p))), opt(payload_length.map(u32_))],
			me::MessageResponse { provider_msa_id: x, index: m, block_number: y, msa_id, payload, cid, payload_length },
		);
		let phase = one(&mut self.o.g).then_some(y);
		self.means("RpcEvent", cat![opt(phase.map(u32_)), [v, v], bytes(&d)], rpc::RpcEvent { phase, pallet: v, event: v, data: d });
		let _ = w;
	}
	fn errors(&mut self) {
		let mut known = known_errors();
		known.extend(passkeys::errors());
		for (pallet, of, names) in ERRORS {
			for (i, n) in names.iter().enumerate() {
				// one that is there no more has no number
				let Some(e) = known.iter().find(|k| k.0 == *of && k.1 == *n) else { continue };
				let DispatchError::Module(e) = e.2 else { continue };
				self.o.r.count("form:error");
				self.o.check("C40", e.index == *pallet && e.error == [i as u8, 0, 0, 0], "an_error_is_numbered_differently_from_what_is_published", || {
					json!({"error": format!("{of}.{n}"), "published": [*pallet, i as u8], "actual": format!("{e:?}")})
				});
			}
		}
	}
}
fn known_errors() -> Vec<(&'static str, &'static str, DispatchError)> {
	vec![
		("Capacity", "InvalidTarget", pallet_capacity::Error::<Runtime>::InvalidTarget.into()),
		("Capacity", "InsufficientBalance", pallet_capacity::Error::<Runtime>::InsufficientBalance.into()),
		("Capacity", "InsufficientStakingAmount", pallet_capacity::Error::<Runtime>::InsufficientStakingAmount.into()),
		("Capacity", "ZeroAmountNotAllowed", pallet_capacity::Error::<Runtime>::ZeroAmountNotAllowed.into()),
		("Capacity", "NotAStakingAccount", pallet_capacity::Error::<Runtime>::NotAStakingAccount.into()),
		("Capacity", "NoUnstakedTokensAvailable", pallet_capacity::Error::<Runtime>::NoUnstakedTokensAvailable.into()),
		("Capacity", "UnstakedAmountIsZero", pallet_capacity::Error::<Runtime>::UnstakedAmountIsZero.into()),
		("Capacity", "AmountToUnstakeExceedsAmountStaked", pallet_capacity::Error::<Runtime>::AmountToUnstakeExceedsAmountStaked.into()),
		("Capacity", "StakerTargetRelationshipNotFound", pallet_capacity::Error::<Runtime>::StakerTargetRelationshipNotFound.into()),
		("Capacity", "TargetCapacityNotFound", pallet_capacity::Error::<Runtime>::TargetCapacityNotFound.into()),
		("Capacity", "MaxUnlockingChunksExceeded", pallet_capacity::Error::<Runtime>::MaxUnlockingChunksExceeded.into()),
		("Capacity", "IncreaseExceedsAvailable", pallet_capacity::Error::<Runtime>::IncreaseExceedsAvailable.into()),
		("Capacity", "MaxEpochLengthExceeded", pallet_capacity::Error::<Runtime>::MaxEpochLengthExceeded.into()),
		("Capacity", "BalanceTooLowtoStake", pallet_capacity::Error::<Runtime>::BalanceTooLowtoStake.into()),
		("Capacity", "NoThawedTokenAvailable", pallet_capacity::Error::<Runtime>::NoThawedTokenAvailable.into()),
		("FrequencyTxPayment", "BatchedCallAmountExceedsMaximum", pallet_frequency_tx_payment::Error::<Runtime>::BatchedCallAmountExceedsMaximum.into()),
		("Handles", "InvalidHandleEncoding", pallet_handles::Error::<Runtime>::InvalidHandleEncoding.into()),
		("Handles", "InvalidHandleByteLength", pallet_handles::Error::<Runtime>::InvalidHandleByteLength.into()),
		("Handles", "InvalidHandleCharacterLength", pallet_handles::Error::<Runtime>::InvalidHandleCharacterLength.into()),
		("Handles", "HandleIsNotAllowed", pallet_handles::Error::<Runtime>::HandleIsNotAllowed.into()),
		("Handles", "HandleContainsBlockedCharacters", pallet_handles::Error::<Runtime>::HandleContainsBlockedCharacters.into()),
		("Handles", "HandleDoesNotConsistOfSupportedCharacterSets", pallet_handles::Error::<Runtime>::HandleDoesNotConsistOfSupportedCharacterSets.into()),
		("Handles", "SuffixesExhausted", pallet_handles::Error::<Runtime>::SuffixesExhausted.into()),
		("Handles", "InvalidMessageSourceAccount", pallet_handles::Error::<Runtime>::InvalidMessageSourceAccount.into()),
		("Handles", "InvalidSignature", pallet_handles::Error::<Runtime>::InvalidSignature.into()),
		("Handles", "MSAHandleAlreadyExists", pallet_handles::Error::<Runtime>::MSAHandleAlreadyExists.into()),
		("Handles", "MSAHandleDoesNotExist", pallet_handles::Error::<Runtime>::MSAHandleDoesNotExist.into()),
		("Handles", "ProofHasExpired", pallet_handles::Error::<Runtime>::ProofHasExpired.into()),
		("Handles", "ProofNotYetValid", pallet_handles::Error::<Runtime>::ProofNotYetValid.into()),
		("Handles", "HandleWithinMortalityPeriod", pallet_handles::Error::<Runtime>::HandleWithinMortalityPeriod.into()),
		("Handles", "InvalidHandle", pallet_handles::Error::<Runtime>::InvalidHandle.into()),
		("Messages", "TooManyMessagesInBlock", pallet_messages::Error::<Runtime>::TooManyMessagesInBlock.into()),
		("Messages", "ExceedsMaxMessagePayloadSizeBytes", pallet_messages::Error::<Runtime>::ExceedsMaxMessagePayloadSizeBytes.into()),
		("Messages", "TypeConversionOverflow", pallet_messages::Error::<Runtime>::TypeConversionOverflow.into()),
		("Messages", "InvalidMessageSourceAccount", pallet_messages::Error::<Runtime>::InvalidMessageSourceAccount.into()),
		("Messages", "InvalidSchemaId", pallet_messages::Error::<Runtime>::InvalidSchemaId.into()),
		("Messages", "UnAuthorizedDelegate", pallet_messages::Error::<Runtime>::UnAuthorizedDelegate.into()),
		("Messages", "InvalidPayloadLocation", pallet_messages::Error::<Runtime>::InvalidPayloadLocation.into()),
		("Messages", "UnsupportedCidVersion", pallet_messages::Error::<Runtime>::UnsupportedCidVersion.into()),
		("Messages", "InvalidCid", pallet_messages::Error::<Runtime>::InvalidCid.into()),
		("Msa", "KeyAlreadyRegistered", pallet_msa::Error::<Runtime>::KeyAlreadyRegistered.into()),
		("Msa", "MsaIdOverflow", pallet_msa::Error::<Runtime>::MsaIdOverflow.into()),
		("Msa", "MsaOwnershipInvalidSignature", pallet_msa::Error::<Runtime>::MsaOwnershipInvalidSignature.into()),
		("Msa", "NotMsaOwner", pallet_msa::Error::<Runtime>::NotMsaOwner.into()),
		("Msa", "InvalidSignature", pallet_msa::Error::<Runtime>::InvalidSignature.into()),
		("Msa", "NotKeyOwner", pallet_msa::Error::<Runtime>::NotKeyOwner.into()),
		("Msa", "NoKeyExists", pallet_msa::Error::<Runtime>::NoKeyExists.into()),
		("Msa", "KeyLimitExceeded", pallet_msa::Error::<Runtime>::KeyLimitExceeded.into()),
		("Msa", "InvalidSelfRemoval", pallet_msa::Error::<Runtime>::InvalidSelfRemoval.into()),
		("Msa", "InvalidSelfProvider", pallet_msa::Error::<Runtime>::InvalidSelfProvider.into()),
		("Msa", "InvalidSchemaId", pallet_msa::Error::<Runtime>::InvalidSchemaId.into()),
		("Msa", "DuplicateProvider", pallet_msa::Error::<Runtime>::DuplicateProvider.into()),
		("Msa", "AddProviderSignatureVerificationFailed", pallet_msa::Error::<Runtime>::AddProviderSignatureVerificationFailed.into()),
		("Msa", "UnauthorizedDelegator", pallet_msa::Error::<Runtime>::UnauthorizedDelegator.into()),
		("Msa", "UnauthorizedProvider", pallet_msa::Error::<Runtime>::UnauthorizedProvider.into()),
		("Msa", "DelegationRevoked", pallet_msa::Error::<Runtime>::DelegationRevoked.into()),
		("Msa", "DelegationNotFound", pallet_msa::Error::<Runtime>::DelegationNotFound.into()),
		("Msa", "DuplicateProviderRegistryEntry", pallet_msa::Error::<Runtime>::DuplicateProviderRegistryEntry.into()),
		("Msa", "ExceedsMaxProviderNameSize", pallet_msa::Error::<Runtime>::ExceedsMaxProviderNameSize.into()),
		("Msa", "ExceedsMaxSchemaGrantsPerDelegation", pallet_msa::Error::<Runtime>::ExceedsMaxSchemaGrantsPerDelegation.into()),
		("Msa", "SchemaNotGranted", pallet_msa::Error::<Runtime>::SchemaNotGranted.into()),
		("Msa", "ProviderNotRegistered", pallet_msa::Error::<Runtime>::ProviderNotRegistered.into()),
		("Msa", "ProofHasExpired", pallet_msa::Error::<Runtime>::ProofHasExpired.into()),
		("Msa", "ProofNotYetValid", pallet_msa::Error::<Runtime>::ProofNotYetValid.into()),
		("Msa", "SignatureAlreadySubmitted", pallet_msa::Error::<Runtime>::SignatureAlreadySubmitted.into()),
		("Msa", "NewKeyOwnershipInvalidSignature", pallet_msa::Error::<Runtime>::NewKeyOwnershipInvalidSignature.into()),
		("Msa", "CannotPredictValidityPastCurrentBlock", pallet_msa::Error::<Runtime>::CannotPredictValidityPastCurrentBlock.into()),
		("Msa", "SignatureRegistryLimitExceeded", pallet_msa::Error::<Runtime>::SignatureRegistryLimitExceeded.into()),
		("Msa", "SignatureRegistryCorrupted", pallet_msa::Error::<Runtime>::SignatureRegistryCorrupted.into()),
		("Msa", "MsaCannotBeRetired", pallet_msa::Error::<Runtime>::MsaCannotBeRetired.into()),
		("Schemas", "InvalidSchema", pallet_schemas::Error::<Runtime>::InvalidSchema.into()),
		("Schemas", "ExceedsMaxSchemaModelBytes", pallet_schemas::Error::<Runtime>::ExceedsMaxSchemaModelBytes.into()),
		("Schemas", "LessThanMinSchemaModelBytes", pallet_schemas::Error::<Runtime>::LessThanMinSchemaModelBytes.into()),
		("Schemas", "SchemaCountOverflow", pallet_schemas::Error::<Runtime>::SchemaCountOverflow.into()),
		("Schemas", "InvalidSetting", pallet_schemas::Error::<Runtime>::InvalidSetting.into()),
		("Schemas", "InvalidSchemaNameEncoding", pallet_schemas::Error::<Runtime>::InvalidSchemaNameEncoding.into()),
		("Schemas", "InvalidSchemaNameCharacters", pallet_schemas::Error::<Runtime>::InvalidSchemaNameCharacters.into()),
		("Schemas", "InvalidSchemaNameStructure", pallet_schemas::Error::<Runtime>::InvalidSchemaNameStructure.into()),
		("Schemas", "InvalidSchemaNameLength", pallet_schemas::Error::<Runtime>::InvalidSchemaNameLength.into()),
		("Schemas", "InvalidSchemaNamespaceLength", pallet_schemas::Error::<Runtime>::InvalidSchemaNamespaceLength.into()),
		("Schemas", "InvalidSchemaDescriptorLength", pallet_schemas::Error::<Runtime>::InvalidSchemaDescriptorLength.into()),
		("Schemas", "ExceedsMaxNumberOfVersions", pallet_schemas::Error::<Runtime>::ExceedsMaxNumberOfVersions.into()),
		("Schemas", "SchemaIdAlreadyExists", pallet_schemas::Error::<Runtime>::SchemaIdAlreadyExists.into()),
		("Schemas", "SchemaIdDoesNotExist", pallet_schemas::Error::<Runtime>::SchemaIdDoesNotExist.into()),
		("Schemas", "SchemaIdAlreadyHasName", pallet_schemas::Error::<Runtime>::SchemaIdAlreadyHasName.into()),
		("StatefulStorage", "PageIdExceedsMaxAllowed", pallet_stateful_storage::Error::<Runtime>::PageIdExceedsMaxAllowed.into()),
		("StatefulStorage", "PageExceedsMaxPageSizeBytes", pallet_stateful_storage::Error::<Runtime>::PageExceedsMaxPageSizeBytes.into()),
		("StatefulStorage", "InvalidSchemaId", pallet_stateful_storage::Error::<Runtime>::InvalidSchemaId.into()),
		("StatefulStorage", "UnsupportedOperationForSchema", pallet_stateful_storage::Error::<Runtime>::UnsupportedOperationForSchema.into()),
		("StatefulStorage", "SchemaPayloadLocationMismatch", pallet_stateful_storage::Error::<Runtime>::SchemaPayloadLocationMismatch.into()),
		("StatefulStorage", "InvalidMessageSourceAccount", pallet_stateful_storage::Error::<Runtime>::InvalidMessageSourceAccount.into()),
		("StatefulStorage", "UnauthorizedDelegate", pallet_stateful_storage::Error::<Runtime>::UnauthorizedDelegate.into()),
		("StatefulStorage", "CorruptedState", pallet_stateful_storage::Error::<Runtime>::CorruptedState.into()),
		("StatefulStorage", "InvalidItemAction", pallet_stateful_storage::Error::<Runtime>::InvalidItemAction.into()),
		("StatefulStorage", "StalePageState", pallet_stateful_storage::Error::<Runtime>::StalePageState.into()),
		("StatefulStorage", "InvalidSignature", pallet_stateful_storage::Error::<Runtime>::InvalidSignature.into()),
		("StatefulStorage", "ProofHasExpired", pallet_stateful_storage::Error::<Runtime>::ProofHasExpired.into()),
		("StatefulStorage", "ProofNotYetValid", pallet_stateful_storage::Error::<Runtime>::ProofNotYetValid.into()),
		("TimeRelease", "ZeroReleasePeriod", pallet_time_release::Error::<Runtime>::ZeroReleasePeriod.into()),
		("TimeRelease", "ZeroReleasePeriodCount", pallet_time_release::Error::<Runtime>::ZeroReleasePeriodCount.into()),
		("TimeRelease", "InsufficientBalanceToFreeze", pallet_time_release::Error::<Runtime>::InsufficientBalanceToFreeze.into()),
		("TimeRelease", "TooManyReleaseSchedules", pallet_time_release::Error::<Runtime>::TooManyReleaseSchedules.into()),
		("TimeRelease", "AmountLow", pallet_time_release::Error::<Runtime>::AmountLow.into()),
		("TimeRelease", "MaxReleaseSchedulesExceeded", pallet_time_release::Error::<Runtime>::MaxReleaseSchedulesExceeded.into()),
	]
}

/// a CID as it is written in text: multibase of lower case base 32
fn unbase32(s: &str) -> B {
	let mut out = vec![];
	let (mut acc, mut n) = (0u32, 0);
	for c in s.bytes().skip(1) {
		let d = if c.is_ascii_lowercase() { c - b'a' } else { c - b'2' + 26 };
		acc = acc << 5 | d as u32;
		n += 5;
		if n >= 8 {
			n -= 8;
			out.push((acc >> n) as u8);
			acc &= (1 << n) - 1;
		}
	}
	out
}
/// every item kept under a name, by its key
fn kept(prefix: &B) -> Map<B, B> {
	let mut m = Map::new();
	let mut k = prefix.clone();
	if let Some(v) = stored(&k) {
		m.insert(k.clone(), v);
	}
	while let Some(n) = sp_io::storage::next_key(&k) {
		if !n.starts_with(prefix) {
			break
		}
		m.insert(n.clone(), stored(&n).unwrap_or_default());
		k = n;
	}
	m
}
fn child_key(msa: u64, kind: &[u8]) -> B {
	cat![blake2_128(&cat![u64_(msa), b"::"]), twox_64(b"stateful-storage"), twox_64(kind)]
}
fn content_hash(nonce: u16, data: &[u8]) -> u32 {
	(u64::from_le_bytes(twox_64(&cat![u16_(nonce), data])) >> 32) as u32
}
/// the state as it is published: names, keys and layout
struct Published {
	items: Map<(&'static str, &'static str), Map<B, B>>,
}
impl Published {
	fn of(&mut self, pallet: &'static str, name: &'static str) -> &mut Map<B, B> {
		self.items.entry((pallet, name)).or_default()
	}
	fn put(&mut self, pallet: &'static str, name: &'static str, k: B, v: B) {
		self.of(pallet, name).insert(cat![item(pallet, name), k], v);
	}
}
/// what the runtime says it knows, as it is to be kept
fn published(messages: &Map<(u32, u16, u16), B>) -> Published {
	let mut p = Published { items: Map::new() };
	for (a, m) in pallet_msa::PublicKeyToMsaId::<Runtime>::iter() {
		p.put("Msa", "PublicKeyToMsaId", twox(key(&a)), u64_(m));
	}
	let last = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
	p.put("Msa", "CurrentMsaIdentifierMaximum", vec![], u64_(last));
	for m in 1..=last {
		let n = pallet_msa::Pallet::<Runtime>::get_public_key_count_by_msa_id(m);
		if n > 0 {
			p.put("Msa", "PublicKeyCountForMsaId", twox(u64_(m)), vec![n]);
		}
	}
	for (x, e) in pallet_msa::ProviderToRegistryEntry::<Runtime>::iter() {
		p.put("Msa", "ProviderToRegistryEntry", twox(u64_(x.0)), bytes(&e.provider_name));
	}
	for (d, x, g) in pallet_msa::DelegatorAndProviderToDelegation::<Runtime>::iter() {
		let grants: Vec<B> = g.schema_permissions.iter().map(|(s, at)| cat![u16_(*s), u32_(*at)]).collect();
		p.put("Msa", "DelegatorAndProviderToDelegation", cat![twox(u64_(d.0)), twox(u64_(x.0))], cat![u32_(g.revoked_at), list(&grants)]);
	}
	for s in 1..=rt::Schemas::get_current_schema_identifier_maximum() {
		let Some(x) = rt::Schemas::get_schema_by_id(s) else { continue };
		p.put("Schemas", "SchemaPayloads", twox(u16_(s)), bytes(&x.model));
		let t = match x.model_type {
			ModelType::AvroBinary => 0,
			ModelType::Parquet => 1,
		};
		let l = match x.payload_location {
			OnChain => 0,
			IPFS => 1,
			Itemized => 2,
			Paginated => 3,
		};
		let set: u16 = x.settings.iter().map(|s| match s {
			AppendOnly => 1,
			SignatureRequired => 2,
		}).sum();
		let named = rt::Schemas::get_schema_info(s).is_some_and(|i| i.has_name);
		p.put("Schemas", "SchemaInfos", twox(u16_(s)), cat![[t, l], u16_(set), [named as u8]]);
	}
	p.put("Schemas", "CurrentSchemaIdentifierMaximum", vec![], u16_(rt::Schemas::get_current_schema_identifier_maximum()));
	p.put("Schemas", "GovernanceSchemaModelMaxBytes", vec![], u32_(rt::Schemas::get_schema_model_max_bytes()));
	for space in ["dsnp", "other", "own"] {
		for v in rt::Schemas::get_schema_versions(space.as_bytes().to_vec()).unwrap_or_default() {
			let name = v.schema_name.clone();
			let dot = name.iter().position(|c| *c == b'.').unwrap_or(0);
			let k = cat![blake(bytes(&name[..dot])), blake(bytes(&name[dot + 1..]))];
			let mut all: Vec<_> = rt::Schemas::get_schema_versions(name).unwrap_or_default();
			all.sort_by_key(|v| v.schema_version);
			p.put("Schemas", "SchemaNameToIds", k, list(&all.iter().map(|v| u16_(v.schema_id)).collect::<Vec<_>>()));
		}
	}
	for (a, d) in pallet_capacity::StakingAccountLedger::<Runtime>::iter() {
		let t = match d.staking_type {
			pallet_capacity::StakingType::MaximumCapacity => 0,
			pallet_capacity::StakingType::ProviderBoost => 1,
		};
		p.put("Capacity", "StakingAccountLedger", twox(key(&a)), cat![u128_(d.active), [t]]);
	}
	for (a, m, d) in pallet_capacity::StakingTargetLedger::<Runtime>::iter() {
		p.put("Capacity", "StakingTargetLedger", cat![twox(key(&a)), twox(u64_(m))], cat![u128_(d.amount), u128_(d.capacity)]);
	}
	for (m, d) in pallet_capacity::CapacityLedger::<Runtime>::iter() {
		let v = cat![u128_(d.remaining_capacity), u128_(d.total_tokens_staked), u128_(d.total_capacity_issued), u32_(d.last_replenished_epoch)];
		p.put("Capacity", "CapacityLedger", twox(u64_(m)), v);
	}
	for (a, l) in pallet_capacity::UnstakeUnlocks::<Runtime>::iter() {
		p.put("Capacity", "UnstakeUnlocks", twox(key(&a)), list(&l.iter().map(|c| cat![u128_(c.value), u32_(c.thaw_at)]).collect::<Vec<_>>()));
	}
	p.put("Capacity", "CurrentEpoch", vec![], u32_(pallet_capacity::CurrentEpoch::<Runtime>::get()));
	p.put("Capacity", "CurrentEpochInfo", vec![], u32_(pallet_capacity::CurrentEpochInfo::<Runtime>::get().epoch_start));
	p.put("Capacity", "EpochLength", vec![], u32_(pallet_capacity::EpochLength::<Runtime>::get()));
	for (m, (h, e)) in pallet_handles::MSAIdToDisplayName::<Runtime>::iter() {
		p.put("Handles", "MSAIdToDisplayName", twox(u64_(m)), cat![bytes(&h), u32_(e)]);
	}
	for (b, s, m) in pallet_handles::CanonicalBaseHandleAndSuffixToMSAId::<Runtime>::iter() {
		p.put("Handles", "CanonicalBaseHandleAndSuffixToMSAId", cat![blake(bytes(&b)), twox(u16_(s))], u64_(m));
	}
	for (b, (i, s)) in pallet_handles::CanonicalBaseHandleToSuffixIndex::<Runtime>::iter() {
		p.put("Handles", "CanonicalBaseHandleToSuffixIndex", blake(bytes(&b)), cat![u16_(i), u16_(s)]);
	}
	for (a, l) in pallet_time_release::ReleaseSchedules::<Runtime>::iter() {
		let l: Vec<B> = l.iter().map(|s| cat![u32_(s.start), u32_(s.period), u32_(s.period_count), compact(s.per_period)]).collect();
		p.put("TimeRelease", "ReleaseSchedules", blake(key(&a)), list(&l));
	}
	for ((n, s, i), v) in messages {
		p.put("Messages", "MessagesV2", cat![twox(u32_(*n)), twox(u16_(*s)), twox(u16_(*i))], v.clone());
	}
	let now = rt::System::block_number();
	if let Some(x) = rt::Msa::get_payload_signature_pointer() {
		p.put("Msa", "PayloadSignatureRegistryPointer", vec![], cat![sig(&x.newest), u32_(x.newest_expires_at), sig(&x.oldest), u32_(x.count)]);
		// from the oldest to the one before the newest
		let mut at = x.oldest.clone();
		for _ in 0..x.count {
			let Some((until, next)) = rt::Msa::get_payload_signature_registry(&at) else { break };
			p.put("Msa", "PayloadSignatureRegistryList", twox(sig(&at)), cat![u32_(until), sig(&next)]);
			at = next;
		}
	}
	p.put("Messages", "BlockMessageIndex", vec![], u16_(messages.keys().filter(|k| k.0 == now).count() as u16));
	p
}
impl World<'_> {
	/// the messages of this block, as they are to be kept
	fn collect(&mut self, all: &mut Map<(u32, u16, u16), B>) {
		let now = rt::System::block_number();
		for (s, l) in [(1, OnChain), (2, IPFS)] {
			for m in rt::Messages::get_messages_by_schema_and_block(s, l, now) {
				let payload = match s {
					1 => m.payload.clone().unwrap_or_default(),
					// binary content identifier and length
					_ => cat![bytes(&unbase32(&String::from_utf8(m.cid.clone().unwrap_or_default()).unwrap_or_default())), u32_(m.payload_length.unwrap_or(0))],
				};
				all.insert((now, s, m.index), cat![bytes(&payload), u64_(m.provider_msa_id), opt(m.msa_id.map(u64_))]);
			}
		}
	}
	fn compare(&mut self, messages: &Map<(u32, u16, u16), B>) {
		let p = published(messages);
		for ((pallet, name), want) in &p.items {
			let got = kept(&item(pallet, name));
			if want.len() == 1 && want.keys().next().map(|k| k.len()) == Some(32) {
				// a single value; one that is not kept is read as if it were its default
				if got.is_empty() {
					continue
				}
			}
			let odd = want.iter().find(|(k, v)| got.get(*k) != Some(*v));
			// counters of what is there no more may be kept
			let extra = got.iter().find(|(k, v)| !want.contains_key(*k) && v.iter().any(|b| *b != 0));
			self.o.r.add(&format!("kept:{pallet}.{name}"), want.len() as u64);
			self.o.check("C40", odd.is_none() && extra.is_none(), &format!("{pallet}_{name}_is_kept_differently_from_what_is_published"), || {
				json!({
					"published": odd.map(|(k, v)| [hex(k), hex(v)]),
					"actual": odd.map(|(k, _)| got.get(k).map(|v| hex(v))),
					"not_expected": extra.map(|(k, v)| [hex(k), hex(v)]),
				})
			});
		}
		let last = pallet_msa::CurrentMsaIdentifierMaximum::<Runtime>::get();
		for m in 1..=last {
			for s in 3..=SCHEMAS {
				if matches!(s, 3 | 5) {
					let Ok(page) = rt::StatefulStorage::get_itemized_storage(m, s) else { continue };
					let data: B = page.items.iter().flat_map(|i| cat![u16_(i.payload.len() as u16), i.payload]).collect();
					let k = cat![twox_128(&u16_(s)), u16_(s)];
					let got = sp_io::default_child_storage::get(&child_key(m, b"itemized"), &k);
					let want = (page.content_hash != 0).then(|| cat![u16_(page.nonce), bytes(&data)]);
					if want.is_some() {
						self.o.r.count("kept:items");
						self.o.check("C40", page.content_hash == content_hash(page.nonce, &data), "the_hash_of_items_is_not_the_published_one", || json!({"page": dbg(&page), "hash": content_hash(page.nonce, &data)}));
					}
					self.o.check("C40", got == want || want.is_none() && page.items.is_empty(), "items_are_kept_differently_from_what_is_published", || {
						json!({"published": want.as_ref().map(|w| hex(w)), "actual": got.as_ref().map(|w| hex(w)), "page": dbg(&page)})
					});
				} else {
					for page in rt::StatefulStorage::get_paginated_storage(m, s).unwrap_or_default() {
						let k = cat![twox_128(&u16_(s)), twox_128(&u16_(page.page_id)), u16_(s), u16_(page.page_id)];
						let got = sp_io::default_child_storage::get(&child_key(m, b"paginated"), &k);
						let want = cat![u16_(page.nonce), bytes(&page.payload)];
						self.o.r.count("kept:page");
						self.o.check("C40", page.content_hash == content_hash(page.nonce, &page.payload), "the_hash_of_a_page_is_not_the_published_one", || json!({"page": dbg(&page)}));
						self.o.check("C40", got.as_ref() == Some(&want), "a_page_is_kept_differently_from_what_is_published", || {
							json!({"published": hex(&want), "actual": got.as_ref().map(|w| hex(w)), "page": dbg(&page)})
						});
					}
				}
			}
		}
	}
	/// a transaction put together from bytes by someone who knows the published form only
	fn by_hand(&mut self) {
		let (actor, call) = self.operation();
		let (sender, call) = self.wrap(actor, call, 0);
		let Some(k) = (0..PEOPLE).find(|i| acc(*i) == sender) else { return };
		let nonce = rt::System::account_nonce(&sender);
		let tip = if self.o.g.chance(1, 3) { self.o.g.below(100_000) as u128 } else { 0 };
		let genesis: [u8; 32] = rt::System::block_hash(0).into();
		// mortal for 64 blocks from now, or for ever
		let (era, birth) = if self.o.g.chance(1, 2) {
			let phase = self.now as u64 % 64;
			let born = self.now as u64;
			let hash: [u8; 32] = rt::System::block_hash(born as u32).into();
			// the hash of this very block is known only once it is over
			if rt::System::block_hash(born as u32) == Default::default() {
				(vec![0], genesis)
			} else {
				((5u16 | (phase as u16) << 4).to_le_bytes().to_vec(), hash)
			}
		} else {
			let period = *self.o.g.pick(&[4u64, 64, 1024]);
			let born = (self.now as u64).saturating_sub(1);
			let factor = (period >> 12).max(1);
			let phase = born % period / factor * factor;
			let birth = (self.now as u64 - phase) / period * period + phase;
			let hash = rt::System::block_hash(birth as u32);
			if birth != born || hash == Default::default() {
				(vec![0], genesis)
			} else {
				self.o.r.count("signed:mortal");
				let e = (period.trailing_zeros() as u16 - 1).clamp(1, 15) | ((phase / factor) << 4) as u16;
				(e.to_le_bytes().to_vec(), hash.into())
			}
		};
		let extra = cat![era, compact(nonce), compact(tip)];
		let encoded = call.encode();
		let version: (u32, u32) = (rt::VERSION.spec_version, rt::VERSION.transaction_version);
		let mut signed = cat![encoded, extra, u32_(version.0), u32_(version.1), genesis, birth];
		if signed.len() > 256 {
			self.o.r.count("signed:long");
			signed = blake2_256(&signed).to_vec();
		}
		let proof = MultiSignature::Sr25519(pair(k).sign(&signed));
		let inside = cat![[0x84], to(&sender), sig(&proof), extra, encoded];
		let b = cat![compact(inside.len() as u32), inside];
		self.submitted(b, call, sender, nonce, tip);
	}
	fn submitted(&mut self, b: B, call: RuntimeCall, sender: Key, nonce: u32, tip: u128) {
		let read = guarded(|| {
			let mut rest = &b[..];
			let x = rt::UncheckedExtrinsic::decode(&mut rest).map_err(|e| format!("{e:?}"))?;
			if !rest.is_empty() {
				return Err(String::from("bytes are left"))
			}
			Ok(x)
		});
		let xt = match read {
			Ok(Ok(xt)) => xt,
			r => {
				self.o.check("C40", false, "a_transaction_of_the_published_form_is_not_read", || json!({"bytes": hex(&b), "read": format!("{r:?}").chars().take(300).collect::<String>()}));
				return
			},
		};
		let same = xt.function == call && xt.encode() == b;
		self.o.check("C40", same, "a_transaction_of_the_published_form_means_something_else", || json!({"bytes": hex(&b), "meant": dbg(&call), "read": dbg(&xt.function)}));
		let valid = guarded(|| Executive::validate_transaction(TransactionSource::External, xt.clone(), Default::default()));
		let refused = matches!(&valid, Ok(Err(TransactionValidityError::Invalid(InvalidTransaction::BadProof | InvalidTransaction::Stale | InvalidTransaction::Future | InvalidTransaction::BadSigner | InvalidTransaction::AncientBirthBlock))));
		self.o.check("C40", !refused, "a_transaction_signed_in_the_published_form_is_not_taken_as_signed", || json!({"bytes": hex(&b), "call": dbg(&call), "answer": format!("{valid:?}")}));
		self.o.r.count(if matches!(valid, Ok(Ok(_))) { "by_hand:valid" } else { "by_hand:refused" });
		if let Ok(Ok(v)) = &valid {
			let want = vec![cat![key(&sender), u32_(nonce)]];
			self.o.check("C40", v.provides.starts_with(&want), "the_tag_of_a_transaction_is_not_the_published_one", || json!({"tags": v.provides.iter().map(|t| hex(t)).collect::<Vec<_>>(), "published": hex(&want[0])}));
		}
		self.judge(xt, sender, nonce, false, tip, false);
	}
	/// the same through a passkey, where there are any
	fn passkey_by_hand(&mut self) {
		let k = self.o.g.usize(PEOPLE);
		let owner = acc(k);
		let dest = self.someone();
		let value = (self.o.g.u64() >> self.o.g.below(60)) as u128;
		let inner: RuntimeCall = pallet_balances::Call::transfer_keep_alive { dest: id(&dest), value }.into();
		let mut public = [0u8; 33];
		public.copy_from_slice(&self.o.g.bytes(33));
		let nonce = rt::System::account_nonce(&owner);
		let proof = MultiSignature::Sr25519(pair(k).sign(&cat![b"<Bytes>", public, b"</Bytes>"]));
		let (a, c, d) = (self.o.g.bytes(40), self.o.g.bytes(60), self.o.g.bytes(100));
		let Some((call, _)) = passkeys::forms(owner.clone(), nonce, proof.clone(), inner, (a.clone(), c.clone(), d.clone()), public) else { return };
		let inner = cat![[10, 3], to(&dest), compact(value)];
		let inside = cat![[4, 67, 0], public, bytes(&a), bytes(&c), bytes(&d), key(&owner), u32_(nonce), sig(&proof), inner];
		self.o.r.count("by_hand:passkey");
		self.submitted(cat![compact(inside.len() as u32), inside], call, owner, nonce, 0);
	}
}
fn forms(r: &mut Run, n: u64) {
	let g = r.rng(0x4000 + n);
	let mut o = Mon::new(r, g, json!({"network": NETWORK}));
	let mut g = Gen { o: &mut o };
	g.errors();
	for _ in 0..20 {
		g.calls();
		g.answers();
		g.others();
	}
}
impl Gen<'_, '_> {
	fn others(&mut self) {
		use common::proxy::ProxyType::*;
		let (x, w, p) = (self.n32(), self.who(), self.proof());
		let public: [u8; 33] = self.o.g.bytes(33).try_into().unwrap();
		let d = (self.small(96), self.small(128), self.small(256));
		let inner: RuntimeCall = Handle::retire_handle {}.into();
		let b = cat![[67, 0], public, bytes(&d.0), bytes(&d.1), bytes(&d.2), key(&w), u32_(x), sig(&p), [66, 1]];
		if let Some((call, event)) = passkeys::forms(w.clone(), x, p, inner, d, public) {
			self.call("Passkey.proxy", b, call);
			self.event("TransactionExecutionSuccess", cat![[67, 0], key(&w)], event);
		}
		for (t, i) in [(Any, 0), (NonTransfer, 1), (Governance, 2), (Staking, 3), (CancelProxy, 6)] {
			self.means("ProxyType", vec![i], t);
			let delegate = id(&w);
			self.call("Proxy.add_proxy", cat![[43, 1], to(&w), [i], u32_(x)], pallet_proxy::Call::add_proxy { delegate, proxy_type: t, delay: x });
		}
		self.means("FreezeReason", vec![64, 0], rt::RuntimeFreezeReason::from(pallet_capacity::FreezeReason::CapacityStaking));
		self.means("FreezeReason", vec![40, 0], rt::RuntimeFreezeReason::from(pallet_time_release::FreezeReason::TimeReleaseVesting));
	}
}
pub fn bytes_run(r: &mut Run, n: u64) {
	forms(r, n);
	let g = r.rng(0x4040_0000 + n);
	let o = Mon::new(r, g, json!({"network": NETWORK}));
	let (mut w, s) = world(o);
	TestExternalities::new(s).execute_with(|| {
		cumulus_pallet_parachain_system::RelaychainDataProvider::<Runtime>::set(1);
		rt::System::set_block_number(1);
		w.told.max_model = rt::Schemas::get_schema_model_max_bytes();
		w.told.epoch_length = pallet_capacity::EpochLength::<Runtime>::get();
		w.setting();
		let mut messages = Map::new();
		for i in 0..120 {
			if w.o.bad {
				break
			}
			if w.o.g.chance(1, 8) {
				w.next_block();
			}
			match w.o.g.below(12) {
				0 => w.decree(),
				1 => w.passkey_by_hand(),
				2 => w.submit(),
				_ => w.by_hand(),
			}
			w.collect(&mut messages);
			if i % 10 == 9 {
				w.compare(&messages);
			}
		}
	});
}
