//! C32: how public types look on the wire, in storage and in JSON, and that they come back the same.
#![recursion_limit = "256"]
use common_primitives::{
	handles::*,
	messages::*,
	msa::*,
	node::{AccountId, BlockNumber},
	offchain::*,
	rpc::RpcEvent,
	schema::*,
	stateful_storage::*,
	utils::*,
};
use frame_support::{traits::ConstU32, BoundedVec};
use kit::*;
use pallet_stateful_storage::types::*;
use parity_scale_codec::{Decode, Encode, MaxEncodedLen};
use rt_testnet::Runtime;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use sp_runtime::MultiSignature;
use std::fmt::Debug;

/// draws values and writes down how they ought to be encoded
struct W<'a> {
	g: &'a mut Rng,
	b: Vec<u8>,
}
fn compact(n: u128) -> Vec<u8> {
	match n {
		0..=0x3f => vec![(n as u8) << 2],
		0x40..=0x3fff => ((n as u16) << 2 | 1).to_le_bytes().to_vec(),
		0x4000..=0x3fff_ffff => ((n as u32) << 2 | 2).to_le_bytes().to_vec(),
		_ => {
			let mut v = n.to_le_bytes().to_vec();
			while v.len() > 4 && v.last() == Some(&0) {
				v.pop();
			}
			v.insert(0, ((v.len() - 4) as u8) << 2 | 3);
			v
		},
	}
}
macro_rules! ints {
	($($f:ident $c:ident $t:ty),*) => { $(
		fn $f(&mut self) -> $t {
			let n = self.some() as $t;
			self.b.extend(n.to_le_bytes());
			n
		}
		#[allow(dead_code)]
		fn $c(&mut self) -> $t {
			let n = self.some() as $t;
			self.b.extend(compact(n as u128));
			n
		}
	)* };
}
impl W<'_> {
	ints!(u16 c16 u16, u32 c32 u32, u64 c64 u64, u128 c128 u128);
	fn some(&mut self) -> u128 {
		let n = (self.g.u64() as u128) << 64 | self.g.u64() as u128;
		match self.g.below(6) {
			0 => n,
			1 => n >> self.g.below(128),
			2 => self.g.below(5) as u128,
			3 => u128::MAX - self.g.below(3) as u128,
			4 => (1u128 << self.g.below(127)).wrapping_sub(self.g.below(3) as u128),
			_ => *self.g.pick(&[63, 64, 0x3fff, 0x4000, 0x3fff_ffff, 0x4000_0000, u32::MAX as u128, u64::MAX as u128]),
		}
	}
	fn u8(&mut self) -> u8 {
		let n = self.some() as u8;
		self.b.push(n);
		n
	}
	fn bool(&mut self) -> bool {
		let n = self.g.chance(1, 2);
		self.b.push(n as u8);
		n
	}
	fn len(&mut self, most: usize) -> usize {
		let n = match self.g.below(8) {
			0 => 0,
			1 => most,
			2 => most.min(64),
			_ => self.g.usize(most.min(80) + 1),
		};
		self.b.extend(compact(n as u128));
		n
	}
	fn bytes(&mut self, most: usize) -> Vec<u8> {
		let n = self.len(most);
		let v = self.g.bytes(n);
		self.b.extend(&v);
		v
	}
	fn text(&mut self) -> Vec<u8> {
		let n = self.g.usize(12);
		let s: String = (0..n).map(|_| *self.g.pick(&['a', 'Z', '0', '"', '\\', '/', '\n', '\0', '\u{7f}', 'é', '蕙', '𐍈', '\u{feff}', '\u{2028}', '<'])).collect();
		self.b.extend(compact(s.len() as u128));
		self.b.extend(s.as_bytes());
		s.into_bytes()
	}
	fn bounded<S: frame_support::traits::Get<u32>>(&mut self) -> BoundedVec<u8, S> {
		self.bytes(S::get() as usize).try_into().unwrap()
	}
	fn fixed<const N: usize>(&mut self) -> [u8; N] {
		let v: [u8; N] = self.g.bytes(N).try_into().unwrap();
		self.b.extend(v);
		v
	}
	fn account(&mut self) -> AccountId {
		self.fixed::<32>().into()
	}
	fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> {
		self.bool().then(|| f(self))
	}
	fn vec<T>(&mut self, most: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
		let n = self.len(most.min(12));
		(0..n).map(|_| f(self)).collect()
	}
	fn one_of<T: Copy>(&mut self, all: &[T]) -> T {
		let k = self.g.usize(all.len());
		self.b.push(k as u8);
		all[k]
	}
	fn model_type(&mut self) -> ModelType {
		self.one_of(&[ModelType::AvroBinary, ModelType::Parquet])
	}
	fn location(&mut self) -> PayloadLocation {
		self.one_of(&[PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated])
	}
	fn setting(&mut self) -> SchemaSetting {
		// its own number is up to enumflags2
		let x = *self.g.pick(&[SchemaSetting::AppendOnly, SchemaSetting::SignatureRequired]);
		self.b.extend(x.encode());
		x
	}
	/// a set of settings: one bit each, in two bytes
	fn settings(&mut self) -> SchemaSettings {
		let n = self.g.below(4) as u16;
		self.b.extend(n.to_le_bytes());
		let mut s = SchemaSettings::all_disabled();
		if n & 1 > 0 {
			s.set(SchemaSetting::AppendOnly);
		}
		if n & 2 > 0 {
			s.set(SchemaSetting::SignatureRequired);
		}
		s
	}
	fn signature(&mut self) -> MultiSignature {
		match self.one_of(&[0u8, 1]) {
			0 => MultiSignature::Ed25519(sp_core::ed25519::Signature::from_raw(self.fixed::<64>())),
			_ => MultiSignature::Sr25519(sp_core::sr25519::Signature::from_raw(self.fixed::<64>())),
		}
	}
	fn grants(&mut self) -> Vec<SchemaGrant<SchemaId, BlockNumber>> {
		self.vec(9, |w| SchemaGrant::new(w.u16(), w.u32()))
	}
	fn action<S: frame_support::traits::Get<u32> + Clone + Debug + PartialEq>(&mut self) -> ItemAction<S> {
		match self.one_of(&[0u8, 1]) {
			0 => ItemAction::Add { data: self.bounded() },
			_ => ItemAction::Delete { index: self.u16() },
		}
	}
	fn item(&mut self) -> ItemizedStorageResponse {
		ItemizedStorageResponse { index: self.u16(), payload: self.bytes(80) }
	}
	fn message(&mut self) -> MessageResponse {
		MessageResponse {
			provider_msa_id: self.u64(),
			index: self.u16(),
			block_number: self.u32(),
			msa_id: self.opt(|w| w.u64()),
			payload: self.opt(|w| w.bytes(80)),
			cid: self.opt(|w| w.text()).filter(|_| true),
			payload_length: self.opt(|w| w.u32()),
		}
	}
}
struct World<'a> {
	r: &'a mut Run,
	g: Rng,
}
impl World<'_> {
	/// the value has exactly this encoding, and no other value or prefix has
	fn scale<T: Encode + Decode>(&mut self, name: &str, v: &T, want: &[u8], same: impl Fn(&T, &T) -> bool) {
		let about = |more: Value| json!({"type": name, "expected": hex(&want[..want.len().min(400)]), "more": more});
		let got = v.encode();
		self.r.check(got == want, &format!("{name}_is_encoded_differently"), || about(json!(hex(&got[..got.len().min(400)]))));
		let mut out = vec![];
		v.encode_to(&mut out);
		let whole = v.using_encoded(|b| b.to_vec());
		self.r.check(out == got && whole == got, &format!("{name}_encodes_two_ways"), || about(json!([hex(&out), hex(&whole)])));
		// what follows is left alone
		let tail = self.g.usize(4);
		let mut long = want.to_vec();
		long.extend(self.g.bytes(tail));
		let mut input = &long[..];
		let back = guarded(|| T::decode(&mut input));
		match back {
			Ok(Ok(b)) => {
				self.r.check(same(&b, v), &format!("{name}_is_decoded_to_another_value"), || about(json!(hex(&b.encode()))));
				self.r.check(input.len() == tail, &format!("{name}_decodes_too_much_or_too_little"), || about(json!(input.len())));
			},
			other => {
				self.r.violation(&format!("{name}_cannot_be_decoded"), about(json!(format!("{:?}", other.map(|r| r.map(|_| ()))))));
			},
		}
		if !want.is_empty() {
			let n = self.g.usize(want.len());
			let r = guarded(|| T::decode(&mut &want[..n]).is_ok());
			self.r.check(r == Ok(false), &format!("{name}_is_decoded_from_part_of_its_encoding"), || about(json!([n, format!("{r:?}")])));
			// damaged or made up: whatever is accepted is a value like any other
			let mut bad = if self.g.chance(1, 3) { self.g.bytes(want.len() + 3) } else { want.to_vec() };
			for _ in 0..1 + self.g.below(3) {
				let k = self.g.usize(bad.len());
				bad[k] ^= 1 << self.g.below(8);
			}
			match guarded(|| T::decode(&mut &bad[..]).ok()) {
				Err(p) => {
					self.r.violation(&format!("decoding_{name}_panics"), json!({"input": hex(&bad), "panic": p}));
				},
				Ok(Some(x)) => {
					self.r.count("damaged_but_a_value");
					let e = x.encode();
					let ok = T::decode(&mut &e[..]).map_or(false, |y| same(&x, &y));
					self.r.check(ok, &format!("{name}_does_not_come_back"), || json!({"input": hex(&bad), "encoding": hex(&e)}));
				},
				Ok(None) => self.r.count("damaged_and_refused"),
			}
		}
		self.r.count(&format!("scale:{name}"));
		self.r.case(&(name, want));
	}
	fn limit(&mut self, name: &str, len: usize, most: usize) {
		self.r.check(len <= most, &format!("{name}_is_longer_than_its_limit"), || json!({"length": len, "limit": most}));
	}
	/// the value has this JSON form and is read back from it
	fn json<T: Serialize + DeserializeOwned + PartialEq + Debug>(&mut self, name: &str, v: &T, want: Value) {
		let got = guarded(|| serde_json::to_value(v).map_err(|e| e.to_string()));
		self.r.check(got == Ok(Ok(want.clone())), &format!("{name}_has_another_json_form"), || json!({"value": dbg(v), "expected": want, "got": format!("{got:?}")}));
		let text = match guarded(|| serde_json::to_string(v)) {
			Ok(Ok(t)) => t,
			_ => return,
		};
		let back = guarded(|| serde_json::from_str::<T>(&text).map_err(|e| e.to_string()));
		self.r.check(matches!(&back, Ok(Ok(b)) if b == v), &format!("{name}_does_not_come_back_from_json"), || json!({"json": text, "got": format!("{back:?}")}));
		// in whatever order the fields come
		let back = guarded(|| serde_json::from_value::<T>(want.clone()).map_err(|e| e.to_string()));
		self.r.check(matches!(&back, Ok(Ok(b)) if b == v), &format!("{name}_is_not_read_from_its_json_form"), || json!({"json": want, "got": format!("{back:?}")}));
		self.r.count(&format!("json:{name}"));
	}
}
fn hexs(b: &[u8]) -> Value {
	json!(format!("0x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()))
}
fn text(b: &[u8]) -> Value {
	json!(std::str::from_utf8(b).unwrap())
}
fn object(fields: Vec<(&str, Option<Value>)>) -> Value {
	Value::Object(fields.into_iter().filter_map(|(k, v)| Some((k.to_string(), v?))).collect())
}
macro_rules! scale {
	($s:expr, $name:literal, $w:ident, $v:expr) => {{
		let mut g = $s.g.fork();
		let (v, b) = {
			let mut $w = W { g: &mut g, b: vec![] };
			let v = $v;
			(v, $w.b)
		};
		$s.scale($name, &v, &b, |a, b| a == b);
		v
	}};
}
macro_rules! stored {
	($s:expr, $name:literal, $w:ident, $t:ty, $v:expr) => {{
		let v: $t = scale!($s, $name, $w, $v);
		$s.limit($name, v.encoded_size(), <$t as MaxEncodedLen>::max_encoded_len());
		v
	}};
}
type R = Runtime;
type Blob = <R as pallet_stateful_storage::Config>::MaxItemizedBlobSizeBytes;
type PageSize = <R as pallet_stateful_storage::Config>::MaxPaginatedPageSizeBytes;

fn identifiers(s: &mut World) {
	let d = stored!(s, "DelegatorId", w, DelegatorId, DelegatorId(w.u64()));
	s.json("DelegatorId", &d, json!(d.0));
	let p = stored!(s, "ProviderId", w, ProviderId, ProviderId(w.u64()));
	s.json("ProviderId", &p, json!(p.0));
	let n: u64 = d.into();
	s.r.check(n == d.0 && DelegatorId::from(n) == d && ProviderId::from(n).0 == n && u64::from(ProviderId(n)) == n, "identifiers_convert_to_another_number", || json!(n));
	for (id, k) in [(get_msa_account_lock_name(n), "lock"), (get_msa_account_storage_key_name(n), "keys")] {
		let want = format!("Msa::ofw::{k}::{n}");
		s.r.check(id == want.as_bytes(), "offchain_names_differ", || json!({"msa": n, "got": String::from_utf8_lossy(&id)}));
	}
}
fn settings(s: &mut World) {
	let v = stored!(s, "SchemaSettings", w, SchemaSettings, w.settings());
	let n = u16::decode(&mut &v.encode()[..]).unwrap_or(u16::MAX);
	let has = (v.is_enabled(SchemaSetting::AppendOnly), v.is_enabled(SchemaSetting::SignatureRequired));
	s.r.check(has == (n & 1 > 0, n & 2 > 0), "settings_are_not_the_bits_set", || json!([n, dbg(&has)]));
	s.r.check(SchemaSettings::from(v.get_enabled()) == v, "settings_are_not_what_they_are_made_of", || json!(n));
	// a bit that means nothing is refused
	let n = s.g.u16() >> s.g.below(16);
	let ok = SchemaSettings::decode(&mut &n.encode()[..]);
	s.r.check(ok.is_ok() == (n < 4), if n < 4 { "settings_are_refused" } else { "settings_nobody_defined_are_accepted" }, || json!(n));
	s.r.count(if n < 4 { "settings:defined" } else { "settings:undefined" });
	let m = scale!(s, "ModelType", w, w.model_type());
	let l = scale!(s, "PayloadLocation", w, w.location());
	let t = scale!(s, "SchemaSetting", w, w.setting());
	s.json("ModelType", &m, json!(format!("{m:?}")));
	s.json("PayloadLocation", &l, json!(format!("{l:?}")));
	s.json("SchemaSetting", &t, json!(format!("{t:?}")));
	let b = [s.g.u8()];
	for (name, ok, n) in [
		("ModelType", ModelType::decode(&mut &b[..]).is_ok(), 2),
		("PayloadLocation", PayloadLocation::decode(&mut &b[..]).is_ok(), 4),
	] {
		s.r.check(ok == (b[0] < n), &format!("{name}_has_more_or_fewer_values"), || json!(b[0]));
	}
}
fn responses(s: &mut World) {
	let names = |v: &[SchemaSetting]| json!(v.iter().map(|x| format!("{x:?}")).collect::<Vec<_>>());
	let x = scale!(s, "SchemaResponse", w, SchemaResponse { schema_id: w.u16(), model: w.text(), model_type: w.model_type(), payload_location: w.location(), settings: w.vec(3, |w| w.setting()) });
	s.json(
		"SchemaResponse",
		&x,
		json!({"schema_id": x.schema_id, "model": text(&x.model), "model_type": format!("{:?}", x.model_type), "payload_location": format!("{:?}", x.payload_location), "settings": names(&x.settings)}),
	);
	let x = scale!(s, "SchemaInfoResponse", w, SchemaInfoResponse { schema_id: w.u16(), model_type: w.model_type(), payload_location: w.location(), settings: w.vec(3, |w| w.setting()) });
	s.json(
		"SchemaInfoResponse",
		&x,
		json!({"schema_id": x.schema_id, "model_type": format!("{:?}", x.model_type), "payload_location": format!("{:?}", x.payload_location), "settings": names(&x.settings)}),
	);
	let x = scale!(s, "SchemaVersionResponse", w, SchemaVersionResponse { schema_name: w.text(), schema_version: w.u8(), schema_id: w.u16() });
	s.json("SchemaVersionResponse", &x, json!({"schema_name": text(&x.schema_name), "schema_version": x.schema_version, "schema_id": x.schema_id}));
	let grants = |v: &[SchemaGrant<SchemaId, BlockNumber>]| json!(v.iter().map(|g| json!({"schema_id": g.schema_id, "revoked_at": g.revoked_at})).collect::<Vec<_>>());
	let x = scale!(s, "DelegationResponse", w, DelegationResponse { provider_id: ProviderId(w.u64()), permissions: w.grants() });
	s.json("DelegationResponse", &x, json!({"provider_id": x.provider_id.0, "permissions": grants(&x.permissions)}));
	let x = scale!(s, "KeyInfoResponse", w, KeyInfoResponse { msa_id: w.u64(), msa_keys: w.vec(5, |w| w.u64()) });
	s.json("KeyInfoResponse", &x, json!({"msa_id": x.msa_id, "msa_keys": x.msa_keys}));
	let _ = scale!(s, "KeyInfoResponseOfAccounts", w, KeyInfoResponse { msa_id: w.u64(), msa_keys: w.vec(5, |w| w.account()) });
	let x = scale!(s, "HandleResponse", w, HandleResponse { base_handle: w.text(), canonical_base: w.text(), suffix: w.u16() });
	s.json("HandleResponse", &x, json!({"base_handle": text(&x.base_handle), "canonical_base": text(&x.canonical_base), "suffix": x.suffix}));
	let x = scale!(s, "PresumptiveSuffixesResponse", w, PresumptiveSuffixesResponse { base_handle: w.text(), suffixes: w.vec(9, |w| w.u16()) });
	s.json("PresumptiveSuffixesResponse", &x, json!({"base_handle": text(&x.base_handle), "suffixes": x.suffixes}));
	let x = scale!(s, "PaginatedStorageResponse", w, PaginatedStorageResponse { page_id: w.u16(), msa_id: w.u64(), schema_id: w.u16(), content_hash: w.u32(), nonce: w.u16(), payload: w.bytes(90) });
	s.json(
		"PaginatedStorageResponse",
		&x,
		json!({"page_id": x.page_id, "msa_id": x.msa_id, "schema_id": x.schema_id, "content_hash": x.content_hash, "nonce": x.nonce, "payload": hexs(&x.payload)}),
	);
	s.r.check(
		PaginatedStorageResponse::new(x.page_id, x.msa_id, x.schema_id, x.content_hash, x.nonce, x.payload.clone()) == x,
		"a_page_response_is_made_of_other_parts",
		|| dbg(&x),
	);
	let item = |i: &ItemizedStorageResponse| json!({"index": i.index, "payload": hexs(&i.payload)});
	let x = scale!(s, "ItemizedStorageResponse", w, w.item());
	s.json("ItemizedStorageResponse", &x, item(&x));
	s.r.check(ItemizedStorageResponse::new(x.index, x.payload.clone()) == x, "an_item_response_is_made_of_other_parts", || dbg(&x));
	let x = scale!(s, "ItemizedStoragePageResponse", w, ItemizedStoragePageResponse { msa_id: w.u64(), schema_id: w.u16(), content_hash: w.u32(), nonce: w.u16(), items: w.vec(4, |w| w.item()) });
	s.json(
		"ItemizedStoragePageResponse",
		&x,
		json!({"msa_id": x.msa_id, "schema_id": x.schema_id, "content_hash": x.content_hash, "nonce": x.nonce, "items": x.items.iter().map(item).collect::<Vec<_>>()}),
	);
	s.r.check(
		ItemizedStoragePageResponse::new(x.msa_id, x.schema_id, x.content_hash, x.nonce, x.items.clone()) == x,
		"an_itemized_response_is_made_of_other_parts",
		|| dbg(&x),
	);
	let message = |m: &MessageResponse| {
		object(vec![
			("provider_msa_id", Some(json!(m.provider_msa_id))),
			("index", Some(json!(m.index))),
			("block_number", Some(json!(m.block_number))),
			("msa_id", m.msa_id.map(|x| json!(x))),
			("payload", m.payload.as_ref().map(|x| hexs(x))),
			("cid", m.cid.as_ref().map(|x| text(x))),
			("payload_length", m.payload_length.map(|x| json!(x))),
		])
	};
	let x = scale!(s, "MessageResponse", w, w.message());
	// an empty content identifier is none at all
	let whole = |m: &MessageResponse| m.cid.as_ref().map_or(true, |c| !c.is_empty());
	if whole(&x) {
		s.json("MessageResponse", &x, message(&x));
	}
	let x = scale!(s, "BlockPaginationRequest", w, BlockPaginationRequest { from_block: w.u32(), from_index: w.u32(), to_block: w.u32(), page_size: w.u32() });
	s.json("BlockPaginationRequest", &x, json!({"from_block": x.from_block, "from_index": x.from_index, "to_block": x.to_block, "page_size": x.page_size}));
	let x = scale!(s, "BlockPaginationResponse", w, BlockPaginationResponse { content: w.vec(3, |w| w.message()), has_next: w.bool(), next_block: w.opt(|w| w.u32()), next_index: w.opt(|w| w.u32()) });
	if x.content.iter().all(whole) {
		s.json(
			"BlockPaginationResponse",
			&x,
			object(vec![
				("content", Some(json!(x.content.iter().map(message).collect::<Vec<_>>()))),
				("has_next", Some(json!(x.has_next))),
				("next_block", x.next_block.map(|x| json!(x))),
				("next_index", x.next_index.map(|x| json!(x))),
			]),
		);
	}
	let x = scale!(s, "RpcEvent", w, RpcEvent { phase: w.opt(|w| w.u32()), pallet: w.u8(), event: w.u8(), data: w.bytes(50) });
	s.json("RpcEvent", &x, json!({"phase": x.phase, "pallet": x.pallet, "event": x.event, "data": hexs(&x.data)}));
}
fn payloads(s: &mut World) {
	let _ = scale!(s, "AddProvider", w, pallet_msa::AddProvider { authorized_msa_id: w.u64(), schema_ids: w.vec(12, |w| w.u16()), expiration: w.u32() });
	let _ = scale!(s, "AddKeyData", w, pallet_msa::AddKeyData::<R> { msa_id: w.u64(), expiration: w.u32(), new_public_key: w.account() });
	let x = scale!(s, "ClaimHandlePayload", w, ClaimHandlePayload::<BlockNumber> { base_handle: w.bytes(40), expiration: w.u32() });
	s.r.check(ClaimHandlePayload::new(x.base_handle.clone(), x.expiration) == x, "a_handle_payload_is_made_of_other_parts", || dbg(&x));
	let most: u32 = <R as pallet_stateful_storage::Config>::MaxItemizedActionsCount::get();
	let most = most as usize;
	let actions = |w: &mut W| w.vec(most, |w| w.action::<Blob>()).try_into().unwrap();
	let _ = scale!(s, "ItemizedSignaturePayload", w, ItemizedSignaturePayload::<R> {
		msa_id: w.c64(), schema_id: w.c16(), target_hash: w.c32(), expiration: w.u32(), actions: actions(&mut w)
	});
	let _ = scale!(s, "ItemizedSignaturePayloadV2", w, ItemizedSignaturePayloadV2::<R> {
		schema_id: w.c16(), target_hash: w.c32(), expiration: w.u32(), actions: actions(&mut w)
	});
	let _ = stored!(s, "PaginatedUpsertSignaturePayload", w, PaginatedUpsertSignaturePayload<R>, PaginatedUpsertSignaturePayload {
		msa_id: w.c64(), schema_id: w.c16(), page_id: w.c16(), target_hash: w.c32(), expiration: w.u32(), payload: w.bounded()
	});
	let _ = stored!(s, "PaginatedUpsertSignaturePayloadV2", w, PaginatedUpsertSignaturePayloadV2<R>, PaginatedUpsertSignaturePayloadV2 {
		schema_id: w.c16(), page_id: w.c16(), target_hash: w.c32(), expiration: w.u32(), payload: w.bounded()
	});
	let _ = stored!(s, "PaginatedDeleteSignaturePayload", w, PaginatedDeleteSignaturePayload<R>, PaginatedDeleteSignaturePayload {
		msa_id: w.c64(), schema_id: w.c16(), page_id: w.c16(), target_hash: w.c32(), expiration: w.u32()
	});
	let _ = stored!(s, "PaginatedDeleteSignaturePayloadV2", w, PaginatedDeleteSignaturePayloadV2<R>, PaginatedDeleteSignaturePayloadV2 {
		schema_id: w.c16(), page_id: w.c16(), target_hash: w.c32(), expiration: w.u32()
	});
	let _ = stored!(s, "VerifiablePasskeySignature", w, pallet_passkey::VerifiablePasskeySignature, pallet_passkey::VerifiablePasskeySignature {
		signature: w.bounded(), authenticator_data: w.bounded(), client_data_json: w.bounded()
	});
	let _ = scale!(s, "PasskeyCall", w, pallet_passkey::PasskeyCall::<R> {
		account_id: w.account(),
		account_nonce: w.u32(),
		account_ownership_proof: w.signature(),
		call: {
			// System.remark
			w.b.extend([0, 0]);
			Box::new(frame_system::Call::remark { remark: w.bytes(40) }.into())
		},
	});
	// what is wrapped around a payload that is signed
	let n = s.g.usize(120);
	let data = match s.g.below(6) {
		0 => b"<Bytes>".to_vec(),
		1 => b"<Bytes>x</Bytes>".to_vec(),
		2 => vec![],
		_ => s.g.bytes(n),
	};
	let got = wrap_binary_data(data.clone());
	let want = [&b"<Bytes>"[..], &data, b"</Bytes>"].concat();
	s.r.check(got == want, "a_payload_is_wrapped_differently", || json!({"data": hex(&data), "got": hex(&got)}));
	s.r.count("wrapped");
}
fn records(s: &mut World) {
	type Balance = u128;
	let staking = stored!(s, "StakingDetails", w, pallet_capacity::StakingDetails<R>, pallet_capacity::StakingDetails {
		active: w.u128(), staking_type: w.one_of(&[common_primitives_staking()])
	});
	let _ = staking;
	let _ = stored!(s, "StakingTargetDetails", w, pallet_capacity::StakingTargetDetails<Balance>, pallet_capacity::StakingTargetDetails { amount: w.u128(), capacity: w.u128() });
	let _ = stored!(s, "CapacityDetails", w, pallet_capacity::CapacityDetails<Balance, u32>, pallet_capacity::CapacityDetails {
		remaining_capacity: w.u128(), total_tokens_staked: w.u128(), total_capacity_issued: w.u128(), last_replenished_epoch: w.u32()
	});
	let _ = stored!(s, "UnlockChunk", w, pallet_capacity::UnlockChunk<Balance, u32>, pallet_capacity::UnlockChunk { value: w.u128(), thaw_at: w.u32() });
	let _ = stored!(s, "ReleaseSchedule", w, pallet_time_release::ReleaseSchedule<u32, Balance>, pallet_time_release::ReleaseSchedule {
		start: w.u32(), period: w.u32(), period_count: w.u32(), per_period: w.c128()
	});
	let _ = stored!(s, "SchemaInfo", w, pallet_schemas::SchemaInfo, pallet_schemas::SchemaInfo { model_type: w.model_type(), payload_location: w.location(), settings: w.settings(), has_name: w.bool() });
	let _ = stored!(s, "SchemaVersionId", w, pallet_schemas::SchemaVersionId, pallet_schemas::SchemaVersionId { ids: w.vec(12, |w| w.u16()).try_into().unwrap() });
	let _ = stored!(s, "SchemaName", w, pallet_schemas::SchemaName, pallet_schemas::SchemaName { namespace: w.bounded(), descriptor: w.bounded() });
	type Most = <R as pallet_messages::Config>::MessagesMaxPayloadSizeBytes;
	let mut g = s.g.fork();
	let (m, want) = {
		let mut w = W { g: &mut g, b: vec![] };
		(pallet_messages::Message::<Most> { payload: w.bounded(), provider_msa_id: w.u64(), msa_id: w.opt(|w| w.u64()) }, w.b)
	};
	s.scale("Message", &m, &want, |a, b| a.payload == b.payload && a.provider_msa_id == b.provider_msa_id && a.msa_id == b.msa_id);
	let _ = stored!(s, "ItemHeader", w, ItemHeader, ItemHeader { payload_len: w.u16() });
	let _ = stored!(s, "ProviderRegistryEntry", w, ProviderRegistryEntry<ConstU32<16>>, ProviderRegistryEntry { provider_name: w.bounded() });
	let _ = stored!(s, "SignatureRegistryPointer", w, SignatureRegistryPointer<u32>, SignatureRegistryPointer {
		newest: w.signature(), newest_expires_at: w.u32(), oldest: w.signature(), count: w.u32()
	});
	let _ = stored!(s, "Delegation", w, Delegation<SchemaId, BlockNumber, ConstU32<30>>, Delegation {
		revoked_at: w.u32(),
		schema_permissions: {
			let n = w.len(12);
			let mut m = std::collections::BTreeMap::new();
			while m.len() < n {
				m.insert(w.g.u16(), w.g.u32());
			}
			for (k, v) in &m {
				w.b.extend(k.to_le_bytes());
				w.b.extend(v.to_le_bytes());
			}
			m.try_into().unwrap()
		},
	});
	// pages: a counter and what they hold
	let mut g = s.g.fork();
	let (page, want) = {
		let mut w = W { g: &mut g, b: vec![] };
		(Page::<PageSize> { nonce: w.u16(), data: w.bounded() }, w.b)
	};
	s.scale("Page", &page, &want, |a, b| a.nonce == b.nonce && a.data == b.data);
}
fn common_primitives_staking() -> pallet_capacity::StakingType {
	pallet_capacity::StakingType::MaximumCapacity
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Bare {
	#[serde(with = "as_hex")]
	hex: Vec<u8>,
	#[serde(with = "as_hex_option")]
	maybe_hex: Option<Vec<u8>>,
	#[serde(with = "as_string")]
	text: Vec<u8>,
	#[serde(with = "as_string_option")]
	maybe_text: Option<Vec<u8>>,
}
fn forms(s: &mut World) {
	let n = s.g.usize(70);
	let mut g = s.g.fork();
	let mut w = W { g: &mut g, b: vec![] };
	let v = Bare { hex: w.g.bytes(n), maybe_hex: w.opt(|w| w.bytes(70)), text: w.text(), maybe_text: w.opt(|w| w.text()).filter(|t| !t.is_empty()) };
	let or_null = |x: Option<Value>| x.unwrap_or(Value::Null);
	s.r.count(&format!("maybe:{}", v.maybe_hex.is_some() as u8 + 2 * v.maybe_text.is_some() as u8));
	s.json("bytes", &v, json!({"hex": hexs(&v.hex), "maybe_hex": or_null(v.maybe_hex.as_ref().map(|x| hexs(x))), "text": text(&v.text), "maybe_text": or_null(v.maybe_text.as_ref().map(|x| text(x)))}));
	// text that is none is not written, and nothing else is refused
	let mut b = s.g.bytes(n);
	if s.g.chance(1, 2) {
		for x in &mut b {
			*x &= 0x7f;
		}
	}
	let is_text = std::str::from_utf8(&b).is_ok();
	let as_text = serde_json::to_string(&Bare { text: b.clone(), ..v.clone() }).is_ok();
	let as_some = serde_json::to_string(&Bare { maybe_text: Some(b.clone()), ..v.clone() }).is_ok();
	s.r.count(if is_text { "text:valid" } else { "text:invalid" });
	s.r.check(as_text == is_text && as_some == is_text, if is_text { "text_is_refused" } else { "bytes_that_are_no_text_are_written_as_such" }, || json!(hex(&b)));
	// hexadecimal is read in either case, and what is none is refused
	let h: String = b.iter().map(|x| if x & 1 == 0 { format!("{x:02X}") } else { format!("{x:02x}") }).collect();
	let doc = |h: &str| json!({"hex": h, "maybe_hex": h, "text": "", "maybe_text": null});
	let got = guarded(|| serde_json::from_value::<Bare>(doc(&format!("0x{h}"))).map_err(|e| e.to_string()));
	s.r.check(matches!(&got, Ok(Ok(x)) if x.hex == b && x.maybe_hex.as_ref() == Some(&b) && x.maybe_text.is_none()), "hexadecimal_is_not_read", || json!({"hex": h, "got": format!("{got:?}")}));
	let bad = *s.g.pick(&["0x0g", "0xzz", "0x  ", "0x0-", "0xé0"]);
	let got = guarded(|| serde_json::from_value::<Bare>(doc(bad)).is_err());
	s.r.check(got == Ok(true), "what_is_not_hexadecimal_is_read", || json!({"hex": bad, "got": format!("{got:?}")}));
}
fn chains(s: &mut World) {
	for (known, want) in [(MAINNET_GENESIS_HASH, DetectedChainType::FrequencyMainNet), (TESTNET_ON_PASEO_GENESIS_HASH, DetectedChainType::FrequencyPaseoTestNet)] {
		s.r.check(get_chain_type_by_genesis_hash(known) == want, "a_known_chain_is_not_recognised", || json!(hex(known)));
		let mut other = known.to_vec();
		match s.g.below(3) {
			0 => other.truncate(s.g.usize(32)),
			1 => other.push(s.g.u8()),
			_ => other[s.g.usize(32)] ^= 1 << s.g.below(8),
		}
		let got = get_chain_type_by_genesis_hash(&other);
		s.r.check(got == DetectedChainType::Unknown, "a_chain_is_taken_for_another", || json!({"genesis": hex(&other), "as": format!("{got:?}")}));
	}
}
fn pages(s: &mut World) {
	let mut g = s.g.fork();
	let mut near = |g: &mut Rng| {
		let base = *g.pick(&[0u32, 1, 2, 10, 9_999, 10_000, 49_999, 50_000, 100_000, u32::MAX - 50_000, u32::MAX]);
		base.wrapping_add(g.below(5) as u32).wrapping_sub(2)
	};
	let q = BlockPaginationRequest { from_block: near(&mut g), from_index: near(&mut g), to_block: near(&mut g), page_size: near(&mut g) };
	let q = if g.chance(1, 2) { BlockPaginationRequest { to_block: q.from_block.saturating_add(near(&mut g)), ..q } } else { q };
	let want = (1..=10_000).contains(&q.page_size) && (1..=50_000).contains(&(q.to_block as i64 - q.from_block as i64));
	let got = guarded(|| q.validate());
	s.r.count(if want { "request:valid" } else { "request:invalid" });
	s.r.check(got == Ok(want), if want { "a_valid_request_is_refused" } else { "an_invalid_request_is_accepted" }, || json!({"request": dbg(&q), "got": format!("{got:?}")}));
	if !want {
		return
	}
	// is the page full, and where does the next one begin
	let block = q.from_block + g.below((q.to_block - q.from_block) as u64) as u32;
	let size = 1 + g.below(6) as u32;
	let k = g.below(size as u64) as u32;
	let q = BlockPaginationRequest { page_size: 1 + g.below(4) as u32, to_block: if g.chance(1, 3) { block + 1 } else { q.to_block }, ..q };
	let n = g.below(5) as usize;
	let mut a = BlockPaginationResponse::<u32>::new();
	s.r.check(a.content.is_empty() && !a.has_next && a.next_block.is_none() && a.next_index.is_none(), "a_new_page_is_not_empty", || dbg(&a));
	a.content = vec![7; n];
	let full = n as u32 == q.page_size;
	let next = if k + 1 == size { (block + 1, 0) } else { (block, k + 1) };
	let more = full && next.0 < q.to_block;
	let got = guarded(|| a.check_end_condition_and_set_next_pagination(block, k, size, &q));
	let want = BlockPaginationResponse { content: vec![7; n], has_next: more, next_block: more.then_some(next.0), next_index: more.then_some(next.1) };
	s.r.count(if more { "page:more" } else if full { "page:full" } else { "page:open" });
	s.r.check(got == Ok(full) && a == want, "the_next_page_begins_elsewhere", || json!({"request": dbg(&q), "at": [block, k, size], "expected": dbg(&(full, &want)), "got": dbg(&(got.clone(), &a))}));
}
/// an event as the chain knows it
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, scale_info::TypeInfo)]
enum Told {
	#[codec(index = 7)]
	Some(Inner),
	#[codec(index = 255)]
	Other(Inner),
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode, scale_info::TypeInfo)]
enum Inner {
	#[codec(index = 0)]
	Nothing,
	#[codec(index = 31)]
	Bytes(Vec<u8>),
	#[codec(index = 200)]
	Three(u64, Option<u16>, bool),
}
fn events(s: &mut World) {
	use frame_system::{EventRecord, Phase};
	let g = &mut s.g;
	let (i, inner) = match g.below(3) {
		0 => (0u8, Inner::Nothing),
		1 => {
			let n = g.usize(100);
			(31, Inner::Bytes(g.bytes(n)))
		},
		_ => (200, Inner::Three(g.u64(), if g.chance(1, 2) { Some(g.u16()) } else { None }, g.chance(1, 2))),
	};
	let (p, event) = if g.chance(1, 2) { (7, Told::Some(inner.clone())) } else { (255, Told::Other(inner.clone())) };
	let at = match g.below(3) {
		0 => g.below(4) as u32,
		1 => g.u32(),
		_ => u32::MAX - g.below(3) as u32,
	};
	let (phase, want_phase) = match g.below(4) {
		0 => (Phase::Finalization, None),
		1 => (Phase::Initialization, None),
		_ => (Phase::ApplyExtrinsic(at), Some(at)),
	};
	let data = match &inner {
		Inner::Nothing => vec![],
		Inner::Bytes(b) => [compact(b.len() as u128), b.clone()].concat(),
		Inner::Three(a, b, c) => [a.to_le_bytes().to_vec(), b.map_or(vec![0], |b| [vec![1], b.to_le_bytes().to_vec()].concat()), vec![*c as u8]].concat(),
	};
	let want = RpcEvent { phase: want_phase, pallet: p, event: i, data };
	let record = EventRecord::<Told, sp_core::H256> { phase, event, topics: vec![] };
	let got = guarded(|| RpcEvent::from(record));
	s.r.count("event_told");
	s.r.check(got.as_ref() == Ok(&want), "an_event_is_told_differently", || json!({"expected": dbg(&want), "got": dbg(&got)}));
}
/// what is kept off chain comes back, is absent, or is reported as unreadable
fn kept(s: &mut World) {
	use sp_core::offchain::{testing::TestOffchainExt, OffchainDbExt};
	let (offchain, _) = TestOffchainExt::new();
	let mut ext = TestExternalities::default();
	ext.register_extension(OffchainDbExt::new(offchain));
	let World { r, g } = s;
	ext.execute_with(|| {
		let key = g.bytes(5);
		let n = g.usize(20);
		let raw = g.bytes(n);
		let put = g.chance(3, 4);
		if put {
			sp_io::offchain::local_storage_set(sp_core::offchain::StorageKind::PERSISTENT, &key, &raw);
		}
		let whole = raw.len() >= 10;
		let fields = whole.then(|| (u64::from_le_bytes(raw[..8].try_into().unwrap()), u16::from_le_bytes(raw[8..10].try_into().unwrap())));
		let got = guarded(|| get_index_value::<(u64, u16)>(&key));
		let ok = match &got {
			Ok(Ok(None)) => !put,
			Ok(Ok(Some(v))) => put && Some(*v) == fields,
			Ok(Err(_)) => put && !whole,
			Err(_) => false,
		};
		r.count(if !put { "kept:absent" } else if whole { "kept:readable" } else { "kept:unreadable" });
		r.check(ok, "what_is_kept_offchain_reads_differently", || json!({"kept": if put { Some(hex(&raw)) } else { None }, "got": dbg(&got)}));
	});
}
fn main() {
	let mut r = Run::from_env(20, 300);
	r.assume("polkadot-sdk, parity-scale-codec, enumflags2 and impl-serde are replaced by stand-ins (DESIGN.md); the types and their own codecs are compiled unmodified from the tree, serde and serde_json are the real ones");
	for k in ["DelegatorId", "ProviderId", "SchemaSettings", "AddProvider", "AddKeyData", "ItemizedSignaturePayloadV2", "PaginatedUpsertSignaturePayload", "Delegation", "Message", "Page", "PasskeyCall", "CapacityDetails"] {
		r.require(&format!("scale:{k}"), 300);
	}
	for k in ["SchemaResponse", "MessageResponse", "BlockPaginationResponse", "HandleResponse", "ItemizedStoragePageResponse", "RpcEvent", "bytes", "DelegationResponse"] {
		r.require(&format!("json:{k}"), 200);
	}
	for k in ["settings:defined", "settings:undefined", "maybe:0", "maybe:3", "text:invalid", "text:valid", "request:valid", "request:invalid", "page:more", "page:full", "page:open", "damaged_but_a_value", "damaged_and_refused", "event_told", "kept:absent", "kept:readable", "kept:unreadable"] {
		r.require(k, 50);
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		let g = r.rng(0x3200 + n);
		let mut s = World { r: &mut r, g };
		identifiers(&mut s);
		settings(&mut s);
		responses(&mut s);
		payloads(&mut s);
		records(&mut s);
		forms(&mut s);
		chains(&mut s);
		pages(&mut s);
		events(&mut s);
		kept(&mut s);
	}
	r.add("rounds", n);
	r.finish("a value is distinct if its encoding differs from every other of its type")
}
