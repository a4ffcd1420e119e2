//! C17-C19: messages posted by random senders in random blocks, read back directly and through the
//! paginated RPC, compared with a journal of what was accepted.
use common_primitives::{
	messages::*,
	msa::{DelegatorId, MessageSourceId, MsaLookup, MsaValidator, ProviderId, SchemaGrantValidator},
	schema::*,
};
use frame_support::parameter_types;
use kit::*;
use pallet_messages as messages;
use pallet_messages_rpc::{MessagesApiServer, MessagesHandler};
use parity_scale_codec::Encode;
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet},
	sync::Arc,
};

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Messages: pallet_messages::{Pallet, Call, Storage, Event<T>},
	}
);
kit::system!(Rt, u64, ());
parameter_types! {
	pub static PayloadMax: u32 = 100;
}
#[derive(Clone, Debug, PartialEq, Eq, Encode, parity_scale_codec::Decode, scale_info::TypeInfo, parity_scale_codec::MaxEncodedLen)]
pub struct Max;
impl Get<u32> for Max {
	fn get() -> u32 {
		PayloadMax::get()
	}
}
#[derive(Default)]
struct World {
	msas: BTreeMap<u64, u64>,
	schemas: BTreeMap<u16, PayloadLocation>,
	/// provider, delegator, schema
	grants: BTreeSet<(u64, u64, u16)>,
	now: u32,
}
thread_local! {
	static W: RefCell<World> = RefCell::new(World::default());
}
pub struct Outside;
impl MsaLookup for Outside {
	type AccountId = u64;
	fn get_msa_id(k: &u64) -> Option<MessageSourceId> {
		W.with(|w| w.borrow().msas.get(k).copied())
	}
}
impl MsaValidator for Outside {
	type AccountId = u64;
	fn ensure_valid_msa_key(k: &u64) -> Result<MessageSourceId, DispatchError> {
		Self::get_msa_id(k).ok_or(DispatchError::Other("no msa"))
	}
}
impl SchemaGrantValidator<u32> for Outside {
	fn ensure_valid_schema_grant(p: ProviderId, d: DelegatorId, s: SchemaId, b: u32) -> Result<(), DispatchError> {
		W.with(|w| {
			let w = w.borrow();
			// grants of the past and of the future are not those of now
			(b == w.now && w.grants.contains(&(p.0, d.0, s))).then_some(()).ok_or(DispatchError::Other("no grant"))
		})
	}
}
fn schema(id: u16) -> Option<SchemaResponse> {
	W.with(|w| w.borrow().schemas.get(&id).map(|l| SchemaResponse { schema_id: id, model: b"m".to_vec(), model_type: ModelType::AvroBinary, payload_location: *l, settings: vec![] }))
}
impl SchemaProvider<SchemaId> for Outside {
	fn get_schema_by_id(id: SchemaId) -> Option<SchemaResponse> {
		schema(id)
	}
	fn get_schema_info_by_id(id: SchemaId) -> Option<SchemaInfoResponse> {
		schema(id).map(|s| SchemaInfoResponse { schema_id: id, model_type: s.model_type, payload_location: s.payload_location, settings: vec![] })
	}
}
impl messages::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type MsaInfoProvider = Outside;
	type SchemaGrantValidator = Outside;
	type SchemaProvider = Outside;
	type MessagesMaxPayloadSizeBytes = Max;
}
kit::client!(Rt, Api);
impl pallet_messages_runtime_api::MessagesRuntimeApi<Block> for Api {
	fn get_messages_by_schema_and_block(&self, _: sp_core::H256, s: SchemaId, l: PayloadLocation, b: u32) -> Result<Vec<MessageResponse>, sp_api::ApiError> {
		Ok(Messages::get_messages_by_schema_and_block(s, l, b))
	}
	fn get_schema_by_id(&self, _: sp_core::H256, s: SchemaId) -> Result<Option<SchemaResponse>, sp_api::ApiError> {
		Ok(schema(s))
	}
}

const B32: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
const B64: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
fn bits(alphabet: &[u8], n: u32, d: &[u8]) -> String {
	let all: Vec<u8> = d.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1)).collect();
	all.chunks(n as usize)
		.map(|c| {
			let mut v = c.iter().fold(0usize, |a, b| a * 2 + *b as usize);
			v <<= n as usize - c.len();
			alphabet[v] as char
		})
		.collect()
}
fn base58(d: &[u8]) -> String {
	let mut digits: Vec<u32> = vec![];
	for b in d {
		let mut c = *b as u32;
		for x in digits.iter_mut() {
			c += *x * 256;
			*x = c % 58;
			c /= 58;
		}
		while c > 0 {
			digits.push(c % 58);
			c /= 58;
		}
	}
	let zeros = d.iter().take_while(|b| **b == 0).count();
	std::iter::repeat('1').take(zeros).chain(digits.iter().rev().map(|x| B58[*x as usize] as char)).collect()
}
/// a content id: its text, its bytes and whether it is good (None: open)
fn content_id(g: &mut Rng) -> (Vec<u8>, Vec<u8>, Option<bool>) {
	let mut b = vec![1u8];
	b.extend(g.pick(&[&[0x55u8][..], &[0x70], &[0x71], &[0xa9, 0x02]]).iter());
	let n = *g.pick(&[0usize, 1, 20, 32, 32, 32, 32, 48, 64]);
	b.push(*g.pick(&[0x12u8, 0x13, 0x00, 0x1e]));
	b.push(n as u8);
	let d = g.bytes(n);
	b.extend(d);
	let mut good = Some(true);
	match g.below(24) {
		0 => {
			b[0] = *g.pick(&[0u8, 2, 3, 0x7f]);
			good = Some(false);
		},
		1 if n > 0 => {
			b.pop();
			good = Some(false);
		},
		2 => {
			b.push(7);
			good = None;
		},
		3 => {
			let k = g.usize(4);
			b.truncate(k);
			good = Some(false);
		},
		4 => {
			b = [&[0x12u8, 0x20][..], &g.bytes(32)].concat();
			good = None;
		},
		_ => (),
	}
	let text = match g.below(9) {
		0 => format!("z{}", base58(&b)),
		1 => format!("f{}", hex(&b)),
		2 => format!("F{}", hex(&b).to_uppercase()),
		3 => format!("m{}", bits(B64, 6, &b)),
		_ => format!("b{}", bits(B32, 5, &b)),
	};
	let mut t = text.into_bytes();
	match g.below(24) {
		0 => {
			// version 0 as it is usually written
			let v0 = [&[0x12u8, 0x20][..], &g.bytes(32)].concat();
			t = base58(&v0).into_bytes();
			good = Some(false);
		},
		1 => {
			t[0] = *g.pick(b"!eqwx");
			good = Some(false);
		},
		2 => {
			t.push(*g.pick(b" *!\n"));
			good = Some(false);
		},
		3 => {
			let i = g.usize(t.len());
			t[i] = 0xff;
			good = Some(false);
		},
		4 => {
			let k = g.usize(3);
			t.truncate(k);
			good = Some(false);
		},
		5 => {
			t = "é漢字".as_bytes().to_vec();
			good = Some(false);
		},
		_ => (),
	}
	if good == Some(true) && t[0] == b'f' && b.len() < 3 {
		good = None;
	}
	(t, b, good)
}

#[derive(Clone, Debug)]
struct Posted {
	block: u32,
	schema: u16,
	index: u16,
	from: u64,
	sender: Option<u64>,
	payload: Option<Vec<u8>>,
	cid: Option<Vec<u8>>,
	len: Option<u32>,
}
impl Posted {
	fn response(&self) -> MessageResponse {
		MessageResponse {
			provider_msa_id: self.from,
			index: self.index,
			block_number: self.block,
			msa_id: self.sender,
			payload: self.payload.clone(),
			cid: self.cid.clone(),
			payload_length: self.len,
		}
	}
}
struct H<'a> {
	o: Mon<'a>,
	now: u32,
	first: u32,
	in_block: u32,
	journal: Vec<Posted>,
	last_index: Option<u16>,
}
impl<'a> H<'a> {
	fn post(&mut self) {
		let g = &mut self.o.g;
		let key = g.below(8);
		let sid = g.range(0, 7) as u16;
		let msa = Outside::get_msa_id(&key);
		let loc = W.with(|w| w.borrow().schemas.get(&sid).copied());
		let mut why: Vec<(&'static str, &'static str)> = vec![];
		if msa.is_none() {
			why.push(("C18", "the_key_has_no_account"));
		}
		if loc.is_none() {
			why.push(("C18", "the_schema_does_not_exist"));
		}
		let max = PayloadMax::get() as usize;
		let ipfs = g.chance(1, 2);
		let mut unsure = false;
		let (call, posted, what) = if ipfs {
			let (text, bytes, good) = content_id(g);
			let len = *g.pick(&[0u32, 1, 100, 1 << 20, u32::MAX]);
			match good {
				Some(false) => why.push(("C18", "the_content_id_is_malformed_or_unsupported")),
				None => unsure = true,
				_ => (),
			}
			if good != Some(false) && (bytes.clone(), len).encode().len() > max {
				why.push(("C18", "the_payload_exceeds_the_limit"));
			}
			if loc.map_or(false, |l| l != PayloadLocation::IPFS) {
				why.push(("C18", "the_schema_is_of_another_location"));
			}
			let back = format!("b{}", bits(B32, 5, &bytes)).into_bytes();
			let what = format!("ipfs message by key {key} schema {sid} cid {} length {len}", String::from_utf8_lossy(&text));
			(
				messages::Call::add_ipfs_message { schema_id: sid, cid: text, payload_length: len },
				Posted { block: self.now, schema: sid, index: 0, from: msa.unwrap_or(0), sender: None, payload: None, cid: Some(back), len: Some(len) },
				what,
			)
		} else {
			let n = match g.below(5) {
				0 => max,
				1 => max + 1,
				2 => 0,
				_ => g.usize(max + 1),
			};
			let payload = g.bytes(n);
			if n > max {
				why.push(("C18", "the_payload_exceeds_the_limit"));
			}
			if loc.map_or(false, |l| l != PayloadLocation::OnChain) {
				why.push(("C18", "the_schema_is_of_another_location"));
			}
			let on_behalf = if g.chance(1, 2) { None } else { Some(g.range(0, 9)) };
			if let (Some(d), Some(m)) = (on_behalf, msa) {
				if !W.with(|w| w.borrow().grants.contains(&(m, d, sid))) {
					why.push(("C18", "there_is_no_grant_for_the_schema"));
				}
			}
			let what = format!("onchain message by key {key} schema {sid} {n} bytes on behalf of {on_behalf:?}");
			(
				messages::Call::add_onchain_message { on_behalf_of: on_behalf, schema_id: sid, payload: payload.clone() },
				Posted { block: self.now, schema: sid, index: 0, from: msa.unwrap_or(0), sender: on_behalf.or(msa), payload: Some(payload), cid: None, len: None },
				what,
			)
		};
		let Some(res) = self.o.attempt("C17", format!("block {}: {what}", self.now), || dispatch(RuntimeCall::Messages(call), RuntimeOrigin::signed(key)).map_err(names)) else { return };
		if self.o.verdict(if ipfs { "ipfs" } else { "onchain" }, "C18", &why, unsure, &res) && !self.o.bad {
			self.accept(posted);
		}
	}
	fn accept(&mut self, mut p: Posted) {
		// read it back at once: its index is the only one not seen before
		let list = Messages::get_messages_by_schema_and_block(p.schema, self.location(p.schema), p.block);
		let known: Vec<&Posted> = self.journal.iter().filter(|q| q.block == p.block && q.schema == p.schema).collect();
		let Some(last) = list.last() else {
			self.o.fail("C17", "accepted_message_cannot_be_read_back", json!(format!("{p:?}")));
			return
		};
		p.index = last.index;
		let ok = list.len() == known.len() + 1 && last == &p.response();
		let n = known.len();
		self.o.check("C17", ok, "accepted_message_reads_back_differently", || json!({"posted": dbg(&p.response()), "read": dbg(&last), "listed": list.len(), "expected": n + 1}));
		let increasing = self.last_index.map_or(true, |i| p.index > i);
		let before = self.last_index;
		self.o.check("C17", increasing, "index_does_not_increase_in_arrival_order", || json!({"previous": before, "new": p.index}));
		self.last_index = Some(p.index);
		self.in_block += 1;
		self.o.r.count("messages_accepted");
		self.journal.push(p);
	}
	fn location(&self, s: u16) -> PayloadLocation {
		W.with(|w| w.borrow().schemas.get(&s).copied()).unwrap_or(PayloadLocation::OnChain)
	}
	fn want(&self, s: u16, b: u32) -> Vec<MessageResponse> {
		self.journal.iter().filter(|q| q.block == b && q.schema == s).map(|q| q.response()).collect()
	}
	fn read_all(&mut self) {
		let ids: Vec<u16> = W.with(|w| w.borrow().schemas.keys().copied().collect());
		for s in ids {
			for b in self.first.saturating_sub(1)..=self.now + 1 {
				let got = Messages::get_messages_by_schema_and_block(s, self.location(s), b);
				let want = self.want(s, b);
				self.o.r.count("reads");
				self.o.check("C17", got == want, "stored_messages_differ_from_those_accepted", || json!({"schema": s, "block": b, "got": got.len(), "want": want.len(), "first_difference": got.iter().zip(&want).find(|(a, b)| a != b).map(|x| dbg(&x))}));
				if self.o.bad {
					return
				}
			}
		}
	}
	fn events(&mut self) {
		let n = frame_system::Pallet::<Rt>::events().into_iter().filter(|e| matches!(e.event, RuntimeEvent::Messages(messages::Event::MessagesInBlock))).count();
		let want = (self.in_block > 0) as usize;
		self.o.r.count("blocks_checked_for_their_announcement");
		self.o.check("C17", n == want, "block_with_messages_not_announced_exactly_once", || json!({"announcements": n, "messages": self.in_block}));
	}
	fn paginate(&mut self, rpc: &MessagesHandler<Client, Block>) {
		let g = &mut self.o.g;
		let span = self.now - self.first + 2;
		let req = BlockPaginationRequest {
			from_block: (self.first - 1) + g.below(span as u64) as u32,
			from_index: if g.chance(2, 3) { 0 } else { g.below(12) as u32 },
			to_block: (self.first - 1) + g.below(span as u64 + 3) as u32,
			page_size: *g.pick(&[1u32, 1, 2, 3, 5, 10, 100, 10000, 10001, 0]),
		};
		let s = g.range(0, 7) as u16;
		let valid = req.page_size >= 1 && req.page_size <= 10000 && req.from_block < req.to_block && req.to_block - req.from_block <= 50000;
		let exists = W.with(|w| w.borrow().schemas.contains_key(&s));
		self.o.note(format!("query schema {s} {req:?}"));
		let first = match guarded(|| rpc.get_messages_by_schema_id(s, req.clone())) {
			Ok(r) => r,
			Err(p) => {
				self.o.fail("C19", &format!("panic_{}", panic_sig(&p)), json!(p));
				return
			},
		};
		if !valid || !exists {
			self.o.r.count("queries_out_of_bounds");
			self.o.check("C19", first.is_err(), "request_outside_the_bounds_answered", || json!({"request": dbg(&req), "schema_exists": exists}));
			return
		}
		let want: Vec<MessageResponse> = (req.from_block..req.to_block)
			.flat_map(|b| {
				let skip = if b == req.from_block { req.from_index as usize } else { 0 };
				self.want(s, b).into_iter().skip(skip)
			})
			.collect();
		let mut got: Vec<MessageResponse> = vec![];
		let mut cur = req.clone();
		let mut pages = 0u64;
		let mut answer = first;
		loop {
			pages += 1;
			let Ok(page) = answer else {
				self.o.fail("C19", "valid_request_refused", json!({"request": dbg(&cur)}));
				return
			};
			let n = page.content.len();
			let fits = n as u32 <= cur.page_size;
			self.o.check("C19", fits, "page_larger_than_requested", || json!({"request": dbg(&cur), "got": n}));
			got.extend(page.content);
			if !page.has_next {
				self.o.check("C19", page.next_block.is_none() && page.next_index.is_none(), "cursor_given_at_the_end", || json!(dbg(&cur)));
				break
			}
			let (Some(b), Some(i)) = (page.next_block, page.next_index) else {
				self.o.fail("C19", "more_announced_without_a_cursor", json!(dbg(&cur)));
				return
			};
			if (b, i) <= (cur.from_block, cur.from_index) || pages > want.len() as u64 + 5 {
				self.o.fail("C19", "cursor_does_not_advance", json!({"request": dbg(&cur), "next": [b, i]}));
				return
			}
			if b >= req.to_block {
				self.o.fail("C19", "cursor_beyond_the_requested_range", json!({"request": dbg(&cur), "next": [b, i]}));
				return
			}
			cur = BlockPaginationRequest { from_block: b, from_index: i, ..cur };
			answer = match guarded(|| rpc.get_messages_by_schema_id(s, cur.clone())) {
				Ok(r) => r,
				Err(p) => {
					self.o.fail("C19", &format!("panic_{}", panic_sig(&p)), json!(p));
					return
				},
			};
		}
		self.o.r.count("walks");
		self.o.r.add("pages_walked", pages);
		self.o.r.add("messages_walked", got.len() as u64);
		self.o.check("C19", got == want, "pages_do_not_add_up_to_the_messages", || {
			json!({"request": dbg(&req), "got": got.iter().map(|m| (m.block_number, m.index)).collect::<Vec<_>>(), "want": want.iter().map(|m| (m.block_number, m.index)).collect::<Vec<_>>()})
		});
	}
}
fn world(g: &mut Rng) {
	W.with(|w| {
		let mut w = w.borrow_mut();
		*w = World::default();
		for k in 0..7 {
			if g.chance(4, 5) {
				w.msas.insert(k, if k > 0 && g.chance(1, 5) { k } else { k + 1 });
			}
		}
		for s in 1..=6u16 {
			let l = *g.pick(&[PayloadLocation::OnChain, PayloadLocation::OnChain, PayloadLocation::IPFS, PayloadLocation::IPFS, PayloadLocation::Itemized, PayloadLocation::Paginated]);
			w.schemas.insert(s, l);
		}
		for _ in 0..60 {
			w.grants.insert((g.range(1, 8), g.range(0, 9), g.range(1, 6) as u16));
		}
	});
}
fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 31 + 11);
	world(&mut g);
	PayloadMax::set(*g.pick(&[0u32, 10, 40, 41, 100, 100, 1024]));
	let about = W.with(|w| json!({"payload_max": PayloadMax::get(), "schemas": dbg(&w.borrow().schemas)}));
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let rpc = MessagesHandler::<Client, Block>::new(Arc::new(Client::default()));
	let first = g.range(1, 5) as u32;
	let blocks = g.range(1, if r.thorough() { 30 } else { 12 });
	let mut h = H { o: Mon::new(r, g, about), now: first, first, in_block: 0, journal: vec![], last_index: None };
	for _ in 0..blocks {
		let ops = *h.o.g.pick(&[0u64, 1, 3, 8, 20]);
		ext.execute_with(|| {
			frame_system::Pallet::<Rt>::set_block_number(h.now);
			frame_system::Pallet::<Rt>::reset_events();
			W.with(|w| w.borrow_mut().now = h.now);
			h.in_block = 0;
			h.last_index = None;
			<Messages as Hooks<u32>>::on_initialize(h.now);
			for _ in 0..ops {
				h.post();
				if h.o.bad {
					return
				}
			}
			h.events();
			W.with(|w| {
				let mut w = w.borrow_mut();
				for _ in 0..5 {
					let x = (h.o.g.range(1, 8), h.o.g.range(0, 9), h.o.g.range(1, 6) as u16);
					if !w.grants.remove(&x) {
						w.grants.insert(x);
					}
				}
			});
			if h.o.prop == "C19" {
				for _ in 0..6 {
					h.paginate(&rpc);
					if h.o.bad {
						return
					}
				}
			}
		});
		if h.o.bad {
			break
		}
		h.now += *h.o.g.pick(&[1u32, 1, 1, 2, 5]);
	}
	if !h.o.bad {
		ext.execute_with(|| h.read_all());
	}
	let sig = (h.journal.len(), h.now, h.o.log.len(), h.journal.iter().map(|p| (p.block, p.schema, p.from)).collect::<Vec<_>>());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		let v = json!({"messages": h.journal.len(), "blocks": h.now, "last_operations": last});
		h.o.r.sample(v);
	}
}
/// more messages in one block than a 16-bit index can tell apart
fn crowded(r: &mut Run) {
	let g = r.rng(3);
	W.with(|w| {
		let mut w = w.borrow_mut();
		*w = World::default();
		w.msas.insert(0, 1);
		w.schemas.insert(1, PayloadLocation::OnChain);
		w.schemas.insert(2, PayloadLocation::OnChain);
		w.now = 1;
	});
	PayloadMax::set(8);
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let mut h = Mon::new(r, g, json!({"scenario": "more than 65535 messages in one block"}));
	ext.execute_with(|| {
		frame_system::Pallet::<Rt>::set_block_number(1);
		<Messages as Hooks<u32>>::on_initialize(1);
		let mut sent: Vec<(u16, Vec<u8>)> = vec![];
		for i in 0..65600u32 {
			let payload = i.to_le_bytes().to_vec();
			let s = if i % 7 == 0 { 2 } else { 1 };
			let c = RuntimeCall::Messages(messages::Call::add_onchain_message { on_behalf_of: None, schema_id: s, payload: payload.clone() });
			if i > 65530 {
				frame_system::Pallet::<Rt>::reset_events();
			}
			match guarded(|| dispatch(c, RuntimeOrigin::signed(0))) {
				Err(p) => {
					h.fail("C17", &format!("panic_{}", panic_sig(&p)), json!(p));
					return
				},
				Ok(Ok(())) => sent.push((s, payload)),
				Ok(Err(_)) => h.r.count("refused_in_a_full_block"),
			}
		}
		h.r.max("messages_in_one_block", sent.len() as u64);
		h.check("C17", sent.len() > 60000, "messages_refused_long_before_the_index_is_used_up", || json!(sent.len()));
		for s in 1..=2u16 {
			let want: Vec<Vec<u8>> = sent.iter().filter(|x| x.0 == s).map(|x| x.1.clone()).collect();
			let got: Vec<Vec<u8>> = Messages::get_messages_by_schema_and_block(s, PayloadLocation::OnChain, 1).into_iter().filter_map(|m| m.payload).collect();
			h.check("C17", got == want, "accepted_messages_lost_in_a_full_block", || json!({"schema": s, "accepted": want.len(), "read_back": got.len()}));
		}
	});
}
/// request bounds, and pages at the largest sizes
fn bounds(r: &mut Run) {
	let mut g = r.rng(19);
	let edge = [0u32, 1, 2, 9999, 10000, 10001, 49999, 50000, 50001, u32::MAX - 1, u32::MAX];
	for from in edge {
		for to in edge.into_iter().chain([from.wrapping_add(50000), from.wrapping_add(50001), from.wrapping_add(49999), from.wrapping_add(1), from.wrapping_sub(1), from]) {
			for page in edge {
				let q = BlockPaginationRequest { from_block: from, from_index: g.u32(), to_block: to, page_size: page };
				let want = (1..=10000).contains(&page) && from < to && to - from <= 50000;
				let got = guarded(|| q.validate());
				r.count("bounds_checked");
				r.check(got == Ok(want), "request_bounds", || json!({"request": dbg(&q), "got": dbg(&got), "want": want}));
			}
		}
	}
}

fn main() {
	let mut r = Run::from_env(25, 600);
	r.assume("frame_system, cid and multibase are stand-ins (DESIGN.md); the messages pallet and its RPC are compiled unmodified from the tree");
	r.assume("accounts, grants and schemas are reduced to what the pallet asks of them");
	match r.prop.as_str() {
		"C17" => {
			r.require("messages_accepted", 5000);
			r.require("reads", 10000);
			r.require("messages_in_one_block", 60000);
			crowded(&mut r);
		},
		"C18" => {
			r.require("accepted:ipfs", 1000);
			r.require("accepted:onchain", 1000);
			for w in ["the_key_has_no_account", "the_schema_does_not_exist", "the_payload_exceeds_the_limit", "the_schema_is_of_another_location"] {
				r.require(&format!("rejected:onchain:{w}"), 200);
				r.require(&format!("rejected:ipfs:{w}"), 200);
			}
			r.require("rejected:onchain:there_is_no_grant_for_the_schema", 200);
			r.require("rejected:ipfs:the_content_id_is_malformed_or_unsupported", 200);
		},
		_ => {
			r.require("walks", 3000);
			r.require("pages_walked", 10000);
			r.require("queries_out_of_bounds", 500);
			bounds(&mut r);
		},
	}
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		history(&mut r, n);
	}
	r.add("histories", n);
	r.finish("a history is distinct if the sequence of accepted messages or its length differs from every other")
}
