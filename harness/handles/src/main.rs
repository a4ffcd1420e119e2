//! C10, C11, C15, C16: claiming, changing and retiring handles under random histories with look-alike
//! names, compared with an independent ledger; display handles split and rebuilt.
use common_primitives::{handles::*, msa::MessageSourceId, msa::{MsaLookup, MsaValidator}, utils::wrap_binary_data};
use frame_support::parameter_types;
use handles_utils::{converter::*, suffix::generate_unique_suffixes, validator::*};
use kit::*;
use pallet_handles::{self as handles, handles_signed_extension::HandlesSignedExtension};
use parity_scale_codec::Encode;
use sp_core::{crypto::AccountId32, sr25519, Pair};
use sp_runtime::{
	traits::{ConvertInto, SignedExtension},
	MultiSignature,
};
use std::{
	cell::RefCell,
	collections::{BTreeMap, BTreeSet},
};
mod split;

frame_support::construct_runtime!(
	pub enum Rt {
		System: frame_system::{Pallet, Call, Config<T>, Storage, Event<T>},
		Handles: pallet_handles::{Pallet, Call, Storage, Event<T>},
	}
);
kit::system!(Rt, AccountId32, ());
parameter_types! {
	pub static SuffixMin: u16 = 10;
	pub static SuffixMax: u16 = 99;
	pub static Mortality: u32 = 100;
}
thread_local! {
	static MSAS: RefCell<BTreeMap<AccountId32, u64>> = RefCell::new(BTreeMap::new());
}
pub struct Msas;
impl MsaLookup for Msas {
	type AccountId = AccountId32;
	fn get_msa_id(k: &AccountId32) -> Option<MessageSourceId> {
		MSAS.with(|m| m.borrow().get(k).copied())
	}
}
impl MsaValidator for Msas {
	type AccountId = AccountId32;
	fn ensure_valid_msa_key(k: &AccountId32) -> Result<MessageSourceId, DispatchError> {
		Self::get_msa_id(k).ok_or(DispatchError::Other("no msa"))
	}
}
impl handles::Config for Rt {
	type RuntimeEvent = RuntimeEvent;
	type WeightInfo = ();
	type ConvertIntoAccountId32 = ConvertInto;
	type MsaInfoProvider = Msas;
	type HandleSuffixMin = SuffixMin;
	type HandleSuffixMax = SuffixMax;
	type MortalityWindowSize = Mortality;
}

fn pair(k: usize) -> sr25519::Pair {
	let mut s = [9u8; 32];
	s[..8].copy_from_slice(&(k as u64).to_le_bytes());
	sr25519::Pair::from_seed(&s)
}
fn acc(k: usize) -> AccountId32 {
	AccountId32::from(pair(k).public())
}
fn sign(k: usize, msg: &[u8]) -> MultiSignature {
	MultiSignature::Sr25519(pair(k).sign(msg))
}
type Payload = ClaimHandlePayload<u32>;

/// whether the content of a base handle is admissible, from the documentation
pub fn admissible(b: &[u8]) -> bool {
	let Ok(s) = std::str::from_utf8(b) else { return false };
	let n = s.chars().count();
	if b.len() > 32 || n < 3 || n > 20 || is_reserved_handle(s) || contains_blocked_characters(s) {
		return false
	}
	let c = convert_to_canonical(s);
	let n = c.chars().count();
	consists_of_supported_unicode_character_sets(&c) && n >= 3 && n <= 20 && c.len() <= 32
}

#[derive(Clone, Debug)]
struct Owned {
	display: Vec<u8>,
	base: Vec<u8>,
	canonical: String,
	suffix: u16,
	until: u32,
}
#[derive(Default)]
struct Model {
	by_msa: BTreeMap<u64, Owned>,
	/// how many suffixes were issued per canonical base
	issued: BTreeMap<String, usize>,
	given: BTreeSet<(String, u16)>,
}
struct H<'a> {
	o: Mon<'a>,
	m: Model,
	now: u32,
	keys: usize,
	names: Vec<Vec<u8>>,
	old: Vec<(usize, MultiSignature, Payload)>,
	lo: u16,
	hi: u16,
}
fn s(b: &[u8]) -> String {
	String::from_utf8_lossy(b).to_string()
}
impl<'a> H<'a> {
	fn name(&mut self) -> Vec<u8> {
		let g = &mut self.o.g;
		if g.chance(5, 6) {
			return g.pick(&self.names).clone()
		}
		odd_name(g)
	}
	fn claim(&mut self, change: bool) {
		let key = self.o.g.usize(self.keys);
		let msa = Msas::get_msa_id(&acc(key));
		let mut why: Vec<(&'static str, &'static str)> = vec![];
		let w = Mortality::get();
		let replay = !self.old.is_empty() && self.o.g.chance(1, 5);
		let (key, sig, payload) = if replay {
			let i = self.o.g.usize(self.old.len());
			self.old[i].clone()
		} else {
			let base = self.name();
			let exp = match self.o.g.below(12) {
				0 => self.now,
				1 => self.now.saturating_sub(1 + self.o.g.below(50) as u32),
				2 => self.now + w,
				3 => self.now + w + 1 + self.o.g.below(20) as u32,
				4 => self.now + 1,
				5 => self.now + w - 1,
				_ => self.now + 1 + self.o.g.below((w - 1) as u64) as u32,
			};
			let p = Payload { base_handle: base, expiration: exp };
			let mut sig = sign(key, &wrap_binary_data(p.encode()));
			match self.o.g.below(14) {
				0 => {
					let other = (key + 1) % self.keys.max(2);
					sig = sign(other, &wrap_binary_data(p.encode()));
					why.push(("C16", "the_owner_did_not_sign_it"));
				},
				1 => {
					sig = sign(key, &p.encode());
					why.push(("C16", "the_signature_is_not_over_the_wrapped_payload"));
				},
				2 => {
					let q = Payload { expiration: exp ^ 1, ..p.clone() };
					sig = sign(key, &wrap_binary_data(q.encode()));
					why.push(("C16", "another_expiration_was_signed"));
				},
				3 => {
					let mut b = p.base_handle.clone();
					b.push(b'x');
					let q = Payload { base_handle: b, ..p.clone() };
					sig = sign(key, &wrap_binary_data(q.encode()));
					why.push(("C16", "another_handle_was_signed"));
				},
				_ => (),
			}
			if why.is_empty() {
				self.old.push((key, sig.clone(), p.clone()));
			}
			(key, sig, p)
		};
		let msa = if replay { Msas::get_msa_id(&acc(key)) } else { msa };
		if replay {
			self.o.r.count("old_signatures_presented");
		}
		if payload.expiration <= self.now {
			why.push(("C16", "the_signature_has_expired"));
		}
		if payload.expiration >= self.now + w {
			why.push(("C16", "the_expiration_is_beyond_the_mortality_window"));
		}
		if !admissible(&payload.base_handle) {
			why.push(("C16", "its_content_is_not_admissible"));
		}
		let op = if change { "change" } else { "claim" };
		let mine = msa.and_then(|m| self.m.by_msa.get(&m).cloned());
		match (msa, &mine) {
			(None, _) => why.push(("C16", "the_key_has_no_account")),
			(_, Some(_)) if !change => why.push(("C10", "the_account_has_a_handle_already")),
			(_, None) if change => why.push(("C10", "the_account_has_no_handle_to_change")),
			_ => (),
		}
		let canonical = convert_to_canonical(&s(&payload.base_handle));
		let n = self.m.issued.get(&canonical).copied().unwrap_or(0);
		let seq = if admissible(&payload.base_handle) { generate_unique_suffixes(self.lo, self.hi, &canonical).nth(n) } else { None };
		if seq.is_none() && admissible(&payload.base_handle) {
			why.push(("C11", "the_suffixes_are_exhausted"));
		}
		// what clients are told beforehand
		let predicted = match BaseHandle::try_from(payload.base_handle.clone()) {
			Ok(b) if admissible(&payload.base_handle) => {
				let count = *self.o.g.pick(&[0u16, 1, 2, 3, 10, 100]);
				let want: Vec<u16> = generate_unique_suffixes(self.lo, self.hi, &canonical).skip(n).take(count as usize).collect();
				let got = Handles::get_next_suffixes(b.clone(), count);
				self.o.r.count("predictions");
				self.o.check("C11", got.suffixes == want, "predicted_suffixes_differ", || json!({"handle": s(&payload.base_handle), "got": got.suffixes, "want": want, "issued": n}));
				Handles::get_next_suffixes(b, 1).suffixes.first().copied()
			},
			_ => None,
		};
		// anyone may submit
		let sender = acc(self.o.g.usize(self.keys));
		let what = format!("block {}: {op}_handle by key {key} (msa {msa:?}) {:?} expiring {} {}", self.now, s(&payload.base_handle), payload.expiration, if replay { "(old signature)" } else { "" });
		frame_system::Pallet::<Rt>::reset_events();
		let call = if change {
			RuntimeCall::Handles(handles::Call::change_handle { msa_owner_key: acc(key), proof: sig, payload: payload.clone() })
		} else {
			RuntimeCall::Handles(handles::Call::claim_handle { msa_owner_key: acc(key), proof: sig, payload: payload.clone() })
		};
		let Some(res) = self.o.attempt("C10", what, || dispatch(call, RuntimeOrigin::signed(sender)).map_err(names)) else { return };
		let main = if why.iter().any(|w| w.0 == "C10") { "C10" } else { "C16" };
		if !self.o.verdict(op, main, &why, false, &res) {
			return
		}
		let msa = msa.unwrap_or(0);
		let Some(suffix) = seq else { return };
		let mut display = payload.base_handle.clone();
		display.push(b'.');
		display.extend(suffix.to_string().bytes());
		let mut want = vec![];
		if let Some(m) = &mine {
			want.push(RuntimeEvent::Handles(handles::Event::HandleRetired { msa_id: msa, handle: m.display.clone() }));
		}
		let events: Vec<RuntimeEvent> = frame_system::Pallet::<Rt>::events().into_iter().map(|e| e.event).collect();
		let announced = events.iter().rev().find_map(|e| match e {
			RuntimeEvent::Handles(handles::Event::HandleClaimed { msa_id, handle }) if *msa_id == msa => Some(handle.clone()),
			_ => None,
		});
		let retired: Vec<_> = events.iter().filter_map(|e| match e {
			RuntimeEvent::Handles(handles::Event::HandleRetired { msa_id, handle }) => Some((*msa_id, handle.clone())),
			_ => None,
		}).collect();
		let want_retired: Vec<_> = mine.iter().map(|m| (msa, m.display.clone())).collect();
		self.o.check("C10", retired == want_retired, "announced_retirement_differs", || json!({"got": dbg(&retired)}));
		self.o.check("C11", announced.as_ref() == Some(&display), "issued_suffix_differs_from_the_published_sequence", || {
			json!({"announced": announced.as_ref().map(|h| s(h)), "expected": s(&display), "already_issued": n})
		});
		self.o.check("C11", predicted == Some(suffix), "predicted_suffix_was_not_the_one_issued", || json!({"predicted": predicted, "issued": suffix}));
		let fresh = self.m.given.insert((canonical.clone(), suffix));
		self.o.check("C11", fresh, "suffix_issued_twice", || json!({"canonical": canonical, "suffix": suffix}));
		self.o.r.count("suffixes_issued");
		self.m.issued.insert(canonical.clone(), n + 1);
		self.m.by_msa.insert(msa, Owned { display, base: payload.base_handle, canonical, suffix, until: payload.expiration });
		self.o.r.max("most_suffixes_of_one_name", n as u64 + 1);
	}
	fn retire(&mut self) {
		let key = self.o.g.usize(self.keys);
		let who = acc(key);
		let msa = Msas::get_msa_id(&who);
		let mine = msa.and_then(|m| self.m.by_msa.get(&m).cloned());
		let mut why: Vec<(&'static str, &'static str)> = vec![];
		match &mine {
			None => why.push(("C10", "there_is_no_handle")),
			Some(m) if self.now < m.until => why.push(("C16", "its_claims_expiration_has_not_come")),
			_ => (),
		}
		let call = RuntimeCall::Handles(handles::Call::retire_handle {});
		let what = format!("block {}: retire_handle by key {key} (msa {msa:?})", self.now);
		let ext = HandlesSignedExtension::<Rt>::new();
		let info = call.get_dispatch_info();
		let admitted = guarded(|| ext.validate(&who, &call, &info, 10).is_ok());
		let Some(res) = self.o.attempt("C10", what, || {
			HandlesSignedExtension::<Rt>::new().pre_dispatch(&who, &call, &info, 10).map_err(|e| format!("{e:?}"))?;
			dispatch(call.clone(), RuntimeOrigin::signed(who.clone())).map_err(names)
		}) else { return };
		self.o.check("C16", admitted == Ok(res.is_ok()), "the_pool_and_execution_disagree_about_retiring", || json!({"pool": dbg(&admitted), "execution": dbg(&res)}));
		if self.o.verdict("retire", "C10", &why, false, &res) {
			self.o.r.count("handles_retired");
			self.m.by_msa.remove(&msa.unwrap_or(0));
		}
	}
	fn observe(&mut self) {
		// every account, with or without a handle
		for k in 0..self.keys {
			let Some(msa) = Msas::get_msa_id(&acc(k)) else { continue };
			let want = self.m.by_msa.get(&msa).cloned();
			let got = match guarded(|| Handles::get_handle_for_msa(msa)) {
				Ok(g) => g,
				Err(p) => {
					self.o.fail("C10", &format!("panic_{}", panic_sig(&p)), json!(p));
					return
				},
			};
			self.o.r.count("lookups_by_account");
			let w = want.clone().map(|w| (w.base, w.canonical.into_bytes(), w.suffix));
			let g = got.map(|g| (g.base_handle, g.canonical_base, g.suffix));
			self.o.check("C10", g == w, "handle_of_an_account_differs", || json!({"msa": msa, "got": dbg(&g), "want": dbg(&w)}));
			if let Some(w) = want {
				let d: DisplayHandle = w.display.clone().try_into().unwrap();
				let back = Handles::get_msa_id_for_handle(d);
				self.o.r.count("lookups_by_handle");
				self.o.check("C10", back == Some(msa), "handle_resolves_to_another_account", || json!({"handle": s(&w.display), "got": back, "owner": msa}));
				let parts = split_display_name(&s(&w.display));
				self.o.check("C15", parts == Some((s(&w.base), w.suffix)), "issued_handle_does_not_split_back", || json!({"handle": s(&w.display), "got": dbg(&parts)}));
			}
		}
		// suffixes that nobody owns (any more) resolve to nobody, those owned only to their owner
		for _ in 0..3 {
			let names: Vec<Vec<u8>> = self.names.clone();
			let base = self.o.g.pick(&names).clone();
			let n = self.o.g.range(self.lo.saturating_sub(1) as u64, (self.hi as u64 + 1).min(65535)) as u16;
			if !admissible(&base) {
				continue
			}
			let mut d = base.clone();
			d.push(b'.');
			d.extend(n.to_string().bytes());
			let canonical = convert_to_canonical(&s(&base));
			let want = self.m.by_msa.iter().find(|(_, o)| o.canonical == canonical && o.suffix == n).map(|x| *x.0);
			let Ok(d) = DisplayHandle::try_from(d) else { continue };
			let got = Handles::get_msa_id_for_handle(d.clone());
			self.o.r.count(if want.is_some() { "lookups_of_owned_handles" } else { "lookups_of_free_handles" });
			self.o.check("C10", got == want, "lookup_by_handle_differs", || json!({"handle": s(&d), "got": got, "want": want}));
		}
		// the registry holds nothing but what is owned
		let all = handles::CanonicalBaseHandleAndSuffixToMSAId::<Rt>::iter().count();
		let all2 = handles::MSAIdToDisplayName::<Rt>::iter().count();
		let n = self.m.by_msa.len();
		self.o.check("C10", all == n && all2 == n, "more_or_fewer_handles_registered_than_owned", || json!({"by_handle": all, "by_account": all2, "owned": n}));
	}
	/// the read-only check against a claim by an account that has no handle
	fn agreement(&mut self) {
		let base = if self.o.g.chance(1, 2) { odd_name(&mut self.o.g) } else { self.name() };
		let told = match guarded(|| Handles::validate_handle(base.clone())) {
			Ok(t) => t,
			Err(p) => {
				self.o.fail("C16", &format!("validity_check_panics_{}", panic_sig(&p)), json!(s(&base)));
				return
			},
		};
		let k = 1000;
		MSAS.with(|m| m.borrow_mut().insert(acc(k), 1_000_000));
		let payload = Payload { base_handle: base.clone(), expiration: self.now + 1 };
		let proof = sign(k, &wrap_binary_data(payload.encode()));
		let call = RuntimeCall::Handles(handles::Call::claim_handle { msa_owner_key: acc(k), proof, payload });
		let res = guarded(|| tentatively(|| dispatch(call, RuntimeOrigin::signed(acc(k))).map_err(names)));
		MSAS.with(|m| m.borrow_mut().remove(&acc(k)));
		let out = match res {
			Ok(o) => o,
			Err(p) => {
				self.o.fail("C16", &format!("claim_panics_{}", panic_sig(&p)), json!(s(&base)));
				return
			},
		};
		let exhausted = out.as_ref().err().map_or(false, |e| e.contains("Exhausted"));
		self.o.r.count(&format!("validity:{}", out.as_ref().err().cloned().unwrap_or("accepted".into())));
		let claimable = out.is_ok() || exhausted;
		self.o.check("C16", told == claimable, if told { "check_accepts_what_a_claim_refuses" } else { "check_refuses_what_can_be_claimed" }, || {
			json!({"handle": s(&base), "bytes": hex(&base), "check": told, "claim": dbg(&out)})
		});
		let ours = admissible(&base);
		self.o.check("C16", claimable == ours, "claim_disagrees_with_the_documented_rules", || json!({"handle": s(&base), "bytes": hex(&base), "claim": dbg(&out), "documented": ours}));
	}
}
/// names at and beyond the limits
fn odd_name(g: &mut Rng) -> Vec<u8> {
	let pick = |g: &mut Rng, n: usize, set: &[char]| -> String { (0..n).map(|_| *g.pick(set)).collect() };
	let latin: Vec<char> = "abcxyzABC019_-é ñ".chars().collect();
	let n = *g.pick(&[0usize, 1, 2, 3, 4, 10, 19, 20, 21, 22, 32, 33]);
	match g.below(12) {
		0 => pick(g, n, &latin).into_bytes(),
		1 => pick(g, n, &"абвгд".chars().collect::<Vec<_>>()).into_bytes(),
		2 => pick(g, n, &"漢字仮名".chars().collect::<Vec<_>>()).into_bytes(),
		3 => pick(g, n, &"ﷺﷲﷴسلم".chars().collect::<Vec<_>>()).into_bytes(),
		4 => pick(g, n, &"ﬃ㎏㌀㍿½".chars().collect::<Vec<_>>()).into_bytes(),
		5 => {
			let n = g.usize(6);
			g.bytes(n + 1)
		},
		6 => g.pick(&["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel", "Admin", "administrato", "a dmin"]).as_bytes().to_vec(),
		7 => {
			let mut v: Vec<char> = pick(g, 5, &latin).chars().collect();
			let i = g.usize(6);
			v.insert(i, *g.pick(&['"', '#', '%', '(', ')', ',', '.', ':', ';', '<', '>', '@', '\\', '`', '{', '}', '!', '/']));
			v.iter().collect::<String>().into_bytes()
		},
		// whitespace and marks vanish in the canonical form
		8 => {
			let k = g.usize(5);
			let mut v: Vec<char> = pick(g, k, &['a', 'b', 'c']).chars().collect();
			let k = g.usize(18);
			for _ in 0..k {
				let i = g.usize(v.len() + 1);
				v.insert(i, *g.pick(&[' ', '\u{301}', '\u{a0}', '\t', '\u{3000}']));
			}
			v.iter().collect::<String>().into_bytes()
		},
		9 => pick(g, n, &"😀𝒜𠀀a".chars().collect::<Vec<_>>()).into_bytes(),
		10 => {
			// one code point from anywhere among letters
			let mut v = "ab".to_string();
			let m = *g.pick(&[0x600u32, 0x3000, 0x10000, 0x110000]);
			v.push(char::from_u32(g.below(m as u64) as u32).unwrap_or('q'));
			v.push('c');
			v.into_bytes()
		},
		_ => {
			let a = pick(g, 1, &"ﷺﷲ㌀".chars().collect::<Vec<_>>());
			let k = g.usize(8);
			(a + &pick(g, k, &"سلمابت".chars().collect::<Vec<_>>())).into_bytes()
		},
	}
}
/// groups of spellings that share a canonical form, and names that do not
fn names_pool(g: &mut Rng) -> Vec<Vec<u8>> {
	let groups: [&[&str]; 8] = [
		&["alice", "ALICE", "Alice", "àlice", "a lice", "aIice", "álíce", "al ice"],
		&["bobby", "BOBBY", "b o b b y", "bobbÿ", "Bobby"],
		&["漢字漢", "漢 字漢"],
		&["привет", "ПРИВЕТ", "при вет"],
		&["user_1", "User_1", "USER_1"],
		&["ﷺسل", "ﷺلس", "ﷺسم", "ﷺتب"],
		&["عربية", "العربية"],
		&["ﬃnal", "ffinal", "FFINAL"],
	];
	let mut v: Vec<Vec<u8>> = vec![];
	let k = g.range(1, 3);
	for _ in 0..k {
		let set = g.pick(&groups);
		let m = g.range(1, 4);
		for _ in 0..m {
			v.push(g.pick(set).as_bytes().to_vec());
		}
	}
	v
}

fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 31 + 7);
	let lo = *g.pick(&[0u16, 1, 10, 10, 10, 100, 65530, 65535]);
	let hi = match g.below(4) {
		0 => lo,
		1 => lo.saturating_add(g.below(4) as u16),
		2 => lo.saturating_add(g.below(40) as u16),
		_ => lo.max(99),
	};
	SuffixMin::set(lo);
	SuffixMax::set(hi);
	Mortality::set(*g.pick(&[2u32, 3, 10, 100]));
	let keys = g.range(2, 7) as usize;
	MSAS.with(|m| {
		let mut m = m.borrow_mut();
		m.clear();
		for k in 0..keys {
			match g.below(8) {
				0 => (),
				// a second key of an account
				1 if k > 0 => drop(m.insert(acc(k), k as u64)),
				_ => drop(m.insert(acc(k), k as u64 + 1)),
			}
		}
	});
	let about = json!({"suffixes": [lo, hi], "mortality": Mortality::get(), "keys": keys});
	let names = names_pool(&mut g);
	let blocks = g.range(3, if r.thorough() { 80 } else { 30 });
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let now = g.range(1, 3) as u32;
	let mut h = H { o: Mon::new(r, g, about), m: Default::default(), now, keys, names, old: vec![], lo, hi };
	for _ in 0..blocks {
		let ops = h.o.g.range(1, 8);
		ext.execute_with(|| {
			frame_system::Pallet::<Rt>::set_block_number(h.now);
			for _ in 0..ops {
				match h.o.g.weighted(&[5, 5, 4, 3]) {
					0 => h.claim(false),
					1 => h.claim(true),
					2 => h.retire(),
					_ => h.agreement(),
				}
				if h.o.bad {
					break
				}
			}
			h.observe();
		});
		if h.o.bad {
			break
		}
		h.now += *h.o.g.pick(&[1u32, 1, 1, 2, 5, 60]);
	}
	let sig = (h.m.issued.clone(), h.now, h.o.log.len(), h.m.by_msa.keys().cloned().collect::<Vec<_>>());
	h.o.r.case(&sig);
	if h.o.r.wants_sample() && h.o.log.len() > 20 {
		let last: Vec<String> = h.o.log.iter().rev().take(5).cloned().collect();
		let v = json!({"names": h.m.issued, "blocks": h.now, "last_operations": last});
		h.o.r.sample(v);
	}
}
/// the very end of the widest range: state as it is after 65535 claims
fn far_end(r: &mut Run) {
	let g = r.rng(5);
	SuffixMin::set(0);
	SuffixMax::set(65535);
	Mortality::set(100);
	MSAS.with(|m| {
		let mut m = m.borrow_mut();
		m.clear();
		for k in 0..4 {
			m.insert(acc(k), k as u64 + 1);
		}
	});
	let about = json!({"suffixes": [0, 65535], "name": "alice", "issued_before": 65534});
	let mut ext = TestExternalities::new(frame_system::GenesisConfig::<Rt>::default().build_storage().unwrap());
	let mut h = H { o: Mon::new(r, g, about), m: Default::default(), now: 1, keys: 4, names: vec![b"alice".to_vec()], old: vec![], lo: 0, hi: 65535 };
	ext.execute_with(|| {
		frame_system::Pallet::<Rt>::set_block_number(1);
		let c = convert_to_canonical("alice");
		let b: CanonicalBase = c.clone().into_bytes().try_into().unwrap();
		handles::CanonicalBaseHandleToSuffixIndex::<Rt>::set(b, Some((65533, 0)));
		h.m.issued.insert(c, 65534);
		for _ in 0..40 {
			h.claim(false);
			h.claim(true);
			if h.o.bad {
				break
			}
		}
		h.observe();
	});
	h.o.r.count("full_range_ends_reached");
}

fn main() {
	let mut r = Run::from_env(25, 600);
	if r.prop == "C15" {
		split::run(r)
	}
	r.assume("frame_system and signatures are stand-ins written after polkadot v1.6.0 (DESIGN.md); the handles pallet is compiled unmodified from the tree");
	r.assume("the canonical form, suffix sequence and character rules of handles-utils are taken as published here (C12-C14 decide them)");
	match r.prop.as_str() {
		"C10" => {
			r.require("accepted:claim", 500);
			r.require("accepted:change", 500);
			r.require("handles_retired", 200);
			r.require("lookups_of_owned_handles", 500);
			r.require("lookups_of_free_handles", 500);
		},
		"C11" => {
			r.require("predictions", 5000);
			r.require("suffixes_issued", 2000);
			r.require("rejected:claim:the_suffixes_are_exhausted", 100);
			r.require("full_range_ends_reached", 1);
		},
		_ => {
			r.require("validity:accepted", 1000);
			r.require("validity:InvalidHandleCharacterLength", 300);
			r.require("validity:InvalidHandleByteLength", 100);
			r.require("rejected:retire:its_claims_expiration_has_not_come", 200);
			r.require("rejected:claim:the_signature_has_expired", 100);
			r.require("rejected:change:another_expiration_was_signed", 50);
		},
	}
	far_end(&mut r);
	let mut n = 0;
	while r.time_left() && !r.too_many() {
		n += 1;
		history(&mut r, n);
	}
	r.add("histories", n);
	r.finish("a history is distinct if the suffixes issued per name, the owners or its length differ from every other")
}
