use handles_utils::*;
use std::collections::BTreeMap;
use unicode_normalization::{char::is_combining_mark, UnicodeNormalization};
use vmon::*;

/// The documented ranges (README of the handles pallet: "many allowed ranges of UTF-8 ... emoji
/// are currently not allowed"), over whole code points.
const RANGES: [(u32, u32); 21] = [
	(0x0020, 0x007F), (0x0080, 0x00FF), (0x0100, 0x017F), (0x0370, 0x03FF), (0x0400, 0x04FF),
	(0x0500, 0x052F), (0x0590, 0x05FF), (0x0600, 0x06FF), (0x0900, 0x097F), (0x0980, 0x09FF),
	(0x0E00, 0x0E7F), (0x1100, 0x11FF), (0x1E00, 0x1EFF), (0x1F00, 0x1FFF), (0x3040, 0x309F),
	(0x30A0, 0x30FF), (0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xAC00, 0xD7AF), (0xF900, 0xFAFF),
	(0xFB50, 0xFDFF),
];
const BLOCKED: &str = "\"#%(),.:;<>@\\`{}";
const RESERVED: [&str; 8] =
	["admin", "everyone", "all", "administrator", "mod", "moderator", "here", "channel"];

pub fn supported(c: char) -> bool {
	RANGES.iter().any(|(a, b)| (*a..=*b).contains(&(c as u32)))
}

pub fn random_char(g: &mut Rng) -> char {
	loop {
		let c = match g.below(8) {
			0 => g.below(0x80) as u32,
			1 => g.below(0x500) as u32,
			2 => g.below(0x10000) as u32,
			3 => g.below(0x110000) as u32,
			4 => {
				// a supported code point shifted into a supplementary plane
				let (a, b) = *g.pick(&RANGES);
				(g.range(1, 16) as u32) << 16 | g.range(a as u64, b as u64) as u32
			},
			5 => {
				let (a, b) = *g.pick(&RANGES);
				// the borders of the ranges
				*g.pick(&[a, b, a.wrapping_sub(1), b + 1])
			},
			_ => {
				let (a, b) = *g.pick(&RANGES);
				g.range(a as u64, b as u64) as u32
			},
		};
		if let Some(c) = char::from_u32(c) {
			return c
		}
	}
}

pub fn random_string(g: &mut Rng, n: usize) -> String {
	(0..n).map(|_| random_char(g)).collect()
}

fn all_chars() -> impl Iterator<Item = char> {
	(0..0x110000u32).filter_map(char::from_u32)
}

pub fn admitted() -> ! {
	let mut r = Run::from_env(20, 200);
	let mut g = r.rng(14);
	// every code point, alone
	for c in all_chars() {
		let s = c.to_string();
		r.case(&(c as u32));
		let got = guarded(|| {
			(
				consists_of_supported_unicode_character_sets(&s),
				contains_blocked_characters(&s),
				is_reserved_handle(&s),
			)
		});
		match got {
			Err(p) => r.violation("panic", json!({"char": format!("U+{:04X}", c as u32), "panic": p})),
			Ok((sup, blk, res)) => {
				if sup {
					r.count("single_chars_supported")
				} else {
					r.count("single_chars_refused")
				}
				if blk {
					r.count("single_chars_blocked")
				}
				let kind = if sup { "accepts_undocumented" } else { "refuses_documented" };
				r.check(sup == supported(c), &format!("{kind}_character"), || {
					json!({"char": format!("U+{:04X}", c as u32)})
				});
				r.check(blk == BLOCKED.contains(c), "blocked_character_rule", || {
					json!({"char": format!("U+{:04X}", c as u32), "got": blk})
				});
				r.check(!res, "single_character_reserved", || json!({"char": s}));
			},
		}
		if r.too_many() {
			break
		}
	}
	// words
	let mut n = 0u64;
	while r.time_left() && !r.too_many() && n < if r.thorough() { 20_000_000 } else { 400_000 } {
		n += 1;
		let len = g.usize(21);
		let s = match g.below(5) {
			0 => g.pick(&RESERVED).to_string(),
			1 => {
				// one edit away from a reserved word
				let mut v: Vec<char> = g.pick(&RESERVED).chars().collect();
				let i = g.usize(v.len());
				match g.below(3) {
					0 => {
						v.remove(i);
					},
					1 => v.insert(i, random_char(&mut g)),
					_ => v[i] = random_char(&mut g),
				}
				v.into_iter().collect()
			},
			2 => {
				// supported text with at most one odd character somewhere
				let mut v: Vec<char> = (0..len.max(1))
					.map(|_| {
						let (a, b) = *g.pick(&RANGES);
						char::from_u32(g.range(a as u64, b as u64) as u32).unwrap_or('a')
					})
					.collect();
				let i = g.usize(v.len());
				v[i] = random_char(&mut g);
				v.into_iter().collect()
			},
			3 => {
				let mut s: String =
					(0..len).map(|_| (b'a' + g.below(26) as u8) as char).collect();
				if g.chance(1, 2) {
					let at = g.usize(s.len() + 1);
					s.insert(at, BLOCKED.chars().nth(g.usize(16)).unwrap())
				}
				s
			},
			_ => random_string(&mut g, len),
		};
		r.case(s.as_str());
		let got = guarded(|| {
			(
				consists_of_supported_unicode_character_sets(&s),
				contains_blocked_characters(&s),
				is_reserved_handle(&s),
			)
		});
		let want = (
			s.chars().all(supported),
			s.chars().any(|c| BLOCKED.contains(c)),
			RESERVED.iter().any(|w| *w == s),
		);
		if want.2 {
			r.count("reserved_words_seen")
		}
		if want.1 {
			r.count("blocked_strings_seen")
		}
		if want.0 {
			r.count("supported_strings_seen")
		}
		r.check(got == Ok(want), "string_rule", || {
			json!({"string": s, "want": dbg(&want), "got": dbg(&got)})
		});
		if r.wants_sample() && !s.is_empty() {
			r.sample(json!({"string": s, "supported_blocked_reserved": dbg(&want)}));
		}
	}
	r.require("single_chars_supported", 30_000);
	r.require("single_chars_blocked", 16);
	r.require("reserved_words_seen", 1000);
	r.finish("every Unicode scalar value alone, then random and near-miss strings; accepted/blocked/reserved compared with the documented sets; distinct by string")
}

/// The look-alike table as documented: first character of each line is what the others stand for,
/// restricted to supported characters.
fn lookalikes() -> (BTreeMap<char, char>, Vec<Vec<char>>) {
	// snapshot of the published table
	let t = include_str!("confusables_snapshot.txt");
	let mut m = BTreeMap::new();
	let mut groups = vec![];
	for l in t.lines() {
		let v: Vec<char> = l.chars().filter(|c| supported(*c)).collect();
		let Some(f) = l.chars().next() else { continue };
		if !supported(f) {
			continue
		}
		for c in &v[1..] {
			m.insert(*c, f);
		}
		groups.push(v);
	}
	(m, groups)
}

fn model(s: &str, m: &BTreeMap<char, char>) -> String {
	let mut out = String::new();
	for c in s.chars().filter(|c| !c.is_whitespace()).collect::<String>().nfkd() {
		if is_combining_mark(c) {
			continue
		}
		out.push(*m.get(&c).unwrap_or(&c));
	}
	out.chars().map(|c| c.to_ascii_lowercase()).collect()
}

pub fn canonical() -> ! {
	let mut r = Run::from_env(25, 300);
	let mut g = r.rng(13);
	let (m, groups) = lookalikes();
	r.add("lookalike_pairs", m.len() as u64);
	let canon = |s: &str| guarded(|| convert_to_canonical(s));
	// every supported character alone (and every other one for totality)
	for c in all_chars() {
		let s = c.to_string();
		r.case(&(c as u32));
		let name = format!("U+{:04X}", c as u32);
		let k = match canon(&s) {
			Ok(k) => k,
			Err(p) => {
				r.violation("panic", json!({"char": name, "panic": p}));
				continue
			},
		};
		r.check(k == model(&s, &m), "canonical_form_differs_from_definition", || {
			json!({"char": name, "got": k, "want": model(&s, &m)})
		});
		if !supported(c) {
			continue
		}
		r.count("supported_chars_canonicalised");
		r.check(
			!k.chars().any(|x| x.is_whitespace() || x.is_ascii_uppercase() || is_combining_mark(x)),
			&format!("unclean_canonical_form:{name}"),
			|| json!({"char": name, "got": k}),
		);
		if c.is_ascii_alphabetic() {
			let flip = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
			r.count("case_pairs");
			let k2 = canon(&flip.to_string()).unwrap_or_default();
			r.check(k2 == k, &format!("case_distinguished:{}", c.to_ascii_lowercase()), || {
				json!({"char": s, "canonical": k, "other_case": k2})
			});
		}
	}
	// every listed look-alike pair
	for v in &groups {
		for c in &v[1..] {
			// NFKD may already rewrite the look-alike (or its target); compare what remains
			let (a, b) = (canon(&v[0].to_string()), canon(&c.to_string()));
			r.count("lookalike_pairs_compared");
			r.check(a == b, &format!("lookalike_distinguished:U+{:04X}~U+{:04X}", v[0] as u32, *c as u32), || {
				json!({"representative": v[0].to_string(), "lookalike": c.to_string(), "a": dbg(&a), "b": dbg(&b)})
			});
		}
	}
	let marks: Vec<char> =
		(0x300..0x370u32).filter_map(char::from_u32).filter(|c| is_combining_mark(*c)).collect();
	let spaces: Vec<char> = all_chars().filter(|c| c.is_whitespace()).collect();
	let mut n = 0u64;
	while r.time_left() && !r.too_many() && n < if r.thorough() { 30_000_000 } else { 150_000 } {
		n += 1;
		let len = g.usize(16) + 1;
		let s: String = match g.below(4) {
			0 => random_string(&mut g, len),
			1 => (0..len)
				.map(|_| {
					let v = g.pick(&groups);
					*g.pick(v)
				})
				.collect(),
			2 => (0..len).map(|_| (b'a' + g.below(26) as u8) as char).collect(),
			_ => (0..len)
				.map(|_| {
					let (a, b) = *g.pick(&RANGES);
					char::from_u32(g.range(a as u64, b as u64) as u32).unwrap_or('z')
				})
				.collect(),
		};
		r.case(s.as_str());
		let k = match canon(&s) {
			Ok(k) => k,
			Err(p) => {
				r.violation("panic", json!({"string": s, "panic": p}));
				continue
			},
		};
		r.check(k == model(&s, &m), "canonical_form_differs_from_definition", || {
			json!({"string": s, "got": k, "want": model(&s, &m)})
		});
		// a variant of the same spelling: whitespace and diacritics inserted, look-alikes swapped
		let mut variant = String::new();
		for c in s.chars() {
			if g.chance(1, 4) {
				variant.push(*g.pick(&spaces))
			}
			let c2 = if g.chance(1, 3) {
				match groups.iter().find(|v| v.contains(&c)) {
					Some(v) => {
						let o = *g.pick(v);
						if settled(o, &m) && settled(c, &m) {
							r.count("lookalikes_swapped");
							o
						} else {
							c
						}
					},
					None => c,
				}
			} else if c.is_ascii_alphabetic() && g.chance(1, 3) && c != 'l' && c != 'L' {
				r.count("case_swapped");
				if c.is_ascii_lowercase() {
					c.to_ascii_uppercase()
				} else {
					c.to_ascii_lowercase()
				}
			} else {
				c
			};
			variant.push(c2);
			if g.chance(1, 4) {
				r.count("diacritics_inserted");
				variant.push(*g.pick(&marks))
			}
		}
		let kv = canon(&variant).unwrap_or_default();
		r.check(kv == k, "variant_spelling_distinguished", || {
			json!({"string": s, "variant": variant, "a": k, "b": kv})
		});
		if r.wants_sample() {
			r.sample(json!({"string": s, "variant": variant, "canonical": k}));
		}
	}
	r.require("supported_chars_canonicalised", 30_000);
	r.require("lookalike_pairs_compared", 300);
	r.require("lookalikes_swapped", 1000);
	r.require("diacritics_inserted", 1000);
	r.finish("every Unicode scalar value alone, every listed look-alike pair, then random strings each with a variant spelling (case, whitespace, diacritics, look-alikes); distinct by string")
}

/// Compatibility normalisation leaves the look-alike table in charge of this character.
fn settled(c: char, _m: &BTreeMap<char, char>) -> bool {
	let mut it = c.nfkd();
	it.next() == Some(c) && it.next().is_none() && !is_combining_mark(c)
}
