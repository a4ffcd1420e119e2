//! C15: display handles, well-formed and damaged, against a hand-written reading of the format.
use super::*;

enum Want {
	/// must split into exactly this
	Exactly(String, u16),
	/// not a display handle
	Nothing,
	/// only these parts or a refusal
	IfAny(String, u16),
}
fn reading(d: &str) -> Want {
	let dots: Vec<usize> = d.char_indices().filter(|c| c.1 == '.').map(|c| c.0).collect();
	if dots.len() != 1 {
		return Want::Nothing
	}
	let (base, digits) = (&d[..dots[0]], &d[dots[0] + 1..]);
	let (plus, bare) = match digits.strip_prefix('+') {
		Some(b) => (true, b),
		None => (false, digits),
	};
	if bare.is_empty() || !bare.bytes().all(|b| b.is_ascii_digit()) {
		return Want::Nothing
	}
	let mut v: u32 = 0;
	for b in bare.bytes() {
		v = (v * 10 + (b - b'0') as u32).min(1_000_000);
	}
	if v > 65535 {
		return Want::Nothing
	}
	let plain = !plus && (bare.len() == 1 || !bare.starts_with('0'));
	if plain && admissible(base.as_bytes()) {
		Want::Exactly(base.to_string(), v as u16)
	} else {
		// whether other spellings of a number or other names are read is left open
		Want::IfAny(base.to_string(), v as u16)
	}
}
fn one(r: &mut Run, d: &str) {
	r.case(d);
	let got = match guarded(|| split_display_name(d)) {
		Ok(g) => g,
		Err(p) => {
			r.violation(&format!("panic_{}", panic_sig(&p)), json!({"display": d, "panic": p}));
			return
		},
	};
	match reading(d) {
		Want::Exactly(b, n) => {
			r.count("well_formed");
			r.check(got == Some((b.clone(), n)), "well_formed_handle_not_split_exactly", || json!({"display": d, "got": dbg(&got), "want": [json!(b), json!(n)]}));
		},
		Want::Nothing => {
			r.count("malformed");
			r.check(got.is_none(), "malformed_handle_accepted", || json!({"display": d, "got": dbg(&got)}));
		},
		Want::IfAny(b, n) => {
			r.count("left_open");
			r.check(got.is_none() || got == Some((b, n)), "handle_split_into_other_parts", || json!({"display": d, "got": dbg(&got)}));
		},
	}
}
fn whole(r: &mut Run, base: &str, n: u16) {
	let full = match guarded(|| Handles::build_full_display_handle(base, n)) {
		Ok(Ok(f)) => f.into_inner(),
		Ok(Err(e)) => {
			r.violation("valid_handle_cannot_be_built", json!({"base": base, "suffix": n, "error": err_name(&e)}));
			return
		},
		Err(p) => {
			r.violation(&format!("panic_{}", panic_sig(&p)), json!({"base": base, "suffix": n, "panic": p}));
			return
		},
	};
	let want = format!("{base}.{n}");
	r.count("built");
	r.check(full == want.as_bytes(), "built_handle_differs", || json!({"got": s(&full), "want": want}));
	let back = guarded(|| split_display_name(&s(&full)));
	r.check(back == Ok(Some((base.to_string(), n))), "built_handle_does_not_split_back", || json!({"handle": s(&full), "got": dbg(&back)}));
}
pub fn run(mut r: Run) -> ! {
	r.assume("a suffix spelt with leading zeros or a plus sign, or a base that is not itself admissible, may be read or refused");
	r.require("well_formed", 60_000);
	r.require("malformed", 20_000);
	r.require("built", 60_000);
	let mut g = r.rng(15);
	// every suffix, several bases
	let bases = ["abc", "漢字仮", "Alice Smith", "it's-me_09", "عربية", "aaaaaaaaaaaaaaaaaaaa"];
	for n in 0..=65535u32 {
		let b = bases[n as usize % bases.len()];
		one(&mut r, &format!("{b}.{n}"));
		whole(&mut r, b, n as u16);
	}
	for n in (65536..66700u32).chain([99999, 100000, 655350, 131072, 4294967295]) {
		one(&mut r, &format!("abc.{n}"));
	}
	for d in ["", ".", "..", "abc", "abc.", ".10", "abc..10", "abc.1.0", "abc.10.", ".abc.10", "10.abc", "abc.-1", "abc.-0", "abc.1e3", "abc.0x1", "abc.1_0", "abc. 10", "abc.10 ", "abc.10\n", "abc\u{2024}10", "abc。10", "abc．10", "abc.１０", "abc.٣", "abc.²", "abc.10\0", "abc.18446744073709551616"] {
		one(&mut r, d);
	}
	while r.time_left() && !r.too_many() {
		let n = g.u16() >> g.below(16);
		let mut base = loop {
			let b = match g.below(3) {
				0 => odd_name(&mut g),
				_ => {
					let len = g.range(3, 20);
					(0..len).map(|_| *g.pick(&"abcdefXYZ0189-_ '!éßж漢ア".chars().collect::<Vec<_>>())).collect::<String>().into_bytes()
				},
			};
			if admissible(&b) {
				break s(&b)
			}
		};
		whole(&mut r, &base, n);
		one(&mut r, &format!("{base}.{n}"));
		if base.len() > 20 {
			base = base.chars().take(3).collect();
		}
		// damage
		let mut v: Vec<char> = format!("{base}.{n}").chars().collect();
		for _ in 0..g.range(1, 3) {
			let i = g.usize(v.len() + 1);
			match g.below(4) {
				0 if !v.is_empty() => drop(v.remove(i.min(v.len() - 1))),
				1 => v.insert(i, *g.pick(&['.', ' ', '0', '9', '+', '-', '\u{ff0e}', '\u{2024}', '\u{660}', '\n', '_'])),
				2 => v.truncate(i),
				_ => v.extend(*g.pick(&[&[' '][..], &['.'], &['.', '1'], &['0'], &['\r'], &['#', '1']])),
			}
		}
		one(&mut r, &v.iter().collect::<String>());
		let k = g.usize(12);
		let soup: String = (0..k).map(|_| *g.pick(&['.', '.', 'a', '1', '9', '6', '5', '0', ' ', '漢'])).collect();
		one(&mut r, &soup);
	}
	r.finish("every display string tried is one case")
}
