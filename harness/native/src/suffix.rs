use crate::chars::random_string;
use handles_utils::suffix::{generate_seed, generate_unique_suffixes};
use vmon::*;

// --- oracle: XxHash64 (seed 0) and PCG32, from their published definitions ---
const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;

pub fn xxh64(d: &[u8]) -> u64 {
	let rd64 = |i: usize| u64::from_le_bytes(d[i..i + 8].try_into().unwrap());
	let rd32 = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap()) as u64;
	let round = |a: u64, x: u64| {
		a.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1)
	};
	let mut i = 0;
	let mut h;
	if d.len() >= 32 {
		let mut v =
			[P1.wrapping_add(P2), P2, 0u64, 0u64.wrapping_sub(P1)];
		while i + 32 <= d.len() {
			for k in 0..4 {
				v[k] = round(v[k], rd64(i + 8 * k));
			}
			i += 32;
		}
		h = v[0].rotate_left(1)
			.wrapping_add(v[1].rotate_left(7))
			.wrapping_add(v[2].rotate_left(12))
			.wrapping_add(v[3].rotate_left(18));
		for k in 0..4 {
			h = (h ^ round(0, v[k])).wrapping_mul(P1).wrapping_add(P4);
		}
	} else {
		h = P5;
	}
	h = h.wrapping_add(d.len() as u64);
	while i + 8 <= d.len() {
		h = (h ^ round(0, rd64(i))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		i += 8;
	}
	if i + 4 <= d.len() {
		h = (h ^ rd32(i).wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		i += 4;
	}
	while i < d.len() {
		h = (h ^ (d[i] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
		i += 1;
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}

struct Pcg {
	state: u64,
	inc: u64,
}
impl Pcg {
	fn new(seed: u64) -> Self {
		// oorandom::Rand32::new: default increment
		let inc = (1442695040888963407u64 << 1) | 1;
		let mut p = Pcg { state: 0, inc };
		p.next();
		p.state = p.state.wrapping_add(seed);
		p.next();
		p
	}
	fn next(&mut self) -> u32 {
		let s = self.state;
		self.state = s.wrapping_mul(6364136223846793005).wrapping_add(self.inc);
		let x = (((s >> 18) ^ s) >> 27) as u32;
		x.rotate_right((s >> 59) as u32)
	}
	fn range(&mut self, lo: u32, hi: u32) -> u32 {
		// Lemire's method with rejection
		let range = hi - lo;
		let mut x = self.next() as u64;
		let mut m = x * range as u64;
		let mut leftover = (m & 0xFFFF_FFFF) as u32;
		if leftover < range {
			let threshold = range.wrapping_neg() % range;
			while leftover < threshold {
				x = self.next() as u64;
				m = x * range as u64;
				leftover = (m & 0xFFFF_FFFF) as u32;
			}
		}
		(m >> 32) as u32 + lo
	}
}

pub fn model_seed(base: &str) -> u64 {
	let mut b = base.as_bytes().to_vec();
	b.extend_from_slice(&[0, 0, 0, 0]);
	xxh64(&b)
}

pub fn model_sequence(min: u16, max: u16, base: &str) -> Vec<u16> {
	if min > max {
		return vec![]
	}
	let mut rng = Pcg::new(model_seed(base));
	let mut idx: Vec<u16> = (min..=max).collect();
	let mut out = Vec::with_capacity(idx.len());
	let mut i = max as u32;
	loop {
		let j = rng.range(min as u32, i + 1);
		idx.swap((i - min as u32) as usize, (j - min as u32) as usize);
		out.push(idx[(i - min as u32) as usize]);
		if i == min as u32 {
			break
		}
		i -= 1;
	}
	out
}

pub fn run() -> ! {
	let mut r = Run::from_env(20, 300);
	let mut g = r.rng(12);
	// Published sequences, recorded from the released behaviour (clients derive the same ones).
	let golden: [(&str, u16, u16, &[u16]); 3] =
		[("myuser", 10, 99, &GOLD_A), ("", 0, 7, &GOLD_B), ("日本語", 0, 65534, &GOLD_C)];
	for (b, lo, hi, want) in golden {
		let got: Vec<u16> =
			guarded(|| generate_unique_suffixes(lo, hi, b).take(want.len()).collect())
				.unwrap_or_default();
		r.count("published_prefixes_compared");
		r.check(got == want, "published_sequence_changed", || {
			json!({"base": b, "min": lo, "max": hi, "want": want, "got": got})
		});
	}
	let mut n = 0u64;
	while r.time_left() && !r.too_many() && n < if r.thorough() { u64::MAX } else { 6000 } {
		n += 1;
		let base = match g.below(6) {
			0 => String::new(),
			1 => "myuser".to_string(),
			2 => {
				let k = g.usize(70);
				random_string(&mut g, k)
			},
			3 => format!("user{}", g.below(100_000)),
			_ => {
				let k = g.usize(20);
				(0..k).map(|_| (b'a' + g.below(26) as u8) as char).collect()
			},
		};
		let (min, max) = match g.below(12) {
			0 => (0, 65535),
			1 => (65535, 65535),
			2 => (0, 0),
			3 => {
				let lo = 65535 - g.below(300) as u16;
				(lo, 65535)
			},
			4 => {
				let a = g.u16();
				(a, a)
			},
			5 => {
				let (a, b) = (g.u16(), g.u16());
				(a.min(b), a.max(b))
			},
			6 => (10, 99),
			_ => {
				let a = g.below(60000) as u16;
				(a, a + g.below(1500) as u16)
			},
		};
		r.case(&(base.as_str(), min, max));
		r.max("largest_range", (max - min) as u64 + 1);
		if max == u16::MAX {
			r.count("ranges_ending_at_65535");
		}
		let inp = json!({"base": base, "min": min, "max": max});
		let first = match guarded(|| generate_unique_suffixes(min, max, &base).collect::<Vec<u16>>())
		{
			Ok(v) => v,
			Err(p) => {
				r.violation(&format!("panic:{}", panic_sig(&p)), json!({"input": inp, "panic": p}));
				continue
			},
		};
		r.add("suffixes_observed", first.len() as u64);
		let mut seen = vec![false; 65536];
		let mut dup = None;
		for s in &first {
			if seen[*s as usize] || *s < min || *s > max {
				dup = Some(*s)
			}
			seen[*s as usize] = true;
		}
		r.check(dup.is_none(), "duplicate_or_out_of_range_suffix", || {
			json!({"input": inp, "suffix": dup})
		});
		r.check(first.len() == (max - min) as usize + 1, "not_every_suffix_produced", || {
			json!({"input": inp, "produced": first.len()})
		});
		// lazily consumed prefix, in another order of calls, equals the full sequence
		let k = g.usize(first.len() + 1);
		let other = guarded(|| {
			let mut a = generate_unique_suffixes(min, max, "interleaved");
			let mut it = generate_unique_suffixes(min, max, &base);
			let mut v = vec![];
			for _ in 0..k {
				let _ = a.next();
				v.push(it.next());
			}
			v
		});
		r.check(
			other.as_ref().map(|v| v.iter().map(|x| x.unwrap()).eq(first[..k].iter().copied()))
				== Ok(true),
			"sequence_not_reproducible",
			|| json!({"input": inp, "prefix": k}),
		);
		r.check(
			guarded(|| generate_seed(&base)) == Ok(model_seed(&base)),
			"seed_differs_from_published_hash",
			|| inp.clone(),
		);
		let model = model_sequence(min, max, &base);
		r.check(model == first, "sequence_differs_from_published_algorithm", || {
			let at = model.iter().zip(&first).position(|(a, b)| a != b);
			json!({"input": inp, "first_difference": at})
		});
		if r.wants_sample() && first.len() > 3 {
			r.sample(json!({"input": inp, "first": &first[..3], "len": first.len()}));
		}
	}
	r.require("suffixes_observed", 10_000);
	r.require("ranges_ending_at_65535", 20);
	r.finish("random (base, min, max); each produced sequence checked to be a permutation of the range, reproducible, and equal to an independent implementation of the published algorithm; distinct by (base, min, max)")
}

const GOLD_A: [u16; 10] = [61, 25, 64, 38, 35, 74, 54, 75, 22, 91];
const GOLD_B: [u16; 8] = [0, 6, 2, 1, 5, 7, 3, 4];
const GOLD_C: [u16; 10] = [23469, 26174, 8614, 9631, 57293, 12950, 37415, 53067, 36822, 45392];
