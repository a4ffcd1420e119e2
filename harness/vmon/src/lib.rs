//! Run bookkeeping shared by every monitor: seeded randomness, event counters, coverage evidence,
//! verdicts. A monitor reports only what it observed; `finish` writes the evidence file and ends
//! the process with 0 (held), 1 (VIOLATION) or 2 (the run observed too little to say anything).
pub use serde_json::{json, Value};
use std::{
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	hash::{Hash, Hasher},
	io::Write,
	panic::{catch_unwind, AssertUnwindSafe},
	time::{Duration, Instant},
};

/// xoshiro256** seeded through splitmix64.
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut z = seed;
		let mut s = [0u64; 4];
		for x in s.iter_mut() {
			z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
			let mut y = z;
			y = (y ^ (y >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
			y = (y ^ (y >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
			*x = y ^ (y >> 31);
		}
		Rng(s)
	}
	pub fn u64(&mut self) -> u64 {
		let r = self.0[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.0[1] << 17;
		self.0[2] ^= self.0[0];
		self.0[3] ^= self.0[1];
		self.0[1] ^= self.0[2];
		self.0[0] ^= self.0[3];
		self.0[2] ^= t;
		self.0[3] = self.0[3].rotate_left(45);
		r
	}
	pub fn u32(&mut self) -> u32 {
		(self.u64() >> 32) as u32
	}
	pub fn u16(&mut self) -> u16 {
		(self.u64() >> 48) as u16
	}
	pub fn u8(&mut self) -> u8 {
		(self.u64() >> 56) as u8
	}
	/// uniform in 0..n (n > 0)
	pub fn below(&mut self, n: u64) -> u64 {
		(((self.u64() as u128) * (n as u128)) >> 64) as u64
	}
	/// uniform in lo..=hi
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		if lo == 0 && hi == u64::MAX {
			return self.u64()
		}
		lo + self.below(hi - lo + 1)
	}
	pub fn usize(&mut self, n: usize) -> usize {
		self.below(n as u64) as usize
	}
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		self.below(den) < num
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.usize(xs.len())]
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		(0..n).map(|_| self.u8()).collect()
	}
	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			let j = self.usize(i + 1);
			xs.swap(i, j);
		}
	}
	/// index chosen by weight
	pub fn weighted(&mut self, w: &[u32]) -> usize {
		let total: u64 = w.iter().map(|x| *x as u64).sum();
		let mut r = self.below(total);
		for (i, x) in w.iter().enumerate() {
			if r < *x as u64 {
				return i
			}
			r -= *x as u64;
		}
		w.len() - 1
	}
	pub fn fork(&mut self) -> Rng {
		Rng::new(self.u64())
	}
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
	#[allow(deprecated)]
	let mut h = std::hash::SipHasher::new();
	t.hash(&mut h);
	h.finish()
}

#[derive(Debug, Clone)]
pub struct Violation {
	pub signature: String,
	pub detail: Value,
}

pub struct Run {
	pub prop: String,
	pub tier: String,
	pub seed: u64,
	pub budget: Duration,
	start: Instant,
	pub evaluations: u64,
	distinct: HashSet<u64>,
	pub counters: BTreeMap<String, u64>,
	samples: Vec<Value>,
	violations: Vec<Violation>,
	known_hits: BTreeMap<String, Value>,
	known: Vec<(String, String)>, // signature, text
	assumptions: Vec<String>,
	requirements: Vec<(String, u64)>,
	evidence: String,
	replay_dir: String,
	max_samples: usize,
}

impl Run {
	/// Reads VERIF_PROP, VERIF_TIER, VERIF_SEED, VERIF_ROOT from the environment.
	pub fn from_env(quick_secs: u64, thorough_secs: u64) -> Self {
		let env = |k: &str, d: &str| std::env::var(k).unwrap_or_else(|_| d.to_string());
		let root = env("VERIF_ROOT", "/verif");
		let prop = env("VERIF_PROP", "C00");
		let tier = env("VERIF_TIER", "quick");
		let seed = env("VERIF_SEED", "1").parse::<u64>().unwrap_or(1);
		let secs = if tier == "thorough" { thorough_secs } else { quick_secs };
		let secs = env("VERIF_BUDGET", "").parse::<u64>().unwrap_or(secs);
		let mut known = vec![];
		if let Ok(t) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")) {
			for l in t.lines() {
				// known: property=<id> signature=<sig> <what fails>
				if let Some(rest) = l.strip_prefix("known: property=") {
					let mut it = rest.splitn(3, ' ');
					let (p, s, w) = (it.next(), it.next(), it.next());
					if let (Some(p), Some(s), Some(w)) = (p, s, w) {
						if p == prop {
							if let Some(sig) = s.strip_prefix("signature=") {
								known.push((sig.to_string(), w.to_string()));
							}
						}
					}
				}
			}
		}
		// A panic in the code under test is an observation, not noise on stderr.
		if std::env::var("VERIF_PANIC_TRACE").is_err() {
			std::panic::set_hook(Box::new(|info| {
				LAST_PANIC.with(|c| {
					let loc = info
						.location()
						.map(|l| format!("{}:{}", l.file(), l.line()))
						.unwrap_or_default();
					let msg = info
						.payload()
						.downcast_ref::<&str>()
						.map(|s| s.to_string())
						.or_else(|| info.payload().downcast_ref::<String>().cloned())
						.unwrap_or_default();
					if DEPTH.with(|d| d.get()) == 0 {
						eprintln!("UNGUARDED PANIC {loc}: {msg}");
					}
					*c.borrow_mut() = (loc, msg);
				});
			}));
		}
		Run {
			evidence: format!("{root}/evidence/{prop}.json"),
			replay_dir: format!("{root}/build/replay"),
			prop,
			tier,
			seed,
			budget: Duration::from_secs(secs),
			start: Instant::now(),
			evaluations: 0,
			distinct: HashSet::new(),
			counters: BTreeMap::new(),
			samples: vec![],
			violations: vec![],
			known_hits: BTreeMap::new(),
			known,
			assumptions: vec![],
			requirements: vec![],
			max_samples: 5,
		}
	}
	pub fn thorough(&self) -> bool {
		self.tier == "thorough"
	}
	pub fn rng(&self, stream: u64) -> Rng {
		Rng::new(self.seed.wrapping_mul(0x1000_0000_01B3) ^ stream.wrapping_mul(0x9E37_79B9))
	}
	pub fn elapsed(&self) -> Duration {
		self.start.elapsed()
	}
	pub fn time_left(&self) -> bool {
		self.start.elapsed() < self.budget
	}
	/// `frac` in 0..=100 of the budget used up?
	pub fn before(&self, frac: u32) -> bool {
		self.start.elapsed() < self.budget * frac / 100
	}
	/// one execution judged; `sig` is what makes it distinct
	pub fn case<T: Hash + ?Sized>(&mut self, sig: &T) {
		self.evaluations += 1;
		if self.distinct.len() < 4_000_000 {
			self.distinct.insert(hash_of(sig));
		}
	}
	/// one execution judged that does not count as distinct
	pub fn trivial(&mut self) {
		self.evaluations += 1;
	}
	pub fn count(&mut self, k: &str) {
		self.add(k, 1)
	}
	pub fn add(&mut self, k: &str, n: u64) {
		if let Some(c) = self.counters.get_mut(k) {
			*c += n;
		} else {
			self.counters.insert(k.to_string(), n);
		}
	}
	pub fn max(&mut self, k: &str, n: u64) {
		let e = self.counters.entry(k.to_string()).or_insert(0);
		if n > *e {
			*e = n
		}
	}
	pub fn sample(&mut self, v: Value) {
		if self.samples.len() < self.max_samples {
			self.samples.push(v)
		}
	}
	pub fn wants_sample(&self) -> bool {
		self.samples.len() < self.max_samples
	}
	pub fn assume(&mut self, s: &str) {
		if !self.assumptions.iter().any(|x| x == s) {
			self.assumptions.push(s.to_string())
		}
	}
	/// the run is inconclusive unless counter `k` reached `n`
	pub fn require(&mut self, k: &str, n: u64) {
		self.requirements.push((k.to_string(), n))
	}
	pub fn violation(&mut self, signature: &str, detail: Value) {
		let signature = signature.replace(' ', "_");
		if let Some((_, w)) = self.known.iter().find(|(s, _)| *s == signature) {
			let w = w.clone();
			self.known_hits.entry(signature).or_insert(json!({"what": w, "first": detail}));
			return
		}
		self.add("violations_seen", 1);
		if self.violations.len() < 400 {
			self.violations.push(Violation { signature, detail });
		}
	}
	pub fn check(&mut self, ok: bool, signature: &str, detail: impl FnOnce() -> Value) -> bool {
		if !ok {
			let d = detail();
			self.violation(signature, d);
		}
		ok
	}
	pub fn violated(&self) -> bool {
		!self.violations.is_empty()
	}
	pub fn too_many(&self) -> bool {
		self.violations.len() >= 20
	}

	pub fn finish(mut self, rule: &str) -> ! {
		let wall = self.start.elapsed().as_secs_f64();
		let mut coverage = json!({
			"evaluations": self.evaluations,
			"distinct_nontrivial": self.distinct.len() as u64,
			"rule": rule,
			"samples": self.samples,
			"observed": self.counters,
		});
		if !self.known_hits.is_empty() {
			coverage["known_findings_observed"] = json!(self.known_hits);
		}
		let missing: Vec<String> = self
			.requirements
			.iter()
			.filter(|(k, n)| self.counters.get(k).copied().unwrap_or(0) < *n)
			.map(|(k, n)| {
				format!("{k}: {} observed, {n} needed", self.counters.get(k).copied().unwrap_or(0))
			})
			.collect();
		let ev = json!({
			"property": self.prop,
			"tier": self.tier,
			"seed": self.seed,
			"level": "exploration",
			"coverage": coverage,
			"wall_s": (wall * 1000.0).round() / 1000.0,
			"violations": self.violations.iter().map(|v| json!({"signature": v.signature, "detail": v.detail})).collect::<Vec<_>>(),
			"assumptions": self.assumptions,
			"inconclusive": missing,
		});
		let _ = std::fs::create_dir_all(std::path::Path::new(&self.evidence).parent().unwrap());
		let _ = std::fs::write(&self.evidence, serde_json::to_string_pretty(&ev).unwrap() + "\n");
		for (sig, d) in &self.known_hits {
			println!(
				"KNOWN-FINDING: property={} {} [{}]",
				self.prop,
				d["what"].as_str().unwrap_or(""),
				sig
			);
		}
		println!(
			"{} tier={} seed={} evaluations={} distinct={} wall={:.1}s",
			self.prop,
			self.tier,
			self.seed,
			self.evaluations,
			self.distinct.len(),
			wall
		);
		for (k, v) in &self.counters {
			println!("  {k} = {v}");
		}
		if !self.violations.is_empty() {
			let _ = std::fs::create_dir_all(&self.replay_dir);
			let path = format!("{}/{}-{}-{}.json", self.replay_dir, self.prop, self.tier, self.seed);
			let v: Vec<Value> = self
				.violations
				.drain(..)
				.map(|v| json!({"signature": v.signature, "detail": v.detail}))
				.collect();
			let out = json!({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": v,
				"replay": format!("VERIF_SEED={} VERIF_TIER={} /verif/check.sh {}", self.seed, self.tier, self.prop)});
			let _ = std::fs::write(&path, serde_json::to_string_pretty(&out).unwrap() + "\n");
			for x in v.iter().take(5) {
				println!("violation: {}", serde_json::to_string(x).unwrap());
			}
			println!("VIOLATION property={} replay={}", self.prop, path);
			let _ = std::io::stdout().flush();
			std::process::exit(1)
		}
		if !missing.is_empty() {
			println!("INCONCLUSIVE: the run observed too little: {}", missing.join("; "));
			let _ = std::io::stdout().flush();
			std::process::exit(2)
		}
		let _ = std::io::stdout().flush();
		std::process::exit(0)
	}
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<(String, String)> = Default::default();
	static DEPTH: std::cell::Cell<u32> = Default::default();
}

/// Runs code under test; a panic comes back as `Err(location: message)`.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	DEPTH.with(|d| d.set(d.get() + 1));
	let res = catch_unwind(AssertUnwindSafe(f));
	DEPTH.with(|d| d.set(d.get() - 1));
	res.map_err(|_| {
		LAST_PANIC.with(|c| {
			let c = c.borrow();
			format!("{}: {}", c.0, c.1)
		})
	})
}

/// Location-free part of a panic text, usable as a signature.
pub fn panic_sig(p: &str) -> String {
	let msg = p.splitn(2, ": ").nth(1).unwrap_or(p);
	msg.chars().take(80).map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect()
}

pub fn dbg<T: Debug>(t: &T) -> Value {
	Value::String(format!("{t:?}"))
}

pub fn hex(b: &[u8]) -> String {
	b.iter().map(|x| format!("{x:02x}")).collect()
}
