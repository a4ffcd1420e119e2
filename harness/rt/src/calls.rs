// Random calls of the whole runtime. Included once per network: `rt` is its runtime.
use rt::{Runtime, RuntimeCall, RuntimeOrigin};

pub fn pair(k: usize) -> sr25519::Pair {
	let mut s = [9u8; 32];
	s[..8].copy_from_slice(&(k as u64).to_le_bytes());
	sr25519::Pair::from_seed(&s)
}
pub fn acc(k: usize) -> AccountId {
	AccountId::from(pair(k).public())
}
pub fn id(a: &AccountId) -> MultiAddress<AccountId, ()> {
	MultiAddress::Id(a.clone())
}
/// Any call there is, decoded from random bytes: new pallets and calls are covered as they come.
pub fn decoded(g: &mut Rng, pallets: &[u8]) -> RuntimeCall {
	loop {
		let mut b = vec![*g.pick(pallets), g.below(20) as u8];
		let small = g.chance(1, 2);
		for _ in 0..200 {
			let x = match g.below(if small { 4 } else { 8 }) {
				0..=2 => 0,
				3 => (g.below(4) * 4) as u8,
				4 => g.below(64) as u8,
				_ => g.u8(),
			};
			b.push(x);
		}
		if let Ok(Ok(c)) = guarded(|| RuntimeCall::decode(&mut &b[..])) {
			return c
		}
	}
}
/// the indices of the pallets that have calls
pub fn pallets() -> Vec<u8> {
	let mut g = Rng::new(1);
	let mut v: Vec<u8> = vec![];
	for p in 0..=255u8 {
		for _ in 0..300 {
			let mut b = vec![p, g.below(12) as u8];
			b.extend(std::iter::repeat(0).take(300));
			if let Ok(Ok(_)) = guarded(|| RuntimeCall::decode(&mut &b[..])) {
				v.push(p);
				break
			}
		}
	}
	v
}
pub fn label(c: &RuntimeCall) -> String {
	let m = c.get_call_metadata();
	format!("{}.{}", m.pallet_name, m.function_name)
}
pub fn batch(g: &mut Rng, calls: Vec<RuntimeCall>) -> RuntimeCall {
	match g.below(3) {
		0 => pallet_utility::Call::batch { calls }.into(),
		1 => pallet_utility::Call::batch_all { calls }.into(),
		_ => pallet_utility::Call::force_batch { calls }.into(),
	}
}
