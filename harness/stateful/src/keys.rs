//! The child trees by themselves: every hasher and every number of key parts, against plain maps.
use frame_support::{Blake2_128, Blake2_256, Twox128, Twox256};
use kit::*;
use pallet_stateful_storage::stateful_child_tree::*;
use std::collections::{BTreeMap, HashSet};

const PALLETS: [&[u8]; 4] = [b"stateful-storage", b"stateful-storagf", b"", b"x"];
const STORES: [&[u8]; 4] = [b"itemized", b"paginated", b"", b"y"];
fn msa(g: &mut Rng) -> u64 {
	match g.below(3) {
		0 => g.below(4),
		1 => *g.pick(&[256u64, 257, 58, 0x3a3a, 0x3a3a3a3a3a3a3a3a, 1 << 32, 1 << 63, u64::MAX]),
		_ => g.u64(),
	}
}
fn n16(g: &mut Rng) -> u16 {
	*g.pick(&[0u16, 1, 2, 255, 256, 257, 513, 65535])
}
fn n32(g: &mut Rng) -> u32 {
	*g.pick(&[0u32, 1, 256, 65536, 65537, u32::MAX])
}
type Place = (u64, usize, usize);
macro_rules! tree {
	($name:ident, $k:ty, $gen:expr, [$(($p:ty, $of:expr)),*]) => {
		fn $name<H: MultipartKeyStorageHasher>(r: &mut Run, g: &mut Rng, hasher: &str) {
			let mut model: BTreeMap<(Place, $k), Vec<u8>> = Default::default();
			let gen: fn(&mut Rng) -> $k = $gen;
			let msas: Vec<u64> = (0..4).map(|_| msa(g)).collect();
			let mut bad: Option<(&'static str, Value)> = None;
			TestExternalities::new(Default::default()).execute_with(|| {
				for _ in 0..60 {
					let at: Place = (*g.pick(&msas), g.usize(PALLETS.len()), g.usize(STORES.len()));
					let (p, s) = (PALLETS[at.1], STORES[at.2]);
					let key = gen(g);
					match g.below(6) {
						0 => {
							StatefulChildTree::<H>::kill(&at.0, p, s, &key);
							model.remove(&(at, key));
						},
						_ => {
							let n = g.usize(5);
							let v = g.bytes(n);
							StatefulChildTree::<H>::write(&at.0, p, s, &key, v.clone());
							model.insert((at, key), v);
						},
					}
					let h = <$k as MultipartKey<H>>::hash(&key);
					let back = <$k as MultipartKey<H>>::decode(&h);
					if back.as_ref().ok() != Some(&key) {
						bad = Some(("a_key_decodes_to_another", json!({"key": dbg(&key), "back": dbg(&back)})));
						return
					}
					$({
						let of: fn(&$k) -> $p = $of;
						let pre = <$p as MultipartKey<H>>::hash_prefix_only(&of(&key));
						let arity = <<$p as MultipartKey<H>>::Arity as Get<u8>>::get();
						let rest = <$k as MultipartKey<H>>::decode_without_prefix(&h[pre.len()..], arity);
						if !h.starts_with(&pre) || rest.as_ref().ok() != Some(&key) {
							bad = Some(("a_key_without_its_prefix_decodes_to_another", json!({"key": dbg(&key), "back": dbg(&rest)})));
							return
						}
					})*
				}
				// everything is as it was written, wherever it was written
				let keys: Vec<(Place, $k)> = model.keys().cloned().chain((0..20).map(|_| ((msa(g), g.usize(PALLETS.len()), g.usize(STORES.len())), gen(g)))).collect();
				for (at, key) in keys {
					let got = StatefulChildTree::<H>::try_read::<$k, Vec<u8>>(&at.0, PALLETS[at.1], STORES[at.2], &key);
					let want = model.get(&(at, key)).cloned();
					r.count("keys_read");
					if got != Ok(want.clone()) {
						bad = Some(("a_key_reads_what_was_not_written_there", json!({"key": dbg(&(at, key)), "got": dbg(&got), "want": dbg(&want)})));
						return
					}
					$({
						let of: fn(&$k) -> $p = $of;
						let prefix = of(&key);
						let mut got: Vec<($k, Vec<u8>)> = StatefulChildTree::<H>::prefix_iterator::<Vec<u8>, $k, $p>(&at.0, PALLETS[at.1], STORES[at.2], &prefix).collect();
						got.sort();
						let want: Vec<($k, Vec<u8>)> = model.iter().filter(|((a, k), _)| *a == at && of(k) == prefix).map(|((_, k), v)| (*k, v.clone())).collect();
						r.count("prefixes_listed");
						r.add("entries_listed", want.len() as u64);
						if got != want {
							bad = Some(("a_prefix_lists_other_entries", json!({"prefix": dbg(&(at, prefix)), "got": dbg(&got), "want": dbg(&want)})));
							return
						}
					})*
				}
			});
			r.case(&(hasher, stringify!($k), model.keys().cloned().collect::<Vec<_>>()));
			if let Some((sig, v)) = bad {
				r.violation(sig, json!({"hasher": hasher, "keys": stringify!($k), "what": v}));
			}
		}
	};
}
tree!(one, (u16,), |g| (n16(g),), [((), |_| ())]);
tree!(two, (u16, u16), |g| (n16(g), n16(g)), [((), |_| ()), ((u16,), |k| (k.0,))]);
tree!(three, (u32, u16, u64), |g| (n32(g), n16(g), msa(g)), [((), |_| ()), ((u32,), |k| (k.0,)), ((u32, u16), |k| (k.0, k.1))]);
tree!(four, (u8, u32, u16, u64), |g| (g.below(3) as u8, n32(g), n16(g), msa(g)), [((), |_| ()), ((u8,), |k| (k.0,)), ((u8, u32), |k| (k.0, k.1)), ((u8, u32, u16), |k| (k.0, k.1, k.2))]);
fn all<H: MultipartKeyStorageHasher>(r: &mut Run, g: &mut Rng, hasher: &str) {
	one::<H>(r, g, hasher);
	two::<H>(r, g, hasher);
	three::<H>(r, g, hasher);
	four::<H>(r, g, hasher);
}
pub fn history(r: &mut Run, n: u64) {
	let mut g = r.rng(n * 41 + 77);
	all::<Twox128>(r, &mut g, "Twox128");
	all::<Twox256>(r, &mut g, "Twox256");
	all::<Blake2_128>(r, &mut g, "Blake2_128");
	all::<Blake2_256>(r, &mut g, "Blake2_256");
}
/// every schema id, every page id, and many accounts at once
pub fn run(r: &mut Run) {
	r.require("keys_read", 20_000);
	r.require("prefixes_listed", 20_000);
	r.require("entries_listed", 20_000);
	let mut seen = HashSet::new();
	for i in 0..=u16::MAX {
		for h in [<(u16,) as MultipartKey<Twox128>>::hash(&(i,)), <(u16, u16) as MultipartKey<Twox128>>::hash(&(7, i)), <(u16, u16) as MultipartKey<Twox128>>::hash(&(i, 7))] {
			let fresh = seen.insert(h);
			if !fresh && i != 7 {
				r.violation("two_keys_coincide", json!(i));
				return
			}
		}
	}
	r.add("distinct_keys", seen.len() as u64);
	r.require("distinct_keys", 196_607);
	let mut g = r.rng(4242);
	let mut ids: Vec<u64> = (0..2000).chain((0..64).flat_map(|s| [1u64 << s, (1u64 << s) - 1, (1u64 << s) + 1])).chain((0..500).map(|_| g.u64())).collect();
	ids.sort();
	ids.dedup();
	let bad = TestExternalities::new(Default::default()).execute_with(|| {
		let at = |i: u64, n: usize| (i, PALLETS[n % 2], STORES[n % 3]);
		for n in 0..6 {
			for id in &ids {
				let (i, p, s) = at(*id, n);
				StatefulChildTree::<Twox128>::write(&i, p, s, &(1u16,), (*id, n as u32));
			}
		}
		for n in 0..6 {
			for id in &ids {
				let (i, p, s) = at(*id, n);
				let v = StatefulChildTree::<Twox128>::try_read::<(u16,), (u64, u32)>(&i, p, s, &(1u16,));
				if v != Ok(Some((*id, n as u32))) {
					return Some(json!({"account": id, "place": n, "read": dbg(&v)}))
				}
			}
		}
		None
	});
	r.add("accounts_written", ids.len() as u64);
	if let Some(v) = bad {
		r.violation("two_accounts_or_storages_share_a_key", v);
	}
}
