//! twox and blake2 hashes
use std::hash::Hasher;
use twox_hash::XxHash64;

fn xx(data: &[u8], seed: u64) -> [u8; 8] {
	let mut h = XxHash64::with_seed(seed);
	h.write(data);
	h.finish().to_le_bytes()
}
pub fn twox_64(data: &[u8]) -> [u8; 8] {
	xx(data, 0)
}
pub fn twox_128(data: &[u8]) -> [u8; 16] {
	let mut r = [0; 16];
	r[..8].copy_from_slice(&xx(data, 0));
	r[8..].copy_from_slice(&xx(data, 1));
	r
}
pub fn twox_256(data: &[u8]) -> [u8; 32] {
	let mut r = [0; 32];
	for i in 0..4 {
		r[i * 8..i * 8 + 8].copy_from_slice(&xx(data, i as u64));
	}
	r
}

const IV: [u64; 8] = [
	0x6a09e667f3bcc908,
	0xbb67ae8584caa73b,
	0x3c6ef372fe94f82b,
	0xa54ff53a5f1d36f1,
	0x510e527fade682d1,
	0x9b05688c2b3e6c1f,
	0x1f83d9abfb41bd6b,
	0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
	let mut m = [0u64; 16];
	for i in 0..16 {
		m[i] = u64::from_le_bytes(block[i * 8..i * 8 + 8].try_into().unwrap());
	}
	let mut v = [0u64; 16];
	v[..8].copy_from_slice(h);
	v[8..].copy_from_slice(&IV);
	v[12] ^= t as u64;
	v[13] ^= (t >> 64) as u64;
	if last {
		v[14] = !v[14];
	}
	let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
		v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
		v[d] = (v[d] ^ v[a]).rotate_right(32);
		v[c] = v[c].wrapping_add(v[d]);
		v[b] = (v[b] ^ v[c]).rotate_right(24);
		v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
		v[d] = (v[d] ^ v[a]).rotate_right(16);
		v[c] = v[c].wrapping_add(v[d]);
		v[b] = (v[b] ^ v[c]).rotate_right(63);
	};
	for r in 0..12 {
		let s = &SIGMA[r % 10];
		g(0, 4, 8, 12, m[s[0]], m[s[1]]);
		g(1, 5, 9, 13, m[s[2]], m[s[3]]);
		g(2, 6, 10, 14, m[s[4]], m[s[5]]);
		g(3, 7, 11, 15, m[s[6]], m[s[7]]);
		g(0, 5, 10, 15, m[s[8]], m[s[9]]);
		g(1, 6, 11, 12, m[s[10]], m[s[11]]);
		g(2, 7, 8, 13, m[s[12]], m[s[13]]);
		g(3, 4, 9, 14, m[s[14]], m[s[15]]);
	}
	for i in 0..8 {
		h[i] ^= v[i] ^ v[i + 8];
	}
}
pub fn blake2b(data: &[u8], out: usize) -> Vec<u8> {
	let mut h = IV;
	h[0] ^= 0x0101_0000 ^ out as u64;
	let mut off = 0usize;
	while data.len() - off > 128 {
		compress(&mut h, data[off..off + 128].try_into().unwrap(), (off + 128) as u128, false);
		off += 128;
	}
	let mut b = [0u8; 128];
	b[..data.len() - off].copy_from_slice(&data[off..]);
	compress(&mut h, &b, data.len() as u128, true);
	h.iter().flat_map(|x| x.to_le_bytes()).take(out).collect()
}
pub fn blake2_64(data: &[u8]) -> [u8; 8] {
	blake2b(data, 8).try_into().unwrap()
}
pub fn blake2_128(data: &[u8]) -> [u8; 16] {
	blake2b(data, 16).try_into().unwrap()
}
pub fn blake2_256(data: &[u8]) -> [u8; 32] {
	blake2b(data, 32).try_into().unwrap()
}
pub fn blake2_512(data: &[u8]) -> [u8; 64] {
	blake2b(data, 64).try_into().unwrap()
}
#[test]
fn vectors() {
	let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
	assert_eq!(hex(&blake2b(b"abc", 32)), "bddd813c634239723171ef3fee98579b94964e3bb1cb3e427262c8c068d52319");
	assert_eq!(hex(&blake2b(b"", 32)), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
	assert_eq!(hex(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
}
