//! BLAKE2b and xxHash64, as used for storage keys and task names.
const IV: [u64; 8] = [
	0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1,
	0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIGMA: [[usize; 16]; 10] = [
	[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
	[14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
	[11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
	[7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
	[9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
	[2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
	[12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
	[13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
	[6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
	[10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
fn blake2b(out_len: usize, data: &[u8]) -> [u8; 64] {
	let mut h = IV;
	h[0] ^= 0x01010000 ^ out_len as u64;
	let mut t: u128 = 0;
	let n = data.len().div_ceil(128).max(1);
	for i in 0..n {
		let chunk = &data[(i * 128).min(data.len())..((i + 1) * 128).min(data.len())];
		let mut block = [0u8; 128];
		block[..chunk.len()].copy_from_slice(chunk);
		t += chunk.len() as u128;
		let mut m = [0u64; 16];
		for (j, w) in m.iter_mut().enumerate() {
			*w = u64::from_le_bytes(block[j * 8..j * 8 + 8].try_into().unwrap());
		}
		let mut v = [0u64; 16];
		v[..8].copy_from_slice(&h);
		v[8..].copy_from_slice(&IV);
		v[12] ^= t as u64;
		v[13] ^= (t >> 64) as u64;
		if i == n - 1 {
			v[14] = !v[14];
		}
		let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
			v[d] = (v[d] ^ v[a]).rotate_right(32);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(24);
			v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
			v[d] = (v[d] ^ v[a]).rotate_right(16);
			v[c] = v[c].wrapping_add(v[d]);
			v[b] = (v[b] ^ v[c]).rotate_right(63);
		};
		for r in 0..12 {
			let s = &SIGMA[r % 10];
			g(0, 4, 8, 12, m[s[0]], m[s[1]]);
			g(1, 5, 9, 13, m[s[2]], m[s[3]]);
			g(2, 6, 10, 14, m[s[4]], m[s[5]]);
			g(3, 7, 11, 15, m[s[6]], m[s[7]]);
			g(0, 5, 10, 15, m[s[8]], m[s[9]]);
			g(1, 6, 11, 12, m[s[10]], m[s[11]]);
			g(2, 7, 8, 13, m[s[12]], m[s[13]]);
			g(3, 4, 9, 14, m[s[14]], m[s[15]]);
		}
		for j in 0..8 {
			h[j] ^= v[j] ^ v[j + 8];
		}
	}
	let mut out = [0u8; 64];
	for (j, w) in h.iter().enumerate() {
		out[j * 8..j * 8 + 8].copy_from_slice(&w.to_le_bytes());
	}
	out
}
pub fn blake2_256(data: &[u8]) -> [u8; 32] {
	blake2b(32, data)[..32].try_into().unwrap()
}
pub fn blake2_128(data: &[u8]) -> [u8; 16] {
	blake2b(16, data)[..16].try_into().unwrap()
}
fn xxh64(seed: u64, data: &[u8]) -> u64 {
	const P1: u64 = 0x9E3779B185EBCA87;
	const P2: u64 = 0xC2B2AE3D27D4EB4F;
	const P3: u64 = 0x165667B19E3779F9;
	const P4: u64 = 0x85EBCA77C2B2AE63;
	const P5: u64 = 0x27D4EB2F165667C5;
	let rd64 = |b: &[u8]| u64::from_le_bytes(b[..8].try_into().unwrap());
	let round = |acc: u64, x: u64| acc.wrapping_add(x.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1);
	let mut p = data;
	let mut h;
	if data.len() >= 32 {
		let mut v = [seed.wrapping_add(P1).wrapping_add(P2), seed.wrapping_add(P2), seed, seed.wrapping_sub(P1)];
		while p.len() >= 32 {
			for (i, x) in v.iter_mut().enumerate() {
				*x = round(*x, rd64(&p[i * 8..]));
			}
			p = &p[32..];
		}
		h = v[0].rotate_left(1)
			.wrapping_add(v[1].rotate_left(7))
			.wrapping_add(v[2].rotate_left(12))
			.wrapping_add(v[3].rotate_left(18));
		for x in v {
			h = (h ^ round(0, x)).wrapping_mul(P1).wrapping_add(P4);
		}
	} else {
		h = seed.wrapping_add(P5);
	}
	h = h.wrapping_add(data.len() as u64);
	while p.len() >= 8 {
		h = (h ^ round(0, rd64(p))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
		p = &p[8..];
	}
	if p.len() >= 4 {
		let k = u32::from_le_bytes(p[..4].try_into().unwrap()) as u64;
		h = (h ^ k.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
		p = &p[4..];
	}
	for b in p {
		h = (h ^ (*b as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
	}
	h ^= h >> 33;
	h = h.wrapping_mul(P2);
	h ^= h >> 29;
	h = h.wrapping_mul(P3);
	h ^ (h >> 32)
}
pub fn twox_64(data: &[u8]) -> [u8; 8] {
	xxh64(0, data).to_le_bytes()
}
pub fn twox_128(data: &[u8]) -> [u8; 16] {
	let mut o = [0; 16];
	o[..8].copy_from_slice(&xxh64(0, data).to_le_bytes());
	o[8..].copy_from_slice(&xxh64(1, data).to_le_bytes());
	o
}

#[cfg(test)]
mod tests {
	use super::*;
	fn hex(b: &[u8]) -> String {
		b.iter().map(|x| format!("{x:02x}")).collect()
	}
	#[test]
	fn vectors() {
		assert_eq!(hex(&blake2_256(b"")), "0e5751c026e543b2e8ab2eb06099daa1d1e5df47778f7787faab45cdf12fe3a8");
		assert_eq!(hex(&twox_128(b"System")), "26aa394eea5630e07c48ae0c9558cef7");
		assert_eq!(hex(&twox_128(b"Account")), "b99d880ec681799c0cf30e8886371da9");
		assert_eq!(hex(&blake2_256(&[7u8; 128])), hex(&blake2_256(&[7u8; 128])));
	}
}
