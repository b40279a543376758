//! Deterministic pseudo-random numbers (splitmix64 seeding, xoshiro256**).

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
	let mut h = 0xCBF2_9CE4_8422_2325u64 ^ (b.len() as u64);
	let mut it = b.chunks_exact(8);
	for c in &mut it { h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap())); }
	for &c in it.remainder() { h = (h ^ u64::from(c)).wrapping_mul(0x0000_0100_0000_01B3); }
	mix(h)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		let mut s = [0; 4];
		for v in &mut s { x = mix(x); *v = x; }
		Self { s }
	}

	pub fn sub(seed: u64, tag: &str) -> Self { Self::new(mix(seed) ^ hash_bytes(tag.as_bytes())) }

	pub fn u64(&mut self) -> u64 {
		let s = &mut self.s;
		let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = s[1] << 17;
		s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
		s[3] = s[3].rotate_left(45);
		r
	}

	pub fn u128(&mut self) -> u128 { (u128::from(self.u64()) << 64) | u128::from(self.u64()) }

	/// In `0..n`; zero for `n == 0`.
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 { return 0 }
		((u128::from(self.u64()) * n as u128) >> 64) as usize
	}

	/// In `a..=b`.
	pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }

	pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }

	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.below(s.len()); &s[i] }

	pub fn fill(&mut self, b: &mut [u8]) {
		for c in b.chunks_mut(8) { let v = self.u64().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); }
	}

	pub fn bytes(&mut self, n: usize) -> Vec<u8> { let mut v = vec![0; n]; self.fill(&mut v); v }

	/// Bit patterns biased to boundaries.
	pub fn edgy(&mut self, bits: u32) -> u128 {
		let mask = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
		let v = match self.below(14) {
			10 => { let b = self.u128() & 0xFF; b * (u128::MAX / 0xFF) }
			11 => { let p = self.below(39) as u32; (10u128.pow(p)).wrapping_add(self.u128() % 3).wrapping_sub(1) }
			12 => { let k = self.below(bits as usize / 8 * 8); (1u128 << (k / 8 * 8)).wrapping_add(self.u128() % 5).wrapping_sub(2) }
			13 => { let hi = bits - 1; (self.u128() % 4).wrapping_shl(hi).wrapping_add(self.u128() % 5).wrapping_sub(2) }
			0 => 0,
			1 => u128::MAX,
			2 => 1u128 << (bits - 1),
			3 => (1u128 << (bits - 1)) - 1,
			4 => self.u128() % 16,
			5 => (self.u128() % 16).wrapping_neg(),
			6 => 1u128 << self.below(bits as usize),
			7 => (1u128 << self.below(bits as usize)).wrapping_sub(1),
			_ => self.u128(),
		};
		v & mask
	}
}

/// A hash of formatted text; interpreted code does without, as formatting takes it too long.
#[macro_export]
macro_rules! hash_fmt { ($($t:tt)*) => { if cfg!(miri) { 0 } else { $crate::rng::hash_bytes(format!($($t)*).as_bytes()) } } }
