//! Small deterministic PRNG (splitmix64 seeding xoshiro256**).

#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in &mut s { x = x.wrapping_add(0x9E37_79B9_7F4A_7C15); *v = mix(x); }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 { (self.u64() as u128) << 64 | self.u64() as u128 }
    /// Uniform in `0..n` (`n > 0`).
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    /// Uniform in `lo..=hi`.
    pub fn range128(&mut self, lo: u128, hi: u128) -> u128 {
        let span = hi - lo;
        if span == u128::MAX { return self.u128(); }
        lo + self.u128() % (span + 1)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
}
