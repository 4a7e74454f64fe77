//! Deterministic generator (splitmix64); every random choice of a scenario comes from its seed.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        let w = (b - a) as u128 + 1;
        a + ((self.next() as u128 * w) >> 64) as u64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Log-uniform in [1, max].
    pub fn log(&mut self, max: u64) -> u64 {
        if max <= 1 {
            return max;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(1, bits);
        let lo = 1u64 << (b - 1);
        let hi = if b == 64 { u64::MAX } else { (1u64 << b) - 1 };
        self.range(lo, hi).min(max)
    }
    pub fn key(&mut self) -> solana_program::pubkey::Pubkey {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.next().to_le_bytes());
        }
        solana_program::pubkey::Pubkey::new_from_array(b)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}
