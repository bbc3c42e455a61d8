//! The only source of randomness: a seeded xoshiro256** generator, plus FNV digests.
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    /// Derives the seed of run `i` of property `p` under the batch seed.
    pub fn run_seed(seed: u64, p: &str, i: u64) -> u64 {
        let mut h = Fnv::new();
        h.u64(seed);
        h.bytes(p.as_bytes());
        h.u64(i);
        let mut x = h.finish();
        splitmix(&mut x)
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        match (hi - lo).checked_add(1) {
            Some(n) => lo + self.below(n),
            None => self.next(),
        }
    }
    /// True with probability pct/100.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// Log-uniform in 0..=hi: every order of magnitude is equally likely.
    pub fn log(&mut self, hi: u64) -> u64 {
        if hi == 0 {
            return 0;
        }
        let bits = 64 - hi.leading_zeros() as u64;
        let b = self.range(0, bits);
        let top = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let top = top.min(hi);
        let lo = top >> 1;
        self.range(lo, top)
    }
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Self::new()
    }
}
impl Fnv {
    pub fn new() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
    pub fn u64(&mut self, x: u64) {
        self.0 ^= x;
        self.0 = self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 ^= self.0 >> 29;
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.u64(u64::from_le_bytes(w) ^ ((c.len() as u64) << 56));
        }
    }
    pub fn finish(&self) -> u64 {
        let mut x = self.0;
        splitmix(&mut x)
    }
}
