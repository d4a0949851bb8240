//! Deterministic PRNG (xoshiro256** seeded by splitmix64).
#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed ^ 0x9e37_79b9_7f4a_7c15;
        let mut s = [0u64; 4];
        for v in &mut s {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    /// A stream which only depends on `seed` and `label`
    pub fn labelled(seed: u64, label: &str) -> Self {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in label.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ h)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u128(&mut self) -> u128 {
        (u128::from(self.u64()) << 64) | u128::from(self.u64())
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.u64() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// Bytes with a mix of structure: random, zeros, ones, small values, repeated
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(8);
        (0..n)
            .map(|i| match mode {
                0 => 0,
                1 => 0xff,
                2 => (self.u64() % 4) as u8,
                3 => i as u8,
                4 => {
                    if self.chance(1, 3) {
                        0
                    } else {
                        self.u64() as u8
                    }
                }
                _ => self.u64() as u8,
            })
            .collect()
    }
}
