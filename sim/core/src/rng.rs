//! The only source of randomness: one 64-bit integer decides everything.
#[derive(Clone)]
pub struct Rng(u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(s: u64) -> Rng {
        Rng(mix(s ^ 0x5851F42D4C957F2D))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// heavy-tailed small number
    pub fn tail(&mut self, max: u64) -> u64 {
        let bits = self.below(64 - (max | 1).leading_zeros() as u64 + 1);
        let v = self.below(1 << bits);
        v.min(max)
    }
}
