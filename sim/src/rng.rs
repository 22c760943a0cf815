//! The one generator every harness choice comes from (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed)) }
    pub fn sub(seed: u64, stream: &str) -> Rng {
        let mut h = seed;
        for b in stream.bytes() { h = mix(h ^ b as u64); }
        Rng(h)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in [lo, hi]
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / 9007199254740992.0 }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    /// log-uniform integer in [lo, hi]
    pub fn logrange(&mut self, lo: i64, hi: i64) -> i64 {
        let (a, b) = ((lo as f64).ln(), ((hi + 1) as f64).ln());
        (((a + (b - a) * self.f()).exp()) as i64).max(lo).min(hi)
    }
    pub fn normal(&mut self) -> f64 {
        // sum of uniforms: no libm, deterministic everywhere
        let mut s = 0.0;
        for _ in 0..12 { s += self.f(); }
        s - 6.0
    }
}
