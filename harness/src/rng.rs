//! SplitMix64: every random choice of a case derives from (seed, property, case index).
#[derive(Clone)]
pub struct Rng(u64);

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64, prop: &str, case: u64) -> Self {
        let mut h = mix(seed.wrapping_add(0x9e3779b97f4a7c15));
        for b in prop.bytes() {
            h = mix(h ^ b as u64);
        }
        Rng(mix(h ^ mix(case.wrapping_mul(0x9e3779b97f4a7c15) + 1)))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// uniform in [0, 1)
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    /// a..=b
    pub fn int(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn normal(&mut self) -> f64 {
        let (u, v) = (1.0 - self.f(), self.f());
        (-2.0 * u.ln()).sqrt() * (std::f64::consts::TAU * v).cos()
    }
    /// value of a random magnitude and sign
    pub fn value(&mut self) -> f64 {
        match self.below(6) {
            0 => self.below(7) as f64 - 3.0,
            1 => self.range(-1.0, 1.0) * 1e-3,
            2 => self.range(-1.0, 1.0) * 1e3,
            _ => self.range(-5.0, 5.0),
        }
    }
}
