//! Small deterministic PRNG (xoshiro256**), independent of the code under test.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

pub fn hash_f64s(h0: u64, v: &[f64]) -> u64 {
    let mut h = h0 ^ 0xcbf29ce484222325u64;
    for x in v { h ^= x.to_bits(); h = h.wrapping_mul(0x100000001b3); h ^= h >> 29; }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0u64; 4];
        for v in s.iter_mut() { *v = splitmix(&mut x); }
        Self { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    /// uniform in [a,b)
    pub fn range(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// uniform in a..=b
    pub fn int(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn bool(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn gauss(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
    /// A probability vector; `kind` varies its shape (uniform, dirichlet, skewed, with zeros).
    pub fn simplex(&mut self, n: usize) -> Vec<f64> {
        let kind = self.below(5);
        let mut v: Vec<f64> = (0..n).map(|_| match kind {
            0 => 1.0,
            1 => -(1.0 - self.f()).ln(),
            2 => { let g = self.gauss(); (3.0 * g).exp() },
            3 => if self.bool(0.4) { 0.0 } else { -(1.0 - self.f()).ln() },
            _ => { let e = self.below(12) as i32; 10f64.powi(-e) },
        }).collect();
        if v.iter().all(|&x| x == 0.0) { let i = self.below(n); v[i] = 1.0; }
        let s: f64 = v.iter().sum();
        for x in v.iter_mut() { *x /= s; }
        v
    }
}
