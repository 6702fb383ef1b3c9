//! Deterministic pseudo random numbers (xoshiro256**, seeded through splitmix64).

#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

pub fn splitmix(x: &mut u64) -> u64
{
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// Mix several words into one (used to derive the seed of a case).
pub fn mix(parts: &[u64]) -> u64
{
    let mut h = 0x243f6a8885a308d3u64;
    for &p in parts
    {
        h ^= p;
        h = splitmix(&mut h);
    }
    h
}

pub fn hash_str(s: &str) -> u64
{
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    h
}

impl Rng
{
    pub fn new(seed: u64) -> Self
    {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    pub fn u64(&mut self) -> u64
    {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.usize(hi - lo + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.usize(xs.len())] }
    /// Weighted choice, returns an index
    pub fn weighted(&mut self, w: &[u64]) -> usize
    {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, &v) in w.iter().enumerate() { if x < v { return i; } x -= v; }
        w.len() - 1
    }
}
