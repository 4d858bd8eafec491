//! The only source of choice in the simulator: a splitmix64 stream.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x5bd1e995_u64))
    }
    pub fn from2(a: u64, b: u64) -> Rng {
        Rng(mix(mix(a).wrapping_add(b.wrapping_mul(0xD6E8FEB86659FD93))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
}

/// FNV-1a style running digest of an execution (no addresses, no clocks).
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Digest(pub u64);
impl Digest {
    pub fn new() -> Digest { Digest(0xcbf29ce484222325) }
    pub fn u(&mut self, v: u64) {
        self.0 = mix(self.0 ^ v.wrapping_mul(0x100000001b3));
    }
    pub fn s(&mut self, v: &str) {
        let mut h = 0xcbf29ce484222325u64;
        for b in v.as_bytes() { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
        self.u(h);
        self.u(v.len() as u64);
    }
}
