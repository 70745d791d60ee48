//! Small deterministic PRNG (splitmix64 / xorshift): every random choice of a case comes from it.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
  z = z.wrapping_add(0x9E3779B97F4A7C15);
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

impl Rng {
  pub fn new(seed: u64, stream: u64) -> Self {
    Rng(mix(mix(seed) ^ stream.wrapping_mul(0xD1342543DE82EF95)))
  }
  pub fn u64(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
  }
  /// uniform in 0..n
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 { 0 } else { self.u64() % n }
  }
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }
  pub fn us(&mut self, lo: usize, hi: usize) -> usize {
    self.range(lo as u64, hi as u64) as usize
  }
  pub fn chance(&mut self, num: u64, den: u64) -> bool {
    self.below(den) < num
  }
  pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
    xs[self.below(xs.len() as u64) as usize]
  }
  pub fn f(&mut self) -> f64 {
    (self.u64() >> 11) as f64 / (1u64 << 53) as f64
  }
  pub fn bytes(&mut self, n: usize) -> Vec<u8> {
    (0..n).map(|_| self.u64() as u8).collect()
  }
}

/// FNV-1a, for signatures and content hashes.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Default for Fnv {
  fn default() -> Self { Fnv(0xcbf29ce484222325) }
}
impl Fnv {
  pub fn add(&mut self, b: &[u8]) {
    let mut h = self.0;
    for &x in b {
      h ^= x as u64;
      h = h.wrapping_mul(0x100000001b3);
    }
    self.0 = h;
  }
  pub fn add16(&mut self, b: &[u16]) {
    let mut h = self.0;
    for &x in b {
      h ^= x as u64;
      h = h.wrapping_mul(0x100000001b3);
    }
    self.0 = h;
  }
}
pub fn hash(b: &[u8]) -> u64 {
  let mut f = Fnv::default();
  f.add(b);
  f.0
}
