//! Choice sequences: every generator draws from one of these, so that a case can be replayed and shrunk.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x0000_0100_0000_01B3); }
    Rng::new(h).next()
}

pub const MAX_CHOICES: usize = 30_000;

pub struct Src { pub rec: Vec<u32>, replay: Option<Vec<u32>>, rng: Rng }
impl Src {
    pub fn random(seed: u64) -> Src { Src { rec: Vec::new(), replay: None, rng: Rng::new(seed) } }
    pub fn replay(v: Vec<u32>) -> Src { Src { rec: Vec::new(), replay: Some(v), rng: Rng::new(0) } }
    /// a number below n; 0 is the simplest choice
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0 }
        let i = self.rec.len();
        if i >= MAX_CHOICES { return 0 }
        let v = match &self.replay {
            Some(r) => if i < r.len() { r[i] % n } else { 0 },
            None => ((self.rng.next() >> 33) % n as u64) as u32,
        };
        self.rec.push(v);
        v
    }
    pub fn exhausted(&self) -> bool { self.rec.len() >= MAX_CHOICES }
    pub fn range(&mut self, a: u32, b: u32) -> u32 { a + self.below(b - a + 1) }
    /// true in p of 100 cases; false is simplest
    pub fn pct(&mut self, p: u32) -> bool { if p == 0 { return false } if p >= 100 { return true } self.below(100) >= 100 - p }
    pub fn permille(&mut self, p: u32) -> bool { if p == 0 { return false } self.below(1000) >= 1000 - p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u32) as usize] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        if total == 0 { return 0 }
        let mut x = self.below(total);
        for (i, k) in w.iter().enumerate() { if x < *k { return i } x -= k }
        0
    }
    /// a small count: mostly 0..=m, seldom much larger
    pub fn count(&mut self, m: u32, big: u32) -> u32 {
        if self.permille(8) { self.range(m, big.max(m)) } else { self.below(m + 1) }
    }
}
