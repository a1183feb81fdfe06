//! Deterministic generation.

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(b.wrapping_mul(0xBF58_476D_1CE4_E5B9))
        .wrapping_add(0x94D0_49BB_1331_11EB);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub struct Rng(u64);

impl Rng {
    pub fn new(n: u64) -> Rng { Rng(mix(n, 0x51ED)) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    /// a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, n: u64, of: u64) -> bool { self.below(of) < n }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    /// mostly small, sometimes larger, with edge values
    pub fn size(&mut self, big: u64) -> usize {
        let n = match self.below(10) {
            0 => 0,
            1 => 1,
            2..=5 => self.below(20),
            6..=8 => self.below(300),
            _ => self.below(big + 1),
        };
        n.min(big) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let kind = self.below(3);
        let mut v = Vec::with_capacity(n);
        let c = self.next() as u8;
        for i in 0..n {
            v.push(match kind {
                0 => self.next() as u8,
                1 => c.wrapping_add((i % 251) as u8),
                _ => b'a' + ((i / 7) % 26) as u8,
            });
        }
        v
    }
    pub fn blob(&mut self, big: u64) -> Vec<u8> { let n = self.size(big); self.bytes(n) }
}
