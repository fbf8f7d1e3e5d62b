//! Deterministic random numbers (splitmix64): every choice of a run comes from VERIF_SEED.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        let mut r = Rng(seed ^ stream.wrapping_mul(0xD134_2543_DE82_EF95));
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.next() >> 11) % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn u8(&mut self) -> u8 {
        (self.next() >> 24) as u8
    }
    /// A byte that is likely to be one a decoder treats specially.
    pub fn byte(&mut self) -> u8 {
        match self.below(22) {
            0 | 1 => match crate::dict::int(self) {
                Some(v) if v < 256 => v as u8,
                Some(v) => v.to_le_bytes()[self.below(4)],
                None => self.u8(),
            },
            2..=11 => self.u8(),
            12 | 13 => *self.pick(&[0x00, 0xFF, 0xFE, 0x80, 0x7F]),
            14 | 15 => 0,
            16 | 17 => 0xFF,
            18 | 19 => self.below(8) as u8,
            _ => self.below(64) as u8,
        }
    }
}
