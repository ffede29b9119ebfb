//! The choice tape: every decision of a run is one `draw`, recorded in order.
//! A run is a pure function of its tape (and of the code under test).

pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pos: usize,
    pub rec: Vec<u64>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut s = a ^ 0xA076_1D64_78BD_642F;
    let x = splitmix(&mut s);
    s = x ^ b.wrapping_mul(0xE703_7ED1_A0B4_28DB);
    let y = splitmix(&mut s);
    s = y ^ c.wrapping_mul(0x8EBC_6AF0_9C88_C6E3);
    splitmix(&mut s)
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        Src { rng: seed, replay: None, pos: 0, rec: Vec::with_capacity(64) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { rng: 0, replay: Some(tape), pos: 0, rec: Vec::new() }
    }
    /// A value in `0..n` (n >= 1). Zero is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &self.replay {
            Some(t) => {
                match t.get(self.pos) {
                    Some(v) => v % n,
                    None if self.pos < t.len() + 2048 => 0,
                    // a loop which waits for another value than zero
                    None => {
                        let mut s = self.pos as u64;
                        splitmix(&mut s) % n
                    }
                }
            }
            None => {
                let r = splitmix(&mut self.rng);
                ((r as u128 * n as u128) >> 64) as u64
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn u8(&mut self) -> u8 {
        self.draw(256) as u8
    }
    pub fn u7(&mut self) -> u8 {
        self.draw(128) as u8
    }
    pub fn u32(&mut self) -> u32 {
        self.draw(1 << 32) as u32
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// A length biased towards 0, small values and packet boundaries.
    pub fn len(&mut self, max: usize, boundary: usize) -> usize {
        let v = match self.draw(5) {
            0 => self.below(4),
            1 => self.range(0, boundary + 2),
            2 => {
                let k = self.range(1, 5);
                let d = self.below(3);
                (k * boundary + d).saturating_sub(1)
            }
            3 => self.range(0, boundary * 4),
            _ => self.below(max + 1),
        };
        v.min(max)
    }
}
