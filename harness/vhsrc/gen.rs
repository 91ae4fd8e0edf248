//! Choice source: a seeded PRNG whose every decision is recorded, so that a failing case can be
//! replayed and shrunk from its choice list alone.

pub struct Gen {
    pub rec: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    state: u64,
}

impl Gen {
    pub fn seeded(seed: u64, case: u64) -> Self {
        let mut g = Gen {
            rec: Vec::new(),
            replay: None,
            pos: 0,
            state: seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ case.wrapping_mul(0xD1B5_4A32_D192_ED03) ^ 0x1234_5678,
        };
        for _ in 0..4 {
            g.next();
        }
        g
    }

    pub fn replay(data: Vec<u64>) -> Self {
        Gen { rec: Vec::new(), replay: Some(data), pos: 0, state: 0 }
    }

    fn next(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }

    /// A number in `0..n`. Zero is always the "simplest" choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match self.replay {
            Some(ref d) => {
                let v = d.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
            None => {
                let v = self.next();
                ((v as u128 * n as u128) >> 64) as u64
            }
        };
        self.rec.push(v);
        v
    }

    pub fn u64(&mut self) -> u64 {
        let v = match self.replay {
            Some(ref d) => {
                let v = d.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
            None => self.next(),
        };
        self.rec.push(v);
        v
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    /// True with probability `num/den`; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
}
