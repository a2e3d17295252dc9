//! Choice tape: every generated value is a sequence of bounded integer choices.  A tape comes either from
//! a PRNG (search) or from a recorded list (replay, shrinking).  Zero is always the simplest choice.

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17));
    r.next() ^ r.next().rotate_left(32)
}

pub struct Src {
    rng: Option<Rng>,
    given: Vec<u64>,
    pos: usize,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { rng: Some(Rng::new(seed)), given: vec![], pos: 0, tape: vec![] }
    }
    pub fn replay(t: Vec<u64>) -> Self {
        Src { rng: None, given: t, pos: 0, tape: vec![] }
    }
    /// Uniform choice in 0..n (n >= 1); n == 0 means the full u64 range.
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                if n == 0 { x } else { ((x as u128 * n as u128) >> 64) as u64 }
            }
            None => {
                let x = self.given.get(self.pos).copied().unwrap_or(0);
                if n == 0 { x } else { x.min(n - 1) }
            }
        };
        self.pos += 1;
        self.tape.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n.max(1) as u64) as usize
    }
    /// Integer in lo..=hi whose simplest value is the one closest to zero.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let n = (hi as i128 - lo as i128 + 1) as u64;
        let k = self.draw(n) as i128;
        // order: zero-most first, alternating
        let z = 0i64.clamp(lo, hi) as i128;
        let (l, h) = (lo as i128, hi as i128);
        let down = z - l;
        let up = h - z;
        let m = down.min(up);
        let v = if k <= 2 * m {
            if k % 2 == 1 { z + (k + 1) / 2 } else { z - k / 2 }
        } else if up > down {
            z + (k - m)
        } else {
            z - (k - m)
        };
        v as i64
    }
    pub fn bool(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.draw(den);
        v >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted index.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut k = self.draw(tot);
        for (i, &x) in w.iter().enumerate() {
            if k < x {
                return i;
            }
            k -= x;
        }
        w.len() - 1
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below(n - i);
            v.swap(i, j);
        }
        v
    }
}
