//! Choice tape: every random decision of a case is one draw, so a case is its tape. Shrinking works
//! on the tape, replay feeds it back, and 0 is always the simplest choice.

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(23)).next()
}

pub struct Tape {
    pub data: Vec<u32>,
    pub pos: usize,
    rng: Option<Rng>,
    pub limit: usize,
}

impl Tape {
    pub fn random(seed: u64, limit: usize) -> Tape {
        Tape { data: vec![], pos: 0, rng: Some(Rng(seed)), limit }
    }
    pub fn replay(data: Vec<u32>) -> Tape {
        Tape { limit: data.len(), data, pos: 0, rng: None }
    }
    /// Uniform in 0..n.
    pub fn draw(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(rng) => {
                if self.pos >= self.limit {
                    0
                } else {
                    let v = (rng.next() >> 33) as u32 % n as u32;
                    self.data.push(v);
                    v
                }
            }
            None => {
                if self.pos < self.data.len() {
                    self.data[self.pos] % n as u32
                } else {
                    0
                }
            }
        };
        self.pos += 1;
        v as usize
    }
    /// True with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.draw(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.draw(hi - lo + 1)
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.draw(xs.len())]
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.limit
    }
}

/// Shrinks a failing tape. `fails` says whether a tape still fails.
pub fn shrink(tape: Vec<u32>, mut budget: usize, fails: &mut dyn FnMut(&[u32]) -> bool) -> Vec<u32> {
    let mut best = tape;
    let trim = |best: &mut Vec<u32>, fails: &mut dyn FnMut(&[u32]) -> bool| {
        let n = best.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
        if n < best.len() && fails(&best[..n]) {
            best.truncate(n);
        }
    };
    trim(&mut best, fails);
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                let mut c = best.clone();
                c.drain(i..i + size);
                budget -= 1;
                if fails(&c) {
                    best = c;
                } else {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i + size <= best.len() && budget > 0 {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    budget -= 1;
                    if fails(&c) {
                        best = c;
                    }
                }
                i += size;
            }
        }
        // lower single values
        for i in 0..best.len() {
            let mut lo = 0u32;
            while i < best.len() && lo < best[i] && budget > 0 {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                budget -= 1;
                if fails(&c) {
                    best = c;
                } else {
                    lo = mid + 1;
                }
            }
        }
        trim(&mut best, fails);
        if best == before || budget == 0 {
            return best;
        }
    }
}
