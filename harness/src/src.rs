//! Choice-sequence source: every generator draws bounded integers from here. In random mode the
//! draws come from a seeded generator and are recorded; in replay mode they come from a tape.
//! Shrinking edits the tape, so every generator shrinks without any code of its own
//! (0 is always the simplest choice).

pub struct Src {
    rng: u64,
    tape: Vec<u64>,
    pos: usize,
    replay: bool,
    /// Index of the case (used by enumerated arms).
    pub index: u64,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

impl Src {
    pub fn random(seed: u64, index: u64) -> Self {
        Self { rng: seed, tape: Vec::new(), pos: 0, replay: false, index }
    }
    pub fn replay(tape: Vec<u64>, index: u64) -> Self {
        Self { rng: 0, tape, pos: 0, replay: true, index }
    }
    /// The choices actually used.
    pub fn used(&self) -> Vec<u64> {
        self.tape[..self.pos.min(self.tape.len())].to_vec()
    }
    /// Uniform in 0..n (n>=1).
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n >= 1);
        let v = if self.replay {
            let v = self.tape.get(self.pos).copied().unwrap_or(0);
            if v >= n { n - 1 } else { v }
        } else {
            let v = ((splitmix(&mut self.rng) as u128 * n as u128) >> 64) as u64;
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.us(hi - lo + 1)
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.us(xs.len())]
    }
    /// Multiples of `step` in lo..=hi, simplest `lo`.
    pub fn num(&mut self, lo: f64, hi: f64, step: f64) -> f64 {
        let n = ((hi - lo) / step).round() as u64;
        lo + self.below(n + 1) as f64 * step
    }
    /// "Ordinary" real: mostly multiples of 0.25 or 1 with occasional arbitrary fractions; simplest 0.
    pub fn real(&mut self, lo: f64, hi: f64) -> f64 {
        match self.below(4) {
            0 | 1 => {
                let lo_i = lo.ceil() as i64;
                let hi_i = hi.floor() as i64;
                if hi_i >= lo_i { self.int(lo_i, hi_i) as f64 } else { lo }
            }
            2 => self.num(lo, hi, 0.25),
            _ => {
                let u = self.below(1 << 20) as f64 / (1u64 << 20) as f64;
                lo + (hi - lo) * u
            }
        }
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = i - self.us(i + 1);
            xs.swap(i, j);
        }
    }
}

/// Shrink a failing tape: `fails(tape)` returns the (trimmed) used tape if the case still fails with the
/// same signature. Deterministic, bounded by `deadline`.
pub fn shrink(mut best: Vec<u64>, deadline: std::time::Instant, fails: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let better = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    let mut improved = true;
    while improved && std::time::Instant::now() < deadline {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                if std::time::Instant::now() >= deadline {
                    return best;
                }
                let mut cand = best.clone();
                let end = (i + size).min(cand.len());
                cand.drain(i..end);
                match fails(&cand) {
                    Some(u) if better(&u, &best) => {
                        best = u;
                        improved = true;
                    }
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            if std::time::Instant::now() >= deadline {
                return best;
            }
            let v = best[i];
            for c in [0, v / 2, v.saturating_sub(1)] {
                if c >= best.get(i).copied().unwrap_or(0) {
                    continue;
                }
                let mut cand = best.clone();
                cand[i] = c;
                if let Some(u) = fails(&cand) {
                    if better(&u, &best) {
                        best = u;
                        improved = true;
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    best
}
