//! Choice-sequence generation engine (Hypothesis style).
//!
//! A generator draws bounded integers from a `Tape`.  While searching, the tape is fed by a
//! seeded PRNG and records every choice; while shrinking, the engine edits the recorded sequence
//! and re-runs the generator on it.  Every random decision of every check goes through here, so
//! a run is a pure function of (code under test, VERIF_SEED, case index).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Rng {
    pub fn new(seed: u64, stream: u64, index: u64) -> Rng {
        let mut x = seed ^ stream.rotate_left(17) ^ index.wrapping_mul(0xD1342543DE82EF95);
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Rng { s }
    }
    fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub struct Tape {
    replay: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn random(rng: Rng) -> Tape {
        Tape { replay: vec![], pos: 0, rng: Some(rng), rec: vec![] }
    }
    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { replay: data, pos: 0, rng: None, rec: vec![] }
    }
    /// Uniform in `0..n` (n >= 1).  0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => ((r.next() >> 11) as u128 * n as u128 >> 53) as u64,
            None => {
                let v = self.replay.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n - 1)
            }
        };
        self.rec.push(v);
        v
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    /// True with probability pct/100; false is the simple choice.
    pub fn chance(&mut self, pct: u64) -> bool {
        self.below(100) >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }
}

/// Shrinks a failing choice sequence. `still_fails(seq)` returns the choices actually consumed
/// when the case generated from `seq` still fails, `None` otherwise.
pub fn shrink(
    start: Vec<u64>,
    max_evals: usize,
    mut still_fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> (Vec<u64>, usize) {
    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    let mut cur = start;
    let mut evals = 0usize;
    loop {
        let before = cur.clone();
        // delete chunks
        for k in [64usize, 32, 16, 8, 4, 2, 1] {
            let mut i = cur.len();
            while i >= k && evals < max_evals {
                let at = i - k;
                if at + k <= cur.len() {
                    let mut c = cur.clone();
                    c.drain(at..at + k);
                    evals += 1;
                    if let Some(used) = still_fails(&c) {
                        if better(&used, &cur) {
                            cur = used;
                        }
                    }
                }
                i = at.min(cur.len());
                if i < k {
                    break;
                }
            }
        }
        // zero chunks
        for k in [16usize, 4, 1] {
            let mut i = 0;
            while i + k <= cur.len() && evals < max_evals {
                if cur[i..i + k].iter().any(|v| *v != 0) {
                    let mut c = cur.clone();
                    c[i..i + k].iter_mut().for_each(|v| *v = 0);
                    evals += 1;
                    if let Some(used) = still_fails(&c) {
                        if better(&used, &cur) {
                            cur = used;
                        }
                    }
                }
                i += k;
            }
        }
        // minimise values
        let mut i = 0;
        while i < cur.len() && evals < max_evals {
            let (mut lo, mut hi) = (0u64, cur[i]);
            while lo < hi && evals < max_evals {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                evals += 1;
                match still_fails(&c) {
                    Some(used) if better(&used, &cur) => {
                        cur = used;
                        if i >= cur.len() {
                            break;
                        }
                        hi = cur[i].min(mid);
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if cur == before || evals >= max_evals {
            return (cur, evals);
        }
    }
}
