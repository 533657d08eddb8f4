//! Choice-tape generation with integrated shrinking.
//!
//! Every random decision of a case is one entry of a tape (`Vec<u64>`), already reduced to its range and
//! with 0 as the simplest alternative.  A case is a pure function of its tape, so the tape is the replay
//! file and shrinking is: edit the tape, re-run, keep the edit when the case still fails.
use std::future::Future;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    Rng::new(a.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ b.rotate_left(17)).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.as_bytes() {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, 7)
}

pub struct Src {
    replay: Vec<u64>,
    rng: Option<Rng>,
    pub tape: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: vec![], rng: Some(Rng::new(seed)), tape: vec![] }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { replay: tape, rng: None, tape: vec![] }
    }
    /// uniform in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.next() % n,
            None => self.replay.get(self.tape.len()).copied().unwrap_or(0) % n,
        };
        self.tape.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range, lo is simplest
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi.saturating_sub(lo) + 1)
    }
    /// true with probability pct/100; false is simplest
    pub fn chance(&mut self, pct: u64) -> bool {
        // stored so that 0 means false
        let v = self.below(100);
        v >= 100 - pct.min(100)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        ws.len() - 1
    }
    /// random subset, possibly empty
    pub fn subset<T: Clone>(&mut self, xs: &[T], pct: u64) -> Vec<T> {
        xs.iter().filter(|_| self.chance(pct)).cloned().collect()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.n(i + 1);
            // 0 => keep in place
            xs.swap(i, i - j);
        }
    }
    pub fn ident(&mut self) -> String {
        const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz";
        let n = self.range(1, 5);
        (0..n).map(|_| A[self.n(26)] as char).collect()
    }
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// not counted as a case
    Discard,
    Pass {
        nontrivial: bool,
        /// identity of the case for distinctness
        sig: u64,
        labels: Vec<String>,
        /// how many checked executions this case made
        evals: u64,
        sample: Option<String>,
    },
    Fail {
        /// class of failure: shrinking keeps the class
        class: String,
        msg: String,
    },
}

impl Outcome {
    pub fn fail(class: &str, msg: impl Into<String>) -> Self {
        Outcome::Fail { class: class.into(), msg: msg.into() }
    }
}

/// Greedy tape shrinking. `run` re-executes a tape.
pub async fn shrink<F, Fut>(
    tape: Vec<u64>,
    class: String,
    msg: String,
    budget: std::time::Duration,
    max_runs: usize,
    mut run: F,
) -> (Vec<u64>, String)
where
    F: FnMut(Vec<u64>) -> Fut,
    Fut: Future<Output = (Outcome, Vec<u64>)>,
{
    let start = std::time::Instant::now();
    let mut best = tape;
    let mut best_msg = msg;
    let mut runs = 0usize;
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if start.elapsed() > budget || runs >= max_runs {
                false
            } else {
                runs += 1;
                match run(cand).await {
                    (Outcome::Fail { class: c, msg }, used) if c == class => {
                        if used.len() < best.len() || (used.len() == best.len() && used < best) {
                            best = used;
                            best_msg = msg;
                            true
                        } else {
                            false
                        }
                    }
                    _ => false,
                }
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.len() {
                    let hi = i.min(best.len());
                    let mut c = best.clone();
                    c.drain(lo..hi);
                    attempt!(c);
                }
                i = lo;
                if start.elapsed() > budget {
                    break;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut lo = 0;
            while lo < best.len() {
                let hi = (lo + size).min(best.len());
                if best[lo..hi].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[lo..hi].iter_mut().for_each(|v| *v = 0);
                    attempt!(c);
                }
                lo += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
                if start.elapsed() > budget {
                    break;
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget || runs >= max_runs {
            break;
        }
    }
    (best, best_msg)
}
