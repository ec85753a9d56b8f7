//! The choice tape: every decision of a simulated run is drawn from here.
//!
//! In generation mode values come from a PRNG seeded by (VERIF_SEED, property, run index) and are
//! recorded; in replay mode they come from the recorded tape. A value of 0 always means "the
//! simplest choice / no fault", which is what an exhausted replay tape yields.

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    let mut x = h;
    splitmix(&mut x)
}

/// Incremental digest used for event traces.
#[derive(Clone, Copy, Debug)]
pub struct Digest(pub u64);
impl Default for Digest {
    fn default() -> Self {
        Digest(0x1234_5678_9abc_def1)
    }
}
impl Digest {
    pub fn add(&mut self, v: u64) {
        let mut x = self.0 ^ v.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.0 = splitmix(&mut x);
    }
    pub fn add_bytes(&mut self, b: &[u8]) {
        self.add(hash64(b));
    }
}

/// Small private PRNG for bulk choices derived from one drawn seed (so that tapes stay short).
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        splitmix(&mut self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub struct Tape {
    state: u64,
    pub data: Vec<u64>,
    pos: usize,
    replay: bool,
    sink: Option<std::fs::File>,
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape {
            state: seed,
            data: Vec::new(),
            pos: 0,
            replay: false,
            sink: None,
        }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape {
            state: 0,
            data,
            pos: 0,
            replay: true,
            sink: None,
        }
    }
    /// Also append every drawn value to a file (used to recover the tape of a run that kills the
    /// process).
    pub fn set_sink(&mut self, f: std::fs::File) {
        self.sink = Some(f);
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A value in 0..n.
    pub fn draw(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = if self.replay {
            let raw = self.data.get(self.pos).copied().unwrap_or(0);
            let v = raw % n;
            if self.pos < self.data.len() {
                self.data[self.pos] = v;
            }
            v
        } else {
            let v = splitmix(&mut self.state) % n;
            self.data.push(v);
            v
        };
        self.pos += 1;
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(hi >= lo);
        lo + self.draw(hi - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// True with probability num/den; 0 on the tape means false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn u8(&mut self) -> u8 {
        self.draw(256) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.draw(65536) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.draw(1 << 32) as u32
    }
    /// An "interesting" u32: small mostly, sometimes extreme.
    pub fn id32(&mut self) -> u32 {
        match self.draw(8) {
            0..=5 => self.draw(40) as u32,
            6 => self.draw(70000) as u32,
            _ => self.u32(),
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    pub fn seed(&mut self) -> Rng {
        Rng(self.draw(1 << 40))
    }
}

/// Generic tape minimiser: keeps a candidate iff `fails` says the same violation class persists.
pub fn shrink(
    start: Vec<u64>,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
    max_attempts: usize,
    deadline: std::time::Instant,
) -> (Vec<u64>, usize) {
    let mut best = start;
    let mut attempts = 0usize;
    macro_rules! try_cand {
        ($c:expr) => {{
            if attempts >= max_attempts || std::time::Instant::now() > deadline {
                return (best, attempts);
            }
            attempts += 1;
            let c: Vec<u64> = $c;
            match fails(&c) {
                Some(norm) if simpler(&norm, &best) => {
                    best = norm;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // truncate
        let mut len = best.len() / 2;
        while len > 0 && best.len() > 1 {
            if best.len() > len {
                let c = best[..best.len() - len].to_vec();
                if try_cand!(c) {
                    continue;
                }
            }
            len /= 2;
        }
        // delete blocks
        let mut block = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + block <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + block);
                if !try_cand!(c) {
                    i += block;
                }
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        // zero blocks
        let mut block = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i + block <= best.len() {
                if best[i..i + block].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    for v in &mut c[i..i + block] {
                        *v = 0;
                    }
                    try_cand!(c);
                }
                i += block;
            }
            if block == 1 {
                break;
            }
            block /= 2;
        }
        // reduce values
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                for cand in [v / 2, v - 1] {
                    if cand < best[i] {
                        let mut c = best.clone();
                        c[i] = cand;
                        if try_cand!(c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return (best, attempts);
        }
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return a.len() < b.len();
    }
    let sa: u128 = a.iter().map(|v| u128::from(*v)).sum();
    let sb: u128 = b.iter().map(|v| u128::from(*v)).sum();
    sa < sb
}
