//! The one source of every decision in a simulated run.
//!
//! A run is a pure function of the sequence of choices it draws.  While searching, the choices come
//! from a PRNG seeded from the run's seed; while replaying or minimising they come from a recorded
//! list (exhausted list => 0, which is always the simplest choice).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub enum Source {
    Gen(Rng),
    Replay(Vec<u32>),
}

pub struct Chooser {
    src: Source,
    pub log: Vec<u32>,
    /// where to mirror the log (shared memory), so that it survives the death of this OS process
    pub mirror: *mut u32,
}

pub const MAX_CHOICES: usize = 200_000;

impl Chooser {
    pub fn seeded(seed: u64) -> Chooser {
        Chooser {
            src: Source::Gen(Rng::new(seed)),
            log: Vec::new(),
            mirror: std::ptr::null_mut(),
        }
    }
    pub fn replay(choices: Vec<u32>) -> Chooser {
        Chooser {
            src: Source::Replay(choices),
            log: Vec::new(),
            mirror: std::ptr::null_mut(),
        }
    }
    /// A value in `0..n`; 0 is the simplest.
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let pos = self.log.len();
        if pos >= MAX_CHOICES {
            return 0;
        }
        let v = match &mut self.src {
            Source::Gen(r) => r.below(n as u64) as u32,
            Source::Replay(v) => v.get(pos).copied().unwrap_or(0) % n,
        };
        self.log.push(v);
        if !self.mirror.is_null() {
            unsafe {
                *self.mirror.add(pos + 1) = v;
                *self.mirror = pos as u32 + 1;
            }
        }
        v
    }
    /// True with probability num/den; choice 0 is false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.choose(den) >= den - num.min(den - 1).max(1)
    }
    /// Index by weight; put the simplest first.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.choose(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn range(&mut self, lo: u32, hi_incl: u32) -> u32 {
        lo + self.choose(hi_incl - lo + 1)
    }
}
