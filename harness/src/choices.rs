//! Seeded choices. Every decision of a run is drawn from one of four recorded streams;
//! replaying the recorded values (missing ones are 0, the simplest choice) repeats the run.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    Work = 0,
    Sched = 1,
    Fault = 2,
    Net = 3,
}

pub const STREAMS: usize = 4;

#[derive(Clone)]
pub struct Rng(u64, u64, u64, u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        // splitmix64 expansion, xoshiro256** core
        let mut x = seed;
        let mut sm = || {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        Rng(sm(), sm(), sm(), sm())
    }

    pub fn next(&mut self) -> u64 {
        let r = self.1.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.1 << 17;
        self.2 ^= self.0;
        self.3 ^= self.1;
        self.1 ^= self.2;
        self.0 ^= self.3;
        self.2 ^= t;
        self.3 = self.3.rotate_left(45);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }

    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

pub struct Choices {
    rng: [Rng; STREAMS],
    /// Recorded (or replayed) values.
    pub rec: [Vec<u32>; STREAMS],
    pos: [usize; STREAMS],
    replay: bool,
    /// Environment randomness (keys, hash seeds, directory order): function of the seed only.
    pub env: Rng,
}

impl Choices {
    pub fn generate(seed: u64) -> Self {
        Self::make(seed, None)
    }

    pub fn replay(seed: u64, rec: [Vec<u32>; STREAMS]) -> Self {
        Self::make(seed, Some(rec))
    }

    fn make(seed: u64, rec: Option<[Vec<u32>; STREAMS]>) -> Self {
        let r = |k: u64| Rng::new(seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ (k << 56) ^ k);
        Choices {
            rng: [r(1), r(2), r(3), r(4)],
            replay: rec.is_some(),
            rec: rec.unwrap_or_default(),
            pos: [0; STREAMS],
            env: r(5),
        }
    }

    fn take(&mut self, s: S, gen: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let i = s as usize;
        let v = if self.replay {
            self.rec[i].get(self.pos[i]).copied().unwrap_or(0)
        } else {
            let v = gen(&mut self.rng[i]);
            self.rec[i].push(v);
            v
        };
        self.pos[i] += 1;
        v
    }

    /// Uniform in 0..n.
    pub fn draw(&mut self, s: S, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.take(s, |r| r.below(n as u64) as u32) % n
    }

    /// 0 with probability 1-p, otherwise uniform in 0..n.
    pub fn draw_sticky(&mut self, s: S, n: u32, p: f64) -> u32 {
        if n <= 1 {
            return 0;
        }
        self.take(s, |r| if r.f() < p { r.below(n as u64) as u32 } else { 0 }) % n
    }

    /// True with probability p.
    pub fn chance(&mut self, s: S, p: f64) -> bool {
        self.take(s, |r| (r.f() < p) as u32) != 0
    }

    /// Index into weights; index 0 should be the simplest.
    pub fn weighted(&mut self, s: S, w: &[f64]) -> usize {
        let total: f64 = w.iter().sum();
        let v = self.take(s, |r| {
            let mut x = r.f() * total;
            for (i, wi) in w.iter().enumerate() {
                if x < *wi {
                    return i as u32;
                }
                x -= wi;
            }
            0
        });
        let v = v as usize % w.len();
        if w[v] > 0.0 { v } else { 0 }
    }

    /// How much of each stream was consumed.
    pub fn consumed(&self) -> [Vec<u32>; STREAMS] {
        let mut out = self.rec.clone();
        for i in 0..STREAMS {
            out[i].truncate(self.pos[i]);
            while out[i].last() == Some(&0) {
                out[i].pop();
            }
        }
        out
    }
}
