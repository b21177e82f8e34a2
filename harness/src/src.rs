//! Choice source: every random decision of a case is one recorded integer.
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x5851_F42D_4C95_7F2D)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            self.next()
        } else {
            self.next() % n
        }
    }
}

/// Literals of the crate's source text: hints for the generators, nothing else.
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub texts: Vec<String>,
}

pub const MAX_CHOICES: usize = 120_000;

pub struct Src {
    replay: Vec<u64>,
    pos: usize,
    random_tail: bool,
    rng: Rng,
    pub rec: Vec<u64>,
    shm: *mut u64,
    dict: Rc<Dict>,
    /// bytes of bulk content this case may still generate
    pub budget: usize,
}

impl Src {
    pub fn new(replay: Vec<u64>, random_tail: bool, seed: u64, dict: Rc<Dict>, shm: *mut u64) -> Src {
        if !shm.is_null() {
            unsafe { *shm = 0 }
        }
        Src { replay, pos: 0, random_tail, rng: Rng::new(seed), rec: Vec::new(), shm, dict, budget: 160_000 }
    }
    pub fn dict(&self) -> Rc<Dict> {
        self.dict.clone()
    }
    /// One choice in [0, bound) (bound 0: any u64).
    pub fn draw_with<F: FnOnce(&mut Rng, &Dict) -> u64>(&mut self, bound: u64, f: F) -> u64 {
        if self.rec.len() >= MAX_CHOICES {
            return 0;
        }
        let raw = if self.pos < self.replay.len() {
            let r = self.replay[self.pos];
            self.pos += 1;
            r
        } else if self.random_tail {
            f(&mut self.rng, &self.dict)
        } else {
            0
        };
        let v = if bound == 0 { raw } else { raw % bound };
        self.rec.push(v);
        if !self.shm.is_null() {
            unsafe {
                *self.shm.add(self.rec.len()) = v;
                *self.shm = self.rec.len() as u64;
            }
        }
        v
    }
    pub fn below(&mut self, bound: u64) -> u64 {
        if bound == 1 {
            return 0;
        }
        self.draw_with(bound, |r, _| r.below(bound))
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// true with probability pct/100; the simplest choice is false.
    pub fn chance(&mut self, pct: u64) -> bool {
        self.draw_with(2, |r, _| (r.below(100) < pct) as u64) == 1
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// Weighted alternative; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        self.draw_with(w.len() as u64, |r, _| {
            let mut x = r.below(total);
            for (i, &k) in w.iter().enumerate() {
                if x < k {
                    return i as u64;
                }
                x -= k;
            }
            0
        }) as usize
    }
    /// Boundary-biased integer of `bits` bits (as an unsigned pattern).
    pub fn int(&mut self, bits: u32) -> u64 {
        let bound = if bits == 64 { 0 } else { 1u64 << bits };
        self.draw_with(bound, |r, d| {
            let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            let v = match r.below(16) {
                0..=2 => r.below(4),
                3..=5 => *[127u64, 128, 129, 254, 255, 256, 257].get(r.below(7) as usize).unwrap(),
                6..=8 => {
                    // around powers of two, and negatives of small numbers
                    let p = 1u64 << r.below(bits as u64);
                    let b = p.wrapping_add(r.below(3)).wrapping_sub(1);
                    if r.below(3) == 0 {
                        b.wrapping_neg()
                    } else {
                        b
                    }
                }
                9 => u64::MAX.wrapping_sub(r.below(3)),
                10 => (1u64 << (bits - 1)).wrapping_add(r.below(3)).wrapping_sub(1),
                11 => (0u64).wrapping_sub(126 + r.below(5)),
                12 if covrt::nconsts() > 0 => {
                    let k = covrt::const_at(r.below(covrt::nconsts() as u64) as usize);
                    k.wrapping_add(r.below(3)).wrapping_sub(1)
                }
                13 if !d.ints.is_empty() => d.ints[r.below(d.ints.len() as u64) as usize],
                14 => r.next() >> r.below(64),
                _ => r.next(),
            };
            v & mask
        })
    }
    /// Boundary-biased length in [0, max], charged to the case budget.
    pub fn len(&mut self, max: usize) -> usize {
        let max = max.min(self.budget);
        if max == 0 {
            return 0;
        }
        let v = self.draw_with(max as u64 + 1, |r, d| {
            let v = match r.below(100) {
                0..=49 => r.below(9),
                50..=61 => r.below(40),
                62..=79 => 240 + r.below(24),
                80..=83 => 120 + r.below(16),
                84..=87 => r.below(1200),
                88..=91 if covrt::nconsts() > 0 => {
                    (covrt::const_at(r.below(covrt::nconsts() as u64) as usize)).wrapping_add(r.below(3)).wrapping_sub(1)
                }
                92..=95 if !d.ints.is_empty() => d.ints[r.below(d.ints.len() as u64) as usize],
                96 => 4080 + r.below(40),
                97 => 32740 + r.below(50),
                98 => 65510 + r.below(60),
                _ => r.below(70_000),
            };
            if v > max as u64 {
                r.below((max as u64 + 1).min(300))
            } else {
                v
            }
        }) as usize;
        self.budget -= v;
        v
    }
    /// Small count, mostly few.
    pub fn count(&mut self, max: usize) -> usize {
        self.draw_with(max as u64 + 1, |r, _| {
            let v = match r.below(20) {
                0..=13 => r.below(4),
                14..=17 => r.below(10),
                18 => r.below(40),
                _ => r.below(max as u64 + 1),
            };
            v.min(max as u64)
        }) as usize
    }
    /// `n` bytes of content determined by one choice.
    pub fn fill(&mut self, n: usize) -> Vec<u8> {
        if n == 0 {
            return vec![];
        }
        if n <= 4 {
            return (0..n).map(|_| self.int(8) as u8).collect();
        }
        let seed = self.below(1 << 16);
        match seed {
            0 => vec![b'a'; n],
            1 => vec![0; n],
            2 => vec![0xff; n],
            s => {
                let mut r = Rng::new(s);
                (0..n).map(|_| (r.next() >> 24) as u8).collect()
            }
        }
    }
}
