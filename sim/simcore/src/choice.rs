//! Choice streams: every nondeterministic decision is drawn from one of these.
//! 0 is always the "nothing special" value, so that a shorter or zeroed stream is a simpler run.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub struct Choices {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pos: usize,
    pub log: Vec<u32>,
    /// (start, end) index ranges of operations, for minimisation
    pub spans: Vec<(u32, u32)>,
    open: Vec<usize>,
}

impl Choices {
    pub fn random(seed: u64) -> Choices {
        Choices { rng: Some(Rng::new(seed)), replay: vec![], pos: 0, log: vec![], spans: vec![], open: vec![] }
    }
    pub fn replay(v: Vec<u32>) -> Choices {
        Choices { rng: None, replay: v, pos: 0, log: vec![], spans: vec![], open: vec![] }
    }
    fn put(&mut self, v: u32) -> u32 {
        self.log.push(v);
        v
    }
    fn next_replayed(&mut self) -> u32 {
        let v = self.replay.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// Uniform value in 0..n.
    pub fn below(&mut self, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n as u64) as u32,
            None => {
                let v = self.next_replayed();
                if v < n {
                    v
                } else {
                    v % n
                }
            }
        };
        self.put(v)
    }
    /// True with probability num/den (false when exhausted).
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        let v = match &mut self.rng {
            Some(r) => (r.below(den as u64) < num as u64) as u32,
            None => (self.next_replayed() != 0) as u32,
        };
        self.put(v) != 0
    }
    /// Geometric gap with the given mean; 0 means "never again".
    pub fn gap(&mut self, mean: u32) -> u32 {
        let v = match &mut self.rng {
            Some(r) => {
                let u = (r.next() >> 11) as f64 / (1u64 << 53) as f64;
                let g = (-(1.0 - u).ln() * mean as f64).ceil();
                (g.max(1.0)).min(1e9) as u32
            }
            None => self.next_replayed(),
        };
        self.put(v)
    }
    pub fn begin(&mut self) {
        self.open.push(self.spans.len());
        let p = self.log.len() as u32;
        self.spans.push((p, p));
    }
    pub fn end(&mut self) {
        if let Some(i) = self.open.pop() {
            self.spans[i].1 = self.log.len() as u32;
        }
    }
}
