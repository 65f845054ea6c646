//! The choice stream: every decision of a run, recorded so it can be replayed
//! and minimised. In every draw, 0 is the simplest outcome.

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            self.next() % n
        }
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng(0x5bd1_e995_1234_5678);
    let mut h = 0u64;
    for p in parts {
        r.0 ^= p.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h;
        h = r.next();
    }
    h
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub const MAX_DRAWS: usize = 400_000;

pub struct Choices {
    rng: Option<Rng>,
    replay: Vec<u32>,
    pub rec: Vec<u32>,
    /// (start, end) of each closed span, for deletion while minimising
    pub spans: Vec<(u32, u32)>,
    open: Vec<u32>,
}

impl Choices {
    pub fn from_seed(seed: u64) -> Choices {
        Choices { rng: Some(Rng::new(seed)), replay: vec![], rec: vec![], spans: vec![], open: vec![] }
    }
    pub fn from_list(list: &[u32]) -> Choices {
        Choices { rng: None, replay: list.to_vec(), rec: vec![], spans: vec![], open: vec![] }
    }
    pub fn draw(&mut self, n: u32) -> u32 {
        if n <= 1 || self.rec.len() >= MAX_DRAWS {
            return 0;
        }
        let v = match &mut self.rng {
            Some(r) => r.below(n as u64) as u32,
            None => {
                let v = self.replay.get(self.rec.len()).copied().unwrap_or(0);
                if v < n {
                    v
                } else {
                    n - 1
                }
            }
        };
        crate::driver::shm_choice(self.rec.len(), v);
        self.rec.push(v);
        v
    }
    pub fn open(&mut self) {
        self.open.push(self.rec.len() as u32);
    }
    pub fn close(&mut self) {
        if let Some(s) = self.open.pop() {
            let e = self.rec.len() as u32;
            if e > s {
                self.spans.push((s, e));
            }
        }
    }
}
