//! Every nondeterministic decision of a simulated run is drawn from here.
//!
//! Record mode: decisions come from per-stream PRNGs derived from one seed, and are logged on a
//! tape. Replay mode: decisions come from a tape; an exhausted stream yields 0, and 0 is always
//! the "nothing happens / smallest" decision, so deleting from a tape makes a simpler run.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

/// Decision streams. Kept apart so that the minimiser can shorten one without shifting another.
pub const STREAMS: usize = 8;
pub const S_CFG: usize = 0; // swarm configuration
pub const S_DOC: usize = 1; // initial documents
pub const S_EDIT: usize = 2; // edits / workload
pub const S_NET: usize = 3; // message delays, loss, duplication
pub const S_FAULT: usize = 4; // crashes, partitions, disk and API faults
pub const S_SCHED: usize = 5; // which task runs next
pub const S_ENV: usize = 6; // hash seeds, arena layout, chunking: must not matter
pub const S_MISC: usize = 7;

pub const STREAM_NAMES: [&str; STREAMS] = ["cfg", "doc", "edit", "net", "fault", "sched", "env", "misc"];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tape {
    pub s: Vec<Vec<u64>>,
}
impl Tape {
    pub fn empty() -> Self {
        Tape { s: vec![Vec::new(); STREAMS] }
    }
    pub fn len(&self) -> usize {
        self.s.iter().map(|v| v.len()).sum()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn weight(&self) -> (usize, u128) {
        (self.len(), self.s.iter().flatten().map(|&v| v as u128).sum())
    }
}

pub struct Choices {
    rngs: Option<Vec<Rng>>,
    tape: Tape,
    pos: Vec<usize>,
    rec: Tape,
    /// hard cap on the number of decisions in one run
    pub budget: usize,
    drawn: usize,
    /// where each decision goes at once, for runs that may bring down the process
    log: Option<std::fs::File>,
}
impl Choices {
    pub fn record(seed: u64) -> Self {
        let mut x = seed ^ 0x5851f42d4c957f2d;
        let rngs = (0..STREAMS).map(|_| Rng::new(splitmix(&mut x))).collect();
        Choices { rngs: Some(rngs), tape: Tape::empty(), pos: vec![0; STREAMS], rec: Tape::empty(), budget: 4_000_000, drawn: 0, log: None }
    }
    pub fn replay(mut tape: Tape) -> Self {
        tape.s.resize(STREAMS, Vec::new());
        Choices { rngs: None, tape, pos: vec![0; STREAMS], rec: Tape::empty(), budget: 4_000_000, drawn: 0, log: None }
    }
    pub fn record_to(seed: u64, log: std::fs::File) -> Self {
        Choices { log: Some(log), ..Self::record(seed) }
    }
    /// The tape in a log written by `record_to`.
    pub fn tape_of(log: &[u8]) -> Tape {
        let mut t = Tape::empty();
        for r in log.chunks_exact(9) {
            t.s[r[0] as usize % STREAMS].push(u64::from_le_bytes(r[1..].try_into().unwrap()));
        }
        t
    }
    /// A decision in [0, n).
    pub fn draw(&mut self, stream: usize, n: u64) -> u64 {
        let n = n.max(1);
        self.drawn += 1;
        let v = if self.drawn > self.budget {
            0
        } else if let Some(r) = &mut self.rngs {
            r[stream].below(n)
        } else {
            let p = self.pos[stream];
            self.pos[stream] += 1;
            self.tape.s[stream].get(p).copied().unwrap_or(0) % n
        };
        self.rec.s[stream].push(v);
        if let Some(f) = &mut self.log {
            let mut r = [stream as u8; 9];
            r[1..].copy_from_slice(&v.to_le_bytes());
            let _ = std::io::Write::write_all(f, &r);
        }
        v
    }
    /// True with probability num/den; the value 0 (and an exhausted tape) means false.
    pub fn chance(&mut self, stream: usize, num: u64, den: u64) -> bool {
        self.draw(stream, den) >= den - num.min(den)
    }
    pub fn range(&mut self, stream: usize, lo: u64, hi_incl: u64) -> u64 {
        lo + self.draw(stream, hi_incl.saturating_sub(lo) + 1)
    }
    pub fn idx(&mut self, stream: usize, n: usize) -> usize {
        self.draw(stream, n as u64) as usize
    }
    pub fn pick<'a, T>(&mut self, stream: usize, xs: &'a [T]) -> &'a T {
        &xs[self.idx(stream, xs.len())]
    }
    /// Index drawn according to weights (index 0 is the simplest choice).
    pub fn weighted(&mut self, stream: usize, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(stream, total.max(1));
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        0
    }
    pub fn shuffle<T>(&mut self, stream: usize, xs: &mut [T]) {
        // Fisher-Yates arranged so that all-zero draws leave the order unchanged.
        let n = xs.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.idx(stream, n - i);
            xs.swap(i, j);
        }
    }
    pub fn recorded(&self) -> Tape {
        let mut t = self.rec.clone();
        for s in &mut t.s {
            while s.last() == Some(&0) {
                s.pop();
            }
        }
        t
    }
    pub fn decisions(&self) -> usize {
        self.drawn
    }
}
