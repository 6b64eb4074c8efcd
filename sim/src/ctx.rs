//! One simulated run: every nondeterministic decision is a numbered choice drawn
//! from a seeded generator and recorded on a tape. Replaying the tape replays
//! the run; shrinking edits the tape.
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Display;

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(17))
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for &b in s {
        h ^= b as u64;
        h = h.wrapping_mul(0x0100_0000_01b3);
    }
    mix(h)
}

#[derive(Clone, Debug)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { self.next() % n }
    }
}

/// A violated property. `sig` identifies the failing call site or history
/// shape, stably across line shifts: known findings are matched on it.
#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
}
pub type Res = Result<(), Violation>;

pub fn viol<T>(sig: impl Display, detail: impl Display) -> Result<T, Violation> {
    Err(Violation { sig: sig.to_string(), detail: detail.to_string() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($fmt:tt)+) => {
        if !$c { return $crate::ctx::viol($sig, format!($($fmt)+)); }
    };
}

enum Mode {
    Generate(Rng),
    Replay(Vec<u64>),
}

pub struct Ctx {
    mode: Mode,
    pos: usize,
    pub tape: Vec<u64>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub digest: u64,
    pub steps: u64,
    pub sim_time: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub thorough: bool,
}

impl Ctx {
    pub fn generate(seed: u64, tracing: bool, thorough: bool) -> Self {
        Self::with(Mode::Generate(Rng::new(seed)), tracing, thorough)
    }
    pub fn replay(tape: Vec<u64>, tracing: bool, thorough: bool) -> Self {
        Self::with(Mode::Replay(tape), tracing, thorough)
    }
    fn with(mode: Mode, tracing: bool, thorough: bool) -> Self {
        Ctx {
            mode, pos: 0, tape: vec![], tracing, trace: vec![], digest: 0, steps: 0, sim_time: 0,
            faults: BTreeMap::new(), probes: BTreeMap::new(), states: BTreeSet::new(), thorough,
        }
    }
    /// The only source of nondeterminism of a run.
    pub fn below(&mut self, n: usize) -> usize {
        let n = n.max(1) as u64;
        let v = match &mut self.mode {
            Mode::Generate(r) => r.below(n),
            Mode::Replay(t) => t.get(self.pos).copied().unwrap_or(0) % n,
        };
        self.pos += 1;
        self.tape.push(v);
        v as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi.saturating_sub(lo) + 1)
    }
    /// True with probability num/den; the shrunk value is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        let v = self.below(den);
        v >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn u64(&mut self) -> u64 {
        let a = self.below(1 << 32) as u64;
        let b = self.below(1 << 32) as u64;
        (a << 32) | b
    }
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let tot: usize = w.iter().sum();
        let mut v = self.below(tot);
        for (i, &x) in w.iter().enumerate() {
            if v < x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// Record an event of the schedule / history.
    pub fn event(&mut self, e: impl FnOnce() -> String) {
        self.steps += 1;
        let s = e();
        self.digest = mix2(self.digest, hash_str(&s));
        if self.tracing {
            self.trace.push(s);
        }
    }
    pub fn note(&mut self, h: u64) {
        self.digest = mix2(self.digest, h);
    }
    pub fn fault(&mut self, kind: &str) {
        *self.faults.entry(kind.to_string()).or_default() += 1;
    }
    pub fn faults_n(&mut self, kind: &str, n: u64) {
        if n > 0 {
            *self.faults.entry(kind.to_string()).or_default() += n;
        }
    }
    pub fn probe(&mut self, what: &str) {
        *self.probes.entry(what.to_string()).or_default() += 1;
    }
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4096 {
            self.states.insert(h);
        }
    }
}
