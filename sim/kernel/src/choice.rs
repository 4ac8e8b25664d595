//! All nondeterminism of a run is a sequence of choices. Value 0 is always the benign
//! default (stay on the current thread, deliver the message, no fault). A run is generated
//! from a seed; the nonzero choices are recorded and can be replayed from the record alone.
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64, pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut s = seed ^ 0x9E37_79B9_7F4A_7C15;
        let mut sm = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            z ^ (z >> 31)
        };
        let a = sm();
        let b = sm() | 1;
        Rng(a, b)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() >> 11) as u128 * n as u128 >> 53) as u64
        }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, l: &[T]) -> T {
        l[self.below(l.len() as u64) as usize]
    }
}

pub const KINDS: usize = 16;
#[derive(Copy, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Sched = 0,
    Clock = 1,
    Net = 2,
    Fs = 3,
    Kill = 4,
    Db = 5,
    Spur = 6,
    Stall = 7,
    Rand = 8,
    Timer = 9,
    User = 10,
    Delay = 11,
    Alloc = 12,
}
pub const KIND_NAMES: [&str; KINDS] = [
    "sched", "clock", "net", "fs", "kill", "db", "spurious", "stall", "rand", "timer", "user", "delay", "alloc", "-", "-", "-",
];

pub enum Mode {
    Generate(Rng),
    Replay(BTreeMap<(u8, u64), u64>),
}
pub struct Choices {
    pub mode: Mode,
    pub idx: [u64; KINDS],
    pub log: Vec<(u8, u64, u64)>,
}
impl Choices {
    pub fn generate(seed: u64) -> Self {
        Choices { mode: Mode::Generate(Rng::new(seed)), idx: [0; KINDS], log: vec![] }
    }
    pub fn replay(l: &[(u8, u64, u64)]) -> Self {
        Choices { mode: Mode::Replay(l.iter().map(|(k, i, v)| ((*k, *i), *v)).collect()), idx: [0; KINDS], log: vec![] }
    }
    /// one choice; `gen` draws the value when generating
    #[inline]
    pub fn choose(&mut self, kind: Kind, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let k = kind as usize;
        let i = self.idx[k];
        self.idx[k] += 1;
        let v = match &mut self.mode {
            Mode::Generate(r) => gen(r),
            Mode::Replay(m) => m.get(&(k as u8, i)).copied().unwrap_or(0),
        };
        if v != 0 {
            self.log.push((k as u8, i, v));
        }
        v
    }
}
