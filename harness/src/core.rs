//! Infrastructure: deterministic randomness, case contexts, verdicts, panic trapping.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo {
            return lo;
        }
        if lo == 0 && hi == u64::MAX {
            return self.next();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.us(s.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    /// A size, log-uniformly distributed in 0..=max.
    pub fn logsize(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return self.below(3).min(max);
        }
        let lo = 1u64 << (b - 1);
        self.range(lo, (lo * 2 - 1).min(max)).min(max)
    }
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;

pub fn viol<T>(msg: impl Into<String>) -> R<T> {
    Err(Violation { msg: msg.into() })
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($fmt:tt)*) => {
        if !($cond) { return Err($crate::core::Violation { msg: format!($($fmt)*) }); }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn take_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or(("?".into(), "?".into()))
}

/// Runs code under test; a panic is a violation.
pub fn cut<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = take_panic();
            viol(format!("{what}: panicked: {} ({l})", clip(&m, 600)))
        }
    }
}

/// Runs code under test that is expected to panic or not; returns Err(message) on panic.
pub fn traps<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (m, l) = take_panic();
            Err(format!("{} ({l})", clip(&m, 600)))
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

pub fn show(s: &str) -> String {
    clip(&format!("{:?}", clip(s, 200)), 400)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
    pub idx: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub max_samples: usize,
    /// Scratch directory of this worker (exists, private).
    pub scratch: PathBuf,
    pub tools: PathBuf,
    pub shim: PathBuf,
    pub exe: PathBuf,
}

impl Ctx {
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn maxc(&mut self, name: &str, n: u64) {
        let c = self.counters.entry(format!("max:{name}")).or_insert(0);
        *c = (*c).max(n);
    }
    /// One evaluated case; `key` identifies it if it is non-trivial.
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            self.distinct.insert(k);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < self.max_samples {
            let s = clip(&f(), 700);
            self.samples.push(s);
        }
    }
    /// A fresh empty directory under the scratch directory.
    pub fn dir(&self, name: &str) -> PathBuf {
        let d = self.scratch.join(name);
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch dir");
        d
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx, u64, &mut Rng) -> R,
    /// number of cases in the quick tier
    pub quick: u64,
    pub rule: &'static str,
    pub quiet: bool,
}

pub struct Hasher64(pub u64);
impl Hasher64 {
    pub fn new() -> Self {
        Hasher64(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15));
    }
    pub fn bytes(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut a = [0u8; 8];
            a[..c.len()].copy_from_slice(c);
            self.add(u64::from_le_bytes(a) ^ ((c.len() as u64) << 56));
        }
    }
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = Hasher64::new();
    h.bytes(b);
    h.0
}
