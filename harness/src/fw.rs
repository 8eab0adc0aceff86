//! Minimal property-testing engine: a case is drawn from a recorded sequence of bounded choices, so a
//! failing case is shrunk by editing that sequence and replayed from it.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choices
pub struct Src {
    state: [u64; 2],
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Src {
    pub fn seeded(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s) | 1;
        Src { state: [a, b], replay: None, log: vec![] }
    }
    pub fn replaying(c: &[u64]) -> Self {
        Src { state: [1, 2], replay: Some(c.to_vec()), log: vec![] }
    }
    fn raw(&mut self) -> u64 {
        // xoroshiro128+
        let [s0, mut s1] = self.state;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.state = [s0.rotate_left(24) ^ s1 ^ (s1 << 16), s1.rotate_left(37)];
        r
    }
    /// A value in `0..n`; smaller is simpler.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &self.replay {
            Some(r) => r.get(self.log.len()).copied().unwrap_or(0).min(n - 1),
            None => (self.raw() >> 11) % n,
        };
        self.log.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// `0..=few` mostly, at times up to `lots`
    pub fn count(&mut self, few: usize, lots: usize) -> usize {
        if self.chance(1, 60) {
            self.range(0, lots)
        } else {
            self.range(0, few)
        }
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        let v = self.below(den);
        v >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    pub fn pickw<'a, T>(&mut self, xs: &'a [(u32, T)]) -> &'a T {
        let total: u64 = xs.iter().map(|x| x.0 as u64).sum();
        let mut v = self.below(total);
        for (w, x) in xs {
            if v < *w as u64 {
                return x;
            }
            v -= *w as u64;
        }
        unreachable!()
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.below(1 << 32);
        let lo = self.below(1 << 32);
        (hi << 32) | lo
    }
    /// integers concentrated on boundaries
    pub fn edge_i64(&mut self) -> i64 {
        match self.below(6) {
            0 => self.below(10) as i64,
            1 => -(self.below(10) as i64),
            2 => *self.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64 + 1, (1i64 << 32) + 7, -(1i64 << 32) + 5]),
            3 => *self.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, (1 << 53) + 1]),
            4 => self.below(1 << 32) as i64,
            _ => self.u64() as i64,
        }
    }
    pub fn edge_u64(&mut self) -> u64 {
        match self.below(5) {
            0 => self.below(10),
            1 => *self.pick(&[u32::MAX as u64, u32::MAX as u64 + 1, i32::MAX as u64, i32::MAX as u64 + 1, (1u64 << 32) + 7]),
            2 => *self.pick(&[u64::MAX, i64::MAX as u64, i64::MAX as u64 + 1, 1 << 53, (1 << 53) + 1]),
            3 => self.below(1 << 32),
            _ => self.u64(),
        }
    }
    pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
        // at times longer than any small bound
        let n = self.count(max, max * 60);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    pub fn ident(&mut self, max: usize) -> String {
        let n = self.range(1, max);
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // choice 0 = keep in place
            let j = i - self.n(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- outcome of one case
#[derive(Default, Debug)]
pub struct Obs {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub sample: Option<String>,
    /// number of individual comparisons made
    pub checks: u64,
}
impl Obs {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// stable class of the failure, used to match the known-findings file
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return $crate::fw::fail($sig, format!($($a)*)); } };
}
pub fn eq<T: PartialEq + Debug>(sig: &str, what: &str, got: &T, want: &T) -> Res {
    if got == want {
        Ok(())
    } else {
        fail(sig, format!("{what}\n  observed: {got:?}\n  expected: {want:?}"))
    }
}

pub struct Check {
    pub id: &'static str,
    pub run: fn(&mut Src, &mut Obs) -> Res,
    pub quick: u64,
    pub thorough: u64,
    /// the rule that makes a case non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {m}"));
    }));
}

pub fn run_case(c: &Check, src: &mut Src) -> (Obs, Res) {
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(src, &mut obs)));
    match r {
        Ok(r) => (obs, r),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let short: String = m.split(": ").next().unwrap_or("").rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("").to_string();
            (obs, fail(format!("panic:{short}"), m))
        }
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    let mut h = seed ^ 0xD1B54A32D192ED03;
    for b in id.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^= idx.wrapping_mul(0x9E3779B97F4A7C15);
    splitmix(&mut h)
}

pub fn hash64(v: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in v {
        h = (h ^ x).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

pub struct Shard {
    pub evaluations: u64,
    pub checks: u64,
    pub labels: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_total: u64,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, u64>,
    pub violation: Option<(Vec<u64>, Fail, u64)>,
    pub capped: bool,
}

pub fn run_shard(c: &Check, seed: u64, shard: u64, of: u64, cases: u64, cap: Duration, known: &HashSet<String>, progress: &str) -> Shard {
    let mut out = Shard {
        evaluations: 0,
        checks: 0,
        labels: BTreeMap::new(),
        nontrivial: HashSet::new(),
        nontrivial_total: 0,
        samples: vec![],
        known: BTreeMap::new(),
        violation: None,
        capped: false,
    };
    let start = Instant::now();
    let mut pf = std::fs::File::create(progress).expect("progress file");
    let beat = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    {
        // a case that never returns decides nothing: end the shard, and the run without an answer
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last = u64::MAX;
            loop {
                std::thread::sleep(Duration::from_secs(120));
                let b = beat.load(std::sync::atomic::Ordering::Relaxed);
                if b == last {
                    eprintln!("case did not finish within 120 s");
                    std::process::exit(97);
                }
                last = b;
            }
        });
    }
    let mut i = shard;
    while i < cases {
        if start.elapsed() > cap {
            out.capped = true;
            break;
        }
        beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = pf.seek(SeekFrom::Start(0));
        let _ = pf.write_all(format!("{i:020}").as_bytes());
        let mut src = Src::seeded(case_seed(seed, c.id, i));
        let (obs, r) = run_case(c, &mut src);
        out.evaluations += 1;
        out.checks += obs.checks;
        for l in &obs.labels {
            *out.labels.entry(l.clone()).or_insert(0) += 1;
        }
        if obs.nontrivial {
            out.nontrivial_total += 1;
            if out.nontrivial.len() < 4_000_000 {
                out.nontrivial.insert(hash64(&src.log));
            }
            if let Some(s) = &obs.sample {
                if out.samples.len() < 3 && s.len() < 4000 {
                    out.samples.push(s.clone());
                }
            }
        }
        if let Err(f) = r {
            if known.contains(&f.sig) {
                *out.known.entry(f.sig).or_insert(0) += 1;
            } else {
                let (choices, f) = shrink(c, src.log.clone(), f, known, &beat);
                out.violation = Some((choices, f, i));
                break;
            }
        }
        i += of;
    }
    out
}

fn attempt(c: &Check, choices: &[u64], known: &HashSet<String>) -> Option<(Vec<u64>, Fail)> {
    let mut s = Src::replaying(choices);
    let (_, r) = run_case(c, &mut s);
    match r {
        Err(f) if !known.contains(&f.sig) => Some((s.log, f)),
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

pub fn shrink(c: &Check, mut best: Vec<u64>, mut fail: Fail, known: &HashSet<String>, beat: &std::sync::atomic::AtomicU64) -> (Vec<u64>, Fail) {
    let start = Instant::now();
    let budget = Duration::from_secs(20);
    loop {
        let mut improved = false;
        let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Fail| -> bool {
            beat.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if start.elapsed() > budget {
                return false;
            }
            if let Some((l, f)) = attempt(c, &cand, known) {
                if simpler(&l, best) {
                    *best = l;
                    *fail = f;
                    return true;
                }
            }
            false
        };
        for size in [32usize, 16, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if try_it(cand, &mut best, &mut fail) {
                    improved = true;
                } else {
                    i += size.max(1);
                }
            }
        }
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..i + size].iter_mut().for_each(|x| *x = 0);
                    if try_it(cand, &mut best, &mut fail) {
                        improved = true;
                    }
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1)] {
                if i < best.len() && nv < best[i] {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    if try_it(cand, &mut best, &mut fail) {
                        improved = true;
                    }
                }
            }
            i += 1;
        }
        if !improved || start.elapsed() > budget {
            return (best, fail);
        }
    }
}
