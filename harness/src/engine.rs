//! Choice-sequence engine: every random decision of a property is one `draw` from a `Src`; the recorded sequence of
//! draws is the test case. The same property runs randomly, exhaustively (bounded), from fuzzer bytes, or as a replay.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering as AO};
use std::sync::Mutex;

// ---------------------------------------------------------------------------------------------------------- rng

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..=max
    pub fn upto(&mut self, max: u64) -> u64 {
        if max == u64::MAX {
            self.next()
        } else {
            ((self.next() as u128 * (max as u128 + 1)) >> 64) as u64
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

// ---------------------------------------------------------------------------------------------------------- src

#[derive(Debug, Clone)]
pub enum Stop {
    /// The property does not hold for this case
    Fail(String),
    /// The case could not be set up (another operation, not judged here, did not deliver); counted, never an alarm
    Discard(&'static str),
}
pub type R = Result<(), Stop>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err($crate::engine::Stop::Fail(format!($($arg)*))); } };
}
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::engine::Stop::Fail(format!($($arg)*))) };
}

enum Mode<'a> {
    Random(Rng),
    Replay(&'a [u64]),
    Bytes(&'a [u8]),
}

pub struct Src<'a> {
    mode: Mode<'a>,
    pos: usize,
    pub rec: Vec<u64>,
    pub bounds: Vec<u64>,
    small: bool,
    /// the kind of types to draw from: shipped ones, over bits of our own, over storages of our own
    pub custom: u8,
    track: bool,
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub noting: bool,
    /// print every choice as it is made (to learn the choices of a case that does not come back)
    pub stream: bool,
    /// print every note as it is made
    pub loud: bool,
}

impl<'a> Src<'a> {
    fn with(mode: Mode<'a>) -> Self {
        Src {
            mode,
            pos: 0,
            rec: Vec::with_capacity(64),
            bounds: Vec::new(),
            small: false,
            custom: 0,
            track: false,
            labels: Vec::new(),
            nontrivial: false,
            notes: Vec::new(),
            noting: false,
            stream: false,
            loud: false,
        }
    }
    pub fn random(rng: Rng) -> Self {
        Self::with(Mode::Random(rng))
    }
    pub fn replay(vals: &'a [u64]) -> Self {
        Self::with(Mode::Replay(vals))
    }
    pub fn bytes(data: &'a [u8]) -> Self {
        Self::with(Mode::Bytes(data))
    }
    pub fn set_small(mut self, small: bool) -> Self {
        self.small = small;
        self
    }
    /// True in bounded-exhaustive mode: generators restrict themselves to a small, completely enumerable space
    pub fn small(&self) -> bool {
        self.small
    }
    /// Uniform draw from `0..=max`; the simplest value is 0
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.mode {
            Mode::Random(r) => r.upto(max),
            Mode::Replay(vals) => {
                let v = vals.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(max)
            }
            Mode::Bytes(data) => {
                let mut v = 0u64;
                if max > 0 {
                    let nbytes = ((64 - max.leading_zeros()) as usize + 7) / 8;
                    for _ in 0..nbytes {
                        v = (v << 8) | data.get(self.pos).copied().unwrap_or(0) as u64;
                        self.pos += 1;
                    }
                    if max != u64::MAX {
                        v %= max + 1;
                    }
                }
                v
            }
        };
        self.rec.push(v);
        if self.stream {
            println!("{}", v);
        }
        if self.track {
            self.bounds.push(max);
        }
        v
    }
    /// Uniform draw from `0..n`
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        // true is the "complicated" outcome, so that shrinking towards 0 gives false
        self.below(den) >= den - num
    }
    /// Weighted choice: returns the index of the chosen weight
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// Integer in `0..=max` with a bias towards boundaries, powers of two, sparse and dense bit patterns
    pub fn int(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        if self.small {
            return self.upto(max);
        }
        let nbits = 64 - max.leading_zeros() as u64;
        match self.weighted(&[6, 2, 2, 2, 2, 2]) {
            0 => self.upto(max),
            1 => self.upto(max.min(9)),
            2 => max - self.upto(max.min(9)),
            3 => {
                // power of two +- small
                let p = 1u64 << self.upto(nbits - 1);
                let d = self.upto(2);
                p.wrapping_add(d).wrapping_sub(1).min(max)
            }
            4 => {
                // few bits set
                let mut v = 0;
                for _ in 0..1 + self.below(3) {
                    v |= 1u64 << self.upto(nbits - 1);
                }
                v.min(max)
            }
            _ => {
                // a run of one bits
                let len = 1 + self.upto(nbits - 1);
                let ones = if len >= 64 { u64::MAX } else { (1u64 << len) - 1 };
                let sh = self.upto(nbits - 1);
                (ones << sh) & (if nbits >= 64 { u64::MAX } else { (1u64 << nbits) - 1 }).min(max)
            }
        }
    }
    pub fn int128(&mut self, bits: u32) -> u128 {
        if bits <= 64 {
            let max = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
            self.int(max) as u128
        } else {
            let hi_bits = bits - 64;
            let lo = self.int(u64::MAX) as u128;
            let hi = self.int(if hi_bits == 64 { u64::MAX } else { (1u64 << hi_bits) - 1 }) as u128;
            (hi << 64) | lo
        }
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.noting {
            let s = f();
            if self.loud {
                println!("  {}", s);
            }
            self.notes.push(s);
        }
    }
}

// ------------------------------------------------------------------------------------------------------- panics

thread_local! {
    static CATCHING: Cell<u32> = Cell::new(0);
    static LAST: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "<non-string panic>".to_string());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if CATCHING.with(|c| c.get()) == 0 {
            eprintln!("panic outside of a case: {} at {}", msg, loc);
        }
        LAST.with(|l| *l.borrow_mut() = Some((msg, loc)));
    }));
}

#[derive(Debug, Clone)]
pub struct Panicked {
    pub msg: String,
    pub loc: String,
}

/// Runs `f`, turning a panic into a value
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| {
        let (msg, loc) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
        Panicked { msg, loc }
    })
}

#[derive(Debug, Clone)]
pub enum Outcome {
    Pass,
    Discard(&'static str),
    Fail(String),
    /// A panic raised by the harness itself: an error of the check, never a violation
    HarnessError(String),
}

pub type PropFn = fn(&mut Src) -> R;

/// How the panics of a user-defined type begin which the crate has misused
pub const MISUSE: &str = "misuse of the user's storage: ";

pub fn run_case(f: PropFn, src: &mut Src) -> Outcome {
    match catch(|| f(src)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Stop::Fail(m))) => Outcome::Fail(m),
        Ok(Err(Stop::Discard(d))) => Outcome::Discard(d),
        Err(p) => {
            if p.msg.starts_with(MISUSE) {
                Outcome::Fail(p.msg)
            } else if p.loc.starts_with("src/") || p.loc.contains("/verif/") {
                Outcome::HarnessError(format!("{} at {}", p.msg, p.loc))
            } else {
                Outcome::Fail(format!("unexpected panic: {} at {}", p.msg, p.loc))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------------- runner

pub struct Failure {
    pub choices: Vec<u64>,
    pub small: bool,
    pub message: String,
    pub notes: Vec<String>,
    pub original_len: usize,
    pub shrink_steps: usize,
    /// where in the run it was met
    pub place: Option<(usize, u64)>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub enumerated: u64,
    pub enum_complete: bool,
    pub discards: BTreeMap<&'static str, u64>,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    /// non-trivial enumerated cases: distinct by construction
    pub distinct_enumerated: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Vec<String>>,
    pub harness_error: Option<String>,
    /// the longest a case took, against the limit after which it counts as hanging
    pub slowest_ms: u64,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.slowest_ms = self.slowest_ms.max(o.slowest_ms);
        self.evaluations += o.evaluations;
        self.enumerated += o.enumerated;
        self.nontrivial += o.nontrivial;
        self.distinct_enumerated += o.distinct_enumerated;
        for (k, v) in o.discards {
            *self.discards.entry(k).or_default() += v;
        }
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        if self.distinct.is_empty() {
            self.distinct = o.distinct;
        } else {
            self.distinct.extend(o.distinct);
        }
        if self.samples.len() < 8 {
            self.samples.extend(o.samples.into_iter().take(2));
        }
        if self.harness_error.is_none() {
            self.harness_error = o.harness_error;
        }
    }
}

pub struct Config {
    pub seed: u64,
    pub prop: &'static str,
    pub cases: u64,
    pub shards: usize,
    pub threads: usize,
    pub enum_limit: u64,
    /// where to write the current case of each shard before running it (crash diagnosis)
    pub trace_dir: Option<String>,
    /// limit for one case, 0: none
    pub hang_ms: u64,
    /// no new cases after this time, 0: no limit
    pub budget_ms: u64,
    pub distinct_cap: usize,
    /// only this shard, and of it these cases
    pub only: Option<(usize, u64, u64)>,
}

fn fingerprint(rec: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for v in rec {
        h ^= *v;
        h = h.wrapping_mul(0x100_0000_01b3);
        h ^= h >> 29;
    }
    h
}

struct Tracer(Option<std::fs::File>);
impl Tracer {
    fn new(dir: &Option<String>, name: &str) -> Self {
        Tracer(dir.as_ref().map(|d| std::fs::File::create(format!("{}/{}", d, name)).unwrap()))
    }
    fn write(&mut self, s: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.0 {
            let mut line = s.to_string();
            while line.len() < 64 {
                line.push(' ');
            }
            line.push('\n');
            let _ = f.write_all_at(line.as_bytes(), 0);
            let _ = f.set_len(line.len() as u64);
        }
    }
}

pub fn account(st: &mut Stats, src: &Src, out: &Outcome, cap: usize, enumerating: bool) {
    st.evaluations += 1;
    for l in &src.labels {
        *st.labels.entry(l).or_default() += 1;
    }
    if let Outcome::Discard(d) = out {
        *st.discards.entry(d).or_default() += 1;
    } else if src.nontrivial {
        st.nontrivial += 1;
        if enumerating {
            st.distinct_enumerated += 1;
        } else if st.distinct.len() < cap {
            st.distinct.insert(fingerprint(&src.rec));
        }
    }
    if let Outcome::HarnessError(e) = out {
        st.harness_error.get_or_insert_with(|| e.clone());
    }
}

fn case_seed(cfg: &Config, shard: usize, case: u64) -> u64 {
    let mut r = Rng::new(cfg.seed ^ fnv(cfg.prop.as_bytes()));
    let a = r.next() ^ (shard as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    let mut r = Rng::new(a);
    r.next().wrapping_add(case.wrapping_mul(0xA24B_AED4_963E_E407))
}

/// Prints the choices of a random case, from its coordinates
pub fn print_choices(cfg: &Config, f: PropFn, shard: usize, case: u64) {
    let mut src = Src::random(Rng::new(case_seed(cfg, shard, case)));
    src.stream = true;
    let _ = run_case(f, &mut src);
}

/// Ends the process when one case runs for too long, and the run when its time is over
struct Watch {
    /// per thread: number of cases it has begun, 0 if it is idle
    cases: Vec<AtomicU64>,
    over: AtomicUsize,
    done: AtomicUsize,
    /// the interpreter has no second thread to watch the clock
    until: Option<std::time::Instant>,
}
impl Watch {
    fn enter(&self, t: usize, n: &mut u64) {
        *n += 1;
        self.cases[t].store(*n, AO::Relaxed);
    }
    fn leave(&self, t: usize) {
        self.cases[t].store(0, AO::Relaxed);
    }
    fn over(&self) -> bool {
        self.over.load(AO::Relaxed) != 0 || cfg!(miri) && self.until.map_or(false, |u| std::time::Instant::now() > u)
    }
    fn guard(&self, limit_ms: u64, budget_ms: u64) {
        let start = std::time::Instant::now();
        let mut last: Vec<(u64, std::time::Instant)> = self.cases.iter().map(|_| (0, start)).collect();
        while self.done.load(AO::Relaxed) == 0 {
            std::thread::sleep(std::time::Duration::from_millis(50));
            if budget_ms > 0 && start.elapsed().as_millis() as u64 > budget_ms {
                self.over.store(1, AO::Relaxed);
            }
            for (c, (seen, since)) in self.cases.iter().zip(last.iter_mut()) {
                let c = c.load(AO::Relaxed);
                if c != *seen {
                    *seen = c;
                    *since = std::time::Instant::now();
                } else if limit_ms > 0 && c > 0 && since.elapsed().as_millis() as u64 > limit_ms {
                    eprintln!("HANG: a case runs for more than {} ms", limit_ms);
                    std::process::exit(4);
                }
            }
        }
    }
}

pub fn run(cfg: &Config, f: PropFn) -> (Stats, Option<Failure>) {
    let mut total = Stats { enum_complete: true, ..Default::default() };
    let found: Mutex<Vec<(usize, u64, Vec<u64>, bool, String)>> = Mutex::new(Vec::new());
    let merged: Mutex<Vec<(usize, Stats, bool)>> = Mutex::new(Vec::new());

    // Work units 0..shards: random shards. Work units shards..: bounded-exhaustive enumeration per value of the first choice.
    let first_max = if cfg.enum_limit > 0 {
        let mut src = Src::replay(&[]).set_small(true);
        src.track = true;
        let _ = run_case(f, &mut src);
        src.bounds.first().copied().unwrap_or(0) as usize + 1
    } else {
        0
    };
    let units = cfg.shards + first_max;
    let next = AtomicUsize::new(0);
    let per_shard = (cfg.cases + cfg.shards as u64 - 1) / cfg.shards.max(1) as u64;
    let watch = Watch {
        cases: (0..cfg.threads.max(1)).map(|_| AtomicU64::new(0)).collect(),
        over: AtomicUsize::new(0),
        until: Some(cfg.budget_ms).filter(|b| *b > 0).map(|b| std::time::Instant::now() + std::time::Duration::from_millis(b)),
        done: AtomicUsize::new(0),
    };
    let working = AtomicUsize::new(cfg.threads.max(1));
    std::thread::scope(|sc| {
        if !cfg!(miri) && (cfg.hang_ms > 0 || cfg.budget_ms > 0) {
            sc.spawn(|| watch.guard(cfg.hang_ms, cfg.budget_ms));
        }
        for thread in 0..cfg.threads.max(1) {
            let (watch, working, next, merged, found) = (&watch, &working, &next, &merged, &found);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                let mut begun = 0;
                loop {
                    // enumeration units first: they are the longest ones
                    let u0 = next.fetch_add(1, AO::Relaxed);
                    if u0 >= units {
                        break;
                    }
                    let u = units - 1 - u0;
                    let mut st = Stats::default();
                    let mut complete = true;
                    let mut tr = Tracer::new(&cfg.trace_dir, &format!("unit{}", u));
                    if cfg.only.map_or(false, |o| o.0 != u) {
                        continue;
                    }
                    if u < cfg.shards {
                        let (first, last) = cfg.only.map_or((0, per_shard), |o| (o.1, o.2 + 1));
                        for case in first..last {
                            if watch.over() {
                                break;
                            }
                            if tr.0.is_some() {
                                tr.write(&format!("random {} {}", u, case));
                            }
                            let mut src = Src::random(Rng::new(case_seed(cfg, u, case)));
                            src.noting = case < 2;
                            watch.enter(thread, &mut begun);
                            let since = std::time::Instant::now();
                            let out = run_case(f, &mut src);
                            st.slowest_ms = st.slowest_ms.max(since.elapsed().as_millis() as u64);
                            account(&mut st, &src, &out, cfg.distinct_cap / cfg.shards, false);
                            if src.noting && src.nontrivial && st.samples.len() < 2 {
                                st.samples.push(std::mem::take(&mut src.notes));
                            }
                            if let Outcome::Fail(m) = out {
                                found.lock().unwrap().push((u, case, src.rec.clone(), false, m));
                                break;
                            }
                            if let Outcome::HarnessError(_) = out {
                                break;
                            }
                        }
                    } else {
                        let first = (u - cfg.shards) as u64;
                        let mut cur: Vec<u64> = vec![first];
                        let mut n = 0;
                        loop {
                            if n >= cfg.enum_limit || watch.over() {
                                complete = false;
                                break;
                            }
                            if tr.0.is_some() {
                                let s = cur.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",");
                                tr.write(&format!("enum {}", s));
                            }
                            let mut src = Src::replay(&cur).set_small(true);
                            src.track = true;
                            watch.enter(thread, &mut begun);
                            let since = std::time::Instant::now();
                            let out = run_case(f, &mut src);
                            st.slowest_ms = st.slowest_ms.max(since.elapsed().as_millis() as u64);
                            account(&mut st, &src, &out, 0, true);
                            st.enumerated += 1;
                            n += 1;
                            if let Outcome::Fail(m) = out {
                                found.lock().unwrap().push((u, n, src.rec.clone(), true, m));
                                break;
                            }
                            if let Outcome::HarnessError(_) = out {
                                break;
                            }
                            // next leaf of the choice tree
                            let rec = &src.rec;
                            let mut i = rec.len();
                            let mut done = true;
                            while i > 1 {
                                i -= 1;
                                if rec[i] < src.bounds[i] {
                                    cur.clear();
                                    cur.extend_from_slice(&rec[..i]);
                                    cur.push(rec[i] + 1);
                                    done = false;
                                    break;
                                }
                            }
                            if done {
                                break;
                            }
                        }
                    }
                    merged.lock().unwrap().push((u, st, complete));
                }
                watch.leave(thread);
                if working.fetch_sub(1, AO::Relaxed) == 1 {
                    watch.done.store(1, AO::Relaxed);
                }
                })
                .unwrap();
        }
    });
    let mut parts = merged.into_inner().unwrap();
    parts.sort_by_key(|p| p.0);
    for (_, st, c) in parts {
        total.merge(st);
        total.enum_complete &= c;
    }
    let mut found = found.into_inner().unwrap();
    found.sort_by_key(|x| (x.0, x.1));
    let failure = found.into_iter().next().map(|(u, case, rec, small, msg)| Failure { place: Some((u, case)), ..shrink_failure(cfg.prop, f, rec, small, msg) });
    (total, failure)
}

/// How often a case has to be tried: the schedule of its threads is not part of it
pub fn tries(prop: &str) -> usize {
    if prop == "C24" && !cfg!(miri) {
        40
    } else {
        1
    }
}

pub fn shrink_failure(prop: &str, f: PropFn, rec: Vec<u64>, small: bool, msg: String) -> Failure {
    let original_len = rec.len();
    let tries = tries(prop);
    let mut best_msg = msg;
    let mut budget = 6000usize;
    let mut steps = 0usize;
    let began = std::time::Instant::now();
    let best = shrink(rec, &mut |cand| {
        if budget == 0 || began.elapsed().as_secs() >= 25 {
            return None;
        }
        budget -= 1;
        for _ in 0..tries {
            let mut src = Src::replay(cand).set_small(small);
            if let Outcome::Fail(m) = run_case(f, &mut src) {
                best_msg = m;
                steps += 1;
                return Some(src.rec);
            }
        }
        None
    });
    let fin = best.clone();
    let mut src = Src::replay(&fin).set_small(small);
    src.noting = true;
    if let Outcome::Fail(m) = run_case(f, &mut src) {
        best_msg = m;
    }
    Failure { choices: best, small, message: best_msg, notes: src.notes, original_len, shrink_steps: steps, place: None }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    // shortlex
    a.len() < b.len() || (a.len() == b.len() && a < b)
}

/// Generic choice-sequence shrinker. `test` returns the (normalised) choices actually consumed if the candidate still fails.
pub fn shrink(start: Vec<u64>, test: &mut dyn FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut attempt = |best: &mut Vec<u64>, cand: Vec<u64>| -> bool {
        if !simpler(&cand, best) {
            return false;
        }
        if let Some(norm) = test(&cand) {
            *best = if simpler(&norm, &cand) { norm } else { cand };
            return true;
        }
        false
    };
    loop {
        let before = best.clone();
        // 1. truncate the tail
        let mut k = best.len() / 2;
        while k > 0 {
            loop {
                if best.len() < k {
                    break;
                }
                let cand = best[..best.len() - k].to_vec();
                if !attempt(&mut best, cand) {
                    break;
                }
            }
            k /= 2;
        }
        // 2. delete chunks
        for size in [16usize, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i >= size {
                let mut c = best.clone();
                if i > c.len() {
                    i = c.len();
                    continue;
                }
                c.drain(i - size..i);
                if !attempt(&mut best, c) {
                    // also: delete the chunk and decrement an earlier length-like choice
                    if i > size {
                        let mut c = best.clone();
                        let j = i - size - 1;
                        if c[j] > 0 && i <= c.len() {
                            c[j] -= 1;
                            c.drain(i - size..i);
                            attempt(&mut best, c);
                        }
                    }
                }
                i -= 1;
            }
        }
        // 3. zero chunks
        for size in [8usize, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() {
                if best[i..i + size].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..i + size].iter_mut().for_each(|v| *v = 0);
                    attempt(&mut best, c);
                }
                i += size;
            }
        }
        // 4. minimise single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(&mut best, c) {
                    if i >= best.len() {
                        break;
                    }
                    hi = best[i].min(mid);
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(&mut best, c);
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// Runs a property for its side effects only
pub fn run_quiet(f: PropFn, src: &mut Src) {
    let _ = catch(|| f(src));
}
