//! Small property-based testing engine (choice-tape style, in the manner of Hypothesis).
//!
//! Every random decision of a case is one bounded integer drawn through [`Gen`] and recorded on a
//! tape. A case is a pure function of (code under test, tape): a failing tape is shrunk by
//! deleting and lowering its choices, and the shrunk tape is the replay file.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

mod json;
pub use json::Json;

/// splitmix64, used for seeding and for bulk data derived from one drawn choice.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }

    pub fn fill(&mut self, buf: &mut [u8]) {
        for chunk in buf.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&v[..n]);
        }
    }
}

/// How a case can end.
pub enum Stop {
    /// The property is broken.
    Fail(String),
    /// The generated case is outside of the domain.
    Discard,
}

impl From<String> for Stop {
    fn from(message: String) -> Self {
        Stop::Fail(message)
    }
}

pub type CaseResult = Result<(), Stop>;

pub fn fail<T>(message: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(message.into()))
}

pub fn discard<T>() -> Result<T, Stop> {
    Err(Stop::Discard)
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)+) => {
        if !($cond) {
            return Err($crate::Stop::Fail(format!($($arg)+)));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($got:expr, $want:expr, $($arg:tt)+) => {{
        let got = &$got;
        let want = &$want;
        if got != want {
            return Err($crate::Stop::Fail(format!(
                "{}: got {} expected {}",
                format!($($arg)+), $crate::short(got), $crate::short(want)
            )));
        }
    }};
}

/// Debug representation limited in size.
pub fn short<T: std::fmt::Debug + ?Sized>(value: &T) -> String {
    let s = format!("{:?}", value);
    if s.chars().count() > 600 {
        let head: String = s.chars().take(600).collect();
        format!("{}... ({} characters)", head, s.chars().count())
    } else {
        s
    }
}

pub fn hex(data: &[u8]) -> String {
    let mut s = String::new();
    for b in data.iter().take(256) {
        let _ = write!(s, "{:02x}", b);
    }
    if data.len() > 256 {
        let _ = write!(s, "...({} bytes)", data.len());
    }
    s
}

/// Source of choices.
pub struct Gen {
    rng: Option<Rng>,
    replay: Vec<u64>,
    position: usize,
    pub tape: Vec<u64>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub notes: Vec<String>,
    pub want_notes: bool,
    pub tier_thorough: bool,
}

impl Gen {
    pub fn random(seed: u64) -> Self {
        Self::make(Some(Rng(seed)), Vec::new())
    }

    pub fn replay(tape: Vec<u64>) -> Self {
        Self::make(None, tape)
    }

    fn make(rng: Option<Rng>, replay: Vec<u64>) -> Self {
        Self {
            rng,
            replay,
            position: 0,
            tape: Vec::new(),
            classes: Vec::new(),
            nontrivial: false,
            notes: Vec::new(),
            want_notes: false,
            tier_thorough: false,
        }
    }

    /// Draws an integer in 0..=max.
    pub fn below_or(&mut self, max: u64) -> u64 {
        let value = if self.position < self.replay.len() {
            let v = self.replay[self.position];
            if v > max {
                if max == u64::MAX { v } else { v % (max + 1) }
            } else {
                v
            }
        } else {
            match self.rng.as_mut() {
                Some(rng) => {
                    let v = rng.next();
                    if max == u64::MAX { v } else { v % (max + 1) }
                }
                None => 0,
            }
        };
        self.position += 1;
        self.tape.push(value);
        value
    }

    /// Integer in lo..=hi, shrinking to lo.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.below_or(hi - lo)
    }

    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }

    pub fn bool(&mut self) -> bool {
        self.below_or(1) == 1
    }

    /// True with probability n/d; shrinks to false.
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below_or(d - 1) >= d - n
    }

    pub fn u8(&mut self) -> u8 {
        self.below_or(255) as u8
    }

    pub fn u16(&mut self) -> u16 {
        self.below_or(0xffff) as u16
    }

    pub fn u32(&mut self) -> u32 {
        self.below_or(0xffff_ffff) as u32
    }

    pub fn u64(&mut self) -> u64 {
        self.below_or(u64::MAX)
    }

    /// Integer biased to boundary values of the given bit width.
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below_or(5) {
            0 => self.below_or(max.min(16)),
            1 => max - self.below_or(max.min(16)),
            2 => {
                let k = self.below_or(bits as u64 - 1);
                let base = 1u64 << k;
                match self.below_or(2) {
                    0 => base,
                    1 => base.wrapping_sub(1),
                    _ => base.wrapping_add(1) & max,
                }
            }
            _ => self.below_or(max),
        }
    }

    /// Length with a bias to small values, sometimes near multiples of `unit`.
    pub fn length(&mut self, max: usize, unit: usize) -> usize {
        let v = match self.below_or(7) {
            0 | 1 => self.usize(0, max.min(8)),
            2 | 3 => self.usize(0, max.min(4 * unit.max(1))),
            4 | 5 => {
                let k = self.usize(0, (max / unit.max(1)).min(64));
                let d = self.usize(0, 4) as i64 - 2;
                ((k * unit.max(1)) as i64 + d).max(0) as usize
            }
            _ => self.usize(0, max),
        };
        v.min(max)
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.usize(0, items.len() - 1);
        &items[i]
    }

    /// Weighted index.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below_or(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= *w;
        }
        unreachable!()
    }

    /// Bytes drawn one by one (small, fully shrinkable).
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        (0..len).map(|_| self.u8()).collect()
    }

    /// Bulk data: a few choices describe the whole block.
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        if len <= 12 {
            return self.bytes(len);
        }
        let mut data = vec![0u8; len];
        match self.below_or(7) {
            0 => {}
            1 => {
                let b = self.u8();
                data.iter_mut().for_each(|x| *x = b);
            }
            2 => {
                // Repeating pattern.
                let n = self.usize(1, 24);
                let pattern = self.bytes(n);
                for (i, x) in data.iter_mut().enumerate() {
                    *x = pattern[i % n];
                }
            }
            3 => {
                // Position dependent, every 4 byte word differs.
                let salt = self.u32();
                for (i, x) in data.iter_mut().enumerate() {
                    let v = ((i / 4) as u32).wrapping_mul(0x9e3779b1) ^ salt;
                    *x = v.to_le_bytes()[i % 4];
                }
            }
            4 => {
                // Small alphabet.
                let seed = self.u64();
                let n = self.range(2, 6);
                let mut rng = Rng(seed);
                for x in data.iter_mut() {
                    *x = b'a' + (rng.next() % n) as u8;
                }
            }
            5 => {
                // Runs.
                let seed = self.u64();
                let mut rng = Rng(seed);
                let mut i = 0;
                while i < len {
                    let n = 1 + (rng.next() % 40) as usize;
                    let b = rng.next() as u8;
                    for _ in 0..n {
                        if i < len {
                            data[i] = b;
                            i += 1;
                        }
                    }
                }
            }
            _ => {
                let seed = self.u64();
                Rng(seed).fill(&mut data);
            }
        }
        data
    }

    /// Marks the class of the case.
    pub fn class(&mut self, label: &'static str) {
        if !self.classes.contains(&label) {
            self.classes.push(label);
        }
    }

    pub fn class_if(&mut self, condition: bool, label: &'static str) {
        if condition {
            self.class(label);
        }
    }

    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }

    /// Describes the case for the evidence and for failure reports.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_notes && self.notes.len() < 24 {
            let s = f();
            let s = if s.chars().count() > 1500 {
                let mut t: String = s.chars().take(1500).collect();
                t.push_str("...");
                t
            } else {
                s
            };
            self.notes.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Gen) -> CaseResult;

#[derive(Clone, Copy)]
pub enum Work {
    /// Number of random cases: (quick, thorough).
    Random(u64, u64),
    /// Enumerates 0..n as the first choice.
    Exhaustive(u64),
    /// As Exhaustive, in the thorough tier only; quick draws this many of them.
    ExhaustiveThorough(u64, u64),
}

/// One facet of a property.
#[derive(Clone, Copy)]
pub struct Facet {
    pub name: &'static str,
    pub work: Work,
    pub case: CaseFn,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub facets: &'static [Facet],
}

thread_local! {
    static PANIC_MESSAGE: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Where this program prints; what the code under test prints goes nowhere.
static OUTPUT: std::sync::OnceLock<Mutex<std::fs::File>> = std::sync::OnceLock::new();

macro_rules! say {
    ($($arg:tt)*) => {{
        use std::io::Write as _;
        let mut file = OUTPUT.get().expect("no output").lock().unwrap();
        let _ = file.write_all((format!($($arg)*) + "\n").as_bytes());
    }};
}

unsafe extern "C" {
    fn dup2(from: i32, to: i32) -> i32;
}

fn keep_output() {
    use std::os::fd::{AsFd, AsRawFd};
    let stdout = std::io::stdout().as_fd().try_clone_to_owned().expect("no standard output");
    let _ = OUTPUT.set(Mutex::new(stdout.into()));
    if let Ok(nowhere) = std::fs::OpenOptions::new().write(true).open("/dev/null") {
        unsafe { dup2(nowhere.as_raw_fd(), 1) };
    }
}

fn install_hook() {
    let default = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let location = match info.location() {
            Some(l) => {
                let file = l.file();
                let file = file.rsplit("keramics-").next().map(|f| if f.len() < file.len() { format!("keramics-{}", f) } else { f.to_string() }).unwrap_or_default();
                format!("{}:{}", file, l.line())
            }
            None => "unknown".to_string(),
        };
        let message = payload_string(info.payload());
        PANIC_MESSAGE.with(|m| *m.borrow_mut() = Some(format!("panic at {}: {}", location, message)));
        if !quiet {
            default(info);
        }
    }));
}

fn payload_string(payload: &(dyn Any + Send)) -> String {
    if let Some(s) = payload.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = payload.downcast_ref::<String>() {
        s.clone()
    } else {
        "unknown payload".to_string()
    }
}

/// Runs a closure and turns a panic of the code under test into Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = before);
    match r {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MESSAGE
            .with(|m| m.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

/// Runs one case; None is success, Some(message) failure.
pub enum Outcome {
    Pass,
    Discard,
    Fail(String),
}

pub fn run_case(f: CaseFn, g: &mut Gen) -> Outcome {
    match no_panic(|| f(g)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(Stop::Discard)) => Outcome::Discard,
        Ok(Err(Stop::Fail(m))) => Outcome::Fail(m),
        Err(m) => Outcome::Fail(m),
    }
}

fn hash_tape(tape: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for v in tape {
        h ^= *v;
        h = h.wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}

fn facet_seed(seed: u64, id: &str, name: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9e3779b97f4a7c15);
    for b in id.bytes().chain([b'/']).chain(name.bytes()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn case_gen(work: &Work, thorough: bool, fseed: u64, index: u64) -> Gen {
    match work {
        Work::Exhaustive(_) => Gen::replay(vec![index]),
        Work::ExhaustiveThorough(n, _) => {
            if thorough {
                Gen::replay(vec![index])
            } else {
                let mut r = Rng(fseed ^ index.wrapping_mul(0xd1342543de82ef95));
                Gen::replay(vec![r.next() % n])
            }
        }
        Work::Random(_, _) => {
            let mut r = Rng(fseed ^ index.wrapping_mul(0xd1342543de82ef95));
            let s = r.next();
            Gen::random(s)
        }
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    discards: u64,
    nontrivial: HashSet<u64>,
    nontrivial_extra: u64,
    classes: BTreeMap<&'static str, u64>,
}

/// How long a case may take before it is reported as stalled.
const STALL_SECONDS: u64 = 60;

static ATTEMPTS: AtomicU64 = AtomicU64::new(0);

/// Shrinks on a thread with a large stack; ends the process when a candidate does not end.
fn shrink_watched(f: CaseFn, tape: Vec<u64>, message: String, budget: usize) -> (Vec<u64>, String, usize) {
    std::thread::scope(|scope| {
        let worker = std::thread::Builder::new()
            .stack_size(32 << 20)
            .spawn_scoped(scope, || shrink(f, tape, message, budget))
            .unwrap();
        let (mut last, mut since) = (u64::MAX, Instant::now());
        while !worker.is_finished() {
            std::thread::sleep(std::time::Duration::from_millis(5));
            let now = ATTEMPTS.load(Ordering::Relaxed);
            if now != last {
                (last, since) = (now, Instant::now());
            } else if since.elapsed().as_secs() >= 20 {
                say!("STALLED while shrinking");
                std::process::exit(97);
            }
        }
        worker.join().unwrap()
    })
}

/// Shrinks a failing tape. Returns the smallest tape found and its message.
pub fn shrink(f: CaseFn, tape: Vec<u64>, message: String, budget: usize) -> (Vec<u64>, String, usize) {
    let mut best = tape;
    let mut best_message = message;
    let mut runs = 0usize;
    let start = Instant::now();

    fn attempt(
        f: CaseFn,
        candidate: &[u64],
        runs: &mut usize,
    ) -> Option<(Vec<u64>, String)> {
        *runs += 1;
        ATTEMPTS.fetch_add(1, Ordering::Relaxed);
        let mut g = Gen::replay(candidate.to_vec());
        match run_case(f, &mut g) {
            Outcome::Fail(m) => {
                let mut t = g.tape;
                while t.last() == Some(&0) {
                    t.pop();
                }
                Some((t, m))
            }
            _ => None,
        }
    }
    fn simpler(a: &[u64], b: &[u64]) -> bool {
        if a.len() != b.len() {
            return a.len() < b.len();
        }
        a < b
    }
    let mut improved = true;
    while improved && runs < budget && start.elapsed().as_secs() < 60 {
        improved = false;

        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len().saturating_sub(size);
            loop {
                if runs >= budget || start.elapsed().as_secs() >= 60 {
                    break;
                }
                if i + size <= best.len() {
                    let mut c = best.clone();
                    c.drain(i..i + size);
                    if let Some((t, m)) = attempt(f, &c, &mut runs) {
                        if simpler(&t, &best) {
                            best = t;
                            best_message = m;
                            improved = true;
                        }
                    }
                    // Also delete and decrement a preceding count.
                    if i > 0 && i + size <= best.len() && best[i - 1] > 0 {
                        let mut c = best.clone();
                        c.drain(i..i + size);
                        c[i - 1] -= 1;
                        if let Some((t, m)) = attempt(f, &c, &mut runs) {
                            if simpler(&t, &best) {
                                best = t;
                                best_message = m;
                                improved = true;
                            }
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() && runs < budget && start.elapsed().as_secs() < 60 {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if let Some((t, m)) = attempt(f, &c, &mut runs) {
                    if simpler(&t, &best) {
                        best = t;
                        best_message = m;
                        improved = true;
                        i += 1;
                        continue;
                    }
                }
                // Binary search to the lowest failing value.
                let (mut lo, mut hi) = (0u64, best[i]);
                let mut guard = 0;
                while hi - lo > 1 && guard < 64 && runs < budget {
                    guard += 1;
                    let mid = lo + (hi - lo) / 2;
                    let mut c = best.clone();
                    if i >= c.len() {
                        break;
                    }
                    c[i] = mid;
                    match attempt(f, &c, &mut runs) {
                        Some((t, m)) if simpler(&t, &best) => {
                            best = t;
                            best_message = m;
                            improved = true;
                            hi = mid;
                        }
                        _ => lo = mid,
                    }
                    if i >= best.len() {
                        break;
                    }
                }
            }
            i += 1;
        }
    }
    (best, best_message, runs)
}

struct Failure {
    facet: &'static str,
    index: u64,
    tape: Vec<u64>,
    message: String,
}

fn num_threads() -> usize {
    std::env::var("PBT_THREADS")
        .ok()
        .and_then(|v| v.parse().ok())
        .unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8)
        })
        .max(1)
}

fn run_facet(
    property: &Property,
    facet: &Facet,
    thorough: bool,
    seed: u64,
    scale: f64,
    progress: Option<&Path>,
) -> (Stats, Option<Failure>, Vec<Json>) {
    let total = match facet.work {
        Work::Random(q, t) => {
            (((if thorough { t } else { q }) as f64) * scale).ceil().max(1.0) as u64
        }
        Work::Exhaustive(n) => n,
        Work::ExhaustiveThorough(n, q) => if thorough { n } else { q },
    };
    let fseed = facet_seed(seed, property.id, facet.name);
    let threads = num_threads().min(total.max(1) as usize);
    let best_failure = AtomicU64::new(u64::MAX);
    let failure: Mutex<Option<Failure>> = Mutex::new(None);
    let merged: Mutex<Stats> = Mutex::new(Stats::default());
    let counter = AtomicU64::new(0);
    const CHUNK: u64 = 16;
    let chunk = if total < 1024 { 1 } else { CHUNK };
    let slots: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);

    std::thread::scope(|scope| {
        // A case that does not end: report which, the driver re-runs it on its own.
        let (slots, done) = (&slots, &done);
        scope.spawn(move || {
            let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); threads];
            while done.load(Ordering::Relaxed) < threads as u64 {
                std::thread::sleep(std::time::Duration::from_millis(5));
                for (slot, (last, since)) in slots.iter().zip(seen.iter_mut()) {
                    let now = slot.load(Ordering::Relaxed);
                    if now != *last || now == 0 {
                        (*last, *since) = (now, Instant::now());
                    } else if since.elapsed().as_secs() >= STALL_SECONDS {
                        say!("STALLED facet={} case={}", facet.name, now - 1);
                        std::process::exit(98);
                    }
                }
            }
        });
        for thread_index in 0..threads {
            let (best_failure, failure, merged, counter) =
                (&best_failure, &failure, &merged, &counter);
            let builder = std::thread::Builder::new().stack_size(32 << 20);
            let progress_file = progress.map(|p| {
                std::fs::OpenOptions::new()
                    .create(true)
                    .write(true)
                    .truncate(true)
                    .open(p.join(format!("{}.{}", facet.name, thread_index)))
                    .unwrap()
            });
            builder
                .spawn_scoped(scope, move || {
                    use std::os::unix::fs::FileExt;
                    let mut stats = Stats::default();
                    'outer: loop {
                        let start = counter.fetch_add(chunk, Ordering::Relaxed);
                        if start >= total {
                            break;
                        }
                        for index in start..(start + chunk).min(total) {
                            if index > best_failure.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if let Some(file) = progress_file.as_ref() {
                                let _ = file.write_all_at(&(index + 1).to_le_bytes(), 0);
                            }
                            slots[thread_index].store(index + 1, Ordering::Relaxed);
                            let mut g = case_gen(&facet.work, thorough, fseed, index);
                            g.tier_thorough = thorough;
                            let outcome = run_case(facet.case, &mut g);
                            stats.evaluations += 1;
                            match outcome {
                                Outcome::Discard => {
                                    stats.discards += 1;
                                    continue;
                                }
                                Outcome::Pass => {
                                    if g.nontrivial {
                                        if stats.nontrivial.len() < 2_000_000 {
                                            stats.nontrivial.insert(hash_tape(&g.tape));
                                        } else {
                                            stats.nontrivial_extra += 1;
                                        }
                                    }
                                    for c in g.classes {
                                        *stats.classes.entry(c).or_insert(0) += 1;
                                    }
                                }
                                Outcome::Fail(message) => {
                                    let mut slot = failure.lock().unwrap();
                                    if index < best_failure.load(Ordering::Relaxed) {
                                        best_failure.store(index, Ordering::Relaxed);
                                        *slot = Some(Failure {
                                            facet: facet.name,
                                            index,
                                            tape: g.tape,
                                            message,
                                        });
                                    }
                                    break 'outer;
                                }
                            }
                        }
                    }
                    slots[thread_index].store(0, Ordering::Relaxed);
                    done.fetch_add(1, Ordering::Relaxed);
                    if let Some(file) = progress_file.as_ref() {
                        let _ = file.write_all_at(&0u64.to_le_bytes(), 0);
                    }
                    let mut m = merged.lock().unwrap();
                    m.evaluations += stats.evaluations;
                    m.discards += stats.discards;
                    m.nontrivial_extra += stats.nontrivial_extra;
                    m.nontrivial.extend(stats.nontrivial);
                    for (k, v) in stats.classes {
                        *m.classes.entry(k).or_insert(0) += v;
                    }
                })
                .unwrap();
        }
    });
    let stats = merged.into_inner().unwrap();
    let failure = failure.into_inner().unwrap();

    // Samples: re-run the first non-trivial cases with notes on.
    let mut samples = Vec::new();
    if failure.is_none() {
        for index in 0..total.min(200) {
            if samples.len() >= 2 {
                break;
            }
            let mut g = case_gen(&facet.work, thorough, fseed, index);
            g.tier_thorough = thorough;
            g.want_notes = true;
            if let Outcome::Pass = run_case(facet.case, &mut g) {
                if g.nontrivial {
                    samples.push(Json::Obj(vec![
                        ("facet".into(), Json::Str(facet.name.into())),
                        ("case".into(), Json::Num(index as f64)),
                        (
                            "choices".into(),
                            Json::Arr(g.tape.iter().take(24).map(|v| Json::Str(v.to_string())).collect()),
                        ),
                        (
                            "what".into(),
                            Json::Arr(g.notes.iter().map(|n| Json::Str(n.clone())).collect()),
                        ),
                    ]));
                }
            }
        }
    }
    (stats, failure, samples)
}

fn write_replay(
    dir: &Path,
    property: &Property,
    facet: &str,
    seed: u64,
    index: u64,
    tape: &[u64],
    message: &str,
    notes: &[String],
) -> PathBuf {
    let _ = std::fs::create_dir_all(dir);
    let path = dir.join(format!("{}-{}.json", property.id, facet));
    let value = Json::Obj(vec![
        ("property".into(), Json::Str(property.id.into())),
        ("facet".into(), Json::Str(facet.into())),
        ("seed".into(), Json::Num(seed as f64)),
        ("case".into(), Json::Num(index as f64)),
        ("message".into(), Json::Str(message.into())),
        ("notes".into(), Json::Arr(notes.iter().map(|n| Json::Str(n.clone())).collect())),
        ("tape".into(), Json::Arr(tape.iter().map(|v| Json::Str(v.to_string())).collect())),
    ]);
    std::fs::write(&path, value.to_string()).unwrap();
    path
}

/// Command line entry point of a harness.
///
/// run ID --tier T --seed N --evidence FILE --replays DIR [--progress DIR]
/// replay FILE
/// crashed ID --facet F --case N ... (re-run of one case)
pub fn main(properties: &[&Property]) -> ! {
    keep_output();
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let opt = |name: &str| -> Option<String> {
        args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
    };
    let find = |id: &str| -> &Property {
        match properties.iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {}", id);
                std::process::exit(2);
            }
        }
    };
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in properties {
                say!("{}", p.id);
            }
            std::process::exit(0);
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[1]).unwrap();
            let value = Json::parse(&text).expect("replay file");
            let property = find(value.get("property").and_then(|v| v.str()).unwrap());
            let name = value.get("facet").and_then(|v| v.str()).unwrap().to_string();
            let tape: Vec<u64> = value
                .get("tape")
                .and_then(|v| v.arr())
                .unwrap()
                .iter()
                .map(|v| v.str().unwrap().parse().unwrap())
                .collect();
            let facet = property.facets.iter().find(|f| f.name == name).expect("facet");
            let mut g = Gen::replay(tape);
            g.want_notes = true;
            let outcome = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || run_case(facet.case, &mut g))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            for n in g.notes.iter() {
                say!("note: {}", n);
            }
            match outcome {
                Outcome::Fail(m) => {
                    say!("FAIL {}: {}", name, m);
                    say!("VIOLATION property={} replay={}", property.id, args[1]);
                    std::process::exit(1);
                }
                _ => {
                    say!("PASS {}", name);
                    std::process::exit(0);
                }
            }
        }
        Some("one") => {
            // Re-runs one random case by its index, writes a replay first: used after a crash.
            let property = find(&args[1]);
            let name = opt("--facet").unwrap();
            let index: u64 = opt("--case").unwrap().parse().unwrap();
            let seed: u64 = opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
            let thorough = opt("--tier").as_deref() == Some("thorough");
            let facet = property.facets.iter().find(|f| f.name == name).expect("facet");
            let fseed = facet_seed(seed, property.id, facet.name);
            std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, || {
                        let mut g = case_gen(&facet.work, thorough, fseed, index);
                        g.tier_thorough = thorough;
                        if let Outcome::Fail(message) = run_case(facet.case, &mut g) {
                            say!("FAIL {}: {}", name, message);
                            std::process::exit(1);
                        }
                    })
                    .unwrap();
            });
            std::process::exit(0);
        }
        Some("run") => {}
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            std::process::exit(2);
        }
    }
    let property = find(&args[1]);
    let tier = opt("--tier").unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let seed: u64 = opt("--seed").and_then(|v| v.parse().ok()).unwrap_or(1);
    let scale: f64 = opt("--scale").and_then(|v| v.parse().ok()).unwrap_or(1.0);
    let only: Option<String> = opt("--only");
    let evidence = opt("--evidence");
    let replays = PathBuf::from(opt("--replays").unwrap_or_else(|| "replays".into()));
    let progress = opt("--progress").map(PathBuf::from);
    if let Some(p) = progress.as_ref() {
        let _ = std::fs::create_dir_all(p);
    }
    let start = Instant::now();
    let mut evaluations = 0u64;
    let mut distinct = 0u64;
    let mut samples: Vec<Json> = Vec::new();
    let mut facets_json: Vec<(String, Json)> = Vec::new();
    let mut violations = 0u64;
    let mut lines: Vec<String> = Vec::new();
    let mut all_exhaustive = true;

    for facet in property.facets {
        if let Some(o) = only.as_ref() {
            if o != facet.name {
                continue;
            }
        }
        let facet_start = Instant::now();
        let (stats, failure, facet_samples) =
            run_facet(property, facet, thorough, seed, scale, progress.as_deref());
        let n = stats.nontrivial.len() as u64 + stats.nontrivial_extra;
        evaluations += stats.evaluations;
        distinct += n;
        let exhaustive = match facet.work {
            Work::Exhaustive(_) => true,
            Work::ExhaustiveThorough(_, _) => thorough,
            _ => false,
        };
        all_exhaustive &= exhaustive;
        samples.extend(facet_samples);
        facets_json.push((
            facet.name.to_string(),
            Json::Obj(vec![
                ("evaluations".into(), Json::Num(stats.evaluations as f64)),
                ("discarded".into(), Json::Num(stats.discards as f64)),
                ("distinct_nontrivial".into(), Json::Num(n as f64)),
                ("exhaustive".into(), Json::Bool(exhaustive)),
                ("wall_s".into(), Json::Num((facet_start.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
                (
                    "classes".into(),
                    Json::Obj(stats.classes.iter().map(|(k, v)| (k.to_string(), Json::Num(*v as f64))).collect()),
                ),
            ]),
        ));
        if let Some(fl) = failure {
            violations += 1;
            // The unshrunk failure first: shrinking can crash or hang.
            write_replay(&replays, property, fl.facet, seed, fl.index, &fl.tape, &fl.message, &[]);
            let (tape, message, runs) = shrink_watched(facet.case, fl.tape, fl.message, 6000);
            let mut g = Gen::replay(tape.clone());
            g.want_notes = true;
            let _ = run_case(facet.case, &mut g);
            let path = write_replay(
                &replays, property, fl.facet, seed, fl.index, &tape, &message, &g.notes,
            );
            eprintln!(
                "{} {} case {} (shrunk in {} runs to {} choices): {}",
                property.id, fl.facet, fl.index, runs, tape.len(), message
            );
            for note in g.notes.iter() {
                eprintln!("  {}", note);
            }
            samples.push(Json::Obj(vec![
                ("facet".into(), Json::Str(fl.facet.into())),
                ("violation".into(), Json::Str(message)),
                ("replay".into(), Json::Str(path.display().to_string())),
            ]));
            lines.push(format!("VIOLATION property={} replay={}", property.id, path.display()));
        } else if stats.evaluations > 50 && stats.discards * 2 > stats.evaluations {
            eprintln!(
                "harness error: {} {} discards {} of {} cases",
                property.id, facet.name, stats.discards, stats.evaluations
            );
            std::process::exit(3);
        } else if n == 0 && scale >= 1.0 {
            eprintln!("harness error: {} {} has no non-trivial case", property.id, facet.name);
            std::process::exit(3);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    if let Some(path) = evidence {
        let value = Json::Obj(vec![
            ("property".into(), Json::Str(property.id.into())),
            ("tier".into(), Json::Str(if thorough { "thorough" } else { "quick" }.into())),
            ("seed".into(), Json::Num(seed as f64)),
            ("level".into(), Json::Str("exploration".into())),
            (
                "coverage".into(),
                Json::Obj(vec![
                    ("evaluations".into(), Json::Num(evaluations as f64)),
                    ("distinct_nontrivial".into(), Json::Num(distinct as f64)),
                    ("rule".into(), Json::Str(property.rule.into())),
                    ("exhaustive".into(), Json::Bool(all_exhaustive)),
                    ("facets".into(), Json::Obj(facets_json)),
                    ("samples".into(), Json::Arr(samples)),
                ]),
            ),
            (
                "assumptions".into(),
                Json::Arr(property.assumptions.iter().map(|a| Json::Str(a.to_string())).collect()),
            ),
            ("wall_s".into(), Json::Num((wall * 100.0).round() / 100.0)),
            ("violations".into(), Json::Num(violations as f64)),
        ]);
        if let Err(error) = std::fs::write(&path, value.to_string()) {
            eprintln!("unable to write {}: {}", path, error);
            std::process::exit(2);
        }
    }
    say!(
        "{} {} seed={}: {} cases, {} distinct non-trivial, {} violations, {:.1} s",
        property.id, tier, seed, evaluations, distinct, violations, wall
    );
    for line in lines.iter() {
        say!("{}", line);
    }
    std::process::exit(if violations > 0 { 1 } else { 0 });
}
