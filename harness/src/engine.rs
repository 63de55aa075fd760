//! A small property based testing engine.
//!
//! Every case is a pure function of a sequence of choices (`Src`). A case is generated by drawing
//! choices from a PRNG derived from (VERIF_SEED, property, case index); it is replayed by feeding
//! the recorded choices back, and shrunk by simplifying the recorded choice sequence (deleting
//! spans, zeroing spans, lowering values) while the property still fails. Since all values are
//! generated through `Src`, every shrunk candidate is a valid case by construction.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

#[derive(Clone, Debug)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
            splitmix(&mut s),
        ])
    }
    // xoshiro256**
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let result = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        result
    }
}

/// The source of all generated data: a sequence of bounded choices
pub struct Src {
    replay: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub log: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            replay: vec![],
            pos: 0,
            rng: Some(Rng::new(seed)),
            log: vec![],
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            replay: choices,
            pos: 0,
            rng: None,
            log: vec![],
        }
    }
    /// uniform choice in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.replay.len() {
            let v = self.replay[self.pos];
            if v >= n {
                v % n
            } else {
                v
            }
        } else if let Some(rng) = &mut self.rng {
            ((rng.next() as u128 * n as u128) >> 64) as u64
        } else {
            0
        };
        self.pos += 1;
        self.log.push(v);
        v
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.u64_any();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den. Simplest is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// index into weights. Put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// should a list with about `avg` elements get another element? Simplest is no.
    pub fn more(&mut self, avg: u64) -> bool {
        self.below(avg + 1) > 0
    }
    /// skewed towards small numbers, 0..=max
    pub fn small(&mut self, max: u64) -> u64 {
        if max == 0 {
            return 0;
        }
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        if b == 0 {
            return 0;
        }
        let hi = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
        let lo = 1u64 << (b - 1);
        self.range(lo.min(max), hi.min(max))
    }
    /// any u64, with interesting values
    pub fn u64_any(&mut self) -> u64 {
        match self.weighted(&[4, 2, 1, 1]) {
            0 => self.below(64),
            1 => self.below(u32::MAX as u64),
            2 => *self.pick(&[
                u64::MAX,
                u64::MAX - 1,
                i64::MAX as u64,
                1 << 32,
                (1 << 32) - 1,
                1 << 63,
                255,
                256,
                65535,
                65536,
                23,
                24,
            ]),
            _ => self.below(u64::MAX),
        }
    }
    /// incompressible bytes from a single choice (so that big payloads do not blow up the log)
    pub fn blob(&mut self, len: usize) -> Vec<u8> {
        let mut s = self.below(u32::MAX as u64);
        let mut out = Vec::with_capacity(len + 8);
        while out.len() < len {
            out.extend_from_slice(&splitmix(&mut s).to_le_bytes());
        }
        out.truncate(len);
        out
    }
    pub fn key32(&mut self) -> [u8; 32] {
        let mut s = self.below(u32::MAX as u64);
        let mut out = [0u8; 32];
        for c in out.chunks_mut(8) {
            c.copy_from_slice(&splitmix(&mut s).to_le_bytes());
        }
        out
    }
    /// deterministic derived generator for bulk data that need not be shrunk element by element
    pub fn derived(&mut self) -> Rng {
        Rng::new(self.below(u32::MAX as u64))
    }
}

/// What a case reports besides its verdict
#[derive(Default)]
pub struct Obs {
    pub labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub trace_on: bool,
    pub trace: Vec<String>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let mut s = f();
            if std::env::var_os("VERIF_NOTES").is_some() {
                eprintln!("note {}", s);
            }
            if s.len() > 600 {
                let mut i = 600;
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                s.truncate(i);
                s.push('…');
            }
            if self.trace.len() < 400 {
                self.trace.push(s);
            }
        }
    }
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}

impl Fail {
    pub fn new(kind: &str, msg: impl Into<String>) -> Self {
        Fail {
            kind: kind.into(),
            msg: msg.into(),
        }
    }
}

pub type R<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! fail {
    ($kind:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($kind, format!($($arg)*))) };
}
#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::engine::Fail::new($kind, format!($($arg)*))) } };
}
#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $kind:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            let mut d = format!("left {:?} right {:?}", a, b);
            if d.len() > 2000 { let mut i = 2000; while !d.is_char_boundary(i) { i -= 1; } d.truncate(i); }
            return Err($crate::engine::Fail::new($kind, format!("{}: {}", format!($($arg)*), d)))
        }
    }};
}

/// unwrap results that must be Ok
pub trait MustOk<T> {
    fn must(self, what: &str) -> R<T>;
}
impl<T, E: std::fmt::Display> MustOk<T> for Result<T, E> {
    fn must(self, what: &str) -> R<T> {
        self.map_err(|e| Fail::new(&format!("error:{}", what), format!("{} failed: {}", what, e)))
    }
}

pub type CaseFn = fn(&mut Src, &mut Obs) -> R;
pub struct Regress {
    pub name: &'static str,
    pub f: fn() -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    /// worker threads; 0 means all cores
    pub threads: usize,
    pub regress: &'static [Regress],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
}

thread_local!(static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None));
/// panics on threads that are not workers of ours (e.g. pools used by the code under test)
pub static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let name = std::thread::current().name().unwrap_or("").to_string();
        if name.starts_with("vh-") || name == "main" {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(text));
        } else {
            FOREIGN_PANICS.lock().unwrap().push(text);
        }
    }));
}

/// run a closure, turning panics into failures
pub fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let text = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            let loc = text.rsplit(" at ").next().unwrap_or("").to_string();
            // strip line numbers from the kind so that shrinking is not confused by them
            let file = loc.split(':').next().unwrap_or("").to_string();
            Err(Fail::new(
                &format!("panic:{}", file),
                format!("panicked: {}", text),
            ))
        }
    }
}

/// like guard, but for code where the panic itself is an allowed outcome
pub fn catches<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn case_seed(seed: u64, id: &str, index: u64) -> u64 {
    let mut s = seed ^ fnv(id.as_bytes()).rotate_left(17) ^ index.wrapping_mul(0xD1342543DE82EF95);
    splitmix(&mut s)
}

fn run_src(p: &Prop, mut src: Src, trace: bool) -> (R, Src, Obs) {
    let mut obs = Obs {
        trace_on: trace || std::env::var_os("VERIF_NOTES").is_some(),
        ..Default::default()
    };
    let r = guard(|| (p.run)(&mut src, &mut obs));
    (r, src, obs)
}

fn hash_log(log: &[u64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    log.hash(&mut h);
    h.finish()
}

/// seconds for shrinking a failure
fn shrink_secs() -> u64 {
    std::env::var("VERIF_SHRINK").ok().and_then(|x| x.parse().ok()).unwrap_or(60)
}

/// simplify a failing choice sequence. Returns the simplest failing sequence and its failure
pub fn shrink(p: &Prop, start: Vec<u64>, first: Fail, budget: u64, secs: u64) -> (Vec<u64>, Fail, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut fail = first;
    let mut runs = 0u64;
    let kind = fail.kind.clone();
    let try_it = |cand: Vec<u64>, best: &mut Vec<u64>, fail: &mut Fail, runs: &mut u64| -> bool {
        if *runs >= budget || t0.elapsed() > Duration::from_secs(secs) {
            return false;
        }
        *runs += 1;
        let (r, src, _) = run_src(p, Src::replay(cand), false);
        if let Err(f) = r {
            if f.kind == kind {
                let log = src.log;
                // strictly simpler: shorter, or same length and lexicographically smaller
                if log.len() < best.len() || (log.len() == best.len() && log < *best) {
                    *best = log;
                    *fail = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete spans
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut cand = best[..i].to_vec();
                cand.extend_from_slice(&best[end..]);
                if !try_it(cand, &mut best, &mut fail, &mut runs) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero spans
        for size in [16usize, 4, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    for x in &mut cand[i..end] {
                        *x = 0;
                    }
                    try_it(cand, &mut best, &mut fail, &mut runs);
                }
                i += size;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                let mid = lo + (best[i] - lo) / 2;
                let mut cand = best.clone();
                cand[i] = mid;
                if !try_it(cand, &mut best, &mut fail, &mut runs) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || runs >= budget || t0.elapsed() > Duration::from_secs(secs) {
            break;
        }
    }
    (best, fail, runs)
}

/// global allocator that remembers the largest allocation of each thread
pub struct Alloc;

thread_local!(static LARGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) });

thread_local!(static LIVE: std::cell::Cell<isize> = const { std::cell::Cell::new(0) });

/// bytes allocated minus bytes freed by this thread
pub fn live_bytes() -> isize {
    LIVE.with(|x| x.get())
}

fn live(n: isize) {
    let _ = LIVE.try_with(|x| x.set(x.get().wrapping_add(n)));
}

fn note_alloc(n: usize) {
    if n > 1 << 20 {
        let _ = LARGEST.try_with(|x| x.set(x.get().max(n)));
    }
}

/// largest allocation of this thread since the last call
pub fn largest_alloc() -> usize {
    LARGEST.with(|x| x.replace(0))
}

unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        live(l.size() as isize);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        live(-(l.size() as isize));
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        note_alloc(l.size());
        live(l.size() as isize);
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note_alloc(n);
        live(n as isize - l.size() as isize);
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub root: PathBuf,
    pub cases: Option<u64>,
    pub start: u64,
    pub progress: Option<PathBuf>,
}

struct Shared {
    next: AtomicU64,
    stop: AtomicBool,
    done: AtomicU64,
    failures: Mutex<Vec<(u64, Vec<u64>, Fail)>>,
    labels: Mutex<BTreeMap<&'static str, (u64, u64)>>,
    distinct: Mutex<HashSet<u64>>,
    nontrivial: AtomicU64,
    samples: Mutex<Vec<(u64, Vec<u64>)>>,
    choices: AtomicU64,
}

fn known_findings(root: &Path, id: &str) -> Vec<(String, String)> {
    // lines: known: property=<id> id=<regression name> <what fails>
    let mut res = vec![];
    if let Ok(text) = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")) {
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("known: property=") {
                let mut it = rest.splitn(3, ' ');
                let (pid, name, what) = (
                    it.next().unwrap_or(""),
                    it.next().unwrap_or(""),
                    it.next().unwrap_or(""),
                );
                if pid == id {
                    res.push((
                        name.strip_prefix("id=").unwrap_or(name).to_string(),
                        what.to_string(),
                    ));
                }
            }
        }
    }
    res
}

pub fn write_replay(
    root: &Path,
    p: &Prop,
    seed: u64,
    index: Option<u64>,
    name: &str,
    choices: &[u64],
    fail: &Fail,
    trace: &[String],
) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, seed, name));
    let v = json!({
        "property": p.id,
        "seed": seed,
        "case": index,
        "regression": if index.is_none() { Value::from(name) } else { Value::Null },
        "kind": fail.kind,
        "failure": fail.msg,
        "choices": choices,
        "decoded": trace,
        "replay_cmd": format!("bash /verif/run.sh replay {}", path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

/// a case takes some milliseconds, a few at most seconds
pub const HANG: Duration = Duration::from_secs(120);

fn hang(id: &str, file: &Option<PathBuf>, what: &str) -> ! {
    eprintln!("{} {} did not finish within {} s", id, what, HANG.as_secs());
    if let Some(f) = file {
        let _ = std::fs::write(f, what);
    }
    std::process::exit(3);
}

/// run the check. Returns the process exit code
pub fn check(p: &'static Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let cases = o.cases.unwrap_or(if o.tier == "thorough" {
        p.thorough
    } else {
        p.quick
    });
    let threads = if p.threads == 0 {
        std::thread::available_parallelism()
            .map(|x| x.get())
            .unwrap_or(8)
            .min(16)
    } else {
        p.threads
    };
    let mut violations: Vec<(PathBuf, Fail)> = vec![];
    let mut regress_run = 0u64;
    let in_regress: Arc<Mutex<Option<(&'static str, Instant)>>> = Arc::new(Mutex::new(None));
    let hang_file = o.progress.as_ref().map(|x| x.with_extension("hang"));
    {
        let (in_regress, hang_file) = (in_regress.clone(), hang_file.clone());
        let id = p.id;
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Some((name, t)) = *in_regress.lock().unwrap() {
                if t.elapsed() > HANG {
                    hang(id, &hang_file, &format!("regression {}", name));
                }
            }
        });
    }
    // deterministic regressions / known findings first
    let known = known_findings(&o.root, p.id);
    for r in p.regress {
        regress_run += 1;
        let name = r.name;
        let f = r.f;
        *in_regress.lock().unwrap() = Some((name, Instant::now()));
        let h = std::thread::Builder::new()
            .name("vh-regress".into())
            .stack_size(256 << 20)
            .spawn(move || guard(f))
            .unwrap();
        let res = h.join().unwrap_or_else(|_| Err(Fail::new("panic", "regression thread")));
        *in_regress.lock().unwrap() = None;
        match res {
            Ok(()) => {}
            Err(fail) => {
                if let Some((_, what)) = known.iter().find(|(n, _)| n == name) {
                    println!("KNOWN-FINDING: property={} {} [{}]", p.id, what, fail.msg);
                } else {
                    let path = write_replay(&o.root, p, o.seed, None, name, &[], &fail, &[]);
                    violations.push((path, fail));
                }
            }
        }
    }
    let shared = Arc::new(Shared {
        next: AtomicU64::new(o.start),
        stop: AtomicBool::new(!violations.is_empty()),
        done: AtomicU64::new(0),
        failures: Default::default(),
        labels: Default::default(),
        distinct: Default::default(),
        nontrivial: Default::default(),
        samples: Default::default(),
        choices: Default::default(),
    });
    let starts: Arc<Vec<AtomicU64>> = Arc::new((0..threads).map(|_| AtomicU64::new(0)).collect());
    let current: Arc<Vec<AtomicU64>> =
        Arc::new((0..threads).map(|_| AtomicU64::new(u64::MAX)).collect());
    let finished = Arc::new(AtomicBool::new(false));
    // watchdog: a hang is confirmed by the supervising process
    {
        let (starts, current, finished) = (starts.clone(), current.clone(), finished.clone());
        let (id, shared, root, seed) = (p.id, shared.clone(), o.root.clone(), o.seed);
        std::thread::Builder::new()
            .name("vh-watchdog".into())
            .spawn(move || {
                while !finished.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(500));
                    for (s, c) in starts.iter().zip(current.iter()) {
                        let s = s.load(Ordering::SeqCst);
                        let idx = c.load(Ordering::SeqCst);
                        let now = t0.elapsed().as_millis() as u64;
                        if idx != u64::MAX && now.saturating_sub(s) > HANG.as_millis() as u64 {
                            if let Some((i, log, fail)) = shared.failures.lock().unwrap().first() {
                                // another case fails
                                let path = write_replay(&root, p, seed, Some(*i), &format!("{}", i), log, fail, &[]);
                                println!("failure kind={} {}", fail.kind, fail.msg);
                                println!("VIOLATION property={} replay={}", id, path.display());
                                std::process::exit(1);
                            }
                            hang(id, &hang_file, &format!("case {}", idx));
                        }
                    }
                }
            })
            .unwrap();
    }
    let progress = o.progress.as_ref().map(|path| {
        let f = std::fs::File::create(path).expect("progress file");
        f.set_len(8 * threads as u64).unwrap();
        Arc::new(f)
    });
    std::thread::scope(|scope| {
        for t in 0..threads {
            let (shared, starts, current, progress) = (
                shared.clone(),
                starts.clone(),
                current.clone(),
                progress.clone(),
            );
            let seed = o.seed;
            let end = o.start + cases;
            std::thread::Builder::new()
                .name(format!("vh-{}", t))
                .stack_size(256 << 20)
                .spawn_scoped(scope, move || {
                    let mut labels: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
                    let mut distinct = Vec::new();
                    loop {
                        if shared.stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let i = shared.next.fetch_add(1, Ordering::SeqCst);
                        if i >= end {
                            break;
                        }
                        starts[t].store(t0.elapsed().as_millis() as u64, Ordering::SeqCst);
                        current[t].store(i, Ordering::SeqCst);
                        if let Some(f) = &progress {
                            use std::os::unix::fs::FileExt;
                            let _ = f.write_at(&(i + 1).to_le_bytes(), 8 * t as u64);
                        }
                        let (r, src, obs) =
                            run_src(p, Src::random(case_seed(seed, p.id, i)), false);
                        current[t].store(u64::MAX, Ordering::SeqCst);
                        shared.done.fetch_add(1, Ordering::SeqCst);
                        shared
                            .choices
                            .fetch_add(src.log.len() as u64, Ordering::Relaxed);
                        for (l, n) in obs.labels {
                            let e = labels.entry(l).or_insert((0, 0));
                            e.0 += 1;
                            e.1 += n;
                        }
                        if obs.nontrivial {
                            shared.nontrivial.fetch_add(1, Ordering::Relaxed);
                            distinct.push(hash_log(&src.log));
                            if i < o_sample_limit() {
                                let mut s = shared.samples.lock().unwrap();
                                s.push((i, src.log.clone()));
                            }
                        }
                        if let Err(fail) = r {
                            shared.stop.store(true, Ordering::SeqCst);
                            shared.failures.lock().unwrap().push((i, src.log, fail));
                        }
                    }
                    if let Some(f) = &progress {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                    }
                    let mut l = shared.labels.lock().unwrap();
                    for (k, (a, b)) in labels {
                        let e = l.entry(k).or_insert((0, 0));
                        e.0 += a;
                        e.1 += b;
                    }
                    shared.distinct.lock().unwrap().extend(distinct);
                })
                .unwrap();
        }
    });
    let mut failures = std::mem::take(&mut *shared.failures.lock().unwrap());
    failures.sort_by_key(|x| x.0);
    let mut shrink_runs = 0;
    if let Some((i, log, fail)) = failures.into_iter().next() {
        // shrink on a big stack as well; a candidate that hangs ends the shrinking
        let (tx, rx) = std::sync::mpsc::channel();
        let (log2, fail2) = (log.clone(), fail.clone());
        std::thread::Builder::new()
            .name("vh-shrink".into())
            .stack_size(256 << 20)
            .spawn(move || {
                let (min, minfail, runs) = shrink(p, log2, fail2, 3000, shrink_secs());
                let (_, _, obs) = run_src(p, Src::replay(min.clone()), true);
                let _ = tx.send((min, minfail, runs, obs.trace));
            })
            .unwrap();
        let (min, minfail, runs, trace) = rx
            .recv_timeout(Duration::from_secs(150))
            .unwrap_or_else(|_| (log, fail, 0, vec!["shrinking did not end".into()]));
        shrink_runs = runs;
        let path = write_replay(
            &o.root,
            p,
            o.seed,
            Some(i),
            &format!("{}", i),
            &min,
            &minfail,
            &trace,
        );
        violations.push((path, minfail));
    }
    finished.store(true, Ordering::SeqCst);
    // samples: rerun the first few non-trivial cases with tracing on
    let mut samples = std::mem::take(&mut *shared.samples.lock().unwrap());
    samples.sort_by_key(|x| x.0);
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .name("vh-sample".into())
        .stack_size(256 << 20)
        .spawn(move || {
            for (i, log) in samples.into_iter().take(3) {
                let n = log.len();
                let (_, _, obs) = run_src(p, Src::replay(log), true);
                let mut trace = obs.trace;
                trace.truncate(40);
                let _ = tx.send(json!({"case": i, "choices": n, "decoded": trace}));
            }
        })
        .unwrap();
    // where something is broken, a rerun need not end
    let limit = Duration::from_secs(if violations.is_empty() { 60 } else { 10 });
    let mut samples: Vec<Value> = vec![];
    while let Ok(v) = rx.recv_timeout(limit) {
        samples.push(v);
    }
    let labels: BTreeMap<_, _> = shared
        .labels
        .lock()
        .unwrap()
        .iter()
        .map(|(k, (a, b))| (k.to_string(), json!({"cases": a, "total": b})))
        .collect();
    let evaluations = shared.done.load(Ordering::SeqCst);
    let distinct = shared.distinct.lock().unwrap().len();
    let ev = json!({
        "property": p.id,
        "tier": o.tier,
        "seed": o.seed,
        "level": p.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "classification": labels,
            "choices_drawn": shared.choices.load(Ordering::SeqCst),
            "regressions_run": regress_run,
            "shrink_runs": shrink_runs,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = o.root.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", p.id)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("write evidence");
    println!(
        "{} {}: {} cases ({} distinct non-trivial), {} regressions, {:.1}s, {} violations",
        p.id,
        o.tier,
        evaluations,
        distinct,
        regress_run,
        t0.elapsed().as_secs_f64(),
        violations.len()
    );
    for (path, fail) in &violations {
        println!("failure kind={} {}", fail.kind, fail.msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    let _ = std::io::stdout().flush();
    if violations.is_empty() {
        0
    } else {
        1
    }
}

fn o_sample_limit() -> u64 {
    200
}

pub fn replay_choices(p: &Prop, choices: Vec<u64>) -> i32 {
    let (r, _, obs) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .name("vh-replay".into())
            .stack_size(256 << 20)
            .spawn_scoped(s, || run_src(p, Src::replay(choices), true))
            .unwrap()
            .join()
            .unwrap()
    });
    for t in obs.trace {
        println!("  {}", t);
    }
    match r {
        Ok(()) => {
            println!("replay: property {} holds", p.id);
            0
        }
        Err(f) => {
            println!("replay: property {} FAILS kind={} {}", p.id, f.kind, f.msg);
            1
        }
    }
}

/// ends the process if it does not end by itself in time
fn end_hang() {
    std::thread::spawn(|| {
        std::thread::sleep(HANG);
        println!("does not finish within {} s", HANG.as_secs());
        std::process::exit(3);
    });
}

pub fn regress(p: &'static Prop, name: &str) -> i32 {
    end_hang();
    let r = p.regress.iter().find(|r| r.name == name).expect("regression");
    let f = r.f;
    match std::thread::Builder::new()
        .stack_size(256 << 20)
        .name("vh-regress".into())
        .spawn(move || guard(f))
        .expect("spawn")
        .join()
    {
        Ok(Ok(())) => {
            println!("regression {} passes", name);
            0
        }
        Ok(Err(f)) => {
            println!("regression {} FAILS kind={} {}", name, f.kind, f.msg);
            1
        }
        Err(_) => 1,
    }
}

/// run a single case by index, without catching crashes of the process
pub fn single(p: &Prop, seed: u64, index: u64) -> i32 {
    end_hang();
    let (r, src, _) = std::thread::scope(|s| {
        std::thread::Builder::new()
            .name("vh-single".into())
            .stack_size(256 << 20)
            .spawn_scoped(s, || {
                run_src(p, Src::random(case_seed(seed, p.id, index)), false)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    println!("choices {}", src.log.len());
    match r {
        Ok(()) => 0,
        Err(f) => {
            println!("case fails: {} {}", f.kind, f.msg);
            1
        }
    }
}
