//! Task runner and verdict bookkeeping.
//!
//! A monitor binary builds a list of named tasks and calls [`run`].  Every
//! task gets its own PRNG, derived from (VERIF_SEED, task name), and records
//! what it observed in a [`Task`]; the merged observations are written as one
//! JSON document, which the driver script turns into a verdict.
use rand_core::{Error, RngCore};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

// ---------------------------------------------------------------- randomness

/// xoshiro256** seeded through splitmix64: small, fast, and reproducible.
#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut z = seed;
        let mut next = || {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            let mut x = z;
            x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
            x ^ (x >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn named(seed: u64, name: &str) -> Self {
        Rng::new(seed ^ fnv(name.as_bytes()))
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n.
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill_bytes(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

impl RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&b[..n]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Fast 64-bit hasher for fingerprints of inputs.
#[derive(Default)]
pub struct Fp(u64);
impl Hasher for Fp {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 32)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b));
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0 ^ i).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(29);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub fn fingerprint<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fp::default();
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------- configuration

#[derive(Clone)]
pub struct Conf {
    pub seed: u64,
    pub thorough: bool,
    /// Work multiplier; 1.0 is one quick run of an optimised build.
    pub scale: f64,
    pub out: String,
    pub only: Option<String>,
    pub threads: usize,
    pub config: String,
    /// integer literals found in the sources under test (input dictionary)
    pub dict: Vec<num_bigint::BigUint>,
    /// print the record of this case (see C02)
    pub dump: Option<u64>,
}

impl Conf {
    pub fn from_args() -> Conf {
        let mut c = Conf {
            seed: 1,
            thorough: false,
            scale: 1.0,
            out: String::new(),
            only: None,
            threads: 8,
            config: "default".into(),
            dict: vec![],
            dump: None,
        };
        let mut it = std::env::args().skip(1);
        while let Some(a) = it.next() {
            let mut v = || it.next().expect("missing argument value");
            match a.as_str() {
                "--seed" => c.seed = v().parse().expect("seed"),
                "--tier" => c.thorough = v() == "thorough",
                "--scale" => c.scale = v().parse().expect("scale"),
                "--out" => c.out = v(),
                "--only" => c.only = Some(v()),
                "--threads" => c.threads = v().parse().expect("threads"),
                "--dump" => c.dump = Some(v().parse().expect("dump")),
                "--config" => c.config = v(),
                "--dict" => {
                    if let Ok(s) = std::fs::read_to_string(v()) {
                        let word = |l: &str| num_bigint::BigUint::parse_bytes(l.trim().trim_start_matches('+').as_bytes(), 16);
                        c.dict = s.lines().filter_map(word).collect();
                        let _ = FRESH.set(s.lines().filter(|l| l.starts_with('+')).filter_map(word).collect());
                    }
                }
                x => panic!("unknown argument {x}"),
            }
        }
        c
    }
    /// Number of cases for a quick run, scaled.
    pub fn n(&self, quick: usize) -> usize {
        ((quick as f64 * self.scale) as usize).max(1)
    }
    /// Small dictionary entries as sizes / indices.
    pub fn dict_usize(&self, max: usize) -> Vec<usize> {
        use num_traits::ToPrimitive;
        let mut v: Vec<usize> = self
            .dict
            .iter()
            .filter_map(|d| d.to_usize())
            .filter(|d| *d <= max)
            .collect();
        v.sort();
        v.dedup();
        v
    }
}

static FRESH: std::sync::OnceLock<Vec<num_bigint::BigUint>> = std::sync::OnceLock::new();
/// Dictionary words that the sources contain more often than at the commit the
/// harness was written for: preferred as inputs.
pub fn fresh() -> &'static [num_bigint::BigUint] {
    FRESH.get().map(|v| &v[..]).unwrap_or(&[])
}
/// A size suggested by a fresh word, if there is one.
pub fn fresh_size(r: &mut Rng, max: usize) -> Option<usize> {
    use num_traits::ToPrimitive;
    static SMALL: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    let v = SMALL.get_or_init(|| fresh().iter().filter_map(|d| d.to_usize()).filter(|d| *d < 1 << 24).collect());
    if v.is_empty() || !r.one_in(3) {
        return None;
    }
    let w = *r.pick(v);
    let x = match r.below(8) {
        0 => w,
        1 => w.saturating_sub(1),
        2 => w + 1,
        3 => 2 * w + r.below(2),
        4 => w + r.below(16),
        5 if w < 24 => (1usize << w) + r.below(3),
        6 => w / 2 + 1,
        _ => w * r.range(1, 5) + r.below(w.max(1)),
    };
    Some(x).filter(|x| *x <= max)
}

// ------------------------------------------------------------------- verdicts

#[derive(Clone)]
pub struct Violation {
    pub sig: String,
    pub detail: String,
    pub task: String,
    pub case: u64,
}

const DISTINCT_CAP: usize = 150_000;
const PER_SIG: u64 = 3;

pub struct Task {
    pub name: String,
    pub rng: Rng,
    pub conf: Arc<Conf>,
    pub evals: u64,
    distinct: HashSet<u64>,
    distinct_overflow: u64,
    pub classes: BTreeMap<String, u64>,
    /// results to be compared across builds: operation, digest
    pub digests: Vec<u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    sig_count: BTreeMap<String, u64>,
    inconclusive: Vec<String>,
    slot: Arc<Slot>,
    case: u64,
}

struct Slot {
    tid: AtomicUsize,
    ticks: AtomicU64,
    task: Mutex<String>,
    done: AtomicBool,
}

thread_local! {
    static CUR_OP: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static CUR_TASK: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static CUR_CASE: Cell<u64> = const { Cell::new(0) };
    static REPORTED: Cell<u64> = const { Cell::new(0) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

impl Task {
    fn new(name: &str, conf: Arc<Conf>) -> Task {
        Task {
            name: name.to_string(),
            rng: Rng::named(conf.seed, name),
            conf,
            evals: 0,
            distinct: HashSet::new(),
            distinct_overflow: 0,
            classes: BTreeMap::new(),
            digests: vec![],
            samples: vec![],
            violations: vec![],
            sig_count: BTreeMap::new(),
            inconclusive: vec![],
            slot: Arc::new(Slot {
                tid: AtomicUsize::new(0),
                ticks: AtomicU64::new(0),
                task: Mutex::new(name.to_string()),
                done: AtomicBool::new(false),
            }),
            case: 0,
        }
    }
    pub fn n(&self, quick: usize) -> usize {
        self.conf.n(quick)
    }
    /// Start of one case: crash and hang reports name the last one started.
    #[inline]
    pub fn begin(&mut self, op: &'static str) {
        self.case += 1;
        self.slot.ticks.fetch_add(1, Ordering::Relaxed);
        CUR_OP.with(|c| c.set((op.as_ptr() as usize, op.len())));
        CUR_CASE.with(|c| c.set(self.case));
    }
    /// One evaluated input, with its fingerprint and whether it is non-trivial.
    #[inline]
    pub fn seen<T: Hash + ?Sized>(&mut self, input: &T, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            if self.distinct.len() < DISTINCT_CAP {
                self.distinct.insert(fingerprint(input));
            } else {
                self.distinct_overflow += 1;
            }
        }
    }
    pub fn class(&mut self, c: &str) {
        self.class_n(c, 1)
    }
    pub fn class_n(&mut self, c: &str, n: u64) {
        if let Some(x) = self.classes.get_mut(c) {
            *x += n;
        } else {
            self.classes.insert(c.to_string(), n);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 600 {
                s.truncate(600);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    /// Records a violation under a stable signature.
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl FnOnce() -> String) {
        let sig = sig.into();
        let n = self.sig_count.entry(sig.clone()).or_insert(0);
        *n += 1;
        if *n <= PER_SIG {
            let mut detail = detail();
            if detail.len() > 4000 {
                detail.truncate(4000);
            }
            self.violations.push(Violation {
                sig,
                detail,
                task: self.name.clone(),
                case: self.case,
            });
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let s = format!("{}/{}", self.name, sig);
            self.fail(s, detail);
        }
        ok
    }
    /// Runs code under test; a panic is a violation of the property at hand.
    #[inline]
    pub fn guard<R>(&mut self, sig: &'static str, detail: impl FnOnce() -> String, f: impl FnOnce() -> R) -> Option<R> {
        self.begin(sig);
        match quiet(f) {
            Ok(r) => Some(r),
            Err(p) => {
                let s = format!("{}/{}/panic", self.name, sig);
                self.fail(s, || format!("panicked: {p}; input: {}", detail()));
                None
            }
        }
    }
    pub fn inconclusive(&mut self, why: String) {
        if self.inconclusive.len() < 20 {
            self.inconclusive.push(format!("{}: {}", self.name, why));
        }
    }
}

/// Runs f, turning a panic into Err(message), without printing it.
/// How many panics of this thread reached the hook that this program installed.
pub fn panics_reported() -> u64 {
    REPORTED.with(|c| c.get())
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| {
        let m = panic_msg(&*e);
        let l = LAST_PANIC.with(|l| l.borrow().clone());
        format!("{m} {l}")
    })
}

/// A result of the library that must exist: its absence is the library's fault.
pub fn cut<T>(o: impl Into<Option<T>>, what: &str) -> T {
    match o.into() {
        Some(x) => x,
        None => panic!("CUT: {what}"),
    }
}

pub fn panic_msg(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string panic)".into()
    }
}

// -------------------------------------------------------------- crash reports

extern "C" fn on_signal(sig: i32) {
    // async-signal-safe only: write(2) of fixed pieces, then the default action
    unsafe fn w(b: &[u8]) {
        libc::write(2, b.as_ptr() as *const _, b.len());
    }
    unsafe {
        w(b"\nMONITOR-CRASH signal=");
        let d = [b'0' + (sig / 10) as u8, b'0' + (sig % 10) as u8];
        w(&d);
        w(b" task=");
        let (p, l) = CUR_TASK.with(|c| c.get());
        if p != 0 {
            w(std::slice::from_raw_parts(p as *const u8, l));
        }
        w(b" op=");
        let (p, l) = CUR_OP.with(|c| c.get());
        if p != 0 {
            w(std::slice::from_raw_parts(p as *const u8, l));
        }
        w(b" case=");
        let mut n = CUR_CASE.with(|c| c.get());
        let mut buf = [b'0'; 20];
        let mut i = 20;
        loop {
            i -= 1;
            buf[i] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        w(&buf[i..]);
        w(b"\n");
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

fn install_crash_reports() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_sigaction = on_signal as usize;
            sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigemptyset(&mut sa.sa_mask);
            libc::sigaction(s, &sa, std::ptr::null_mut());
        }
    }
}

fn process_cpu_ticks() -> u64 {
    let Ok(s) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(i) = s.rfind(')') else { return 0 };
    let f: Vec<&str> = s[i + 2..].split(' ').collect();
    let g = |k: usize| f.get(k).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    g(11) + g(12)
}

fn thread_cpu_ticks(tid: usize) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

// --------------------------------------------------------------------- runner

pub type Job = (String, Box<dyn FnOnce(&mut Task) + Send>);

pub fn job(name: impl Into<String>, f: impl FnOnce(&mut Task) + Send + 'static) -> Job {
    (name.into(), Box::new(f))
}

/// CPU seconds a single case may use before it counts as not terminating.
/// Every case here normally takes well under a second.
const CASE_CPU_LIMIT_S: u64 = 150;

pub fn run(conf: Conf, jobs: Vec<Job>) -> ! {
    let start = Instant::now();
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc);
        REPORTED.with(|c| c.set(c.get() + 1));
        if !QUIET.with(|q| q.get()) {
            eprintln!("{info}");
        }
    }));
    install_crash_reports();
    let conf = Arc::new(conf);
    let jobs: Vec<Job> = jobs
        .into_iter()
        .filter(|(n, _)| conf.only.as_ref().map_or(true, |o| n.contains(o.as_str())))
        .collect();
    let njobs = jobs.len();
    let queue = Arc::new(Mutex::new(jobs.into_iter().collect::<std::collections::VecDeque<_>>()));
    let results = Arc::new(Mutex::new(Vec::<Task>::new()));
    let slots = Arc::new(Mutex::new(Vec::<Arc<Slot>>::new()));
    let harness_errors = Arc::new(Mutex::new(Vec::<String>::new()));
    let all_done = Arc::new(AtomicBool::new(false));

    // watchdog: a case that burns CPU without ever finishing
    {
        let (slots, all_done, conf, results) = (slots.clone(), all_done.clone(), conf.clone(), results.clone());
        std::thread::spawn(move || {
            let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
            // per task thread: (case, thread CPU, process CPU, polls) when the case was first seen
            let mut last: std::collections::HashMap<usize, (u64, u64, u64, u64)> = Default::default();
            // process CPU, and polls since then in which it hardly grew
            let mut idle = (0, 0);
            while !all_done.load(Ordering::Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let v = slots.lock().unwrap().clone();
                let proc = process_cpu_ticks();
                idle = if proc - idle.0 < hz { (idle.0, idle.1 + 1) } else { (proc, 0) };
                for s in v.iter().filter(|s| !s.done.load(Ordering::Relaxed)) {
                    let tid = s.tid.load(Ordering::Relaxed);
                    let (Some(cpu), ticks) = (thread_cpu_ticks(tid), s.ticks.load(Ordering::Relaxed)) else { continue };
                    let e = last.entry(tid).or_insert((ticks, cpu, proc, 0));
                    if e.0 != ticks || ticks == 0 {
                        *e = (ticks, cpu, proc, 0);
                        continue;
                    }
                    e.3 += 1;
                    // burns CPU itself; or has its pool burn it; or nothing runs at all
                    let why = if cpu - e.1 > CASE_CPU_LIMIT_S * hz {
                        format!("still running after {CASE_CPU_LIMIT_S} s of CPU time")
                    } else if e.3 > 900 && proc - e.2 > 440 * hz {
                        "still waiting for its worker threads after 450 s".to_string()
                    } else if e.3 > 200 && idle.1 > 200 {
                        "blocked: no thread of the process has made progress for 100 s".to_string()
                    } else {
                        continue;
                    };
                    let name = s.task.lock().unwrap().clone();
                    let mut t = Task::new(&name, conf.clone());
                    t.case = ticks;
                    t.fail(format!("{name}/no-termination"), || format!("case {ticks} of task {name}: {why}"));
                    let mut r = results.lock().unwrap();
                    r.push(t);
                    write_report(&conf, &r, &[], start.elapsed().as_secs_f64(), njobs);
                    std::process::exit(0);
                }
            }
        });
    }

    let mut handles = vec![];
    for _ in 0..conf.threads.max(1).min(njobs.max(1)) {
        let (queue, results, conf, slots, herr) =
            (queue.clone(), results.clone(), conf.clone(), slots.clone(), harness_errors.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || loop {
                    let Some((name, f)) = queue.lock().unwrap().pop_front() else { break };
                    let leaked: &'static str = Box::leak(name.clone().into_boxed_str());
                    CUR_TASK.with(|c| c.set((leaked.as_ptr() as usize, leaked.len())));
                    let mut t = Task::new(&name, conf.clone());
                    t.slot
                        .tid
                        .store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, Ordering::Relaxed);
                    slots.lock().unwrap().push(t.slot.clone());
                    let t0 = Instant::now();
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut t)));
                    t.slot.done.store(true, Ordering::Relaxed);
                    if std::env::var_os("MONITOR_TIMES").is_some() {
                        eprintln!("{:8.2}s {} evals={}", t0.elapsed().as_secs_f64(), name, t.evals);
                    }
                    if let Err(e) = r {
                        // a panic that escaped a guard: the library's own
                        // (or raised for it by `cut`), or a harness mistake
                        let m = panic_msg(&*e);
                        let loc = LAST_PANIC.with(|l| l.borrow().clone());
                        if m.starts_with("CUT:") || !loc.contains("at src/") {
                            t.fail(format!("{name}/panic"), || format!("library panicked: {m} {loc}"));
                        } else {
                            herr.lock().unwrap().push(format!("task {name}: harness panic: {m} {loc}"));
                        }
                    }
                    results.lock().unwrap().push(t);
                })
                .unwrap(),
        );
    }
    for h in handles {
        h.join().unwrap();
    }
    all_done.store(true, Ordering::Relaxed);
    let r = results.lock().unwrap();
    let he = harness_errors.lock().unwrap();
    write_report(&conf, &r, &he, start.elapsed().as_secs_f64(), njobs);
    let bad = r.iter().map(|t| t.violations.len()).sum::<usize>();
    println!(
        "monitor: config={} tasks={} evaluations={} violations={} harness_errors={} wall={:.1}s",
        conf.config,
        r.len(),
        r.iter().map(|t| t.evals).sum::<u64>(),
        bad,
        he.len(),
        start.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

fn write_report(conf: &Conf, tasks: &[Task], herr: &[String], wall: f64, njobs: usize) {
    use serde_json::{json, Value};
    let mut tj = vec![];
    let mut viol = vec![];
    let mut samples = vec![];
    let mut sigs: BTreeMap<String, u64> = BTreeMap::new();
    let mut inc = vec![];
    for t in tasks {
        tj.push(json!({
            "task": t.name, "evaluations": t.evals,
            "distinct_nontrivial": t.distinct.len(),
            "fingerprints_not_stored": t.distinct_overflow,
            "classes": t.classes,
        }));
        for v in &t.violations {
            viol.push(json!({"sig": v.sig, "detail": v.detail, "task": v.task, "case": v.case}));
        }
        for (k, n) in &t.sig_count {
            *sigs.entry(k.clone()).or_insert(0) += n;
        }
        for s in &t.samples {
            samples.push(Value::String(format!("{}: {}", t.name, s)));
        }
        inc.extend(t.inconclusive.iter().cloned());
    }
    let j = json!({
        "config": conf.config, "seed": conf.seed, "tasks_planned": njobs, "tasks": tj,
        "violations": viol, "violation_counts": sigs, "samples": samples,
        "inconclusive": inc, "harness_errors": herr, "wall_s": wall,
    });
    if !conf.out.is_empty() {
        let tmp = format!("{}.tmp", conf.out);
        std::fs::write(&tmp, serde_json::to_string(&j).unwrap()).expect("report");
        std::fs::rename(&tmp, &conf.out).expect("report");
        // task name, count, digests; little endian
        let mut d = vec![];
        for t in tasks.iter().filter(|t| !t.digests.is_empty()) {
            d.extend_from_slice(&(t.name.len() as u64).to_le_bytes());
            d.extend_from_slice(t.name.as_bytes());
            d.extend_from_slice(&(t.digests.len() as u64).to_le_bytes());
            t.digests.iter().for_each(|x| d.extend_from_slice(&x.to_le_bytes()));
        }
        if !d.is_empty() {
            std::fs::write(format!("{}.digests", conf.out), d).expect("digests");
        }
    } else {
        for v in j["violations"].as_array().unwrap() {
            println!("VIOL {} :: {}", v["sig"], v["detail"]);
        }
        for v in herr {
            println!("HERR {v}");
        }
    }
}
