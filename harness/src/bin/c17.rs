//! C17: scripts under many schedules.  The record of a script in a pool of one
//! worker is the reference; the same script then runs in pools of other sizes,
//! nested in scopes, joins, parallel iterators and other pools, from several
//! threads at once, while the allocator yields and signals stop the workers at
//! random instructions for random times.  Values computed on first use are
//! raced for in fresh processes.
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{Field, PrimeField};
use halo2curves::group::{Curve, Group, GroupEncoding};
use halo2curves::CurveExt;
use rayon::prelude::*;
use rayon::{ThreadPool, ThreadPoolBuilder};
#[allow(dead_code)]
#[path = "../parts/script.rs"]
mod script;
use script::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::{Duration, Instant};

// ------------------------------------------- delays, and the traces they leave

/// What the allocations of one pool's workers looked like, in their order.
#[derive(Default)]
struct Trace {
    hash: AtomicU64,
    workers: AtomicU64,
    events: AtomicU64,
}

thread_local! {
    static TRACE: Cell<*const Trace> = const { Cell::new(std::ptr::null()) };
    static WORKER: Cell<u64> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static SPIN: Cell<u64> = const { Cell::new(0x1234567) };
}
static YIELDS: AtomicU64 = AtomicU64::new(0);
static STOPS: AtomicU64 = AtomicU64::new(0);
/// Goes up while anything happens.
static BEAT: AtomicU64 = AtomicU64::new(0);

struct Yielding;
fn event() {
    let _ = TRACE.try_with(|t| {
        let t = t.get();
        if t.is_null() {
            return;
        }
        let t = unsafe { &*t };
        BEAT.fetch_add(1, Ordering::Relaxed);
        let w = WORKER.with(|w| w.get());
        let _ = t.hash.fetch_update(Ordering::Relaxed, Ordering::Relaxed, |h| Some((h ^ (w + 1)).wrapping_mul(0x100000001b3)));
        t.workers.fetch_or(1 << (w & 63), Ordering::Relaxed);
        t.events.fetch_add(1, Ordering::Relaxed);
        let n = TICK.with(|c| {
            c.set(c.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
            c.get() >> 33
        });
        match n % 16 {
            0 => {
                YIELDS.fetch_add(1, Ordering::Relaxed);
                std::thread::yield_now()
            }
            1 => (0..n % 512).for_each(|_| std::hint::spin_loop()),
            _ => {}
        }
    });
}
unsafe impl GlobalAlloc for Yielding {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() >= 64 {
            event();
        }
        // memory is never zero by luck
        let p = System.alloc(l);
        if !p.is_null() && l.size() <= 1 << 16 {
            std::ptr::write_bytes(p, 0xa5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        event();
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Yielding = Yielding;

/// Stops the thread it arrives at for a while.
extern "C" fn on_stop(_: i32) {
    STOPS.fetch_add(1, Ordering::Relaxed);
    let x = SPIN.with(|s| {
        s.set(s.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407));
        s.get() >> 40
    });
    // mostly short, at times long enough for the others to overtake
    let n = match x % 8 {
        0 => 60_000,
        1 | 2 => 6_000,
        _ => x % 600,
    };
    for _ in 0..n {
        std::hint::spin_loop()
    }
}

static TIDS: Mutex<Vec<i32>> = Mutex::new(vec![]);
fn tid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

fn start_stopper(seed: u64) {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_stop as usize;
        sa.sa_flags = libc::SA_RESTART | libc::SA_ONSTACK;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGUSR1, &sa, std::ptr::null_mut());
    }
    std::thread::spawn(move || {
        let mut r = Rng::new(seed);
        let pid = std::process::id() as i32;
        let mut beat = (0, Instant::now());
        loop {
            // nothing happens any more: be quiet, so that it is seen
            let b = BEAT.load(Ordering::Relaxed);
            if b != beat.0 {
                beat = (b, Instant::now());
            } else if beat.1.elapsed() > Duration::from_secs(20) {
                std::thread::sleep(Duration::from_millis(500));
                continue;
            }
            std::thread::sleep(Duration::from_micros(50 + r.below(400) as u64));
            let t = TIDS.lock().unwrap();
            for _ in 0..4 {
                if !t.is_empty() {
                    unsafe { libc::syscall(libc::SYS_tgkill, pid, *r.pick(&t), libc::SIGUSR1) };
                }
            }
        }
    });
}

struct Pool {
    pool: ThreadPool,
    trace: Arc<Trace>,
    n: usize,
}
fn pool(n: usize, pin: bool) -> Pool {
    let trace = Arc::new(Trace::default());
    let t = trace.clone();
    let pool = ThreadPoolBuilder::new()
        .num_threads(n)
        .start_handler(move |i| {
            if pin {
                // two cores for all workers
                unsafe {
                    let mut s: libc::cpu_set_t = std::mem::zeroed();
                    libc::CPU_SET(i % 2, &mut s);
                    libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &s);
                }
            }
            WORKER.with(|w| w.set(i as u64));
            TICK.with(|w| w.set(i as u64 * 77 + 5));
            SPIN.with(|w| w.set(i as u64 * 99 + 7));
            TRACE.with(|c| c.set(Arc::into_raw(t.clone())));
            TIDS.lock().unwrap().push(tid());
        })
        .exit_handler(|_| {
            let me = tid();
            TIDS.lock().unwrap().retain(|t| *t != me);
            TRACE.with(|c| c.set(std::ptr::null()));
        })
        .build()
        .unwrap();
    Pool { pool, trace, n }
}

// ------------------------------------------------------------------ scripts

fn record(u: &Unit, seed: u64) -> Rec {
    let mut rec = Rec::default();
    (u.run)(&mut Rng::new(seed), &mut rec);
    rec
}

/// The ways to call, each giving the records of some number of executions.
const WAYS: &[&str] = &[
    "install",
    "scope",
    "join",
    "parallel iterator",
    "pool within a pool",
    "in place scope",
    "broadcast",
    "threads",
    "plain thread",
    "busy pool",
    "trickle",
];
fn call(way: &str, p: &Pool, q: &Pool, u: &Unit, seed: u64, k: usize) -> Vec<Rec> {
    let out = Mutex::new(vec![]);
    let put = || {
        let r = record(u, seed);
        BEAT.fetch_add(1, Ordering::Relaxed);
        out.lock().unwrap().push(r)
    };
    match way {
        "install" => p.pool.install(put),
        "scope" => p.pool.scope(|s| (0..k).for_each(|_| s.spawn(|s| {
            put();
            s.spawn(|_| put());
        }))),
        "join" => p.pool.install(|| {
            rayon::join(|| { rayon::join(put, put); }, || { rayon::join(put, put); });
        }),
        "parallel iterator" => p.pool.install(|| (0..k + 1).into_par_iter().for_each(|_| put())),
        "pool within a pool" => p.pool.install(|| {
            rayon::join(|| q.pool.install(put), || q.pool.install(|| p.pool.install(put)));
        }),
        // tasks that arrive while others run: more of them than workers, so that one
        // that waits for its parts takes up another
        "trickle" => {
            let t0 = Instant::now();
            put();
            let one = t0.elapsed().as_micros() as u64 + 1;
            let mut r = Rng::new(seed ^ k as u64);
            p.pool.in_place_scope(|s| {
                for _ in 0..2 * p.n.min(8) + k {
                    s.spawn(|_| put());
                    std::thread::sleep(Duration::from_micros(r.below(one as usize) as u64 / (k as u64 + 1)));
                }
            })
        }
        "in place scope" => p.pool.in_place_scope(|s| {
            s.spawn(|_| put());
            put()
        }),
        "broadcast" => {
            p.pool.broadcast(|c| if c.index() <= k { put() });
        }
        "threads" => {
            let bar = Barrier::new(k + 1);
            std::thread::scope(|s| {
                for i in 0..k + 1 {
                    let (bar, put) = (&bar, &put);
                    s.spawn(move || {
                        bar.wait();
                        if i % 2 == 0 {
                            p.pool.install(put)
                        } else {
                            q.pool.install(put)
                        }
                    });
                }
            })
        }
        // the global pool
        "plain thread" => std::thread::scope(|s| {
            s.spawn(put);
            put()
        }),
        // the pool has other work that never waits for us
        "busy pool" => {
            let stop = AtomicBool::new(false);
            p.pool.in_place_scope(|s| {
                for _ in 0..(p.n - 1).min(k) {
                    s.spawn(|_| {
                        while !stop.load(Ordering::Relaxed) {
                            if rayon::yield_now() != Some(rayon::Yield::Executed) {
                                std::thread::yield_now();
                            }
                        }
                    });
                }
                p.pool.install(|| ());
                p.pool.install(put);
                stop.store(true, Ordering::Relaxed);
            })
        }
        _ => unreachable!(),
    }
    out.into_inner().unwrap()
}

fn schedules(t: &mut Task, u: &Unit, budget: usize, tsan: bool) {
    let mut r = t.rng.clone();
    let one = pool(1, false);
    let sizes: &[usize] = if tsan { &[2, 3, 5, 8] } else { &[2, 3, 4, 5, 7, 8, 16, 33] };
    let pools: Vec<Pool> = sizes.iter().map(|n| pool(*n, false)).chain([pool(6, true), pool(3, true)]).collect();
    let mut traces: HashSet<u64> = HashSet::new();
    let mut spent = 0;
    let mut turn = r.below(10);
    while spent < budget {
        let seed = r.u64();
        t.begin("one worker");
        let base = one.pool.install(|| record(u, seed));
        t.sample(|| format!("{}: {:x?}", base.input, base.items));
        for (op, m) in &base.panics {
            t.fail(format!("{}/{op}/panic", u.name), || format!("in a pool of one worker: {m}"));
        }
        spent += u.cost;
        for _ in 0..6 {
            let p = r.pick(&pools);
            let q = r.pick(&pools);
            let way = WAYS[turn % WAYS.len()];
            turn += 1;
            // at times many more tasks than workers, where they are cheap
            let k = if u.cost <= 60_000 && r.one_in(4) { 4 + r.below(12) } else { 1 + r.below(4) };
            for x in [p, q] {
                x.trace.hash.store(7, Ordering::Relaxed);
                x.trace.workers.store(0, Ordering::Relaxed);
                x.trace.events.store(0, Ordering::Relaxed);
            }
            t.begin(way);
            let recs = call(way, p, q, u, seed, k);
            t.class(way);
            let ev = p.trace.events.load(Ordering::Relaxed);
            if ev > 0 {
                traces.insert(fingerprint(&(p.trace.hash.load(Ordering::Relaxed), p.n, way)));
            }
            t.class(&format!("pools of {}", p.n));
            t.class_n("allocation events of workers", ev);
            t.class_n("executions where several workers were seen", (p.trace.workers.load(Ordering::Relaxed).count_ones() > 1) as u64);
            spent += u.cost * recs.len();
            for rec in recs {
                t.seen(&(rec.digest(), way, p.n, q.n, k), true);
                for (op, m) in &rec.panics {
                    t.fail(format!("{}/{op}/panic", u.name), || format!("{way}, pool of {}: {m}", p.n));
                }
                if rec.items != base.items {
                    let ops: Vec<_> = base.items.iter().zip(&rec.items).filter(|(a, b)| a != b).map(|x| x.0 .0).collect();
                    t.fail(format!("{}/{}/depends on the schedule", u.name, ops.first().unwrap_or(&"record")), || {
                        format!("{way} with pools of {} and {} workers, {k} at once: operations {ops:?} differ from the result with one worker; seed {seed:x} input {}", p.n, q.n, rec.input)
                    });
                }
            }
        }
    }
    t.class_n("distinct orders of allocations among workers", traces.len() as u64);
}

// ------------------------------------------------------------------ first use

/// Operations with results that need no preparation by the library.
fn firsts() -> Vec<(String, Box<dyn Fn() -> u64 + Send + Sync>)> {
    let mut v: Vec<(String, Box<dyn Fn() -> u64 + Send + Sync>)> = vec![];
    macro_rules! field {
        ($t:ty) => {
            v.push((<$t as fields::PF>::NAME.to_string(), Box::new(|| {
                let x = <$t>::from(0x123456789u64) + <$t>::from(7u64);
                let y = x.invert().unwrap() * <$t>::ROOT_OF_UNITY + x.pow_vartime([12345u64]);
                let s = y.square().sqrt().unwrap();
                fnv(&[y.to_repr().as_ref(), s.square().to_repr().as_ref(), format!("{y:?}").as_bytes()].concat())
            })));
        };
    }
    h2c_monitor::for_each_field!(field);
    macro_rules! curve {
        ($t:ty) => {
            v.push((<$t as PC>::NAME.to_string(), Box::new(|| {
                type S = <$t as PC>::SF;
                let g = <$t>::generator();
                let a = g + g;
                let b = a.double() + g.to_affine();
                let c = b * S::from(0xdeadbeefu64) - a;
                let bases = [g.to_affine(), a.to_affine(), b.to_affine(), c.to_affine()];
                let sc = [S::from(3u64), -S::ONE, S::from(1u64 << 40), S::from(77u64)];
                let m = h::msm::msm_best(&sc, &bases);
                let mut bytes = vec![];
                for p in [a, b, c, m, m + g.to_affine()] {
                    bytes.extend_from_slice(p.to_bytes().as_ref());
                }
                if <$t as PC>::HAS_HASH {
                    bytes.extend_from_slice(<$t as CurveExt>::hash_to_curve("first")(b"use").to_bytes().as_ref());
                }
                let back = <$t as GroupEncoding>::from_bytes(&c.to_bytes());
                bytes.push(bool::from(back.is_some()) as u8);
                fnv(&bytes)
            })));
        };
    }
    h2c_monitor::for_each_curve!(curve);
    macro_rules! pairing {
        ($e:ty, $a:ty, $b:ty, $n:expr) => {
            v.push(($n.to_string(), Box::new(|| {
                let g = <$e as pairing::Engine>::pairing(&<$a>::generator().to_affine(), &<$b>::generator().to_affine());
                fnv(format!("{g:?}").as_bytes())
            })));
        };
    }
    pairing!(h::bn256::Bn256, h::bn256::G1, h::bn256::G2, "bn256 pairing");
    pairing!(h::bls12381::Bls12381, h::bls12381::G1, h::bls12381::G2, "bls12381 pairing");
    pairing!(h::pluto_eris::Pluto, h::pluto_eris::G1, h::pluto_eris::G2, "pluto pairing");
    v
}

/// In the child: all threads start at once with the first uses.
fn child(spec: &str) -> ! {
    let f: Vec<u64> = spec.split(':').map(|x| x.parse().unwrap()).collect();
    let (n, seed, mode) = (f[0] as usize, f[1], f[2]);
    let ops = Arc::new(firsts());
    let bar = Barrier::new(n);
    let go = AtomicUsize::new(0);
    let mut order: Vec<usize> = (0..ops.len()).collect();
    Rng::new(seed).shuffle(&mut order);
    let res = Mutex::new(vec![]);
    let body = |i: usize| {
        let mut r = Rng::new(seed ^ (i as u64) << 32);
        let mut order = order.clone();
        if mode == 1 {
            r.shuffle(&mut order);
        }
        let mut out = vec![0u64; order.len()];
        for o in order {
            if mode != 1 && mode != 3 {
                // all meet at every operation
                bar.wait();
                go.fetch_add(1, Ordering::SeqCst);
                (0..r.below(200)).for_each(|_| std::hint::spin_loop());
            }
            out[o] = match quiet(|| ops[o].1()) {
                Ok(d) => d,
                Err(m) => fnv(m.as_bytes()) | 1,
            };
        }
        res.lock().unwrap().push(out);
    };
    if mode == 3 {
        // on the workers of a pool
        ThreadPoolBuilder::new().num_threads(n).build().unwrap().broadcast(|c| body(c.index()));
    } else {
        std::thread::scope(|s| {
            for i in 0..n {
                let body = &body;
                s.spawn(move || body(i));
            }
        });
    }
    for out in res.into_inner().unwrap() {
        println!("{}", out.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>().join(" "));
    }
    std::process::exit(0)
}

fn first_use(t: &mut Task, k: usize) {
    let ops = firsts();
    let expect: Vec<u64> = ops.iter().map(|o| o.1()).collect();
    let mut r = t.rng.clone();
    for i in 0..k {
        t.begin("first use");
        let (n, mode) = (*r.pick(&[2, 4, 8, 16]), i % 4);
        let seed = r.u64() >> 1;
        let spec = format!("{n}:{seed}:{mode}");
        let mut c = std::process::Command::new(std::env::current_exe().unwrap())
            .env("C17_CHILD", &spec)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        let t0 = Instant::now();
        let st = loop {
            if let Some(s) = c.try_wait().unwrap() {
                break Some(s);
            }
            if t0.elapsed() > Duration::from_secs(120) {
                let _ = c.kill();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let o = c.wait_with_output().unwrap();
        let (so, se) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
        t.class(["all at once", "each in its own order", "all at once, staggered", "workers of a pool"][mode]);
        t.class_n("threads", n as u64);
        if se.contains("ThreadSanitizer") {
            // for the driver
            eprintln!("{se}");
        }
        match st {
            None => t.fail("first use/no-termination", || format!("{spec}: still running after 120 s; {se}")),
            Some(s) if !s.success() && !se.contains("ThreadSanitizer") => t.fail("first use/crash", || format!("{spec}: {s} {se}")),
            Some(_) => {
                let lines: Vec<&str> = so.lines().collect();
                t.check(lines.len() == n, "first use/threads missing", || format!("{spec}: {} of {n} threads finished; {se}", lines.len()));
                for (ti, l) in lines.iter().enumerate() {
                    let got: Vec<u64> = l.split(' ').map(|x| u64::from_str_radix(x, 16).unwrap()).collect();
                    for (j, g) in got.iter().enumerate() {
                        t.seen(&(i, ti, j), true);
                        t.check(*g == expect[j], &format!("{}/first use", ops[j].0), || format!("{spec}: thread {ti} got {g:x}, a thread alone gets {:x}", expect[j]));
                    }
                }
            }
        }
    }
}

static CALLS: AtomicI32 = AtomicI32::new(0);

fn main() {
    if let Ok(s) = std::env::var("C17_CHILD") {
        std::panic::set_hook(Box::new(|_| {}));
        child(&s);
    }
    let mut conf = Conf::from_args();
    let tsan = conf.config.starts_with("tsan");
    conf.threads = if tsan { 3 } else { 4 };
    start_stopper(conf.seed);
    let mut jobs = vec![];
    let mut us: Vec<Unit> = units(&conf.dict);
    us.sort_by_key(|u| std::cmp::Reverse(u.cost));
    let mut kinds: BTreeMap<String, f64> = BTreeMap::new();
    for (k, w) in [("bigmsm", 2.0), ("sparsemsm", 2.0), ("msm", 3.0), ("fft", 1.0), ("pairing", 0.3), ("hash", 0.2), ("curve", 0.2), ("codec", 0.1), ("field", 0.05), ("tower", 0.05)] {
        kinds.insert(k.into(), w);
    }
    for u in us {
        let kind = u.name.split('/').next().unwrap().to_string();
        let w = kinds[&kind];
        if tsan && kind.ends_with("smsm") && !u.name.ends_with("bls12381::G1") {
            continue;
        }
        if tsan && kind == "bigmsm" && !(u.name.ends_with("bn256::G1") || u.name.ends_with("secp256r1")) {
            continue;
        }
        // many schedules of large lists for two curves, a few for the others
        let w = if kind == "bigmsm" && !(u.name.ends_with("bn256::G1") || u.name.ends_with("secp256k1")) { 1.0 } else { w };
        jobs.push(job(u.name.clone(), move |t: &mut Task| {
            CALLS.fetch_add(1, Ordering::Relaxed);
            let budget = (2.0e6 * w * t.conf.scale) as usize;
            schedules(t, &u, budget, tsan);
        }));
    }
    for k in 0..4 {
        jobs.push(job(format!("first use/{k}"), move |t: &mut Task| {
            let n = t.n(if tsan { 2 } else { 4 });
            first_use(t, n);
            t.class_n("signals that stopped a worker so far", STOPS.load(Ordering::Relaxed));
            t.class_n("yields inside of the library so far", YIELDS.load(Ordering::Relaxed));
        }));
    }
    run(conf, jobs);
}
