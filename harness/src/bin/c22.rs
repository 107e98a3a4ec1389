//! C22: no side effects.  Scripts run on threads under a seccomp filter that
//! traps every system call other than memory management and thread
//! synchronisation; `getenv` is interposed; control registers and the live
//! heap are watched; and every script is repeated at random places of a
//! random history, on old and fresh threads, with the same result.
use h2c_monitor::*;
#[allow(unused_imports)]
use halo2curves::ff::Field;
#[path = "../parts/script.rs"]
mod script;
use script::*;
#[path = "../parts/again.rs"]
mod again;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{c_char, CStr};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;

// ------------------------------------------------------------------ live heap

struct Count;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;

// ---------------------------------------------------------------- environment

thread_local! {
    static IN_OP: Cell<bool> = const { Cell::new(false) };
    /// a worker of the pool: nothing but the library runs on it
    static WORKER: Cell<bool> = const { Cell::new(false) };
    static TRAPS: Cell<u64> = const { Cell::new(0) };
}
static ENV_READS: AtomicU64 = AtomicU64::new(0);
static mut ENV_NAME: [u8; 64] = [0; 64];
extern "C" {
    static mut environ: *const *const c_char;
}
/// The environment, once `environ` points to a page that cannot be read: who
/// goes through the variables without getenv is seen as well.
static REAL_ENV: AtomicUsize = AtomicUsize::new(0);
static GUARD: AtomicUsize = AtomicUsize::new(0);
static OLD_SEGV: AtomicUsize = AtomicUsize::new(0);
extern "C" fn on_segv(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let g = GUARD.load(Ordering::SeqCst);
        if g != 0 && (*info).si_addr() as usize & !4095 == g {
            if IN_OP.with(|c| c.get()) || WORKER.with(|c| c.get()) {
                ENV_READS.fetch_add(1, Ordering::SeqCst);
                ENV_NAME[..15].copy_from_slice(b"(all variables)");
                ENV_NAME[15] = 0;
            }
            // readable from now on: an empty list
            libc::mprotect(g as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE);
            return;
        }
        match OLD_SEGV.load(Ordering::SeqCst) {
            0 | 1 => {
                libc::signal(sig, libc::SIG_DFL);
            }
            f => std::mem::transmute::<usize, extern "C" fn(i32, *mut libc::siginfo_t, *mut libc::c_void)>(f)(sig, info, ctx),
        }
    }
}
fn guard_environment() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let g = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if g == libc::MAP_FAILED {
            return;
        }
        let (mut sa, mut old): (libc::sigaction, libc::sigaction) = (std::mem::zeroed(), std::mem::zeroed());
        sa.sa_sigaction = on_segv as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        libc::sigemptyset(&mut sa.sa_mask);
        GUARD.store(g as usize, Ordering::SeqCst);
        libc::sigaction(libc::SIGSEGV, &sa, &mut old);
        OLD_SEGV.store(old.sa_sigaction, Ordering::SeqCst);
        REAL_ENV.store(environ as usize, Ordering::SeqCst);
        environ = g as *const *const c_char;
    });
}
/// Takes the place of libc's: std::env::var ends here.
/// # Safety
/// as getenv
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = CStr::from_ptr(name).to_bytes();
    if IN_OP.with(|c| c.get()) || WORKER.with(|c| c.get()) {
        ENV_READS.fetch_add(1, Ordering::SeqCst);
        let k = n.len().min(63);
        ENV_NAME[..k].copy_from_slice(&n[..k]);
        ENV_NAME[k] = 0;
    }
    let mut e = match REAL_ENV.load(Ordering::SeqCst) {
        0 => environ,
        e => e as *const *const c_char,
    };
    while !e.is_null() && !(*e).is_null() {
        let s = CStr::from_ptr(*e).to_bytes();
        if s.len() > n.len() && s.starts_with(n) && s[n.len()] == b'=' {
            return (*e).add(n.len() + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

// --------------------------------------------------------------- system calls

const ALLOWED: &[i64] = &[
    libc::SYS_futex,
    libc::SYS_mmap,
    libc::SYS_munmap,
    libc::SYS_mremap,
    libc::SYS_mprotect,
    libc::SYS_madvise,
    libc::SYS_brk,
    libc::SYS_sched_yield,
    libc::SYS_rt_sigreturn,
    libc::SYS_rt_sigprocmask,
    libc::SYS_sigaltstack,
    libc::SYS_exit,
    libc::SYS_clock_gettime,
    // the seeds of standard hash maps
    libc::SYS_getrandom,
    libc::SYS_gettid,
    libc::SYS_getpid,
    libc::SYS_kill,
    libc::SYS_restart_syscall,
    // worker threads of a pool
    libc::SYS_clone,
    libc::SYS_clone3,
    libc::SYS_set_robust_list,
    libc::SYS_rseq,
    libc::SYS_sched_getaffinity,
    libc::SYS_membarrier,
    libc::SYS_prctl,
    libc::SYS_seccomp,
];

struct Trap {
    nr: AtomicU64,
    a0: AtomicU64,
    tid: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const NO_TRAP: Trap = Trap { nr: AtomicU64::new(0), a0: AtomicU64::new(0), tid: AtomicU64::new(0) };
static LOG: [Trap; 64] = [NO_TRAP; 64];
static TEXT: [[AtomicU64; 8]; 64] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    #[allow(clippy::declare_interior_mutable_const)]
    const R: [AtomicU64; 8] = [Z; 8];
    [R; 64]
};
static LOGGED: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_sys(_sig: i32, _info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let g = &mut uc.uc_mcontext.gregs;
        let nr = g[libc::REG_RAX as usize];
        let (a0, a1, a2) = (g[libc::REG_RDI as usize], g[libc::REG_RSI as usize], g[libc::REG_RDX as usize]);
        // malloc giving memory back asks for the overcommit policy
        if nr == libc::SYS_openat && CStr::from_ptr(a1 as *const c_char).to_bytes().starts_with(b"/proc/sys/vm/overcommit") {
            g[libc::REG_RAX as usize] = -(libc::ENOENT as i64);
            return;
        }
        TRAPS.with(|c| c.set(c.get() + 1));
        let i = LOGGED.fetch_add(1, Ordering::SeqCst);
        if i < LOG.len() {
            LOG[i].a0.store(a0 as u64, Ordering::SeqCst);
            LOG[i].tid.store(libc::syscall(libc::SYS_gettid) as u64, Ordering::SeqCst);
            // what is written or opened
            let mut text = [0u8; 64];
            if nr == libc::SYS_write && a1 != 0 {
                let k = (a2 as usize).min(63);
                text[..k].copy_from_slice(std::slice::from_raw_parts(a1 as *const u8, k));
            } else if (nr == libc::SYS_openat || nr == libc::SYS_readlinkat || nr == libc::SYS_newfstatat) && a1 != 0 {
                let s = CStr::from_ptr(a1 as *const c_char).to_bytes();
                let k = s.len().min(63);
                text[..k].copy_from_slice(&s[..k]);
            }
            for (j, c) in text.chunks(8).enumerate() {
                TEXT[i][j].store(u64::from_le_bytes(c.try_into().unwrap()), Ordering::SeqCst);
            }
            LOG[i].nr.store(nr as u64 + 1, Ordering::SeqCst);
        }
        if nr == libc::SYS_exit_group {
            // the process would end here
            libc::raise(libc::SIGABRT);
        }
        // writes appear to work, everything else to be unavailable
        g[libc::REG_RAX as usize] = if nr == libc::SYS_write { a2 } else { -(libc::ENOSYS as i64) };
    }
}

static FILTERED: AtomicBool = AtomicBool::new(false);

/// Filters the calling thread, and those it starts.
fn install_filter() {
    let ld = |off: u32| libc::sock_filter { code: (libc::BPF_LD | libc::BPF_W | libc::BPF_ABS) as u16, jt: 0, jf: 0, k: off };
    let ret = |k: u32| libc::sock_filter { code: (libc::BPF_RET | libc::BPF_K) as u16, jt: 0, jf: 0, k };
    let jeq = |k: u32, jt: u8, jf: u8| libc::sock_filter { code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16, jt, jf, k };
    let mut prog = vec![ld(0)];
    for nr in ALLOWED {
        prog.push(jeq(*nr as u32, 0, 1));
        prog.push(ret(libc::SECCOMP_RET_ALLOW));
    }
    prog.push(ret(libc::SECCOMP_RET_TRAP));
    let f = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
    unsafe {
        if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &f) == 0 {
            FILTERED.store(true, Ordering::SeqCst);
        }
    }
}

fn trap_text(i: usize) -> String {
    let l = &LOG[i];
    let mut v = vec![];
    TEXT[i].iter().for_each(|w| v.extend_from_slice(&w.load(Ordering::SeqCst).to_le_bytes()));
    let text = String::from_utf8_lossy(&v).trim_end_matches('\0').to_string();
    let nr = l.nr.load(Ordering::SeqCst).wrapping_sub(1);
    let name = match nr as i64 {
        libc::SYS_write => "write",
        libc::SYS_writev => "writev",
        libc::SYS_openat => "openat",
        libc::SYS_read => "read",
        libc::SYS_getrandom => "getrandom",
        libc::SYS_exit_group => "exit_group",
        libc::SYS_execve => "execve",
        libc::SYS_chdir => "chdir",
        libc::SYS_socket => "socket",
        libc::SYS_unlink | libc::SYS_unlinkat => "unlink",
        libc::SYS_clock_nanosleep | libc::SYS_nanosleep => "sleep",
        libc::SYS_rt_sigaction => "sigaction",
        _ => "",
    };
    format!("system call {nr} {name}({:#x}) {text:?}", l.a0.load(Ordering::SeqCst))
}

// ------------------------------------------------------------------- watching

fn control_words() -> (u32, u16) {
    let mut m: u32 = 0;
    let mut c: u16 = 0;
    unsafe {
        std::arch::asm!("stmxcsr [{0}]", "fnstcw [{1}]", in(reg) &mut m, in(reg) &mut c);
    }
    // without the sticky exception flags
    (m & !0x3f, c)
}

static SEEN_TRAPS: AtomicUsize = AtomicUsize::new(0);

/// What one execution of a script showed.
struct Seen {
    items: Vec<(&'static str, u64)>,
    panics: Vec<(&'static str, String)>,
    input: String,
    traps: u64,
    env: u64,
    words_changed: bool,
    hook_lost: bool,
    growth: i64,
    digest: u64,
}

fn execute(u: &Unit, seed: u64) -> Seen {
    let mut rec = Rec::default();
    rec.reserve();
    let (t0, e0, w0) = (TRAPS.with(|c| c.get()), ENV_READS.load(Ordering::SeqCst), control_words());
    IN_OP.with(|c| c.set(true));
    let l0 = LIVE.with(|c| c.get());
    (u.run)(&mut Rng::new(seed), &mut rec);
    let growth = LIVE.with(|c| c.get()) - l0 - rec.held() as i64;
    IN_OP.with(|c| c.set(false));
    let reported = panics_reported();
    let _ = quiet(|| panic!("is the hook still there?"));
    Seen {
        hook_lost: panics_reported() != reported + 1,
        traps: TRAPS.with(|c| c.get()) - t0,
        env: ENV_READS.load(Ordering::SeqCst) - e0,
        words_changed: control_words() != w0,
        growth,
        digest: rec.digest(),
        items: rec.items,
        panics: rec.panics,
        input: rec.input,
    }
}

fn history(t: &mut Task, units: &[Arc<Unit>], budget: usize, k: usize) {
    let mut r = t.rng.clone();
    // scripts with their seeds, each to be run several times
    let mut plan: Vec<(usize, u64, bool)> = vec![];
    let mut spent = 0;
    // the expensive ones in turn, one per history
    let big: Vec<usize> = (0..units.len()).filter(|u| units[*u].cost > 300_000).collect();
    if !big.is_empty() {
        let (u, s) = (big[k % big.len()], r.u64());
        plan.extend([(u, s, false), (u, s, false)]);
    }
    while spent < budget {
        let u = r.below(units.len());
        if units[u].cost > 300_000 {
            continue;
        }
        let s = r.u64();
        let reps = 2 + r.below(3);
        let burst = (40_000 / units[u].cost).clamp(1, 6);
        for i in 0..burst as u64 {
            for k in 0..reps {
                plan.push((u, s ^ i, k > 0 && r.one_in(4)));
            }
            spent += reps * units[u].cost;
        }
    }
    r.shuffle(&mut plan);
    let mut first: std::collections::BTreeMap<(usize, u64), (u64, Vec<(&'static str, u64)>)> = Default::default();
    let mut grow: std::collections::BTreeMap<(usize, u64), i64> = Default::default();
    for (ui, seed, fresh) in plan {
        let u = &units[ui];
        t.begin("script");
        let s = if fresh {
            t.class("on a fresh thread");
            std::thread::scope(|sc| {
                std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(sc, || execute(u, seed)).unwrap().join().unwrap()
            })
        } else {
            execute(u, seed)
        };
        let name = &u.name;
        t.class_n("operations", s.items.len() as u64);
        t.class(name.split('/').next().unwrap());
        t.sample(|| format!("{}: {:x?}", s.input, s.items));
        for (op, m) in &s.panics {
            t.fail(format!("{name}/{op}/panic"), || m.clone());
        }
        if s.traps > 0 {
            let n = LOGGED.load(Ordering::SeqCst).min(LOG.len());
            let tid = unsafe { libc::syscall(libc::SYS_gettid) } as u64;
            for i in 0..n {
                if fresh || LOG[i].tid.load(Ordering::SeqCst) == tid {
                    t.fail(format!("{name}/system call"), || format!("{}; input {}", trap_text(i), s.input));
                }
            }
        }
        // calls of the pool's workers are nobody's in particular
        let n = LOGGED.load(Ordering::SeqCst).min(LOG.len());
        if SEEN_TRAPS.swap(n, Ordering::SeqCst) < n && s.traps == 0 {
            t.fail("some script/system call", || format!("{}; on another thread, while {name} ran", trap_text(n - 1)));
        }
        if s.env > 0 {
            t.fail("some script/reads the environment", || {
                let n = unsafe { ENV_NAME };
                format!("{:?} while {name} ran; input {}", String::from_utf8_lossy(&n).trim_end_matches('\0').to_string(), s.input)
            });
        }
        t.check(!s.words_changed, "floating point control words changed", || format!("{name}: {}", s.input));
        t.check(!s.hook_lost, "panic hook replaced", || format!("{name}: {}", s.input));
        match first.get(&(ui, seed)) {
            None => {
                t.seen(&s.digest, true);
                first.insert((ui, seed), (s.digest, s.items));
                t.digests.push(s.digest);
            }
            Some((d, items)) => {
                t.evals += 1;
                t.class("repetitions");
                if *d != s.digest {
                    let ops: Vec<_> = items.iter().zip(&s.items).filter(|(a, b)| a != b).map(|(a, _)| a.0).collect();
                    t.fail(format!("{name}/{}/not repeatable", ops.first().unwrap_or(&"record")), || {
                        format!("operations {ops:?} gave another result when repeated; input {}", s.input)
                    });
                }
                if !fresh {
                    let g = grow.entry((ui, seed)).or_insert(i64::MAX);
                    *g = (*g).min(s.growth);
                }
            }
        }
    }
    // memory held after every repetition
    let leaks: Vec<_> = grow.iter().filter(|(_, g)| **g > 0 && **g != i64::MAX).collect();
    let mut per: std::collections::BTreeMap<usize, (usize, i64)> = Default::default();
    for ((u, _), g) in &leaks {
        let e = per.entry(*u).or_insert((0, **g));
        e.0 += 1;
        e.1 = e.1.min(**g);
    }
    for (u, (n, g)) in per {
        let all = grow.keys().filter(|k| k.0 == u).count();
        // values initialised late show up in some cases only
        if n == all && n >= 3 {
            t.fail(format!("{}/keeps memory", units[u].name), || format!("at least {g} bytes more are held after each of {n} repeated cases"));
        }
    }
    t.class_n("scripts whose heap balance was seen", grow.len() as u64);
}

/// Many calls of the same, or calls whose arguments lie where others lay.
fn again(t: &mut Task, a: &again::Again, many: bool) {
    let mut o = again::Told::default();
    let mut r = t.rng.clone();
    t.begin("again");
    let (t0, e0, w0) = (TRAPS.with(|c| c.get()), ENV_READS.load(Ordering::SeqCst), control_words());
    IN_OP.with(|c| c.set(true));
    let res = quiet(|| if many { (a.many)(&mut r, (t.conf.scale / 4.0).max(0.05), &mut o) } else { (a.kept)(&mut r, (2.0 * t.conf.scale).max(3.0) as usize, &mut o) });
    let res = res.and_then(|_| quiet(|| o.fresh()));
    IN_OP.with(|c| c.set(false));
    t.evals += o.calls;
    t.class_n(if many { "calls of the same" } else { "calls whose arguments lie where others lay" }, o.calls);
    for (n, k) in &o.ops {
        t.seen(&(&a.name, n, k), true);
        t.class_n(n, *k);
    }
    for (s, d) in o.wrong {
        t.fail(format!("{}/{s}", a.name), || d);
    }
    if let Err(m) = res {
        t.fail(format!("{}/panic", a.name), || m);
    }
    let n = LOGGED.load(Ordering::SeqCst).min(LOG.len());
    if SEEN_TRAPS.swap(n, Ordering::SeqCst) < n || TRAPS.with(|c| c.get()) > t0 {
        t.fail("some script/system call", || format!("{}; while {} ran many times", trap_text(n.max(1) - 1), a.name));
    }
    if ENV_READS.load(Ordering::SeqCst) > e0 {
        t.fail("some script/reads the environment", || format!("while {} ran many times", a.name));
    }
    t.check(control_words() == w0, "floating point control words changed", || a.name.clone());
}

/// Documented misuse. Each call must end in a panic, which must reach the
/// hook that the process has installed, and do nothing else.
fn refusals(mut seen: impl FnMut(&'static str, bool)) {
    use halo2curves::ff::PrimeField;
    use halo2curves::group::{prime::PrimeCurveAffine, Curve, Group};
    use halo2curves::{fft, msm, CurveAffine, CurveExt};
    fn lengths<C: CurveAffine + PrimeCurveAffine>(seen: &mut impl FnMut(&'static str, bool)) {
        for (n, m) in [(0, 1), (1, 0), (3, 4), (9000, 8999)] {
            let ks: Vec<<C as CurveAffine>::ScalarExt> = (0..n).map(|i| (i as u64).into()).collect();
            let ps = vec![<C as PrimeCurveAffine>::generator(); m];
            seen("msm_best", quiet(|| msm::msm_best(&ks, &ps)).is_err());
            seen("msm_parallel", quiet(|| msm::msm_parallel(&ks, &ps)).is_err());
            seen("msm_serial", quiet(|| msm::msm_serial(&ks, &ps, &mut <C as CurveAffine>::CurveExt::identity())).is_err());
        }
    }
    fn transforms<F: PrimeField>(seen: &mut impl FnMut(&'static str, bool)) {
        for (n, k) in [(1, 1), (2, 0), (7, 3), (1024, 11)] {
            let mut v = vec![F::ONE; n];
            seen("best_fft", quiet(move || fft::best_fft(&mut v, F::ONE, k)).is_err());
        }
    }
    fn points<C: CurveExt + Curve>(seen: &mut impl FnMut(&'static str, bool)) {
        for (n, m) in [(0, 1), (1, 0), (40, 39)] {
            let ps = vec![C::generator(); n];
            let mut qs = vec![C::generator().to_affine(); m];
            seen("batch_normalize", quiet(move || C::batch_normalize(&ps, &mut qs)).is_err());
        }
        let long = "d".repeat(300);
        seen("hash_to_curve", quiet(|| C::hash_to_curve(&long)(b"m")).is_err());
    }
    lengths::<halo2curves::bn256::G1Affine>(&mut seen);
    lengths::<halo2curves::secp256r1::Secp256r1Affine>(&mut seen);
    lengths::<halo2curves::bls12381::G2Affine>(&mut seen);
    transforms::<halo2curves::bn256::Fr>(&mut seen);
    transforms::<halo2curves::bls12381::Fr>(&mut seen);
    points::<halo2curves::bn256::G1>(&mut seen);
    points::<halo2curves::bls12381::G1>(&mut seen);
    points::<halo2curves::secp256k1::Secp256k1>(&mut seen);
}

/// (call, ended in a panic, reports that reached the hook), seen in `main`
/// while no other thread of ours runs.
static REFUSED: std::sync::Mutex<Vec<(&str, bool, i64)>> = std::sync::Mutex::new(vec![]);

fn refused(t: &mut Task) {
    let seen = std::mem::take(&mut *REFUSED.lock().unwrap());
    for (name, panicked, reports) in seen {
        t.seen(&(name, panicked, reports), true);
        t.class(name);
        t.check(!panicked || reports > 0, "panic hook bypassed", || format!("{name} panicked, which {reports} calls of the panic hook report"));
        t.evals += 1;
    }
    t.begin("refusals");
    let (t0, e0, w0) = (TRAPS.with(|c| c.get()), ENV_READS.load(Ordering::SeqCst), control_words());
    IN_OP.with(|c| c.set(true));
    let mut calls = 0;
    refusals(|_, _| calls += 1);
    IN_OP.with(|c| c.set(false));
    t.evals += calls;
    let n = LOGGED.load(Ordering::SeqCst).min(LOG.len());
    if SEEN_TRAPS.swap(n, Ordering::SeqCst) < n || TRAPS.with(|c| c.get()) > t0 {
        t.fail("some script/system call", || format!("{}; in a refused call", trap_text(n.max(1) - 1)));
    }
    if ENV_READS.load(Ordering::SeqCst) > e0 {
        t.fail("some script/reads the environment", || "in a refused call".to_string());
    }
    t.check(control_words() == w0, "floating point control words changed", || "in a refused call".to_string());
    let reported = panics_reported();
    let _ = quiet(|| panic!("is the hook still there?"));
    t.check(panics_reported() == reported + 1, "panic hook replaced", || "after refused calls".to_string());
}

/// Runs on a thread of its own, which stays filtered.
fn watched(t: &mut Task, f: impl FnOnce(&mut Task) + Send) {
    guard_environment();
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, || {
            drop(std::hint::black_box(vec![0u8; 1 << 16]));
            install_filter();
            let watched = FILTERED.load(Ordering::SeqCst);
            f(t);
            t.class(if watched { "system calls watched" } else { "system calls not watched" });
            if !watched {
                t.inconclusive("no seccomp filter could be installed".into());
            }
        });
        if let Err(e) = h.unwrap().join() {
            panic!("on the watched thread: {}", panic_msg(&*e));
        }
    });
}

static OK: AtomicI64 = AtomicI64::new(0);

fn main() {
    let conf = Conf::from_args();
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_sys as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        libc::sigemptyset(&mut sa.sa_mask);
        libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    }
    // the pool exists before anything is watched
    rayon::ThreadPoolBuilder::new().num_threads(4).start_handler(|_| {
        drop(std::hint::black_box(vec![0u8; 1 << 16]));
        WORKER.with(|c| c.set(true));
        install_filter()
    }).build_global().unwrap();
    rayon::broadcast(|_| OK.fetch_add(1, Ordering::SeqCst));
    // std reads RUST_BACKTRACE once
    static REPORTS: AtomicI64 = AtomicI64::new(0);
    std::panic::set_hook(Box::new(|_| {
        REPORTS.fetch_add(1, Ordering::SeqCst);
    }));
    let _ = quiet(|| panic!("first panic"));
    let mut before = REPORTS.load(Ordering::SeqCst);
    refusals(|name, panicked| {
        let now = REPORTS.load(Ordering::SeqCst);
        REFUSED.lock().unwrap().push((name, panicked, now - before));
        before = now;
    });

    let us: Vec<Arc<Unit>> = units(&conf.dict).into_iter().map(Arc::new).collect();
    let mut jobs = vec![job("refusals".to_string(), |t: &mut Task| watched(t, refused))];
    for k in 0..12 {
        let us = us.clone();
        jobs.push(job(format!("history/{k}"), move |t: &mut Task| {
            let budget = (1.5e6 * t.conf.scale) as usize;
            watched(t, |t| history(t, &us, budget, k));
        }));
    }
    for a in again::all(&conf.dict) {
        let a = Arc::new(a);
        let c = a.clone();
        jobs.push(job(format!("many/{}", a.name), move |t: &mut Task| watched(t, |t| again(t, &c, true))));
        jobs.push(job(format!("kept/{}", a.name), move |t: &mut Task| watched(t, |t| again(t, &a, false))));
    }
    run(conf, jobs);
}
