//! C20: every general purpose register, the flags and the red zone are watched
//! across every field operation, in an optimised build.
use h2c_monitor::fields::PF;
use h2c_monitor::gen::make;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{Field, PrimeField};
use halo2curves::ff_ext::Legendre;
use halo2curves::serde::SerdeObject;
use std::hint::black_box;

// ------------------------------------------------------------------- registers

#[cfg(target_arch = "x86_64")]
macro_rules! pinned {
    // a value lives in one register across the operation; the compiler keeps
    // it there exactly when the operation says that it leaves it alone
    ($reg:tt, $op:expr, $x:expr, $y:expr, $c:expr) => {{
        #[inline(never)]
        fn hold<F: PF>(x: &F, y: &F, c: u64, op: impl Fn(&F, &F) -> F) -> (u64, F) {
            let mut v = c;
            unsafe { std::arch::asm!("/* {0} */", inout(reg) v => v, options(nomem, nostack, preserves_flags)) };
            unsafe { std::arch::asm!("", inout($reg) v, options(nomem, nostack, preserves_flags)) };
            let z = op(x, y);
            unsafe { std::arch::asm!("", inout($reg) v, options(nomem, nostack, preserves_flags)) };
            (v, z)
        }
        hold($x, $y, $c, $op)
    }};
}

/// Many values at once, and an array in what may be the red zone.
#[inline(never)]
fn crowded<F: PF>(x: &F, y: &F, c: u64, op: impl Fn(&F, &F) -> F) -> (bool, F) {
    let mut v = [0u64; 14];
    for (i, e) in v.iter_mut().enumerate() {
        *e = c.rotate_left(i as u32).wrapping_mul(2 * i as u64 + 1);
    }
    let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v;
    let mut buf = [0u64; 6];
    for (i, e) in buf.iter_mut().enumerate() {
        unsafe { std::ptr::write_volatile(e, c ^ i as u64) };
    }
    let z = op(x, y);
    let mut ok = true;
    for (i, e) in buf.iter().enumerate() {
        ok &= unsafe { std::ptr::read_volatile(e) } == c ^ i as u64;
    }
    for (i, e) in [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13].into_iter().enumerate() {
        ok &= e == c.rotate_left(i as u32).wrapping_mul(2 * i as u64 + 1);
    }
    (ok, z)
}

/// Values computed from before, kept over two operations in registers.
#[inline(never)]
fn chained<F: PF>(x: &F, y: &F, c: &[u64; 8], op: impl Fn(&F, &F) -> F) -> (u64, F) {
    let (mut a, mut b, mut d, mut e, mut f, mut g, mut h, mut i) = (c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]);
    macro_rules! keep {
        () => {
            unsafe {
                std::arch::asm!("", inout("rax") a, inout("rcx") b, inout("rdx") d, inout("rsi") e, inout("rdi") f, inout("r8") g, inout("r9") h, inout("r10") i,
                    options(nomem, nostack, preserves_flags));
            }
        };
    }
    keep!();
    let z = op(x, y);
    keep!();
    let w = op(&z, y);
    keep!();
    (a ^ b.rotate_left(1) ^ d.rotate_left(2) ^ e.rotate_left(3) ^ f.rotate_left(4) ^ g.rotate_left(5) ^ h.rotate_left(6) ^ i.rotate_left(7), w)
}
fn mixed(c: &[u64; 8]) -> u64 {
    c.iter().enumerate().fold(0, |a, (i, x)| a ^ x.rotate_left(i as u32))
}

#[inline(never)]
extern "C" fn flags() -> u64 {
    let f: u64;
    unsafe { std::arch::asm!("pushfq", "pop {0}", out(reg) f) };
    f
}

/// A call with canaries in the registers that a callee must keep.
#[cfg(target_arch = "x86_64")]
fn called<F>(f: extern "C" fn(*const F, *const F, *mut F), x: &F, y: &F, z: &mut F, keep: &mut [u64; 6]) {
    unsafe {
        std::arch::asm!(
            "push rbx", "push rbp", "push rcx", "sub rsp, 8",
            "mov rbx, [rcx]", "mov rbp, [rcx + 8]", "mov r12, [rcx + 16]", "mov r13, [rcx + 24]", "mov r14, [rcx + 32]", "mov r15, [rcx + 40]",
            "call rax",
            "add rsp, 8", "pop rcx",
            "mov [rcx], rbx", "mov [rcx + 8], rbp", "mov [rcx + 16], r12", "mov [rcx + 24], r13", "mov [rcx + 32], r14", "mov [rcx + 40], r15",
            "pop rbp", "pop rbx",
            inout("rax") f => _, inout("rcx") keep.as_mut_ptr() => _,
            inout("rdi") x as *const F => _, inout("rsi") y as *const F => _, inout("rdx") z as *mut F => _,
            out("r12") _, out("r13") _, out("r14") _, out("r15") _, clobber_abi("C"),
        )
    }
}
/// Every operation that is compiled in the library, not in its caller.
macro_rules! callee {
    ($t:ident, $F:ty, $x:expr, $y:expr, $keep:expr, $d:expr, $($name:expr => |$a:ident, $b:ident| $e:expr),+ $(,)?) => {$({
        extern "C" fn f<F: PF>(x: *const F, y: *const F, z: *mut F) {
            let ($a, $b) = unsafe { (&*x, &*y) };
            unsafe { *z = $e }
        }
        $t.begin(concat!("call of ", $name));
        let mut k: [u64; 6] = $keep;
        let mut z = *$x;
        called::<$F>(f::<$F>, $x, $y, &mut z, &mut k);
        $t.seen(&($name, &k), true);
        $t.class(concat!("call of ", $name));
        $t.check(k == $keep, concat!($name, "/a register of the caller changed"), || format!("rbx rbp r12 r13 r14 r15: {:x?} became {k:x?}; {}", $keep, $d()));
        black_box(z);
    })+};
}

fn registers<F: PF>(t: &mut Task) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let mut r = t.rng.clone();
    for _ in 0..t.n(150) {
        let (va, vb) = (g.val(&mut r), g.val(&mut r));
        let (x, y): (F, F) = (make(&g, &mut r, &va), make(&g, &mut r, &vb));
        let c = r.u64();
        let c8 = std::array::from_fn(|_| r.u64());
        let p = g.p.clone();
        macro_rules! each {
            ($name:expr, $op:expr, $want:expr) => {{
                let op = $op;
                let want: B = $want;
                macro_rules! one {
                    ($rn:expr, $e:expr) => {{
                        t.begin(concat!($name, " holding ", $rn));
                        let (v, z): (u64, F) = $e;
                        t.seen(&($name, $rn, c), true);
                        t.check(v == c, concat!($name, "/", $rn, " changed"), || format!("the value {c:x} in {} became {v:x} over {}; a={va:x} b={vb:x}", $rn, $name));
                        t.check(z.val() == want, concat!($name, "/result with ", $rn, " in use"), || format!("a={va:x} b={vb:x} -> {z:?}"));
                    }};
                }
                #[cfg(target_arch = "x86_64")]
                {
                    one!("rax", pinned!("rax", &op, &x, &y, c));
                    one!("rcx", pinned!("rcx", &op, &x, &y, c));
                    one!("rdx", pinned!("rdx", &op, &x, &y, c));
                    one!("rsi", pinned!("rsi", &op, &x, &y, c));
                    one!("rdi", pinned!("rdi", &op, &x, &y, c));
                    one!("r8", pinned!("r8", &op, &x, &y, c));
                    one!("r9", pinned!("r9", &op, &x, &y, c));
                    one!("r10", pinned!("r10", &op, &x, &y, c));
                    one!("r11", pinned!("r11", &op, &x, &y, c));
                    one!("r12", pinned!("r12", &op, &x, &y, c));
                    one!("r13", pinned!("r13", &op, &x, &y, c));
                    one!("r14", pinned!("r14", &op, &x, &y, c));
                    one!("r15", pinned!("r15", &op, &x, &y, c));
                    let f0 = flags();
                    let _ = black_box(op(&x, &y));
                    // direction, alignment check
                    t.check((f0 ^ flags()) & ((1 << 10) | (1 << 18)) == 0, concat!($name, "/flags"), || format!("a={va:x} b={vb:x}"));
                }
                t.begin(concat!($name, " in a crowd"));
                let (ok, z) = crowded(&x, &y, c, &op);
                t.check(ok, concat!($name, "/locals changed"), || format!("a={va:x} b={vb:x}"));
                t.check(z.val() == want, concat!($name, "/result in a crowd"), || format!("a={va:x} b={vb:x} -> {z:?}"));
                let (v, _) = chained(&x, &y, &c8, &op);
                t.check(v == mixed(&c8), concat!($name, "/registers changed"), || format!("a={va:x} b={vb:x}"));
                t.class($name);
            }};
        }
        each!("add", |a: &F, b: &F| a.i_add(b), (&va + &vb) % &p);
        each!("sub", |a: &F, b: &F| a.i_sub(b), (&va + &p - &vb) % &p);
        each!("mul", |a: &F, b: &F| a.i_mul(b), (&va * &vb) % &p);
        each!("neg", |a: &F, _: &F| a.i_neg(), (&p - &va) % &p);
        each!("double", |a: &F, _: &F| a.i_double(), (&va + &va) % &p);
        each!("square", |a: &F, _: &F| a.i_square(), (&va * &va) % &p);
        each!("to_repr", |a: &F, _: &F| {
            let v = a.to_repr();
            let d = F::from_repr(v);
            Option::<F>::from(d).unwrap_or(F::ZERO)
        }, va.clone());
        each!("add_assign", |a: &F, b: &F| { let mut z = *a; z += b; z *= b; z -= a; z }, ((&va + &vb) * &vb + &p - &va) % &p);
    }
}

/// All calls, on every field.
fn calls<F: PF>(t: &mut Task) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let mut r = t.rng.clone();
    for _ in 0..t.n(150) {
        let (va, vb) = (g.val(&mut r), g.val(&mut r));
        let (x, y): (F, F) = (make(&g, &mut r, &va), make(&g, &mut r, &vb));
        #[cfg(target_arch = "x86_64")]
        {
            let keep: [u64; 6] = std::array::from_fn(|_| r.u64());
            let d = || format!("a={va:x} b={vb:x}");
            callee!(t, F, &x, &y, keep, d,
                "add" => |a, b| a.i_add(b),
                "sub" => |a, b| a.i_sub(b),
                "mul" => |a, b| a.i_mul(b),
                "neg" => |a, _b| a.i_neg(),
                "double" => |a, _b| a.i_double(),
                "square" => |a, _b| a.i_square(),
                "to_repr" => |a, _b| { black_box(a.to_repr()); *a },
                "from_repr" => |a, _b| opt(F::from_repr(a.to_repr())).unwrap(),
                "cmp" => |a, b| { black_box(a.cmp(b)); *a },
                "eq" => |a, b| { black_box(a == b); *a },
                "is_odd" => |a, _b| { black_box(bool::from(a.is_odd())); *a },
                "debug" => |a, _b| { black_box(format!("{a:?}")); *a },
                "to_raw_bytes" => |a, _b| { black_box(a.to_raw_bytes()); *a },
                "from_raw_bytes" => |a, _b| F::from_raw_bytes(&a.to_raw_bytes()).unwrap(),
                "lexicographically_largest" => |a, _b| { black_box(F::i_lex_largest(a)); *a },
                "to_le_bits" => |a, _b| { black_box(a.to_le_bits()); *a },
                "legendre" => |a, _b| { black_box(a.legendre()); *a },
                "invert" => |a, b| opt(a.invert()).unwrap_or(*b),
                "sqrt" => |a, b| opt(a.sqrt()).unwrap_or(*b),
                "from u128" => |_a, _b| F::from_u128(77 << 70),
                "add_assign" => |a, b| { let mut z = *a; z += b; z },
                "sub_assign" => |a, b| { let mut z = *a; z -= b; z },
                "mul_assign" => |a, b| { let mut z = *a; z *= b; z },
                "pow_vartime" => |a, _b| a.pow_vartime([0xf00du64]),
            );
        }
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            jobs.push(job(format!("calls/{}", <$t as PF>::NAME), calls::<$t>));
        };
    }
    h2c_monitor::for_each_field!(f);
    // the assembly is one text for all fields of four limbs
    macro_rules! r {
        ($($t:ty),+) => {
            $(jobs.push(job(format!("registers/{}", <$t as PF>::NAME), registers::<$t>));)+
        };
    }
    r!(h::bn256::Fq, h::bn256::Fr, h::secp256k1::Fq);
    run(conf, jobs);
}
