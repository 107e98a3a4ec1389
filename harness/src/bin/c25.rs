//! C25: under valgrind, with the operands of an operation marked as undefined:
//! memcheck reports every branch and every address that depends on them.
use h2c_monitor::*;
use halo2curves::ff::{Field, FromUniformBytes, PrimeField};
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group};
use halo2curves::pairing::Engine;
use std::hint::black_box;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

/// A client request; 0 outside of valgrind.
fn request(code: usize, a: usize, b: usize) -> usize {
    let args = [code, a, b, 0, 0, 0];
    let mut r = 0usize;
    unsafe {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            in("rax") args.as_ptr(), inout("rdx") r);
    }
    r = black_box(r);
    r
}
const MC: usize = (b'M' as usize) << 24 | (b'C' as usize) << 16;
fn undefined<T>(v: &mut T) {
    request(MC + 1, v as *mut T as usize, std::mem::size_of::<T>());
}
fn defined<T>(v: &T) {
    request(MC + 2, v as *const T as usize, std::mem::size_of::<T>());
}
/// A line in the log of valgrind.
fn mark(s: &str) {
    let s = format!("{s}\n\0");
    let none = [0u8; 64];
    let list = &none as *const _ as usize;
    request(0x1403, s.as_ptr() as usize, &list as *const usize as usize);
}
fn reports() -> usize {
    request(0x1201, 0, 0)
}

#[inline(never)]
fn apply<T, R>(f: fn(&T) -> R, v: &T) -> R {
    f(v)
}
/// Runs one operation on secret operands; the number of reports.
fn secret<T: Copy, R>(v: T, f: fn(&T) -> R) -> usize {
    let mut v = black_box(v);
    undefined(black_box(&mut v));
    let n = reports();
    let r = apply(black_box(f), black_box(&v));
    let n = reports() - n;
    let r = std::mem::ManuallyDrop::new(r);
    defined(black_box(&r));
    defined(&v);
    n
}

struct P<'a> {
    t: &'a mut Task,
    rep: usize,
}
impl<'a> P<'a> {
    fn op<T: Copy, R>(&mut self, name: &'static str, vals: &[T], f: fn(&T) -> R) {
        for _ in 0..self.rep {
            for (i, v) in vals.iter().enumerate() {
                self.t.begin(name);
                self.t.seen(&(name, i), true);
                let n = secret(*v, f);
                self.t.class(name);
                if n > 0 {
                    mark(&format!("ABOVE {}/{name}", self.t.name));
                }
                self.t.check(n == 0, name, || format!("operands {i}: {n} reports of valgrind: a branch or an address depends on the operands"));
            }
        }
    }
}

fn field<F: Field + ConstantTimeEq>(p: &mut P, vals: &[F]) {
    let pairs: Vec<(F, F)> = (0..vals.len()).flat_map(|i| [(vals[i], vals[i]), (vals[i], vals[(i + 1) % vals.len()])]).collect();
    let ch: Vec<(F, F, u8)> = pairs.iter().flat_map(|x| [(x.0, x.1, 0), (x.0, x.1, 1)]).collect();
    let pw: Vec<(F, [u64; 2])> = vals.iter().map(|v| (*v, [p.t.rng.u64(), p.t.rng.u64()])).collect();
    p.op("ct_eq", &pairs, |(a, b)| a.ct_eq(b));
    p.op("ct_ne", &pairs, |(a, b)| a.ct_ne(b));
    p.op("select", &ch, |(a, b, c)| F::conditional_select(a, b, Choice::from(*c & 1)));
    p.op("assign", &ch, |(a, b, c)| { let mut x = *a; x.conditional_assign(b, Choice::from(*c & 1)); x });
    p.op("swap", &ch, |(a, b, c)| { let (mut x, mut y) = (*a, *b); F::conditional_swap(&mut x, &mut y, Choice::from(*c & 1)); (x, y) });
    p.op("is_zero", vals, |a| a.is_zero());
    p.op("add", &pairs, |(a, b)| *a + b);
    p.op("sub", &pairs, |(a, b)| *a - b);
    p.op("mul", &pairs, |(a, b)| *a * b);
    p.op("neg", vals, |a| -*a);
    p.op("double", vals, |a| a.double());
    p.op("square", vals, |a| a.square());
    p.op("cube", vals, |a| a.cube());
    p.op("pow", &pw, |(a, e)| a.pow(e));
    let l3: Vec<[F; 3]> = (0..vals.len()).map(|i| [vals[i], vals[(i + 1) % vals.len()], vals[(i + 2) % vals.len()]]).collect();
    p.op("sum", &l3, |v| v.iter().sum::<F>());
    p.op("product", &l3, |v| v.iter().product::<F>());
}

fn main() {
    let conf = Conf::from_args();
    let thorough = conf.thorough;
    let rep = if thorough { 4 } else { 1 };
    let mut jobs = vec![];
    jobs.push(job("control", |t: &mut Task| {
        t.begin("control");
        // the instrument reports a branch and an address, and no select
        fn branch(v: &u64) -> u64 {
            if *v % 3 == 1 { black_box(5) } else { black_box(7) * black_box(2) }
        }
        fn address(v: &usize) -> u8 {
            black_box([1u8, 2, 3, 4, 5, 6, 7, 8])[*v & 7]
        }
        fn masked(v: &u64) -> u64 {
            (v & 1).wrapping_neg() & 0xabcd ^ v
        }
        let r = [secret(4u64, branch), secret(3usize, address), secret(9u64, masked)];
        if request(0x1001, 0, 0) == 0 || r[0] == 0 || r[1] == 0 || r[2] != 0 {
            panic!("valgrind does not report what it should: {r:?}");
        }
        t.seen(&r, true);
        t.check(true, "control", String::new);

    }));
    macro_rules! fields {
        ($t:ty) => {
            jobs.push(job(<$t as fields::PF>::NAME, move |t: &mut Task| {
                type F = $t;
                let g = Gen::of::<F>(&[]);
                let mut vals = vec![F::ZERO, F::ONE, -F::ONE];
                for _ in 0..3 {
                    vals.push(<F as fields::PF>::of(&g.uniform(&mut t.rng)));
                }
                let mut p = P { t, rep };
                field(&mut p, &vals);
                p.op("is_odd", &vals, |a| a.is_odd());
                p.op("to_repr", &vals, |a| a.to_repr());
                p.op("largest", &vals, |a| a.lexicographically_largest());
                let r: Vec<<F as PrimeField>::Repr> = vals.iter().map(|v| v.to_repr()).collect();
                p.op("from_repr", &r, |r| F::from_repr(*r));
                let u: Vec<[u8; 64]> = vals.iter().map(|v| { let mut x = [7; 64]; x[..32].copy_from_slice(&v.to_repr().as_ref()[..32]); x }).collect();
                p.op("uniform", &u, |u| <F as FromUniformBytes<64>>::from_uniform_bytes(u));
                let w: Vec<u128> = vals.iter().map(|_| p.t.rng.u64() as u128 * p.t.rng.u64() as u128).collect();
                p.op("from u128", &w, |w| F::from_u128(*w));
                p.op("bytes", &vals, |a| a.to_bytes());
                p.op("bits", &vals, |a| halo2curves::ff::PrimeFieldBits::to_le_bits(a));
            }));
        };
    }
    h2c_monitor::for_each_field!(fields);
    macro_rules! towers {
        ($($n:expr, $t:ty;)*) => {$(
            jobs.push(job($n, move |t: &mut Task| {
                type F = $t;
                let mut vals = vec![F::ZERO, F::ONE, -F::ONE];
                for _ in 0..3 {
                    vals.push(F::random(Rng::new(t.rng.u64())));
                }
                field(&mut P { t, rep }, &vals);
            }));
        )*};
    }
    towers! {
        "bn256::Fq2", halo2curves::bn256::Fq2;
        "bn256::Fq6", halo2curves::bn256::Fq6;
        "bn256::Fq12", halo2curves::bn256::Fq12;
        "bls12381::Fq2", halo2curves::bls12381::Fq2;
        "bls12381::Fq6", halo2curves::bls12381::Fq6;
        "bls12381::Fq12", halo2curves::bls12381::Fq12;
    }
    macro_rules! gts {
        ($($n:expr, $e:ty, $s:ty;)*) => {$(
            jobs.push(job($n, move |t: &mut Task| {
                type G = <$e as halo2curves::pairing::Engine>::Gt;
                let g = <$e>::pairing(&PrimeCurveAffine::generator(), &PrimeCurveAffine::generator());
                let s: Vec<$s> = (0..3).map(|_| <$s>::from(t.rng.u64())).collect();
                let vals = vec![G::identity(), g, -g, g * s[0]];
                let pairs: Vec<(G, G)> = (0..vals.len()).flat_map(|i| [(vals[i], vals[i]), (vals[i], vals[(i + 1) % vals.len()])]).collect();
                let cp: Vec<(G, G, u8)> = pairs.iter().map(|x| (x.0, x.1, 1)).collect();
                let sm: Vec<(G, $s)> = vec![(vals[3], s[2])];
                let mut p = P { t, rep };
                p.op("ct_eq", &pairs, |(a, b)| a.ct_eq(b));
                p.op("select", &cp, |(a, b, c)| G::conditional_select(a, b, Choice::from(*c & 1)));
                p.op("is_identity", &vals, |a| a.is_identity());
                p.op("add", &pairs, |(a, b)| a + b);
                p.op("sub", &pairs, |(a, b)| a - b);
                p.op("neg", &vals, |a| -*a);
                p.op("double", &vals, |a| a.double());
                p.op("mul", &sm, |(a, s)| a * s);
            }));
        )*};
    }
    gts! {
        "bn256::Gt", halo2curves::bn256::Bn256, halo2curves::bn256::Fr;
        "bls12381::Gt", halo2curves::bls12381::Bls12381, halo2curves::bls12381::Fr;
        "pluto::Gt", halo2curves::pluto_eris::Pluto, halo2curves::pluto_eris::Fq;
    }
    macro_rules! curves {
        ($t:ty) => {
            jobs.push(job(<$t as PC>::NAME, move |t: &mut Task| {
                type C = $t;
                type A = <C as PC>::Aff;
                type S = <C as PC>::SF;
                let g = C::generator();
                let s: Vec<S> = (0..3).map(|_| S::from(t.rng.u64())).collect();
                let vals = vec![C::identity(), g, -g, g * s[0], g * s[1]];
                let pairs: Vec<(C, C)> = (0..vals.len()).flat_map(|i| [(vals[i], vals[i]), (vals[i], vals[(i + 1) % vals.len()])]).collect();
                let av: Vec<A> = vals.iter().map(|v| v.to_affine()).collect();
                let ap: Vec<(A, A)> = (0..vals.len()).flat_map(|i| [(av[i], av[i]), (av[i], av[(i + 1) % av.len()])]).collect();
                let mp: Vec<(C, A)> = (0..vals.len()).flat_map(|i| [(vals[i], av[i]), (vals[i], av[(i + 1) % av.len()])]).collect();
                let cp: Vec<(C, C, u8)> = pairs.iter().map(|x| (x.0, x.1, 1)).collect();
                let ca: Vec<(A, A, u8)> = ap.iter().map(|x| (x.0, x.1, 1)).collect();
                let sm: Vec<(C, S)> = vec![(vals[3], s[2]), (vals[0], -s[2])];
                let sa: Vec<(A, S)> = vec![(av[3], s[2])];
                let mut p = P { t, rep };
                p.op("ct_eq", &pairs, |(a, b)| a.ct_eq(b));
                p.op("affine ct_eq", &ap, |(a, b)| a.ct_eq(b));
                p.op("select", &cp, |(a, b, c)| C::conditional_select(a, b, Choice::from(*c & 1)));
                p.op("affine select", &ca, |(a, b, c)| A::conditional_select(a, b, Choice::from(*c & 1)));
                p.op("is_identity", &vals, |a| a.is_identity());
                p.op("affine is_identity", &av, |a| a.is_identity());
                p.op("add", &pairs, |(a, b)| a + b);
                p.op("sub", &pairs, |(a, b)| a - b);
                p.op("mixed add", &mp, |(a, b)| a + b);
                p.op("mixed sub", &mp, |(a, b)| a - b);
                p.op("affine add", &ap, |(a, b)| a + b);
                p.op("neg", &vals, |a| -*a);
                p.op("affine neg", &av, |a| -*a);
                p.op("double", &vals, |a| a.double());
                p.op("to_curve", &av, |a| a.to_curve());
                p.op("mul", &sm, |(a, s)| a * s);
                p.op("affine mul", &sa, |(a, s)| a * s);
                p.op("endo", &vals, |a| halo2curves::CurveExt::endo(a));
                let l3: Vec<[C; 3]> = (0..vals.len()).map(|i| [vals[i], vals[(i + 1) % vals.len()], vals[(i + 2) % vals.len()]]).collect();
                p.op("sum", &l3, |v| v.iter().sum::<C>());
            }));
        };
    }
    for_each_curve!(curves);
    run(conf, jobs);
}
