//! C16: the FFT against the definition of the discrete Fourier transform.
use h2c_monitor::curves::{PASTA_P, PASTA_Q};
use h2c_monitor::fields::PF;
use h2c_monitor::*;
use halo2curves::ff::PrimeField;
use halo2curves::fft::{best_fft, recursive_butterfly_arithmetic};
use num_bigint::BigUint as B;
use num_traits::{One, Zero};
use rayon::ThreadPool;
use std::sync::OnceLock;

const POOLS: [usize; 9] = [1, 2, 3, 4, 5, 8, 16, 32, 64];
fn pools() -> &'static Vec<ThreadPool> {
    static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    P.get_or_init(|| {
        POOLS
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

/// A primitive 2^k-th root of unity, from the published generator.
fn root(p: &B, gen: u64, k: u32, r: &mut Rng) -> B {
    let n = B::one() << k;
    let w = b(gen).modpow(&((p - 1u32) / &n), p);
    // any odd power is primitive too
    let e = if r.one_in(3) { b(2 * r.below(1 << 20) as u64 + 1) } else { B::one() };
    w.modpow(&e, p)
}
fn horner(a: &[B], x: &B, p: &B) -> B {
    let mut v = B::zero();
    for c in a.iter().rev() {
        v = (v * x + c) % p;
    }
    v
}
/// The transform of `a` combined with the powers of z, without any transform:
/// sum_i z^i sum_j a_j w^(ij) = sum_j a_j (z^n - 1) / (z w^j - 1), where w^n = 1.
fn combination(a: &[B], w: &B, z: &B, p: &B) -> Option<B> {
    let mut d = vec![];
    let mut x = z.clone();
    let mut prefix = vec![B::one()];
    for j in 0..a.len() {
        let y = (&x + p - 1u32) % p;
        if y.is_zero() {
            return None;
        }
        prefix.push(&prefix[j] * &y % p);
        d.push(y);
        x = x * w % p;
    }
    // all the divisions with one inversion
    let mut inv = invm(prefix.last().unwrap(), p)?;
    let mut s = B::zero();
    for j in (0..a.len()).rev() {
        s = (s + &a[j] * (&inv * &prefix[j] % p)) % p;
        inv = inv * &d[j] % p;
    }
    let zn = (z.modpow(&b(a.len() as u64), p) + p - 1u32) % p;
    Some(s * zn % p)
}
fn two_adicity(p: &B) -> u32 {
    (p - 1u32).trailing_zeros().unwrap() as u32
}
fn bitrev<T>(a: &mut [T]) {
    let n = a.len();
    let l = n.trailing_zeros();
    for i in 0..n {
        let j = if l == 0 { 0 } else { i.reverse_bits() >> (usize::BITS - l) };
        if i < j {
            a.swap(i, j);
        }
    }
}
fn input(r: &mut Rng, g: &Gen, n: usize) -> (usize, Vec<B>) {
    // the structured patterns have sparse transforms, which hide wrong factors: the
    // few long vectors are dense
    let pat = if n > 1 << 12 { 6 + r.below(2) } else { r.below(8) };
    let one = g.val(r);
    let at = r.below(n);
    let v = (0..n)
        .map(|i| match pat {
            0 => one.clone(),
            1 if i == at => one.clone(),
            1 => B::zero(),
            2 => &g.p - 1u32,
            3 => {
                if i % 2 == 0 {
                    one.clone()
                } else {
                    (&g.p - &one) % &g.p
                }
            }
            4 => b(i as u64),
            6 => g.uniform(r),
            5 if i >= n / 2 => B::zero(),
            _ => g.val(r),
        })
        .collect();
    (pat, v)
}

/// What a transform needs to know of a field.
trait FT: PrimeField + Send + Sync + 'static {
    const NAME: &'static str;
    const GEN: u64;
    fn p() -> B;
    fn limbs() -> usize {
        (Self::NUM_BITS as usize + 63) / 64
    }
    fn val(&self) -> B {
        le(self.to_repr().as_ref())
    }
    fn of(n: &B) -> Self {
        let mut r = Self::Repr::default();
        r.as_mut().copy_from_slice(&to_le(n, 8 * Self::limbs()));
        Option::from(Self::from_repr(r)).unwrap()
    }
}
macro_rules! ft {
    ($t:ty) => {
        impl FT for $t {
            const NAME: &'static str = <$t as PF>::NAME;
            const GEN: u64 = <$t as PF>::GEN;
            fn p() -> B {
                <$t as PF>::p()
            }
        }
    };
}
for_each_field!(ft);
// the fields of the curves that the library re-exports from another crate
impl FT for halo2curves::pasta::Fp {
    const NAME: &'static str = "pasta::Fp";
    const GEN: u64 = 5;
    fn p() -> B {
        hex(PASTA_P)
    }
}
impl FT for halo2curves::pasta::Fq {
    const NAME: &'static str = "pasta::Fq";
    const GEN: u64 = 5;
    fn p() -> B {
        hex(PASTA_Q)
    }
}

fn field<F: FT>(t: &mut Task, n: usize, lo: u32, hi: u32) {
    let p = F::p();
    let g = Gen::new(&p, F::limbs(), &t.conf.dict.clone());
    let s = two_adicity(&p);
    t.check(F::S == s, "two-adicity", || format!("{} vs {s}", F::S));
    for case in 0..n {
        let span = (hi - lo + 1) as usize;
        let mut k = (lo + (case % span) as u32).min(s);
        if let Some(w) = if lo > 12 { None } else { fresh_size(&mut t.rng, 1 << 18) } {
            // as a logarithm, or as a length
            let f = if w <= 18 && t.rng.bool() { w as u32 } else { w.max(1).ilog2() + t.rng.below(2) as u32 };
            k = if f > hi + 5 && case % 8 != 0 { k } else { f.min(18).min(s) };
        }
        let len = 1usize << k;
        let w = root(&p, F::GEN, k, &mut t.rng);
        let (pat, a) = input(&mut t.rng, &g, len);
        let pi = t.rng.below(POOLS.len());
        let pl = &pools()[pi];
        let th = POOLS[pi];
        let d = || {
            let mut s = format!("log_n={k} threads={th} pattern={pat} omega={w:x}");
            if len <= 8 {
                s += &format!(" input {a:x?}");
            }
            s
        };
        t.seen(&(&a, &w, th), len > 1);
        t.class(&format!("log_n {k}"));
        t.class(&format!("threads {th}"));
        t.class(if k <= (th as u32).ilog2() { "serial branch" } else { "recursive branch" });
        t.sample(d);
        let om = F::of(&w);
        let va: Vec<F> = a.iter().map(F::of).collect();
        let mut out = va.clone();
        if t.guard("fft", d, || pl.install(|| best_fft(&mut out, om, k))).is_none() {
            continue;
        }
        // every output on small sizes, a few of them beyond ...
        let idx: Vec<usize> = if len <= 64 {
            (0..len).collect()
        } else {
            let mut v: Vec<usize> = (0..4).map(|_| t.rng.below(len)).collect();
            v.extend([0, len / 2, len - 1]);
            v
        };
        for i in idx {
            let x = w.modpow(&b(i as u64), &p);
            let e = horner(&a, &x, &p);
            let got = out[i].val();
            t.check(got == e, "fft", || format!("output {i}: {got:x} instead of {e:x}; {}", d()));
        }
        // ... and all of them in one random combination
        if len > 64 {
            let z = g.uniform(&mut t.rng);
            let o: Vec<B> = out.iter().map(|v| v.val()).collect();
            let got = horner(&o, &z, &p);
            if let Some(e) = combination(&a, &w, &z, &p) {
                t.class("all outputs in a random combination");
                t.check(got == e, "fft", || format!("outputs combined with powers of {z:x}: {got:x} instead of {e:x}; {}", d()));
            }
        }
        // the other public entry point, on bit-reversed input
        if len >= 2 {
            let mut v = va.clone();
            bitrev(&mut v);
            let mut tw = vec![];
            let mut x = F::ONE;
            for _ in 0..len / 2 {
                tw.push(x);
                x *= om;
            }
            if t.guard("butterfly", d, || pl.install(|| recursive_butterfly_arithmetic(&mut v, len, 1, &tw))).is_some() {
                t.check(v == out, "butterfly", d);
            }
        }
        // inverse transform restores the input, in another pool
        let pl2 = &pools()[t.rng.below(POOLS.len())];
        let winv = F::of(&invm(&w, &p).unwrap_or(B::one()));
        let ninv = F::of(&invm(&b(len as u64), &p).unwrap());
        if t.guard("inverse", d, || {
            pl2.install(|| best_fft(&mut out, winv, k));
            out.iter_mut().for_each(|x| *x *= ninv);
        })
        .is_some()
        {
            t.check(out == va, "inverse", d);
        }
        // lengths that do not match are refused
        if case % 16 == 0 {
            t.begin("length");
            for m in [len - 1, len + 1, len * 2, len / 2] {
                if m == len {
                    continue;
                }
                let mut v = vec![F::ONE; m];
                let r = quiet(|| best_fft(&mut v, om, k));
                t.check(r.is_err(), "length", || format!("length {m} with log_n {k} accepted"));
            }
        }
    }
}

macro_rules! group {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type S = <$t as PC>::SF;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 12);
            let c = &w.c;
            let s = two_adicity(&c.n);
            for case in 0..n {
                // one long vector, and lengths the dictionary suggests
                let k = if case == n - 1 { 8 } else { (case % 6) as u32 };
                let k = fresh_size(&mut t.rng, 1 << 9).map(|w| if w <= 9 { w as u32 } else { w.ilog2() }).unwrap_or(k).min(s);
                let len = 1usize << k;
                let om = root(&c.n, <S as PF>::GEN, k, &mut t.rng);
                let pts: Vec<(B, RP)> = (0..len).map(|_| w.sub_point(&mut t.rng)).collect();
                let a: Vec<B> = pts.iter().map(|x| x.0.clone()).collect();
                let va: Vec<C> = pts.iter().map(|x| w.proj(&mut t.rng, &x.1)).collect();
                let pi = t.rng.below(POOLS.len());
                let pl = &pools()[pi];
                let th = POOLS[pi];
                let d = || format!("log_n={k} threads={th} omega={om:x} logs {:x?}", &a[..len.min(8)]);
                t.seen(&(&a, &om, th), len > 1);
                t.class(&format!("log_n {k}"));
                t.class(&format!("threads {th}"));
                t.sample(d);
                let mut out = va.clone();
                if t.guard("fft", d, || pl.install(|| best_fft(&mut out, C::sc(&om), k))).is_none() {
                    continue;
                }
                let logs: Vec<B> = (0..len).map(|i| horner(&a, &om.modpow(&b(i as u64), &c.n), &c.n)).collect();
                for i in 0..len {
                    if len > 8 && i % 5 != case % 5 {
                        continue;
                    }
                    let e = c.smul(&logs[i], &c.gen);
                    t.check(out[i].is(c, &e), "fft", || format!("output {i}: got {:x?}; {}", out[i].xyz(), d()));
                }
                let winv = C::sc(&invm(&om, &c.n).unwrap_or(B::one()));
                let ninv: S = C::sc(&invm(&b(len as u64), &c.n).unwrap());
                if t.guard("inverse", d, || {
                    best_fft(&mut out, winv, k);
                    out.iter_mut().for_each(|x| *x *= ninv);
                })
                .is_some()
                {
                    for i in 0..len {
                        t.check(out[i].is(c, &pts[i].1), "inverse", || format!("entry {i}; {}", d()));
                    }
                }
            }
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let thorough = conf.thorough;
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            for part in 0..2 {
                jobs.push(job(format!("{}/fft small {part}", <$t as FT>::NAME), move |t: &mut Task| {
                    let n = t.n(90);
                    field::<$t>(t, n, 0, 8)
                }));
            }
            jobs.push(job(format!("{}/fft large", <$t as FT>::NAME), move |t: &mut Task| {
                let n = t.n(8);
                field::<$t>(t, n, 9, if thorough { 16 } else { 12 })
            }));
        };
    }
    for_each_field!(add);
    add!(halo2curves::pasta::Fp);
    add!(halo2curves::pasta::Fq);
    macro_rules! huge {
        ($t:ty, $lo:expr, $hi:expr) => {
            jobs.push(job(format!("{}/fft huge", <$t as PF>::NAME), move |t: &mut Task| {
                let (lo, hi): (u32, u32) = ($lo, $hi);
                let n = (hi - lo + 1) as usize;
                field::<$t>(t, if thorough { 2 * n } else { n }, lo, hi)
            }));
        };
    }
    huge!(halo2curves::bn256::Fr, 13, if thorough { 20 } else { 18 });
    huge!(halo2curves::bls12381::Fr, 13, 16);
    huge!(halo2curves::pluto_eris::Fp, 13, 15);
    macro_rules! addc {
        ($t:ty) => {
            let slow = if <$t as PC>::FS > 48 { 2 } else { 1 };
            jobs.push(job(format!("{}/group fft", <$t as PC>::NAME), move |t: &mut Task| {
                let n = t.n(24 / slow);
                group!($t)(t, n)
            }));
        };
    }
    for_each_curve!(addc);
    run(conf, jobs);
}
