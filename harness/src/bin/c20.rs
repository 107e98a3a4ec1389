//! C20: memory, registers, and overflow.  All scripts and a list of hostile
//! calls run in builds that trap what cannot be seen in results: overflow and
//! debug assertions, AddressSanitizer.  Operands are put against unmapped
//! pages.  (c20r watches the registers.)
use h2c_monitor::fields::PF;
use h2c_monitor::gen::make;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{BatchInvert, Field, PrimeField};
use halo2curves::ff_ext::cubic::CubicExtField;
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::fft::best_fft;
use halo2curves::group::cofactor::CofactorGroup;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use std::hint::black_box;
#[allow(dead_code)]
#[path = "../parts/script.rs"]
mod script;
use script::*;
use std::sync::Arc;

// --------------------------------------------------------------- guarded pages

/// Three pages, the outer two unmapped.
struct Guarded(*mut u8);
const PAGE: usize = 4096;
impl Guarded {
    fn new() -> Guarded {
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), 3 * PAGE, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let mid = (p as *mut u8).add(PAGE);
            assert_eq!(libc::mprotect(mid as *mut _, PAGE, libc::PROT_READ | libc::PROT_WRITE), 0);
            Guarded(mid)
        }
    }
    /// v against the page before or after.
    fn put<T: Copy>(&self, end: bool, v: T) -> &T {
        let n = std::mem::size_of::<T>();
        assert!(PAGE % std::mem::align_of::<T>() == 0 && n % std::mem::align_of::<T>() == 0 && n <= PAGE);
        unsafe {
            let p = if end { self.0.add(PAGE - n) } else { self.0 } as *mut T;
            std::ptr::write(p, v);
            &*p
        }
    }
    /// Bytes against the page after (or before).
    fn bytes(&self, end: bool, v: &[u8]) -> &[u8] {
        assert!(v.len() <= PAGE);
        unsafe {
            let p = if end { self.0.add(PAGE - v.len()) } else { self.0 };
            std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
            std::slice::from_raw_parts(p, v.len())
        }
    }
    fn readonly(&self, yes: bool) {
        let f = if yes { libc::PROT_READ } else { libc::PROT_READ | libc::PROT_WRITE };
        unsafe { assert_eq!(libc::mprotect(self.0 as *mut _, PAGE, f), 0) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.0.sub(PAGE) as *mut _, 3 * PAGE) };
    }
}

fn guarded_field<F: PF>(t: &mut Task) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let (ga, gb, gc) = (Guarded::new(), Guarded::new(), Guarded::new());
    let mut r = t.rng.clone();
    for i in 0..t.n(3000) {
        let (va, vb) = (g.val(&mut r), g.val(&mut r));
        let (x, y): (F, F) = (make(&g, &mut r, &va), make(&g, &mut r, &vb));
        let (ea, eb) = (i & 1 == 0, i & 2 == 0);
        for gd in [&ga, &gb, &gc] {
            gd.readonly(false);
        }
        let (pa, pb) = (ga.put(ea, x), gb.put(eb, y));
        let wide = gc.bytes(ea, &r.bytes(F::size()));
        ga.readonly(true);
        gb.readonly(true);
        gc.readonly(true);
        t.seen(&(&va, &vb, i % 4), true);
        t.class(match i % 4 {
            0 => "ends of pages",
            1 => "start, end",
            2 => "end, start",
            _ => "starts of pages",
        });
        let d = || format!("a={va:x} b={vb:x}");
        let got = t.guard("operands against unmapped pages", d, || {
            let mut v = vec![pa.i_add(pb), pa.i_sub(pb), pa.i_mul(pb), pa.i_neg(), pa.i_double(), pa.i_square(), *pa + pb, *pa * pb, *pa - pb];
            v.push(F::of(&pa.val()));
            v.push(Option::<F>::from(pb.invert()).unwrap_or(F::ZERO));
            v.push(pa.pow_vartime([5u64]));
            v.push(F::from_raw_bytes(wide).unwrap_or(F::ZERO));
            v.push(F::read_raw(&mut &*wide).unwrap_or(F::ZERO));
            v.push(F::i_from_bytes(wide).unwrap_or(F::ZERO));
            v.push(F::conditional_select(pa, pb, 1u8.into()));
            let _ = (pa == pb, pa.cmp(pb), bool::from(pa.ct_eq(pb)), pa.legendre(), pa.to_raw_bytes());
            v
        });
        if let Some(v) = got {
            let p = &g.p;
            let ok = v[0].val() == (&va + &vb) % p && v[2].val() == (&va * &vb) % p && v[9].val() == va;
            t.check(ok, "guarded result", || format!("a={va:x} b={vb:x}"));
        }
    }
}

/// Inputs as slices that end where mapped memory ends.
macro_rules! guarded_lists {
    ($t:ty) => {
        |t: &mut Task| {
            type C = $t;
            type A = <$t as PC>::Aff;
            type S = <$t as PC>::SF;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng.clone(), 12);
            let mut r = t.rng.clone();
            for i in 0..t.n(24) {
                let n = 1 + r.below(18);
                let pts: Vec<A> = (0..n).map(|_| C::aff(&w.sub_point(&mut r).1)).collect();
                let sc: Vec<S> = (0..n).map(|_| S::of(&w.s.val(&mut r))).collect();
                let bytes_of = |p: *const u8, len: usize| unsafe { std::slice::from_raw_parts(p, len) };
                let (ga, gs) = (Guarded::new(), Guarded::new());
                let end = i % 2 == 0;
                let pb = ga.bytes(end, bytes_of(pts.as_ptr() as *const u8, std::mem::size_of_val(&pts[..])));
                let sb = gs.bytes(end, bytes_of(sc.as_ptr() as *const u8, std::mem::size_of_val(&sc[..])));
                ga.readonly(true);
                gs.readonly(true);
                let gp: &[A] = unsafe { std::slice::from_raw_parts(pb.as_ptr() as *const A, n) };
                let gsc: &[S] = unsafe { std::slice::from_raw_parts(sb.as_ptr() as *const S, n) };
                t.seen(&(n, i), true);
                t.class("lists against unmapped pages");
                let ok = t.guard("lists against unmapped pages", || format!("{n} terms"), || {
                    let mut a = C::identity();
                    msm_serial(gsc, gp, &mut a);
                    let b = msm_best(&sc, &pts);
                    a == b && msm_parallel(gsc, gp) == b && msm_best(gsc, gp) == b
                });
                if let Some(ok) = ok {
                    t.check(ok, "guarded lists", || format!("{n} terms"));
                }
            }
        }
    };
}

// --------------------------------------------------------------- hostile calls

fn bad(m: &str) -> bool {
    ["attempt to ", "overflow", "out of bounds", "out of range", "unsafe precondition", "misaligned", "byte index", "copy_from_slice"].iter().any(|k| m.contains(k))
}

/// A call that must return.
fn must<R>(t: &mut Task, name: &'static str, d: impl FnOnce() -> String, f: impl FnOnce() -> R) {
    t.class(name);
    let r = t.guard(name, d, f);
    black_box(&r);
}
/// A misuse: it may refuse with a panic, but not by running into overflow or out of a slice.
fn may_refuse<R>(t: &mut Task, name: &'static str, d: impl FnOnce() -> String, f: impl FnOnce() -> R) {
    t.class(name);
    t.begin(name);
    match quiet(f) {
        Ok(r) => {
            black_box(&r);
        }
        Err(m) => {
            t.class("refused");
            t.check(!bad(&m), name, || format!("{m}; {}", d()));
        }
    }
}

fn hostile_bytes(r: &mut Rng, n: usize, p: &B) -> Vec<u8> {
    let mut v = match r.below(8) {
        0 => vec![0u8; n],
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        3 => {
            let d = r.below(5) as u64;
            let mut v = to_le(&(p + d), n.max(64));
            v.truncate(n);
            v
        }
        4 => {
            let mut v = to_le(&(p - 1u32 - b(r.below(3) as u64)), n.max(64));
            v.truncate(n);
            if r.bool() {
                v.reverse();
            }
            v
        }
        _ => r.bytes(n),
    };
    for _ in 0..r.below(3) {
        let i = r.below(n.max(1));
        if i < v.len() {
            v[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xc0, 0xe0, 0xff]);
        }
    }
    v
}

fn hostile_field<F: PF>(t: &mut Task) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let n = F::size();
    let mut r = t.rng.clone();
    for i in 0..t.n(1500) {
        let v = hostile_bytes(&mut r, n, &g.p);
        let any_len = r.below(3 * n);
        let odd = hostile_bytes(&mut r, any_len, &g.p);
        t.seen(&(&v, &odd), true);
        t.sample(|| format!("{v:02x?} {odd:02x?}"));
        let d = || format!("{v:02x?}");
        must(t, "decode", d, || (F::i_from_bytes(&v), Option::<F>::from(F::from_repr(F::repr_from(&v))), F::from_raw_bytes(&v)));
        must(t, "decode any length", || format!("{odd:02x?}"), || (F::from_raw_bytes(&odd), F::read_raw(&mut &odd[..]).ok()));
        must(t, "serde", || format!("{odd:02x?}"), || {
            let text: String = odd.iter().map(|b| format!("{b:02x}")).collect();
            (
                bincode::deserialize::<F>(&odd).ok(),
                serde_json::from_slice::<F>(&odd).ok(),
                serde_json::from_str::<F>(&format!("\"{text}\"")).ok(),
                serde_json::from_str::<F>(&format!("\"0x{text}\"")).ok(),
                serde_json::from_str::<Vec<F>>(&format!("[\"\", \"0x\", \"é{}\"]", &text[..text.len().min(62)])).ok(),
            )
        });
        must(t, "from_raw", d, || F::i_from_raw(&limbs(&le(&v), F::L)));
        must(t, "uniform", d, || F::UNIFORM.iter().map(|k| F::uniform(&hostile_bytes(&mut Rng::new(i as u64), *k, &g.p))).collect::<Vec<_>>());
        let s: String = String::from_utf8_lossy(&odd).to_string();
        must(t, "from_str_vartime", || s.clone(), || (F::from_str_vartime(&s), F::from_str_vartime("٣"), F::from_str_vartime(""), F::from_str_vartime(&"9".repeat(200))));
        let x = F::i_from_bytes(&v).unwrap_or(F::ONE);
        let k = r.below(7);
        let e: Vec<u64> = (0..k).map(|_| *Rng::new(i as u64).pick(&[0, 1, u64::MAX, 1 << 63])).collect();
        must(t, "pow of any length", || format!("{x:?} {e:x?}"), || (x.pow(&e), x.pow_vartime(&e)));
        must(t, "wide conversions", d, || (F::from(u64::MAX), F::from_u128(u128::MAX), F::from(r.u64()), F::i_lex_largest(&x), x.to_le_bits(), F::char_le_bits()));
        must(t, "writers", d, || {
            let mut small = [0u8; 13];
            let mut ok = vec![];
            (x.write_raw(&mut &mut small[..]).is_err(), x.write_raw(&mut ok).is_ok(), x.write_raw(&mut &mut [][..]).is_err())
        });
        must(t, "empty lists", || String::new(), || {
            let mut e: Vec<F> = vec![];
            let p = e.batch_invert();
            (p, Vec::<F>::new().iter().sum::<F>(), Vec::<F>::new().iter().product::<F>())
        });
        if i % 16 == 0 {
            let len = r.below(9);
            let mut a: Vec<F> = vec![x; len];
            let k = r.below(5) as u32;
            may_refuse(t, "fft of a mismatched length", || format!("{len} {k}"), || best_fft(&mut a, -F::ONE, k));
            let mut a: Vec<F> = vec![x; 1 << k];
            must(t, "fft with any root", || format!("{x:?} {k}"), || best_fft(&mut a, x, k));
            let (o, k) = (odd.clone(), odd.len());
            if k >= n {
                // documented to trust its input, but it reads the bytes of the element only
                may_refuse(t, "decode unchecked, too long", || format!("{o:02x?}"), || F::from_raw_bytes_unchecked(&o[..n]).i_add(&F::ONE).to_raw_bytes());
            }
            // shorter than the element
            may_refuse(t, "read unchecked", || format!("{o:02x?}"), || F::read_raw_unchecked(&mut &o[..]));
        }
    }
}

macro_rules! hostile_curve {
    ($t:ty) => {
        |t: &mut Task| {
            type C = $t;
            type A = <$t as PC>::Aff;
            type S = <$t as PC>::SF;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng.clone(), 12);
            let mut r = t.rng.clone();
            let p = w.g.p.clone();
            let fs = <C as PC>::FS;
            for i in 0..t.n(400) {
                let q = w.point(&mut r);
                let (qa, qp): (A, C) = (C::aff(&q), w.proj(&mut r, &q));
                let mut enc = qa.to_bytes();
                let mut unc = qa.to_uncompressed();
                if i % 4 != 0 {
                    let (n, m) = (enc.as_ref().len(), unc.as_ref().len());
                    enc.as_mut().copy_from_slice(&hostile_bytes(&mut r, n, &p));
                    unc.as_mut().copy_from_slice(&hostile_bytes(&mut r, m, &p));
                }
                let any_len = r.below(4 * fs);
                let raw = if r.bool() { hostile_bytes(&mut r, any_len, &p) } else { [hostile_bytes(&mut r, fs, &p), hostile_bytes(&mut r, fs, &p), hostile_bytes(&mut r, fs, &p)].concat() };
                t.seen(&(enc.as_ref(), unc.as_ref(), &raw), true);
                let d = || format!("enc={:02x?} unc={:02x?} raw={raw:02x?}", enc.as_ref(), unc.as_ref());
                t.sample(d);
                must(t, "decode", d, || (bool::from(A::from_bytes(&enc).is_some()), bool::from(C::from_bytes(&enc).is_some()), bool::from(A::from_uncompressed(&unc).is_some())));
                must(t, "decode unchecked", d, || {
                    (opt(A::from_bytes_unchecked(&enc)).map(|a| bool::from(a.is_on_curve())), opt(A::from_uncompressed_unchecked(&unc)).map(|a| bool::from(a.is_on_curve())), opt(C::from_bytes_unchecked(&enc)).is_some())
                });
                must(t, "decode raw", d, || {
                    (A::from_raw_bytes(&raw).is_some(), C::from_raw_bytes(&raw).is_some(), A::read_raw(&mut &raw[..]).is_ok(), C::read_raw(&mut &raw[..]).is_ok(), A::from_raw_bytes(&raw[..raw.len().min(2 * fs)]).is_some())
                });
                may_refuse(t, "read unchecked", d, || (A::read_raw_unchecked(&mut &raw[..]), C::read_raw_unchecked(&mut &raw[..])));
                must(t, "serde", d, || {
                    let text: String = raw.iter().map(|b| format!("{b:02x}")).collect();
                    let et: String = enc.as_ref().iter().map(|b| format!("{b:02x}")).collect();
                    (
                        bincode::deserialize::<A>(&raw).is_ok(),
                        bincode::deserialize::<C>(enc.as_ref()).is_ok(),
                        serde_json::from_slice::<A>(&raw).is_ok(),
                        serde_json::from_str::<A>(&format!("\"{text}\"")).is_ok(),
                        serde_json::from_str::<C>(&format!("\"0x{et}\"")).is_ok(),
                        serde_json::from_str::<A>(&format!("\"{et}\"")).is_ok(),
                    )
                });
                // points off the curve are only to be had from the unchecked
                // decoders: nothing is promised of them but memory safety
                may_refuse(t, "off the curve", d, || {
                    let a = opt(A::from_uncompressed_unchecked(&unc)).unwrap_or(qa);
                    let c = a.to_curve();
                    let s = S::of(&w.s.val(&mut Rng::new(i as u64)));
                    let _ = (c + qp, c.double(), c * s, c - a, bool::from(c.is_on_curve()), bool::from(c.is_identity()), c == qp, bool::from(c.is_torsion_free()), -c, c + a);
                    let _ = (c.clear_cofactor(), opt(c.into_subgroup()).is_some(), a.to_bytes(), a.to_uncompressed(), a.to_raw_bytes(), c.to_bytes());
                    if i % 8 == 0 {
                        let mut acc = C::identity();
                        msm_serial(&[s, s], &[a, qa], &mut acc);
                    }
                });
                must(t, "new_jacobian", d, || {
                    let (x, y, z) = qp.jacobian_coordinates();
                    (opt(C::new_jacobian(x, y, z)).is_some(), opt(C::new_jacobian(y, x, z)).is_some(), opt(C::new_jacobian(x, y, x - x)).is_some(), opt(A::from_xy(y, x)).is_some())
                });
                if i % 10 == 0 {
                    must(t, "batch_normalize", d, || {
                        let l = [qp, C::identity(), qp];
                        let mut out = [C::aff(&None); 3];
                        C::batch_normalize(&l, &mut out);
                        C::batch_normalize(&[], &mut []);
                    });
                    may_refuse(t, "batch_normalize of mismatched lengths", d, || {
                        let mut out = [C::aff(&None); 2];
                        C::batch_normalize(&[qp, qp, qp], &mut out);
                    });
                    let (k, m) = (r.below(40), r.below(40));
                    may_refuse(t, "msm of mismatched lengths", || format!("{k} {m}"), || msm_best(&vec![S::ONE; k], &vec![qa; m]));
                    may_refuse(t, "msm of mismatched lengths", || format!("{k} {m}"), || {
                        let mut acc = C::identity();
                        msm_serial(&vec![S::ONE; k], &vec![qa; m], &mut acc)
                    });
                    may_refuse(t, "msm of mismatched lengths", || format!("{k} {m}"), || msm_parallel(&vec![S::ONE; k], &vec![qa; m]));
                    must(t, "msm of nothing", || String::new(), || {
                        let mut acc = C::identity();
                        msm_serial::<A>(&[], &[], &mut acc);
                        (msm_best::<A>(&[], &[]), msm_parallel::<A>(&[], &[]))
                    });
                    if <C as PC>::HAS_HASH {
                        let len = *r.pick(&[0usize, 1, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 5000]);
                        let msg = r.bytes(len);
                        let plen = r.below(300);
                        let pre = "é".repeat(plen / 2) + &"p".repeat(plen % 2);
                        may_refuse(t, "hash_to_curve", || format!("{len} {plen}"), || C::hash_to_curve(&pre)(&msg));
                        must(t, "hash_to_curve, short prefix", || format!("{len}"), || C::hash_to_curve("short")(&msg));
                    }
                }
            }
        }
    };
}

macro_rules! hostile_tower {
    ($jobs:expr, $name:expr, $fp:ty) => {
        $jobs.push(job(concat!("hostile/tower/", $name), |t: &mut Task| {
            type F1 = $fp;
            type F2 = QuadExtField<F1>;
            type F6 = CubicExtField<F2>;
            type F12 = QuadExtField<F6>;
            let g = Gen::of::<F1>(&t.conf.dict.clone());
            let n = 2 * F1::size();
            let mut r = t.rng.clone();
            for i in 0..t.n(400) {
                let v = hostile_bytes(&mut r, n, &g.p);
                let any_len = r.below(3 * n);
                let odd = hostile_bytes(&mut r, any_len, &g.p);
                t.seen(&(&v, &odd), true);
                let d = || format!("{v:02x?} {odd:02x?}");
                must(t, "decode", d, || {
                    let mut rep = <F2 as PrimeField>::Repr::default();
                    rep.as_mut().copy_from_slice(&v);
                    (opt(F2::from_repr(rep)), F2::from_raw_bytes(&v), F2::from_raw_bytes(&odd), F2::read_raw(&mut &odd[..]).ok(), bincode::deserialize::<F2>(&odd).ok(), serde_json::from_slice::<F2>(&odd).ok())
                });
                let e = |r: &mut Rng| F2::new(F1::of(&g.val(r)), F1::of(&g.val(r)));
                let s = |r: &mut Rng| F6::new(e(r), e(r), if r.one_in(3) { F2::ZERO } else { e(r) });
                let mut z = F12::new(s(&mut r), if r.one_in(3) { F6::ZERO } else { s(&mut r) });
                let k = *r.pick(&[0usize, 1, 2, 3, 5, 6, 11, 12, 13, 1000, usize::MAX, usize::MAX - 1, 1 << 63]);
                must(t, "frobenius_map of any power", || format!("{k}"), || {
                    use halo2curves::ff_ext::ExtField;
                    let (mut a, mut b, mut c) = (*z.c0().c0(), *z.c0(), z);
                    a.frobenius_map(k);
                    b.frobenius_map(k);
                    c.frobenius_map(k);
                    (a, b, c)
                });
                must(t, "cyclotomic_square of any element", d, || z.cyclotomic_square());
                must(t, "invert", d, || (opt(z.invert()), opt(z.c0().invert()), opt(z.c0().c0().invert()), opt(z.c0().c0().sqrt()), opt(F12::ZERO.invert()), opt(F6::ZERO.invert())));
                let el: Vec<u64> = (0..i % 5).map(|_| u64::MAX).collect();
                must(t, "pow of any length", d, || (z.c0().c0().pow(&el), z.pow_vartime(&el)));
            }
        }));
    };
}
macro_rules! hostile_pairing {
    ($jobs:expr, $name:expr, $e:ty, $g1:ty, $g2:ty) => {
        $jobs.push(job(concat!("hostile/pairing/", $name), |t: &mut Task| {
            use pairing::{Engine, MillerLoopResult, MultiMillerLoop};
            type G2P = <$e as MultiMillerLoop>::G2Prepared;
            let w1 = World::<$g1>::new(&t.conf.dict.clone(), &mut t.rng.clone(), 12);
            let w2 = World::<$g2>::new(&t.conf.dict.clone(), &mut t.rng.clone(), 12);
            let mut r = t.rng.clone();
            for i in 0..t.n(16) {
                let k = if i == 0 { 0 } else { r.below(5) };
                let sub = i % 2 == 0;
                let l: Vec<_> = (0..k)
                    .map(|_| match sub {
                        true => (<$g1>::aff(&w1.sub_point(&mut r).1), <$g2>::aff(&w2.sub_point(&mut r).1)),
                        false => (<$g1>::aff(&w1.point(&mut r)), <$g2>::aff(&w2.point(&mut r))),
                    })
                    .collect();
                t.seen(&i, true);
                let d = || format!("{l:?}");
                let f = || {
                    let q: Vec<G2P> = l.iter().map(|x| G2P::from(x.1)).collect();
                    let refs: Vec<_> = l.iter().zip(&q).map(|(x, q)| (&x.0, q)).collect();
                    let m = <$e as MultiMillerLoop>::multi_miller_loop(&refs);
                    let f = m.final_exponentiation();
                    let _ = (f + f, -f, f.double(), l.first().map(|x| <$e as Engine>::pairing(&x.0, &x.1)));
                };
                // of points outside of the subgroup the Miller value may be zero
                match sub {
                    true => must(t, "pairing of subgroup points", d, f),
                    false => may_refuse(t, "pairing of any curve points", d, f),
                }
            }
        }));
    };
}

/// n elements against the page after (or before).
fn slice<'a, T: Copy>(g: &'a Guarded, end: bool, v: &[T]) -> &'a mut [T] {
    let n = std::mem::size_of_val(v);
    assert!(n <= PAGE && PAGE % std::mem::align_of::<T>() == 0);
    unsafe {
        let p = if end { g.0.add(PAGE - n) } else { g.0 } as *mut T;
        std::ptr::copy_nonoverlapping(v.as_ptr(), p, v.len());
        std::slice::from_raw_parts_mut(p, v.len())
    }
}
/// A call with arguments that do not go together: it may panic in any way, but
/// not touch what lies around its arguments.
fn any_panic<R>(t: &mut Task, name: &'static str, f: impl FnOnce() -> R) {
    t.class(name);
    t.begin(name);
    t.class(match quiet(f) {
        Ok(r) => {
            black_box(&r);
            "mismatched arguments, answered"
        }
        Err(_) => "mismatched arguments, refused",
    });
}
/// Public functions over slices whose lengths the caller chooses.
fn hostile_loose(t: &mut Task) {
    use h::ff_ext::inverse::BYInverter;
    use h::ff_ext::jacobi::{jacobi, LInt};
    use h::fft::recursive_butterfly_arithmetic;
    use h::serde::{endian::Endian, Repr};
    type F = h::bn256::Fr;
    let (g1, g2) = (Guarded::new(), Guarded::new());
    let mut r = t.rng.clone();
    for i in 0..t.n(600) {
        let end = i % 2 == 0;
        let k = 1 + r.below(6);
        let n = 1usize << k;
        // as many as there should be, or other numbers
        let len = |r: &mut Rng, n: usize, max: usize| match r.below(3) {
            0 => n,
            1 => n.saturating_sub(1 + r.below(3)),
            _ => r.below(max),
        };
        let (la, lt) = (len(&mut r, n, 100), len(&mut r, n / 2, 100));
        let v: Vec<F> = (0..100).map(|i| F::from(i + 3)).collect();
        let chunk = *r.pick(&[1usize, 1, 1, 2, 3, n / 2]);
        t.seen(&(la, lt, n, chunk, i), true);
        t.sample(|| format!("n={n} a={la} twiddles={lt} step={chunk}"));
        let (a, w) = (slice(&g1, end, &v[..la]), slice(&g2, end, &v[..lt]));
        any_panic(t, "butterflies of mismatched lengths", || recursive_butterfly_arithmetic(a, n, chunk, w));
        let a = slice(&g1, end, &v[..la]);
        any_panic(t, "fft of mismatched lengths", || best_fft(a, F::from(5), k as u32));

        let (ll, lb) = (r.below(9), r.below(70));
        let (limbs, by) = (slice(&g1, end, &vec![0x0123_4567_89ab_cdefu64; ll]), slice(&g2, end, &vec![7u8; lb]));
        for e in [Endian::LE, Endian::BE] {
            any_panic(t, "byte orders of mismatched lengths", || e.to_bytes(by, limbs));
            any_panic(t, "byte orders of mismatched lengths", || e.from_bytes(by, limbs));
        }
        let (ln, ld) = (len(&mut r, 4, 9), len(&mut r, 4, 9));
        let val = |r: &mut Rng, n: usize| (0..n).map(|i| if i + 1 == n { r.u64() >> 34 } else { h2c_monitor::gen::limb(r, 0x30644e72e131a029) }).collect::<Vec<u64>>();
        let (vn, mut vd) = (val(&mut r, ln), val(&mut r, ld));
        if let Some(x) = vd.first_mut() {
            *x |= 1;
        }
        let (sn, sd) = (slice(&g1, end, &vn), slice(&g2, end, &vd));
        // with an even or no modulus the functions need not end
        if !sd.is_empty() && sd.iter().any(|x| *x != 0) {
            any_panic(t, "jacobi of any lengths", || jacobi::<5>(sn, sd));
            if sn.len() <= 5 && sd.len() <= 5 {
                any_panic(t, "inverses of any lengths", || BYInverter::<6>::new(sd, &[1]).invert::<5>(sn));
            }
        }
        any_panic(t, "LInt of any length", || {
            let (x, y) = (LInt::<4>::new(sn), LInt::<4>::new(sd));
            (&x + &y) == (&y + &x) && (&x - &y).is_negative()
        });
        let by = slice(&g1, end, &vec![7u8; lb]);
        any_panic(t, "Repr of any length", || Repr::<32>::from(&by[..]));
        let (x, y) = (r.below(40), r.below(40));
        any_panic(t, "Repr indexed anywhere", || {
            let mut p = Repr::<32>::from([5u8; 32]);
            p[x.min(y)..y].iter_mut().for_each(|b| *b = 1);
            (p[x], p[..y].len(), p[x..].len(), p[x..y].len())
        });
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![job("hostile/loose", hostile_loose as fn(&mut Task))];
    // scripts: everything else that is public, on all kinds of inputs
    let us: Vec<Arc<Unit>> = units(&conf.dict).into_iter().map(Arc::new).collect();
    for u in us {
        let n = ((0.6e6 * conf.scale) as usize / u.cost).clamp(1, 20000);
        if u.cost > 500_000 && !(u.name.ends_with("bn256::G1") || u.name.ends_with("secp256r1") || conf.scale > 3.0) {
            continue;
        }
        jobs.push(job(format!("script/{}", u.name), move |t: &mut Task| {
            for i in 0..n {
                let mut rec = Rec::default();
                t.begin("script");
                let mut r = Rng::new(t.rng.u64());
                (u.run)(&mut r, &mut rec);
                t.seen(&(rec.digest(), i), true);
                t.sample(|| format!("{}: {:x?}", rec.input, rec.items));
                t.class_n("operations", rec.items.len() as u64);
                for (op, m) in &rec.panics {
                    t.check(false, &format!("{op}/panic"), || m.clone());
                }
            }
        }));
    }
    macro_rules! f {
        ($t:ty) => {
            jobs.push(job(format!("hostile/{}", <$t as PF>::NAME), hostile_field::<$t>));
            jobs.push(job(format!("guard/{}", <$t as PF>::NAME), guarded_field::<$t>));
        };
    }
    h2c_monitor::for_each_field!(f);
    macro_rules! c {
        ($t:ty) => {
            jobs.push(job(format!("hostile/{}", <$t as PC>::NAME), hostile_curve!($t)));
            jobs.push(job(format!("guard/{}", <$t as PC>::NAME), guarded_lists!($t)));
        };
    }
    h2c_monitor::for_each_curve!(c);
    hostile_tower!(jobs, "bn256", h::bn256::Fq);
    hostile_tower!(jobs, "bls12381", h::bls12381::Fq);
    hostile_tower!(jobs, "pluto", h::pluto_eris::Fp);
    hostile_pairing!(jobs, "bn256", h::bn256::Bn256, h::bn256::G1, h::bn256::G2);
    hostile_pairing!(jobs, "bls12381", h::bls12381::Bls12381, h::bls12381::G1, h::bls12381::G2);
    hostile_pairing!(jobs, "pluto", h::pluto_eris::Pluto, h::pluto_eris::G1, h::pluto_eris::G2);
    run(conf, jobs);
}
