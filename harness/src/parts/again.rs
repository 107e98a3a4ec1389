//! The same call very many times, and the same places in memory holding other
//! arguments at the next call: what a count of calls, or a result kept for an
//! address, would turn into another answer.
use super::script::*;
use h2c_monitor::fields::PF;
use h2c_monitor::gen::make;
use h2c_monitor::*;
use halo2curves as h;
use halo2curves::ff::{BatchInvert, Field};
use halo2curves::fft::best_fft;
use halo2curves::group::{Curve, Group, GroupEncoding, UncompressedEncoding};
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use halo2curves::serde::SerdeObject;
use halo2curves::{CurveAffine, CurveExt};
use pairing::{Engine, MillerLoopResult, MultiMillerLoop};
use std::hint::{black_box, black_box as bb};

/// What was observed: calls made, and what went wrong.
#[derive(Default)]
pub struct Told {
    pub calls: u64,
    pub ops: Vec<(String, u64)>,
    pub wrong: Vec<(String, String)>,
    #[allow(clippy::type_complexity)]
    later: Vec<Box<dyn FnOnce() -> Option<(String, String)>>>,
}
impl Told {
    /// n calls of one operation on the same arguments.
    fn many<T: PartialEq>(&mut self, name: &str, n: usize, f: impl Fn() -> T) {
        let n = n.max(2);
        let r = quiet(|| {
            let a = f();
            (1..n).find(|_| black_box(&f)() != a)
        });
        self.calls += n as u64;
        self.ops.push((name.into(), n as u64));
        match r {
            Ok(None) => {}
            Ok(Some(i)) => self.wrong.push((format!("{name}/not repeatable"), format!("call {i} of the same arguments gave another result than the first"))),
            Err(m) => self.wrong.push((format!("{name}/panic"), m)),
        }
    }
    /// The result for arguments at an old place, and what is expected; a fresh
    /// copy of the arguments is tried when several such calls have been made.
    fn same<T: PartialEq + 'static>(&mut self, name: &str, step: usize, kept: T, fresh: impl FnOnce() -> T + 'static, want: Option<T>) {
        self.calls += 2;
        self.ops.push((name.into(), 2));
        if want.map_or(false, |w| w != kept) {
            self.wrong.push((format!("{name}/does not follow its arguments"), format!("step {step}: arguments changed in place: the result does not change by what they changed by")));
        }
        let name = name.to_string();
        self.later.push(Box::new(move || {
            (kept != fresh()).then(|| (format!("{name}/depends on where its arguments lie"), format!("step {step}: arguments changed in place give another result than a fresh copy of them")))
        }));
    }
    pub fn fresh(&mut self) {
        let l = std::mem::take(&mut self.later);
        self.wrong.extend(l.into_iter().filter_map(|f| f()));
    }
}

pub struct Again {
    pub name: String,
    pub many: Box<dyn Fn(&mut Rng, f64, &mut Told) + Send + Sync>,
    pub kept: Box<dyn Fn(&mut Rng, usize, &mut Told) + Send + Sync>,
}

fn field<F: PF + Out + Ord>(dict: &[B]) -> Again {
    let g = Gen::of::<F>(dict);
    let many = move |r: &mut Rng, scale: f64, o: &mut Told| {
        let (x, y): (F, F) = (F::of(&g.uniform(r)), F::of(&g.uniform(r)));
        let (hi, mid) = ((140_000.0 * scale) as usize, (11_000.0 * scale) as usize);
        o.many("add", hi, || bb(x) + bb(y));
        o.many("sub", hi, || bb(x) - bb(y));
        o.many("mul", hi, || bb(x) * bb(y));
        o.many("neg", hi, || -bb(x));
        o.many("double", hi, || bb(x).double());
        o.many("square", hi, || bb(x).square());
        o.many("cmp", hi, || (bb(x) == bb(y), bb(x).cmp(&bb(y)), bool::from(bb(x).is_zero()), bool::from(bb(x).is_odd())));
        o.many("encode", hi, || bb(x).to_repr().as_ref().to_vec());
        let e = x.to_repr();
        o.many("decode", hi, || Option::<F>::from(F::from_repr(bb(e))));
        let w = x.to_raw_bytes();
        o.many("raw", hi, || (bb(x).to_raw_bytes(), F::from_raw_bytes(bb(&w))));
        o.many("from", hi, || (F::from(bb(77)), F::from_u128(bb(1 << 90))));
        o.many("power", mid, || bb(x).pow_vartime([3, 1]));
        o.many("invert", mid, || Option::<F>::from(bb(x).invert()));
        o.many("sqrt", mid / 4, || (Option::<F>::from(bb(x).square().sqrt()), F::sqrt_ratio(&bb(x), &bb(y)).1));
        o.many("legendre", mid, || bb(x).legendre() as i64);
        let l = [x, y, F::ZERO, x * y];
        o.many("batch_invert", mid, || {
            let mut l = bb(l);
            (l.iter_mut().batch_invert(), l)
        });
        let u: Vec<Vec<u8>> = F::UNIFORM.iter().map(|n| r.bytes(*n)).collect();
        o.many("uniform", mid, || u.iter().map(|u| F::uniform(bb(u))).collect::<Vec<_>>());
        o.many("random", mid, || F::random(Rng::new(bb(5))));
        o.many("text", mid / 4, || (format!("{:?}", bb(x)), serde_json::to_string(&bb(x)).ok(), Option::<F>::from(F::from_str_vartime("12345678901234567890"))));
        let a: Vec<F> = (0..8).map(|_| F::of(&g.uniform(r))).collect();
        let k = F::S.min(3);
        let om = F::of(&b(F::GEN).modpow(&((&g.p - 1u32) >> k), &g.p));
        o.many("fft", mid, || {
            let mut a = a[..1 << k].to_vec();
            best_fft(&mut a, bb(om), k);
            a
        });
    };
    let g = Gen::of::<F>(dict);
    let kept = move |r: &mut Rng, steps: usize, o: &mut Told| {
        let k = F::S.min(10);
        let root = F::of(&b(F::GEN).modpow(&((&g.p - 1u32) >> k), &g.p));
        let n = 1usize << k;
        let mut inp: Vec<F> = (0..n).map(|_| { let x = g.val(r); make(&g, r, &x) }).collect();
        // the domain stays for a while, then changes to another of the same size
        let mut om = root;
        let mut buf = inp.clone();
        best_fft(&mut buf, om, k);
        let mut outp = buf.clone();
        let mut ubuf: Vec<Vec<u8>> = F::UNIFORM.iter().map(|n| vec![0u8; *n]).collect();
        let mut lbuf: Vec<F> = vec![F::ONE; 40];
        for s in 0..steps * 4 {
            if r.one_in(3) {
                // the other domain: everything from the start, a delta and a constant being known
                om = root.pow_vartime([2 * r.below(n) as u64 + 1]);
                inp.iter_mut().for_each(|x| *x = F::ZERO);
                outp.iter_mut().for_each(|x| *x = F::ZERO);
            }
            for _ in 0..1 + r.below(3) {
                let (j, d) = (r.below(n), F::of(&g.val(r)));
                inp[j] += d;
                let (mut t, w) = (d, om.pow_vartime([j as u64]));
                for x in outp.iter_mut() {
                    *x += t;
                    t *= w;
                }
            }
            let fft = |mut v: Vec<F>, om: F, k: u32| {
                move || {
                    best_fft(&mut v, om, k);
                    v
                }
            };
            buf.copy_from_slice(&inp);
            best_fft(&mut buf, om, k);
            o.same("fft", s, buf.clone(), fft(inp.clone(), om, k), Some(outp.clone()));
            // the transform of a short part, in the same place
            let k2 = r.below(k as usize + 1) as u32;
            let om2 = om.pow_vartime([1u64 << (k - k2)]);
            let fresh = inp[..1 << k2].to_vec();
            buf[..1 << k2].copy_from_slice(&fresh);
            best_fft(&mut buf[..1 << k2], om2, k2);
            o.same("fft", s, buf[..1 << k2].to_vec(), fft(fresh, om2, k2), None);

            for (u, n) in ubuf.iter_mut().zip(F::UNIFORM) {
                u.copy_from_slice(&r.bytes(*n));
                let f = u.clone();
                o.same("uniform", s, F::uniform(u), move || F::uniform(&f), None);
            }
            let src: Vec<F> = (0..40).map(|_| { let x = g.val(r); make(&g, r, &x) }).collect();
            lbuf.copy_from_slice(&src);
            let mut fresh = src.clone();
            let p = lbuf.iter_mut().batch_invert();
            let one = src.iter().zip(&lbuf).all(|(a, b)| bool::from(a.is_zero()) && bool::from(b.is_zero()) || *a * b == F::ONE);
            let bi = move || {
                let q = fresh.iter_mut().batch_invert();
                (q, fresh, true)
            };
            o.same("batch_invert", s, (p, lbuf.clone(), one), bi, None);
            if r.one_in(4) {
                o.fresh();
            }
        }
    };
    Again { name: format!("field/{}", F::NAME), many: Box::new(many), kept: Box::new(kept) }
}

macro_rules! curve_again {
    ($t:ty, $dict:expr, $out:expr) => {{
        type C = $t;
        type A = <$t as PC>::Aff;
        type S = <$t as PC>::SF;
        static W: std::sync::OnceLock<World<C>> = std::sync::OnceLock::new();
        let name = <C as PC>::NAME;
        let dict: Vec<B> = $dict.to_vec();
        let world = move || W.get_or_init(|| World::<C>::new(&dict, &mut Rng::named(97, name), 16));
        let wf = world.clone();
        let cheap = <C as PC>::FS <= 40;
        let many = move |r: &mut Rng, scale: f64, o: &mut Told| {
            let w = wf();
            let (p1, p2) = (w.sub_point(r).1, w.sub_point(r).1);
            let (pp, qq): (C, C) = (w.proj(r, &p1), w.proj(r, &p2));
            let (pa, qa): (A, A) = (pp.to_affine(), qq.to_affine());
            let s: S = S::of(&w.s.val(r));
            let m = if cheap { 1.0 } else { 0.3 };
            let (hi, mid, low) = ((140_000.0 * scale * m) as usize, (6_000.0 * scale * m) as usize, (3000.0 * scale * m) as usize);
            o.many("add", hi, || bb(pp) + bb(qq));
            o.many("add mixed", hi, || bb(pp) + bb(qa));
            o.many("add affine", hi, || bb(pa) + bb(qa));
            o.many("double", hi, || bb(pp).double());
            o.many("neg", hi, || (-bb(pp), -bb(pa)));
            o.many("eq", hi, || (bb(pp) == bb(qq), bb(pa) == bb(qa), bool::from(bb(pp).is_identity())));
            o.many("on curve", hi, || (bool::from(bb(pp).is_on_curve()), bool::from(bb(pa).is_on_curve())));
            o.many("to_affine", mid, || bb(pp).to_affine());
            let l = [pp, C::identity(), qq, pp + qq];
            o.many("batch_normalize", mid, || {
                let mut a = [pa; 4];
                C::batch_normalize(&bb(l), &mut a);
                a.to_vec()
            });
            o.many("mul", low, || bb(pp) * bb(s));
            o.many("mul affine", low, || bb(pa) * bb(s));
            o.many("encode", mid, || (bb(pa).to_bytes().as_ref().to_vec(), bb(pp).to_bytes().as_ref().to_vec(), bb(pa).to_uncompressed().as_ref().to_vec(), bb(pa).to_raw_bytes()));
            let (e, u, w8) = (pa.to_bytes(), pa.to_uncompressed(), pa.to_raw_bytes());
            o.many("decode", low, || (opt(A::from_bytes(&bb(e))), opt(C::from_bytes(&bb(e)))));
            o.many("decode uncompressed", low, || (opt(A::from_uncompressed(&bb(u))), A::from_raw_bytes(bb(&w8))));
            o.many("serde", low, || (serde_json::to_string(&bb(pa)).ok(), bincode::serialize(&bb(pp)).ok()));
            o.many("random", low, || (C::random(Rng::new(bb(3))), A::random(Rng::new(bb(3)))));
            o.many("torsion free", low, || {
                use halo2curves::group::cofactor::CofactorGroup;
                bool::from(bb(pp).is_torsion_free())
            });
            if <C as PC>::HAS_HASH {
                let f = <C as CurveExt>::hash_to_curve("many");
                o.many("hash_to_curve", low, || f(bb(b"message")));
                o.many("hash_to_curve (new)", low, || <C as CurveExt>::hash_to_curve("many")(bb(b"message")));
            }
            let (sc, ba) = ([s, S::ONE], [pa, qa]);
            o.many("msm_serial", low, || {
                let mut acc = bb(qq);
                msm_serial(&bb(sc), &bb(ba), &mut acc);
                acc
            });
            o.many("msm_parallel", (6_000.0 * scale) as usize, || msm_parallel(&bb([S::ONE, S::ONE]), &bb(ba)));
            o.many("msm_best", (6_000.0 * scale) as usize, || msm_best(&bb([S::ONE, S::ONE]), &bb(ba)));
        };
        let wf = world.clone();
        let kept = move |r: &mut Rng, steps: usize, o: &mut Told| {
            let w = wf();
            // buckets of an independent multi-exponentiation, in turn with short ones
            for long in [true, false] {
                let n = if long { 8103 + r.below(50) } else { 5 + r.below(60) };
                let p: Vec<A> = w.pool.iter().map(|x| <C as PC>::aff(&x.1)).collect();
                let mut bases: Vec<A> = (0..n).map(|i| p[i % p.len()]).collect();
                let mut sc = vec![S::ZERO; n];
                let mut sum = C::identity();
                for s in 0..steps {
                    for e in 0..2 + r.below(4) {
                        // a term that counts: a new coefficient, a new base, or both
                        let live: Vec<usize> = (0..n).filter(|i| !bool::from(sc[*i].is_zero())).collect();
                        let i = match (r.below(4), e) {
                            (0, _) => [0, n - 1, n / 2][r.below(3)],
                            (1 | 2, _) if !live.is_empty() => live[r.below(live.len())],
                            _ => r.below(n),
                        };
                        sum -= bases[i] * sc[i];
                        if r.below(3) > 0 {
                            bases[i] = <C as PC>::aff(&w.sub_point(r).1);
                        }
                        if r.below(3) > 0 || bool::from(sc[i].is_zero()) {
                            sc[i] = S::of(&w.s.val(r));
                        }
                        sum += bases[i] * sc[i];
                    }
                    let (fs, fb) = (sc.clone(), bases.clone());
                    o.same("msm_best", s, msm_best(&sc, &bases), move || msm_best(&fs, &fb), Some(sum));
                    if !long {
                        let m = r.below(n + 1);
                        let (fs, fb) = (sc[..m].to_vec(), bases[..m].to_vec());
                        o.same("msm_best", s, msm_best(&sc[..m], &bases[..m]), move || msm_best(&fs, &fb), None);
                        let (fs, fb) = (sc.clone(), bases.clone());
                        o.same("msm_parallel", s, msm_parallel(&sc, &bases), move || msm_parallel(&fs, &fb), Some(sum));
                        let (fs, fb) = (sc.clone(), bases.clone());
                        let serial = |s: &[S], b: &[A]| {
                            let mut a = C::identity();
                            msm_serial(s, b, &mut a);
                            a
                        };
                        o.same("msm_serial", s, serial(&sc, &bases), move || serial(&fs, &fb), Some(sum));
                    }
                    if r.one_in(3) {
                        o.fresh();
                    }
                }
            }
            let n = 30;
            let mut pr: Vec<C> = vec![C::identity(); n];
            let mut af: Vec<A> = vec![<C as PC>::aff(&None); n];
            let mut prefix = String::from("a prefix of some length");
            let mut msg = vec![0u8; 90];
            let mut enc = af[0].to_bytes();
            let mut unc = af[0].to_uncompressed();
            let mut raw = af[0].to_raw_bytes();
            let (mut p, mut k): (Box<C>, Box<S>) = (Box::new(pr[0]), Box::new(S::ONE));
            for s in 0..steps * 3 {
                for x in pr.iter_mut() {
                    if s == 0 || r.one_in(3) {
                        let p = w.point(r);
                        *x = w.proj(r, &p);
                    }
                }
                let fresh = pr.clone();
                C::batch_normalize(&pr, &mut af);
                let fa = move || {
                    let mut fa = vec![<C as PC>::aff(&None); n];
                    C::batch_normalize(&fresh, &mut fa);
                    fa
                };
                let single = pr.iter().map(|x| x.to_affine()).collect::<Vec<_>>();
                o.same("batch_normalize", s, af.clone(), fa, Some(single));

                let pt = w.sub_point(r).1;
                *p = w.proj(r, &pt);
                *k = S::of(&w.s.val(r));
                let (f, fk) = (Box::new(*p), Box::new(*k));
                o.same("mul", s, &*p * &*k, move || &*f * &*fk, None);

                let a = <C as PC>::aff(&pt);
                enc.as_mut().copy_from_slice(a.to_bytes().as_ref());
                unc.as_mut().copy_from_slice(a.to_uncompressed().as_ref());
                raw.copy_from_slice(&a.to_raw_bytes());
                o.same("decode", s, opt(A::from_bytes(&enc)), move || opt(A::from_bytes(&Box::new(enc))), Some(Some(a)));
                o.same("decode", s, opt(A::from_uncompressed(&unc)), move || opt(A::from_uncompressed(&Box::new(unc))), Some(Some(a)));
                let f = raw.clone();
                o.same("decode", s, A::from_raw_bytes(&raw), move || A::from_raw_bytes(&f), Some(Some(a)));

                if <C as PC>::HAS_HASH {
                    if r.bool() {
                        // same length, same place, another character
                        let i = r.below(prefix.len());
                        let c = (b'a' + r.below(26) as u8) as char;
                        prefix.replace_range(i..i + 1, c.encode_utf8(&mut [0; 4]));
                    }
                    let i = r.below(msg.len());
                    msg[i] = r.u64() as u8;
                    let (fp, fm) = (prefix.clone(), msg.clone());
                    o.same("hash_to_curve", s, <C as CurveExt>::hash_to_curve(&prefix)(&msg), move || <C as CurveExt>::hash_to_curve(&fp)(&fm), None);
                }
                if r.one_in(4) {
                    o.fresh();
                }
            }
        };
        $out.push(Again { name: format!("curve/{name}"), many: Box::new(many), kept: Box::new(kept) });
    }};
}

macro_rules! pairing_again {
    ($name:expr, $e:ty, $g1:ty, $g2:ty, $dict:expr, $out:expr) => {{
        static W: std::sync::OnceLock<(World<$g1>, World<$g2>)> = std::sync::OnceLock::new();
        type Prep = <$e as MultiMillerLoop>::G2Prepared;
        let dict: Vec<B> = $dict.to_vec();
        let world = move || {
            W.get_or_init(|| {
                let r = &mut Rng::named(96, $name);
                (World::<$g1>::new(&dict, r, 14), World::<$g2>::new(&dict, r, 14))
            })
        };
        let wf = world.clone();
        let many = move |r: &mut Rng, scale: f64, o: &mut Told| {
            let (w1, w2) = wf();
            let (p, q) = (<$g1>::aff(&w1.sub_point(r).1), <$g2>::aff(&w2.sub_point(r).1));
            let q2 = Prep::from(q);
            let s = <$g1 as PC>::SF::of(&w1.s.val(r));
            let n = (400.0 * scale) as usize;
            o.many("pairing", n, || <$e as Engine>::pairing(&bb(p), &bb(q)));
            o.many("multi_miller_loop", n, || <$e as MultiMillerLoop>::multi_miller_loop(&[(&bb(p), &q2), (&bb(p), &q2)]).final_exponentiation());
            let g = <$e as Engine>::pairing(&p, &q);
            o.many("Gt add", 20 * n, || (bb(g) + bb(g), -bb(g), bb(g).double()));
            o.many("Gt mul", n, || bb(g) * bb(s));
        };
        let wf = world.clone();
        let kept = move |r: &mut Rng, steps: usize, o: &mut Told| {
            let (w1, w2) = wf();
            let mut p = Box::new(<$g1>::aff(&w1.sub_point(r).1));
            let mut q = Box::new(<$g2>::aff(&w2.sub_point(r).1));
            let mut ps: Vec<_> = (0..3).map(|_| *p).collect();
            let mut qs: Vec<Prep> = (0..3).map(|_| Prep::from(*q)).collect();
            let g = <$e as Engine>::pairing(&<$g1 as halo2curves::group::Group>::generator().into(), &<$g2 as halo2curves::group::Group>::generator().into());
            let mut ks = vec![<$g1 as PC>::SF::ZERO; 3];
            for s in 0..steps * 2 {
                // known multiples of the generators: e(aG, bH) = ab e(G, H)
                let (a, c) = (<$g1 as PC>::SF::of(&w1.s.val(r)), <$g1 as PC>::SF::of(&w1.s.val(r)));
                let np = (<$g1 as halo2curves::group::Group>::generator() * a).to_affine();
                let nq = (<$g2 as halo2curves::group::Group>::generator() * c).to_affine();
                *p = np;
                *q = nq;
                let (fp, fq) = (p.clone(), q.clone());
                o.same("pairing", s, <$e as Engine>::pairing(&p, &q), move || <$e as Engine>::pairing(&fp, &fq), Some(g * (a * c)));
                let i = if s < 3 { s } else { r.below(3) };
                ps[i] = np;
                qs[i] = Prep::from(nq);
                ks[i] = a * c;
                let (fps, fqs) = (ps.clone(), qs.clone());
                if s >= 2 {
                    let f = |ps: &[_], qs: &[Prep]| {
                        let t: Vec<_> = ps.iter().zip(qs).collect();
                        <$e as MultiMillerLoop>::multi_miller_loop(&t).final_exponentiation()
                    };
                    o.same("multi_miller_loop", s, f(&ps, &qs), move || f(&fps, &fqs), Some(g * (ks[0] + ks[1] + ks[2])));
                }
                if r.one_in(3) {
                    o.fresh();
                }
            }
        };
        $out.push(Again { name: format!("pairing/{}", $name), many: Box::new(many), kept: Box::new(kept) });
    }};
}

pub fn all(dict: &[B]) -> Vec<Again> {
    let mut u = vec![];
    macro_rules! f {
        ($t:ty) => {
            u.push(field::<$t>(dict));
        };
    }
    h2c_monitor::for_each_field!(f);
    macro_rules! c {
        ($t:ty) => {
            curve_again!($t, dict, u);
        };
    }
    h2c_monitor::for_each_curve!(c);
    pairing_again!("bn256", h::bn256::Bn256, h::bn256::G1, h::bn256::G2, dict, u);
    pairing_again!("bls12381", h::bls12381::Bls12381, h::bls12381::G1, h::bls12381::G2, dict, u);
    pairing_again!("pluto", h::pluto_eris::Pluto, h::pluto_eris::G1, h::pluto_eris::G2, dict, u);
    u
}
