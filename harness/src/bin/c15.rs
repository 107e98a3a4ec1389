//! C15: multi-scalar multiplication against the sum computed from known logs.
use h2c_monitor::*;
use h2c_monitor::curves::{pallas, vesta};
use halo2curves::ff::PrimeField;
use halo2curves::group::{Curve, Group};
use halo2curves::{Coordinates, CurveAffine};
use halo2curves::msm::{msm_best, msm_parallel, msm_serial};
use num_bigint::BigUint as B;
use num_traits::{One, Zero};
use rayon::ThreadPool;
use std::sync::OnceLock;

const POOLS: [usize; 8] = [1, 2, 3, 4, 5, 8, 13, 16];
fn pools() -> &'static Vec<ThreadPool> {
    static P: OnceLock<Vec<ThreadPool>> = OnceLock::new();
    P.get_or_init(|| {
        POOLS
            .iter()
            .map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap())
            .collect()
    })
}

/// Scalars of one call, by pattern.
fn scalars(r: &mut Rng, g: &Gen, n: &B, len: usize, pat: usize) -> Vec<B> {
    let bits = n.bits() as usize;
    let bytes = (bits + 7) / 8;
    let one = g.val(r);
    let at = if len == 0 { 0 } else { r.below(len) };
    let sh = r.below(bits);
    let w = r.range(1, 12);
    let digit = r.below(1 << w) as u64;
    (0..len)
        .map(|i| match pat {
            0 | 1 => g.val(r),
            2 => B::zero(),
            3 => {
                if i == at {
                    one.clone()
                } else {
                    B::zero()
                }
            }
            4 => one.clone(),
            5 => n - 1u32 - b(r.below(3) as u64),
            6 => b(r.below(256) as u64),
            7 => (B::one() << r.below(bits)) % n,
            8 => (b(r.below(256) as u64) << (8 * (bytes - 1))) % n,
            9 => {
                // the same digit in every window of w bits, or its complement
                let mut v = B::zero();
                for k in 0..(bits / w) {
                    let d = if r.one_in(8) { r.below(1 << w) as u64 } else { digit };
                    v |= b(d) << (k * w);
                }
                v % n
            }
            10 => ((B::one() << (1 + r.below(bits))) - 1u32) % n,
            11 => (b(r.below(3) as u64) << sh) % n,
            12 => (n - b(1 + r.below(600) as u64)) % n,
            13 => b(r.below(1200) as u64),
            _ => (g.val(r) >> r.below(bits)) % n,
        })
        .collect()
}
const SPAT: usize = 15;

/// Indices into the pool of points, negation and identity flags.
#[derive(Clone, Copy)]
struct Pt {
    i: usize,
    neg: bool,
    id: bool,
    wild: bool,
}
fn points(r: &mut Rng, pool: usize, len: usize, pat: usize) -> Vec<Pt> {
    let m = r.range(1, 5);
    let off = r.below(pool);
    let idf = r.range(2, 9);
    (0..len)
        .map(|i| {
            let p = Pt { i: (off + i) % pool, neg: false, id: false, wild: false };
            match pat {
                0 | 1 => p,
                2 => Pt { i: off, ..p },
                3 => Pt { i: off, neg: i % 2 == 1, ..p },
                4 => Pt { id: r.one_in(idf), ..p },
                5 => Pt { id: true, ..p },
                6 => Pt { i: (off + r.below(m)) % pool, neg: r.bool(), ..p },
                // 0, 1, 2, ... multiples of the generator: sums meet bases
                7 => Pt { i: i % 9, neg: r.one_in(5), ..p },
                8 => Pt { wild: r.one_in(len.max(6) / 3), ..p },
                9 => Pt { id: i == 0 || i + 1 == len, ..p },
                _ => Pt { i: r.below(pool), neg: r.one_in(3), id: r.one_in(40), ..p },
            }
        })
        .collect()
}
const PPAT: usize = 11;

macro_rules! msm {
    ($t:ty) => {
        |t: &mut Task, kind: &str, n: usize| {
            type C = $t;
            type A = <$t as PC>::Aff;
            type S = <$t as PC>::SF;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 12);
            let c = &w.c;
            // consecutive multiples of the generator from a random start, by
            // reference additions: known logs, all distinct
            let count = match kind {
                "small" => 48,
                "mid" => 400,
                _ => 1200,
            };
            let mut pool: Vec<(B, A)> = vec![];
            for (k, p) in w.pool.iter().take(9) {
                pool.push((k.clone(), C::aff(p)));
            }
            let mut k = w.s.val(&mut t.rng);
            let mut p = c.smul(&k, &c.gen);
            while pool.len() < count {
                if p.is_some() {
                    pool.push((k.clone(), C::aff(&p)));
                }
                k = (&k + 1u32) % &c.n;
                p = c.add(&p, &c.gen);
            }
            let ident: A = C::aff(&None);
            let dict = t.conf.dict_usize(300);
            for case in 0..n {
                let r = &mut t.rng;
                let pi = r.below(POOLS.len());
                let th = POOLS[pi];
                let len = match kind {
                    "small" => match case % 8 {
                        0 => r.below(6),
                        1 => *r.pick(&[3, 4, 31, 32, 33, 54, 55, 63, 64, 65]),
                        2 => th * r.range(1, 4) + r.below(3),
                        3 => (th * r.range(1, 4)).saturating_sub(r.below(2)),
                        4 if !dict.is_empty() => (*r.pick(&dict) + r.below(3)).saturating_sub(1),
                        _ => r.below(72),
                    },
                    "mid" => match case % 4 {
                        0 => *r.pick(&[147, 148, 149, 150, 402, 403, 404, 1095, 1096, 1097, 1098]),
                        1 => th * r.range(8, 60) + r.below(3),
                        _ => r.range(70, 1400),
                    },
                    // the affine bucket scheduler starts at 8104
                    _ => *r.pick(&[8100, 8103, 8104, 8105, 8192, 8200, 8300, 8500]),
                };
                let len = match kind {
                    "small" => fresh_size(r, 400),
                    "mid" => fresh_size(r, 6000),
                    // one in six with a wider window
                    "big" if case % 6 == 3 && <C as PC>::FS <= 32 => Some(22_026 + r.below(60)),
                    "big" => fresh_size(r, 30_000),
                    _ => Some(if case % 2 == 0 { 59_870 + r.below(60) } else { r.range(60_000, 70_000) }),
                }
                .unwrap_or(len);
                let (sp, pp) = match kind {
                    // the first cases of a big run are the structured ones
                    "big" | "huge" => match (case + (kind == "huge") as usize * 4) % 6 {
                        0 => (99, 0),
                        1 => (4, 7),
                        2 => (13, 10),
                        3 => (0, 4),
                        4 => (99, 10),
                        _ => (r.below(SPAT), r.below(PPAT)),
                    },
                    _ => (r.below(SPAT), r.below(PPAT)),
                };
                let period = if sp == 99 || r.one_in(6) { Some(r.range(1, 700).min(len.max(1))) } else { None };
                let sp1 = if sp == 99 { r.below(2) * 13 } else { sp };
                let mut ks = scalars(r, &w.s, &c.n, len, sp1);
                let mut pts = points(r, pool.len(), len, pp);
                if let Some(m) = period {
                    // the same (scalar, point) pairs come round again, now and
                    // then with a sign flipped: doublings and cancellations
                    let flip = r.range(2, 6);
                    for i in m..len {
                        ks[i] = ks[i % m].clone();
                        pts[i] = pts[i % m];
                        if r.one_in(flip) {
                            pts[i].neg = !pts[i].neg;
                        } else if r.one_in(8) {
                            ks[i] = (&c.n - &ks[i]) % &c.n;
                        }
                    }
                }
                if kind == "big" || kind == "huge" {
                    for q in pts.iter_mut() {
                        q.wild = false;
                    }
                }
                let mut e = B::zero();
                let mut extra: RP = None;
                let mut bases: Vec<A> = Vec::with_capacity(len);
                for (k, q) in ks.iter().zip(pts.iter()) {
                    if q.id {
                        bases.push(ident);
                    } else if q.wild && !w.wild.is_empty() {
                        let p = &w.wild[q.i % w.wild.len()];
                        bases.push(C::aff(p));
                        extra = c.add(&extra, &c.smul(k, p));
                    } else {
                        let (l, a) = &pool[q.i];
                        e = if q.neg { e + (&c.n - l) * k } else { e + l * k };
                        bases.push(if q.neg { -*a } else { *a });
                    }
                }
                let coeffs: Vec<S> = ks.iter().map(|k| C::sc(k)).collect();
                let want = c.add(&c.smul(&(e % &c.n), &c.gen), &extra);
                let d = || {
                    let mut s = format!(
                        "len={len} threads={th} scalar pattern {sp} point pattern {pp} period {period:?} want={}",
                        show(&want)
                    );
                    if len <= 8 {
                        for (k, q) in ks.iter().zip(pts.iter()) {
                            s += &format!(" {k:x}*(id={} neg={} wild={} log={:x})", q.id, q.neg, q.wild, pool[q.i].0);
                        }
                    }
                    s
                };
                t.seen(&(&ks, pts.iter().map(|q| (q.i, q.neg, q.id, q.wild)).collect::<Vec<_>>(), th), len > 0);
                t.class(&format!("scalars:{sp}"));
                t.class(&format!("points:{pp}"));
                t.class(&format!("threads:{th}"));
                t.class(match len {
                    0 => "len 0",
                    1..=3 => "len 1-3",
                    4..=31 => "len 4-31",
                    32..=148 => "len 32-148",
                    149..=8103 => "len 149-8103",
                    _ => "len 8104+",
                });
                t.sample(d);
                let pl = &pools()[pi];
                if let Some(x) = t.guard("best", d, || pl.install(|| msm_best::<A>(&coeffs, &bases))) {
                    t.check(x.is(c, &want), "best", || format!("got {:x?}; {}", x.xyz(), d()));
                }
                if kind != "big" && kind != "huge" || case % 6 == 5 {
                    if let Some(x) = t.guard("parallel", d, || pl.install(|| msm_parallel::<A>(&coeffs, &bases))) {
                        t.check(x.is(c, &want), "parallel", || format!("got {:x?}; {}", x.xyz(), d()));
                    }
                }
                if kind == "small" || case % 4 == 0 && kind == "mid" {
                    if let Some(x) = t.guard("serial", d, || {
                        let mut acc = <C as Group>::identity();
                        msm_serial::<A>(&coeffs, &bases, &mut acc);
                        acc
                    }) {
                        t.check(x.is(c, &want), "serial", || format!("got {:x?}; {}", x.xyz(), d()));
                    }
                    // documented misuse: must panic, whatever the difference
                    if case % 8 == 0 && len > 0 {
                        t.begin("length mismatch");
                        let cut = t.rng.below(len);
                        let (cs, bs) = if t.rng.bool() { (&coeffs[..cut], &bases[..]) } else { (&coeffs[..], &bases[..cut]) };
                        let v = [
                            quiet(|| {
                                let mut acc = <C as Group>::identity();
                                msm_serial::<A>(cs, bs, &mut acc);
                            })
                            .is_err(),
                            quiet(|| msm_parallel::<A>(cs, bs)).is_err(),
                            quiet(|| msm_best::<A>(cs, bs)).is_err(),
                        ];
                        t.check(v == [true; 3], "length mismatch", || {
                            format!("{} scalars, {} points: panics (serial, parallel, best) {v:?}", cs.len(), bs.len())
                        });
                    }
                }
            }
        }
    };
}

/// The curves of another crate, through the traits alone.
fn foreign<A: CurveAffine>(t: &mut Task, c: &CurveRef, n: usize, big: usize) {
    fn of<F: PrimeField>(v: &B) -> F {
        let mut r = F::Repr::default();
        r.as_mut().copy_from_slice(&to_le(v, 32));
        Option::from(F::from_repr(r)).unwrap()
    }
    fn val<F: PrimeField>(v: &F) -> B {
        le(v.to_repr().as_ref())
    }
    let g = Gen::new(&c.n, 4, &t.conf.dict.clone());
    let mut pool: Vec<(B, A)> = vec![];
    let mut k = g.val(&mut t.rng);
    let mut p = c.smul(&k, &c.gen);
    while pool.len() < 300 {
        if let Some((x, y)) = &p {
            pool.push((k.clone(), Option::from(A::from_xy(of(&x.0), of(&y.0))).unwrap()));
        }
        k = (&k + 1u32) % &c.n;
        p = c.add(&p, &c.gen);
    }
    for case in 0..n {
        let r = &mut t.rng;
        let pi = r.below(POOLS.len());
        let th = POOLS[pi];
        let len = match case % 8 {
            0 => r.below(6),
            1 => *r.pick(&[3, 4, 31, 32, 33, 63, 64, 65]),
            2 => th * r.range(1, 4) + r.below(3),
            3 => r.range(100, 900),
            _ => r.below(72),
        };
        let len = if case < big { 8104 + r.below(200) } else { fresh_size(r, 6000).unwrap_or(len) };
        let (sp, pp) = (r.below(SPAT), r.below(PPAT));
        let ks = scalars(r, &g, &c.n, len, sp);
        let mut pts = points(r, pool.len(), len, pp);
        let mut e = B::zero();
        let mut bases: Vec<A> = Vec::with_capacity(len);
        for (k, q) in ks.iter().zip(pts.iter_mut()) {
            q.wild = false;
            let (l, a) = &pool[q.i];
            if q.id {
                bases.push(A::identity());
            } else {
                e = if q.neg { e + (&c.n - l) * k } else { e + l * k };
                bases.push(if q.neg { -*a } else { *a });
            }
        }
        let coeffs: Vec<A::Scalar> = ks.iter().map(of).collect();
        let want = c.smul(&(e % &c.n), &c.gen);
        let is = |v: A::Curve| {
            let v = v.to_affine().coordinates();
            let v: RP = Option::<Coordinates<A>>::from(v).map(|v| ((val(v.x()), B::zero()), (val(v.y()), B::zero())));
            v == want
        };
        let d = || format!("len={len} threads={th} scalar pattern {sp} point pattern {pp} want={}", show(&want));
        t.seen(&(&ks, pts.iter().map(|q| (q.i, q.neg, q.id)).collect::<Vec<_>>(), th), len > 0);
        t.class(&format!("scalars:{sp}"));
        t.class(&format!("points:{pp}"));
        t.class(&format!("threads:{th}"));
        t.class("curve of another crate");
        t.sample(d);
        let pl = &pools()[pi];
        if let Some(x) = t.guard("best", d, || pl.install(|| msm_best::<A>(&coeffs, &bases))) {
            t.check(is(x), "best", d);
        }
        if let Some(x) = t.guard("parallel", d, || pl.install(|| msm_parallel::<A>(&coeffs, &bases))) {
            t.check(is(x), "parallel", d);
        }
        if let Some(x) = t.guard("serial", d, || {
            let mut acc = A::Curve::identity();
            msm_serial::<A>(&coeffs, &bases, &mut acc);
            acc
        }) {
            t.check(is(x), "serial", d);
        }
    }
}

fn main() {
    let conf = Conf::from_args();
    let thorough = conf.thorough;
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let slow = if <$t as PC>::FS > 48 { 4 } else { 1 };
            jobs.push(job(format!("{}/big", <$t as PC>::NAME), move |t: &mut Task| {
                let n = if thorough { t.n(5) } else { 6 };
                msm!($t)(t, "big", n / if slow == 4 && <$t>::reference().deg == 2 { 2 } else { 1 })
            }));
            jobs.push(job(format!("{}/mid", <$t as PC>::NAME), move |t: &mut Task| {
                let n = t.n(24 / slow);
                msm!($t)(t, "mid", n)
            }));
            jobs.push(job(format!("{}/small", <$t as PC>::NAME), move |t: &mut Task| {
                let n = t.n(160 / slow);
                msm!($t)(t, "small", n)
            }));
        };
    }
    for_each_curve!(add);
    jobs.push(job("bn256::G1/huge", move |t: &mut Task| {
        let n = if thorough { t.n(2) } else { 2 };
        msm!(halo2curves::bn256::G1)(t, "huge", n)
    }));
    jobs.push(job("pasta::Ep", move |t: &mut Task| {
        let n = t.n(80);
        foreign::<halo2curves::pasta::EpAffine>(t, &pallas(), n, 1)
    }));
    jobs.push(job("pasta::Eq", move |t: &mut Task| {
        let n = t.n(80);
        foreign::<halo2curves::pasta::EqAffine>(t, &vesta(), n, 1)
    }));
    run(conf, jobs);
}
