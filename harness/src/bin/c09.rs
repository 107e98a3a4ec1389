//! C09: the curve group law, in every representation and exceptional case.
use h2c_monitor::*;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::Group;

macro_rules! law {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
    type C = $t;
    type A = <$t as PC>::Aff;
    let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 24);
    let c = &w.c;
    for _ in 0..n {
        let p = w.point(&mut t.rng);
        let q = w.related(&mut t.rng, &p);
        let pp = w.proj(&mut t.rng, &p);
        let qq = w.proj_like(&mut t.rng, &q, &pp);
        let (pa, qa) = (C::aff(&p), C::aff(&q));
        let d = || format!("P={} Q={} P(proj)={:x?} Q(proj)={:x?}", show(&p), show(&q), pp.xyz(), qq.xyz());
        t.seen(&(pp.xyz(), qq.xyz()), p.is_some() || q.is_some());
        t.class(match (&p, &q) {
            (None, None) => "O+O",
            (None, _) => "O+Q",
            (_, None) => "P+O",
            _ if p == q => "P+P",
            _ if p == c.neg(&q) => "P+(-P)",
            (Some(a), Some(b)) if a.1 == b.1 => "same y",
            _ => "generic",
        });
        t.sample(d);
        let s = c.add(&p, &q);
        let m = c.add(&p, &c.neg(&q));
        if let Some(v) = t.guard("add", d, || (pp + qq, pp + &qq, { let mut x = pp; x += qq; x }, { let mut x = pp; x += &qq; x })) {
            for (i, x) in [v.0, v.1, v.2, v.3].iter().enumerate() {
                t.check(x.is(c, &s), "add", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
            }
        }
        if let Some(v) = t.guard("add mixed", d, || (pp + qa, pp + &qa, { let mut x = pp; x += qa; x }, { let mut x = pp; x += &qa; x })) {
            for (i, x) in [v.0, v.1, v.2, v.3].iter().enumerate() {
                t.check(x.is(c, &s), "add mixed", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
            }
        }
        if let Some(v) = t.guard("sub", d, || (pp - qq, pp - &qq, { let mut x = pp; x -= qq; x }, { let mut x = pp; x -= &qq; x })) {
            for (i, x) in [v.0, v.1, v.2, v.3].iter().enumerate() {
                t.check(x.is(c, &m), "sub", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
            }
        }
        if let Some(v) = t.guard("sub mixed", d, || (pp - qa, pp - &qa, { let mut x = pp; x -= qa; x }, { let mut x = pp; x -= &qa; x })) {
            for (i, x) in [v.0, v.1, v.2, v.3].iter().enumerate() {
                t.check(x.is(c, &m), "sub mixed", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
            }
        }
        if let Some(v) = t.guard("neg double", d, || (-pp, -pa, pp.double(), <C as Group>::identity(), <A as PrimeCurveAffine>::identity(), C::default())) {
            t.check(v.0.is(c, &c.neg(&p)), "neg", d);
            t.check(C::rp_aff(&v.1) == c.neg(&p), "neg affine", d);
            t.check(v.2.is(c, &c.dbl(&p)), "double", d);
            t.check(v.3.is(c, &None) && C::rp_aff(&v.4).is_none() && v.5.is(c, &None), "identity", d);
        }
        if let Some(v) = t.guard("sum", d, || {
            let v = [pp, qq, pp];
            (v.iter().sum::<C>(), v.into_iter().sum::<C>(), Vec::<C>::new().into_iter().sum::<C>())
        }) {
            let e = c.add(&s, &p);
            t.check(v.0.is(c, &e) && v.1.is(c, &e) && v.2.is(c, &None), "sum", d);
        }
        // chains keep results of the library as operands
        if let Some(v) = t.guard("chain", d, || (pp + qq) - pp.double() + qa - (qq + pa)) {
            let e = c.add(&c.add(&s, &c.neg(&c.dbl(&p))), &c.neg(&p));
            t.check(v.is(c, &e), "chain", d);
        }
    }
        }
    };
}

/// Affine operands on both sides: needs the concrete operator impls.
macro_rules! affine_ops {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            let w = World::<$t>::new(&t.conf.dict.clone(), &mut t.rng, 16);
            let c = &w.c;
            for _ in 0..n {
                let p = w.point(&mut t.rng);
                let q = w.related(&mut t.rng, &p);
                let (pa, qa) = (<$t>::aff(&p), <$t>::aff(&q));
                let qq: $t = w.proj(&mut t.rng, &q);
                let d = || format!("P={} Q={} {:x?}", show(&p), show(&q), qq.xyz());
                t.seen(&(&p, &q), p.is_some() || q.is_some());
                let (s, m) = (c.add(&p, &q), c.add(&p, &c.neg(&q)));
                if let Some(v) = t.guard("affine ops", d, || [pa + qa, &pa + &qa, pa + qq, &pa + &qq]) {
                    for x in v.iter() {
                        t.check(x.is(c, &s), "affine add", || format!("got {:x?}; {}", x.xyz(), d()));
                    }
                }
                if let Some(v) = t.guard("affine ops", d, || [pa - qa, &pa - &qa, pa - qq, &pa - &qq]) {
                    for x in v.iter() {
                        t.check(x.is(c, &m), "affine sub", || format!("got {:x?}; {}", x.xyz(), d()));
                    }
                }
                if let Some(v) = t.guard("affine neg", d, || (-&pa, -pa, -&qq)) {
                    t.check(<$t>::rp_aff(&v.0) == c.neg(&p) && <$t>::rp_aff(&v.1) == c.neg(&p) && v.2.is(c, &c.neg(&q)), "neg ref", d);
                }
            }
        }
    };
}

/// Sums of lists with known logarithms.
macro_rules! sums {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            let w = World::<$t>::new(&t.conf.dict.clone(), &mut t.rng, 24);
            let c = &w.c;
            for i in 0..n {
                let len = match i % 4 {
                    0 => i / 4 % 10,
                    1 if i % 32 == 1 => t.rng.range(100, 2000),
                    _ => t.rng.below(60),
                };
                let len = fresh_size(&mut t.rng, 20_000).unwrap_or(len);
                let mut e = b(0);
                let mut v: Vec<$t> = vec![];
                while v.len() < len {
                    let (k, p) = w.sub_point(&mut t.rng);
                    // now and then what brings the partial sum to the identity
                    if t.rng.one_in(12) {
                        let q = c.smul(&((&c.n - &e) % &c.n), &c.gen);
                        e = b(0);
                        v.push(w.proj(&mut t.rng, &q));
                    } else {
                        e = (e + k) % &c.n;
                        v.push(match v.last() {
                            Some(o) => w.proj_like(&mut t.rng, &p, o),
                            None => w.proj(&mut t.rng, &p),
                        });
                    }
                }
                t.seen(&v.iter().map(|x| x.xyz()).collect::<Vec<_>>(), len > 1);
                let want = c.smul(&e, &c.gen);
                let d = || format!("sum of {len} points, expected {}", show(&want));
                if let Some(x) = t.guard("sum", d, || [v.iter().sum::<$t>(), v.iter().copied().sum::<$t>()]) {
                    t.check(x.iter().all(|x| x.is(c, &want)), "sum of a list", || format!("got {:x?}; {}", x[0].xyz(), d()));
                }
            }
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let slow = if <$t>::reference().deg == 2 { 3 } else { 1 };
            for part in 0..2 {
                jobs.push(job(format!("{}/law{part}", <$t as PC>::NAME), move |t: &mut Task| { let n = t.n(1500 / slow); law!($t)(t, n) }));
            }
            jobs.push(job(format!("{}/sums", <$t as PC>::NAME), move |t: &mut Task| { let n = t.n(64 / slow); sums!($t)(t, n) }));
            jobs.push(job(format!("{}/affine", <$t as PC>::NAME), move |t: &mut Task| { let n = t.n(1000 / slow); affine_ops!($t)(t, n) }));
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
