//! C11: the representations of a point agree: affine, homogeneous, Jacobian,
//! batch normalisation, equality, selection and curve membership.
use h2c_monitor::*;
use halo2curves::ff::Field;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group};
use halo2curves::{CurveAffine, CurveExt};
use num_traits::{One, Zero};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq};

macro_rules! repr {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type A = <$t as PC>::Aff;
            type F = <$t as PC>::BF;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 24);
            let c = &w.c;
            if let Some((a1, b1, a2, b2, z, i1, i2, i3)) = t.guard("constants", || "".into(), || {
                (
                    <C as CurveExt>::a().r2(),
                    <C as CurveExt>::b().r2(),
                    <A as CurveAffine>::a().r2(),
                    <A as CurveAffine>::b().r2(),
                    <A as PrimeCurveAffine>::identity(),
                    C::identity(),
                    C::default(),
                    A::default(),
                )
            }) {
                t.check(a1 == c.a && a2 == c.a && b1 == c.b && b2 == c.b, "curve constants", || format!("{a1:x?} {b1:x?} {a2:x?} {b2:x?}"));
                t.check(C::rp_aff(&z).is_none() && C::rp_aff(&i3).is_none() && i1.is(c, &None) && i2.is(c, &None), "identity", || "".into());
                let d = || "identity".to_string();
                if let Some(co) = t.guard("coordinates", d, || opt(z.coordinates()).is_some()) {
                    t.check(!co, "coordinates of the identity", || "CurveAffine::coordinates() of the identity is Some((0, 0)), not None".into());
                }
            }
            for _ in 0..n {
                let p = w.point(&mut t.rng);
                let pp: C = w.proj(&mut t.rng, &p);
                let pa: A = C::aff(&p);
                let d = || format!("P={} {:x?}", show(&p), pp.xyz());
                t.seen(&pp.xyz(), p.is_some());
                t.class(if p.is_none() { "identity" } else if pp.xyz()[2] == c.f.one() { "z = 1" } else { "z != 1" });
                t.sample(d);
                if let Some(v) = t.guard("convert", d, || (pp.to_affine(), A::from(pp), A::from(&pp), pa.to_curve(), C::from(pa), C::from(&pa))) {
                    t.check(C::rp_aff(&v.0) == p && C::rp_aff(&v.1) == p && C::rp_aff(&v.2) == p, "to_affine", d);
                    t.check(v.3.is(c, &p) && v.4.is(c, &p) && v.5.is(c, &p), "to_curve", d);
                }
                if let Some(v) = t.guard("predicates", d, || (pp.is_identity(), pa.is_identity(), CurveExt::is_on_curve(&pp), CurveAffine::is_on_curve(&pa))) {
                    t.check(bool::from(v.0) == p.is_none() && bool::from(v.1) == p.is_none(), "is_identity", d);
                    t.check(v.2.into(), "is_on_curve", d);
                    t.check(v.3.into(), "is_on_curve affine", d);
                }
                if let (Some((x, y)), Some(co)) = (&p, t.guard("coordinates", d, || opt(pa.coordinates()).map(|v| (v.x().r2(), v.y().r2(), *v.u(), *v.v())))) {
                    t.check(
                        match &co {
                            Some(v) => v.0 == *x && v.1 == *y && v.2.r2() == *x && v.3.r2() == *y,
                            None => false,
                        },
                        "coordinates",
                        d,
                    );
                    if let Some(q) = t.guard("from_xy", d, || opt(A::from_xy(F::from_r2(x), F::from_r2(y)))) {
                        t.check(q.map(|q| C::rp_aff(&q)) == Some(p.clone()), "from_xy", d);
                    }
                }
                // Jacobian coordinates
                if let Some((x, y, z, back)) = t.guard("jacobian", d, || {
                    let (x, y, z) = pp.jacobian_coordinates();
                    (x.r2(), y.r2(), z.r2(), opt(C::new_jacobian(x, y, z)))
                }) {
                    let ok = match &p {
                        None => CurveRef::is_zero_f(&z),
                        Some((px, py)) => {
                            let z2 = c.mul(&z, &z);
                            !CurveRef::is_zero_f(&z) && x == c.mul(px, &z2) && y == c.mul(py, &c.mul(&z2, &z))
                        }
                    };
                    t.check(ok, "jacobian_coordinates", || format!("{x:x?} {y:x?} {z:x?}; {}", d()));
                    t.check(back.map_or(false, |q| q.is(c, &p)), "new_jacobian of jacobian_coordinates", d);
                }
                if let Some((px, py)) = &p {
                    let z = w.scale(&mut t.rng);
                    let z2 = c.mul(&z, &z);
                    let (mut x, mut y) = (c.mul(px, &z2), c.mul(py, &c.mul(&z2, &z)));
                    let good = t.rng.bool();
                    if !good {
                        if t.rng.bool() {
                            x = c.f.add(&x, &w.coord(&mut t.rng));
                        } else {
                            y = c.f.add(&y, &w.coord(&mut t.rng));
                        }
                    }
                    let zi = c.inv(&z).unwrap();
                    let zi2 = c.mul(&zi, &zi);
                    let q = Some((c.mul(&x, &zi2), c.mul(&y, &c.mul(&zi2, &zi))));
                    let d = || format!("jacobian {x:x?} {y:x?} {z:x?}");
                    if let Some(v) = t.guard("new_jacobian", d, || opt(C::new_jacobian(F::from_r2(&x), F::from_r2(&y), F::from_r2(&z)))) {
                        let e = if c.on_curve(&q) { Some(q) } else { None };
                        t.check(v.is_some() == e.is_some(), "new_jacobian membership", d);
                        if let (Some(v), Some(e)) = (v, e) {
                            t.check(v.is(c, &e), "new_jacobian", d);
                        }
                    }
                }
                // membership of arbitrary triples and pairs
                {
                    let mut v = pp.xyz();
                    let k = t.rng.below(6);
                    match k {
                        0..=2 => v[k] = w.coord(&mut t.rng),
                        3 => v[2] = c.f.zero(),
                        4 => {
                            let j = t.rng.below(3);
                            v[j] = c.f.add(&v[j], &c.f.one());
                        }
                        _ => {
                            // the same x and y on a curve with another constant
                            v = [w.coord(&mut t.rng), w.coord(&mut t.rng), w.coord(&mut t.rng)];
                        }
                    }
                    let e = c.on_curve_proj(&v);
                    let d = || format!("triple {v:x?}");
                    t.seen(&v, true);
                    t.class(if e { "triple on the curve" } else { "triple off the curve" });
                    if let Some(g) = t.guard("is_on_curve", d, || bool::from(CurveExt::is_on_curve(&C::from_xyz(&v)))) {
                        t.check(g == e, "is_on_curve", || format!("got {g}, expected {e}: {}", d()));
                    }
                    let xy = (v[0].clone(), v[1].clone());
                    if !(CurveRef::is_zero_f(&xy.0) && CurveRef::is_zero_f(&xy.1)) {
                        let e = c.on_curve(&Some(xy.clone()));
                        let d = || format!("pair {xy:x?}");
                        if let Some((g, h)) = t.guard("affine is_on_curve", d, || {
                            (bool::from(C::from_xy_raw(&xy).is_on_curve()), opt(A::from_xy(F::from_r2(&xy.0), F::from_r2(&xy.1))))
                        }) {
                            t.check(g == e, "is_on_curve affine", || format!("got {g}, expected {e}: {}", d()));
                            t.check(h.is_some() == e, "from_xy membership", d);
                        }
                    }
                }
                // equality and selection
                let q = w.related(&mut t.rng, &p);
                let qq: C = w.proj_like(&mut t.rng, &q, &pp);
                let qa: A = C::aff(&q);
                let d = || format!("P={:x?} Q={:x?}", pp.xyz(), qq.xyz());
                if let Some(v) = t.guard("eq", d, || [pp == qq, bool::from(pp.ct_eq(&qq)), pa == qa, bool::from(pa.ct_eq(&qa)), !(pp != qq), qq == pp]) {
                    let e = p == q;
                    t.check(v.iter().all(|x| *x == e), "eq", || format!("{v:?}, expected {e}: {}", d()));
                }
                let bit = t.rng.bool();
                let ch = Choice::from(bit as u8);
                if let Some(v) = t.guard("select", d, || {
                    let mut x = pp;
                    x.conditional_assign(&qq, ch);
                    let (mut y, mut z) = (pp, qq);
                    C::conditional_swap(&mut y, &mut z, ch);
                    (C::conditional_select(&pp, &qq, ch), A::conditional_select(&pa, &qa, ch), x, y, z)
                }) {
                    let (e, o) = if bit { (&qq, &pp) } else { (&pp, &qq) };
                    let ea = if bit { &q } else { &p };
                    t.check(v.0.xyz() == e.xyz() && C::rp_aff(&v.1) == *ea && v.2.xyz() == e.xyz() && v.3.xyz() == e.xyz() && v.4.xyz() == o.xyz(), "select", d);
                }
            }
        }
    };
}

macro_rules! batch {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type A = <$t as PC>::Aff;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 24);
            let c = &w.c;
            for i in 0..n {
                let len = match i {
                    0 => 0,
                    1 => 1,
                    _ if i % 128 == 33 => t.rng.range(300, 3000),
                    _ => t.rng.below(if i % 16 == 0 { 300 } else { 12 }),
                };
                let len = fresh_size(&mut t.rng, 20_000 / (1 + i % 32)).unwrap_or(len);
                let mode = t.rng.below(5);
                let ps: Vec<RP> = (0..len)
                    .map(|j| match mode {
                        0 => None,
                        1 if j == 0 || j + 1 == len => None,
                        2 if j > 0 && t.rng.bool() => None,
                        _ => w.point(&mut t.rng),
                    })
                    .collect();
                let pp: Vec<C> = ps.iter().map(|p| w.proj(&mut t.rng, p)).collect();
                let garbage = t.rng.bool();
                let g = C::aff(&c.gen);
                let mut out: Vec<A> = vec![if garbage { g } else { A::default() }; len];
                let d = || format!("{len} points, mode {mode}: {}", ps.iter().take(8).map(show).collect::<Vec<_>>().join(" "));
                t.seen(&(len, mode, pp.iter().map(|p| p.xyz()).collect::<Vec<_>>()), len > 0);
                t.class(["all identities", "identities at the ends", "many identities", "mixed", "mixed"][mode]);
                t.sample(d);
                if t.guard("batch_normalize", d, || C::batch_normalize(&pp, &mut out)).is_some() {
                    for (j, (o, e)) in out.iter().zip(&ps).enumerate() {
                        t.check(C::rp_aff(o) == *e, "batch_normalize", || format!("element {j}: got {}, expected {}; {}", show(&C::rp_aff(o)), show(e), d()));
                    }
                }
            }
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let slow = if <$t>::reference().deg == 2 { 3 } else { 1 };
            jobs.push(job(format!("{}/repr", <$t as PC>::NAME), move |t: &mut Task| {
                let n = t.n(3000 / slow);
                repr!($t)(t, n)
            }));
            jobs.push(job(format!("{}/batch", <$t as PC>::NAME), move |t: &mut Task| {
                let n = t.n(400 / slow);
                batch!($t)(t, n)
            }));
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
