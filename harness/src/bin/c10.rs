//! C10: scalar multiplication on every curve, and the order of the group.
use h2c_monitor::*;
use halo2curves::ff::Field;
use halo2curves::group::prime::PrimeCurveAffine;
use halo2curves::group::{Curve, Group};
use num_traits::{One, Zero};

macro_rules! scalar_mul {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type A = <$t as PC>::Aff;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 16);
            let c = &w.c;
            for i in 0..n {
                let p = w.point(&mut t.rng);
                // the shapes a double-and-add loop can get wrong come first
                let k = match i % 12 {
                    0 => &c.n - 1u32 - b(t.rng.below(4) as u64),
                    1 => b(t.rng.below(20) as u64),
                    2 => B::one() << t.rng.below(c.n.bits() as usize - 1),
                    3 => ((B::one() << (1 + t.rng.below(c.n.bits() as usize - 1))) - 1u32) % &c.n,
                    _ => w.s.val(&mut t.rng),
                };
                let pp: C = w.proj(&mut t.rng, &p);
                let pa: A = C::aff(&p);
                let s = C::sc(&k);
                let d = || format!("k={k:x} P={} {:x?}", show(&p), pp.xyz());
                t.seen(&(&k, pp.xyz()), p.is_some() && !k.is_zero());
                t.class(if p.is_none() {
                    "identity"
                } else if k.is_zero() {
                    "zero scalar"
                } else if c.n.bits() - k.bits() > 64 {
                    "short scalar"
                } else {
                    "generic"
                });
                t.sample(d);
                let e = c.smul(&k, &p);
                if let Some(v) = t.guard("mul", d, || {
                    let mut x = pp;
                    x *= s;
                    let mut y = pp;
                    y *= &s;
                    [pp * s, pp * &s, &pp * s, &pp * &s, x, y]
                }) {
                    for (i, x) in v.iter().enumerate() {
                        t.check(x.is(c, &e), "mul", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
                    }
                }
                if let Some(v) = t.guard("mul affine", d, || [pa * s, pa * &s, &pa * s, &pa * &s]) {
                    for (i, x) in v.iter().enumerate() {
                        t.check(x.is(c, &e), "mul affine", || format!("variant {i}: got {:x?}; {}", x.xyz(), d()));
                    }
                }
                // scalars act modulo the order: -(k) P = -(k P), on the subgroup
                if i % 4 == 0 {
                    let (l, q) = w.sub_point(&mut t.rng);
                    let qq: C = w.proj(&mut t.rng, &q);
                    let d = || format!("k={k:x} Q=[{l:x}]G {:x?}", qq.xyz());
                    if let Some(v) = t.guard("order", d, || (qq * (-s), qq * (s - <C as PC>::SF::ONE) + qq, (qq * s) * s, qq * (s * s))) {
                        let e = c.smul(&k, &q);
                        t.check(v.0.is(c, &c.neg(&e)), "negated scalar", d);
                        t.check(v.1.is(c, &e), "successor scalar", d);
                        let e2 = c.smul(&(&k * &k % &c.n), &q);
                        t.check(v.2.is(c, &e2) && v.3.is(c, &e2), "repeated scalar", d);
                    }
                }
            }
            // the generator is the published one and has the published order
            let d = || "generator".to_string();
            if let Some((g, g2, ga, o)) = t.guard("generator", d, || {
                let m1 = -<C as PC>::SF::ONE;
                let g = <C as Group>::generator();
                (g, C::generator(), <A as PrimeCurveAffine>::generator(), g * m1 + g)
            }) {
                t.seen(&g.xyz(), true);
                t.check(g.is(c, &c.gen) && g2.is(c, &c.gen) && C::rp_aff(&ga) == c.gen && C::rp_aff(&g.to_affine()) == c.gen, "generator", d);
                t.check(o.is(c, &None), "generator order", d);
                t.check(bool::from(o.is_identity()) && !bool::from(g.is_identity()), "generator order", d);
            }
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let slow = if <$t>::reference().deg == 2 { 3 } else { 1 };
            for part in 0..2 {
                jobs.push(job(format!("{}/mul{part}", <$t as PC>::NAME), move |t: &mut Task| {
                    let n = t.n(200 / slow);
                    scalar_mul!($t)(t, n)
                }));
            }
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
