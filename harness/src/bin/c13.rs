//! C13: the prime order subgroup: membership, cofactor clearing, sampling.
use h2c_monitor::*;
use halo2curves::ff::Field;
use halo2curves::group::cofactor::CofactorGroup;
use halo2curves::group::{Curve, Group};
use halo2curves::{CurveAffine, CurveExt};
use num_traits::{One, Zero};

/// Unstructured and structured randomness for the sampling functions.
struct Src<'a>(&'a mut Rng, u8);
impl rand_core::RngCore for Src<'_> {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        match self.1 {
            0 => self.0.u64(),
            1 => self.0.u64() & 0xff,
            _ => {
                if self.0.one_in(3) {
                    0
                } else {
                    self.0.u64()
                }
            }
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rand_core::impls::fill_bytes_via_next(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

macro_rules! subgroup {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            type A = <$t as PC>::Aff;
            let w = World::<C>::new(&t.conf.dict.clone(), &mut t.rng, 16);
            let c = &w.c;
            let name = <C as PC>::NAME;
            for i in 0..n {
                // subgroup, full order, small order, and mixed points
                let p = match i % 6 {
                    0 => w.sub_point(&mut t.rng).1,
                    1 if !w.small.is_empty() => t.rng.pick(&w.small).clone(),
                    2 if !w.small.is_empty() => c.add(t.rng.pick(&w.small), &w.sub_point(&mut t.rng).1),
                    3 if w.small.len() > 1 => c.add(t.rng.pick(&w.small), t.rng.pick(&w.small)),
                    4 => loop {
                        let x = w.coord(&mut t.rng);
                        if let Some(y) = c.sqrt(&c.g(&x)) {
                            break Some((x, y));
                        }
                    },
                    _ => w.point(&mut t.rng),
                };
                let pp: C = w.proj(&mut t.rng, &p);
                let d = || format!("P={} {:x?}", show(&p), pp.xyz());
                let inside = c.in_subgroup(&p);
                t.seen(&pp.xyz(), p.is_some());
                t.class(if p.is_none() { "identity" } else if inside { "in the subgroup" } else { "outside" });
                t.sample(d);
                if let Some(v) = t.guard("is_torsion_free", d, || bool::from(pp.is_torsion_free())) {
                    t.check(v == inside, "is_torsion_free", || format!("got {v}, expected {inside}: {}", d()));
                }
                if let Some(v) = t.guard("into_subgroup", d, || opt(pp.into_subgroup())) {
                    t.check(v.is_some() == inside, "into_subgroup membership", || format!("expected {inside}: {}", d()));
                    if let Some(v) = v {
                        t.check(v.is(c, &p), "into_subgroup", d);
                    }
                }
                if let Some(v) = t.guard("clear_cofactor", d, || pp.clear_cofactor()) {
                    let e = clear_ref(name, c, &p);
                    assert!(c.in_subgroup(&e), "reference leaves the subgroup");
                    t.check(v.is(c, &e), "clear_cofactor", || format!("got {:x?}, expected {}; {}", v.xyz(), show(&e), d()));
                }
            }
            for i in 0..n / 4 + 3 {
                let mode = (i % 3) as u8;
                let seed = t.rng.u64();
                let d = || format!("random, mode {mode}, seed {seed}");
                if let Some((x, y, x2)) = t.guard("random", d, || {
                    let mut r = Rng::new(seed);
                    let x = C::random(Src(&mut r, mode));
                    let y = A::random(Src(&mut r, mode));
                    (x, y, C::random(Src(&mut Rng::new(seed), mode)))
                }) {
                    t.seen(&(seed, mode), true);
                    t.class("random");
                    for p in [x.rp(c), C::rp_aff(&y)] {
                        t.check(c.on_curve(&p) && c.in_subgroup(&p), "random", || format!("{} is not in the subgroup; {}", show(&p), d()));
                    }
                    t.check(x.rp(c) == x2.rp(c), "random is a function of its randomness", d);
                }
            }
            let _ = (B::one(), B::zero(), <C as PC>::SF::ONE, <A as CurveAffine>::a(), <C as CurveExt>::a(), C::default().to_affine());
        }
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            let c = <$t>::reference();
            let k = if c.is_prime_order() {
                150
            } else if c.deg == 1 {
                300
            } else {
                80
            };
            for part in 0..if k == 80 { 2 } else { 1 } {
                jobs.push(job(format!("{}/subgroup{part}", <$t as PC>::NAME), move |t: &mut Task| {
                    let n = t.n(k);
                    subgroup!($t)(t, n)
                }));
            }
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
