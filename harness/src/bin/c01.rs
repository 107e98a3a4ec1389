//! C01: prime-field arithmetic is integer arithmetic modulo the published
//! prime, with canonical results, for every operand pair and call form.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use num_integer::Integer;
use num_traits::Zero;

fn expect<F: PF>(t: &mut Task, g: &Gen, op: &'static str, got: &F, want: &B, inp: &[&B]) {
    let raw = got.raw();
    let wr = mulm(want, &g.r, &g.p);
    if raw != wr {
        t.check(false, op, || {
            format!(
                "inputs {:?}: internal value {raw:x}, expected {wr:x} (value {want:x}){}",
                inp.iter().map(|x| format!("{x:x}")).collect::<Vec<_>>(),
                if raw >= g.p { " NOT CANONICAL" } else { "" }
            )
        });
    }
}

fn pairs<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for i in 0..n {
        let a = g.val(&mut t.rng);
        let bb = if i % 3 == 0 { g.val(&mut t.rng) } else { g.related(&mut t.rng, &a) };
        let (x, y): (F, F) = (make(&g, &mut t.rng, &a), make(&g, &mut t.rng, &bb));
        t.seen(&(&a, &bb), !a.is_zero() && !bb.is_zero());
        t.sample(|| format!("a={a:x} b={bb:x}"));
        let sum = addm(&a, &bb, p);
        let dif = subm(&a, &bb, p);
        let pro = mulm(&a, &bb, p);
        let inp = [&a, &bb];
        t.begin("binop");
        let r = quiet(|| {
            (
                [x.i_add(&y), x + y, x + &y, { let mut z = x; z += y; z }, { let mut z = x; z += &y; z }],
                [x.i_sub(&y), x - y, x - &y, { let mut z = x; z -= y; z }, { let mut z = x; z -= &y; z }],
                [x.i_mul(&y), x * y, x * &y, { let mut z = x; z *= y; z }, { let mut z = x; z *= &y; z }],
            )
        });
        match r {
            Ok((s, d, m)) => {
                for v in &s {
                    expect(t, &g, "add", v, &sum, &inp);
                }
                for v in &d {
                    expect(t, &g, "sub", v, &dif, &inp);
                }
                for v in &m {
                    expect(t, &g, "mul", v, &pro, &inp);
                }
            }
            Err(e) => {
                t.check(false, "binop/panic", || format!("a={a:x} b={bb:x}: {e}"));
            }
        }
        t.begin("unop");
        let r = quiet(|| {
            (
                [x.i_neg(), -x],
                [x.i_double(), halo2curves::ff::Field::double(&x)],
                [x.i_square(), halo2curves::ff::Field::square(&x)],
                x.cube(),
            )
        });
        match r {
            Ok((ng, db, sq, cu)) => {
                let a2 = mulm(&a, &a, p);
                for v in &ng {
                    expect(t, &g, "neg", v, &negm(&a, p), &[&a]);
                }
                for v in &db {
                    expect(t, &g, "double", v, &addm(&a, &a, p), &[&a]);
                }
                for v in &sq {
                    expect(t, &g, "square", v, &a2, &[&a]);
                }
                expect(t, &g, "cube", &cu, &mulm(&a2, &a, p), &[&a]);
            }
            Err(e) => {
                t.check(false, "unop/panic", || format!("a={a:x}: {e}"));
            }
        }
    }
    t.class_n("operand pairs", n as u64);
}

/// Straight-line programs over a register file, replayed on integers: the
/// results feed later operations, so a non-canonical intermediate is observed
/// through every way it can be consumed.
fn programs<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for _ in 0..n {
        let mut m: Vec<B> = (0..4).map(|_| g.val(&mut t.rng)).collect();
        let mut v: Vec<F> = m.iter().map(|b| make(&g, &mut t.rng, b)).collect();
        let init = m.clone();
        let mut prog = vec![];
        for _ in 0..32 {
            let (o, d, i, j) = (t.rng.below(9), t.rng.below(4), t.rng.below(4), t.rng.below(4));
            prog.push((o, d, i, j));
            t.begin("program");
            let (a, bb) = (m[i].clone(), m[j].clone());
            let (x, y) = (v[i], v[j]);
            let r = quiet(|| match o {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x.square(),
                4 => x.double(),
                5 => -x,
                6 => [x, y, x].iter().sum(),
                7 => [x, y, y].iter().product(),
                _ => F::conditional_select(&x, &y, 1.into()),
            });
            m[d] = match o {
                0 => addm(&a, &bb, p),
                1 => subm(&a, &bb, p),
                2 => mulm(&a, &bb, p),
                3 => mulm(&a, &a, p),
                4 => addm(&a, &a, p),
                5 => negm(&a, p),
                6 => (&a + &bb + &a) % p,
                7 => (&a * &bb * &bb) % p,
                _ => bb.clone(),
            };
            match r {
                Ok(r) => v[d] = r,
                Err(e) => {
                    t.check(false, "program/panic", || format!("{init:?} {prog:?}: {e}"));
                    break;
                }
            }
            if v[d].raw() != mulm(&m[d], &g.r, p) || v[d] != F::of(&m[d]) {
                let (got, want) = (v[d].raw(), m[d].clone());
                t.check(false, "program", || format!("start {init:x?} ops {prog:?}: internal {got:x} for value {want:x}"));
                break;
            }
        }
        t.seen(&(init, prog), true);
    }
    t.class_n("programs of 32 operations", n as u64);
}

fn sums<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for i in 0..n {
        let k = match i % 4 {
            0 => i / 4 % 9,
            1 => t.rng.below(40),
            2 => t.rng.below(5),
            _ if i % 64 == 3 => 300 + t.rng.below(3000),
            _ => 30 + t.rng.below(300),
        };
        let k = fresh_size(&mut t.rng, 70_000 / (1 + i % 16)).unwrap_or(k);
        let m: Vec<B> = (0..k).map(|_| g.val(&mut t.rng)).collect();
        let v: Vec<F> = m.iter().map(|b| make(&g, &mut t.rng, b)).collect();
        let s = m.iter().fold(B::zero(), |a, b| a + b) % p;
        let q = m.iter().fold(b(1), |a, b| (a * b) % p);
        t.seen(&m, k > 1);
        t.begin("sum");
        match quiet(|| {
            (
                v.iter().sum::<F>(),
                v.iter().copied().sum::<F>(),
                v.iter().product::<F>(),
                v.iter().copied().product::<F>(),
            )
        }) {
            Ok((a, bb, c, d)) => {
                let inp: Vec<&B> = m.iter().take(6).collect();
                expect(t, &g, "sum", &a, &s, &inp);
                expect(t, &g, "sum", &bb, &s, &inp);
                expect(t, &g, "product", &c, &q, &inp);
                expect(t, &g, "product", &d, &q, &inp);
            }
            Err(e) => {
                t.check(false, "sum/panic", || format!("{m:x?}: {e}"));
            }
        }
    }
}

fn pows<F: PF>(t: &mut Task, n: usize) {
    let g = Gen::of::<F>(&t.conf.dict.clone());
    let p = &g.p;
    for i in 0..n {
        let a = g.val(&mut t.rng);
        let x: F = make(&g, &mut t.rng, &a);
        let el: Vec<u64> = match i % 6 {
            0 => vec![t.rng.below(70) as u64],
            1 => vec![],
            2 => limbs(&g.wide(&mut t.rng), F::L),
            3 => limbs(&(p - 1u32 - t.rng.below(3) as u64), F::L),
            4 => (0..F::L + 1 + t.rng.below(2) * t.rng.below(2 * F::L)).map(|j| limb(&mut t.rng, g.pl[j % F::L])).collect(),
            _ => {
                // a few words among zeros, anywhere
                let mut v = vec![0; t.rng.range(1, 3 * F::L)];
                for _ in 0..t.rng.range(1, 2) {
                    let at = t.rng.below(v.len());
                    v[at] = limb(&mut t.rng, g.pl[0]);
                }
                v
            }
        };
        let e = from_limbs(&el);
        t.seen(&(&a, &el), !a.is_zero() && !e.is_zero());
        let want = if e.is_zero() { b(1) } else { a.modpow(&e, p) };
        if let Some(r) = t.guard("pow", || format!("{a:x}^{e:x}"), || x.pow(&el)) {
            expect(t, &g, "pow", &r, &want, &[&a, &e]);
        }
        if let Some(r) = t.guard("pow_vartime", || format!("{a:x}^{e:x}"), || x.pow_vartime(&el)) {
            expect(t, &g, "pow_vartime", &r, &want, &[&a, &e]);
        }
        let _ = e.is_odd();
    }
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! f {
        ($t:ty) => {
            for k in 0..4 {
                jobs.push(job(format!("{}/pairs{k}", <$t>::NAME), |t| { let n = t.n(20_000); pairs::<$t>(t, n) }));
            }
            jobs.push(job(format!("{}/programs", <$t>::NAME), |t| { let n = t.n(2_000); programs::<$t>(t, n) }));
            jobs.push(job(format!("{}/sums", <$t>::NAME), |t| { let n = t.n(400); sums::<$t>(t, n) }));
            jobs.push(job(format!("{}/pow", <$t>::NAME), |t| { let n = t.n(600); pows::<$t>(t, n) }));
        };
    }
    h2c_monitor::for_each_field!(f);
    run(conf, jobs)
}
