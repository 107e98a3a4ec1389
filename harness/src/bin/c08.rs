//! C08: encodings of extension field elements: decoders accept exactly the
//! canonical encodings, never panic, and round-trip.
use h2c_monitor::fields::*;
use h2c_monitor::gen::*;
use h2c_monitor::*;
use halo2curves::ff::{FromUniformBytes, PrimeField};
use halo2curves::ff_ext::quadratic::QuadExtField;
use halo2curves::serde::SerdeObject;
use num_traits::{One, Zero};
use std::io::Cursor;

/// An integer that fits the encoding of one coefficient.
fn word(g: &Gen, r: &mut Rng, size: usize) -> B {
    let max: B = (B::one() << (8 * size)) - 1u32;
    let v = match r.below(8) {
        0 => &g.p + b(r.below(4) as u64),
        1 => &g.p - 1u32 - b(r.below(4) as u64),
        2 => g.val(r) + &g.p,
        3 => g.wide(r),
        4 => &max - b(r.below(3) as u64),
        5 => b(r.below(3) as u64),
        _ => g.val(r),
    };
    if v > max {
        v & max
    } else {
        v
    }
}

macro_rules! fp2_job {
    ($jobs:ident, $name:expr, $fp:ty, $be:expr, $uni:expr) => {
        $jobs.push(job(concat!($name, "/fp2"), |t: &mut Task| {
            type F1 = $fp;
            type F2 = QuadExtField<$fp>;
            type Repr = <F2 as PrimeField>::Repr;
            let n = t.n(6000);
            let g = Gen::of::<F1>(&t.conf.dict.clone());
            const S: usize = <F1>::SIZE;
            let rd = |x: &F2| (x.c0().val(), x.c1().val());
            t.check(F2::SIZE == 2 * S, "SIZE", || format!("{}", F2::SIZE));
            for _ in 0..n {
                let v = (word(&g, &mut t.rng, S), word(&g, &mut t.rng, S));
                let canon = v.0 < g.p && v.1 < g.p;
                let d = || format!("c0={:x} c1={:x}", v.0, v.1);
                t.seen(&v, !(v.0.is_zero() && v.1.is_zero()));
                t.class(match (v.0 < g.p, v.1 < g.p) {
                    (true, true) => "canonical",
                    (false, true) => "c0 not canonical",
                    (true, false) => "c1 not canonical",
                    _ => "neither canonical",
                });
                t.sample(d);
                let le2 = [to_le(&v.0, S), to_le(&v.1, S)].concat();
                let nat2 = if $be { [to_be(&v.0, S), to_be(&v.1, S)].concat() } else { le2.clone() };
                let nat: [u8; 2 * S] = nat2.clone().try_into().unwrap();
                let lea: [u8; 2 * S] = le2.clone().try_into().unwrap();
                let exp = if canon { Some(v.clone()) } else { None };
                if let Some(r) = t.guard("from_bytes", d, || opt(F2::from_bytes(&nat))) {
                    t.check(r.map(|x| rd(&x)) == exp, "from_bytes", || format!("{r:?}; {}", d()));
                }
                if let Some(r) = t.guard("from_repr", d, || {
                    let mut q = Repr::default();
                    q.as_mut().copy_from_slice(&lea);
                    (opt(F2::from_repr(q)), F2::from_repr_vartime(q))
                }) {
                    t.check(r.0.map(|x| rd(&x)) == exp && r.1.map(|x| rd(&x)) == exp, "from_repr", || format!("{r:?}; {}", d()));
                }
                // the raw encoding: Montgomery words, which must be below p
                if let Some(r) = t.guard("from_raw_bytes", d, || {
                    let mut cur = Cursor::new([&le2[..], &[0xAA, 0xBB]].concat());
                    let q = F2::read_raw(&mut cur);
                    (F2::from_raw_bytes(&le2), q.ok(), cur.position())
                }) {
                    let e = if canon { Some((g.unmont(&v.0), g.unmont(&v.1))) } else { None };
                    t.check(r.0.map(|x| rd(&x)) == e, "from_raw_bytes", || format!("{r:?}; {}", d()));
                    t.check(r.1.map(|x| rd(&x)) == e, "read_raw", || format!("{r:?}; {}", d()));
                    if canon {
                        t.check(r.2 == 2 * S as u64, "read_raw consumes its own bytes only", d);
                    }
                }
                // wrong lengths of the raw form
                let k = t.rng.below(2 * S + 8);
                if k != 2 * S {
                    let short: Vec<u8> = le2.iter().cycle().take(k).cloned().collect();
                    if let Some(r) = t.guard("from_raw_bytes length", || format!("{k} bytes"), || F2::from_raw_bytes(&short)) {
                        t.check(r.is_none(), "from_raw_bytes length", || format!("{k} bytes accepted"));
                    }
                    if k < 2 * S {
                        if let Some(r) = t.guard("read_raw length", || format!("{k} bytes"), || F2::read_raw(&mut Cursor::new(&short)).is_err()) {
                            t.check(r, "read_raw length", || format!("{k} bytes accepted"));
                        }
                    }
                }
                // serde visits the two coefficients
                let bin = [to_le(&v.0, S), to_le(&v.1, S)].concat();
                let hex = |v: &B| to_le(v, S).iter().map(|b| format!("{b:02x}")).collect::<String>();
                let json = format!("{{\"c0\":\"{}\",\"c1\":\"{}\"}}", hex(&v.0), hex(&v.1));
                if let Some(r) = t.guard("serde", d, || (bincode::deserialize::<F2>(&bin).ok(), serde_json::from_str::<F2>(&json).ok())) {
                    t.check(r.0.map(|x| rd(&x)) == exp && r.1.map(|x| rd(&x)) == exp, "deserialize", || format!("{r:?}; {}", d()));
                }
                if t.rng.one_in(8) {
                    let step = 1 + t.rng.below(2 * S + 3);
                    if let Some(r) = t.guard("serde", d, || [formats::from_json::<F2>(&json, step), formats::from_binary::<F2>(&bin, step)].concat()) {
                        for (how, r) in r {
                            t.check(r.map(|x| rd(&x)) == exp, how, || format!("{r:?}; {}", d()));
                        }
                    }
                    // the coefficients by name in either order, or by position
                    let (a, b) = (hex(&v.0), hex(&v.1));
                    let forms = [
                        (format!("{{\"c1\":\"{b}\",\"c0\":\"{a}\"}}"), exp.clone()),
                        (format!("[\"{a}\",\"{b}\"]"), exp.clone()),
                        (format!("{{\"c1\":\"{b}\"}}"), None),
                        (format!("{{\"c0\":\"{a}\"}}"), None),
                        (format!("[\"{a}\"]"), None),
                        (format!("[\"{a}\",\"{b}\",\"{b}\"]"), None),
                        (format!("{{\"c0\":\"{a}\",\"c1\":\"{b}\",\"c0\":\"{a}\"}}"), None),
                        (format!("\"{a}{b}\""), None),
                        (format!("{{\"c0\":\"{a}\",\"c1\":\"{}\"}}", &b[2..]), None),
                        (format!("{{\"c0\":\"{a}00\",\"c1\":\"{b}\"}}"), None),
                    ];
                    for (js, want) in forms {
                        if let Some(r) = t.guard("serde object", || js.clone(), || serde_json::from_str::<F2>(&js).ok()) {
                            t.check(r.map(|x| rd(&x)) == want, "serde object", || format!("{js} -> {r:?}"));
                        }
                    }
                    if canon {
                        let x = F2::new(F1::of(&v.0), F1::of(&v.1));
                        if let Some(r) = t.guard("serde encode", d, || formats::to_all(&x, &json, &bin)) {
                            for (how, got, want) in r {
                                t.check(got == want, how, || format!("{got:02x?}; {}", d()));
                            }
                        }
                    }
                    t.class("other ways to read and write serde formats");
                }
                if canon {
                    let x = F2::new(F1::of(&v.0), F1::of(&v.1));
                    if let Some(r) = t.guard("encode", d, || {
                        let mut w = vec![7u8];
                        x.write_raw(&mut w).unwrap();
                        (x.to_bytes(), x.to_repr(), x.to_raw_bytes(), w, bincode::serialize(&x).unwrap(), serde_json::to_string(&x).unwrap())
                    }) {
                        t.check(r.0 == nat, "to_bytes", d);
                        t.check(r.1.as_ref() == &lea[..], "to_repr", d);
                        let raw = [to_le(&x.c0().raw(), S), to_le(&x.c1().raw(), S)].concat();
                        t.check(r.2 == raw && r.3[1..] == raw && r.3[0] == 7, "to_raw_bytes", d);
                        t.check(r.4 == bin && r.5 == json, "serialize", d);
                    }
                    let raw = [to_le(&x.c0().raw(), S), to_le(&x.c1().raw(), S)].concat();
                    if let Some(r) = t.guard("unchecked", d, || (F2::from_raw_bytes_unchecked(&raw), F2::read_raw_unchecked(&mut Cursor::new(&raw)))) {
                        t.check(rd(&r.0) == v && rd(&r.1) == v, "unchecked round trip", d);
                    }
                }
                let mut u = vec![0u8; $uni];
                for (i, x) in [&v.0, &v.1].iter().enumerate() {
                    let s = if t.rng.bool() { t.rng.bytes($uni / 2) } else { to_le(x, S.max($uni / 2)) };
                    u[i * $uni / 2..(i + 1) * $uni / 2].copy_from_slice(&s[..$uni / 2]);
                }
                let ua: [u8; $uni] = u.clone().try_into().unwrap();
                if let Some(r) = t.guard("from_uniform_bytes", || format!("{u:x?}"), || <F2 as FromUniformBytes<$uni>>::from_uniform_bytes(&ua)) {
                    let e = (le(&u[$uni / 2..]) % &g.p, le(&u[..$uni / 2]) % &g.p);
                    t.check(rd(&r) == e, "from_uniform_bytes", || format!("{u:x?}"));
                }
            }
        }));
    };
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    fp2_job!(jobs, "bn256", halo2curves::bn256::Fq, <halo2curves::bn256::Fq as PF>::BIG_ENDIAN, 96);
    fp2_job!(jobs, "bls12381", halo2curves::bls12381::Fq, <halo2curves::bls12381::Fq as PF>::BIG_ENDIAN, 128);
    fp2_job!(jobs, "pluto", halo2curves::pluto_eris::Fp, <halo2curves::pluto_eris::Fp as PF>::BIG_ENDIAN, 128);
    run(conf, jobs);
}
