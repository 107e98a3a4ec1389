//! C02: the record of every script, as digests; the driver compares the records
//! of the builds.  Conversions from small integers are checked on the spot.
use h2c_monitor::fields::PF;
use h2c_monitor::*;
#[allow(unused_imports)]
use halo2curves::ff::Field;
#[path = "../parts/script.rs"]
mod script;
use script::*;
use std::sync::Arc;

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    // the same number of cases in every build: the records must line up
    let units: Vec<Arc<Unit>> = units(&conf.dict).into_iter().map(Arc::new).collect();
    for u in units {
        let n = ((2.0e6 * conf.scale) as usize / u.cost).clamp(1, 30000);
        let parts = if u.cost > 500000 { 1 } else { 4 };
        for part in 0..parts {
            let u = u.clone();
            jobs.push(job(format!("{}/{part}", u.name), move |t: &mut Task| {
                for i in 0..(n + parts - 1) / parts {
                    let mut rec = Rec::default();
                    if t.conf.dump == Some(i as u64) {
                        rec.text = Some(vec![]);
                    }
                    t.begin("script");
                    let mut r = Rng::new(t.rng.u64());
                    (u.run)(&mut r, &mut rec);
                    t.seen(&(rec.digest(), i), true);
                    t.sample(|| format!("{}: {:x?}", rec.input, rec.items));
                    t.digests.push(rec.digest());
                    for (op, _) in &rec.items {
                        t.class_n(op, 1);
                    }
                    for (op, m) in &rec.panics {
                        t.check(false, &format!("{op}/panic"), || m.clone());
                    }
                    if let Some(x) = &rec.text {
                        x.iter().for_each(|l| eprintln!("DUMP {} {l}", t.name));
                    }
                    if t.conf.dump.map_or(false, |d| d < i as u64) {
                        break;
                    }
                }
            }));
        }
    }
    macro_rules! small {
        ($t:ty) => {
            jobs.push(job(format!("small integers/{}", <$t as PF>::NAME), |t: &mut Task| {
                let p = <$t as PF>::p();
                let mut r = b(1) << (64 * <$t as PF>::L);
                r %= &p;
                // a table may stand behind all integers of two bytes
                let top = if <$t as PF>::NAME.ends_with("Fr") { 70000 } else { t.n(70000) as u64 };
                let mut extra: Vec<u64> = (14..64).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 41, (1 << k) | 0xabcd]).collect();
                for _ in 0..2000 {
                    let v = t.rng.u64();
                    // also with zeros in a middle part, and of every length
                    extra.push(match v % 4 {
                        0 => v,
                        1 => v & !0xffff_0000,
                        2 => v & 0xffff_ffff_0000_ffff & !(0xff << (v % 40)),
                        _ => v >> (v % 61),
                    });
                }
                extra.push(u64::MAX);
                for i in (0..top).chain(extra) {
                    t.begin("from u64");
                    t.seen(&i, i > 1);
                    let v = <$t>::from(i);
                    t.check(v.raw() == mulm(&b(i), &r, &p) && v.val() == b(i), "from u64", || format!("{i} -> {v:?}"));
                    t.digests.push(fnv(&v.to_repr_bytes()));
                    if t.conf.dump == Some(t.digests.len() as u64 - 1) {
                        eprintln!("DUMP {} from u64 on {i} -> {v:?}", t.name);
                    }
                }
                t.class_n("small integers", top);
            }));
        };
    }
    h2c_monitor::for_each_field!(small);
    run(conf, jobs);
}

trait Bytes {
    fn to_repr_bytes(&self) -> Vec<u8>;
}
impl<F: PF> Bytes for F {
    fn to_repr_bytes(&self) -> Vec<u8> {
        self.to_repr().as_ref().to_vec()
    }
}
