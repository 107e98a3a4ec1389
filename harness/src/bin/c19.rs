//! C19: hashing to curves against a reference written from RFC 9380.
use h2c_monitor::h2c::*;
use h2c_monitor::*;
use halo2curves::{CurveAffine, CurveExt};

/// Messages whose length sits around a block boundary of the hash, and others.
fn message(r: &mut Rng, dict: &[usize]) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.below(4),
        1 => *r.pick(&[31, 32, 33, 48, 54, 55, 56, 57, 63, 64, 65, 96, 119, 120, 121, 127, 128, 129, 255, 256, 257]),
        2 => r.below(200),
        3 if !dict.is_empty() => *r.pick(dict),
        4 => r.below(5000),
        5 if r.one_in(4) => r.below(3) + 4095 * r.range(1, 4),
        5 if r.one_in(8) => [65_530, 131_070][r.below(2)] + r.below(12),
        _ => r.below(64),
    };
    let n = fresh_size(r, 1 << 20).unwrap_or(n);
    match r.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            if n > 0 {
                let i = r.below(n);
                v[i] = 1 << r.below(8);
            }
            v
        }
        _ => r.bytes(n),
    }
}

/// Domain prefixes; `max` is the longest that leaves the tag below 256 bytes.
fn prefix(r: &mut Rng, max: usize) -> String {
    match r.below(10) {
        0 => String::new(),
        1 => "QUUX-V01-CS02-with-".into(),
        2 => "x".repeat(max - r.below(3)),
        3 => "x".repeat(fresh_size(r, max).unwrap_or(r.below(max))),
        // several bytes per character
        4 => "\u{e9}\u{20ac}\u{1f600}".repeat(r.below(max / 9)),
        5 => "\0".repeat(r.below(5)),
        6 => "\u{7f}".to_string(),
        _ => (0..r.below(40)).map(|_| char::from(32 + r.below(95) as u8)).collect(),
    }
}

macro_rules! hashing {
    ($t:ty) => {
        |t: &mut Task, n: usize| {
            type C = $t;
            let name = <C as PC>::NAME;
            let s = SuiteRef::of(name).unwrap();
            let c = &s.c;
            if let Some((_, x)) = VECTORS.iter().find(|v| v.0 == name) {
                let p = s.hash(b"QUUX-V01-CS02-with-", b"abc").unwrap();
                assert_eq!(p.0 .0, hex(x), "reference of {name} is not the RFC's");
            }
            let sizes = t.conf.dict_usize(3000);
            let max = 255 - s.suite.len();
            let mut i = 0;
            while i < n {
                let pre = prefix(&mut t.rng, max);
                // one hasher for several messages, interleaved with another
                let k = 1 + t.rng.below(4);
                let msgs: Vec<Vec<u8>> = (0..k).map(|_| message(&mut t.rng, &sizes)).collect();
                i += k;
                let other = prefix(&mut t.rng, max);
                let d = || format!("prefix ({} bytes) {:?}, messages {}", pre.len(), pre, msgs.iter().map(|m| show_msg(m)).collect::<Vec<_>>().join(", "));
                let got = t.guard("hash_to_curve", d, || {
                    let h = <C as CurveExt>::hash_to_curve(&pre);
                    let h2 = <C as CurveExt>::hash_to_curve(&other);
                    let first: Vec<C> = msgs.iter().map(|m| h(m)).collect();
                    let o = h2(&msgs[0]);
                    let again: Vec<C> = msgs.iter().map(|m| h(m)).collect();
                    (first, again, o)
                });
                let Some((first, again, o)) = got else { continue };
                for (j, m) in msgs.iter().enumerate() {
                    let e = s.hash(pre.as_bytes(), m);
                    t.seen(&(&pre, m), true);
                    t.class(&format!("message of {} bytes", if m.is_empty() { "0" } else if m.len() < 56 { "1..55" } else if m.len() < 200 { "56..199" } else { "200 or more" }));
                    if pre.len() + s.suite.len() >= 253 {
                        t.class("domain tag of 253..255 bytes");
                    }
                    if pre.chars().count() != pre.len() {
                        t.class("domain tag that is not ASCII");
                    }
                    t.sample(|| format!("{} -> {}", d(), show(&e)));
                    t.check(first[j].is(c, &e), "hash_to_curve", || {
                        format!("message {}: got {:x?}, expected {}; {}", show_msg(m), first[j].xyz(), show(&e), d())
                    });
                    t.check(again[j].is(c, &e), "hash_to_curve is a function of its input", d);
                    t.check(c.in_subgroup(&first[j].rp(c)) && bool::from(first[j].is_on_curve()), "in the subgroup", d);
                }
                let e = s.hash(other.as_bytes(), &msgs[0]);
                t.check(o.is(c, &e), "hash_to_curve in another domain", || format!("{}; other prefix {:?}", d(), other));
                if other != pre {
                    t.check(o.rp(c) != first[0].rp(c), "domain separation", || format!("{}; other prefix {:?}", d(), other));
                }
            }
            // tags of 256 bytes and more: refused, or hashed as the RFC says
            for extra in [1usize, 2, 50, 256 - max] {
                let pre = "y".repeat(max + extra);
                t.begin("long domain tag");
                let d = || format!("prefix of {} bytes", pre.len());
                t.seen(&pre, true);
                match quiet(|| <C as CurveExt>::hash_to_curve(&pre)(b"abc")) {
                    Err(_) => t.class("long domain tag refused"),
                    Ok(p) => {
                        t.class("long domain tag accepted");
                        let e = s.hash(pre.as_bytes(), b"abc");
                        t.check(p.is(c, &e), "long domain tag", d);
                    }
                }
            }
            let _ = <<C as PC>::Aff as CurveAffine>::a();
        }
    };
}

fn show_msg(m: &[u8]) -> String {
    let h: String = m.iter().take(40).map(|b| format!("{b:02x}")).collect();
    format!("[{} bytes] {h}{}", m.len(), if m.len() > 40 { ".." } else { "" })
}

fn main() {
    let conf = Conf::from_args();
    let mut jobs = vec![];
    macro_rules! add {
        ($t:ty) => {
            if <$t as PC>::HAS_HASH {
                let heavy = <$t>::reference().deg == 2;
                for part in 0..if heavy { 3 } else { 1 } {
                    jobs.push(job(format!("{}/hash{part}", <$t as PC>::NAME), move |t: &mut Task| {
                        let n = t.n(if heavy { 60 } else { 150 });
                        hashing!($t)(t, n)
                    }));
                }
            }
        };
    }
    for_each_curve!(add);
    run(conf, jobs);
}
