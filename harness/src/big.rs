//! Independent integer reference arithmetic.
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, Zero};

pub type B = BigUint;

pub fn hex(s: &str) -> B {
    B::parse_bytes(s.trim_start_matches("0x").as_bytes(), 16).expect("hex")
}
pub fn b(n: u64) -> B {
    B::from(n)
}
pub fn le(bytes: &[u8]) -> B {
    B::from_bytes_le(bytes)
}
pub fn be(bytes: &[u8]) -> B {
    B::from_bytes_be(bytes)
}
/// Little-endian bytes, padded to `size`.
pub fn to_le(n: &B, size: usize) -> Vec<u8> {
    let mut v = n.to_bytes_le();
    assert!(v.len() <= size || v.iter().skip(size).all(|x| *x == 0));
    v.resize(size, 0);
    v
}
pub fn to_be(n: &B, size: usize) -> Vec<u8> {
    let mut v = to_le(n, size);
    v.reverse();
    v
}
pub fn limbs(n: &B, k: usize) -> Vec<u64> {
    let mut v = n.to_u64_digits();
    assert!(v.len() <= k);
    v.resize(k, 0);
    v
}
pub fn from_limbs(l: &[u64]) -> B {
    let mut v = vec![];
    for x in l {
        v.push(*x as u32);
        v.push((*x >> 32) as u32);
    }
    B::new(v)
}
pub fn addm(a: &B, b: &B, p: &B) -> B {
    let s = a + b;
    if &s >= p {
        s - p
    } else {
        s
    }
}
pub fn subm(a: &B, b: &B, p: &B) -> B {
    if a >= b {
        a - b
    } else {
        a + p - b
    }
}
pub fn negm(a: &B, p: &B) -> B {
    if a.is_zero() {
        B::zero()
    } else {
        p - a
    }
}
pub fn mulm(a: &B, b: &B, p: &B) -> B {
    (a * b) % p
}
/// Inverse modulo p by the extended Euclidean algorithm, None if not coprime.
pub fn invm(a: &B, p: &B) -> Option<B> {
    use num_bigint::BigInt;
    let (a, m) = (BigInt::from(a % p), BigInt::from(p.clone()));
    let e = a.extended_gcd(&m);
    if !e.gcd.is_one() {
        return None;
    }
    let mut x = e.x % &m;
    if x.sign() == num_bigint::Sign::Minus {
        x += &m;
    }
    Some(x.to_biguint().unwrap())
}
/// Jacobi symbol (a / n), n odd, by the textbook binary algorithm.
pub fn jacobi(a: &B, n: &B) -> i64 {
    assert!(n.is_odd());
    let (mut a, mut n) = (a % n, n.clone());
    let mut t = 1;
    while !a.is_zero() {
        let z = a.trailing_zeros().unwrap();
        if z > 0 {
            a >>= z;
            let r = low(&n) % 8;
            if z % 2 == 1 && (r == 3 || r == 5) {
                t = -t;
            }
        }
        std::mem::swap(&mut a, &mut n);
        if low(&a) % 4 == 3 && low(&n) % 4 == 3 {
            t = -t;
        }
        a %= &n;
    }
    if n.is_one() {
        t
    } else {
        0
    }
}
pub fn low(n: &B) -> u64 {
    n.iter_u64_digits().next().unwrap_or(0)
}
/// Square root modulo an odd prime (Tonelli-Shanks over integers).
pub fn sqrtm(a: &B, p: &B) -> Option<B> {
    let a = a % p;
    if a.is_zero() {
        return Some(a);
    }
    if jacobi(&a, p) != 1 {
        return None;
    }
    let one = B::one();
    if low(p) % 4 == 3 {
        return Some(a.modpow(&((p + &one) >> 2), p));
    }
    let mut q = p - &one;
    let mut s = 0u64;
    while q.is_even() {
        q >>= 1;
        s += 1;
    }
    let mut z = b(2);
    while jacobi(&z, p) != -1 {
        z += &one;
    }
    let mut m = s;
    let mut c = z.modpow(&q, p);
    let mut t = a.modpow(&q, p);
    let mut r = a.modpow(&((&q + &one) >> 1), p);
    while !t.is_one() {
        let mut i = 0;
        let mut u = t.clone();
        while !u.is_one() {
            u = mulm(&u, &u, p);
            i += 1;
        }
        let mut bb = c.clone();
        for _ in 0..(m - i - 1) {
            bb = mulm(&bb, &bb, p);
        }
        m = i;
        c = mulm(&bb, &bb, p);
        t = mulm(&t, &c, p);
        r = mulm(&r, &bb, p);
    }
    Some(r)
}
