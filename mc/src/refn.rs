//! Reference arithmetic: schoolbook algorithms on little-endian digit vectors (u64 digits, any
//! radix up to 2^64), written independently of the library under test.  All vectors are kept
//! without leading zeros.

use std::cmp::Ordering;

/// A radix. `P2` is the binary logarithm if the radix is a power of two, 0 otherwise.
pub trait Radix: Send + Sync + 'static {
    const R: u128;
    const P2: u32;
}

pub fn norm(mut a: Vec<u64>) -> Vec<u64> {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}

pub fn cmp(a: &[u64], b: &[u64]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}

#[inline]
fn divr<X: Radix>(v: u128) -> (u128, u64) {
    if X::P2 != 0 {
        (v >> X::P2, (v & (X::R - 1)) as u64)
    } else if X::R <= u64::MAX as u128 && v <= u64::MAX as u128 {
        let (v, r) = (v as u64, X::R as u64);
        ((v / r) as u128, v % r)
    } else {
        (v / X::R, (v % X::R) as u64)
    }
}

pub fn add<X: Radix>(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len().max(b.len());
    let mut out = Vec::with_capacity(n + 1);
    let mut c = 0u128;
    for i in 0..n {
        let s = c + a.get(i).copied().unwrap_or(0) as u128 + b.get(i).copied().unwrap_or(0) as u128;
        if s >= X::R {
            out.push((s - X::R) as u64);
            c = 1;
        } else {
            out.push(s as u64);
            c = 0;
        }
    }
    if c != 0 {
        out.push(1);
    }
    norm(out)
}

/// a - b, or None if a < b
pub fn sub<X: Radix>(a: &[u64], b: &[u64]) -> Option<Vec<u64>> {
    if cmp(a, b) == Ordering::Less {
        return None;
    }
    let mut out = Vec::with_capacity(a.len());
    let mut c = 0u128;
    for i in 0..a.len() {
        let t = c + b.get(i).copied().unwrap_or(0) as u128;
        let v = a[i] as u128;
        if v >= t {
            out.push((v - t) as u64);
            c = 0;
        } else {
            out.push((v + X::R - t) as u64);
            c = 1;
        }
    }
    assert!(c == 0);
    Some(norm(out))
}

pub fn mul<X: Radix>(a: &[u64], b: &[u64]) -> Vec<u64> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let n = a.len() + b.len();
    if n > 2000 {
        // a sum of few multiples
        let few = |v: &[u64]| v.iter().filter(|&&x| x != 0).count() <= 12;
        let (a, b) = if few(a) { (b, a) } else { (a, b) };
        if few(b) {
            let mut out = vec![];
            for (i, &y) in b.iter().enumerate().filter(|x| *x.1 != 0) {
                let mut t = vec![0; i];
                t.extend(mul_word_add::<X>(a, y, 0));
                out = add::<X>(&t, &out);
            }
            return out;
        }
    }
    let mut out = Vec::with_capacity(n);
    if X::R <= 1 << 24 {
        let mut acc = vec![0u64; n];
        for (i, &x) in a.iter().enumerate() {
            if x != 0 {
                for (p, &y) in acc[i..i + b.len()].iter_mut().zip(b) {
                    *p = p.wrapping_add(x.wrapping_mul(y));
                }
            }
        }
        let r = X::R as u64;
        let mut c = 0u64;
        for v in acc {
            let t = v + c;
            out.push(t % r);
            c = t / r;
        }
        assert!(c == 0);
    } else if X::R <= 1 << 32 {
        let mut acc = vec![0u128; n];
        for (i, &x) in a.iter().enumerate() {
            if x != 0 {
                for (p, &y) in acc[i..i + b.len()].iter_mut().zip(b) {
                    *p = p.wrapping_add(x.wrapping_mul(y) as u128);
                }
            }
        }
        let mut c = 0u128;
        for v in acc {
            let (q, r) = divr::<X>(v + c);
            out.push(r);
            c = q;
        }
        assert!(c == 0);
    } else {
        let mut c: u128 = 0;
        for k in 0..n {
            let (mut lo, mut hi) = (c, 0u64);
            let i0 = if k >= b.len() { k - b.len() + 1 } else { 0 };
            let i1 = k.min(a.len() - 1);
            if i0 <= i1 {
                for i in i0..=i1 {
                    let (s, o) = lo.overflowing_add(a[i] as u128 * b[k - i] as u128);
                    lo = s;
                    hi += o as u64;
                }
            }
            if X::P2 == 64 {
                out.push(lo as u64);
                c = (lo >> 64) | ((hi as u128) << 64);
            } else {
                let (r, mut q) = (hi as u128 % X::R, 0u128);
                assert!(hi as u128 / X::R == 0);
                let cur = (r << 64) | (lo >> 64);
                q = (q << 64) | (cur / X::R);
                let cur = ((cur % X::R) << 64) | (lo & u64::MAX as u128);
                q = (q << 64) + (cur / X::R);
                out.push((cur % X::R) as u64);
                c = q;
            }
        }
        assert!(c == 0);
    }
    norm(out)
}

/// a * w + o
pub fn mul_word_add<X: Radix>(a: &[u64], w: u64, o: u64) -> Vec<u64> {
    let mut out = Vec::with_capacity(a.len() + 2);
    let mut c = o as u128;
    for &d in a {
        let (q, r) = divr::<X>(d as u128 * w as u128 + c);
        out.push(r);
        c = q;
    }
    while c != 0 {
        let (q, r) = divr::<X>(c);
        out.push(r);
        c = q;
    }
    norm(out)
}

/// (a / w, a % w); requires w > 0 and R * w to fit in 128 bits (always the case)
pub fn divrem_word<X: Radix>(a: &[u64], w: u64) -> (Vec<u64>, u64) {
    let mut out = vec![0; a.len()];
    let mut r = 0u128;
    for i in (0..a.len()).rev() {
        let t = r * X::R + a[i] as u128;
        out[i] = (t / w as u128) as u64;
        r = t % w as u128;
    }
    (norm(out), r as u64)
}

/// The digits of a word
pub fn from_word<X: Radix>(mut w: u64) -> Vec<u64> {
    let mut out = vec![];
    while w != 0 {
        out.push((w as u128 % X::R) as u64);
        w = (w as u128 / X::R) as u64;
    }
    out
}

/// a * 2^n
pub fn shl<X: Radix>(a: &[u64], n: usize) -> Vec<u64> {
    let mut out = a.to_vec();
    if X::P2 != 0 && !a.is_empty() {
        let p = X::P2 as usize;
        let mut z = vec![0; n / p];
        z.extend_from_slice(&out);
        return mul_word_add::<X>(&z, 1u64 << (n % p), 0);
    }
    let mut n = n;
    while n > 0 {
        let s = n.min(32);
        out = mul_word_add::<X>(&out, 1u64 << s, 0);
        n -= s;
    }
    out
}

/// floor(a / 2^n)
pub fn shr<X: Radix>(a: &[u64], n: usize) -> Vec<u64> {
    let mut out = a.to_vec();
    let mut n = n;
    if X::P2 != 0 {
        // whole digits
        let p = X::P2 as usize;
        out.drain(..(n / p).min(a.len()));
        n %= p;
    }
    while n > 0 && !out.is_empty() {
        let s = n.min(32);
        out = divrem_word::<X>(&out, 1u64 << s).0;
        n -= s;
    }
    out
}

pub fn pow<X: Radix>(a: &[u64], e: usize) -> Vec<u64> {
    let mut out = vec![1];
    for _ in 0..e {
        out = mul::<X>(&out, a);
    }
    out
}

/// Convert digits in radix X to digits in radix Y
pub fn conv<X: Radix, Y: Radix>(a: &[u64]) -> Vec<u64> {
    let mut out = vec![];
    // group as many digits as fit in 63 bits
    let mut k = 1;
    if X::R < 1 << 31 {
        let mut p = X::R;
        while p * X::R < 1 << 63 {
            p *= X::R;
            k += 1;
        }
    }
    let groups: Vec<&[u64]> = a.chunks(k).collect();
    for (gi, g) in groups.iter().enumerate().rev() {
        let _ = gi;
        if X::R > u64::MAX as u128 {
            out = mul_word_add::<Y>(&out, 1 << 32, 0);
            out = mul_word_add::<Y>(&out, 1 << 32, g[0]);
        } else {
            let (mut v, mut p) = (0u64, 1u64);
            for &d in g.iter().rev() {
                v = v * X::R as u64 + d;
                p *= X::R as u64;
            }
            out = mul_word_add::<Y>(&out, p, v);
        }
    }
    out
}

/// So many digits of base `b` make up a digit of radix X, if that is a power of it
fn places<X: Radix>(b: u128) -> Option<usize> {
    let (mut k, mut p) = (0, 1u128);
    while p < X::R {
        p *= b;
        k += 1;
    }
    if p == X::R {
        Some(k)
    } else {
        None
    }
}

/// Digits of base `b` of a long number, taken from the digits of radix X one by one, where that is
/// possible
fn split_digits<X: Radix>(a: &[u64], b: u64) -> Option<Vec<u64>> {
    let k = places::<X>(b as u128)?;
    if a.len() < 2000 {
        return None;
    }
    let mut out = Vec::with_capacity(k * a.len());
    for &d in a {
        let mut d = d;
        for _ in 0..k {
            out.push(d % b);
            d /= b;
        }
    }
    Some(norm(out))
}

/// The reverse of that
pub fn join_digits<X: Radix>(t: &[u64], b: u64) -> Option<Vec<u64>> {
    let k = places::<X>(b as u128)?;
    if t.len() < 20_000 {
        return None;
    }
    Some(norm(t.chunks(k).map(|g| g.iter().rev().fold(0, |v, &x| v * b + x)).collect()))
}

/// The exact schoolbook quotient and remainder by bitwise long division; slow, used only where no
/// candidate result is available to verify.
pub fn divrem<X: Radix>(n: &[u64], d: &[u64]) -> (Vec<u64>, Vec<u64>) {
    assert!(!d.is_empty());
    // digit by digit; each quotient digit found by binary search
    let mut r: Vec<u64> = vec![];
    let mut q = vec![0u64; n.len()];
    for i in (0..n.len()).rev() {
        r.insert(0, n[i]);
        r = norm(r);
        if cmp(&r, d) == Ordering::Less {
            continue;
        }
        let (mut lo, mut hi) = (1u128, X::R - 1);
        while lo < hi {
            let mid = (lo + hi + 1) / 2;
            if cmp(&mul_word_add::<X>(d, mid as u64, 0), &r) == Ordering::Greater {
                hi = mid - 1;
            } else {
                lo = mid;
            }
        }
        q[i] = lo as u64;
        r = sub::<X>(&r, &mul_word_add::<X>(d, lo as u64, 0)).unwrap();
    }
    (norm(q), r)
}

/// The value as decimal text
pub fn to_dec_string<X: Radix>(a: &[u64]) -> String {
    let d = split_digits::<X>(a, 10).unwrap_or_else(|| conv::<X, D1>(a));
    if d.is_empty() {
        return "0".into();
    }
    d.iter().rev().map(|&x| (b'0' + x as u8) as char).collect()
}

/// The value as hexadecimal text
pub fn to_hex_string<X: Radix>(a: &[u64]) -> String {
    let d = split_digits::<X>(a, 16).unwrap_or_else(|| conv::<X, H1>(a));
    if d.is_empty() {
        return "0".into();
    }
    d.iter().rev().map(|&x| std::char::from_digit(x as u32, 16).unwrap()).collect()
}

macro_rules! radix {
    ($n:ident, $r:expr, $p:expr) => {
        pub struct $n;
        impl Radix for $n {
            const R: u128 = $r;
            const P2: u32 = $p;
        }
    };
}
radix!(D1, 10, 0);
radix!(H1, 16, 4);
radix!(R8, 1 << 8, 8);
radix!(R16, 1 << 16, 16);
radix!(R32, 1 << 32, 32);
radix!(R64, 1 << 64, 64);
radix!(D2, 100, 0);
radix!(D4, 10_000, 0);
radix!(D9, 1_000_000_000, 0);
radix!(D19, 10_000_000_000_000_000_000, 0);
radix!(T4, 4, 2);
radix!(T6, 6, 0);
radix!(T10, 10, 0);
