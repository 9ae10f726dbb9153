//! The operand spaces: families of digit vectors.

use crate::refn::norm;
use std::collections::HashSet;

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A fixed, structureless digit
pub fn gdigit(r: u128, seed: u64, i: usize) -> u64 {
    (splitmix(seed.wrapping_mul(0x100000001b3).wrapping_add(i as u64)) as u128 % r) as u64
}

/// A fixed, structureless number of `n` digits
pub fn generic(r: u128, seed: u64, n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = (0..n).map(|i| gdigit(r, seed, i)).collect();
    if let Some(t) = v.last_mut() {
        if *t == 0 {
            *t = 1;
        }
    }
    v
}

/// Digit values, in order of importance; the first `k` are used.
pub fn alphabet(r: u128, k: usize) -> Vec<u64> {
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let all = [
        0,
        m,
        1,
        h,
        m - 1,
        h - 1,
        gdigit(r, 7, 1),
        (2 % r) as u64,
        ((h as u128 + 1) % r) as u64,
        (r / 3) as u64,
        gdigit(r, 11, 2),
        (r / 3 * 2) as u64,
        (r / 4) as u64,
        (3 % r) as u64,
    ];
    let mut out = vec![];
    for &x in &all {
        if out.len() < k && !out.contains(&x) {
            out.push(x);
        }
    }
    out
}

/// Lengths beyond those that are explored without gaps
pub const LONG: &[usize] = &[
    90, 100, 127, 128, 129, 150, 160, 191, 192, 193, 200, 255, 256, 257, 258, 300, 383, 384, 385, 511, 512, 513, 700, 1000, 1023, 1024, 1025,
];

/// Digit values at all borders: powers of two and ten, fractions of the radix, and their neighbours
pub fn edges(r: u128, thin: bool) -> Vec<u64> {
    let m = (r - 1) as u64;
    let mut v = alphabet(r, 14);
    if r <= 16 {
        return (0..=m).collect();
    }
    let near = |v: &mut Vec<u64>, x: u128| {
        v.extend([x.wrapping_sub(1), x, x + 1].iter().filter(|&&y| y < r).map(|&y| y as u64));
        // and as far from the radix
        v.extend([(r - x).wrapping_sub(1), r - x, r - x + 1].iter().filter(|&&y| y < r).map(|&y| y as u64));
    };
    for i in 0..64 {
        let x = 1u128 << i;
        if x < r && (!thin || matches!(i, 0 | 1 | 4 | 7 | 8 | 15 | 16 | 31 | 32 | 33 | 47 | 48 | 62 | 63)) {
            near(&mut v, x);
        }
    }
    let mut x = 10;
    let mut i = 1;
    while x < r {
        if !thin || matches!(i, 1 | 4 | 5 | 9 | 10 | 18) {
            near(&mut v, x);
        }
        x *= 10;
        i += 1;
    }
    for k in [2, 3, 5, 7] {
        near(&mut v, r / k);
    }
    // around the root
    let mut s = (r as f64).sqrt() as u128;
    while s * s > r {
        s -= 1;
    }
    near(&mut v, s);
    near(&mut v, s + 1);
    v.push(gdigit(r, 13, 3));
    v.sort_unstable();
    v.dedup();
    v
}

/// All numbers of at most `n` digits over an alphabet that contains 0 (each once).
pub fn words(al: &[u64], n: usize) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<u64>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for w in &cur {
            for &d in al {
                let mut v = w.clone();
                v.push(d);
                if d != 0 {
                    out.push(v.clone());
                }
                next.push(v);
            }
        }
        cur = next;
    }
    out
}

/// All numbers of exactly `n` digits over an alphabet.
pub fn words_exact(al: &[u64], n: usize) -> Vec<Vec<u64>> {
    words(al, n).into_iter().filter(|w| w.len() == n).collect()
}

/// A number of all values below `max`
pub fn all_values(r: u128, max: u64) -> Vec<Vec<u64>> {
    (0..max)
        .map(|mut v| {
            let mut d = vec![];
            while v != 0 {
                d.push((v as u128 % r) as u64);
                v = (v as u128 / r) as u64;
            }
            d
        })
        .collect()
}

pub fn dedup(v: Vec<Vec<u64>>) -> Vec<Vec<u64>> {
    let mut seen = HashSet::new();
    v.into_iter().map(norm).filter(|x| seen.insert(x.clone())).collect()
}

/// Numbers of `n` digits made of at most three runs of equal digits, with the given cut positions
pub fn runs(n: usize, cuts: &[usize], kinds: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for &k in kinds {
        if k != 0 {
            out.push(vec![k; n]);
        }
    }
    for &c in cuts.iter().filter(|&&c| c > 0 && c < n) {
        for &k in kinds {
            for &l in kinds {
                if l != 0 && k != l {
                    let mut v = vec![k; n];
                    v[c..].fill(l);
                    out.push(v);
                }
            }
        }
    }
    for (i, &c) in cuts.iter().enumerate() {
        for &e in &cuts[i + 1..] {
            if c == 0 || e >= n || c >= e {
                continue;
            }
            for &k in kinds {
                for &l in kinds {
                    for &m in kinds {
                        if m != 0 && k != l && l != m {
                            let mut v = vec![k; n];
                            v[c..e].fill(l);
                            v[e..].fill(m);
                            out.push(v);
                        }
                    }
                }
            }
        }
    }
    dedup(out)
}

/// Runs with all cuts for short numbers, with the cuts near the ends and the usual block borders for
/// long ones.
pub fn cuts(n: usize) -> Vec<usize> {
    if n <= 9 {
        return (1..n).collect();
    }
    let s = (n + 1) / 2;
    let t = (n + 2) / 3;
    let mut c = vec![1, 2, t - 1, t, t + 1, s - 1, s, s + 1, 2 * t - 1, 2 * t, 2 * t + 1, n - 2, n - 1];
    c.retain(|&x| x > 0 && x < n);
    c.sort();
    c.dedup();
    c
}

/// Single cuts only: cheap variant for long numbers.
pub fn long_shapes(r: u128, n: usize) -> Vec<Vec<u64>> {
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let mut out = vec![vec![m; n], generic(r, 1, n), generic(r, 2, n)];
    let mut v = vec![0; n];
    if n > 0 {
        v[n - 1] = 1;
        out.push(v.clone());
        v[0] = 1;
        out.push(v.clone());
        v[0] = 0;
        v[n - 1] = m;
        out.push(v.clone());
        let mut w = vec![m; n];
        w[0] = 0;
        out.push(w.clone());
        w[0] = m;
        w[n - 1] = 1;
        out.push(w);
        out.push(vec![h; n]);
        // alternating
        out.push((0..n).map(|i| if i % 2 == 0 { m } else { 0 }).collect());
        out.push((0..n).map(|i| if i % 2 == 1 { m } else { 0 }).collect());
    }
    dedup(out).into_iter().filter(|v| v.len() == n).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Zero,
    One,
    Max,
    /// top digit of the block is half the radix, the others zero
    Top,
    Gen(u64),
    /// top digit one, others zero
    TopOne,
    /// all digits maximal but the lowest, which is one less
    MaxM1,
    /// zero but for the top digit, which is maximal
    TopMax,
    /// lower half structureless, upper half zero
    LowGen(u64),
}

pub fn fill(r: u128, b: &mut [u64], k: Kind, salt: u64) {
    let m = (r - 1) as u64;
    let n = b.len();
    if n == 0 {
        return;
    }
    b.fill(0);
    match k {
        Kind::Zero => {}
        Kind::One => b[0] = 1,
        Kind::Max => b.fill(m),
        Kind::Top => b[n - 1] = (r / 2) as u64,
        Kind::Gen(s) => {
            for (i, x) in b.iter_mut().enumerate() {
                *x = gdigit(r, s * 1000 + salt, i)
            }
        }
        Kind::TopOne => b[n - 1] = 1,
        Kind::MaxM1 => {
            b.fill(m);
            b[0] = m - 1
        }
        Kind::TopMax => b[n - 1] = m,
        Kind::LowGen(s) => {
            for (i, x) in b[..n / 2].iter_mut().enumerate() {
                *x = gdigit(r, s * 1000 + salt, i)
            }
        }
    }
}

/// Numbers of `n` digits in blocks of size `bs` (the top one may be shorter), each block of one of
/// the given kinds, in all combinations. Numbers that come out shorter than `n` are kept only if
/// `short` is set.
pub fn blocks(r: u128, n: usize, bs: usize, kinds: &[Kind], short: bool) -> Vec<Vec<u64>> {
    let nb = (n + bs - 1) / bs;
    let mut out = vec![];
    let total = kinds.len().pow(nb as u32);
    for mut c in 0..total {
        let mut v = vec![0; n];
        for (i, b) in v.chunks_mut(bs).enumerate() {
            // equal blocks for equal kinds: differences of blocks vanish
            let _ = i;
            fill(r, b, kinds[c % kinds.len()], 0);
            c /= kinds.len();
        }
        let v = norm(v);
        if short || v.len() == n {
            out.push(v);
        }
    }
    dedup(out)
}
