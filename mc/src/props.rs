//! The spaces of operands explored for each property.

use crate::engine::{Plan, W};
use crate::num::*;
use crate::pat::*;
use crate::refn::{self, Radix};
use std::sync::Arc;
use Op::*;

pub type List = Arc<Vec<Vec<u64>>>;

pub const VFORMS: &[u8] = &[0, 1, 2, 3, 4, 5];
pub const RFORMS: &[u8] = &[3, 5];
pub const RR: &[u8] = &[3];

fn r<N: Num>() -> u128 {
    <N::X as Radix>::R
}

pub fn list(v: Vec<Vec<u64>>) -> List {
    Arc::new(v)
}

/// All pairs of two lists
pub fn cross<N: Num>(p: &mut Plan, fam: &str, op: Op, fs: &'static [u8], a: &List, b: &List) {
    cross_if::<N>(p, fam, op, fs, a, b, |_, _| true)
}

pub fn cross_if<N: Num>(
    p: &mut Plan,
    fam: &str,
    op: Op,
    fs: &'static [u8],
    a: &List,
    b: &List,
    cond: fn(&[u64], &[u64]) -> bool,
) {
    let weight: usize = b.iter().map(|x| 4 + x.len()).sum::<usize>().max(1);
    let avg = a.iter().map(|x| 4 + x.len()).sum::<usize>() / a.len().max(1);
    // aim at jobs of a fraction of a second
    let per = if matches!(op, Mul | Div | Rem | DivBig | RemBig) { weight * avg } else { weight + b.len() * avg };
    let chunk = (6_000_000 / per.max(1)).clamp(1, a.len().max(1));
    for i in (0..a.len()).step_by(chunk) {
        let (a, b) = (a.clone(), b.clone());
        p.job(&format!("{} {:?} {}", N::NAME, op, fam), move |w| {
            for x in &a[i..(i + chunk).min(a.len())] {
                for y in b.iter() {
                    if w.stopped() {
                        return;
                    }
                    if cond(x, y) {
                        w.big::<N>(op, fs, x, y);
                    }
                }
            }
        });
    }
}

/// Each number of a list, by function
pub fn each<N: Num, F: Fn(&mut W, &[u64]) + Send + Sync + 'static>(p: &mut Plan, fam: &str, a: &List, chunk: usize, f: F) {
    let f = Arc::new(f);
    for i in (0..a.len()).step_by(chunk) {
        let (a, f) = (a.clone(), f.clone());
        p.job(&format!("{} {}", N::NAME, fam), move |w| {
            for x in &a[i..(i + chunk).min(a.len())] {
                if w.stopped() {
                    return;
                }
                f(w, x);
            }
        });
    }
}

/// Sweep over all pairs of lengths, with the long shapes for each
fn sweep<N: Num>(p: &mut Plan, fam: &str, op: Op, fs: &'static [u8], l0: Vec<usize>, l1: Vec<usize>, nshapes: usize) {
    let l1 = Arc::new(l1);
    for n0 in l0 {
        let l1 = l1.clone();
        p.job(&format!("{} {:?} {}", N::NAME, op, fam), move |w| {
            let xs = long_shapes(r::<N>(), n0);
            for &n1 in l1.iter() {
                let ys = long_shapes(r::<N>(), n1);
                for x in xs.iter().take(nshapes) {
                    for y in ys.iter().take(nshapes) {
                        if w.stopped() {
                            return;
                        }
                        w.big::<N>(op, fs, x, y);
                    }
                }
            }
        });
    }
}

fn range(a: usize, b: usize) -> Vec<usize> {
    (a..=b).collect()
}

fn runs_upto(r: u128, n: usize, kinds: &[u64]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]];
    for i in 1..=n {
        out.extend(runs(i, &cuts(i), kinds));
    }
    dedup(out)
        .into_iter()
        .filter(|v| v.iter().all(|&d| (d as u128) < r))
        .collect()
}

/// Digits `y` for which `x + y` (or `x - y`) is at or next to a border: of the radix, of the
/// storage word, zero.
fn partners(r: u128, bits: u32, op: Op, x: u64) -> Vec<u64> {
    let (r, w, x) = (r as i128, 1i128 << if bits == 0 { 8 } else { bits }, x as i128);
    let borders: &[i128] = if op == Add {
        &[r - 1, w - 1, r - 2, r, w - 2, w, r / 2 - 1, w / 2 - 1, 2 * r - w, 2 * r - w - 1]
    } else {
        &[0, -1, 1, w - r, r - w, w - r - 1, r - w + 1, 2, -2, r / 2]
    };
    let mut v = vec![];
    for &s in borders {
        let y = if op == Add { s - x } else { x - s };
        if y >= 0 && y < r && !v.contains(&(y as u64)) {
            v.push(y as u64);
        }
    }
    for y in [0, (r - 1) as u64] {
        if !v.contains(&y) {
            v.push(y);
        }
    }
    v
}

/// Pairs whose digits are related place by place, with and without a carry from below
fn related<N: Num>(p: &mut Plan, op: Op) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let bits = N::WBITS;
    for (places, k, tails) in [(2usize, p.pick(9, 14), true), (3, p.pick(6, 9), false)] {
        let mut pairs: Vec<(u64, u64)> = vec![];
        for x in alphabet(r, k) {
            for y in partners(r, bits, op, x) {
                pairs.push((x, y));
            }
        }
        let pairs = Arc::new(pairs);
        for first in 0..pairs.len() {
            let pairs = pairs.clone();
            p.job(&format!("{} {:?} related digits, {} places", N::NAME, op, places), move |w| {
                let n = pairs.len();
                let exts: &[&[u64]] = &[&[], &[m], &[1], &[0, 1], &[m, m, 1]];
                for c in 0..n.pow(places as u32 - 1) {
                    let (mut x, mut y) = (vec![pairs[first].0], vec![pairs[first].1]);
                    let mut c = c;
                    for _ in 1..places {
                        x.push(pairs[c % n].0);
                        y.push(pairs[c % n].1);
                        c /= n;
                    }
                    for &e in &exts[..if tails { 5 } else { 2 }] {
                        if w.stopped() {
                            return;
                        }
                        let mut x = x.clone();
                        x.extend(e);
                        let (x, y) = (refn::norm(x), refn::norm(y.clone()));
                        w.big::<N>(op, RFORMS, &x, &y);
                        if op == Add && !e.is_empty() {
                            w.big::<N>(op, RFORMS, &y, &x);
                        }
                    }
                }
            });
        }
    }
    // one place, every digit, with every other digit (or, for large radices, those at a border)
    let all = r <= 256 || N::WBITS == 16;
    if !all {
        return;
    }
    let step = if r <= 256 { 4 } else { 500 };
    for lo in (0..=m).step_by(step) {
        p.job(&format!("{} {:?} every digit", N::NAME, op), move |w| {
            for x in lo..=(lo + step as u64 - 1).min(m) {
                let ys = if r <= 256 { (0..=m).collect() } else { partners(r, bits, op, x) };
                for y in ys {
                    for (cx, cy) in [(0, 0), if op == Add { (m, 1) } else { (0, 1) }] {
                        for e in [&[][..], &[m], &[1]] {
                            if w.stopped() {
                                return;
                            }
                            let mut a = vec![cx, x];
                            a.extend(e);
                            let (a, b) = (refn::norm(a), refn::norm(vec![cy, y]));
                            w.big::<N>(op, RFORMS, &a, &b);
                        }
                    }
                }
            }
        });
    }
}

/// Addition and subtraction share their spaces
fn addsub<N: Num>(p: &mut Plan, op: Op) {
    let r = r::<N>();
    if r <= 256 {
        let l = list(all_values(r, p.pick(1000, 3000)));
        cross::<N>(p, "all small values", op, if p.thorough { VFORMS } else { &[0, 3, 5] }, &l, &l);
    }
    let l = list(words(&alphabet(r, 6), 3));
    cross::<N>(p, "words of up to 3 digits", op, VFORMS, &l, &l);
    let l = list(words(&alphabet(r, 5), p.pick(4, 5)));
    cross::<N>(p, "words of up to 4-5 digits", op, RFORMS, &l, &l);
    let l = list(words(&[0, (r - 1) as u64, 1], p.pick(6, 7)));
    cross::<N>(p, "words of up to 6-7 digits", op, RR, &l, &l);
    let l = list(runs_upto(r, p.pick(8, 9), &[0, (r - 1) as u64, 1]));
    cross::<N>(p, "runs of up to 8-9 digits", op, RFORMS, &l, &l);
    let l = list(words(&edges(r, false), 1));
    cross::<N>(p, "every border digit", op, RFORMS, &l, &l);
    let l = list(words(&edges(r, true), 2).into_iter().step_by(p.pick(3, 1)).collect());
    let k = list(words(&edges(r, true), 1));
    cross::<N>(p, "every border digit", op, RFORMS, &l, &k);
    sweep::<N>(p, "length sweep", op, RFORMS, range(0, p.pick(72, 160)), range(0, p.pick(72, 160)), p.pick(8, 11));
    sweep::<N>(p, "long length sweep", op, RFORMS, LONG.to_vec(), LONG.to_vec(), p.pick(5, 11));
    sweep::<N>(p, "long and short", op, RFORMS, LONG.to_vec(), range(1, p.pick(9, 40)), p.pick(5, 11));
    related::<N>(p, op);
    // operands that are the same object
    let mut all = words(&alphabet(r, 8), 3);
    for n in 1..p.pick(70, 400) {
        all.extend(long_shapes(r, n));
    }
    each::<N, _>(p, &format!("{:?} same operand", op), &list(all), 200, move |w, x| {
        w.big::<N>(op, &[6, 7], x, x);
    });
    // ripple of one carry or borrow through part of a long number
    let len = p.pick(80, 330);
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let most = p.pick(520, 1100);
    for n in (1..=len).chain(LONG.iter().cloned().filter(move |&n| n > len && n <= most)) {
        p.job(&format!("{} {:?} ripple", N::NAME, op), move |w| {
            for i in 0..n {
                // one at position i
                let mut y = vec![0; i + 1];
                for one in [1, m, h] {
                    y[i] = one;
                    for hi in [(i + 1).max(n - n / 3), n] {
                        // maximal digits in i..hi, something else beyond; for subtraction, zeros and then one
                        let mut x = vec![if op == Add { m } else { 0 }; n];
                        x[hi.min(n)..].fill(if op == Add { m - 1 } else { 1 });
                        if op == Sub {
                            x.push(1);
                        }
                        let x = refn::norm(x);
                        if w.stopped() {
                            return;
                        }
                        w.big::<N>(op, RFORMS, &x, &y);
                        if op == Add {
                            w.big::<N>(op, RFORMS, &y, &x);
                        }
                    }
                }
            }
        });
    }
}

pub fn c01<N: Num>(p: &mut Plan) {
    addsub::<N>(p, Add);
}

pub fn c02<N: Num>(p: &mut Plan) {
    addsub::<N>(p, Sub);
    let r = r::<N>();
    // (x + y) - y and (x + y) - x: differences that are much shorter than the operands
    let mut xs = words(&alphabet(r, 5), 3);
    for n in (4..p.pick(40, 150)).step_by(p.pick(3, 1)) {
        xs.extend(long_shapes(r, n));
    }
    let xs = list(dedup(xs));
    let ys = xs.clone();
    each::<N, _>(p, "Sub sum minus part", &xs, 4, move |w, x| {
        for y in ys.iter() {
            let s = refn::add::<N::X>(x, y);
            if w.stopped() {
                return;
            }
            w.big::<N>(Sub, RFORMS, &s, y);
            // one more than the minuend: underflow
            let t = refn::add::<N::X>(&s, &[1]);
            if x.len() % 4 == 0 || x.len() < 2 {
                w.big::<N>(Sub, &[5], &s, &t);
            }
        }
    });
}

const KINDS: &[Kind] =
    &[Kind::Zero, Kind::Max, Kind::One, Kind::Gen(3), Kind::Top, Kind::Gen(4), Kind::TopOne, Kind::MaxM1, Kind::TopMax, Kind::LowGen(5)];

fn kara_split(n: usize) -> usize {
    (n + 1) / 2
}
fn toom_split(n: usize) -> usize {
    (n + 2) / 3
}

pub fn c03<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let t = p.thorough;
    if r <= 256 {
        let l = list(all_values(r, p.pick(900, 2500)));
        cross::<N>(p, "all small values", Mul, &[3], &l, &l);
    }
    let l = list(words(&alphabet(r, 6), 3));
    cross::<N>(p, "words of up to 3 digits", Mul, VFORMS, &l, &l);
    let l = list(words(&alphabet(r, 5), 4));
    cross::<N>(p, "words of up to 4 digits", Mul, RR, &l, &l);
    // digits whose products are at the borders of the radix, with all carries from below
    products::<N>(p);
    // all pairs of lengths around and beyond the Karatsuba threshold
    sweep::<N>(p, "length sweep", Mul, RR, range(0, p.pick(64, 110)), range(0, p.pick(64, 110)), p.pick(5, 9));
    sweep::<N>(p, "length sweep, all shapes", Mul, RR, range(17, p.pick(44, 60)), range(17, p.pick(44, 60)), 11);
    sweep::<N>(p, "short and long", Mul, RR, range(1, p.pick(19, 30)), (65..=300).step_by(p.pick(13, 3)).collect(), p.pick(4, 8));
    sweep::<N>(p, "long and short", Mul, RR, (65..=300).step_by(p.pick(13, 3)).collect(), range(1, p.pick(19, 30)), p.pick(4, 8));
    // Karatsuba-sized, both operands cut in blocks as the algorithm cuts them
    let kk = &KINDS[..p.pick(7, 10)];
    for &(n0, n1) in &[(20, 20), (21, 21), (20, 23), (23, 20), (40, 40), (41, 39), (22, 40), (44, 22), (64, 33)] {
        let s = kara_split(n0.max(n1));
        let a = list(blocks(r, n0, s, kk, false));
        let b = list(blocks(r, n1, s, kk, false));
        cross::<N>(p, "Karatsuba blocks", Mul, RR, &a, &b);
    }
    // nested: four blocks
    for &(n0, n1) in if t { &[(40, 40), (44, 42), (48, 37), (80, 80), (120, 84)][..] } else { &[(40, 40), (44, 42)][..] } {
        let s = kara_split(kara_split(n0.max(n1)));
        let a = list(blocks(r, n0, s, &KINDS[..p.pick(3, 4)], false));
        let b = list(blocks(r, n1, s, &KINDS[..p.pick(3, 4)], false));
        cross::<N>(p, "Karatsuba nested blocks", Mul, RR, &a, &b);
    }
    // unequal lengths up to where one operand is several times as long as the other
    let l0: Vec<usize> = (20..=64).step_by(p.pick(2, 1)).collect();
    let l1: Vec<usize> = (20..=230).step_by(p.pick(5, 2)).collect();
    sweep::<N>(p, "unequal lengths", Mul, RR, l0.clone(), l1.clone(), p.pick(3, 6));
    sweep::<N>(p, "unequal lengths", Mul, RR, l1, l0, p.pick(3, 6));
    // Toom-3
    let tk = &KINDS[..p.pick(5, 6)];
    let pairs: &[(usize, usize)] = if t {
        &[(128, 128), (129, 128), (128, 130), (130, 130), (131, 131), (190, 128), (128, 192), (256, 130), (130, 257)]
    } else {
        &[(128, 128), (131, 129)]
    };
    for &(n0, n1) in pairs {
        let s = toom_split(n0.max(n1));
        let a = list(blocks(r, n0, s, tk, false));
        let b = list(blocks(r, n1, s, tk, false));
        cross::<N>(p, "Toom-3 blocks", Mul, RR, &a, &b);
    }
    let tl: Vec<usize> = if t { (126..=200).chain([255, 256, 257, 258, 300, 383, 384, 385, 400]).collect() } else { vec![126, 127, 128, 129, 130, 131, 132, 150, 191, 192, 193, 255, 256, 257, 258, 300] };
    sweep::<N>(p, "Toom-3 length sweep", Mul, RR, tl.clone(), tl, p.pick(3, 6));
    // Toom-3 within Toom-3, and Toom-3 of very unequal operands
    let nl: Vec<usize> = if t { (376..=388).chain([400, 500]).collect() } else { vec![379, 380, 384] };
    sweep::<N>(p, "nested Toom-3", Mul, RR, nl.clone(), nl, p.pick(3, 5));
    for &(n0, n1) in if t { &[(382, 382), (384, 400), (390, 385)][..] } else { &[(382, 384)][..] } {
        let s = toom_split(n0.max(n1));
        let a = list(blocks(r, n0, s, &KINDS[..p.pick(3, 5)], false));
        let b = list(blocks(r, n1, s, &KINDS[..p.pick(3, 5)], false));
        cross::<N>(p, "nested Toom-3 blocks", Mul, RR, &a, &b);
    }
    // three and four nested levels of Toom-3
    let dl: &[usize] = if t { &[1132, 1135, 1138, 1150, 1300, 1800, 3390] } else { &[1135, 1150] };
    for &n in dl {
        let n1 = n - n / 50;
        let mut a = long_shapes(r, n);
        a.truncate(p.pick(2, 3));
        a.extend(blocks(r, n, toom_split(n), &KINDS[..2], false));
        let mut b = long_shapes(r, n1);
        b.truncate(p.pick(2, 3));
        b.extend(blocks(r, n1, toom_split(n), &KINDS[..2], false));
        if n > 3000 {
            a.truncate(3);
            b.truncate(3);
        }
        let (a, b) = (list(dedup(a)), list(dedup(b)));
        cross::<N>(p, "deeply nested Toom-3", Mul, RR, &a, &b);
    }
    // word structure at the borders of the blocks
    for n in [21usize, 40, 129] {
        let l = list(runs(n, &cuts(n).into_iter().step_by(p.pick(2, 1)).collect::<Vec<_>>(), &[0, (r - 1) as u64]));
        let l = if n > 100 { list(l.iter().step_by(p.pick(4, 1)).cloned().collect()) } else { l };
        cross::<N>(p, "runs", Mul, RR, &l, &l);
    }
}

/// For a digit, the digits with which it gives a product at or next to a multiple of the radix (or
/// a product that is, with some carry)
fn factors(r: u128, x: u64, thin: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![0, 1, (r - 1) as u64];
    if x == 0 {
        return v;
    }
    let x = x as u128;
    let most = x * (r - 1) / r;
    let mut ks = vec![1, 2, most, most.saturating_sub(1), most / 2];
    if !thin {
        ks.extend([3, most / 3, x / 2, x - 1]);
    }
    for k in ks {
        let y = k * r / x;
        for y in [y.wrapping_sub(1), y, y + 1] {
            if y < r && !v.contains(&(y as u64)) {
                v.push(y as u64);
            }
        }
    }
    v
}

fn products<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let es = list(words(&edges(r, p.pick(true, false)), 1)[1..].to_vec());
    let thin = !p.thorough;
    each::<N, _>(p, "Mul products of digits at borders", &es, 1, move |w, e| {
        let x = e[0];
        let mut fs = factors(r, x, false);
        if r <= 256 {
            fs = (1..=m).collect();
        }
        let more: &[&[u64]] = if thin { &[&[], &[m], &[1]] } else { &[&[], &[m], &[1], &[0, 1], &[m, m]] };
        for y in fs {
            for &low in &[0, 1, m, m - 1, m / 2 + 1] {
                for &hi in more {
                    for &c in &[0, 1, m] {
                        if w.stopped() {
                            return;
                        }
                        // x in the second place over a low digit, times y over another
                        let mut a = vec![low, x];
                        a.extend(hi);
                        let b = refn::norm(vec![y]);
                        let b2 = refn::norm(vec![c, y]);
                        w.big::<N>(Mul, RR, &a, &b);
                        w.big::<N>(Mul, RR, &a, &b2);
                        w.big::<N>(Mul, RR, &b2, &a);
                    }
                }
            }
        }
    });
}

fn square_list<N: Num>(p: &Plan) -> List {
    let r = r::<N>();
    let mut v = words(&alphabet(r, p.pick(8, 10)), 4);
    v.extend(words(&alphabet(r, 4), p.pick(6, 7)));
    v.extend(words(&[0, (r - 1) as u64, 1], p.pick(8, 10)));
    v.extend(words(&edges(r, true), 2));
    if r <= 256 {
        v.extend(all_values(r, p.pick(70000, 1000000)));
    }
    for n in 1..=p.pick(260, 420) {
        v.extend(long_shapes(r, n));
    }
    for n in (379..=p.pick(390, 460)).chain([511, 512, 513, 576]) {
        v.extend(long_shapes(r, n).into_iter().take(p.pick(6, 11)));
    }
    for n in [20, 21, 22, 39, 40, 41, 64, 65, 100, 127] {
        v.extend(blocks(r, n, kara_split(n), KINDS, false));
        v.extend(blocks(r, n, kara_split(kara_split(n)), &KINDS[..p.pick(4, 6)], false));
    }
    for n in [128, 129, 130, 131, 150, 192] {
        v.extend(blocks(r, n, toom_split(n), &KINDS[..p.pick(7, 10)], false));
    }
    for n in [380, 382, 384] {
        v.extend(blocks(r, n, toom_split(n), &KINDS[..p.pick(5, 8)], false));
        if p.thorough {
            v.extend(blocks(r, n, toom_split(toom_split(n)), &KINDS[..3], false).into_iter().step_by(7));
        }
    }
    for n in [21usize, 40, 129] {
        v.extend(runs(n, &cuts(n), &[0, (r - 1) as u64, 1]));
    }
    // three and four nested levels of Toom-3
    for &n in if p.thorough { &[1129usize, 1132, 1135, 1138, 1141, 1150, 1200, 1500, 2000, 3388, 3400][..] } else { &[1132usize, 1135, 1150][..] } {
        v.extend(long_shapes(r, n).into_iter().take(p.pick(5, 11)));
        v.extend(blocks(r, n, toom_split(n), &KINDS[..p.pick(2, 3)], false));
        if p.thorough && n < 1300 {
            v.extend(blocks(r, n, toom_split(toom_split(n)), &KINDS[..2], false).into_iter().step_by(5));
        }
    }
    list(dedup(v))
}

pub fn c04<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let l = square_list::<N>(p);
    let (short, long): (Vec<_>, Vec<_>) = l.iter().cloned().partition(|x| x.len() < 20);
    let f = |w: &mut W, x: &[u64]| {
        w.num::<N>(Square, &[0], x, 0);
    };
    each::<N, _>(p, "Square short", &list(short), 3000, f);
    each::<N, _>(p, "Square long", &list(long), 50, f);
    // powers: all exponents up to a bound, for small bases
    let mut b = words(&alphabet(r, 6), 2);
    b.extend(words(&alphabet(r, 3), 3));
    if r <= 256 {
        b.extend(all_values(r, 300));
    }
    let emax = p.pick(70, 200);
    each::<N, _>(p, "Pow all exponents", &list(dedup(b)), 4, move |w, x| {
        let mut want = vec![1];
        for e in 0..=emax as u64 {
            if w.stopped() {
                return;
            }
            let g = Args { a: x, b: &[], n: e, s: "" };
            w.ops::<N>(Pow, &[0, 1], g, &Out::Num(want.clone()), e > 1 && x.len() > 0);
            want = refn::mul::<N::X>(&want, x);
        }
    });
    // large exponents of two and of zero and one
    let top = p.pick(2100, 4200);
    p.job(&format!("{} Pow of two", N::NAME), move |w| {
        let mut want = vec![1];
        for e in 0..=top {
            if w.stopped() {
                return;
            }
            let g = Args { a: &[2], b: &[], n: e, s: "" };
            w.ops::<N>(Pow, &[0, 1], g, &Out::Num(want.clone()), true);
            want = refn::mul_word_add::<N::X>(&want, 2, 0);
        }
        for e in [1u64 << 20, u32::MAX as u64, u64::MAX, 1 << 63] {
            for (a, b) in [(vec![], vec![]), (vec![1], vec![1])] {
                let g = Args { a: &a, b: &[], n: e, s: "" };
                w.ops::<N>(Pow, &[0, 1], g, &Out::Num(b), true);
            }
        }
        let g = Args { a: &[], b: &[], n: 0, s: "" };
        w.ops::<N>(Pow, &[0, 1], g, &Out::Num(vec![1]), true);
    });
    // long exponents of small bases
    let b = list(vec![vec![3], vec![5], vec![(r - 1) as u64], vec![0, 1], vec![1, 1], vec![(r / 2) as u64], vec![0, 0, 1], vec![(r - 2) as u64]]);
    let emax = p.pick(330, 1200);
    each::<N, _>(p, "Pow long exponents", &list(dedup(b.to_vec())), 1, move |w, x| {
        let mut want = vec![1];
        for e in 0..=emax as u64 {
            if w.stopped() {
                return;
            }
            let g = Args { a: x, b: &[], n: e, s: "" };
            w.ops::<N>(Pow, &[1], g, &Out::Num(want.clone()), e > 1);
            want = refn::mul::<N::X>(&want, x);
        }
    });
    // powers of larger bases, up to the sizes of all squaring algorithms
    let mut b = vec![];
    for n in [1, 2, 3, 5, 7, 10, 13, 20, 21, 33, 43, 64, 65] {
        b.extend(long_shapes(r, n).into_iter().take(p.pick(4, 8)));
    }
    let lim = p.pick(420, 900);
    each::<N, _>(p, "Pow large", &list(b), 1, move |w, x| {
        let mut want = x.to_vec();
        for e in 1u64..64 {
            if want.len() > lim || w.stopped() {
                return;
            }
            let g = Args { a: x, b: &[], n: e, s: "" };
            w.ops::<N>(Pow, &[1], g, &Out::Num(want.clone()), e > 1);
            want = refn::mul::<N::X>(&want, x);
        }
    });
}

/// Check all forms of division of q*d+r by d.
fn triple<N: Num>(w: &mut W, q: &[u64], d: &[u64], rem: &[u64], all: bool) {
    let n = refn::add::<N::X>(&refn::mul::<N::X>(q, d), rem);
    let g = Args { a: &n, b: d, n: 0, s: "" };
    let want = Out::Two(q.to_vec(), rem.to_vec());
    w.ops::<N>(DivBig, &[0], g, &want, !q.is_empty());
    if w.stopped() {
        return;
    }
    let rw = Out::Num(rem.to_vec());
    if all {
        w.ops::<N>(Div, &[0, 1, 2, 3, 4, 5], g, &Out::Num(q.to_vec()), false);
        w.ops::<N>(Rem, &[0, 1, 2, 3, 4, 5], g, &rw, false);
        w.ops::<N>(RemBig, &[0], g, &rw, false);
    }
}

/// The remainders tried for a divisor
fn rems<N: Num>(d: &[u64], k: usize) -> Vec<Vec<u64>> {
    let r = r::<N>();
    let dm1 = refn::sub::<N::X>(d, &[1]).unwrap();
    let mut v = vec![dm1, vec![], vec![1]];
    if d.len() > 1 {
        v.push(generic(r, 9, d.len() - 1));
        v.push(vec![(r - 1) as u64; d.len() - 1]);
        let mut t = d.to_vec();
        t[0] = 0;
        v.push(t);
    }
    let mut v: Vec<_> = dedup(v).into_iter().filter(|x| refn::cmp(x, d) == std::cmp::Ordering::Less).collect();
    v.truncate(k);
    v
}

fn triples<N: Num>(p: &mut Plan, fam: &str, ds: &List, qs: &List, k: usize, all: bool, chunk: usize) {
    let qs = qs.clone();
    each::<N, _>(p, fam, ds, chunk, move |w, d| {
        if d.is_empty() {
            return;
        }
        let rs = rems::<N>(d, k);
        for q in qs.iter() {
            for x in &rs {
                if w.stopped() {
                    return;
                }
                triple::<N>(w, q, d, x, all);
            }
        }
    });
}

pub fn c05<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let t = p.thorough;
    if r <= 256 {
        // complete: all numerators and denominators
        let ns = list(all_values(r, p.pick(1500, 6000)));
        let ds = list(all_values(r, p.pick(1500, 6000))[1..].to_vec());
        let qs = ns;
        each::<N, _>(p, "Div all small values", &ds, 8, move |w, d| {
            let dv = d.iter().rev().fold(0u64, |a, &x| a * r as u64 + x);
            for (i, n) in qs.iter().enumerate() {
                if w.stopped() {
                    return;
                }
                let i = i as u64;
                let (q, x) = (refn::from_word::<N::X>(i / dv), refn::from_word::<N::X>(i % dv));
                let g = Args { a: n, b: d, n: 0, s: "" };
                w.ops::<N>(DivBig, &[0], g, &Out::Two(q, x.clone()), i >= dv);
                w.ops::<N>(RemBig, &[0], g, &Out::Num(x), false);
            }
        });
        // all two-digit denominators with quotients and remainders at their extremes
        let ds = list(all_values(r, (r * r) as u64)[r as usize..].to_vec());
        let qs = list(words(&alphabet(r, p.pick(4, 9)), 2));
        triples::<N>(p, "Div all two-digit denominators", &ds, &qs, 3, false, 700);
        if t {
            let q1 = list(all_values(r, r as u64));
            triples::<N>(p, "Div all two-digit denominators and one-digit quotients", &ds, &q1, 2, false, 100);
        }
    }
    // numerators and denominators over an alphabet
    let ns = list(words(&alphabet(r, 5), 4));
    let ds = list(words(&alphabet(r, p.pick(6, 8)), 3)[1..].to_vec());
    each::<N, _>(p, "Div words by words", &ds, 3, move |w, d| {
        for n in ns.iter() {
            if w.stopped() {
                return;
            }
            let (q, x) = refn::divrem::<N::X>(n, d);
            let g = Args { a: n, b: d, n: 0, s: "" };
            w.ops::<N>(DivBig, &[0], g, &Out::Two(q.clone(), x.clone()), !q.is_empty());
            w.ops::<N>(Div, &[3, 5], g, &Out::Num(q), false);
            w.ops::<N>(Rem, &[3, 5], g, &Out::Num(x.clone()), false);
            w.ops::<N>(RemBig, &[0], g, &Out::Num(x), false);
        }
    });
    // quotient, denominator and remainder over an alphabet, all forms
    let ds = list(words(&alphabet(r, p.pick(7, 9)), 3)[1..].to_vec());
    let qs = list(words(&alphabet(r, p.pick(4, 5)), p.pick(2, 3)));
    triples::<N>(p, "Div triples of words", &ds, &qs, 4, true, 4);
    let ds = list(words(&alphabet(r, p.pick(4, 5)), 5).into_iter().filter(|d| d.len() >= 3).collect());
    let qs = list(words(&alphabet(r, 3), 3));
    triples::<N>(p, "Div triples of longer words", &ds, &qs, 4, false, 20);
    // same operand twice
    let mut all = words(&alphabet(r, 6), 3)[1..].to_vec();
    for n in 1..p.pick(50, 200) {
        all.extend(long_shapes(r, n));
    }
    each::<N, _>(p, "Div same operand", &list(all), 200, move |w, x| {
        let g = Args { a: x, b: x, n: 0, s: "" };
        w.ops::<N>(Div, &[6, 7, 3], g, &Out::Num(vec![1]), true);
        w.ops::<N>(Rem, &[6, 7, 3], g, &Out::Num(vec![]), true);
        w.ops::<N>(DivBig, &[0, 1], g, &Out::Two(vec![1], vec![]), true);
        w.ops::<N>(RemBig, &[0, 1], g, &Out::Num(vec![]), true);
    });
    // schoolbook lengths: every length of denominator and quotient
    for nd in 1..=19usize {
        let ds = list(if nd < 3 { words_exact(&alphabet(r, 4), nd) } else { div_dens(r, nd, 0) });
        for nq in if t { range(1, 20) } else { vec![1, 2, 3, 4, 5, 7, 11, 18, 19, 20, 30] } {
            let qs = list(div_quots(r, nq));
            triples::<N>(p, "Div schoolbook lengths", &ds, &qs, p.pick(3, 5), false, p.pick(40, 20));
        }
    }
    // recursive lengths: every length of denominator, with quotients of many lengths
    let top = p.pick(130, 190);
    for nd in (20..=top).chain([191, 192, 193, 200, 255, 256, 257, 300].into_iter().filter(|&n| n > top)) {
        let lens: Vec<usize> = if t {
            range(1, 64).into_iter().chain([80, 100, 128, 200]).filter(|q| (q + nd) % 3 == 0 || q % 7 == nd % 7).collect()
        } else {
            vec![1, 2 + nd % 5, nd / 2, nd / 2 + 1, nd - 1, nd, nd + 1, nd + 2 + nd % 7, 2 * nd + nd % 11, 3 * nd + nd % 5]
        };
        let ds = list(long_shapes(r, nd).into_iter().take(p.pick(6, 11)).collect());
        for nq in lens {
            let qs = list(long_shapes(r, nq).into_iter().take(p.pick(3, 6)).collect());
            triples::<N>(p, "Div recursive lengths", &ds, &qs, p.pick(2, 4), false, 11);
        }
    }
    // recursive division, operands cut in blocks as the algorithm cuts them
    let sizes: &[(usize, usize)] = if t {
        &[(20, 20), (21, 21), (22, 44), (32, 32), (36, 72), (39, 39), (40, 40), (41, 41), (44, 44), (64, 64), (76, 38), (80, 80), (88, 88), (160, 160)]
    } else {
        &[(20, 20), (22, 22), (21, 43), (40, 40), (42, 41), (80, 80)]
    };
    for &(nd, nq) in sizes {
        let k = if nd >= 80 { &KINDS[..4] } else { &KINDS[..p.pick(5, 7)] };
        let ds: Vec<_> = blocks(r, nd, kara_split(nd), KINDS, false)
            .into_iter()
            .chain(blocks(r, nd, kara_split(kara_split(nd)), &k[..k.len().min(p.pick(3, 5))], false))
            .collect();
        let qs: Vec<_> = blocks(r, nq, kara_split(nd), k, true)
            .into_iter()
            .chain(blocks(r, nq, kara_split(kara_split(nd)), &k[..3], true))
            .collect();
        triples::<N>(p, "Div recursive blocks", &list(dedup(ds)), &list(dedup(qs)), 3, false, p.pick(10, 4));
    }
    // top digits of the denominator at all positions within a digit (scaling)
    let mut ds = vec![];
    for nd in [2usize, 3, 5, 19, 20, 21, 33, 40] {
        let tops: Vec<u64> = if r <= 256 {
            (1..=m).collect()
        } else {
            let mut v: Vec<u64> = (0..64).map(|i| 1u64 << i).take_while(|&x| (x as u128) < r).collect();
            v.extend((1..=9).flat_map(|f| (0..20).filter_map(move |i| 10u64.checked_pow(i)?.checked_mul(f))));
            v.extend(v.clone().iter().map(|x| x - 1));
            v.extend([m, m - 1, (r / 2) as u64, (r / 2) as u64 - 1, (r / 2) as u64 + 1, (r / 3) as u64, (r / 3) as u64 + 1]);
            v.sort();
            v.dedup();
            v.retain(|&x| x > 0 && (x as u128) < r);
            v
        };
        for &d in tops.iter().step_by(if nd > 3 { p.pick(3, 1) } else { 1 }) {
            for low in [0, m] {
                let mut v = vec![low; nd];
                v[nd - 1] = d;
                ds.push(v);
            }
            let mut v = generic(r, 5, nd);
            v[nd - 1] = d;
            ds.push(v);
        }
    }
    let qs = list(vec![vec![m], vec![m, m], vec![1], vec![0, m], generic(r, 6, 3), vec![m; 20]]);
    triples::<N>(p, "Div every leading digit", &list(dedup(ds)), &qs, 2, false, 100);
}

fn div_dens(r: u128, nd: usize, thin: usize) -> Vec<Vec<u64>> {
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let mut v = runs(nd, &cuts(nd), &[0, m]);
    if thin > 1 {
        v = v.into_iter().step_by(thin).collect();
    }
    for top in [1, h, h - 1, m] {
        for low in [0, m] {
            let mut x = vec![low; nd];
            x[nd - 1] = top;
            v.push(x.clone());
            x[nd - 2] = top;
            v.push(x.clone());
            x[0] = 1;
            v.push(x);
        }
        let mut x = generic(r, 8, nd);
        x[nd - 1] = top;
        v.push(x);
    }
    dedup(v).into_iter().filter(|x| x.len() == nd).collect()
}

fn div_quots(r: u128, nq: usize) -> Vec<Vec<u64>> {
    let m = (r - 1) as u64;
    let mut v = long_shapes(r, nq);
    if nq > 1 {
        for i in 0..nq {
            let mut x = vec![m; nq];
            x[i] = if i + 1 == nq { 1 } else { 0 };
            if nq < 8 || i % 3 == 0 {
                v.push(x);
            }
        }
    }
    dedup(v)
}

/// Interesting words of the storage type
pub fn word_values(bits: u32, r: u128) -> Vec<u64> {
    if bits == 0 {
        return (0..r as u64).collect();
    }
    let max = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
    if bits == 8 {
        return (0..=255).collect();
    }
    let mut v = vec![0u64, 1, 2, 3, 4, 5, 7, 9, 10, 11, 99, 100, 101];
    for i in 0..bits {
        let x = 1u64 << i;
        v.extend([x.wrapping_sub(1), x, x.wrapping_add(1)]);
    }
    let mut t = 1u64;
    while t <= max {
        v.extend([t - 1, t, t + 1]);
        match t.checked_mul(10) {
            Some(x) => t = x,
            None => break,
        }
    }
    for k in 1..8u128 {
        let x = r * k;
        if x <= max as u128 {
            let x = x as u64;
            v.extend([x - 1, x, x.wrapping_add(1), x.wrapping_add(2)]);
            let y = x.wrapping_add((r / 2) as u64);
            v.extend([y, x.wrapping_add((r - 1) as u64)]);
        }
    }
    for k in 0..4 {
        v.push(max - k);
        v.push(max / 2 + k);
        v.push(max / 3 + k);
        v.push((r - 1 - k as u128) as u64);
        v.push((r / 2) as u64 + k - 1);
    }
    for i in 0..6 {
        v.push(splitmix(i) >> (64 - bits));
    }
    v.retain(|&x| x <= max);
    v.sort();
    v.dedup();
    v
}

pub fn c06<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let ws = Arc::new(word_values(N::WBITS, r));
    let mut xs = words(&alphabet(r, p.pick(6, 9)), 3);
    xs.extend(words(&alphabet(r, 3), p.pick(4, 6)));
    for n in 4..p.pick(34, 80) {
        xs.extend(long_shapes(r, n));
    }
    for &n in LONG {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(3, 11)));
    }
    xs.extend(words(&edges(r, true), 1));
    // numbers that are a multiple of a word, and next to it
    for &w in ws.iter().step_by(p.pick(5, 1)) {
        let x = refn::from_word::<N::X>(w);
        let y = refn::mul::<N::X>(&x, &[(r - 1) as u64]);
        xs.push(refn::add::<N::X>(&y, &[1]));
        xs.push(y);
        xs.push(refn::add::<N::X>(&x, &[1]));
        xs.push(x);
    }
    if r <= 256 {
        xs.extend(all_values(r, p.pick(1200, 20000)));
    }
    let xs = list(dedup(xs));
    each::<N, _>(p, "word operations", &xs, 8, move |w, x| {
        for &v in ws.iter() {
            for op in [AddW, SubW, MulW, DivW, RemW] {
                if w.stopped() {
                    return;
                }
                let g = Args { a: x, b: &[], n: v, s: "" };
                let want = expect::<N>(op, 0, g, None);
                // panics are slow: fewer forms
                let slow = want == Out::Panic && x.len() > 1;
                let fs: &[u8] = match ((v as u128) < r, slow) {
                    (true, false) => &[0, 1, 2, 3, 4, 5],
                    (true, true) => &[2, 5],
                    (false, false) => &[3, 4, 5],
                    (false, true) => &[5],
                };
                w.ops::<N>(op, fs, g, &want, !x.is_empty() && v != 0);
            }
        }
    });
    // pairs (x, w) with quotient and remainder at their extremes: x = q*w + r
    let ws = Arc::new(word_values(N::WBITS, r));
    let qs = list(words(&alphabet(r, p.pick(4, 6)), p.pick(3, 4)));
    each::<N, _>(p, "word division", &qs, 8, move |w, q| {
        for &v in ws.iter() {
            if v == 0 {
                continue;
            }
            for rem in [0, v / 2, v - 1] {
                if w.stopped() || rem >= v {
                    return;
                }
                let x = refn::mul_word_add::<N::X>(q, v, rem);
                let g = Args { a: &x, b: &[], n: v, s: "" };
                let fs: &[u8] = if (v as u128) < r { &[2, 5] } else { &[5] };
                w.ops::<N>(DivW, fs, g, &Out::Num(q.to_vec()), !x.is_empty());
                w.ops::<N>(RemW, &[4, 5], g, &Out::Num(refn::from_word::<N::X>(rem)), !x.is_empty());
            }
        }
    });
}

fn shift_operands<N: Num>(p: &Plan) -> List {
    let r = r::<N>();
    let mut xs = words(&alphabet(r, p.pick(6, 7)), 3);
    xs.extend(words(&alphabet(r, 3), p.pick(4, 5)));
    xs.extend(words(&edges(r, false), 1));
    xs.extend(runs_upto(r, p.pick(6, 9), &[0, (r - 1) as u64, 1]));
    for n in 4..p.pick(24, 60) {
        xs.extend(long_shapes(r, n));
    }
    for n in [19, 20, 21, 40, 64, 128, 130] {
        xs.extend(long_shapes(r, n).into_iter().take(4));
    }
    if r <= 256 {
        xs.extend(all_values(r, p.pick(1200, 12000)));
    }
    // powers of two and their neighbours
    for i in 0..p.pick(140, 400) {
        let x = refn::shl::<N::X>(&[1], i);
        xs.push(refn::add::<N::X>(&x, &[1]));
        xs.push(refn::sub::<N::X>(&x, &[1]).unwrap());
        xs.push(x);
    }
    list(dedup(xs))
}

fn shift_counts<N: Num>(p: &Plan, right: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (0..=p.pick(200, 420)).collect();
    for n in [191, 192, 193, 255, 256, 257, 319, 320, 321, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1279, 1280, 1500, 2047, 2048, 2049] {
        v.push(n);
    }
    if right {
        for n in [4096, 8191, 8192, 8193, 8320, 10000, 1 << 16, 1 << 20, u32::MAX as u64, 1 << 32, 1 << 40, u64::MAX / 2, u64::MAX - 7, u64::MAX - 1, u64::MAX] {
            v.push(n);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn shifts<N: Num>(p: &mut Plan, op: Op) {
    let xs = shift_operands::<N>(p);
    let ns = shift_counts::<N>(p, op == Shr);
    each::<N, _>(p, &format!("{:?}", op), &xs, 8, move |w, x| {
        for &n in &ns {
            if w.stopped() {
                return;
            }
            let g = Args { a: x, b: &[], n, s: "" };
            let want = if op == Shr && n > 64 * (x.len() as u64 + 1) {
                Out::Num(vec![])
            } else {
                expect::<N>(op, 0, g, None)
            };
            let fs: &[u8] = if n < 70 { &[0, 1, 2] } else { &[2] };
            w.ops::<N>(op, fs, g, &want, !x.is_empty() && n > 0);
        }
        if op == Shl && x.is_empty() {
            for n in [1 << 20, u32::MAX as u64, 1 << 40, 1 << 63, u64::MAX - 63, u64::MAX] {
                let g = Args { a: x, b: &[], n, s: "" };
                w.ops::<N>(op, &[0, 1, 2], g, &Out::Num(vec![]), true);
            }
        }
    });
}

pub fn c07<N: Num>(p: &mut Plan) {
    shifts::<N>(p, Shl);
    let r = r::<N>();
    let mut xs = vec![];
    for n in [1, 2, 3, 10, 33] {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(4, 11)));
    }
    for &n in LONG.iter().take(p.pick(12, 30)) {
        xs.extend(long_shapes(r, n).into_iter().take(2));
    }
    let step = p.pick(3, 1);
    let top = p.pick(2600, 5000);
    each::<N, _>(p, "Shl long", &list(xs), 1, move |w, x| {
        for n in (0..top).step_by(step) {
            if w.stopped() {
                return;
            }
            w.num::<N>(Shl, &[0, 1, 2], x, n as u64);
        }
    });
}

pub fn c08<N: Num>(p: &mut Plan) {
    shifts::<N>(p, Shr);
    let r = r::<N>();
    let mut xs = vec![];
    for n in [25, 45, 90, 130, 257] {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(5, 11)));
    }
    let step = p.pick(3, 1);
    each::<N, _>(p, "Shr long", &list(xs), 1, move |w, x| {
        for n in (0..64 * x.len() + 70).step_by(step) {
            if w.stopped() {
                return;
            }
            w.num::<N>(Shr, &[2], x, n as u64);
        }
    });
}

pub fn c10<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    if r <= 256 {
        let l = list(all_values(r, p.pick(700, 4000)));
        cross::<N>(p, "all small values", Cmp, &[0], &l, &l);
    }
    let l = list(words(&alphabet(r, 8), p.pick(3, 4)));
    cross::<N>(p, "words", Cmp, &[0], &l, &l);
    let l = list(words(&alphabet(r, 3), p.pick(6, 7)));
    cross::<N>(p, "longer words", Cmp, &[0], &l, &l);
    let l = list(words(&[0, 1], p.pick(10, 12)));
    cross::<N>(p, "two-valued words", Cmp, &[0], &l, &l);
    let l = list(runs_upto(r, p.pick(8, 9), &[0, m, 1]));
    cross::<N>(p, "runs", Cmp, &[0], &l, &l);
    let l = list(words(&edges(r, false), 1));
    cross::<N>(p, "every border digit", Cmp, &[0], &l, &l);
    sweep::<N>(p, "length sweep", Cmp, &[0], range(0, p.pick(64, 130)), range(0, p.pick(64, 130)), 8);
    sweep::<N>(p, "long length sweep", Cmp, &[0], LONG.to_vec(), LONG.to_vec(), p.pick(6, 11));
    // equal but for two digits that differ in opposite directions
    let top = p.pick(64, 150);
    for n in (1..=top).chain(LONG.iter().cloned().filter(|&n| n > top && n < 1100)) {
        p.job(&format!("{} Cmp two digits differ", N::NAME), move |w| {
            for base in [generic(r, 3, n), vec![m; n], { let mut v = vec![0; n]; v[n - 1] = 1; v }] {
                for i in 0..n {
                    for j in 0..=i {
                        if n > top && ![0, 1, i / 2, i.saturating_sub(1), i].contains(&j) {
                            continue;
                        }
                        let (mut x, mut y) = (base.clone(), base.clone());
                        let d = x[i];
                        if d == m { y[i] = m - 1 } else { y[i] = d + 1 }
                        if j < i {
                            let up = y[i] < x[i];
                            x[j] = if up { 0 } else { m };
                            y[j] = if up { m } else { 0 };
                        }
                        let (x, y) = (refn::norm(x), refn::norm(y));
                        if w.stopped() {
                            return;
                        }
                        w.big::<N>(Cmp, &[0], &x, &y);
                        w.big::<N>(Cmp, &[0], &y, &x);
                        w.big::<N>(Cmp, &[0], &x, &x);
                    }
                }
            }
        });
    }
}

pub const BAD: &str = "+-_ .,;:/@`gGxX\t\n\0'\"~^|\u{e9}\u{0661}\u{ff11}\u{1d7d8}";

pub fn c11<N: Num>(p: &mut Plan) {
    // all short strings
    let all: Vec<char> = (0u8..128).map(|b| b as char).chain(['\u{80}', '\u{e9}', '\u{0661}', '\u{ff11}', '\u{1d7d8}']).collect();
    let all = Arc::new(all);
    for pre in ["", "0x"] {
        let all2 = all.clone();
        p.job(&format!("{} Parse all strings of up to 2 characters after '{}'", N::NAME, pre), move |w| {
            for &a in all2.iter() {
                w.text::<N>(&format!("{}{}", pre, a));
                for &b in all2.iter() {
                    if w.stopped() {
                        return;
                    }
                    w.text::<N>(&format!("{}{}{}", pre, a, b));
                }
            }
        });
        // all characters there are
        for lo in (0..0x11_0000u32).step_by(0x8000) {
            let t = p.thorough;
            p.job(&format!("{} Parse all characters after '{}'", N::NAME, pre), move |w| {
                for c in (lo..lo + 0x8000).filter_map(char::from_u32) {
                    if w.stopped() {
                        return;
                    }
                    w.text::<N>(&format!("{}{}", pre, c));
                    w.text::<N>(&format!("{}1{}2", pre, c));
                    if t {
                        w.text::<N>(&format!("{}{}{}", pre, c, c));
                        w.text::<N>(&format!("{}{}{}{}", pre, c, c, c));
                        w.text::<N>(&format!("{}12345678901234567890{}", pre, c));
                    }
                }
            });
        }
        let al: Vec<char> = if p.thorough { "0129afgAFGxX+-_ .\t:/@`\0\u{e9}" } else { "019afgFxX+-_ :/@\u{e9}" }.chars().collect();
        let depth = 5;
        for &first in &al {
            let al = al.clone();
            p.job(&format!("{} Parse all strings over a small alphabet after '{}'", N::NAME, pre), move |w| {
                let mut cur = vec![format!("{}{}", pre, first)];
                for d in 1..depth {
                    let mut next = vec![];
                    for s in &cur {
                        for &c in &al {
                            if w.stopped() {
                                return;
                            }
                            let t = format!("{}{}", s, c);
                            w.text::<N>(&t);
                            if d + 1 < depth {
                                next.push(t);
                            }
                        }
                    }
                    cur = next;
                }
            });
        }
        // digits of every length, and a bad character at every position
        let digits: &'static str = if pre.is_empty() { "0123456789" } else { "0123456789abcdefABCDEF" };
        let max = p.pick(200, 400);
        let maxbad = p.pick(80, 160);
        for len in 1..=max {
            let all = all.clone();
            p.job(&format!("{} Parse digits, and a bad character at every position, after '{}'", N::NAME, pre), move |w| {
                let d: Vec<char> = digits.chars().collect();
                let g: String = (0..len).map(|i| d[gdigit(d.len() as u128, 5, i) as usize]).collect();
                let top = *d.last().unwrap();
                let mut v = vec![g.clone(), "0".repeat(len), top.to_string().repeat(len), format!("1{}", "0".repeat(len - 1)), "1".repeat(len)];
                v.push((0..len).map(|i| d[i % d.len()]).collect());
                for z in [1, 2, 3, 4, 5, 8, 9, 17, 18, 19, 20, 21, 38, 57] {
                    v.push(format!("{}{}", "0".repeat(z), g));
                    if len > z {
                        v.push(format!("{}{}", &g[..len - z], "0".repeat(z)));
                        v.push(format!("{}{}1", &g[..len - z], "0".repeat(z - 1)));
                    }
                }
                for s in v {
                    if w.stopped() {
                        return;
                    }
                    w.text::<N>(&format!("{}{}", pre, s));
                }
                if len <= maxbad {
                    for i in 0..len {
                        for &c in all.iter() {
                            if w.stopped() {
                                return;
                            }
                            if len > 24 && !BAD.contains(c) {
                                continue;
                            }
                            let s: String = g.chars().enumerate().map(|(j, x)| if i == j { c } else { x }).collect();
                            w.text::<N>(&format!("{}{}", pre, s));
                        }
                    }
                }
            });
        }
        // two bad characters, and bad characters in front of zeros
        let n2 = p.pick(22, 44);
        p.job(&format!("{} Parse two signs or separators after '{}'", N::NAME, pre), move |w| {
            for len in 2..n2 {
                for i in 0..len {
                    for j in 0..i {
                        for c in ['+', '-', '_', ' '] {
                            for z in ['0', '7'] {
                                if w.stopped() {
                                    return;
                                }
                                let s: String = (0..len).map(|k| if k == i || k == j { c } else { z }).collect();
                                w.text::<N>(&format!("{}{}", pre, s));
                            }
                        }
                    }
                }
            }
        });
        let lens = if p.thorough { vec![300, 500, 999, 1000, 1001, 2000, 5000] } else { vec![300, 999, 2000] };
        for len in lens {
            p.job(&format!("{} Parse long digits after '{}'", N::NAME, pre), move |w| {
                let d: Vec<char> = digits.chars().collect();
                let g: String = (0..len).map(|i| d[gdigit(d.len() as u128, 6, i) as usize]).collect();
                w.text::<N>(&format!("{}{}", pre, g));
                for i in (0..len).step_by(7) {
                    let s: String = g.chars().enumerate().map(|(j, x)| if i == j { '+' } else { x }).collect();
                    w.text::<N>(&format!("{}{}", pre, s));
                }
            });
        }
    }
    // no string makes parsing panic; the result of these two is not specified
    p.job(&format!("{} Parse empty", N::NAME), move |w| {
        for s in ["", "0x"] {
            let g = Args { a: &[], b: &[], n: 0, s };
            let got = exec::<N>(Parse, 0, g);
            w.evals += 1;
            if got == Out::Panic {
                w.fail(0, crate::engine::case_text::<N>(Parse, 0, g), got.show(), "no panic".into());
            }
        }
    });
}

pub fn c12<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let kinds: &'static [u64] = if N::BIN { &[0, 1, 2] } else { &[0] };
    let nspec = crate::text::SPECS.len() as u64;
    let round = |w: &mut W, x: &[u64]| {
        // the plain and the prefixed text give the number back
        w.text::<N>(&refn::to_dec_string::<N::X>(x));
        if N::BIN {
            let h = refn::to_hex_string::<N::X>(x);
            w.text::<N>(&format!("0x{}", h));
            w.text::<N>(&format!("0x{}", h.to_uppercase()));
        }
    };
    // all flags
    let mut xs = words(&alphabet(r, p.pick(5, 7)), 2);
    xs.extend(words(&alphabet(r, 3), p.pick(4, 5)));
    for n in 3..p.pick(9, 25) {
        xs.extend(long_shapes(r, n));
    }
    for n in [15, 16, 17, 33, 48] {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(2, 6)));
    }
    each::<N, _>(p, "Fmt all flags", &list(dedup(xs)), 4, move |w, x| {
        for &k in kinds {
            let text = if k == 0 { refn::to_dec_string::<N::X>(x) } else { refn::to_hex_string::<N::X>(x) };
            let l = text.len() as u64;
            let mut ws = vec![0, 1, l.saturating_sub(1).max(1), l, l + 1, l + 2, l + 3, l + 4, l + 9, 2 * l + 20];
            ws.sort();
            ws.dedup();
            for s in 0..nspec {
                for &wd in &ws {
                    if w.stopped() {
                        return;
                    }
                    let g = Args { a: x, b: &[], n: fmt_code(k, s, wd), s: "" };
                    let want = Out::Text(crate::text::ref_fmt(&text, k as u8, s as usize, wd as usize));
                    w.ops::<N>(Fmt, &[0], g, &want, true);
                }
            }
        }
    });
    // every width
    let ws: Vec<u64> = (0..p.pick(140, 600)).chain([199, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]).collect();
    let xs = vec![vec![], vec![1], vec![(r - 1) as u64], generic(r, 99, 2), generic(r, 99, 9)];
    each::<N, _>(p, "Fmt every width", &list(xs), 1, move |w, x| {
        for &k in kinds {
            let text = if k == 0 { refn::to_dec_string::<N::X>(x) } else { refn::to_hex_string::<N::X>(x) };
            for s in 0..nspec {
                for &wd in &ws {
                    if w.stopped() {
                        return;
                    }
                    let want = Out::Text(crate::text::ref_fmt(&text, k as u8, s as usize, wd as usize));
                    w.ops::<N>(Fmt, &[0], Args { a: x, b: &[], n: fmt_code(k, s, wd), s: "" }, &want, true);
                }
            }
        }
    });
    // writers that fail or panic at any place, or that use the library themselves
    let mut xs = words(&alphabet(r, 3), 3);
    for n in [1, 2, 3, 5, 8, 15, 16, 17, 33] {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(3, 8)));
    }
    each::<N, _>(p, "Fmt writers", &list(dedup(xs)), 4, move |w, x| {
        for &k in kinds {
            let text = if k == 0 { refn::to_dec_string::<N::X>(x) } else { refn::to_hex_string::<N::X>(x) };
            let want = Out::Text(if k == 2 { text.to_uppercase() } else { text.clone() });
            let l = text.len() as u64;
            for room in (0..=l).filter(|&i| i < 45 || l - i < 3) {
                if w.stopped() {
                    return;
                }
                w.ops::<N>(Fmt, if room == 0 { &[1, 2, 3] } else { &[1, 2] }, Args { a: x, b: &[], n: fmt_code(k, 0, room), s: "" }, &want, true);
            }
        }
    });
    // long texts: an error at part of the places, and once at each of the first parts
    let mut xs = vec![];
    for n in [1, 2, 17, 40, 70, 130, 260, 300, 520, 700] {
        xs.extend(long_shapes(r, n).into_iter().rev().take(p.pick(2, 8)));
    }
    each::<N, _>(p, "Fmt writers, long", &list(dedup(xs)), 2, move |w, x| {
        for &k in kinds {
            let text = if k == 0 { refn::to_dec_string::<N::X>(x) } else { refn::to_hex_string::<N::X>(x) };
            let want = Out::Text(if k == 2 { text.to_uppercase() } else { text.clone() });
            let l = text.len() as u64;
            for form in [1, 4] {
                for room in if form == 1 { vec![0, 1, l / 7, l / 3, l / 2, l - l / 3, l - 1, l] } else { vec![0, 1, 2, 3, 4, 8, 16] } {
                    if w.stopped() {
                        return;
                    }
                    w.ops::<N>(Fmt, &[form], Args { a: x, b: &[], n: fmt_code(k, 0, room), s: "" }, &want, true);
                }
            }
        }
    });
    // digits: many numbers, plain format
    let mut xs = words(&alphabet(r, p.pick(8, 10)), 3);
    xs.extend(words(&alphabet(r, 4), 5));
    xs.extend(words(&edges(r, true), 2));
    xs.extend(runs_upto(r, p.pick(8, 9), &[0, (r - 1) as u64, 1]));
    for n in 1..p.pick(100, 250) {
        xs.extend(long_shapes(r, n));
    }
    if r <= 256 {
        xs.extend(all_values(r, p.pick(20000, 200000)));
    }
    // powers of ten and of two, and their neighbours
    let (mut ten, mut two) = (vec![1u64], vec![1u64]);
    for _ in 0..p.pick(150, 400) {
        for x in [&ten, &two] {
            xs.push(x.clone());
            xs.push(refn::add::<N::X>(x, &[1]));
            xs.push(refn::sub::<N::X>(x, &[1]).unwrap());
        }
        ten = refn::mul_word_add::<N::X>(&ten, 10, 0);
        two = refn::mul_word_add::<N::X>(&two, 2, 0);
    }
    each::<N, _>(p, "Fmt digits and round trip", &list(dedup(xs)), 100, move |w, x| {
        for &k in kinds {
            for (s, wd) in [(0, 0), (1, 0), (2, 0), (3, 0)] {
                if w.stopped() {
                    return;
                }
                let _ = s;
                // specifications: plain, zero flag, prefix, prefix and zero flag
                let g = Args { a: x, b: &[], n: fmt_code(k, s, wd), s: "" };
                let want = expect::<N>(Fmt, 0, g, None);
                w.ops::<N>(Fmt, &[0], g, &want, s == 0);
            }
        }
        round(w, x);
    });
}

/// Numbers with zero digits at all places of their decimal form
fn decimal_patterns<N: Num>(places: usize, step: usize) -> Vec<Vec<u64>> {
    type D = refn::D1;
    let mut out = vec![];
    for a in (0..=places).step_by(step) {
        for b in (a..=places).step_by(step) {
            // nines below a, zeros in a..b, one digit or nines above
            for kind in 0..3 {
                let mut v = vec![0u64; places];
                if kind != 1 {
                    v[..a].fill(9);
                }
                if kind == 2 {
                    v[..a].fill(0);
                    if a > 0 {
                        v[0] = 1;
                    }
                }
                v[b..].fill(9);
                if b == places {
                    v.push(1);
                }
                out.push(refn::conv::<D, N::X>(&refn::norm(v)));
            }
        }
    }
    dedup(out)
}

pub fn c13<N: Num>(p: &mut Plan) {
    if !N::BIN {
        return;
    }
    let r = r::<N>();
    let f = |w: &mut W, x: &[u64]| w.num::<N>(ToDec, &[0], x, 0);
    let mut xs = words(&alphabet(r, p.pick(7, 9)), 4);
    if r <= 256 {
        xs.extend(all_values(r, p.pick(70000, 1000000)));
    }
    each::<N, _>(p, "ToDec short", &list(dedup(xs)), 2000, f);
    // every length
    let mut xs = vec![];
    xs.extend(words(&edges(r, true), 2));
    for n in 1..=p.pick(180, 400) {
        xs.extend(long_shapes(r, n));
    }
    each::<N, _>(p, "ToDec every length", &list(xs), 8, f);
    // powers of ten: the low parts vanish; every exponent
    let bits = N::WBITS as usize;
    let maxexp = p.pick(30, 90) * bits * 3 / 10 + 30;
    let mut xs = vec![];
    let mut t = vec![1u64];
    for e in 0..=maxexp {
        for m in [1u64, 2, 9, 5] {
            let x = refn::mul_word_add::<N::X>(&t, m, 0);
            xs.push(refn::add::<N::X>(&x, &[1]));
            xs.push(refn::sub::<N::X>(&x, &[1]).unwrap());
            xs.push(x);
        }
        // the sum of two powers
        for d in [1, 2, 3, 5, 8, 13, 19, 20, 38, 76, 152] {
            if e > d {
                xs.push(refn::add::<N::X>(&t, &refn::conv::<refn::D1, N::X>(&{
                    let mut v = vec![0; e - d];
                    v.push(1);
                    v
                })));
            }
        }
        t = refn::mul_word_add::<N::X>(&t, 10, 0);
    }
    each::<N, _>(p, "ToDec powers of ten", &list(dedup(xs)), 50, f);
    // runs of zeros at every place of the decimal form
    let places: Vec<usize> = match (bits, p.thorough) {
        (8, false) => vec![40, 45, 60, 90],
        (8, true) => vec![38, 40, 45, 60, 77, 90, 130, 200],
        (16, false) => vec![80, 100, 160],
        (16, true) => vec![78, 80, 100, 130, 160, 320],
        (32, false) => vec![156, 250],
        (32, true) => vec![155, 160, 250, 330, 700],
        (_, false) => vec![310, 480],
        (_, true) => vec![309, 320, 480, 650, 1300],
    };
    for n in places {
        let step = p.pick(if n > 100 { n / 32 } else { 3 }, if n > 300 { n / 60 } else { 1 }).max(1);
        let l = list(decimal_patterns::<N>(n, step));
        each::<N, _>(p, "ToDec runs in the decimal form", &l, 40, f);
    }
    // remainders of the split by powers of the radix: multiples and their neighbours
    let dec = match bits {
        8 => 100u64,
        16 => 10_000,
        32 => 1_000_000_000,
        _ => 10_000_000_000_000_000_000,
    };
    let mut xs = vec![];
    let mut s = refn::from_word::<N::X>(dec);
    let one = vec![1u64];
    while s.len() < p.pick(60, 150) {
        for hi in [generic(r, 3, 2), generic(r, 4, s.len()), vec![(r - 1) as u64; s.len() / 2 + 1], vec![1], generic(r, 5, 2 * s.len() + 1)] {
            let m = refn::mul::<N::X>(&hi, &s);
            for low in [vec![], one.clone(), refn::sub::<N::X>(&s, &one).unwrap(), generic(r, 6, (s.len() - 1) / 2), generic(r, 7, s.len() - 1)] {
                xs.push(refn::add::<N::X>(&m, &low));
            }
        }
        s = refn::mul::<N::X>(&s, &s);
    }
    each::<N, _>(p, "ToDec multiples of the split", &list(dedup(xs)), 8, f);
    // long numbers
    let lens = if p.thorough { vec![500, 700, 1024] } else { vec![255, 256, 257, 300, 400] };
    let mut xs = vec![];
    for n in lens {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(3, 6)));
    }
    each::<N, _>(p, "ToDec long", &list(xs), 1, f);
}

/// The first, middle and last places of a number
fn thorough_cut(n: usize, i: usize) -> bool {
    i <= 2 || i + 2 >= n || i == n / 2
}

pub fn c15<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let mut xs = words(&alphabet(r, p.pick(5, 6)), 2);
    xs.extend(words(&alphabet(r, 3), p.pick(3, 4)));
    for n in [4, 7, 19, 20, 21, 40] {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(3, 8)));
    }
    xs.extend(long_shapes(r, 130).into_iter().take(2));
    // a block of digits over a block of others
    let (m, h, g) = ((r - 1) as u64, (r / 2) as u64, generic(r, 77, 3)[1]);
    for n in 3..=p.pick(9, 24) {
        for i in 1..n {
            for (lo, hi) in [(0, 1), (0, m), (0, g), (m, 1), (m, h), (1, 0)] {
                if n > 6 && !thorough_cut(n, i) && !p.thorough {
                    continue;
                }
                let mut v = vec![lo; i];
                v.extend(vec![hi; n - i]);
                if hi == 0 {
                    v[n - 1] = g;
                }
                xs.push(v);
            }
        }
    }
    let xs = list(dedup(xs));
    // lengths
    let ls: Vec<Vec<u64>> = [1, 2, 3, 4, 6, 8, 9, 16, 19, 20, 21, 32, 39, 40, 41, 42, 64, 100, 127, 128, 129, 130, 200]
        .iter()
        .flat_map(|&n| long_shapes(r, n).into_iter().take(p.pick(3, 8)))
        .collect();
    let ls = list(dedup(ls));
    for op in [Add, Sub, Mul, Div, Rem] {
        let ys = ls.clone();
        each::<N, _>(p, &format!("{:?} all forms, lengths", op), &ls, 2, move |w, x| {
            for y in ys.iter() {
                w.forms_agree::<N>(op, Args { a: x, b: y, n: 0, s: "" });
            }
        });
    }
    // all forms of the operations between numbers
    for op in [Add, Sub, Mul, Div, Rem] {
        let ys = xs.clone();
        each::<N, _>(p, &format!("{:?} all forms", op), &xs, 4, move |w, x| {
            for y in ys.iter() {
                w.forms_agree::<N>(op, Args { a: x, b: y, n: 0, s: "" });
            }
            // both operands the same object
            w.forms_agree::<N>(op, Args { a: x, b: x, n: 0, s: "" });
        });
    }
    // small values
    let l = list(if r <= 256 { all_values(r, p.pick(110, 700)) } else { words(&alphabet(r, p.pick(10, 14)), 1) });
    for op in [Add, Sub, Mul, Div, Rem] {
        let ys = l.clone();
        each::<N, _>(p, &format!("{:?} all forms, small values", op), &l, 4, move |w, x| {
            for y in ys.iter() {
                w.forms_agree::<N>(op, Args { a: x, b: y, n: 0, s: "" });
            }
        });
    }
    // word and digit forms
    let ws = Arc::new(word_values(N::WBITS, r));
    let mut zs = xs.to_vec();
    for &v in ws.iter() {
        zs.push(refn::from_word::<N::X>(v));
    }
    each::<N, _>(p, "word and digit forms", &list(dedup(zs)), 3, move |w, x| {
        for &v in ws.iter() {
            for op in [AddW, SubW, MulW, DivW, RemW] {
                w.forms_agree::<N>(op, Args { a: x, b: &[], n: v, s: "" });
            }
        }
    });
    // the rest
    let top = p.pick(100, 300);
    each::<N, _>(p, "other forms", &xs, 3, move |w, x| {
        for op in [Square, ToDec, Fmt, Cmp] {
            if op != ToDec || N::BIN {
                w.forms_agree::<N>(op, Args { a: x, b: x, n: 0, s: "" });
            }
        }
        for n in 0..top {
            let g = Args { a: x, b: &[], n, s: "" };
            w.forms_agree::<N>(Shl, g);
            w.forms_agree::<N>(Shr, g);
            if n as usize * x.len() < 120 && n < 40 {
                w.forms_agree::<N>(Pow, g);
            }
        }
    });
}

pub fn c16<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let mut xs = words(&alphabet(r, p.pick(7, 9)), 3);
    xs.extend(words(&edges(r, true), 1));
    for n in 1..p.pick(140, 420) {
        xs.extend(long_shapes(r, n));
    }
    for &n in LONG {
        xs.extend(long_shapes(r, n).into_iter().take(4));
    }
    if r <= 256 {
        xs.extend(all_values(r, p.pick(3000, 70000)));
    }
    each::<N, _>(p, "division by zero", &list(dedup(xs)), 50, move |w, x| {
        if w.stopped() {
            return;
        }
        let g = Args { a: x, b: &[], n: 0, s: "" };
        for op in [Div, Rem] {
            w.ops::<N>(op, VFORMS, g, &Out::Panic, op == Div);
        }
        for op in [DivW, RemW] {
            w.ops::<N>(op, &[0, 1, 2, 3, 4, 5], g, &Out::Panic, op == DivW);
        }
        for op in [DivBig, RemBig] {
            w.ops::<N>(op, &[0], g, &Out::Err("DivisionByZero".into(), x.to_vec()), true);
        }
        if x.is_empty() {
            for op in [Div, Rem] {
                w.ops::<N>(op, &[6, 7], g, &Out::Panic, true);
            }
            for op in [DivBig, RemBig] {
                w.ops::<N>(op, &[1], g, &Out::Err("DivisionByZero".into(), vec![]), true);
            }
        }
    });
}

pub fn c19<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    // all lists, with any leading zeros
    let al = alphabet(r, p.pick(6, 8));
    let mut lists: Vec<Vec<u64>> = vec![vec![]];
    let mut cur = lists.clone();
    for _ in 0..p.pick(5, 6) {
        let mut next = vec![];
        for v in &cur {
            for &d in &al {
                let mut x: Vec<u64> = v.clone();
                x.push(d);
                next.push(x);
            }
        }
        lists.extend(next.iter().cloned());
        cur = next;
    }
    each::<N, _>(p, "New all lists over an alphabet", &list(lists), 1000, |w, x| w.num::<N>(New, &[0], x, 0));
    let mut lists = vec![];
    for n in 0..=p.pick(60, 200) {
        for z in 0..=p.pick(60, 200) {
            for d in [0, 1, m] {
                for low in [0, m] {
                    let mut v = vec![low; n];
                    v.push(d);
                    v.extend(std::iter::repeat(0).take(z));
                    lists.push(v);
                }
            }
        }
    }
    each::<N, _>(p, "New leading zeros", &list(lists), 300, |w, x| w.num::<N>(New, &[0], x, 0));
    if r <= 256 {
        // every two-digit list
        p.job(&format!("{} New all two-digit lists", N::NAME), move |w| {
            for a in 0..=m {
                for b in 0..=m {
                    w.num::<N>(New, &[0], &[a, b], 0);
                }
            }
        });
    }
    let ws: Vec<u64> = if N::WBITS == 16 { (0..=65535).collect() } else { word_values(N::WBITS, r) };
    p.job(&format!("{} FromWord", N::NAME), move |w| {
        for &v in &ws {
            let g = Args { a: &[], b: &[], n: v, s: "" };
            w.ops::<N>(FromWord, &[0], g, &expect::<N>(FromWord, 0, g, None), true);
        }
        let g = Args { a: &[], b: &[], n: 0, s: "" };
        w.ops::<N>(Consts, &[0], g, &expect::<N>(Consts, 0, g, None), true);
    });
}

/// Results around all the thresholds, with the thresholds the library is built with.
pub fn c18<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let shapes = p.pick(5, 9);
    let kl: Vec<usize> = range(18, 23).into_iter().chain([37, 38, 39, 40, 41, 42, 43, 79, 80, 81]).collect();
    sweep::<N>(p, "around the Karatsuba threshold", Mul, RR, kl.clone(), kl.clone(), shapes);
    let tl: Vec<usize> = if p.thorough { range(124, 134).into_iter().chain([192, 256, 378, 379, 380, 381, 382, 383, 384, 385]).collect() } else { vec![126, 127, 128, 129, 130, 131, 256, 379, 382] };
    sweep::<N>(p, "around the Toom-3 threshold", Mul, RR, tl.clone(), tl.clone(), p.pick(3, 6));
    let mut sq = vec![];
    for n in (15..=45).chain(75..=85).chain(124..=134).chain(376..=390).chain([1140, 1146]) {
        if n < 1000 || p.thorough {
            sq.extend(long_shapes(r, n).into_iter().take(p.pick(6, 11)));
        }
    }
    each::<N, _>(p, "Square around the thresholds", &list(sq), 8, |w, x| w.num::<N>(Square, &[0], x, 0));
    for nd in (17..=24).chain(38..=44).chain([79, 80, 81, 82]) {
        let ds = list(long_shapes(r, nd).into_iter().take(p.pick(5, 11)).collect());
        for nq in [1, 2, 10, 19, 20, 21, 40, 41] {
            let qs = list(long_shapes(r, nq).into_iter().take(p.pick(3, 6)).collect());
            triples::<N>(p, "Div around the thresholds", &ds, &qs, 3, false, 11);
        }
    }
    if N::BIN {
        let mut xs = vec![];
        for n in (10..=40).chain([63, 64, 65, 127, 128, 129]) {
            xs.extend(long_shapes(r, n));
        }
        each::<N, _>(p, "ToDec around the threshold", &list(xs), 8, |w, x| w.num::<N>(ToDec, &[0], x, 0));
    }
    if N::FULL {
        let mut b = vec![];
        for n in [1, 2, 3, 5, 9, 10, 11, 19, 20, 21, 43, 64] {
            b.extend(long_shapes(r, n).into_iter().take(p.pick(3, 6)));
        }
        each::<N, _>(p, "Pow across the thresholds", &list(b), 2, |w, x| {
            let mut want = x.to_vec();
            for e in 1u64..140 {
                if want.len() > 280 || w.stopped() {
                    return;
                }
                let g = Args { a: x, b: &[], n: e, s: "" };
                w.ops::<N>(Pow, &[1], g, &Out::Num(want.clone()), e > 1);
                want = refn::mul::<N::X>(&want, x);
            }
        });
    }
}

/// The part of the spaces for builds in which the thresholds are lowered: complete sets of words
/// over small alphabets, at sizes where all algorithms and their recursion are in use.
#[cfg(babs_mc)]
pub mod scaled {
    use super::*;

    pub fn mul<N: Num>(p: &mut Plan) {
        let r = r::<N>();
        let l = list(words(&alphabet(r, 3), p.pick(6, 7)).into_iter().filter(|x| x.len() >= 4).collect());
        cross::<N>(p, "scaled: all words of 4-6 digits", Mul, RR, &l, &l);
        let l = list(words(&alphabet(r, 4), 5).into_iter().filter(|x| x.len() >= 4).collect());
        if p.thorough {
            cross::<N>(p, "scaled: all words of 4-5 digits", Mul, RR, &l, &l);
        }
        let l = list(words_exact(&[0, (r - 1) as u64], p.pick(9, 11)));
        cross::<N>(p, "scaled: all two-valued words", Mul, RR, &l, &l);
        let l = list(words_exact(&[1, (r - 1) as u64], p.pick(8, 10)));
        let k = list(words_exact(&[0, (r - 1) as u64], p.pick(7, 9)));
        cross::<N>(p, "scaled: two-valued words of unequal length", Mul, RR, &l, &k);
        sweep::<N>(p, "scaled: length sweep", Mul, RR, range(1, p.pick(64, 130)), range(1, p.pick(64, 130)), p.pick(4, 7));
        let rl = list(runs(13, &cuts(13), &[0, (r - 1) as u64]).into_iter().chain(runs(17, &cuts(17), &[0, (r - 1) as u64])).collect());
        cross::<N>(p, "scaled: runs", Mul, RR, &rl, &rl);
        for n in [15usize, 18, 27] {
            for bs in [n / 3, n / 9 + 1] {
                let ks = &KINDS[..if bs < n / 3 { 2 } else { p.pick(5, 7) }];
                let nb = (n + bs - 1) / bs;
                if ks.len().pow(nb as u32) > 3000 {
                    continue;
                }
                let l = list(blocks(r, n, bs, ks, false));
                cross::<N>(p, "scaled: blocks", Mul, RR, &l, &l);
            }
        }
    }

    pub fn square<N: Num>(p: &mut Plan) {
        let r = r::<N>();
        let mut v = words(&alphabet(r, 4), p.pick(7, 8));
        v.extend(words(&alphabet(r, 3), p.pick(9, 11)));
        v.extend(words_exact(&[0, (r - 1) as u64], p.pick(14, 17)));
        v.extend(words_exact(&[0, 1], p.pick(12, 15)));
        for n in 1..p.pick(150, 400) {
            v.extend(long_shapes(r, n));
        }
        for n in [15, 18, 27, 28, 45, 46, 60] {
            v.extend(blocks(r, n, toom_split(n), KINDS, false));
            v.extend(blocks(r, n, toom_split(toom_split(n)), &KINDS[..2], false));
            v.extend(runs(n, &cuts(n), &[0, 1, (r - 1) as u64]));
        }
        each::<N, _>(p, "scaled: Square", &list(dedup(v)), 500, |w, x| w.num::<N>(Square, &[0], x, 0));
    }

    pub fn div<N: Num>(p: &mut Plan) {
        let r = r::<N>();
        let ds = list(words(&alphabet(r, 4), p.pick(5, 6)).into_iter().filter(|d| d.len() >= 4).collect());
        let qs = list(words(&alphabet(r, 3), p.pick(4, 5)));
        triples::<N>(p, "scaled: Div words", &ds, &qs, 3, false, 10);
        let ds = list(words(&[0, (r - 1) as u64, (r / 2) as u64], 7).into_iter().filter(|d| d.len() >= 6).step_by(p.pick(3, 1)).collect());
        let qs = list(words(&[0, (r - 1) as u64], p.pick(5, 7)));
        triples::<N>(p, "scaled: Div longer words", &ds, &qs, 3, false, 10);
        for nd in 4..p.pick(45, 100) {
            let ds = list(long_shapes(r, nd));
            for nq in [1, 2, 3, 5, 8, nd / 2, nd, nd + 3, 2 * nd + 1] {
                let qs = list(long_shapes(r, nq).into_iter().take(p.pick(4, 11)).collect());
                triples::<N>(p, "scaled: Div every length", &ds, &qs, 3, false, 11);
            }
        }
        for (nd, nq) in [(8, 8), (12, 12), (16, 16), (16, 8), (24, 24)] {
            let ds = list(blocks(r, nd, nd / 4, &KINDS[..p.pick(4, 5)], false));
            let qs = list(blocks(r, nq, nd / 4, &KINDS[..3], true));
            triples::<N>(p, "scaled: Div blocks", &ds, &qs, 3, false, 10);
        }
        // complete, for very small radices
        if r <= 10 {
            let ns = (r as u64).pow(p.pick(4, 5));
            let ds = list(all_values(r, ns)[(r as usize).pow(2)..].to_vec());
            let qs = list(all_values(r, (r as u64).pow(p.pick(2, 3))));
            triples::<N>(p, "scaled: Div all small values", &ds, &qs, 2, false, 100);
        }
    }

    pub fn todec<N: Num>(p: &mut Plan) {
        if !N::BIN {
            return;
        }
        let r = r::<N>();
        let f = |w: &mut W, x: &[u64]| w.num::<N>(ToDec, &[0], x, 0);
        let mut v = words(&alphabet(r, 4), p.pick(6, 7));
        v.extend(words(&alphabet(r, 3), p.pick(8, 9)));
        if r <= 256 {
            v.extend(all_values(r, p.pick(200000, 3000000)));
        }
        each::<N, _>(p, "scaled: ToDec words", &list(dedup(v)), 1000, f);
        let mut v = decimal_patterns::<N>(24, 1);
        v.extend(decimal_patterns::<N>(p.pick(33, 50), 1));
        for n in 1..p.pick(90, 200) {
            v.extend(long_shapes(r, n));
        }
        each::<N, _>(p, "scaled: ToDec runs in the decimal form", &list(dedup(v)), 300, f);
    }

    /// Other operations, for small radices
    pub fn rest<N: Num>(p: &mut Plan) {
        let r = r::<N>();
        let l = list(words(&alphabet(r, 4), 4));
        cross::<N>(p, "scaled: words", Add, RR, &l, &l);
        cross::<N>(p, "scaled: words", Sub, &[5], &l, &l);
    }

    pub fn power<N: Num>(p: &mut Plan) {
        let r = r::<N>();
        let top = p.pick(25, 60);
        let b = list(words(&alphabet(r, 4), 2));
        each::<N, _>(p, "scaled: Pow", &b, 4, move |w, x| {
            let mut want = vec![1];
            for e in 0..=top {
                let g = Args { a: x, b: &[], n: e, s: "" };
                w.ops::<N>(Pow, &[1], g, &Out::Num(want.clone()), e > 1);
                want = refn::mul::<N::X>(&want, x);
            }
        });
    }
}

/// Numbers of thousands of digits: few operands, all operations
pub fn huge<N: Num>(p: &mut Plan, prop: &str) {
    const HUGE: &[usize] = &[1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000];
    let r = r::<N>();
    let m = (r - 1) as u64;
    let shapes = |ls: &[usize], k: usize| list(ls.iter().flat_map(|&n| long_shapes(r, n).into_iter().take(k)).collect());
    let (t, k) = (p.thorough, p.pick(3, 6));
    match prop {
        "C01" | "C02" => {
            let op = if prop == "C01" { Add } else { Sub };
            let mut l = shapes(HUGE, p.pick(5, 9)).to_vec();
            l.extend(shapes(&[1, 2, 9, 100, 700], 4).to_vec());
            let l = list(l);
            cross::<N>(p, "huge", op, RFORMS, &l, &l);
            // a carry or borrow through all of it
            for n in [2000usize, 4096] {
                let mut a = vec![];
                let mut b = vec![];
                for i in (0..n).step_by(p.pick(191, 37)) {
                    let mut x = vec![if op == Add { m } else { 0 }; n];
                    x[..i].fill(1);
                    if op == Sub {
                        x.push(1);
                    }
                    a.push(x);
                    let mut y = vec![0; i];
                    y.push(1);
                    b.push(y);
                }
                let (a, b) = (list(a), list(b));
                cross::<N>(p, "huge ripple", op, RFORMS, &a, &b);
            }
        }
        "C03" => {
            for (n, o) in if t { vec![(1500, 1500), (2048, 2048), (3400, 3400), (3400, 1200), (5000, 130), (4096, 2100), (9, 5000), (5000, 25)] } else { vec![(2048, 2048), (3400, 1130), (3000, 130), (9, 5000), (5000, 25)] } {
                let (a, b) = (shapes(&[n], k), shapes(&[o], k));
                cross::<N>(p, "huge", Mul, RR, &a, &b);
            }
        }
        "C04" => {
            let l = shapes(if t { &[1500, 2047, 2048, 2049, 2700, 3389, 3392, 3395, 4096] } else { &[2048, 3390] }, p.pick(3, 7));
            each::<N, _>(p, "Square huge", &l, 1, |w, x| w.num::<N>(Square, &[0], x, 0));
        }
        "C05" => {
            let ds = shapes(if t { &[400, 511, 512, 513, 700, 1024, 2048] } else { &[512, 1025] }, p.pick(2, 5));
            let qs = shapes(if t { &[40, 300, 512, 1024, 2100] } else { &[30, 700, 1024] }, p.pick(2, 4));
            triples::<N>(p, "Div huge", &ds, &qs, 2, false, 1);
            let ds = shapes(&[1, 2, 3, 19, 20, 40], k);
            let qs = shapes(if t { &[1024, 2048, 4000] } else { &[1500] }, k);
            triples::<N>(p, "Div huge by short", &ds, &qs, 2, false, 1);
        }
        "C06" => {
            let l = shapes(&[1500, 2048, 4097], k);
            let ws = word_values(N::WBITS, r);
            each::<N, _>(p, "word operations, huge", &l, 1, move |w, x| {
                for &v in ws.iter().step_by(3) {
                    for op in [AddW, SubW, MulW, DivW, RemW] {
                        if w.stopped() {
                            return;
                        }
                        w.num::<N>(op, &[5], x, v);
                    }
                }
            });
        }
        "C07" | "C08" => {
            let op = if prop == "C07" { Shl } else { Shr };
            let l = shapes(&[1, 2, 20, 1500, 2049, 4096], 3);
            each::<N, _>(p, &format!("{:?} huge", op), &l, 1, move |w, x| {
                let bits = 64 * x.len().max(100) as u64;
                let ns = [1, 7, 8, 63, 64, 65, 100, 1000, 4095, 4096, 4097, 8191, 8192, 10000, bits / 3, bits / 2 + 1, bits - 1];
                for &n in ns.iter() {
                    if w.stopped() || op == Shl && n > 30000 && !t {
                        return;
                    }
                    w.num::<N>(op, &[2], x, n);
                }
            });
        }
        "C10" => {
            for &n in HUGE {
                p.job(&format!("{} Cmp huge", N::NAME), move |w| {
                    for base in [generic(r, 3, n), vec![m; n], { let mut v = vec![0; n]; v[n - 1] = 1; v }] {
                        for i in (0..n).step_by(if t { 1 } else { 31 }).chain([n - 1, n - 2]) {
                            let mut y = base.clone();
                            y[i] = if base[i] == m { m - 1 } else { base[i] + 1 };
                            let (x, y) = (refn::norm(base.clone()), refn::norm(y));
                            if w.stopped() {
                                return;
                            }
                            w.big::<N>(Cmp, &[0], &x, &y);
                            w.big::<N>(Cmp, &[0], &y, &x);
                        }
                    }
                });
            }
        }
        "C11" => {
            for (pre, d) in [("", "0123456789"), ("0x", "0123456789abcdefABCDEF")] {
                for len in if t { vec![4096, 5000, 9999, 10000, 16384, 20000] } else { vec![4096, 10000] } {
                    p.job(&format!("{} Parse huge after '{}'", N::NAME, pre), move |w| {
                        let d: Vec<char> = d.chars().collect();
                        let g: String = (0..len).map(|i| d[gdigit(d.len() as u128, 8, i) as usize]).collect();
                        w.text::<N>(&format!("{}{}", pre, g));
                        w.text::<N>(&format!("{}{}{}", pre, "0".repeat(len), &g[..50]));
                        w.text::<N>(&format!("{}1{}", pre, "0".repeat(len)));
                        for i in [0, 1, len / 2, len - 1] {
                            let s: String = g.chars().enumerate().map(|(j, x)| if i == j { '_' } else { x }).collect();
                            w.text::<N>(&format!("{}{}", pre, s));
                        }
                    });
                }
            }
        }
        "C12" => {
            let kinds: &'static [u64] = if N::BIN { &[0, 1, 2] } else { &[0] };
            let l = shapes(if t { &[300, 512, 1024, 2048] } else { &[300, 700] }, k);
            each::<N, _>(p, "Fmt huge", &l, 1, move |w, x| {
                for &k in kinds {
                    w.num::<N>(Fmt, &[0], x, fmt_code(k, 0, 0));
                }
            });
        }
        "C13" if N::BIN => {
            let l = shapes(if t { &[1000, 1023, 1025, 1536, 2048] } else { &[700, 1024] }, k);
            each::<N, _>(p, "ToDec huge", &l, 1, |w, x| w.num::<N>(ToDec, &[0], x, 0));
        }
        _ => {}
    }
}

/// Numbers of more digits than 16 bits count
pub fn giant<N: Num>(p: &mut Plan, prop: &str) {
    const K: usize = 65536;
    let r = r::<N>();
    let m = (r - 1) as u64;
    let t = p.thorough;
    let gen = move |n| generic(r, 5, n);
    let max = move |n| vec![m; n];
    // one digit in front of zeros, and with others far below
    let top = |n: usize| {
        let mut v = vec![0; n];
        v[n - 1] = 1;
        v
    };
    let two = move |n: usize| {
        let mut v = vec![0; n];
        v[n - 1] = m;
        v[n - K.min(n)] += 1;
        v[0] += 1;
        v
    };
    let lens: &'static [usize] = if t { &[K - 1, K, K + 1, K + 5, 70_001, 2 * K, 2 * K + 3] } else { &[K - 1, K, K + 1, K + 700] };
    match prop {
        "C01" | "C02" => {
            let op = if prop == "C01" { Add } else { Sub };
            p.job(&format!("{} {:?} giant", N::NAME, op), move |w| {
                let mut l: Vec<Vec<u64>> = lens.iter().flat_map(|&n| [gen(n), top(n), max(n)]).collect();
                l.extend([two(K + 9), vec![1], gen(40)]);
                for x in &l {
                    for y in &l {
                        if w.stopped() {
                            return;
                        }
                        if op == Add || refn::cmp(x, y) != std::cmp::Ordering::Less {
                            w.big::<N>(op, RR, x, y);
                        }
                    }
                }
                for f in 0..8 {
                    w.big::<N>(op, &[f], &gen(K + 2), &(if f < 6 { top(K + 1) } else { gen(K + 2) }));
                }
            });
        }
        "C03" => p.job(&format!("{} Mul giant", N::NAME), move |w| {
            for (x, y) in [
                (gen(K + 3), vec![m]),
                (max(K - 1), vec![m]),
                (gen(K + 1), vec![3, m]),
                (two(K + 9), two(K + 8)),
                (two(K + 4), top(K / 2 + 1)),
                (top(K), top(K)),
                (gen(K / 2 + 1), top(K / 2 + 1)),
                (gen(K + 5), two(19)),
            ] {
                if w.stopped() {
                    return;
                }
                w.big::<N>(Mul, RR, &x, &y);
                w.big::<N>(Mul, RR, &y, &x);
            }
        }),
        "C04" => p.job(&format!("{} Square giant", N::NAME), move |w| {
            for x in [top(K / 2), top(K / 2 + 1), two(K / 2 + 3), two(K + 9)] {
                if w.stopped() {
                    return;
                }
                w.num::<N>(Square, &[0], &x, 0);
            }
            w.num::<N>(Pow, &[1], &top(K / 3 + 2), 3);
            w.num::<N>(Pow, &[0], &top(2), if t { 70_000 } else { 300 });
        }),
        "C05" => p.job(&format!("{} Div giant", N::NAME), move |w| {
            for (q, d) in [
                (gen(K + 3), vec![m]),
                (gen(K + 1), vec![3, m]),
                (gen(K), vec![3, 0, m]),
                (gen(K - 1), two(19)),
                (gen(K), two(25)),
                (vec![m], two(K + 9)),
                (gen(3), top(K + 1)),
                (gen(25), two(K + 3)),
            ] {
                for x in [vec![], refn::sub::<N::X>(&d, &[1]).unwrap()] {
                    if w.stopped() {
                        return;
                    }
                    triple::<N>(w, &q, &d, &x, false);
                }
            }
        }),
        "C06" => p.job(&format!("{} word operations, giant", N::NAME), move |w| {
            for &n in lens {
                for x in [gen(n), top(n), max(n)] {
                    for op in [AddW, SubW, MulW, DivW, RemW] {
                        for v in [1, m, 7] {
                            if w.stopped() {
                                return;
                            }
                            w.num::<N>(op, &[5], &x, v);
                        }
                    }
                }
            }
        }),
        "C07" | "C08" => {
            let op = if prop == "C07" { Shl } else { Shr };
            p.job(&format!("{} {:?} giant", N::NAME, op), move |w| {
                let b = N::WBITS as usize;
                let mut v: Vec<(Vec<u64>, usize)> = vec![];
                for &n in lens {
                    for s in [1, 5, b - 1, b, b + 1] {
                        v.push((gen(n), s));
                        v.push((max(n), s));
                    }
                }
                if N::BIN {
                    for s in [K - 1, K, K + 1, K * b - 1, K * b, K * b + 1, (K + 1) * b, (K + 7) * b + 3] {
                        v.extend([(gen(3), s), (gen(K + 20), s), (top(K + 8), s)]);
                    }
                    for s in [(1 << 17) + 3, 1 << 20, (1 << 20) + 77] {
                        v.push((gen(2), s));
                    }
                } else if op == Shl {
                    for s in [K - 1, K, K + 1] {
                        v.push((vec![5], s));
                    }
                } else {
                    for s in [K - 1, K, K + 1, 1 << 20, usize::MAX / 2, usize::MAX] {
                        v.push((gen(30), s));
                    }
                }
                for (x, s) in v {
                    if w.stopped() {
                        return;
                    }
                    w.num::<N>(op, &[2], &x, s as u64);
                }
            });
        }
        "C10" => p.job(&format!("{} Cmp giant", N::NAME), move |w| {
            let mut l = vec![vec![], vec![1], vec![m; 5], gen(40)];
            for &n in lens {
                for base in [gen(n), top(n)] {
                    for i in [0, 1, n / 2, n - 65535.min(n), n - 1] {
                        let mut y = base.clone();
                        y[i] = if y[i] == m { m - 1 } else { y[i] + 1 };
                        l.push(y);
                    }
                    l.push(base);
                }
            }
            for (i, x) in l.iter().enumerate() {
                for (j, y) in l.iter().enumerate() {
                    if w.stopped() {
                        return;
                    }
                    if i.abs_diff(j) < 9 || i < 4 || j < 4 || (i + j) % 3 == 0 {
                        w.big::<N>(Cmp, &[0], x, y);
                    }
                }
            }
        }),
        "C11" => p.job(&format!("{} Parse giant", N::NAME), move |w| {
            let (pre, d) = if N::BIN { ("0x", "0123456789abcdefABCDEF") } else { ("", "0123456789") };
            let d: Vec<char> = d.chars().collect();
            let per = if N::BIN { N::WBITS as usize / 4 } else { (N::WBITS as f64 * 0.30103) as usize };
            for len in [K - 1, K, K + 1, K + 1000, per * (K + 1) + 1] {
                let g: String = (0..len).map(|i| d[gdigit(d.len() as u128, 8, i) as usize]).collect();
                if w.stopped() {
                    return;
                }
                w.text::<N>(&format!("{}1{}", pre, g));
                w.text::<N>(&format!("{}{}7", pre, "0".repeat(len - 1)));
                w.text::<N>(&format!("{}1{}", pre, "0".repeat(len)));
                for i in [0, len / 2, len - 1] {
                    let s: String = g.chars().enumerate().map(|(j, x)| if i == j { ':' } else { x }).collect();
                    w.text::<N>(&format!("{}{}", pre, s));
                }
            }
        }),
        "C12" => p.job(&format!("{} Fmt giant", N::NAME), move |w| {
            for &n in lens {
                for x in [gen(n), top(n), max(n)] {
                    if w.stopped() {
                        return;
                    }
                    w.num::<N>(Fmt, &[0], &x, fmt_code(if N::BIN { 1 } else { 0 }, 0, 0));
                }
            }
            // text of so many characters
            let per = if N::BIN { N::WBITS as usize / 4 } else { (N::WBITS as f64 * 0.30103) as usize };
            for n in [(K - 1) / per, K / per, K / per + 1] {
                w.num::<N>(Fmt, &[0], &gen(n), fmt_code(if N::BIN { 2 } else { 0 }, 0, 0));
            }
            // the greatest width the standard library takes
            for width in [K - 2, K - 1] {
                w.num::<N>(Fmt, &[0], &gen(2), fmt_code(0, 0, width as u64));
            }
        }),
        "C13" if N::BIN && !t => {
            let d = K / N::WBITS as usize;
            for n in [d - 1, d, d + 1, 2 * d + 1, 4 * d + 3] {
                let mut low = gen(n);
                low[..n - 3].fill(0);
                let mut high = gen(n);
                high[n / 2..].fill(0);
                high[n - 1] = 1;
                for x in [top(n), gen(n), max(n), low, high] {
                    p.job(&format!("{} ToDec giant", N::NAME), move |w| {
                        if n <= 2 * d + 1 || x.iter().filter(|&&y| y != 0).count() < 4 {
                            w.num::<N>(ToDec, &[0], &x, 0);
                        }
                    });
                }
            }
        }
        "C13" if N::BIN && t => p.job(&format!("{} ToDec giant", N::NAME), move |w| {
            w.num::<N>(ToDec, &[0], &gen(if N::WBITS == 8 { K + 2 } else { 12_000 }), 0);
        }),
        "C15" => p.job(&format!("{} forms, giant", N::NAME), move |w| {
            for (op, a, b, n) in [
                (Add, gen(K + 2), gen(K + 1), 0),
                (Add, gen(9), gen(K + 1), 0),
                (Sub, gen(K + 2), gen(K + 1), 0),
                (Sub, gen(9), gen(K), 0),
                (Mul, two(K + 1), two(30), 0),
                (Mul, gen(K + 1), vec![m], 0),
                (Div, gen(K + 1), vec![m], 0),
                (Rem, gen(K + 1), vec![m, 3], 0),
                (AddW, max(K), vec![], m),
                (SubW, top(K + 1), vec![], 1),
                (MulW, max(K), vec![], m),
                (DivW, gen(K + 2), vec![], m),
                (RemW, gen(K + 2), vec![], m),
                (Shl, gen(K + 2), vec![], 3),
                (Shr, gen(K + 2), vec![], 3),
            ] {
                if w.stopped() {
                    return;
                }
                w.forms_agree::<N>(op, Args { a: &a, b: &b, n, s: "" });
            }
        }),
        "C19" => p.job(&format!("{} New giant", N::NAME), move |w| {
            for &n in lens {
                for zeros in [0, 1, 2, K - 1, K, K + 1] {
                    for x in [gen(n), top(n), vec![], vec![1]] {
                        if w.stopped() {
                            return;
                        }
                        let x = [x, vec![0; zeros]].concat();
                        w.num::<N>(New, &[0], &x, 0);
                    }
                }
            }
        }),
        _ => {}
    }
}

/// Each digit of radices around 2^16, at each place of short numbers
pub fn every_digit<N: Num>(p: &mut Plan, prop: &str) {
    let r = r::<N>();
    if !(1000..=1 << 16).contains(&r) {
        return;
    }
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let t = p.thorough;
    let prop = match prop {
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C10" | "C11" | "C12" | "C13" | "C15" | "C16" | "C19" => prop.to_string(),
        _ => return,
    };
    if prop == "C13" && !N::BIN {
        return;
    }
    let word = |prop: &str| matches!(prop, "C06" | "C15" | "C19");
    let last = if word(&prop) { (1u64 << N::WBITS) - 1 } else { m };
    let gen = generic(r, 91, 4);
    const STEP: u64 = 512;
    for lo in (0..=last).step_by(STEP as usize) {
        let (prop, gen) = (prop.clone(), gen.clone());
        let hi = (lo + STEP - 1).min(last);
        p.job(&format!("{} every digit of {} bits", N::NAME, N::WBITS), move |w| {
            let n = |v: &[u64]| refn::norm(v.to_vec());
            for x in lo..=hi {
                if w.stopped() {
                    return;
                }
                let places: Vec<Vec<u64>> = if x > m { vec![] } else { vec![n(&[x]), n(&[m, x]), n(&[0, x]), n(&[x, 1]), n(&[x, m]), n(&[gen[0], x, gen[1]])] };
                let k = if t { places.len() } else { places.len().min(4) };
                match &prop[..] {
                    "C03" => {
                        for y in factors(r, x, !t).into_iter().chain([h, m - 1, gen[2]]) {
                            w.big::<N>(Mul, RR, &n(&[m, x]), &n(&[y]));
                            w.big::<N>(Mul, RR, &n(&[gen[0], x]), &n(&[1, y]));
                        }
                    }
                    "C04" => {
                        for v in &places {
                            w.num::<N>(Square, &[0], v, 0);
                        }
                        w.num::<N>(Pow, &[0, 1], &places[0], 3);
                        w.num::<N>(Pow, &[1], &places[3], 4);
                    }
                    "C05" => {
                        for d in &places[..k] {
                            if d.is_empty() {
                                continue;
                            }
                            for rem in rems::<N>(d, 2) {
                                for q in [&[m][..], &[m, m], &[gen[0], gen[1], 1]] {
                                    triple::<N>(w, q, d, &rem, false);
                                }
                            }
                        }
                        if x > 0 {
                            for d in [n(&[m, m, x]), n(&[gen[0], gen[1], gen[2], x])] {
                                triple::<N>(w, &[m, m], &d, &n(&[m, x - 1]), false);
                                triple::<N>(w, &[gen[3]], &d, &n(&[gen[1], gen[0], gen[2]][..d.len() - 1]), false);
                            }
                        }
                    }
                    "C06" => {
                        for a in [n(&[m, m, m]), n(&[0, 0, 1]), gen[..3].to_vec(), n(&[m]), n(&[h, 1]), n(&[0, m])] {
                            for op in [AddW, SubW, MulW, DivW, RemW] {
                                // panics are slow
                                let under = op == SubW && a.len() < 2 && x as u128 > a[0] as u128 && x % 64 != 0;
                                if !under {
                                    w.num::<N>(op, if x <= m { &[2, 5] } else { &[5] }, &a, x);
                                }
                            }
                        }
                        for a in &places[..k] {
                            for v in [1, 2, 3, 10, m, h, (1 << N::WBITS) - 1, gen[1]] {
                                for op in [AddW, MulW, DivW, RemW] {
                                    w.num::<N>(op, &[5], a, v);
                                }
                                if a.len() > 1 || a.len() == 1 && a[0] >= v {
                                    w.num::<N>(SubW, &[5], a, v);
                                }
                            }
                        }
                    }
                    "C07" | "C08" => {
                        let op = if prop == "C07" { Shl } else { Shr };
                        for a in &places[..k] {
                            for c in (0..=17).chain([31, 32, 33, 47, 48]) {
                                w.num::<N>(op, &[2], a, c);
                            }
                        }
                    }
                    "C10" => {
                        for y in [x.wrapping_sub(1), x, x + 1, x ^ 0xff, x ^ 0x100, x ^ 0x8000, x ^ 0x7fff, h, 0, m] {
                            if y > m {
                                continue;
                            }
                            for (a, b) in [([x, 0, 0], [y, 0, 0]), ([x, 1, 0], [y, 1, 0]), ([m, x, 0], [0, y, 0]), ([0, x, 1], [m, y, 1])] {
                                w.big::<N>(Cmp, &[0], &n(&a), &n(&b));
                            }
                        }
                    }
                    "C11" => {
                        for a in &places[..k] {
                            let s = refn::to_dec_string::<N::X>(a);
                            w.text::<N>(&s);
                            w.text::<N>(&format!("000{}", s));
                        }
                        for s in [format!("{:x}", x), format!("{:04X}", x), format!("1{:04x}{:04X}", m - x, x), format!("{:x}fff0", x), format!("{:x}000", x)] {
                            w.text::<N>(&format!("0x{}", s));
                        }
                    }
                    "C12" => {
                        for a in &places[..k] {
                            for kind in if N::BIN { 0..3 } else { 0..1 } {
                                w.num::<N>(Fmt, &[0], a, fmt_code(kind, 0, 0));
                            }
                        }
                        w.num::<N>(Fmt, &[0], &places[0], fmt_code(0, 1, 9));
                    }
                    "C13" => {
                        for a in &places {
                            w.num::<N>(ToDec, &[0], a, 0);
                        }
                    }
                    "C15" => {
                        for a in [gen[..2].to_vec(), n(&[m, m]), n(&[0, 0, 1])] {
                            for op in [AddW, SubW, MulW, DivW, RemW] {
                                w.forms_agree::<N>(op, Args { a: &a, b: &[], n: x, s: "" });
                            }
                        }
                        for a in &places[..k.min(2)] {
                            for b in [&[m][..], &gen[..1], &gen[..2]] {
                                for op in [Add, Mul, Div, Rem] {
                                    w.forms_agree::<N>(op, Args { a, b, n: 0, s: "" });
                                }
                            }
                            w.forms_agree::<N>(Sub, Args { a: &gen[..3], b: a, n: 0, s: "" });
                        }
                    }
                    "C16" => {
                        for a in &places[..k] {
                            for op in [DivBig, RemBig] {
                                let g = Args { a, b: &[], n: 0, s: "" };
                                w.ops::<N>(op, &[0], g, &Out::Err("DivisionByZero".into(), a.to_vec()), true);
                            }
                        }
                    }
                    _ => {
                        w.num::<N>(FromWord, &[0], &[], x);
                        if x <= m {
                            for v in [vec![x], vec![0, x], vec![x, 0], vec![m, x, 0, 0], vec![x, 1], vec![0, x, 0, 1, 0]] {
                                w.num::<N>(New, &[0], &v, 0);
                            }
                        }
                    }
                }
            }
        });
    }
}

/// Operands of all sorts of lengths, with no, little and much spare capacity
pub fn memory<N: Num>(p: &mut Plan, prop: &str) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let t = p.thorough;
    if !N::FULL || matches!(prop, "C10" | "C11" | "C14" | "C17" | "C18" | "C20") || prop == "C13" && !N::BIN {
        return;
    }
    let prop: String = prop.into();
    let ns: Vec<usize> = if t { (1..=48).chain([63, 64, 65, 129, 200]).collect() } else { vec![1, 2, 3, 4, 7, 15, 16, 17, 20, 23, 33, 41, 64] };
    let modes: &[[u8; 2]] = &[[1, 1], [1, 3], [3, 1], [3, 3], [4, 4], [1, 4], [4, 1], [2, 2], [2, 4]];
    for &rooms in modes {
        for &n in &ns {
            let (prop, ns) = (prop.clone(), ns.clone());
            p.job(&format!("{} spare capacity", N::NAME), move |w| {
                crate::num::ROOMS.set(rooms);
                let bits = N::WBITS as u64;
                let mut xs = vec![generic(r, 93, n), vec![m; n], [vec![0; n - 1], vec![1]].concat()];
                xs.extend(if n > 1 { Some([generic(r, 94, n - 1), vec![1]].concat()) } else { None });
                let counts = || (0..=n as u64 + 1).filter(|k| t || n < 12 || k % 3 == 0 || *k + 8 > n as u64).flat_map(move |k| [k * bits, k * bits + 1, (k + 1) * bits - 1]);
                'all: for a in &xs {
                    // of one number
                    let ops: &[Op] = match &prop[..] {
                        "C04" => &[Square, Pow],
                        "C06" => &[AddW, SubW, MulW, DivW, RemW],
                        "C07" => &[Shl],
                        "C08" => &[Shr],
                        "C09" | "C15" => &[AddW, SubW, MulW, DivW, RemW, Shl, Shr, Square],
                        "C12" => &[Fmt],
                        "C13" => &[ToDec],
                        "C16" => &[DivBig, RemBig, Div, Rem, DivW, RemW],
                        "C19" => &[New, FromWord],
                        _ => &[],
                    };
                    for &op in ops {
                        let args: Vec<u64> = match op {
                            Shl | Shr => counts().collect(),
                            DivW | RemW if prop == "C16" => vec![0],
                            AddW | MulW | DivW | RemW => vec![1, 2, 10, m, (1u64 << (bits - 1)) * 2 - 1 | 1],
                            SubW => vec![1, a[0]],
                            Pow => vec![0, 1, 2, 3, 5],
                            Fmt => (0..if N::BIN { 3 } else { 1 }).map(|k| fmt_code(k, 0, 0)).collect(),
                            _ => vec![0],
                        };
                        for k in args {
                            if w.stopped() {
                                break 'all;
                            }
                            let g = Args { a, b: &[], n: k, s: "" };
                            let want = || expect::<N>(op, 0, g, None);
                            let fs: &[u8] = match op {
                                Div | Rem => &[0, 1, 2, 3, 4, 5],
                                AddW | SubW | MulW | DivW | RemW => if k <= m { &[0, 1, 2, 3, 4, 5] } else { &[3, 4, 5] },
                                Shl | Shr => &[0, 1, 2],
                                Pow => &[0, 1],
                                _ => &[0],
                            };
                            match &prop[..] {
                                "C09" => w.canonical::<N>(op, fs, g),
                                "C15" => w.forms_agree::<N>(op, g),
                                _ => w.ops::<N>(op, fs, g, &want(), true),
                            }
                        }
                    }
                    // of two
                    let ops: &[Op] = match &prop[..] {
                        "C01" => &[Add],
                        "C02" => &[Sub],
                        "C03" => &[Mul],
                        "C05" => &[Div, Rem, DivBig, RemBig],
                        "C09" | "C15" => &[Add, Sub, Mul, Div, Rem],
                        _ => &[],
                    };
                    for &op in ops {
                        for &k in &ns {
                            for b in [generic(r, 95, k), vec![m; k], [vec![0; k - 1], vec![1]].concat()] {
                                if w.stopped() {
                                    break 'all;
                                }
                                let g = Args { a, b: &b, n: 0, s: "" };
                                let fs: &[u8] = match op {
                                    DivBig | RemBig => &[0],
                                    _ => &[0, 1, 2, 3, 4, 5],
                                };
                                // panics are slow
                                if op == Sub && refn::cmp(a, &b) == std::cmp::Ordering::Less && k % 4 != 0 {
                                    continue;
                                }
                                match &prop[..] {
                                    "C09" => w.canonical::<N>(op, fs, g),
                                    "C15" => w.forms_agree::<N>(op, g),
                                    _ => w.ops::<N>(op, fs, g, &expect::<N>(op, 0, g, None), true),
                                }
                            }
                        }
                    }
                }
                crate::num::ROOMS.set([0, 0]);
            });
        }
    }
}

/// Division of numbers of many digits whose blocks are alike
pub fn large_blocks<N: Num>(p: &mut Plan, prop: &str) {
    if prop != "C05" {
        return;
    }
    let r = r::<N>();
    let m = (r - 1) as u64;
    for n in p.pick(vec![328usize, 640], vec![328, 500, 512, 640, 1000, 1024, 1280, 1290, 2048]) {
        let h = n / 2;
        let parts = move |n: usize| -> Vec<Vec<u64>> {
            let mut low = vec![0; n];
            low[0] = 5;
            let mut high = vec![0; n];
            high[n - 1] = m;
            vec![vec![0; n], low, high, vec![m; n], generic(r, 96, n)]
        };
        for hi in [vec![m; n - h], generic(r, 97, n - h), [vec![0; n - h - 1], vec![r as u64 / 2]].concat()] {
            for lo in parts(h) {
                let hi = hi.clone();
                p.job(&format!("{} Div of large alike blocks", N::NAME), move |w| {
                    let d = [&lo[..], &hi[..]].concat();
                    for top in [hi.clone(), refn::sub::<N::X>(&hi, &[1]).unwrap()] {
                        for mid in parts(h) {
                            for low in [vec![0; n], vec![m; n]] {
                                if w.stopped() {
                                    return;
                                }
                                let a = refn::norm([&low[..], &mid[..], &top[..]].concat());
                                w.big::<N>(DivBig, &[0], &a, &d);
                            }
                        }
                    }
                });
            }
        }
    }
}

/// Digits put together from two halves with extreme and middle values, for each way to cut a digit
fn half_digits(r: u128, bits: u32, thin: bool) -> Vec<u64> {
    let mut cuts = vec![];
    if r.is_power_of_two() {
        cuts.push(1u128 << (bits / 2));
    } else {
        let mut ten = 10u128;
        while ten * ten < r {
            ten *= 10;
        }
        cuts.push(ten);
        if ten * ten != r {
            cuts.push(ten / 10);
        }
        cuts.push(1 << (bits / 2));
    }
    let mut out = vec![];
    for c in cuts {
        let part = |n: u128| -> Vec<u128> {
            if thin {
                vec![0, 1, n / 2, n - 1]
            } else {
                vec![0, 1, 2, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1]
            }
        };
        for lo in part(c) {
            for hi in part((r + c - 1) / c) {
                let x = hi * c + lo;
                if x < r {
                    out.push(x as u64);
                }
            }
        }
    }
    out.sort_unstable();
    out.dedup();
    out
}

/// Operations on short numbers of digits made of halves
pub fn halves<N: Num>(p: &mut Plan, prop: &str) {
    let r = r::<N>();
    if r <= 256 || prop == "C13" && !N::BIN {
        return;
    }
    let m = (r - 1) as u64;
    let t = p.thorough;
    let prop = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C11" | "C12" | "C13" | "C19" => prop.to_string(),
        _ => return,
    };
    let s = half_digits(r, N::WBITS as u32, false);
    let few = half_digits(r, N::WBITS as u32, !t);
    let words = half_digits(1 << N::WBITS, N::WBITS as u32, false);
    let gen = generic(r, 98, 4);
    let first: Vec<u64> = if prop == "C06" || prop == "C19" { words } else { s.clone() };
    for x in first {
        let (prop, s, few, gen) = (prop.clone(), s.clone(), few.clone(), gen.clone());
        p.job(&format!("{} digits made of halves", N::NAME), move |w| {
            let n = |v: &[u64]| refn::norm(v.to_vec());
            let fit = x <= m;
            for &y in &s {
                if w.stopped() {
                    return;
                }
                match &prop[..] {
                    "C01" => {
                        for (a, b) in [([x, 0, 0], [y, 0, 0]), ([m, x, 0], [1, y, 0]), ([gen[0], x, 1], [gen[1], y, 0]), ([1, x, m], [m, y, 0])] {
                            w.big::<N>(Add, RR, &n(&a), &n(&b));
                        }
                    }
                    "C02" => {
                        for (a, b) in [([x, 1, 0], [y, 0, 0]), ([0, x, 1], [1, y, 0]), ([gen[0], x, 1], [gen[1], y, 0]), ([x, y, 1], [y, x, 1])] {
                            let (a, b) = (n(&a), n(&b));
                            if refn::cmp(&a, &b) != std::cmp::Ordering::Less {
                                w.big::<N>(Sub, RR, &a, &b);
                            }
                        }
                        if x >= y {
                            w.big::<N>(Sub, RR, &n(&[x]), &n(&[y]));
                        }
                    }
                    "C03" => {
                        for (a, b) in [([x, 0], [y, 0]), ([m, x], [y, 0]), ([x, m], [m, y]), ([x, y], [y, x]), ([gen[0], x], [1, y])] {
                            w.big::<N>(Mul, RR, &n(&a), &n(&b));
                        }
                    }
                    "C04" => {
                        for a in [n(&[x, y]), n(&[gen[0], x, y]), n(&[x, 1, y])] {
                            w.num::<N>(Square, &[0], &a, 0);
                        }
                    }
                    "C05" => {
                        for d in [n(&[y, x]), n(&[gen[0], y, x])] {
                            if d.is_empty() || !few.contains(&y) {
                                continue;
                            }
                            let most = refn::sub::<N::X>(&d, &[1]).unwrap();
                            for &q in &few {
                                for rem in [&most[..], &[]] {
                                    triple::<N>(w, &n(&[q]), &d, rem, false);
                                    triple::<N>(w, &n(&[q, m]), &d, rem, false);
                                }
                            }
                        }
                    }
                    "C06" => {
                        for a in [n(&[y]), n(&[m, y]), n(&[y, 1])] {
                            for op in [AddW, SubW, MulW, DivW, RemW] {
                                // panics are slow
                                if op == SubW && a.len() < 2 && refn::cmp(&a, &n(&[x])) == std::cmp::Ordering::Less {
                                    continue;
                                }
                                w.num::<N>(op, if fit { &[2, 5] } else { &[5] }, &a, x);
                            }
                        }
                        // quotients of such digits
                        if x != 0 {
                            let wx = refn::from_word::<N::X>(x);
                            let most = refn::sub::<N::X>(&wx, &[1]).unwrap();
                            for rem in [&most[..], &[]] {
                                let a = refn::add::<N::X>(&refn::mul::<N::X>(&n(&[y, m, 1]), &wx), rem);
                                w.num::<N>(DivW, &[5], &a, x);
                                w.num::<N>(RemW, &[5], &a, x);
                            }
                        }
                    }
                    "C07" | "C08" => {
                        let op = if prop == "C07" { Shl } else { Shr };
                        let bits = N::WBITS as u64;
                        for c in (0..=bits + 1).chain([2 * bits - 1, 2 * bits, 3 * bits + 1]) {
                            w.num::<N>(op, &[2], &n(&[x, y]), c);
                        }
                    }
                    "C11" => {
                        for a in [n(&[x, y]), n(&[y, x, 1])] {
                            w.text::<N>(&refn::to_dec_string::<N::X>(&a));
                            w.text::<N>(&format!("0x{}", refn::to_hex_string::<N::X>(&a)));
                        }
                    }
                    "C12" => {
                        for a in [n(&[x, y]), n(&[y, x, 1])] {
                            for kind in if N::BIN { 0..3 } else { 0..1 } {
                                w.num::<N>(Fmt, &[0], &a, fmt_code(kind, 0, 0));
                            }
                        }
                    }
                    "C13" => {
                        for a in [n(&[x, y]), n(&[gen[0], x, y]), n(&[y, x, 1, x])] {
                            w.num::<N>(ToDec, &[0], &a, 0);
                        }
                    }
                    _ => {}
                }
            }
            if prop == "C19" {
                w.num::<N>(FromWord, &[0], &[], x);
            }
        });
    }
}
