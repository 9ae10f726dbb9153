//! Larger complete spaces, for the thorough tier only. Operands are computed from their index, so
//! that no list of them is kept.

use crate::engine::{Plan, W};
use crate::num::*;
use crate::pat::*;
use crate::refn::{self, Radix};
use std::sync::Arc;
use Op::*;

/// A set of numbers by index
#[derive(Clone)]
enum Set {
    /// The numbers below a bound
    Below(u64),
    /// Those of at most so many digits, all from an alphabet that has zero
    Words(Arc<Vec<u64>>, u32),
}

impl Set {
    fn len(&self) -> u64 {
        match self {
            Set::Below(n) => *n,
            Set::Words(a, n) => (a.len() as u64).pow(*n),
        }
    }

    fn put(&self, r: u128, mut i: u64, out: &mut Vec<u64>) {
        out.clear();
        match self {
            Set::Below(_) if r > u64::MAX as u128 => {
                if i > 0 {
                    out.push(i)
                }
            }
            Set::Below(_) => {
                let r = r as u64;
                while i != 0 {
                    out.push(i % r);
                    i /= r;
                }
            }
            Set::Words(a, _) => {
                let k = a.len() as u64;
                // zeros above the first digit that is not zero are left out: the first letter is zero
                while i != 0 {
                    out.push(a[(i % k) as usize]);
                    i /= k;
                }
            }
        }
    }
}

fn alpha<N: Num>(k: usize, n: u32) -> Set {
    let a = alphabet(<N::X as Radix>::R, k);
    assert_eq!(a[0], 0);
    Set::Words(Arc::new(a), n)
}

fn letters<N: Num>(a: &[u64], n: u32) -> Set {
    let mut v = a.to_vec();
    v.dedup();
    assert_eq!(v[0], 0);
    Set::Words(Arc::new(v), n)
}

/// All numbers of a set
fn each<N: Num, F: Fn(&mut W, &[u64]) + Send + Sync + 'static>(p: &mut Plan, fam: &str, s: Set, chunk: u64, f: F) {
    let f = Arc::new(f);
    let n = s.len();
    let chunk = chunk.max(n / 4000 + 1);
    for lo in (0..n).step_by(chunk as usize) {
        let (f, s) = (f.clone(), s.clone());
        p.job(&format!("{} deep: {}", N::NAME, fam), move |w| {
            let mut x = vec![];
            for i in lo..(lo + chunk).min(n) {
                if w.stopped() {
                    return;
                }
                s.put(<N::X as Radix>::R, i, &mut x);
                f(w, &x);
            }
        });
    }
}

/// All pairs of two sets; those with the second index at most the first when `half`
fn cross<N: Num, F: Fn(&mut W, &[u64], &[u64]) + Send + Sync + 'static>(p: &mut Plan, fam: &str, a: Set, b: Set, half: bool, f: F) {
    let chunk = (4_000_000 / b.len().max(1)).clamp(1, 4096);
    let r = <N::X as Radix>::R;
    each::<N, _>(p, fam, Set::Below(a.len().div_ceil(chunk)), 1, move |w, d| {
        // the number of the part
        let k = d.iter().rev().fold(0u64, |s, &x| s.wrapping_mul(r as u64).wrapping_add(x));
        let (mut x, mut y) = (vec![], vec![]);
        for i in k * chunk..((k + 1) * chunk).min(a.len()) {
            a.put(r, i, &mut x);
            let top = if half { b.len().min(i + 1) } else { b.len() };
            for j in 0..top {
                if w.stopped() {
                    return;
                }
                b.put(r, j, &mut y);
                f(w, &x, &y);
            }
        }
    });
}

fn bin<N: Num>(op: Op, fs: &'static [u8]) -> impl Fn(&mut W, &[u64], &[u64]) + Send + Sync + 'static {
    move |w, x, y| w.big::<N>(op, fs, x, y)
}

/// Two orders of two operands
fn both<N: Num>(op: Op, fs: &'static [u8]) -> impl Fn(&mut W, &[u64], &[u64]) + Send + Sync + 'static {
    move |w, x, y| {
        w.big::<N>(op, fs, x, y);
        w.big::<N>(op, fs, y, x);
    }
}

fn addsub<N: Num>(p: &mut Plan, op: Op) {
    let r = <N::X as Radix>::R;
    let m = (r - 1) as u64;
    if r <= 256 {
        // every pair of numbers of up to two digits
        cross::<N, _>(p, "all pairs of two digits", Set::Below((r * r) as u64), Set::Below((r * r) as u64), true, bin::<N>(op, &[3]));
    }
    cross::<N, _>(p, "words of 4 digits", alpha::<N>(8, 4), alpha::<N>(8, 4), true, bin::<N>(op, &[3, 5]));
    cross::<N, _>(p, "words of 8 digits", letters::<N>(&[0, m, 1], 8), letters::<N>(&[0, m, 1], 8), false, move |w, x, y| {
        if op == Add || refn::cmp(x, y) != std::cmp::Ordering::Less {
            w.big::<N>(op, &[3], x, y);
        }
    });
    cross::<N, _>(p, "words of two values", letters::<N>(&[0, m], 12), letters::<N>(&[0, m], 12), true, bin::<N>(op, &[5]));
    cross::<N, _>(p, "words of two values", letters::<N>(&[0, 1], 12), letters::<N>(&[0, m], 12), false, move |w, x, y| {
        if op == Add || refn::cmp(x, y) != std::cmp::Ordering::Less {
            w.big::<N>(op, &[5], x, y);
        }
    });
}

/// The spaces of a property for a type
pub fn deep<N: Num>(p: &mut Plan, prop: &str) {
    let r = <N::X as Radix>::R;
    let m = (r - 1) as u64;
    let small = r <= 256;
    let bits = N::WBITS;
    match prop {
        "C01" => addsub::<N>(p, Add),
        "C02" => addsub::<N>(p, Sub),
        "C03" => {
            if small {
                let n = (r * r).min(40000) as u64;
                cross::<N, _>(p, "all pairs of two digits", Set::Below(n), Set::Below(n), true, bin::<N>(Mul, &[3]));
            }
            cross::<N, _>(p, "words of 4 digits", alpha::<N>(8, 4), alpha::<N>(8, 4), true, both::<N>(Mul, &[3]));
            cross::<N, _>(p, "words of 7 digits", letters::<N>(&[0, m, 1], 7), letters::<N>(&[0, m, 1], 7), true, bin::<N>(Mul, &[3]));
            cross::<N, _>(p, "words of two values", letters::<N>(&[0, m], 11), letters::<N>(&[0, m], 11), true, bin::<N>(Mul, &[3]));
        }
        "C04" => {
            let f = |w: &mut W, x: &[u64]| w.num::<N>(Square, &[0], x, 0);
            if bits <= 16 {
                each::<N, _>(p, "Square of all values", Set::Below(1 << 28), 5000, f);
            }
            each::<N, _>(p, "Square of words of 6 digits", alpha::<N>(10, 6), 3000, f);
            each::<N, _>(p, "Square of words of 12 digits", letters::<N>(&[0, m, 1], 12), 3000, f);
            each::<N, _>(p, "Square of words of 20 digits", letters::<N>(&[0, m], 20), 1000, f);
            each::<N, _>(p, "Pow of words", alpha::<N>(8, 3), 4, |w, x| {
                let mut want = vec![1];
                for e in 0..=40u64 {
                    let g = Args { a: x, b: &[], n: e, s: "" };
                    w.ops::<N>(Pow, &[0, 1], g, &Out::Num(want.clone()), e > 1 && !x.is_empty());
                    want = refn::mul::<N::X>(&want, x);
                }
            });
        }
        "C05" => {
            if small {
                // every numerator below a bound with every denominator below another
                let top = 1u64 << 18;
                each::<N, _>(p, "Div of all values", Set::Below(1 << 12), 1, move |w, d| {
                    if d.is_empty() {
                        return;
                    }
                    let dv = d.iter().rev().fold(0, |s, &x| s * r as u64 + x);
                    let (all, mut n, mut q, mut x) = (Set::Below(top), vec![], vec![], vec![]);
                    for i in 0..top {
                        if w.stopped() {
                            return;
                        }
                        all.put(r, i, &mut n);
                        all.put(r, i / dv, &mut q);
                        all.put(r, i % dv, &mut x);
                        let g = Args { a: &n, b: d, n: 0, s: "" };
                        w.ops::<N>(DivBig, &[0], g, &Out::Two(q.clone(), x.clone()), i >= dv);
                    }
                });
            }
            for (fam, ds, qs) in [
                ("words by words", alpha::<N>(10, 3), alpha::<N>(8, 3)),
                ("longer words by words", alpha::<N>(7, 4), alpha::<N>(6, 3)),
                ("long words", letters::<N>(&[0, m, 1, (r / 2) as u64], 6), letters::<N>(&[0, m, 1], 6)),
                ("long words of two values", letters::<N>(&[0, m], 11), letters::<N>(&[0, m], 11)),
                ("long words of two values", letters::<N>(&[0, (r / 2) as u64], 10), letters::<N>(&[0, m, 1], 6)),
            ] {
                cross::<N, _>(p, &format!("Div {}", fam), ds, qs, false, |w, d, q| {
                    if d.is_empty() {
                        return;
                    }
                    let n0 = refn::mul::<N::X>(q, d);
                    let top = refn::sub::<N::X>(d, &[1]).unwrap();
                    let half = refn::divrem_word::<N::X>(d, 2).0;
                    for x in [&top, &half, &vec![]] {
                        let n = refn::add::<N::X>(&n0, x);
                        let g = Args { a: &n, b: d, n: 0, s: "" };
                        w.ops::<N>(DivBig, &[0], g, &Out::Two(q.to_vec(), x.to_vec()), !q.is_empty());
                    }
                });
            }
        }
        "C06" => {
            let f = |w: &mut W, x: &[u64], v: u64, fs: &[u8]| {
                for op in [AddW, SubW, MulW, DivW, RemW] {
                    if op == SubW && x.len() < 2 && x.first().is_none_or(|&d| d < v) || v == 0 && matches!(op, DivW | RemW) {
                        continue;
                    }
                    w.num::<N>(op, fs, x, v);
                }
            };
            if bits == 8 {
                each::<N, _>(p, "all values and all words", Set::Below(1 << 18), 100, move |w, x| {
                    for v in 0..256 {
                        f(w, x, v, &[5]);
                    }
                });
            }
            if bits == 16 {
                each::<N, _>(p, "words and all machine words", alpha::<N>(8, 3), 1, move |w, x| {
                    for v in 0..65536 {
                        if w.stopped() {
                            return;
                        }
                        f(w, x, v, &[5]);
                    }
                });
            }
            let ws = Arc::new(crate::props::word_values(bits, r));
            each::<N, _>(p, "words and machine words", alpha::<N>(10, 4), 20, move |w, x| {
                for &v in ws.iter() {
                    f(w, x, v, &[5]);
                }
            });
        }
        "C07" | "C08" => {
            let op = if prop == "C07" { Shl } else { Shr };
            let f = move |w: &mut W, x: &[u64], top: u64| {
                for n in 0..=top {
                    w.num::<N>(op, &[2], x, n);
                }
            };
            if bits <= 16 {
                each::<N, _>(p, "all values", Set::Below(1 << 21), 1000, move |w, x| f(w, x, if op == Shl { 2 * bits as u64 + 1 } else { 24 }));
                each::<N, _>(p, "all values of 16 bits", Set::Below(1 << 16), 300, move |w, x| f(w, x, 80));
            }
            each::<N, _>(p, "words of 4 digits", alpha::<N>(8, 4), 20, move |w, x| f(w, x, 5 * bits as u64));
            each::<N, _>(p, "words of 8 digits", letters::<N>(&[0, m, 1], 8), 20, move |w, x| f(w, x, 9 * bits as u64));
            each::<N, _>(p, "words of 14 digits", letters::<N>(&[0, m], 14), 20, move |w, x| f(w, x, 2 * bits as u64));
        }
        "C10" => {
            if small {
                cross::<N, _>(p, "all pairs of two digits", Set::Below((r * r) as u64), Set::Below((r * r) as u64), true, both::<N>(Cmp, &[0]));
            }
            cross::<N, _>(p, "words of 4 digits", alpha::<N>(8, 4), alpha::<N>(8, 4), true, both::<N>(Cmp, &[0]));
            cross::<N, _>(p, "words of 8 digits", letters::<N>(&[0, m, 1], 8), letters::<N>(&[0, m, 1], 8), true, both::<N>(Cmp, &[0]));
            cross::<N, _>(p, "words of two values", letters::<N>(&[0, 1], 13), letters::<N>(&[0, 1], 13), true, both::<N>(Cmp, &[0]));
        }
        "C11" => {
            // all texts of a length over an alphabet
            let mut texts = |pre: &'static str, chars: &str, len: u32| {
                let chars: Arc<Vec<char>> = Arc::new(chars.chars().collect());
                let k = chars.len() as u64;
                let n = k.pow(len);
                let chunk = n / 1000 + 1;
                for lo in (0..n).step_by(chunk as usize) {
                    let chars = chars.clone();
                    p.job(&format!("{} deep: Parse all texts of {} characters after '{}'", N::NAME, len, pre), move |w| {
                        let mut s = String::new();
                        for i in lo..(lo + chunk).min(n) {
                            if w.stopped() {
                                return;
                            }
                            s.clear();
                            s.push_str(pre);
                            let mut i = i;
                            for _ in 0..len {
                                s.push(chars[(i % k) as usize]);
                                i /= k;
                            }
                            w.text::<N>(&s);
                        }
                    });
                }
            };
            let ascii: String = (0u8..128).map(|b| b as char).chain(['\u{80}', '\u{e9}', '\u{661}', '\u{ff11}', '\u{1d7d8}']).collect();
            for pre in ["", "0x"] {
                texts(pre, &ascii, 3);
                texts(pre, "019afx+- _", 7);
                texts(pre, "01af+-x", 8);
            }
            for len in 1..=7 {
                texts("", "0123456789", len);
            }
            for len in 1..=6 {
                texts("0x", "0123456789abcdef", len);
            }
            texts("0x", "0123456789abcdefABCDEF", 5);
            // digits of two values, longer than the part that is converted at a time
            for len in [16, 17, 18, 19, 20] {
                texts("", "09", len);
                texts("0x", "0f", len);
            }
        }
        "C12" => {
            let kinds: &'static [u64] = if N::BIN { &[0, 1, 2] } else { &[0] };
            let f = move |w: &mut W, x: &[u64]| {
                for &k in kinds {
                    w.num::<N>(Fmt, &[0], x, fmt_code(k, 0, 0));
                }
                w.text::<N>(&refn::to_dec_string::<N::X>(x));
                if N::BIN {
                    w.text::<N>(&format!("0x{}", refn::to_hex_string::<N::X>(x)));
                }
            };
            if bits <= 16 {
                each::<N, _>(p, "Fmt of all values", Set::Below(1 << 23), 1000, f);
            }
            each::<N, _>(p, "Fmt of words of 5 digits", alpha::<N>(9, 5), 300, f);
            each::<N, _>(p, "Fmt of words of 11 digits", letters::<N>(&[0, m, 1], 11), 300, f);
            // every flag and every width for all values of few digits
            each::<N, _>(p, "Fmt of all small values, all flags and widths", Set::Below(1100), 4, move |w, x| {
                for &k in kinds {
                    for s in 0..crate::text::SPECS.len() as u64 {
                        for wd in 0..=14 {
                            w.num::<N>(Fmt, &[0], x, fmt_code(k, s, wd));
                        }
                    }
                }
            });
        }
        "C13" if N::BIN => {
            let f = |w: &mut W, x: &[u64]| w.num::<N>(ToDec, &[0], x, 0);
            if bits <= 16 {
                each::<N, _>(p, "ToDec of all values", Set::Below(1 << 29), 5000, f);
            }
            each::<N, _>(p, "ToDec of words of 6 digits", alpha::<N>(11, 6), 1000, f);
            each::<N, _>(p, "ToDec of words of 13 digits", letters::<N>(&[0, m, 1], 13), 500, f);
            each::<N, _>(p, "ToDec of words of 20 digits", letters::<N>(&[0, m], 20), 100, f);
        }
        "C15" => {
            for op in [Add, Sub, Mul, Div, Rem] {
                let f = move |w: &mut W, x: &[u64], y: &[u64]| w.forms_agree::<N>(op, Args { a: x, b: y, n: 0, s: "" });
                if small {
                    cross::<N, _>(p, &format!("{:?} all forms, all small values", op), Set::Below(1500), Set::Below(1500), op == Sub, f);
                }
                cross::<N, _>(p, &format!("{:?} all forms, words", op), alpha::<N>(7, 3), alpha::<N>(7, 3), op == Sub, f);
                cross::<N, _>(p, &format!("{:?} all forms, longer words", op), letters::<N>(&[0, m, 1], 6), letters::<N>(&[0, m, 1], 6), op == Sub, f);
            }
        }
        "C16" => {
            let f = |w: &mut W, x: &[u64]| {
                let g = Args { a: x, b: &[], n: 0, s: "" };
                w.ops::<N>(Div, &[3], g, &Out::Panic, true);
                w.ops::<N>(DivW, &[5], g, &Out::Panic, true);
                for op in [DivBig, RemBig] {
                    w.ops::<N>(op, &[0], g, &Out::Err("DivisionByZero".into(), x.to_vec()), true);
                }
            };
            if bits <= 16 {
                each::<N, _>(p, "all values by zero", Set::Below(1 << 22), 500, f);
            }
            each::<N, _>(p, "words of 5 digits by zero", alpha::<N>(8, 5), 300, f);
            each::<N, _>(p, "words of 11 digits by zero", letters::<N>(&[0, m, 1], 11), 300, f);
        }
        "C19" => {
            // every list of digits, with any zeros above
            let news = |p: &mut Plan, fam: &str, s: Set, len: usize| {
                each::<N, _>(p, fam, s, 3000, move |w, x| {
                    let mut v = x.to_vec();
                    v.resize(len, 0);
                    w.num::<N>(New, &[0], &v, 0);
                });
            };
            if small {
                news(p, "New, all lists of three digits", Set::Below(r.pow(3) as u64), 3);
            }
            news(p, "New, lists of 7 digits", alpha::<N>(10, 7), 7);
            news(p, "New, lists of 14 digits", letters::<N>(&[0, m, 1], 14), 14);
            if bits == 32 {
                // every machine word
                for hi in 0..4096u64 {
                    p.job(&format!("{} deep: FromWord of every word", N::NAME), move |w| {
                        for v in hi << 20..(hi + 1) << 20 {
                            if w.stopped() {
                                return;
                            }
                            w.num::<N>(FromWord, &[0], &[], v);
                        }
                    });
                }
            }
        }
        _ => {}
    }
}

/// With lowered thresholds, and for the digits of small radix: complete sets at sizes where all
/// algorithms are in use
#[cfg(babs_mc)]
pub fn scaled<N: Num>(p: &mut Plan, prop: &str) {
    let r = <N::X as Radix>::R;
    let m = (r - 1) as u64;
    let top = |n: u32| (r as u64).pow(n);
    match prop {
        "C03" => {
            if r <= 10 {
                let n = match r {
                    4 => 7,
                    6 => 5,
                    _ => 4,
                };
                cross::<N, _>(p, "scaled: Mul of all values", Set::Below(top(n)), Set::Below(top(n)), true, bin::<N>(Mul, &[3]));
            }
            cross::<N, _>(p, "scaled: Mul of words of 8 digits", letters::<N>(&[0, m, 1], 8), letters::<N>(&[0, m, 1], 7), true, bin::<N>(Mul, &[3]));
            cross::<N, _>(p, "scaled: Mul of words of two values", letters::<N>(&[0, m], 12), letters::<N>(&[0, m], 12), true, bin::<N>(Mul, &[3]));
        }
        "C04" => {
            let f = |w: &mut W, x: &[u64]| w.num::<N>(Square, &[0], x, 0);
            if r <= 10 {
                let n = match r {
                    4 => 12,
                    6 => 9,
                    _ => 7,
                };
                each::<N, _>(p, "scaled: Square of all values", Set::Below(top(n)), 2000, f);
            }
            each::<N, _>(p, "scaled: Square of words of 13 digits", letters::<N>(&[0, m, 1], 13), 1000, f);
            each::<N, _>(p, "scaled: Square of words of two values", letters::<N>(&[0, m], 20), 500, f);
        }
        "C05" => {
            let div = |p: &mut Plan, fam: &str, ds: Set, qs: Set| {
                cross::<N, _>(p, fam, ds, qs, false, |w, d, q| {
                    if d.is_empty() {
                        return;
                    }
                    let n0 = refn::mul::<N::X>(q, d);
                    for x in [vec![], refn::sub::<N::X>(d, &[1]).unwrap()] {
                        let n = refn::add::<N::X>(&n0, &x);
                        let g = Args { a: &n, b: d, n: 0, s: "" };
                        w.ops::<N>(DivBig, &[0], g, &Out::Two(q.to_vec(), x), !q.is_empty());
                    }
                });
            };
            if r <= 10 {
                let (n, k) = match r {
                    4 => (6, 6),
                    6 => (5, 4),
                    _ => (4, 3),
                };
                div(p, "scaled: Div of all values", Set::Below(top(n)), Set::Below(top(k)));
            }
            div(p, "scaled: Div of words", letters::<N>(&[0, m, 1, (r / 2) as u64], 6), letters::<N>(&[0, m, 1], 6));
            div(p, "scaled: Div of words of two values", letters::<N>(&[0, m], 11), letters::<N>(&[0, m], 10));
        }
        _ => {}
    }
}
