//! Explicit-state exploration of histories: breadth-first search over the states of live number
//! objects, where each transition is an operation of the library on the object that the history so
//! far left behind, checked against the model (reference arithmetic on the value).

use crate::engine::{digits_parse, digits_text, hash, Plan, W};
use crate::num::*;
use crate::pat::*;
use crate::refn::{self, Radix};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;
use Op::*;

/// One step of a history
#[derive(Clone, Debug)]
pub struct Step {
    pub op: Op,
    pub form: u8,
    pub k: Vec<u64>,
    pub n: u64,
}

impl Step {
    pub fn text(&self) -> String {
        format!("{:?}/{}/{}/{}", self.op, self.form, digits_text(&self.k), self.n)
    }
    pub fn parse(s: &str) -> Step {
        let f: Vec<&str> = s.split('/').collect();
        Step {
            op: *ALL_OPS.iter().find(|o| format!("{:?}", o) == f[0]).unwrap(),
            form: f[1].parse().unwrap(),
            k: digits_parse(f[2]),
            n: f[3].parse().unwrap(),
        }
    }
    pub fn name(&self) -> &'static str {
        match self.op {
            DivBig => ["method, quotient", "method, remainder"][self.form as usize],
            _ => forms(self.op)[self.form as usize],
        }
    }
}

pub fn big(op: Op, form: u8, k: Vec<u64>) -> Step {
    Step { op, form, k, n: 0 }
}
pub fn num(op: Op, form: u8, n: u64) -> Step {
    Step { op, form, k: vec![], n }
}

/// What the model does
pub fn model<N: Num>(st: &Step, x: &[u64]) -> Out {
    let alias = matches!(st.op, Add | Sub | Mul | Div | Rem) && st.form >= 6;
    let b: &[u64] = if alias { x } else { &st.k };
    let g = Args { a: x, b, n: st.n, s: "" };
    match st.op {
        DivBig => match expect::<N>(DivBig, 0, g, None) {
            Out::Two(q, r) => Out::Num(if st.form == 0 { q } else { r }),
            _ => Out::Panic,
        },
        RemBig if b.is_empty() => Out::Panic,
        // text and back
        Parse => Out::Num(x.to_vec()),
        _ => expect::<N>(st.op, st.form, g, None),
    }
}

/// What the library does. For operations that give a number, also the resulting object.
pub fn step<N: Num>(st: &Step, k: &N, x: N) -> (Out, Option<N>) {
    let r = catch_unwind(AssertUnwindSafe(|| match st.op {
        Cmp => (Out::Bits(x.cmpbits(k)), None),
        ToDec => (Out::Num(x.todec()), None),
        Fmt => {
            let (kind, spec, width) = fmt_decode(st.n);
            (Out::Text(x.fmt(kind, spec, width)), None)
        }
        Parse => {
            let t = x.fmt(st.form, 0, 0);
            let t = if st.form > 0 { format!("0x{}", t) } else { t };
            match N::parse(&t) {
                Ok(v) => (Out::Num(v.dg()), Some(v)),
                Err(e) => (Out::Err(e, vec![]), None),
            }
        }
        _ => {
            let v = x.live(st.op, st.form, k, st.n);
            (Out::Num(v.dg()), Some(v))
        }
    }));
    r.unwrap_or((Out::Panic, None))
}

fn is_move(op: Op) -> bool {
    !matches!(op, Cmp | ToDec | Fmt)
}

/// Is the object in canonical form and consistent with itself?
pub fn canonical<N: Num>(v: &N) -> Result<(), String> {
    let d = v.dg();
    let r = <N::X as Radix>::R;
    if d.iter().any(|&x| x as u128 >= r) {
        return Err("digit not below the radix".into());
    }
    if d.last() == Some(&0) {
        return Err("leading zero digit".into());
    }
    let fresh = match catch_unwind(AssertUnwindSafe(|| N::mk(&d))) {
        Ok(f) => f,
        // construction from digits is the business of another property
        Err(_) => return Ok(()),
    };
    if fresh.dg() != d {
        return Err("digits differ from those of a number made from them".into());
    }
    if v.nrd() != fresh.nrd() {
        return Err(format!("nr_digits is {}, that of a number made from the same digits {}", v.nrd(), fresh.nrd()));
    }
    if v.is_zero_() != fresh.is_zero_() || v.is_zero_() != d.is_empty() {
        return Err(format!("is_zero is {}", v.is_zero_()));
    }
    let c = catch_unwind(AssertUnwindSafe(|| (v.cmpbits(&fresh), fresh.cmpbits(&fresh))));
    match c {
        Ok((a, b)) if a == b => Ok(()),
        Ok((a, b)) => Err(format!("compares as {:#b} with a number made from the same digits, which compares as {:#b} with itself", a, b)),
        Err(_) => Ok(()),
    }
}

/// What is checked at a step
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Watch {
    /// The outcome is that of the model
    Value,
    /// The result is in canonical form, whatever its value
    Canon,
}

struct Node<N> {
    v: Vec<u64>,
    x: N,
    from: usize,
    by: usize,
}

fn history<N: Num>(nodes: &[Node<N>], mut i: usize, steps: &[Step], last: Option<&Step>) -> (Vec<u64>, Vec<String>) {
    let mut t = vec![];
    if let Some(s) = last {
        t.push(s.text());
    }
    while nodes[i].by != usize::MAX {
        t.push(steps[nodes[i].by].text());
        i = nodes[i].from;
    }
    t.reverse();
    (nodes[i].v.clone(), t)
}

fn case<N: Num>(watch: Watch, start: &[u64], steps: &[String]) -> String {
    format!("kind=history type={} watch={:?} start={} steps={}", N::NAME, watch, digits_text(start), steps.join(";"))
}

/// Judge one transition: None if fine, else what was got and wanted.
fn judge<N: Num>(watch: Watch, out: &Out, obj: Option<&N>, want: &Out) -> Option<(String, String)> {
    match watch {
        Watch::Value => {
            if out != want {
                return Some((out.show(), want.show()));
            }
            None
        }
        Watch::Canon => match obj {
            None => None,
            Some(o) => match canonical(o) {
                Ok(()) => None,
                Err(e) => Some((format!("{} ({})", out.show(), e), format!("canonical form, as {}", want.show()))),
            },
        },
    }
}

/// All histories of `depth` moves from `start` (first move `first`, if given), followed by all
/// probes in each state. Moves whose operation is in `strict` and probes are checked; other moves only serve to
/// reach states, and if one of them does not give the value of the model, a number with that value
/// takes its place.
#[allow(clippy::too_many_arguments)]
pub fn bfs<N: Num>(
    w: &mut W,
    watch: Watch,
    start: &[u64],
    moves: &[Step],
    probes: &[Step],
    strict: &[Op],
    first: Option<usize>,
    depth: usize,
    cap: usize,
    visit: Option<&'static str>,
) {
    let mk = |d: &[u64]| catch_unwind(AssertUnwindSafe(|| N::mk(d)));
    let x0 = match mk(start) {
        Ok(x) => x,
        Err(_) => return,
    };
    let mks = |l: &[Step]| -> Vec<Option<N>> { l.iter().map(|s| mk(&s.k).ok()).collect() };
    let (mk_, pk) = (mks(moves), mks(probes));
    let mut nodes = vec![Node { v: start.to_vec(), x: x0, from: 0, by: usize::MAX }];
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    seen.insert(start.to_vec());
    let mut lo = 0;
    for level in 0..=depth {
        let hi = nodes.len();
        for i in lo..hi {
            let all = (0..moves.len()).map(|j| (true, j)).chain((0..probes.len()).map(|j| (false, j)));
            for (mv, j) in all {
                if w.stopped() {
                    return;
                }
                if mv && (level == depth || level == 0 && first.is_some_and(|f| f != j)) {
                    continue;
                }
                // the probes at the start are those of one job only
                if !mv && level == 0 && first.is_some_and(|f| f != 0) {
                    continue;
                }
                let (st, k) = if mv { (&moves[j], &mk_[j]) } else { (&probes[j], &pk[j]) };
                let k = match k {
                    Some(k) => k,
                    None => continue,
                };
                let want = model::<N>(st, &nodes[i].v);
                let check = !mv || strict.contains(&st.op);
                if mv && !check && want == Out::Panic {
                    continue;
                }
                // an operation that cannot be represented: too large
                if let Out::Num(v) = &want {
                    if v.len() > cap {
                        continue;
                    }
                }
                if w.tracing() {
                    let (s, t) = history(&nodes, i, moves, Some(st));
                    w.trace(&case::<N>(watch, &s, &t));
                }
                let (out, obj) = step::<N>(st, k, nodes[i].x.clone());
                w.beat();
                w.transitions += 1;
                if level + 1 >= depth && visit.is_none() {
                    w.traces += 1;
                }
                if check {
                    if let Some((got, want)) = judge(watch, &out, obj.as_ref(), &want) {
                        let (s, t) = history(&nodes, i, moves, Some(st));
                        w.fail(t.len() * 1000 + s.len(), case::<N>(watch, &s, &t), got, want);
                        return;
                    }
                    // the object that was cloned
                    if watch == Watch::Value && !nodes[i].x.same(&nodes[i].v) {
                        let (s, t) = history(&nodes, i, moves, Some(st));
                        let got = format!("the original of the clone became {}", digits_text(&nodes[i].x.dg()));
                        w.fail(t.len() * 1000 + s.len(), case::<N>(watch, &s, &t), got, "an unchanged original".into());
                        return;
                    }
                }
                if mv && is_move(st.op) {
                    if let Out::Num(v) = want {
                        if seen.insert(v.clone()) {
                            let x = match obj {
                                Some(o) if o.same(&v) => o,
                                _ => match mk(&v) {
                                    Ok(x) => x,
                                    Err(_) => continue,
                                },
                            };
                            if w.samples.len() < 2 && level > 1 && nodes.len() % 97 == 5 {
                                let (s, t) = history(&nodes, i, moves, Some(st));
                                w.sample(|| case::<N>(watch, &s, &t));
                            }
                            if level + 1 == depth && probes.is_empty() && visit.is_none() {
                                // nothing is done in it any more
                                w.states += 1;
                                continue;
                            }
                            nodes.push(Node { v, x, from: i, by: j });
                        }
                    }
                }
            }
            if let Some(prop) = visit {
                // the start is that of one job only
                if level > 0 || first.is_none_or(|f| f == 0) {
                    let text = |kind: &str| {
                        let (s, t) = history(&nodes, i, moves, None);
                        let t = if t.is_empty() { "-".into() } else { t.join(";") };
                        format!("kind={} type={} prop={} start={} steps={}", kind, N::NAME, prop, digits_text(&s), t)
                    };
                    if w.tracing() {
                        let t = text("visit");
                        w.trace(&t);
                    }
                    w.beat();
                    let (n, bad) = visit_state::<N>(prop, &nodes[i].x, &nodes[i].v);
                    w.evals += n;
                    w.traces += 1;
                    if let Some((got, want)) = bad {
                        w.fail(level * 1000 + nodes[i].v.len(), text("visit"), got, want);
                        return;
                    }
                }
            }
            w.states += 1;
            w.fingerprint(hash(N::WBITS as u64 + 256 * N::BIN as u64, &nodes[i].v));
        }
        lo = hi;
    }
}

/// What is checked in a state of a history, for the properties that are not about the outcome of a
/// single operation: the number of operations performed, and what is wrong.
fn visit_state<N: Num>(prop: &str, x: &N, v: &[u64]) -> (u64, Option<(String, String)>) {
    let mut n = 0;
    let mk = |d: &[u64]| catch_unwind(AssertUnwindSafe(|| N::mk(d))).ok();
    match prop {
        "C15" => {
            let mut check = |op: Op, k: &N, b: &[u64], w: u64| -> Option<(String, String)> {
                let g = Args { a: v, b, n: w, s: "" };
                let (m, bad) = crate::engine::forms_check_on::<N>(op, &mut || x.clone(), &mut || k.clone(), g);
                n += m;
                bad.map(|(f, got, want)| {
                    (
                        format!("{} for {:?} form {} with {} {}", got, op, forms(op)[f as usize], digits_text(b), w),
                        format!("{} for {:?} of {}", want, op, digits_text(v)),
                    )
                })
            };
            let bad = 'a: {
                for op in [Add, Sub, Mul, Div, Rem] {
                    for b in consts::<N>() {
                        if let Some(k) = mk(&b) {
                            if let Some(e) = check(op, &k, &b, 0) {
                                break 'a Some(e);
                            }
                        }
                    }
                    if let Some(e) = check(op, x, v, 0) {
                        break 'a Some(e);
                    }
                }
                for op in [AddW, SubW, MulW, DivW, RemW] {
                    for w in words_of::<N>() {
                        if let Some(e) = check(op, x, v, w) {
                            break 'a Some(e);
                        }
                    }
                }
                for op in [Shl, Shr] {
                    for w in [0, 1, 7, 8, 64, 129] {
                        if let Some(e) = check(op, x, v, w) {
                            break 'a Some(e);
                        }
                    }
                }
                for w in 0..4 {
                    if v.len() < 60 {
                        if let Some(e) = check(Pow, x, v, w) {
                            break 'a Some(e);
                        }
                    }
                }
                for op in [Square, ToDec, Fmt, Cmp] {
                    if op != ToDec || N::BIN {
                        if let Some(e) = check(op, x, v, 0) {
                            break 'a Some(e);
                        }
                    }
                }
                None
            };
            (n, bad)
        }
        "C16" => {
            // zero made, and zero that is left of a subtraction
            let left = catch_unwind(AssertUnwindSafe(|| {
                let mut z = x.clone();
                z.sub_(x);
                z
            }))
            .ok()
            .filter(|z| z.same(&[]));
            for z in [mk(&[]), left].into_iter().flatten() {
                let fs: &[u8] = if v.is_empty() { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 3, 4, 5] };
                for op in [Div, Rem, DivW, RemW, DivBig, RemBig] {
                    let fs = match op {
                        Div | Rem => fs,
                        DivW | RemW => &fs[..6],
                        _ => &fs[..1],
                    };
                    for &f in fs {
                        let g = Args { a: v, b: &[], n: 0, s: "" };
                        let want = expect::<N>(op, f, g, None);
                        let got = guarded(|| exec_on::<N>(op, f, &mut || x.clone(), &mut || z.clone(), g));
                        n += 1;
                        if got != want {
                            return (n, Some((format!("{} for {:?} form {}", got.show(), op, forms(op)[f as usize]), want.show())));
                        }
                    }
                }
                // after the error, the operand does as one that has not been through it
                for op in [DivBig, RemBig] {
                    let mut y = x.clone();
                    let _ = guarded(|| {
                        if op == DivBig {
                            let _ = y.divbig(&z);
                        } else {
                            let _ = y.rembig(&z);
                        }
                        Out::Panic
                    });
                    for b in consts::<N>() {
                        let k = match mk(&b) {
                            Some(k) => k,
                            None => continue,
                        };
                        for then in [Add, Sub, Mul, Div, Rem, Cmp] {
                            let g = Args { a: v, b: &b, n: 0, s: "" };
                            let a1 = guarded(|| exec_on::<N>(then, 5 * (then != Cmp) as u8, &mut || y.clone(), &mut || k.clone(), g));
                            let a2 = guarded(|| exec_on::<N>(then, 5 * (then != Cmp) as u8, &mut || x.clone(), &mut || k.clone(), g));
                            n += 2;
                            if a1 != a2 {
                                return (n, Some((
                                    format!("{} by {:?} of {} after {:?} by zero", a1.show(), then, digits_text(&b), op),
                                    format!("{} as without it", a2.show()),
                                )));
                            }
                        }
                    }
                }
            }
            (n, None)
        }
        "C19" => {
            let d = x.dg();
            for zeros in [0, 1, 2, 17] {
                let mut l = d.clone();
                l.resize(d.len() + zeros, 0);
                let g = Args { a: &l, b: &[], n: 0, s: "" };
                let want = expect::<N>(New, 0, g, None);
                let got = exec::<N>(New, 0, g);
                n += 1;
                if got != want {
                    return (n, Some((got.show(), want.show())));
                }
            }
            (n, None)
        }
        _ => unreachable!(),
    }
}

pub fn replay_visit<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let mut v = digits_parse(&kv["start"]);
    let mut x = N::mk(&v);
    if kv["steps"] != "-" {
        for st in kv["steps"].split(';').map(Step::parse) {
            let (_, obj) = step::<N>(&st, &N::mk(&st.k), x);
            v = match model::<N>(&st, &v) {
                Out::Num(n) => n,
                _ => return (true, "history ends early".into(), String::new()),
            };
            x = match obj {
                Some(o) if o.same(&v) => o,
                _ => N::mk(&v),
            };
        }
    }
    match visit_state::<N>(&kv["prop"], &x, &v).1 {
        Some((g, w)) => (false, g, w),
        None => (true, "as it should be".into(), "as it should be".into()),
    }
}

/// The states reached by histories, each visited with the checks of a property
pub fn visits<N: Num>(p: &mut Plan, prop: &'static str) {
    let ms = Arc::new(moves::<N>());
    let depth = if prop == "C19" { 3 } else { 2 };
    let cap = p.pick(90, 300);
    for s in starts::<N>() {
        for f in 0..ms.len() {
            let (ms, s) = (ms.clone(), s.clone());
            p.job(&format!("{} histories", N::NAME), move |w| {
                bfs::<N>(w, Watch::Value, &s, &ms, &[], &[], Some(f), depth, cap, Some(prop));
            });
        }
    }
}

/// Replay of a history
pub fn replay<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let watch = if kv["watch"] == "Canon" { Watch::Canon } else { Watch::Value };
    let mut v = digits_parse(&kv["start"]);
    let mut x = N::mk(&v);
    let steps: Vec<Step> = kv["steps"].split(';').map(Step::parse).collect();
    for (i, st) in steps.iter().enumerate() {
        let want = model::<N>(st, &v);
        let orig = x.clone();
        let (out, obj) = step::<N>(st, &N::mk(&st.k), x);
        let name = format!("step {} ({:?}, form {})", i + 1, st.op, st.name());
        if i + 1 == steps.len() || watch == Watch::Canon {
            if let Some((got, want)) = judge(watch, &out, obj.as_ref(), &want) {
                return (false, format!("{}: {}", name, got), want);
            }
            if watch == Watch::Value && !orig.same(&v) {
                return (false, format!("{}: the original of the clone changed", name), "an unchanged original".into());
            }
        }
        if i + 1 == steps.len() {
            return (true, out.show(), want.show());
        }
        match want {
            Out::Num(n) => {
                v = n;
                x = match obj {
                    Some(o) if o.same(&v) => o,
                    _ => N::mk(&v),
                };
            }
            _ => return (true, "history ends early".into(), String::new()),
        }
    }
    (true, String::new(), String::new())
}

fn r<N: Num>() -> u128 {
    <N::X as Radix>::R
}

/// The moves by which states are reached: all operations, all forms, operands of several sizes
pub fn moves<N: Num>() -> Vec<Step> {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    let wb = N::WBITS as u64;
    let wmax = if wb == 64 { u64::MAX } else { (1 << wb) - 1 };
    vec![
        big(Add, 3, vec![1]),
        big(Mul, 3, vec![m]),
        num(Square, 0, 0),
        big(Sub, 5, vec![1]),
        num(Shl, 2, 8 * wb + 3),
        big(Add, 5, generic(r, 31, 7)),
        big(Sub, 3, vec![0, 1]),
        big(Div, 3, vec![h, 1]),
        big(Mul, 4, generic(r, 32, 11)),
        num(AddW, 5, wmax),
        num(Shr, 1, 1),
        big(Sub, 2, generic(r, 31, 7)),
        big(Add, 0, vec![m; 3]),
        big(DivBig, 0, generic(r, 33, 5)),
        num(SubW, 4, wmax),
        big(Mul, 1, vec![m; 22]),
        num(Shr, 2, 5 * wb + 1),
        big(Rem, 5, generic(r, 34, 4)),
        num(MulW, 2, m),
        big(Sub, 6, vec![]),
        num(DivW, 5, 3),
        num(Pow, 1, 3),
        big(Add, 6, vec![]),
        big(Sub, 0, vec![m; 2]),
        num(Shl, 0, 1),
        big(DivBig, 1, vec![0, 0, 1]),
        big(Sub, 7, vec![]),
        num(SubW, 2, 1),
        big(RemBig, 0, generic(r, 35, 21)),
        big(Mul, 7, vec![]),
        num(Parse, 0, 0),
        big(Div, 7, vec![]),
        big(Mul, 2, vec![0, 0, 0, 1]),
        num(RemW, 3, wmax),
        big(Rem, 7, vec![]),
        num(DivW, 1, m),
        big(Add, 2, vec![m, m]),
        num(AddW, 1, m),
    ]
}

/// The states from which histories start
pub fn starts<N: Num>() -> Vec<Vec<u64>> {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let mut one21 = vec![0; 22];
    one21[21] = 1;
    vec![vec![], vec![1], vec![m; 20], generic(r, 41, 41), one21]
}

fn words_of<N: Num>() -> Vec<u64> {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let wmax = if N::WBITS == 64 { u64::MAX } else { (1 << N::WBITS) - 1 };
    vec![1, 2, m, wmax, wmax - 1, (wmax / 2) + 1, if r > wmax as u128 { m - 1 } else { r as u64 }]
}

fn consts<N: Num>() -> Vec<Vec<u64>> {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let h = (r / 2) as u64;
    vec![
        vec![1],
        vec![m],
        vec![h, 1],
        vec![m, m],
        vec![0, 1],
        generic(r, 31, 7),
        vec![m; 9],
        generic(r, 51, 21),
        vec![m; 40],
        vec![],
    ]
}

/// The operations whose outcome a property is about, with which all states are probed
pub fn probes<N: Num>(prop: &str) -> (Vec<Step>, Vec<Op>) {
    let r = r::<N>();
    let wb = N::WBITS as u64;
    let all = |ops: &[Op], fs: &[u8], skip0: bool| -> Vec<Step> {
        let mut v = vec![];
        for &op in ops {
            for k in consts::<N>() {
                if skip0 && k.is_empty() {
                    continue;
                }
                for &f in fs {
                    v.push(big(op, f, k.clone()));
                }
            }
        }
        v
    };
    let f6: &[u8] = &[0, 1, 2, 3, 4, 5];
    let words = words_of::<N>();
    match prop {
        "C01" => (
            [all(&[Add], f6, false), vec![big(Add, 6, vec![]), big(Add, 7, vec![])]].concat(),
            vec![Add],
        ),
        "C02" => (
            [all(&[Sub], f6, false), vec![big(Sub, 6, vec![]), big(Sub, 7, vec![])]].concat(),
            vec![Sub],
        ),
        "C03" => (
            [all(&[Mul], f6, false), vec![big(Mul, 6, vec![]), big(Mul, 7, vec![])]].concat(),
            vec![Mul],
        ),
        "C04" => (
            vec![num(Square, 0, 0)].into_iter().chain((0..6).flat_map(|e| [num(Pow, 0, e), num(Pow, 1, e)])).collect(),
            vec![Square, Pow],
        ),
        "C05" => (
            [
                all(&[Div, Rem], &[0, 2, 3, 5], true),
                all(&[DivBig], &[0, 1], true),
                all(&[RemBig], &[0], true),
            ]
            .concat(),
            vec![Div, Rem, DivBig, RemBig],
        ),
        "C06" => {
            let mut v = vec![];
            for op in [AddW, SubW, MulW, DivW, RemW] {
                for &n in &words {
                    for f in if (n as u128) < r { 0..6 } else { 3..6 } {
                        v.push(num(op, f, n));
                    }
                }
            }
            (v, vec![AddW, SubW, MulW, DivW, RemW])
        }
        "C07" | "C08" => {
            let op = if prop == "C07" { Shl } else { Shr };
            let mut v = vec![];
            for n in [0, 1, 2, wb - 1, wb, wb + 1, 3 * wb, 63, 64, 65, 17 * wb + 3, 100] {
                for f in 0..3 {
                    v.push(num(op, f, n));
                }
            }
            (v, vec![op])
        }
        "C10" => (all(&[Cmp], &[0], false), vec![Cmp]),
        "C11" => (
            if N::BIN { vec![num(Parse, 0, 0), num(Parse, 1, 0), num(Parse, 2, 0)] } else { vec![num(Parse, 0, 0)] },
            vec![Parse],
        ),
        "C12" => {
            let kinds = if N::BIN { 3 } else { 1 };
            let mut v = vec![];
            for k in 0..kinds {
                for s in 0..crate::text::SPECS.len() as u64 {
                    for width in [0, 1, 30] {
                        v.push(num(Fmt, 0, fmt_code(k, s, width)));
                    }
                }
            }
            (v, vec![Fmt])
        }
        "C13" => (if N::BIN { vec![num(ToDec, 0, 0)] } else { vec![] }, vec![ToDec]),
        "C18" => (
            [
                all(&[Mul], &[3], false),
                vec![num(Square, 0, 0), num(Pow, 1, 3)],
                all(&[DivBig], &[0, 1], true),
                if N::BIN { vec![num(ToDec, 0, 0)] } else { vec![] },
            ]
            .concat(),
            vec![Mul, Square, Pow, Div, Rem, DivBig, RemBig, ToDec],
        ),
        _ => (vec![], vec![]),
    }
}

/// States reached by histories, each probed with the operations of a property
pub fn layer<N: Num>(p: &mut Plan, prop: &'static str) {
    let (pr, strict) = probes::<N>(prop);
    if pr.is_empty() {
        return;
    }
    let ms = Arc::new(moves::<N>());
    let pr = Arc::new(pr);
    let strict = Arc::new(strict);
    let heavy = matches!(prop, "C04" | "C05" | "C12" | "C13" | "C18");
    let depth = p.pick(2, if heavy { 2 } else { 3 });
    let cap = match (prop, p.thorough) {
        ("C12", _) => 60,
        ("C04", false) => 150,
        ("C04", true) => 400,
        (_, t) => {
            if t {
                300
            } else {
                130
            }
        }
    };
    for s in starts::<N>() {
        for f in 0..ms.len() {
            let (ms, pr, strict, s) = (ms.clone(), pr.clone(), strict.clone(), s.clone());
            p.job(&format!("{} histories", N::NAME), move |w| {
                bfs::<N>(w, Watch::Value, &s, &ms, &pr, &strict, Some(f), depth, cap, None);
            });
        }
    }
}

/// C09: canonical form after every history
pub fn c09<N: Num>(p: &mut Plan) {
    let mut ms = moves::<N>();
    let depth = p.pick(2, 3);
    let cap = p.pick(100, 160);
    let strict: Arc<Vec<Op>> = Arc::new(ALL_OPS.to_vec());
    let wide: Vec<Step> = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"].iter().flat_map(|q| probes::<N>(q).0).collect();
    let wide = Arc::new(wide);
    let msa = Arc::new(ms.clone());
    for s in starts::<N>() {
        for f in 0..ms.len() {
            let (ms, wide, strict, s) = (msa.clone(), wide.clone(), strict.clone(), s.clone());
            p.job(&format!("{} histories and all operations", N::NAME), move |w| {
                bfs::<N>(w, Watch::Canon, &s, &ms, &wide, &strict, Some(f), 2, cap, None);
            });
        }
    }
    // deeper, with fewer moves
    let keep = p.pick(26, 38);
    ms.truncate(keep);
    let ms = Arc::new(ms);
    for s in starts::<N>() {
        for f in 0..ms.len() {
            let (ms, strict, s) = (ms.clone(), strict.clone(), s.clone());
            p.job(&format!("{} deeper histories", N::NAME), move |w| {
                bfs::<N>(w, Watch::Canon, &s, &ms, &[], &strict, Some(f), depth + 1, cap, None);
            });
        }
    }
    // small values exhaustively: every operation of every pair
    let r = r::<N>();
    let small: Vec<Vec<u64>> = if r <= 256 { all_values(r, p.pick(400, 1500)) } else { words(&alphabet(r, p.pick(5, 7)), 3) };
    let mut pr = vec![];
    for k in small.iter() {
        for op in [Add, Sub, Mul, Div, Rem] {
            if !(k.is_empty() && matches!(op, Div | Rem)) {
                pr.push(big(op, 3 + 2 * (k.len() as u8 % 2), k.clone()));
            }
        }
    }
    let pr = Arc::new(pr);
    let small = Arc::new(small);
    for c in (0..small.len()).step_by(8) {
        let (pr, small) = (pr.clone(), small.clone());
        p.job(&format!("{} all small pairs", N::NAME), move |w| {
            for x in &small[c..(c + 8).min(small.len())] {
                bfs::<N>(w, Watch::Canon, x, &[], &pr, &[], None, 0, usize::MAX, None);
            }
        });
    }
    // sums minus parts: cancellation of leading digits
    let mut xs = words(&alphabet(r, 4), 3);
    for n in 4..p.pick(24, 60) {
        xs.extend(long_shapes(r, n).into_iter().take(p.pick(6, 11)));
    }
    let xs = Arc::new(dedup(xs));
    for c in (0..xs.len()).step_by(6) {
        let xs = xs.clone();
        p.job(&format!("{} sums minus parts", N::NAME), move |w| {
            for x in &xs[c..(c + 6).min(xs.len())] {
                for y in xs.iter() {
                    let s = refn::add::<N::X>(x, y);
                    bfs::<N>(w, Watch::Canon, &s, &[], &[big(Sub, 5, y.clone()), big(Sub, 2, x.clone())], &[], None, 0, usize::MAX, None);
                }
            }
        });
    }
}

// ---------------------------------------------------------------------------------------------
// C14: the eight types in lockstep

trait Lane: Send + Sync {
    fn name(&self) -> &'static str;
    /// The outcome: None is a panic. With the successor, its value and the results of comparing it
    /// with its predecessor.
    fn go(&self, i: usize) -> Option<(Box<dyn Lane>, Vec<u64>, u64)>;
    fn todec_digits(&self) -> Option<Option<Vec<u64>>>;
    fn digits(&self) -> Vec<u64>;
    fn reset(&self, v: &[u64]) -> Box<dyn Lane>;
}

struct L<N: Num> {
    x: N,
    steps: Arc<Vec<(Step, N)>>,
}

impl<N: Num> Lane for L<N> {
    fn name(&self) -> &'static str {
        N::NAME
    }
    fn go(&self, i: usize) -> Option<(Box<dyn Lane>, Vec<u64>, u64)> {
        let (st, k) = &self.steps[i];
        let (_, obj) = step::<N>(st, k, self.x.clone());
        let obj = obj?;
        let v = refn::conv::<N::X, refn::R64>(&obj.dg());
        let c = catch_unwind(AssertUnwindSafe(|| obj.cmpbits(&self.x))).ok()?;
        Some((Box::new(L { x: obj, steps: self.steps.clone() }), v, c))
    }
    fn todec_digits(&self) -> Option<Option<Vec<u64>>> {
        if N::BIN {
            Some(catch_unwind(AssertUnwindSafe(|| self.x.todec())).ok())
        } else {
            None
        }
    }
    fn digits(&self) -> Vec<u64> {
        self.x.dg()
    }
    fn reset(&self, v: &[u64]) -> Box<dyn Lane> {
        Box::new(L { x: N::mk(&refn::conv::<refn::R64, N::X>(v)), steps: self.steps.clone() })
    }
}

fn lane<N: Num>(v: &[u64], steps: &[Step]) -> Box<dyn Lane> {
    let c = |d: &[u64]| refn::conv::<refn::R64, N::X>(d);
    let steps: Vec<(Step, N)> = steps.iter().map(|s| (s.clone(), N::mk(&c(&s.k)))).collect();
    Box::new(L { x: N::mk(&c(v)), steps: Arc::new(steps) })
}

fn lanes(v: &[u64], steps: &[Step]) -> Option<Vec<Box<dyn Lane>>> {
    use babs::*;
    catch_unwind(AssertUnwindSafe(|| {
        vec![
            lane::<UBigBin8>(v, steps),
            lane::<UBigBin16>(v, steps),
            lane::<UBigBin32>(v, steps),
            lane::<UBigBin64>(v, steps),
            lane::<UBigDec8>(v, steps),
            lane::<UBigDec16>(v, steps),
            lane::<UBigDec32>(v, steps),
            lane::<UBigDec64>(v, steps),
        ]
    }))
    .ok()
}

/// An integer of `bits` bits without structure
fn gint(seed: u64, bits: usize) -> Vec<u64> {
    let mut v = generic(1 << 64, seed, (bits + 63) / 64);
    if let Some(t) = v.last_mut() {
        let k = (bits - 1) % 64;
        *t = (*t & ((1u128 << (k + 1)) - 1) as u64) | 1 << k;
    }
    v
}

fn ones(bits: usize) -> Vec<u64> {
    refn::sub::<refn::R64>(&refn::shl::<refn::R64>(&[1], bits), &[1]).unwrap()
}
fn ten(e: usize) -> Vec<u64> {
    refn::pow::<refn::R64>(&[10], e)
}

pub fn int_moves() -> Vec<Step> {
    vec![
        num(Square, 0, 0),
        big(Add, 3, vec![1]),
        big(Mul, 3, gint(1, 64)),
        big(Sub, 5, vec![1]),
        num(Shl, 2, 160),
        big(Mul, 5, ten(19)),
        big(Div, 3, gint(2, 50)),
        big(Sub, 3, gint(3, 100)),
        num(Shr, 2, 71),
        big(Mul, 1, gint(4, 170)),
        big(DivBig, 0, gint(5, 165)),
        big(Rem, 5, gint(6, 330)),
        num(MulW, 5, 255),
        big(Add, 5, ones(200)),
        num(DivW, 4, 100),
        big(Mul, 4, gint(7, 1100)),
        big(DivBig, 1, ten(40)),
        num(SubW, 5, 200),
        num(Shl, 0, 1),
        big(Div, 1, ones(320)),
        big(Sub, 2, ten(20)),
        num(AddW, 3, 251),
        num(Pow, 1, 3),
        num(Parse, 0, 0),
        big(RemBig, 0, ones(64)),
        big(Add, 6, vec![]),
        num(Shr, 1, 1),
        num(RemW, 3, 97),
        big(Div, 5, gint(8, 700)),
        big(Mul, 7, vec![]),
    ]
}

pub fn int_starts() -> Vec<Vec<u64>> {
    vec![vec![], vec![1], ten(19), ones(160), gint(20, 700), ten(80), gint(21, 1400)]
}

fn lock_case(start: &[u64], steps: &[&Step]) -> String {
    let t: Vec<String> = steps.iter().map(|s| s.text()).collect();
    format!("kind=lockstep start={} steps={}", digits_text(start), t.join(";"))
}

/// One step of all lanes. `want` is the value by the model, used only to tell which lane is wrong.
fn lock_step(ls: &[Box<dyn Lane>], i: usize, want: &[u64]) -> Result<Vec<Box<dyn Lane>>, (String, String)> {
    let mut out = vec![];
    let mut vals = vec![];
    for l in ls {
        match l.go(i) {
            None => return Err((format!("a panic in {}", l.name()), "no panic".into())),
            Some((n, v, c)) => {
                out.push(n);
                vals.push((v, c));
            }
        }
    }
    if let Some(j) = vals.iter().position(|v| v != &vals[0]) {
        let (j, o) = if vals[0].0 != want { (0, j) } else { (j, 0) };
        return Err((
            format!("{} in {}, compared {:#b} (base 2^64)", digits_text(&vals[j].0), ls[j].name(), vals[j].1),
            format!("{} as in {}, compared {:#b}", digits_text(&vals[o].0), ls[o].name(), vals[o].1),
        ));
    }
    for (j, l) in out.iter().enumerate() {
        if let Some(d) = l.todec_digits() {
            // the decimal type of the same storage
            let want = out[j + 4].digits();
            match d {
                None => return Err((format!("a panic in to_decimal of {}", l.name()), "no panic".into())),
                Some(d) if d != want => {
                    return Err((
                        format!("{} by conversion of {} to decimal", digits_text(&d), l.name()),
                        format!("{} as in {}", digits_text(&want), out[j + 4].name()),
                    ))
                }
                _ => {}
            }
        }
    }
    if vals[0].0 != want {
        // all agree on something else: not the business of this property
        return Ok(ls.iter().map(|l| l.reset(want)).collect());
    }
    Ok(out)
}

fn int_model(st: &Step, v: &[u64]) -> Out {
    model::<babs::UBigBin64>(st, v)
}

pub fn c14(p: &mut Plan) {
    let depth = p.pick(3, 4);
    let cap = p.pick(36, 40);
    let mut ms = int_moves();
    if !p.thorough {
        ms.truncate(26);
    }
    let ms = Arc::new(ms);
    for s in int_starts() {
        for f in 0..ms.len() {
            let (ms, s) = (ms.clone(), s.clone());
            p.job("lockstep", move |w| lock_bfs(w, &s, &ms, f, depth, cap));
        }
    }
    lock_pairs(p);
    // larger numbers, shorter histories
    let (d2, c2) = (2, p.pick(100, 330));
    let ms = Arc::new(int_moves());
    for s in [gint(30, 2700), ten(600), gint(31, 5300)] {
        for f in 0..ms.len() {
            let (ms, s) = (ms.clone(), s.clone());
            p.job("lockstep, large numbers", move |w| lock_bfs(w, &s, &ms, f, d2, c2));
        }
    }
}

/// Integers of all sizes
fn int_list(p: &Plan) -> Vec<Vec<u64>> {
    type R = refn::R64;
    let mut v: Vec<Vec<u64>> = vec![vec![], vec![1], vec![2], vec![3], vec![99], vec![100], vec![101], vec![255], vec![256]];
    let bits: Vec<usize> = if p.thorough {
        (1..=200).chain((201..=3000).step_by(37)).collect()
    } else {
        [8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127, 128, 129, 160, 161, 190, 256, 320, 330, 500, 640, 700, 1100, 1281, 2000, 2600].to_vec()
    };
    for b in bits {
        let x = refn::shl::<R>(&[1], b);
        v.push(refn::sub::<R>(&x, &[1]).unwrap());
        v.push(gint(40, b));
        if p.thorough || b % 2 == 0 {
            v.push(refn::add::<R>(&x, &[1]));
            v.push(x);
        }
    }
    for e in [1, 2, 3, 4, 5, 8, 9, 10, 18, 19, 20, 27, 36, 38, 39, 57, 76, 90, 160, 190, 380, 400, 600] {
        let x = ten(e);
        v.push(refn::sub::<R>(&x, &[1]).unwrap());
        if p.thorough || e % 2 == 1 {
            v.push(refn::add::<R>(&x, &[1]));
        }
        v.push(x);
    }
    crate::pat::dedup(v)
}

/// All pairs of integers, every operation, on all types
fn lock_pairs(p: &mut Plan) {
    let xs = int_list(p);
    let mut steps = vec![];
    for y in &xs {
        for op in [Add, Sub, Mul] {
            steps.push(big(op, [3, 5, 0, 2][steps.len() % 4], y.clone()));
        }
        if !y.is_empty() {
            steps.push(big(DivBig, 0, y.clone()));
            steps.push(big(DivBig, 1, y.clone()));
            steps.push(big(RemBig, 0, y.clone()));
        }
    }
    for n in (0..=130).chain((131..=1400).step_by(19)) {
        steps.push(num(Shl, [0, 1, 2][n % 3], n as u64));
        steps.push(num(Shr, [2, 0, 1][n % 3], n as u64));
    }
    for n in 0..256 {
        for op in [AddW, SubW, MulW, DivW, RemW] {
            if n > 0 && (n < 12 || n % 3 == 0 || (95..103).contains(&n) || n > 250) {
                steps.push(num(op, 3 + (n % 3) as u8, n));
            }
        }
    }
    for e in 0..12 {
        steps.push(num(Pow, (e % 2) as u8, e));
    }
    steps.extend([num(Square, 0, 0), num(Parse, 0, 0), big(Add, 7, vec![]), big(Mul, 6, vec![]), big(Sub, 6, vec![]), big(Div, 7, vec![])]);
    let steps = Arc::new(steps);
    let xs = Arc::new(xs);
    let all = 40;
    for c in (0..steps.len()).step_by(all) {
        let (xs, steps) = (xs.clone(), steps.clone());
        p.job("all pairs of integers", move |w| {
            let st = &steps[c..(c + all).min(steps.len())];
            let l0 = match lanes(&[], st) {
                Some(l) => l,
                None => return,
            };
            for x in xs.iter() {
                let l: Vec<Box<dyn Lane>> = l0.iter().map(|l| l.reset(x)).collect();
                w.states += 1;
                for (j, s) in st.iter().enumerate() {
                    if w.stopped() {
                        return;
                    }
                    if s.op == Pow && x.len() as u64 * s.n > 60 {
                        continue;
                    }
                    let want = match int_model(s, x) {
                        Out::Num(v) => v,
                        _ => continue,
                    };
                    if w.tracing() {
                        w.trace(&lock_case(x, &[s]));
                    }
                    w.beat();
                    w.transitions += 1;
                    w.traces += 1;
                    if let Err((got, should)) = lock_step(&l, j, &want) {
                        w.fail(x.len(), lock_case(x, &[s]), got, should);
                        return;
                    }
                    w.fingerprint(hash(1400 + c as u64 + j as u64, x));
                }
            }
        });
    }
}

fn lock_bfs(w: &mut W, start: &[u64], ms: &[Step], first: usize, depth: usize, cap: usize) {
    struct Nd {
        v: Vec<u64>,
        l: Vec<Box<dyn Lane>>,
        from: usize,
        by: usize,
    }
    let l0 = match lanes(start, ms) {
        Some(l) => l,
        None => return,
    };
    let mut nodes = vec![Nd { v: start.to_vec(), l: l0, from: 0, by: usize::MAX }];
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    seen.insert(start.to_vec());
    let mut lo = 0;
    for level in 0..depth {
        let hi = nodes.len();
        for i in lo..hi {
            for j in 0..ms.len() {
                if w.stopped() {
                    return;
                }
                if level == 0 && j != first {
                    continue;
                }
                let want = match int_model(&ms[j], &nodes[i].v) {
                    Out::Num(v) if v.len() <= cap => v,
                    _ => continue,
                };
                let hist = || {
                    let mut t = vec![&ms[j]];
                    let mut i = i;
                    while nodes[i].by != usize::MAX {
                        t.push(&ms[nodes[i].by]);
                        i = nodes[i].from;
                    }
                    t.reverse();
                    lock_case(start, &t)
                };
                if w.tracing() {
                    let t = hist();
                    w.trace(&t);
                }
                w.beat();
                w.transitions += 1;
                if level + 1 == depth {
                    w.traces += 1;
                }
                match lock_step(&nodes[i].l, j, &want) {
                    Err((got, should)) => {
                        let t = hist();
                        w.fail(level * 1000 + start.len(), t, got, should);
                        return;
                    }
                    Ok(l) => {
                        if seen.insert(want.clone()) {
                            w.states += 1;
                            w.fingerprint(hash(14, &want));
                            if w.samples.len() < 2 && nodes.len() % 37 == 5 {
                                let t = hist();
                                w.sample(|| t);
                            }
                            if level + 1 < depth {
                                nodes.push(Nd { v: want, l, from: i, by: j });
                            }
                        }
                    }
                }
            }
        }
        lo = hi;
    }
}

pub fn replay_lockstep(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let mut v = digits_parse(&kv["start"]);
    let steps: Vec<Step> = kv["steps"].split(';').map(Step::parse).collect();
    let mut l = match lanes(&v, &steps) {
        Some(l) => l,
        None => return (true, "a panic when a number was made".into(), String::new()),
    };
    for (i, st) in steps.iter().enumerate() {
        let want = match int_model(st, &v) {
            Out::Num(v) => v,
            _ => break,
        };
        match lock_step(&l, i, &want) {
            Err((g, s)) => return (false, format!("step {} ({:?}): {}", i + 1, st.op, g), s),
            Ok(n) => l = n,
        }
        v = want;
    }
    (true, "agreement".into(), "agreement".into())
}

// ---------------------------------------------------------------------------------------------
// C17: laws

pub const LAWS: &[&str] = &[
    "x+y-y",
    "x+y-x",
    "x*y/y",
    "x*y%y",
    "x<<n>>n",
    "x/y*y+x%y",
    "(x+y)^2",
    "(x+y)*z",
    "x+y=y+x",
    "x*y=y*x",
    "(x+y)+z",
    "(x*y)*z",
    "div_assign_big",
    "x-(x-y)",
    "x<<n",
];

/// Evaluate a law on live numbers: both sides, or None if the law does not apply. Panics pass on.
fn law<N: Num>(l: usize, x: &N, y: &N, z: &N, n: usize) -> Option<(N, N)> {
    let yz = y.is_zero_();
    let op = |a: &N, f: fn(&mut N, &N), b: &N| {
        let mut t = a.clone();
        f(&mut t, b);
        t
    };
    let (add, sub, mul, div, rem): (fn(&mut N, &N), fn(&mut N, &N), fn(&mut N, &N), fn(&mut N, &N), fn(&mut N, &N)) =
        (N::add_, N::sub_, N::mul_, N::div_, N::rem_);
    Some(match l {
        0 => (op(&op(x, add, y), sub, y), x.clone()),
        1 => (op(&op(x, add, y), sub, x), y.clone()),
        2 if !yz => (op(&op(x, mul, y), div, y), x.clone()),
        3 if !yz => (op(&op(x, mul, y), rem, y), N::mk(&[])),
        4 => {
            let mut t = x.clone();
            t.shl_(n);
            t.shr_(n);
            (t, x.clone())
        }
        5 if !yz => (op(&op(&op(x, div, y), mul, y), add, &op(x, rem, y)), x.clone()),
        6 => {
            let mut xy = op(x, mul, y);
            xy = op(&xy, add, &xy.clone());
            (op(x, add, y).square_(), op(&op(&x.square_(), add, &xy), add, &y.square_()))
        }
        7 => (op(&op(x, add, y), mul, z), op(&op(x, mul, z), add, &op(y, mul, z))),
        8 => (op(x, add, y), op(y, add, x)),
        9 => (op(x, mul, y), op(y, mul, x)),
        10 => (op(&op(x, add, y), add, z), op(x, add, &op(y, add, z))),
        11 => (op(&op(x, mul, y), mul, z), op(x, mul, &op(y, mul, z))),
        12 if !yz => {
            let mut q = x.clone();
            let r = q.divbig(y).expect("division by a number that is not zero");
            if &r >= y {
                return Some((r, y.clone()));
            }
            (op(&op(&q, mul, y), add, &r), x.clone())
        }
        13 if x >= y => (op(x, sub, &op(x, sub, y)), y.clone()),
        14 => {
            // shifting is multiplication by a power of two
            let mut t = x.clone();
            t.shl_(n);
            let mut p = N::mk(&[1]);
            p.shl_(n);
            (t, op(x, mul, &p))
        }
        _ => return None,
    })
}

fn law_holds<N: Num>(l: usize, x: &N, y: &N, z: &N, n: usize) -> Option<Result<(), (String, String)>> {
    match catch_unwind(AssertUnwindSafe(|| law(l, x, y, z, n).map(|(a, b)| (a == b && a.dg() == b.dg(), a, b)))) {
        Ok(None) => None,
        Ok(Some((true, _, _))) => Some(Ok(())),
        Ok(Some((false, a, b))) => Some(Err((digits_text(&a.dg()), format!("{} (law {})", digits_text(&b.dg()), LAWS[l])))),
        Err(_) => Some(Err((
            format!("a panic ({})", LAST_PANIC.with(|p| p.borrow().clone())),
            format!("no panic (law {})", LAWS[l]),
        ))),
    }
}

pub fn c17<N: Num>(p: &mut Plan) {
    let r = r::<N>();
    let m = (r - 1) as u64;
    let mut ys: Vec<Vec<u64>> = vec![vec![], vec![1], vec![m], vec![0, 1], vec![m, m], vec![1, (r / 2) as u64]];
    ys.push(generic(r, 61, 2));
    ys.push(vec![m; 5]);
    ys.push(generic(r, 62, 11));
    ys.push(generic(r, 63, 20));
    ys.push(vec![m; 21]);
    if p.thorough {
        ys.push(generic(r, 64, 43));
        ys.push({
            let mut v = vec![0; 33];
            v[32] = 1;
            v
        });
        ys.push(vec![m; 129]);
    }
    let ys = Arc::new(ys);
    let ms = Arc::new(moves::<N>());
    let cap = p.pick(70, 200);
    let keep = p.pick(24, ms.len());
    let mut all = vec![];
    for s in starts::<N>() {
        for f in 0..ms.len() {
            all.push((s.clone(), f));
        }
    }
    for (s, f) in all {
        let (ms, ys) = (ms.clone(), ys.clone());
        p.job(&format!("{} laws", N::NAME), move |w| {
            // the states: two moves from the start, by the library where it agrees with the model
            let mut states: Vec<(Vec<u64>, N, Vec<usize>)> = vec![];
            let mut seen = HashSet::new();
            let go = |v: &[u64], x: &N, j: usize| -> Option<(Vec<u64>, N)> {
                match model::<N>(&ms[j], v) {
                    Out::Num(nv) if nv.len() <= cap => {
                        let k = N::mk(&ms[j].k);
                        match step::<N>(&ms[j], &k, x.clone()).1 {
                            // any state the library gets to, also where it is not that of the model
                            Some(o) => Some((o.dg(), o)),
                            _ => None,
                        }
                    }
                    _ => None,
                }
            };
            let x0 = N::mk(&s);
            if f == 0 {
                states.push((s.clone(), x0.clone(), vec![]));
            }
            if let Some((v1, x1)) = go(&s, &x0, f) {
                for j in 0..keep {
                    let v1n = refn::norm(v1.clone());
                    if let Some((v2, x2)) = go(&v1n, &x1, j) {
                        if seen.insert(v2.clone()) {
                            states.push((v2, x2, vec![f, j]));
                        }
                    }
                }
                if seen.insert(v1.clone()) {
                    states.push((v1, x1, vec![f]));
                }
            }
            let yl: Vec<N> = ys.iter().map(|y| N::mk(y)).collect();
            for (v, x, h) in &states {
                w.states += 1;
                w.fingerprint(hash(17 + N::WBITS as u64 * 32 + N::BIN as u64 * 2048, v));
                for (yi, y) in yl.iter().enumerate() {
                    for l in 0..LAWS.len() {
                        let ns: &[usize] = match l {
                            4 => &[0, 1, 7, 8, 9, 31, 32, 33, 63, 64, 65, 200, 1281],
                            14 => &[0, 1, 9, 64, 129, 700],
                            _ => &[0],
                        };
                        if l % 10 == 4 && yi > 0 {
                            continue;
                        }
                        let nz = if matches!(l, 7 | 10 | 11) { yl.len() } else { 1 };
                        for &n in ns {
                            for zi in 0..nz {
                                if zi > yi && l > 9 {
                                    continue;
                                }
                                if w.stopped() {
                                    return;
                                }
                                let z = &yl[zi];
                                let text = || {
                                    let t: Vec<String> = h.iter().map(|&j| ms[j].text()).collect();
                                    format!(
                                        "kind=law type={} law={} start={} steps={} y={} z={} n={}",
                                        N::NAME,
                                        l,
                                        digits_text(&s),
                                        if t.is_empty() { "-".into() } else { t.join(";") },
                                        digits_text(&ys[yi]),
                                        digits_text(&ys[zi]),
                                        n
                                    )
                                };
                                if w.tracing() {
                                    let t = text();
                                    w.trace(&t);
                                }
                                w.beat();
                                match law_holds(l, x, y, z, n) {
                                    None => continue,
                                    Some(Ok(())) => {
                                        w.transitions += 1;
                                        w.traces += (h.len() == 2) as u64;
                                        if h.len() == 2 && w.samples.is_empty() && yi == 5 {
                                            let t = text();
                                            w.sample(|| t);
                                        }
                                    }
                                    Some(Err((got, want))) => {
                                        let t = text();
                                        w.fail(v.len() + ys[yi].len() + ys[zi].len(), t, got, want);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
    }
    // lengths that are far apart, and all that are near each other
    let n0s: Vec<usize> = if p.thorough { (1..=150).collect() } else { (1..=48).chain((49..=140).step_by(7)).collect() };
    for n0 in n0s {
        let far = p.thorough;
        p.job(&format!("{} laws, lengths", N::NAME), move |w| {
            let xs = crate::pat::long_shapes(r, n0);
            let mut n1s: Vec<usize> = (1..=n0.min(6)).collect();
            n1s.extend((1..=12).filter(|k| n0 * k <= if far { 600 } else { 260 }).flat_map(|k| [n0 * k - 1, n0 * k, n0 * k + 1]));
            n1s.extend([n0 / 2, n0 / 2 + 1, 2 * n0 / 3, 19, 20, 21, 39, 40, 41, 100, 127, 128, 129, 160]);
            n1s.retain(|&n| n > 0);
            n1s.sort_unstable();
            n1s.dedup();
            for n1 in n1s {
                let ys = crate::pat::long_shapes(r, n1);
                let k = if far { 11 } else { 6 };
                for xv in xs.iter().take(k) {
                    let x = N::mk(xv);
                    w.states += 1;
                    for yv in ys.iter().take(k) {
                        let y = N::mk(yv);
                        for l in [0, 1, 2, 3, 5, 6, 7, 8, 9, 12, 13] {
                            if w.stopped() {
                                return;
                            }
                            let text = || {
                                format!(
                                    "kind=law type={} law={} start={} steps=- y={} z={} n=0",
                                    N::NAME,
                                    l,
                                    digits_text(xv),
                                    digits_text(yv),
                                    digits_text(yv)
                                )
                            };
                            if w.tracing() {
                                let t = text();
                                w.trace(&t);
                            }
                            w.beat();
                            match law_holds(l, &x, &y, &y, 0) {
                                Some(Err((got, want))) => {
                                    let t = text();
                                    w.fail(xv.len() + yv.len(), t, got, want);
                                    return;
                                }
                                Some(_) => w.transitions += 1,
                                None => {}
                            }
                        }
                    }
                }
            }
        });
    }
    // all small values, with the laws of two operands
    let small: Vec<Vec<u64>> = if r <= 256 { all_values(r, p.pick(260, 700)) } else { words(&alphabet(r, p.pick(4, 6)), 3) };
    let small = Arc::new(small);
    for c in (0..small.len()).step_by(8) {
        let small = small.clone();
        p.job(&format!("{} laws, small values", N::NAME), move |w| {
            for xv in &small[c..(c + 8).min(small.len())] {
                let x = N::mk(xv);
                w.states += 1;
                for yv in small.iter() {
                    let y = N::mk(yv);
                    for l in [0, 1, 2, 3, 5, 6, 8, 9, 12, 13] {
                        if w.stopped() {
                            return;
                        }
                        w.beat();
                        match law_holds(l, &x, &y, &y, 0) {
                            Some(Err((got, want))) => {
                                let t = format!(
                                    "kind=law type={} law={} start={} steps=- y={} z={} n=0",
                                    N::NAME,
                                    l,
                                    digits_text(xv),
                                    digits_text(yv),
                                    digits_text(yv)
                                );
                                w.fail(xv.len() + yv.len(), t, got, want);
                                return;
                            }
                            Some(_) => w.transitions += 1,
                            None => {}
                        }
                    }
                }
            }
        });
    }
}

pub fn replay_law<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let l: usize = kv["law"].parse().unwrap();
    let mut x = N::mk(&digits_parse(&kv["start"]));
    if kv["steps"] != "-" {
        for s in kv["steps"].split(';') {
            let st = Step::parse(s);
            match step::<N>(&st, &N::mk(&st.k), x).1 {
                Some(o) => x = o,
                None => return (true, "history ends early".into(), String::new()),
            }
        }
    }
    let (y, z) = (N::mk(&digits_parse(&kv["y"])), N::mk(&digits_parse(&kv["z"])));
    match law_holds(l, &x, &y, &z, kv["n"].parse().unwrap()) {
        Some(Err((g, wnt))) => (false, g, wnt),
        _ => (true, "the law holds".into(), "the law holds".into()),
    }
}
