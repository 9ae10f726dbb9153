//! Enumeration engine: jobs on a pool of threads, counters, failures, hang detection.

use crate::num::{exec, exec_on, guarded, expect, fmt_decode, forms, Args, Num, Op, Out, ALL_OPS};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub const NTHREADS: usize = 8;

/// The build without optimisation explores long numbers on threads with a stack of the usual size.
pub const STACK: usize = if cfg!(babs_bare) { 2 << 20 } else { 256 << 20 };

pub struct Job {
    pub family: String,
    pub f: Box<dyn Fn(&mut W) + Send + Sync>,
}

#[derive(Default)]
pub struct Plan {
    pub jobs: Vec<Job>,
    pub thorough: bool,
}

impl Plan {
    pub fn job<F: Fn(&mut W) + Send + Sync + 'static>(&mut self, family: &str, f: F) {
        if std::env::var("MC_ONLY").is_ok_and(|x| !family.contains(&x)) {
            return;
        }
        if cfg!(babs_bare) && !family.contains("giant") {
            return;
        }
        self.jobs.push(Job { family: family.to_string(), f: Box::new(f) });
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough {
            t
        } else {
            q
        }
    }
}

pub struct Fail {
    pub size: usize,
    pub case: String,
    pub got: String,
    pub want: String,
}

#[derive(Default)]
pub struct W {
    pub evals: u64,
    pub distinct: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub fails: Vec<Fail>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub slot: usize,
    trace: Option<std::fs::File>,
}

static STOP: AtomicBool = AtomicBool::new(false);
static BEAT: [AtomicU64; NTHREADS] = [const { AtomicU64::new(0) }; NTHREADS];
static CUR: [AtomicUsize; NTHREADS] = [const { AtomicUsize::new(usize::MAX) }; NTHREADS];

/// Fingerprints of the cases seen: the number of bits set is a lower bound of the number of distinct
/// cases.
static SEEN: std::sync::OnceLock<&'static [AtomicU64]> = std::sync::OnceLock::new();

fn seen() -> &'static [AtomicU64] {
    SEEN.get_or_init(|| {
        // zeroed by the system, page by page as they are used; shared with the processes forked, so
        // that forking does not copy it
        extern "C" {
            fn mmap(p: *mut std::ffi::c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut std::ffi::c_void;
        }
        const N: usize = 1 << 24;
        unsafe {
            let p = mmap(std::ptr::null_mut(), N * 8, 3, 0x21, -1, 0);
            assert!(p as isize != -1, "mmap");
            std::slice::from_raw_parts(p as *const AtomicU64, N)
        }
    })
}

/// The cases of known findings, from the file that MC_KNOWN names
fn known() -> &'static std::collections::HashSet<String> {
    static K: std::sync::OnceLock<std::collections::HashSet<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| match std::env::var("MC_KNOWN") {
        Ok(f) => std::fs::read_to_string(f).unwrap_or_default().lines().map(|l| l.trim().to_string()).collect(),
        Err(_) => Default::default(),
    })
}

pub fn hash(mut h: u64, v: &[u64]) -> u64 {
    h = (h ^ v.len() as u64).wrapping_mul(0x9e3779b97f4a7c15);
    for &x in v {
        h = (h.rotate_left(23) ^ x).wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 29;
    }
    h
}

pub fn digits_text(d: &[u64]) -> String {
    if d.is_empty() {
        return "-".into();
    }
    d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn digits_parse(s: &str) -> Vec<u64> {
    if s == "-" {
        return vec![];
    }
    s.split(',').map(|x| x.parse().unwrap()).collect()
}
pub fn hex_text(s: &str) -> String {
    if s.is_empty() {
        return "-".into();
    }
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}
pub fn hex_parse(s: &str) -> String {
    if s == "-" {
        return String::new();
    }
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

pub fn case_text<N: Num>(op: Op, form: u8, g: Args) -> String {
    let mut s = format!(
        "kind=op type={} op={:?} form={} a={} b={} n={} s={}",
        N::NAME,
        op,
        forms(op)[form as usize],
        digits_text(g.a),
        digits_text(g.b),
        g.n,
        hex_text(g.s)
    );
    let rooms = crate::num::ROOMS.get();
    if rooms != [0, 0] {
        s += &format!(" rooms={},{}", rooms[0], rooms[1]);
    }
    if op == Op::Fmt {
        let (k, sp, w) = fmt_decode(g.n);
        s += &format!(" spec={:?}/{:?}/{}", ["display", "lower hex", "upper hex"][k as usize], crate::text::SPECS[sp], w)
            .replace(' ', "_");
    }
    if op == Op::Parse {
        s += &format!(" text={:?}", g.s).replace(' ', "\\u{20}").replace(" text", "text");
    }
    s
}

/// Does the outcome agree with what is expected?
pub fn agree(op: Op, got: &Out, want: &Out) -> bool {
    if got == want {
        return true;
    }
    match (op, got, want) {
        // any error will do for text that is not a number
        (Op::Parse, Out::Err(..), Out::Err(..)) => true,
        _ => false,
    }
}

impl W {
    pub fn new(slot: usize, trace: Option<std::fs::File>) -> W {
        W { slot, trace, ..W::default() }
    }
    #[inline]
    pub fn beat(&mut self) {
        BEAT[self.slot].fetch_add(1, Relaxed);
    }
    #[inline]
    pub fn stopped(&self) -> bool {
        STOP.load(Relaxed)
    }
    pub fn note(&mut self, key: &str, n: u64) {
        *self.notes.entry(key.to_string()).or_default() += n;
    }
    /// Count a non-trivial case by its fingerprint.
    #[inline]
    pub fn fingerprint(&mut self, h: u64) {
        let h = h.wrapping_mul(0x9e3779b97f4a7c15);
        let h = h ^ (h >> 31);
        let h = h.wrapping_mul(0xc2b2ae3d27d4eb4f);
        let i = h >> 34;
        let bit = 1u64 << (i & 63);
        if seen()[(i >> 6) as usize].fetch_or(bit, Relaxed) & bit == 0 {
            self.distinct += 1;
        }
    }
    pub fn fail(&mut self, size: usize, case: String, got: String, want: String) {
        if known().contains(&case) {
            self.note(&format!("known finding: {}", case), 1);
            return;
        }
        self.fails.push(Fail { size, case, got, want });
        STOP.store(true, Relaxed);
    }
    #[inline]
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn trace(&mut self, case: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(f) = &self.trace {
            let _ = f.set_len(0);
            let _ = f.write_at(case.as_bytes(), 0);
        }
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(if s.len() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s });
        }
    }

    /// Perform an operation in the given forms and compare with the expected outcome. `nontrivial`
    /// says whether the case counts.
    pub fn ops<N: Num>(&mut self, op: Op, fs: &[u8], g: Args, want: &Out, nontrivial: bool) {
        for &f in fs {
            if self.trace.is_some() {
                let t = case_text::<N>(op, f, g);
                self.trace(&t);
            }
            let got = exec::<N>(op, f, g);
            self.evals += 1;
            BEAT[self.slot].fetch_add(1, Relaxed);
            if !agree(op, &got, want) {
                let size = g.a.len() + g.b.len() + g.s.len();
                let case = case_text::<N>(op, f, g);
                self.fail(size, case, got.show(), want.show());
                return;
            }
        }
        if nontrivial {
            let mut h = hash(op as u64 * 64 + N::WBITS as u64 + N::BIN as u64, g.a);
            h = hash(h ^ g.n.rotate_left(32), g.b);
            for c in g.s.bytes() {
                h = (h.rotate_left(9) ^ c as u64).wrapping_mul(0x9e3779b97f4a7c15);
            }
            self.fingerprint(h);
            if self.samples.len() < 2 && self.evals & 0x3f >= 0x20 {
                self.sample(|| case_text::<N>(op, fs[0], g));
            }
        }
    }

    /// The results of an operation are in canonical form.
    pub fn canonical<N: Num>(&mut self, op: Op, fs: &[u8], g: Args) {
        let r = <N::X as crate::refn::Radix>::R;
        let good = |d: &[u64]| d.last() != Some(&0) && d.iter().all(|&x| (x as u128) < r);
        for &f in fs {
            if self.trace.is_some() {
                let t = case_text::<N>(op, f, g);
                self.trace(&t);
            }
            let got = exec::<N>(op, f, g);
            self.evals += 1;
            BEAT[self.slot].fetch_add(1, Relaxed);
            let fine = match &got {
                Out::Num(d) => good(d),
                Out::Two(q, d) => good(q) && good(d),
                _ => true,
            };
            if !fine {
                let case = case_text::<N>(op, f, g);
                self.fail(g.a.len() + g.b.len(), case, got.show(), "digits below the radix, the leading one not zero".into());
                return;
            }
        }
        let h = hash(op as u64 * 64 + N::WBITS as u64 + N::BIN as u64 + 4096, g.a);
        self.fingerprint(hash(h ^ g.n.rotate_left(32), g.b));
    }

    /// All forms of an operation agree with each other.
    pub fn forms_agree<N: Num>(&mut self, op: Op, g: Args) {
        if self.stopped() {
            return;
        }
        if self.trace.is_some() {
            let t = case_text::<N>(op, 0, g).replacen("kind=op", "kind=forms", 1);
            self.trace(&t);
        }
        let (n, bad) = forms_check::<N>(op, g);
        self.evals += n;
        BEAT[self.slot].fetch_add(1, Relaxed);
        if let Some((form, got, want)) = bad {
            let case = case_text::<N>(op, form, g).replacen("kind=op", "kind=forms", 1);
            self.fail(g.a.len() + g.b.len(), case, got, want);
            return;
        }
        if !g.a.is_empty() {
            let h = hash(op as u64 * 64 + N::WBITS as u64 + N::BIN as u64, g.a);
            self.fingerprint(hash(h ^ g.n.rotate_left(32), g.b));
            if self.samples.len() < 2 && self.evals & 0x3f >= 0x20 {
                self.sample(|| case_text::<N>(op, 0, g));
            }
        }
    }

    pub fn big<N: Num>(&mut self, op: Op, fs: &[u8], a: &[u64], b: &[u64]) {
        let g = Args { a, b, n: 0, s: "" };
        let want = expect::<N>(op, 0, g, None);
        self.ops::<N>(op, fs, g, &want, !a.is_empty() && !b.is_empty());
    }
    pub fn num<N: Num>(&mut self, op: Op, fs: &[u8], a: &[u64], n: u64) {
        let g = Args { a, b: &[], n, s: "" };
        let want = expect::<N>(op, 0, g, None);
        self.ops::<N>(op, fs, g, &want, !a.is_empty());
    }
    pub fn text<N: Num>(&mut self, s: &str) {
        let g = Args { a: &[], b: &[], n: 0, s };
        let want = expect::<N>(Op::Parse, 0, g, None);
        self.ops::<N>(Op::Parse, &[0], g, &want, !s.is_empty());
    }
}

/// Perform an operation in all its forms. The number of executions, and the form that differs from
/// the first with both outcomes.
pub fn forms_check<N: Num>(op: Op, g: Args) -> (u64, Option<(u8, String, String)>) {
    forms_check_on::<N>(op, &mut || N::mk(g.a), &mut || N::mk(g.b), g)
}

/// The same, with the operands given.
pub fn forms_check_on<N: Num>(
    op: Op,
    x: &mut dyn FnMut() -> N,
    y: &mut dyn FnMut() -> N,
    g: Args,
) -> (u64, Option<(u8, String, String)>) {
    let mut exec = |op: Op, f: u8, g: Args| guarded(|| exec_on::<N>(op, f, x, y, g));
    use Op::*;
    let text = |o: &Out| match o {
        Out::Panic => "a panic".to_string(),
        o => o.show(),
    };
    let fs: Vec<u8> = match op {
        Add | Sub | Mul | Div | Rem => {
            if g.a == g.b {
                (0..8).collect()
            } else {
                (0..6).collect()
            }
        }
        AddW | SubW | MulW | DivW | RemW => {
            if (g.n as u128) < <N::X as crate::refn::Radix>::R {
                (0..6).collect()
            } else {
                (3..6).collect()
            }
        }
        Shl | Shr => vec![0, 1, 2],
        Pow => vec![0, 1],
        _ => vec![0],
    };
    let first = exec(op, fs[0], g);
    let mut n = 1;
    if let Out::Mutated(..) = first {
        return (n, Some((fs[0], text(&first), "an unchanged operand".into())));
    }
    for &f in &fs[1..] {
        let o = exec(op, f, g);
        n += 1;
        if let Out::Mutated(..) = o {
            return (n, Some((f, text(&o), "an unchanged operand".into())));
        }
        if o != first {
            return (n, Some((f, text(&o), format!("{} as in the form {}", text(&first), forms(op)[fs[0] as usize]))));
        }
    }
    if matches!(op, Div | Rem) {
        // the fallible methods
        for m in [DivBig, RemBig] {
            for f in 0..if g.a == g.b { 2 } else { 1 } {
                let o = exec(m, f, g);
                n += 1;
                let part = match (&o, m, op) {
                    (Out::Two(q, _), _, Div) => Out::Num(q.clone()),
                    (Out::Two(_, r), _, _) => Out::Num(r.clone()),
                    (Out::Num(_), RemBig, Rem) => o.clone(),
                    (Out::Num(_), RemBig, _) => continue,
                    (Out::Err(..), _, _) => Out::Panic,
                    (o, _, _) => o.clone(),
                };
                if part != first {
                    return (n, Some((0, format!("{} by {:?}", text(&o), m), format!("{} as by {:?}", text(&first), op))));
                }
            }
        }
    }
    (n, None)
}

fn replay_rooms(kv: &BTreeMap<String, String>) {
    if let Some((a, b)) = kv.get("rooms").and_then(|s| s.split_once(',')) {
        crate::num::ROOMS.set([a.parse().unwrap(), b.parse().unwrap()]);
    }
}

pub fn replay_forms<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    replay_rooms(kv);
    let op = *ALL_OPS.iter().find(|o| format!("{:?}", o) == kv["op"]).expect("op");
    let (a, b) = (digits_parse(&kv["a"]), digits_parse(&kv["b"]));
    let g = Args { a: &a, b: &b, n: kv["n"].parse().unwrap(), s: "" };
    match forms_check::<N>(op, g).1 {
        None => (true, "all forms agree".into(), "all forms agree".into()),
        Some((f, got, want)) => (false, format!("{} (form {})", got, forms(op)[f as usize]), want),
    }
}

/// Re-run one recorded operation.
pub fn replay_op<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    replay_rooms(kv);
    let op = *ALL_OPS.iter().find(|o| format!("{:?}", o) == kv["op"]).expect("op");
    let form = forms(op).iter().position(|f| *f == kv["form"]).expect("form") as u8;
    let (a, b) = (digits_parse(&kv["a"]), digits_parse(&kv["b"]));
    let s = hex_parse(&kv["s"]);
    let g = Args { a: &a, b: &b, n: kv["n"].parse().unwrap(), s: &s };
    let want = expect::<N>(op, form, g, None);
    let got = exec::<N>(op, form, g);
    let got_text = match &got {
        Out::Panic => format!("a panic ({})", crate::num::LAST_PANIC.with(|p| p.borrow().clone())),
        o => o.show(),
    };
    (agree(op, &got, &want), got_text, want.show())
}

pub struct Totals {
    pub evals: u64,
    pub distinct: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub fails: Vec<Fail>,
    pub samples: Vec<String>,
    pub notes: BTreeMap<String, u64>,
    pub families: BTreeMap<String, (u64, u64)>,
    pub complete: bool,
}

/// Run all jobs (or only job `only`, tracing each case to a file).
pub fn run(plan: &Plan, only: Option<usize>, trace: Option<&str>, hang_s: u64, progress: Option<&str>) -> Totals {
    let progress = progress.map(|p| std::fs::File::create(p).unwrap());
    // MC_SHARD=i/k: only the jobs whose index is i modulo k, one after another. A shard is free of
    // interference and does the same on every run.
    let shard: Option<(usize, usize)> = std::env::var("MC_SHARD").ok().map(|s| {
        let (i, k) = s.split_once('/').expect("shard");
        (i.parse().unwrap(), k.parse().unwrap())
    });
    let next = AtomicUsize::new(0);
    let tot = Mutex::new(Totals {
        evals: 0,
        distinct: 0,
        states: 0,
        transitions: 0,
        traces: 0,
        fails: vec![],
        samples: vec![],
        notes: BTreeMap::new(),
        families: BTreeMap::new(),
        complete: true,
    });
    seen();
    let done = AtomicBool::new(false);
    std::thread::scope(|s| {
        let nt = if only.is_some() || shard.is_some() { 1 } else { NTHREADS };
        let mut hs = vec![];
        for slot in 0..nt {
            let (next, tot, progress) = (&next, &tot, &progress);
            let body = move || loop {
                let i = match only {
                    Some(i) => {
                        if next.fetch_add(1, Relaxed) > 0 {
                            break;
                        }
                        i
                    }
                    None => next.fetch_add(1, Relaxed),
                };
                if i >= plan.jobs.len() {
                    break;
                }
                if only.is_none() && shard.is_some_and(|(s, k)| i % k != s) {
                    continue;
                }
                if STOP.load(Relaxed) {
                    tot.lock().unwrap().complete = false;
                    break;
                }
                CUR[slot].store(i, Relaxed);
                let log = |c: char| {
                    if let Some(mut p) = progress.as_ref() {
                        use std::io::Write;
                        let _ = p.write_all(format!("{} {}\n", c, i).as_bytes());
                    }
                };
                log('S');
                let f = trace.map(|p| std::fs::File::create(p).unwrap());
                let mut w = W::new(slot, f);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (plan.jobs[i].f)(&mut w)));
                if r.is_err() {
                    // outside an operation that is checked: making or reading a number
                    let m = crate::num::LAST_PANIC.with(|p| p.borrow().clone());
                    w.note(&format!("job ended early by a panic: {}", m.chars().take(200).collect::<String>()), 1);
                    tot.lock().unwrap().complete = false;
                }
                CUR[slot].store(usize::MAX, Relaxed);
                log('E');
                let mut t = tot.lock().unwrap();
                t.evals += w.evals;
                t.distinct += w.distinct;
                t.states += w.states;
                t.transitions += w.transitions;
                t.traces += w.traces;
                t.fails.append(&mut w.fails);
                for (k, v) in w.notes {
                    *t.notes.entry(k).or_default() += v;
                }
                let e = t.families.entry(plan.jobs[i].family.clone()).or_default();
                let first = e.0 == 0;
                e.0 += w.evals + w.transitions;
                e.1 += w.distinct;
                if first || t.samples.len() < 4 {
                    let fam = plan.jobs[i].family.clone();
                    for smp in w.samples.into_iter().take(1) {
                        if t.samples.len() < 40 {
                            t.samples.push(format!("{}: {}", fam, smp));
                        }
                    }
                }
            };
            hs.push(std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, body).unwrap());
        }
        let done = &done;
        let watch = s.spawn(move || {
            let mut last = [(0u64, 0u64); NTHREADS];
            let mut t = 0u64;
            while !done.load(Relaxed) {
                std::thread::sleep(std::time::Duration::from_millis(100));
                t += 1;
                for i in 0..nt {
                    let (b, c) = (BEAT[i].load(Relaxed), CUR[i].load(Relaxed));
                    if c == usize::MAX || b != last[i].0 {
                        last[i] = (b, t);
                    } else if t - last[i].1 > hang_s * 10 {
                        println!("HANG job={}", c);
                        std::process::exit(77);
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Relaxed);
        watch.join().unwrap();
    });
    let mut t = tot.into_inner().unwrap();
    t.fails.sort_by(|a, b| (a.size, &a.case).cmp(&(b.size, &b.case)));
    t
}
