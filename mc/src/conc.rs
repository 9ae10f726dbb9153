//! C20: results depend on the operands alone. Exploration of histories of calls and of the
//! schedules of two concurrent calls, against what each call does in a fresh process.
//!
//! The exploring process never calls the library itself: every history starts in a process forked
//! off that pristine one, so that a history is explored from the initial state, whatever state the
//! library may keep.
//!
//! Schedules: two threads each perform one call. A thread can be preempted at every scheduling
//! point it passes in the library: every allocation, reallocation and deallocation and (in builds
//! with the hooks) every digit operation of numbers with a small radix. In the instrumented build
//! the scheduling points are the accesses to memory that threads can share. All schedules with one
//! preemption, and all with two, are enumerated.

use crate::engine::{digits_text, hash, hex_text, Plan, W};
use crate::num::*;
use crate::pat::*;
use crate::refn::{self, Radix};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use Op::*;

pub struct Hooked;

/// What fresh memory is filled with: nothing, or this byte
static FILL: AtomicU32 = AtomicU32::new(u32::MAX);

#[inline]
unsafe fn scribble(p: *mut u8, n: usize) {
    let f = FILL.load(Relaxed);
    if f != u32::MAX && !p.is_null() {
        std::ptr::write_bytes(p, f as u8, n);
    }
}

/// How often memory next to a block has been found overwritten
static DAMAGE: AtomicU32 = AtomicU32::new(0);
/// So many bytes lie before and after a block, all with the same value
const ZONE: usize = if cfg!(babs_access) { 0 } else { 16 };

fn outer(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + 2 * ZONE, l.align().max(ZONE)) }
}
unsafe fn fence(p: *mut u8, n: usize) -> *mut u8 {
    if ZONE == 0 || p.is_null() {
        return p;
    }
    let f = FILL.load(Relaxed);
    let f = if f == u32::MAX { 0x6b } else { f as u8 };
    std::ptr::write_bytes(p, f, ZONE);
    std::ptr::write_bytes(p.add(ZONE + n), f, ZONE);
    p.add(ZONE)
}
unsafe fn unfence(p: *mut u8, n: usize) -> *mut u8 {
    if ZONE > 0 {
        let q = p.sub(ZONE);
        let f = *q;
        for i in 0..ZONE {
            if *q.add(i) != f || *p.add(n + i) != f {
                DAMAGE.fetch_add(1, Relaxed);
                break;
            }
        }
        return q;
    }
    p
}

unsafe impl GlobalAlloc for Hooked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let h = access::hold(true);
        alloc_point();
        let p = fence(System.alloc(outer(l)), l.size());
        scribble(p, l.size());
        access::born(p, l.size());
        access::hold(h);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let h = access::hold(true);
        alloc_point();
        scribble(p, l.size());
        access::gone(p);
        System.dealloc(unfence(p, l.size()), outer(l));
        access::hold(h);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.align() > 16 {
            return System.realloc(p, l, n);
        }
        let h = access::hold(true);
        alloc_point();
        access::gone(p);
        let q = fence(System.realloc(unfence(p, l.size()), outer(l), n + 2 * ZONE), n);
        if n > l.size() && !q.is_null() {
            scribble(q.add(l.size()), n - l.size());
        }
        access::born(q, n);
        access::hold(h);
        q
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc_zeroed(l);
        }
        let h = access::hold(true);
        alloc_point();
        let p = fence(System.alloc_zeroed(outer(l)), l.size());
        access::born(p, l.size());
        access::hold(h);
        p
    }
}

/// The instrumented build (see rt/access.c)
#[cfg(babs_access)]
mod access {
    extern "C" {
        fn mc_mode(m: i32);
        fn mc_hold(on: i32) -> i32;
        fn mc_rec_clear();
        fn mc_rec_len() -> i32;
        fn mc_rec_addr(i: i32) -> usize;
        fn mc_rec_write(i: i32) -> i32;
        fn mc_share(p: *mut u8, n: usize);
        fn mc_unshare(p: *mut u8);
    }
    #[no_mangle]
    pub extern "C" fn mc_access() {
        super::point();
    }
    use std::cell::Cell;
    const SLOTS: usize = 1 << 14;
    // blocks that the call being recorded has allocated and not freed
    static mut LIVE: [(usize, usize); SLOTS] = [(0, 0); SLOTS];
    thread_local! {
        static RECORDING: Cell<bool> = const { Cell::new(false) };
    }
    pub fn born(p: *mut u8, n: usize) {
        if RECORDING.try_with(|r| r.get()).unwrap_or(false) {
            unsafe {
                let mut i = (p as usize >> 4) % SLOTS;
                for _ in 0..64 {
                    if LIVE[i].0 <= 1 {
                        LIVE[i] = (p as usize, n);
                        return;
                    }
                    i = (i + 1) % SLOTS;
                }
            }
        }
    }
    pub fn gone(p: *mut u8) {
        unsafe {
            mc_unshare(p);
            if RECORDING.try_with(|r| r.get()).unwrap_or(false) {
                let mut i = (p as usize >> 4) % SLOTS;
                for _ in 0..64 {
                    if LIVE[i].0 == p as usize {
                        LIVE[i].0 = 1;
                        return;
                    }
                    if LIVE[i].0 == 0 {
                        return;
                    }
                    i = (i + 1) % SLOTS;
                }
            }
        }
    }
    #[inline]
    pub fn hold(on: bool) -> bool {
        unsafe { mc_hold(on as i32) != 0 }
    }
    pub fn points(on: bool) {
        unsafe { mc_mode(if on { 2 } else { 0 }) }
    }
    /// Perform a call and record what it accesses of the memory that threads can share. Blocks it
    /// leaves behind are such memory from then on.
    pub fn recorded<T, F: FnOnce() -> T>(f: F) -> (T, Vec<(usize, bool)>) {
        unsafe {
            mc_rec_clear();
            mc_mode(1);
            RECORDING.with(|r| r.set(true));
            let o = f();
            RECORDING.with(|r| r.set(false));
            mc_mode(0);
            let v = (0..mc_rec_len()).map(|i| (mc_rec_addr(i), mc_rec_write(i) != 0)).collect();
            (o, v)
        }
    }
    /// After the outcome of a recorded call has been dropped
    pub fn settle() {
        unsafe {
            for i in 0..SLOTS {
                if LIVE[i].0 > 1 {
                    mc_share(LIVE[i].0 as *mut u8, LIVE[i].1);
                }
                LIVE[i] = (0, 0);
            }
        }
    }
    /// Forget a block of the outcome
    pub fn dropped<T>(o: T) {
        RECORDING.with(|r| r.set(true));
        drop(o);
        RECORDING.with(|r| r.set(false));
    }
}
#[cfg(not(babs_access))]
mod access {
    #[inline]
    pub fn hold(_: bool) -> bool {
        false
    }
    #[inline]
    pub fn born(_: *mut u8, _: usize) {}
    #[inline]
    pub fn gone(_: *mut u8) {}
    #[inline]
    pub fn points(_: bool) {}
}

#[derive(Clone, Copy)]
struct Me {
    on: bool,
    first: bool,
    count: u64,
    target: u64,
    ctx: *const Ctx,
}

thread_local! {
    static ME: Cell<Me> = const { Cell::new(Me { on: false, first: false, count: 0, target: u64::MAX, ctx: std::ptr::null() }) };
}

#[derive(Default)]
struct S {
    job: Option<(usize, u64)>,
    b_go: bool,
    b_yield: bool,
    b_done: bool,
    a_done: bool,
    b_points: u64,
    out: Option<Out>,
    quit: bool,
    blocked: bool,
}

pub struct Ctx {
    m: Mutex<S>,
    cv: Condvar,
}

/// How long a thread that another one seems to wait for is held back
const BLOCK: Duration = Duration::from_millis(100);
/// With so many schedules of a pair in which that happened, the rest of its schedules is left out
const MAX_BLOCKED: u32 = 12;

#[inline]
fn alloc_point() {
    if !cfg!(babs_access) {
        point();
    }
}

/// A scheduling point
#[inline]
pub fn point() {
    let _ = ME.try_with(|c| {
        let mut me = c.get();
        if !me.on {
            return;
        }
        let n = me.count;
        me.count += 1;
        c.set(me);
        if n == me.target {
            me.on = false;
            c.set(me);
            let ctx = unsafe { &*me.ctx };
            let mut s = ctx.m.lock().unwrap();
            let end = Instant::now() + BLOCK;
            if me.first {
                s.b_go = true;
            } else {
                s.b_yield = true;
            }
            ctx.cv.notify_all();
            while !(if me.first { s.b_yield || s.b_done } else { s.a_done }) {
                let left = end.saturating_duration_since(Instant::now());
                if left.is_zero() {
                    // the other thread waits for something this one holds
                    s.blocked = true;
                    break;
                }
                s = ctx.cv.wait_timeout(s, left).unwrap().0;
            }
            drop(s);
            me.on = true;
            c.set(me);
        }
    });
}

fn with_points<F: FnOnce() -> Out>(first: bool, target: u64, ctx: *const Ctx, f: F) -> (Out, u64) {
    ME.with(|c| c.set(Me { on: true, first, count: 0, target, ctx }));
    access::points(true);
    let o = f();
    access::points(false);
    let me = ME.with(|c| c.get());
    ME.with(|c| c.set(Me { on: false, ..me }));
    (o, me.count)
}

/// Processes
mod sys {
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(fds: *mut i32) -> i32;
        pub fn read(fd: i32, p: *mut std::ffi::c_void, n: usize) -> isize;
        pub fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
        pub fn _exit(st: i32) -> !;
        pub fn poll(fds: *mut PollFd, n: u64, ms: i32) -> i32;
        pub fn kill(pid: i32, sig: i32) -> i32;
        pub fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
        pub fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
        pub fn sched_getaffinity(pid: i32, n: usize, mask: *mut u64) -> i32;
    }
    /// Keep the threads of this process on one processor: they take turns, which is faster there
    pub fn pin(k: usize) {
        let mut m = [0u64; 16];
        unsafe {
            if sched_getaffinity(0, 128, m.as_mut_ptr()) <= 0 {
                return;
            }
            let cpus: Vec<usize> = (0..1024).filter(|i| m[i / 64] >> (i % 64) & 1 == 1).collect();
            if cpus.is_empty() {
                return;
            }
            let c = cpus[k % cpus.len()];
            let mut one = [0u64; 16];
            one[c / 64] = 1 << (c % 64);
            sched_setaffinity(0, 128, one.as_ptr());
        }
    }
    #[repr(C)]
    pub struct PollFd {
        pub fd: i32,
        pub events: i16,
        pub revents: i16,
    }
}

/// What a forked process says, or how it ended instead
pub fn forked<F: FnOnce() -> String>(secs: u64, beat: &mut dyn FnMut(), f: F) -> Result<String, String> {
    unsafe {
        let mut fd = [0i32; 2];
        assert_eq!(sys::pipe(fd.as_mut_ptr()), 0, "pipe");
        let pid = sys::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            sys::close(fd[0]);
            sys::prctl(1, 9, 0, 0, 0);
            let s = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "panic".into());
            let mut b = s.as_bytes();
            while !b.is_empty() {
                let n = sys::write(fd[1], b.as_ptr() as *const _, b.len());
                if n <= 0 {
                    break;
                }
                b = &b[n as usize..];
            }
            sys::_exit(if s == "panic" { 101 } else { 0 });
        }
        sys::close(fd[1]);
        let end = Instant::now() + Duration::from_secs(secs);
        let mut out = vec![];
        let mut late = false;
        loop {
            let mut p = sys::PollFd { fd: fd[0], events: 1, revents: 0 };
            let r = sys::poll(&mut p, 1, 200);
            beat();
            if r > 0 {
                let mut b = [0u8; 65536];
                let n = sys::read(fd[0], b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&b[..n as usize]);
            } else if Instant::now() > end {
                sys::kill(pid, 9);
                late = true;
                break;
            }
        }
        sys::close(fd[0]);
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) != pid {}
        if late {
            Err("no end".into())
        } else if st & 0x7f != 0 {
            Err(format!("a crash (signal {})", st & 0x7f))
        } else if st != 0 {
            Err(format!("a crash (status {})", st >> 8))
        } else {
            Ok(String::from_utf8_lossy(&out).into_owned())
        }
    }
}

#[cfg(not(babs_tiny))]
const TYPES: &[&str] = &["bin8", "bin16", "bin32", "bin64", "dec8", "dec16", "dec32", "dec64"];

/// A function for the type of that name
macro_rules! by_name {
    ($name:expr, $f:ident, $args:tt) => {
        by_name!(@ $name, $f, $args,
            babs::UBigBin8, babs::UBigBin16, babs::UBigBin32, babs::UBigBin64,
            babs::UBigDec8, babs::UBigDec16, babs::UBigDec32, babs::UBigDec64)
    };
    (@ $name:expr, $f:ident, $args:tt, $($t:ty),*) => {
        match $name {
            $(<$t as Num>::NAME => $f::<$t>$args,)*
            #[cfg(babs_tiny)]
            <tiny::Tiny4 as Num>::NAME => $f::<tiny::Tiny4>$args,
            #[cfg(babs_tiny)]
            <tiny::Tiny6 as Num>::NAME => $f::<tiny::Tiny6>$args,
            #[cfg(babs_tiny)]
            <tiny::Tiny10 as Num>::NAME => $f::<tiny::Tiny10>$args,
            t => panic!("type {}", t),
        }
    };
}

/// A call of the library
#[derive(Clone, Debug)]
pub struct Call {
    pub ty: &'static str,
    pub op: Op,
    pub form: u8,
    pub a: Vec<u64>,
    pub b: Vec<u64>,
    pub n: u64,
    pub s: String,
}

impl Call {
    pub fn run(&self) -> Out {
        self.perform(false)
    }
    /// The operands are made on this thread, the call is on another
    pub fn run_across(&self) -> Out {
        self.perform(true)
    }
    fn perform(&self, across: bool) -> Out {
        let o = self.dispatch(across);
        if DAMAGE.swap(0, Relaxed) > 0 {
            return Out::Text("memory next to a block overwritten".into());
        }
        o
    }
    fn dispatch(&self, across: bool) -> Out {
        let g = Args { a: &self.a, b: &self.b, n: self.n, s: &self.s };
        if across {
            by_name!(self.ty, exec_across, (self.op, self.form, g))
        } else {
            by_name!(self.ty, exec, (self.op, self.form, g))
        }
    }
    /// By the reference
    fn want(&self) -> Out {
        let g = Args { a: &self.a, b: &self.b, n: self.n, s: &self.s };
        by_name!(self.ty, expect, (self.op, self.form, g, None))
    }
    /// Radix of the digits, bits of their type, whether it is a binary type, whether all operations are there
    fn kind(ty: &str) -> (u128, u32, bool, bool) {
        fn f<N: Num>() -> (u128, u32, bool, bool) {
            (<N::X as Radix>::R, N::WBITS, N::BIN, N::FULL)
        }
        by_name!(ty, f, ())
    }
    /// Calls that have much in common with this one
    fn twins(&self, most: usize) -> Vec<Call> {
        let (r, bits, ..) = Call::kind(self.ty);
        let mut v = vec![];
        let places = |n: usize| -> Vec<usize> { (0..n).filter(|i| n <= most || i % (n / most + 1) == 1 || *i < 4 || *i + 4 > n).collect() };
        for k in 0..2 {
            let d = if k == 0 { &self.a } else { &self.b };
            let mut push = |d: Vec<u64>| {
                let mut c = self.clone();
                if d.last() != Some(&0) {
                    *(if k == 0 { &mut c.a } else { &mut c.b }) = d;
                    v.push(c);
                }
            };
            for i in places(d.len()) {
                let mut e = d.clone();
                e[i] = ((e[i] as u128 + 1) % r) as u64;
                push(e.clone());
                if i > 0 && d[i] != d[i - 1] {
                    e[i] = d[i];
                    e.swap(i, i - 1);
                    push(e);
                }
            }
            if d.len() > 1 {
                let mut e = d.clone();
                e.reverse();
                push(e);
                push(d[..d.len() - 1].to_vec());
                push(d[1..].to_vec());
                push([&[1], &d[..]].concat());
                push([&d[..], &[1]].concat());
            }
        }
        let mut push = |n: u64| v.push(Call { n, ..self.clone() });
        match self.op {
            Shl | Shr => [1, 2, 7, 64].iter().for_each(|i| push(self.n + i)),
            Pow => push(self.n + 1),
            AddW | SubW | MulW | DivW | RemW => [1, 2, 3, 1 << (bits - 1), self.n / 2].iter().for_each(|i| push(*i)),
            _ => {}
        }
        if self.op == Parse {
            let t = self.s.as_bytes();
            for i in places(t.len()) {
                let mut t = t.to_vec();
                if t[i].is_ascii_digit() && !(i == 0 && t.starts_with(b"0x")) {
                    t[i] = if t[i] == b'9' { b'1' } else { t[i] + 1 };
                    v.push(Call { s: String::from_utf8(t).unwrap(), ..self.clone() });
                }
            }
            for t in [&self.s[1..], &self.s[..self.s.len() - 1], &self.s[2..], &format!("{}1", self.s)] {
                v.push(Call { s: t.to_string(), ..self.clone() });
            }
        }
        #[cfg(not(babs_tiny))]
        for &ty in TYPES {
            let (r, _, bin, full) = Call::kind(ty);
            let same = self.a.iter().chain(&self.b).all(|&d| (d as u128) < r);
            let shared = match self.op {
                ToDec => bin,
                Fmt => bin || self.n == 0,
                Mul | Square | DivBig | RemBig | Add | Sub | Pow | Div | Rem => true,
                Shl | Shr | Parse => full,
                _ => false,
            };
            if ty != self.ty && same && shared {
                v.push(Call { ty, ..self.clone() });
            }
        }
        v
    }
    pub fn text(&self) -> String {
        format!(
            "{}:{:?}:{}:{}:{}:{}:{}",
            self.ty,
            self.op,
            self.form,
            digits_text(&self.a),
            digits_text(&self.b),
            self.n,
            hex_text(&self.s)
        )
    }
}

/// An operation on another thread than that on which its operands are made and dropped
fn exec_across<N: Num>(op: Op, form: u8, g: Args) -> Out {
    let (x, y) = (N::mk(g.a), N::mk(g.b));
    let (u, v) = (x.clone(), y.clone());
    let o = std::thread::scope(|s| {
        let f = move || guarded(|| exec_on(op, form, &mut || u.clone(), &mut || v.clone(), g));
        std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, f).unwrap().join()
    });
    match o {
        Ok(_) if !x.same(g.a) => Out::Mutated("left", x.dg()),
        Ok(_) if !y.same(g.b) => Out::Mutated("right", y.dg()),
        Ok(o) => o,
        Err(_) => Out::Text("a panic of the thread".into()),
    }
}

fn calls_of<N: Num>(v: &mut Vec<Call>, rich: bool) {
    let r = <N::X as Radix>::R;
    let m = (r - 1) as u64;
    let g = |s, n| generic(r, s, n);
    let mut c = |op, form, a: Vec<u64>, b: Vec<u64>, n| v.push(Call { ty: N::NAME, op, form, a, b, n, s: String::new() });
    // carries and borrows through a whole number
    c(Add, 3, vec![m; 5], vec![1], 0);
    c(Sub, 3, vec![0, 0, 0, 1], vec![1], 0);
    // schoolbook, Karatsuba
    c(Mul, 3, g(1, 6), g(2, 9), 0);
    c(Mul, 3, g(3, 33), g(4, 29), 0);
    c(Square, 0, g(5, 27), vec![], 0);
    // division: schoolbook, recursive
    c(DivBig, 0, g(8, 14), g(9, 6), 0);
    c(DivBig, 0, g(8, 50), g(9, 22), 0);
    // calls that fail
    c(Sub, 5, g(10, 3), g(10, 4), 0);
    c(DivBig, 0, g(11, 3), vec![], 0);
    c(Div, 3, g(11, 30), vec![], 0);
    if rich {
        c(Mul, 3, g(6, 131), g(7, 140), 0);
        c(Square, 0, g(6, 135), vec![], 0);
        c(Mul, 3, g(12, 21), g(13, 47), 0);
        c(Mul, 3, vec![m; 24], vec![m; 24], 0);
        c(DivBig, 0, g(14, 90), g(15, 41), 0);
        c(Add, 5, g(16, 40), g(17, 30), 0);
        c(RemBig, 0, g(18, 47), g(19, 20), 0);
        c(Pow, 1, g(20, 2), vec![], 13);
        c(DivBig, 0, vec![0, 0, 0, 1], vec![m, 1], 0);
        c(Sub, 5, g(21, 28), g(22, 26), 0);
    }
    // parts that vanish: equal halves, zero blocks, no remainder
    c(Mul, 3, [g(33, 12), g(33, 12)].concat(), [g(34, 12), g(34, 12)].concat(), 0);
    c(Mul, 3, [vec![0; 13], g(35, 11)].concat(), [g(36, 3), vec![0; 17], vec![1]].concat(), 0);
    c(DivBig, 0, refn::mul::<N::X>(&[vec![0; 11], g(37, 9)].concat(), &g(38, 23)), g(38, 23), 0);
    if rich {
        c(Square, 0, [vec![0; 15], g(39, 15)].concat(), vec![], 0);
        c(DivBig, 0, [g(40, 5), vec![m; 35]].concat(), vec![m; 20], 0);
        c(Mul, 3, g(41, 33), g(42, 33), 0);
        c(Mul, 3, g(43, 64), g(44, 64), 0);
    }
    if N::FULL {
        c(Shl, 2, g(23, 6), vec![], 77);
        c(Shr, 2, g(23, 9), vec![], 77);
        c(Fmt, 0, g(24, 20), vec![], 0);
        // writers that fail, panic, and format numbers themselves
        c(Fmt, 1, g(65, 19), vec![], fmt_code(0, 0, 7));
        c(Fmt, 2, g(66, 18), vec![], fmt_code(0, 0, 3));
        c(Fmt, 3, g(67, 17), vec![], 0);
        if N::BIN {
            c(Fmt, 3, g(67, 16), vec![], if rich { 1 } else { 2 });
        }
        c(MulW, 5, g(25, 5), vec![], m);
        c(SubW, 5, vec![1], vec![], m);
        if rich {
            c(DivW, 5, g(26, 5), vec![], 7);
            c(Fmt, 0, g(27, 7), vec![], 0);
            c(Shl, 2, g(28, 3), vec![], 500);
            c(Shr, 1, g(29, 43), vec![], 6);
        }
        if N::BIN {
            c(ToDec, 0, g(30, 40), vec![], 0);
            c(ToDec, 0, g(31, 6), vec![], 0);
            // zero low part in every division
            let ten = |places: usize| {
                let mut v = vec![0u64; places];
                v.push(3);
                refn::conv::<refn::D1, N::X>(&v)
            };
            c(ToDec, 0, ten(304), vec![], 0);
            c(ToDec, 0, ten(400), vec![], 0);
            if rich {
                c(ToDec, 0, g(32, 75), vec![], 0);
                c(Fmt, 0, g(24, 20), vec![], 1);
            }
        }
        let mut t = |s: &str| v.push(Call { ty: N::NAME, op: Parse, form: 0, a: vec![], b: vec![], n: 0, s: s.into() });
        t("123456789012345678901234567890123456789012345678901234567890");
        t("0x123456789abcdef0123456789abcdef0123456789abcdef");
        t("12345678901234567890x2345678901234567890");
        t(&"9876543210".repeat(30));
    }
}

/// The calls between which histories and schedules are explored. The number of calls is fixed, so
/// that a call is named by its index.
fn core_calls() -> Vec<Call> {
    let mut v = vec![];
    use babs::*;
    calls_of::<UBigBin8>(&mut v, true);
    calls_of::<UBigDec64>(&mut v, false);
    calls_of::<UBigDec8>(&mut v, true);
    calls_of::<UBigBin64>(&mut v, true);
    calls_of::<UBigBin16>(&mut v, false);
    calls_of::<UBigDec16>(&mut v, false);
    calls_of::<UBigBin32>(&mut v, false);
    calls_of::<UBigDec32>(&mut v, false);
    #[cfg(babs_tiny)]
    {
        v.clear();
        calls_of::<tiny::Tiny6>(&mut v, false);
        calls_of::<tiny::Tiny10>(&mut v, false);
        for n in [4, 5, 7, 9, 11, 15] {
            let r = 6;
            let (a, b) = (generic(r, 41, n), generic(r, 42, n));
            v.push(Call { ty: "tiny6", op: Mul, form: 3, a: a.clone(), b: b.clone(), n: 0, s: String::new() });
            v.push(Call { ty: "tiny6", op: Square, form: 0, a: a.clone(), b: vec![], n: 0, s: String::new() });
            v.push(Call { ty: "tiny6", op: DivBig, form: 0, a: generic(r, 43, 2 * n), b, n: 0, s: String::new() });
        }
    }
    v
}

const SIZES: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35,
    36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 52, 60, 63, 64, 65, 66, 68, 79, 80, 81, 84, 85, 95, 96, 97, 100, 112, 127, 128,
    129, 130, 131, 132, 148, 160, 191, 192, 193, 212, 255, 256, 257, 258, 276, 300, 384,
];

/// The same calls in many sizes
fn sized<N: Num>(v: &mut Vec<Call>) {
    let r = <N::X as Radix>::R;
    let g = |s, n| generic(r, s, n);
    let mut c = |op, form, a: Vec<u64>, b: Vec<u64>, n| v.push(Call { ty: N::NAME, op, form, a, b, n, s: String::new() });
    for &n in SIZES {
        c(Mul, 3, g(50, n), g(51, n), 0);
        c(Square, 0, g(52, n), vec![], 0);
        c(DivBig, 0, g(53, 2 * n), g(54, n), 0);
        if N::WBITS != 16 && N::WBITS != 32 {
            c(DivBig, 0, g(55, n + 2), g(56, n), 0);
            c(Mul, 3, g(57, n), g(58, n / 2 + 1), 0);
            c(RemBig, 0, g(63, 3 * n + 1), g(64, n), 0);
        }
        if N::BIN {
            c(ToDec, 0, g(59, n), vec![], 0);
            if N::WBITS == 64 && n <= 60 {
                c(Shl, 2, g(60, 5), vec![], 7 * n as u64);
                c(Shr, 1, g(61, 2 * n), vec![], 11 * n as u64);
            }
        } else if N::WBITS == 64 && n <= 60 {
            c(Shl, 2, g(60, 5), vec![], 7 * n as u64);
            c(Shr, 1, g(61, 20), vec![], 11 * n as u64);
            c(Pow, 1, g(62, 1), vec![], n as u64);
        }
    }
}

pub struct Alphabet {
    pub calls: Vec<Call>,
    /// how many of them are not of the sized ones
    pub core: usize,
    /// the groups of sized calls
    pub groups: Vec<std::ops::Range<usize>>,
    base: Vec<std::sync::OnceLock<String>>,
    plain: Vec<std::sync::OnceLock<String>>,
}

impl Alphabet {
    pub fn new() -> Alphabet {
        let mut calls = core_calls();
        let core = calls.len();
        let mut groups = vec![];
        macro_rules! group {
            ($($t:ty),*) => { $(
                let a = calls.len();
                sized::<$t>(&mut calls);
                groups.push(a..calls.len());
            )* };
        }
        use babs::*;
        #[cfg(babs_tiny)]
        group!(tiny::Tiny6);
        group!(UBigBin8, UBigDec64, UBigBin64, UBigDec8);
        group!(UBigBin16, UBigDec16, UBigBin32, UBigDec32);
        let base = calls.iter().map(|_| Default::default()).collect();
        let plain = calls.iter().map(|_| Default::default()).collect();
        Alphabet { calls, core, groups, base, plain }
    }
    /// What a call does as the first one of a process; empty if it does not end well even then
    pub fn base(&self, i: usize) -> &str {
        self.base[i].get_or_init(|| forked(20, &mut || (), || self.calls[i].run().show()).unwrap_or_default())
    }
    /// What a formatting gives into an ordinary string
    fn plain(&self, i: usize) -> &str {
        self.plain[i].get_or_init(|| {
            let mut c = self.calls[i].clone();
            c.form = 0;
            c.n = fmt_code(fmt_decode(c.n).0 as u64, 0, 0);
            forked(20, &mut || (), || c.run().show()).unwrap_or_default()
        })
    }
    fn usable(&self, i: usize) -> bool {
        !self.base(i).is_empty()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// a call, so many times
    Call(usize, u32),
    /// a call on a new thread
    Thread(usize),
    /// a call on a new thread, with operands of this one
    Across(usize),
    /// formatting within formatting, and after one that did not end: as into an ordinary string
    Within(usize),
    /// memory from now on comes filled with this
    Fill(u8),
    /// another environment: no variables, one processor, another directory
    Env,
}
use Step::Call as C;

fn steps_text(v: &[Step]) -> String {
    let one = |s: &Step| match s {
        C(i, 1) => i.to_string(),
        C(i, n) => format!("{}*{}", i, n),
        Step::Thread(i) => format!("t{}", i),
        Step::Across(i) => format!("a{}", i),
        Step::Within(i) => format!("w{}", i),
        Step::Fill(b) => format!("f{}", b),
        Step::Env => "e".into(),
    };
    v.iter().map(one).collect::<Vec<_>>().join(",")
}
fn steps_parse(s: &str) -> Vec<Step> {
    let num = |s: &str| s.parse().unwrap();
    s.split(',')
        .map(|s| match (s.as_bytes()[0], s.split_once('*')) {
            (b'e', _) => Step::Env,
            (b't', _) => Step::Thread(num(&s[1..])),
            (b'a', _) => Step::Across(num(&s[1..])),
            (b'w', _) => Step::Within(num(&s[1..])),
            (b'f', _) => Step::Fill(s[1..].parse().unwrap()),
            (_, Some((i, n))) => C(num(i), n.parse().unwrap()),
            _ => C(num(s), 1),
        })
        .collect()
}
fn step_call(s: &Step) -> Option<usize> {
    match s {
        C(i, _) | Step::Thread(i) | Step::Across(i) | Step::Within(i) => Some(*i),
        _ => None,
    }
}

/// Perform a history in this process: number of calls, or the step that fails and what it gave
fn run_steps(al: &Alphabet, v: &[Step]) -> Result<u64, (usize, String)> {
    let mut n = 0;
    for (i, s) in v.iter().enumerate() {
        match s {
            C(c, times) => {
                for _ in 0..*times {
                    let o = al.calls[*c].run().show();
                    n += 1;
                    if o != al.base[*c].get().map_or("", |s| s) {
                        return Err((i, o));
                    }
                }
            }
            Step::Thread(c) => {
                let call = al.calls[*c].clone();
                let th = std::thread::Builder::new().stack_size(32 << 20).spawn(move || call.run().show());
                let o = th.unwrap().join().unwrap_or("a panic of the thread".into());
                n += 1;
                if o != al.base[*c].get().map_or("", |s| s) {
                    return Err((i, o));
                }
            }
            Step::Across(c) => {
                let o = al.calls[*c].run_across().show();
                n += 1;
                if o != al.base[*c].get().map_or("", |s| s) {
                    return Err((i, o));
                }
            }
            Step::Within(c) => {
                let o = al.calls[*c].run().show();
                n += 1;
                if o != al.plain[*c].get().map_or("", |s| s) {
                    return Err((i, o));
                }
            }
            Step::Fill(b) => FILL.store(*b as u32, Relaxed),
            Step::Env => {
                let vars: Vec<_> = std::env::vars_os().map(|x| x.0).collect();
                for k in vars {
                    std::env::remove_var(k);
                }
                std::env::set_var("RUST_BACKTRACE", "full");
                let _ = std::env::set_current_dir("/");
                let mask = 1u64;
                unsafe { sys::sched_setaffinity(0, 8, &mask) };
            }
        }
    }
    Ok(n)
}

/// The outcome a step has to have
fn step_want(al: &Alphabet, s: &Step) -> String {
    match (s, step_call(s)) {
        (Step::Within(c), _) => al.plain(*c).to_string(),
        (_, Some(c)) => al.base(c).to_string(),
        _ => String::new(),
    }
}

/// A history from the initial state, in a process of its own
fn history(al: &Alphabet, v: &[Step], beat: &mut dyn FnMut()) -> Result<u64, (usize, String)> {
    for s in v {
        if let Some(c) = step_call(s) {
            al.base(c);
            if matches!(s, Step::Within(_)) {
                al.plain(c);
            }
        }
    }
    match forked(90, beat, || match run_steps(al, v) {
        Ok(n) => format!("ok {}", n),
        Err((i, o)) => format!("fail {} {}", i, o),
    }) {
        Ok(t) => {
            let mut f = t.splitn(3, ' ');
            match (f.next(), f.next().and_then(|x| x.parse::<u64>().ok()), f.next()) {
                (Some("ok"), Some(n), _) => Ok(n),
                (Some("fail"), Some(i), Some(o)) => Err((i as usize, o.to_string())),
                _ => Err((v.len() - 1, format!("no outcome: {}", t.chars().take(200).collect::<String>()))),
            }
        }
        Err(e) => Err((v.len() - 1, e)),
    }
}

fn steps_case(al: &Alphabet, v: &[Step]) -> String {
    let names: Vec<String> = v.iter().filter_map(step_call).take(6).map(|c| al.calls[c].text()).collect();
    format!("kind=calls seq={} calls={}", steps_text(v), names.join("||"))
}

/// Explore one history; one that fails is made short.
fn explore(w: &mut W, al: &Alphabet, v: &[Step]) -> bool {
    let mut v: Vec<Step> = v.to_vec();
    v.retain(|s| step_call(s).map_or(true, |c| al.usable(c)));
    if w.stopped() || v.is_empty() {
        return !w.stopped();
    }
    let r = history(al, &v, &mut || w.beat());
    match r {
        Ok(n) => {
            w.transitions += n;
            w.states += 1;
            w.traces += 1;
            let key: Vec<u64> = v.iter().map(|s| match s {
                C(i, n) => *i as u64 | (*n as u64) << 32,
                Step::Thread(i) => *i as u64 | 1 << 62,
                Step::Across(i) => *i as u64 | 1 << 62 | 1 << 61,
                Step::Within(i) => *i as u64 | 1 << 62 | 1 << 60,
                Step::Fill(b) => *b as u64 | 2 << 62,
                Step::Env => 3 << 62,
            }).collect();
            w.fingerprint(hash(20, &key));
            true
        }
        Err((i, got)) => {
            let mut best = (v[..=i].to_vec(), got);
            let last = v[i].clone();
            let pre = &v[..i];
            let mut tries: Vec<Vec<Step>> = vec![vec![last.clone()]];
            tries.extend(pre.iter().rev().map(|s| vec![s.clone(), last.clone()]));
            if i >= 2 {
                tries.extend(pre[1..].iter().rev().map(|s| vec![pre[0].clone(), s.clone(), last.clone()]));
            }
            let end = Instant::now() + Duration::from_secs(20);
            for t in tries {
                if Instant::now() > end || t.len() >= best.0.len() {
                    continue;
                }
                if let Err((k, got)) = history(al, &t, &mut || w.beat()) {
                    best = (t[..=k].to_vec(), got);
                    break;
                }
            }
            let want = step_want(al, best.0.last().unwrap());
            w.fail(best.0.len(), steps_case(al, &best.0), best.1, want);
            false
        }
    }
}

struct Partner {
    ctx: Arc<Ctx>,
    th: Option<std::thread::JoinHandle<()>>,
}

impl Partner {
    /// Its call is performed `reps` times
    fn new(calls: &[Call], reps: u64) -> Partner {
        let ctx = Arc::new(Ctx { m: Mutex::new(S::default()), cv: Condvar::new() });
        let c = ctx.clone();
        let calls = calls.to_vec();
        let body = move || loop {
            let (job, target) = {
                let mut s = c.m.lock().unwrap();
                loop {
                    if s.quit {
                        return;
                    }
                    if s.b_go {
                        if let Some(j) = s.job.take() {
                            break j;
                        }
                    }
                    s = c.cv.wait(s).unwrap();
                }
            };
            let (o, n) = with_points(false, target, &*c, || {
                let first = calls[job].run();
                for _ in 1..reps {
                    let o = calls[job].run();
                    if o.show() != first.show() {
                        return o;
                    }
                }
                first
            });
            let mut s = c.m.lock().unwrap();
            s.out = Some(o);
            s.b_points = n;
            s.b_done = true;
            c.cv.notify_all();
        };
        let th = std::thread::Builder::new().stack_size(64 << 20).spawn(body).unwrap();
        Partner { ctx, th: Some(th) }
    }
    /// Run call `a`, preempted at its point `ta`, and the partner's call, preempted at its point `tb`.
    fn schedule(&self, a: &Call, ta: u64, tb: u64) -> Sched {
        {
            let mut s = self.ctx.m.lock().unwrap();
            *s = S { job: Some((0, tb)), ..S::default() };
        }
        let (oa, na) = with_points(true, ta, &*self.ctx, || a.run());
        let mut s = self.ctx.m.lock().unwrap();
        s.a_done = true;
        s.b_go = true;
        self.ctx.cv.notify_all();
        while !s.b_done {
            s = self.ctx.cv.wait(s).unwrap();
        }
        Sched { oa: oa.show(), ob: s.out.take().unwrap().show(), na, nb: s.b_points, blocked: s.blocked }
    }
}

impl Drop for Partner {
    fn drop(&mut self) {
        self.ctx.m.lock().unwrap().quit = true;
        self.ctx.cv.notify_all();
        let _ = self.th.take().unwrap().join();
    }
}

struct Sched {
    oa: String,
    ob: String,
    na: u64,
    nb: u64,
    blocked: bool,
}

fn sched_text(al: &Alphabet, pre: Option<usize>, a: usize, b: usize, reps: u64, ta: u64, tb: u64) -> String {
    let p = pre.map_or("-".to_string(), |p| p.to_string());
    let pt = pre.map_or("-".to_string(), |p| al.calls[p].text());
    format!("kind=sched pre={} a={} b={} reps={} ta={} tb={} calls={}||{}||{}", p, a, b, reps, ta, tb, pt, al.calls[a].text(), al.calls[b].text())
}

/// One schedule after a call `pre`, in this process
fn one_schedule(al: &Alphabet, p: &Partner, pre: Option<usize>, a: usize, b: usize, ta: u64, tb: u64) -> Result<Sched, (String, String)> {
    let base = |i: usize| al.base[i].get().cloned().unwrap_or_default();
    if let Some(c) = pre {
        let o = al.calls[c].run().show();
        if o != base(c) {
            return Err((o, base(c)));
        }
    }
    let r = p.schedule(&al.calls[a], ta, tb);
    if r.oa != base(a) {
        return Err((r.oa, base(a)));
    }
    if r.ob != base(b) {
        return Err((r.ob, base(b)));
    }
    Ok(r)
}

/// All schedules of the pair with at most two preemptions, where of more than `lim` points of a
/// call only the first and last `lim`/2 are used for the second preemption. In a process of its own. The
/// second call is performed `reps` times.
#[allow(clippy::too_many_arguments)]
fn pair(w: &mut W, al: &Alphabet, pre: Option<usize>, a: usize, b: usize, reps: u64, two: bool, lim: u64) -> bool {
    if w.stopped() {
        return false;
    }
    if !al.usable(a) || !al.usable(b) || pre.is_some_and(|p| !al.usable(p)) {
        w.note("pairs left out: with a call that does not end in a fresh process", 1);
        return true;
    }
    let slot = w.slot;
    let out = forked(300, &mut || w.beat(), || {
        sys::pin(slot);
        let p = Partner::new(&al.calls[b..=b], reps);
        let (mut na, mut ta, mut blocked, mut count) = (1, 0, 0, 0u64);
        while ta <= na {
            let mut tb = 0;
            // the first schedule is the one in which b is not preempted
            loop {
                let t2 = if tb == 0 { u64::MAX } else { tb - 1 };
                let r = match one_schedule(al, &p, pre, a, b, ta, t2) {
                    Ok(r) => r,
                    Err((got, want)) => return format!("fail\x01{}\x01{}\x01{}\x01{}", ta, t2, got, want),
                };
                na = na.max(r.na);
                let nb = r.nb;
                count += 1;
                if r.blocked {
                    blocked += 1;
                    if blocked == MAX_BLOCKED {
                        return format!("ok\x01{}\x01{}\x01{}", count, na, blocked);
                    }
                }
                tb += 1;
                if tb == lim / 2 && nb > lim {
                    tb = nb - lim / 2;
                }
                if !two || tb > nb || ta == na {
                    break;
                }
            }
            if ta == na {
                break;
            }
            ta += 1;
        }
        format!("ok\x01{}\x01{}\x01{}", count, na, blocked)
    });
    let size = al.calls[a].a.len() + al.calls[b].a.len();
    match out {
        Ok(t) => {
            let f: Vec<&str> = t.split('\x01').collect();
            if f[0] == "ok" {
                let n = |i: usize| f[i].parse::<u64>().unwrap();
                w.transitions += n(1);
                w.states += n(1);
                w.traces += n(1);
                w.note("schedules", n(1));
                w.note("scheduling points", n(2));
                if n(3) > 0 {
                    w.note("schedules in which a thread waited for the other", n(3));
                }
                if n(3) >= MAX_BLOCKED as u64 {
                    w.note("pairs left early because the threads wait for each other", 1);
                }
                w.fingerprint(hash(21, &[pre.map_or(0, |p| p as u64 + 1), a as u64, b as u64]));
                return true;
            }
            let (got, want) = if f.len() == 5 { (f[3], f[4]) } else { ("no outcome", "") };
            let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            w.fail(size, sched_text(al, pre, a, b, reps, n(1), n(2)), got.into(), want.into());
        }
        Err(e) => w.fail(size, sched_text(al, pre, a, b, reps, 0, u64::MAX), e, "the outcomes of the calls alone".into()),
    }
    false
}

#[cfg(not(babs_access))]
pub fn c20(p: &mut Plan) {
    let al = Arc::new(Alphabet::new());
    let n = al.core;
    let hooked = cfg!(babs_tiny);
    let thorough = p.thorough;
    // pairs of calls, each from the initial state
    for i in 0..n {
        let al = al.clone();
        p.job("histories of two calls", move |w| {
            for j in 0..n {
                if !explore(w, &al, &[C(i, 1), C(j, 1)]) {
                    return;
                }
            }
            w.sample(|| format!("{} then {}", al.calls[i].text(), al.calls[n - 1].text()));
        });
    }
    {
        let al = al.clone();
        p.job("calls within calls", move |w| {
            let v: Vec<usize> = (0..n).filter(|&i| al.calls[i].op == Fmt && al.calls[i].form > 0 && !al.plain(i).is_empty()).collect();
            for &i in &v {
                for &j in &v {
                    if !explore(w, &al, &[Step::Within(i), Step::Within(j)]) {
                        return;
                    }
                }
            }
        });
    }
    // after a call, all others, in both orders; on this thread and on new ones
    for i in 0..n {
        let al = al.clone();
        p.job("histories of a call and all others", move |w| {
            let mut v = vec![C(i, 1)];
            v.extend((0..n).map(|j| C(j, 1)));
            let mut u = vec![C(i, 1)];
            u.extend((0..n).rev().map(|j| C(j, 1)));
            let mut t = vec![C(i, 1)];
            for j in 0..n {
                t.extend([Step::Thread(j), C((i + j) % n, 1)]);
                if j % 4 == i % 4 {
                    t.push(Step::Across(j));
                }
            }
            let _ = explore(w, &al, &v) && explore(w, &al, &u) && explore(w, &al, &t);
        });
    }
    // the same call many times, then all others
    let small = |al: &Alphabet, i: usize| {
        let c = &al.calls[i];
        c.a.len() + c.b.len() + c.s.len() + if matches!(c.op, Pow | Shl | Shr) { c.n as usize / 8 } else { 0 } <= 10
    };
    let tiny: Vec<usize> = (n..al.calls.len()).filter(|&i| small(&al, i) && (thorough || al.groups[..3].iter().any(|g| g.contains(&i)))).collect();
    for i in (0..n).chain(tiny) {
        let al = al.clone();
        let small = small(&al, i);
        p.job("histories of a call repeated", move |w| {
            // more often than 16 bits count, where that takes a moment only
            let reps = match (small, thorough) {
                (true, true) => 1_000_000,
                (true, false) => 70_000,
                (false, true) => 5_000,
                (false, false) => 300,
            };
            let mut v = vec![C(i, reps)];
            v.extend((0..n).map(|j| C(j, 1)));
            v.extend(al.groups.iter().flat_map(|g| g.clone()).skip(i % 3).step_by(if thorough { 1 } else { 3 }).map(|j| C(j, 1)));
            explore(w, &al, &v);
        });
    }
    // two calls in turn, many times, then all others
    let turns = p.pick(70, 300);
    for i in 0..n {
        let al = al.clone();
        p.job("histories of two calls in turn", move |w| {
            for j in 0..i {
                if al.calls[i].ty != al.calls[j].ty || !thorough && (i + j) % 2 == 0 {
                    continue;
                }
                let mut v = vec![];
                for _ in 0..turns {
                    v.extend([C(i, 1), C(j, 1)]);
                }
                v.extend((0..n).filter(|&k| al.calls[k].ty == al.calls[i].ty).map(|k| C(k, 1)));
                if !explore(w, &al, &v) {
                    return;
                }
            }
        });
    }
    // three calls
    let sub: Vec<usize> = if thorough { (0..n).collect() } else { (0..n).filter(|i| i % 4 == 1 || n < 60).collect() };
    for &i in &sub {
        let (al, sub) = (al.clone(), sub.clone());
        p.job("histories of three calls", move |w| {
            for &j in &sub {
                // all third calls, each after the two
                let mut v = vec![];
                for &k in &sub {
                    v.extend([C(i, 1), C(j, 1), C(k, 1)]);
                }
                if !explore(w, &al, &v) {
                    return;
                }
            }
        });
    }
    // sizes: a call of one size, then of all others
    let groups = if thorough { al.groups.clone() } else { al.groups[..if hooked { 2 } else { 3 }].to_vec() };
    for gr in groups {
        for lo in gr.clone().step_by(8) {
            let (al, gr) = (al.clone(), gr.clone());
            p.job("histories of calls of all sizes", move |w| {
                for i in lo..(lo + 8).min(gr.end) {
                    let mut v = vec![C(i, 1)];
                    v.extend(gr.clone().map(|j| C(j, 1)));
                    let mut u = vec![C(i, 1)];
                    u.extend(gr.clone().rev().map(|j| C(j, 1)));
                    let mut t = vec![C(i, 80)];
                    t.extend(gr.clone().step_by(7).map(|j| C(j, 1)));
                    if !(explore(w, &al, &v) && explore(w, &al, &u) && explore(w, &al, &t)) {
                        return;
                    }
                    if thorough {
                        for j in gr.clone() {
                            if !explore(w, &al, &[C(i, 1), C(j, 1)]) {
                                return;
                            }
                        }
                    }
                }
            });
        }
    }
    // calls that have much in common
    let more: Vec<usize> = al.groups[..if hooked { 1 } else { 4 }].iter().flat_map(|g| g.clone().step_by(if thorough { 1 } else { 7 })).collect();
    for i in (0..al.core).chain(more) {
        let al = al.clone();
        p.job("calls of nearly the same operands in turn", move |w| {
            if w.stopped() {
                return;
            }
            match twins(&al, i, None, thorough, &mut || w.beat()) {
                Ok(n) => {
                    if n == 1 {
                        w.note("calls that do the same always, but not as the reference does", 1);
                    }
                    w.transitions += n;
                    w.states += n / 2;
                    w.traces += n / 2;
                    w.fingerprint(hash(24, &[i as u64]));
                }
                Err((j, got, want)) => w.fail(2, format!("kind=twins call={} twin={} thorough={} calls={}", i, j, thorough as u8, al.calls[i].text()), got, want),
            }
        });
    }
    // memory filled with anything, and another environment
    for s in [Step::Fill(0), Step::Fill(0xff), Step::Fill(0xa5), Step::Fill(1), Step::Env] {
        let al = al.clone();
        p.job("histories in other memory and another environment", move |w| {
            for i in 0..n {
                if !explore(w, &al, &[s.clone(), C(i, 1)]) {
                    return;
                }
            }
            let mut v = vec![s.clone()];
            v.extend((0..al.calls.len()).map(|j| C(j, 1)));
            explore(w, &al, &v);
        });
    }
    if !hooked {
        use babs::*;
        placed::<UBigBin8>(p);
        placed::<UBigDec8>(p);
        placed::<UBigBin64>(p);
        placed::<UBigDec64>(p);
        placed::<UBigBin16>(p);
        placed::<UBigDec16>(p);
        placed::<UBigBin32>(p);
        placed::<UBigDec32>(p);
    }
    if !hooked {
        for i in 0..n {
            let al = al.clone();
            p.job("many threads in the midst of a call", move |w| {
                let j = (1..n).map(|d| (i + d) % n).find(|&j| al.calls[j].ty == al.calls[i].ty).unwrap_or(i);
                crowds(w, &al, i, j, thorough);
            });
        }
    }
    // schedules
    for a in 0..n {
        let al = al.clone();
        p.job("schedules of two calls", move |w| {
            for b in 0..n {
                let two = if thorough { !hooked || (a + b) % 3 == 0 } else { (a * 7 + b * 3) % if hooked { 40 } else { 10 } == 0 || a == b };
                if !hooked || thorough || (a + b) % 3 == 0 {
                    // and many calls while one is stopped
                    if !hooked && al.calls[a].ty == al.calls[b].ty && !pair(w, &al, None, a, b, if thorough { 300 } else { 20 }, false, 0) {
                        return;
                    }
                    if !pair(w, &al, None, a, b, 1, two, if thorough { 24 } else { 8 }) {
                        return;
                    }
                }
            }
            w.sample(|| sched_text(&al, None, a, n / 2, 1, 1, u64::MAX));
        });
    }
}

/// `k` threads in the midst of a call each, stopped at scheduling point `t` (the calls `i` and `j` in
/// turn), while this thread performs both calls; then they go on in their order or in the opposite one. The number
/// of points of call `i` and whether some thread had to wait for another one, or what was wrong.
#[cfg(not(babs_access))]
fn crowd(al: &Alphabet, i: usize, j: usize, k: usize, t: u64, back: bool) -> Result<(u64, bool), (String, String)> {
    let base = |c: usize| al.base[c].get().cloned().unwrap_or_default();
    let ctxs: Vec<Ctx> = (0..k).map(|_| Ctx { m: Mutex::new(S::default()), cv: Condvar::new() }).collect();
    let mut blocked = false;
    let mut points = 0;
    let mut bad = None;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (n, c) in ctxs.iter().enumerate() {
            let call = &al.calls[if n % 2 == 0 { i } else { j }];
            let p: usize = c as *const Ctx as usize;
            let f = move || {
                let c = p as *const Ctx;
                let (o, n) = with_points(true, t, c, || call.run());
                let c = unsafe { &*c };
                let mut s = c.m.lock().unwrap();
                s.a_done = true;
                s.out = Some(o);
                s.b_points = n;
                c.cv.notify_all();
            };
            hs.push(Some(std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, f).unwrap()));
            let mut s = c.m.lock().unwrap();
            while !s.b_go && !s.a_done {
                s = c.cv.wait(s).unwrap();
            }
        }
        let mut probe = |c: usize| {
            let o = al.calls[c].run().show();
            if o != base(c) && bad.is_none() {
                bad = Some((o, base(c)));
            }
        };
        probe(i);
        probe(j);
        for m in 0..k {
            let n = if back { k - 1 - m } else { m };
            ctxs[n].m.lock().unwrap().b_done = true;
            ctxs[n].cv.notify_all();
            let _ = hs[n].take().unwrap().join();
            let s = ctxs[n].m.lock().unwrap();
            blocked |= s.blocked;
            let (c, o) = (if n % 2 == 0 { i } else { j }, s.out.as_ref().map_or("no outcome".into(), |o| o.show()));
            if n % 2 == 0 {
                points = s.b_points;
            }
            if o != base(c) && bad.is_none() {
                bad = Some((o, base(c)));
            }
        }
    });
    match bad {
        Some(b) => Err(b),
        None => Ok((points, blocked)),
    }
}

/// All of that for a pair of calls, in a process of its own
#[cfg(not(babs_access))]
fn crowds_of(al: &Alphabet, i: usize, j: usize, t: bool, beat: &mut dyn FnMut()) -> String {
    let out = forked(300, beat, || {
        let (mut n, mut points, mut wait) = (0, 1, 0);
        let mut at = 0;
        while at < points {
            for k in if t { vec![2, 3, 4, 5, 8, 9, 16, 17, 32, 33, 64] } else { vec![2, 4, 8, 16, 32] } {
                for back in if k > 8 && !t { vec![false] } else { vec![false, true] } {
                    match crowd(al, i, j, k, at, back) {
                        Ok((p, b)) => {
                            n += k as u64 + 2;
                            points = points.max(p);
                            wait += b as u32;
                            if wait == MAX_BLOCKED {
                                return format!("ok\x01{}", n);
                            }
                        }
                        Err((got, want)) => return format!("fail\x01{}\x01{}\x01{}\x01{}\x01{}", k, at, back as u8, got, want),
                    }
                }
            }
            // some first and last points
            at += 1;
            if !t && at == 5 && points > 9 {
                at = points - 4;
            }
        }
        format!("ok\x01{}", n)
    });
    out.unwrap_or_else(|e| format!("fail\x010\x010\x010\x01{}\x01the outcomes of the calls alone", e))
}

#[cfg(not(babs_access))]
fn crowds(w: &mut W, al: &Alphabet, i: usize, j: usize, thorough: bool) {
    if w.stopped() || !al.usable(i) || !al.usable(j) {
        return;
    }
    let out = crowds_of(al, i, j, thorough, &mut || w.beat());
    let f: Vec<&str> = out.split('\x01').collect();
    if f[0] == "ok" {
        let n: u64 = f[1].parse().unwrap();
        w.transitions += n;
        w.states += n;
        w.traces += 1;
        w.fingerprint(hash(25, &[i as u64, j as u64]));
        return;
    }
    let g = |i: usize| f.get(i).copied().unwrap_or("0");
    w.fail(3, format!("kind=crowd a={} b={} k={} t={} back={} calls={}||{}", i, j, g(1), g(2), g(3), al.calls[i].text(), al.calls[j].text()), g(4).into(), g(5).into());
}

#[cfg(not(babs_access))]
pub fn replay_crowd(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let al = Alphabet::new();
    let g = |k: &str| kv[k].parse::<usize>().unwrap();
    al.usable(g("a"));
    al.usable(g("b"));
    if g("k") == 0 {
        let out = crowds_of(&al, g("a"), g("b"), false, &mut || ());
        let f: Vec<&str> = out.split('\x01').collect();
        return (f[0] == "ok", f.get(4).unwrap_or(&"as alone").to_string(), f.get(5).unwrap_or(&"as alone").to_string());
    }
    match crowd(&al, g("a"), g("b"), g("k"), g("t") as u64, g("back") == 1) {
        Ok(_) => (true, "as alone".into(), "as alone".into()),
        Err((got, want)) => (false, got, want),
    }
}

/// A call and its twins in turn, in one process: the number of calls, or the twin at which one of
/// the two did not do as in a fresh process
#[cfg(not(babs_access))]
fn twins(al: &Alphabet, i: usize, only: Option<usize>, thorough: bool, beat: &mut dyn FnMut()) -> Result<u64, (usize, String, String)> {
    let a = &al.calls[i];
    if !al.usable(i) || a.op == Fmt && a.form > 0 {
        return Ok(0);
    }
    let all = a.twins(if thorough { 1000 } else if i < al.core { 40 } else { 10 });
    let list: Vec<usize> = match only {
        // with the ones before, should it take more than one
        Some(j) => vec![j.saturating_sub(1), j],
        None => (0..all.len()).collect(),
    };
    let t = forked(120, beat, || {
        let mut n = 0;
        for &j in &list {
            for (k, c) in [(0, a), (1, &all[j])] {
                let got = c.run().show();
                n += 1;
                // by the reference, as long as that is what it does
                if got != c.want().show() {
                    return format!("fail\x01{}\x01{}\x01{}", j, k, got);
                }
            }
        }
        format!("ok\x01{}", n)
    });
    let t = t.unwrap_or_else(|e| format!("fail\x01{}\x010\x01{}", list[0], e));
    let f: Vec<&str> = t.splitn(4, '\x01').collect();
    if f[0] == "ok" {
        return Ok(f[1].parse().unwrap());
    }
    let j: usize = f.get(1).and_then(|x| x.parse().ok()).unwrap_or(0);
    let c = if f.get(2) == Some(&"0") { a } else { &all[j] };
    let got = f.get(3).unwrap_or(&"no outcome").to_string();
    let want = forked(60, beat, || c.run().show()).unwrap_or_else(|e| e);
    if got == want {
        // it does that in a fresh process as well
        return Ok(1);
    }
    Err((j, got, want))
}

#[cfg(not(babs_access))]
pub fn replay_twins(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let al = Alphabet::new();
    let g = |k: &str| kv[k].parse::<usize>().unwrap();
    for only in [Some(g("twin")), None] {
        if let Err((_, got, want)) = twins(&al, g("call"), only, g("thorough") == 1, &mut || ()) {
            return (false, got, want);
        }
    }
    (true, "as in a fresh process".into(), "as in a fresh process".into())
}

/// What a call accesses of the memory that threads can share, the first time and the second time
#[cfg(babs_access)]
fn footprint(al: &Alphabet, i: usize) -> BTreeMap<usize, bool> {
    let t = forked(60, &mut || (), || {
        let mut m: BTreeMap<usize, bool> = BTreeMap::new();
        for _ in 0..2 {
            let (o, v) = access::recorded(|| al.calls[i].run());
            access::dropped(o);
            access::settle();
            for (a, wr) in v {
                *m.entry(a).or_default() |= wr;
            }
        }
        m.iter().map(|(a, w)| format!("{}:{}", a, *w as u8)).collect::<Vec<_>>().join(",")
    });
    let t = t.unwrap_or_default();
    t.split(',').filter_map(|s| s.split_once(':')).map(|(a, w)| (a.parse().unwrap(), w == "1")).collect()
}

/// Partial-order exploration: two calls that access no common location which any call writes do the
/// same in every schedule. The others are explored in all schedules of two preemptions between their
/// accesses, in several states.
#[cfg(babs_access)]
pub fn c20(p: &mut Plan) {
    let al = Arc::new(Alphabet::new());
    let thorough = p.thorough;
    let shard: Option<usize> = std::env::var("MC_SHARD").ok().and_then(|s| s.split('/').next()?.parse().ok());
    // core calls and some of the sized ones
    let pick: Vec<usize> = (0..al.core)
        .chain(al.groups[..if thorough { 4 } else { 2 }].iter().flat_map(|g| g.clone().step_by(if thorough { 3 } else { 11 })))
        .filter(|&i| al.usable(i))
        .collect();
    let foot: Vec<BTreeMap<usize, bool>> = pick.iter().map(|&i| footprint(&al, i)).collect();
    let mut written = std::collections::BTreeSet::new();
    for f in &foot {
        written.extend(f.iter().filter(|x| *x.1).map(|x| *x.0));
    }
    // calls by what they access of it
    let mut groups: BTreeMap<Vec<(usize, bool)>, Vec<usize>> = BTreeMap::new();
    for (k, f) in foot.iter().enumerate() {
        let key: Vec<(usize, bool)> = f.iter().filter(|x| written.contains(x.0)).map(|(a, w)| (*a, *w)).collect();
        groups.entry(key).or_default().push(pick[k]);
    }
    let (npick, nwritten) = (pick.len() as u64, written.len() as u64);
    let groups: Vec<(Vec<usize>, Vec<usize>)> = groups
        .into_iter()
        .map(|(k, v)| {
            // spread over the group
            let most = if thorough { 12 } else { 6 };
            let v: Vec<usize> = if v.len() <= most { v } else { (0..most).map(|i| v[i * (v.len() - 1) / (most - 1)]).collect() };
            (k.into_iter().map(|x| x.0).collect(), v)
        })
        .collect();
    let ngroups = groups.len() as u64;
    p.job("calls by the shared memory they access", move |w| {
        w.note("calls whose accesses were recorded", npick);
        w.note("shared locations that some call writes", nwritten);
        w.note("classes of calls by the shared locations they access", ngroups);
        w.note("pairs of calls that commute: one schedule stands for all", npick * npick);
        w.transitions += 2 * npick;
        w.states += npick;
        w.traces += npick;
        for i in 0..npick {
            w.fingerprint(hash(22, &[i]));
        }
        w.sample(|| format!("{} calls, {} shared locations written", npick, nwritten));
    });
    let meet = |x: &[usize], y: &[usize]| x.iter().any(|a| y.contains(a));
    let mut todo = vec![];
    for (k, ga) in &groups {
        for (l, gb) in &groups {
            if k.is_empty() || l.is_empty() || !meet(k, l) {
                continue;
            }
            // calls that may set the scene: those that access any of it
            let pres: Vec<usize> = groups.iter().filter(|(m, _)| meet(m, k) || meet(m, l)).flat_map(|g| g.1.clone()).collect();
            for &a in ga {
                for &b in gb {
                    todo.push((None, a, b));
                    for &c in &pres {
                        todo.push((Some(c), a, b));
                    }
                }
            }
        }
    }
    // in an order that visits all corners early
    todo.sort_by_key(|&(c, a, b)| splitmix((c.map_or(0, |c| c + 1) as u64) << 40 | (a as u64) << 20 | b as u64));
    let todo = Arc::new(todo);
    let budget = Duration::from_secs(if thorough { 3600 } else { 75 });
    let shards = if shard.is_some() { 8 } else { 1 };
    for s in 0..shards {
        let (al, todo) = (al.clone(), todo.clone());
        p.job("schedules of two calls by access", move |w| {
            let end = Instant::now() + budget;
            for &(c, a, b) in todo.iter().skip(s).step_by(shards) {
                if Instant::now() > end {
                    w.note("out of time: pairs left out", 1);
                    return;
                }
                if !pair(w, &al, c, a, b, 1, true, 40) {
                    return;
                }
            }
        });
    }
}

/// Looks at an object
const LOOKS: usize = 11;
/// Changes of an object where it is
const CHANGES: usize = 11;
/// And more, one of which is enough in a sequence
const MORE_CHANGES: usize = 34;

/// One object that stays where it is, looked at and changed in turn
struct Placed<N: Num> {
    x: Box<N>,
    d: Vec<u64>,
    k: Box<N>,
    kd: Vec<u64>,
    /// short
    s: N,
    sd: Vec<u64>,
}

impl<N: Num> Placed<N> {
    fn new(start: usize) -> Self {
        let r = <N::X as Radix>::R;
        let n = [5, 23, 45][start];
        let (d, kd, sd) = (generic(r, 70, n), generic(r, 71, [4, 21, 22][start]), generic(r, 72, 2));
        Placed { x: Box::new(N::mk(&d)), d, k: Box::new(N::mk(&kd)), kd, s: N::mk(&sd), sd }
    }
    /// What a look shows, and what it should show
    fn look(&self, q: usize) -> (Out, Out) {
        let none: &[u64] = &[];
        let (x, k, s) = (&*self.x, &*self.k, &self.s);
        let want = |op, a: &[u64], b: &[u64], n| expect::<N>(op, 0, Args { a, b, n, s: "" }, None);
        let (d, kd, sd) = (&self.d[..], &self.kd[..], &self.sd[..]);
        let num = |v: N| Out::Num(v.dg());
        match q {
            0 => (guarded(|| num(x.square_())), want(Square, d, none, 0)),
            1 => (guarded(|| num(x.rr(Mul, x))), want(Square, d, none, 0)),
            2 => (guarded(|| num(x.rr(Mul, k))), want(Mul, d, kd, 0)),
            3 => (guarded(|| num(k.rr(Mul, x))), want(Mul, d, kd, 0)),
            4 if N::BIN => (guarded(|| Out::Num(x.todec())), want(ToDec, d, none, 0)),
            5 if N::FULL => (guarded(|| Out::Text(x.fmt(0, 0, 0))), want(Fmt, d, none, 0)),
            6 if N::BIN => (guarded(|| Out::Text(x.fmt(1, 0, 0))), want(Fmt, d, none, 1)),
            7 => (guarded(|| Out::Bits(x.cmpbits(k))), want(Cmp, d, kd, 0)),
            8 => (guarded(|| num(x.rr(Div, s))), want(Div, d, sd, 0)),
            9 => (guarded(|| num(x.rr(Rem, s))), want(Rem, d, sd, 0)),
            10 => (guarded(|| num(x.powr(2))), want(Pow, d, none, 2)),
            _ => (guarded(|| num(x.rr(Add, k))), want(Add, d, kd, 0)),
        }
    }
    fn change(&mut self, c: usize) {
        let r = <N::X as Radix>::R;
        let one = N::mk(&[1]);
        match c {
            0 => {
                self.x.add_(&one);
                self.d = refn::add::<N::X>(&self.d, &[1]);
            }
            1 => {
                if !self.d.is_empty() {
                    self.x.sub_(&one);
                    self.d = refn::sub::<N::X>(&self.d, &[1]).unwrap();
                }
            }
            2 if N::FULL => {
                self.x.shl_(3);
                self.d = refn::shl::<N::X>(&self.d, 3);
            }
            3 if N::FULL => {
                self.x.shr_(5);
                self.d = refn::shr::<N::X>(&self.d, 5);
            }
            4 => {
                self.x.mul_(&self.s);
                self.d = refn::mul::<N::X>(&self.d, &self.sd);
            }
            5 => {
                self.x.div_(&self.s);
                self.d = refn::divrem::<N::X>(&self.d, &self.sd).0;
            }
            6 => {
                self.x.rem_(&self.s);
                self.d = refn::divrem::<N::X>(&self.d, &self.sd).1;
            }
            7 => {
                self.x.clone_from(&self.k);
                self.d = self.kd.clone();
            }
            // others of as many digits
            8 => {
                self.d = generic(r, 73, self.d.len());
                *self.x = N::mk(&self.d);
            }
            9 => {
                std::mem::swap(&mut *self.x, &mut *self.k);
                std::mem::swap(&mut self.d, &mut self.kd);
            }
            10 => {
                self.k.add_(&one);
                self.kd = refn::add::<N::X>(&self.kd, &[1]);
            }
            // 11 to 30: words and digits
            11..=30 if N::FULL => {
                let op = [AddW, SubW, MulW, DivW, RemW][(c - 11) % 5];
                let v = generic(r, 74, 1)[0].max(2);
                let v = if c < 21 { v } else { 10 };
                let g = Args { a: &self.d, b: &[], n: v, s: "" };
                if let Out::Num(d) = expect::<N>(op, 0, g, None) {
                    self.x.word_(op, (c - 11) / 5 % 2 == 0, v);
                    self.d = d;
                }
            }
            31 => {
                let rem = self.x.divbig(&self.k).unwrap();
                let (q, r) = refn::divrem::<N::X>(&self.d, &self.kd);
                assert!(rem.same(&r));
                self.d = q;
            }
            32 => {
                self.x.rembig(&self.k).unwrap();
                self.d = refn::divrem::<N::X>(&self.d, &self.kd).1;
            }
            _ if N::FULL => {
                let one = self.d.len() % 2 == 1;
                self.x.set_(one);
                self.d = if one { vec![1] } else { vec![] };
            }
            _ => {}
        }
    }
    /// Looks and changes in turn: the looks performed, or what the last one shows and should show
    fn run(start: usize, v: &[usize]) -> Result<u64, (String, String)> {
        let mut p = Self::new(start);
        let mut n = 0;
        for (i, &q) in v.iter().enumerate() {
            if i % 2 == 1 {
                if let Out::Panic = guarded(|| {
                    p.change(q);
                    Out::Bits(0)
                }) {
                    return Err((format!("a panic in change {}", q), "none".into()));
                }
                continue;
            }
            let (got, want) = p.look(q);
            n += 1;
            if got != want {
                return Err((got.show(), want.show()));
            }
            if !p.x.same(&p.d) {
                return Err((Out::Num(p.x.dg()).show(), Out::Num(p.d.clone()).show()));
            }
        }
        if DAMAGE.swap(0, Relaxed) > 0 {
            return Err(("memory next to a block overwritten".into(), String::new()));
        }
        Ok(n)
    }
}

#[cfg(not(babs_access))]
fn placed<N: Num>(p: &mut Plan) {
    let thorough = p.thorough;
    for start in 0..3 {
        for first in 0..LOOKS {
            p.job(&format!("{} one object looked at and changed in place", N::NAME), move |w| {
                let t = forked(300, &mut || w.beat(), || {
                    let mut n = 0;
                    let mut one = |v: &[usize]| match Placed::<N>::run(start, v) {
                        Ok(k) => {
                            n += k;
                            None
                        }
                        Err((g, h)) => {
                            let v: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                            Some(format!("fail\x01{}\x01{}\x01{}", v.join(","), g, h))
                        }
                    };
                    for c1 in CHANGES..MORE_CHANGES {
                        for q2 in 0..LOOKS {
                            if let Some(f) = one(&[first, c1, q2]) {
                                return f;
                            }
                        }
                    }
                    for c1 in 0..CHANGES {
                        for q2 in 0..LOOKS {
                            for c2 in 0..CHANGES {
                                for q3 in if thorough { 0..LOOKS } else { first..first + 1 } {
                                    if let Some(f) = one(&[first, c1, q2, c2, q3]) {
                                        return f;
                                    }
                                }
                            }
                        }
                    }
                    format!("ok\x01{}", n)
                });
                let t = t.unwrap_or_else(|e| format!("fail\x01{}\x01{}\x01an outcome", first, e));
                let f: Vec<&str> = t.split('\x01').collect();
                if f[0] == "ok" {
                    let n: u64 = f[1].parse().unwrap();
                    w.transitions += n;
                    w.states += n / 3;
                    w.traces += n / 3;
                    w.fingerprint(hash(23, &[start as u64, first as u64, N::NAME.len() as u64, N::WBITS as u64]));
                } else {
                    let g = |i: usize| f.get(i).unwrap_or(&"").to_string();
                    w.fail(5, format!("kind=placed type={} start={} steps={}", N::NAME, start, g(1)), g(2), g(3));
                }
            });
        }
    }
}

pub fn replay_placed<N: Num>(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let v: Vec<usize> = kv["steps"].split(',').map(|x| x.parse().unwrap()).collect();
    match Placed::<N>::run(kv["start"].parse().unwrap(), &v) {
        Ok(_) => (true, "as the reference".into(), "as the reference".into()),
        Err((g, h)) => (false, g, h),
    }
}

pub fn replay_calls(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let al = Alphabet::new();
    let v = steps_parse(&kv["seq"]);
    match history(&al, &v, &mut || ()) {
        Ok(_) => (true, "as in a fresh process".into(), "as in a fresh process".into()),
        Err((i, o)) => (false, o, step_want(&al, &v[i])),
    }
}

pub fn replay_sched(kv: &BTreeMap<String, String>) -> (bool, String, String) {
    let al = Alphabet::new();
    let g = |k: &str| kv[k].parse::<u64>().unwrap();
    let (a, b) = (g("a") as usize, g("b") as usize);
    let pre = kv["pre"].parse::<usize>().ok();
    let good = (true, "as in a fresh process".to_string(), "as in a fresh process".to_string());
    if !al.usable(a) || !al.usable(b) || pre.is_some_and(|p| !al.usable(p)) {
        return good;
    }
    // state made by first uses may be in place or not
    let r = forked(60, &mut || (), || {
        let p = Partner::new(&al.calls[b..=b], g("reps"));
        for _ in 0..2 {
            if let Err((got, want)) = one_schedule(&al, &p, pre, a, b, g("ta"), g("tb")) {
                return format!("{}\x01{}", got, want);
            }
        }
        String::new()
    });
    match r {
        Ok(s) if s.is_empty() => {}
        Ok(s) => {
            let (x, y) = s.split_once('\x01').unwrap_or((&s, ""));
            return (false, x.into(), y.into());
        }
        Err(e) => return (false, e, "the outcomes of the calls alone".into()),
    }
    let mut w = W::new(0, None);
    if !pair(&mut w, &al, pre, a, b, g("reps"), g("reps") == 1, 40) {
        let f = w.fails.pop().unwrap();
        return (false, f.got, f.want);
    }
    good
}
