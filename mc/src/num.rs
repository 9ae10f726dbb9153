//! Uniform access to the number types of the library: every operation in every operand form, with
//! operands and results as plain digit vectors, and panics caught.

use crate::refn::{self, Radix};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// An operation of the public interface.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    AddW,
    SubW,
    MulW,
    DivW,
    RemW,
    Shl,
    Shr,
    Square,
    Pow,
    DivBig,
    RemBig,
    Cmp,
    New,
    FromWord,
    Consts,
    ToDec,
    Parse,
    Fmt,
}
use Op::*;

pub const ALL_OPS: &[Op] = &[
    Add, Sub, Mul, Div, Rem, AddW, SubW, MulW, DivW, RemW, Shl, Shr, Square, Pow, DivBig, RemBig, Cmp, New, FromWord,
    Consts, ToDec, Parse, Fmt,
];

/// Names of the operand forms per kind of operation.
pub fn forms(op: Op) -> &'static [&'static str] {
    match op {
        Add | Sub | Mul | Div | Rem => &["vv", "vr", "rv", "rr", "assign-v", "assign-r", "alias-rr", "alias-assign"],
        AddW | SubW | MulW | DivW | RemW => {
            &["digit-v", "digit-r", "digit-assign", "word-v", "word-r", "word-assign"]
        }
        Fmt => &["string", "writer-fails", "writer-panics", "writer-formats", "writer-fails-once"],
        Shl | Shr => &["v", "r", "assign"],
        Pow => &["v", "r"],
        DivBig | RemBig => &["method", "alias-method"],
        _ => &["-"],
    }
}

/// What an operation did.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out {
    Num(Vec<u64>),
    /// Quotient and remainder
    Two(Vec<u64>, Vec<u64>),
    /// Error result of a fallible method, and the operand afterwards
    Err(String, Vec<u64>),
    Bits(u64),
    Text(String),
    Panic,
    /// A borrowed operand changed
    Mutated(&'static str, Vec<u64>),
}

impl Out {
    pub fn show(&self) -> String {
        fn d(v: &[u64]) -> String {
            let s: Vec<String> = v.iter().map(|x| x.to_string()).collect();
            format!("[{}]", s.join(","))
        }
        match self {
            Out::Num(v) => d(v),
            Out::Two(q, r) => format!("quotient {} remainder {}", d(q), d(r)),
            Out::Err(e, v) => format!("Err({}) with operand {}", e, d(v)),
            Out::Bits(b) => format!("{:#b}", b),
            Out::Text(s) => format!("{:?}", s),
            Out::Panic => "a panic".to_string(),
            Out::Mutated(w, v) => format!("borrowed {} operand changed to {}", w, d(v)),
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
}

/// Run `f`; a panic is an outcome.
#[inline]
pub fn guarded<F: FnOnce() -> Out>(f: F) -> Out {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(_) => Out::Panic,
    }
}

pub trait Num: Clone + Ord + Send + Sync + 'static + Sized {
    type X: Radix;
    const NAME: &'static str;
    /// A binary number of the library (has hexadecimal output and conversion to decimal)
    const BIN: bool;
    /// Bits in the storage type of a digit
    const WBITS: u32;
    /// Has operations with words, shifts, parsing and formatting
    const FULL: bool;

    fn mk(d: &[u64]) -> Self;
    fn dg(&self) -> Vec<u64>;
    fn nrd(&self) -> usize;
    fn same(&self, d: &[u64]) -> bool;
    /// An operation between numbers, `x` and `y` having the digits `a` and `b`
    fn big(op: Op, form: u8, x: Self, y: Self, a: &[u64], b: &[u64]) -> Out;
    fn word(op: Op, form: u8, x: Self, a: &[u64], w: u64) -> Out;
    fn shift(op: Op, form: u8, x: Self, a: &[u64], n: usize) -> Out;
    fn square_(&self) -> Self;
    fn powv(self, e: usize) -> Self;
    fn powr(&self, e: usize) -> Self;
    fn divbig(&mut self, b: &Self) -> Result<Self, String>;
    fn rembig(&mut self, b: &Self) -> Result<(), String>;
    fn cmpbits(&self, b: &Self) -> u64;
    fn from_word(w: u64) -> Self;
    fn consts() -> u64;
    fn todec(&self) -> Vec<u64>;
    fn parse(s: &str) -> Result<Self, String>;
    /// Formatting: kind 0 display, 1 lower hex, 2 upper hex
    fn fmt(&self, kind: u8, spec: usize, width: usize) -> String;
    /// Plain formatting into a writer
    fn fmt_to(&self, kind: u8, w: &mut dyn std::fmt::Write) -> std::fmt::Result;
    /// An operation on a live object. Not all operations are available for small radices.
    fn live(self, op: Op, form: u8, k: &Self, n: u64) -> Self;
    /// An operation on borrowed objects
    fn rr(&self, op: Op, b: &Self) -> Self;
    // operations on live objects, for laws
    fn add_(&mut self, b: &Self);
    fn sub_(&mut self, b: &Self);
    fn mul_(&mut self, b: &Self);
    fn div_(&mut self, b: &Self);
    fn rem_(&mut self, b: &Self);
    fn shl_(&mut self, n: usize);
    fn shr_(&mut self, n: usize);
    /// An operation in place with a word, or with a digit
    fn word_(&mut self, op: Op, digit: bool, w: u64);
    fn set_(&mut self, one: bool);
    fn is_zero_(&self) -> bool;
}

thread_local! {
    /// How much spare capacity the first and the second operand made have: 0 depending on the
    /// digits, else from none to much
    pub static ROOMS: std::cell::Cell<[u8; 2]> = const { std::cell::Cell::new([0, 0]) };
    static MADE: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

/// Capacity for some digits. Numbers have spare capacity or not, depending on their digits.
#[inline]
fn room(d: &[u64]) -> usize {
    let n = d.len();
    let rooms = ROOMS.get();
    if rooms != [0, 0] {
        let k = MADE.replace(MADE.get() ^ 1);
        return match rooms[k as usize] {
            1 => n,
            2 => n + 1,
            3 => 2 * n + 3,
            _ => 5 * n + 40,
        };
    }
    let h = match d {
        [] => 0,
        [x, .., y] => x ^ y.rotate_left(7) ^ d[n / 2].rotate_left(3),
        [x] => *x,
    };
    n + match (h ^ h >> 5 ^ h >> 11 ^ n as u64) & 7 {
        0 => 1,
        1 => n + 3,
        2 => 2,
        _ => 0,
    }
}

/// All comparison results in one word.
pub fn cmp_bits<T: Ord + Clone>(a: &T, b: &T) -> u64 {
    fn o(x: std::cmp::Ordering) -> u64 {
        match x {
            std::cmp::Ordering::Less => 1,
            std::cmp::Ordering::Equal => 2,
            std::cmp::Ordering::Greater => 3,
        }
    }
    let mut v = 0u64;
    v |= (a < b) as u64;
    v |= ((a <= b) as u64) << 1;
    v |= ((a > b) as u64) << 2;
    v |= ((a >= b) as u64) << 3;
    v |= ((a == b) as u64) << 4;
    v |= ((a != b) as u64) << 5;
    v |= o(a.cmp(b)) << 6;
    v |= a.partial_cmp(b).map_or(0, o) << 8;
    let (max, min) = (a.clone().max(b.clone()), a.clone().min(b.clone()));
    v |= ((&max == a) as u64) << 10;
    v |= ((&max == b) as u64) << 11;
    v |= ((&min == a) as u64) << 12;
    v |= ((&min == b) as u64) << 13;
    v
}

macro_rules! big_form {
    ($x:ident, $y:ident, $a:ident, $b:ident, $form:ident, $op:tt, $opa:tt) => {{
        macro_rules! keep {
            ($r:expr, $o:expr, $d:expr, $w:expr) => {{
                let r = $r;
                if !$o.same($d) {
                    return Out::Mutated($w, $o.dg());
                }
                Out::Num(r.dg())
            }};
        }
        match $form {
            0 => Out::Num(($x $op $y).dg()),
            1 => keep!($x $op &$y, $y, $b, "right"),
            2 => keep!(&$x $op $y, $x, $a, "left"),
            3 => {
                let r = &$x $op &$y;
                if !$x.same($a) {
                    return Out::Mutated("left", $x.dg());
                }
                keep!(r, $y, $b, "right")
            }
            4 => {
                let mut x = $x;
                x $opa $y;
                Out::Num(x.dg())
            }
            5 => {
                let mut x = $x;
                x $opa &$y;
                keep!(x, $y, $b, "right")
            }
            6 => keep!(&$x $op &$x, $x, $a, "left"),
            7 => {
                let mut z = $x.clone();
                z $opa &$x;
                keep!(z, $x, $a, "right")
            }
            _ => unreachable!(),
        }
    }};
}

macro_rules! word_form {
    ($x:ident, $a:ident, $w:ident, $form:ident, $op:tt, $opa:tt, $D:ident) => {
        match $form {
            0 => Out::Num(($x $op $D($w)).dg()),
            1 => {
                let r = &$x $op $D($w);
                if !$x.same($a) {
                    return Out::Mutated("left", $x.dg());
                }
                Out::Num(r.dg())
            }
            2 => {
                let mut x = $x;
                x $opa $D($w);
                Out::Num(x.dg())
            }
            3 => Out::Num(($x $op $w).dg()),
            4 => {
                let r = &$x $op $w;
                if !$x.same($a) {
                    return Out::Mutated("left", $x.dg());
                }
                Out::Num(r.dg())
            }
            5 => {
                let mut x = $x;
                x $opa $w;
                Out::Num(x.dg())
            }
            _ => unreachable!(),
        }
    };
}

macro_rules! live_big {
    ($x:ident, $k:ident, $form:ident, $op:tt, $opa:tt) => {{
        let mut x = $x;
        match $form {
            0 => x $op $k.clone(),
            1 => x $op $k,
            2 => &x $op $k.clone(),
            3 => &x $op $k,
            4 => {
                x $opa $k.clone();
                x
            }
            5 => {
                x $opa $k;
                x
            }
            6 => &x $op &x,
            7 => {
                let y = x.clone();
                x $opa &y;
                x
            }
            _ => unreachable!(),
        }
    }};
}

macro_rules! live_word {
    ($x:ident, $w:ident, $form:ident, $op:tt, $opa:tt, $D:ident) => {{
        let mut x = $x;
        match $form {
            0 => x $op $D($w),
            1 => &x $op $D($w),
            2 => {
                x $opa $D($w);
                x
            }
            3 => x $op $w,
            4 => &x $op $w,
            5 => {
                x $opa $w;
                x
            }
            _ => unreachable!(),
        }
    }};
}

macro_rules! live_common {
    ($x:ident, $op:ident, $form:ident, $k:ident, $n:ident) => {
        match $op {
            Add => live_big!($x, $k, $form, +, +=),
            Sub => live_big!($x, $k, $form, -, -=),
            Mul => live_big!($x, $k, $form, *, *=),
            Div => live_big!($x, $k, $form, /, /=),
            Rem => live_big!($x, $k, $form, %, %=),
            Square => $x.square(),
            Pow => {
                if $form == 0 {
                    num_traits::Pow::pow($x, $n as usize)
                } else {
                    num_traits::Pow::pow(&$x, $n as usize)
                }
            }
            // the quotient for form 0, the remainder for form 1
            DivBig => {
                let mut x = $x;
                let r = x.div_assign_big($k).unwrap();
                if $form == 0 {
                    x
                } else {
                    r
                }
            }
            RemBig => {
                let mut x = $x;
                x.rem_assign_big($k).unwrap();
                x
            }
            _ => unreachable!(),
        }
    };
}

macro_rules! num_common {
    ($big:ty, $x:ident, $name:expr) => {
        type X = refn::$x;
        const NAME: &'static str = $name;

        #[inline]
        fn same(&self, d: &[u64]) -> bool {
            self.digits().len() == d.len() && self.digits().iter().zip(d).all(|(x, &y)| x.0 as u64 == y)
        }
        fn nrd(&self) -> usize {
            self.nr_digits()
        }
        fn dg(&self) -> Vec<u64> {
            self.digits().iter().map(|d| d.0 as u64).collect()
        }
        fn big(op: Op, form: u8, x: Self, y: Self, a: &[u64], b: &[u64]) -> Out {
            match op {
                Add => big_form!(x, y, a, b, form, +, +=),
                Sub => big_form!(x, y, a, b, form, -, -=),
                Mul => big_form!(x, y, a, b, form, *, *=),
                Div => big_form!(x, y, a, b, form, /, /=),
                Rem => big_form!(x, y, a, b, form, %, %=),
                _ => unreachable!(),
            }
        }
        fn square_(&self) -> Self {
            self.square()
        }
        fn powv(self, e: usize) -> Self {
            num_traits::Pow::pow(self, e)
        }
        fn powr(&self, e: usize) -> Self {
            num_traits::Pow::pow(self, e)
        }
        fn divbig(&mut self, b: &Self) -> Result<Self, String> {
            self.div_assign_big(b).map_err(|e| format!("{:?}", e))
        }
        fn rembig(&mut self, b: &Self) -> Result<(), String> {
            self.rem_assign_big(b).map_err(|e| format!("{:?}", e))
        }
        fn cmpbits(&self, b: &Self) -> u64 {
            cmp_bits(self, b)
        }
        fn rr(&self, op: Op, b: &Self) -> Self {
            match op {
                Add => self + b,
                Sub => self - b,
                Mul => self * b,
                Div => self / b,
                _ => self % b,
            }
        }
        fn add_(&mut self, b: &Self) {
            *self += b
        }
        fn sub_(&mut self, b: &Self) {
            *self -= b
        }
        fn mul_(&mut self, b: &Self) {
            *self *= b
        }
        fn div_(&mut self, b: &Self) {
            *self /= b
        }
        fn rem_(&mut self, b: &Self) {
            *self %= b
        }
        fn is_zero_(&self) -> bool {
            num_traits::Zero::is_zero(self)
        }
        fn consts() -> u64 {
            let z: Self = num_traits::Zero::zero();
            let o: Self = num_traits::One::one();
            let mut v = 0;
            v |= (z.nr_digits() == 0 && z.digits().is_empty()) as u64;
            v |= (num_traits::Zero::is_zero(&z) as u64) << 1;
            v |= ((o.nr_digits() == 1 && o.digits()[0].0 as u64 == 1) as u64) << 2;
            v |= (!num_traits::Zero::is_zero(&o) as u64) << 3;
            v |= ((z == Self::mk(&[]) && z == Self::mk(&[0]) && o == Self::mk(&[1])) as u64) << 4;
            // numbers set to zero and one, from short and long ones
            let mut good = true;
            for n in [0, 1, 2, 3, 9, 40, 300] {
                let x = Self::mk(&vec![1; n]);
                let (mut y, mut u) = (x.clone(), x.clone());
                num_traits::Zero::set_zero(&mut y);
                num_traits::One::set_one(&mut u);
                good &= num_traits::Zero::is_zero(&y) && y.nr_digits() == 0 && y == z;
                good &= u.nr_digits() == 1 && u.digits()[0].0 == 1 && u == o;
                good &= num_traits::One::is_one(&u) && !num_traits::One::is_one(&y) && num_traits::One::is_one(&x) == (n == 1);
                let mut long = Self::mk(&vec![0; n].into_iter().chain([1]).collect::<Vec<u64>>());
                good &= num_traits::One::is_one(&long) == (n == 0);
                good &= !num_traits::Zero::is_zero(&long);
                // a clone, and a clone into a number there already is
                for d in [vec![], vec![1], vec![2, 3], vec![1; 9], vec![1; 41]] {
                    let from = Self::mk(&d);
                    long.clone_from(&from);
                    good &= long.same(&d) && from.same(&d) && from.clone().same(&d);
                    let mut again = x.clone();
                    again.clone_from(&from);
                    good &= again.same(&d) && again == from;
                    again += &o;
                    good &= from.same(&d) && again > from;
                    u.clone_from(&again);
                    good &= u == again;
                }
            }
            v |= (good as u64) << 5;
            v
        }
    };
}

macro_rules! impl_num {
    ($big:ty, $t:ident, $D:ident, $x:ident, $name:expr, $bin:expr, $todec:expr, $fmt:expr, $fto:expr) => {
        impl Num for $big {
            num_common!($big, $x, $name);
            const BIN: bool = $bin;
            const WBITS: u32 = $t::BITS;
            const FULL: bool = true;

            fn mk(d: &[u64]) -> Self {
                let mut v = Vec::with_capacity(room(d));
                v.extend(d.iter().map(|&v| $D(v as $t)));
                Self::new(v)
            }
            fn word(op: Op, form: u8, x: Self, a: &[u64], w: u64) -> Out {
                let w = w as $t;
                match op {
                    AddW => word_form!(x, a, w, form, +, +=, $D),
                    SubW => word_form!(x, a, w, form, -, -=, $D),
                    MulW => word_form!(x, a, w, form, *, *=, $D),
                    DivW => word_form!(x, a, w, form, /, /=, $D),
                    RemW => word_form!(x, a, w, form, %, %=, $D),
                    _ => unreachable!(),
                }
            }
            fn shift(op: Op, form: u8, x: Self, a: &[u64], n: usize) -> Out {
                let mut x = x;
                match (op, form) {
                    (Shl, 0) => Out::Num((x << n).dg()),
                    (Shl, 2) => {
                        x <<= n;
                        Out::Num(x.dg())
                    }
                    (Shr, 0) => Out::Num((x >> n).dg()),
                    (Shr, 2) => {
                        x >>= n;
                        Out::Num(x.dg())
                    }
                    (o, 1) => {
                        let r = if o == Shl { &x << n } else { &x >> n };
                        if !x.same(a) {
                            return Out::Mutated("left", x.dg());
                        }
                        Out::Num(r.dg())
                    }
                    _ => unreachable!(),
                }
            }
            fn from_word(w: u64) -> Self {
                Self::from(w as $t)
            }
            fn todec(&self) -> Vec<u64> {
                $todec(self)
            }
            fn parse(s: &str) -> Result<Self, String> {
                s.parse::<Self>().map_err(|e| format!("{:?}", e))
            }
            fn fmt(&self, kind: u8, spec: usize, width: usize) -> String {
                $fmt(self, kind, spec, width)
            }
            fn fmt_to(&self, kind: u8, w: &mut dyn std::fmt::Write) -> std::fmt::Result {
                $fto(self, kind, w)
            }
            fn live(self, op: Op, form: u8, k: &Self, n: u64) -> Self {
                let x = self;
                let w = n as $t;
                match op {
                    AddW => live_word!(x, w, form, +, +=, $D),
                    SubW => live_word!(x, w, form, -, -=, $D),
                    MulW => live_word!(x, w, form, *, *=, $D),
                    DivW => live_word!(x, w, form, /, /=, $D),
                    RemW => live_word!(x, w, form, %, %=, $D),
                    Shl => match form {
                        0 => x << n as usize,
                        1 => &x << n as usize,
                        _ => {
                            let mut x = x;
                            x <<= n as usize;
                            x
                        }
                    },
                    Shr => match form {
                        0 => x >> n as usize,
                        1 => &x >> n as usize,
                        _ => {
                            let mut x = x;
                            x >>= n as usize;
                            x
                        }
                    },
                    _ => live_common!(x, op, form, k, n),
                }
            }
            fn shl_(&mut self, n: usize) {
                *self <<= n
            }
            fn shr_(&mut self, n: usize) {
                *self >>= n
            }
            fn word_(&mut self, op: Op, digit: bool, w: u64) {
                let w = w as $t;
                match (op, digit) {
                    (AddW, true) => *self += $D(w),
                    (SubW, true) => *self -= $D(w),
                    (MulW, true) => *self *= $D(w),
                    (DivW, true) => *self /= $D(w),
                    (RemW, true) => *self %= $D(w),
                    (AddW, _) => *self += w,
                    (SubW, _) => *self -= w,
                    (MulW, _) => *self *= w,
                    (DivW, _) => *self /= w,
                    (RemW, _) => *self %= w,
                    _ => unreachable!(),
                }
            }
            fn set_(&mut self, one: bool) {
                if one {
                    num_traits::One::set_one(self)
                } else {
                    num_traits::Zero::set_zero(self)
                }
            }
        }
    };
}

macro_rules! impl_bin {
    ($big:ident, $t:ident, $x:ident, $name:expr) => {
        use babs::$big;
        impl_num!(
            $big,
            $t,
            BinaryDigit,
            $x,
            $name,
            true,
            |x: &Self| x.to_decimal().dg(),
            |x: &Self, kind, spec, width| match kind {
                0 => crate::text::fmt_display(x, spec, width),
                1 => crate::text::fmt_lower(x, spec, width),
                _ => crate::text::fmt_upper(x, spec, width),
            },
            |x: &Self, kind, w: &mut dyn std::fmt::Write| match kind {
                0 => write!(w, "{}", x),
                1 => write!(w, "{:x}", x),
                _ => write!(w, "{:X}", x),
            }
        );
    };
}
macro_rules! impl_dec {
    ($big:ident, $t:ident, $x:ident, $name:expr) => {
        use babs::$big;
        impl_num!(
            $big,
            $t,
            DecimalDigit,
            $x,
            $name,
            false,
            |_: &Self| unreachable!(),
            |x: &Self, _, spec, width| crate::text::fmt_display(x, spec, width),
            |x: &Self, _, w: &mut dyn std::fmt::Write| write!(w, "{}", x)
        );
    };
}

use babs::{BinaryDigit, DecimalDigit};
impl_bin!(UBigBin8, u8, R8, "bin8");
impl_bin!(UBigBin16, u16, R16, "bin16");
impl_bin!(UBigBin32, u32, R32, "bin32");
impl_bin!(UBigBin64, u64, R64, "bin64");
impl_dec!(UBigDec8, u8, D2, "dec8");
impl_dec!(UBigDec16, u16, D4, "dec16");
impl_dec!(UBigDec32, u32, D9, "dec32");
impl_dec!(UBigDec64, u64, D19, "dec64");

#[cfg(babs_tiny)]
pub mod tiny {
    //! Numbers with a very small radix, made from the hooks.
    use super::*;
    use babs::mc::Digit;
    use babs::UBig;

    #[derive(Clone, Copy, Debug, Eq, Ord, PartialEq, PartialOrd)]
    pub struct Tiny<const R: u8>(pub u8);

    /// Called at every digit operation.
    #[inline]
    fn step() {
        crate::conc::point();
    }

    impl<const R: u8> num_traits::Zero for Tiny<R> {
        fn zero() -> Self {
            Tiny(0)
        }
        fn is_zero(&self) -> bool {
            self.0 == 0
        }
    }
    impl<const R: u8> num_traits::One for Tiny<R> {
        fn one() -> Self {
            Tiny(1)
        }
    }
    impl<const R: u8> std::ops::Add for Tiny<R> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            let s = self.0 + o.0;
            assert!(s < R);
            Tiny(s)
        }
    }
    impl<const R: u8> std::ops::Mul for Tiny<R> {
        type Output = Self;
        fn mul(self, o: Self) -> Self {
            let s = self.0 * o.0;
            assert!(s < R);
            Tiny(s)
        }
    }

    impl<const R: u8> Digit for Tiny<R> {
        const MAX: Self = Tiny(R - 1);
        fn from_base_str(_: &str, _: u32) -> babs::mc::Result<Self> {
            unreachable!()
        }
        fn max_shift(&self) -> u32 {
            let mut s = 0;
            while (self.0 as u32) << (s + 1) < R as u32 {
                s += 1;
            }
            s
        }
        fn inc(&mut self) -> bool {
            step();
            self.0 += 1;
            let c = self.0 == R;
            if c {
                self.0 = 0;
            }
            c
        }
        fn dec(&mut self) -> bool {
            step();
            let c = self.0 == 0;
            self.0 = if c { R - 1 } else { self.0 - 1 };
            c
        }
        fn add_carry_assign(&mut self, o: Self, c: bool) -> bool {
            step();
            let s = self.0 + o.0 + c as u8;
            self.0 = s % R;
            s >= R
        }
        fn sub_carry_assign(&mut self, o: Self, c: bool) -> bool {
            step();
            let s = R + self.0 - o.0 - c as u8;
            self.0 = s % R;
            s < R
        }
        fn shl_carry_assign(&mut self, n: usize, c: Self) -> Self {
            step();
            assert!(n > 0 && 1usize << n < R as usize && (c.0 as usize) < 1 << n);
            let t = ((self.0 as u32) << n) + c.0 as u32;
            self.0 = (t % R as u32) as u8;
            Tiny((t / R as u32) as u8)
        }
        fn shr_carry_assign(&mut self, n: usize, c: Self) -> Self {
            step();
            assert!(n > 0 && 1usize << n <= R as usize && (c.0 as usize) < 1 << n);
            let t = c.0 as u32 * R as u32 + self.0 as u32;
            self.0 = (t >> n) as u8;
            Tiny((t & ((1 << n) - 1)) as u8)
        }
        fn mul_carry_assign(&mut self, f: Self, c: Self) -> Self {
            step();
            let t = self.0 as u32 * f.0 as u32 + c.0 as u32;
            self.0 = (t % R as u32) as u8;
            Tiny((t / R as u32) as u8)
        }
        fn rem_carry(&self, f: Self, c: Self) -> Self {
            step();
            Tiny(((c.0 as u32 * R as u32 + self.0 as u32) % f.0 as u32) as u8)
        }
        fn div_carry_assign(&mut self, f: Self, c: Self) -> Self {
            step();
            let t = c.0 as u32 * R as u32 + self.0 as u32;
            // a quotient that does not fit is a violation of the contract of the digits
            assert!(t / (f.0 as u32) < R as u32);
            self.0 = (t / f.0 as u32) as u8;
            Tiny((t % f.0 as u32) as u8)
        }
        fn div3_carry_assign(&mut self, c: u8) -> u8 {
            step();
            assert!(c < 3);
            let t = c as u32 * R as u32 + self.0 as u32;
            self.0 = (t / 3) as u8;
            (t % 3) as u8
        }
        fn add_prod_carry_assign(&mut self, f: Self, g: Self, c: Self) -> Self {
            step();
            let t = self.0 as u32 + f.0 as u32 * g.0 as u32 + c.0 as u32;
            self.0 = (t % R as u32) as u8;
            Tiny((t / R as u32) as u8)
        }
        fn sub_prod_carry_assign(&mut self, f: Self, g: Self, c: Self) -> Self {
            step();
            let t = f.0 as u32 * g.0 as u32 + c.0 as u32;
            let u = self.sub_carry_assign(Tiny((t % R as u32) as u8), false);
            Tiny((t / R as u32) as u8 + u as u8)
        }
    }

    macro_rules! impl_tiny {
        ($x:ident, $r:expr, $name:expr) => {
            impl Num for UBig<Tiny<$r>> {
                num_common!(UBig<Tiny<$r>>, $x, $name);
                const BIN: bool = false;
                const WBITS: u32 = 0;
                const FULL: bool = false;
                fn mk(d: &[u64]) -> Self {
                    let mut v = Vec::with_capacity(room(d));
                    v.extend(d.iter().map(|&v| Tiny(v as u8)));
                    Self::new(v)
                }
                fn word(op: Op, form: u8, x: Self, a: &[u64], w: u64) -> Out {
                    let w = Tiny::<$r>(w as u8);
                    let form = form % 3;
                    fn id<T>(t: T) -> T {
                        t
                    }
                    // both families of forms are that for digits
                    let form = form;
                    match op {
                        AddW => word_form!(x, a, w, form, +, +=, id),
                        SubW => word_form!(x, a, w, form, -, -=, id),
                        MulW => word_form!(x, a, w, form, *, *=, id),
                        DivW => word_form!(x, a, w, form, /, /=, id),
                        RemW => word_form!(x, a, w, form, %, %=, id),
                        _ => unreachable!(),
                    }
                }
                fn shift(_: Op, _: u8, _: Self, _: &[u64], _: usize) -> Out {
                    unreachable!()
                }
                fn from_word(_: u64) -> Self {
                    unreachable!()
                }
                fn todec(&self) -> Vec<u64> {
                    unreachable!()
                }
                fn parse(_: &str) -> Result<Self, String> {
                    unreachable!()
                }
                fn fmt(&self, _: u8, _: usize, _: usize) -> String {
                    unreachable!()
                }
                fn fmt_to(&self, _: u8, _: &mut dyn std::fmt::Write) -> std::fmt::Result {
                    unreachable!()
                }
                fn live(self, op: Op, form: u8, k: &Self, n: u64) -> Self {
                    let x = self;
                    live_common!(x, op, form, k, n)
                }
                fn shl_(&mut self, _: usize) {
                    unreachable!()
                }
                fn shr_(&mut self, _: usize) {
                    unreachable!()
                }
                fn word_(&mut self, _: Op, _: bool, _: u64) {
                    unreachable!()
                }
                fn set_(&mut self, _: bool) {
                    unreachable!()
                }
            }
        };
    }
    impl_tiny!(T4, 4, "tiny4");
    impl_tiny!(T6, 6, "tiny6");
    impl_tiny!(T10, 10, "tiny10");
    pub type Tiny4 = UBig<Tiny<4>>;
    pub type Tiny6 = UBig<Tiny<6>>;
    pub type Tiny10 = UBig<Tiny<10>>;
}

/// The operands of one operation
#[derive(Clone, Copy, Debug)]
pub struct Args<'a> {
    pub a: &'a [u64],
    pub b: &'a [u64],
    pub n: u64,
    pub s: &'a str,
}

/// Number of format specifications times kinds is encoded in `n` of a `Fmt` operation:
/// kind + 3 * (spec + 256 * width)
pub fn fmt_code(kind: u64, spec: u64, width: u64) -> u64 {
    kind + 3 * (spec + 256 * width)
}
pub fn fmt_decode(n: u64) -> (u8, usize, usize) {
    ((n % 3) as u8, (n / 3 % 256) as usize, (n / 3 / 256) as usize)
}

/// Plain formatting into a writer that fails (form 1) or panics (form 2) after `room` bytes, or that
/// formats the number itself whenever it is given a part of the text (form 3), or that fails once, at
/// the part number `room` (form 4). Other than for form 3, the text of a later formatting.
fn written<N: Num>(x: &N, kind: u8, form: u8, room: usize) -> Result<String, String> {
    let mut inner: Vec<String> = vec![];
    let mut nested = || {
        inner.push(x.fmt(kind, 0, 0));
        if N::BIN {
            inner.push(N::mk(&x.dg()).fmt(0, 0, 0));
        }
    };
    let mut nothing = || ();
    let full = x.fmt(kind, 0, 0);
    let each: &mut dyn FnMut() = if form == 3 { &mut nested } else { &mut nothing };
    let mut s = crate::text::Sink { text: String::new(), room: if form > 2 { usize::MAX } else { room }, panics: form == 2, skip: if form == 4 { room } else { usize::MAX }, each };
    let r = catch_unwind(AssertUnwindSafe(|| x.fmt_to(kind, &mut s)));
    let t = std::mem::take(&mut s.text);
    match form {
        3 => {
            if !matches!(r, Ok(Ok(()))) {
                return Err(format!("{:?} with a writer that formats", r.map_err(|_| "a panic")));
            }
            let dec = x.fmt(0, 0, 0);
            if inner.iter().any(|i| *i != full && *i != dec) {
                return Err(format!("within the formatting: {}", inner.join(", ")));
            }
            Ok(t)
        }
        4 => {
            let failed = s.skip == usize::MAX - 1;
            let good = if failed { matches!(r, Ok(Err(_))) && full.starts_with(&t) } else { matches!(r, Ok(Ok(()))) && t == full };
            if !good {
                return Err(format!("{:?} after {:?} with a writer that fails at part {}", r.map_err(|_| "a panic"), t, room));
            }
            Ok(x.fmt(kind, 0, 0))
        }
        _ => {
            let good = match (&r, room < full.len()) {
                (Ok(Ok(())), false) => t == full,
                (Ok(Err(_)), true) => form == 1 && full.starts_with(&t),
                (Err(_), true) => form == 2 && full.starts_with(&t),
                _ => false,
            };
            if !good {
                return Err(format!("{:?} after {:?} with a writer for {} bytes", r.map_err(|_| "a panic"), t, room));
            }
            Ok(x.fmt(kind, 0, 0))
        }
    }
}

/// Perform one operation of the library, on newly made operands.
pub fn exec<N: Num>(op: Op, form: u8, g: Args) -> Out {
    guarded(|| exec_on(op, form, &mut || N::mk(g.a), &mut || N::mk(g.b), g))
}

/// Perform one operation of the library on operands that have the digits `g.a` and `g.b`.
pub fn exec_on<N: Num>(op: Op, form: u8, x: &mut dyn FnMut() -> N, y: &mut dyn FnMut() -> N, g: Args) -> Out {
    MADE.set(0);
    match op {
        Add | Sub | Mul | Div | Rem => N::big(op, form, x(), y(), g.a, g.b),
        AddW | SubW | MulW | DivW | RemW => N::word(op, form, x(), g.a, g.n),
        Shl | Shr => N::shift(op, form, x(), g.a, g.n as usize),
        Square => {
            let x = x();
            let r = x.square_();
            if !x.same(g.a) {
                return Out::Mutated("left", x.dg());
            }
            Out::Num(r.dg())
        }
        Pow => {
            let x = x();
            if form == 0 {
                Out::Num(x.powv(g.n as usize).dg())
            } else {
                let r = x.powr(g.n as usize);
                if !x.same(g.a) {
                    return Out::Mutated("left", x.dg());
                }
                Out::Num(r.dg())
            }
        }
        DivBig => {
            let mut x = x();
            let y = if form == 1 { x.clone() } else { y() };
            let r = x.divbig(&y);
            if !y.same(g.b) {
                return Out::Mutated("right", y.dg());
            }
            match r {
                Ok(r) => Out::Two(x.dg(), r.dg()),
                Err(e) => Out::Err(e, x.dg()),
            }
        }
        RemBig => {
            let mut x = x();
            let y = if form == 1 { x.clone() } else { y() };
            let r = x.rembig(&y);
            if !y.same(g.b) {
                return Out::Mutated("right", y.dg());
            }
            match r {
                Ok(()) => Out::Num(x.dg()),
                Err(e) => Out::Err(e, x.dg()),
            }
        }
        Cmp => Out::Bits(x().cmpbits(&y())),
        New => {
            let x = N::mk(g.a);
            let d = x.dg();
            if x.nrd() != d.len() || x.is_zero_() != d.is_empty() {
                return Out::Text(format!("{:?} with nr_digits {} and is_zero {}", d, x.nrd(), x.is_zero_()));
            }
            Out::Num(d)
        }
        FromWord => Out::Num(N::from_word(g.n).dg()),
        Consts => Out::Bits(N::consts()),
        ToDec => {
            let x = x();
            let r = x.todec();
            if !x.same(g.a) {
                return Out::Mutated("left", x.dg());
            }
            Out::Num(r)
        }
        Parse => match N::parse(g.s) {
            // no digits at all: either zero or an error will do
            Ok(x) if x.dg().is_empty() && matches!(g.s, "" | "0x") => Out::Err("no digits".into(), vec![]),
            Ok(x) => Out::Num(x.dg()),
            Err(e) => Out::Err(e, vec![]),
        },
        Fmt => {
            let (k, s, w) = fmt_decode(g.n);
            let x = x();
            let t = match form {
                0 => x.fmt(k, s, w),
                _ => match written(&x, k, form, w) {
                    Ok(t) => t,
                    Err(e) => return Out::Text(e),
                },
            };
            if !x.same(g.a) {
                return Out::Mutated("left", x.dg());
            }
            Out::Text(t)
        }
    }
}

/// What the operation should do, by the reference arithmetic. For divisions, `hint` may give the
/// quotient and remainder (their correctness is asserted).
pub fn expect<N: Num>(op: Op, form: u8, g: Args, hint: Option<(&[u64], &[u64])>) -> Out {
    type R<N> = <N as Num>::X;
    let big = |v: Option<Vec<u64>>| v.map_or(Out::Panic, Out::Num);
    match op {
        Add => Out::Num(refn::add::<R<N>>(g.a, g.b)),
        Sub => big(refn::sub::<R<N>>(g.a, g.b)),
        Mul => Out::Num(refn::mul::<R<N>>(g.a, g.b)),
        Div | Rem | DivBig | RemBig => {
            if g.b.is_empty() {
                return match op {
                    Div | Rem => Out::Panic,
                    _ => Out::Err("DivisionByZero".into(), g.a.to_vec()),
                };
            }
            let (q, r) = match hint {
                Some((q, r)) => (q.to_vec(), r.to_vec()),
                None => refn::divrem::<R<N>>(g.a, g.b),
            };
            match op {
                Div => Out::Num(q),
                DivBig => Out::Two(q, r),
                _ => Out::Num(r),
            }
        }
        AddW => Out::Num(refn::add::<R<N>>(g.a, &refn::from_word::<R<N>>(g.n))),
        SubW => big(refn::sub::<R<N>>(g.a, &refn::from_word::<R<N>>(g.n))),
        MulW => Out::Num(refn::mul_word_add::<R<N>>(g.a, g.n, 0)),
        DivW | RemW => {
            if g.n == 0 {
                Out::Panic
            } else {
                let (q, r) = refn::divrem_word::<R<N>>(g.a, g.n);
                Out::Num(if op == DivW { q } else { refn::from_word::<R<N>>(r) })
            }
        }
        Shl => Out::Num(refn::shl::<R<N>>(g.a, g.n as usize)),
        Shr => Out::Num(refn::shr::<R<N>>(g.a, g.n as usize)),
        Square => Out::Num(refn::mul::<R<N>>(g.a, g.a)),
        Pow => Out::Num(refn::pow::<R<N>>(g.a, g.n as usize)),
        Cmp => {
            let o = refn::cmp(g.a, g.b);
            Out::Bits(cmp_bits(&(o as i8), &0))
        }
        New => Out::Num(refn::norm(g.a.to_vec())),
        FromWord => Out::Num(refn::from_word::<R<N>>(g.n)),
        Consts => Out::Bits(0b111111),
        ToDec => Out::Num(match N::WBITS {
            8 => refn::conv::<R<N>, refn::D2>(g.a),
            16 => refn::conv::<R<N>, refn::D4>(g.a),
            32 => refn::conv::<R<N>, refn::D9>(g.a),
            _ => refn::conv::<R<N>, refn::D19>(g.a),
        }),
        Parse => match crate::text::ref_parse::<R<N>>(g.s) {
            Some(v) => Out::Num(v),
            None => Out::Err("InvalidNumber".into(), vec![]),
        },
        Fmt => {
            let (k, s, w) = fmt_decode(g.n);
            // what a writer gets is plain; its room is where the width is
            let w = if form == 0 { w } else { 0 };
            let text = if k == 0 { refn::to_dec_string::<R<N>>(g.a) } else { refn::to_hex_string::<R<N>>(g.a) };
            Out::Text(crate::text::ref_fmt(&text, k, s, w))
        }
    }
}
