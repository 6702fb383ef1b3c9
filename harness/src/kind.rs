//! One trait over the eight concrete number types, so that monitors can be written once.

use crate::nat::{Base, Raw};
use babs::{BinaryDigit, DecimalDigit, UBig};
use num_traits::{One, Pow, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local!
{
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<bool> = RefCell::new(false);
}

/// Install a panic hook that records the message for guarded calls and stays silent for them.
pub fn install_hook()
{
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        if quiet
        {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() }
                else { "?".into() };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}{}", msg, loc));
        }
        else { old(info); }
    }));
}

/// Run a library call; a panic is turned into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String>
{
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut())))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op { Add, Sub, Mul, Div, Rem }
pub const OPS: [Op; 5] = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem];

#[derive(Clone, Copy, Debug)]
pub enum Rhs<'a, B> { Big(&'a B), Digit(u64), Prim(u64) }

pub const BIG_FORMS: [&str; 6] = ["a op b", "a op &b", "&a op b", "&a op &b", "a op= b", "a op= &b"];
pub const SMALL_FORMS: [&str; 3] = ["a op d", "&a op d", "a op= d"];

/// Outcome of a fallible method: `Ok(rem)`, or the error's debug text; plus the dividend afterwards
pub struct MethodOut<B> { pub res: Result<Option<B>, String>, pub after: B }

pub trait Kind: Send + Sync + 'static
{
    type B: Clone + Eq + Ord + Send + Sync + std::fmt::Display + std::fmt::Debug + Zero + One;
    /// Decimal counterpart of the same storage type
    type Dec: Kind;
    const BASE: Base;
    const NAME: &'static str;

    fn mk(raw: &[u64]) -> Self::B;
    fn raw(b: &Self::B) -> Raw;
    fn nr_digits(b: &Self::B) -> usize;
    fn from_prim(n: u64) -> Self::B;
    fn op(op: Op, form: usize, a: &Self::B, b: Rhs<Self::B>) -> Self::B;
    fn div_method(a: Self::B, b: &Self::B) -> MethodOut<Self::B>;
    fn rem_method(a: Self::B, b: &Self::B) -> MethodOut<Self::B>;
    /// The number with unused capacity behind its digits that once held `stale`
    fn mk_spare(raw: &[u64], stale: &[u64]) -> Self::B;
    /// Update a number in place (no copy of it is made): by value, by reference, moved through the binary operators
    fn op_mut(op: Op, form: usize, a: &mut Self::B, b: Self::B);
    fn op_mut_small(op: Op, form: usize, a: &mut Self::B, b: Rhs<Self::B>);
    /// `div` selects div_assign_big or rem_assign_big
    fn divrem_mut(div: bool, a: &mut Self::B, b: &Self::B) -> Result<Option<Self::B>, String>;
    fn shift_mut(left: bool, form: usize, a: &mut Self::B, n: usize);
    fn shl(form: usize, a: &Self::B, n: usize) -> Self::B;
    fn shr(form: usize, a: &Self::B, n: usize) -> Self::B;
    fn pow(form: usize, a: &Self::B, n: usize) -> Self::B;
    fn square(a: &Self::B) -> Self::B;
    fn parse(s: &str) -> Result<Self::B, String>;
    /// conversion to decimal; None for decimal types
    fn to_decimal(a: &Self::B) -> Option<<Self::Dec as Kind>::B>;
    /// hexadecimal formatting; None for decimal types
    fn hex(a: &Self::B, upper: bool) -> Option<String>;
    fn fmt_with(a: &Self::B, style: Style, flags: usize, width: usize) -> Option<String>;
    /// Print (with a width) to a destination that may refuse
    fn write_to(a: &Self::B, style: Style, width: usize, to: &mut Sink) -> std::fmt::Result;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style { Display, Lower, Upper }

/// A stand-in that formats a given digit string the way the standard integers do: through
/// `pad_integral` with the prefix of the formatting trait.
pub struct Ref<'a>(pub &'a str);
impl std::fmt::Display for Ref<'_>
{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.pad_integral(true, "", self.0) } }
impl std::fmt::LowerHex for Ref<'_>
{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.pad_integral(true, "0x", self.0) } }
impl std::fmt::UpperHex for Ref<'_>
{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.pad_integral(true, "0x", self.0) } }

#[macro_export]
macro_rules! fmt_flags
{
    ($x:expr, $flags:expr, $w:expr, $($t:literal)?) => {
        match $flags
        {
            0 => format!(concat!("{:", $($t)?, "}"), $x),
            1 => format!(concat!("{:w$", $($t)?, "}"), $x, w = $w),
            2 => format!(concat!("{:<w$", $($t)?, "}"), $x, w = $w),
            3 => format!(concat!("{:^w$", $($t)?, "}"), $x, w = $w),
            4 => format!(concat!("{:>w$", $($t)?, "}"), $x, w = $w),
            5 => format!(concat!("{:*<w$", $($t)?, "}"), $x, w = $w),
            6 => format!(concat!("{:_^w$", $($t)?, "}"), $x, w = $w),
            7 => format!(concat!("{:é>w$", $($t)?, "}"), $x, w = $w),
            8 => format!(concat!("{:0w$", $($t)?, "}"), $x, w = $w),
            9 => format!(concat!("{:+", $($t)?, "}"), $x),
            10 => format!(concat!("{:+w$", $($t)?, "}"), $x, w = $w),
            11 => format!(concat!("{:+0w$", $($t)?, "}"), $x, w = $w),
            12 => format!(concat!("{:#", $($t)?, "}"), $x),
            13 => format!(concat!("{:#w$", $($t)?, "}"), $x, w = $w),
            14 => format!(concat!("{:#0w$", $($t)?, "}"), $x, w = $w),
            15 => format!(concat!("{:+#0w$", $($t)?, "}"), $x, w = $w),
            16 => format!(concat!("{:<#w$", $($t)?, "}"), $x, w = $w),
            17 => format!(concat!("{:x^+#w$", $($t)?, "}"), $x, w = $w),
            18 => format!(concat!("{:<0w$", $($t)?, "}"), $x, w = $w),
            19 => format!(concat!("{:^+w$", $($t)?, "}"), $x, w = $w),
            // a precision means nothing for integers
            20 => format!(concat!("{:.3", $($t)?, "}"), $x),
            21 => format!(concat!("{:w$.5", $($t)?, "}"), $x, w = $w),
            22 => format!(concat!("{:+#w$.p$", $($t)?, "}"), $x, w = $w, p = $w / 2),
            23 => format!(concat!("{:0<w$", $($t)?, "}"), $x, w = $w),
            24 => format!(concat!("{:->+w$", $($t)?, "}"), $x, w = $w),
            _ => format!(concat!("{:\u{1f980}^#w$", $($t)?, "}"), $x, w = $w),
        }
    }
}
pub const NR_FLAGS: usize = 26;

/// A destination that takes no more than a number of bytes
pub struct Sink { pub got: String, pub room: usize, pub refused: bool }
impl std::fmt::Write for Sink
{
    fn write_str(&mut self, s: &str) -> std::fmt::Result
    {
        if self.refused || self.got.len() + s.len() > self.room { self.refused = true; return Err(std::fmt::Error); }
        self.got.push_str(s);
        Ok(())
    }
}

thread_local! { static SPARE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
/// From now on numbers are made with unused capacity of varying size (0: without)
pub fn set_spare(state: u64) { SPARE.with(|s| s.set(state)); }
fn next_spare(n: usize) -> usize
{
    SPARE.with(|c| {
        let mut s = c.get();
        if s == 0 { return 0; }
        s ^= s << 13; s ^= s >> 7; s ^= s << 17;
        c.set(s);
        match s >> 32 & 7 { 0 | 1 => 0, 2 => 1, 3 => 2, 4 => 5, 5 => n + 1, 6 => 2 * n + 7, _ => 3 + (s >> 40 & 31) as usize }
    })
}
/// A number from digits, in a buffer that may be longer than them; what lies behind them is not zero
fn spacious<T: Copy + Zero + One>(mut v: Vec<T>) -> UBig<T>
{
    let n = v.len();
    let extra = next_spare(n);
    if extra > 0
    {
        let stale = v.last().copied().unwrap_or_else(T::one);
        v.reserve_exact(extra);
        v.resize(n + extra, stale);
        v.truncate(n);
    }
    UBig::new(v)
}
/// A copy to be passed by value
fn dup<T: Copy + Zero + One>(x: &UBig<T>) -> UBig<T>
{
    if SPARE.with(|s| s.get()) == 0 { x.clone() } else { spacious(x.digits().to_vec()) }
}

macro_rules! big_forms
{
    ($form:expr, $a:expr, $b:expr, $op:tt, $opa:tt) => {
        match $form
        {
            0 => dup($a) $op dup($b),
            1 => dup($a) $op $b,
            2 => $a $op dup($b),
            3 => $a $op $b,
            4 => { let mut x = dup($a); x $opa dup($b); x }
            _ => { let mut x = dup($a); x $opa $b; x }
        }
    }
}
macro_rules! small_forms
{
    ($form:expr, $a:expr, $d:expr, $op:tt, $opa:tt) => {
        match $form
        {
            0 => dup($a) $op $d,
            1 => $a $op $d,
            _ => { let mut x = dup($a); x $opa $d; x }
        }
    }
}
macro_rules! mut_forms
{
    ($form:expr, $a:expr, $b:expr, $op:tt, $opa:tt) => {
        match $form
        {
            0 => *$a $opa $b,
            1 => *$a $opa &$b,
            2 => *$a = std::mem::replace($a, Zero::zero()) $op $b,
            3 => *$a = std::mem::replace($a, Zero::zero()) $op &$b,
            _ => *$a = &*$a $op $b
        }
    }
}
macro_rules! mut_small_forms
{
    ($form:expr, $a:expr, $d:expr, $op:tt, $opa:tt) => {
        match $form
        {
            0 => *$a $opa $d,
            _ => *$a = std::mem::replace($a, Zero::zero()) $op $d
        }
    }
}
macro_rules! all_ops
{
    ($mac:ident, $op:expr, $form:expr, $a:expr, $b:expr) => {
        match $op
        {
            Op::Add => $mac!($form, $a, $b, +, +=),
            Op::Sub => $mac!($form, $a, $b, -, -=),
            Op::Mul => $mac!($form, $a, $b, *, *=),
            Op::Div => $mac!($form, $a, $b, /, /=),
            Op::Rem => $mac!($form, $a, $b, %, %=)
        }
    }
}

macro_rules! impl_kind
{
    ($k:ident, $t:ty, $d:ident, $name:literal, $dec:tt, $b:expr, $deck:ident) => {
        pub struct $k;
        impl Kind for $k
        {
            type B = UBig<$d<$t>>;
            type Dec = $deck;
            const BASE: Base = Base { name: $name, dec: $dec, bits: <$t>::BITS, b: $b };
            const NAME: &'static str = $name;

            fn mk(raw: &[u64]) -> Self::B { spacious(raw.iter().map(|&x| $d(x as $t)).collect()) }
            fn raw(b: &Self::B) -> Raw { b.digits().iter().map(|d| d.0 as u64).collect() }
            fn nr_digits(b: &Self::B) -> usize { b.nr_digits() }
            fn from_prim(n: u64) -> Self::B { UBig::from(n as $t) }
            fn op(op: Op, form: usize, a: &Self::B, b: Rhs<Self::B>) -> Self::B
            {
                match b
                {
                    Rhs::Big(b) => all_ops!(big_forms, op, form, a, b),
                    Rhs::Digit(d) => { let d = $d(d as $t); all_ops!(small_forms, op, form, a, d) }
                    Rhs::Prim(d) => { let d = d as $t; all_ops!(small_forms, op, form, a, d) }
                }
            }
            fn div_method(mut a: Self::B, b: &Self::B) -> MethodOut<Self::B>
            {
                let res = a.div_assign_big(b).map(Some).map_err(|e| format!("{:?}", e));
                MethodOut { res, after: a }
            }
            fn rem_method(mut a: Self::B, b: &Self::B) -> MethodOut<Self::B>
            {
                let res = a.rem_assign_big(b).map(|_| None).map_err(|e| format!("{:?}", e));
                MethodOut { res, after: a }
            }
            fn mk_spare(raw: &[u64], stale: &[u64]) -> Self::B
            {
                let mut v = Vec::with_capacity(raw.len() + stale.len());
                v.extend(raw.iter().chain(stale).map(|&x| $d(x as $t)));
                v.truncate(raw.len());
                UBig::new(v)
            }
            fn op_mut(op: Op, form: usize, a: &mut Self::B, b: Self::B) { all_ops!(mut_forms, op, form, a, b) }
            fn op_mut_small(op: Op, form: usize, a: &mut Self::B, b: Rhs<Self::B>)
            {
                match b
                {
                    Rhs::Big(_) => unreachable!(),
                    Rhs::Digit(d) => { let d = $d(d as $t); all_ops!(mut_small_forms, op, form, a, d) }
                    Rhs::Prim(d) => { let d = d as $t; all_ops!(mut_small_forms, op, form, a, d) }
                }
            }
            fn divrem_mut(div: bool, a: &mut Self::B, b: &Self::B) -> Result<Option<Self::B>, String>
            { if div { a.div_assign_big(b).map(Some).map_err(|e| format!("{:?}", e)) } else { a.rem_assign_big(b).map(|_| None).map_err(|e| format!("{:?}", e)) } }
            fn shift_mut(left: bool, form: usize, a: &mut Self::B, n: usize)
            {
                match (left, form)
                {
                    (true, 0) => *a <<= n,
                    (true, _) => *a = std::mem::replace(a, Zero::zero()) << n,
                    (false, 0) => *a >>= n,
                    (false, _) => *a = std::mem::replace(a, Zero::zero()) >> n
                }
            }
            fn shl(form: usize, a: &Self::B, n: usize) -> Self::B
            { small_forms!(form, a, n, <<, <<=) }
            fn shr(form: usize, a: &Self::B, n: usize) -> Self::B
            { small_forms!(form, a, n, >>, >>=) }
            fn pow(form: usize, a: &Self::B, n: usize) -> Self::B
            { if form == 0 { dup(a).pow(n) } else { a.pow(n) } }
            fn square(a: &Self::B) -> Self::B { a.square() }
            fn parse(s: &str) -> Result<Self::B, String>
            { s.parse::<Self::B>().map_err(|e| format!("{:?}", e)) }
            impl_kind!(@dec $dec);
        }
    };
    (@dec true) => {
        fn to_decimal(_a: &Self::B) -> Option<<Self::Dec as Kind>::B> { None }
        fn hex(_a: &Self::B, _upper: bool) -> Option<String> { None }
        fn fmt_with(a: &Self::B, style: Style, flags: usize, width: usize) -> Option<String>
        {
            match style
            {
                Style::Display => Some(fmt_flags!(a, flags, width, "")),
                _ => None
            }
        }
        fn write_to(a: &Self::B, _: Style, width: usize, to: &mut Sink) -> std::fmt::Result
        { use std::fmt::Write; if width == 0 { write!(to, "{}", a) } else { write!(to, "{:w$}", a, w = width) } }
    };
    (@dec false) => {
        fn to_decimal(a: &Self::B) -> Option<<Self::Dec as Kind>::B> { Some(a.to_decimal()) }
        fn hex(a: &Self::B, upper: bool) -> Option<String>
        { Some(if upper { format!("{:X}", a) } else { format!("{:x}", a) }) }
        fn fmt_with(a: &Self::B, style: Style, flags: usize, width: usize) -> Option<String>
        {
            Some(match style
            {
                Style::Display => fmt_flags!(a, flags, width, ""),
                Style::Lower => fmt_flags!(a, flags, width, "x"),
                Style::Upper => fmt_flags!(a, flags, width, "X")
            })
        }
        fn write_to(a: &Self::B, style: Style, width: usize, to: &mut Sink) -> std::fmt::Result
        {
            use std::fmt::Write;
            if width == 0
            {
                return match style { Style::Display => write!(to, "{}", a), Style::Lower => write!(to, "{:x}", a), Style::Upper => write!(to, "{:X}", a) };
            }
            match style
            {
                Style::Display => write!(to, "{:w$}", a, w = width),
                Style::Lower => write!(to, "{:w$x}", a, w = width),
                Style::Upper => write!(to, "{:w$X}", a, w = width)
            }
        }
    };
}

impl_kind!(Bin8, u8, BinaryDigit, "bin8", false, 1 << 8, Dec8);
impl_kind!(Bin16, u16, BinaryDigit, "bin16", false, 1 << 16, Dec16);
impl_kind!(Bin32, u32, BinaryDigit, "bin32", false, 1 << 32, Dec32);
impl_kind!(Bin64, u64, BinaryDigit, "bin64", false, 1 << 64, Dec64);
impl_kind!(Dec8, u8, DecimalDigit, "dec8", true, 100, Dec8);
impl_kind!(Dec16, u16, DecimalDigit, "dec16", true, 10_000, Dec16);
impl_kind!(Dec32, u32, DecimalDigit, "dec32", true, 1_000_000_000, Dec32);
impl_kind!(Dec64, u64, DecimalDigit, "dec64", true, 10_000_000_000_000_000_000, Dec64);

pub fn ord_str(o: Ordering) -> &'static str
{ match o { Ordering::Less => "<", Ordering::Equal => "=", Ordering::Greater => ">" } }
