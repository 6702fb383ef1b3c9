//! Monitors that relate several executions to each other: digit types, operand forms, build
//! configurations, histories and threads.

use crate::ctx::*;
use crate::gen::*;
use crate::gen::cap as gen_cap;
use crate::kind::*;
use crate::nat::*;
use crate::props::*;
use crate::with_kind;
use crate::rng::*;
use num_traits::Zero;
use std::cmp::Ordering;
use std::sync::{Arc, Barrier};

// ---------------------------------------------------------------------------------------------
// generic operation descriptors

#[derive(Clone, Copy, Debug)]
pub struct OpD { pub code: u8, pub i: usize, pub j: usize, pub k: usize, pub form: usize }
pub const NR_CODES: u8 = 26;
pub const CODE_NAMES: [&str; 26] = ["add", "sub", "mul", "square", "div", "rem", "div method", "rem method", "shl", "shr",
    "pow", "display", "to_decimal", "parse decimal", "compare", "add native", "sub native", "mul native", "div native", "rem native",
    "hex", "from native", "parse hex", "add digit", "mul digit", "div digit"];

/// What an operation delivered
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out { Panic(String), Num(Raw), Two(Raw, Raw), Text(String), Ord(Ordering), Err(String), Nothing }

impl Out
{
    pub fn hash(&self) -> u64
    {
        match self
        {
            Out::Panic(_) => 1,
            Out::Num(x) => mix(&[2, hash_raw(x)]),
            Out::Two(x, y) => mix(&[3, hash_raw(x), hash_raw(y)]),
            Out::Text(s) => mix(&[4, hash_str(s)]),
            Out::Ord(o) => (6 + *o as i64) as u64,
            Out::Err(e) => mix(&[9, hash_str(e)]),
            Out::Nothing => 11
        }
    }
    pub fn brief(&self) -> String
    {
        match self
        {
            Out::Panic(m) => format!("panic ({})", m),
            Out::Num(x) => show(x),
            Out::Two(x, y) => format!("{} and {}", show(x), show(y)),
            Out::Text(s) => if s.len() > 200 { format!("{}...", &s[..200]) } else { s.clone() },
            o => format!("{:?}", o)
        }
    }
}

pub struct Pool<B> { pub nums: Vec<B>, pub text: Vec<String>, pub words: Vec<u64> }

/// A numeral in the base of the digit type
fn digits_in_own_base(bs: &Base, r: &mut Rng, n: usize) -> String
{
    let d: &[u8] = if bs.dec { b"0123456789" } else { b"0123456789abcdef" };
    let mut s = String::from(if bs.dec { "7" } else { "0x7" });
    for _ in 0..n { s.push(d[r.usize(d.len())] as char); }
    s
}

fn cut(s: &mut String, mut n: usize)
{
    while !s.is_char_boundary(n.min(s.len())) { n += 1; }
    s.truncate(n);
}

pub fn make_pool<K: Kind>(r: &mut Rng, count: usize, c: &SizeCfg, cap: usize) -> (Pool<K::B>, Vec<Raw>)
{
    let bs = K::BASE;
    let mut raws: Vec<Raw> = vec![];
    for i in 0..count
    {
        let n = size(r, c).min(gen_cap(cap));
        let x = if i > 0 && r.chance(1, 2) { let p = r.pick(&raws).clone(); related(&bs, r, &p, n) } else { number(&bs, r, n) };
        raws.push(x);
    }
    let nums = raws.iter().map(|x| K::mk(x)).collect();
    let text = (0..3).map(|_| { let mut s = gen_numeral(&bs, r).0; cut(&mut s, 600); if s == "0x" { s.push('0'); } s }).collect();
    let words = (0..4).map(|_| prim(&bs, r)).collect();
    (Pool { nums, text, words }, raws)
}

pub fn gen_op(r: &mut Rng, bs: &Base, np: usize) -> OpD
{
    let code = r.below(NR_CODES as u64) as u8;
    let k = match code { 8 | 9 => match r.usize(4) { 0 => r.usize(bs.bits as usize * 4), 1 => r.usize(3000), 2 => bs.bits as usize * r.usize(9), _ => r.usize(200) }, _ => r.usize(7) };
    OpD { code, i: r.usize(np), j: r.usize(np), k, form: r.usize(6) }
}

pub fn exec<K: Kind>(o: &OpD, p: &Pool<K::B>) -> Out
{
    let (a, b) = (&p.nums[o.i], &p.nums[o.j]);
    let w = p.words[o.k % p.words.len()];
    let num = |v: K::B| Out::Num(K::raw(&v));
    let small = |op: Op| K::op(op, o.form % 3, a, Rhs::Prim(w));
    let d = (w as u128 % K::BASE.b) as u64;
    let dig = |op: Op| K::op(op, o.form % 3, a, Rhs::Digit(d));
    let r = guard(|| match o.code
    {
        0 => num(K::op(Op::Add, o.form, a, Rhs::Big(b))),
        1 => num(K::op(Op::Sub, o.form, a, Rhs::Big(b))),
        2 => num(K::op(Op::Mul, o.form, a, Rhs::Big(b))),
        3 => num(K::square(a)),
        4 => num(K::op(Op::Div, o.form, a, Rhs::Big(b))),
        5 => num(K::op(Op::Rem, o.form, a, Rhs::Big(b))),
        6 => { let m = K::div_method(a.clone(), b); match m.res { Ok(Some(x)) => Out::Two(K::raw(&m.after), K::raw(&x)), Ok(None) => Out::Nothing, Err(e) => Out::Err(e) } }
        7 => { let m = K::rem_method(a.clone(), b); match m.res { Ok(_) => Out::Num(K::raw(&m.after)), Err(e) => Out::Err(e) } }
        8 => num(K::shl(o.form % 3, a, o.k)),
        9 => num(K::shr(o.form % 3, a, o.k)),
        10 => if K::nr_digits(a) <= 60 { num(K::pow(o.form % 2, a, o.k)) } else { Out::Nothing },
        11 => Out::Text(format!("{}", a)),
        12 => match K::to_decimal(a) { Some(d) => Out::Num(<K::Dec as Kind>::raw(&d)), None => Out::Nothing },
        13 | 22 => match K::parse(&p.text[o.k % p.text.len()]) { Ok(v) => num(v), Err(e) => Out::Err(e) },
        14 => Out::Ord(a.cmp(b)),
        15 => num(small(Op::Add)),
        16 => num(small(Op::Sub)),
        17 => num(small(Op::Mul)),
        18 => num(small(Op::Div)),
        19 => num(small(Op::Rem)),
        20 => match K::hex(a, o.form % 2 == 0) { Some(s) => Out::Text(s), None => Out::Nothing },
        21 => num(K::from_prim(w)),
        23 => num(dig(Op::Add)),
        24 => num(dig(Op::Mul)),
        _ => num(dig(Op::Div))
    });
    match r { Ok(o) => o, Err(m) => Out::Panic(m) }
}

/// May this operation panic by specification?
pub fn may_panic<K: Kind>(o: &OpD, raws: &[Raw], words: &[u64]) -> bool
{
    let (a, b) = (&raws[o.i], &raws[o.j]);
    let w = words[o.k % words.len()];
    let d = (w as u128 % K::BASE.b) as u64;
    match o.code
    {
        1 => raw_cmp(a, b) == Ordering::Less,
        4 | 5 => b.is_empty(),
        16 => raw_cmp(a, &raw_from_u64(&K::BASE, w)) == Ordering::Less,
        18 | 19 => w == 0,
        25 => d == 0,
        _ => false
    }
}

// ---------------------------------------------------------------------------------------------
// C14 digit types agree

pub struct Abs<'a> { pub a: &'a Nat, pub b: &'a Nat, pub k: usize, pub w: u64, pub text: &'a str, pub op: usize }

fn c14_run<K: Kind>(x: &Abs) -> (&'static str, Out)
{
    let bs = K::BASE;
    let a = K::mk(&x.a.to_raw(&bs));
    let b = K::mk(&x.b.to_raw(&bs));
    let num = |v: K::B| Out::Num(Nat::from_raw(&bs, &K::raw(&v)).0);
    let r = guard(|| match x.op
    {
        0 => num(K::op(Op::Add, 3, &a, Rhs::Big(&b))),
        1 => num(K::op(Op::Sub, 3, &a, Rhs::Big(&b))),
        2 | 3 => num(K::op(Op::Mul, 3, &a, Rhs::Big(&b))),
        4 => num(K::square(&a)),
        5 => num(K::pow(1, &a, x.k)),
        6 | 7 => num(K::op(Op::Div, 3, &a, Rhs::Big(&b))),
        8 => num(K::op(Op::Rem, 3, &a, Rhs::Big(&b))),
        9 => { let m = K::div_method(a.clone(), &b); match m.res { Ok(r) => Out::Two(Nat::from_raw(&bs, &K::raw(&m.after)).0, Nat::from_raw(&bs, &K::raw(&r.unwrap())).0), Err(e) => Out::Err(e) } }
        10 => num(K::shl(1, &a, x.k)),
        11 => num(K::shr(1, &a, x.k)),
        12 => Out::Ord(a.cmp(&b)),
        13 => match K::parse(x.text) { Ok(v) => num(v), Err(e) => Out::Err(e) },
        14 => Out::Text(format!("{}", a)),
        15 => num(K::op(Op::Add, 1, &a, Rhs::Prim(x.w))),
        16 => num(K::op(Op::Sub, 1, &a, Rhs::Prim(x.w))),
        17 => num(K::op(Op::Mul, 1, &a, Rhs::Prim(x.w))),
        18 => num(K::op(Op::Div, 1, &a, Rhs::Prim(x.w))),
        19 => num(K::op(Op::Rem, 1, &a, Rhs::Prim(x.w))),
        20 => num(K::from_prim(x.w)),
        _ => { // a short chain: ((a*b + a) / (b+1)) % (a+1) - printed
            let p = K::op(Op::Add, 1, &K::op(Op::Mul, 3, &a, Rhs::Big(&b)), Rhs::Big(&a));
            let q = K::op(Op::Div, 3, &p, Rhs::Big(&K::op(Op::Add, 1, &b, Rhs::Prim(1))));
            let m = K::op(Op::Rem, 3, &K::square(&p), Rhs::Big(&K::op(Op::Add, 1, &a, Rhs::Prim(1))));
            Out::Two(Nat::from_raw(&bs, &K::raw(&q)).0, Nat::from_raw(&bs, &K::raw(&m)).0)
        }
    });
    (K::NAME, match r { Ok(o) => o, Err(_) => Out::Panic(String::new()) })
}
const C14_NAMES: [&str; 22] = ["add", "sub", "mul", "mul", "square", "pow", "div", "div", "rem", "div method", "shl", "shr", "cmp",
    "parse", "display", "add native", "sub native", "mul native", "div native", "rem native", "from native", "chain"];

fn base_of<K: Kind>() -> Base { K::BASE }

fn c14_gen(r: &mut Rng, bits: usize) -> Nat
{
    let kid = r.usize(8);
    let bs = with_kind!(kid, base_of());
    let n = (bits as f64 / (bs.b as f64).log2()) as usize;
    let n = if bits > 0 { n.max(1) } else { 0 };
    let x = if r.chance(1, 8) { special(&bs, r, n.max(2)) } else { number(&bs, r, n) };
    Nat::from_raw(&bs, &x)
}

pub fn c14(cx: &mut Ctx, r: &mut Rng)
{
    let bits = |r: &mut Rng| match r.usize(10) { 0 => r.usize(40), 1 | 2 | 3 => r.usize(400), 4 | 5 | 6 => r.usize(3000), 7 | 8 => r.usize(10000), _ => { let n = 64 * (18 + r.usize(130)); n + r.usize(200) } } * if giant() > 0 { 8 } else { 1 };
    let na = bits(r);
    let nb = if r.chance(1, 2) { na } else { bits(r) };
    let ops: Vec<usize> = (0..3).map(|_| r.usize(22)).collect();
    c14_sized(cx, r, na, nb, &ops);
}

/// All operations on numbers of every length in bits
pub fn c14_sweep(cx: &mut Ctx, r: &mut Rng, part: u64, parts: u64)
{
    let most = 2400 * if cx.thorough { 2 } else { 1 };
    for n in 1..=most
    {
        if n as u64 % parts != part { continue; }
        let m = if r.chance(1, 2) { n } else { r.usize(n + 1) };
        cx.count("swept lengths");
        let ops: Vec<usize> = (0..22).collect();
        c14_sized(cx, r, n, m, &ops);
    }
}

fn c14_sized(cx: &mut Ctx, r: &mut Rng, na: usize, nb: usize, ops: &[usize])
{
    let gen = c14_gen;
    let a = gen(r, na);
    let b = match r.usize(8)
    {
        0 => a.clone(),
        1 => a.add(&Nat::from_u64(r.below(300))),
        2 => a.shr(r.usize(na + 2)),
        _ => gen(r, nb)
    };
    let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
    let b64 = base_of::<Bin64>();
    for &op in ops
    {
        let (a, b) = if (op == 6 || op == 7 || op == 9) && r.chance(1, 2)
        {
            // a dividend with a chosen quotient
            let n = match r.usize(4) { 0 => r.usize(40), 1 => r.usize(400), _ => r.usize(3001) };
            let q = gen(r, n);
            let d = if b.bits() > 3000 { b.shr(b.bits() - 3000) } else { b.clone() };
            let e = if r.chance(1, 2) { Nat::zero() } else { d.sub(&Nat::from_u64(1)).unwrap_or(Nat::zero()) };
            (q.mul(&d).add(&e), d)
        } else { (a.clone(), b.clone()) };
        // powers of numbers of all sizes (short ones are powers of single digits in some types), up to about 6000 bits
        let (a, e) = if op == 5
        {
            let a = if r.chance(2, 3) { let keep = 1 + r.usize(70); a.shr(a.bits().saturating_sub(keep)) } else { a };
            let e = match r.usize(4) { 0 => r.usize(6), 1 => r.usize(20), 2 => r.usize(70), _ => r.usize(600) };
            let e = if a.bits() < 2 { e } else { e.min(6000 / a.bits().max(1)) };
            (a, Some(e))
        } else { (a, None) };
        let text = if r.chance(1, 3) { gen_numeral(&b64, r).0 } else {
            let s = if r.chance(1, 2) { a.to_dec_string() } else { format!("0x{}", a.to_hex_string()) };
            if r.chance(1, 4) { let k = r.usize(s.len() + 1); format!("{}{}{}", &s[..k], r.pick(&["+", "-", " ", "z", "_"]), &s[k..]) } else { s }
        };
        // native integers must fit every storage type
        let x = Abs { a: &a, b: &b, k: match r.usize(3) { _ if e.is_some() => e.unwrap(), 0 => r.usize(70), 1 => 64 * r.usize(20), _ => r.usize(a.bits() + 80) }, w: r.below(256), text: &text, op };
        let res = [c14_run::<Bin8>(&x), c14_run::<Bin16>(&x), c14_run::<Bin32>(&x), c14_run::<Bin64>(&x),
            c14_run::<Dec8>(&x), c14_run::<Dec16>(&x), c14_run::<Dec32>(&x), c14_run::<Dec64>(&x)];
        cx.eval(!a.is_zero() && !b.is_zero(), mix(&[hash_raw(&a.0), hash_raw(&b.0), op as u64, x.k as u64, x.w]));
        cx.count(&format!("agreements observed: {}", C14_NAMES[op]));
        cx.seen_len(a.0.len() * 8);
        if matches!(res[0].1, Out::Panic(_)) { cx.count("operations that panic in every type"); }
        // the result most types agree on
        let maj = res.iter().max_by_key(|x| res.iter().filter(|y| y.1 == x.1).count()).unwrap();
        let odd: Vec<_> = res.iter().filter(|y| y.1 != maj.1).collect();
        if !odd.is_empty()
        {
            let det = odd.iter().map(|o| format!("{}: {}", o.0, o.1.brief())).collect::<Vec<_>>().join("; ");
            cx.fail(format!("{} {} disagrees", odd.iter().map(|o| o.0).collect::<Vec<_>>().join("+"), C14_NAMES[op]),
                format!("a = 0x{}, b = 0x{}, k = {}, native = {}, text = {:?}: {} but {}", a.to_hex_string(), b.to_hex_string(), x.k, x.w,
                    if op == 13 { &text } else { "" }, det, maj.1.brief()));
        }
        else { cx.sample(|| format!("{} of {}-bit and {}-bit values: same result in all eight types", C14_NAMES[op], a.bits(), b.bits())); }
    }
}

// ---------------------------------------------------------------------------------------------
// C15 forms agree

pub fn c15<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let cap = if r.chance(1, 10) { 300 } else { 48 };
    let n = size(r, &SZ_DEFAULT).min(gen_cap(cap));
    let x = number(&bs, r, n);
    let a = K::mk(&x);
    let outcome = |v: Result<K::B, String>| match v { Ok(v) => Out::Num(K::raw(&v)), Err(m) => Out::Panic(m) };
    let same = |p: &Out, q: &Out| match (p, q) { (Out::Panic(_), Out::Panic(_)) => true, _ => p == q };
    // 1. ownership forms, all right-hand-side kinds
    for op in OPS
    {
        let small = r.chance(1, 2);
        let g = gen_small_rhs(&bs, r);
        let y: Raw = if small { g.raw.clone() } else if r.chance(1, 2) && matches!(op, Op::Div | Op::Rem) { let (nn, d) = div_pair(&bs, r, &SZ_SMALL); let _ = nn; d } else { let n1 = size(r, &SZ_DEFAULT).min(gen_cap(cap)); related(&bs, r, &x, n1) };
        // underflow half of the time is not interesting: order the operands mostly
        let (x, a) = if op == Op::Sub && r.chance(1, 2) && raw_cmp(&x, &y) == Ordering::Less { let s = raw_add(&bs, &x, &y); let b = K::mk(&s); (s, b) } else { (x.clone(), a.clone()) };
        let b = K::mk(&y);
        let base = outcome(guard(|| K::op(op, 3, &a, Rhs::Big(&b))));
        let mut seen = 1;
        for f in 0..6
        {
            if f == 3 { continue; }
            let o = outcome(guard(|| K::op(op, f, &a, Rhs::Big(&b))));
            seen += 1;
            if !same(&o, &base)
            {
                cx.fail(format!("{} {:?} form {} differs", K::NAME, op, BIG_FORMS[f]),
                    format!("{} {:?} {}: '{}' gives {}, '&a op &b' gives {}", show(&x), op, show(&y), BIG_FORMS[f], o.brief(), base.brief()));
            }
            if K::raw(&a) != x || K::raw(&b) != y
            { cx.fail(format!("{} {:?} form {} changed an operand", K::NAME, op, BIG_FORMS[f]), format!("{} {:?} {}: operands afterwards {} and {}", show(&x), op, show(&y), show(&K::raw(&a)), show(&K::raw(&b)))); return; }
        }
        if small
        {
            let mut variants: Vec<(usize, usize, Rhs<K::B>)> = vec![];
            if g.rhs == 2 { for f in 0..3 { variants.push((2, f, Rhs::Prim(g.word))); } }
            if (g.word as u128) < bs.b { for f in 0..3 { variants.push((1, f, Rhs::Digit(g.word))); if g.rhs != 2 { variants.push((2, f, Rhs::Prim(g.word))); } } }
            for (rhs, f, rh) in variants
            {
                let o = outcome(guard(|| K::op(op, f, &a, rh)));
                seen += 1;
                cx.count(if rhs == 2 { "native forms compared" } else { "digit forms compared" });
                if !same(&o, &base)
                {
                    cx.fail(format!("{} {:?} form {} differs", K::NAME, op, form_name(rhs, f)),
                        format!("{} {:?} {}: '{}' gives {}, number form gives {}", show(&x), op, g.word, form_name(rhs, f), o.brief(), base.brief()));
                }
                if K::raw(&a) != x { cx.fail(format!("{} {:?} form {} changed an operand", K::NAME, op, form_name(rhs, f)), format!("{} became {}", show(&x), show(&K::raw(&a)))); return; }
            }
        }
        cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), op as u64, hash_str(K::NAME)]));
        cx.add(&format!("forms compared: {:?}", op), seen);
        if matches!(base, Out::Panic(_)) { cx.count("all forms panicked"); }
        // 2. aliasing: both operands the same object
        let o = outcome(guard(|| K::op(op, 3, &a, Rhs::Big(&a))));
        let a2 = a.clone();
        let p = outcome(guard(|| K::op(op, 0, &a, Rhs::Big(&a2))));
        if !same(&o, &p)
        { cx.fail(format!("{} {:?} aliased operands differ", K::NAME, op), format!("{} with itself: {} / {}", show(&x), o.brief(), p.brief())); }
        // 3. operator / method pairs
        if op == Op::Div
        {
            let m = guard(|| K::div_method(a.clone(), &b));
            let rem = outcome(guard(|| K::op(Op::Rem, 3, &a, Rhs::Big(&b))));
            let m2 = guard(|| K::rem_method(a.clone(), &b));
            let (mq, mr) = match &m { Err(e) => (Out::Panic(e.clone()), Out::Panic(e.clone())),
                Ok(o) => match &o.res { Ok(Some(v)) => (Out::Num(K::raw(&o.after)), Out::Num(K::raw(v))), Ok(None) => (Out::Nothing, Out::Nothing), Err(e) => (Out::Panic(e.clone()), Out::Panic(e.clone())) } };
            let mr2 = match &m2 { Err(e) => Out::Panic(e.clone()), Ok(o) => match &o.res { Ok(_) => Out::Num(K::raw(&o.after)), Err(e) => Out::Panic(e.clone()) } };
            cx.count("operator/method pairs compared");
            if !same(&mq, &base) || !same(&mr, &rem) || !same(&mr2, &rem)
            {
                cx.fail(format!("{} division operator and method differ", K::NAME),
                    format!("{} by {}: operators {} rem {}; div method {} rem {}; rem method {}", show(&x), show(&y), base.brief(), rem.brief(), mq.brief(), mr.brief(), mr2.brief()));
            }
            if K::raw(&b) != y { cx.fail(format!("{} division method changed the divisor", K::NAME), show(&y)); }
        }
    }
    // 4. square, powers
    let sq = outcome(guard(|| K::square(&a)));
    let aa = outcome(guard(|| K::op(Op::Mul, 3, &a, Rhs::Big(&a))));
    let p2 = outcome(guard(|| K::pow(r.usize(2), &a, 2)));
    if !same(&sq, &aa) || !same(&sq, &p2) { cx.fail(format!("{} square and product differ", K::NAME), format!("{}: square {}, product {}, pow {}", show(&x), sq.brief(), aa.brief(), p2.brief())); }
    if x.len() <= 20
    {
        let e = r.usize(7);
        let (p, q) = (outcome(guard(|| K::pow(0, &a, e))), outcome(guard(|| K::pow(1, &a, e))));
        if !same(&p, &q) { cx.fail(format!("{} pow forms differ", K::NAME), format!("{}^{}: {} / {}", show(&x), e, p.brief(), q.brief())); }
        let mut acc: Result<K::B, String> = Ok(K::from_prim(1));
        for _ in 0..e { acc = acc.and_then(|v| guard(|| K::op(Op::Mul, 5, &v, Rhs::Big(&a)))); }
        let acc = outcome(acc);
        if !same(&p, &acc) { cx.fail(format!("{} pow and repeated product differ", K::NAME), format!("{}^{}: {} / {}", show(&x), e, p.brief(), acc.brief())); }
    }
    // 5. shifts
    let k = match r.usize(3) { 0 => r.usize(20), 1 => bs.bits as usize * r.usize(5), _ => r.usize(300) };
    for left in [true, false]
    {
        let o: Vec<Out> = (0..3).map(|f| outcome(guard(|| if left { K::shl(f, &a, k) } else { K::shr(f, &a, k) }))).collect();
        if !same(&o[0], &o[1]) || !same(&o[0], &o[2])
        { cx.fail(format!("{} shift forms differ", K::NAME), format!("{} by {} (left: {}): {} / {} / {}", show(&x), k, left, o[0].brief(), o[1].brief(), o[2].brief())); }
        cx.add("forms compared: shift", 3);
    }
    if K::raw(&a) != x { cx.fail(format!("{} operand changed", K::NAME), format!("{} became {}", show(&x), show(&K::raw(&a)))); }
    // 6. construction from a native integer and parsing it
    let w = prim(&bs, r);
    let (p, q) = (outcome(guard(|| K::from_prim(w))), match guard(|| K::parse(&w.to_string())) { Ok(Ok(v)) => Out::Num(K::raw(&v)), Ok(Err(e)) => Out::Err(e), Err(m) => Out::Panic(m) });
    cx.count("native construction vs parsing");
    if p != q { cx.fail(format!("{} from native and parse differ", K::NAME), format!("{}: {} / {}", w, p.brief(), q.brief())); }
    let q = outcome(guard(|| { let mut v = K::mk(&[0, 0]); v = K::op(Op::Add, 2, &v, Rhs::Prim(w)); v }));
    if !same(&p, &q) { cx.fail(format!("{} from native and zero plus native differ", K::NAME), format!("{}: {} / {}", w, p.brief(), q.brief())); }
    cx.eval(true, mix(&[hash_raw(&x), w, k as u64, hash_str(K::NAME)]));
    cx.sample(|| format!("{}: all forms of the five operators, squares, powers and shifts on {}", K::NAME, show(&x)));
}

// ---------------------------------------------------------------------------------------------
// C16 totality, same results in both build configurations

/// Numbers of hundreds of thousands of digits through every linear operation, tens of thousands through the others:
/// nothing may run out of stack (threads have the usual 2 MB), overflow a narrow type, or take for ever
fn c16_far<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let text = |r: &mut Rng, n: usize, hex: bool| -> String {
        let d: &[u8] = if hex { b"0123456789abcdef" } else { b"0123456789" };
        let mut s = String::from(if hex { "0x" } else { "" });
        s.push('7');
        for _ in 1..n { s.push(d[r.usize(d.len())] as char); }
        s
    };
    fn go<T>(cx: &mut Ctx, name: &str, what: &str, n: usize, hash: impl Fn(&T) -> u64, f: impl FnOnce() -> T) -> Option<T>
    {
        cx.eval(true, mix(&[hash_str(name), hash_str(what), n as u64]));
        match guard(f)
        {
            Ok(v) => { cx.dig(hash(&v)); cx.count(&format!("very long operands: {}", what)); Some(v) }
            Err(m) => { cx.dig(1); cx.fail(format!("{} {} panicked", name, what), format!("operands of about {} digits: {}", n, m)); None }
        }
    }
    let num = |v: &K::B| hash_raw(&K::raw(v));
    let txt = |v: &String| hash_str(v);
    // there and back again
    let n = 900_000 + r.usize(100_000);
    let s = text(r, n, !bs.dec);
    if let Some(v) = go(cx, K::NAME, "parse in the own base", n, num, || K::parse(&s).expect("accepted"))
    {
        cx.seen_len(K::nr_digits(&v));
        let t = go(cx, K::NAME, "print in the own base", n, txt, || if bs.dec { K::fmt_with(&v, Style::Display, 0, 0).unwrap() } else { K::hex(&v, false).unwrap() });
        if let Some(t) = t { if t != s.trim_start_matches("0x") { cx.fail(format!("{} print wrong-result", K::NAME), format!("a numeral of {} characters is printed differently", n)); } }
    }
    let n = 15_000 + r.usize(5_000);
    let s = text(r, n, bs.dec);
    go(cx, K::NAME, "parse in the other base", n, num, || K::parse(&s).expect("accepted"));
    let n = 400_000 + r.usize(100_000);
    let n1 = n - 1 - r.usize(1000);
    let (x, y) = (number(&bs, r, n), number(&bs, r, n1));
    let (a, b) = (K::mk(&x), K::mk(&y));
    let one = K::mk(&[1]);
    let sum = go(cx, K::NAME, "add", n, num, || K::op(Op::Add, r.usize(6), &a, Rhs::Big(&b)));
    if let Some(sum) = sum
    {
        go(cx, K::NAME, "sub", n, num, || K::op(Op::Sub, r.usize(6), &sum, Rhs::Big(&a)));
        go(cx, K::NAME, "cmp", n, |o: &std::cmp::Ordering| *o as i8 as u64, || sum.cmp(&a));
        go(cx, K::NAME, "==", n, |o: &bool| *o as u64, || sum == b);
    }
    // a carry and a borrow through all digits
    let top = K::mk(&vec![bs.maxd(); n]);
    if let Some(p) = go(cx, K::NAME, "add 1", n, num, || K::op(Op::Add, 3, &top, Rhs::Big(&one)))
    {
        go(cx, K::NAME, "sub digit 1", n, num, || K::op(Op::Sub, 1, &p, Rhs::Digit(1)));
        go(cx, K::NAME, "sub 1", n, num, || K::op(Op::Sub, 3, &p, Rhs::Big(&one)));
    }
    for op in [Op::Add, Op::Mul, Op::Div, Op::Rem]
    {
        let w = 1 + any_digit(&bs, r) % bs.maxd();
        go(cx, K::NAME, &format!("{:?} digit", op), n, num, || K::op(op, 1, &a, Rhs::Digit(w)));
        let w = prim(&bs, r).max(1);
        go(cx, K::NAME, &format!("{:?} native", op), n, num, || K::op(op, 1, &a, Rhs::Prim(w)));
    }
    go(cx, K::NAME, "shl", n, num, || K::shl(1, &a, 5));
    go(cx, K::NAME, "shr", n, num, || K::shr(1, &a, 5));
    if !bs.dec
    {
        go(cx, K::NAME, "shl far", n, num, || K::shl(1, &a, 3_000_001));
        go(cx, K::NAME, "shr far", n, num, || K::shr(1, &a, 3_000_001));
        go(cx, K::NAME, "shr to nothing", n, num, || K::shr(1, &a, usize::MAX));
    }
    // products and quotients
    let n = 25_000 + r.usize(2_000);
    let n1 = n / 2 + r.usize(100);
    let (x, y) = (number(&bs, r, n), number(&bs, r, n1));
    let (a, b) = (K::mk(&x), K::mk(&y));
    go(cx, K::NAME, "mul", n, num, || K::op(Op::Mul, 3, &a, Rhs::Big(&b)));
    go(cx, K::NAME, "square", n, num, || K::square(&a));
    go(cx, K::NAME, "div", n, num, || K::op(Op::Div, 3, &a, Rhs::Big(&b)));
    go(cx, K::NAME, "rem", n, num, || K::op(Op::Rem, 3, &a, Rhs::Big(&b)));
    let n = 2_000 + r.usize(100);
    let a = K::mk(&number(&bs, r, n));
    go(cx, K::NAME, "print", n, txt, || K::fmt_with(&a, Style::Display, 0, 0).unwrap());
    let e = 2_000 + r.usize(1_000);
    go(cx, K::NAME, "pow", e, num, || K::pow(1, &K::mk(&[0, 3, 1]), e));
}

pub fn c16<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    if huge() { set_spare(0); return c16_far::<K>(cx, r); }
    if r.chance(2, 5)
    {
        // the generators aimed at the algorithms: products, quotients
        let (x, y, op) = match r.usize(4)
        {
            0 => { let (x, y) = mul_pair(&bs, r, &SZ_MUL); (x, y, Op::Mul) }
            1 => { let n = size(r, &SZ_MUL); let x = number(&bs, r, n); (x.clone(), x, Op::Mul) }
            _ => { let (n, d) = div_pair(&bs, r, &SZ_DIV); (n, d, if r.chance(1, 2) { Op::Div } else { Op::Rem }) }
        };
        let (a, b) = (K::mk(&x), K::mk(&y));
        let sq = op == Op::Mul && x == y && r.chance(1, 2);
        let got = guard(|| if sq { K::square(&a) } else { K::op(op, 3, &a, Rhs::Big(&b)) });
        cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), op as u64, sq as u64, hash_str(K::NAME)]));
        cx.count(&format!("executed: {:?}", op));
        cx.size_class("operand", x.len());
        match got
        {
            Ok(v) => { let v = K::raw(&v); cx.dig(hash_raw(&v)); cx.sample(|| format!("{}: {:?} of {} and {} digits returned {} digits", K::NAME, op, x.len(), y.len(), v.len())); }
            Err(m) => {
                cx.dig(1);
                cx.fail(format!("{} {:?} panicked", K::NAME, if sq { "square".to_string() } else { format!("{:?}", op) }), format!("{} {:?} {}: {}", show(&x), op, show(&y), m));
            }
        }
        return;
    }
    if r.chance(1, 8)
    {
        // arbitrary strings
        for _ in 0..4
        {
            let mut s = gen_numeral(&bs, r).0;
            if r.chance(1, 2)
            {
                let n = 1 + r.usize(3);
                for _ in 0..n { let k = r.usize(s.len() + 1); if s.is_char_boundary(k) { s.insert_str(k, r.pick(&["+", "-", "é", "0x", " ", "\0", "_", "९"])); } }
            }
            let got = guard(|| K::parse(&s));
            cx.eval(true, mix(&[hash_str(&s), hash_str(K::NAME)]));
            cx.count("executed: parse of arbitrary text");
            match got
            {
                Ok(Ok(v)) => cx.dig(hash_raw(&K::raw(&v))),
                Ok(Err(e)) => cx.dig(hash_str(&e)),
                Err(m) => { cx.dig(1); cx.fail(format!("{} parse panicked", K::NAME), format!("{:?}: {}", s, m)); }
            }
        }
        return;
    }
    let (mut pool, mut raws) = make_pool::<K>(r, 4, &SZ_DEFAULT, 400);
    for _ in 0..10
    {
        let mut o = gen_op(r, &bs, raws.len());
        if o.code == 9 && r.chance(1, 4) { o.k = *r.pick(&[usize::MAX, usize::MAX - 7, 1 << 33, 100_000]); }
        let mut ok_panic = may_panic::<K>(&o, &raws, &pool.words);
        if ok_panic && o.code == 1 { std::mem::swap(&mut o.i, &mut o.j); ok_panic = false; }
        let out = exec::<K>(&o, &pool);
        cx.eval(!raws[o.i].is_empty(), mix(&[hash_raw(&raws[o.i]), hash_raw(&raws[o.j]), o.k as u64, o.code as u64, o.form as u64, hash_str(K::NAME)]));
        cx.count(&format!("executed: {}", CODE_NAMES[o.code as usize]));
        cx.size_class("operand", raws[o.i].len());
        cx.dig(out.hash());
        if let Out::Panic(m) = &out
        {
            if !ok_panic
            {
                cx.fail(format!("{} {} panicked", K::NAME, CODE_NAMES[o.code as usize]),
                    format!("a = {}, b = {}, k = {}, native = {}: {}", show(&raws[o.i]), show(&raws[o.j]), o.k, pool.words[o.k % pool.words.len()], m));
            }
            else { cx.count("panics required by the specification"); }
        }
        else { cx.sample(|| format!("{}: {} of {} digits (k = {}) -> {}", K::NAME, CODE_NAMES[o.code as usize], raws[o.i].len(), o.k, out.brief())); }
        // feed results back, provided they are usable numbers
        if let Out::Num(v) = out
        {
            if o.code != 12 && v.len() < 500 && v.last() != Some(&0) && v.iter().all(|&d| (d as u128) < bs.b) && r.chance(1, 2)
            {
                let k = r.usize(raws.len());
                pool.nums[k] = K::mk(&v);
                raws[k] = v;
            }
        }
    }
}

/// Which operations: all of them, those that are cheap on short numbers, those that take linear time
#[derive(Clone, Copy, PartialEq)]
pub enum Which { All, Cheap, Linear }

/// Numbers beyond every 16-bit quantity through the operations that take linear time
pub fn far_linear<K: Kind>(cx: &mut Ctx, r: &mut Rng, prop: &'static str)
{
    let bs = K::BASE;
    let n = 65_530 + r.usize(75_000);
    let m = n - match r.usize(4) { 0 => r.usize(n), 1 => 0, _ => r.usize(3) + *r.pick(&[32767, 65536]).min(&(n - 3)) };
    let (x, y, z) = (number(&bs, r, n), number(&bs, r, m), number(&bs, r, 5));
    every_operation::<K>(cx, r, prop, [x, y, z], Which::Linear);
    cx.seen_len(n);
}

/// Every operation once on given numbers x (not zero), y and z, judged for a property
pub fn every_operation<K: Kind>(cx: &mut Ctx, r: &mut Rng, prop: &'static str, nums: [Raw; 3], which: Which)
{
    let bs = K::BASE;
    let small = nums[0].len() < 100;
    let text = (0..2).map(|_| {
        if which == Which::Linear { return digits_in_own_base(&bs, r, 70_000); }
        let mut s = gen_numeral(&bs, r).0; cut(&mut s, nums[0].len() * 4 + 2); if s == "0x" { s.push('0'); } s
    }).collect();
    let words = (0..4).map(|_| prim(&bs, r).max(1)).collect();
    let mut raws = nums.to_vec();
    if raw_cmp(&raws[0], &raws[1]) == Ordering::Less { raws.swap(0, 1); }
    let pool: Pool<K::B> = Pool { nums: raws.iter().map(|x| K::mk(x)).collect(), text, words };
    let mut ops: Vec<OpD> = vec![];
    for code in 0..NR_CODES
    {
        if which == Which::Cheap && matches!(code, 8 | 9 | 10 | 11 | 12 | 13 | 20 | 21 | 22) { continue; }
        if which == Which::Linear && (matches!(code, 2..=7 | 10 | 12 | 21) || (code == 11 && !bs.dec) || (code == 20 && bs.dec)) { continue; }
        // native values may exceed the number they are subtracted from
        let mut o = gen_op(r, &bs, 3);
        o.code = code;
        o.k = match code { 8 | 9 => r.usize(bs.bits as usize * 3), _ => r.usize(4) };
        match code { 4..=7 => { o.i = 2; o.j = 0; } _ => { o.i = 0; o.j = 1; } }
        if code == 10 && !small { continue; }
        ops.push(o);
    }
    let key = |o: &OpD| mix(&[hash_raw(&raws[o.i]), hash_raw(&raws[o.j]), o.k as u64, o.code as u64, o.form as u64, hash_str(K::NAME), 5]);
    let det = |o: &OpD| format!("a = {}, b = {}, k = {}, native = {}", show(&raws[o.i]), show(&raws[o.j]), o.k, pool.words[o.k % pool.words.len()]);
    let name = |o: &OpD| CODE_NAMES[o.code as usize];
    cx.size_class("operand", raws[0].len());
    match prop
    {
        "C09" => for o in &ops
        {
            let out = exec::<K>(o, &pool);
            let base = if o.code == 12 { <K::Dec as Kind>::BASE.b } else { bs.b };
            let vs: Vec<&Raw> = match &out { Out::Num(v) => vec![v], Out::Two(v, w) => vec![v, w], _ => vec![] };
            for v in vs
            {
                cx.eval(true, key(o));
                if v.last() == Some(&0) || v.iter().any(|&d| d as u128 >= base)
                { cx.fail(format!("{} {} not canonical", K::NAME, name(o)), format!("{}: {}", det(o), show(v))); }
            }
        },
        "C15" => for o in &ops
        {
            let forms = match o.code { 0..=2 | 4 | 5 => 6, 8 | 9 | 15..=19 | 23..=25 => 3, 10 => 2, _ => continue };
            let base = exec::<K>(&OpD { form: 0, ..*o }, &pool);
            cx.eval(true, key(o));
            for form in 1..forms
            {
                let out = exec::<K>(&OpD { form, ..*o }, &pool);
                cx.count("forms compared");
                let same = match (&out, &base) { (Out::Panic(_), Out::Panic(_)) => true, (x, y) => x == y };
                if !same { cx.fail(format!("{} {} form {} differs", K::NAME, name(o), form), format!("{}: form {} gives {}, form 0 gives {}", det(o), form, out.brief(), base.brief())); }
            }
            if !check_operands::<K>(cx, &pool, &raws, name(o)) { return; }
        },
        "C16" => for o in &ops
        {
            let out = exec::<K>(o, &pool);
            cx.eval(true, key(o));
            cx.count(&format!("executed: {}", name(o)));
            cx.dig(out.hash());
            if let Out::Panic(m) = &out
            {
                if !may_panic::<K>(o, &raws, &pool.words) { cx.fail(format!("{} {} panicked", K::NAME, name(o)), format!("{}: {}", det(o), m)); }
            }
        },
        "C17" => {
            let first: Vec<Out> = ops.iter().map(|o| exec::<K>(o, &pool)).collect();
            for (o, f) in ops.iter().zip(&first).rev() { cx.eval(true, key(o)); let out = exec::<K>(o, &pool); c17_cmp::<K>(cx, o, &raws, f, &out, "repeated on the same thread in reverse order"); }
            let fresh: Vec<Out> = std::thread::scope(|s| s.spawn(|| ops.iter().map(|o| exec::<K>(o, &pool)).collect()).join().unwrap());
            for ((o, f), out) in ops.iter().zip(&first).zip(&fresh) { c17_cmp::<K>(cx, o, &raws, f, out, "repeated on a fresh thread"); }
            check_operands::<K>(cx, &pool, &raws, "after repeated operations");
        }
        _ => for o in &ops
        {
            cx.eval(true, key(o));
            cx.count(&format!("executed: {}", name(o)));
            crate::small::watched::<K>(cx, name(o), &|| det(o), &mut || exec::<K>(o, &pool));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C17 purity

fn check_operands<K: Kind>(cx: &mut Ctx, p: &Pool<K::B>, raws: &[Raw], when: &str) -> bool
{
    for (b, x) in p.nums.iter().zip(raws)
    {
        if K::raw(b) != *x
        {
            cx.fail(format!("{} shared operand changed", K::NAME), format!("{} became {} ({})", show(x), show(&K::raw(b)), when));
            return false;
        }
    }
    true
}

pub fn c17_history<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let cfg = if r.chance(1, 2) { SZ_MUL } else { SZ_DEFAULT };
    let (pool, raws) = make_pool::<K>(r, 5, &cfg, 420);
    let ops: Vec<OpD> = (0..14).map(|_| {
        let mut o = gen_op(r, &bs, raws.len());
        // weight towards the operations that use scratch memory
        if r.chance(1, 2) { o.code = *r.pick(&[2u8, 3, 4, 6, 12, 11, 5]); }
        o
    }).collect();
    // first run: in order, on this (long-lived) thread
    let first: Vec<Out> = ops.iter().map(|o| exec::<K>(o, &pool)).collect();
    // second run: other order, each operation preceded by unrelated ones
    let mut order: Vec<usize> = (0..ops.len()).collect();
    for i in (1..order.len()).rev() { order.swap(i, r.usize(i + 1)); }
    for &i in &order
    {
        let out = exec::<K>(&ops[i], &pool);
        c17_cmp::<K>(cx, &ops[i], &raws, &first[i], &out, "repeated on the same thread in another order");
    }
    // third run: a thread that has never executed anything
    let fresh: Vec<Out> = std::thread::scope(|s| s.spawn(|| order.iter().map(|&i| exec::<K>(&ops[i], &pool)).collect()).join().unwrap());
    for (k, &i) in order.iter().enumerate() { c17_cmp::<K>(cx, &ops[i], &raws, &first[i], &fresh[k], "repeated on a fresh thread"); }
    check_operands::<K>(cx, &pool, &raws, "after repeated operations");
    // fourth run: the same values held in other memory, with unused capacity
    let spare = Pool { nums: raws.iter().map(|x| { let n = r.usize(2 * x.len() + 4); let st = block(&bs, r, n, 1); K::mk_spare(x, &st) }).collect(), text: pool.text.clone(), words: pool.words.clone() };
    for &i in &order { let out = exec::<K>(&ops[i], &spare); c17_cmp::<K>(cx, &ops[i], &raws, &first[i], &out, "on equal numbers with unused capacity"); }
    cx.count("histories replayed");
    cx.add("repeated executions compared", 3 * ops.len() as u64);
    for o in &ops { cx.eval(true, mix(&[hash_raw(&raws[o.i]), hash_raw(&raws[o.j]), o.code as u64, o.k as u64, hash_str(K::NAME)])); cx.size_class("operand", raws[o.i].len()); }
    cx.sample(|| format!("{}: {} operations in two orders and on a fresh thread", K::NAME, ops.len()));
}

fn c17_cmp<K: Kind>(cx: &mut Ctx, o: &OpD, raws: &[Raw], first: &Out, second: &Out, how: &str)
{
    let same = match (first, second) { (Out::Panic(_), Out::Panic(_)) => true, (x, y) => x == y };
    if !same
    {
        cx.fail(format!("{} {} not reproducible", K::NAME, CODE_NAMES[o.code as usize]),
            format!("a = {}, b = {}, k = {}: first {}, {} {}", show(&raws[o.i]), show(&raws[o.j]), o.k, first.brief(), how, second.brief()));
    }
}

pub fn c17_concurrent<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let (pool, raws) = make_pool::<K>(r, 4, &SZ_MUL, 300);
    let ops: Vec<OpD> = (0..8).map(|_| {
        let mut o = gen_op(r, &bs, raws.len());
        if r.chance(2, 3) { o.code = *r.pick(&[2u8, 3, 4, 6, 12, 11, 5]); }
        o
    }).collect();
    let first: Vec<Out> = ops.iter().map(|o| exec::<K>(o, &pool)).collect();
    let pool = Arc::new(pool);
    let nt = 4;
    let bar = Arc::new(Barrier::new(nt));
    let log: Vec<Vec<(usize, Out, u64, u64)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt).map(|t| {
            let (pool, bar, ops) = (pool.clone(), bar.clone(), &ops);
            s.spawn(move || {
                bar.wait();
                let t0 = std::time::Instant::now();
                let mut out = vec![];
                for i in 0..2 * ops.len()
                {
                    let k = (i * (2 * t + 1) + t) % ops.len();
                    let s0 = t0.elapsed().as_nanos() as u64;
                    let o = exec::<K>(&ops[k], &pool);
                    out.push((k, o, s0, t0.elapsed().as_nanos() as u64));
                }
                out
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // offline check of the recorded events, and how much really overlapped
    let mut overlaps = 0;
    for (t, l) in log.iter().enumerate()
    {
        for (k, o, s0, e0) in l
        {
            c17_cmp::<K>(cx, &ops[*k], &raws, &first[*k], o, &format!("from thread {} of {} running concurrently", t, nt));
            for l2 in &log[t + 1..] { overlaps += l2.iter().filter(|(_, _, s1, e1)| s0 < e1 && s1 < e0).count() as u64; }
        }
    }
    check_operands::<K>(cx, &pool, &raws, "after concurrent use");
    cx.count("concurrent rounds");
    cx.add("operations executed concurrently", log.iter().map(|l| l.len() as u64).sum());
    cx.add("pairs of operations observed to overlap in time", overlaps);
    for o in &ops { cx.eval(true, mix(&[hash_raw(&raws[o.i]), hash_raw(&raws[o.j]), o.code as u64, o.k as u64, 4, hash_str(K::NAME)])); }
    cx.sample(|| format!("{}: {} threads x {} operations on shared operands, {} overlapping pairs", K::NAME, nt, 2 * ops.len(), overlaps));
}

/// One number object that lives through many updates (keeping its memory, with unused capacity that holds old
/// digits) must behave exactly like a number freshly made from its digits, at every step.
pub fn c17_inplace<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let lim = if giant() > 0 { giant() } else { *r.pick(&[8, 40, 100, 260, 500]) };
    let stale = |r: &mut Rng| -> Raw { let n = match r.usize(4) { 0 => 0, 1 => r.usize(4), 2 => r.usize(80), _ => r.usize(2 * lim) }; let k = r.usize(3); (0..n).map(|_| match k { 0 => bs.maxd(), 1 => any_digit(&bs, r), _ => edge_digit(&bs, r) }).collect() };
    let n = size(r, &SZ_MUL).min(lim);
    let x = number(&bs, r, n);
    let st = stale(r);
    let mut u = K::mk_spare(&x, &st);
    let mut raws: Vec<Raw> = (0..3).map(|_| { let n = size(r, &SZ_DEFAULT).min(lim); related(&bs, r, &x, n) }).collect();
    let mut pool: Vec<K::B> = raws.iter().map(|x| { let st = stale(r); K::mk_spare(x, &st) }).collect();
    let mut cur = x.clone();
    let steps = if giant() > 0 { 6 } else { r.range(8, 24) };
    for step in 0..steps
    {
        let j = r.usize(pool.len());
        let (form, k) = (r.usize(5), match r.usize(3) { 0 => r.usize(8), 1 => r.usize(200), _ => bs.bits as usize * r.usize(1 + cur.len().min(40)) });
        let small = gen_small_rhs(&bs, r);
        let less = raw_cmp(&cur, &raws[j]) == std::cmp::Ordering::Less;
        let (name, res, exp): (String, Result<Option<K::B>, String>, Result<(K::B, Option<K::B>), String>) =
        {
            let fresh = K::mk(&cur);
            let b = K::mk(&raws[j]);
            let bv = |r: &mut Rng| { let st = stale(r); K::mk_spare(&raws[j], &st) };
            let op = *r.pick(&OPS);
            match r.usize(9)
            {
                0 | 1 | 2 | 3 => {
                    let op = if op == Op::Sub && less { Op::Add } else { op };
                    let op = if (op == Op::Div || op == Op::Rem) && raws[j].is_empty() { Op::Add } else { op };
                    let op = if op == Op::Mul && cur.len() + raws[j].len() > 2 * lim { Op::Rem } else { op };
                    let op = if op == Op::Rem && raws[j].is_empty() { Op::Add } else { op };
                    let v = bv(r);
                    (format!("{:?} form {}", op, form), guard(|| { K::op_mut(op, form, &mut u, v); None }), guard(|| (K::op(op, 3, &fresh, Rhs::Big(&b)), None)))
                }
                4 | 5 => {
                    let mut word = small.word;
                    if word == 0 && matches!(op, Op::Div | Op::Rem) { word = 1; }
                    let op = if op == Op::Sub && cur.len() <= 2 { Op::Add } else { op };
                    let rhs = || if small.rhs == 1 { Rhs::Digit(word) } else { Rhs::Prim(word) };
                    (format!("{:?} single {} form {}", op, word, form % 2), guard(|| { K::op_mut_small(op, form % 2, &mut u, rhs()); None }), guard(|| (K::op(op, 1, &fresh, rhs()), None)))
                }
                6 => {
                    let left = cur.len() < 2 * lim && r.chance(1, 2);
                    (format!("{} {} form {}", if left { "<<" } else { ">>" }, k, form % 2), guard(|| { K::shift_mut(left, form % 2, &mut u, k); None }),
                        guard(|| (if left { K::shl(1, &fresh, k) } else { K::shr(1, &fresh, k) }, None)))
                }
                7 if !raws[j].is_empty() => {
                    let div = r.chance(2, 3);
                    let got = guard(|| K::divrem_mut(div, &mut u, &pool[j]));
                    let m = guard(|| if div { K::div_method(fresh.clone(), &b) } else { K::rem_method(fresh.clone(), &b) });
                    (if div { "div_assign_big".into() } else { "rem_assign_big".into() }, got.and_then(|x| x), m.and_then(|m| match m.res { Ok(x) => Ok((m.after, x)), Err(e) => Err(e) }))
                }
                8 => { // the memory of another number is reused for this value, or the two change roles
                    if r.chance(1, 2)
                    {
                        std::mem::swap(&mut u, &mut pool[j]);
                        std::mem::swap(&mut cur, &mut raws[j]);
                        let f = K::mk(&cur);
                        ("swap".into(), Ok(None), Ok((f, None)))
                    }
                    else { u.clone_from(&pool[j]); cur = raws[j].clone(); ("clone_from".into(), Ok(None), Ok((b, None))) }
                }
                _ => { let form = r.usize(2); let a = if form == 0 { K::square(&u) } else { u.clone() };
                       if form == 0 && cur.len() <= lim { u = a; ("square".into(), Ok(None), guard(|| (K::square(&fresh), None))) } else { ("clone".into(), Ok(None), Ok((fresh, None))) } }
            }
        };
        let det = |got: &str, exp: &str| format!("value {}, other {}, step {}: {}: in place {}, fresh {}", show(&cur), show(&raws[j]), step, name, got, exp);
        cx.eval(!cur.is_empty(), mix(&[hash_raw(&cur), hash_raw(&raws[j]), hash_str(&name), hash_str(K::NAME)]));
        cx.count("in-place updates compared with fresh numbers");
        cx.size_class("operand", cur.len());
        match (res, exp)
        {
            (Ok(rem), Ok((v, erem))) => {
                let (g, e) = (K::raw(&u), K::raw(&v));
                let (gr, er) = (rem.as_ref().map(|x| K::raw(x)), erem.as_ref().map(|x| K::raw(x)));
                if g != e || u != v || gr != er
                {
                    cx.fail(format!("{} {} in place differs", K::NAME, name.split(' ').next().unwrap()), det(&format!("{} {:?}", show(&g), gr), &format!("{} {:?}", show(&e), er)));
                    return;
                }
                if let Some(x) = rem { raws[j] = K::raw(&x); pool[j] = x; }
                cur = g;
            }
            (Err(_), Err(_)) => { cx.count("in-place updates that panic like fresh ones"); u = K::mk(&cur); }
            (Err(m), Ok(_)) => { cx.fail(format!("{} {} in place panicked", K::NAME, name.split(' ').next().unwrap()), det(&m, "succeeded")); return; }
            (Ok(_), Err(m)) => { cx.fail(format!("{} {} in place differs", K::NAME, name.split(' ').next().unwrap()), det("succeeded", &m)); return; }
        }
        if cur.len() > 2 * lim + 50 { let y = raws[j].clone(); u = K::mk_spare(&y, &cur); cur = y; }
    }
    for (b, x) in pool.iter().zip(&raws)
    {
        if K::raw(b) != *x { cx.fail(format!("{} shared operand changed", K::NAME), format!("{} became {} (in-place updates of another number)", show(x), show(&K::raw(b)))); return; }
    }
    cx.sample(|| format!("{}: one number through {} in-place updates, now {} digits", K::NAME, steps, cur.len()));
}

/// Algebraic identities along in-place updates. Uses only the library itself and digit equality.
pub fn c17_identities<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let cap = *r.pick(&[6, 30, 60, 140, 300]);
    let pick = |r: &mut Rng| { let n = size(r, &SZ_MUL).min(gen_cap(cap)); number(&bs, r, n) };
    let x = pick(r);
    let y = if r.chance(1, 2) { let n = x.len(); related(&bs, r, &x, n) } else { pick(r) };
    let z = pick(r);
    let (a, b, c) = (K::mk(&x), K::mk(&y), K::mk(&z));
    let mut steps: Vec<&'static str> = vec![];
    let t = a.clone();
    let big = |op: Op, u: &K::B, v: &K::B| K::op(op, 5, u, Rhs::Big(v));
    let nsteps = r.range(2, 5);
    for _ in 0..nsteps
    {
        let k = r.usize(260);
        let id = r.usize(10);
        let w = prim(&bs, r).max(1);
        let name = ["(t+b)-b = t", "(t*b)/b = t", "(t<<k)>>k = t", "(t*b)%b = 0", "t*(b+c) = t*b+t*c", "(t+b)^2 = t^2+2tb+b^2", "(t/b)*b+t%b = t", "t-(t-m) = m", "((t+w)*w-w*w)/w = t", "(t+b)-t = b"][id];
        let res = guard(|| -> (K::B, K::B) { match id
        {
            0 => (big(Op::Sub, &big(Op::Add, &t, &b), &b), t.clone()),
            1 => if y.is_empty() { (t.clone(), t.clone()) } else { (big(Op::Div, &big(Op::Mul, &t, &b), &b), t.clone()) },
            2 => (K::shr(2, &K::shl(2, &t, k), k), t.clone()),
            3 => if y.is_empty() { (t.clone(), t.clone()) } else { (big(Op::Rem, &big(Op::Mul, &t, &b), &b), K::zero_()) },
            4 => (big(Op::Mul, &t, &big(Op::Add, &b, &c)), big(Op::Add, &big(Op::Mul, &t, &b), &big(Op::Mul, &t, &c))),
            5 => {
                let s = big(Op::Add, &t, &b);
                let tb = big(Op::Mul, &t, &b);
                (K::square(&s), big(Op::Add, &big(Op::Add, &K::square(&t), &K::shl(1, &tb, 1)), &K::square(&b)))
            }
            6 => if y.is_empty() { (t.clone(), t.clone()) } else { (big(Op::Add, &big(Op::Mul, &big(Op::Div, &t, &b), &b), &big(Op::Rem, &t, &b)), t.clone()) },
            7 => { let m = if t < b { &t } else { &b }; (big(Op::Sub, &t, &big(Op::Sub, &t, m)), m.clone()) }
            8 => {
                // native forms: ((t + w) * w - w*w) / w = t
                let u = K::op(Op::Mul, 2, &K::op(Op::Add, 2, &t, Rhs::Prim(w)), Rhs::Prim(w));
                let ww = K::op(Op::Mul, 2, &K::from_prim(w), Rhs::Prim(w));
                (K::op(Op::Div, 2, &big(Op::Sub, &u, &ww), Rhs::Prim(w)), t.clone())
            }
            _ => (big(Op::Sub, &big(Op::Add, &t, &b), &t), b.clone())
        }});
        steps.push(name);
        cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&K::raw(&t)), hash_raw(&y), hash_raw(&z), id as u64, k as u64, w, hash_str(K::NAME)]));
        cx.count(&format!("identity {}", name));
        cx.size_class("operand", x.len());
        match res
        {
            Err(m) => { cx.fail(format!("{} identity {} panicked", K::NAME, name), format!("t = {}, b = {}, c = {}, k = {}, w = {}: {}", show(&K::raw(&t)), show(&y), show(&z), k, w, m)); return; }
            Ok((l, rr)) => {
                if l != rr || K::raw(&l) != K::raw(&rr)
                {
                    cx.fail(format!("{} identity {} violated", K::NAME, name),
                        format!("t = {}, b = {}, c = {}, k = {}, w = {}: left {} right {}", show(&K::raw(&t)), show(&y), show(&z), k, w, show(&K::raw(&l)), show(&K::raw(&rr))));
                    return;
                }
            }
        }
        // keep going with an updated number
        let _ = t.is_zero();
    }
    // a chain of in-place updates and its exact reversal
    let mut u = a.clone();
    let mut undo: Vec<(u8, usize, u64)> = vec![];
    let chain = guard(|| {
        for _ in 0..8
        {
            let k = r.usize(70);
            let w = prim(&bs, r).max(1);
            match r.usize(6)
            {
                0 => { u = K::op(Op::Add, 4, &u, Rhs::Big(&b)); undo.push((0, 0, 0)); }
                1 if !y.is_empty() && K::nr_digits(&u) < 400 => { u = K::op(Op::Mul, 5, &u, Rhs::Big(&b)); undo.push((1, 0, 0)); }
                2 => { u = K::shl(2, &u, k); undo.push((2, k, 0)); }
                3 => { u = K::op(Op::Add, 2, &u, Rhs::Prim(w)); undo.push((3, 0, w)); }
                4 => { u = K::op(Op::Mul, 2, &u, Rhs::Prim(w)); undo.push((4, 0, w)); }
                _ => { u = K::op(Op::Add, 5, &u, Rhs::Big(&c)); undo.push((5, 0, 0)); }
            }
        }
        for &(t, k, w) in undo.iter().rev()
        {
            match t
            {
                0 => u = K::op(Op::Sub, 4, &u, Rhs::Big(&b)),
                1 => u = K::op(Op::Div, 5, &u, Rhs::Big(&b)),
                2 => u = K::shr(2, &u, k),
                3 => u = K::op(Op::Sub, 2, &u, Rhs::Prim(w)),
                4 => u = K::op(Op::Div, 2, &u, Rhs::Prim(w)),
                _ => u = K::op(Op::Sub, 5, &u, Rhs::Big(&c))
            }
        }
    });
    cx.eval(!x.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), hash_raw(&z), 1234, hash_str(K::NAME)]));
    cx.count("update chains reversed");
    match chain
    {
        Err(m) => cx.fail(format!("{} update chain panicked", K::NAME), format!("start {}, b = {}, c = {}, updates {:?}: {}", show(&x), show(&y), show(&z), undo, m)),
        Ok(()) => if K::raw(&u) != x
        {
            cx.fail(format!("{} update chain not reversible", K::NAME), format!("start {}, b = {}, c = {}, updates {:?}: came back as {}", show(&x), show(&y), show(&z), undo, show(&K::raw(&u))));
        }
    }
    cx.sample(|| format!("{}: identities {:?} and a reversed chain of {} updates", K::NAME, steps, undo.len()));
}
