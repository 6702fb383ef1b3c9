//! The monitors: one function per property. A case is a pure function of (property, seed, index).

use crate::ctx::*;
use crate::gen::*;
use crate::gen::cap as gen_cap;
use crate::kind::*;
use crate::nat::*;
use crate::rng::*;
use num_traits::{One, Zero};
use std::cmp::Ordering;

#[macro_export]
macro_rules! with_kind
{
    ($id:expr, $f:ident ( $($a:expr),* )) => {
        match $id % 8
        {
            0 => $f::<Bin8>($($a),*), 1 => $f::<Dec8>($($a),*),
            2 => $f::<Bin64>($($a),*), 3 => $f::<Dec64>($($a),*),
            4 => $f::<Bin16>($($a),*), 5 => $f::<Dec16>($($a),*),
            6 => $f::<Bin32>($($a),*), _ => $f::<Dec32>($($a),*)
        }
    }
}
macro_rules! with_bin_kind
{
    ($id:expr, $f:ident ( $($a:expr),* )) => {
        match $id % 4
        {
            0 => $f::<Bin8>($($a),*), 1 => $f::<Bin16>($($a),*),
            2 => $f::<Bin32>($($a),*), _ => $f::<Bin64>($($a),*)
        }
    }
}

pub const PROPS: [&str; 18] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12",
    "C13", "C14", "C15", "C16", "C17", "C18"];

/// Number of index values that belong to the systematic (enumerating) part of a property
pub fn systematic(prop: &str) -> u64
{
    match prop
    {
        "C01" | "C02" | "C03" | "C05" | "C10" => 8 * PARTS,
        "C11" => 8 * 16,
        "C07" => 8,
        _ => 0
    }
}
const PARTS: u64 = 32;

pub fn run_case(prop: &'static str, seed: u64, idx: u64, cx: &mut Ctx)
{
    cx.idx = idx;
    set_spare(0);
    set_giant(0);
    set_huge(false);
    let mut rng = Rng::new(mix(&[seed, hash_str(prop), idx]));
    let r = &mut rng;
    let nsys = systematic(prop);
    if idx < nsys
    {
        let part = idx / 8;
        match prop
        {
            "C01" => with_kind!(idx, c01_sys(cx, part)),
            "C02" => with_kind!(idx, c02_sys(cx, part)),
            "C03" => with_kind!(idx, c03_sys(cx, part)),
            "C05" => with_kind!(idx, c05_sys(cx, part)),
            "C07" => with_kind!(idx, c07_sys(cx, 1)),
            "C10" => with_kind!(idx, c10_sys(cx, part)),
            "C11" => with_kind!(idx, c11_sys(cx, part)),
            _ => unreachable!()
        }
        return;
    }
    // after the first cases of the random part, every length once
    let sweep_start = nsys + 16;
    let i = idx % (1 << 40);
    if i >= sweep_start && i < sweep_start + sweeps(prop)
    {
        let part = (i - sweep_start) / 8;
        if prop == "C13" { with_bin_kind!(idx, sweep(cx, r, prop, part)) }
        else if prop == "C14" { crate::props2::c14_sweep(cx, r, i - sweep_start, 8 * SWEEP_PARTS) }
        else { with_kind!(idx, sweep(cx, r, prop, part)) }
        return;
    }
    // one case in three: operands with unused capacity
    set_spare(if idx % 3 == 1 { cx.count("cases with unused capacity in the operands"); mix(&[seed, idx, 41]) | 1 } else { 0 });
    // now and then lengths far beyond the ordinary ones
    let (every, max, deep) = giants(prop);
    set_giant(if every > 0 && (idx / 8) % every == every - 1 { if cx.thorough { deep } else { max } } else { 0 });
    // and the first cases of the random part have the longest ones
    let far = huges(prop);
    set_huge(far > 0 && idx % (1 << 40) < nsys + if prop == "C16" { 8 } else { 16 });
    if huge() { set_giant(far); cx.count("cases with the longest operands"); }
    if huge() && far == 2
    {
        set_spare(0);
        if prop == "C06" { let n = 65_530 + r.usize(75_000); with_kind!(idx, c06_far(cx, r, n)) } else { with_kind!(idx, far_linear(cx, r, prop)) }
        return;
    }
    if giant() > 0 { cx.count("cases with operands of 1000 digits and more"); }
    match prop
    {
        "C01" => with_kind!(idx, c01(cx, r)),
        "C02" => with_kind!(idx, c02(cx, r)),
        "C03" => with_kind!(idx, c03(cx, r)),
        "C04" => with_kind!(idx, c04(cx, r)),
        "C05" => with_kind!(idx, c05(cx, r)),
        "C06" => with_kind!(idx, c06(cx, r)),
        "C07" => with_kind!(idx, c07(cx, r)),
        "C08" => with_kind!(idx, c08(cx, r)),
        "C09" => with_kind!(idx, c09(cx, r)),
        "C10" => with_kind!(idx, c10(cx, r)),
        "C11" => with_kind!(idx, c11(cx, r)),
        "C12" => with_kind!(idx, c12(cx, r)),
        "C13" => with_bin_kind!(idx, c13(cx, r)),
        "C14" => crate::props2::c14(cx, r),
        "C15" => with_kind!(idx, c15(cx, r)),
        "C16" => with_kind!(idx, c16(cx, r)),
        "C17" => {
            if (idx / 8) % 4 == 0 { with_kind!(idx, c17_concurrent(cx, r)) }
            else if (idx / 8) % 4 == 1 { with_kind!(idx, c17_history(cx, r)) }
            else if (idx / 8) % 4 == 2 { with_kind!(idx, c17_inplace(cx, r)) }
            else { with_kind!(idx, c17_identities(cx, r)) }
        }
        "C18" => with_kind!(idx, c18(cx, r)),
        _ => unreachable!()
    }
}

/// Number of cases that go through all lengths and pairs of lengths up to a bound
fn sweeps(prop: &str) -> u64
{
    if cfg!(miri) { return 0; }
    let _ = prop;
    8 * SWEEP_PARTS
}
const SWEEP_PARTS: u64 = 16;

/// Every length and every pair of lengths up to a bound, divided over the parts
fn sweep<K: Kind>(cx: &mut Ctx, r: &mut Rng, prop: &'static str, part: u64)
{
    let bs = K::BASE;
    let deep = if cx.thorough { 2 } else { 1 };
    let nr = if prop == "C13" { 2 * SWEEP_PARTS } else { SWEEP_PARTS };
    let part = if prop == "C13" { cx.idx / 4 % nr } else { part };
    // (lengths up to, pairs of lengths up to)
    let (single, pairs) = match prop
    {
        "C01" | "C02" => (4000, 160),
        "C03" => (2000, 128),
        "C04" => (2000, 0),
        "C05" => (1200, 96),
        "C06" => (1500, 40),
        "C09" => (600, 80),
        "C15" => (500, 60),
        "C16" => (260, 40),
        "C17" => (300, 32),
        "C18" => (450, 64),
        "C07" | "C08" => (600, 0),
        "C10" => (2000, 100),
        "C11" => (1200, 0),
        "C12" => (400, 0),
        _ => (600, 0)
    };
    let (single, pairs) = (single * deep, pairs * deep);
    let mut todo: Vec<(usize, usize)> = vec![];
    let mut k = 0;
    let mut mine = || { k += 1; k % nr == part };
    for n in 1..=single { if mine() { todo.push((n, usize::MAX)); } }
    for n in 1..=pairs { for m in 0..=(if prop == "C05" { pairs } else { n }) { if mine() { todo.push((n, m)); } } }
    if prop == "C04"
    {
        // short numbers raised to every exponent
        for n in 1..=3 { for e in 0..=300 * deep { if mine() { todo.push((n, e)); } } }
    }
    if prop == "C07" || prop == "C08"
    {
        for n in 1..=(if bs.dec { 8 } else { 16 } * deep) { for m in 0..(n + 2) * bs.bits as usize { if mine() { todo.push((n, m)); } } }
    }
    for (n, m) in todo
    {
        let single = m == usize::MAX;
        let x = number(&bs, r, n);
        cx.count(if single { "swept lengths" } else { "swept pairs of lengths" });
        match prop
        {
            "C01" | "C02" | "C03" => {
                let m = if single { if r.chance(1, 2) { n } else { r.range(n / 4, n) } } else { m };
                let y = number(&bs, r, m);
                if prop == "C03" { if r.chance(1, 2) { c03_pair::<K>(cx, r, &x, &y); } else { c03_pair::<K>(cx, r, &y, &x); } continue; }
                let (x, y) = if raw_cmp(&x, &y) == Ordering::Less || (prop == "C01" && r.chance(1, 2)) { (y, x) } else { (x, y) };
                let g = RhsGen { rhs: 0, form: r.usize(6), raw: y, word: 0 };
                let (a, b) = (K::mk(&x), K::mk(&g.raw));
                if prop == "C01" { c01_one::<K>(cx, &x, &a, &b, &g); } else { c02_one::<K>(cx, &x, &a, &b, &g); }
            }
            "C04" => if single { c04_square::<K>(cx, r, &x) } else { let form = r.usize(2); c04_pow::<K>(cx, &x, m, form) },
            "C06" => if single { c06_zero::<K>(cx, r, &x) } else { let num = number(&bs, r, n + m); c06_nonzero::<K>(cx, r, &num, &x) },
            "C09" | "C15" | "C16" | "C17" | "C18" => {
                let m = if single { if r.chance(1, 2) { n } else { r.range(n / 4, n) } } else { m };
                let y = number(&bs, r, m);
                let z = number(&bs, r, n + m);
                crate::props2::every_operation::<K>(cx, r, prop, [x, y, z], if single { Which::All } else { Which::Cheap });
            }
            "C05" => {
                let m = if single { if r.chance(1, 2) { r.usize(5) } else { r.usize(n + 3) } } else { m };
                let num = number(&bs, r, n + m);
                let (a, b) = (K::mk(&num), K::mk(&x));
                let way = r.usize(3);
                c05_pair::<K>(cx, r, &num, &x, &a, &b, way);
            }
            "C07" => { let k = if single { shift_count(&bs, r, n).min(6000) } else { m }; c07_one::<K>(cx, r, &x, k); }
            "C08" => { let k = if single { shift_count(&bs, r, n).min(6000) } else { m }; let nx = Nat::from_raw(&bs, &x); c08_one::<K>(cx, r, &x, &nx, k); }
            "C10" => {
                // numbers that differ in the digit m only
                let m = if single { r.usize(n) } else { m.min(n - 1) };
                let mut y = x.clone();
                y[m] = if y[m] == bs.maxd() { y[m] - 1 } else { y[m] + 1 };
                trim(&mut y);
                let (a, b) = (K::mk(&x), K::mk(&y));
                c10_pair::<K>(cx, &a, &b, "differing in one digit");
            }
            "C11" => {
                // n characters
                let hex = r.chance(1, 2);
                let d: &[u8] = if hex { b"0123456789abcdefABCDEF" } else { b"0123456789" };
                let s: String = (0..n).map(|_| d[r.usize(d.len())] as char).collect();
                let p = if hex { "0x" } else { "" };
                c11_one::<K>(cx, &format!("{}{}", p, s));
                let i = r.usize(n);
                c11_one::<K>(cx, &format!("{}{}{}{}", p, &s[..i], *r.pick(&["g", "+", "-", " ", "_", "x", "é", "/", ":", "@", "`", "G"]), &s[i + 1..]));
            }
            "C12" => c12_one::<K>(cx, r, &x),
            _ => c13_one::<K>(cx, &x)
        }
    }
}

fn huges(prop: &str) -> usize
{
    if cfg!(miri) { return 0; }
    match prop
    {
        "C01" | "C02" | "C10" => 140_000,
        "C11" => 80_000,
        "C03" | "C04" => 70_000,
        "C05" => 24_000,
        "C07" | "C08" => 100_000,
        "C12" => 10_000,
        "C13" => 20_000,
        "C16" => 1, // (the sizes are in c16_far)
        "C06" | "C09" | "C15" | "C17" | "C18" => 2, // (and in far_linear)
        _ => 0
    }
}

/// Differences of lengths that a narrow integer type cannot hold
const WRAPS: [usize; 3] = [32768, 65536, 131072];

/// One case in how many has very long operands; how long (quick, thorough)
fn giants(prop: &str) -> (u64, usize, usize)
{
    match prop
    {
        "C01" | "C02" | "C10" => (256, 20_000, 200_000),
        "C03" | "C04" => (300, 9_000, 40_000),
        "C05" => (400, 6_000, 20_000),
        "C06" => (400, 6_000, 20_000),
        "C07" | "C08" => (400, 5_000, 10_000),
        "C09" => (600, 3_000, 5_000),
        "C11" => (300, 20_000, 40_000),
        "C12" | "C13" => (400, 4_000, 8_000),
        "C14" | "C15" | "C16" => (500, 2_500, 5_000),
        "C17" | "C18" => (499, 2_500, 4_000),
        _ => (0, 0, 0)
    }
}

use crate::small::c18;
use crate::props2::{far_linear, Which, c15, c16, c17_inplace, c17_concurrent, c17_history, c17_identities};

/// Compare a guarded result with the expected digits
pub fn want<K: Kind>(cx: &mut Ctx, what: &str, got: &Result<K::B, String>, exp: &[u64], detail: impl FnOnce() -> String) -> bool
{
    match got
    {
        Err(m) => {
            cx.fail(format!("{} {} panicked", K::NAME, what), format!("{}; panic: {}; expected {}", detail(), m, show(exp)));
            false
        }
        Ok(g) => {
            let raw = K::raw(g);
            if raw == exp { true }
            else
            {
                cx.fail(format!("{} {} wrong-result", K::NAME, what),
                    format!("{}; got {}; expected {}", detail(), show(&raw), show(exp)));
                false
            }
        }
    }
}

pub fn form_name(rhs: usize, form: usize) -> String
{
    match rhs
    {
        0 => format!("big:{}", BIG_FORMS[form]),
        1 => format!("digit:{}", SMALL_FORMS[form]),
        _ => format!("native:{}", SMALL_FORMS[form])
    }
}

/// A random right-hand side: (kind, form, digits of the value, machine value for digit/native)
pub struct RhsGen { pub rhs: usize, pub form: usize, pub raw: Raw, pub word: u64 }
pub fn gen_small_rhs(bs: &Base, r: &mut Rng) -> RhsGen
{
    let form = r.usize(3);
    if r.chance(1, 2)
    {
        let d = if r.chance(1, 3) { any_digit(bs, r) } else { edge_digit(bs, r) };
        RhsGen { rhs: 1, form, raw: raw_from_u64(bs, d), word: d }
    }
    else
    {
        let p = prim(bs, r);
        RhsGen { rhs: 2, form, raw: raw_from_u64(bs, p), word: p }
    }
}
pub fn apply<K: Kind>(op: Op, a: &K::B, b: &K::B, g: &RhsGen) -> Result<K::B, String>
{
    guard(|| K::op(op, g.form, a, match g.rhs { 0 => Rhs::Big(b), 1 => Rhs::Digit(g.word), _ => Rhs::Prim(g.word) }))
}

/// All canonical numbers of up to three digits from the edge set, plus (for 8-bit digits) all
/// single digits
pub fn edge_numbers(bs: &Base, len: usize) -> Vec<Raw>
{
    let e = edge_set(bs);
    let mut out: Vec<Raw> = vec![vec![]];
    let mut cur: Vec<Raw> = vec![vec![]];
    for _ in 0..len
    {
        let mut next = vec![];
        for c in &cur { for &d in &e { let mut v = c.clone(); v.push(d); next.push(v); } }
        for v in &next { if *v.last().unwrap() != 0 { out.push(v.clone()); } }
        cur = next;
    }
    if bs.bits == 8 && len <= 3
    {
        for d in 1..bs.b as u64 { if !e.contains(&d) { out.push(vec![d]); } }
    }
    out
}

fn sys_pairs(bs: &Base, part: u64, mut f: impl FnMut(&Raw, &Raw, usize))
{
    let xs = edge_numbers(bs, 3);
    for (i, x) in xs.iter().enumerate()
    {
        if i as u64 % PARTS != part { continue; }
        for (j, y) in xs.iter().enumerate() { f(x, y, i * 31 + j); }
    }
}

/// the right-hand sides under which a small number can be given
fn sys_rhs(bs: &Base, y: &Raw, sel: usize) -> RhsGen
{
    let v = y.iter().rev().fold(0u128, |s, &d| s.saturating_mul(bs.b).saturating_add(d as u128));
    let native_ok = v <= bs.storage_max() as u128 && y.len() <= 2;
    match sel % 4
    {
        0 if y.len() <= 1 => RhsGen { rhs: 1, form: sel / 4 % 3, raw: y.clone(), word: *y.first().unwrap_or(&0) },
        1 if native_ok => RhsGen { rhs: 2, form: sel / 4 % 3, raw: y.clone(), word: v as u64 },
        _ => RhsGen { rhs: 0, form: sel / 4 % 6, raw: y.clone(), word: 0 }
    }
}

// ---------------------------------------------------------------------------------------------
// C01 addition

fn c01_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    sys_pairs(&bs, part, |x, y, sel| {
        let g = sys_rhs(&bs, y, sel);
        let (a, b) = (K::mk(x), K::mk(y));
        c01_one::<K>(cx, x, &a, &b, &g);
    });
    cx.count("systematic parts");
}

fn c01_one<K: Kind>(cx: &mut Ctx, x: &Raw, a: &K::B, b: &K::B, g: &RhsGen)
{
    let bs = K::BASE;
    let exp = raw_add(&bs, x, &g.raw);
    let got = apply::<K>(Op::Add, a, b, g);
    let grew = exp.len() > x.len().max(g.raw.len());
    if grew { cx.count("carry into a new digit"); }
    if g.rhs == 2 && g.raw.len() == 2 { cx.count("native addend of two digits"); }
    cx.eval(!x.is_empty() && !g.raw.is_empty(), mix(&[hash_raw(x), hash_raw(&g.raw), g.rhs as u64, g.form as u64, hash_str(K::NAME)]));
    let ok = want::<K>(cx, &format!("add {}", form_name(g.rhs, g.form)), &got, &exp,
        || format!("{} + {}", show(x), show(&g.raw)));
    if ok { cx.sample(|| format!("{}: {} + {} = {}", K::NAME, show(x), show(&g.raw), show(&exp))); }
}

fn c01<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    for _ in 0..8
    {
        let n = size(r, &SZ_LINEAR);
        let x = number(&bs, r, n);
        cx.size_class("augend", x.len());
        let g = if r.chance(1, 3) { gen_small_rhs(&bs, r) } else {
            let n1 = if huge() && r.chance(1, 3) { n - n.min(*r.pick(&WRAPS)) } else if r.chance(1, 2) { n } else { size(r, &SZ_LINEAR) };
            RhsGen { rhs: 0, form: r.usize(6), raw: related(&bs, r, &x, n1), word: 0 }
        };
        let (a, b) = (K::mk(&x), K::mk(&g.raw));
        // length of the longest run of propagated carries
        let mut run = 0; let mut best = 0; let mut c = 0u128;
        for i in 0..x.len().max(g.raw.len())
        {
            let s = *x.get(i).unwrap_or(&0) as u128 + *g.raw.get(i).unwrap_or(&0) as u128 + c;
            if s >= bs.b { c = 1; run += 1; best = best.max(run); } else { c = 0; run = 0; }
        }
        if best >= 8 { cx.count("carry chain of 8 or more digits"); }
        let b = if g.rhs == 0 { twin::<K>(cx, r, &x, &g.raw, &a, &b) } else { &b };
        c01_one::<K>(cx, &x, &a, b, &g);
    }
}

// ---------------------------------------------------------------------------------------------
// C02 subtraction

fn c02_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    sys_pairs(&bs, part, |x, y, sel| {
        let g = sys_rhs(&bs, y, sel);
        let (a, b) = (K::mk(x), K::mk(y));
        c02_one::<K>(cx, x, &a, &b, &g);
    });
    cx.count("systematic parts");
}

fn c02_one<K: Kind>(cx: &mut Ctx, x: &Raw, a: &K::B, b: &K::B, g: &RhsGen)
{
    let bs = K::BASE;
    let exp = raw_sub(&bs, x, &g.raw);
    let got = apply::<K>(Op::Sub, a, b, g);
    cx.eval(!g.raw.is_empty(), mix(&[hash_raw(x), hash_raw(&g.raw), g.rhs as u64, g.form as u64, hash_str(K::NAME)]));
    let f = format!("sub {}", form_name(g.rhs, g.form));
    match exp
    {
        Some(e) => {
            if e.is_empty() { cx.count("difference zero"); }
            else if e.len() < x.len() { cx.count("difference shorter than minuend"); }
            if g.rhs == 2 && g.raw.len() == 2 { cx.count("native subtrahend of two digits"); }
            let ok = want::<K>(cx, &f, &got, &e, || format!("{} - {}", show(x), show(&g.raw)));
            if ok { cx.sample(|| format!("{}: {} - {} = {}", K::NAME, show(x), show(&g.raw), show(&e))); }
        }
        None => {
            cx.count("underflow must panic");
            if let Ok(v) = got
            {
                cx.fail(format!("{} {} no-panic-on-underflow", K::NAME, f),
                    format!("{} - {} returned {}", show(x), show(&g.raw), show(&K::raw(&v))));
            }
        }
    }
}

fn c02<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    for _ in 0..8
    {
        let n = size(r, &SZ_LINEAR);
        let mut x = number(&bs, r, n);
        let mut g = if r.chance(1, 3) { gen_small_rhs(&bs, r) } else {
            let n1 = if huge() && r.chance(1, 3) { n - n.min(*r.pick(&WRAPS)) } else if r.chance(1, 2) { n } else { size(r, &SZ_LINEAR) };
            RhsGen { rhs: 0, form: r.usize(6), raw: related(&bs, r, &x, n1), word: 0 }
        };
        if g.rhs == 0
        {
            if raw_cmp(&x, &g.raw) == Ordering::Less && r.chance(4, 5) { std::mem::swap(&mut x, &mut g.raw); }
            // sometimes a minuend equal to subtrahend plus something short
            if r.chance(1, 4) { let k = r.usize(g.raw.len() + 1); let d = number(&bs, r, k); x = raw_add(&bs, &g.raw, &d); }
        }
        else if r.chance(1, 3)
        {
            // minuend close to the small subtrahend, or with zero digits to borrow through
            let d = raw_from_u64(&bs, r.below(3));
            x = if r.chance(1, 2) { raw_add(&bs, &g.raw, &d) } else { raw_sub(&bs, &g.raw, &d).unwrap_or_default() };
        }
        cx.size_class("minuend", x.len());
        let (a, b) = (K::mk(&x), K::mk(&g.raw));
        let b = if g.rhs == 0 { twin::<K>(cx, r, &x, &g.raw, &a, &b) } else { &b };
        c02_one::<K>(cx, &x, &a, b, &g);
    }
}

// ---------------------------------------------------------------------------------------------
// C03 multiplication

fn c03_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    let xs = edge_numbers(&bs, 3);
    let nats: Vec<Nat> = xs.iter().map(|x| Nat::from_raw(&bs, x)).collect();
    for (i, x) in xs.iter().enumerate()
    {
        if i as u64 % PARTS != part { continue; }
        let a = K::mk(x);
        for (j, y) in xs.iter().enumerate()
        {
            let g = sys_rhs(&bs, y, i * 31 + j);
            let b = K::mk(y);
            let exp = nats[i].mul(&nats[j]).to_raw(&bs);
            let got = apply::<K>(Op::Mul, &a, &b, &g);
            cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(x), hash_raw(y), g.rhs as u64, g.form as u64, hash_str(K::NAME)]));
            want::<K>(cx, &format!("mul {}", form_name(g.rhs, g.form)), &got, &exp, || format!("{} * {}", show(x), show(y)));
        }
    }
    cx.count("systematic parts");
}

/// Is `got` the product of x and y? Exact for moderate sizes, by residues modulo two primes above.
pub fn check_product(bs: &Base, r: &mut Rng, got: &[u64], x: &[u64], y: &[u64]) -> Result<&'static str, String>
{
    if x.is_empty() || y.is_empty()
    { return if got.is_empty() { Ok("zero") } else { Err("expected zero".into()) }; }
    if got.len() + 1 < x.len() + y.len() || got.len() > x.len() + y.len() || *got.last().unwrap() == 0
    { return Err(format!("length {} impossible for operands of {} and {} digits", got.len(), x.len(), y.len())); }
    if let Some(d) = got.iter().find(|&&d| d as u128 >= bs.b) { return Err(format!("digit {} not below the base", d)); }
    let limbs = |n: usize| n * bs.bits as usize / 64 + 1;
    let cost = limbs(x.len()) * limbs(y.len());
    if cost <= 4_000 || (cost < 1_000_000 && r.chance(1, 8))
    {
        let e = Nat::from_raw(bs, x).mul(&Nat::from_raw(bs, y));
        if Nat::from_raw(bs, got) == e { Ok("exact") } else { Err(format!("expected {}", show(&e.to_raw(bs)))) }
    }
    else
    {
        let e = Fp::of(bs, x).mul(Fp::of(bs, y));
        if Fp::of(bs, got) == e { Ok("residues") } else { Err("residues modulo two 61/64-bit primes differ".into()) }
    }
}

fn c03<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    if !huge() && r.chance(1, 4)
    {
        for _ in 0..6
        {
            let n = size(r, &SZ_LINEAR);
            let g = gen_small_rhs(&bs, r);
            let x = if n > 0 && n < 500 && g.word != 0 && r.chance(1, 4) { cx.count("product of edge digits"); quotient_of_edges(&bs, r, &g.raw, n) } else { number(&bs, r, n) };
            let (a, b) = (K::mk(&x), K::zero_());
            let got = apply::<K>(Op::Mul, &a, &b, &g);
            if g.raw.len() == 2 { cx.count("native factor of two digits"); }
            let exp = Nat::from_raw(&bs, &x).mul(&Nat::from_u64(g.word)).to_raw(&bs);
            cx.eval(!x.is_empty() && !g.raw.is_empty(), mix(&[hash_raw(&x), g.word, g.rhs as u64, g.form as u64, hash_str(K::NAME)]));
            want::<K>(cx, &format!("mul {}", form_name(g.rhs, g.form)), &got, &exp, || format!("{} * {}", show(&x), show(&g.raw)));
        }
        return;
    }
    let (x, y) = mul_pair(&bs, r, &SZ_MUL);
    c03_pair::<K>(cx, r, &x, &y);
}

fn c03_pair<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw, y: &Raw)
{
    let bs = K::BASE;
    let form = r.usize(6);
    let (a, b) = (K::mk(x), K::mk(y));
    let b = twin::<K>(cx, r, x, y, &a, &b);
    let got = guard(|| K::op(Op::Mul, form, &a, Rhs::Big(b)));
    cx.size_class("shorter factor", x.len().min(y.len()));
    if x.len().min(y.len()) >= 20
    {
        let (l, s) = (x.len().max(y.len()), x.len().min(y.len()));
        cx.count(if l == s { "long factors of equal length" } else if 2 * s > l { "long factors, within a factor 2" } else { "long factors, very unequal" });
    }
    cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), form as u64, hash_str(K::NAME)]));
    let f = format!("mul {}", form_name(0, form));
    match got
    {
        Err(m) => cx.fail(format!("{} {} panicked", K::NAME, f), format!("{} * {}; panic: {}", show(&x), show(&y), m)),
        Ok(g) => {
            let g = K::raw(&g);
            match check_product(&bs, r, &g, &x, &y)
            {
                Ok(how) => {
                    cx.count(&format!("products checked: {}", how));
                    cx.sample(|| format!("{}: {} digits x {} digits = {} digits, top digits {:?} x {:?}", K::NAME, x.len(), y.len(), g.len(), x.last(), y.last()));
                }
                Err(e) => cx.fail(format!("{} {} wrong-result", K::NAME, f), format!("{} * {} gave {}; {}", show(&x), show(&y), show(&g), e))
            }
        }
    }
}

/// Of two equal operands, now and then the first one as both
fn twin<'a, K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw, y: &Raw, a: &'a K::B, b: &'a K::B) -> &'a K::B
{
    if x == y && r.chance(2, 3) { cx.count("one object as both operands"); a } else { b }
}

pub trait KindExt: Kind { fn zero_() -> Self::B { <Self::B as Zero>::zero() } }
impl<K: Kind> KindExt for K {}

// ---------------------------------------------------------------------------------------------
// C04 squares and powers

fn c04<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    if huge() && cx.idx / 8 % 2 == 1
    {
        // long powers; some bases end in zero digits, so that the power ends in more than 65536 of them
        let t = *r.pick(&[0, 1, 9, 300, 3000, 20000]);
        let mut x = vec![0; t];
        let n = r.range(1, 4);
        x.extend(number(&bs, r, n));
        let x = trimmed(x);
        let e = 68_000 / x.len() + r.usize(200) % (1 + 20_000 / x.len());
        cx.count("powers of more than 65536 digits");
        let form = r.usize(2);
        c04_pow::<K>(cx, &x, e, form);
        return;
    }
    if huge() || r.chance(3, 5)
    {
        let n = size(r, &SZ_MUL);
        let x = if n > 0 && n <= 12 && r.chance(1, 4) { cx.count("squares near edge digits"); root_of_edges(&bs, r, n) } else { number(&bs, r, n) };
        c04_square::<K>(cx, r, &x);
        return;
    }
    // powers
    let (x, e): (Raw, usize) = match r.usize(8)
    {
        // exponents of which the low bits are not the whole story
        0 if r.chance(1, 3) => (raw_from_u64(&bs, r.below(2)), (1usize << *r.pick(&[8, 16, 24, 31, 32, 33, 48, 63])) + r.usize(2)),
        3 if r.chance(1, 8) => (raw_from_u64(&bs, 2 + r.below(2)), 65_530 + r.usize(20)),
        0 => (raw_from_u64(&bs, r.below(2)), if r.chance(1, 2) { usize::MAX - r.usize(3) } else { r.usize(1 << 20) }),
        1 => { let n = size(r, &SZ_SMALL); (number(&bs, r, n), r.usize(3)) }
        2 => { let n = r.range(0, 3); (number(&bs, r, n), r.range(0, 40)) }
        3 => (raw_from_u64(&bs, 2 + r.below(10)), r.range(0, 1200)),
        4 => (vec![edge_digit(&bs, r)], r.range(0, 200)),
        5 => { let n = r.range(1, 24); (number(&bs, r, n), r.range(3, 12)) }
        6 => { let k = 1usize << r.usize(9); (raw_from_u64(&bs, 2 + r.below(100)), (k + r.usize(3)).saturating_sub(1)) }
        _ => (vec![0, 1], r.range(0, 300))
    };
    let x = trimmed(x);
    let form = r.usize(2);
    c04_pow::<K>(cx, &x, e, form);
}

fn c04_square<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw)
{
    let bs = K::BASE;
    let a = K::mk(x);
    let via_pow = r.chance(1, 4);
    let form = r.usize(2);
    let got = guard(|| if via_pow { K::pow(form, &a, 2) } else { K::square(&a) });
    let f = if via_pow { "pow 2" } else { "square" };
    cx.size_class("squared number", x.len());
    cx.eval(!x.is_empty(), mix(&[hash_raw(&x), via_pow as u64, hash_str(K::NAME)]));
    match got
    {
        Err(m) => cx.fail(format!("{} {} panicked", K::NAME, f), format!("{}^2; panic: {}", show(&x), m)),
        Ok(g) => {
            let g = K::raw(&g);
            match check_product(&bs, r, &g, &x, &x)
            {
                Ok(how) => {
                    cx.count(&format!("squares checked: {}", how));
                    cx.sample(|| format!("{}: square of {} digits", K::NAME, x.len()));
                }
                Err(e) => cx.fail(format!("{} {} wrong-result", K::NAME, f), format!("{}^2 gave {}; {}", show(&x), show(&g), e))
            }
        }
    }
}

fn c04_pow<K: Kind>(cx: &mut Ctx, x: &Raw, e: usize, form: usize)
{
    let bs = K::BASE;
    let a = K::mk(x);
    let got = guard(|| K::pow(form, &a, e));
    cx.eval(!x.is_empty() && e > 1, mix(&[hash_raw(&x), e as u64, form as u64, hash_str(K::NAME)]));
    cx.count(match e { 0 => "exponent 0", 1 => "exponent 1", 2 => "exponent 2", 3..=16 => "exponent 3-16", 17..=1200 => "exponent 17-1200", _ => "exponent >1200" });
    let f = "pow";
    match got
    {
        Err(m) => cx.fail(format!("{} {} panicked", K::NAME, f), format!("{}^{}; panic: {}", show(&x), e, m)),
        Ok(g) => {
            let g = K::raw(&g);
            cx.seen_len(g.len());
            let v = Fp::of(&bs, &x).pow(e as u64);
            let mut ok = Fp::of(&bs, &g) == v && g.last() != Some(&0) && g.iter().all(|&d| (d as u128) < bs.b);
            if ok && (e as u64) < 64 && x.len() * e < 400
            {
                let xn = Nat::from_raw(&bs, &x);
                ok = Nat::from_raw(&bs, &g) == xn.pow(e as u64);
                cx.count("powers checked exactly");
            }
            else if ok
            {
                // magnitude: (n-1)*e < digits <= n*e
                if !x.is_empty() && e > 0 && (x.len() > 1 || x[0] > 1)
                { ok = g.len() > (x.len() - 1) * e && g.len() <= x.len() * e; }
                else { ok = g.len() <= 1; }
                cx.count("powers checked by residues and length");
            }
            if !ok { cx.fail(format!("{} {} wrong-result", K::NAME, f), format!("{}^{} gave {}", show(&x), e, show(&g))); }
            else { cx.sample(|| format!("{}: {}^{} has {} digits", K::NAME, show(&x), e, g.len())); }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C05 division

/// n = q*d + r and r < d ?
pub fn check_divrem(bs: &Base, r: &mut Rng, n: &[u64], d: &[u64], q: &[u64], rem: &[u64]) -> Result<(), String>
{
    for v in [q, rem]
    {
        if v.last() == Some(&0) { return Err("result with leading zero digit".into()); }
        if v.iter().any(|&x| x as u128 >= bs.b) { return Err("digit not below the base".into()); }
    }
    if raw_cmp(rem, d) != Ordering::Less { return Err("remainder not below divisor".into()); }
    if !q.is_empty() && q.len() + d.len() > n.len() + 1 { return Err("quotient too long".into()); }
    let limbs = |n: usize| n * bs.bits as usize / 64 + 1;
    let cost = limbs(q.len()) * limbs(d.len());
    let ok = if cost <= 4_000 || (cost < 1_000_000 && r.chance(1, 8))
    {
        Nat::from_raw(bs, q).mul(&Nat::from_raw(bs, d)).add(&Nat::from_raw(bs, rem)) == Nat::from_raw(bs, n)
    }
    else
    {
        Fp::of(bs, q).mul(Fp::of(bs, d)).add(Fp::of(bs, rem)) == Fp::of(bs, n)
    };
    if ok { Ok(()) } else { Err("quotient*divisor + remainder is not the dividend".into()) }
}

fn c05_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    let ns = edge_numbers(&bs, 4);
    let mut ds = edge_numbers(&bs, 3);
    ds.retain(|d| !d.is_empty());
    let mut r = Rng::new(mix(&[part, 55]));
    let dens: Vec<(Raw, K::B)> = ds.into_iter().map(|d| { let b = K::mk(&d); (d, b) }).collect();
    for (i, n) in ns.iter().enumerate()
    {
        if i as u64 % PARTS != part { continue; }
        let a = K::mk(n);
        for (j, (d, b)) in dens.iter().enumerate()
        {
            if n.len() == 4 && (i + j) % 2 == 1 { continue; }
            c05_pair::<K>(cx, &mut r, n, d, &a, b, (i * 7 + j) % 3);
        }
    }
    cx.count("systematic parts");
}

fn c05_pair<K: Kind>(cx: &mut Ctx, r: &mut Rng, n: &Raw, d: &Raw, a: &K::B, b: &K::B, way: usize)
{
    let bs = K::BASE;
    let (q, rem): (Result<K::B, String>, Result<K::B, String>) = match way
    {
        0 => {
            let (f0, f1) = (r.usize(6), r.usize(6));
            (guard(|| K::op(Op::Div, f0, a, Rhs::Big(b))), guard(|| K::op(Op::Rem, f1, a, Rhs::Big(b))))
        }
        1 => match guard(|| K::div_method(a.clone(), b))
        {
            Err(m) => (Err(m.clone()), Err(m)),
            Ok(o) => match o.res
            {
                Ok(rem) => (Ok(o.after), Ok(rem.unwrap())),
                Err(e) => (Err(format!("returned error {}", e)), Err(format!("returned error {}", e)))
            }
        },
        _ => {
            let f0 = r.usize(6);
            let rem = match guard(|| K::rem_method(a.clone(), b))
            {
                Err(m) => Err(m),
                Ok(o) => match o.res { Ok(_) => Ok(o.after), Err(e) => Err(format!("returned error {}", e)) }
            };
            (guard(|| K::op(Op::Div, f0, a, Rhs::Big(b))), rem)
        }
    };
    let f = ["div/rem operators", "div method", "div operator, rem method"][way];
    cx.eval(n.len() >= d.len() && !n.is_empty(), mix(&[hash_raw(n), hash_raw(d), way as u64, hash_str(K::NAME)]));
    let det = || format!("{} / {}", show(n), show(d));
    match (q, rem)
    {
        (Ok(q), Ok(rem)) => {
            let (q, rem) = (K::raw(&q), K::raw(&rem));
            if let Err(e) = check_divrem(&bs, r, n, d, &q, &rem)
            {
                cx.fail(format!("{} {} wrong-result", K::NAME, f), format!("{} gave quotient {} remainder {}: {}", det(), show(&q), show(&rem), e));
            }
            else
            {
                if q.contains(&bs.maxd()) { cx.count("quotient with a maximal digit"); }
                if rem.is_empty() { cx.count("remainder zero"); }
                cx.sample(|| format!("{}: {} = q {} r {}", K::NAME, det(), show(&q), show(&rem)));
            }
        }
        (Err(m), _) | (_, Err(m)) => cx.fail(format!("{} {} panicked", K::NAME, f), format!("{}: {}", det(), m))
    }
}

fn c05<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    if !huge() && r.chance(1, 5)
    {
        for _ in 0..6
        {
            let mut g = gen_small_rhs(&bs, r);
            if g.word == 0 { g.word = 1; g.raw = vec![1]; }
            let n = size(r, &SZ_LINEAR);
            let x = if r.chance(1, 3) { cx.count("partial remainders at their ends"); stepped(&bs, r, g.word, n) } else if r.chance(1, 2) { number(&bs, r, n) } else {
                // multiple of the divisor plus an extreme remainder
                let q = number(&bs, r, n);
                let m = match r.usize(3) { 0 => 0, 1 => g.word - 1, _ => r.below(g.word) };
                let mut v = Nat::from_raw(&bs, &q);
                v.mul_small_add(g.word, m);
                v.to_raw(&bs)
            };
            // share the leading digits with the divisor now and then
            let x = if r.chance(1, 6) { let mut v = block(&bs, r, n, 1); v.extend_from_slice(&g.raw); v } else { x };
            let a = K::mk(&x);
            let b = K::zero_();
            if g.raw.len() == 2 { cx.count("native divisor of two digits"); }
            let mut e = Nat::from_raw(&bs, &x);
            let er = raw_from_u64(&bs, e.div_small(g.word));
            let eq = e.to_raw(&bs);
            cx.eval(!x.is_empty(), mix(&[hash_raw(&x), g.word, g.rhs as u64, g.form as u64, hash_str(K::NAME)]));
            let q = apply::<K>(Op::Div, &a, &b, &g);
            want::<K>(cx, &format!("div {}", form_name(g.rhs, g.form)), &q, &eq, || format!("{} / {}", show(&x), show(&g.raw)));
            let m = apply::<K>(Op::Rem, &a, &b, &g);
            want::<K>(cx, &format!("rem {}", form_name(g.rhs, g.form)), &m, &er, || format!("{} % {}", show(&x), show(&g.raw)));
        }
        return;
    }
    for _ in 0..3
    {
        let (n, d) = div_pair(&bs, r, &SZ_DIV);
        cx.size_class("divisor", d.len());
        cx.size_class("dividend", n.len());
        if n.len() > d.len() && n[n.len() - d.len().min(3)..] == d[d.len() - d.len().min(3)..] { cx.count("dividend and divisor share leading digits"); }
        let (a, b) = (K::mk(&n), K::mk(&d));
        let way = r.usize(3);
        let b = twin::<K>(cx, r, &n, &d, &a, &b);
        c05_pair::<K>(cx, r, &n, &d, &a, b, way);
    }
}

// ---------------------------------------------------------------------------------------------
// C06 division by zero

fn c06<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let n = size(r, &SZ_LINEAR);
    let x = if r.chance(1, 8) { vec![] } else { number(&bs, r, n) };
    c06_zero::<K>(cx, r, &x);
    let (n, d) = div_pair(&bs, r, &SZ_DIV);
    c06_nonzero::<K>(cx, r, &n, &d);
}

fn c06_far<K: Kind>(cx: &mut Ctx, r: &mut Rng, n: usize)
{
    let x = number(&K::BASE, r, n);
    c06_zero::<K>(cx, r, &x);
    cx.seen_len(n);
}

fn c06_zero<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw)
{
    let a = K::mk(x);
    // zero in all the ways a user can get one
    let zero: K::B = match r.usize(5)
    {
        0 => K::zero_(),
        1 => K::mk(&[]),
        2 => K::mk(&[0, 0, 0]),
        3 => K::from_prim(0),
        _ => match guard(|| K::op(Op::Mul, 3, &a, Rhs::Big(&K::zero_()))) { Ok(z) if K::raw(&z).is_empty() => z, _ => K::zero_() }
    };
    cx.size_class("dividend", x.len());
    for op in [Op::Div, Op::Rem]
    {
        for rhs in 0..3
        {
            for form in 0..(if rhs == 0 { 6 } else { 3 })
            {
                let rh = match rhs { 0 => Rhs::Big(&zero), 1 => Rhs::Digit(0), _ => Rhs::Prim(0) };
                let got = guard(|| K::op(op, form, &a, rh));
                cx.eval(true, mix(&[hash_raw(&x), rhs as u64, form as u64, op as u64, hash_str(K::NAME)]));
                cx.count("operator with zero divisor");
                if let Ok(v) = got
                {
                    cx.fail(format!("{} {:?} {} no-panic", K::NAME, op, form_name(rhs, form)),
                        format!("{} {:?} 0 returned {}", show(&x), op, show(&K::raw(&v))));
                }
            }
        }
    }
    for m in 0..2
    {
        let name = ["div method", "rem method"][m];
        let o = guard(|| if m == 0 { K::div_method(a.clone(), &zero) } else { K::rem_method(a.clone(), &zero) });
        cx.eval(true, mix(&[hash_raw(&x), 77, m as u64, hash_str(K::NAME)]));
        match o
        {
            Err(p) => cx.fail(format!("{} {} panicked", K::NAME, name), format!("{} by zero: {}", show(&x), p)),
            Ok(o) => {
                match o.res
                {
                    Ok(_) => cx.fail(format!("{} {} no-error", K::NAME, name), format!("{} by zero succeeded", show(&x))),
                    Err(e) if e != "DivisionByZero" => cx.fail(format!("{} {} wrong-error", K::NAME, name), format!("{} by zero: {}", show(&x), e)),
                    Err(_) => { cx.count("method reported division by zero"); }
                }
                let after = K::raw(&o.after);
                if after != *x
                {
                    cx.fail(format!("{} {} dividend-changed", K::NAME, name), format!("{} became {}", show(&x), show(&after)));
                }
            }
        }
    }    cx.sample(|| format!("{}: {} by zero in 18 operator forms and 2 methods", K::NAME, show(x)));
}

/// The converse: non-zero divisors are never reported as zero
fn c06_nonzero<K: Kind>(cx: &mut Ctx, r: &mut Rng, n: &Raw, d: &Raw)
{
    let bs = K::BASE;
    let (a, b) = (K::mk(&n), K::mk(&d));
    for m in 0..2
    {
        let name = ["div method", "rem method"][m];
        let o = guard(|| if m == 0 { K::div_method(a.clone(), &b) } else { K::rem_method(a.clone(), &b) });
        cx.eval(true, mix(&[hash_raw(&n), hash_raw(&d), m as u64, hash_str(K::NAME)]));
        match o
        {
            Ok(o) => match o.res
            {
                Err(e) => cx.fail(format!("{} {} error-for-nonzero", K::NAME, name), format!("{} by {}: {}", show(&n), show(&d), e)),
                Ok(_) => { cx.count("method accepted a non-zero divisor"); }
            },
            Err(p) => {
                // a panic other than a zero report belongs to another property
                if p.to_lowercase().contains("zero") { cx.fail(format!("{} {} error-for-nonzero", K::NAME, name), format!("{} by {}: {}", show(&n), show(&d), p)); }
            }
        }
    }
    let g = gen_small_rhs(&bs, r);
    if g.word != 0
    {
        for op in [Op::Div, Op::Rem]
        {
            let got = apply::<K>(op, &a, &b, &g);
            cx.eval(true, mix(&[hash_raw(&n), g.word, g.rhs as u64, op as u64, hash_str(K::NAME)]));
            if let Err(p) = got
            {
                if p.to_lowercase().contains("zero") { cx.fail(format!("{} {:?} error-for-nonzero", K::NAME, op), format!("{} by {}: {}", show(&n), g.word, p)); }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C07 / C08 shifts

fn shift_count(bs: &Base, r: &mut Rng, n: usize) -> usize
{
    let w = bs.bits as usize;
    let hexlim = 4 * (2 * w / 8 - 1);
    let nb = (n as f64 * (bs.b as f64).log2()) as usize;
    let j = |r: &mut Rng, x: usize| (x + r.usize(3)).saturating_sub(1);
    // far beyond the usual counts, and around counts that need more than 16 bits
    if giant() > 0 && r.chance(1, 3) { return if r.chance(1, 2) { r.usize(16 * giant()) } else { let k = r.usize(4) + 13; j(r, 1 << k) + w * r.usize(3) }; }
    if r.chance(1, if bs.dec { 2000 } else { 200 }) { return 65_000 + r.usize(1100); }
    match r.usize(10)
    {
        0 => r.usize(4),
        1 => r.usize(w + 1),
        2 => { let k = r.usize(6) * w; j(r, k) }
        3 => j(r, hexlim),
        4 => { let k = r.range(1, 4) * hexlim; j(r, k) }
        5 => r.usize(3 * w),
        6 => j(r, nb),
        7 => r.usize(nb + 2 * w),
        8 => { let k = 1usize << r.usize(11); j(r, k) }
        _ => r.usize(3000)
    }
}

/// Shift counts that need more than 32 bits, with a result that fits in memory
fn c07_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    let w = bs.bits as usize;
    if bs.dec || w < 64 || cfg!(debug_assertions) || cfg!(miri) { return; }
    let k = (1usize << 32) + 67 * part as usize;
    let got = guard(|| {
        let a = K::shl(2, &K::mk(&[5]), k);
        let top = K::nr_digits(&a);
        let b = K::shr(2, &a, k - 1);
        (top, K::raw(&b))
    });
    cx.eval(true, mix(&[k as u64, hash_str(K::NAME)]));
    cx.count("counts of more than 32 bits");
    let exp = (k + 3 + w - 1) / w;
    match got
    {
        Err(m) => cx.fail(format!("{} shl panicked", K::NAME), format!("5 << {}: {}", k, m)),
        Ok((top, back)) => if top != exp || back != [10]
        { cx.fail(format!("{} shl wrong-result", K::NAME), format!("5 << {} has {} digits, expected {}; shifted right by one less it is {}", k, top, exp, show(&back))); }
    }
}

fn c07<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    for _ in 0..(if giant() > 0 { 2 } else { 4 })
    {
        let n = size(r, &SZ_LINEAR);
        let n = n.min(gen_cap(400)).min(if giant() > 0 && bs.dec { 2500 } else { usize::MAX });
        let edges = bs.dec && n > 0 && n <= 100 && r.chance(1, 5);
        let j = 1 + r.usize(bs.bits as usize - 2);
        let x = if edges { cx.count("shifted number with edge digits"); quotient_of_edges(&bs, r, &raw_from_u64(&bs, 1 << j), n) } else { number(&bs, r, n) };
        let k = if edges && r.chance(2, 3) { j } else if x.is_empty() && r.chance(1, 2) { *r.pick(&[usize::MAX, usize::MAX - 63, 1 << 40, 1 << 20]) } else { shift_count(&bs, r, n) };
        c07_one::<K>(cx, r, &x, k);
    }
}

fn c07_one<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw, k: usize)
{
    let bs = K::BASE;
    let form = r.usize(3);
    let a = K::mk(&x);
    let got = guard(|| K::shl(form, &a, k));
    let exp = if x.is_empty() { vec![] } else { Nat::from_raw(&bs, &x).shl(k).to_raw(&bs) };
    cx.size_class("shifted number", x.len());
    cx.count(if k == 0 { "count 0" } else if k % bs.bits as usize == 0 { "count multiple of digit width" } else if k < bs.bits as usize { "count below digit width" } else { "count above digit width" });
    cx.eval(k > 0, mix(&[hash_raw(&x), k as u64, form as u64, hash_str(K::NAME)]));
    if want::<K>(cx, &format!("shl {}", SMALL_FORMS[form]), &got, &exp, || format!("{} << {}", show(&x), k))
    { cx.sample(|| format!("{}: {} << {}", K::NAME, show(&x), k)); }
}

fn c08<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    for _ in 0..(if giant() > 0 { 2 } else { 4 })
    {
        let n = size(r, &SZ_LINEAR);
        let n = n.min(gen_cap(400)).min(if giant() > 0 && bs.dec { 2500 } else { usize::MAX });
        let edges = bs.dec && n > 0 && r.chance(1, 5);
        let j = 1 + r.usize(bs.bits as usize - 2);
        let x = if edges { cx.count("partial remainders at their ends"); stepped(&bs, r, 1 << j, n) } else { number(&bs, r, n) };
        let nx = Nat::from_raw(&bs, &x);
        let k = match r.usize(8)
        {
            1..=5 if edges => j,
            0 if r.chance(1, 2) => (1usize << r.range(8, 63)) + r.usize(nx.bits() + 2),
            0 => *r.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 40, 1 << 32, u32::MAX as usize, 1 << 31, usize::MAX - 63]),
            1 => (nx.bits() + r.usize(4)).saturating_sub(2),
            2 => nx.bits() + r.usize(200),
            _ => shift_count(&bs, r, n)
        };
        c08_one::<K>(cx, r, &x, &nx, k);
    }
}

fn c08_one<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw, nx: &Nat, k: usize)
{
    let bs = K::BASE;
    let form = r.usize(3);
    let a = K::mk(&x);
    let got = guard(|| K::shr(form, &a, k));
    let exp = nx.shr(k).to_raw(&bs);
    cx.size_class("shifted number", x.len());
    cx.count(if k == 0 { "count 0" } else if k >= nx.bits() { "count at least the bit length" } else if k % bs.bits as usize == 0 { "count multiple of digit width" } else if k < bs.bits as usize { "count below digit width" } else { "count above digit width" });
    cx.eval(k > 0 && !x.is_empty(), mix(&[hash_raw(&x), k as u64, form as u64, hash_str(K::NAME)]));
    if want::<K>(cx, &format!("shr {}", SMALL_FORMS[form]), &got, &exp, || format!("{} >> {}", show(&x), k))
    { cx.sample(|| format!("{}: {} >> {} = {}", K::NAME, show(&x), k, show(&exp))); }
}

// ---------------------------------------------------------------------------------------------
// C09 canonical form along histories

/// Is this number in canonical form?
pub fn canonical<K: Kind>(b: &K::B) -> Result<(), String>
{
    let raw = K::raw(b);
    if raw.last() == Some(&0) { return Err(format!("most significant digit zero: {}", show(&raw))); }
    if raw.iter().any(|&d| d as u128 >= K::BASE.b) { return Err(format!("digit not below the base: {}", show(&raw))); }
    if K::nr_digits(b) != raw.len() { return Err("nr_digits differs from the number of digits".into()); }
    if b.is_zero() != raw.is_empty() { return Err(format!("zero test {} for {}", b.is_zero(), show(&raw))); }
    Ok(())
}

fn c09<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let cap = *r.pick(&[12, 30, 60, 150, 150, 420]);
    let mut pool: Vec<K::B> = vec![];
    for _ in 0..4
    {
        let n = size(r, &SZ_DEFAULT).min(gen_cap(cap));
        let mut x = number(&bs, r, n);
        // construction from digits with leading zeros
        if r.chance(1, 3) { let k = r.usize(4); x.resize(x.len() + k, 0); }
        pool.push(K::mk(&x));
    }
    let mut trace: Vec<String> = vec![];
    let steps = r.range(8, 30);
    for step in 0..steps
    {
        let i = r.usize(pool.len());
        let j = r.usize(pool.len());
        let (mut x, mut y) = (pool[i].clone(), pool[j].clone());
        let op = r.usize(17);
        let what: String;
        let res: Result<Vec<K::B>, String> = match op
        {
            0 => { let f = r.usize(6); what = "add".into(); guard(|| vec![K::op(Op::Add, f, &x, Rhs::Big(&y))]) }
            1 | 2 => {
                if x < y { std::mem::swap(&mut x, &mut y); }
                // near-equal operands: cancellation to short results
                if r.chance(1, 2)
                {
                    let rx = K::raw(&x);
                    let ry = related(&bs, r, &rx, rx.len());
                    let ry = K::mk(&ry);
                    if ry <= x { y = ry } else { y = x; x = ry; }
                }
                let f = r.usize(6);
                what = "sub".into();
                guard(|| vec![K::op(Op::Sub, f, &x, Rhs::Big(&y))])
            }
            3 => { let f = r.usize(6); what = "mul".into(); guard(|| vec![K::op(Op::Mul, f, &x, Rhs::Big(&y))]) }
            4 => { what = "square".into(); guard(|| vec![K::square(&x)]) }
            5 => { if K::raw(&y).is_empty() { continue; } let f = r.usize(6); what = "div".into(); guard(|| vec![K::op(Op::Div, f, &x, Rhs::Big(&y))]) }
            6 => { if K::raw(&y).is_empty() { continue; } let f = r.usize(6); what = "rem".into(); guard(|| vec![K::op(Op::Rem, f, &x, Rhs::Big(&y))]) }
            7 => {
                if K::raw(&y).is_empty() { continue; }
                what = "div method".into();
                guard(|| { let o = K::div_method(x.clone(), &y); let mut v = vec![o.after]; if let Ok(Some(m)) = o.res { v.push(m); } v })
            }
            8 => { if K::raw(&y).is_empty() { continue; } what = "rem method".into(); guard(|| vec![K::rem_method(x.clone(), &y).after]) }
            9 => { let n = K::raw(&x).len(); let k = shift_count(&bs, r, n); let k = k % if bs.dec { 401 } else { 5001 }; let f = r.usize(3); what = format!("shl {}", k); guard(|| vec![K::shl(f, &x, k)]) }
            10 => { let n = K::raw(&x).len(); let k = shift_count(&bs, r, n); let f = r.usize(3); what = format!("shr {}", k); guard(|| vec![K::shr(f, &x, k)]) }
            11 => { let e = r.usize(5); if K::raw(&x).len() * e > 2 * cap { continue; } what = format!("pow {}", e); guard(|| vec![K::pow(0, &x, e)]) }
            12 => { what = "print and parse".into(); guard(|| K::parse(&format!("{}", x)).into_iter().collect()) }
            13 => {
                if let Ok(Some(d)) = guard(|| K::to_decimal(&x))
                {
                    cx.eval(true, mix(&[hash_raw(&K::raw(&x)), 13, hash_str(K::NAME)]));
                    if let Err(e) = canonical::<K::Dec>(&d)
                    {
                        cx.fail(format!("{} to_decimal not canonical", K::NAME), format!("to_decimal of {}: {}", show(&K::raw(&x)), e));
                        return;
                    }
                }
                continue;
            }
            14 => { let v = prim(&bs, r); what = "from native".into(); guard(|| vec![K::from_prim(v)]) }
            15 => { let s = gen_numeral(&bs, r).0; what = format!("parse {}", if s.len() < 80 { &s } else { "long numeral" }); guard(|| K::parse(&s).into_iter().collect()) }
            _ => {
                let mut g = gen_small_rhs(&bs, r);
                let op = *r.pick(&OPS);
                if matches!(op, Op::Div | Op::Rem) && g.word == 0 { g.word = 1; }
                // subtract a number from itself or close to it
                if op == Op::Sub && r.chance(1, 2)
                {
                    let v = Nat::from_u64(g.word).add(&Nat::from_u64(r.below(2))).to_raw(&bs);
                    x = K::mk(&v);
                }
                what = format!("{:?} {} {}", op, form_name(g.rhs, g.form), g.word);
                let z = K::zero_();
                let v = apply::<K>(op, &x, &z, &g);
                v.map(|v| vec![v])
            }
        };
        if trace.len() < 40 { trace.push(what.clone()); }
        match res
        {
            Err(_) => { cx.count("operation panicked (not judged here)"); }
            Ok(vs) => for v in vs
            {
                cx.eval(true, mix(&[hash_raw(&K::raw(&x)), hash_raw(&K::raw(&y)), op as u64, hash_raw(&K::raw(&v)), hash_str(K::NAME)]));
                cx.count(&format!("results observed: {}", what.split(' ').next().unwrap()));
                let n = K::raw(&v).len();
                cx.size_class("result", n);
                if let Err(e) = canonical::<K>(&v)
                {
                    cx.fail(format!("{} {} not canonical", K::NAME, what.split(' ').next().unwrap()),
                        format!("after step {} ({}) of history [{}], x = {}, y = {}: {}", step, what, trace.join("; "), show(&K::raw(&x)), show(&K::raw(&y)), e));
                    return;
                }
                if n <= cap
                {
                    if pool.len() < 6 { pool.push(v); } else { let k = r.usize(pool.len()); pool[k] = v; }
                }
            }
        }
    }
    cx.count("histories");
    cx.sample(|| format!("{}: history [{}]", K::NAME, trace.join("; ")));
}

// ---------------------------------------------------------------------------------------------
// C10 order

fn c10_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let bs = K::BASE;
    sys_pairs(&bs, part, |x, y, _| {
        let (a, b) = (K::mk(x), K::mk(y));
        c10_pair::<K>(cx, &a, &b, "direct");
    });
    cx.count("systematic parts");
}

/// The order of the values of two numbers, read from their digits
fn value_order(x: &[u64], y: &[u64]) -> Ordering { raw_cmp(&trimmed(x.to_vec()), &trimmed(y.to_vec())) }

pub fn c10_pair<K: Kind>(cx: &mut Ctx, a: &K::B, b: &K::B, route: &str)
{
    let (x, y) = (K::raw(a), K::raw(b));
    let o = value_order(&x, &y);
    cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), hash_str(K::NAME)]));
    cx.count(match o { Ordering::Less => "pairs <", Ordering::Equal => "pairs =", Ordering::Greater => "pairs >" });
    let res = guard(|| {
        let mut bad = vec![];
        if a.cmp(b) != o { bad.push("cmp"); }
        if b.cmp(a) != o.reverse() { bad.push("cmp (swapped)"); }
        if a.partial_cmp(b) != Some(o) { bad.push("partial_cmp"); }
        if (a == b) != (o == Ordering::Equal) { bad.push("=="); }
        if (a != b) != (o != Ordering::Equal) { bad.push("!="); }
        if (a < b) != (o == Ordering::Less) { bad.push("<"); }
        if (a <= b) != (o != Ordering::Greater) { bad.push("<="); }
        if (a > b) != (o == Ordering::Greater) { bad.push(">"); }
        if (a >= b) != (o != Ordering::Less) { bad.push(">="); }
        let mx = std::cmp::max(a.clone(), b.clone());
        let mn = std::cmp::min(a.clone(), b.clone());
        let (hi, lo) = if o == Ordering::Less { (b, a) } else { (a, b) };
        if value_order(&K::raw(&mx), &K::raw(hi)) != Ordering::Equal { bad.push("max"); }
        if value_order(&K::raw(&mn), &K::raw(lo)) != Ordering::Equal { bad.push("min"); }
        bad
    });
    match res
    {
        Err(p) => cx.fail(format!("{} compare panicked", K::NAME), format!("{} ? {}: {}", show(&x), show(&y), p)),
        Ok(bad) => if !bad.is_empty()
        {
            cx.fail(format!("{} compare {} wrong", K::NAME, bad.join(",")), format!("{} ({}) ? {}: order of values is {}", show(&x), route, show(&y), ord_str(o)));
        }
        else { cx.sample(|| format!("{}: {} {} {} ({})", K::NAME, show(&x), ord_str(o), show(&y), route)); }
    }
}

fn c10<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let n = size(r, &SZ_DEFAULT).min(gen_cap(300));
    let x = number(&bs, r, n);
    let n1 = if huge() && r.chance(1, 3) { n - n.min(*r.pick(&WRAPS)) } else { n };
    let y = related(&bs, r, &x, n1);
    let a = K::mk(&x);
    let b = K::mk(&y);
    c10_pair::<K>(cx, &a, &b, "direct");
    if r.chance(1, 6) { cx.count("one object as both operands"); c10_pair::<K>(cx, &a, &a, "the same object"); }
    // the constants, and the tests for them
    if r.chance(1, 8)
    {
        let res = guard(|| {
            let (zero, one) = (<K::B as Zero>::zero(), <K::B as One>::one());
            let (mut z, mut u) = (a.clone(), a.clone());
            z.set_zero();
            u.set_one();
            let ok = K::raw(&zero).is_empty() && K::raw(&one) == [1] && K::raw(&z).is_empty() && K::raw(&u) == [1]
                && a.is_one() == (x == [1]) && a.is_zero() == x.is_empty() && one.is_one() && !zero.is_one() && zero.is_zero() && !one.is_zero();
            (ok, zero, one)
        });
        match res
        {
            Err(p) => cx.fail(format!("{} constants panicked", K::NAME), format!("{}: {}", show(&x), p)),
            Ok((ok, zero, one)) => {
                cx.count("constants and their tests");
                if !ok { cx.fail(format!("{} zero or one wrong", K::NAME), format!("zero(), one(), set_zero, set_one, is_zero or is_one wrong for {}", show(&x))); }
                c10_pair::<K>(cx, &a, &zero, "zero()");
                c10_pair::<K>(cx, &one, &a, "one()");
            }
        }
    }
    // the same numbers obtained along other routes
    let route = if huge() { *r.pick(&[0, 4, 5, 6, 8]) } else { r.usize(10) };
    let k = r.usize(150);
    let names = ["a+b-b", "a*b/b", "print, parse", "shift and back", "(a+b)-a vs b", "digits with leading zeros", "a-y+y", "a/b*b+a%b", "b-a or a-b, added back", "a^2-b^2"];
    let c = guard(|| match route
    {
        0 => Some((K::op(Op::Sub, 5, &K::op(Op::Add, 3, &a, Rhs::Big(&b)), Rhs::Big(&b)), a.clone())),
        1 => if y.is_empty() { None } else { Some((K::op(Op::Div, 3, &K::op(Op::Mul, 3, &a, Rhs::Big(&b)), Rhs::Big(&b)), a.clone())) },
        2 => K::parse(&format!("{}", a)).ok().map(|v| (v, a.clone())),
        3 => Some((K::shr(1, &K::shl(1, &a, k), k), a.clone())),
        4 => Some((K::op(Op::Sub, 5, &K::op(Op::Add, 3, &a, Rhs::Big(&b)), Rhs::Big(&a)), b.clone())),
        5 => { let mut v = x.clone(); v.extend(vec![0; 1 + k % 5]); Some((K::mk(&v), a.clone())) }
        6 => if raw_cmp(&x, &y) == Ordering::Less { None } else { Some((K::op(Op::Add, 3, &K::op(Op::Sub, 3, &a, Rhs::Big(&b)), Rhs::Big(&b)), a.clone())) },
        7 => if y.is_empty() { None } else {
            let q = K::op(Op::Div, 3, &a, Rhs::Big(&b));
            let m = K::op(Op::Rem, 3, &a, Rhs::Big(&b));
            Some((K::op(Op::Add, 5, &K::op(Op::Mul, 3, &q, Rhs::Big(&b)), Rhs::Big(&m)), a.clone())) },
        8 => {
            let (hi, lo) = if raw_cmp(&x, &y) == Ordering::Less { (&b, &a) } else { (&a, &b) };
            let d = K::op(Op::Sub, 3, hi, Rhs::Big(lo));
            Some((d.clone(), K::op(Op::Sub, 3, hi, Rhs::Big(&K::op(Op::Sub, 3, hi, Rhs::Big(&d))))))
        }
        _ => {
            let (hi, lo) = if raw_cmp(&x, &y) == Ordering::Less { (&b, &a) } else { (&a, &b) };
            let s = K::op(Op::Sub, 3, &K::square(hi), Rhs::Big(&K::square(lo)));
            let t = K::op(Op::Mul, 3, &K::op(Op::Sub, 3, hi, Rhs::Big(lo)), Rhs::Big(&K::op(Op::Add, 3, hi, Rhs::Big(lo))));
            Some((s, t))
        }
    });
    if let Ok(Some((c, d))) = c
    {
        cx.count(&format!("route {}", names[route]));
        c10_pair::<K>(cx, &c, &d, names[route]);
        c10_pair::<K>(cx, &c, &b, names[route]);
    }
}

// ---------------------------------------------------------------------------------------------
// C11 parsing

/// Reference: what a string denotes, if it is well formed
pub fn denotes(s: &str) -> Option<Nat>
{
    if let Some(h) = s.strip_prefix("0x")
    {
        if h.is_empty() { return None; }
        let mut v = Vec::new();
        for c in h.chars() { v.push(match c { '0'..='9' => c as u64 - 48, 'a'..='f' => c as u64 - 87, 'A'..='F' => c as u64 - 55, _ => return None }); }
        let mut limbs = vec![0u64; v.len() / 16 + 1];
        for (i, d) in v.iter().rev().enumerate() { limbs[i / 16] |= d << (4 * (i % 16)); }
        return Some(Nat(trimmed(limbs)));
    }
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|c| c.is_ascii_digit()) { return None; }
    let mut r = Nat::zero();
    let b = d.as_bytes();
    let head = b.len() % 18;
    let word = |c: &[u8]| c.iter().fold(0u64, |s, &x| s * 10 + (x - b'0') as u64);
    r.mul_small_add(1, word(&b[..head]));
    for c in b[head..].chunks(18) { r.mul_small_add(1_000_000_000_000_000_000, word(c)); }
    Some(r)
}

pub fn c11_one<K: Kind>(cx: &mut Ctx, s: &str)
{
    let bs = K::BASE;
    let exp = denotes(s);
    let got = guard(|| K::parse(s));
    cx.eval(true, mix(&[hash_str(s), hash_str(K::NAME)]));
    let quoted = || { if s.len() <= 400 { format!("{:?}", s) } else { format!("{:?}... ({} bytes)", &s.chars().take(300).collect::<String>(), s.len()) } };
    match (got, exp)
    {
        (Err(p), _) => cx.fail(format!("{} parse panicked", K::NAME), format!("{}: {}", quoted(), p)),
        (Ok(Ok(v)), Some(e)) => {
            cx.count(if s.starts_with("0x") { "hexadecimal numerals accepted" } else { "decimal numerals accepted" });
            let (raw, exp) = (K::raw(&v), e.to_raw(&bs));
            if raw != exp { cx.fail(format!("{} parse wrong-result", K::NAME), format!("{} gave {} expected {}", quoted(), show(&raw), show(&exp))); }
            else { cx.sample(|| format!("{}: {} -> {}", K::NAME, quoted(), show(&raw))); }
        }
        (Ok(Err(e)), None) => {
            cx.count("malformed strings rejected");
            if e != "InvalidNumber" { cx.fail(format!("{} parse wrong-error", K::NAME), format!("{}: {}", quoted(), e)); }
        }
        (Ok(Ok(v)), None) => cx.fail(format!("{} parse accepted-malformed", K::NAME), format!("{} gave {}", quoted(), show(&K::raw(&v)))),
        (Ok(Err(e)), Some(_)) => cx.fail(format!("{} parse rejected-valid", K::NAME), format!("{}: {}", quoted(), e))
    }
}

fn c11_sys<K: Kind>(cx: &mut Ctx, part: u64)
{
    let al = ["0", "1", "9", "a", "F", "x", "+", "-", " ", "g", "é"];
    let n = al.len();
    let mut k = 0u64;
    for len in 0..=4
    {
        let mut idx = vec![0; len];
        'outer: loop
        {
            k += 1;
            if k % 16 == part
            {
                let s: String = idx.iter().map(|&i| al[i]).collect();
                c11_one::<K>(cx, &s);
                c11_one::<K>(cx, &format!("0x{}", s));
            }
            let mut i = 0;
            loop
            {
                if i == len { break 'outer; }
                idx[i] += 1;
                if idx[i] < n { break; }
                idx[i] = 0;
                i += 1;
            }
        }
    }
    cx.count("systematic parts");
}

/// A well formed numeral and whether it is hexadecimal
pub fn gen_numeral(bs: &Base, r: &mut Rng) -> (String, bool)
{
    let hex = r.chance(1, 2);
    let w = bs.bits as usize;
    if !huge() && giant() == 0 && r.chance(1, 6)
    {
        // a number chosen by its digits in the type's base (or by its value), whatever the base of the numeral
        let n = match r.usize(3) { 0 => 1 + r.usize(4), 1 => 1 + r.usize(20), _ => 1 + r.usize(1 + 1200 / w) };
        let x = if r.chance(1, 4) { special(bs, r, n.max(2)) } else { let mut x = block(bs, r, n, 1); trim(&mut x); x };
        let x = Nat::from_raw(bs, &x);
        let s = if hex { x.to_hex_string() } else { x.to_dec_string() };
        return (if hex { format!("0x{}", if r.chance(1, 3) { s.to_uppercase() } else { s }) } else { s }, hex);
    }
    let unit = if hex { if bs.dec { 2 * w / 8 - 1 } else { 2 * w / 8 } } else { bs.places() };
    let n = if huge() { r.range(giant() / 2, giant()) } else if giant() > 0 && r.chance(1, 2) { r.range(400, giant()) } else { match r.usize(6)
    {
        0 => 1 + r.usize(4),
        1 | 2 => (unit * (1 + r.usize(5)) + r.usize(3)).saturating_sub(1).max(1),
        3 => 1 + r.usize(60),
        4 => 1 + r.usize(400),
        _ => unit * (1 + r.usize(40)) + r.usize(2)
    } };
    let maxd = if hex { 15 } else { 9 };
    let mut v: Vec<u64> = match r.usize(6)
    {
        0 => vec![maxd; n],
        1 => { let mut v = vec![0; n]; v[0] = 1; v }
        2 => { let mut v = vec![0; n]; for _ in 0..3 { let i = r.usize(n); v[i] = r.below(maxd + 1); } v }
        3 => { // zero and maximal runs aligned to the unit
            (0..n).map(|i| if ((n - 1 - i) / unit) % 2 == 0 { 0 } else { maxd }).collect() }
        _ => (0..n).map(|_| r.below(maxd + 1)).collect()
    };
    if r.chance(1, 4) { let z = if r.chance(1, 6) { r.usize(cap(1000)) } else { r.usize(2 * unit + 2) }; let mut t = vec![0; z]; t.extend(v); v = t; }
    let case = r.usize(3);
    let mut s = String::with_capacity(v.len() + 2);
    if hex { s.push_str("0x"); }
    for d in v
    {
        let c = std::char::from_digit(d as u32, 16).unwrap();
        s.push(if case == 1 || (case == 2 && r.chance(1, 2)) { c.to_ascii_uppercase() } else { c });
    }
    (s, hex)
}

fn c11<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    for _ in 0..(if giant() > 0 { 1 } else { 6 })
    {
        let (s, hex) = gen_numeral(&bs, r);
        c11_one::<K>(cx, &s);
        if !hex && r.chance(1, 4) { c11_one::<K>(cx, &format!("+{}", s)); }
        if s.len() < 60 || r.chance(1, 2)
        {
            // stray characters at any position
            let bad = ["+", "-", " ", "_", ".", ",", "x", "X", "g", "G", "e", "\0", "\n", "\t", "é", "٣", "१", "：", "/", ":", "@", "`", "0x", "0X", "+ ", "\u{200b}", "a", "f", "A", "#", "\u{7f}"];
            let b = *r.pick(&bad);
            let body = if hex { 2 } else { 0 };
            let w = bs.bits as usize;
            let unit = if hex { if bs.dec { 2 * w / 8 - 1 } else { 2 * w / 8 } } else { bs.places() };
            let n = s.len();
            let pos = match r.usize(5)
            {
                0 => body,
                1 => n,
                2 => { // at a multiple of the unit from the end
                    let k = unit * r.usize((n - body) / unit + 1); n - k }
                3 => { let k = unit * r.usize((n - body) / unit + 1); (n - k).saturating_sub(1).max(body) }
                _ => body + r.usize(n - body + 1)
            };
            let t = if r.chance(1, 2) || pos >= n { format!("{}{}{}", &s[..pos], b, &s[pos..]) } else { format!("{}{}{}", &s[..pos], b, &s[pos + 1..]) };
            c11_one::<K>(cx, &t);
            let pre = ["+", "-", "++", "+0x", "-0x", " ", "0", "00", "0X", "0b", "0o", "x", "0x", "0x0x", "0x+", "0x-", "0x "];
            let t = format!("{}{}", r.pick(&pre), s);
            c11_one::<K>(cx, &t);
            c11_one::<K>(cx, &format!("{}{}", s, r.pick(&[" ", "\n", "u8", "_", ".0", "h", "+", "-", "x"])));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C12 formatting

fn c12<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let n = match r.usize(8) { 0 => 0, 1 => 1, _ => size(r, &SZ_DEFAULT).min(gen_cap(if bs.dec { 600 } else { 300 })) };
    let mut x = if !bs.dec && r.chance(1, 3) { special(&bs, r, n) } else { number(&bs, r, n) };
    // inner digits that need zero padding
    if r.chance(1, 3) && x.len() > 2
    {
        for _ in 0..3 { let i = r.usize(x.len() - 1); x[i] = r.below(12); }
    }
    trim(&mut x);
    c12_one::<K>(cx, r, &x);
}

fn c12_one<K: Kind>(cx: &mut Ctx, r: &mut Rng, x: &Raw)
{
    let bs = K::BASE;
    let a = K::mk(&x);
    let nat = Nat::from_raw(&bs, &x);
    cx.size_class("printed number", x.len());
    for style in [Style::Display, Style::Lower, Style::Upper]
    {
        if bs.dec && style != Style::Display { continue; }
        let text = match style
        {
            Style::Display => digits_to_string(&bs, &x),
            Style::Lower => nat.to_hex_string(),
            Style::Upper => nat.to_hex_string().to_uppercase()
        };
        for k in 0..(if x.len() > 60 { 3 } else { 8 })
        {
            let flags = if k == 0 { 0 } else { r.usize(NR_FLAGS) };
            let width = match r.usize(4) { 0 => text.len() + r.usize(6), 1 => text.len().saturating_sub(r.usize(3)), 2 => r.usize(12), _ => text.len() + r.usize(40) }.min(u16::MAX as usize); // the limit of the standard library
            let exp = match style
            {
                Style::Display => crate::fmt_flags!(Ref(&text), flags, width, ""),
                Style::Lower => crate::fmt_flags!(Ref(&text), flags, width, "x"),
                Style::Upper => crate::fmt_flags!(Ref(&text), flags, width, "X")
            };
            let got = guard(|| K::fmt_with(&a, style, flags, width).unwrap());
            cx.eval(true, mix(&[hash_raw(&x), flags as u64, width as u64, style as u64, hash_str(K::NAME)]));
            cx.count(&format!("format flag set {}", flags));
            match got
            {
                Err(p) => cx.fail(format!("{} {:?} panicked", K::NAME, style), format!("{}: {}", show(&x), p)),
                Ok(g) => if g != exp
                {
                    cx.fail(format!("{} {:?} wrong-text", K::NAME, style), format!("{} flags {} width {}: got {:?} expected {:?}", show(&x), flags, width, g, exp));
                }
                else { cx.sample(|| format!("{}: {} flags {} width {}: {:?}", K::NAME, show(&x), flags, width, g)); }
            }
        }
        // a destination that is full before everything is written must not look like success
        if r.chance(1, 2)
        {
            let width = if r.chance(1, 2) { 0 } else { (text.len() + r.usize(4)).min(u16::MAX as usize) };
            let all = " ".repeat(width.saturating_sub(text.len())) + &text;
            let mut to = Sink { got: String::new(), room: if r.chance(1, 3) { all.len() } else { r.usize(all.len()) }, refused: false };
            let room = to.room;
            let res = guard(|| { let res = K::write_to(&a, style, width, &mut to); (res, to) });
            cx.eval(true, mix(&[hash_raw(&x), room as u64, width as u64, style as u64, hash_str(K::NAME), 12]));
            match res
            {
                Err(p) => cx.fail(format!("{} {:?} panicked", K::NAME, style), format!("{}, to a destination that refuses: {}", show(&x), p)),
                Ok((res, to)) => {
                    cx.count(if to.refused { "prints to a destination that refuses" } else { "prints to a destination with room for all" });
                    let right = if room < all.len() { res.is_err() && all.starts_with(&to.got) } else { res.is_ok() && to.got == all };
                    if !right { cx.fail(format!("{} {:?} to a full destination", K::NAME, style), format!("{}: room for {} of {} bytes: {:?}, {:?} written", show(&x), room, all.len(), res, to.got)); }
                }
            }
        }
        // round trip
        let s = match style { Style::Display => text.clone(), _ => format!("0x{}", text) };
        let printed = guard(|| match style { Style::Display => format!("{}", a), Style::Lower => K::fmt_with(&a, style, 12, 0).unwrap(), _ => format!("0x{}", K::hex(&a, true).unwrap()) });
        cx.eval(true, mix(&[hash_raw(&x), 99, style as u64, hash_str(K::NAME)]));
        match printed
        {
            Ok(p) => {
                if p != s { cx.fail(format!("{} {:?} wrong-text", K::NAME, style), format!("{}: got {:?} expected {:?}", show(&x), p, s)); }
                match guard(|| K::parse(&p))
                {
                    Ok(Ok(b)) if b == a && K::raw(&b) == *x => cx.count("round trips"),
                    other => cx.fail(format!("{} {:?} round trip", K::NAME, style), format!("{} printed {:?} parsed back {:?}", show(&x), p, other.map(|x| x.map(|b| K::raw(&b)))))
                }
            }
            Err(p) => cx.fail(format!("{} {:?} panicked", K::NAME, style), format!("{}: {}", show(&x), p))
        }
    }
    // small values: compare with the machine integers themselves
    if r.chance(1, 4)
    {
        let v = if bs.bits == 64 { r.u64() >> r.usize(64) } else { r.below(bs.storage_max() + 1) >> r.usize(bs.bits as usize) };
        let a = K::from_prim(v);
        let flags = r.usize(NR_FLAGS);
        let width = r.usize(30);
        for style in [Style::Display, Style::Lower, Style::Upper]
        {
            if bs.dec && style != Style::Display { continue; }
            let exp = match style { Style::Display => crate::fmt_flags!(v, flags, width, ""), Style::Lower => crate::fmt_flags!(v, flags, width, "x"), Style::Upper => crate::fmt_flags!(v, flags, width, "X") };
            let got = guard(|| K::fmt_with(&a, style, flags, width).unwrap());
            cx.eval(true, mix(&[v, flags as u64, width as u64, style as u64, hash_str(K::NAME)]));
            cx.count("compared with native integer formatting");
            if got.as_ref() != Ok(&exp) { cx.fail(format!("{} {:?} differs-from-native", K::NAME, style), format!("{} flags {} width {}: got {:?} expected {:?}", v, flags, width, got, exp)); }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C13 binary to decimal

fn c13<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    let ds = <K::Dec as Kind>::BASE;
    let n = match r.usize(8) { 0 => r.usize(20), 1 | 2 => r.range(13, 80), 3 => size(r, &SZ_DEFAULT), 4 => size(r, &SZ_MUL), _ => r.range(2, 140) };
    let n = if giant() > 0 { size(r, &SZ_MUL) } else { n };
    let x = match r.usize(6)
    {
        0 => number(&bs, r, n),
        1 => special(&bs, r, n.max(2)),
        _ => { // chosen by its decimal digits: a structured decimal number converted to binary
            let m = (n as f64 * (bs.b as f64).log2() / (ds.b as f64).log2()) as usize;
            let d = number(&ds, r, m.max(1));
            let v = Nat::from_raw(&ds, &d);
            let v = match r.usize(6) { 0 => v.add(&Nat::from_u64(1)), 1 => v.sub(&Nat::from_u64(1)).unwrap_or(v), _ => v };
            v.to_raw(&bs)
        }
    };
    c13_one::<K>(cx, &x);
}

fn c13_one<K: Kind>(cx: &mut Ctx, x: &Raw)
{
    let bs = K::BASE;
    let ds = <K::Dec as Kind>::BASE;
    let a = K::mk(&x);
    let got = guard(|| K::to_decimal(&a).unwrap());
    let exp = Nat::from_raw(&bs, &x).to_raw(&ds);
    cx.size_class("converted number", x.len());
    let zeros = exp.iter().filter(|&&d| d == 0).count();
    if zeros >= 2 { cx.count("decimal digits contain two or more zero digits"); }
    cx.eval(!x.is_empty(), mix(&[hash_raw(&x), hash_str(K::NAME)]));
    if want::<K::Dec>(cx, "to_decimal", &got, &exp, || format!("to_decimal of {} {}", K::NAME, show(&x)))
    {
        cx.sample(|| format!("{}: {} -> {}", K::NAME, show(&x), show(&exp)));
    }
    if K::raw(&a) != *x { cx.fail(format!("{} to_decimal changed its operand", K::NAME), show(&x)); }
}
