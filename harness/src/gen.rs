//! Operand generators. All work on raw digit vectors in the base of the digit type, with the
//! reference arithmetic of `nat`, so that nothing generated depends on the library under test.

use crate::nat::*;
use crate::rng::Rng;

/// Sizes around which the library is likely to switch algorithm or recursion depth. They are only
/// used to choose interesting lengths; nothing depends on the library really switching there.
const EDGES: [usize; 22] = [2, 3, 4, 8, 16, 19, 20, 21, 32, 38, 40, 41, 64, 76, 79, 81, 127, 128, 130, 159, 161, 255];
const BIG_EDGES: [usize; 14] = [256, 304, 378, 381, 384, 387, 400, 512, 640, 768, 1024, 1140, 1150, 1280];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SizeCfg { pub small: u64, pub mid: u64, pub edge: u64, pub large: u64, pub huge: u64 }
pub const SZ_DEFAULT: SizeCfg = SizeCfg { small: 40, mid: 30, edge: 20, large: 9, huge: 1 };
pub const SZ_LINEAR: SizeCfg = SizeCfg { small: 50, mid: 25, edge: 15, large: 9, huge: 1 };
pub const SZ_MUL: SizeCfg = SizeCfg { small: 15, mid: 25, edge: 40, large: 18, huge: 2 };
pub const SZ_DIV: SizeCfg = SizeCfg { small: 30, mid: 30, edge: 30, large: 9, huge: 1 };
pub const SZ_SMALL: SizeCfg = SizeCfg { small: 70, mid: 25, edge: 5, large: 0, huge: 0 };

thread_local! { static GIANT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
/// Lengths of the current case go up to `max` (0: ordinary lengths)
pub fn set_giant(max: usize) { GIANT.with(|g| g.set(max)); }
pub fn giant() -> usize { GIANT.with(|g| g.get()) }
/// A limit on the length, for cases of ordinary lengths
pub fn cap(n: usize) -> usize { n.max(giant()) }

thread_local! { static HUGE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
/// All lengths of the current case are between half of and the whole of the maximum
pub fn set_huge(on: bool) { HUGE.with(|g| g.set(on)); }
pub fn huge() -> bool { HUGE.with(|g| g.get()) }

pub fn size(r: &mut Rng, c: &SizeCfg) -> usize
{
    let g = giant();
    if huge()
    {
        let mut x = *r.pick(&EDGES[5..]);
        match r.usize(4)
        {
            0 => while 2 * x <= g { x *= 2; },
            1 => while 3 * x <= g { x *= 3; },
            _ => x = 0
        }
        return if 2 * x < g { r.range(g / 2, g) } else { x };
    }
    if g > 0 && !r.chance(1, 5)
    {
        let n = (1000.0 * (g as f64 / 1000.0).powf((r.u64() >> 11) as f64 / (1u64 << 53) as f64)) as usize;
        // at and around lengths that halve or third down to the switches of algorithm
        let e = *r.pick(&EDGES[5..]);
        let mut x = e;
        match r.usize(4)
        {
            0 => { while 2 * x <= g { x *= 2; } if r.chance(1, 2) && x > 2000 { x /= 2; } }
            1 => { while 3 * x <= g { x *= 3; } }
            2 => { while 3 * x <= g { x = 3 * (x - 2); if x < 20 { break; } } }
            _ => x = n
        }
        return (x + r.usize(5)).saturating_sub(2).clamp(1, g);
    }
    match r.weighted(&[c.small, c.mid, c.edge, c.large, c.huge])
    {
        0 => r.range(0, 6),
        1 => r.range(5, 60),
        2 => jitter(r, &EDGES),
        3 => r.range(60, 420),
        _ => if r.chance(1, 2) { jitter(r, &BIG_EDGES) } else { r.range(420, 1100) }
    }
}
fn jitter(r: &mut Rng, xs: &[usize]) -> usize
{
    let x = *r.pick(xs);
    let j = r.usize(7);
    match j { 0 => x.saturating_sub(2), 1 => x.saturating_sub(1), 2 => x + 1, 3 => x + 2, _ => x }
}

/// A digit from the interesting set
pub fn edge_digit(bs: &Base, r: &mut Rng) -> u64
{
    let b = bs.b;
    let v: u128 = match r.usize(18)
    {
        0 | 1 => 0,
        2 => 1,
        3 => 2,
        4 | 5 | 6 => b - 1,
        7 => b - 2,
        8 => b / 2,
        9 => b / 2 - 1,
        10 => b / 2 + 1,
        11 => { // power of two
            let k = r.usize(bs.bits as usize); (1u128 << k).min(b - 1) }
        12 => { let k = r.usize(bs.places()); 10u128.pow(k as u32).min(b - 1) }
        13 => (b as f64).sqrt() as u128,
        14 => b / 3,
        15 => { // of any number of bits
            let k = 64 - bs.bits as usize + r.usize(bs.bits as usize); (r.u64() >> k) as u128 % b }
        16 => { // halves each at one of their ends
            let h = bs.bits / 2;
            let end = |r: &mut Rng| match r.usize(4) { 0 => 0u128, 1 => 1, 2 => (1 << h) - 1, _ => 1 << (h - 1) };
            (end(r) << h | end(r)) % b
        }
        _ => r.u64() as u128 % b
    };
    v as u64
}
pub fn any_digit(bs: &Base, r: &mut Rng) -> u64 { (r.u64() as u128 % bs.b) as u64 }

/// The fixed edge digits used by the systematic parts
pub fn edge_set(bs: &Base) -> Vec<u64>
{
    let b = bs.b;
    [0, 1, 2, b / 2 - 1, b / 2, b / 2 + 1, b - 2, b - 1].iter().map(|&x| x as u64).collect()
}

/// A block of exactly n digits (may have leading zeros)
pub fn block(bs: &Base, r: &mut Rng, n: usize, depth: usize) -> Raw
{
    if n == 0 { return vec![]; }
    let m = bs.maxd();
    match r.weighted(&[22, 6, 5, 6, 12, 6, 6, 10, if n >= 4 && depth > 0 { 24 } else { 0 }, 4, 6, 3])
    {
        0 => (0..n).map(|_| any_digit(bs, r)).collect(),
        1 => vec![m; n],
        2 => { let mut v = vec![0; n]; v[n - 1] = 1; v }
        3 => { // power of the base +- small, or MAX with a low defect
            let mut v = vec![if r.chance(1, 2) { 0 } else { m }; n];
            v[0] = edge_digit(bs, r);
            v[n - 1] = edge_digit(bs, r);
            v
        }
        4 => { // runs
            let mut v = Vec::with_capacity(n);
            while v.len() < n
            {
                let l = 1 + if r.chance(1, 2) { r.usize(3) } else { r.usize(n) };
                let d = edge_digit(bs, r);
                for _ in 0..l.min(n - v.len()) { v.push(d); }
            }
            v
        }
        5 => { // sparse
            let mut v = vec![0; n];
            for _ in 0..=r.usize(3) { let i = r.usize(n); v[i] = edge_digit(bs, r); }
            v
        }
        6 => { // dense MAX with defects
            let mut v = vec![m; n];
            for _ in 0..=r.usize(3) { let i = r.usize(n); v[i] = edge_digit(bs, r); }
            v
        }
        7 => (0..n).map(|_| edge_digit(bs, r)).collect(),
        8 => structured(bs, r, n, depth - 1),
        9 => { let p = 1 + r.usize(4); let pat: Raw = (0..p).map(|_| edge_digit(bs, r)).collect();
               (0..n).map(|i| pat[i % p]).collect() }
        10 => { // short: leading zeros
            let k = r.usize(n + 1);
            let mut v = block(bs, r, k, depth.saturating_sub(1));
            v.resize(n, 0);
            v
        }
        _ => vec![0; n]
    }
}

fn fit(mut v: Raw, n: usize) -> Raw { v.truncate(n); v.resize(n, 0); v }

/// small perturbation of a block: add or subtract a small or short amount, modulo b^n
fn perturb(bs: &Base, r: &mut Rng, v: &[u64], n: usize) -> Raw
{
    let k = 1 + if r.chance(3, 4) { 0 } else { r.usize(n) };
    let mut d = vec![0; k];
    d[k - 1] = if r.chance(1, 2) { 1 } else { edge_digit(bs, r) };
    let v = trimmed(v.to_vec());
    if r.chance(1, 2) { fit(raw_add(bs, &v, &trimmed(d)), n) }
    else { match raw_sub(bs, &v, &trimmed(d)) { Some(x) => fit(x, n), None => fit(v, n) } }
}

/// Split points as used by splitting algorithms: halves or thirds, rounded up
fn structured(bs: &Base, r: &mut Rng, n: usize, depth: usize) -> Raw
{
    if r.chance(1, 2) || n < 6
    {
        let s = if r.chance(4, 5) { (n + 1) / 2 } else { n / 2 };
        let hi_n = n - s;
        let low = block(bs, r, s, depth);
        let hi = match r.usize(6)
        {
            0 => fit(low.clone(), hi_n),
            1 => fit(perturb(bs, r, &low, s), hi_n),
            2 => vec![0; hi_n],
            3 => { let x = fit(low.clone(), hi_n); perturb(bs, r, &x, hi_n) }
            _ => block(bs, r, hi_n, depth)
        };
        let low = match r.usize(8)
        {
            0 => fit(hi.clone(), s),
            1 => perturb(bs, r, &fit(hi.clone(), s), s),
            2 => vec![0; s],
            _ => low
        };
        let mut v = low;
        v.extend(hi);
        v
    }
    else
    {
        let s = (n + 2) / 3;
        let n2 = n - 2 * s.min(n / 2);
        let s = (n - n2) / 2;
        let x0 = block(bs, r, s, depth);
        let x2 = match r.usize(6)
        {
            0 => fit(x0.clone(), n2),
            1 => perturb(bs, r, &fit(x0.clone(), n2), n2),
            _ => block(bs, r, n2, depth)
        };
        // middle block: x0 + x2 (so that the value at -1 vanishes), a half of x0 + 4 x2 (value at
        // -2 vanishes), near those, or independent
        let sum = raw_add(bs, &trimmed(x0.clone()), &trimmed(x2.clone()));
        let x1 = match r.usize(7)
        {
            0 => fit(sum, s),
            1 => perturb(bs, r, &fit(sum, s), s),
            2 | 3 if s < 10_000 => {
                let n0 = Nat::from_raw(bs, &x0);
                let n4 = Nat::from_raw(bs, &x2).shl(2);
                let h = fit(n0.add(&n4).shr(1).to_raw(bs), s);
                if r.chance(1, 2) { h } else { perturb(bs, r, &h, s) }
            }
            4 => fit(x0.clone(), s),
            _ => block(bs, r, s, depth)
        };
        let (x0, x2) = match r.usize(10)
        {
            0 => (vec![0; s], x2),
            1 => { let k = r.usize(s + 1); let mut y = block(bs, r, k, 0); y.resize(s, 0); (y, x2) }
            _ => (x0, x2)
        };
        let mut v = x0;
        v.extend(x1);
        v.extend(x2);
        fit(v, n)
    }
}

/// A canonical number of exactly n digits (n = 0: zero)
pub fn number(bs: &Base, r: &mut Rng, n: usize) -> Raw
{
    if n == 0 { return vec![]; }
    let mut v = if n < 30_000 && r.chance(1, 16) { special(bs, r, n) } else { block(bs, r, n, 3) };
    fix_top(bs, r, &mut v, n);
    v
}

fn fix_top(bs: &Base, r: &mut Rng, v: &mut Raw, n: usize)
{
    v.resize(n, 0);
    if v[n - 1] == 0
    {
        v[n - 1] = match r.usize(5) { 0 => 1, 1 => bs.maxd(), 2 => (bs.b / 2) as u64, _ => edge_digit(bs, r).max(1) };
    }
}

/// Values with arithmetic structure rather than digit structure, about n digits long
pub fn special(bs: &Base, r: &mut Rng, n: usize) -> Raw
{
    let nbits = (n as f64 * (bs.b as f64).log2()) as usize;
    let nbits = if nbits < 2 { 2 } else { nbits };
    let v = match r.usize(7)
    {
        5 | 6 => { // edge digits in another base
            let o = *r.pick(&BASES);
            let k = ((nbits as f64 / (o.b as f64).log2()) as usize).max(1);
            let v = block(&o, r, k, 1);
            Nat::from_raw(&o, &trimmed(v))
        }
        0 | 1 => { // 2^k +- e
            let k = r.range(nbits / 2, nbits - 1);
            Nat::from_u64(1).shl(k)
        }
        2 => { // 10^k * small
            let k = (nbits as f64 / 3.3220) as usize;
            let k = r.range(k / 2, k);
            let mut x = Nat::from_u64(1 + r.below(12));
            for _ in 0..k / 19 { x.mul_small_add(10_000_000_000_000_000_000, 0); }
            x.mul_small_add(10u64.pow((k % 19) as u32), 0);
            x
        }
        3 => { // 5^i 2^j
            let i = r.range(0, (nbits as f64 / 2.33) as usize);
            let j = nbits.saturating_sub((i as f64 * 2.33) as usize);
            let mut x = Nat::from_u64(1);
            for _ in 0..i / 27 { x.mul_small_add(7450580596923828125, 0); }
            x.mul_small_add(5u64.pow((i % 27) as u32), 0);
            x.shl(r.range(0, j))
        }
        _ => { // square or product of all-MAX numbers
            let h = (n / 2).max(1);
            let m = vec![bs.maxd(); h];
            let x = Nat::from_raw(bs, &m);
            x.mul(&x)
        }
    };
    let v = match r.usize(4)
    {
        0 => v.add(&Nat::from_u64(r.below(3))),
        1 => v.sub(&Nat::from_u64(1 + r.below(2))).unwrap_or(v),
        _ => v
    };
    let mut v = v.to_raw(bs);
    v.truncate(n);
    trimmed(v)
}

/// The bases of all digit types
pub const BASES: [Base; 8] = {
    const fn base(dec: bool, bits: u32, b: u128) -> Base { Base { name: "", dec, bits, b } }
    [base(false, 8, 1 << 8), base(false, 16, 1 << 16), base(false, 32, 1 << 32), base(false, 64, 1 << 64),
     base(true, 8, 100), base(true, 16, 10_000), base(true, 32, 1_000_000_000), base(true, 64, 10_000_000_000_000_000_000)]
};

/// A number of about n digits whose product with f (just above or below) is made of edge digits,
/// so that digit products plus carry fall on either side of multiples of the base everywhere
pub fn quotient_of_edges(bs: &Base, r: &mut Rng, f: &[u64], n: usize) -> Raw
{
    let len = n + f.len();
    let p = Nat::from_raw(bs, &trimmed(block(bs, r, len, 1)));
    let mut q = if f.len() == 1 { let mut q = p; q.div_small(f[0]); q } else { p.divrem(&Nat::from_raw(bs, f)).0 };
    if r.chance(1, 2) { q = q.add(&Nat::from_u64(1)); }
    q.to_raw(bs)
}

/// A number whose square is just above or below one that starts with edge digits
pub fn root_of_edges(bs: &Base, r: &mut Rng, n: usize) -> Raw
{
    let k = 2 * n - r.usize(2);
    let p = Nat::from_raw(bs, &number(bs, r, k));
    if p.is_zero() { return vec![]; }
    // Newton's iteration from above
    let mut x = Nat::from_u64(1).shl((p.bits() + 1) / 2);
    loop
    {
        let y = x.add(&p.divrem(&x).0).shr(1);
        if y.cmp(&x) != std::cmp::Ordering::Less { break; }
        x = y;
    }
    if r.chance(1, 2) { x = x.add(&Nat::from_u64(1)); }
    x.to_raw(bs)
}

/// A number of n digits such that in its division by f from the top, the partial remainders are 0,
/// f - 1 or anything
pub fn stepped(bs: &Base, r: &mut Rng, f: u64, n: usize) -> Raw
{
    let mut v = vec![0; n];
    let mut rem = 0u128;
    let keep = r.usize(4);
    for d in v.iter_mut().rev()
    {
        let t = if r.chance(1, 3) { edge_digit(bs, r) } else { any_digit(bs, r) } as u128;
        // remainder of rem * b + t, without leaving 128 bits
        let m = mulmod(rem, bs.b, f, t);
        let t = match (keep + r.usize(3)) % 4
        {
            0 if t >= m => t - m,
            1 if t > m => t - m - 1,
            2 if m + 1 < f as u128 && t + (f as u128 - 1 - m) < bs.b => t + (f as u128 - 1 - m),
            _ => t
        };
        *d = t as u64;
        rem = mulmod(rem, bs.b, f, t);
    }
    trimmed(v)
}
/// (x * b + t) % f for x < f
fn mulmod(x: u128, b: u128, f: u64, t: u128) -> u128
{
    let f = f as u128;
    let p = if b > u64::MAX as u128 { ((x << 64) % f + t % f) % f } else { x * b % f + t % f };
    p % f
}

/// Second operand of nominal size n related to a
pub fn related(bs: &Base, r: &mut Rng, a: &Raw, n: usize) -> Raw
{
    match r.weighted(&[50, 5, 6, 8, 6, 6, 4, 4, 4])
    {
        0 => number(bs, r, n),
        1 => a.clone(),
        2 => trimmed(perturb(bs, r, a, a.len() + 1)),
        3 => { // shared leading digits
            if a.is_empty() { return number(bs, r, n); }
            let k = r.usize(a.len() + 1);
            let mut v = block(bs, r, a.len() - k, 1);
            v.extend_from_slice(&a[a.len() - k..]);
            trimmed(v)
        }
        4 => { // complement: sums to a power of the base (minus one)
            let m = bs.maxd();
            let mut v: Raw = a.iter().map(|&d| m - d).collect();
            if r.chance(1, 2) { v = raw_add(bs, &trimmed(v), &[1]); }
            trimmed(v)
        }
        5 => { // one digit changed
            if a.is_empty() { return vec![]; }
            let mut v = a.clone();
            let i = r.usize(v.len());
            v[i] = match r.usize(3) { 0 => v[i].saturating_sub(1), 1 => (v[i] + (v[i] < bs.maxd()) as u64).min(bs.maxd()), _ => edge_digit(bs, r) };
            trimmed(v)
        }
        6 => { // same digits, other length
            let mut v = a.clone();
            if r.chance(1, 2) { v.push(edge_digit(bs, r)); } else { v.pop(); }
            trimmed(v)
        }
        7 => { // blocks swapped
            let s = (a.len() + 1) / 2;
            let mut v = a[a.len() - (a.len() - s)..].to_vec();
            v.extend_from_slice(&a[..s]);
            trimmed(v)
        }
        _ => { // shared low digits
            let k = n.min(a.len());
            let mut v = a[..k].to_vec();
            v.extend(block(bs, r, n - k, 1));
            trimmed(v)
        }
    }
}

/// Pair of operands for products
pub fn mul_pair(bs: &Base, r: &mut Rng, c: &SizeCfg) -> (Raw, Raw)
{
    let n0 = size(r, c);
    let n1 = match r.usize(10)
    {
        0 | 1 | 2 | 3 => n0,
        4 => n0 + 1,
        5 => (n0 + 1) / 2 + r.usize(3),
        6 => { let x = n0 / 2 + r.usize(2); if r.chance(1, 2) { x } else { n0 / 3 + r.usize(3) } }
        7 => (2 * n0 / 3 + r.usize(3)).saturating_sub(1),
        8 => if n0 > 200 { r.range(1, 260) } else { size(r, c) },
        _ => size(r, c)
    };
    let a = number(bs, r, n0);
    let b = if n0 == n1 { related(bs, r, &a, n1) } else { number(bs, r, n1) };
    let b = if !a.is_empty() && a.len() <= 24 && n1 > 0 && n1 <= 60 && r.chance(1, 5) { quotient_of_edges(bs, r, &a, n1) } else { b };
    if r.chance(1, 2) { (a, b) } else { (b, a) }
}

/// Numerator and (non-zero) denominator
pub fn div_pair(bs: &Base, r: &mut Rng, c: &SizeCfg) -> (Raw, Raw)
{
    let nd = match r.usize(8) { _ if huge() => size(r, c), 0 => 1, 1 => 2, 2 => r.range(3, 6), _ => size(r, c).max(1) };
    let mut d = number(bs, r, nd);
    // emphasise top digits around the normalisation boundaries
    match r.usize(8)
    {
        0 => d[nd - 1] = (bs.b / 2) as u64,
        1 => d[nd - 1] = 1,
        2 => d[nd - 1] = (bs.b / 2 - 1) as u64,
        3 => d[nd - 1] = bs.maxd(),
        4 => { // top digit k such that doubling it comes close to the base
            let s = 1 + r.usize(bs.bits as usize - 2);
            d[nd - 1] = ((bs.b >> s) as u64).max(1);
            if nd > 1 && r.chance(1, 2) { d[nd - 2] = bs.maxd(); }
        }
        _ => ()
    }
    let extra = match r.usize(6)
    {
        0 => r.usize(3),
        1 => nd,
        2 => nd + r.usize(3),
        3 => 2 * nd + r.usize(3),
        4 => r.usize(2 * nd + 3),
        _ => size(r, &SizeCfg { huge: 0, large: if nd > 60 { 0 } else { c.large }, ..*c })
    };
    let n = match r.usize(12)
    {
        0 | 1 => number(bs, r, nd + extra),
        2 | 3 | 4 | 5 => { // q * d + rem
            let q = number(bs, r, extra);
            if !q.is_empty() && q.len() <= 4 && nd <= 60 && r.chance(1, 3) { d = quotient_of_edges(bs, r, &q, nd); if d.is_empty() { d = vec![1]; } }
            let nd = d.len();
            let rem = match r.usize(5)
            {
                0 => vec![],
                1 => raw_sub(bs, &d, &[1]).unwrap(),
                2 => vec![1],
                _ => {
                    let k = r.usize(nd + 1);
                    let x = number(bs, r, k);
                    if raw_cmp(&x, &d) == std::cmp::Ordering::Less { x } else { raw_sub(bs, &d, &[1]).unwrap() }
                }
            };
            let rem = if raw_cmp(&rem, &d) == std::cmp::Ordering::Less { rem } else { vec![] };
            let p = Nat::from_raw(bs, &q).mul(&Nat::from_raw(bs, &d)).to_raw(bs);
            raw_add(bs, &p, &rem)
        }
        6 | 7 | 8 => { // the leading digits of d, then something
            let k = r.range(1, nd);
            let mut v = block(bs, r, nd - k + extra, 2);
            v.extend_from_slice(&d[nd - k..]);
            if r.chance(1, 2)
            {
                // just below d at the top
                let mut t = v.clone();
                let i = nd - k + extra;
                if i > 0 && r.chance(1, 2)
                {
                    for x in t[..i].iter_mut().rev().take(1 + r.usize(3)) { *x = if r.chance(1, 2) { 0 } else { bs.maxd() }; }
                }
                else if let Some(x) = raw_sub(bs, &t[i..], &[1])
                {
                    t.truncate(i);
                    t.extend(x);
                }
                v = t;
            }
            // put a few digits of d's leading part repeatedly
            if r.chance(1, 3)
            {
                let l = v.len();
                let k2 = r.range(1, nd);
                if l > nd + k2 { let o = l - nd - k2; v[o..o + k2].copy_from_slice(&d[nd - k2..]); }
            }
            trimmed(v)
        }
        9 => { // d * b^k - small
            let mut v = vec![0; extra];
            v.extend_from_slice(&d);
            let k = 1 + r.usize(2);
            let s = number(bs, r, k);
            raw_sub(bs, &v, &s).unwrap_or(v)
        }
        10 => { // multiple of leading part
            let mut v = block(bs, r, extra, 2);
            v.extend_from_slice(&d);
            trimmed(v)
        }
        _ if nd == 1 => stepped(bs, r, d[0], 1 + extra),
        _ => related(bs, r, &d, nd)
    };
    (trimmed(n), d)
}

/// A native integer of the storage type
pub fn prim(bs: &Base, r: &mut Rng) -> u64
{
    let m = bs.storage_max();
    match r.usize(10)
    {
        0 => m - r.below(3),
        1 if bs.dec => (bs.b as u64).saturating_add(r.below(4)).saturating_sub(2).min(m),
        2 if bs.dec && bs.b * 2 <= m as u128 => { // k * radix +- 1
            let k = 1 + r.below(m / bs.b as u64);
            (k * bs.b as u64 + r.below(3)).saturating_sub(1).min(m)
        }
        3 | 1 => edge_digit(bs, r),
        4 => r.below(20).min(m),
        5 => 1u64 << r.usize(bs.bits as usize),
        6 => (r.u64() & m) >> r.usize(bs.bits as usize),
        _ => if bs.bits == 64 { r.u64() } else { r.u64() & m }
    }
}

/// A decimal string with leading zeros now and then
pub fn digits_to_string(bs: &Base, x: &[u64]) -> String
{
    if x.is_empty() { return "0".into(); }
    if bs.dec
    {
        let mut s = x.last().unwrap().to_string();
        for d in x.iter().rev().skip(1) { s.push_str(&format!("{:0w$}", d, w = bs.places())); }
        s
    }
    else { Nat::from_raw(bs, x).to_dec_string() }
}
