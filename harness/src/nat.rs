//! Reference arithmetic, written independently of the library under test: natural numbers in base
//! 2^64 with plain schoolbook algorithms, digit vectors in an arbitrary base ("raw" numbers), and
//! residues of raw numbers modulo two large primes. Checked against Python integers by
//! `selftest` (see tools/selftest.py).

use std::cmp::Ordering;

/// Description of a digit type
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Base
{
    pub name: &'static str,
    pub dec: bool,
    /// bits in the storage type
    pub bits: u32,
    /// the base itself
    pub b: u128
}

impl Base
{
    pub fn maxd(&self) -> u64 { (self.b - 1) as u64 }
    pub fn storage_max(&self) -> u64 { if self.bits == 64 { u64::MAX } else { (1u64 << self.bits) - 1 } }
    /// decimal places (decimal) of a digit
    pub fn places(&self) -> usize { match self.bits { 8 => 2, 16 => 4, 32 => 9, _ => 19 } }
    /// chunk of digits that fits in a u64, and the base of such a chunk
    fn chunk(&self) -> (usize, u128)
    {
        match (self.dec, self.bits)
        {
            (true, 8) => (9, 1_000_000_000_000_000_000),
            (true, 16) => (4, 10_000_000_000_000_000),
            (true, 32) => (2, 1_000_000_000_000_000_000),
            (true, _) => (1, 10_000_000_000_000_000_000),
            (false, n) => ((64 / n) as usize, 1u128 << 64)
        }
    }
}

pub type Raw = Vec<u64>;

pub fn trim(v: &mut Raw) { while v.last() == Some(&0) { v.pop(); } }
pub fn trimmed(mut v: Raw) -> Raw { trim(&mut v); v }

pub fn raw_cmp(a: &[u64], b: &[u64]) -> Ordering
{
    // operands canonical
    a.len().cmp(&b.len()).then_with(|| {
        for i in (0..a.len()).rev()
        {
            if a[i] != b[i] { return a[i].cmp(&b[i]); }
        }
        Ordering::Equal
    })
}

pub fn raw_add(bs: &Base, x: &[u64], y: &[u64]) -> Raw
{
    let n = x.len().max(y.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u128;
    for i in 0..n
    {
        let s = *x.get(i).unwrap_or(&0) as u128 + *y.get(i).unwrap_or(&0) as u128 + c;
        if s >= bs.b { r.push((s - bs.b) as u64); c = 1; } else { r.push(s as u64); c = 0; }
    }
    if c > 0 { r.push(1); }
    trimmed(r)
}

/// x - y, None when negative
pub fn raw_sub(bs: &Base, x: &[u64], y: &[u64]) -> Option<Raw>
{
    let n = x.len().max(y.len());
    let mut r = Vec::with_capacity(n);
    let mut c = 0u128;
    for i in 0..n
    {
        let a = *x.get(i).unwrap_or(&0) as u128;
        let s = *y.get(i).unwrap_or(&0) as u128 + c;
        if a >= s { r.push((a - s) as u64); c = 0; } else { r.push((a + bs.b - s) as u64); c = 1; }
    }
    if c > 0 { None } else { Some(trimmed(r)) }
}

/// Digits of a machine integer
pub fn raw_from_u64(bs: &Base, n: u64) -> Raw
{
    let mut v = vec![];
    let mut n = n as u128;
    while n > 0 { v.push((n % bs.b) as u64); n /= bs.b; }
    v
}

pub const P1: u64 = (1 << 61) - 1;
pub const P2: u64 = u64::MAX - 58; // 2^64 - 59, prime

fn red1(x: u128) -> u64
{
    let y = (x & P1 as u128) + (x >> 61);
    let y = ((y & P1 as u128) + (y >> 61)) as u64;
    let y = (y & P1) + (y >> 61);
    if y >= P1 { y - P1 } else { y }
}
fn red2(x: u128) -> u64
{
    let y = (x >> 64) * 59 + (x & u64::MAX as u128);
    let y = (y >> 64) * 59 + (y & u64::MAX as u128);
    let y = (y >> 64) * 59 + (y & u64::MAX as u128);
    let y = y as u64;
    if y >= P2 { y - P2 } else { y }
}

/// Residues modulo the two primes
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fp(pub u64, pub u64);

impl Fp
{
    pub fn of(bs: &Base, x: &[u64]) -> Fp
    {
        let b1 = (bs.b % P1 as u128) as u64;
        let b2 = (bs.b % P2 as u128) as u64;
        let (mut r1, mut r2) = (0u64, 0u64);
        for &d in x.iter().rev()
        {
            r1 = red1(r1 as u128 * b1 as u128 + d as u128);
            r2 = red2(r2 as u128 * b2 as u128 + d as u128);
        }
        Fp(r1, r2)
    }
    pub fn show(self) -> String { format!("{},{}", self.0, self.1) }
    pub fn int(n: u64) -> Fp { Fp(red1(n as u128), red2(n as u128)) }
    pub fn add(self, o: Fp) -> Fp { Fp(red1(self.0 as u128 + o.0 as u128), red2(self.1 as u128 + o.1 as u128)) }
    pub fn mul(self, o: Fp) -> Fp { Fp(red1(self.0 as u128 * o.0 as u128), red2(self.1 as u128 * o.1 as u128)) }
    pub fn pow(self, mut e: u64) -> Fp
    {
        let mut r = Fp::int(1);
        let mut p = self;
        while e > 0
        {
            if e & 1 == 1 { r = r.mul(p); }
            p = p.mul(p);
            e >>= 1;
        }
        r
    }
}

/// Natural number, little endian limbs, canonical
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nat(pub Vec<u64>);

impl Nat
{
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn from_u64(n: u64) -> Nat { Nat(if n == 0 { vec![] } else { vec![n] }) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn bits(&self) -> usize
    {
        match self.0.last() { None => 0, Some(t) => 64 * self.0.len() - t.leading_zeros() as usize }
    }
    pub fn mul_small_add(&mut self, f: u64, a: u64)
    {
        let mut c = a as u128;
        for d in self.0.iter_mut()
        {
            let t = *d as u128 * f as u128 + c;
            *d = t as u64;
            c = t >> 64;
        }
        if c > 0 { self.0.push(c as u64); }
        trim(&mut self.0);
    }
    /// Divide by f, return remainder
    pub fn div_small(&mut self, f: u64) -> u64
    {
        let mut r = 0u128;
        for d in self.0.iter_mut().rev()
        {
            let t = (r << 64) | *d as u128;
            *d = (t / f as u128) as u64;
            r = t % f as u128;
        }
        trim(&mut self.0);
        r as u64
    }
    pub fn from_raw(bs: &Base, x: &[u64]) -> Nat
    {
        let (k, cb) = bs.chunk();
        let mut chunks: Vec<u64> = x.chunks(k)
            .map(|c| c.iter().rev().fold(0u128, |s, &d| s * bs.b + d as u128) as u64)
            .collect();
        if !bs.dec
        {
            trim(&mut chunks);
            return Nat(chunks);
        }
        let mut r = Nat(vec![]);
        for &c in chunks.iter().rev() { r.mul_small_add(cb as u64, c); }
        r
    }
    pub fn to_raw(&self, bs: &Base) -> Raw
    {
        let (k, cb) = bs.chunk();
        let mut out = vec![];
        let mut push = |mut c: u64| {
            for _ in 0..k
            {
                if bs.bits == 64 && !bs.dec { out.push(c); }
                else { out.push(c % bs.b as u64); c /= bs.b as u64; }
            }
        };
        if bs.dec
        {
            let mut t = self.clone();
            while !t.is_zero() { let r = t.div_small(cb as u64); push(r); }
        }
        else
        {
            for &l in &self.0 { push(l); }
        }
        trimmed(out)
    }
    pub fn cmp(&self, o: &Nat) -> Ordering { raw_cmp(&self.0, &o.0) }
    pub fn add(&self, o: &Nat) -> Nat
    {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n
        {
            let s = *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128 + c;
            r.push(s as u64);
            c = s >> 64;
        }
        if c > 0 { r.push(c as u64); }
        Nat(trimmed(r))
    }
    pub fn sub(&self, o: &Nat) -> Option<Nat>
    {
        if self.cmp(o) == Ordering::Less { return None; }
        let mut r = Vec::with_capacity(self.0.len());
        let mut c = 0i128;
        for i in 0..self.0.len()
        {
            let s = self.0[i] as i128 - *o.0.get(i).unwrap_or(&0) as i128 - c;
            if s < 0 { r.push((s + (1i128 << 64)) as u64); c = 1; } else { r.push(s as u64); c = 0; }
        }
        Some(Nat(trimmed(r)))
    }
    pub fn mul(&self, o: &Nat) -> Nat
    {
        if self.is_zero() || o.is_zero() { return Nat::zero(); }
        let mut r = vec![0u64; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate()
        {
            let mut c = 0u128;
            for (j, &y) in o.0.iter().enumerate()
            {
                let t = x as u128 * y as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            r[i + o.0.len()] = c as u64;
        }
        Nat(trimmed(r))
    }
    pub fn shl(&self, k: usize) -> Nat
    {
        if self.is_zero() { return Nat::zero(); }
        let (w, s) = (k / 64, k % 64);
        let mut r = vec![0u64; w];
        let mut c = 0u64;
        for &d in &self.0
        {
            if s == 0 { r.push(d); } else { r.push((d << s) | c); c = d >> (64 - s); }
        }
        r.push(c);
        Nat(trimmed(r))
    }
    pub fn shr(&self, k: usize) -> Nat
    {
        let (w, s) = (k / 64, k % 64);
        if w >= self.0.len() { return Nat::zero(); }
        let v = &self.0[w..];
        let r = (0..v.len()).map(|i| if s == 0 { v[i] } else {
            (v[i] >> s) | (if i + 1 < v.len() { v[i + 1] << (64 - s) } else { 0 }) }).collect();
        Nat(trimmed(r))
    }
    pub fn pow(&self, e: u64) -> Nat
    {
        let mut r = Nat::from_u64(1);
        for _ in 0..e { r = r.mul(self); }
        r
    }
    /// Binary long division; slow, only used for small operands and by the self test
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat)
    {
        assert!(!d.is_zero());
        let mut q = vec![0u64; self.0.len()];
        let mut r = Nat::zero();
        for i in (0..self.bits()).rev()
        {
            r = r.shl(1);
            if (self.0[i / 64] >> (i % 64)) & 1 == 1 { r = r.add(&Nat::from_u64(1)); }
            if let Some(s) = r.sub(d) { r = s; q[i / 64] |= 1 << (i % 64); }
        }
        (Nat(trimmed(q)), r)
    }
    pub fn to_dec_string(&self) -> String
    {
        if self.is_zero() { return "0".into(); }
        let mut t = self.clone();
        let mut parts = vec![];
        while !t.is_zero() { parts.push(t.div_small(10_000_000_000_000_000_000)); }
        let mut s = parts.last().unwrap().to_string();
        for p in parts.iter().rev().skip(1) { s.push_str(&format!("{:019}", p)); }
        s
    }
    pub fn to_hex_string(&self) -> String
    {
        if self.is_zero() { return "0".into(); }
        let mut s = format!("{:x}", self.0.last().unwrap());
        for p in self.0.iter().rev().skip(1) { s.push_str(&format!("{:016x}", p)); }
        s
    }
    pub fn from_dec_str(s: &str) -> Nat
    {
        let mut r = Nat::zero();
        for c in s.bytes() { r.mul_small_add(10, (c - b'0') as u64); }
        r
    }
}
