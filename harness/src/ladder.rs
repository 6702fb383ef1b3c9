//! Work and memory as a function of operand length (C19). Run under callgrind: every measured
//! operation is followed by a request to dump the number of instructions it executed.

use crate::alloc;
use crate::gen::*;
use crate::kind::*;
use crate::nat::*;
use crate::rng::*;
use crate::with_kind;

#[inline(never)]
fn request(code: usize, arg: usize) -> usize
{
    let args: [usize; 6] = [code, arg, 0, 0, 0, 0];
    let mut res: usize = 0;
    #[cfg(target_arch = "x86_64")]
    unsafe
    {
        std::arch::asm!("rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdi") 0usize => _, in("rax") &args, inout("rdx") res);
    }
    res
}
const BASE_CT: usize = (b'C' as usize) << 24 | (b'T' as usize) << 16;
fn ct_zero() { request(BASE_CT + 1, 0); }
fn ct_dump(label: &str) { let c = std::ffi::CString::new(label).unwrap(); request(BASE_CT + 3, c.as_ptr() as usize); }
fn ct_start() { request(BASE_CT + 4, 0); }
fn ct_stop() { request(BASE_CT + 5, 0); }

pub const LADDER_OPS: [&str; 47] = ["mul", "mul2to1", "mul3to2", "square", "div", "div4to1", "div3to2", "rem", "divrem", "rem_method", "display", "to_decimal",
    "add", "sub", "cmp", "shl", "shr", "addsmall", "mulsmall", "divsmall", "parsehex", "hex", "mul8to1", "pow4", "shr1", "div12to1", "parsedec", "shlbig", "shrbig", "shldec", "shrdec",
    "mul32to1", "div32to1", "addripple", "subcancel", "remsmall", "subsmall",
    "mulshort", "divshort", "remshort", "divnear", "remnear", "divless", "addshort", "subshort", "cmpequal", "powlong"];

/// `op` may end in @f, which selects the form in which the operation is written (default: by reference)
fn measure<K: Kind>(name: &str, seed: u64, n: usize, pattern: &str)
{
    let (op, form) = match name.split_once('@') { Some((o, f)) => (o, Some(f.parse::<usize>().unwrap())), None => (name, None) };
    let (f3, f1) = (form.unwrap_or(3), form.unwrap_or(1));
    let bs = K::BASE;
    let mut r = Rng::new(mix(&[seed, hash_str(op), hash_str(K::NAME), 5]));
    let r = &mut r;
    let max = bs.maxd();
    let mut rnd = |n: usize| {
        let mut v: Raw = match pattern
        {
            "max" => vec![max; n],
            "power" => vec![0; n],
            "halves" => (0..n).map(|i| if i < n / 2 { 0 } else { max }).collect(),
            "runs" => { let l = 1 + r.usize(9); (0..n).map(|i| if (i / l) % 2 == 0 { 0 } else { max }).collect() }
            "low" => (0..n).map(|i| if i < n / 3 { any_digit(&bs, r) } else { 0 }).collect(),
            _ => (0..n).map(|_| any_digit(&bs, r)).collect()
        };
        if n > 0 { v[n - 1] = if pattern == "random" { 1 + v[n - 1] % max } else { v[n - 1].max(1) }; }
        v
    };
    if !bs.dec && op == "parsedec" { return; }
    if bs.dec && matches!(op, "to_decimal" | "hex" | "shl" | "shr" | "shr1" | "shlbig" | "shrbig" | "parsehex") { return; }
    if !bs.dec && matches!(op, "shldec" | "shrdec") { return; }
    let (x, y) = match op
    {
        "mul2to1" => (rnd(2 * n), rnd(n)),
        "mul8to1" => (rnd(8 * n), rnd(n)),
        "mul3to2" => (rnd(3 * n / 2), rnd(n)),
        "div" | "rem" | "divrem" | "rem_method" => (rnd(2 * n), rnd(n)),
        "div4to1" => (rnd(4 * n), rnd(n)),
        "div3to2" => (rnd(3 * n / 2), rnd(n)),
        "div12to1" => (rnd(3 * n), rnd(n / 4)),
        "mul32to1" => (rnd(8 * n), rnd(n / 4)),
        "div32to1" => (rnd(8 * n), rnd(n / 4)),
        "addripple" => { let mut y = rnd(n / 2); y[0] = y[0].max(1); (vec![max; n], y) }
        "subcancel" => { let mut x = rnd(n); x[0] = x[0].max(2); let mut y = x.clone(); y[0] -= 1; (x, y) }
        "mulshort" | "divshort" | "remshort" | "addshort" | "subshort" => (rnd(n), rnd(5)),
        "divnear" | "remnear" => (rnd(n + 4), rnd(n)),
        "divless" => (rnd(n - 1), rnd(n)),
        "cmpequal" => { let x = rnd(n); (x.clone(), x) }
        "powlong" => (vec![7], vec![]),
        "pow2" | "pow3" | "pow4" => (rnd(n), vec![]),
        "add" | "sub" => { let mut x = rnd(n); x[n - 1] = bs.maxd(); let mut y = rnd(n); y[n - 1] = 1; (x, y) }
        "cmp" => { let x = rnd(n); let mut y = x.clone(); y[0] ^= 1; (x, y) }
        "square" | "display" | "to_decimal" | "shl" | "shr" | "shr1" | "hex" | "parsehex" | "addsmall" | "mulsmall" | "divsmall" | "subsmall" | "remsmall" | "parsedec" | "shlbig" | "shrbig" | "shldec" | "shrdec" => (rnd(n), vec![]),
        _ => (rnd(n), rnd(n))
    };
    let (a, b) = (K::mk(&x), K::mk(&y));
    let w = bs.storage_max().min(97);
    let text = if op == "parsehex" { K::hex(&a, false).map(|s| format!("0x{}", s)).unwrap() }
        else if op == "parsedec" { format!("{}", a) } else { String::new() };
    alloc::reset_peak();
    let before = alloc::usage();
    ct_start();
    ct_zero();
    let out: (usize, isize) = match op
    {
        "mul" | "mul2to1" | "mul3to2" | "mul8to1" | "mul32to1" | "mulshort" => fin::<K>(K::op(Op::Mul, f3, &a, Rhs::Big(&b))),
        "square" => fin::<K>(K::square(&a)),
        "pow4" => fin::<K>(K::pow(f1, &a, 4)),
        "pow2" => fin::<K>(K::pow(f1, &a, 2)),
        "pow3" => fin::<K>(K::pow(f1, &a, 3)),
        "div" | "div4to1" | "div3to2" | "div12to1" | "div32to1" | "divshort" | "divnear" | "divless" => fin::<K>(K::op(Op::Div, f3, &a, Rhs::Big(&b))),
        "rem" | "remshort" | "remnear" => fin::<K>(K::op(Op::Rem, f3, &a, Rhs::Big(&b))),
        "divrem" => { let m = K::div_method(a.clone(), &b); fin::<K>(m.after) }
        "rem_method" => { let m = K::rem_method(a.clone(), &b); fin::<K>(m.after) }
        "display" => { let s = format!("{}", a); (s.len(), 0) }
        "to_decimal" => { let d = K::to_decimal(&a).unwrap(); (<K::Dec as Kind>::nr_digits(&d) * bs.bits as usize / 8, 0) }
        "hex" => { let s = K::hex(&a, false).unwrap(); (s.len(), 0) }
        "parsehex" | "parsedec" => fin::<K>(K::parse(&text).unwrap()),
        "add" | "addripple" | "addshort" => fin::<K>(K::op(Op::Add, f3, &a, Rhs::Big(&b))),
        "sub" | "subcancel" | "subshort" => fin::<K>(K::op(Op::Sub, f3, &a, Rhs::Big(&b))),
        "powlong" => fin::<K>(K::pow(f1, &a, 2 * n * bs.bits as usize / 8)),
        "cmp" | "cmpequal" => { std::hint::black_box(a.cmp(&b)); std::hint::black_box(a == b); (0, 0) }
        "shl" => fin::<K>(K::shl(f1, &a, bs.bits as usize * 3 + 3)),
        "shr" => fin::<K>(K::shr(f1, &a, bs.bits as usize * 3 + 3)),
        "shlbig" => fin::<K>(K::shl(f1, &a, bs.bits as usize * n + 3)),
        "shrbig" => fin::<K>(K::shr(f1, &a, bs.bits as usize * (n / 2) + 3)),
        "shldec" => fin::<K>(K::shl(f1, &a, bs.bits as usize * n)),
        "shrdec" => fin::<K>(K::shr(f1, &a, bs.bits as usize * (n / 2))),
        "shr1" => fin::<K>(K::shr(f1, &a, 1)),
        "addsmall" => fin::<K>(K::op(Op::Add, f1, &a, Rhs::Prim(w))),
        "mulsmall" => fin::<K>(K::op(Op::Mul, f1, &a, Rhs::Prim(w))),
        "subsmall" => fin::<K>(K::op(Op::Sub, f1, &a, Rhs::Prim(w))),
        "remsmall" => fin::<K>(K::op(Op::Rem, f1, &a, Rhs::Prim(w))),
        "divsmall" => fin::<K>(K::op(Op::Div, f1, &a, Rhs::Prim(w))),
        _ => panic!("unknown operation {}", op)
    };
    ct_stop();
    let after = alloc::usage();
    let label = format!("{} {} {} {}", K::NAME, name, n, pattern);
    ct_dump(&label);
    let width = bs.bits as usize / 8;
    println!("MEM {} peak={} operands={} result={}", label, after.peak - before.live, (x.len() + y.len()) * width + text.len(), out.0);
}

#[inline(never)]
fn fin<K: Kind>(v: K::B) -> (usize, isize)
{
    let v = std::hint::black_box(v);
    (K::nr_digits(&v) * K::BASE.bits as usize / 8, 0)
}

fn per_kind<K: Kind>(ops: &[&str], seed: u64, sizes: &[usize], patterns: &[&str])
{
    for (i, &n) in sizes.iter().enumerate()
    {
        for op in ops
        {
            if op.ends_with("32to1") && sizes.len() > 4 && i + 1 == sizes.len() { continue; }
            for p in patterns { measure::<K>(op, seed, n, p); }
        }
    }
}

pub fn main(kinds: &str, ops: &str, seed: u64, base: usize, rungs: usize, odd: usize, patterns: &str) -> i32
{
    let all = ["bin8", "dec8", "bin64", "dec64", "bin16", "dec16", "bin32", "dec32"];
    let ops: Vec<&str> = if ops.is_empty() { LADDER_OPS.to_vec() } else { ops.split(',').collect() };
    let sizes: Vec<usize> = (0..rungs).map(|i| (base << i) + odd).collect();
    let patterns: Vec<&str> = if patterns.is_empty() { vec!["random"] } else { patterns.split(',').collect() };
    for (i, k) in all.iter().enumerate()
    {
        if !kinds.is_empty() && !kinds.split(',').any(|x| x == *k) { continue; }
        with_kind!(i, per_kind(&ops, seed, &sizes, &patterns));
    }
    println!("LADDER DONE");
    0
}
