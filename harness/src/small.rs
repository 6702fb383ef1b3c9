//! Memory monitors (C18): a workload whose every operation is executed twice, in memory filled
//! with different patterns, with the balance of allocated bytes observed around it; and a small
//! version of it for the interpreter.

use crate::alloc;
use crate::ctx::*;
use crate::gen::*;
use crate::kind::*;
use crate::with_kind;
use crate::props2::*;
use crate::rng::*;
use std::sync::atomic::Ordering::Relaxed;

const FILLS: [u8; 2] = [0xa5, 0x01];

/// Execute twice; returns the hash of the outcome
pub fn watched<K: Kind>(cx: &mut Ctx, what: &str, detail: &dyn Fn() -> String, f: &mut dyn FnMut() -> Out)
{
    let canaries = alloc::CANARY_HITS.load(Relaxed);
    alloc::set_fresh(FILLS[0]);
    let first = f();
    let (h, is_panic) = (first.hash(), matches!(first, Out::Panic(_)));
    drop(first);
    alloc::set_fresh(FILLS[1]);
    let before = alloc::usage();
    let second = f();
    let h2 = second.hash();
    if h != h2
    {
        cx.fail(format!("{} {} depends on the contents of fresh memory", K::NAME, what), format!("{}: second run gave {}", detail(), second.brief()));
    }
    drop(second);
    let after = alloc::usage();
    cx.count("operations with balanced allocations");
    if is_panic { cx.count("operations that panicked (as specified) under observation"); }
    if after.live != before.live || after.blocks != before.blocks
    {
        // memory that is kept for reuse (a cache, a scratch area) settles; a leak grows every time
        let (mut last, mut grew) = (after, 0);
        for _ in 0..4
        {
            drop(f());
            let now = alloc::usage();
            if now.live > last.live || now.blocks > last.blocks { grew += 1; }
            last = now;
        }
        if grew == 4
        {
            cx.fail(format!("{} {} leaks", K::NAME, what), format!("{}: each run leaves memory behind: {} bytes in {} blocks after one, {} bytes in {} blocks after five",
                detail(), after.live - before.live, after.blocks - before.blocks, last.live - before.live, last.blocks - before.blocks));
        }
        else { cx.count("operations that kept memory for reuse"); }
    }
    if alloc::CANARY_HITS.load(Relaxed) != canaries
    { cx.fail(format!("{} {} wrote outside its memory", K::NAME, what), detail()); }
}

pub fn c18<K: Kind>(cx: &mut Ctx, r: &mut Rng)
{
    let bs = K::BASE;
    // 1. the large algorithms
    if r.chance(1, 3)
    {
        let (x, y, op) = match r.usize(3)
        {
            0 => { let (x, y) = mul_pair(&bs, r, &SZ_MUL); (x, y, Op::Mul) }
            _ => { let (n, d) = div_pair(&bs, r, &SZ_DIV); (n, d, if r.chance(1, 2) { Op::Div } else { Op::Rem }) }
        };
        let form = r.usize(6);
        cx.size_class("operand", x.len());
        cx.eval(!x.is_empty() && !y.is_empty(), mix(&[hash_raw(&x), hash_raw(&y), op as u64, form as u64, hash_str(K::NAME)]));
        let num = |v: K::B| Out::Num(K::raw(&v));
        watched::<K>(cx, &format!("{:?}", op), &|| format!("{} {:?} {}", show(&x), op, show(&y)), &mut || {
            let (a, b) = (K::mk(&x), K::mk(&y));
            match guard(|| num(K::op(op, form, &a, Rhs::Big(&b)))) { Ok(o) => o, Err(m) => Out::Panic(m) }
        });
        return;
    }
    // 2. everything else, on numbers that live on
    let (pool, raws) = make_pool::<K>(r, 4, &SZ_DEFAULT, 300);
    for _ in 0..8
    {
        let o = gen_op(r, &bs, raws.len());
        cx.count(&format!("executed: {}", CODE_NAMES[o.code as usize]));
        cx.size_class("operand", raws[o.i].len());
        cx.eval(!raws[o.i].is_empty(), mix(&[hash_raw(&raws[o.i]), hash_raw(&raws[o.j]), o.k as u64, o.code as u64, o.form as u64, hash_str(K::NAME)]));
        watched::<K>(cx, CODE_NAMES[o.code as usize],
            &|| format!("a = {}, b = {}, k = {}, native = {}", show(&raws[o.i]), show(&raws[o.j]), o.k, pool.words[o.k % pool.words.len()]),
            &mut || exec::<K>(&o, &pool));
    }
    // 3. a number that is updated, grows, shrinks, and is dropped
    let script: Vec<(usize, usize, u64)> = (0..10).map(|_| (r.usize(9), r.usize(200), prim(&bs, r))).collect();
    watched::<K>(cx, "update sequence", &|| format!("{} with {} by {:?}", show(&raws[0]), show(&raws[1]), script), &mut || {
        let mut u = pool.nums[0].clone();
        let v = &pool.nums[1];
        let g = guard(|| {
            for &(t, k, w) in &script
            {
                u = match t
                {
                    0 => K::op(Op::Add, 5, &u, Rhs::Big(v)),
                    1 if K::nr_digits(&u) < 400 => K::op(Op::Mul, 5, &u, Rhs::Big(v)),
                    2 if K::nr_digits(v) > 0 => K::op(Op::Rem, 5, &u, Rhs::Big(v)),
                    3 => K::shl(2, &u, k),
                    4 => K::shr(2, &u, k),
                    5 => K::op(Op::Add, 2, &u, Rhs::Prim(w)),
                    6 => K::op(Op::Sub, 2, &u, Rhs::Prim(w)),
                    7 if K::nr_digits(v) > 0 => K::div_method(u.clone(), v).after,
                    _ => K::op(Op::Mul, 2, &u, Rhs::Prim(w))
                };
            }
        });
        match g { Ok(()) => Out::Num(K::raw(&u)), Err(m) => Out::Panic(m) }
    });
    cx.sample(|| format!("{}: 8 operations and an update sequence {:?} on {} and {} digits", K::NAME, script.iter().map(|s| s.0).collect::<Vec<_>>(), raws[0].len(), raws[1].len()));
}

// ---------------------------------------------------------------------------------------------
// for the interpreter

fn mini<K: Kind>(r: &mut Rng, big: bool, seen: &mut [u64])
{
    let bs = K::BASE;
    if big
    {
        // the splitting algorithms, at the smallest sizes at which they are selected
        let (n, m, code) = match r.usize(9)
        {
            0 => { let n = r.range(19, 46); (n, n, 2) }
            1 => { let n = r.range(20, 30); (n + r.usize(30), n, 2) }
            2 => (r.range(20, 60), 0, 3),
            3 => { let d = r.range(38, 48); (d + r.range(20, 50), d, 6) }
            4 => { let d = r.range(3, 20); (d + r.range(2, 20), d, 4 + r.usize(2) as u8) }
            6 => { let d = r.range(76, 90); (d + r.range(10, 90), d, 4 + r.usize(3) as u8) }
            7 => match r.usize(3)
            {
                // recursion into the same algorithm, very different lengths
                0 => (r.range(382, 392), 0, 3),
                1 => { let n = r.range(126, 134); (n + r.range(20, 150), n, 2) }
                _ => { let n = r.range(20, 50); (3 * n + r.usize(2 * n), n, 2) }
            },
            5 => { let n = r.range(18, 34); (n, 0, if bs.dec { 11 } else { 12 }) }
            _ => { let n = if r.chance(1, 2) { r.range(126, 134) } else { r.range(60, 80) }; (n, n, 2 + r.usize(2) as u8) }
        };
        let x = number(&bs, r, n);
        let y = if (4..=6).contains(&code) { let mut d = number(&bs, r, m.max(1)); if r.chance(1, 2) { let k = d.len(); d[k - 1] = x[x.len() - 1].max(1); } d } else { number(&bs, r, m) };
        let p = Pool { nums: vec![K::mk(&x), K::mk(&y)], text: vec![], words: vec![1] };
        let o = OpD { code, i: 0, j: 1, k: 0, form: r.usize(6) };
        std::hint::black_box(exec::<K>(&o, &p).hash());
        seen[code as usize] += 1;
        return;
    }
    let sizes = SizeCfg { small: 80, mid: 20, edge: 0, large: 0, huge: 0 };
    let (mut pool, raws) = make_pool::<K>(r, 3, &sizes, 12);
    for t in pool.text.iter_mut() { t.truncate(60); if t.as_str() == "0x" { t.push('1'); } }
    for _ in 0..4
    {
        let mut o = gen_op(r, &bs, raws.len());
        if o.code == 8 || o.code == 9 { o.k %= 200; }
        std::hint::black_box(exec::<K>(&o, &pool).hash());
        seen[o.code as usize] += 1;
    }
}

fn race<K: Kind>(r: &mut Rng, seen: &mut [u64])
{
    let bs = K::BASE;
    let sizes = SizeCfg { small: 60, mid: 40, edge: 0, large: 0, huge: 0 };
    let (pool, raws) = make_pool::<K>(r, 2, &sizes, 26);
    let ops: Vec<OpD> = (0..3).map(|_| { let mut o = gen_op(r, &bs, raws.len()); if r.chance(1, 2) { o.code = *r.pick(&[2u8, 3, 4, 12, 11]); } if o.code == 8 || o.code == 9 { o.k %= 100; } o }).collect();
    std::thread::scope(|s| {
        for t in 0..2usize
        {
            let (pool, ops) = (&pool, &ops);
            s.spawn(move || for i in 0..ops.len() { std::hint::black_box(exec::<K>(&ops[(i + t) % ops.len()], pool).hash()); });
        }
    });
    for o in &ops { seen[o.code as usize] += 2; }
}

pub fn main(seed: u64, from: u64, count: u64, level: &str) -> i32
{
    let secs: u64 = std::env::var("MINI_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
    let start = std::time::Instant::now();
    let mut seen = vec![0u64; NR_CODES as usize];
    let (mut n, mut nbig, mut nrace) = (0u64, 0u64, 0u64);
    for i in from..from.saturating_add(count)
    {
        if start.elapsed().as_secs() >= secs { break; }
        // flushed so that the last line names the case that was running when something was found
        println!("case {}", i);
        let mut rng = Rng::new(mix(&[seed, 777, i]));
        set_spare(if i % 3 == 1 { mix(&[seed, i, 41]) | 1 } else { 0 });
        let big = level == "big" || (level != "tiny" && i % 5 == 4);
        if i % 11 == 10 { with_kind!(i, race(&mut rng, &mut seen)); nrace += 1; }
        else { with_kind!(i, mini(&mut rng, big, &mut seen)); if big { nbig += 1; } }
        n += 1;
    }
    println!("MINI cases={} big={} threaded={} ops={}", n, nbig, nrace,
        seen.iter().enumerate().map(|(i, c)| format!("{}:{}", CODE_NAMES[i].replace(' ', "_"), c)).collect::<Vec<_>>().join(","));
    0
}
