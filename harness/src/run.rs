//! Command line: runs cases of one property on several threads, watches them, writes what was seen.

use crate::ctx::*;
use crate::props::*;
use crate::with_kind;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String
{
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars()
    {
        match c
        {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c)
        }
    }
    o.push('"');
    o
}

pub fn to_json(cx: &Ctx, extra: &[(&str, String)]) -> String
{
    let mut s = String::from("{");
    let _ = write!(s, "\"evals\":{},\"distinct\":{},\"nr_fails\":{},\"max_len\":{}", cx.evals, cx.distinct.len(), cx.nr_fails, cx.max_len);
    for (k, v) in extra { let _ = write!(s, ",{}:{}", esc(k), v); }
    s.push_str(",\"counters\":{");
    for (i, (k, v)) in cx.counters.iter().enumerate() { if i > 0 { s.push(','); } let _ = write!(s, "{}:{}", esc(k), v); }
    s.push_str("},\"samples\":[");
    for (i, v) in cx.samples.iter().enumerate() { if i > 0 { s.push(','); } s.push_str(&esc(&clip(v, 1500))); }
    s.push_str("],\"fails\":[");
    for (i, f) in cx.fails.iter().enumerate()
    {
        if i > 0 { s.push(','); }
        let _ = write!(s, "{{\"prop\":{},\"idx\":{},\"class\":{},\"detail\":{}}}", esc(&f.prop), f.idx, esc(&f.class), esc(&clip(&f.detail, 20000)));
    }
    s.push_str("]}");
    s
}
fn clip(s: &str, n: usize) -> String
{ if s.len() <= n { s.to_string() } else { let mut k = n; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } }

pub fn prop_name(s: &str) -> &'static str
{ match PROPS.iter().find(|p| **p == s) { Some(p) => p, None => { eprintln!("unknown property {}", s); std::process::exit(2); } } }

const CASE_CPU_LIMIT: f64 = 40.0;
const CASE_WALL_LIMIT: f64 = 240.0;

fn cpu_of(t: libc::pthread_t) -> f64
{
    unsafe
    {
        let mut clk: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(t, &mut clk) != 0 { return 0.0; }
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        if libc::clock_gettime(clk, &mut ts) != 0 { return 0.0; }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

struct Slot { case: AtomicU64, thread: AtomicU64, cpu0: AtomicU64, wall0: AtomicU64 }

pub fn main(args: &[String]) -> i32
{
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let mut o: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i + 1 < args.len() { o.insert(args[i].trim_start_matches('-').to_string(), args[i + 1].clone()); i += 2; }
    let num = |k: &str, d: u64| o.get(k).map(|s| s.parse::<u64>().expect(k)).unwrap_or(d);
    let text = |k: &str| o.get(k).cloned().unwrap_or_default();
    crate::kind::install_hook();
    match cmd
    {
        "run" => run(prop_name(&text("prop")), num("seed", 1), num("offset", 0), num("secs", 10), num("min", 0), num("max", u64::MAX),
            num("threads", 4), num("thorough", 0) == 1, &text("journal"), &text("out"), &text("digests"), &text("keys")),
        "one" => {
            let prop = prop_name(&text("prop"));
            let mut cx = Ctx::new(prop);
            cx.thorough = num("thorough", 0) == 1;
            // a thread like those of a full run
            let (seed, idx) = (num("seed", 1), num("idx", 0));
            let cx = std::thread::spawn(move || { run_case(prop, seed, idx, &mut cx); cx }).join();
            match cx
            {
                Err(_) => { println!("harness panicked"); 4 }
                Ok(cx) => {
                    for f in &cx.fails { println!("FAIL {} | {}", f.class, f.detail); }
                    if !text("out").is_empty() { std::fs::write(text("out"), to_json(&cx, &[("digest", format!("\"{:016x}\"", cx.digest))])).unwrap(); }
                    println!("{} evaluations, {} failures, digest {:016x}", cx.evals, cx.nr_fails, cx.digest);
                    if cx.nr_fails > 0 { 1 } else { 0 }
                }
            }
        }
        "union" => {
            let mut s = IdSet::default();
            for f in &args[1..]
            {
                let b = std::fs::read(f).unwrap();
                for c in b.chunks_exact(8) { s.insert(u64::from_le_bytes(c.try_into().unwrap())); }
            }
            println!("{}", s.len());
            0
        }
        "selftest" => { selftest(); 0 }
        #[cfg(not(miri))]
        "ladder" => crate::ladder::main(&text("kinds"), &text("ops"), num("seed", 1), num("base", 400) as usize, num("rungs", 3) as usize, num("odd", 0) as usize, &text("patterns")),
        "miri" => crate::small::main(num("seed", 1), num("from", 0), num("count", 100), &text("level")),
        _ => { eprintln!("usage: babs-mon run|one|union|selftest|ladder|miri --key value ..."); 2 }
    }
}

#[allow(clippy::too_many_arguments)]
fn run(prop: &'static str, seed: u64, offset: u64, secs: u64, min: u64, max: u64, threads: u64, thorough: bool,
    journal: &str, out: &str, digests: &str, keys: &str) -> i32
{
    let start = Instant::now();
    let nsys = systematic(prop);
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { case: AtomicU64::new(u64::MAX), thread: AtomicU64::new(0), cpu0: AtomicU64::new(0), wall0: AtomicU64::new(0) }).collect();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let jf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(journal).expect("journal");
    let next = AtomicU64::new(0);
    let want_digests = !digests.is_empty();
    let mut total = Ctx::new(prop);
    let mut broken = false;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads as usize).map(|t| {
            let (slots, stop, jf, next) = (&slots, &stop, &jf, &next);
            s.spawn(move || {
                use std::os::unix::fs::FileExt;
                let mut cx = Ctx::new(prop);
                cx.thorough = thorough;
                let slot = &slots[t];
                slot.thread.store(unsafe { libc::pthread_self() } as u64, Relaxed);
                let mut cases = 0u64;
                loop
                {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= max || (stop.load(Relaxed) && k >= min && k >= nsys) { break; }
                    // the random part starts at an offset, so that several processes can share a seed
                    let idx = if k < nsys { k } else { k + offset };
                    let _ = jf.write_at(&idx.to_le_bytes(), 8 * t as u64);
                    let cpu = unsafe { cpu_of(libc::pthread_self()) };
                    slot.cpu0.store(cpu.to_bits(), Relaxed);
                    slot.wall0.store(start.elapsed().as_secs_f64().to_bits(), Relaxed);
                    slot.case.store(idx, Relaxed);
                    cx.digest = 0;
                    run_case(prop, seed, idx, &mut cx);
                    if want_digests { cx.digests.push((idx, cx.digest)); }
                    slot.case.store(u64::MAX, Relaxed);
                    cases += 1;
                    if cx.nr_fails > 200 { stop.store(true, Relaxed); next.fetch_add(1 << 60, Relaxed); break; }
                }
                let _ = jf.write_at(&u64::MAX.to_le_bytes(), 8 * t as u64);
                cx.add("cases", cases);
                cx
            })
        }).collect();
        // watchdog and clock
        s.spawn(|| {
            while !done.load(Relaxed)
            {
                std::thread::sleep(Duration::from_millis(100));
                if start.elapsed().as_secs() >= secs { stop.store(true, Relaxed); }
                for sl in &slots
                {
                    let c = sl.case.load(Relaxed);
                    if c == u64::MAX { continue; }
                    let (c0, w0) = (f64::from_bits(sl.cpu0.load(Relaxed)), f64::from_bits(sl.wall0.load(Relaxed)));
                    let th = sl.thread.load(Relaxed) as libc::pthread_t;
                    let used = cpu_of(th) - c0;
                    let wall = start.elapsed().as_secs_f64() - w0;
                    if sl.case.load(Relaxed) == c && (used > CASE_CPU_LIMIT || wall > CASE_WALL_LIMIT)
                    {
                        println!("STUCK idx={} cpu={:.1} wall={:.1}", c, used, wall);
                        let _ = std::io::stdout().flush();
                        unsafe { libc::_exit(9) }
                    }
                }
            }
        });
        for h in hs
        {
            match h.join() { Ok(cx) => total.merge(cx), Err(_) => broken = true }
        }
        done.store(true, Relaxed);
    });
    if broken { println!("harness thread panicked"); return 4; }
    if want_digests
    {
        total.digests.sort_unstable();
        let mut b = Vec::with_capacity(16 * total.digests.len());
        for (i, d) in &total.digests { b.extend(i.to_le_bytes()); b.extend(d.to_le_bytes()); }
        std::fs::write(digests, b).unwrap();
    }
    if !keys.is_empty()
    {
        let mut b = Vec::with_capacity(8 * total.distinct.len());
        for k in &total.distinct { b.extend(k.to_le_bytes()); }
        std::fs::write(keys, b).unwrap();
    }
    let extra = [("wall_s", format!("{:.2}", start.elapsed().as_secs_f64())), ("guarded", format!("{}", crate::alloc::is_guarded())),
        ("blocks_checked", format!("{}", crate::alloc::BLOCKS_CHECKED.load(Relaxed))), ("canary_hits", format!("{}", crate::alloc::CANARY_HITS.load(Relaxed)))];
    std::fs::write(out, to_json(&total, &extra)).unwrap();
    if total.nr_fails > 0 { 1 } else { 0 }
}

/// Prints reference computations, so that the reference arithmetic can be compared with that of
/// another implementation (Python's integers).
fn selftest()
{
    use crate::gen::*;
    use crate::kind::*;
    use crate::nat::*;
    use crate::rng::*;
    let mut r = Rng::new(mix(&[99]));
    let r = &mut r;
    fn base<K: Kind>() -> Base { K::BASE }
    for it in 0..600usize
    {
        let bs = with_kind!(it, base());
        let n = r.usize(40);
        let m = r.usize(40);
        let x = number(&bs, r, n);
        let y = related(&bs, r, &x, m);
        let (a, b) = (Nat::from_raw(&bs, &x), Nat::from_raw(&bs, &y));
        let k = r.usize(300);
        let sub = a.sub(&b);
        let (q, rm) = if b.is_zero() { (Nat::zero(), Nat::zero()) } else { a.divrem(&b) };
        println!("{}", [bs.b.to_string(), x.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","), y.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","),
            a.to_dec_string(), b.to_hex_string(), a.add(&b).to_dec_string(), sub.map(|s| s.to_dec_string()).unwrap_or("-".into()), a.mul(&b).to_dec_string(),
            k.to_string(), a.shl(k).to_dec_string(), a.shr(k).to_dec_string(), q.to_dec_string(), rm.to_dec_string(),
            raw_add(&bs, &x, &y).iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","),
            raw_sub(&bs, &x, &y).map(|s| s.iter().map(|d| d.to_string()).collect::<Vec<_>>().join(",")).unwrap_or("-".into()),
            a.mul(&b).to_raw(&bs).iter().map(|d| d.to_string()).collect::<Vec<_>>().join(","),
            Fp::of(&bs, &x).mul(Fp::of(&bs, &y)).show(), digits_to_string(&bs, &x), denotes(&format!("0x{}", b.to_hex_string())).unwrap().to_dec_string(),
            denotes(&a.to_dec_string()).unwrap().to_dec_string(), format!("{}", Nat::from_dec_str(&a.to_dec_string()) == a), a.bits().to_string()].join(" "));
    }
}
