//! What one worker observed: counts, distinct cases, samples, failures.

use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct IdHasher(u64);
impl Hasher for IdHasher
{
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, x: u64) { self.0 = x; }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

#[derive(Clone, Debug)]
pub struct Fail
{
    pub prop: String,
    pub idx: u64,
    /// short classification: digit type, operation, kind of failure
    pub class: String,
    pub detail: String
}

pub struct Ctx
{
    pub prop: &'static str,
    pub idx: u64,
    pub evals: u64,
    pub distinct: IdSet,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub nr_fails: u64,
    pub digest: u64,
    pub digests: Vec<(u64, u64)>,
    pub max_len: usize,
    /// wall time allows "heavy" variants (thorough tier)
    pub thorough: bool
}

pub const MAX_DISTINCT: usize = 2_000_000;

impl Ctx
{
    pub fn new(prop: &'static str) -> Ctx
    {
        Ctx { prop, idx: 0, evals: 0, distinct: IdSet::default(), counters: BTreeMap::new(), samples: vec![],
            fails: vec![], nr_fails: 0, digest: 0, digests: vec![], max_len: 0, thorough: false }
    }
    /// One evaluation of the property. `key` identifies the case, `nontrivial` whether it counts.
    pub fn eval(&mut self, nontrivial: bool, key: u64)
    {
        self.evals += 1;
        if nontrivial && self.distinct.len() < MAX_DISTINCT { self.distinct.insert(key); }
    }
    pub fn count(&mut self, label: &str) { self.add(label, 1); }
    pub fn add(&mut self, label: &str, n: u64)
    {
        if let Some(c) = self.counters.get_mut(label) { *c += n; }
        else { self.counters.insert(label.to_string(), n); }
    }
    pub fn seen_len(&mut self, n: usize) { if n > self.max_len { self.max_len = n; } }
    pub fn size_class(&mut self, what: &str, n: usize)
    {
        self.seen_len(n);
        let c = match n { 0 => "0", 1 => "1", 2 => "2", 3..=19 => "3-19", 20..=39 => "20-39", 40..=127 => "40-127",
            128..=375 => "128-375", 376..=1023 => "376-1023", _ => "1024+" };
        let l = format!("{} digits {}", what, c);
        self.add(&l, 1);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String)
    {
        if self.samples.len() < 3 { let s = f(); self.samples.push(s); }
    }
    pub fn fail(&mut self, class: String, detail: String)
    {
        self.nr_fails += 1;
        if self.fails.len() < 20
        {
            self.fails.push(Fail { prop: self.prop.to_string(), idx: self.idx, class, detail });
        }
    }
    pub fn dig(&mut self, x: u64) { self.digest = crate::rng::mix(&[self.digest, x]); }
    pub fn merge(&mut self, o: Ctx)
    {
        self.evals += o.evals;
        self.nr_fails += o.nr_fails;
        self.max_len = self.max_len.max(o.max_len);
        for x in o.distinct { self.distinct.insert(x); }
        for (k, v) in o.counters { *self.counters.entry(k).or_insert(0) += v; }
        for s in o.samples { if self.samples.len() < 8 { self.samples.push(s); } }
        self.fails.extend(o.fails);
        self.digests.extend(o.digests);
    }
}

pub fn hash_raw(x: &[u64]) -> u64
{
    let mut h = 0x9e3779b97f4a7c15u64 ^ x.len() as u64;
    for &d in x { h = (h ^ d).wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 32; }
    h
}

/// Print a number as its digits, most significant first
pub fn show(x: &[u64]) -> String
{
    if x.is_empty() { return "[]".into(); }
    let mut s = String::from("[");
    let mut i = x.len();
    let mut first = true;
    while i > 0
    {
        // run length encoding keeps long patterned operands readable
        let d = x[i - 1];
        let mut k = 1;
        while k < i && x[i - 1 - k] == d { k += 1; }
        if !first { s.push(' '); }
        first = false;
        if k > 2 { s.push_str(&format!("{}*{}", d, k)); } else { for j in 0..k { if j > 0 { s.push(' '); } s.push_str(&d.to_string()); } }
        i -= k;
    }
    s.push(']');
    s
}
