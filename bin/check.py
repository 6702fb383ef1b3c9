#!/usr/bin/env python3
"""Driver of the runtime monitors.  usage: check.py PROPERTY   (tier and seed from the environment)

Exit 0: the property held on every execution observed.
Exit 1: a violation was observed and reproduced; a line VIOLATION property=<id> replay=<path>.
Exit 2: no verdict (a tool or the harness failed, or too little was observed).
"""
import collections, glob, json, math, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.environ.get("BABS_HARNESS", os.path.join(VERIF, "harness"))  # overridden only to try out a scratch copy of the library
TARGET = os.environ.get("BABS_TARGET", os.path.join(VERIF, "target"))
EVID = os.environ.get("BABS_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.environ.get("BABS_REPLAYS", os.path.join(VERIF, "replays"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"): TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
NIGHTLY = "+nightly"
TRIPLE = "x86_64-unknown-linux-gnu"
START = time.time()
NCPU = max(2, min(8, os.cpu_count() or 8))
GB = 1 << 30

# seconds of monitored execution per build: quick, thorough
SECS = collections.defaultdict(lambda: (30, 420))
SECS.update({"C03": (35, 600), "C04": (30, 500), "C05": (40, 600), "C16": (40, 600), "C17": (40, 500), "C14": (40, 500),
             "C18": (20, 240)})
RELEASE_OFFSET = 1 << 40
LEVEL = "exploration"
RULES = {
 "C01": "operand pairs (number+number in all six ownership forms, number+digit, number+native) from systematic edge values of up to 3 digits and random/structured values (runs, all-max, complements, carry chains) up to ~1280 digits; non-trivial: both operands non-zero",
 "C02": "as C01, for differences; includes pairs that must underflow and pairs sharing leading digits; non-trivial: left operand non-zero",
 "C03": "operand pairs by structure (halves/thirds equal, near-equal, zero, vanishing at evaluation points), balanced and unbalanced lengths around every size where the algorithm might change; non-trivial: both operands non-zero",
 "C04": "bases with the C03 structure, squared, and raised to exponents 0..~40 (larger for single digits); non-trivial: base non-zero",
 "C05": "dividend/divisor pairs: systematic edge digits up to 4/3 digits, q*d+r with extreme r, dividends sharing the divisor's leading digits, divisors at the normalisation boundaries; non-trivial: dividend at least as long as the divisor",
 "C06": "zero divisors of every kind (number, digit, native) with dividends of all sizes; non-trivial: dividend non-zero",
 "C07": "numbers x shift counts around multiples of the digit width up to thousands; non-trivial: number non-zero",
 "C08": "numbers x shift counts around multiples of the digit width and far beyond the length, up to usize::MAX; non-trivial: number non-zero",
 "C09": "every producing operation on structured operands, and construction from digit vectors with leading zeros; non-trivial: result non-zero",
 "C10": "pairs and triples of numbers built directly and computed in different ways, compared with the reference order; non-trivial: not both zero",
 "C11": "well-formed numerals of every length around the chunk sizes with leading zeros, and strings damaged at one or more positions by signs, blanks, other digits, multi-byte characters; non-trivial: non-empty string",
 "C12": "numbers with inner zero digits, short top digits and powers, printed with all combinations of flags and widths in all styles, and parsed back; non-trivial: number non-zero",
 "C13": "binary numbers of up to ~1280 (thorough: 3000) digits, most of them chosen by their decimal digits; non-trivial: number non-zero",
 "C14": "the same computation on the same values carried out in all eight digit types, sizes chosen so that types fall on different sides of algorithm cut-offs; non-trivial: operand non-zero",
 "C15": "one operand pair through every ownership form, right-hand-side kind and method/operator pair; non-trivial: left operand non-zero",
 "C16": "sequences of public operations with results fed back, products and quotients of structured operands, arbitrary strings, numbers of up to a million digits; the same case indices executed in the build with all checks, in the optimised build and in an unoptimised one and their result digests compared; non-trivial: first operand non-zero",
 "C17": "histories of 14 operations replayed in another order, on a fresh thread and on equal numbers with unused capacity; rounds of 4 threads on shared operands; one number object through 8-24 in-place updates of every kind, compared at each step with the operation on freshly made numbers; identities along in-place updates; non-trivial: operands non-zero",
 "C18": "operations on pooled numbers, large products and quotients and update sequences, each executed twice under different fill patterns of fresh memory with canaries, freed memory overwritten and allocations balanced; the same workload under AddressSanitizer; small workloads incl. threads under Miri; non-trivial: operand non-zero",
 "C19": "operand length ladders (doubling) per digit type and operation, executed instructions counted by callgrind client requests around the single call, bytes by a counting allocator; every measured call is non-trivial",
}
MIN_EVALS = collections.defaultdict(lambda: 20000, {"C14": 1000, "C17": 3000, "C19": 300})
ASSUME = ["the reference arithmetic of the harness (schoolbook on 64-bit limbs, compared with Python's integers by tools/selftest.py)",
          "held on the executions observed; nothing is claimed about inputs outside the generated ones"]


def log(*a): print(*a, flush=True)


class NoVerdict(Exception): pass


class Violation(Exception):
    def __init__(self, what, replay): super().__init__(what); self.what, self.replay = what, replay


def limits(mem_gb=None, cpu=None):
    def f():
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * GB), int(mem_gb * GB)))
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 5))
    return f


class Res:
    pass


def sh(cmd, timeout, mem_gb=None, cpu=None, env=None, cwd=HARNESS, out=None):
    """Run a command in its own process group; never raises for its failure."""
    e = dict(os.environ)
    e.update(env or {})
    r = Res()
    t0 = time.time()
    fo = open(out, "wb") if out else tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd, env=e, preexec_fn=limits(mem_gb, cpu))
    r.timed_out = False
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        r.timed_out = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        p.wait()
    r.rc = p.returncode
    r.wall = time.time() - t0
    if out:
        fo.close()
        with open(out, "rb") as f: b = f.read()
    else:
        fo.seek(0); b = fo.read(); fo.close()
    r.text = b.decode("utf-8", "replace")
    r.cmd = cmd
    return r


# --- builds ---------------------------------------------------------------------------------

def build(what):
    """what: checked, release, plain, asan, miri"""
    env = {"CARGO_TARGET_DIR": TARGET, "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER"): os.environ.pop(k, None)
    if what in ("checked", "plain"): cmd = ["cargo", "build", "--offline", "--locked", "--profile", what]
    elif what == "release": cmd = ["cargo", "build", "--offline", "--locked", "--release"]
    elif what == "asan":
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "asan")
        env["RUSTFLAGS"] = "-Zsanitizer=address -Cdebuginfo=line-tables-only"
        cmd = ["cargo", NIGHTLY, "build", "--offline", "--locked", "--release", "--target", TRIPLE]
    elif what == "miri":
        env["CARGO_TARGET_DIR"] = os.path.join(TARGET, "miri")
        env["MIRIFLAGS"] = MIRIFLAGS
        cmd = ["cargo", NIGHTLY, "miri", "run", "--offline", "--locked", "--", "miri", "--seed", "1", "--from", "0", "--count", "0"]
    r = sh(cmd, 800, env=env)
    if r.rc != 0: raise NoVerdict("build %s failed (rc %s)\n%s" % (what, r.rc, r.text[-6000:]))
    return {"checked": os.path.join(TARGET, "checked", "babs-mon"), "release": os.path.join(TARGET, "release", "babs-mon"), "plain": os.path.join(TARGET, "plain", "babs-mon"),
            "asan": os.path.join(TARGET, "asan", TRIPLE, "release", "babs-mon"), "miri": None}[what]


MIRIFLAGS = "-Zmiri-disable-isolation"


def build_all(kinds):
    with ThreadPoolExecutor(len(kinds)) as ex:
        fs = {k: ex.submit(build, k) for k in kinds}
        return {k: f.result() for k, f in fs.items()}


# --- known findings -------------------------------------------------------------------------

def known_findings(prop):
    """Lines `finding: property=<id> class=<failure class regex> input=<regex on the detail> : text`.
    Lines starting with `fixed:` are a record only."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=/(.*?)/ input=/(.*?)/ : (.*)", l.strip())
            if m and m.group(1) == prop: out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def split_known(prop, fails):
    kf = known_findings(prop)
    seen, rest = set(), []
    for f in fails:
        for c, i, t in kf:
            if c.search(f["class"]) and i.search(f["detail"]): seen.add(t); break
        else: rest.append(f)
    for t in sorted(seen): log("KNOWN-FINDING: property=%s %s" % (prop, t))
    return rest


def replay_file(prop, tag, body):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, tag, SEED))
    body = dict(body, property=prop, seed=SEED, tier=TIER)
    with open(p, "w") as f: json.dump(body, f, indent=1, ensure_ascii=False)
    return p


# --- running the monitors -------------------------------------------------------------------

class Monitor:
    """One process executing cases of one property, and what came of it"""
    def __init__(self, prop, name, exe, secs, threads, offset, tmp, env=None, mem_gb=14, min_cases=0, want_digests=False, want_keys=True, max_cases=1 << 60):
        self.prop, self.name, self.exe, self.env, self.mem_gb = prop, name, exe, env or {}, mem_gb
        self.secs = secs
        self.journal, self.out = os.path.join(tmp, name + ".j"), os.path.join(tmp, name + ".json")
        self.keys, self.digests = os.path.join(tmp, name + ".keys"), os.path.join(tmp, name + ".dig")
        self.cmd = [exe, "run", "--prop", prop, "--seed", str(SEED), "--offset", str(offset), "--secs", str(secs), "--min", str(min_cases), "--max", str(max_cases),
                    "--threads", str(threads), "--thorough", "1" if THOROUGH else "0", "--journal", self.journal, "--out", self.out]
        if want_keys: self.cmd += ["--keys", self.keys]
        if want_digests: self.cmd += ["--digests", self.digests]
        self.log = os.path.join(tmp, name + ".log")

    def run(self):
        self.r = sh(self.cmd, self.secs * 4 + 300, mem_gb=self.mem_gb, env=self.env, out=self.log)
        return self

    def one(self, idx, timeout=400, cpu=120):
        return sh([self.exe, "one", "--prop", self.prop, "--seed", str(SEED), "--idx", str(idx), "--thorough", "1" if THOROUGH else "0"], timeout, mem_gb=self.mem_gb, cpu=cpu, env=self.env)

    def result(self):
        """The JSON record, or raises Violation / NoVerdict"""
        r = self.r
        if r.rc in (0, 1) and not r.timed_out:
            with open(self.out) as f: return json.load(f)
        tail = r.text[-3000:]
        if r.timed_out: raise NoVerdict("%s: wall-clock limit of the run reached\n%s" % (self.name, tail))
        if r.rc == 9:
            m = re.search(r"STUCK idx=(\d+)", r.text)
            idx = int(m.group(1)) if m else None
            if idx is None: raise NoVerdict("%s: stuck without index" % self.name)
            suspects = [idx]
        else:
            suspects = self.inflight()
        log("%s: process ended with %s; re-running cases %s in isolation" % (self.name, r.rc, suspects))
        for idx in suspects:
            o = self.one(idx)
            what = None
            if o.rc == -signal.SIGXCPU or (o.rc == -signal.SIGKILL and o.wall > 100 and not o.timed_out): what = "does not return (used more than 120 s of processor time)"
            elif o.rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP): what = "ends the process with signal %d" % -o.rc
            elif "AddressSanitizer" in o.text: what = "AddressSanitizer report"
            elif o.rc == 4 and re.search(r"panicked at \S*/src/(ubig|digit|lib|result)\b", o.text): what = "panics inside an operation that must not panic"
            elif o.rc == 1:
                what = "monitor reports a violation"
            if what:
                p = replay_file(self.prop, self.name + "-crash", {"build": self.name, "idx": idx, "what": what, "command": o.cmd, "env": self.env, "output": o.text[-6000:], "run_output": tail})
                raise Violation("case %d (%s): %s\n%s" % (idx, self.name, what, o.text[-1500:]), p)
        raise NoVerdict("%s: process ended with %s and no in-flight case reproduces it\n%s" % (self.name, r.rc, tail))

    def inflight(self):
        try: b = open(self.journal, "rb").read()
        except OSError: return []
        ids = [x for (x,) in struct.iter_unpack("<Q", b[:len(b) // 8 * 8])]
        return sorted({x for x in ids if x != (1 << 64) - 1})


def confirm(mon, rec):
    """A reported failure must come back when its case is run alone; only then it is a violation."""
    fails = split_known(mon.prop, rec["fails"])
    if not fails and rec["nr_fails"] > len(rec["fails"]) and rec["fails"]: raise NoVerdict("failures beyond those recorded, all recorded ones known")
    unconfirmed = []
    for f in fails[:12]:
        o = mon.one(f["idx"])
        if o.rc == 1 or o.rc < 0:
            classes = collections.Counter(x["class"] for x in fails)
            p = replay_file(mon.prop, mon.name, {"build": mon.name, "idx": f["idx"], "class": f["class"], "detail": f["detail"], "classes": classes,
                "command": o.cmd, "env": mon.env, "output": o.text[-6000:], "nr_fails": rec["nr_fails"]})
            raise Violation("%s: %s\n  %s\n  %d failing evaluations; classes: %s" % (mon.name, f["class"], f["detail"][:1200], rec["nr_fails"],
                "; ".join("%s x%d" % c for c in classes.most_common(8))), p)
        unconfirmed.append(f)
    return unconfirmed


def history_violation(mon, rec, unconfirmed):
    """Not reproducible alone: the outcome depends on what ran before it, or on other threads (state kept
    between operations). Run the same cases again in fresh processes; if failures come back, that dependence
    has been observed twice and is a violation (of purity, and of the property). (Which operation is hit may differ.)"""
    if not unconfirmed: return
    for n in range(2):
        again = Monitor(mon.prop, "%s-again%d" % (mon.name, n), mon.exe, mon.secs, 4, 0, os.path.dirname(mon.out), env=mon.env, mem_gb=mon.mem_gb, want_keys=False)
        again.cmd = [{mon.out: again.out, mon.keys: again.keys, mon.digests: again.digests, mon.journal: again.journal}.get(x, x) for x in mon.cmd]
        again.run()
        back = split_known(mon.prop, again.result()["fails"])
        if back: break
    if back or rec["nr_fails"] > 2:
        f, g = unconfirmed[0], (back or unconfirmed[1:] or unconfirmed)[0]
        p = replay_file(mon.prop, mon.name + "-history", {"build": mon.name, "idx": f["idx"], "class": f["class"], "detail": f["detail"], "command": mon.cmd, "env": mon.env, "nr_fails": rec["nr_fails"],
            "another": g, "note": "does not come back when the case runs alone in a new process, but failures came back in %s: the outcome depends on earlier or concurrent operations" % ("another full run" if back else "the same run")})
        raise Violation("%s: %s (only after or beside other operations, seen again: %s)\n  %s" % (mon.name, f["class"], g["class"], f["detail"][:1200]), p)
    raise NoVerdict("failures that reproduce neither alone nor in further runs: %s" % unconfirmed[:2])


def union_keys(exe, files):
    files = [f for f in files if os.path.exists(f)]
    if not files: return 0
    r = sh([exe, "union"] + files, 300)
    if r.rc != 0: raise NoVerdict("union failed: " + r.text[-500:])
    return int(r.text.split()[-1])


def evidence(prop, cov, violations=0):
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": LEVEL, "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(time.time() - START, 1), "violations": violations}
    tmp = os.path.join(EVID, ".%s.tmp" % prop)
    with open(tmp, "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, "%s.json" % prop))


def merge_cov(prop, recs, distinct):
    cov = {"evaluations": sum(r["evals"] for r in recs.values()), "distinct_nontrivial": distinct, "rule": RULES[prop],
           "samples": [s for r in recs.values() for s in r["samples"]][:10],
           "longest_operand_digits": max(r["max_len"] for r in recs.values())}
    for n, r in recs.items():
        cov["observed (%s)" % n] = dict(r["counters"], evaluations=r["evals"], seconds=r["wall_s"])
    return cov


def check_monitored(prop, tmp):
    same = prop == "C16"
    exes = build_all(["checked", "release"] + ["plain"] * same)
    t_build = time.time() - START
    secs = SECS[prop][1 if THOROUGH else 0]
    threads = max(1, NCPU // 2 - same)
    mons = [Monitor(prop, "checked", exes["checked"], secs, threads, 0, tmp, want_digests=same),
            Monitor(prop, "release", exes["release"], secs, threads, 0 if same else RELEASE_OFFSET, tmp, want_digests=same)]
    # the same cases once more without any optimisation, as in a development build: fewer of them, and as deep as stacks get
    if same: mons.append(Monitor(prop, "plain", exes["plain"], secs, max(1, NCPU // 4), 0, tmp, want_digests=True, want_keys=False))
    with ThreadPoolExecutor(len(mons)) as ex: list(ex.map(Monitor.run, mons))
    recs, pending = {}, None
    for m in mons:
        try:
            recs[m.name] = m.result()
        except NoVerdict as e:
            pending = pending or e
    for m in mons:
        if m.name in recs and recs[m.name]["fails"]:
            un = confirm(m, recs[m.name])
            history_violation(m, recs[m.name], un)
    if pending: raise pending
    extra = {}
    if same: extra = compare_digests(mons)
    distinct = union_keys(exes["release"], [m.keys for m in mons])
    cov = merge_cov(prop, recs, distinct)
    cov.update(extra)
    cov["builds"] = "checked: optimised with debug assertions and overflow checks; release: neither" + ("; plain: not optimised, with both" if same else "")
    cov["build_s"] = round(t_build, 1)
    few = {n: r["evals"] for n, r in recs.items() if r["evals"] < MIN_EVALS[prop] // (10 if n == "plain" else 1)}
    if few: raise NoVerdict("too few evaluations: %s" % few)
    return cov


def compare_digests(mons):
    d = {}
    for m in mons:
        b = open(m.digests, "rb").read()
        d[m.name] = dict(struct.iter_unpack("<QQ", b))
    first, out = mons[0], {}
    for m in mons[1:]:
        common = d[first.name].keys() & d[m.name].keys()
        diff = sorted(i for i in common if d[first.name][i] != d[m.name][i])
        for idx in diff[:10]:
            o = [first.one(idx), m.one(idx)]
            dg = [re.search(r"digest ([0-9a-f]+)", x.text) for x in o]
            if all(dg) and dg[0].group(1) != dg[1].group(1):
                p = replay_file("C16", "builds-differ", {"idx": idx, first.name: o[0].text[-3000:], m.name: o[1].text[-3000:], "command": [x.cmd for x in o], "nr_differing": len(diff)})
                raise Violation("case %d gives different results in the %s and the %s build (%d such cases)" % (idx, first.name, m.name, len(diff)), p)
        if diff: raise NoVerdict("digests differ between builds, but not when the cases run alone: %s" % diff[:5])
        if len(common) < (200 if m.name == "plain" else 2000): raise NoVerdict("only %d cases were executed in both %s and %s" % (len(common), first.name, m.name))
        out["cases_compared_between_%s_and_%s" % (first.name, m.name)] = len(common)
    return out


# --- C18 ------------------------------------------------------------------------------------

def miri_jobs(tmp, secs):
    """8 interpreters on disjoint cases; each stops by itself after `secs`"""
    jobs = []
    for k in range(NCPU):
        level = ["tiny", "tiny", "big", "", "tiny", "big", "", ""][k % 8]
        jobs.append((k, level))
    env = {"CARGO_TARGET_DIR": os.path.join(TARGET, "miri"), "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "MINI_SECS": str(secs)}

    def go(j):
        k, level = j
        e = dict(env, MIRIFLAGS=MIRIFLAGS + " -Zmiri-seed=%d" % (SEED * 64 + k) + (" -Zmiri-tree-borrows" if k % 2 else ""))
        r = sh(["cargo", NIGHTLY, "miri", "run", "--offline", "--locked", "-q", "--", "miri", "--seed", str(SEED), "--from", str(k * 1000000), "--count", "1000000", "--level", level],
               secs * 3 + 400, env=e, out=os.path.join(tmp, "miri%d.log" % k))
        r.job, r.env = j, e
        return r
    with ThreadPoolExecutor(len(jobs)) as ex: return list(ex.map(go, jobs))


UB = re.compile(r"error: (Undefined Behavior|memory leaked|deadlock|the evaluated program leaked|.*Data race)[^\n]*")


def check_c18(tmp):
    exes = build_all(["checked", "release", "asan", "miri"])
    t_build = time.time() - START
    secs = SECS["C18"][1 if THOROUGH else 0]
    g = {"BABS_GUARD": "1"}
    mons = [Monitor("C18", "checked", exes["checked"], secs, NCPU // 2, 0, tmp, env=g), Monitor("C18", "release", exes["release"], secs, NCPU // 2, RELEASE_OFFSET, tmp, env=g)]
    with ThreadPoolExecutor(2) as ex: list(ex.map(Monitor.run, mons))
    asan = Monitor("C18", "asan", exes["asan"], secs, NCPU, 2 * RELEASE_OFFSET, tmp, mem_gb=None,
                   env={"ASAN_OPTIONS": "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:allocator_may_return_null=0:quarantine_size_mb=64:detect_stack_use_after_return=1"})
    asan.run()
    mons.append(asan)
    mirs = miri_jobs(tmp, 600 if THOROUGH else 75)
    recs, pending = {}, None
    for m in mons:
        if "ERROR: AddressSanitizer" in m.r.text:
            p = replay_file("C18", "asan", {"command": m.cmd, "env": m.env, "inflight": m.inflight(), "output": m.r.text[:20000]})
            raise Violation("AddressSanitizer: " + m.r.text[m.r.text.index("ERROR: AddressSanitizer"):][:1500], p)
        try:
            recs[m.name] = m.result()
        except NoVerdict as e: pending = pending or e
    for m in mons:
        rec = recs.get(m.name)
        if rec and rec["fails"]:
            un = confirm(m, rec)
            history_violation(m, rec, un)
        if rec and rec["canary_hits"] > 0:
            p = replay_file("C18", m.name + "-canary", {"command": m.cmd, "env": m.env, "canary_hits": rec["canary_hits"]})
            raise Violation("%s: %d blocks had damaged surroundings" % (m.name, rec["canary_hits"]), p)
    mini = collections.Counter()
    ops = collections.Counter()
    for r in mirs:
        m = UB.search(r.text)
        if m:
            case = re.findall(r"^case (\d+)", r.text, re.M)
            p = replay_file("C18", "miri", {"command": r.cmd, "env": {k: r.env[k] for k in ("MIRIFLAGS", "CARGO_TARGET_DIR")}, "case": case[-1:] , "output": r.text[m.start():][:12000]})
            raise Violation("Miri: %s\n%s" % (m.group(0), r.text[m.start():][:1500]), p)
        s = re.search(r"^MINI cases=(\d+) big=(\d+) threaded=(\d+) ops=(.*)$", r.text, re.M)
        if r.rc != 0 or not s: pending = pending or NoVerdict("Miri ended with %s\n%s" % (r.rc, r.text[-2500:])); continue
        for k, v in zip(("cases", "big", "threaded"), s.groups()): mini[k] += int(v)
        for x in s.group(4).split(","): k, v = x.rsplit(":", 1); ops[k] += int(v)
    if pending: raise pending
    if mini["cases"] < 100: raise NoVerdict("Miri executed only %d cases" % mini["cases"])
    if any(recs[n]["blocks_checked"] < 1000 for n in ("checked", "release")): raise NoVerdict("guarded allocator saw no blocks")
    cov = merge_cov("C18", recs, union_keys(exes["release"], [m.keys for m in mons]))
    cov["evaluations"] += mini["cases"]
    cov["guarded_blocks_checked"] = {n: recs[n]["blocks_checked"] for n in ("checked", "release")}
    cov["miri"] = {"interpreters": len(mirs), "cases": mini["cases"], "cases in which an algorithm for large numbers ran": mini["big"], "cases with two threads on shared operands": mini["threaded"],
                   "operations": dict(ops), "aliasing models": "stacked borrows and tree borrows", "leak check": "on"}
    cov["build_s"] = round(t_build, 1)
    if min(r["evals"] for r in recs.values()) < 3000: raise NoVerdict("too few evaluations")
    return cov


# --- C19 ------------------------------------------------------------------------------------

SUPER = {"mul", "mul2to1", "mul3to2", "mul8to1", "mul32to1", "square", "pow4", "div", "div4to1", "div3to2", "div12to1", "div32to1", "rem", "divrem", "rem_method", "to_decimal", "display"}
SUPER |= {"pow2", "pow3", "powlong"}
LINEAR = {"remsmall", "subsmall", "add", "addripple", "sub", "subcancel", "cmp", "shl", "shr", "shr1", "shlbig", "shrbig", "addsmall", "mulsmall", "divsmall", "parsehex", "hex", "parsedec"}
LINEAR |= {"mulshort", "divshort", "remshort", "divnear", "remnear", "divless", "addshort", "subshort", "cmpequal"}
KINDS8 = ["bin8", "dec8", "bin16", "dec16", "bin32", "dec32", "bin64", "dec64"]
# limits; the values measured on the unchanged tree are 2.5-3.3 (single step), <= 3.05 (mean of the last two),
# 1.1-2.2 (linear, mean), <= 3.2 bytes of peak per byte of operands and result
STEP_LIMIT, MEAN_LIMIT, LINEAR_MEAN, MEM_LIMIT, MEM_GROWTH, PATTERN_LIMIT = 3.85, 3.5, 2.75, 8.0, 1.5, 3.0
PERSISTENT = 3.2, 3.4
RESIDUES = {"mul", "mul2to1", "square", "div", "to_decimal", "display"}
PATTERNS = "random,max,power,halves,runs,low"
# operations written in another form than by reference (kind.rs: 0 both by value, 5 compound with a reference; 2 compound)
FORMS = "mul@0,mul@5,div@0,div@5,rem@0,rem@5,add@0,add@5,sub@0,sub@5,shl@0,shl@2,shr@0,shr@2,shlbig@2,shrbig@2,addsmall@2,mulsmall@2,divsmall@2,pow2,pow3,pow4@0"
LONG = "mul,square,div,to_decimal,display,add,sub,cmp,shl,shr,shr1,shlbig,shrbig,addripple,subcancel,mulsmall,divsmall,addsmall,parsehex,hex,parsedec,mulshort,divshort,divnear,remnear,powlong"


def ladder(exe, tmp, kind, tag, base, rungs, odd, ops="", patterns="random", limit=None):
    d = os.path.join(tmp, "cg-%s-%s" % (kind, tag))
    os.makedirs(d)
    cmd = [exe, "ladder", "--kinds", kind, "--seed", str(SEED), "--base", str(base), "--rungs", str(rungs), "--odd", str(odd), "--patterns", patterns] + (["--ops", ops] if ops else [])
    env = {"MALLOC_MMAP_THRESHOLD_": "1073741824", "MALLOC_TOP_PAD_": "67108864"}
    limit = limit or max(30, min(1500, 2500 - (time.time() - START))) if THOROUGH else limit or max(30, min(300, 700 - (time.time() - START)))
    r = sh(["valgrind", "--tool=callgrind", "--instr-atstart=no", "--callgrind-out-file=" + os.path.join(d, "cg")] + cmd, limit, env=env)
    done = not r.timed_out and r.rc == 0 and "LADDER DONE" in r.text
    if not done:
        # is it the library (stuck, or panicking)? the same calls without the counter, with a generous limit of processor time
        n = sh(cmd, 600, cpu=100, mem_gb=14, env=env)
        if n.rc != 0:
            p = replay_file("C19", "ladder-%s-%s" % (kind, tag), {"command": cmd, "rc": n.rc, "output": n.text[-5000:]})
            if n.rc == 101 or n.rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGXCPU): raise Violation("ladder of %s fails: %s" % (kind, n.text[-800:]), p)
        # too slow under the counter: what was measured so far is judged (the short lengths come first)
        if not r.timed_out: raise NoVerdict("callgrind run of %s/%s: rc %s\n%s" % (kind, tag, r.rc, r.text[-2000:]))
    work, mem = {}, {}
    for f in glob.glob(os.path.join(d, "cg.*")):
        lab = tot = None
        with open(f, errors="replace") as fh:
            for l in fh:
                if l.startswith("desc: Trigger: Client Request:"): lab = l.split(":", 3)[3].split()
                elif l.startswith("totals:"): tot = int(l.split()[1])
        if lab and tot is not None: work[lab[0], lab[1], int(lab[2]), lab[3]] = tot
    for m in re.finditer(r"^MEM (\S+) (\S+) (\d+) (\S+) peak=(-?\d+) operands=(\d+) result=(\d+)$", r.text, re.M):
        k, o, n, p = m.group(1), m.group(2), int(m.group(3)), m.group(4)
        mem[k, o, n, p] = (int(m.group(5)), int(m.group(6)) + int(m.group(7)))
    if not done:
        both = set(work) & set(mem)
        work, mem = {k: work[k] for k in both}, {k: mem[k] for k in both}
    if set(work) != set(mem) or not work: raise NoVerdict("callgrind dumps and measurements do not match (%d, %d)" % (len(work), len(mem)))
    shutil.rmtree(d)
    return work, mem


def per_doubling(ns, w):
    """work per doubling, corrected for ladders whose lengths are not exact doubles"""
    return [(b / a) ** (math.log(2) / math.log(m / n)) for a, b, n, m in zip(w, w[1:], ns, ns[1:])]


def persistent(steps):
    """Growth as of a quadratic algorithm in the last two steps (a single steep step may be a change of algorithm)"""
    return len(steps) > 1 and min(steps[-2:]) > PERSISTENT[0] and (steps[-1] * steps[-2]) ** 0.5 > PERSISTENT[1]


def extend_ladders(exe, tmp, suspect):
    """A single steep step is where another algorithm takes over, or where a bad one begins: go on for two more doublings
    and look whether it stays. What cannot be continued in the time there is is taken for a violation."""
    def go(item):
        name, detail, (kind, tag, op, n, odd), ns, w, judge = item
        limit = int(min(240, (2800 if THOROUGH else 740) - (time.time() - START)))
        if limit < 40: return name, detail, True
        try: work, _ = ladder(exe, tmp, kind, "%s-%s-on" % (tag, op), n, 2 if tag == "long" else 3, odd, op, limit=limit)
        except NoVerdict: return name, detail, True
        more = sorted((k[2], v) for k, v in work.items())
        if len(more) < (2 if tag == "long" else 3): return name, detail + ", too slow to be continued", True
        steps = per_doubling(ns[:-1] + [k for k, _ in more], w[:-1] + [v for _, v in more])
        detail = "work per doubling of the length: %s at %s digits" % (["%.2f" % x for x in steps], ns[:-1] + [k for k, _ in more])
        return name, detail, judge(steps if tag == "long" else steps[1:])
    seen = []
    for i in range(0, len(suspect), NCPU):
        with ThreadPoolExecutor(NCPU) as ex: out = list(ex.map(go, suspect[i:i + NCPU]))
        seen += ["%s: %s" % x[:2] for x in out]
        bad = [x[:2] for x in out if x[2]]
        if bad: return bad, seen
    return [], seen


def check_c19(tmp):
    exe = build_all(["release"])["release"]
    t_build = time.time() - START
    jobs = []
    rungs = 7 if THOROUGH else 5
    base = 290 + SEED * 7 % 23
    most = SUPER - {"mul32to1", "div32to1", "powlong"} # (the very unbalanced ones are costly: one ladder, a rung shorter)
    for k in KINDS8: jobs.append((k, "long", 4700 + SEED % 7, 5 if THOROUGH else 4, 0, LONG, "random"))
    for k in KINDS8:
        jobs.append((k, "forms", base + 31, rungs - 1, 0, FORMS, "random"))
        jobs.append((k, "even", base, rungs, 0, "", "random"))
        jobs.append((k, "odd", base + 60, rungs - 1, 1, ",".join(sorted(most)), "random"))
        jobs.append((k, "patterns", 1100 + SEED % 5, 2 if THOROUGH else 1, 0, ",".join(sorted(most)), PATTERNS))
        # lengths with every remainder modulo 12: (12m)*2^i + c
        for c in range(12) if THOROUGH else [c for c in range(12) if (c + SEED + KINDS8.index(k)) % 4 == 0]:
            jobs.append((k, "rest%d" % c, 288 + SEED % 3 * 12, 5 if THOROUGH else 4, c, ",".join(sorted(RESIDUES)), "random"))
        if THOROUGH: jobs.append((k, "third", base * 5 // 4, rungs - 1, 7, "", "random"))
    with ThreadPoolExecutor(NCPU) as ex: res = list(ex.map(lambda j: (j, ladder(exe, tmp, *j)), jobs))
    cut = ["%s %s" % j[:2] for j, (w, _) in res if len({k[2] for k in w}) < j[3]]
    bad, suspect, calls, curves, samples, worst = [], [], 0, {}, [], collections.defaultdict(float)
    for (kind, tag, _base, _rungs, _odd, *_), (work, mem) in res:
        calls += len(work)
        ops = sorted({k[1] for k in work})
        for op in ops:
            ns = sorted({k[2] for k in work if k[1] == op})
            w = [work[kind, op, n, "random"] for n in ns]
            mr = [mem[kind, op, n, "random"][0] / max(1, mem[kind, op, n, "random"][1]) for n in ns]
            name = "%s %s %s" % (kind, op, tag)
            if any(x < 10 for x in w): raise NoVerdict("no work observed for " + name)
            curves[name] = {"digits": ns, "instructions": w, "peak bytes per byte": [round(x, 2) for x in mr]}
            if max(mr) > MEM_LIMIT or (len(ns) > 2 and mr[-1] > 2 and mr[-1] > mr[1] * MEM_GROWTH):
                bad.append((name, "peak memory per byte of operands and result: %s at %s digits" % (["%.2f" % x for x in mr], ns)))
            worst["memory"] = max(worst["memory"], max(mr))
            if tag == "patterns":
                for (k, o, n, p), v in work.items():
                    if o != op or p == "random": continue
                    f = v / work[k, o, n, "random"]
                    worst["pattern/random"] = max(worst["pattern/random"], f)
                    if f > PATTERN_LIMIT: bad.append((name, "operands of pattern %s take %.2f times the work of random ones at %d digits" % (p, f, n)))
                    pm = mem[k, o, n, p]
                    if pm[0] / max(1, pm[1]) > 2 * MEM_LIMIT: bad.append((name, "operands of pattern %s need %d bytes for %d" % (p, pm[0], pm[1])))
                continue
            family = op.split("@")[0]
            if family == "display" and kind.startswith("dec"): family = "cmp" # (no conversion is needed)
            if len(ns) < (2 if tag == "long" and family in SUPER else 3) or family not in SUPER | LINEAR: continue # (the decimal shifts are measured for memory only)
            ratios = per_doubling(ns, w)
            job = (kind, tag, op, _base << len(ns) - 1, _odd)
            if family in SUPER:
                tail = ratios if tag == "long" else ratios[1:]
                mean = (tail[-1] * tail[-2]) ** 0.5 if len(tail) > 1 else tail[-1]
                worst["superlinear step"] = max(worst["superlinear step"], max(tail))
                worst["superlinear mean"] = max(worst["superlinear mean"], mean)
                detail = "work per doubling of the length: %s at %s digits" % (["%.2f" % x for x in ratios], ns)
                if max(tail) > STEP_LIMIT or mean > MEAN_LIMIT: suspect.append((name, detail, job, ns, w, persistent))
            else:
                mean = (w[-1] / w[0]) ** (math.log(2) / math.log(ns[-1] / ns[0]))
                worst["linear mean"] = max(worst["linear mean"], mean)
                detail = "work per doubling of the length of a linear operation: %s at %s digits" % (["%.2f" % x for x in ratios], ns)
                if mean > LINEAR_MEAN: suspect.append((name, detail, job, ns, w, lambda t: len(t) > 1 and min(t[-2:]) > LINEAR_MEAN))
            if len(samples) < 10 and family in SUPER: samples.append("%s: %s digits -> %s instructions, per doubling %s" % (name, ns, w, ["%.2f" % x for x in ratios]))
    further = []
    if suspect and not bad: bad, further = extend_ladders(exe, tmp, suspect)
    bad = [{"class": b[0], "detail": b[1]} for b in bad]
    bad = split_known("C19", bad)
    if bad:
        p = replay_file("C19", "scaling", {"failures": bad, "curves": {b["class"]: curves.get(b["class"]) for b in bad}, "command": [exe, "ladder", "--base", str(base), "--rungs", str(rungs)],
                                           "note": "instruction counts are deterministic: re-run under valgrind --tool=callgrind --instr-atstart=no"})
        raise Violation("\n".join("%s: %s" % (b["class"], b["detail"]) for b in bad[:12]), p)
    if calls < MIN_EVALS["C19"]: raise NoVerdict("only %d calls measured" % calls)
    return {"evaluations": calls, "distinct_nontrivial": calls, "rule": RULES["C19"], "samples": samples, "worst_observed": {k: round(v, 3) for k, v in worst.items()},
            "limits": {"superlinear step": STEP_LIMIT, "superlinear mean of last two steps": MEAN_LIMIT, "linear mean": LINEAR_MEAN, "memory": MEM_LIMIT, "pattern/random": PATTERN_LIMIT},
            "ladders": len(curves), "ladders cut short": [n for n in cut], "ladders continued because of a single steep step": further, "curves": curves, "build_s": round(t_build, 1)}


def main():
    prop = sys.argv[1]
    if prop not in RULES: log("unknown property", prop); return 2
    tmp = tempfile.mkdtemp(prefix="babs-mon-")
    try:
        try:
            if prop == "C18": cov = check_c18(tmp)
            elif prop == "C19": cov = check_c19(tmp)
            else: cov = check_monitored(prop, tmp)
        except Violation as v:
            evidence(prop, {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULES[prop], "samples": [v.what[:3000]], "violation": v.what[:6000]}, 1)
            log(v.what)
            log("VIOLATION property=%s replay=%s" % (prop, v.replay))
            return 1
        except NoVerdict as e:
            log("NO VERDICT for %s: %s" % (prop, e))
            return 2
        evidence(prop, cov)
        log("%s held: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - START))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
