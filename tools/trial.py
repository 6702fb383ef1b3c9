#!/usr/bin/env python3
"""Tries planted changes out in a scratch copy of the library (never in /repo).

usage: trial.py valid DIR...            the change builds, the stable tests pass, the demonstration tells it apart
       trial.py check DIR [PROPERTY...]  runs the quick checks (default: the property of the change) against the copy
       trial.py quiet PATCH [PROPERTY..] runs the quick checks against the copy with PATCH, reports those that are not quiet
"""
import json, os, re, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, cwd, env=None, timeout=1800, **k):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def copy(tmp):
    repo = os.path.join(tmp, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", repo)
    return repo


def stable(repo):
    t = os.path.join(os.path.dirname(repo), "ttarget")
    r = run(["cargo", "test", "--workspace", "--no-fail-fast", "--offline", "--", "--test-threads", "4"], repo, {"CARGO_TARGET_DIR": t, "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_INCREMENTAL": "0"})
    log = os.path.join(os.path.dirname(repo), "test.log"); out = log + ".json"
    open(log, "w").write(r.stdout)
    subprocess.run(["python3", "/opt/vp/results.py", out, "cargo:" + log], stdout=subprocess.DEVNULL)
    passed = set(json.load(open(out))["passed"])
    return sorted(STABLE - passed)


def valid(d, tmp):
    repo = copy(tmp)
    r0 = run(["bash", os.path.join(d, "demo.sh")], repo, timeout=400)
    if r0.returncode: return "demo fails on the clean tree: %d %s" % (r0.returncode, r0.stdout[-400:])
    r = run(["git", "apply", os.path.join(d, "patch.diff")], repo)
    if r.returncode: return "patch does not apply: " + r.stdout
    bad = stable(repo)
    if bad: return "tests fail: %s" % bad[:5]
    r1 = run(["bash", os.path.join(d, "demo.sh")], repo, timeout=400)
    if r1.returncode == 0: return "demo passes with the change: %s" % r1.stdout[-300:]
    if r1.returncode == 3: return "does not build: %s" % r1.stdout[-1500:]
    return "VALID (%s)" % r1.stdout.strip().replace("\n", " | ")[-160:]


def check(repo, tmp, props):
    h = os.path.join(tmp, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), h, ignore=shutil.ignore_patterns("target"))
    t = open(h + "/Cargo.toml").read().replace('path = "/repo"', 'path = "%s"' % repo)
    open(h + "/Cargo.toml", "w").write(t)
    res = []
    for p in props:
        r = run(["python3", os.path.join(VERIF, "bin/check.py"), p], VERIF,
                {"BABS_HARNESS": h, "BABS_TARGET": tmp + "/target", "BABS_EVIDENCE": tmp + "/ev", "BABS_REPLAYS": tmp + "/rep"})
        v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        detail = ""
        if v:
            m = re.search(r"replay=(\S+)", v[0])
            try: detail = json.dumps(json.load(open(m.group(1))).get("detail", ""))[:200]
            except Exception: detail = " ".join(r.stdout.splitlines()[-4:])[:260]
        elif r.returncode: detail = r.stdout[-400:]
        res.append((p, r.returncode, bool(v), detail))
    return res


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    base = os.environ.get("TRIAL_TMP", "/tmp")
    if mode == "valid":
        for d in args:
            tmp = tempfile.mkdtemp(prefix="trial-", dir=base)
            try: print(os.path.basename(d.rstrip("/")), valid(os.path.abspath(d), tmp), flush=True)
            finally: shutil.rmtree(tmp, ignore_errors=True)
    else:
        tmp = tempfile.mkdtemp(prefix="trial-", dir=base)
        try:
            repo = copy(tmp)
            patch = args[0] if mode == "quiet" else os.path.join(args[0], "patch.diff")
            r = run(["git", "apply", os.path.abspath(patch)], repo)
            if r.returncode: print(args[0], "does not apply", r.stdout); return
            props = args[1:] or ([json.load(open(os.path.join(args[0], "meta.json")))["property"]] if mode == "check" else ["C%02d" % i for i in range(1, 20)])
            for p, rc, v, detail in check(repo, tmp, props):
                word = ("CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "NO VERDICT") if mode == "check" else ("quiet" if rc == 0 and not v else "ALARM" if rc == 1 else "NO VERDICT")
                print(os.path.basename(args[0].rstrip("/")), p, word, rc, detail, flush=True)
        finally: shutil.rmtree(tmp, ignore_errors=True)


main()
