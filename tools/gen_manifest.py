#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
REF = "runtime monitor: every executed operation checked online against reference arithmetic, in a build with all checks and an optimised build"
T = {
 "C05": "runtime monitor: q*d+r=n, r<d and canonical form checked online on every executed division (exactly or modulo two primes of 61 and 64 bits), two builds",
 "C06": "runtime monitor: every division by zero observed for its error or panic and for an unchanged dividend, two builds",
 "C10": "runtime monitor: comparison and equality results checked against the reference order, incl. order axioms on triples, two builds",
 "C11": "runtime monitor: acceptance and value of every parsed string checked against a reference grammar and evaluator, two builds",
 "C12": "runtime monitor: printed text checked against reference digits run through the standard library's integer formatting, and read back, two builds",
 "C14": "differential runtime monitor: the same computation in all eight digit types, results compared by value",
 "C15": "differential runtime monitor: all forms of an operation on common operands, results, panics and operands compared",
 "C16": "runtime monitor for panics, crashes and hangs, and offline comparison of result digests recorded by a checked, an optimised and an unoptimised build",
 "C17": "history monitor: recorded outcomes replayed in other orders, on fresh and on concurrent threads and compared; identities along in-place updates",
 "C18": "sanitizers: AddressSanitizer build, Miri (two aliasing models, two-thread cases), guarded counting allocator with canaries and fill patterns",
 "C19": "monitor of executed instructions (callgrind around single calls) and allocated bytes along ladders of operand lengths",
}
NOTE = "Held on the executions observed (counted in the evidence, with sizes and paths reached); trusts the harness's reference arithmetic, which setup compares with Python's integers. Says nothing about inputs the generators do not reach."
N = {
 "C18": "Held on the executions observed under each tool. Miri sees small operands only (up to about 130 digits); AddressSanitizer and the guarded allocator see all sizes but not every kind of undefined behaviour.",
 "C19": "Instruction counts are deterministic; growth is judged from measured ladders (300 to about 5000 digits quick, 20000 thorough), so a change of complexity beyond the ladder, or within the stated slack, is not seen.",
}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks: everything is observed at the public interface, by the allocator, by sanitizers and by the interpreter. Tier and seed are taken from VERIF_TIER and VERIF_SEED."}
for p in props:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py %s" % i,
        "technique": T.get(i, REF), "level": "exploration", "level_note": N.get(i, NOTE)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
