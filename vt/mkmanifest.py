#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the harnesses present"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(V + "/vt/not_applicable.json")) if os.path.exists(V + "/vt/not_applicable.json") else {}
NOTE = json.load(open(V + "/vt/level_notes.json")) if os.path.exists(V + "/vt/level_notes.json") else {}
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    hs = glob.glob(V + "/harness/%s[_.]*" % i)
    if i in NA or not hs:
        na.append({"property": i, "reason": NA.get(i, "no check is claimed for this property")})
        continue
    conc = any('"conc"' in open(h).read() for h in hs)
    asm = any(h.endswith(".py") for h in hs)
    tech = ("symbolic execution of the assembled x86-64 instructions to Z3 bit-vector queries" if asm else
            "symbolic execution of the clang LLVM IR of the repository's sources; assertions decided by Z3 (bit-vectors) for all inputs within bounds; counterexamples replayed natively")
    if conc:
        tech += "; thread schedules, stale values allowed by the C++ memory model and spurious failures of weak operations are symbolic choices of the same exploration (preemption-bounded), vector clocks decide data races; a counterexample schedule is replayed on real threads"
    cmd = "python3 harness/%s.py" % i if asm else "python3 vt/check.py " + i
    checks.append({"property": i, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough", "evidence_file": "evidence/%s.json" % i,
                   "technique": tech, "level": "model_checking", "level_note": NOTE.get(i, "bounded: holds for every value of the symbolic inputs within the bounds stated in the evidence; nothing is claimed beyond them")})
m = {"version": 1, "setup_cmd": "make -C engine", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the encoding from /repo's working tree. Exit 0 held, 1 violation (replayed natively), 2 no answer. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
