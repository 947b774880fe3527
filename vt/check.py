#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] : decide one property on /repo's current tree.
exit 0: held on everything explored; 1: VIOLATION (confirmed by a replay on the real code); 2: no answer."""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, BuildError

def spec_of(path):
    t = open(path).read()
    m = re.search(r"/\*SPEC(.*?)SPEC\*/", t, re.S)
    s = json.loads(m.group(1))
    s["file"] = path
    return s

def known():
    try:
        return json.load(open(VERIF + "/known_findings.json"))["findings"]
    except FileNotFoundError:
        return []

def lsym(eng, mod, e, o, out, budget, jobs):
    js = out + "/" + e + ".json"
    cmd = [eng, mod, "--out", js, "--time", str(budget), "--jobs", str(jobs), "--entry", e]
    for k in ("maxinst", "maxsched", "rlimit"):
        if k in o:
            cmd += ["--" + k, str(o[k])]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=budget * 1.5 + 60, errors="replace")
    except subprocess.TimeoutExpired:
        return {"entry": e, "incomplete": "engine time-out", "violated": False, "reach": [], "functions": [], "samples": [], "dead": True}
    if p.returncode or not os.path.exists(js):
        return {"entry": e, "incomplete": "engine failed: " + p.stdout[-500:], "violated": False, "reach": [], "functions": [], "samples": [], "dead": True}
    r = json.load(open(js, errors="replace"))
    r["opts"] = o
    return r

def native_entries(sp):
    return list(sp["entries"])

REPLAY_ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:exitcode=43:handle_abort=1:allocator_may_return_null=1:detect_odr_violation=0", TSAN_OPTIONS="exitcode=43:halt_on_error=1")

def validate(sp, rs, out, tier):
    """run solver-chosen inputs of explored paths on the native build: the encoding and the real code must agree"""
    good, bad = 0, []
    nat = lambda m: build.native(out, sp["file"], sp["libs"], sp.get("defs", []), tier, native_entries(sp), m)
    todo = []
    for e, o, r in rs:
        if o.get("novalidate") or r["violated"] or not r["samples"]:
            continue
        exe = nat("sched" if o.get("conc") else "address")
        for i, s in enumerate(r["samples"][:o.get("validate", 3)]):
            f = "%s/%s.%d.in" % (out, e, i)
            open(f, "w").write("\n".join(x.split("=")[-1] for x in s.split()) + "\n")
            todo.append((e, s, f, exe))
    def one(t):
        try:
            p = subprocess.run([t[3], t[2], t[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60, env=REPLAY_ENV, errors="replace")
            return p.returncode == 0 and "REPLAY-OK" in p.stdout, p.stdout[-1500:]
        except subprocess.TimeoutExpired:
            return False, "time-out"
    with cf.ThreadPoolExecutor(8) as ex:
        for t, (ok, txt) in zip(todo, ex.map(one, todo)):
            if ok:
                good += 1
            elif "REPLAY-SPURIOUS" not in txt:  # a spurious failure cannot be forced on the real instruction: the native run then differs
                bad.append("%s on %s: %s" % (t[0], t[1], txt))
    return good, bad

def replay(sp, r, out, tier, prop):
    """run the counterexample against the real code; -> (confirmed, text, path)"""
    d = VERIF + "/evidence/replay/%s_%s" % (prop, r["entry"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    inp = d + "/inputs.txt"
    open(inp, "w").write(r["inputs"])
    log = ["property %s entry %s" % (prop, r["entry"]), "solver: " + r["message"], "trail: " + r["trail"], "notes: " + r["trace"], "inputs:", r["inputs"]]
    ok = False
    entry = r["entry"]
    modes = ["sched"] if r["opts"].get("conc") else r["opts"].get("replay", ["address", ""])
    for san in modes:
        try:
            exe = build.native(out, sp["file"], sp["libs"], sp.get("defs", []), tier, native_entries(sp), san)
        except BuildError as e:
            log.append("native build (%s) failed: %s" % (san, e))
            continue
        tmo = r["opts"].get("replay_timeout", 20)
        try:
            p = subprocess.run([exe, inp, entry], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tmo, env=REPLAY_ENV, errors="replace")
            txt, rc = p.stdout, p.returncode
            if rc == 0 and "REPLAY-OK" in txt:
                log.append("replay (%s): did not reproduce" % (san or "plain"))
            elif rc == 0:
                log.append("replay (%s): ended early: %s" % (san or "plain", txt[-200:]))
            else:
                ok = True
                log.append("replay (%s): reproduced, exit %d\n%s" % (san or "plain", rc, txt[:3000]))
        except subprocess.TimeoutExpired:
            if "terminat" in r["message"] or "endless" in r["message"] or "dead" in r["message"]:
                ok = True
                log.append("replay (%s): does not terminate within %d s" % (san or "plain", tmo))
            else:
                ok = True
                log.append("replay (%s): hangs (%d s)" % (san or "plain", tmo))
        if ok:
            shutil.copy(exe, d + "/replay")
            break
    open(d + "/report.txt", "w").write("\n".join(log) + "\n")
    return ok, "\n".join(log), d

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, 1 if a.tier == "thorough" else 0
    specs = [spec_of(f) for f in sorted(glob.glob(VERIF + "/harness/%s[_.]*cpp" % prop))]
    out = tempfile.mkdtemp(prefix="lsym_%s_" % prop)
    rc, viol, results, problems, lines = 0, [], [], [], []
    replayed = 0
    try:
        eng = build.engine()
        known_f = [k for k in known() if k["property"] == prop]
        work = []
        for n, sp in enumerate(specs):
            for e, o in sp["entries"].items():
                if a.entry and e != a.entry:
                    continue
                if o.get("thorough") and not tier:
                    continue
                work.append((n, sp, e, o))
        mods = {}
        for n in sorted({w[0] for w in work}):
            d = "%s/m%d" % (out, n)
            os.makedirs(d)
            mods[n] = (d, build.bitcode(d, specs[n]["file"], specs[n]["libs"], specs[n].get("defs", []), tier))
        tb = time.time() - t0
        par = min(8, max(1, len(work)))
        jobs = max(1, 8 // par)
        def one(w):
            n, sp, e, o = w
            budget = o.get("time_thorough", 600) if tier else o.get("time", 90)
            return w, lsym(eng, mods[n][1], e, o, mods[n][0], budget, o.get("jobs", jobs))
        with cf.ThreadPoolExecutor(par) as ex:
            res = list(ex.map(one, work))
        for (n, sp, e, o), r in res:
            results.append((sp, e, o, r))
            if a.v:
                print("%s: paths %s done %s queries %s solver %.1fs wall %.1fs reach %s viol %s %s incomplete '%s'" % (e, r.get("paths"), r.get("paths_completed"), r.get("queries"), r.get("solver_s", 0), r.get("wall_s", 0), r["reach"], r["violated"], r.get("message", ""), r["incomplete"]))
                if r["violated"]:
                    print("   inputs:", r["inputs"].replace("\n", " | "), "\n   trail:", r["trail"][:600], "\n   notes:", r["trace"])
            if r["violated"]:
                okr, txt, d = replay(sp, r, mods[n][0], tier, prop)
                replayed += 1
                kf = [k for k in known_f if k["entry"] == e and k["message"] in r["message"]]
                if kf:
                    lines.append("KNOWN-FINDING: property=%s %s" % (prop, kf[0]["what"]))
                elif okr:
                    lines.append("VIOLATION property=%s replay=%s" % (prop, d))
                    print("  %s: %s\n  inputs: %s" % (e, r["message"], r["inputs"].replace("\n", "; ")))
                    viol.append({"property": prop, "entry": e, "message": r["message"], "inputs": r["inputs"], "replay": d})
                else:
                    problems.append("%s: solver counterexample (%s) did not reproduce natively, see %s" % (e, r["message"], d))
                continue
            miss = [t for t in o.get("reach", []) if t not in r["reach"]]
            if r.get("dead"):
                problems.append("%s: %s" % (e, r["incomplete"]))
            elif miss:
                problems.append("%s: vacuous: never reached %s (%s)" % (e, miss, r["incomplete"]))
        for n in sorted({w[0] for w in work}):
            if not viol:
                g, bad = validate(specs[n], [(e, o, r) for (m, _, e, o), r in res if m == n], mods[n][0], tier)
                replayed += g
                for b in bad:
                    problems.append("native run disagrees with the encoding: " + b)
        rc = 1 if viol else (2 if problems else 0)
        evidence(prop, tier, results, viol, problems, specs, time.time() - t0, tb, replayed)
    except BuildError as e:
        print("BUILD FAILED", str(e)[-3000:])
        rc = 2
    finally:
        if a.keep:
            print("kept", out)
        else:
            shutil.rmtree(out, ignore_errors=True)
    for l in lines:
        print(l)
    for p in problems:
        print("INCONCLUSIVE", p)
    print("%s %s: %s, %.1f s" % (prop, a.tier, {0: "held on everything explored", 1: "violated", 2: "no answer"}[rc], time.time() - t0))
    sys.exit(rc)

def evidence(prop, tier, results, viol, problems, specs, wall, tb, replayed):
    man = {}
    try:
        for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]:
            man[c["property"]] = c
    except Exception:
        pass
    level = man.get(prop, {}).get("level", "model_checking")
    S = lambda k: sum(r.get(k, 0) or 0 for _, _, _, r in results)
    fns = sorted({f for _, _, _, r in results for f in r["functions"] if "copp" in f or "cotask" in f})
    samples = []
    for _, e, _, r in results:
        for s in r["samples"][:2]:
            samples.append("%s: %s" % (e, s or "(no symbolic input on this path)"))
    ent = {}
    for _, e, o, r in results:
        ent[e] = {"paths": r.get("paths"), "completed": r.get("paths_completed"), "queries": r.get("queries"), "unsat": r.get("unsat"), "sat": r.get("sat"), "solver_s": r.get("solver_s"), "wall_s": r.get("wall_s"),
                  "assertions": r.get("assertions"), "decided_by_solver": r.get("assertions_solver"), "reached": r["reach"], "complete_within_bounds": not r["incomplete"], "incomplete": r["incomplete"], "violated": r["violated"]}
        for k in ("bound", "what"):
            if k in o:
                ent[e][k] = o[k]
        if "conc" in r:
            ent[e]["concurrency"] = r["conc"]
    cov = {"states": max(1, S("paths")), "transitions": max(1, S("instructions")), "traces_validated_against_impl": replayed,
           "samples": samples[:24] or ["none"],
           "explanation": "states = symbolic paths (each covers all input values satisfying its path condition), transitions = LLVM IR instructions executed symbolically; validated traces = solver-chosen inputs of explored paths (and counterexamples, if any) executed natively on the real code in this run, with the same verdict",
           "functions_encoded": fns, "functions_encoded_count": len(fns), "queries": S("queries"), "queries_unsat": S("unsat"), "queries_sat": S("sat"), "queries_unknown": S("unknown"), "solver_s": round(S("solver_s"), 3),
           "assertions_checked": S("assertions"), "assertions_needing_solver": S("assertions_solver"), "entries": ent,
           "bounds": [s.get("bounds", "") for s in specs], "complete_within_bounds": all(not r["incomplete"] for _, _, _, r in results), "encode_s": round(tb, 2), "problems": problems}
    ev = {"property": prop, "tier": "thorough" if tier else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
          "assumptions": sorted({x for s in specs for x in s.get("assumptions", [])} | {"clang 18 -O1 lowering of the sources to LLVM IR; the native build uses gcc", "the symbolic executor engine/lsym and Z3 4.8.12 are trusted", "x86-64, malloc/mmap return disjoint blocks; the context-switch assembly is modelled as an atomic switch (decided separately by F01/F02)"}),
          "wall_s": round(wall, 2), "violations": len(viol)}
    if viol:
        cov["violation_details"] = viol
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)

main()
