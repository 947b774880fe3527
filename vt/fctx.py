import argparse, os, subprocess, sys, tempfile, time, shutil
from asmsym import *
import build

def disjoint(lo1, hi1, lo2, hi2):
    return Or(UGE(lo1, hi2), UGE(lo2, hi1))

def stack_ok(p, sp, below=0x400, above=0x400):
    p.add(UGE(sp, bv(0x100000)), ULE(sp, bv(2**47)))

def check_writes(p, m, lo, hi, what):
    for i, (a, n) in enumerate(m.writes):
        p.prove("%s: every store lies below the suspended stack pointer and near it" % what, And(UGE(a, lo), ULE(a + bv(n), hi)))

def keep(dst, src, lo, hi):
    """dst: unknown memory, except that the bytes of src stored at [lo, hi) are still there"""
    top = simplify(hi - lo)
    n = top.as_long() if is_bv_value(top) else 0x60
    for j in range(min(n, 0x400)):
        a = simplify(lo + bv(j))
        v = src.byte(a)
        if not is_bv_value(top):
            v = simplify(If(ULT(a, hi), v, Select(dst.init, a)))
        dst.log.append((a, v))

def suspend(code, p, name, how, to):
    """machine `name` calls jump/ontop; -> state after, inputs"""
    m = M(name, p)
    i = {r: m.r[r] for r in R64}
    i["mxcsr"], i["fcw"] = m.mxcsr, m.fcw
    sp = i["rsp"]
    stack_ok(p, sp)
    p.add(sp & bv(15) == bv(8))                 # ABI: at function entry
    if to is not None:
        p.add(i["rdi"] == to)
    i["ra"] = ld(m.mem, sp, 8) if to is None else None
    return m, i

def roundtrip(code, tsx, how1, how2):
    """A suspends with how1; later B switches to A's handle with how2"""
    p = Prover()
    A, a = suspend(code, p, "A", how1, None)
    T = a["rdi"]
    stack_ok(p, T)
    p.add(disjoint(T, T + bv(0x100), a["rsp"] - bv(0x400), a["rsp"] + bv(0x400)))   # target context lives elsewhere
    k, tgt = run(code, A, code.sym["copp_%s_fcontext_v2" % how1])
    h = A.r["rdi"]
    p.prove("the handle given to the target lies on the suspended stack", And(ULE(h, a["rsp"]), UGE(h, a["rsp"] - bv(0x200))))
    p.prove("fresh and suspended targets get the same handle", A.r["rax"] == h)
    p.prove("data reaches the target unchanged", And(A.r["rdx"] == a["rsi"], A.r["rsi"] == a["rsi"]))
    check_writes(p, A, a["rsp"] - bv(0x200), a["rsp"], "suspending")
    # arbitrary code runs elsewhere; A's stack from the handle upwards is untouched
    B, b = suspend(code, p, "B", how2, h)
    keep(B.mem, A.mem, h, a["rsp"] + bv(8))
    p.add(disjoint(b["rsp"] - bv(0x400), b["rsp"] + bv(0x100), h, a["rsp"] + bv(0x100)))
    k, tgt = run(code, B, code.sym["copp_%s_fcontext_v2" % how2])
    for r in CALLEE:
        p.prove("register %s is restored" % r, B.r[r] == a[r])
    if how2 == "jump":
        p.prove("control returns to the suspended caller", tgt == a["ra"])
        p.prove("stack pointer is restored", B.r["rsp"] == a["rsp"] + bv(8))
    else:
        p.prove("control enters the on-top function", tgt == b["rdx"])
        p.prove("on-top function sees the suspended stack", And(B.r["rsp"] == a["rsp"], ld(B.mem, B.r["rsp"], 8) == a["ra"]))
    p.prove("the resumed side gets the data", And(B.r["rdx"] == b["rsi"], B.r["rsi"] == b["rsi"]))
    p.prove("the resumed side gets a handle of the resumer", And(B.r["rax"] == B.r["rdi"], ULE(B.r["rax"], b["rsp"]), UGE(B.r["rax"], b["rsp"] - bv(0x200))))
    check_writes(p, B, b["rsp"] - bv(0x200), b["rsp"], "resuming")
    if tsx:
        p.prove("control words are left alone", And(B.mxcsr == b["mxcsr"], B.fcw == b["fcw"]))
    else:
        p.prove("MXCSR is restored", B.mxcsr == a["mxcsr"])
        p.prove("x87 control word is restored", B.fcw == a["fcw"])
    if not p.fail and not p.consistent():
        raise Unsupported("vacuous")
    return p, A.trail + B.trail

def fresh(code, tsx):
    """make a context, then jump to it"""
    p = Prover()
    A = M("A", p)
    a = {r: A.r[r] for r in R64}
    a["mxcsr"], a["fcw"] = A.mxcsr, A.fcw
    sp, fn, S = a["rdi"], a["rdx"], a["rsp"]
    stack_ok(p, sp)
    stack_ok(p, S)
    p.add(S & bv(15) == bv(8), disjoint(sp - bv(0x400), sp, S - bv(0x400), S + bv(0x100)), UGE(fn, bv(0x40000000)), ULE(fn, bv(0x7ffe0000)))
    ra = ld(A.mem, S, 8)
    k, tgt = run(code, A, code.sym["copp_make_fcontext_v2"])
    h = A.r["rax"]
    p.prove("creation returns to its caller", And(tgt == ra, A.r["rsp"] == S + bv(8)))
    for r in CALLEE:
        p.prove("creation preserves %s" % r, A.r[r] == a[r])
    p.prove("creation leaves the control words alone", And(A.mxcsr == a["mxcsr"], A.fcw == a["fcw"]))
    for w, n in A.writes:
        p.prove("creation stores only into the 0x48+15 bytes below the stack top, or its own stack", Or(And(UGE(w, sp - bv(0x57)), ULE(w + bv(n), sp)), And(UGE(w, S - bv(0x200)), ULE(w + bv(n), S))))
    p.prove("handle lies within the stack", And(UGE(h, sp - bv(0x57)), ULT(h, sp)))
    B, b = suspend(code, p, "B", "jump", h)
    keep(B.mem, A.mem, h, sp)
    p.add(disjoint(b["rsp"] - bv(0x400), b["rsp"] + bv(0x100), sp - bv(0x400), sp))
    def hint(t):
        v = entails(p, t)
        return v if v is not None and v in code.ins else None
    k, tgt = run(code, B, code.sym["copp_jump_fcontext_v2"], hint=hint)
    p.prove("control reaches the entry function", tgt == fn)
    p.prove("entry function receives the handle of its starter", And(ULE(B.r["rdi"], b["rsp"]), UGE(B.r["rdi"], b["rsp"] - bv(0x200))))
    p.prove("entry function receives the data", B.r["rsi"] == b["rsi"])
    p.prove("stack pointer is ABI aligned at entry", (B.r["rsp"] + bv(8)) & bv(15) == bv(0))
    p.prove("stack pointer is within the given stack", And(ULT(B.r["rsp"], sp), UGE(B.r["rsp"], sp - bv(0x57))))
    for w, n in B.writes:
        p.prove("entering stores only on the two stacks", Or(And(UGE(w, sp - bv(0x400)), ULE(w + bv(n), sp)), And(UGE(w, b["rsp"] - bv(0x200)), ULE(w + bv(n), b["rsp"]))))
    if tsx:
        p.prove("control words are left alone", And(B.mxcsr == b["mxcsr"], B.fcw == b["fcw"]))
    else:
        p.prove("creator's control words are in force", And(B.mxcsr == a["mxcsr"], B.fcw == a["fcw"]))
    # the entry function returns
    n0 = len(B.trail)
    if not p.fail:
        ret = entails(p, ld(B.mem, B.r["rsp"], 8))
        if ret is None or ret not in code.ins:
            p.prove("returning from the entry function reaches known code", BoolVal(False))
        else:
            C = M("C", p)
            C.r["rsp"] = B.r["rsp"] + bv(8)
            C.mem = B.mem
            k, v = run(code, C, ret)
            p.prove("returning from the entry function ends the process", BoolVal(k in ("exit", "hlt")))
            if k == "exit":
                p.prove("exit status is zero and the stack is aligned at that call", And(Extract(31, 0, C.r["rdi"]) == 0, v & bv(15) == bv(0)))
            B.trail += C.trail
    if not p.fail and not p.consistent():
        raise Unsupported("vacuous")
    return p, A.trail + B.trail

def main(prop):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    tier = ap.parse_args().tier
    t0 = time.time()
    out = tempfile.mkdtemp(prefix="fctx_")
    try:
        build.features(out)
        scen = []
        try:
            for tsx in (1, 0):
                code = Code(tsx, out)
                if prop == "F01":
                    for h1 in ("jump", "ontop"):
                        for h2 in ("jump", "ontop"):
                            p, t = roundtrip(code, tsx, h1, h2)
                            scen.append(("%s-%s tsx=%d" % (h1, h2, tsx), p, t))
                else:
                    p, t = fresh(code, tsx)
                    scen.append(("make-jump tsx=%d" % tsx, p, t))
        except Unsupported as e:
            print("INCONCLUSIVE", e)
            sys.exit(2)
        def replay(name, what, model, d):
            txt, allok = "", True
            vals = []
            if model is not None:
                ev = lambda n, w: model.eval(BitVec(n, w), True).as_long()
                vals = [hex(ev("A_" + r, 64)) for r in CALLEE] + [hex(ev("A_rsi", 64)), hex(ev("A_mxcsr", 32)), hex(ev("A_fcw", 16)), hex((-ev("A_rdi", 64)) & 63)]
            dflt = ["0x1234567800000001", "0x1234567800000002", "0x1234567800000003", "0x1234567800000004", "0x1234567800000005", "0x1234567800000006", "0x77", "0x2000", "0x400", "0"]
            for tsx in (1, 0):
                if model is not None and "tsx=%d" % tsx not in name:
                    continue
                exe = "%s/fctx%d" % (d, tsx)
                r = subprocess.run(["gcc", "-w", "-O1", "-no-pie", "-x", "c", build.VERIF + "/harness/fctx_replay.c", "-x", "assembler-with-cpp"] + (["-DLIBCOPP_FCONTEXT_USE_TSX=1"] if tsx else []) + ["-I" + REPO + "/include", "-I" + out + "/gen"] + ["%s/src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % (REPO, f) for f in TEXT] + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    txt += r.stdout
                    allok = False
                    continue
                tries = [vals, dflt] + [dflt[:9] + [str(o)] for o in (8, 1, 24)] if model is not None else [dflt] + [dflt[:9] + [str(o)] for o in (8, 1, 24)]
                for v in tries:
                    q = subprocess.run([exe] + v + [str(tsx)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    txt += "tsx=%d %s -> %d %s\n" % (tsx, " ".join(v), q.returncode, q.stdout)
                    if q.returncode:
                        allok = False
            if model is None:
                shutil.rmtree(d, ignore_errors=True)
                return allok, txt
            return not allok, txt
        finish(prop, tier, scen, t0, replay)
    finally:
        shutil.rmtree(out, ignore_errors=True)
