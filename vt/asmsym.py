"""Symbolic execution of the assembled x86-64 context-switch code with Z3 bit-vectors."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from z3 import *
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TEXT = {"jump": 0x10000000, "make": 0x20000000, "ontop": 0x30000000}
EXIT = 0x7fff0000
R64 = ["rax", "rbx", "rcx", "rdx", "rsi", "rdi", "rbp", "rsp", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
SUB = {}
for r in R64[:8]:
    SUB["e" + r[1:]] = r
for r in R64[8:]:
    SUB[r + "d"] = r
CALLEE = ["rbx", "rbp", "r12", "r13", "r14", "r15"]

class Unsupported(Exception):
    pass

def bv(x):
    return BitVecVal(x & (2**64 - 1), 64)

class Code:
    """instructions of the three object files, at fixed disjoint addresses"""
    def __init__(self, tsx, out):
        self.ins, self.sym, self.order = {}, {}, []
        for f, base in TEXT.items():
            src = "%s/src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % (REPO, f)
            o = "%s/%s%d.o" % (out, f, tsx)
            subprocess.run(["gcc", "-x", "assembler-with-cpp"] + (["-DLIBCOPP_FCONTEXT_USE_TSX=1"] if tsx else []) + ["-I" + REPO + "/include", "-I" + out + "/gen", "-c", src, "-o", o], check=True)
            rel = {}
            for l in subprocess.run(["objdump", "-r", "-j", ".text", o], stdout=subprocess.PIPE, text=True).stdout.splitlines():
                m = re.match(r"([0-9a-f]+)\s+(R_\S+)\s+(\S+)", l)
                if m:
                    rel[int(m.group(1), 16)] = m.group(3)
            lines = subprocess.run(["objdump", "-d", "--no-show-raw-insn", "-j", ".text", o], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()
            addrs = []
            for l in lines:
                m = re.match(r"([0-9a-f]+) <(.+)>:", l)
                if m:
                    self.sym.setdefault(m.group(2), base + int(m.group(1), 16))
                m = re.match(r"\s+([0-9a-f]+):\s*(.*)", l)
                if m:
                    t = re.sub(r"#.*", "", m.group(2)).strip()
                    t = re.sub(r"<.*>", "", t).strip()
                    addrs.append((int(m.group(1), 16), t))
            for i, (a, t) in enumerate(addrs):
                nx = addrs[i + 1][0] if i + 1 < len(addrs) else a + 16
                rl = [s for k, s in rel.items() if a <= k < nx]
                self.ins[base + a] = (t, base + nx, rl[0] if rl else None, base)

class Mem:
    """initial bytes (an SMT array that is never stored to) under a log of byte stores; address comparisons are
    decided syntactically where possible, then by the solver, and become if-then-else terms otherwise"""
    def __init__(self, name, prover=None):
        self.init, self.log, self.p = Array(name, BitVecSort(64), BitVecSort(8)), [], prover
    def copy(self):
        m = Mem("x", self.p)
        m.init, m.log = self.init, list(self.log)
        return m
    def byte(self, a):
        conds = []
        for sa, v in reversed(self.log):
            d = simplify(a - sa)
            if is_bv_value(d):
                if d.as_long() == 0:
                    r = v
                    break
                continue
            if self.p is not None and self.p.apart(a, sa, d):
                continue
            conds.append((a == sa, v))
        else:
            r = Select(self.init, a)
        for c, v in reversed(conds):
            r = If(c, v, r)
        return r

class M:
    """machine state"""
    def __init__(self, name, prover=None):
        self.r = {r: BitVec(name + "_" + r, 64) for r in R64}
        self.mxcsr, self.fcw = BitVec(name + "_mxcsr", 32), BitVec(name + "_fcw", 16)
        self.mem = Mem(name + "_mem", prover)
        self.writes = []       # (address, size)
        self.trail = []

def ld(mem, a, n):
    return simplify(Concat([mem.byte(simplify(a + bv(i))) for i in reversed(range(n))])) if n > 1 else mem.byte(simplify(a))

def st(m, a, v, n):
    for i in range(n):
        m.mem.log.append((simplify(a + bv(i)), simplify(Extract(8 * i + 7, 8 * i, v))))
    m.writes.append((a, n))

def ea(m, s, nx):
    g = re.match(r"(-?(?:0x)?[0-9a-f]*)\(%?(\w*)(?:,%?(\w+)(?:,(\d))?)?\)$", s)
    if not g:
        raise Unsupported("operand " + s)
    d = int(g.group(1), 0) if g.group(1) else 0
    b = bv(nx) if g.group(2) == "rip" else (m.r[g.group(2)] if g.group(2) else bv(0))
    if g.group(3):
        b = b + m.r[g.group(3)] * bv(int(g.group(4) or 1))
    return simplify(b + bv(d))

def rd(m, s, nx):
    if s.startswith("$"):
        return bv(int(s[1:], 0))
    if s.startswith("%"):
        r = s[1:]
        if r in m.r:
            return m.r[r]
        if r in SUB:
            return ZeroExt(32, Extract(31, 0, m.r[SUB[r]]))
        raise Unsupported("register " + s)
    return ld(m.mem, ea(m, s, nx), 8)

def wr(m, s, v, nx):
    if s.startswith("%"):
        r = s[1:]
        if r in m.r:
            m.r[r] = simplify(v)
        elif r in SUB:
            m.r[SUB[r]] = simplify(ZeroExt(32, Extract(31, 0, v)))
        else:
            raise Unsupported("register " + s)
    else:
        st(m, ea(m, s, nx), v, 8)

def run(code, m, pc, limit=200, hint=None):
    """execute until control leaves to an address that is not in the code; -> (kind, target expression)"""
    n = 0
    while True:
        n += 1
        if n > limit:
            raise Unsupported("no end of the code")
        if pc not in code.ins:
            return ("goto", bv(pc))
        t, nx, rel, base = code.ins[pc]
        m.trail.append(t)
        parts = t.split(None, 1)
        op, args = parts[0], (parts[1] if len(parts) > 1 else "")
        a = [x.strip() for x in re.findall(r"[^,(]*\([^)]*\)|[^,]+", args)] if args else []
        if op == "notrack" or op == "bnd":
            op, _, rest = args.partition(" ")
            a = [rest.strip()]
        if op in ("endbr64", "nop", "nopw", "nopl", "data16", "cs", "xchg") and (op != "xchg" or a == ["%ax", "%ax"]):
            pass
        elif op in ("mov", "movq"):
            wr(m, a[1], rd(m, a[0], nx), nx)
        elif op == "movl" or (op == "mov" and a and a[-1][1:] in SUB):
            wr(m, a[1], rd(m, a[0], nx), nx)
        elif op in ("lea", "leaq"):
            wr(m, a[1], ea(m, a[0], nx), nx)
        elif op in ("push", "pushq"):
            v = rd(m, a[0], nx)
            m.r["rsp"] = simplify(m.r["rsp"] - bv(8))
            st(m, m.r["rsp"], v, 8)
        elif op in ("pop", "popq"):
            v = ld(m.mem, m.r["rsp"], 8)
            m.r["rsp"] = simplify(m.r["rsp"] + bv(8))
            wr(m, a[0], v, nx)
        elif op in ("add", "addq", "sub", "subq", "and", "andq", "or", "orq", "xor", "xorq"):
            x, y = rd(m, a[1], nx), rd(m, a[0], nx)
            o = op[:3] if op[:2] != "or" else "or"
            wr(m, a[1], {"add": x + y, "sub": x - y, "and": x & y, "or": x | y, "xor": x ^ y}[o], nx)
        elif op in ("inc", "dec"):
            wr(m, a[0], rd(m, a[0], nx) + bv(1 if op == "inc" else -1), nx)
        elif op in ("shr", "shl", "sar"):
            k, d = (a[0], a[1]) if len(a) == 2 else ("$1", a[0])
            x, y = rd(m, d, nx), rd(m, k, nx)
            wr(m, d, {"shr": LShR(x, y), "shl": x << y, "sar": x >> y}[op], nx)
        elif op == "xchg":
            x, y = rd(m, a[0], nx), rd(m, a[1], nx)
            wr(m, a[0], y, nx)
            wr(m, a[1], x, nx)
        elif op == "stmxcsr":
            st(m, ea(m, a[0], nx), m.mxcsr, 4)
        elif op == "ldmxcsr":
            m.mxcsr = ld(m.mem, ea(m, a[0], nx), 4)
        elif op in ("fnstcw", "fstcw"):
            st(m, ea(m, a[0], nx), m.fcw, 2)
        elif op == "fldcw":
            m.fcw = ld(m.mem, ea(m, a[0], nx), 2)
        elif op in ("jmp", "call", "jmpq", "callq"):
            if a[0].startswith("*"):
                tgt = rd(m, a[0][1:], nx)
            elif rel:
                tgt = bv(EXIT) if "_exit" in rel else None
                if tgt is None:
                    raise Unsupported("relocation " + rel)
            else:
                tgt = bv(base + int(a[0], 16))
            if op.startswith("call"):
                if rel and "_exit" in rel:
                    return ("exit", m.r["rsp"])
                m.r["rsp"] = simplify(m.r["rsp"] - bv(8))
                st(m, m.r["rsp"], bv(nx), 8)
            tgt = simplify(tgt)
            if hint:
                h = hint(tgt)
                if h is not None:
                    pc = h
                    continue
            if is_bv_value(tgt) and tgt.as_long() in code.ins:
                pc = tgt.as_long()
                continue
            return ("goto", tgt)
        elif op in ("ret", "retq"):
            tgt = ld(m.mem, m.r["rsp"], 8)
            m.r["rsp"] = simplify(m.r["rsp"] + bv(8))
            return ("goto", tgt)
        elif op == "hlt":
            return ("hlt", None)
        else:
            raise Unsupported("instruction " + t)
        pc = nx

class Prover:
    def __init__(self):
        self.assume, self.q, self.unsat, self.t, self.fail, self.names = [], 0, 0, 0.0, None, []
        self.ap = {}
    def apart(self, a, b, d):
        """do the assumptions entail a != b?  asked once per pair of bases, for a window of offsets, then singly"""
        def base(e):
            if is_app(e) and e.decl().kind() == Z3_OP_BADD:
                k = [c for c in e.children() if not is_bv_value(c)]
                return k[0] if len(k) == 1 else (sum(k[1:], k[0]) if k else bv(0))
            return e
        ba, bb = base(a), base(b)
        key = (ba.get_id(), bb.get_id(), len(self.assume))
        if key not in self.ap:
            o1, o2 = BitVec("apart1", 64), BitVec("apart2", 64)
            self.ap[key] = (ba, bb, self.ask(And(o1 + bv(0x120) <= bv(0x168), o1 + bv(0x120) >= 0, o2 + bv(0x120) <= bv(0x168), o2 + bv(0x120) >= 0, ba + o1 == bb + o2)) == unsat)
        w = [simplify(x - y + bv(0x120)) for x, y in ((a, ba), (b, bb))]
        if self.ap[key][2] and all(is_bv_value(x) and x.as_long() <= 0x168 for x in w):
            return True
        k2 = (d.get_id(), len(self.assume))
        if k2 not in self.ap:
            self.ap[k2] = (d, self.ask(d == 0) == unsat)
        return self.ap[k2][1]
    def ask(self, c):
        s = SolverFor("QF_AUFBV")
        s.set("timeout", 60000)
        s.add(self.assume + [c])
        t = time.time()
        r = s.check()
        self.t += time.time() - t
        self.q += 1
        return r
    def add(self, *c):
        self.assume += list(c)
    def prove(self, what, claim):
        if self.fail:
            return
        s = SolverFor("QF_AUFBV")
        s.set("timeout", 120000)
        s.add(self.assume + [Not(claim)])
        t = time.time()
        r = s.check()
        self.t += time.time() - t
        self.q += 1
        self.names.append(what)
        if r == unsat:
            self.unsat += 1
        elif r == sat:
            self.fail = (what, s.model())
        else:
            raise Unsupported("solver: unknown for " + what)
    def consistent(self):
        s = SolverFor("QF_AUFBV")
        s.add(self.assume)
        self.q += 1
        return s.check() == sat

def entails(p, e):
    """the single concrete value of e under the assumptions, if there is one"""
    s = SolverFor("QF_AUFBV")
    s.add(p.assume)
    p.q += 1
    if s.check() != sat:
        return None
    v = s.model().eval(e, True)
    s.add(e != v)
    p.q += 1
    return v.as_long() if s.check() == unsat else None

def finish(prop, tier, scen, t0, replay):
    """scen: list of (name, prover, trail) ; writes evidence, prints the verdict, exits"""
    bad = [(n, p) for n, p, _ in scen if p.fail]
    rc, lines, replayed, probs = 0, [], 0, []
    for n, p in bad:
        what, model = p.fail
        d = "%s/evidence/replay/%s_%s" % (VERIF, prop, re.sub(r"\W", "_", n))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        ok, txt = replay(n, what, model, d)
        open(d + "/report.txt", "w").write("%s: %s\nmodel: %s\n%s\n" % (n, what, model, txt))
        replayed += 1
        if ok:
            lines.append("VIOLATION property=%s replay=%s" % (prop, d))
            print("  %s: %s" % (n, what))
            rc = 1
        else:
            probs.append("%s: %s: not reproduced natively" % (n, what))
    if not lines and probs:
        rc = 2
    ok, txt = (True, "")
    if not bad:
        ok, txt = replay("all", "", None, tempfile.mkdtemp(prefix="asmsym_"))
        replayed += 1
        if not ok:
            probs.append("native run disagrees with the encoding: " + txt[-500:])
            rc = 2
    ninst = sum(len(t) for _, _, t in scen)
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "wall_s": round(time.time() - t0, 2), "violations": len(lines),
          "coverage": {"states": len(scen), "transitions": ninst, "traces_validated_against_impl": replayed, "samples": ["%s: %s" % (n, " ; ".join(t)) for n, _, t in scen][:6],
                       "explanation": "states = symbolic executions of assembled code (one path each, all register/memory values symbolic); transitions = machine instructions executed symbolically",
                       "queries": sum(p.q for _, p, _ in scen), "queries_unsat": sum(p.unsat for _, p, _ in scen), "solver_s": round(sum(p.t for _, p, _ in scen), 3),
                       "functions_encoded": ["copp_jump_fcontext_v2", "copp_make_fcontext_v2 (with trampoline and finish)", "copp_ontop_fcontext_v2"], "claims": sorted({c for _, p, _ in scen for c in p.names}),
                       "bounds": "no loops in the encoded code: every register, control word and memory byte is an unconstrained bit-vector; suspended stacks do not overlap and do not wrap the address space", "problems": probs},
          "assumptions": ["objdump decodes the assembled bytes correctly", "x86-64 semantics of the ~25 instructions in vt/asmsym.py", "other code run between suspension and resumption leaves the suspended side's stack (from the handle upwards) alone"]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for l in lines:
        print(l)
    for x in probs:
        print("INCONCLUSIVE", x)
    print("%s: %d scenarios, %d queries, %.1f s" % (prop, len(scen), sum(p.q for _, p, _ in scen), time.time() - t0))
    sys.exit(rc)
