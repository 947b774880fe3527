"""Compile the repository's current sources: to LLVM bitcode for the symbolic run, natively for replays."""
import glob, os, re, subprocess, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RT = VERIF + "/rt"

class BuildError(Exception):
    pass

def run(cmd, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout

def engine():
    e = VERIF + "/engine/build/lsym"
    src = glob.glob(VERIF + "/engine/*.cpp") + glob.glob(VERIF + "/engine/*.inc") + glob.glob(VERIF + "/engine/*.h")
    if not os.path.exists(e) or any(os.path.getmtime(s) > os.path.getmtime(e) for s in src):
        run(["make", "-C", VERIF + "/engine"])
    return e

def features(out):
    """libcopp_build_features.h from the project's template, with the options of the project's default build"""
    top = open(REPO + "/CMakeLists.txt").read()
    m = re.search(r'VERSION "([0-9]+)\.([0-9]+)\.([0-9]+)"', top)
    maj, minr, pat = m.groups() if m else ("2", "2", "0")
    v = {"LIBCOPP_VERSION_MAJOR": maj, "LIBCOPP_VERSION_MINOR": minr, "LIBCOPP_VERSION_PATCH": pat if pat != "0" else "",
         "LIBCOPP_VERSION": ".".join((maj, minr, pat)), "LIBCOPP_API_LEVEL": str(1000 * int(maj) + int(minr))}
    v["LIBCOPP_ABI_TAG"] = "v" + v["LIBCOPP_API_LEVEL"]
    for k in ("LIBCOPP_MACRO_SYS_POSIX", "LIBCOPP_FCONTEXT_USE_TSX", "LIBCOTASK_MACRO_ENABLED", "LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER",
              "THREAD_TLS_USE_PTHREAD", "LIBCOPP_MACRO_ENABLE_STD_COROUTINE", "LIBCOPP_MACRO_ENABLE_EXCEPTION",
              "LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR", "LIBCOPP_MACRO_ENABLE_RTTI", "LIBCOPP_MACRO_ENABLE_STD_SPAN"):
        v[k] = "1"
    txt = open(REPO + "/include/libcopp/utils/config/libcopp_build_features.h.in").read()
    def define(mm):
        name, rest = mm.group(2), mm.group(3)
        if mm.group(1):
            return "#define %s %s" % (name, "1" if v.get(name) not in (None, "", "0") else "0")
        if v.get(name) in (None, "", "0"):
            return "/* #undef %s */" % name
        return "#define %s%s" % (name, rest)
    txt = re.sub(r"^[ \t]*#[ \t]*cmakedefine(01)?[ \t]+(\w+)(.*)$", define, txt, flags=re.M)
    txt = re.sub(r"@(\w+)@", lambda mm: v.get(mm.group(1), ""), txt)
    d = out + "/gen/libcopp/utils/config"
    os.makedirs(d, exist_ok=True)
    open(d + "/libcopp_build_features.h", "w").write(txt)
    return out + "/gen"

def sources(libs):
    r = []
    if "copp" in libs:
        for pat in ("coroutine/*.cpp", "utils/*.cpp", "stack/*.cpp"):
            r += sorted(glob.glob(REPO + "/src/libcopp/" + pat))
        r += [REPO + "/src/libcopp/stack/" + f for f in ("allocator/stack_allocator_memory.cpp", "allocator/stack_allocator_malloc.cpp",
              "allocator/stack_allocator_posix.cpp", "stack_traits/stack_traits_posix.cpp")]
    if "cotask" in libs:
        r += sorted(glob.glob(REPO + "/src/libcotask/**/*.cpp", recursive=True))
    return [s for s in r if os.path.exists(s)]

def incs(gen):
    return ["-I" + REPO + "/include", "-I" + gen, "-I" + RT]

COMMON = ["-std=c++20", "-DNDEBUG", "-DLIBCOPP_API_COPP_NATIVE=1", "-DLIBCOPP_API_COTASK_NATIVE=1", "-DLIBCOPP_FCONTEXT_USE_TSX=1", "-w",
          "-include", RT + "/shim.h", "-D_GLIBCXX_TSAN=1", "-fno-access-control"]

CLANG = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

def bitcode(out, harness, libs, defs, tier):
    """-> path of the linked module"""
    gen = features(out)
    fl = [CLANG, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-g0", "-emit-llvm", "-c"] + COMMON + incs(gen) + ["-DTIER=%d" % tier, "-DLSYM=1"] + defs
    jobs, objs = [], []
    for s in [harness, RT + "/rt.cpp"] + sources(libs):
        o = out + "/" + re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".bc"
        objs.append(o)
        jobs.append(fl + [s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    mod = out + "/mod.bc"
    run(["llvm-link-18", "-o", mod] + objs)
    return mod

ASM = ["jump", "make", "ontop"]

def native(out, harness, libs, defs, tier, entries, sanitize):
    """-> executable running any of the harness's entries on recorded inputs"""
    d = out + "/nat_" + (sanitize or "plain").replace(",", "_")
    exe = d + "/replay"
    if os.path.exists(exe):
        return exe
    gen = features(out)
    os.makedirs(d, exist_ok=True)
    sched = sanitize == "sched"  # recorded schedules on real threads: thread-sanitizer instrumentation with the hooks of rt/replay_conc.inc
    san = ["-fsanitize=" + sanitize] if sanitize and not sched else []
    if sanitize == "address" and "copp" in libs:
        san += ["--param", "asan-stack=0"]  # address sanitizer cannot follow exceptions over switched stacks
    fl = ["g++", "-O1", "-g", "-fno-omit-frame-pointer", "-c"] + COMMON + incs(gen) + ["-DTIER=%d" % tier] + defs + san
    if sched:
        fl = [CLANG, "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-omit-frame-pointer", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-c"] + COMMON + incs(gen) + ["-DTIER=%d" % tier] + defs
    tab = d + "/table.cpp"
    open(tab, "w").write("extern \"C\" {\n" + "".join("void %s();\n" % e for e in entries) + "struct Entry { const char* name; void (*fn)(); };\nextern const Entry replay_entries[];\nconst Entry replay_entries[] = {" + "".join('{"%s", %s}, ' % (e, e) for e in entries) + "{nullptr, nullptr}};\n}\n")
    jobs, objs = [], []
    for s in [harness] + sources(libs) + ([RT + "/rt_std.cpp"] if sched else []):
        o = d + "/" + re.sub(r"\W", "_", os.path.relpath(s, "/")) + ".o"
        objs.append(o)
        jobs.append(fl + [s, "-o", o])
    for s in (RT + "/replay.cpp", tab):
        o = d + "/" + os.path.basename(s) + ".o"
        objs.append(o)
        jobs.append(["g++", "-O1", "-g", "-c", "-std=c++20", "-w"] + (["-DREPLAY_CONC"] if sched else []) + san + [s, "-o", o])
    for a in ASM:
        s = REPO + "/src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % a
        o = d + "/%s.o" % a
        objs.append(o)
        jobs.append(["gcc", "-x", "assembler-with-cpp", "-DLIBCOPP_FCONTEXT_USE_TSX=1", "-I" + REPO + "/include", "-I" + gen, "-c", s, "-o", o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    wrap = ["make"] + (["jump"] if sched else [])
    run(["g++", "-o", exe] + objs + san + [("-Wl,--wrap=copp_%s_fcontext_v2" if "copp" in libs else "-Wl,--defsym=__real_copp_%s_fcontext_v2=copp_%s_fcontext_v2").replace("%s", w) for w in wrap] + (["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free"] if sched else []) + ["-Wl,--wrap=time", "-lpthread"])
    return exe
