// lsym: a symbolic executor for LLVM-18 bitcode, deciding assertions with Z3.
// It executes the compiler's IR of the real sources; inputs created with sym_*() become SMT variables.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/MapVector.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <atomic>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <string>
#include <unordered_map>
#include <vector>
#include "conc_core.h"

using namespace llvm;
typedef uint64_t u64;
typedef uint8_t u8;
typedef uint32_t u32;

static double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- Z3
static Z3_context Z;
static Z3_solver S;
static u64 g_queries = 0, g_sat = 0, g_unsat = 0, g_unknown = 0;
static double g_solver_time = 0; static bool g_fall = true; static Z3_params g_fallParams = nullptr; static u64 g_fallbacks = 0;
static Z3_sort BV(unsigned w) { static std::map<unsigned, Z3_sort> m; auto it = m.find(w); if (it != m.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); return m[w] = s; }
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(Z, a); return a; }

// ---------------------------------------------------------------- values
struct Val;
typedef std::vector<Val> Agg;
static const u32 WAGG = 0xffffu;
struct Val {
  u64 v; Z3_ast s; u32 w;
  Val() : v(0), s(nullptr), w(0) {}
  Val(u64 x, u32 width) : v(width >= 64 ? x : (x & ((1ull << width) - 1))), s(nullptr), w(width) {}
  bool sym() const { return s != nullptr; }
  bool agg() const { return w == WAGG; }
  Agg& a() const { return *reinterpret_cast<Agg*>(v); }
};
static Val mkAgg(Agg&& x) { Val r; r.w = WAGG; r.v = (u64) new Agg(std::move(x)); return r; }
static u64 maskw(u64 x, u32 w) { return w >= 64 ? x : (x & ((1ull << w) - 1)); }
static int64_t sext64(u64 x, u32 w) { if (w >= 64) return (int64_t)x; u64 m = 1ull << (w - 1); x = maskw(x, w); return (int64_t)((x ^ m) - m); }
static Z3_ast bvnum(u64 x, u32 w) {
  if (w <= 64) return keep(Z3_mk_unsigned_int64(Z, maskw(x, w), BV(w)));
  return keep(Z3_mk_unsigned_int64(Z, x, BV(w)));
}
static Z3_ast toast(const Val& v) { if (v.s) return v.s; return bvnum(v.v, v.w); }
static Val fromast(Z3_ast a, u32 w) {  // simplified
  Z3_ast s = keep(Z3_simplify(Z, keep(a)));
  Val r; r.w = w;
  if (w <= 64 && Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST) { u64 x = 0; if (Z3_get_numeral_uint64(Z, s, &x)) { r.v = x; return r; } }
  r.s = s; return r;
}
static Z3_ast zbool(Z3_ast a) { return keep(a); }
static Z3_ast tobool(const Val& v) { Z3_ast one = bvnum(1, 1); return keep(Z3_simplify(Z, zbool(Z3_mk_eq(Z, toast(v), one)))); }
static Val frombool(Z3_ast c) { return fromast(Z3_mk_ite(Z, c, bvnum(1, 1), bvnum(0, 1)), 1); }

// ---------------------------------------------------------------- objects
enum OKind : u8 { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWARR, K_MMAP, K_EXC, K_EXTERN };
static const char* okname[] = {"global", "stack", "malloc", "new", "new[]", "mmap", "exception", "extern"};
struct SB { Z3_ast a; u8 idx; u8 n; };
struct Obj {
  int rc = 0;
  u64 base = 0, size = 0;
  OKind kind = K_GLOBAL;
  bool alive = true, ro = false;
  bool symsized = false; Z3_ast szs = nullptr; Z3_ast arr = nullptr; // array mode
  u32 prot = 3;
  std::vector<u8> data;      // concrete bytes
  std::vector<u8> st;        // 0 uninit 1 concrete 2 symbolic
  std::vector<SB> sb;        // only if any symbolic
  const char* tag = "";
};
struct ObjRef {
  Obj* p; ObjRef() : p(nullptr) {} ObjRef(Obj* q) : p(q) { if (p) p->rc++; }
  ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
  ObjRef& operator=(const ObjRef& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  ~ObjRef() { drop(); }
};
static const int CH = 64;
struct Chunk { int rc = 0; ObjRef o[CH]; };
struct ChunkRef {
  Chunk* p; ChunkRef() : p(nullptr) {} ChunkRef(Chunk* q) : p(q) { if (p) p->rc++; }
  ChunkRef(const ChunkRef& o) : p(o.p) { if (p) p->rc++; }
  ChunkRef& operator=(const ChunkRef& o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
  void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
  ~ChunkRef() { drop(); }
};
// address layout: normal object id i lives at ASLOT0 + (i << 24)
static const u64 ASLOT0 = 0x100000000ull; static const int ASH = 24;
static const u64 FUNC0 = 0x10000000ull;
static const u64 SYMREG0 = 1ull << 56; static const int SYMSH = 50;  // symbolic-size regions
static const u64 CTX0 = 0x7f0000000000ull;

// ---------------------------------------------------------------- compiled functions
struct Opnd { int slot; Val c; };
struct GepIdx { Opnd o; u64 scale; u32 w; };
struct Ins {
  Instruction* I; unsigned opc; int dst; u32 w; u32 w2; u64 extra;
  SmallVector<Opnd, 3> ops;
  std::vector<GepIdx> gidx;
  Function* callee = nullptr; int intr = 0; int model = -1;
  int succ[2] = {-1, -1};
  Type* ty = nullptr; u32 align = 1;
};
struct BBInfo { std::vector<Ins> ins; int nphi = 0; std::vector<std::vector<std::pair<int, Opnd>>> phis; std::vector<int> phidst; BasicBlock* bb; };
struct FnInfo { Function* F; int nslots = 0; std::vector<BBInfo> bbs; DenseMap<BasicBlock*, int> bbidx; u64 hits = 0; bool nounwind = false; u32 hid = 0;};
struct Frame {
  FnInfo* f; int bb = 0, ip = 0; std::vector<Val> regs; std::vector<u32> allocas;
  std::vector<Val> varargs; u8 marker = 0; // marker 1: ontop return; 2: dtor callback (no result)
};
// the event recorded for concurrency extraction
struct Cont { int rc = 0; std::vector<Frame> fr; u32 stackObj = 0; u64 lo = 0, hi = 0; bool dead = false, fresh = false; Function* entry = nullptr; u64 handle = 0; };
struct ExcInfo { u64 tinfo; u64 dtor; int refs; int handlers; bool inflight; };
struct SymW { Z3_ast idx; u64 n; Val v; bool fill; };
struct SymReg { Z3_ast size; OKind kind; bool alive; std::vector<SymW> log; Z3_ast protHi; u64 protLo; bool hasProt; const char* tag; };
struct SymVar { std::string name; Z3_ast a; u32 w; };

struct Conc;
struct StateB {
  std::vector<ChunkRef> mem; u32 nobj = 0;
  std::map<u64, SymReg> sregs; u32 nsymreg = 0;
  std::vector<Frame> fr;      // running continuation
  int cur = 0;                // continuation id
  std::vector<Cont> conts;    // all (cur one has empty fr)
  std::map<u64, int> handles; // handle -> cont id
  std::map<u32, int> symhandles;
  u64 nhandles = 0;
  std::map<u64, ExcInfo> excs; std::vector<u64> caught;
  std::vector<Z3_ast> pc; std::vector<SymVar> vars;
  std::vector<std::pair<int,u64>> inputs; // index var or concrete
  Z3_model model = nullptr;
  u64 ninst = 0; u64 nsched = 0; u32 depth = 0; u32 heapLive = 0; u32 mapLive = 0;
  std::map<u32, u64> opts;
  std::vector<u64> log;
  std::vector<std::string> trace;
  int entryFn = 0;
  std::map<u64, u32> freshSeq;
  std::vector<std::pair<u64,u64>> guards; std::set<std::tuple<void*, void*, u64, u64>> apart; std::vector<std::tuple<Z3_ast, Z3_ast, u64>> inb;
};
// one thread of a multi-threaded run; index n holds the main thread while it waits
struct CMsg { Val v; CCVC rel; int tid; u32 clk; };
struct CLoc { u32 bytes = 0; std::vector<CMsg> ms; int seen[CC_N] = {}; };
struct CThr { std::vector<Frame> fr; int cur = 0, base = 0; std::vector<u64> caught; bool done = false, waiting = false, atPoint = false; u32 idle = 0; CCVC vc, relF, acqP; };
struct Conc {
  int n = 0, me = -1, preempt = 0, stale = 0, spurious = 0; bool granted = false, needSched = false, noTrack = false; std::vector<CThr> t; CThr mainT; CCVC sc;
  std::map<u64, CLoc> loc; std::map<u64, CCSh> sh; std::map<std::pair<u64, int>, u64> tls; Val pend, pend2; u32 points = 0, switches = 0, stuck = 0; int last = 0;
};
struct State : StateB {
  std::unique_ptr<Conc> cc;   // set while threads run
  State() {}
  State(const State& o) : StateB(o) { if (o.cc) cc.reset(new Conc(*o.cc)); }
};

static Module* M; static const DataLayout* DL;
static std::unordered_map<Function*, FnInfo*> fns;
static std::vector<Function*> funcByIdx; static std::unordered_map<Function*, u64> funcAddr;
static std::unordered_map<const GlobalVariable*, u64> gaddr;
static std::map<std::string, int> modelIdx;
static State* cur = nullptr;
static std::vector<State*> work;
static bool g_verbose = false;

struct Result {
  u64 paths = 0, paths_done = 0, insts = 0, asserts = 0, asserts_conc = 0, asserts_solver = 0, forks = 0, killed = 0, depthMax = 0;
  std::set<std::string> reach; std::set<std::string> fnsHit;
  std::vector<std::string> samples;
  bool violated = false; std::string vmsg, vinputs, vtrace, vtrail; std::string incomplete; std::string unsupported;
} R;
static double g_deadline = 0; static u64 g_maxinst = 3000000; static u64 g_maxsched = 3000; static double g_t0;
struct PathEnd {};  // thrown to end a path
static bool g_stop = false;
static std::string g_focus;

static std::string cleanName(Function* F) { return llvm::demangle(F->getName().str()); }
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((u8)c < 32) r += ' '; else r += c; } return r; }

// ---------------------------------------------------------------- solver
static std::vector<Z3_ast> g_stk;
static int check_with(const std::vector<Z3_ast>& pc, Z3_ast extra, Z3_model* out) {
  size_t k = 0; while (k < g_stk.size() && k < pc.size() && g_stk[k] == pc[k]) k++;
  if (g_stk.size() > k) { Z3_solver_pop(Z, S, g_stk.size() - k); g_stk.resize(k); }
  for (; k < pc.size(); k++) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, pc[k]); g_stk.push_back(pc[k]); }
  double t = now_s(); int r;
  if (extra) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, extra); }
  Z3_lbool b = Z3_solver_check(Z, S); g_queries++;
  if (b == Z3_L_UNDEF && g_fall) {  // too hard for the incremental core: bit-blast from scratch
    static Z3_tactic tac = nullptr; if (!tac) { tac = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, tac); }
    Z3_solver f = Z3_mk_solver_from_tactic(Z, tac); Z3_solver_inc_ref(Z, f); if (g_fallParams) Z3_solver_set_params(Z, f, g_fallParams);
    for (auto x : pc) Z3_solver_assert(Z, f, x); if (extra) Z3_solver_assert(Z, f, extra);
    b = Z3_solver_check(Z, f); g_fallbacks++;
    if (b == Z3_L_TRUE) { g_sat++; if (out) { Z3_model m = Z3_solver_get_model(Z, f); Z3_model_inc_ref(Z, m); *out = m; } } else if (b == Z3_L_FALSE) g_unsat++; else g_unknown++;
    Z3_solver_dec_ref(Z, f); if (extra) Z3_solver_pop(Z, S, 1); g_solver_time += now_s() - t; if (g_verbose && now_s() - t > 0.05) fprintf(stderr, "SLOWF %.2f %d %s\n", now_s() - t, (int)b, extra ? Z3_ast_to_string(Z, extra) : ""); return b == Z3_L_TRUE ? 1 : b == Z3_L_FALSE ? 0 : -1;
  }
  if (b == Z3_L_TRUE) { g_sat++; r = 1; if (out) { Z3_model m = Z3_solver_get_model(Z, S); Z3_model_inc_ref(Z, m); *out = m; } }
  else if (b == Z3_L_FALSE) { g_unsat++; r = 0; } else { g_unknown++; r = -1; }
  if (extra) Z3_solver_pop(Z, S, 1);
  g_solver_time += now_s() - t; if (g_verbose && now_s() - t > 0.05) fprintf(stderr, "SLOW %.2f %d %s\n", now_s() - t, r, extra ? Z3_ast_to_string(Z, extra) : "");
  return r;
}
static bool evalModel(Z3_model m, Z3_ast a, u64& out) {
  Z3_ast r; if (!Z3_model_eval(Z, m, a, true, &r)) return false; keep(r);
  if (Z3_get_ast_kind(Z, r) == Z3_NUMERAL_AST) return Z3_get_numeral_uint64(Z, r, &out);
  Z3_lbool b = Z3_get_bool_value(Z, r); if (b == Z3_L_UNDEF) return false; out = (b == Z3_L_TRUE); return true;
}
static void unsupported(const std::string& m);
static void incomplete(const std::string& m) { if (R.incomplete.empty()) R.incomplete = m; }
// is cond feasible under the state's pc (cond: Z3 bool)?
static bool feasible(State& st, Z3_ast c, Z3_model* out = nullptr) {
  if (st.model && !out) { u64 x; if (evalModel(st.model, c, x) && x) return true; }
  Z3_model m = nullptr; int r = check_with(st.pc, c, &m);
  if (r < 0) { incomplete("solver returned unknown"); return true; }
  if (r == 1) { if (!st.model) st.model = m; if (out) *out = m; }
  return r == 1;
}
static void addPc(State& st, Z3_ast c) {
  Z3_lbool b = Z3_get_bool_value(Z, c); if (b == Z3_L_TRUE) return;
  st.pc.push_back(c);
  if (st.model) { u64 x; if (!(evalModel(st.model, c, x) && x)) st.model = nullptr; }
}
static Z3_ast zand(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_and(Z, 2, x)); }
static Z3_ast zor(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return keep(Z3_mk_or(Z, 2, x)); }
static Z3_ast znot(Z3_ast a) { return keep(Z3_mk_not(Z, a)); }

// ---------------------------------------------------------------- violation
static void dumpTrail(State& st, std::string& out) {
  for (auto it = st.fr.rbegin(); it != st.fr.rend(); ++it) { out += cleanName(it->f->F); out += " <- "; if (out.size() > 3000) break; }
}
[[noreturn]] static void violation(State& st, const std::string& msg, Z3_ast extra = nullptr) {
  Z3_model m = nullptr; int r = check_with(st.pc, extra, &m);
  if (r == 0) throw PathEnd();  // not actually reachable
  if (r < 0) { incomplete("solver unknown while confirming a violation"); throw PathEnd(); }
  if (g_verbose) { for (auto a : st.pc) fprintf(stderr, "PC %s\n", Z3_ast_to_string(Z, a)); if (extra) fprintf(stderr, "EXTRA %s\n", Z3_ast_to_string(Z, extra)); }
  R.violated = true; R.vmsg = msg; std::string in;
  for (auto& p : st.inputs) {
    u64 x = p.second; if (p.first >= 0) { x = 0; evalModel(m, st.vars[p.first].a, x); }
    in += std::to_string(x) + (p.first >= 0 ? " # " + st.vars[p.first].name : "") + "\n";
  }
  R.vinputs = in; for (auto& t : st.trace) R.vtrace += t + "; ";
  dumpTrail(st, R.vtrail);
  g_stop = true; throw PathEnd();
}
static void unsupported(const std::string& m) {
  std::string tr; if (cur) dumpTrail(*cur, tr);
  if (R.unsupported.empty()) R.unsupported = m + " @ " + tr; incomplete("unsupported: " + m + " @ " + tr); throw PathEnd();
}

// ---------------------------------------------------------------- memory
static void ccAccess(State& st, u64 addr, u64 n, int kind);
static Obj* newObj(State& st, u64 size, OKind k, u32 off, u64* baseOut, u32* idOut = nullptr) {
  u32 nslot = 1 + (u32)((size + off + 0x10000) >> ASH);
  u32 id = st.nobj; st.nobj += nslot;
  while (st.mem.size() * CH < st.nobj) st.mem.push_back(ChunkRef(new Chunk()));
  Obj* o = new Obj(); o->base = ASLOT0 + ((u64)id << ASH) + off; o->size = size; o->kind = k; o->data.resize(size); o->st.assign(size, 0);
  ChunkRef& c = st.mem[id / CH]; if (c.p->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < CH; i++) n->o[i] = c.p->o[i]; c = ChunkRef(n); }
  c.p->o[id % CH] = ObjRef(o);
  for (u32 j = 1; j < nslot; j++) { ChunkRef& d = st.mem[(id + j) / CH]; if (d.p->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < CH; i++) n->o[i] = d.p->o[i]; d = ChunkRef(n); } }
  // continuation slots resolve to the first through a scan back (see find)
  *baseOut = o->base; if (idOut) *idOut = id; return o;
}
static Obj* getObj(State& st, u32 id) { if (id >= st.nobj) return nullptr; return st.mem[id / CH].p->o[id % CH].p; }
static Obj* wrObj(State& st, u32 id) {
  ChunkRef& c = st.mem[id / CH]; if (c.p->rc > 1) { Chunk* n = new Chunk(); for (int i = 0; i < CH; i++) n->o[i] = c.p->o[i]; c = ChunkRef(n); }
  ObjRef& r = c.p->o[id % CH]; if (r.p->rc > 1) { Obj* n = new Obj(*r.p); n->rc = 0; r = ObjRef(n); }
  return r.p;
}
static bool findId(State& st, u64 addr, u32& id) {
  if (addr < ASLOT0) return false; u64 i = (addr - ASLOT0) >> ASH; if (i >= st.nobj) return false;
  int back = 0; while (!getObj(st, (u32)i) && i > 0 && back++ < 4096) i--;
  id = (u32)i; return getObj(st, id) != nullptr;
}
static std::string hexs(u64 x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static std::string describe(State& st, u64 addr) {
  u32 id; if (addr < 0x1000) return "null pointer " + hexs(addr);
  if (!findId(st, addr, id)) return "wild pointer " + hexs(addr);
  Obj* o = getObj(st, id); return std::string(o->alive ? "" : "freed ") + okname[o->kind] + " object of size " + std::to_string(o->size) + " at offset " + std::to_string((int64_t)(addr - o->base)) + (o->tag[0] ? std::string(" (") + o->tag + ")" : "");
}
static u32 resolve(State& st, u64 addr, u64 n, bool write, u64& off) {
  u32 id;
  if (addr < 0x1000 || !findId(st, addr, id)) violation(st, std::string(write ? "write to " : "read from ") + describe(st, addr));
  Obj* o = getObj(st, id);
  if (addr < o->base || addr + n > o->base + o->size) violation(st, std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + describe(st, addr));
  if (!o->alive) violation(st, std::string(write ? "write" : "read") + " after free: " + describe(st, addr));
  if (write && o->ro) violation(st, "write to constant memory: " + describe(st, addr));
  if (!(o->prot & (write ? 2 : 1))) violation(st, std::string(write ? "write" : "read") + " of protected memory: " + describe(st, addr));
  if (st.cc && st.cc->me >= 0 && !st.cc->granted && o->kind != K_STACK && !o->ro) ccAccess(st, addr, n, write ? CC_W : CC_R);
  off = addr - o->base; return id;
}
static Val freshVar(State& st, const std::string& name, u32 w) {
  std::string nm = name + "!" + std::to_string(st.vars.size());
  Z3_symbol sy = Z3_mk_string_symbol(Z, nm.c_str()); Z3_ast a = keep(Z3_mk_const(Z, sy, BV(w)));
  st.vars.push_back({nm, a, w}); Val r; r.w = w; r.s = a; return r;
}
static Val loadBytes(State& st, u32 id, u64 off, u32 bytes, u32 w) {
  Obj* o = getObj(st, id);
  bool anysym = false, allc = true;
  for (u32 i = 0; i < bytes; i++) { u8 t = o->st[off + i]; if (t != 1) allc = false; if (t == 2) anysym = true; }
  if (allc && bytes <= 8) { u64 x = 0; memcpy(&x, &o->data[off], bytes); return Val(x, w); }
  if (!allc) {
    // uninitialised bytes become fresh symbolic bytes
    bool un = false; for (u32 i = 0; i < bytes; i++) if (o->st[off + i] == 0) un = true;
    if (un) {
      Obj* q = wrObj(st, id); if (q->sb.empty()) q->sb.resize(q->size);
      bool allun = true; for (u32 i = 0; i < bytes; i++) if (q->st[off + i] != 0) allun = false;
      if (allun && bytes <= 8) { Val f = freshVar(st, "uninit", bytes * 8); for (u32 i = 0; i < bytes; i++) { q->st[off + i] = 2; q->sb[off + i] = SB{f.s, (u8)i, (u8)bytes}; } }
      else for (u32 i = 0; i < bytes; i++) if (q->st[off + i] == 0) { Val f = freshVar(st, "uninit", 8); q->st[off + i] = 2; q->sb[off + i] = SB{f.s, 0, 1}; }
      o = q;
    }
  }
  (void)anysym;
  if (o->st[off] == 2) { SB& b0 = o->sb[off]; if (b0.idx == 0 && b0.n == bytes) { bool same = true; for (u32 i = 1; i < bytes; i++) { if (o->st[off + i] != 2 || o->sb[off + i].a != b0.a || o->sb[off + i].idx != i) { same = false; break; } }
      if (same) { u32 aw = bytes * 8; if (aw == w) { Val r; r.w = w; r.s = b0.a; return r; } return fromast(Z3_mk_extract(Z, w - 1, 0, b0.a), w); } } }
  Z3_ast acc = nullptr;
  for (int i = (int)bytes - 1; i >= 0; i--) {
    Z3_ast b; if (o->st[off + i] == 1) b = bvnum(o->data[off + i], 8); else { SB& s = o->sb[off + i]; b = s.n == 1 ? s.a : keep(Z3_mk_extract(Z, s.idx * 8 + 7, s.idx * 8, s.a)); }
    acc = acc ? keep(Z3_mk_concat(Z, acc, b)) : b;
  }
  if (w != bytes * 8) acc = keep(Z3_mk_extract(Z, w - 1, 0, acc));
  return fromast(acc, w);
}
static void storeBytes(State& st, u32 id, u64 off, u32 bytes, Val v) {
  Obj* o = wrObj(st, id);
  if (!v.sym()) { for (u32 i = 0; i < bytes; i++) { o->data[off + i] = i < 8 ? (u8)(v.v >> (8 * i)) : 0; o->st[off + i] = 1; } return; }
  if (o->sb.empty()) o->sb.resize(o->size);
  Z3_ast a = v.s; if (v.w != bytes * 8) a = keep(Z3_simplify(Z, keep(Z3_mk_zero_ext(Z, bytes * 8 - v.w, a))));
  for (u32 i = 0; i < bytes; i++) { o->st[off + i] = 2; o->sb[off + i] = SB{a, (u8)i, (u8)bytes}; }
}
#include "lsym_exec.inc"
