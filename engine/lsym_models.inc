// ---------------------------------------------------------------- models of external functions
enum MId { M_NONE = -1, M_MALLOC, M_CALLOC, M_FREE, M_NEW, M_NEWARR, M_DEL, M_DELARR, M_MMAP, M_MUNMAP, M_MPROTECT, M_ABORT, M_SYM, M_SYMRANGE, M_ASSUME, M_ASSERT, M_REACH, M_LIVE, M_NOTE, M_EXCALLOC, M_EXCFREE, M_THROW, M_BEGIN, M_END, M_RETHROW, M_CUREXC, M_RETHROWEXC, M_EPADD, M_EPREL, M_UNCAUGHT, M_TERMINATE, M_JUMP, M_MAKE, M_ONTOP, M_NOP, M_YIELDCPU, M_LIBTHROW, M_THREADS, M_TID, M_ISVALID, M_OBJSIZE, M_CONCRETE, M_ALIVE, M_LOG, M_OPT, M_RET0, M_EXCPTRGET, M_STACKBASE, M_CURSTACK_IN, M_MEMCMP, M_INJ, M_DYNCAST, M_FIND, M_EXCINIT, M_EPCTOR };
static int lookupModel(Function* F) {
  if (!F->isDeclaration()) return M_NONE;
  static const std::map<std::string, int> m = {
    {"malloc", M_MALLOC}, {"calloc", M_CALLOC}, {"free", M_FREE}, {"_Znwm", M_NEW}, {"_Znam", M_NEWARR}, {"_ZnwmSt11align_val_t", M_NEW}, {"_ZnwmRKSt9nothrow_t", M_NEW}, {"_ZnamRKSt9nothrow_t", M_NEWARR},
    {"_ZdlPv", M_DEL}, {"_ZdlPvm", M_DEL}, {"_ZdlPvSt11align_val_t", M_DEL}, {"_ZdlPvmSt11align_val_t", M_DEL}, {"_ZdaPv", M_DELARR}, {"_ZdaPvm", M_DELARR}, {"_ZdlPvRKSt9nothrow_t", M_DEL},
    {"vx_mmap", M_MMAP}, {"vx_munmap", M_MUNMAP}, {"vx_mprotect", M_MPROTECT},
    {"abort", M_ABORT}, {"exit", M_ABORT}, {"_exit", M_ABORT}, {"__assert_fail", M_ABORT}, {"__cxa_pure_virtual", M_ABORT},
    {"sym_bits", M_SYM}, {"sym_range", M_SYMRANGE}, {"sym_assume", M_ASSUME}, {"sym_assert", M_ASSERT}, {"sym_reach", M_REACH}, {"sym_live", M_LIVE}, {"sym_note", M_NOTE},
    {"__cxa_allocate_exception", M_EXCALLOC}, {"__cxa_free_exception", M_EXCFREE}, {"__cxa_init_primary_exception", M_EXCINIT}, {"_ZNSt15__exception_ptr13exception_ptrC1EPv", M_EPCTOR}, {"_ZNSt15__exception_ptr13exception_ptrC2EPv", M_EPCTOR}, {"__cxa_throw", M_THROW}, {"__cxa_begin_catch", M_BEGIN}, {"__cxa_end_catch", M_END}, {"__cxa_rethrow", M_RETHROW},
    {"_ZSt17current_exceptionv", M_CUREXC}, {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", M_RETHROWEXC}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", M_EPADD}, {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", M_EPREL},
    {"_ZSt18uncaught_exceptionv", M_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", M_UNCAUGHT}, {"_ZSt9terminatev", M_TERMINATE},
    {"copp_jump_fcontext_v2", M_JUMP}, {"copp_make_fcontext_v2", M_MAKE}, {"copp_ontop_fcontext_v2", M_ONTOP},
    {"__cxa_atexit", M_RET0}, {"atexit", M_RET0}, {"sched_yield", M_YIELDCPU}, {"usleep", M_YIELDCPU}, {"nanosleep", M_YIELDCPU},
    {"sym_isvalid", M_ISVALID}, {"sym_alive", M_ALIVE}, {"sym_concrete", M_CONCRETE}, {"sym_opt", M_OPT}, {"sym_log", M_LOG}, {"sym_log_s", M_LOG}, {"printf", M_NOP}, {"puts", M_NOP}, {"putchar", M_NOP}, {"fprintf", M_NOP}, {"_ZNSt8ios_base4InitC1Ev", M_NOP}, {"_ZNSt8ios_base4InitD1Ev", M_NOP},
    {"sym_find", M_FIND}, {"sym_objsize", M_OBJSIZE}, {"__dynamic_cast", M_DYNCAST}, {"sym_threads", M_THREADS}, {"sym_tid", M_TID}};
  auto it = m.find(F->getName().str()); if (it != m.end()) return it->second;
  std::string n = F->getName().str();
  if (n.compare(0, 12, "_ZSt20__throw") == 0 || n.find("__throw_") != std::string::npos) return M_LIBTHROW;
  return M_NONE;
}
static std::string cstr(State& st, u64 a) { std::string s; u32 id; if (!findId(st, a, id)) return "?"; Obj* o = getObj(st, id); for (u64 i = a - o->base; i < o->size && o->data[i]; i++) s += (char)o->data[i]; return s; }
static void doAssert(State& st, const Val& c, const std::string& msg) {
  R.asserts++;
  if (!c.sym()) { R.asserts_conc++; if (!(c.v & 1)) violation(st, msg); return; }
  R.asserts_solver++;
  Z3_ast b = tobool(c); Z3_ast nb = znot(b); Z3_model m = nullptr; int r = check_with(st.pc, nb, &m);
  if (r == 1) violation(st, msg, nb); if (r < 0) incomplete("solver unknown on assertion: " + msg);
  addPc(st, b);
}
#include "lsym_conc.inc"
// returns true if the instruction completed (result in out); false when control was transferred
static bool runModel(State& st, int mid, Ins& in, std::vector<Val>& a, Val& out, Frame& f) {
  switch (mid) {
    case M_MALLOC: case M_CALLOC: {
      Val sz = a[0]; if (mid == M_CALLOC) sz = binop(Instruction::Mul, a[0], a[1]);
      if (st.opts[1]) { // allocation may fail
        Val v = freshVar(st, "malloc_fails", 1); st.inputs.push_back({(int)st.vars.size() - 1, 0});
        Z3_ast fc = tobool(v); if (sz.sym()) {}
        State* n = forkState(st); n->pc.push_back(fc); n->model = nullptr; n->fr.back(); { State* sv = cur; cur = n; completeCall(*n, Val(0, 64)); cur = sv; } pushWork(n); st.pc.push_back(znot(fc)); st.model = nullptr;
      }
      if (sz.sym()) { // sizes above 2^47 cannot be satisfied
        Z3_ast big = keep(Z3_simplify(Z, keep(Z3_mk_bvugt(Z, sz.s, bvnum(1ull << 47, 64))))); if (decide(st, big)) { out = Val(0, 64); return true; }
        // sizes which happen to be unique are made concrete
      } else if (sz.v > (1ull << 47)) { out = Val(0, 64); return true; }
      out = allocObj(st, sz, K_MALLOC); if (mid == M_CALLOC) memFill(st, out, Val(0, 8), concretize(st, sz, "calloc")); return true; }
    case M_FREE: freeObj(st, a[0], K_MALLOC); return true;
    case M_NEW: case M_NEWARR: { Val sz = a[0]; if (sz.sym()) sz = Val(concretize(st, sz, "operator new size"), 64); if (sz.v > (1ull << 40)) violation(st, "operator new of " + std::to_string(sz.v) + " bytes"); out = allocObj(st, sz, mid == M_NEW ? K_NEW : K_NEWARR); return true; }
    case M_DEL: freeObj(st, a[0], K_NEW); return true;
    case M_DELARR: freeObj(st, a[0], K_NEWARR); return true;
    case M_MMAP: { Val sz = a[1];
      if (sz.sym()) { Z3_ast big = keep(Z3_simplify(Z, zor(keep(Z3_mk_bvugt(Z, sz.s, bvnum(1ull << 47, 64))), keep(Z3_mk_eq(Z, sz.s, bvnum(0, 64)))))); if (g_verbose) fprintf(stderr, "BIG %s\n", Z3_ast_to_string(Z, big)); if (decide(st, big)) { out = Val(~0ull, 64); return true; } }
      else if (sz.v == 0 || sz.v > (1ull << 47)) { out = Val(~0ull, 64); return true; }
      out = allocObj(st, sz, K_MMAP); return true; }
    case M_MUNMAP: { u64 c, rid; Z3_ast ix; if (locate(st, a[0], c, rid, ix)) { auto it = st.sregs.find(rid); if (it == st.sregs.end()) violation(st, "munmap of a wild pointer"); Z3_ast ne = keep(Z3_simplify(Z, znot(keep(Z3_mk_eq(Z, toast(a[1]), it->second.size))))); if (feasible(st, ne)) violation(st, "munmap length differs from the mapped length", ne); }
      else { u32 id; if (findId(st, c, id) && getObj(st, id)->alive && (a[1].sym() || getObj(st, id)->size != a[1].v)) violation(st, "munmap length differs from the mapped length"); }
      freeObj(st, a[0], K_MMAP); out = Val(0, 32); return true; }
    case M_MPROTECT: { u64 c, rid; Z3_ast ix; if (locate(st, a[0], c, rid, ix)) { auto it = st.sregs.find(rid); if (it == st.sregs.end()) violation(st, "mprotect of a wild pointer"); Z3_ast ne = keep(Z3_simplify(Z, znot(keep(Z3_mk_eq(Z, ix, bvnum(REGOFF, 64)))))); if (feasible(st, ne)) violation(st, "guard page is not at the bottom of the mapping", ne);
        Z3_ast bg = keep(Z3_simplify(Z, keep(Z3_mk_bvugt(Z, toast(a[1]), it->second.size)))); if (feasible(st, bg)) violation(st, "mprotect beyond the mapping", bg); it->second.hasProt = true; it->second.protHi = toast(a[1]); }
      else { u64 off; resolve(st, c, concretize(st, a[1], "mprotect"), true, off); }
      out = Val(0, 32); return true; }
    case M_DYNCAST: { // (object, static type, wanted type, hint)
      if (!a[0].sym() && a[0].v == 0) { out = Val(0, 64); return true; }
      Val vp = memLoad(st, a[0], 8, 64); Val ot = memLoad(st, vSub(vp, Val(16, 64)), 8, 64), ti = memLoad(st, vSub(vp, Val(8, 64)), 8, 64); if (ti.sym() || ot.sym() || a[2].sym()) unsupported("symbolic dynamic_cast");
      long o = tiOffset(ti.v, a[2].v); out = o < 0 ? Val(0, 64) : vAdd(vAdd(a[0], ot), Val((u64)o, 64)); return true; }
    case M_ABORT: violation(st, in.callee->getName().str() + "() called");
    case M_TERMINATE: violation(st, "std::terminate() called");
    case M_LIBTHROW: violation(st, "library failure: " + cleanName(in.callee));
    case M_SYM: { // sym_bits(width, name)
      u32 w = (u32)a[0].v; Val v = freshVar(st, cstr(st, a[1].v), w); st.inputs.push_back({(int)st.vars.size() - 1, 0}); st.model = nullptr; out = w < 64 ? castTo(Instruction::ZExt, v, 64) : v; return true; }
    case M_SYMRANGE: { // sym_range(lo, hi, name) unsigned 64
      Val v = freshVar(st, cstr(st, a[2].v), 64); st.inputs.push_back({(int)st.vars.size() - 1, 0}); st.pc.push_back(zand(keep(Z3_mk_bvuge(Z, v.s, toast(a[0]))), keep(Z3_mk_bvule(Z, v.s, toast(a[1]))))); st.model = nullptr; out = v; return true; }
    case M_ASSUME: { if (!a[0].sym()) { if (!(a[0].v & 1)) { R.killed++; throw PathEnd(); } return true; } Z3_ast b = tobool(a[0].w == 1 ? a[0] : castTo(Instruction::Trunc, a[0], 1)); if (!feasible(st, b)) { R.killed++; throw PathEnd(); } addPc(st, b); return true; }
    case M_ASSERT: doAssert(st, a[0].w == 1 ? a[0] : castTo(Instruction::Trunc, a[0], 1), cstr(st, a[1].v)); return true;
    case M_REACH: R.reach.insert(cstr(st, a[0].v)); return true;
    case M_NOTE: if (st.trace.size() < 200) st.trace.push_back(cstr(st, a[0].v) + "=" + (a[1].sym() ? "<sym>" : std::to_string((int64_t)a[1].v))); return true;
    case M_LIVE: out = Val(st.heapLive, 64); return true;
    case M_LOG: return true;
    case M_OPT: st.opts[(u32)a[0].v] = a[1].v; return true;
    case M_ISVALID: { // 1 when [p, p+n) is inside one live object
      if (a[0].sym() || isReg(a[0].v)) { u64 c, rid; Z3_ast ix; if (locate(st, a[0], c, rid, ix)) { auto it = st.sregs.find(rid); if (it == st.sregs.end() || !it->second.alive) { out = Val(0, 32); return true; } SymReg& r = it->second; Z3_ast d = keep(Z3_mk_bvsub(Z, ix, bvnum(REGOFF, 64))); Z3_ast n = toast(a[1]); Z3_ast ok = zand(keep(Z3_mk_bvule(Z, n, r.size)), keep(Z3_mk_bvule(Z, d, keep(Z3_mk_bvsub(Z, r.size, n))))); if (r.hasProt) ok = zand(ok, keep(Z3_mk_bvuge(Z, d, r.protHi))); out = castTo(Instruction::ZExt, frombool(ok), 32); return true; } 
        u32 id; bool ok = findId(st, c, id) && getObj(st, id)->alive && c >= getObj(st, id)->base && !a[1].sym() && c + a[1].v <= getObj(st, id)->base + getObj(st, id)->size; out = Val(ok, 32); return true; }
      u32 id; u64 n = concretize(st, a[1], "sym_isvalid"); bool ok = a[0].v >= 0x1000 && findId(st, a[0].v, id); if (ok) { Obj* o = getObj(st, id); ok = o->alive && a[0].v >= o->base && n <= o->size && a[0].v + n <= o->base + o->size; } out = Val(ok, 32); return true; }
    case M_ALIVE: { u32 id; bool ok = !a[0].sym() && a[0].v >= 0x1000 && findId(st, a[0].v, id) && getObj(st, id)->alive; out = Val(ok, 32); return true; }
    case M_FIND: { // the only 8-byte global that holds this value now
      u64 hit = 0, n = 0; if (a[0].sym()) unsupported("sym_find"); for (auto& g : gaddr) { u32 id; if (!findId(st, g.second, id)) continue; Obj* o = getObj(st, id); if (o->kind != K_GLOBAL || o->ro || !o->alive) continue; for (u64 i = 0; i + 8 <= o->size; i += 8) { bool c = true; for (u64 j = 0; j < 8; j++) if (o->st[i + j] != 1) c = false; u64 x; memcpy(&x, &o->data[i], 8); if (c && x == a[0].v) { hit = o->base + i; n++; } } }
      out = Val(n == 1 ? hit : 0, 64); return true; }
    case M_OBJSIZE: { u32 id; out = Val(findId(st, a[0].v, id) ? getObj(st, id)->size : 0, 64); return true; }
    case M_CONCRETE: out = Val(concretize(st, a[0], "sym_concrete"), 64); return true;
    case M_EXCALLOC: { u64 b; Val s(a[0].v, 64); newObj(st, s.v, K_EXC, 0x80, &b); st.opts[0x70000000u]++; out = Val(b, 64); return true; }
    case M_EXCFREE: return true;
    case M_THROW: { st.excs[a[0].v] = ExcInfo{a[1].v, a[2].v, 1, 0, true}; unwind(st, a[0].v); return false; }
    case M_BEGIN: { auto it = st.excs.find(a[0].v); if (it == st.excs.end()) violation(st, "begin_catch of unknown exception"); it->second.handlers++; it->second.inflight = false; if (st.caught.empty() || st.caught.back() != a[0].v) st.caught.push_back(a[0].v); out = Val(a[0].v, 64);
      // pointer types thrown: catch by pointer value
      return true; }
    case M_END: { if (st.caught.empty()) violation(st, "end_catch without a caught exception"); u64 e = st.caught.back(); ExcInfo& x = st.excs[e]; if (x.handlers < 0) { if (++x.handlers == 0) st.caught.pop_back(); return true; } if (--x.handlers == 0) { st.caught.pop_back(); completeCall(st, Val()); excRelease(st, e); return false; } return true; }
    case M_RETHROW: { if (st.caught.empty()) violation(st, "rethrow without a caught exception"); u64 e = st.caught.back(); ExcInfo& x = st.excs[e]; x.handlers = -x.handlers; x.inflight = true; 
      // simplified: keep one reference, pop the handler level at end_catch
      x.handlers = 0; x.refs++; st.opts[0x70000001u] = e; 
      // the enclosing handler will call end_catch once: give it something to release
      x.handlers = 1; unwind(st, e); return false; }
    case M_CUREXC: { // sret-like: std::exception_ptr is returned through a pointer argument
      u64 e = st.caught.empty() ? 0 : st.caught.back(); if (e) st.excs[e].refs++; memStore(st, a[0], 8, Val(e, 64)); return true; }
    case M_RETHROWEXC: { Val p = memLoad(st, a[0], 8, 64); if (p.sym() || !st.excs.count(p.v)) violation(st, "rethrow_exception of an empty exception_ptr"); st.excs[p.v].refs++; st.excs[p.v].inflight = true; unwind(st, p.v); return false; }
    case M_EXCINIT: { st.excs[a[0].v] = ExcInfo{a[1].v, a[2].v, 0, 0, false}; out = Val(a[0].v, 64); return true; }
    case M_EPCTOR: { memStore(st, a[0], 8, a[1]); if (a[1].v) { if (!st.excs.count(a[1].v)) violation(st, "use of a destroyed exception object"); st.excs[a[1].v].refs++; } return true; }
    case M_EPADD: { Val p = memLoad(st, a[0], 8, 64); if (p.v) { if (!st.excs.count(p.v)) violation(st, "use of a destroyed exception object"); st.excs[p.v].refs++; } return true; }
    case M_EPREL: { Val p = memLoad(st, a[0], 8, 64); if (p.v) { if (!st.excs.count(p.v)) violation(st, "release of a destroyed exception object"); memStore(st, a[0], 8, Val(0, 64)); completeCall(st, Val()); excRelease(st, p.v); return false; } return true; }
    case M_UNCAUGHT: { int n = 0; for (auto& e : st.excs) if (e.second.inflight) n++; out = Val(n, in.w); return true; }
    case M_MAKE: { if (auto* g = M->getNamedGlobal("vx_ctx_top")) memStore(st, Val(gaddr[g], 64), 8, a[0]); if (auto* g = M->getNamedGlobal("vx_ctx_size")) memStore(st, Val(gaddr[g], 64), 8, a[1]);
      Function* fn = a[2].sym() ? nullptr : funcAt(a[2].v); if (!fn) unsupported("make_fcontext entry"); out = fctx_make(st, a[0], a[1], fn); return true; }
    case M_JUMP: { u64 to = concretize(st, a[0], "context"); fctx_jump(st, to, a[1], nullptr); return false; }
    case M_ONTOP: { u64 to = concretize(st, a[0], "context"); fctx_jump(st, to, a[1], funcAt(a[2].v)); return false; }
    case M_RET0: case M_NOP: out = Val(0, in.w ? in.w : 32); return true;
    case M_YIELDCPU: if (st.cc) { ccYield(st); out = Val(0, in.w ? in.w : 32); return true; } if (++st.nsched > g_maxsched) { violation(st, "endless waiting: the thread spins on a lock that nobody releases"); } out = Val(0, in.w ? in.w : 32); return true;
    case M_THREADS: ccStart(st, a); return false;
    case M_TID: out = Val(st.cc && st.cc->me >= 0 ? (u64)st.cc->me : 0xffffffffu, 32); return true;
  }
  unsupported("model"); return true;
}
// ---------------------------------------------------------------- intrinsics
static bool runIntrinsic(State& st, Ins& in, std::vector<Val>& a, Val& out) {
  u32 w = in.w;
  switch (in.intr) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::sideeffect: out = Val(0, 64); return true;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: out = a[0]; return true;
    case Intrinsic::threadlocal_address: out = st.cc && st.cc->me >= 0 ? Val(ccTls(st, a[0].v), 64) : a[0]; return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(st, a[0], a[1], concretize(st, a[2], "memcpy length")); return true;
    case Intrinsic::memset: memFill(st, a[0], a[1], concretize(st, a[2], "memset length")); return true;
    case Intrinsic::x86_sse2_pause: if (st.cc) ccYield(st); else if (++st.nsched > 2000000) violation(st, "endless spinning"); return true;
    case Intrinsic::trap: case Intrinsic::debugtrap: violation(st, "trap");
    case Intrinsic::eh_typeid_for: out = Val(typeId(a[0].v), 32); return true;
    case Intrinsic::stacksave: out = Val(0, 64); return true; case Intrinsic::stackrestore: return true;
    case Intrinsic::objectsize: out = Val(~0ull, w); return true; case Intrinsic::is_constant: out = Val(0, 1); return true;
    case Intrinsic::umax: { Val c = icmp(CmpInst::ICMP_UGT, a[0], a[1]); if (!c.sym()) out = c.v ? a[0] : a[1]; else out = fromast(Z3_mk_ite(Z, tobool(c), toast(a[0]), toast(a[1])), w); return true; }
    case Intrinsic::umin: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1]); if (!c.sym()) out = c.v ? a[0] : a[1]; else out = fromast(Z3_mk_ite(Z, tobool(c), toast(a[0]), toast(a[1])), w); return true; }
    case Intrinsic::smax: { Val c = icmp(CmpInst::ICMP_SGT, a[0], a[1]); if (!c.sym()) out = c.v ? a[0] : a[1]; else out = fromast(Z3_mk_ite(Z, tobool(c), toast(a[0]), toast(a[1])), w); return true; }
    case Intrinsic::smin: { Val c = icmp(CmpInst::ICMP_SLT, a[0], a[1]); if (!c.sym()) out = c.v ? a[0] : a[1]; else out = fromast(Z3_mk_ite(Z, tobool(c), toast(a[0]), toast(a[1])), w); return true; }
    case Intrinsic::abs: { Val c = icmp(CmpInst::ICMP_SLT, a[0], Val(0, w)); Val n = vSub(Val(0, w), a[0]); if (!c.sym()) out = c.v ? n : a[0]; else out = fromast(Z3_mk_ite(Z, tobool(c), toast(n), toast(a[0])), w); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      u32 ww = a[0].w; bool sg = in.intr == Intrinsic::sadd_with_overflow || in.intr == Intrinsic::ssub_with_overflow || in.intr == Intrinsic::smul_with_overflow;
      auto ex = [&](const Val& v) { return keep(sg ? Z3_mk_sign_ext(Z, ww, toast(v)) : Z3_mk_zero_ext(Z, ww, toast(v))); };
      Z3_ast p = ex(a[0]), q = ex(a[1]), r; if (in.intr == Intrinsic::uadd_with_overflow || in.intr == Intrinsic::sadd_with_overflow) r = keep(Z3_mk_bvadd(Z, p, q)); else if (in.intr == Intrinsic::usub_with_overflow || in.intr == Intrinsic::ssub_with_overflow) r = keep(Z3_mk_bvsub(Z, p, q)); else r = keep(Z3_mk_bvmul(Z, p, q));
      Z3_ast lo = keep(Z3_mk_extract(Z, ww - 1, 0, r)); Z3_ast bk = keep(sg ? Z3_mk_sign_ext(Z, ww, lo) : Z3_mk_zero_ext(Z, ww, lo)); Z3_ast ov = keep(Z3_simplify(Z, znot(keep(Z3_mk_eq(Z, bk, r)))));
      Agg g; g.push_back(fromast(lo, ww)); g.push_back(frombool(ov)); out = mkAgg(std::move(g)); return true; }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1]); Val d = vSub(a[0], a[1]); if (!c.sym()) out = c.v ? Val(0, w) : d; else out = fromast(Z3_mk_ite(Z, tobool(c), bvnum(0, w), toast(d)), w); return true; }
    case Intrinsic::uadd_sat: { Val d = vAdd(a[0], a[1]); Val c = icmp(CmpInst::ICMP_ULT, d, a[0]); if (!c.sym()) out = c.v ? Val(~0ull, w) : d; else out = fromast(Z3_mk_ite(Z, tobool(c), bvnum(~0ull, w), toast(d)), w); return true; }
    case Intrinsic::ctpop: { u64 x = concretize(st, a[0], "ctpop"); out = Val(__builtin_popcountll(x), w); return true; }
    case Intrinsic::ctlz: { u64 x = concretize(st, a[0], "ctlz"); out = Val(x ? (u64)__builtin_clzll(x) - (64 - w) : w, w); return true; }
    case Intrinsic::cttz: { u64 x = concretize(st, a[0], "cttz"); out = Val(x ? (u64)__builtin_ctzll(x) : w, w); return true; }
    case Intrinsic::bswap: { u64 x = concretize(st, a[0], "bswap"); out = Val(__builtin_bswap64(x) >> (64 - w), w); return true; }
    case Intrinsic::fshl: { if (a[2].sym()) unsupported("fshl"); u64 s = a[2].v % w; Val hi = binop(Instruction::Shl, a[0], Val(s, w)), lo = s ? binop(Instruction::LShr, a[1], Val(w - s, w)) : Val(0, w); out = binop(Instruction::Or, hi, lo); return true; }
    case Intrinsic::fshr: { if (a[2].sym()) unsupported("fshr"); u64 s = a[2].v % w; Val lo = binop(Instruction::LShr, a[1], Val(s, w)), hi = s ? binop(Instruction::Shl, a[0], Val(w - s, w)) : Val(0, w); out = binop(Instruction::Or, hi, lo); return true; }
    case Intrinsic::ptrmask: out = binop(Instruction::And, a[0], a[1]); return true;
    case Intrinsic::returnaddress: case Intrinsic::frameaddress: out = Val(0, 64); return true;
    case Intrinsic::ceil: case Intrinsic::floor: { if (a[0].sym()) unsupported("fp"); double d; u64 x = a[0].v; if (w == 32) { float ff; u32 y = (u32)x; memcpy(&ff, &y, 4); ff = in.intr == Intrinsic::ceil ? __builtin_ceilf(ff) : __builtin_floorf(ff); memcpy(&y, &ff, 4); out = Val(y, 32); } else { memcpy(&d, &x, 8); d = in.intr == Intrinsic::ceil ? __builtin_ceil(d) : __builtin_floor(d); memcpy(&x, &d, 8); out = Val(x, 64); } return true; }
  }
  unsupported("intrinsic " + in.callee->getName().str()); return true;
}
// ---------------------------------------------------------------- the interpreter
static inline const Val& ev(Frame& f, const Opnd& o) { return o.slot < 0 ? o.c : f.regs[o.slot]; }
static void pathFinished(State& st);
static bool stepIn(State& st);
static bool step(State& st) {  // returns false when the path ended
  if (!st.cc) return stepIn(st);
  Conc& c = *st.cc; if (c.needSched) { ccSwitch(st, false); return true; }
  Frame& f = st.fr.back(); Instruction* I = f.f->bbs[f.bb].ins[f.ip].I;
  if (!I->isAtomic() || isa<FenceInst>(I)) return stepIn(st);
  if (!c.granted) { if (!ccSwitch(st, true)) return true; c.granted = true; }
  bool r = stepIn(st); if (st.cc) st.cc->granted = false; return r;
}
static bool stepIn(State& st) {
  Frame& f = st.fr.back(); BBInfo& bb = f.f->bbs[f.bb]; Ins& in = bb.ins[f.ip];
  if (++st.ninst > g_maxinst) { violation(st, "no termination within " + std::to_string(g_maxinst) + " instructions"); }
  R.insts++;
  switch (in.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
      Val r = binop(in.opc, ev(f, in.ops[0]), ev(f, in.ops[1])); f.regs[in.dst] = r; f.ip++; return true; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      const Val &a = ev(f, in.ops[0]), &b = ev(f, in.ops[1]); if (a.sym() || b.sym() || a.agg()) unsupported("symbolic fp");
      if (in.w == 32) { float x, y, r; u32 p = (u32)a.v, q = (u32)b.v; memcpy(&x, &p, 4); memcpy(&y, &q, 4); r = in.opc == Instruction::FAdd ? x + y : in.opc == Instruction::FSub ? x - y : in.opc == Instruction::FMul ? x * y : x / y; memcpy(&p, &r, 4); f.regs[in.dst] = Val(p, 32); }
      else { double x, y, r; memcpy(&x, &a.v, 8); memcpy(&y, &b.v, 8); r = in.opc == Instruction::FAdd ? x + y : in.opc == Instruction::FSub ? x - y : in.opc == Instruction::FMul ? x * y : x / y; u64 p; memcpy(&p, &r, 8); f.regs[in.dst] = Val(p, 64); }
      f.ip++; return true; }
    case Instruction::FCmp: {
      const Val &a = ev(f, in.ops[0]), &b = ev(f, in.ops[1]); if (a.sym() || b.sym()) unsupported("symbolic fp"); double x, y;
      if (a.w == 32) { float p, q; u32 u = (u32)a.v, v = (u32)b.v; memcpy(&p, &u, 4); memcpy(&q, &v, 4); x = p; y = q; } else { memcpy(&x, &a.v, 8); memcpy(&y, &b.v, 8); }
      f.regs[in.dst] = Val(FCmpInst::compare(APFloat(x), APFloat(y), cast<FCmpInst>(in.I)->getPredicate()), 1); f.ip++; return true; }
    case Instruction::ICmp: { Val r = icmp(cast<ICmpInst>(in.I)->getPredicate(), ev(f, in.ops[0]), ev(f, in.ops[1])); f.regs[in.dst] = r; f.ip++; return true; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc: {
      Val r = castTo(in.opc, ev(f, in.ops[0]), in.w); f.regs[in.dst] = r; f.ip++; return true; }
    case Instruction::Freeze: f.regs[in.dst] = ev(f, in.ops[0]); f.ip++; return true;
    case Instruction::GetElementPtr: {
      Val r = ev(f, in.ops[0]); if (r.agg()) unsupported("vector gep");
      if (in.extra) r = vAdd(r, Val(in.extra, 64));
      for (auto& g : in.gidx) { Val i = ev(f, g.o); if (i.w < 64) i = castTo(Instruction::SExt, i, 64); if (!i.sym() && !r.sym()) r.v += i.v * g.scale; else r = vAdd(r, g.scale == 1 ? i : binop(Instruction::Mul, i, Val(g.scale, 64))); }
      f.regs[in.dst] = r; f.ip++; return true; }
    case Instruction::Load: { auto* L = cast<LoadInst>(in.I); int ord = L->isAtomic() ? (int)L->getOrdering() : 0; Val r = ord && st.cc ? ccLoad(st, ev(f, in.ops[0]), in.w2, in.w, ord) : loadVal(st, ev(f, in.ops[0]), in.ty, ord); Frame& g = st.fr.back(); g.regs[in.dst] = r; g.ip++; return true; }
    case Instruction::Store: { auto* L = cast<StoreInst>(in.I); int ord = L->isAtomic() ? (int)L->getOrdering() : 0; Val v = ev(f, in.ops[0]); if (v.w == 0) v = zeroVal(in.ty); if (ord && st.cc) ccStore(st, ev(f, in.ops[1]), in.w2, v, ord); else storeVal(st, ev(f, in.ops[1]), in.ty, v, ord); st.fr.back().ip++; return true; }
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(in.I); Val p = ev(f, in.ops[0]), v = ev(f, in.ops[1]); u32 by = (in.w + 7) / 8;
      auto fn = [&](const Val& o) -> Val { switch (A->getOperation()) { case AtomicRMWInst::Xchg: return v; case AtomicRMWInst::Add: return vAdd(o, v); case AtomicRMWInst::Sub: return vSub(o, v); case AtomicRMWInst::And: return binop(Instruction::And, o, v); case AtomicRMWInst::Or: return binop(Instruction::Or, o, v); case AtomicRMWInst::Xor: return binop(Instruction::Xor, o, v);
        default: unsupported("atomicrmw"); return o; } };
      Val old;
      if (st.cc) old = ccRmw(st, p, by, in.w, (int)A->getOrdering(), fn);
      else { old = memLoad(st, p, by, in.w); memStore(st, p, by, fn(old)); }
      st.fr.back().regs[in.dst] = old; st.fr.back().ip++; return true; }
    case Instruction::AtomicCmpXchg: {
      auto* A = cast<AtomicCmpXchgInst>(in.I); Val p = ev(f, in.ops[0]), e = ev(f, in.ops[1]), nv = ev(f, in.ops[2]); u32 w = e.w, by = (w + 7) / 8; 
      if (st.cc) { Val old; bool ok = ccCas(st, p, by, w, (int)A->getSuccessOrdering(), (int)A->getFailureOrdering(), A->isWeak(), e, nv, old); Agg g; g.push_back(old); g.push_back(Val(ok, 1)); st.fr.back().regs[in.dst] = mkAgg(std::move(g)); st.fr.back().ip++; return true; }
      Val old = memLoad(st, p, by, w); Val eqv = icmp(CmpInst::ICMP_EQ, old, e); bool ok = eqv.sym() ? decide(st, tobool(eqv)) : eqv.v != 0;
      if (ok) memStore(st, p, by, nv); Agg g; g.push_back(old); g.push_back(Val(ok, 1)); st.fr.back().regs[in.dst] = mkAgg(std::move(g)); st.fr.back().ip++; return true; }
    case Instruction::Fence: if (st.cc && cast<FenceInst>(in.I)->getSyncScopeID() == SyncScope::System) ccFence(st, (int)cast<FenceInst>(in.I)->getOrdering()); f.ip++; return true;
    case Instruction::Alloca: { u64 n = in.extra; if (!in.ops.empty()) { const Val& c = ev(f, in.ops[0]); n *= concretize(st, c, "alloca"); } u64 b; u32 id; newObj(st, n, K_STACK, 0x40, &b, &id); f.allocas.push_back(id); f.regs[in.dst] = Val(b, 64); f.ip++; return true; }
    case Instruction::Select: {
      const Val &c = ev(f, in.ops[0]), &a = ev(f, in.ops[1]), &b = ev(f, in.ops[2]); if (c.agg()) unsupported("vector select");
      if (!c.sym()) { f.regs[in.dst] = (c.v & 1) ? a : b; f.ip++; return true; }
      if (a.agg() || in.I->getType()->isPointerTy()) { bool t = decide(st, tobool(c)); Frame& g = st.fr.back(); g.regs[in.dst] = t ? ev(g, in.ops[1]) : ev(g, in.ops[2]); g.ip++; return true; }
      f.regs[in.dst] = fromast(Z3_mk_ite(Z, tobool(c), toast(a), toast(b)), in.w); f.ip++; return true; }
    case Instruction::ExtractValue: { Val v = ev(f, in.ops[0]); for (unsigned i : cast<ExtractValueInst>(in.I)->getIndices()) { if (!v.agg()) unsupported("extractvalue"); v = Val(v.a()[i]); } f.regs[in.dst] = v; f.ip++; return true; }
    case Instruction::InsertValue: { Val v = ev(f, in.ops[0]); const Val& e = ev(f, in.ops[1]); auto idx = cast<InsertValueInst>(in.I)->getIndices(); if (!v.agg()) v = zeroVal(in.I->getType());
      std::function<Val(Val, unsigned)> ins = [&](Val c, unsigned d) -> Val { Agg g = c.a(); if (d + 1 == idx.size()) g[idx[d]] = e; else g[idx[d]] = ins(g[idx[d]], d + 1); return mkAgg(std::move(g)); };
      f.regs[in.dst] = ins(v, 0); f.ip++; return true; }
    case Instruction::ExtractElement: { const Val& v = ev(f, in.ops[0]); u64 i = concretize(st, ev(f, in.ops[1]), "vector index"); f.regs[in.dst] = v.a()[i]; f.ip++; return true; }
    case Instruction::InsertElement: { Val v = ev(f, in.ops[0]); u64 i = concretize(st, ev(f, in.ops[2]), "vector index"); Agg g = v.a(); g[i] = ev(f, in.ops[1]); f.regs[in.dst] = mkAgg(std::move(g)); f.ip++; return true; }
    case Instruction::ShuffleVector: { auto* SV = cast<ShuffleVectorInst>(in.I); const Val &x = ev(f, in.ops[0]), &y = ev(f, in.ops[1]); Agg g; for (int m : SV->getShuffleMask()) { if (m < 0) g.push_back(x.a()[0]); else if ((size_t)m < x.a().size()) g.push_back(x.a()[m]); else g.push_back(y.a()[m - x.a().size()]); } f.regs[in.dst] = mkAgg(std::move(g)); f.ip++; return true; }
    case Instruction::Br: {
      if (in.succ[1] < 0) { gotoBB(st, f, in.succ[0]); return true; }
      const Val& c = ev(f, in.ops[0]); bool t; if (!c.sym()) t = c.v & 1; else t = decide(st, tobool(c));
      gotoBB(st, st.fr.back(), t ? in.succ[0] : in.succ[1]); return true; }
    case Instruction::Switch: {
      auto* SW = cast<SwitchInst>(in.I); Val c = ev(f, in.ops[0]);
      if (!c.sym()) { BasicBlock* d = SW->getDefaultDest(); for (auto& cs : SW->cases()) if (cs.getCaseValue()->getZExtValue() == c.v) { d = cs.getCaseSuccessor(); break; } gotoBB(st, f, f.f->bbidx[d]); return true; }
      std::vector<std::pair<BasicBlock*, Z3_ast>> outs; Z3_ast none = keep(Z3_mk_true(Z));
      for (auto& cs : SW->cases()) { Z3_ast e = keep(Z3_mk_eq(Z, c.s, bvnum(cs.getCaseValue()->getZExtValue(), c.w))); bool fnd = false; for (auto& o : outs) if (o.first == cs.getCaseSuccessor()) { o.second = zor(o.second, e); fnd = true; } if (!fnd) outs.push_back({cs.getCaseSuccessor(), e}); none = zand(none, znot(e)); }
      { bool fnd = false; for (auto& o : outs) if (o.first == SW->getDefaultDest()) { o.second = zor(o.second, none); fnd = true; } if (!fnd) outs.push_back({SW->getDefaultDest(), none}); }
      std::vector<std::pair<BasicBlock*, Z3_model>> ok; std::vector<Z3_ast> oc;
      for (auto& o : outs) { Z3_model m = nullptr; int r = check_with(st.pc, o.second, &m); if (r < 0) incomplete("solver unknown"); if (r == 1) { ok.push_back({o.first, m}); oc.push_back(o.second); } }
      if (ok.empty()) throw PathEnd();
      for (size_t i = 1; i < ok.size(); i++) { State* n = forkState(st); n->pc.push_back(oc[i]); n->model = ok[i].second; gotoBB(*n, n->fr.back(), n->fr.back().f->bbidx[ok[i].first]); pushWork(n); }
      if (ok.size() > 1) { st.pc.push_back(oc[0]); st.model = ok[0].second; }
      gotoBB(st, f, f.f->bbidx[ok[0].first]); return true; }
    case Instruction::Unreachable: violation(st, "unreachable code executed in " + cleanName(f.f->F));
    case Instruction::Ret: {
      Val r; if (!in.ops.empty()) { r = ev(f, in.ops[0]); if (r.w == 0) r = zeroVal(cast<ReturnInst>(in.I)->getReturnValue()->getType()); }
      u8 mk = f.marker; killAllocas(st, f); st.fr.pop_back();
      if (st.fr.empty()) { if (st.cc && st.cc->me >= 0) { if (st.cur != st.cc->t[st.cc->me].base) violation(st, "coroutine entry function returned"); ccDone(st); return true; } if (st.cur != 0) violation(st, "coroutine entry function returned"); pathFinished(st); return false; }
      if (mk == 2) return true; // destructor callback
      completeCall(st, r); return true; }
    case Instruction::Resume: { const Val& v = ev(f, in.ops[0]); u64 e = v.a()[0].v; killAllocas(st, f); bool nu = f.f->nounwind; std::string nm = cleanName(f.f->F); st.fr.pop_back(); if (nu) violation(st, "exception leaves a noexcept function: " + nm); if (st.fr.empty()) violation(st, "uncaught exception"); unwind(st, e); return true; }
    case Instruction::Call: case Instruction::Invoke: {
      if (in.extra == 1) { // inline asm: only pause-like, no outputs
        if (in.dst >= 0 && !in.I->getType()->isVoidTy()) { unsupported("inline asm with outputs"); }
        if (st.cc) ccYield(st); else if (++st.nsched > 2000000) violation(st, "endless spinning"); completeCall(st, Val()); return true; }
      std::vector<Val> a; a.reserve(in.ops.size()); for (auto& o : in.ops) a.push_back(ev(f, o));
      Function* F = in.callee;
      if (g_verbose && F && !in.intr) { fprintf(stderr, "%*scall %s(", (int)st.fr.size(), "", cleanName(F).substr(0, 100).c_str()); for (auto& v : a) fprintf(stderr, "%s ", v.agg() ? "agg" : v.sym() ? "sym" : hexs(v.v).c_str()); fprintf(stderr, ")\n"); }
      if (!F) { Val fp = a.back(); a.pop_back(); u64 x = concretize(st, fp, "function pointer"); F = funcAt(x); if (!F) violation(st, "call through an invalid function pointer " + describe(st, x)); if (F->isDeclaration()) { in.model = lookupModel(F); in.callee = nullptr; if (in.model < 0) unsupported("indirect call of external " + F->getName().str()); int mid = in.model; in.model = -1; Val out; Function* sv = in.callee; in.callee = F; bool done = runModel(st, mid, in, a, out, f); in.callee = sv; if (done) completeCall(st, out); return true; } pushFrame(st, F, a); return true; }
      if (in.intr) { Val out; runIntrinsic(st, in, a, out); completeCall(st, out); return true; }
      if (in.model >= 0) { Val out; if (runModel(st, in.model, in, a, out, f)) completeCall(st, out); return true; }
      if (F->isDeclaration()) unsupported("call of external function " + cleanName(F) + " [" + F->getName().str() + "]");
      pushFrame(st, F, a); return true; }
    default: unsupported(std::string("instruction ") + in.I->getOpcodeName());
  }
  return true;
}
#include "lsym_main.inc"
