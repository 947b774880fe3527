// ---------------------------------------------------------------- threads
static void writeConst(State& st, u64 addr, Constant* C);
// sym_threads(n, body, preemptions, stale reads, spurious failures): n threads of the harness run until all have returned.  The thread that
// runs next is chosen before every atomic operation and when one ends or waits; the choice, the message an atomic load reads, and the spurious
// failure of a weak compare-exchange are SMT variables.  Memory: per-location message histories with views (release/acquire, release sequences,
// fences; read-modify-writes and seq_cst loads read the newest message); every non-atomic access is checked for data races with vector clocks.
static void ccReport(State& st, u64 addr, int bad, int kind) {
  static const char* nm[] = {"write", "read", "atomic write", "atomic read"}; int q = (bad - 1) >> 3;
  violation(st, std::string("data race: ") + nm[kind] + " and " + nm[q] + " of two threads without ordering: " + (addr >> 60 == 7 ? "the saved state of a coroutine" : describe(st, addr)));
}
static void ccAccess(State& st, u64 addr, u64 n, int kind) {
  Conc& c = *st.cc; if (c.noTrack || c.me < 0) return; const CCVC& vc = c.t[c.me].vc;
  for (u64 a = addr; a < addr + n;) { u64 w = a & ~7ull, e = std::min(addr + n, w + 8); int bad = c.sh[w].access(c.me, vc, (int)(a - w), (int)(e - w), kind); if (bad) ccReport(st, a, bad, kind); a = e; }
  if (kind == CC_W && !c.loc.empty()) for (auto it = c.loc.lower_bound(addr > 8 ? addr - 8 : 0); it != c.loc.end() && it->first < addr + n;) if (it->first + it->second.bytes > addr) it = c.loc.erase(it); else ++it;
}
static void ccFree(State& st, u64 base, u64 size) {
  Conc& c = *st.cc; const CCVC& vc = c.t[c.me].vc;
  for (auto it = c.sh.lower_bound(base & ~7ull); it != c.sh.end() && it->first < base + size; it = c.sh.erase(it)) { int bad = it->second.access(c.me, vc, 0, 8, CC_W); if (bad) ccReport(st, it->first, bad, CC_W); }
  for (auto it = c.loc.lower_bound(base); it != c.loc.end() && it->first < base + size;) it = c.loc.erase(it);
}
static void ccCont(State& st, int cont) { Conc& c = *st.cc; if (c.me >= 0) ccAccess(st, (7ull << 60) + (u64)cont * 8, 8, CC_W); }
static u64 ccTls(State& st, u64 g) {
  Conc& c = *st.cc; auto k = std::make_pair(g, c.me); auto it = c.tls.find(k); if (it != c.tls.end()) return it->second;
  GlobalVariable* G = globAt(g); if (!G || !G->hasInitializer()) unsupported("thread-local variable"); u64 b; u64 sz = DL->getTypeAllocSize(G->getValueType()); u32 id; newObj(st, sz, K_GLOBAL, 0x40, &b, &id);
  int me = c.me; c.me = -1; writeConst(st, b, G->getInitializer()); c.me = me; c.tls[k] = b; return b;
}
static void ccSave(State& st, CThr& t) { t.fr = std::move(st.fr); st.fr.clear(); t.cur = st.cur; t.caught = std::move(st.caught); st.caught.clear(); }
static void ccLoadT(State& st, CThr& t) { st.fr = std::move(t.fr); t.fr.clear(); st.cur = t.cur; st.caught = std::move(t.caught); t.caught.clear(); }
static void ccInput(State& st, u64 v) { st.inputs.push_back({-1, v}); }
static void ccStart(State& st, std::vector<Val>& a) {
  if (st.cc) unsupported("nested threads"); u64 n = a[0].v; Function* F = funcAt(a[1].v); if (!F || n < 1 || n > CC_MAX) unsupported("sym_threads");
  if (auto* g = M->getNamedGlobal("__libc_single_threaded")) memStore(st, Val(gaddr[g], 64), 1, Val(0, 8));
  st.cc.reset(new Conc()); Conc& c = *st.cc; c.n = (int)n; c.preempt = (int)a[2].v; c.stale = (int)a[3].v; c.spurious = (int)a[4].v; ccSave(st, c.mainT); c.mainT.vc.c[CC_MAIN] = 1; c.t.resize(n);
  for (u64 i = 0; i < n; i++) { CThr& t = c.t[i]; t.vc.c[CC_MAIN] = 1; t.vc.c[i] = 1; t.base = t.cur = (int)st.conts.size(); st.conts.emplace_back(); pushFrame(st, F, {Val(i, 32)}); t.fr = std::move(st.fr); st.fr.clear(); }
  c.needSched = true; R.reach.insert("threads");
}
static void ccDone(State& st) { Conc& c = *st.cc; CThr& t = c.t[c.me]; t.done = true; t.cur = t.base; if (!st.caught.empty()) violation(st, "a thread ends inside an exception handler"); c.me = -1; c.needSched = true; }
// chooses the thread that runs next; true when the running one goes on
static bool ccSwitch(State& st, bool atPoint) {
  Conc& c = *st.cc; int alive = 0; for (auto& t : c.t) alive += !t.done;
  if (!alive) { CThr m = std::move(c.mainT); st.cc.reset(); ccLoadT(st, m); completeCall(st, Val()); return false; }
  bool meOk = atPoint && !c.t[c.me].waiting; int pick;
  if (!c.pend.w) {
    std::vector<int> cand; if (meOk) cand.push_back(c.me);
    for (int i = 0; i < c.n; i++) if (!(atPoint && i == c.me) && !c.t[i].done && !c.t[i].waiting && (!meOk || c.preempt > 0)) cand.push_back(i);
    if (cand.empty()) {  // all wait: let them look again in turn, a few times
      if (++c.stuck > 40) violation(st, "endless waiting: every thread waits for another one");
      for (int i = 1; i <= c.n && cand.empty(); i++) { int k = (c.last + i) % c.n; if (!c.t[k].done) cand.push_back(k); }
    }
    if (++c.points > g_maxsched) violation(st, "endless waiting: no end of the threads within " + std::to_string(g_maxsched) + " atomic operations");
    if (cand.size() == 1) { ccInput(st, cand[0]); pick = cand[0]; }
    else { Val v = freshVar(st, "sched", 3); st.inputs.push_back({(int)st.vars.size() - 1, 0}); Z3_ast any = nullptr; for (int i : cand) { Z3_ast e = keep(Z3_mk_eq(Z, v.s, bvnum(i, 3))); any = any ? zor(any, e) : e; } st.pc.push_back(any); st.model = nullptr; c.pend = v; }
  }
  if (c.pend.w) { Val v = c.pend; pick = (int)concretize(st, v, "schedule"); c.pend = Val(); }
  c.last = pick; c.t[pick].waiting = false; if (atPoint && pick == c.me) return true;
  if (meOk) c.preempt--; c.switches++;
  if (atPoint) { ccSave(st, c.t[c.me]); c.t[c.me].atPoint = true; }
  c.needSched = false; c.me = pick; ccLoadT(st, c.t[pick]);
  c.granted = c.t[pick].atPoint; c.t[pick].atPoint = false;  // a thread taken up again stands before the atomic operation it was stopped at
  return false;
}
static void ccYield(State& st) {
  Conc& c = *st.cc; if (c.me < 0) return; bool older = false; for (auto& kv : c.loc) { int last = (int)kv.second.ms.size() - 1; if (kv.second.seen[c.me] < last) { older = true; kv.second.seen[c.me] = last; } }
  c.t[c.me].idle = 0; if (!older) c.t[c.me].waiting = true;
}
static void ccIdle(State& st) { Conc& c = *st.cc; if (++c.t[c.me].idle >= 24) ccYield(st); }
static void ccChanged(State& st) { Conc& c = *st.cc; c.t[c.me].idle = 0; c.stuck = 0; for (int i = 0; i < c.n; i++) if (i != c.me) c.t[i].waiting = false; }
static u64 ccAddr(State& st, const Val& p, u32 by, int kind) {
  u64 a = concretize(st, p, "the address of an atomic"); if (isReg(a)) unsupported("atomic in a region of symbolic size"); u64 off; u32 id = resolve(st, a, by, kind == CC_AW, off);
  if (getObj(st, id)->kind != K_STACK) ccAccess(st, a, by, kind); return a;
}
static CLoc& ccLoc(State& st, u64 a, u32 by, u32 w) {
  Conc& c = *st.cc; CLoc& l = c.loc[a]; if (l.ms.empty() || l.bytes != by) { u64 off; u32 id = resolve(st, a, by, false, off); l = CLoc(); l.bytes = by; CMsg m; m.v = loadBytes(st, id, off, by, w); m.tid = CC_MAIN; m.clk = 0; l.ms.push_back(m); }
  return l;
}
static void ccRead(Conc& c, CThr& t, const CMsg& m, int ord) { if (ccAcq(ord)) t.vc.join(m.rel); else t.acqP.join(m.rel); (void)c; }
static void ccPut(State& st, CLoc& l, u64 a, u32 by, const Val& v, int ord, const CCVC* seq) {
  Conc& c = *st.cc; CThr& t = c.t[c.me]; u64 off; u32 id = resolve(st, a, by, true, off); storeBytes(st, id, off, by, v);
  if (ord == 7) { t.vc.join(c.sc); }
  CMsg m; m.v = v; m.rel = ccRel(ord) ? t.vc : t.relF; if (seq) m.rel.join(*seq); m.tid = c.me; m.clk = t.vc.c[c.me]; l.ms.push_back(m); l.seen[c.me] = (int)l.ms.size() - 1;
  if (ord == 7) c.sc.join(t.vc); if (ccRel(ord)) t.vc.c[c.me]++;
}
static bool sameVal(const Val& a, const Val& b) { return !a.sym() && !b.sym() && a.v == b.v; }
static Val ccLoad(State& st, const Val& p, u32 by, u32 w, int ord) {
  u64 a = ccAddr(st, p, by, CC_AR); Conc& c = *st.cc; if (c.me < 0) return memLoad(st, p, by, w); CLoc& l = ccLoc(st, a, by, w); CThr& t = c.t[c.me]; int last = (int)l.ms.size() - 1, lo = l.seen[c.me];
  for (int i = last; i > lo; i--) if (t.vc.c[l.ms[i].tid] >= l.ms[i].clk) { lo = i; break; }
  int age = 0, ages = std::min(last - lo, 2);
  if (ages > 0 && c.stale > 0 && ord != 7) {
    if (!c.pend2.w) { Val v = freshVar(st, "age", 2); st.inputs.push_back({(int)st.vars.size() - 1, 0}); st.pc.push_back(keep(Z3_mk_bvule(Z, v.s, bvnum(ages, 2)))); st.model = nullptr; c.pend2 = v; }
    Val v = c.pend2; age = (int)concretize(st, v, "message"); c.pend2 = Val(); if (age) c.stale--;
  } else ccInput(st, 0);
  CMsg m = l.ms[last - age]; l.seen[c.me] = std::max(lo, last - age); ccRead(c, t, m, ord); ccIdle(st); return m.v;
}
static void ccStore(State& st, const Val& p, u32 by, const Val& v, int ord) {
  u64 a = ccAddr(st, p, by, CC_AW); if (st.cc->me < 0) { memStore(st, p, by, v); return; } CLoc& l = ccLoc(st, a, by, v.w); bool same = sameVal(l.ms.back().v, v); ccPut(st, l, a, by, v, ord, nullptr); if (same) ccIdle(st); else ccChanged(st);
}
static Val ccRmw(State& st, const Val& p, u32 by, u32 w, int ord, const std::function<Val(const Val&)>& fn) {
  u64 a = ccAddr(st, p, by, CC_AW); Conc& c = *st.cc; CLoc& l = ccLoc(st, a, by, w); CMsg m = l.ms.back(); ccRead(c, c.t[c.me], m, ord); Val nv = fn(m.v); bool same = sameVal(m.v, nv); ccPut(st, l, a, by, nv, ord, &m.rel); if (same) ccIdle(st); else ccChanged(st); return m.v;
}
static bool ccCas(State& st, const Val& p, u32 by, u32 w, int so, int fo, bool weak, const Val& e, const Val& nv, Val& old) {
  Conc& c = *st.cc; u64 a = concretize(st, p, "the address of an atomic"); CLoc& l0 = ccLoc(st, a, by, w); Val cur_ = l0.ms.back().v; Val eqv = icmp(CmpInst::ICMP_EQ, cur_, e); bool ok = eqv.sym() ? decide(st, tobool(eqv)) : eqv.v != 0;
  if (ok) {
    if (weak && c.spurious > 0) { if (!c.pend2.w) { c.pend2 = freshVar(st, "weak_fails", 1); st.inputs.push_back({(int)st.vars.size() - 1, 0}); st.model = nullptr; } Val v = c.pend2; u64 x = concretize(st, v, "spurious failure"); c.pend2 = Val(); if (x) { c.spurious--; ok = false; } }
    else ccInput(st, 0);
  }
  ccAddr(st, p, by, ok ? CC_AW : CC_AR); CLoc& l = ccLoc(st, a, by, w); CMsg m = l.ms.back(); old = m.v; l.seen[c.me] = (int)l.ms.size() - 1; ccRead(c, c.t[c.me], m, ok ? so : fo);
  if (!ok) { ccIdle(st); return false; }
  bool same = sameVal(m.v, nv); ccPut(st, l, a, by, nv, so, &m.rel); if (same) ccIdle(st); else ccChanged(st); return true;
}
static void ccFence(State& st, int ord) {
  Conc& c = *st.cc; if (c.me < 0) return; CThr& t = c.t[c.me]; if (ccAcq(ord)) t.vc.join(t.acqP); if (ord == 7) { t.vc.join(c.sc); c.sc.join(t.vc); } if (ccRel(ord)) { t.relF = t.vc; t.vc.c[c.me]++; }
}
