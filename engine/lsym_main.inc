// ---------------------------------------------------------------- module set-up and exploration driver
static std::string g_entry, g_out; static int g_jobs = 1; static u32 g_samplesMax = 6;
static void writeConst(State& st, u64 addr, Constant* C) {
  Type* T = C->getType(); if (isa<UndefValue>(C)) { memFill(st, Val(addr, 64), Val(0, 8), DL->getTypeAllocSize(T)); return; }
  if (isa<ConstantAggregateZero>(C)) { memFill(st, Val(addr, 64), Val(0, 8), DL->getTypeAllocSize(T)); return; }
  if (auto* CS = dyn_cast<ConstantStruct>(C)) { auto* L = DL->getStructLayout(CS->getType()); memFill(st, Val(addr, 64), Val(0, 8), DL->getTypeAllocSize(T)); for (unsigned i = 0; i < CS->getNumOperands(); i++) writeConst(st, addr + L->getElementOffset(i), CS->getOperand(i)); return; }
  if (auto* CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) writeConst(st, addr + i * es, CA->getOperand(i)); return; }
  if (auto* CV = dyn_cast<ConstantVector>(C)) { u64 es = DL->getTypeAllocSize(CV->getType()->getElementType()); for (unsigned i = 0; i < CV->getNumOperands(); i++) writeConst(st, addr + i * es, CV->getOperand(i)); return; }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { u64 es = DL->getTypeAllocSize(CD->getElementType()); for (unsigned i = 0; i < CD->getNumElements(); i++) writeConst(st, addr + i * es, CD->getElementAsConstant(i)); return; }
  Val v = constVal(C); memStore(st, Val(addr, 64), DL->getTypeStoreSize(T), v);
}
static State* initialState() {
  State* st = new State(); cur = st; st->conts.emplace_back(); st->cur = 0; st->nobj = 1; st->mem.push_back(ChunkRef(new Chunk()));
  for (auto& F : *M) globalAddr(&F);
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    u64 sz = G.hasInitializer() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 256; u64 b; u32 id;
    if (!G.hasInitializer() && G.getValueType()->isSized() && DL->getTypeAllocSize(G.getValueType()) > 256) sz = DL->getTypeAllocSize(G.getValueType());
    newObj(*st, sz, G.hasInitializer() ? K_GLOBAL : K_EXTERN, 0x40, &b, &id); Obj* o = wrObj(*st, id); o->tag = strdup(G.getName().str().c_str());
    gaddr[&G] = b; memset(o->st.data(), 1, sz);
  }
  for (auto& G : M->globals()) { if (G.getName().starts_with("llvm.") || !G.hasInitializer()) continue; writeConst(*st, gaddr[&G], G.getInitializer()); if (G.isConstant()) { u32 id; findId(*st, gaddr[&G], id); wrObj(*st, id)->ro = true; } }
  return st;
}
static void runStateToEnd(State* st) {  // runs one state until its path ends, pushing forks on work
  cur = st; try { while (step(*st)) { if ((st->ninst & 0x3fff) == 0 && g_deadline && now_s() > g_deadline) { incomplete("time budget exhausted"); g_stop = true; break; } } } catch (PathEnd&) {}
  R.paths++; if (st->depth > R.depthMax) R.depthMax = st->depth; cur = nullptr;
}
static std::string inputsOf(State& st, Z3_model m) { std::string s; for (auto& p : st.inputs) { u64 x = p.second; if (p.first >= 0) { x = 0; if (m) evalModel(m, st.vars[p.first].a, x); s += st.vars[p.first].name.substr(0, st.vars[p.first].name.find('!')) + "=" + std::to_string(x) + " "; } else s += "-=" + std::to_string(x) + " "; } return s; }
static std::vector<State*>* g_capture = nullptr;
static void pathFinished(State& st) {
  if (g_capture) { State* n = new State(st); g_capture->push_back(n); R.paths_done++; return; }
  R.paths_done++;
  if (R.samples.size() < g_samplesMax) { Z3_model m = st.model; if (!m) check_with(st.pc, nullptr, &m); R.samples.push_back(inputsOf(st, m)); }
}
static bool g_noCtorCapture = false;
static void callTop(State& st, Function* F, const std::vector<Val>& a) { pushFrame(st, F, a); }
static State* runConcrete(State* st, Function* F) { // run F to the end; must not fork
  callTop(*st, F, {}); cur = st; std::vector<State*> cap; auto* sv = g_capture; g_capture = &cap;
  try { while (step(*st)) {} } catch (PathEnd&) { if (R.violated || !R.incomplete.empty()) { g_capture = sv; return nullptr; } }
  g_capture = sv; if (cap.size() != 1) { incomplete("static initialisation did not complete"); return nullptr; }
  if (!work.empty()) { incomplete("static initialisation forked"); } 
  delete st; return cap[0];
}
static State* runCtors(State* st) {
  GlobalVariable* G = M->getGlobalVariable("llvm.global_ctors"); if (!G || !G->hasInitializer()) return st;
  std::vector<std::pair<u64, Function*>> v; if (auto* CA = dyn_cast<ConstantArray>(G->getInitializer())) for (auto& o : CA->operands()) { auto* CS = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(CS->getOperand(1))) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (auto& p : v) { st = runConcrete(st, p.second); if (!st) return nullptr; }
  R.paths = R.paths_done = 0; return st;
}
static void ser(std::string& o) {
  for (auto& kv : fns) if (kv.second->hits) R.fnsHit.insert(cleanName(kv.first));
  auto L = [&](const std::string& k, const std::string& v) { std::string x = v; for (auto& c : x) if (c == '\n') c = '\x01'; o += k + "\t" + x + "\n"; };
  L("paths", std::to_string(R.paths)); L("done", std::to_string(R.paths_done)); L("insts", std::to_string(R.insts)); L("asserts", std::to_string(R.asserts)); L("ac", std::to_string(R.asserts_conc)); L("as", std::to_string(R.asserts_solver)); L("forks", std::to_string(R.forks)); L("killed", std::to_string(R.killed)); L("depth", std::to_string(R.depthMax));
  L("q", std::to_string(g_queries)); L("sat", std::to_string(g_sat)); L("unsat", std::to_string(g_unsat)); L("unk", std::to_string(g_unknown)); L("st", std::to_string(g_solver_time));
  for (auto& x : R.reach) L("reach", x); for (auto& x : R.fnsHit) L("fn", x); for (auto& x : R.samples) L("sample", x);
  if (!R.incomplete.empty()) L("inc", R.incomplete); if (!R.unsupported.empty()) L("uns", R.unsupported);
  if (R.violated) { L("vmsg", R.vmsg); L("vin", R.vinputs); L("vtr", R.vtrace); L("vtl", R.vtrail); }
}
static void deser(const std::string& s) {
  size_t p = 0; bool hadV = R.violated;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) break; std::string l = s.substr(p, e - p); p = e + 1; size_t t = l.find('\t'); std::string k = l.substr(0, t), v = l.substr(t + 1); for (auto& c : v) if (c == '\x01') c = '\n';
    auto N = [&]() { return strtoull(v.c_str(), 0, 10); };
    if (k == "paths") R.paths += N(); else if (k == "done") R.paths_done += N(); else if (k == "insts") R.insts += N(); else if (k == "asserts") R.asserts += N(); else if (k == "ac") R.asserts_conc += N(); else if (k == "as") R.asserts_solver += N(); else if (k == "forks") R.forks += N(); else if (k == "killed") R.killed += N(); else if (k == "depth") R.depthMax = std::max<u64>(R.depthMax, N());
    else if (k == "q") g_queries += N(); else if (k == "sat") g_sat += N(); else if (k == "unsat") g_unsat += N(); else if (k == "unk") g_unknown += N(); else if (k == "st") g_solver_time += atof(v.c_str());
    else if (k == "reach") R.reach.insert(v); else if (k == "fn") R.fnsHit.insert(v); else if (k == "sample") { if (R.samples.size() < g_samplesMax) R.samples.push_back(v); }
    else if (k == "inc") incomplete(v); else if (k == "uns") { if (R.unsupported.empty()) R.unsupported = v; }
    else if (!hadV && k == "vmsg") { R.violated = true; R.vmsg = v; } else if (!hadV && k == "vin") R.vinputs = v; else if (!hadV && k == "vtr") R.vtrace = v; else if (!hadV && k == "vtl") R.vtrail = v; }
}
struct Shm { std::atomic<u32> next; std::atomic<u32> stop; std::atomic<u32> idle; };
static void exploreSerial(bool bfs, size_t limit) {
  while (!work.empty() && !g_stop) {
    if (bfs && work.size() >= limit) return;
    State* s; if (bfs) { s = work.front(); work.erase(work.begin()); } else { s = work.back(); work.pop_back(); }
    runStateToEnd(s); delete s;
    if (g_deadline && now_s() > g_deadline) { if (!work.empty()) incomplete("time budget exhausted"); g_stop = true; }
  }
}
static void exploreAll() {
  if (g_jobs <= 1) { exploreSerial(false, 0); return; }
  double t0 = now_s(); exploreSerial(true, (size_t)g_jobs * 24);
  if (work.empty() || g_stop) return; (void)t0;
  Shm* sh = (Shm*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shm(); sh->next = 0; sh->stop = 0;
  std::vector<State*> items = work; work.clear(); std::vector<pid_t> pids; std::vector<std::string> files;
  for (int j = 0; j < g_jobs; j++) {
    std::string fn = g_out + ".w" + std::to_string(j); files.push_back(fn); fflush(nullptr);
    pid_t p = fork(); if (p == 0) {
      R = Result(); g_queries = g_sat = g_unsat = g_unknown = 0; g_solver_time = 0; for (auto& kv : fns) kv.second->hits = 0;
      for (;;) { u32 i = sh->next.fetch_add(1); if (i >= items.size() || sh->stop.load()) break; work.push_back(items[i]); 
        while (!work.empty() && !g_stop) { State* s = work.back(); work.pop_back(); runStateToEnd(s); delete s; if (sh->stop.load()) g_stop = true; if (g_deadline && now_s() > g_deadline) { incomplete("time budget exhausted"); g_stop = true; } }
        if (R.violated) sh->stop = 1; if (g_stop) break; }
      std::string o; ser(o); FILE* f = fopen(fn.c_str(), "w"); if (f) { fwrite(o.data(), 1, o.size(), f); fputs("END\n", f); fclose(f); } _exit(0); }
    pids.push_back(p);
  }
  for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) incomplete("an exploration worker died"); }
  for (auto& fn : files) { FILE* f = fopen(fn.c_str(), "r"); std::string s; if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); unlink(fn.c_str()); } if (s.size() < 4 || s.substr(s.size() - 4) != "END\n") incomplete("an exploration worker produced no result"); deser(s); }
}
static void writeOut() {
  for (auto& kv : fns) if (kv.second->hits) R.fnsHit.insert(cleanName(kv.first));
  FILE* f = fopen(g_out.c_str(), "w"); if (!f) { perror("out"); exit(3); }
  auto arr = [&](const std::string& n, auto& c) { fprintf(f, "\"%s\":[", n.c_str()); bool first = true; for (auto& x : c) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; } fprintf(f, "],"); };
  fprintf(f, "{\"entry\":\"%s\",\"paths\":%llu,\"paths_completed\":%llu,\"instructions\":%llu,\"assertions\":%llu,\"assertions_concrete\":%llu,\"assertions_solver\":%llu,\"forks\":%llu,\"assumed_away\":%llu,\"max_decisions\":%llu,", jesc(g_entry).c_str(), (unsigned long long)R.paths, (unsigned long long)R.paths_done, (unsigned long long)R.insts, (unsigned long long)R.asserts, (unsigned long long)R.asserts_conc, (unsigned long long)R.asserts_solver, (unsigned long long)R.forks, (unsigned long long)R.killed, (unsigned long long)R.depthMax);
  fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,", (unsigned long long)g_queries, (unsigned long long)g_sat, (unsigned long long)g_unsat, (unsigned long long)g_unknown, g_solver_time, now_s() - g_t0);
  arr("reach", R.reach); arr("functions", R.fnsHit); arr("samples", R.samples);
  fprintf(f, "\"incomplete\":\"%s\",\"unsupported\":\"%s\",\"violated\":%s,\"message\":\"%s\",\"inputs\":\"%s\",\"trace\":\"%s\",\"trail\":\"%s\"}\n", jesc(R.incomplete).c_str(), jesc(R.unsupported).c_str(), R.violated ? "true" : "false", jesc(R.vmsg).c_str(), jesc(R.vinputs).c_str(), jesc(R.vtrace).c_str(), jesc(R.vtrail).c_str());
  fclose(f);
}
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); incomplete(std::string("z3 error ") + Z3_get_error_msg(c, e)); throw PathEnd(); }
int main(int argc, char** argv) {
  std::string bc; double budget = 120; u64 rl = 60000000;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_entry = nx(); else if (a == "--out") g_out = nx(); else if (a == "--time") budget = atof(nx().c_str()); else if (a == "--jobs") g_jobs = atoi(nx().c_str()); else if (a == "--maxinst") g_maxinst = strtoull(nx().c_str(), 0, 10); else if (a == "--maxsched") g_maxsched = strtoull(nx().c_str(), 0, 10); else if (a == "--rlimit") rl = strtoull(nx().c_str(), 0, 10); else if (a == "-v") g_verbose = true; else bc = a; }
  g_t0 = now_s(); g_deadline = g_t0 + budget; Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, z3err);
  S = getenv("LSYM_SAT") ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_solver(Z); Z3_solver_inc_ref(Z, S); Z3_params pr = Z3_mk_params(Z); Z3_params_inc_ref(Z, pr); Z3_params_set_uint(Z, pr, Z3_mk_string_symbol(Z, "rlimit"), 120000u); Z3_solver_set_params(Z, S, pr); if (rl) { g_fallParams = Z3_mk_params(Z); Z3_params_inc_ref(Z, g_fallParams); Z3_params_set_uint(Z, g_fallParams, Z3_mk_string_symbol(Z, "rlimit"), (unsigned)rl); }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(bc, err, C); if (!mod) { err.print("lsym", errs()); return 3; } M = mod.get(); DL = &M->getDataLayout();
  State* st = nullptr; try { st = initialState(); st = runCtors(st); } catch (PathEnd&) { incomplete("initialisation failed"); }
  if (st) {
    { Function* E = M->getFunction(g_entry); if (!E) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
      st->ninst = 0; cur = st; callTop(*st, E, {}); work.push_back(st); exploreAll(); }
  }
  writeOut(); fflush(nullptr); _exit(0);
}
