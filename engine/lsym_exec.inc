// ---------------------------------------------------------------- function compilation
static Val constVal(Constant* C);
static u64 globalAddr(GlobalValue* G);
static u32 tyw(Type* T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isFloatTy()) return 32; if (T->isDoubleTy()) return 64; if (T->isX86_FP80Ty()) return 80;
  if (T->isStructTy() || T->isArrayTy()) return WAGG;
  if (T->isVoidTy()) return 0;
  if (T->isVectorTy()) return WAGG;
  return 0;
}
static Val zeroVal(Type* T) {
  if (auto* STy = dyn_cast<StructType>(T)) { Agg a; for (auto* e : STy->elements()) a.push_back(zeroVal(e)); return mkAgg(std::move(a)); }
  if (auto* A = dyn_cast<ArrayType>(T)) { Agg a; for (u64 i = 0; i < A->getNumElements(); i++) a.push_back(zeroVal(A->getElementType())); return mkAgg(std::move(a)); }
  if (auto* A = dyn_cast<FixedVectorType>(T)) { Agg a; for (u64 i = 0; i < A->getNumElements(); i++) a.push_back(zeroVal(A->getElementType())); return mkAgg(std::move(a)); }
  u32 w = tyw(T); if (w > 64) { Val r; r.w = w; r.s = bvnum(0, w); return r; }
  return Val(0, w);
}
static Val constVal(Constant* C) {
  Type* T = C->getType();
  if (auto* CI = dyn_cast<ConstantInt>(C)) {
    u32 w = CI->getBitWidth(); if (w <= 64) return Val(CI->getZExtValue(), w);
    SmallString<64> s; CI->getValue().toStringUnsigned(s); Val r; r.w = w; r.s = keep(Z3_mk_numeral(Z, s.c_str(), BV(w))); return r;
  }
  if (isa<ConstantPointerNull>(C)) return Val(0, 64);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroVal(T);
  if (auto* F = dyn_cast<ConstantFP>(C)) { APInt b = F->getValueAPF().bitcastToAPInt(); return Val(b.getRawData()[0], b.getBitWidth() > 64 ? 64 : b.getBitWidth()); }
  if (auto* G = dyn_cast<GlobalValue>(C)) return Val(globalAddr(G), 64);
  if (auto* CS = dyn_cast<ConstantAggregate>(C)) { Agg a; for (auto& o : CS->operands()) a.push_back(constVal(cast<Constant>(o))); return mkAgg(std::move(a)); }
  if (auto* CD = dyn_cast<ConstantDataSequential>(C)) { Agg a; for (unsigned i = 0; i < CD->getNumElements(); i++) a.push_back(constVal(CD->getElementAsConstant(i))); return mkAgg(std::move(a)); }
  if (auto* CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) unsupported("constant gep"); Val b = constVal(CE->getOperand(0)); return Val(b.v + off.getZExtValue(), 64); }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: { Val b = constVal(CE->getOperand(0)); return Val(b.v, tyw(T)); }
      case Instruction::Add: { Val a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1)); return Val(a.v + b.v, a.w); }
      case Instruction::Sub: { Val a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1)); return Val(a.v - b.v, a.w); }
      case Instruction::ICmp: { Val a = constVal(CE->getOperand(0)), b = constVal(CE->getOperand(1)); bool r = CE->getPredicate() == CmpInst::ICMP_EQ ? a.v == b.v : a.v != b.v; return Val(r, 1); }
      default: break;
    }
  }
  if (auto* E = dyn_cast<DSOLocalEquivalent>(C)) return constVal(E->getGlobalValue());
  std::string s; raw_string_ostream os(s); C->print(os); unsupported("constant " + os.str()); return Val();
}
static u64 globalAddr(GlobalValue* G) {
  if (auto* F = dyn_cast<Function>(G)) { auto it = funcAddr.find(F); if (it != funcAddr.end()) return it->second; u64 a = FUNC0 + funcByIdx.size() * 16; funcByIdx.push_back(F); funcAddr[F] = a; return a; }
  if (auto* A = dyn_cast<GlobalAlias>(G)) return constVal(A->getAliasee()).v;
  auto* V = cast<GlobalVariable>(G); auto it = gaddr.find(V); if (it == gaddr.end()) { unsupported("global " + V->getName().str()); return 0; } return it->second;
}
static Function* funcAt(u64 a) { if (a < FUNC0 || (a & 15)) return nullptr; u64 i = (a - FUNC0) / 16; return i < funcByIdx.size() ? funcByIdx[i] : nullptr; }
static int lookupModel(Function* F);
static FnInfo* getFn(Function* F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  FnInfo* fi = new FnInfo(); fi->F = F; fns[F] = fi; fi->nounwind = F->doesNotThrow(); fi->hid = fns.size();
  DenseMap<Value*, int> slot; int n = 0; for (auto& A : F->args()) slot[&A] = n++;
  int bi = 0; for (auto& B : *F) { fi->bbidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi->nslots = n;
  auto op = [&](Value* V) { Opnd o; if (auto* C = dyn_cast<Constant>(V)) { o.slot = -1; o.c = constVal(C); } else if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) { o.slot = -1; } else { auto s = slot.find(V); if (s == slot.end()) { o.slot = -1; } else o.slot = s->second; } return o; };
  for (auto& B : *F) {
    fi->bbs.emplace_back(); BBInfo& bb = fi->bbs.back(); bb.bb = &B;
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) {
        bb.nphi++; bb.phidst.push_back(slot[P]); std::vector<std::pair<int, Opnd>> v;
        for (unsigned k = 0; k < P->getNumIncomingValues(); k++) v.push_back({fi->bbidx[P->getIncomingBlock(k)], op(P->getIncomingValue(k))});
        bb.phis.push_back(v); continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins in; in.I = &I; in.opc = I.getOpcode(); in.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; in.w = tyw(I.getType()); in.w2 = 0; in.extra = 0;
      if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (I.getType()->isVectorTy() || !cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co)) { in.opc = 9999; }
        else { in.extra = co.getZExtValue(); in.ops.push_back(op(G->getPointerOperand())); for (auto& kv : vo) { GepIdx gi; gi.o = op(kv.first); gi.scale = kv.second.getZExtValue(); gi.w = tyw(kv.first->getType()); in.gidx.push_back(gi); } }
        bb.ins.push_back(in); continue;
      }
      if (auto* CB = dyn_cast<CallBase>(&I)) {
        for (auto& A : CB->args()) in.ops.push_back(op(A.get()));
        in.callee = CB->getCalledFunction();
        if (!in.callee) { if (auto* AL = dyn_cast<GlobalAlias>(CB->getCalledOperand()->stripPointerCasts())) in.callee = dyn_cast<Function>(AL->getAliaseeObject()); }
        if (CB->isInlineAsm()) in.extra = 1; else if (!in.callee) in.ops.push_back(op(CB->getCalledOperand()));
        if (in.callee) { in.intr = in.callee->getIntrinsicID(); in.model = lookupModel(in.callee); }
        if (auto* IV = dyn_cast<InvokeInst>(&I)) { in.succ[0] = fi->bbidx[IV->getNormalDest()]; in.succ[1] = fi->bbidx[IV->getUnwindDest()]; }
        bb.ins.push_back(in); continue;
      }
      for (auto& O : I.operands()) in.ops.push_back(op(O.get()));
      if (auto* L = dyn_cast<LoadInst>(&I)) { in.w2 = DL->getTypeStoreSize(L->getType()); in.ty = L->getType(); }
      else if (auto* St = dyn_cast<StoreInst>(&I)) { in.w2 = DL->getTypeStoreSize(St->getValueOperand()->getType()); in.ty = St->getValueOperand()->getType(); in.w = tyw(in.ty); }
      else if (auto* A = dyn_cast<AllocaInst>(&I)) { in.extra = DL->getTypeAllocSize(A->getAllocatedType()); in.align = A->getAlign().value(); }
      else if (auto* Br = dyn_cast<BranchInst>(&I)) { in.succ[0] = fi->bbidx[Br->getSuccessor(0)]; if (Br->isConditional()) in.succ[1] = fi->bbidx[Br->getSuccessor(1)]; }
      else if (isa<CastInst>(&I) || isa<ICmpInst>(&I)) { in.w2 = tyw(I.getOperand(0)->getType()); }
      bb.ins.push_back(in);
    }
  }
  return fi;
}

// ---------------------------------------------------------------- expression helpers
static Val vAdd(const Val& a, const Val& b) { if (!a.sym() && !b.sym()) return Val(a.v + b.v, a.w); return fromast(Z3_mk_bvadd(Z, toast(a), toast(b)), a.w); }
static Val vSub(const Val& a, const Val& b) { if (!a.sym() && !b.sym()) return Val(a.v - b.v, a.w); return fromast(Z3_mk_bvsub(Z, toast(a), toast(b)), a.w); }
static Val binop(unsigned opc, const Val& a, const Val& b) {
  u32 w = a.w;
  if (a.agg() || b.agg()) unsupported("vector arithmetic");
  if (!a.sym() && !b.sym() && w <= 64) {
    u64 x = a.v, y = b.v;
    switch (opc) {
      case Instruction::Add: return Val(x + y, w); case Instruction::Sub: return Val(x - y, w); case Instruction::Mul: return Val(x * y, w);
      case Instruction::And: return Val(x & y, w); case Instruction::Or: return Val(x | y, w); case Instruction::Xor: return Val(x ^ y, w);
      case Instruction::Shl: return Val(y >= w ? 0 : x << y, w); case Instruction::LShr: return Val(y >= w ? 0 : x >> y, w);
      case Instruction::AShr: return Val((u64)(sext64(x, w) >> (y >= w ? w - 1 : y)), w);
      case Instruction::UDiv: if (!y) violation(*cur, "division by zero"); return Val(x / y, w); case Instruction::URem: if (!y) violation(*cur, "division by zero"); return Val(x % y, w);
      case Instruction::SDiv: if (!y) violation(*cur, "division by zero"); return Val((u64)(sext64(x, w) / sext64(y, w)), w);
      case Instruction::SRem: if (!y) violation(*cur, "division by zero"); return Val((u64)(sext64(x, w) % sext64(y, w)), w);
    }
  }
  Z3_ast p = toast(a), q = toast(b); Z3_ast r = nullptr;
  if (opc == Instruction::UDiv || opc == Instruction::URem || opc == Instruction::SDiv || opc == Instruction::SRem) {
    Z3_ast z = keep(Z3_mk_eq(Z, q, bvnum(0, w))); if (feasible(*cur, z)) { violation(*cur, "division by zero", z); }
  }
  switch (opc) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, p, q); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, p, q); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, p, q); break;
    case Instruction::And: r = Z3_mk_bvand(Z, p, q); break; case Instruction::Or: r = Z3_mk_bvor(Z, p, q); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, p, q); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, p, q); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, p, q); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, p, q); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, p, q); break; case Instruction::URem: r = Z3_mk_bvurem(Z, p, q); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, p, q); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, p, q); break;
    default: unsupported("binop");
  }
  return fromast(r, w);
}
static Val icmp(CmpInst::Predicate pr, const Val& a, const Val& b) {
  u32 w = a.w; if (a.agg()) unsupported("vector icmp");
  if (!a.sym() && !b.sym()) {
    u64 x = a.v, y = b.v; int64_t sx = sext64(x, w), sy = sext64(y, w); bool r = false;
    switch (pr) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; default: unsupported("icmp"); }
    return Val(r, 1);
  }
  Z3_ast p = toast(a), q = toast(b), c = nullptr;
  switch (pr) { case CmpInst::ICMP_EQ: c = Z3_mk_eq(Z, p, q); break; case CmpInst::ICMP_NE: c = Z3_mk_not(Z, keep(Z3_mk_eq(Z, p, q))); break; case CmpInst::ICMP_UGT: c = Z3_mk_bvugt(Z, p, q); break; case CmpInst::ICMP_UGE: c = Z3_mk_bvuge(Z, p, q); break; case CmpInst::ICMP_ULT: c = Z3_mk_bvult(Z, p, q); break; case CmpInst::ICMP_ULE: c = Z3_mk_bvule(Z, p, q); break; case CmpInst::ICMP_SGT: c = Z3_mk_bvsgt(Z, p, q); break; case CmpInst::ICMP_SGE: c = Z3_mk_bvsge(Z, p, q); break; case CmpInst::ICMP_SLT: c = Z3_mk_bvslt(Z, p, q); break; case CmpInst::ICMP_SLE: c = Z3_mk_bvsle(Z, p, q); break; default: unsupported("icmp"); }
  return frombool(keep(c));
}
static Val castTo(unsigned opc, const Val& a, u32 w) {
  if (a.agg()) unsupported("vector cast");
  switch (opc) {
    case Instruction::Trunc: if (!a.sym()) return Val(a.v, w); return fromast(Z3_mk_extract(Z, w - 1, 0, a.s), w);
    case Instruction::ZExt: if (!a.sym() && w <= 64) return Val(a.v, w); return fromast(Z3_mk_zero_ext(Z, w - a.w, toast(a)), w);
    case Instruction::SExt: if (!a.sym() && w <= 64) return Val((u64)sext64(a.v, a.w), w); return fromast(Z3_mk_sign_ext(Z, w - a.w, toast(a)), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: if (w < a.w) return castTo(Instruction::Trunc, a, w); if (w > a.w) return castTo(Instruction::ZExt, a, w); { Val r = a; r.w = w; return r; }
    case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val r = a; r.w = w; return r; }
  }
  if (a.sym()) unsupported("floating point on symbolic value");
  auto d = [&](u64 x, u32 ww) { if (ww == 32) { float f; u32 y = (u32)x; memcpy(&f, &y, 4); return (double)f; } double f; memcpy(&f, &x, 8); return f; };
  auto e = [&](double x, u32 ww) { if (ww == 32) { float f = (float)x; u32 y; memcpy(&y, &f, 4); return Val(y, 32); } u64 y; memcpy(&y, &x, 8); return Val(y, 64); };
  switch (opc) {
    case Instruction::UIToFP: return e((double)a.v, w); case Instruction::SIToFP: return e((double)sext64(a.v, a.w), w);
    case Instruction::FPToUI: return Val((u64)d(a.v, a.w), w); case Instruction::FPToSI: return Val((u64)(int64_t)d(a.v, a.w), w);
    case Instruction::FPExt: case Instruction::FPTrunc: return e(d(a.v, a.w), w);
  }
  unsupported("cast"); return Val();
}

// ---------------------------------------------------------------- forking / concretisation
static State* forkState(State& st) { State* n = new State(st); R.forks++; n->depth++; return n; }
static void pushWork(State* s) { work.push_back(s); }
// make v concrete in st by forking; the other values are explored by a clone that re-executes the instruction
static u64 concretize(State& st, const Val& v, const char* why) {
  if (!v.sym()) return v.v;
  Z3_model m = nullptr; if (!st.model) { int r = check_with(st.pc, nullptr, &m); if (r == 0) throw PathEnd(); if (r < 0) { incomplete("solver unknown"); throw PathEnd(); } st.model = m; }
  u64 x = 0; if (!evalModel(st.model, v.s, x)) unsupported("model eval");
  Z3_ast eq = keep(Z3_mk_eq(Z, v.s, bvnum(x, v.w))); Z3_ast ne = znot(eq);
  Z3_model m2 = nullptr; int r = check_with(st.pc, ne, &m2); if (r < 0) incomplete("solver unknown");
  if (r == 1) {
    u64& cnt = st.opts[0x80000000u]; if (++cnt > 600) { incomplete(std::string("too many values while concretising ") + why); throw PathEnd(); }
    if (g_verbose) { std::string tr; dumpTrail(st, tr); std::string vs; for (auto& q : st.vars) { u64 y = 0; evalModel(st.model, q.a, y); vs += q.name + "=" + std::to_string(y) + " "; } fprintf(stderr, "CONCRETISE %s %llx %s | %s\n", why, (unsigned long long)x, tr.substr(0, 150).c_str(), vs.c_str()); }
    State* n = forkState(st); n->pc.push_back(ne); n->model = m2; pushWork(n); }
  st.pc.push_back(eq); st.opts[0x80000000u] = 0; return x;
}
// decide a boolean; forks when both are possible. Returns the value for st.  The clone re-executes the instruction.
static bool decide(State& st, Z3_ast c) {
  Z3_lbool b = Z3_get_bool_value(Z, c); if (b != Z3_L_UNDEF) return b == Z3_L_TRUE;
  Z3_ast nc = znot(c); Z3_model m1 = nullptr, m2 = nullptr; bool t = feasible(st, c, &m1), f = feasible(st, nc, &m2);
  if (t && f) { State* n = forkState(st); n->pc.push_back(nc); n->model = m2; pushWork(n); st.pc.push_back(c); st.model = m1; return true; }
  if (!t && !f) throw PathEnd();
  if (t) { st.pc.push_back(c); return true; } st.pc.push_back(nc); return false;
}

// ---------------------------------------------------------------- symbolic-size regions
struct RegTab { std::map<u64, SymReg>& m; };
static RegTab regs(State& st) { return RegTab{st.sregs}; }

static Val memLoad(State& st, const Val& addr, u32 bytes, u32 w, int ord = 0);
static void memStore(State& st, const Val& addr, u32 bytes, const Val& v, int ord = 0);

static bool isReg(u64 a) { return a >= SYMREG0; }
// locate a possibly symbolic address; returns region id or concrete address
static bool locate(State& st, const Val& addr, u64& conc, u64& rid, Z3_ast& idx) {
  if (!addr.sym()) { if (!isReg(addr.v)) { conc = addr.v; return false; } rid = (addr.v - SYMREG0) >> SYMSH; idx = bvnum((addr.v - SYMREG0) & ((1ull << SYMSH) - 1), 64); return true; }
  RegTab rt = regs(st);
  for (auto& kv : rt.m) {
    u64 lo = SYMREG0 + (kv.first << SYMSH); // slot start; the region's base is lo + 2^40 so that small negative offsets stay in the slot
    Z3_ast d = keep(Z3_mk_bvsub(Z, addr.s, bvnum(lo, 64))); Z3_ast in = keep(Z3_simplify(Z, keep(Z3_mk_bvult(Z, d, bvnum(1ull << SYMSH, 64)))));
    if (feasible(st, in)) { if (decide(st, in)) { rid = kv.first; idx = keep(Z3_simplify(Z, d)); return true; } }
  }
  conc = concretize(st, addr, "an address"); return false;
}
static const u64 REGOFF = 1ull << 40;
static void regBounds(State& st, SymReg& r, Z3_ast idx, u64 n, bool write) {
  // idx must be within [REGOFF, REGOFF+size-n]
  if (r.alive && !r.hasProt) for (auto it = st.inb.rbegin(); it != st.inb.rend(); ++it) if (std::get<0>(*it) == r.size) { Z3_ast dd = keep(Z3_simplify(Z, keep(Z3_mk_bvsub(Z, idx, std::get<1>(*it))))); u64 k; if (Z3_get_ast_kind(Z, dd) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, dd, &k) && k <= std::get<2>(*it) && n <= std::get<2>(*it) - k) return; }
  Z3_ast d = keep(Z3_mk_bvsub(Z, idx, bvnum(REGOFF, 64)));
  Z3_ast ok = zand(keep(Z3_mk_bvule(Z, bvnum(n, 64), r.size)), keep(Z3_mk_bvule(Z, d, keep(Z3_mk_bvsub(Z, r.size, bvnum(n, 64))))));
  Z3_ast bad = keep(Z3_simplify(Z, znot(ok)));
  if (feasible(st, bad)) violation(st, std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(n) + " bytes at a symbolic offset of a " + okname[r.kind] + " region", bad);
  if (!r.alive) violation(st, std::string(write ? "write" : "read") + " after free of a " + okname[r.kind] + " region");
  st.inb.push_back(std::make_tuple(r.size, idx, n));
  if (r.hasProt) { // no access inside [0, protHi)
    Z3_ast pb = keep(Z3_simplify(Z, keep(Z3_mk_bvult(Z, d, r.protHi)))); if (feasible(st, pb)) violation(st, std::string(write ? "write" : "read") + " inside a guard page", pb);
  }
}
// can [idx, idx+bytes) overlap the entry? a "no" stays true on every continuation of the path
static bool mayOverlap(State& st, Z3_ast idx, u32 bytes, const SymW& e) {
  auto key = std::make_tuple((void*)idx, (void*)e.idx, (u64)e.n, (u64)bytes); if (st.apart.count(key)) return false;
  Z3_ast d = keep(Z3_simplify(Z, keep(Z3_mk_bvsub(Z, idx, e.idx)))); u64 k;
  if (Z3_get_ast_kind(Z, d) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, d, &k)) return k < e.n || 0 - k < bytes;
  Z3_ast c = keep(Z3_simplify(Z, keep(Z3_mk_bvult(Z, keep(Z3_mk_bvadd(Z, d, bvnum(bytes - 1, 64))), bvnum(e.n + bytes - 1, 64)))));
  if (feasible(st, c)) return true; st.apart.insert(key); return false;
}
static bool regByte(State& st, SymReg& r, Z3_ast idx, Val& out, const SymW** srcE, u64* srcOff, const std::vector<char>* skip = nullptr) {
  size_t pos = r.log.size();
  for (auto it = r.log.rbegin(); it != r.log.rend(); ++it) {
    pos--; if (skip && pos < skip->size() && (*skip)[pos]) continue;
    Z3_ast d = keep(Z3_simplify(Z, keep(Z3_mk_bvsub(Z, idx, it->idx)))); u64 k;
    if (Z3_get_ast_kind(Z, d) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, d, &k)) {
      if (k < it->n) { *srcE = &*it; *srcOff = k; if (it->fill || !it->v.sym()) out = Val(it->fill ? it->v.v : (k < 8 ? it->v.v >> (8 * k) : 0), 8); else out = fromast(Z3_mk_extract(Z, k * 8 + 7, k * 8, it->v.s), 8); return true; }
      continue;
    }
    Z3_ast in = keep(Z3_mk_bvult(Z, d, bvnum(it->n, 64)));
    if (!feasible(st, in)) continue;
    u64 kk = concretize(st, fromast(d, 64), "a region offset");
    if (kk < it->n) { *srcE = &*it; *srcOff = kk; if (it->fill || !it->v.sym()) out = Val(it->fill ? it->v.v : (kk < 8 ? it->v.v >> (8 * kk) : 0), 8); else out = fromast(Z3_mk_extract(Z, kk * 8 + 7, kk * 8, it->v.s), 8); return true; }
  }
  return false;
}
static Val regLoad(State& st, SymReg& r, Z3_ast idx, u32 bytes, u32 w) {
  regBounds(st, r, idx, bytes, false);
  Z3_ast acc = nullptr; bool allc = true; u64 cv = 0; const SymW* e0 = nullptr; u64 o0 = 0; bool whole = true;
  std::vector<Val> bs(bytes); std::vector<char> skip(r.log.size(), 0); for (size_t i = 0; i < skip.size(); i++) skip[i] = !mayOverlap(st, idx, bytes, r.log[i]);
  for (u32 i = 0; i < bytes; i++) {
    Z3_ast ii = i ? keep(Z3_simplify(Z, keep(Z3_mk_bvadd(Z, idx, bvnum(i, 64))))) : idx; const SymW* e = nullptr; u64 o = 0;
    if (!regByte(st, r, ii, bs[i], &e, &o, &skip)) { Val f = freshVar(st, "uninit", 8); SymW nw; nw.idx = ii; nw.n = 1; nw.v = f; nw.fill = false; r.log.insert(r.log.begin(), nw); skip.insert(skip.begin(), 0); bs[i] = f; whole = false; e = nullptr; e0 = nullptr; }
    if (i == 0) { e0 = e; o0 = o; } if (!e || e != e0 || o != o0 + i) whole = false;
    if (bs[i].sym()) allc = false; else if (i < 8) cv |= (bs[i].v & 0xff) << (8 * i);
  }
  if (allc && bytes <= 8) return Val(cv, w);
  if (whole && e0 && !e0->fill && o0 == 0 && e0->n == bytes && e0->v.w == w) return e0->v;
  for (int i = (int)bytes - 1; i >= 0; i--) acc = acc ? keep(Z3_mk_concat(Z, acc, toast(bs[i]))) : toast(bs[i]);
  if (w != bytes * 8) acc = keep(Z3_mk_extract(Z, w - 1, 0, acc));
  return fromast(acc, w);
}
static void regStore(State& st, SymReg& r, Z3_ast idx, u32 bytes, Val v) {
  regBounds(st, r, idx, bytes, true);
  if (v.w != bytes * 8) v = castTo(Instruction::ZExt, v, bytes * 8);
  SymW nw; nw.idx = idx; nw.n = bytes; nw.v = v; nw.fill = false;
  if (!r.log.empty() && r.log.back().idx == idx && r.log.back().n == bytes) r.log.back() = nw; else r.log.push_back(nw);
}
static Val memLoad(State& st, const Val& addr, u32 bytes, u32 w, int ord) {
  u64 c, rid; Z3_ast idx;
  if (locate(st, addr, c, rid, idx)) { auto rt = regs(st); auto it = rt.m.find(rid); if (it == rt.m.end()) violation(st, "read from a wild pointer"); return regLoad(st, it->second, idx, bytes, w); }
  u64 off; u32 id = resolve(st, c, bytes, false, off);
  return loadBytes(st, id, off, bytes, w);
}
static void memStore(State& st, const Val& addr, u32 bytes, const Val& v, int ord) {
  u64 c, rid; Z3_ast idx;
  if (locate(st, addr, c, rid, idx)) { auto rt = regs(st); auto it = rt.m.find(rid); if (it == rt.m.end()) violation(st, "write to a wild pointer"); regStore(st, it->second, idx, bytes, v); return; }
  u64 off; u32 id = resolve(st, c, bytes, true, off);
  storeBytes(st, id, off, bytes, v);
}
static void storeVal(State& st, const Val& addr, Type* T, const Val& v, int ord = 0) {
  if (v.agg()) {
    if (auto* STy = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(STy); for (unsigned i = 0; i < STy->getNumElements(); i++) storeVal(st, vAdd(addr, Val(L->getElementOffset(i), 64)), STy->getElementType(i), v.a()[i]); return; }
    Type* E = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<FixedVectorType>(T)->getElementType(); u64 es = DL->getTypeAllocSize(E);
    for (size_t i = 0; i < v.a().size(); i++) storeVal(st, vAdd(addr, Val(i * es, 64)), E, v.a()[i]); return;
  }
  memStore(st, addr, DL->getTypeStoreSize(T), v, ord);
}
static Val loadVal(State& st, const Val& addr, Type* T, int ord = 0) {
  if (auto* STy = dyn_cast<StructType>(T)) { auto* L = DL->getStructLayout(STy); Agg a; for (unsigned i = 0; i < STy->getNumElements(); i++) a.push_back(loadVal(st, vAdd(addr, Val(L->getElementOffset(i), 64)), STy->getElementType(i))); return mkAgg(std::move(a)); }
  if (isa<ArrayType>(T) || isa<FixedVectorType>(T)) { Type* E = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<FixedVectorType>(T)->getElementType(); u64 n = isa<ArrayType>(T) ? cast<ArrayType>(T)->getNumElements() : cast<FixedVectorType>(T)->getNumElements(); u64 es = DL->getTypeAllocSize(E); Agg a; for (u64 i = 0; i < n; i++) a.push_back(loadVal(st, vAdd(addr, Val(i * es, 64)), E)); return mkAgg(std::move(a)); }
  return memLoad(st, addr, DL->getTypeStoreSize(T), tyw(T), ord);
}
static void memCopy(State& st, const Val& d, const Val& s, u64 n) {
  if (!n) return; u64 cd, cs, rd, rs; Z3_ast id_, is_; bool dr = locate(st, d, cd, rd, id_), sr = locate(st, s, cs, rs, is_);
  if (!dr && !sr) {
    u64 so, dof; u32 si = resolve(st, cs, n, false, so); u32 di = resolve(st, cd, n, true, dof);
    Obj* o = getObj(st, si); std::vector<u8> data(o->data.begin() + so, o->data.begin() + so + n), stt(o->st.begin() + so, o->st.begin() + so + n); std::vector<SB> sb; if (!o->sb.empty()) sb.assign(o->sb.begin() + so, o->sb.begin() + so + n);
    Obj* q = wrObj(st, di); memcpy(&q->data[dof], data.data(), n); memcpy(&q->st[dof], stt.data(), n);
    if (!sb.empty()) { if (q->sb.empty()) q->sb.resize(q->size); std::copy(sb.begin(), sb.end(), q->sb.begin() + dof); }
    return;
  }
  std::vector<std::pair<u32, Val>> vs; for (u64 i = 0; i < n;) { u32 k = (n - i >= 8) ? 8 : (n - i >= 4) ? 4 : (n - i >= 2) ? 2 : 1; vs.push_back({k, memLoad(st, vAdd(s, Val(i, 64)), k, k * 8)}); i += k; }
  u64 i = 0; for (auto& p : vs) { memStore(st, vAdd(d, Val(i, 64)), p.first, p.second); i += p.first; }
}
static void memFill(State& st, const Val& d, const Val& c, u64 n) {
  if (!n) return; u64 cd, rd; Z3_ast ix;
  if (locate(st, d, cd, rd, ix)) { auto rt = regs(st); auto it = rt.m.find(rd); if (it == rt.m.end()) violation(st, "write to a wild pointer"); regBounds(st, it->second, ix, n, true); if (c.sym()) unsupported("symbolic fill"); SymW w; w.idx = ix; w.n = n; w.v = Val(c.v & 0xff, 8); w.fill = true; it->second.log.push_back(w); return; }
  u64 off; u32 id = resolve(st, cd, n, true, off); Obj* q = wrObj(st, id);
  if (!c.sym()) { memset(&q->data[off], (int)(c.v & 0xff), n); memset(&q->st[off], 1, n); }
  else { if (q->sb.empty()) q->sb.resize(q->size); for (u64 i = 0; i < n; i++) { q->st[off + i] = 2; q->sb[off + i] = SB{c.s, 0, 1}; } }
}
// ---------------------------------------------------------------- allocation
static void killContsOn(State& st, u32 objId);
static void ccFree(State& st, u64 base, u64 size); static void ccCont(State& st, int cont);
static Val allocObj(State& st, const Val& size, OKind k) {
  if (size.sym()) {
    // symbolic size: a region with concrete base and symbolic extent (below 2^47)
    u64 rid = st.nsymreg++; SymReg r; r.size = size.s; r.kind = k; r.alive = true; r.hasProt = false; r.protHi = nullptr; r.protLo = 0; r.tag = ""; regs(st).m[rid] = r;
    st.heapLive++; return Val(SYMREG0 + (rid << SYMSH) + REGOFF, 64);
  }
  if (size.v > (1ull << 26)) { // large concrete: use a region too
    u64 rid = st.nsymreg++; SymReg r; r.size = bvnum(size.v, 64); r.kind = k; r.alive = true; r.hasProt = false; r.protHi = nullptr; r.protLo = 0; r.tag = ""; regs(st).m[rid] = r; st.heapLive++;
    return Val(SYMREG0 + (rid << SYMSH) + REGOFF, 64);
  }
  u64 b; newObj(st, size.v, k, k == K_MMAP ? 0x1000 : 0x50, &b); st.heapLive++; return Val(b, 64);
}
static const char* freeName(OKind k) { switch (k) { case K_MALLOC: return "free"; case K_NEW: return "operator delete"; case K_NEWARR: return "operator delete[]"; case K_MMAP: return "munmap"; default: return "free"; } }
static void freeObj(State& st, const Val& p, OKind k) {
  if (!p.sym() && p.v == 0) return;
  u64 c, rid; Z3_ast idx;
  if (locate(st, p, c, rid, idx)) {
    auto it = regs(st).m.find(rid); if (it == regs(st).m.end()) violation(st, std::string(freeName(k)) + " of a wild pointer");
    Z3_ast bad = znot(keep(Z3_mk_eq(Z, idx, bvnum(REGOFF, 64)))); bad = keep(Z3_simplify(Z, bad)); if (feasible(st, bad)) violation(st, std::string(freeName(k)) + " of an interior pointer", bad);
    if (!it->second.alive) violation(st, std::string("double ") + freeName(k)); if (it->second.kind != k) violation(st, "allocation/deallocation kind mismatch");
    it->second.alive = false; st.heapLive--;
    for (auto& ct : st.conts) if (ct.stackObj == 0xf0000000u + (u32)rid) ct.dead = true;
    return;
  }
  u32 id; if (c < 0x1000 || !findId(st, c, id)) violation(st, std::string(freeName(k)) + " of " + describe(st, c));
  Obj* o = getObj(st, id); if (!o->alive) violation(st, std::string("double free: ") + freeName(k) + " of " + describe(st, c));
  if (c != o->base || o->kind == K_GLOBAL || o->kind == K_STACK) violation(st, std::string(freeName(k)) + " of an invalid pointer: " + describe(st, c));
  if (o->kind != k) violation(st, std::string("allocation/deallocation mismatch: ") + freeName(k) + " of " + describe(st, c));
  if (st.cc && st.cc->me >= 0) ccFree(st, o->base, o->size);
  wrObj(st, id)->alive = false; st.heapLive--;
  killContsOn(st, id);
}
// ---------------------------------------------------------------- frames
static void pushFrame(State& st, Function* F, const std::vector<Val>& args, u8 marker = 0) {
  if (F->isDeclaration()) unsupported("call of external " + F->getName().str());
  if (st.fr.size() > 400) { violation(st, "call depth exceeds 400 frames (unbounded recursion)"); }
  FnInfo* fi = getFn(F); fi->hits++;
  st.fr.emplace_back(); Frame& f = st.fr.back(); f.f = fi; f.regs.resize(fi->nslots); f.marker = marker;
  size_t na = F->arg_size(); for (size_t i = 0; i < na && i < args.size(); i++) f.regs[i] = args[i];
  // byval arguments: copy
  unsigned i = 0; for (auto& A : F->args()) { if (A.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(A.getParamByValType()); u64 b; u32 id; newObj(st, sz, K_STACK, 0x40, &b, &id); st.fr.back().allocas.push_back(id); memCopy(st, Val(b, 64), args[i], sz); st.fr.back().regs[i] = Val(b, 64); } i++; }
}
static void killAllocas(State& st, Frame& f) { for (u32 id : f.allocas) wrObj(st, id)->alive = false; }
static void gotoBB(State& st, Frame& f, int bb) {
  BBInfo& t = f.f->bbs[bb];
  if (t.nphi) {
    static thread_local std::vector<Val> tmp; tmp.resize(t.nphi);
    for (int i = 0; i < t.nphi; i++) { bool ok = false; for (auto& pr : t.phis[i]) if (pr.first == f.bb) { tmp[i] = pr.second.slot < 0 ? pr.second.c : f.regs[pr.second.slot]; ok = true; break; } if (!ok) unsupported("phi"); }
    for (int i = 0; i < t.nphi; i++) f.regs[t.phidst[i]] = tmp[i];
  }
  f.bb = bb; f.ip = 0;
}
static void completeCall(State& st, const Val& v) {  // top frame is at a call/invoke instruction
  Frame& f = st.fr.back(); Ins& in = f.f->bbs[f.bb].ins[f.ip]; if (in.dst >= 0) { f.regs[in.dst] = v; if (v.w == 0 && in.w && in.w != WAGG) f.regs[in.dst] = Val(0, in.w); }
  if (in.opc == Instruction::Invoke) gotoBB(st, f, in.succ[0]); else f.ip++;
}
// ---------------------------------------------------------------- exceptions
static u64 g_ti_vt_class = 0, g_ti_vt_si = 0, g_ti_vt_vmi = 0;
static GlobalVariable* globAt(u64 a) { static std::unordered_map<u64, GlobalVariable*> m; if (m.empty()) for (auto& g : gaddr) m[g.second] = const_cast<GlobalVariable*>(g.first); auto it = m.find(a); return it == m.end() ? nullptr : it->second; }
static bool tiDerives(u64 t, u64 c, int depth = 0) {
  if (t == c) return true; if (depth > 8) return false; GlobalVariable* g = globAt(t); GlobalVariable* gc = globAt(c); if (!g) return false;
  if (gc && gc->getName() == g->getName()) return true;
  if (!g->hasInitializer()) { // well-known library exceptions
    static const std::map<std::string, std::string> base = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
    std::string n = g->getName().str(); for (int i = 0; i < 4; i++) { auto it = base.find(n); if (it == base.end()) return false; n = it->second; if (gc && gc->getName() == n) return true; } return false; }
  auto* CS = dyn_cast<ConstantStruct>(g->getInitializer()); if (!CS || CS->getNumOperands() < 3) return false;
  if (CS->getOperand(2)->getType()->isPointerTy()) return tiDerives(constVal(CS->getOperand(2)).v, c, depth + 1);
  for (unsigned i = 4; i < CS->getNumOperands(); i += 2) if (CS->getOperand(i)->getType()->isPointerTy() && tiDerives(constVal(CS->getOperand(i)).v, c, depth + 1)) return true;
  return false;
}
// offset of base dst inside type t (single and multiple non-virtual inheritance), or -1
static long tiOffset(u64 t, u64 dst, int depth = 0) {
  GlobalVariable *g = globAt(t), *gc = globAt(dst); if (t == dst || (g && gc && g->getName() == gc->getName())) return 0; if (!g || depth > 8 || !g->hasInitializer()) return -1;
  auto* CS = dyn_cast<ConstantStruct>(g->getInitializer()); if (!CS || CS->getNumOperands() < 3) return -1;
  if (CS->getOperand(2)->getType()->isPointerTy()) return tiOffset(constVal(CS->getOperand(2)).v, dst, depth + 1);
  for (unsigned i = 4; i + 1 < CS->getNumOperands(); i += 2) { if (!CS->getOperand(i)->getType()->isPointerTy()) continue; long r = tiOffset(constVal(CS->getOperand(i)).v, dst, depth + 1); if (r >= 0) { int64_t fl = (int64_t)constVal(CS->getOperand(i + 1)).v; if (fl & 1) return -1; return r + (long)(fl >> 8); } }
  return -1;
}
static u32 typeId(u64 ti) { return (u32)(ti >> 4) & 0x7fffffff; }
static void unwind(State& st, u64 exc) {
  ExcInfo& e = st.excs[exc];
  // phase 1: find a handler
  bool found = false;
  for (auto it = st.fr.rbegin(); it != st.fr.rend() && !found; ++it) {
    Frame& f = *it; if (f.marker) { if (f.marker == 2) break; }
    Ins& in = f.f->bbs[f.bb].ins[f.ip]; if (&f == &st.fr.back() && it == st.fr.rbegin()) {}
    if (in.opc == Instruction::Invoke) { LandingPadInst* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); for (unsigned i = 0; i < lp->getNumClauses(); i++) { Constant* c = lp->getClause(i); if (lp->isCatch(i)) { u64 ti = constVal(c).v; if (ti == 0 || tiDerives(e.tinfo, ti)) found = true; } else found = true; } }
    if (!found && f.f->nounwind && in.opc != Instruction::Invoke) { violation(st, "exception leaves a noexcept function (std::terminate): " + cleanName(f.f->F)); }
  }
  if (!found) violation(st, "uncaught exception (std::terminate)");
  while (!st.fr.empty()) {
    Frame& f = st.fr.back(); Ins& in = f.f->bbs[f.bb].ins[f.ip];
    if (in.opc == Instruction::Invoke) {
      LandingPadInst* lp = cast<InvokeInst>(in.I)->getLandingPadInst(); int sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) { Constant* c = lp->getClause(i); if (lp->isCatch(i)) { u64 ti = constVal(c).v; if (ti == 0) sel = (int)typeId(0); else if (tiDerives(e.tinfo, ti)) sel = (int)typeId(ti); } else unsupported("exception filter"); }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        int ub = in.succ[1]; gotoBB(st, f, ub); BBInfo& bb = f.f->bbs[ub]; // first instruction is the landingpad
        Ins& li = bb.ins[0]; if (li.opc != Instruction::LandingPad) unsupported("landing pad position");
        Agg a; a.push_back(Val(exc, 64)); a.push_back(Val((u64)(u32)sel, 32)); f.regs[li.dst] = mkAgg(std::move(a)); f.ip = 1; return;
      }
    }
    killAllocas(st, f); st.fr.pop_back();
  }
  violation(st, "uncaught exception");
}
static void excRelease(State& st, u64 e) {
  ExcInfo& x = st.excs[e]; if (--x.refs > 0) return;
  u64 dt = x.dtor; st.excs.erase(e); // the object is freed; destructor runs first
  if (dt) { Function* F = funcAt(dt); if (!F) unsupported("exception dtor"); pushFrame(st, F, {Val(e, 64)}, 2); }
  st.opts[0x70000000u]--; 
}
// ---------------------------------------------------------------- continuations (fcontext)
static void killContsOn(State& st, u32 objId) {
  for (size_t i = 0; i < st.conts.size(); i++) { Cont& c = st.conts[i]; if (c.stackObj == objId && objId) {
    if ((int)i == st.cur) violation(st, "the stack of the running coroutine is released");
    if (st.cc) { for (int k = 0; k < st.cc->n; k++) { auto& t = st.cc->t[k]; if (k != st.cc->me && !t.done && t.cur == (int)i) violation(st, "the stack of a running coroutine is released"); } if (!c.fr.empty()) ccCont(st, (int)i); }
    c.dead = true; for (auto& f : c.fr) killAllocas(st, f); c.fr.clear(); } }
}
static u64 newHandle(State& st, int cont) { u64 h = CTX0 + (st.freshSeq[1]++) * 64; st.handles[h] = cont; return h; }
static Val fctx_make(State& st, const Val& sp, const Val& size, Function* fn) {
  // the assembly stores into [(sp & ~15) - 0x40, (sp & ~15) - 0x40 + 0x40); require it to be inside the given stack
  Cont c; c.fresh = true; c.entry = fn;
  if (!sp.sym() && !size.sym() && !isReg(sp.v)) {
    u64 top = sp.v & ~15ull; u64 ctx = top - 0x48 + 8 - 8; // see make_x86_64_sysv_elf_gas.S
    u64 off; if (size.v < 0x48) violation(st, "context frame written below the bottom of the stack (stack size " + std::to_string(size.v) + ")");
    u32 id = resolve(st, top - 0x48, 0x48, true, off); c.stackObj = id; c.lo = sp.v - size.v; c.hi = sp.v;
    u64 o2; resolve(st, c.lo, 1, true, o2);
    for (size_t i = 0; i < st.conts.size(); i++) { Cont& d = st.conts[i]; if (!d.dead && d.hi > c.lo && d.lo < c.hi && d.hi) { if ((int)i == st.cur) violation(st, "a new context is created over the stack of the running coroutine"); d.dead = true; for (auto& f : d.fr) killAllocas(st, f); d.fr.clear(); } }
    (void)ctx; memFill(st, Val(top - 0x48, 64), Val(0xCC, 8), 0x48);
  } else {
    // symbolic stack: prove that the frame is inside the region
    u64 conc, rid; Z3_ast idx; Val top = binop(Instruction::And, sp, Val(~15ull, 64)); Val ctx = vSub(top, Val(0x48, 64));
    Z3_ast small = keep(Z3_simplify(Z, keep(Z3_mk_bvult(Z, toast(size), bvnum(0x48, 64))))); if (feasible(st, small)) violation(st, "context frame written below the bottom of the stack", small);
    if (!locate(st, ctx, conc, rid, idx)) { u64 off; u32 id = resolve(st, conc, 0x48, true, off); c.stackObj = id; memFill(st, ctx, Val(0xCC, 8), 0x48); }
    else { memFill(st, ctx, Val(0xCC, 8), 0x48); auto it = regs(st).m.find(rid); if (it == regs(st).m.end()) violation(st, "stack pointer is wild"); regBounds(st, it->second, idx, 0x48, true);
      Val lowest = vSub(sp, size); u64 c2, r2; Z3_ast i2; if (!locate(st, lowest, c2, r2, i2) || r2 != rid) violation(st, "stack bottom outside of its region"); regBounds(st, it->second, i2, 1, true); c.stackObj = 0xf0000000u + (u32)rid; }
  }
  int id = (int)st.conts.size(); st.conts.push_back(c); u64 h = newHandle(st, id); st.conts[id].handle = h; if (st.cc) ccCont(st, id); return Val(h, 64);
}
static void fctx_jump(State& st, u64 to, const Val& data, Function* ontop) {
  auto it = st.handles.find(to); if (it == st.handles.end()) violation(st, to == 0 ? "switch to a null context" : "switch to a stale or invalid context (already resumed once)");
  int t = it->second; if (t == st.cur) violation(st, "switch to the running context");
  if (st.conts[t].dead) violation(st, "switch to a context whose stack has been released");
  st.handles.erase(it); if (st.cc) { ccCont(st, st.cur); ccCont(st, t); }
  u64 h = newHandle(st, st.cur); st.conts[st.cur].fr = std::move(st.fr); st.conts[st.cur].handle = h; st.fr.clear(); st.cur = t;
  Cont& c = st.conts[t];
  if (c.fresh) { c.fresh = false; if (c.hi > c.lo + 0x48 && c.hi - c.lo <= (1u << 20) && (c.hi & ~15ull) - 0x48 > c.lo) { if (st.cc) st.cc->noTrack = true; u64 o3; u32 i3 = resolve(st, c.lo, 1, true, o3); (void)i3; memFill(st, Val(c.lo, 64), Val(0xCC, 8), (c.hi & ~15ull) - 0x48 - c.lo); if (st.cc) st.cc->noTrack = false; } pushFrame(st, c.entry, {Val(h, 64), data}); if (ontop) unsupported("ontop on a fresh context"); return; }
  st.fr = std::move(c.fr); c.fr.clear();
  if (ontop) { pushFrame(st, ontop, {Val(h, 64), data}, 0); return; }
  Agg a; a.push_back(Val(h, 64)); a.push_back(data); completeCall(st, mkAgg(std::move(a)));
}
#include "lsym_models.inc"
