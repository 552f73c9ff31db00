// ---- part of struct Engine: module loading and lowering to the internal instruction form
  std::vector<std::string> sources;
  void flat(Type *T, std::vector<std::pair<u64, Type *>> &out, u64 off = 0) {
    if (T->isVoidTy()) return;
    if (auto *S = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) flat(S->getElementType(i), out, off + L->getElementOffset(i)); return; }
    if (auto *A = dyn_cast<ArrayType>(T)) { u64 sz = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) flat(A->getElementType(), out, off + i * sz); return; }
    if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 sz = DL->getTypeAllocSize(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); i++) flat(V->getElementType(), out, off + i * sz); return; }
    out.push_back({off, T});
  }
  unsigned nflat(Type *T) { std::vector<std::pair<u64, Type *>> v; flat(T, v); return v.size(); }
  unsigned flatIndex(Type *T, ArrayRef<unsigned> idx) { unsigned n = 0; for (unsigned i : idx) { for (unsigned j = 0; j < i; j++) n += nflat(GetElementPtrInst::getTypeAtIndex(T, (u64)j)); T = GetElementPtrInst::getTypeAtIndex(T, (u64)i); } return n; }
  int width(Type *T) { if (T->isPointerTy()) return 64; if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (T->isIntegerTy()) return T->getIntegerBitWidth(); return 0; }
  bool okTy(Type *T) { if (T->isVoidTy()) return true; std::vector<std::pair<u64, Type *>> v; if (T->isAggregateType() || T->isVectorTy()) { flat(T, v); for (auto &p : v) if (!okTy(p.second)) return false; return true; } int w = width(T); return w > 0 && w <= 64; }

  void constVals(const Constant *K, std::vector<u64> &out) {
    Type *T = K->getType();
    if (auto *ci = dyn_cast<ConstantInt>(K)) { if (ci->getBitWidth() > 64) fatal("wide integer constant"); out.push_back(ci->getZExtValue()); return; }
    if (auto *cf = dyn_cast<ConstantFP>(K)) { if (T->isDoubleTy() || T->isFloatTy()) { out.push_back(cf->getValueAPF().bitcastToAPInt().getZExtValue()); return; } fatal("fp type"); }
    if (isa<ConstantPointerNull>(K)) { out.push_back(0); return; }
    if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K)) { unsigned n = nflat(T); for (unsigned i = 0; i < n; i++) out.push_back(0); return; }
    if (auto *gv = dyn_cast<GlobalValue>(K)) { if (auto *ga = dyn_cast<GlobalAlias>(gv)) { constVals(ga->getAliasee(), out); return; } out.push_back(globalAddr(gv)); return; }
    if (auto *cs = dyn_cast<ConstantAggregate>(K)) { for (unsigned i = 0; i < cs->getNumOperands(); i++) constVals(cs->getOperand(i), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(K)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(K)) {
      auto op = [&](int i) { std::vector<u64> v; constVals(ce->getOperand(i), v); return v[0]; };
      switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("constant gep"); out.push_back(op(0) + off.getSExtValue()); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::ZExt: out.push_back(op(0) & maskw(width(T))); return;
      case Instruction::Trunc: out.push_back(op(0) & maskw(width(T))); return;
      case Instruction::Add: out.push_back((op(0) + op(1)) & maskw(width(T))); return;
      case Instruction::Sub: out.push_back((op(0) - op(1)) & maskw(width(T))); return;
      case Instruction::ICmp: { u64 a = op(0), b = op(1); switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back(a == b); return; case CmpInst::ICMP_NE: out.push_back(a != b); return; default: break; } break; }
      default: break; }
      std::string s; raw_string_ostream os(s); ce->print(os); fatal("constant expression " + s);
    }
    std::string s; raw_string_ostream os(s); K->print(os); fatal("constant " + s);
  }
  void writeConst(u8 *p, const Constant *K) {
    if (isa<UndefValue>(K) || K->isNullValue()) return;
    Type *T = K->getType();
    if (auto *cd = dyn_cast<ConstantDataSequential>(K)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(K)) { auto *L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(p + L->getElementOffset(i), cs->getOperand(i)); return; }
    if (isa<ConstantArray>(K) || isa<ConstantVector>(K)) { Type *ET = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<VectorType>(T)->getElementType(); u64 sz = DL->getTypeAllocSize(ET); for (unsigned i = 0; i < K->getNumOperands(); i++) writeConst(p + i * sz, cast<Constant>(K->getOperand(i))); return; }
    if (auto *cf = dyn_cast<ConstantFP>(K)) { APInt v = cf->getValueAPF().bitcastToAPInt(); memcpy(p, v.getRawData(), DL->getTypeStoreSize(T)); return; }
    if (auto *ci = dyn_cast<ConstantInt>(K)) { APInt v = ci->getValue(); memcpy(p, v.getRawData(), DL->getTypeStoreSize(T)); return; }
    std::vector<u64> v; constVals(K, v); u64 x = v[0]; memcpy(p, &x, DL->getTypeStoreSize(T));
  }
  u64 globalAddr(const GlobalValue *gv) { auto it = gaddr.find(gv); if (it == gaddr.end()) fatal("unknown global " + gv->getName().str()); return it->second; }
  std::vector<std::string> extGlobals;
  void loadModule(const std::string &file) {
    SMDiagnostic err; M = parseIRFile(file, err, C); if (!M) { err.print("fsym", errs()); exit(3); }
    DL = &M->getDataLayout(); objs.push_back(Obj()); objs[0].st = 0;
    for (Function &F : *M) {
      CFunc *cf = new CFunc(); cf->F = &F; cf->name = F.getName().str(); cf->vararg = F.isVarArg(); cf->idx = funcs.size(); funcs.push_back(cf);
      u32 id = newObj(16, K_FUNC); cf->addr = addrOf(id); gaddr[&F] = cf->addr; funcByObj[id] = cf; funcByName[cf->name] = cf;
      cf->firstBB = nblocks; if (!F.isDeclaration()) nblocks += F.size();
      if (F.isDeclaration()) cf->bi = findBuiltin(cf->name);
    }
    for (GlobalVariable &G : M->globals()) {
      u64 sz = DL->getTypeAllocSize(G.getValueType()); bool decl = G.isDeclaration();
      if (decl) { sz = 256; extGlobals.push_back(G.getName().str()); }
      u32 id = newObj(sz, G.isConstant() && !decl ? K_CONST : K_GLOBAL); gaddr[&G] = addrOf(id);
      std::string n = G.getName().str(); if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vt_class = addrOf(id); if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vt_si = addrOf(id); if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vt_vmi = addrOf(id);
    }
    for (GlobalAlias &A : M->aliases()) { std::vector<u64> v; const Constant *al = A.getAliasee(); constVals(al, v); gaddr[&A] = v[0]; if (auto *f = dyn_cast<Function>(al->stripPointerCasts())) funcByName[A.getName().str()] = funcs[funcByObj[gaddr[f] >> 32]->idx]; }
    for (GlobalVariable &G : M->globals()) if (G.hasInitializer()) writeConst(objs[gaddr[&G] >> 32].data, G.getInitializer());
  }
  std::vector<CFunc *> ctors() {
    std::vector<std::pair<u64, CFunc *>> v; if (GlobalVariable *g = M->getGlobalVariable("llvm.global_ctors")) if (auto *ca = dyn_cast<ConstantArray>(g->getInitializer())) for (unsigned i = 0; i < ca->getNumOperands(); i++) { auto *cs = cast<ConstantStruct>(ca->getOperand(i)); auto *f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts()); if (f) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), funcByObj[gaddr[f] >> 32]}); }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); std::vector<CFunc *> r; for (auto &p : v) r.push_back(p.second); return r; }

  void compile(CFunc *cf) {
    cf->compiled = true; Function &F = *cf->F; std::unordered_map<const Value *, i32> slot; u32 ns = 0;
    std::map<u64, i32> cpool;
    auto addConst = [&](u64 v) -> i32 { auto it = cpool.find(v); if (it != cpool.end()) return it->second; cf->consts.push_back({v, nullptr}); i32 r = ~(i32)(cf->consts.size() - 1); cpool[v] = r; return r; };
    for (Argument &A : F.args()) { slot[&A] = ns; unsigned n = nflat(A.getType()); for (unsigned i = 0; i < n; i++) cf->argSlots.push_back(ns + i); ns += n; }
    for (BasicBlock &B : F) for (Instruction &I : B) if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += std::max(1u, nflat(I.getType())); }
    std::unordered_map<const Value *, std::vector<i32>> cvals;
    auto opn = [&](const Value *V, unsigned k = 0) -> i32 {
      if (auto *K = dyn_cast<Constant>(V)) { auto &cvv = cvals[V]; if (cvv.empty()) { std::vector<u64> o; constVals(K, o); for (u64 x : o) cvv.push_back(addConst(x)); if (cvv.empty()) cvv.push_back(addConst(0)); } return cvv[k]; }
      auto it = slot.find(V); if (it == slot.end()) return addConst(0); return it->second + (i32)k; };
    u32 tmp = ns; // scratch slot
    ns += 1; u32 phiTmpBase = ns; u32 phiTmpMax = 0;
    std::unordered_map<const BasicBlock *, int> bbStart, bbIdx; { int n = 0; for (BasicBlock &B : F) bbIdx[&B] = n++; }
    std::vector<std::pair<Edge *, const BasicBlock *>> fix;
    auto mkEdge = [&](Edge &e, BasicBlock *from, BasicBlock *to) {
      e.bb = cf->firstBB + bbIdx[to]; std::vector<Mv> mv; for (PHINode &P : to->phis()) { Value *v = P.getIncomingValueForBlock(from); unsigned n = nflat(P.getType()); for (unsigned k = 0; k < n; k++) mv.push_back({slot[&P] + (i32)k, opn(v, k)}); }
      // parallel copy: if a destination is read by a later move go through temporaries
      bool conf = false; for (size_t i = 0; i < mv.size(); i++) for (size_t j = i + 1; j < mv.size(); j++) if (mv[i].d == mv[j].s) conf = true;
      if (conf) { std::vector<Mv> m2; for (size_t i = 0; i < mv.size(); i++) m2.push_back({(i32)(phiTmpBase + i), mv[i].s}); for (size_t i = 0; i < mv.size(); i++) m2.push_back({mv[i].d, (i32)(phiTmpBase + i)}); phiTmpMax = std::max<u32>(phiTmpMax, mv.size()); mv.swap(m2); }
      e.mv = mv; fix.push_back({&e, to}); };
    u32 line = 0;
    auto emit = [&](Op op, int w, i32 dst, i32 a = 0, i32 b = 0, i32 c = 0, i64 imm = 0, void *ext = nullptr, int w2 = 0, int fl = 0) -> CInst & { CInst ci; ci.op = op; ci.w = (u8)w; ci.w2 = (u8)w2; ci.fl = (u8)fl; ci.dst = dst; ci.a = a; ci.b = b; ci.c = c; ci.imm = imm; ci.ext = ext; ci.line = line; cf->code.push_back(ci); return cf->code.back(); };
    auto bad = [&](Instruction &I, const char *why) { auto *bi = new BadInfo(); raw_string_ostream os(bi->what); os << why << ": "; I.print(os); os.flush(); emit(O_BAD, 0, 0, 0, 0, 0, 0, bi); };
    for (BasicBlock &B : F) {
      bbStart[&B] = cf->code.size();
      for (Instruction &I : B) {
        if (isa<PHINode>(I)) continue;
        if (auto &dl = I.getDebugLoc()) if (dl.getLine()) line = dl.getLine();
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (!okTy(I.getType())) { bad(I, "type"); continue; }
        { bool ok = true; for (Value *o : I.operands()) if (!isa<BasicBlock>(o) && !o->getType()->isMetadataTy() && !o->getType()->isLabelTy() && !okTy(o->getType())) ok = false; if (!ok) { bad(I, "operand type"); continue; } }
        i32 d = I.getType()->isVoidTy() ? 0 : slot[&I]; Type *T = I.getType();
        if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
          static const std::map<unsigned, Op> ops = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}, {Instruction::FAdd, O_FADD}, {Instruction::FSub, O_FSUB}, {Instruction::FMul, O_FMUL}, {Instruction::FDiv, O_FDIV}, {Instruction::FRem, O_FREM}};
          unsigned n = nflat(T); int w = width(T->getScalarType()); for (unsigned k = 0; k < n; k++) emit(ops.at(bo->getOpcode()), w, d + k, opn(bo->getOperand(0), k), opn(bo->getOperand(1), k)); continue; }
        switch (I.getOpcode()) {
        case Instruction::FNeg: emit(O_FNEG, width(T), d, opn(I.getOperand(0))); break;
        case Instruction::ICmp: { auto *ic = cast<ICmpInst>(&I); unsigned n = nflat(T); int w = width(ic->getOperand(0)->getType()->getScalarType());
          for (unsigned k = 0; k < n; k++) { i32 a = opn(ic->getOperand(0), k), b = opn(ic->getOperand(1), k); Op o; switch (ic->getPredicate()) { case CmpInst::ICMP_EQ: o = O_EQ; break; case CmpInst::ICMP_NE: o = O_NE; break; case CmpInst::ICMP_ULT: o = O_ULT; break; case CmpInst::ICMP_ULE: o = O_ULE; break; case CmpInst::ICMP_UGT: o = O_ULT; std::swap(a, b); break; case CmpInst::ICMP_UGE: o = O_ULE; std::swap(a, b); break; case CmpInst::ICMP_SLT: o = O_SLT; break; case CmpInst::ICMP_SLE: o = O_SLE; break; case CmpInst::ICMP_SGT: o = O_SLT; std::swap(a, b); break; default: o = O_SLE; std::swap(a, b); break; } emit(o, w, d + k, a, b); } break; }
        case Instruction::FCmp: { auto *fc = cast<FCmpInst>(&I); emit(O_FCMP, width(fc->getOperand(0)->getType()), d, opn(fc->getOperand(0)), opn(fc->getOperand(1)), 0, fc->getPredicate()); break; }
        case Instruction::Trunc: { unsigned n = nflat(T); for (unsigned k = 0; k < n; k++) emit(O_TRUNC, width(T->getScalarType()), d + k, opn(I.getOperand(0), k)); break; }
        case Instruction::ZExt: case Instruction::SExt: { unsigned n = nflat(T); for (unsigned k = 0; k < n; k++) emit(I.getOpcode() == Instruction::ZExt ? O_ZEXT : O_SEXT, width(T->getScalarType()), d + k, opn(I.getOperand(0), k), 0, 0, 0, nullptr, width(I.getOperand(0)->getType()->getScalarType())); break; }
        case Instruction::FPExt: emit(O_FPEXT, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::FPTrunc: emit(O_FPTRUNC, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::FPToSI: emit(O_FPTOSI, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::FPToUI: emit(O_FPTOUI, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::SIToFP: emit(O_SITOFP, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::UIToFP: emit(O_UITOFP, width(T), d, opn(I.getOperand(0)), 0, 0, 0, nullptr, width(I.getOperand(0)->getType())); break;
        case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { unsigned n = nflat(T); if (n != nflat(I.getOperand(0)->getType())) { bad(I, "bitcast"); break; } for (unsigned k = 0; k < n; k++) emit(O_MOV, 0, d + k, opn(I.getOperand(0), k)); break; }
        case Instruction::PtrToInt: if (width(T) < 64) emit(O_TRUNC, width(T), d, opn(I.getOperand(0))); else emit(O_MOV, 0, d, opn(I.getOperand(0))); break;
        case Instruction::IntToPtr: emit(O_MOV, 0, d, opn(I.getOperand(0))); break;
        case Instruction::Load: { std::vector<std::pair<u64, Type *>> fl; flat(T, fl); i32 p = opn(I.getOperand(0)); if (fl.size() == 1 && fl[0].first == 0) { emit(O_LOAD, width(fl[0].second), d, p); break; } for (unsigned k = 0; k < fl.size(); k++) { i32 q = p; if (fl[k].first) { emit(O_GEPC, 64, tmp, p, 0, 0, fl[k].first); q = tmp; } emit(O_LOAD, width(fl[k].second), d + k, q); } break; }
        case Instruction::Store: { std::vector<std::pair<u64, Type *>> fl; Value *sv = I.getOperand(0); flat(sv->getType(), fl); i32 p = opn(I.getOperand(1)); for (unsigned k = 0; k < fl.size(); k++) { i32 q = p; if (fl[k].first) { emit(O_GEPC, 64, tmp, p, 0, 0, fl[k].first); q = tmp; } emit(O_STORE, width(fl[k].second), 0, q, opn(sv, k)); } break; }
        case Instruction::GetElementPtr: { auto *gep = cast<GetElementPtrInst>(&I); if (T->isVectorTy()) { bad(I, "vector gep"); break; } i64 co = 0; i32 cur = opn(gep->getPointerOperand()); bool first = true;
          for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) { Value *ix = gi.getOperand(); if (StructType *st = gi.getStructTypeOrNull()) { co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; } u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) { co += ci->getSExtValue() * (i64)sz; continue; } emit(O_GEPI, 64, d, cur, opn(ix), 0, sz, nullptr, width(ix->getType())); cur = d; first = false; }
          if (co || first) emit(O_GEPC, 64, d, cur, 0, 0, co); break; }
        case Instruction::Select: { unsigned n = nflat(T); bool vc = I.getOperand(0)->getType()->isVectorTy(); std::vector<std::pair<u64, Type *>> fl; flat(T, fl); for (unsigned k = 0; k < n; k++) emit(O_SELECT, width(fl[k].second), d + k, opn(I.getOperand(0), vc ? k : 0), opn(I.getOperand(1), k), opn(I.getOperand(2), k)); break; }
        case Instruction::Alloca: { auto *al = cast<AllocaInst>(&I); u64 sz = DL->getTypeAllocSize(al->getAllocatedType()); emit(O_ALLOCA, 64, d, opn(al->getArraySize()), 0, 0, sz); break; }
        case Instruction::Br: { auto *br = cast<BranchInst>(&I); Edge *e = new Edge[2]; if (br->isUnconditional()) { mkEdge(e[0], &B, br->getSuccessor(0)); emit(O_BR, 0, 0, 0, 0, 0, 0, e); } else { mkEdge(e[0], &B, br->getSuccessor(0)); mkEdge(e[1], &B, br->getSuccessor(1)); emit(O_CBR, 1, 0, opn(br->getCondition()), 0, 0, 0, e); } break; }
        case Instruction::Switch: { auto *sw = cast<SwitchInst>(&I); auto *si = new SwitchInfo(); si->edges.resize(1 + sw->getNumCases()); mkEdge(si->edges[0], &B, sw->getDefaultDest()); int n = 1; for (auto &c : sw->cases()) { mkEdge(si->edges[n], &B, c.getCaseSuccessor()); si->cases.push_back({c.getCaseValue()->getZExtValue(), n}); n++; } emit(O_SWITCH, width(sw->getCondition()->getType()), 0, opn(sw->getCondition()), 0, 0, 0, si); break; }
        case Instruction::Ret: { auto *r = cast<ReturnInst>(&I); unsigned n = r->getReturnValue() ? nflat(r->getReturnValue()->getType()) : 0; std::vector<i32> *v = new std::vector<i32>(); for (unsigned k = 0; k < n; k++) v->push_back(opn(r->getReturnValue(), k)); emit(O_RET, 0, 0, 0, 0, 0, n, v); break; }
        case Instruction::ExtractValue: { auto *ev = cast<ExtractValueInst>(&I); unsigned b = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices()), n = nflat(T); for (unsigned k = 0; k < n; k++) emit(O_MOV, 0, d + k, opn(ev->getAggregateOperand(), b + k)); break; }
        case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(&I); unsigned b = flatIndex(T, iv->getIndices()), n = nflat(T), m = nflat(iv->getInsertedValueOperand()->getType()); for (unsigned k = 0; k < n; k++) emit(O_MOV, 0, d + k, k >= b && k < b + m ? opn(iv->getInsertedValueOperand(), k - b) : opn(iv->getAggregateOperand(), k)); break; }
        case Instruction::ExtractElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(1)); if (!ci) { bad(I, "index"); break; } emit(O_MOV, 0, d, opn(I.getOperand(0), ci->getZExtValue())); break; }
        case Instruction::InsertElement: { auto *ci = dyn_cast<ConstantInt>(I.getOperand(2)); if (!ci) { bad(I, "index"); break; } unsigned n = nflat(T); for (unsigned k = 0; k < n; k++) emit(O_MOV, 0, d + k, k == ci->getZExtValue() ? opn(I.getOperand(1)) : opn(I.getOperand(0), k)); break; }
        case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(&I); unsigned n = nflat(T), m = nflat(s->getOperand(0)->getType()); for (unsigned k = 0; k < n; k++) { int x = s->getMaskValue(k); emit(O_MOV, 0, d + k, x < 0 ? addConst(0) : (unsigned)x < m ? opn(s->getOperand(0), x) : opn(s->getOperand(1), x - m)); } break; }
        case Instruction::LandingPad: { auto *lp = cast<LandingPadInst>(&I); auto *L = new LPad(); L->cleanup = lp->isCleanup(); for (unsigned k = 0; k < lp->getNumClauses(); k++) { LPad::Cl cl; cl.filter = lp->isFilter(k); constVals(lp->getClause(k), cl.tis); L->cl.push_back(cl); } emit(O_LPAD, 0, d, 0, 0, 0, 0, L); break; }
        case Instruction::Resume: emit(O_RESUME, 0, 0, opn(I.getOperand(0), 0)); break;
        case Instruction::Unreachable: emit(O_UNREACH, 0, 0); break;
        case Instruction::Fence: break;
        case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&I); emit(O_RMW, width(T), d, opn(r->getPointerOperand()), opn(r->getValOperand()), 0, r->getOperation()); break; }
        case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(&I); emit(O_CMPXCHG, width(r->getCompareOperand()->getType()), d, opn(r->getPointerOperand()), opn(r->getCompareOperand()), opn(r->getNewValOperand())); break; }
        case Instruction::Call: case Instruction::Invoke: {
          auto &cb = cast<CallBase>(I); if (cb.isInlineAsm()) { auto *ia = cast<InlineAsm>(cb.getCalledOperand()); if (ia->getAsmString().empty()) break; bad(I, "inline asm"); break; }
          auto *ci = new CallInfo(); Function *cal = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
          if (!cal) if (auto *ga = dyn_cast<GlobalAlias>(cb.getCalledOperand()->stripPointerCasts())) cal = dyn_cast<Function>(ga->getAliasee()->stripPointerCasts());
          if (cal) { ci->fn = funcs[funcByObj[gaddr[cal] >> 32]->idx]; if (cal->isIntrinsic()) ci->intrin = cal->getIntrinsicID(); }
          else ci->callee = opn(cb.getCalledOperand());
          bool skip = false;
          switch (ci->intrin) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::var_annotation: skip = true; break; default: break; }
          if (skip && !isa<InvokeInst>(I)) { delete ci; break; }
          for (unsigned k = 0; k < cb.arg_size(); k++) { Value *a = cb.getArgOperand(k); if (a->getType()->isMetadataTy()) { ci->args.push_back(addConst(0)); ci->argw.push_back(64); ci->byval.push_back(0); continue; } std::vector<std::pair<u64, Type *>> fl; flat(a->getType(), fl); u64 bv = cb.isByValArgument(k) ? (u64)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0; for (unsigned j = 0; j < fl.size(); j++) { ci->args.push_back(opn(a, j)); ci->argw.push_back(width(fl[j].second)); ci->byval.push_back(bv); } if (k < cb.getFunctionType()->getNumParams()) ci->nfixed = ci->args.size(); }
          ci->nret = nflat(T);
          u8 rw = T->isVoidTy() || ci->nret != 1 ? 0 : width(T);
          if (auto *iv = dyn_cast<InvokeInst>(&I)) { ci->isInvoke = true; mkEdge(ci->normal, &B, iv->getNormalDest()); mkEdge(ci->unwind, &B, iv->getUnwindDest()); }
          if (ci->intrin && ci->nret > 1) { std::vector<std::pair<u64, Type *>> fl; flat(T, fl); rw = width(fl[0].second); }
          emit(ci->intrin ? O_INTRIN : O_CALL, rw, d, 0, 0, 0, 0, ci); break; }
        case Instruction::VAArg: default: bad(I, "instruction"); break;
        }
      }
    }
    for (auto &p : fix) p.first->target = bbStart[p.second];
    cf->nslots = ns + phiTmpMax;
  }
