// ---- part of struct Engine: the interpreter
  bool tracing = false;
  Val get(Frame &f, i32 x) { return x >= 0 ? stk[f.base + x] : f.f->consts[~x]; }
  void pushFrame(CFunc *cf, const Val *args, u32 n, i32 retDst, CallInfo *ci, const u64 *byval = nullptr) {
    if (!cf->compiled) compile(cf);
    if (fr.size() > 6000) { if (inPath) error("UB:stack-overflow", "call depth " + std::to_string(fr.size())); fatal("stack"); }
    sh->cover[cf->idx]++; sh->cover[funcs.size() + cf->firstBB] = 1;
    u32 base = top; if (base + cf->nslots + 16 > stk.size()) stk.resize((base + cf->nslots + 1024) * 2);
    top += cf->nslots; fr.emplace_back(); Frame &f = fr.back(); f.f = cf; f.base = base; f.ip = cf->code.data(); f.retDst = retDst; f.ci = ci; f.va = 0; f.callInst = nullptr;
    u32 na = cf->argSlots.size();
    for (u32 i = 0; i < na && i < n; i++) { Val v = args[i]; if (byval && byval[i]) { u32 id = newObj(byval[i], K_STACK); f.allocas.push_back(id); copyMem(addrOf(id), v.v, byval[i]); v = {addrOf(id), nullptr}; } stk[base + cf->argSlots[i]] = v; }
    for (u32 i = n; i < na; i++) stk[base + cf->argSlots[i]] = {0, nullptr};
    if (cf->vararg) { u32 extra = n > na ? n - na : 0; u32 id = newObj(extra * 8 + 8, K_STACK); f.allocas.push_back(id); f.va = addrOf(id); for (u32 i = 0; i < extra; i++) store(f.va + i * 8, args[na + i], 64); }
  }
  void popFrame() { Frame &f = fr.back(); for (u32 id : f.allocas) freeObj(id); top = f.base; fr.pop_back(); }
  void takeEdge(Frame &f, Edge &e) { for (auto &m : e.mv) stk[f.base + m.d] = m.s >= 0 ? stk[f.base + m.s] : f.f->consts[~m.s]; f.ip = f.f->code.data() + e.target; sh->cover[funcs.size() + e.bb] = 1; }
  // ---------------------------------------------------------- exceptions
  std::string tiName(u64 ti) { if (!ti) return "..."; Val n = load(ti + 8, 64); return cstr(n.v); }
  bool tiMatch(u64 thrown, u64 c, i64 &adj, int depth = 0) {
    if (!c) return true; if (thrown == c) return true; if (depth > 8) return false;
    if (tiName(thrown) == tiName(c)) return true;
    u64 vt = load(thrown, 64).v;
    if (vt == vt_si + 16) return tiMatch(load(thrown + 16, 64).v, c, adj, depth + 1);
    if (vt == vt_vmi + 16) { u32 n = load(thrown + 20, 32).v; for (u32 i = 0; i < n; i++) { i64 fl = (i64)load(thrown + 24 + i * 16 + 8, 64).v; i64 a2 = adj + (fl >> 8); if (tiMatch(load(thrown + 24 + i * 16, 64).v, c, a2, depth + 1)) { adj = a2; return true; } } }
    return false;
  }
  int tiNumber(u64 ti) { auto it = tinum.find(ti); if (it != tinum.end()) return it->second; int n = tinum.size() + 1; tinum[ti] = n; return n; }
  // unwinds from the current top frame; its ip/callInst designates the throwing call
  void unwind(u64 exc) {
    ExcInfo &x = excs[exc];
    while (!fr.empty()) {
      Frame &f = fr.back(); CInst *ci = f.callInst; CallInfo *info = ci && (ci->op == O_CALL || ci->op == O_INTRIN) ? (CallInfo *)ci->ext : nullptr;
      if (info && info->isInvoke) {
        CInst *lpi = f.f->code.data() + info->unwind.target; if (lpi->op != O_LPAD) fatal("no landing pad");
        LPad *L = (LPad *)lpi->ext; int sel = 0; bool hit = L->cleanup;
        for (auto &c : L->cl) { if (c.filter) { bool in = false; for (u64 t : c.tis) { i64 adj = 0; if (tiMatch(x.ti, t, adj)) in = true; } if (!in) { sel = -1; hit = true; break; } continue; }
          i64 adj = 0; if (tiMatch(x.ti, c.tis[0], adj)) { sel = tiNumber(c.tis[0]); hit = true; break; } }
        if (hit) { lpExc = exc; lpSel = sel; takeEdge(f, info->unwind); return; }
      }
      if (fr.size() == 1) { // leaving the harness
        std::string n = tiName(x.ti); std::string w;
        error("CRASH:uncaught-exception", "exception of type " + llvm::demangle("_ZTS" + n)); }
      popFrame();
    }
  }
  // ---------------------------------------------------------- arithmetic on possibly symbolic values
  [[gnu::noinline]] Val symBin(Op op, Val a, Val b, int w) {
    static const EK map[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
    if (op >= O_UDIV && op <= O_SREM) { Expr *y = E(b, w); if (branch(X.eq(y, X.cst(0, w)))) error("UB:division-by-zero", "integer division by zero"); if ((op == O_SDIV || op == O_SREM)) { Expr *ov = X.bin(E_AND, X.eq(y, X.cst(~0ull, w)), X.eq(E(a, w), X.cst(1ull << (w - 1), w))); if (branch(ov)) error("UB:division-overflow", "INT_MIN / -1"); } }
    return fromE(X.bin(map[op], E(a, w), E(b, w)));
  }
  Val fcmp(i64 pred, Val a, Val b, int w) {
    Expr *x = E(a, w), *y = E(b, w), *r;
    switch ((CmpInst::Predicate)pred) {
    case CmpInst::FCMP_OEQ: r = X.bin(E_FEQ, x, y); break; case CmpInst::FCMP_OGT: r = X.bin(E_FLT, y, x); break; case CmpInst::FCMP_OGE: r = X.bin(E_FLE, y, x); break;
    case CmpInst::FCMP_OLT: r = X.bin(E_FLT, x, y); break; case CmpInst::FCMP_OLE: r = X.bin(E_FLE, x, y); break;
    case CmpInst::FCMP_ONE: r = X.bin(E_OR, X.bin(E_FLT, x, y), X.bin(E_FLT, y, x)); break; case CmpInst::FCMP_ORD: r = X.nt(X.bin(E_FUNO, x, y)); break; case CmpInst::FCMP_UNO: r = X.bin(E_FUNO, x, y); break;
    case CmpInst::FCMP_UEQ: r = X.bin(E_OR, X.bin(E_FEQ, x, y), X.bin(E_FUNO, x, y)); break; case CmpInst::FCMP_UGT: r = X.nt(X.bin(E_FLE, x, y)); break; case CmpInst::FCMP_UGE: r = X.nt(X.bin(E_FLT, x, y)); break;
    case CmpInst::FCMP_ULT: r = X.nt(X.bin(E_FLE, y, x)); break; case CmpInst::FCMP_ULE: r = X.nt(X.bin(E_FLT, y, x)); break; case CmpInst::FCMP_UNE: r = X.nt(X.bin(E_FEQ, x, y)); break;
    case CmpInst::FCMP_TRUE: r = X.T; break; default: r = X.F; break; }
    return fromE(r);
  }
  void tick() { tickNext = insts + 2000000; if (!inPath) return; if (insts > g_instLimit) { noteUnsup("instruction limit per path"); report("no-termination", "the path did not end within the instruction limit", X.model); endPath(6); } checkStop(); }

  void doCall(Frame &f, CInst *ci, CallInfo *info) {
    f.callInst = ci; CFunc *fn = info->fn;
    Val args[40]; u32 n = info->args.size(); if (n > 40) fatal("too many arguments");
    for (u32 i = 0; i < n; i++) args[i] = get(f, info->args[i]);
    if (!fn) { Val c = get(f, info->callee); u64 a = addr(c); u32 id = a >> 32; auto it = funcByObj.find(id); if (it == funcByObj.end() || (u32)a != BASE) error("UB:bad-function-pointer", descr(a, 0)); fn = it->second; }
    if (!fn->F->isDeclaration()) { bool bv = false; for (u64 b : info->byval) if (b) bv = true; pushFrame(fn, args, n, ci->dst, info, bv ? info->byval.data() : nullptr); return; }
    if (!fn->bi) { unsupported("call of unknown function " + llvm::demangle(fn->name)); }
    sh->cover[fn->idx]++;
    f.ip = ci + 1; retCI = ci; retInfo = info; noEdge = false;
    for (u32 i = 0; i < n && i < fn->F->arg_size(); i++) if (__builtin_expect(args[i].e != nullptr, 0) && fn->F->getArg(i)->getType()->isPointerTy()) cv(args[i], 64);
    fn->bi(*this, *info, args);
    if (!noEdge && info->isInvoke) takeEdge(fr.back(), info->normal);
  }
  CInst *retCI = nullptr; CallInfo *retInfo = nullptr; bool noEdge = false;
  void ret(Val v) { Frame &f = fr.back(); stk[f.base + retCI->dst] = v; }
  void retE(Expr *e) { ret(fromE(e)); }

  void run(size_t stopDepth) {
#define R(x) ((x) >= 0 ? stk[base + (x)] : consts[~(x)])
    while (fr.size() > stopDepth) {
      Frame *f = &fr.back(); u32 base = f->base; Val *consts = f->f->consts.data(); CInst *ip = f->ip;
      bool reload = false;
      while (!reload) {
        CInst *ci = ip++; 
        switch (ci->op) {
#define ARITH(OP, EXPR) case OP: { Val a = R(ci->a), b = R(ci->b); if (__builtin_expect(a.e || b.e, 0)) { f->callInst = ci; stk[base + ci->dst] = symBin(OP, a, b, ci->w); } else { u64 x = a.v, y = b.v; int w = ci->w; (void)w; stk[base + ci->dst] = {(EXPR)&maskw(w), nullptr}; } break; }
        ARITH(O_ADD, x + y) ARITH(O_SUB, x - y) ARITH(O_MUL, x *y) ARITH(O_AND, x &y) ARITH(O_OR, x | y) ARITH(O_XOR, x ^ y)
        ARITH(O_SHL, y >= (u64)w ? 0 : x << y) ARITH(O_LSHR, y >= (u64)w ? 0 : x >> y) ARITH(O_ASHR, (u64)(sx(x, w) >> (y >= (u64)w ? w - 1 : (int)y)))
        case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: { Val a = R(ci->a), b = R(ci->b); f->callInst = ci; if (a.e || b.e) { Val r = symBin(ci->op, a, b, ci->w); stk[base + ci->dst] = r; break; }
          int w = ci->w; if (!b.v) error("UB:division-by-zero", "integer division by zero"); if ((ci->op == O_SDIV || ci->op == O_SREM) && b.v == maskw(w) && a.v == 1ull << (w - 1)) error("UB:division-overflow", "INT_MIN / -1");
          static const EK mp[] = {E_UDIV, E_SDIV, E_UREM, E_SREM}; stk[base + ci->dst] = {ExprCtx::fold(mp[ci->op - O_UDIV], w, 0, a.v, b.v, 0, w), nullptr}; break; }
#define CMP(OP, EXPR, MK) case OP: { Val a = R(ci->a), b = R(ci->b); int w = ci->w; if (__builtin_expect(a.e || b.e, 0)) { Expr *x = E(a, w), *y = E(b, w); stk[base + ci->dst] = fromE(MK); } else { u64 x = a.v, y = b.v; stk[base + ci->dst] = {(u64)(EXPR), nullptr}; } break; }
        CMP(O_EQ, x == y, X.eq(x, y)) CMP(O_NE, x != y, X.nt(X.eq(x, y))) CMP(O_ULT, x < y, X.bin(E_ULT, x, y)) CMP(O_ULE, x <= y, X.bin(E_ULE, x, y)) CMP(O_SLT, sx(x, w) < sx(y, w), X.bin(E_SLT, x, y)) CMP(O_SLE, sx(x, w) <= sx(y, w), X.bin(E_SLE, x, y))
#define FAR(OP, EKK) case OP: { Val a = R(ci->a), b = R(ci->b); int w = ci->w; if (a.e || b.e) stk[base + ci->dst] = fromE(X.bin(EKK, E(a, w), E(b, w))); else stk[base + ci->dst] = {ExprCtx::fold(EKK, w, 0, a.v, b.v, 0, w), nullptr}; break; }
        FAR(O_FADD, E_FADD) FAR(O_FSUB, E_FSUB) FAR(O_FMUL, E_FMUL) FAR(O_FDIV, E_FDIV)
        case O_FREM: { Val a = R(ci->a), b = R(ci->b); int w = ci->w; f->callInst = ci; cv(a, w, true, "frem"); cv(b, w, true, "frem"); stk[base + ci->dst] = {ExprCtx::fold(E_FREM, w, 0, a.v, b.v, 0, w), nullptr}; break; }
        case O_FNEG: { Val a = R(ci->a); int w = ci->w; if (a.e) stk[base + ci->dst] = fromE(X.bin(E_XOR, a.e, X.cst(1ull << (w - 1), w))); else stk[base + ci->dst] = {a.v ^ (1ull << (w - 1)), nullptr}; break; }
        case O_FCMP: { Val r = fcmp(ci->imm, R(ci->a), R(ci->b), ci->w); stk[base + ci->dst] = r; break; }
        case O_TRUNC: { Val a = R(ci->a); if (a.e) a = fromE(X.extract(a.e, 0, ci->w)); else a.v &= maskw(ci->w); stk[base + ci->dst] = a; break; }
        case O_ZEXT: { Val a = R(ci->a); if (a.e) a = fromE(X.zext(a.e, ci->w)); stk[base + ci->dst] = a; break; }
        case O_SEXT: { Val a = R(ci->a); if (a.e) a = fromE(X.sext(a.e, ci->w)); else a.v = (u64)sx(a.v, ci->w2) & maskw(ci->w); stk[base + ci->dst] = a; break; }
        case O_MOV: stk[base + ci->dst] = R(ci->a); break;
#define FCV(OP, EKK) case OP: { Val a = R(ci->a); if (a.e) a = fromE(X.un(EKK, ci->w, a.e)); else a.v = ExprCtx::fold(EKK, ci->w, 0, a.v, 0, 0, ci->w2); stk[base + ci->dst] = a; break; }
        FCV(O_FPEXT, E_FPEXT) FCV(O_FPTRUNC, E_FPTRUNC) FCV(O_FPTOSI, E_FPTOSI) FCV(O_FPTOUI, E_FPTOUI) FCV(O_SITOFP, E_SITOFP) FCV(O_UITOFP, E_UITOFP)
        case O_LOAD: { Val a = R(ci->a); f->callInst = ci; Val r = __builtin_expect(!a.e, 1) ? load(a.v, ci->w) : loadSym(a.e, ci->w); stk[base + ci->dst] = r; break; }
        case O_STORE: { Val a = R(ci->a), b = R(ci->b); f->callInst = ci; store(addr(a), b, ci->w); break; }
        case O_GEPC: { Val a = R(ci->a); if (a.e) a = fromE(X.bin(E_ADD, a.e, X.cst(ci->imm, 64))); else a.v += ci->imm; stk[base + ci->dst] = a; break; }
        case O_GEPI: { Val a = R(ci->a), b = R(ci->b); if (__builtin_expect(a.e || b.e, 0)) stk[base + ci->dst] = fromE(X.bin(E_ADD, E(a, 64), X.bin(E_MUL, X.sext(E(b, ci->w2), 64), X.cst(ci->imm, 64)))); else stk[base + ci->dst] = {a.v + (u64)sx(b.v, ci->w2) * (u64)ci->imm, nullptr}; break; }
        case O_SELECT: { Val c = R(ci->a); if (!c.e) { Val r = c.v ? R(ci->b) : R(ci->c); stk[base + ci->dst] = r; } else { Val x = R(ci->b), y = R(ci->c); stk[base + ci->dst] = fromE(X.ite(c.e, E(x, ci->w), E(y, ci->w))); } break; }
        case O_ALLOCA: { Val n = R(ci->a); f->callInst = ci; u64 k = cv(n, 64); u32 id = newObj(k * ci->imm, K_STACK); f->allocas.push_back(id); stk[base + ci->dst] = {addrOf(id), nullptr}; break; }
        case O_BR: { Edge *e = (Edge *)ci->ext; takeEdge(*f, *e); ip = f->ip; if (__builtin_expect(++insts, 1) && insts >= tickNext) { f->callInst = ci; tick(); } break; }
        case O_CBR: { Val c = R(ci->a); bool t; f->callInst = ci; if (__builtin_expect(!c.e, 1)) t = c.v & 1; else { t = branch(c.e); } Edge *e = (Edge *)ci->ext; takeEdge(*f, t ? e[0] : e[1]); ip = f->ip; if (++insts >= tickNext) tick(); break; }
        case O_SWITCH: { Val c = R(ci->a); auto *si = (SwitchInfo *)ci->ext; int w = ci->w; f->callInst = ci; int t = 0; if (!c.e) { for (auto &p : si->cases) if (p.first == c.v) { t = p.second; break; } }
          else { // group by target
            std::map<std::pair<int, std::vector<std::pair<i32, i32>>>, Expr *> byT; std::map<Expr *, int> firstEdge; std::vector<Expr *> order;
            for (auto &p : si->cases) { Edge &e = si->edges[p.second]; std::vector<std::pair<i32, i32>> key; for (auto &m : e.mv) key.push_back({m.d, m.s}); auto &x = byT[{e.target, key}]; Expr *q = X.eq(c.e, X.cst(p.first, w)); x = x ? X.bin(E_OR, x, q) : q; }
            bool found = false; for (auto &kv : byT) { if (branch(kv.second)) { for (auto &p : si->cases) { Edge &e = si->edges[p.second]; std::vector<std::pair<i32, i32>> key; for (auto &m : e.mv) key.push_back({m.d, m.s}); if (e.target == kv.first.first && key == kv.first.second) { t = p.second; found = true; break; } } } if (found) break; }
          }
          takeEdge(*f, si->edges[t]); ip = f->ip; if (++insts >= tickNext) tick(); break; }
        case O_RET: { auto *v = (std::vector<i32> *)ci->ext; Val rv[16]; u32 n = v->size(); if (n > 16) fatal("big return"); for (u32 i = 0; i < n; i++) rv[i] = R((*v)[i]);
          i32 d = f->retDst; CallInfo *info = f->ci; popFrame();
          if (fr.size() > stopDepth || !fr.empty()) { if (!fr.empty() && d >= 0) { Frame &c = fr.back(); for (u32 i = 0; i < n; i++) stk[c.base + d + i] = rv[i]; } if (!fr.empty() && info) { Frame &c = fr.back(); if (info->isInvoke) takeEdge(c, info->normal); } }
          insts++; reload = true; break; }
        case O_CALL: { f->ip = ip; insts++; if (insts >= tickNext) { f->callInst = ci; tick(); } doCall(*f, ci, (CallInfo *)ci->ext); reload = true; break; }
        case O_INTRIN: { f->ip = ip; f->callInst = ci; intrinsic(*f, ci, (CallInfo *)ci->ext); if (((CallInfo *)ci->ext)->isInvoke) takeEdge(fr.back(), ((CallInfo *)ci->ext)->normal); reload = true; break; }
        case O_LPAD: stk[base + ci->dst] = {lpExc, nullptr}; stk[base + ci->dst + 1] = {(u64)(u32)lpSel, nullptr}; break;
        case O_RESUME: { Val e = R(ci->a); f->callInst = nullptr; u64 x = e.v; popFrame(); if (fr.empty()) fatal("resume"); unwind(x); reload = true; break; }
        case O_UNREACH: f->callInst = ci; error("UB:unreachable", "unreachable code executed"); break;
        case O_RMW: { Val p = R(ci->a), v = R(ci->b); f->callInst = ci; u64 a = addr(p); Val o = load(a, ci->w); Val r; int w = ci->w;
          if (o.e || v.e) { Expr *x = E(o, w), *y = E(v, w); switch ((AtomicRMWInst::BinOp)ci->imm) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = fromE(X.bin(E_ADD, x, y)); break; case AtomicRMWInst::Sub: r = fromE(X.bin(E_SUB, x, y)); break; default: unsupported("atomicrmw"); } }
          else switch ((AtomicRMWInst::BinOp)ci->imm) { case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = {(o.v + v.v) & maskw(w), nullptr}; break; case AtomicRMWInst::Sub: r = {(o.v - v.v) & maskw(w), nullptr}; break; case AtomicRMWInst::And: r = {o.v & v.v, nullptr}; break; case AtomicRMWInst::Or: r = {o.v | v.v, nullptr}; break; case AtomicRMWInst::Xor: r = {o.v ^ v.v, nullptr}; break; default: unsupported("atomicrmw"); }
          store(a, r, w); stk[base + ci->dst] = o; break; }
        case O_CMPXCHG: { Val p = R(ci->a), cm = R(ci->b), nv = R(ci->c); f->callInst = ci; u64 a = addr(p); Val o = load(a, ci->w); bool eq; if (o.e || cm.e) eq = branch(X.eq(E(o, ci->w), E(cm, ci->w))); else eq = o.v == cm.v; if (eq) store(a, nv, ci->w); stk[base + ci->dst] = o; stk[base + ci->dst + 1] = {eq, nullptr}; break; }
        case O_BAD: f->callInst = ci; unsupported("instruction " + ((BadInfo *)ci->ext)->what); break;
        default: fatal("op");
        }
      }
    }
#undef R
  }
  void intrinsic(Frame &f, CInst *ci, CallInfo *info) {
    Val a[8]; u32 n = info->args.size(); for (u32 i = 0; i < n && i < 8; i++) a[i] = get(f, info->args[i]);
    int w = ci->w; auto set = [&](Val v, int k = 0) { stk[fr.back().base + ci->dst + k] = v; };
    auto minmax = [&](EK k, bool wantLess) { Expr *x = E(a[0], w), *y = E(a[1], w); Expr *c = X.bin(k, x, y); set(fromE(wantLess ? X.ite(c, x, y) : X.ite(c, y, x))); };
    switch (info->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 nn = cv(a[2], 64); u64 d = addr(a[0]), s = addr(a[1]); copyMem(d, s, nn); break; }
    case Intrinsic::memset: case Intrinsic::memset_inline: { u64 nn = cv(a[2], 64); u64 d = addr(a[0]); memSet(d, a[1], nn); break; }
    case Intrinsic::eh_typeid_for: set({(u64)(u32)tiNumber(a[0].v), nullptr}); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::threadlocal_address: set(a[0]); break;
    case Intrinsic::is_constant: set({0, nullptr}); break;
    case Intrinsic::objectsize: set({~0ull & maskw(w), nullptr}); break;
    case Intrinsic::trap: error("UB:trap", "trap"); break;
    case Intrinsic::ubsantrap: { static const char *nm[] = {"add-overflow", "builtin-unreachable", "cfi-check-fail", "divrem-overflow", "dynamic-type-cache-miss", "float-cast-overflow", "function-type-mismatch", "implicit-conversion", "invalid-builtin", "invalid-objc-cast", "load-invalid-value", "missing-return", "mul-overflow", "negate-overflow", "nullability-arg", "nullability-return", "nonnull-arg", "nonnull-return", "out-of-bounds", "pointer-overflow", "shift-out-of-bounds", "sub-overflow", "type-mismatch", "alignment-assumption", "vla-bound-not-positive"}; u64 k = a[0].v; error(std::string("UB:") + (k < 25 ? nm[k] : "trap"), "undefined behaviour sanitizer check"); break; }
    case Intrinsic::umin: minmax(E_ULT, true); break; case Intrinsic::umax: minmax(E_ULT, false); break; case Intrinsic::smin: minmax(E_SLT, true); break; case Intrinsic::smax: minmax(E_SLT, false); break;
    case Intrinsic::abs: { Expr *x = E(a[0], w); set(fromE(X.ite(X.bin(E_SLT, x, X.cst(0, w)), X.bin(E_SUB, X.cst(0, w), x), x))); break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      bool sg = info->intrin == Intrinsic::sadd_with_overflow || info->intrin == Intrinsic::ssub_with_overflow || info->intrin == Intrinsic::smul_with_overflow;
      int kind = (info->intrin == Intrinsic::sadd_with_overflow || info->intrin == Intrinsic::uadd_with_overflow) ? 0 : (info->intrin == Intrinsic::ssub_with_overflow || info->intrin == Intrinsic::usub_with_overflow) ? 1 : 2;
      if (!a[0].e && !a[1].e) { __int128 x = sg ? (__int128)sx(a[0].v, w) : (__int128)a[0].v, y = sg ? (__int128)sx(a[1].v, w) : (__int128)a[1].v; __int128 r; bool of = false; if (kind == 0) r = x + y; else if (kind == 1) r = x - y; else { if (sg || w < 64) r = x * y; else { unsigned __int128 p = (unsigned __int128)a[0].v * a[1].v; of = (p >> 64) != 0; r = (__int128)p; } } u64 t = (u64)r & maskw(w); if (sg) of = (__int128)sx(t, w) != r; else if (!(kind == 2 && w == 64)) of = r < 0 || r > (__int128)maskw(w); set({t, nullptr}, 0); set({of, nullptr}, 1); break; }
      Expr *x = E(a[0], w), *y = E(a[1], w); EK k = kind == 0 ? E_ADD : kind == 1 ? E_SUB : E_MUL; Expr *r = X.bin(k, x, y), *of;
      if (w <= 32) { Expr *wr = sg ? X.bin(k, X.sext(x, 64), X.sext(y, 64)) : X.bin(k, X.zext(x, 64), X.zext(y, 64)); of = X.nt(X.eq(wr, sg ? X.sext(r, 64) : X.zext(r, 64))); }
      else if (kind == 0) of = sg ? X.bin(E_SLT, X.bin(E_AND, X.bin(E_XOR, x, r), X.bin(E_XOR, y, r)), X.cst(0, w)) : X.bin(E_ULT, r, x);
      else if (kind == 1) of = sg ? X.bin(E_SLT, X.bin(E_AND, X.bin(E_XOR, x, y), X.bin(E_XOR, x, r)), X.cst(0, w)) : X.bin(E_ULT, x, y);
      else { Expr *c = ExprCtx::isC(x) ? x : ExprCtx::isC(y) ? y : nullptr; Expr *o = c == x ? y : x; if (!c || sg) { u64 v = concretizeOne(y, "64-bit multiplication overflow check"); c = X.cst(v, w); o = x; if (sg) unsupported("signed 64-bit overflow check"); } of = c->c == 0 ? X.F : X.bin(E_ULT, X.cst(~0ull / c->c, 64), o); }
      set(fromE(r), 0); set(fromE(of), 1); break; }
    case Intrinsic::uadd_sat: { Expr *x = E(a[0], w), *y = E(a[1], w), *r = X.bin(E_ADD, x, y); set(fromE(X.ite(X.bin(E_ULT, r, x), X.cst(~0ull, w), r))); break; }
    case Intrinsic::usub_sat: { Expr *x = E(a[0], w), *y = E(a[1], w); set(fromE(X.ite(X.bin(E_ULT, x, y), X.cst(0, w), X.bin(E_SUB, x, y)))); break; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: { u64 v = cv(a[0], w); u64 r = info->intrin == Intrinsic::ctpop ? __builtin_popcountll(v) : info->intrin == Intrinsic::ctlz ? (v ? __builtin_clzll(v) - (64 - w) : w) : (v ? __builtin_ctzll(v) : w); set({r, nullptr}); break; }
    case Intrinsic::bswap: { Expr *x = E(a[0], w), *r = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = X.extract(x, i, 8); r = r ? X.concat(r, b) : b; } set(fromE(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Expr *x = E(a[0], w), *y = E(a[1], w); u64 s = cv(a[2], w) % w; if (info->intrin == Intrinsic::fshr) s = (w - s) % w; if (info->intrin == Intrinsic::fshr && s == 0) { set(a[1]); break; } if (s == 0) { set(a[0]); break; } set(fromE(X.bin(E_OR, X.bin(E_SHL, x, X.cst(s, w)), X.bin(E_LSHR, y, X.cst(w - s, w))))); break; }
    case Intrinsic::fabs: { Expr *x = E(a[0], w); set(fromE(X.bin(E_AND, x, X.cst(maskw(w) >> 1, w)))); break; }
    case Intrinsic::copysign: { Expr *x = E(a[0], w), *y = E(a[1], w); u64 m = maskw(w) >> 1; set(fromE(X.bin(E_OR, X.bin(E_AND, x, X.cst(m, w)), X.bin(E_AND, y, X.cst(~m, w))))); break; }
    case Intrinsic::sqrt: set(fromE(X.un(E_FSQRT, w, E(a[0], w)))); break;
    case Intrinsic::floor: set(fromE(X.un(E_FFLOOR, w, E(a[0], w)))); break; case Intrinsic::ceil: set(fromE(X.un(E_FCEIL, w, E(a[0], w)))); break; case Intrinsic::trunc: set(fromE(X.un(E_FTRUNC, w, E(a[0], w)))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: set(fromE(X.un(E_FRINT, w, E(a[0], w)))); break; case Intrinsic::round: set(fromE(X.un(E_FROUND, w, E(a[0], w)))); break;
    case Intrinsic::fmuladd: set(fromE(X.bin(E_FADD, X.bin(E_FMUL, E(a[0], w), E(a[1], w)), E(a[2], w)))); break;
    case Intrinsic::minnum: case Intrinsic::maxnum: { Expr *x = E(a[0], w), *y = E(a[1], w); Expr *c = info->intrin == Intrinsic::minnum ? X.bin(E_FLT, x, y) : X.bin(E_FLT, y, x); Expr *nx = X.bin(E_FUNO, x, x); set(fromE(X.ite(nx, y, X.ite(X.bin(E_FUNO, y, y), x, X.ite(c, x, y))))); break; }
    case Intrinsic::vastart: { u64 p = addr(a[0]); store(p, {48, nullptr}, 32); store(p + 4, {304, nullptr}, 32); store(p + 8, {fr.back().va, nullptr}, 64); store(p + 16, {0, nullptr}, 64); break; }
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: copyMem(addr(a[0]), addr(a[1]), 24); break;
    case Intrinsic::stacksave: set({0, nullptr}); break; case Intrinsic::stackrestore: break;
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: break;
    default: unsupported("intrinsic " + info->fn->name);
    }
  }
  void memSet(u64 d, Val b, u64 n) { if (!n) return; Obj &o = acc(d, n, true); u32 off = (u32)d - BASE; if (b.e) { symArr(o); for (u64 i = 0; i < n; i++) o.sym[off + i] = b.e; } else { memset(o.data + off, (int)b.v, n); if (o.sym) memset(o.sym + off, 0, n * sizeof(Expr *)); } }
  static Builtin findBuiltin(const std::string &name);
