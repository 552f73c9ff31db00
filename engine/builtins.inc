// ---- functions implemented by the engine
#define BI(NAME) static void bi_##NAME(Engine &e, CallInfo &ci, Val *a)
static std::unordered_map<std::string, Builtin> &builtins();
Builtin Engine::findBuiltin(const std::string &n) { auto &m = builtins(); auto it = m.find(n); return it == m.end() ? nullptr : it->second; }
BI(malloc) { u64 n = e.cv(a[0], 64); if (n > (1ull << 28)) { if (e.inPath) { e.noteUnsup("allocation of more than 256 MB"); e.endPath(2); } e.fatal("huge allocation"); } u32 id = e.newObj((u32)n, K_HEAP); e.ret({Engine::addrOf(id), nullptr}); }
BI(calloc) { u64 n = e.cv(a[0], 64) * e.cv(a[1], 64); u32 id = e.newObj((u32)n, K_HEAP); memset(e.objs[id].data, 0, n); e.ret({Engine::addrOf(id), nullptr}); }
BI(free) { u64 p = e.addr(a[0]); if (!p) return; u32 id = p >> 32; if (id >= e.objs.size() || !id || e.objs[id].st == 0) e.error("UB:bad-free", e.descr(p, 0)); if (e.objs[id].st == 2) e.error("UB:double-free", e.descr(p, 0)); if ((u32)p != BASE || e.objs[id].kind != K_HEAP) e.error("UB:bad-free", e.descr(p, 0)); e.freeObj(id); }
BI(realloc) { u64 p = e.addr(a[0]), n = e.cv(a[1], 64); u32 id = e.newObj((u32)n, K_HEAP); if (p) { u64 old = e.objs[p >> 32].size; e.copyMem(Engine::addrOf(id), p, std::min<u64>(old, n)); e.freeObj(p >> 32); } e.ret({Engine::addrOf(id), nullptr}); }
BI(memcpy) { u64 n = e.cv(a[2], 64); u64 d = e.addr(a[0]); e.copyMem(d, e.addr(a[1]), n); e.ret({d, nullptr}); }
BI(memset) { u64 n = e.cv(a[2], 64); u64 d = e.addr(a[0]); Val b = a[1]; if (b.e) b = Engine::fromE(e.X.extract(b.e, 0, 8)); e.memSet(d, b, n); e.ret({d, nullptr}); }
static Expr *memcmpE(Engine &e, u64 p, u64 q, u64 n) {
  if (n) { e.acc(p, n, false); e.acc(q, n, false); }
  ExprCtx &X = e.X; Expr *r = X.cst(0, 32);
  for (u64 i = n; i-- > 0;) { Expr *x = e.byteE(p + i), *y = e.byteE(q + i); if (x == y) continue; if (ExprCtx::isC(x) && ExprCtx::isC(y)) { r = X.cst(x->c < y->c ? ~0ull : 1, 32); continue; } r = X.ite(X.eq(x, y), r, X.ite(X.bin(E_ULT, x, y), X.cst(~0ull, 32), X.cst(1, 32))); }
  return r; }
BI(memcmp) { u64 n = e.cv(a[2], 64); u64 p = e.addr(a[0]), q = e.addr(a[1]); e.retE(memcmpE(e, p, q, n)); }
BI(bcmp) { u64 n = e.cv(a[2], 64); u64 p = e.addr(a[0]), q = e.addr(a[1]); if (n) { e.acc(p, n, false); e.acc(q, n, false); } Expr *ne = e.X.F; for (u64 i = 0; i < n; i++) { Expr *x = e.byteE(p + i), *y = e.byteE(q + i); ne = e.X.bin(E_OR, ne, e.X.nt(e.X.eq(x, y))); if (ne == e.X.T) break; } e.retE(e.X.zext(ne, 32)); }
BI(strlen) { u64 p = e.addr(a[0]); u64 s = p; for (;; p++) { Expr *b = e.byteE(p); if (e.branch(e.X.eq(b, e.X.cst(0, 8)))) break; } e.ret({p - s, nullptr}); }
BI(memchr) { u64 n = e.cv(a[2], 64), p = e.addr(a[0]); Expr *c = e.X.extract(e.E(a[1], 32), 0, 8);
  if (!ExprCtx::isC(c) && n <= 64) { bool conc = true; for (u64 i = 0; i < n && conc; i++) conc = ExprCtx::isC(e.byteE(p + i)); if (conc) { Expr *r = e.X.cst(0, 64); for (u64 i = n; i-- > 0;) r = e.X.ite(e.X.eq(e.byteE(p + i), c), e.X.cst(p + i, 64), r); e.retE(r); return; } }
  for (u64 i = 0; i < n; i++) { if (e.branch(e.X.eq(e.byteE(p + i), c))) { e.ret({p + i, nullptr}); return; } } e.ret({0, nullptr}); }
// --- exceptions
BI(cxa_allocate_exception) { u64 n = e.cv(a[0], 64); u32 id = e.newObj((u32)n, K_HEAP); e.ret({Engine::addrOf(id), nullptr}); }
BI(cxa_free_exception) { u64 p = a[0].v; if (p) e.freeObj(p >> 32); }
BI(cxa_throw) { ExcInfo x; x.ti = a[1].v; x.dtor = a[2].v; e.excs[a[0].v] = x; e.noEdge = true; e.unwind(a[0].v); }
BI(cxa_begin_catch) { u64 p = a[0].v; ExcInfo &x = e.excs[p]; x.handlers++; x.rethrown = false; e.caught.push_back(p); e.ret({p, nullptr}); }
BI(cxa_get_exception_ptr) { e.ret(a[0]); }
BI(cxa_end_catch) {
  if (e.caught.empty()) return; u64 p = e.caught.back(); e.caught.pop_back(); ExcInfo &x = e.excs[p]; x.handlers--; if (x.rethrown) return; if (x.handlers > 0) return;
  u64 d = x.dtor; e.excs.erase(p);
  if (d) { CFunc *fn = e.funcByObj[d >> 32]; if (fn && !fn->F->isDeclaration()) { Val v = {p, nullptr}; e.noEdge = true; e.pushFrame(fn, &v, 1, -1, &ci); } } }
BI(cxa_rethrow) { if (e.caught.empty()) e.error("CRASH:terminate", "rethrow without exception"); u64 p = e.caught.back(); e.excs[p].rethrown = true; e.noEdge = true; e.unwind(p); }
BI(nop0) { if (ci.nret) e.ret({0, nullptr}); }
BI(pure) { e.error("UB:pure-virtual-call", "pure virtual function called"); }
BI(clang_call_terminate) { e.error("CRASH:std-terminate", "exception leaves a noexcept function"); }
BI(guard_acquire) { u64 p = e.addr(a[0]); Val v = e.load(p, 8); e.ret({v.v ? 0ull : 1ull, nullptr}); }
BI(guard_release) { e.store(e.addr(a[0]), {1, nullptr}, 8); }
BI(dynamic_cast) {
  u64 p = a[0].v; if (!p) { e.ret({0, nullptr}); return; } u64 vt = e.load(p, 64).v; u64 ti = e.load(vt - 8, 64).v; i64 ott = (i64)e.load(vt - 16, 64).v; i64 adj = 0;
  u64 full = p + ott; if (e.tiMatch(ti, a[2].v, adj)) e.ret({full + adj, nullptr}); else e.ret({0, nullptr}); }
// --- formatting
struct VaReader { Engine &e; u64 p; Val next() { // va_list pointer
    u64 ov = e.load(p + 8, 64).v; Val v = e.load(ov, 64); e.store(p + 8, {ov + 8, nullptr}, 64); return v; } };
static std::string doFormat(Engine &e, const std::string &fmt, u64 va) {
  VaReader r{e, va}; std::string out; for (size_t i = 0; i < fmt.size(); i++) {
    if (fmt[i] != '%') { out += fmt[i]; continue; } if (fmt[i + 1] == '%') { out += '%'; i++; continue; }
    std::string sp = "%"; i++; while (i < fmt.size() && strchr("-+ #0123456789.*", fmt[i])) { if (fmt[i] == '*') { Val v = r.next(); u64 x = e.cv(v, 64, true, "printf width"); sp += std::to_string((int)x); } else sp += fmt[i]; i++; }
    std::string len; while (i < fmt.size() && strchr("hlzjtL", fmt[i])) len += fmt[i++];
    char c = fmt[i]; char buf[600]; Val v = r.next();
    switch (c) {
    case 'd': case 'i': { u64 x = e.cv(v, 64, true, "printf of a symbolic integer"); long long y = len.empty() ? (long long)(int)x : (long long)x; snprintf(buf, sizeof buf, (sp + "lld").c_str(), y); out += buf; break; }
    case 'u': case 'x': case 'X': case 'o': { u64 x = e.cv(v, 64, true, "printf of a symbolic integer"); if (len.empty()) x = (u32)x; snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (unsigned long long)x); out += buf; break; }
    case 'c': out += (char)e.cv(v, 64, true, "printf of a symbolic char"); break;
    case 'f': case 'F': case 'g': case 'G': case 'e': case 'E': { u64 x = e.cv(v, 64, true, "printf of a symbolic double"); snprintf(buf, sizeof buf, (sp + c).c_str(), asD(x)); out += buf; break; }
    case 's': { std::string s = e.cstr(v.v); std::vector<char> b(s.size() + 300); snprintf(b.data(), b.size(), (sp + "s").c_str(), s.c_str()); out += b.data(); break; }
    case 'p': out += "0x1"; break;
    default: e.unsupported(std::string("printf conversion ") + c); } }
  return out; }
BI(vsnprintf) { u64 n = e.cv(a[1], 64); std::string s = doFormat(e, e.cstr(a[2].v), a[3].v); if (n) { size_t k = std::min<size_t>(s.size(), n - 1); std::string t = s.substr(0, k); t.push_back(0); e.putBytes(a[0].v, t.data(), k + 1); } e.ret({(u64)(u32)s.size(), nullptr}); }
static std::string fmtVar(Engine &e, const std::string &fmt, CallInfo &ci, Val *a, u32 first) { u32 n = ci.args.size() - first; u32 id = e.newObj(n * 8 + 8, K_HEAP); u64 area = Engine::addrOf(id); for (u32 i = 0; i < n; i++) { Val v = a[first + i]; if (v.e && v.e->w < 64) v.e = e.X.zext(v.e, 64); e.store(area + i * 8, v, 64); } u32 vid = e.newObj(24, K_HEAP); u64 va = Engine::addrOf(vid); e.store(va, {48, nullptr}, 32); e.store(va + 4, {304, nullptr}, 32); e.store(va + 8, {area, nullptr}, 64); e.store(va + 16, {0, nullptr}, 64); std::string s = doFormat(e, fmt, va); e.freeObj(id); e.freeObj(vid); return s; }
BI(snprintf) { u64 n = e.cv(a[1], 64); std::string s = fmtVar(e, e.cstr(a[2].v), ci, a, 3); if (n) { size_t k = std::min<size_t>(s.size(), n - 1); std::string t = s.substr(0, k); t.push_back(0); e.putBytes(a[0].v, t.data(), k + 1); } e.ret({(u64)(u32)s.size(), nullptr}); }
BI(sprintf) { std::string s = fmtVar(e, e.cstr(a[1].v), ci, a, 2); s.push_back(0); e.putBytes(a[0].v, s.data(), s.size()); e.ret({(u64)(u32)(s.size() - 1), nullptr}); }
BI(fs_fmt_double_c) { u64 x = e.cv(a[2], 64, true, "formatting a symbolic double"); u64 prec = e.cv(a[3], 32), mode = e.cv(a[4], 32); char b[512]; snprintf(b, sizeof b, mode == 1 ? "%.*f" : mode == 2 ? "%.*e" : "%.*g", (int)prec, asD(x)); e.putBytes(a[0].v, b, strlen(b) + 1); }
// --- decimal digits -> double.  Symbolic digits: exact while at most 15 digits and a scale of at most 10^22.
BI(fs_strtod_dec) {
  u64 p = a[0].v; u64 nd = e.cv(a[1], 32), ex = e.cv(a[2], 32); int sc = (int)(i32)(u32)ex; bool sym = false; for (u64 i = 0; i < nd; i++) if (!ExprCtx::isC(e.byteE(p + i))) sym = true;
  if (!sym) { std::string s; for (u64 i = 0; i < nd; i++) s += (char)e.byteE(p + i)->c; s += "e" + std::to_string(sc); e.ret({fromD(strtod(s.c_str(), nullptr)), nullptr}); return; }
  if (nd > 15 || sc > 22 || sc < -22) { e.noteUnsup("symbolic decimal literal with more than 15 digits"); e.endPath(2); }
  ExprCtx &X = e.X; Expr *v = X.cst(0, 64); for (u64 i = 0; i < nd; i++) v = X.bin(E_ADD, X.bin(E_MUL, v, X.cst(10, 64)), X.zext(X.bin(E_SUB, e.byteE(p + i), X.cst('0', 8)), 64));
  // leading zeros do not matter; the integer is below 10^15 < 2^53, so the conversion is exact and one correctly rounded operation follows
  int wi = nd <= 9 ? 32 : 64; Expr *d = X.un(E_SITOFP, 64, X.extract(v, 0, wi)); double pw = 1; for (int i = 0; i < (sc < 0 ? -sc : sc); i++) pw *= 10; if (sc > 0) d = X.bin(E_FMUL, d, X.cst(fromD(pw), 64)); else if (sc < 0) d = X.bin(E_FDIV, d, X.cst(fromD(pw), 64));
  e.retE(d); }
// --- math
#define MATH1(F) BI(m_##F) { u64 x = e.cv(a[0], 64, true, #F); e.ret({fromD(F(asD(x))), nullptr}); }
#define MATH2(F) BI(m_##F) { u64 x = e.cv(a[0], 64, true, #F), y = e.cv(a[1], 64, true, #F); e.ret({fromD(F(asD(x), asD(y))), nullptr}); }
MATH1(sin) MATH1(cos) MATH1(tan) MATH1(asin) MATH1(acos) MATH1(atan) MATH1(sinh) MATH1(cosh) MATH1(tanh) MATH1(exp) MATH1(log) MATH1(log10) MATH1(log2) MATH1(cbrt) MATH1(exp2) MATH2(pow) MATH2(fmod) MATH2(atan2) MATH2(hypot)
#define MATHS(F, K) BI(m_##F) { e.retE(e.X.un(K, 64, e.E(a[0], 64))); }
MATHS(sqrt, E_FSQRT) MATHS(floor, E_FFLOOR) MATHS(ceil, E_FCEIL) MATHS(trunc, E_FTRUNC) MATHS(rint, E_FRINT) MATHS(nearbyint, E_FRINT) MATHS(round, E_FROUND)
BI(m_fabs) { e.retE(e.X.bin(E_AND, e.E(a[0], 64), e.X.cst(~0ull >> 1, 64))); }
// --- harness API
BI(fs_sym) {
  std::string n = e.cstr(a[0].v); int bits = (int)e.cv(a[1], 32); Expr *v = e.X.newVar(n, bits, 0); if (!v) e.unsupported("too many symbolic variables"); sh->symvars++;
  e.inputs.push_back({n, 0, 0, v, bits}); e.retE(e.X.zext(v, 64)); }
BI(fs_choice) {
  std::string n = e.cstr(a[0].v); int k = (int)e.cv(a[1], 32); if (k <= 0) e.endPath(2); sh->choices++;
  int pick = 0; for (int i = k - 1; i >= 1; i--) if (e.forkChild()) { pick = i; break; }
  e.inputs.push_back({n, k, (u64)pick, nullptr, 32}); e.ret({(u64)pick, nullptr}); }
BI(fs_assume) {
  Expr *c = e.X.nt(e.X.eq(e.E(a[0], 32), e.X.cst(0, 32))); bool r; if (e.known(c, r)) { if (!r) e.endPath(1); return; }
  if (e.X.eval(c)) { e.addPC(c); return; }
  std::vector<std::pair<u32, u64>> m; int q = e.query(c, m); if (q == 0) e.endPath(1); if (q < 0) { sh->incomplete++; e.endPath(4); } e.applyModel(m); e.addPC(c); }
BI(fs_assert) {
  std::string id = e.cstr(a[1].v); IdStat *s = e.idstat(id); s->evaluated++;
  Expr *c = e.X.nt(e.X.eq(e.E(a[0], 32), e.X.cst(0, 32)));
  if (ExprCtx::isC(c)) { s->concrete++; if (!c->c) { e.report(id, "assertion is false", e.X.model); e.endPath(3); } return; }
  sh->assertQ++;
  std::vector<std::pair<u32, u64>> m; int q = 0; bool r;
  if (e.known(c, r)) q = r ? 0 : 1; else if (!e.X.eval(c)) q = 1; else q = e.query(e.X.nt(c), m);
  if (q == 0) { s->proved++; return; }
  if (q < 0) { sh->incomplete++; return; }
  std::vector<u64> md = e.X.model; for (auto &p : m) md[p.first] = p.second; e.report(id, "assertion can be false", md);
  // continue on the values for which it holds
  m.clear(); if (e.X.eval(c)) { e.addPC(c); return; } if (e.query(c, m) != 1) e.endPath(3); e.applyModel(m); e.addPC(c); }
BI(fs_reach) { IdStat *s = e.idstat(e.cstr(a[0].v)); s->reached++; }
BI(fs_note) { u64 n = e.cv(a[1], 64); std::string t; std::vector<Expr *> ex; for (u64 i = 0; i < n; i++) { Expr *b = e.byteE(a[0].v + i); ex.push_back(b); if (verbose > 1) t += (char)e.X.eval(b); } e.notes.push_back(ex); if (verbose > 1) fprintf(stderr, "[note] %s\n", t.c_str()); }
BI(fs_stop) { e.endPath(2); }
BI(fs_guard) { e.guard = e.cstr(a[0].v); }
BI(fs_is_concrete) { e.ret({a[0].e ? 0ull : 1ull, nullptr}); }
BI(fs_concretize) { u64 v = e.cv(a[0], 64); e.ret({v, nullptr}); }
BI(fs_violation) { e.error(e.cstr(a[0].v), e.cstr(a[1].v)); }
static std::unordered_map<std::string, Builtin> &builtins() {
  static std::unordered_map<std::string, Builtin> m;
  if (m.empty()) {
    m = {{"malloc", bi_malloc}, {"calloc", bi_calloc}, {"free", bi_free}, {"realloc", bi_realloc}, {"memcpy", bi_memcpy}, {"memmove", bi_memcpy}, {"memset", bi_memset}, {"memcmp", bi_memcmp}, {"bcmp", bi_bcmp}, {"strlen", bi_strlen}, {"memchr", bi_memchr},
      {"__cxa_allocate_exception", bi_cxa_allocate_exception}, {"__cxa_free_exception", bi_cxa_free_exception}, {"__cxa_throw", bi_cxa_throw}, {"__cxa_begin_catch", bi_cxa_begin_catch}, {"__cxa_end_catch", bi_cxa_end_catch}, {"__cxa_rethrow", bi_cxa_rethrow}, {"__cxa_get_exception_ptr", bi_cxa_get_exception_ptr},
      {"__cxa_atexit", bi_nop0}, {"__cxa_pure_virtual", bi_pure}, {"__cxa_guard_acquire", bi_guard_acquire}, {"__cxa_guard_release", bi_guard_release}, {"__cxa_guard_abort", bi_nop0}, {"__dynamic_cast", bi_dynamic_cast},
      {"vsnprintf", bi_vsnprintf}, {"snprintf", bi_snprintf}, {"sprintf", bi_sprintf}, {"fs_fmt_double_c", bi_fs_fmt_double_c}, {"__fs_strtod_dec", bi_fs_strtod_dec},
      {"fs_sym", bi_fs_sym}, {"fs_choice", bi_fs_choice}, {"fs_assume_", bi_fs_assume}, {"fs_assert_", bi_fs_assert}, {"fs_reach", bi_fs_reach}, {"fs_note", bi_fs_note}, {"fs_stop", bi_fs_stop}, {"fs_guard", bi_fs_guard}, {"fs_is_concrete", bi_fs_is_concrete}, {"fs_concretize", bi_fs_concretize}, {"__fs_violation", bi_fs_violation}, {"__clang_call_terminate", bi_clang_call_terminate}, {"_ZSt9terminatev", bi_clang_call_terminate}};
#define M1(F) m[#F] = bi_m_##F;
    M1(sin) M1(cos) M1(tan) M1(asin) M1(acos) M1(atan) M1(sinh) M1(cosh) M1(tanh) M1(exp) M1(log) M1(log10) M1(log2) M1(cbrt) M1(exp2) M1(pow) M1(fmod) M1(atan2) M1(hypot) M1(sqrt) M1(floor) M1(ceil) M1(trunc) M1(rint) M1(nearbyint) M1(round) M1(fabs)
  }
  return m; }
