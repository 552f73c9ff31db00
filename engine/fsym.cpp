// fsym: symbolic execution of LLVM IR with Z3.  One process per path (fork), pointers are (object, offset).
#include "fsym.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <cstdarg>
using namespace llvm;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Shared *sh; static bool myToken = true; static std::string outDir = "."; static int g_workers = 8; static u64 g_instLimit = 400000000ull; static int g_maxViol = 40; static int g_sampleEvery = 0, g_maxSamples = 0; static u64 g_forkLimit = 0;
static int verbose = 0;

struct Input { std::string name; int choiceN; u64 v; Expr *e; int bits; };

struct Engine {
  std::unique_ptr<Module> M; const DataLayout *DL; LLVMContext C; ExprCtx X;
  std::vector<Obj> objs; std::deque<u32> freeIds; size_t quarantine = 4096;
  std::unordered_map<const GlobalValue *, u64> gaddr; std::vector<CFunc *> funcs; std::unordered_map<u32, CFunc *> funcByObj; std::unordered_map<std::string, CFunc *> funcByName;
  std::vector<Val> stk; std::vector<Frame> fr; u32 top = 0;
  std::unordered_map<u64, ExcInfo> excs; std::vector<u64> caught; std::unordered_map<u64, int> tinum; u64 lpExc = 0; int lpSel = 0;
  u64 vt_class = 0, vt_si = 0, vt_vmi = 0; u32 nblocks = 0;
  std::vector<Expr *> pc; std::unordered_set<Expr *> pcset; VarSet fixedVars;
  std::vector<Input> inputs; std::vector<std::vector<Expr *>> notes; std::string guard; u64 insts = 0, tickNext = 0; bool inPath = false; u64 reachedAny = 0;
  struct QRes { int r; std::vector<std::pair<u32, u64>> m; }; std::map<std::vector<u32>, QRes> qcache;
  std::vector<std::string> violIds;

  // ------------------------------------------------------------------ process exploration
  void endPath(int kind) { // 0 done 1 assume-infeasible 2 stopped 3 violation 4 incomplete 5 unsupported 6 instlimit
    sh->paths++; sh->insts += insts;
    switch (kind) { case 0: sh->pathsDone++; break; case 1: sh->pathsAssumed++; break; case 2: sh->pathsStopped++; break; case 3: sh->pathsViol++; break; case 4: sh->incomplete++; break; case 5: sh->unsupported++; break; case 6: sh->instlimit++; sh->incomplete++; break; }
    u64 m = sh->maxpc; while (m < pc.size() && !sh->maxpc.compare_exchange_weak(m, pc.size())) {}
    if (kind == 0 && g_maxSamples) { u64 n = sh->pathsDone; if ((n % (g_sampleEvery ? g_sampleEvery : 1)) == 0 && sh->nsamples < (u64)g_maxSamples) { u64 k = sh->nsamples++; if (k < (u64)g_maxSamples) { char fn[64]; snprintf(fn, sizeof fn, "/sample%04d.txt", (int)k); writeModel(outDir + fn, "sample", "", X.model); } } }
    if (myToken) sh->tokens++;
    sh->liveproc--;
    fflush(stdout); fflush(stderr); _exit(0);
  }
  void checkStop() { if (sh->stop || now() > sh->deadline) endPath(4); }
  static void bad(int st) { if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) { sh->crashes++; sh->incomplete++; } }
  void reap() { int st; while (waitpid(-1, &st, WNOHANG) > 0) bad(st); }
  bool forkChild() {
    if (inPath == false) fatal("fork outside a path");
    sh->forks++; checkStop();
    if (g_forkLimit && sh->forks > g_forkLimit) { sh->incomplete++; sh->stop = 1; endPath(4); }
    bool tok = false; int t = sh->tokens; while (t > 0) if (sh->tokens.compare_exchange_weak(t, t - 1)) { tok = true; break; }
    reap();
    fflush(stdout); fflush(stderr);
    pid_t p; int tries = 0; while ((p = fork()) < 0 && tries++ < 200) usleep(20000);
    if (p < 0) { if (tok) sh->tokens++; sh->incomplete++; return false; }
    if (p == 0) { myToken = tok; insts = 0; tickNext = 0; sh->liveproc++; return true; }
    sh->procs++;
    if (!tok) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} bad(st); }
    return false;
  }
  void fatal(const std::string &m) { fprintf(stderr, "fsym: fatal: %s\n", m.c_str()); if (inPath) { noteUnsup(m); endPath(5); } exit(3); }
  void noteUnsup(const std::string &m) { int n = sh->nunsup; for (int i = 0; i < n && i < 64; i++) if (!strncmp(sh->unsup[i], m.c_str(), 159)) return; n = sh->nunsup++; if (n < 64) { strncpy(sh->unsup[n], m.c_str(), 159); if (verbose) fprintf(stderr, "fsym: unsupported: %s\n%s", m.c_str(), stackTrace().c_str()); } }
  void unsupported(const std::string &m) { noteUnsup(m); endPath(5); }

  // ------------------------------------------------------------------ solver
  void slice(Expr *q, std::vector<Expr *> &out) {
    VarSet s = *q->vs; std::vector<char> in(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!in[i] && (*pc[i]->vs & s).any()) { in[i] = 1; if ((*pc[i]->vs & ~s).any()) { s |= *pc[i]->vs; ch = true; } } }
    for (size_t i = 0; i < pc.size(); i++) if (in[i]) out.push_back(pc[i]);
  }
  // Complete finite-domain procedure for the common tiny branch query: every constraint on the variable is a constraint on that one
  // 8-bit variable alone.  Only used to decide which branch directions are feasible; assertions always go to Z3.
  struct Dom { bool init = false, single = true; size_t done = 0; std::bitset<256> d; }; std::vector<Dom> doms;
  int tinyQuery(Expr *q, std::vector<std::pair<u32, u64>> &mdl) {
    if (q->vs->count() != 1) return -2; u32 v = 0; while (!(*q->vs)[v]) v++;
    if (X.vars[v].e->w > 8) return -2; if (doms.size() <= v) doms.resize(v + 1); Dom &D = doms[v]; if (!D.single) return -2; u32 n = 1u << X.vars[v].e->w;
    if (!D.init) { D.init = true; for (u32 i = 0; i < n; i++) D.d[i] = 1; }
    u64 old = X.model[v]; int r = 0; u64 w = 0;
    for (; D.done < pc.size(); D.done++) { Expr *c = pc[D.done]; if (!(*c->vs)[v]) continue; if (c->vs->count() != 1) { D.single = false; return -2; }
      for (u32 i = 0; i < n; i++) if (D.d[i]) { X.model[v] = i; X.modelStamp++; if (X.eval(c) != 1) D.d[i] = 0; } X.model[v] = old; X.modelStamp++; }
    for (u32 i = 0; i < n && !r; i++) if (D.d[i]) { X.model[v] = i; X.modelStamp++; if (X.eval(q) == 1) { r = 1; w = i; } }
    X.model[v] = old; X.modelStamp++; sh->tiny++; if (r) mdl.push_back({v, w}); return r;
  }
  // 1 sat, 0 unsat, -1 unknown; model changes for the variables of the slice in mdl
  int query(Expr *q, std::vector<std::pair<u32, u64>> &mdl) {
    if (ExprCtx::isC(q)) return q->c ? 1 : 0;
    std::vector<Expr *> cs; slice(q, cs);
    std::vector<u32> ids; for (auto e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
    std::vector<u32> h; h.push_back(q->id); h.insert(h.end(), ids.begin(), ids.end());
    auto it = qcache.find(h); if (it != qcache.end()) { sh->qcache++; mdl = it->second.m; return it->second.r; }
    bool fp = q->fp; for (auto e : cs) fp |= e->fp;
    double t0 = now();
    Z3_solver s = fp ? X.sFP : X.sBV; Z3_solver_reset(X.z3, s);
    VarSet vs = *q->vs;
    for (auto e : cs) { Z3_solver_assert(X.z3, s, X.zT(e)); vs |= *e->vs; }
    Z3_solver_assert(X.z3, s, X.zT(q));
    if (verbose > 1) fprintf(stderr, "Q vars=%d n=%d fp=%d  %s\n", (int)vs.count(), (int)cs.size(), (int)fp, X.str(q, 12).c_str()); double tq = now();
    Z3_lbool r = Z3_solver_check(X.z3, s); if (verbose > 1) fprintf(stderr, "T %.2f ms\n", (now() - tq) * 1e3);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (res == 1) {
      Z3_model m = Z3_solver_get_model(X.z3, s); Z3_model_inc_ref(X.z3, m);
      for (u32 i = 0; i < X.vars.size(); i++) if (vs[i]) { Z3_ast v; u64 x = 0; if (Z3_model_eval(X.z3, m, X.zB(X.vars[i].e), true, &v)) Z3_get_numeral_uint64(X.z3, v, &x); mdl.push_back({i, x}); }
      Z3_model_dec_ref(X.z3, m);
      // validate the model against our own semantics
      std::vector<u64> sv = X.model; for (auto &p : mdl) X.model[p.first] = p.second; X.modelStamp++;
      bool ok = X.eval(q) == 1; for (auto e : cs) ok = ok && X.eval(e) == 1;
      X.model = sv; X.modelStamp++;
      if (!ok) { noteUnsup("solver model does not satisfy the constraints under concrete evaluation"); res = -1; }
    }
    sh->queries++; sh->qns += (u64)((now() - t0) * 1e9); if (res == 1) sh->qsat++; else if (res == 0) sh->qunsat++; else { sh->qunknown++; if (verbose) fprintf(stderr, "fsym: unknown (%s): %s\n", Z3_solver_get_reason_unknown(X.z3, s), X.str(q, 12).c_str()); }
    if (qcache.size() > 20000) qcache.clear();
    qcache[h] = {res, mdl}; return res;
  }
  void applyModel(std::vector<std::pair<u32, u64>> &m) { for (auto &p : m) X.model[p.first] = p.second; X.modelStamp++; }
  void addPC(Expr *c) {
    if (ExprCtx::isC(c)) return;
    if (c->k == E_AND && c->w == 1) { addPC(c->a); addPC(c->b); return; }
    if (!pcset.insert(c).second) return;
    pc.push_back(c);
    if (c->k == E_EQ && c->a->k == E_VAR && ExprCtx::isC(c->b)) fixedVars |= *c->a->vs;
    if (c->w == 1 && c->k == E_VAR) fixedVars |= *c->vs;
    if (c->k == E_XOR && c->b == X.T && c->a->k == E_VAR) fixedVars |= *c->vs;
  }
  bool known(Expr *c, bool &r) {
    if (ExprCtx::isC(c)) { r = c->c; return true; }
    if ((*c->vs & ~fixedVars).none()) { r = X.eval(c); return true; }
    if (pcset.count(c)) { r = true; return true; }
    if (pcset.count(X.nt(c))) { r = false; return true; }
    return false;
  }
  // resolve if-then-else terms whose condition is settled on this path
  std::unordered_map<Expr *, Expr *> simpDone; std::unordered_map<Expr *, size_t> simpTried;
  Expr *simp(Expr *e, int depth = 0) {
    if (!e || ExprCtx::isC(e) || e->k == E_VAR || depth > 24) return e;
    auto it = simpDone.find(e); if (it != simpDone.end()) return it->second;
    if (!hasIte(e)) return e;
    auto jt = simpTried.find(e); if (jt != simpTried.end() && jt->second == pc.size()) return e;
    Expr *r = e;
    if (e->k == E_ITE) { bool v; int k = -1; if (known(e->a, v)) k = v; else { std::vector<std::pair<u32, u64>> m; if (tinyQuery(e->a, m) == 0) k = 0; else if (tinyQuery(X.nt(e->a), m) == 0) k = 1; }
      if (k >= 0) { r = simp(k ? e->b : e->d, depth + 1); simpDone[e] = r; return r; } }
    Expr *a = simp(e->a, depth + 1), *b = simp(e->b, depth + 1), *d = simp(e->d, depth + 1);
    if (a != e->a || b != e->b || d != e->d) { r = X.rebuild(e, a, b, d); if (r != e) { Expr *r2 = simp(r, depth + 1); simpDone[e] = r2; return r2; } }
    simpTried[e] = pc.size(); return r;
  }
  std::unordered_map<Expr *, bool> iteMemo;
  bool hasIte(Expr *e) { if (!e || ExprCtx::isC(e) || e->k == E_VAR) return false; if (e->k == E_ITE) return true; auto it = iteMemo.find(e); if (it != iteMemo.end()) return it->second; bool r = hasIte(e->a) || hasIte(e->b) || hasIte(e->d); iteMemo[e] = r; return r; }
  bool branch(Expr *c) {
    bool r; if (known(c, r)) return r;
    { Expr *c2 = simp(c); if (c2 != c) { c = c2; if (known(c, r)) return r; } }
    bool mv = X.eval(c); Expr *mine = mv ? c : X.nt(c), *other = mv ? X.nt(c) : c;
    std::vector<std::pair<u32, u64>> m; int q = tinyQuery(other, m); if (q == -2) q = query(other, m);
    if (q == 0) { pcset.insert(mine); return mv; } // implied: remember without adding to the path condition
    if (q < 0) { sh->incomplete++; addPC(mine); return mv; }
    if (forkChild()) { applyModel(m); addPC(other); return !mv; }
    addPC(mine); return mv;
  }
  u64 concretize(Expr *e) { // all feasible values, one per path
    e = simp(e); if (ExprCtx::isC(e)) return e->c;
    for (int n = 0;; n++) { checkStop(); if (n > 5000) { noteUnsup("more than 5000 values: " + X.str(e, 5)); endPath(4); } u64 v = X.eval(e); if (branch(X.eq(e, X.cst(v, e->w)))) return v; }
  }
  u64 concretizeOne(Expr *e, const char *why) { // a single value; recorded as a cut
    if (ExprCtx::isC(e)) return e->c; u64 v = X.eval(e); Expr *c = X.eq(e, X.cst(v, e->w)); bool r; if (known(c, r)) return v;
    std::vector<std::pair<u32, u64>> m; if (query(X.nt(c), m) != 0) { sh->concretized++; noteUnsup(std::string("concretized: ") + why); }
    addPC(c); return v; }
  u64 cv(Val &x, int w, bool one = false, const char *why = "") { if (!x.e) return x.v; u64 v = one ? concretizeOne(x.e, why) : concretize(x.e); x.v = v; x.e = nullptr; return v; }

  // ------------------------------------------------------------------ violations
  std::string stackTrace() { std::string s; int n = 0; for (size_t i = fr.size(); i-- > 0 && n < 14; n++) { char b[32]; u32 ln = fr[i].callInst ? fr[i].callInst->line : 0; snprintf(b, sizeof b, ":%u", ln); s += "  at " + llvm::demangle(fr[i].f->name).substr(0, 150) + b + "\n"; } return s; }
  static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o; }
  void writeModel(const std::string &fn, const std::string &id, const std::string &msg, const std::vector<u64> &mdl) {
    std::vector<u64> sv = X.model; X.model = mdl; X.modelStamp++;
    FILE *f = fopen(fn.c_str(), "w"); if (!f) { X.model = sv; X.modelStamp++; return; }
    fprintf(f, "id %s\nmsg %s\n", id.c_str(), esc(msg).c_str());
    for (auto &i : inputs) fprintf(f, "in %s %llu\n", i.name.c_str(), (unsigned long long)(i.e ? X.eval(i.e) : i.v));
    for (auto &n : notes) { std::string t; for (Expr *b : n) t += (char)X.eval(b); fprintf(f, "note %s\n", esc(t).c_str()); }
    std::string st = stackTrace(); size_t p = 0; while (p < st.size()) { size_t q = st.find('\n', p); fprintf(f, "stack %s\n", st.substr(p, q - p).c_str()); p = q + 1; }
    fclose(f); X.model = sv; X.modelStamp++;
  }
  IdStat *idstat(const std::string &id) {
    int n = sh->nids; for (int i = 0; i < n; i++) if (!strncmp(sh->ids[i].id, id.c_str(), 95)) return &sh->ids[i];
    int z = 0; while (!sh->lock.compare_exchange_weak(z, 1)) { z = 0; }
    n = sh->nids; IdStat *r = nullptr; for (int i = 0; i < n; i++) if (!strncmp(sh->ids[i].id, id.c_str(), 95)) r = &sh->ids[i];
    if (!r && n < MAXIDS - 1) { r = &sh->ids[n]; strncpy(r->id, id.c_str(), 95); sh->nids = n + 1; }
    sh->lock = 0; return r ? r : &sh->ids[MAXIDS - 1];
  }
  void report(const std::string &id, const std::string &msg, const std::vector<u64> &mdl) {
    IdStat *s = idstat(id); u64 k = s->violated++; if (k >= 6) return;
    u64 n = sh->nviol++; if (n >= 400) return; if (n + 1 >= (u64)g_maxViol) sh->stop = 1;
    char fn[64]; snprintf(fn, sizeof fn, "/viol%04d.txt", (int)n); writeModel(outDir + fn, id, msg, mdl);
    if (verbose) fprintf(stderr, "fsym: violation %s: %s\n%s", id.c_str(), msg.c_str(), stackTrace().c_str());
  }
  void error(const std::string &id, const std::string &msg) { if (!inPath) { fprintf(stderr, "error during start-up: %s: %s\n%s", id.c_str(), msg.c_str(), stackTrace().c_str()); exit(3); } report(guard.empty() ? id : guard + "/" + id, msg, X.model); endPath(3); }

  // ------------------------------------------------------------------ memory
  u32 newObj(u32 size, u8 kind) {
    u32 id; if (freeIds.size() > quarantine) { id = freeIds.front(); freeIds.pop_front(); } else { id = objs.size(); objs.push_back(Obj()); }
    Obj &o = objs[id]; o.size = size; o.st = 1; o.kind = kind; o.sym = nullptr; o.data = (u8 *)malloc(size ? size : 1); memset(o.data, kind == K_HEAP || kind == K_STACK ? 0xAA : 0, size); return id;
  }
  void freeObj(u32 id) { Obj &o = objs[id]; free(o.data); o.data = nullptr; if (o.sym) { free(o.sym); o.sym = nullptr; } o.st = 2; freeIds.push_back(id); }
  static u64 addrOf(u32 id) { return ((u64)id << 32) + BASE; }
  std::string descr(u64 a, u64 n) { char b[128]; u32 id = a >> 32; if (id == 0 || id >= objs.size()) snprintf(b, sizeof b, "invalid pointer 0x%llx (size %llu)", (unsigned long long)a, (unsigned long long)n); else snprintf(b, sizeof b, "offset %lld size %llu in %s object of size %u%s", (long long)((i64)(u32)a - BASE), (unsigned long long)n, objs[id].kind == K_HEAP ? "heap" : objs[id].kind == K_STACK ? "stack" : "global", objs[id].size, objs[id].st == 2 ? " (freed)" : ""); return b; }
  bool valid(u64 a, u64 n) { u32 id = a >> 32; if (id == 0 || id >= objs.size()) return false; Obj &o = objs[id]; if (o.st != 1) return false; u64 off = (u64)(u32)a - BASE; return off <= o.size && n <= o.size - off; }
  Obj &acc(u64 a, u64 n, bool wr) {
    u32 id = a >> 32;
    if (__builtin_expect(id != 0 && id < objs.size(), 1)) { Obj &o = objs[id]; u64 off = (u64)(u32)a - BASE; if (__builtin_expect(o.st == 1 && off <= o.size && n <= o.size - off && o.kind != K_FUNC && !(wr && o.kind == K_CONST), 1)) return o; }
    const char *what; if (id == 0 || id >= objs.size()) what = a < 65536 ? "UB:null-dereference" : "UB:wild-pointer"; else if (objs[id].st == 2) what = "UB:use-after-free"; else what = wr ? "UB:out-of-bounds-write" : "UB:out-of-bounds-read";
    error(what, descr(a, n)); __builtin_unreachable();
  }
  void symArr(Obj &o) { if (!o.sym) { o.sym = (Expr **)calloc(o.size ? o.size : 1, sizeof(Expr *)); } }
  Val load(u64 a, int w) {
    int n = (w + 7) / 8; Obj &o = acc(a, n, false); u32 off = (u32)a - BASE;
    if (o.sym) { bool any = false; for (int i = 0; i < n; i++) if (o.sym[off + i]) { any = true; break; }
      if (any) { Expr *e = nullptr; for (int i = 0; i < n; i++) { Expr *b = o.sym[off + i] ? o.sym[off + i] : X.cst(o.data[off + i], 8); e = e ? X.concat(b, e) : b; }
        if (w < n * 8) e = X.extract(e, 0, w); return fromE(e); } }
    u64 v = 0; switch (n) { case 1: v = o.data[off]; break; case 2: { uint16_t t; memcpy(&t, o.data + off, 2); v = t; break; } case 4: { u32 t; memcpy(&t, o.data + off, 4); v = t; break; } case 8: memcpy(&v, o.data + off, 8); break; default: memcpy(&v, o.data + off, n); }
    return {v & maskw(w), nullptr};
  }
  static Val fromE(Expr *e) { if (e->k == E_CONST) return {e->c, nullptr}; return {0, e}; }
  Expr *E(const Val &x, int w) { return x.e ? x.e : X.cst(x.v, w); }
  void store(u64 a, Val x, int w) {
    int n = (w + 7) / 8; Obj &o = acc(a, n, true); u32 off = (u32)a - BASE;
    if (x.e) { symArr(o); Expr *e = x.e; if (w < n * 8) e = X.zext(e, n * 8); for (int i = 0; i < n; i++) { Expr *b = X.extract(e, i * 8, 8); if (ExprCtx::isC(b)) { o.sym[off + i] = nullptr; o.data[off + i] = (u8)b->c; } else o.sym[off + i] = b; } return; }
    if (o.sym) for (int i = 0; i < n; i++) o.sym[off + i] = nullptr;
    switch (n) { case 1: o.data[off] = (u8)x.v; break; case 2: { uint16_t t = x.v; memcpy(o.data + off, &t, 2); break; } case 4: { u32 t = x.v; memcpy(o.data + off, &t, 4); break; } case 8: memcpy(o.data + off, &x.v, 8); break; default: memcpy(o.data + off, &x.v, n); }
  }
  Expr *byteE(u64 a) { Obj &o = acc(a, 1, false); u32 off = (u32)a - BASE; if (o.sym && o.sym[off]) return o.sym[off]; return X.cst(o.data[off], 8); }
  // symbolic address: returns a concrete address (forking over the feasible ones), or for small read-only accesses builds an ITE
  Val loadSym(Expr *ae, int w) {
    int n = (w + 7) / 8;
    for (;;) {
      u64 a = X.eval(ae); u32 id = a >> 32; if (id == 0 || id >= objs.size() || objs[id].st != 1 || objs[id].kind == K_FUNC) { u64 c = concretize(ae); return load(c, w); }
      Obj &o = objs[id]; u64 lo = addrOf(id); if (o.size < (u32)n) { u64 c = concretize(ae); return load(c, w); }
      Expr *inb = X.bin(E_ULE, X.bin(E_SUB, ae, X.cst(lo, 64)), X.cst(o.size - n, 64));
      if (!branch(inb)) continue;
      bool table = (o.kind == K_CONST && o.size <= 4096) || (n == 1 && o.size <= 256);
      if (!table) { u64 c = concretize(ae); return load(c, w); }
      Expr *off = X.bin(E_SUB, ae, X.cst(lo, 64));
      // step: power of two alignment of the offset expression known from the access width for tables
      u32 step = 1; { Expr *t = off; if (t->k == E_SHL && ExprCtx::isC(t->b)) step = 1u << std::min<u64>(t->b->c, 6); else if (t->k == E_CONCAT && ExprCtx::isC(t->b) && t->b->c == 0) step = 1u << std::min<u64>(t->b->w, 6); else if (t->k == E_ADD && t->a->k == E_SHL && ExprCtx::isC(t->a->b) && ExprCtx::isC(t->b)) { u32 s2 = 1u << std::min<u64>(t->a->b->c, 6); if (t->b->c % s2 == 0) step = s2; } }
      Expr *r = nullptr; u64 um = std::min<u64>(ExprCtx::umax(off, 8), o.size - n);
      for (i64 i = (i64)um; i >= 0; i--) { if (i % step) continue; Val b = load(lo + i, w); Expr *be = E(b, w); r = r ? X.ite(X.eq(off, X.cst(i, 64)), be, r) : be; }
      return fromE(r);
    }
  }
  u64 addr(Val &x) { if (!x.e) return x.v; return concretize(x.e); }
  void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return; Obj &so = acc(s, n, false); Obj &dobj = acc(d, n, true); u32 sf = (u32)s - BASE, df = (u32)d - BASE;
    memmove(dobj.data + df, so.data + sf, n);
    if (so.sym) { symArr(dobj); memmove(dobj.sym + df, so.sym + sf, n * sizeof(Expr *)); } else if (dobj.sym) memset(dobj.sym + df, 0, n * sizeof(Expr *));
  }
  std::string cstr(u64 a, bool one = true) { std::string s; for (;; a++) { Expr *b = byteE(a); u64 c = ExprCtx::isC(b) ? b->c : one ? concretizeOne(b, "string byte") : concretize(b); if (!c) return s; s += (char)c; } }
  void putBytes(u64 a, const void *p, u64 n) { Obj &o = acc(a, n, true); u32 off = (u32)a - BASE; memcpy(o.data + off, p, n); if (o.sym) memset(o.sym + off, 0, n * sizeof(Expr *)); }

#include "compile.inc"
#include "exec.inc"
};

#include "builtins.inc"
#include "main.inc"
