// A reference interpreter for a small core of the language (definitions, closures, calls, return, branches), used as oracle:
// programs are built as trees, printed for the interpreter under test and evaluated here with lexical scoping.
#ifndef MINI_H
#define MINI_H
#include "probe.h"
#include <map>
enum Op { CONST, VAR, DEF, GDEF, SETF, RD, LAM, DEFN, GDEFN, CALL, DO, IF, RET, VALOF, EVALQ, WHILEC, ARGC, ARGN, ARGS, APPLY, FAIL, IMPORT };
struct Nd; typedef std::shared_ptr<Nd> P;
struct Nd { Op op; S name; int id; std::vector<S> params; std::vector<P> k; };
struct Env;
struct MV { int kind; int i; S s; P fn; std::shared_ptr<Env> env; std::vector<MV> l; MV() : kind(4), i(0) {} };   // 0 int, 1 closure, 2 symbol, 3 nil, 4 undefined, 5 list
struct Env { std::map<S, MV> m; std::shared_ptr<Env> up; std::vector<MV> args; };
static P nd(Op op, const S &name = "", int id = 0) { P p = std::make_shared<Nd>(); p->op = op; p->name = name; p->id = id; return p; }
static P nd1(Op op, const S &name, P a) { P p = nd(op, name); p->k.push_back(a); return p; }
static P C(int id) { return nd(CONST, "", id); }
static P Vr(const S &n) { return nd(VAR, n); }
static P Rd(int tag, P a) { P p = nd1(RD, "", a); p->id = tag; return p; }
static P K(); static P Ret(P a) { return nd1(RET, "", a); }
static std::vector<S> ps(const S &a) { std::vector<S> v; v.push_back(a); return v; }
static std::vector<P> one(P a) { std::vector<P> v; v.push_back(a); return v; }
static std::vector<P> none() { return std::vector<P>(); }
static P Do(const std::vector<P> &k) { P p = nd(DO); for (size_t i = 0; i < k.size(); i++) if (k[i]) p->k.push_back(k[i]); return p; }
static P Lam(const std::vector<S> &ps, P b) { P p = nd(LAM); p->params = ps; p->k.push_back(b); return p; }
static P Defn(const S &n, const std::vector<S> &ps, P b) { P p = nd(DEFN, n); p->params = ps; p->k.push_back(b); return p; }
static P Call(const S &f, const std::vector<P> &a) { P p = nd(CALL, f); p->k = a; return p; }
static P If(int id, P a, P b) { P p = nd(IF, "", id); p->k.push_back(a); if (b) p->k.push_back(b); return p; }
static S show(P p) {
  S a; if (p->op != LAM && p->op != DEFN && p->op != GDEFN) for (size_t i = 0; i < p->k.size(); i++) a += " " + show(p->k[i]); S ps; for (size_t i = 0; i < p->params.size(); i++) ps += (i ? " " : "") + p->params[i];
  switch (p->op) { case CONST: return "(p " + s_(p->id) + ")"; case VAR: return p->name; case DEF: return "(def " + p->name + a + ")"; case GDEF: return "(gdef " + p->name + a + ")"; case SETF: return "(setf " + p->name + a + ")";
    case RD: return "(rd " + s_(p->id) + a + ")"; case LAM: return "(lambda (" + ps + ") " + show(p->k[0]) + ")"; case DEFN: return "(defn " + p->name + " (" + ps + ") " + show(p->k[0]) + ")"; case GDEFN: return "(gdefn " + p->name + " (" + ps + ") " + show(p->k[0]) + ")";
    case CALL: return "(" + p->name + a + ")"; case DO: return "(do" + a + ")"; case IF: return "(if (t " + s_(p->id) + ")" + a + ")"; case RET: return "(return" + a + ")"; case VALOF: return "(val" + a + ")"; case EVALQ: return "(eval '" + show(p->k[0]) + ")";
    case WHILEC: return "(while (t " + s_(p->id) + ")" + a + ")"; case ARGC: return "(argscount)"; case ARGN: return "(arg " + s_(p->id) + ")"; case ARGS: return "(args)"; case IMPORT: return "(import p_" + p->name + ")"; case APPLY: { S r = "(apply " + p->name + " (list" + a + "))"; return r; } default: return "(fail)"; } }
struct MErr {}; struct MRet { MV v; };
static std::shared_ptr<Env> mglobal; static std::map<S, std::shared_ptr<Env> > mmods; static int mloads;      static std::vector<std::pair<int, MV> > mreads, ireads; static std::vector<int> mlog; static int mfuel;
static int cval[64]; static bool tval[64][4];       // what probes answer
static int cid, tid;
static P K() { cval[cid] = I("c" + s_(cid)); return C(cid++); }      // a constant with an arbitrary value
static int T(int n, int sure = 0) { for (int i = 0; i < n; i++) tval[tid][i] = i < sure || I("t" + s_(tid) + "_" + s_(i)) > 0; return tid++; }   // a condition with arbitrary answers
static int mcount(int id) { int n = 0; for (size_t i = 0; i < mlog.size(); i++) if (mlog[i] == id) n++; return n; }
static MV mInt(int i) { MV v; v.kind = 0; v.i = i; return v; }
static MV *lookup(std::shared_ptr<Env> e, const S &n) { for (; e; e = e->up) { auto it = e->m.find(n); if (it != e->m.end()) return &it->second; } auto it = mglobal->m.find(n); if (it != mglobal->m.end()) return &it->second; for (auto &m : mmods) { auto j = m.second->m.find(n); if (j != m.second->m.end()) return &j->second; } return 0; }
static MV mev(P p, std::shared_ptr<Env> e);
static MV mcall(const MV &f, const std::vector<MV> &a) {
  if (f.kind != 1) throw MErr(); if (--mfuel < 0) throw MErr(); auto c = std::make_shared<Env>(); c->up = f.env; c->args = a; for (size_t i = 0; i < f.fn->params.size(); i++) { MV nil; nil.kind = 3; MV v = i < a.size() ? a[i] : nil; c->m[f.fn->params[i]] = v; if (i >= a.size()) c->args.push_back(v); }
  try { return mev(f.fn->k[0], c); } catch (MRet &r) { return r.v; } }
static MV mev(P p, std::shared_ptr<Env> e) {
  switch (p->op) {
  case CONST: mlog.push_back(p->id); return mInt(cval[p->id]);
  case VAR: { MV *v = lookup(e, p->name); if (v) return *v; MV s; s.kind = 2; s.s = p->name; return s; }
  case DEF: { MV v = mev(p->k[0], e); e->m[p->name] = v; return v; }
  case GDEF: { MV v = mev(p->k[0], e); mglobal->m[p->name] = v; return v; }
  case SETF: { MV v = mev(p->k[0], e); MV *w = lookup(e, p->name); if (!w) throw MErr(); *w = v; return v; }
  case RD: { MV v = mev(p->k[0], e); mreads.push_back(std::make_pair(p->id, v)); return v; }
  case LAM: case DEFN: case GDEFN: { MV v; v.kind = 1; v.fn = p; v.env = e; if (p->op == DEFN) e->m[p->name] = v; if (p->op == GDEFN) mglobal->m[p->name] = v; return v; }
  case CALL: case APPLY: { MV *f = lookup(e, p->name); if (!f) throw MErr(); MV ff = *f; std::vector<MV> a(p->k.size()); for (size_t i = 0; i < a.size(); i++) if (p->k[i]->op == VAR) a[i] = mev(p->k[i], e); for (size_t i = 0; i < a.size(); i++) if (p->k[i]->op != VAR) a[i] = mev(p->k[i], e); return mcall(ff, a); }
  case DO: { MV v; for (size_t i = 0; i < p->k.size(); i++) v = mev(p->k[i], e); return v; }
  case IF: { int n = mcount(p->id); mlog.push_back(p->id); if (tval[p->id][n & 3]) return mev(p->k[0], e); return p->k.size() > 1 ? mev(p->k[1], e) : MV(); }
  case WHILEC: { MV v; for (;;) { int n = mcount(p->id); mlog.push_back(p->id); if (n > 3 || !tval[p->id][n & 3]) break; v = mev(p->k[0], e); } return MV(); }
  case RET: { MRet r; r.v = mev(p->k[0], e); throw r; }
  case VALOF: case EVALQ: return mev(p->k[0], e);
  case IMPORT: { auto e2 = std::make_shared<Env>(); mloads++; MV v; try { v = mev(p->k[0], e2); } catch (MRet &r) { v = r.v; } mmods[p->name] = e2; return v; }
  case ARGC: return mInt((int)e->args.size());
  case ARGN: if (p->id < 0 || p->id >= (int)e->args.size()) throw MErr(); return e->args[p->id];
  case ARGS: { MV v; v.kind = 5; v.l = e->args; return v; }
  default: throw MErr(); } }
static MV fromV(V v) { MV r; if (v->Type == LispType::_Int) r = mInt(v->IntValue()); else if (v->Type == LispType::_Function) r.kind = 1; else if (v->Type == LispType::_Symbol) { r.kind = 2; r.s = v->StringValue(); } else if (v->Type == LispType::_Nil) r.kind = 3;
  else if (v->Type == LispType::_List) { r.kind = 5; auto a = items(v); for (size_t i = 0; i < a.size(); i++) r.l.push_back(fromV(std::make_shared<LispVariant>(a[i]))); } else if (v->Type != LispType::_Undefined) r.kind = 9; return r; }
static bool meq(const MV &a, const MV &b) { if (a.kind != b.kind) return false; if (a.kind == 0) return a.i == b.i; if (a.kind == 2) return a.s == b.s; if (a.kind == 5) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); i++) if (!meq(a.l[i], b.l[i])) return false; } return true; }
// natives of the session: p (constant), t (condition), rd (records a value), val (identity), fail (LISP error)
static void mini() {
  mglobal = std::make_shared<Env>(); mmods.clear(); mloads = 0; mlog.clear(); mreads.clear(); ireads.clear(); plog.clear(); mfuel = 40; cid = 0; tid = 32; for (int i = 0; i < 64; i++) { cval[i] = 100 + i; for (int j = 0; j < 4; j++) tval[i][j] = false; }
  probe(); pval = [](int id, int) -> Val { return vI(cval[id]); };
  fn("t", [](const std::vector<O> &a) -> V { int id = vOf(a[0])->IntValue(); int n = pcount(id); plog.push_back(id); return vOf(oB(n <= 3 && tval[id][n & 3])); });
  fn("rd", [](const std::vector<O> &a) -> V { V v = std::make_shared<LispVariant>(a[1]); ireads.push_back(std::make_pair(vOf(a[0])->IntValue(), fromV(v))); return v; });
  fn("val", [](const std::vector<O> &a) -> V { return std::make_shared<LispVariant>(a[0]); });
  fn("fail", [](const std::vector<O> &) -> V { throw LispException("failed", g.get()); }); }
// runs the program in both and compares the evaluated constants and conditions, the values read and the outcome; yields true if it ended without error
static bool both(P p, const S &id, const S &src = "") {
  S c = src.size() ? src : show(p); note(c); bool err = false; MV v; try { v = mev(p, mglobal); } catch (MErr &) { err = true; } catch (MRet &r) { v = r.v; }
  R r = run(c); if (r.k == 1) note(r.msg); note(logs(plog));
  FS_ASSERT(plog.size() == mlog.size(), (id + ":number-of-evaluations").c_str()); for (size_t i = 0; i < mlog.size(); i++) FS_ASSERT(plog[i] == mlog[i], (id + ":order-of-evaluations").c_str());
  FS_ASSERT(ireads.size() == mreads.size(), (id + ":number-of-reads").c_str());
  for (size_t i = 0; i < mreads.size(); i++) { FS_ASSERT(ireads[i].first == mreads[i].first, (id + ":order-of-reads").c_str()); FS_ASSERT(meq(ireads[i].second, mreads[i].second), (id + ":value-read:" + s_(mreads[i].first)).c_str()); }
  if (err) { FS_ASSERT(r.k == 1, (id + ":error").c_str()); return false; }
  FS_ASSERT(r.k == 0 || r.k == 3, (id + ":no-error").c_str()); MV w; if (r.k == 0) w = fromV(r.v); FS_ASSERT(meq(w, v), (id + ":value").c_str()); return true; }
#endif
