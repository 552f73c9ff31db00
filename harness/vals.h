// Value specifications shared by harnesses: a Val describes a LISP value independently of the code under test.
#ifndef VALS_H
#define VALS_H
#include "h.h"
enum K { KI, KD, KS, KB, KN, KL, KY, KDICT, KF, KU };
static const char *KNAME[] = {"int", "double", "string", "bool", "nil", "list", "symbol", "dict", "function", "undefined"};
struct Val { int k; int i; double d; S s; bool b; std::vector<Val> l; Val(int k_ = KN) : k(k_), i(0), d(0), b(false) {} };
static int I(const S &n) { return (int)fs_sym(n.c_str(), 32); }
static int I8(const S &n) { return (int)(signed char)fs_sym(n.c_str(), 8); }
static double D(const S &n) { uint64_t b = fs_sym(n.c_str(), 64); double d; memcpy(&d, &b, 8); return d; }
static bool Bo(const S &n) { return fs_choice(n.c_str(), 2) != 0; }
static Val vI(int i) { Val v(KI); v.i = i; return v; }
static Val vD(double d) { Val v(KD); v.d = d; return v; }
static Val vS(const S &s) { Val v(KS); v.s = s; return v; }
static Val vB(bool b) { Val v(KB); v.b = b; return v; }
static Val vY(const S &s) { Val v(KY); v.s = s; return v; }
static Val vL() { return Val(KL); }
// a value of kind k with symbolic contents; strings of length n
static Val sym(int k, const S &n, int len = 1) {
  Val v(k);
  switch (k) { case KI: v.i = I(n + "i"); break; case KD: v.d = D(n + "d"); break; case KS: v.s = symStr(n + "s", len); break; case KB: v.b = Bo(n + "b"); break;
    case KY: v.s = Bo(n + "y") ? "foo" : "bar"; break; default: break; }
  return v; }
// the object a session holds for it (functions, dictionaries and undefined come from the interpreter)
static O obj(const Val &v) {
  switch (v.k) { case KI: return oI(v.i); case KD: return oD(v.d); case KS: return oS(v.s); case KB: return oB(v.b); case KN: return oN();
    case KL: { std::vector<O> l; for (size_t i = 0; i < v.l.size(); i++) l.push_back(obj(v.l[i])); return oL(l); }
    case KY: return std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(v.s)));
    case KDICT: { R r = run("(make-dict)"); return std::make_shared<object>(*r.v); }
    case KF: return (*g)["println"];
    default: { R r = run("(if #f 1)"); return r.v ? std::make_shared<object>(*r.v) : std::make_shared<object>(LispVariant(LispType::_Undefined)); } } }
static bool sameD(double a, double b) { return (a != a && b != b) || a == b; }
// the value v of the session is exactly the specified one
static bool is(V v, const Val &e) {
  if (!v) return false;
  switch (e.k) { case KI: return isInt(v, e.i); case KD: return v->Type == LispType::_Double && sameD(v->DoubleValue(), e.d); case KS: return isStr(v, e.s); case KB: return isBool(v, e.b); case KN: return isNil(v);
    case KY: { if (v->Type != LispType::_Symbol) return false; S t = v->StringValue(); return t == e.s; }
    case KL: { if (v->Type != LispType::_List) return false; auto a = items(v); if (a.size() != e.l.size()) return false;
      for (size_t i = 0; i < e.l.size(); i++) if (!is(std::make_shared<LispVariant>(a[i]), e.l[i])) return false; return true; }
    case KDICT: return v->Type == LispType::_NativeObject; case KF: return v->Type == LispType::_Function; default: return v->Type == LispType::_Undefined; } }
// two values of the session are equal in type and content (functions and native objects: only in type)
static bool same(V a, V b) {
  if (!a || !b) return !a && !b; if (a->Type != b->Type) return false; if (a->Type == LispType::_Int) return a->IntValue() == b->IntValue(); if (a->Type == LispType::_Double) return sameD(a->DoubleValue(), b->DoubleValue()); if (a->Type == LispType::_Bool) return a->BoolValue() == b->BoolValue();
  if (a->Type == LispType::_String || a->Type == LispType::_Symbol) { S x = a->StringValue(), y = b->StringValue(); return x == y; }
  if (a->Type == LispType::_List) { auto x = items(a), y = items(b); if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!same(std::make_shared<LispVariant>(x[i]), std::make_shared<LispVariant>(y[i]))) return false; } return true; }
static bool isO(O o, const Val &e) { return o && is(std::make_shared<LispVariant>(o), e); }
#endif
