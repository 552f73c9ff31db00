// Helpers shared by the harnesses: a session = one global scope, programs are evaluated through Lisp::Eval as the product does.
#ifndef H_H
#define H_H
#include "fs.h"
#include "Lisp.h"
#include "Parser.h"
#include "Tokenizer.h"
#include "Interpreter.h"
#include "Environment.h"
#include "Scope.h"
#include "Variant.h"
#include "Utils.h"
#include "Exception.h"
#include <climits>
using namespace CppLisp;
typedef std::string S;
typedef std::shared_ptr<LispVariant> V;
typedef std::shared_ptr<object> O;
static std::shared_ptr<LispScope> g;
static inline S s_(int n) { char b[16]; int i = 16; bool neg = n < 0; unsigned u = neg ? 0u - (unsigned)n : (unsigned)n; do { b[--i] = (char)('0' + u % 10); u /= 10; } while (u); if (neg) b[--i] = '-'; return S(b + i, 16 - i); }
static void session() {
  g = LispEnvironment::CreateDefaultScope();
  g->Output = std::make_shared<TextWriter>(true); g->Input = std::make_shared<TextReader>(); }
struct R { int k; V v; S msg; R() : k(0) {} };   // k: 0 value, 1 LISP error, 2 anything else thrown
static R evalIn(const S &code, std::shared_ptr<LispScope> sc, const S &mod = "m") {
  R r;
  try { r.v = Lisp::Eval(code, sc, mod, false, sc->Output, sc->Input); if (!r.v) r.k = 3; }
  catch (LispException &e) { r.k = 1; r.msg = e.Message; }
  catch (LispExceptionBase &e) { r.k = 1; r.msg = e.Message; }
  catch (std::exception &e) { r.k = 2; r.msg = e.what(); }
  catch (...) { r.k = 2; r.msg = "?"; }
  return r; }
static R run(const S &code) { return evalIn(code, g); }
// --- values
static O oI(int i) { return std::make_shared<object>(LispVariant(LispType::_Int, std::make_shared<object>(i))); }
static O oD(double d) { return std::make_shared<object>(LispVariant(LispType::_Double, std::make_shared<object>(d))); }
static O oB(bool b) { return std::make_shared<object>(LispVariant(LispType::_Bool, std::make_shared<object>(b))); }
static O oS(const S &s) { return std::make_shared<object>(LispVariant(LispType::_String, std::make_shared<object>(s))); }
static O oN() { return std::make_shared<object>(LispVariant(LispType::_Nil)); }
static O oL(const std::vector<O> &v) { IEnumerable<O> l; for (size_t i = 0; i < v.size(); i++) l.Add(v[i]); return std::make_shared<object>(LispVariant(LispType::_List, std::make_shared<object>(l))); }
static void setv(const S &n, O o) { (*g)[string(n)] = o; }
static V gv(const S &n) { if (!g->ContainsKey(string(n))) return V(); O o = (*g)[string(n)]; return o ? o->ToLispVariant() : V(); }
static bool isV(O o) { return o && o->IsLispVariant(); }
static V vOf(O o) { return o->ToLispVariant(); }
static bool isInt(V v, int i) { return v->Type == LispType::_Int && v->IntValue() == i; }
static bool isDbl(V v, double d) { return v->Type == LispType::_Double && (v->DoubleValue() == d); }
static bool isBool(V v, bool b) { return v->Type == LispType::_Bool && v->BoolValue() == b; }
static bool isStr(V v, const S &s) { if (v->Type != LispType::_String) return false; S t = v->StringValue(); return t == s; }
static std::vector<O> items(V v) { auto l = v->ListValue(); return l->ToArray(); }
static bool isNil(V v) { return v->Type == LispType::_Nil; }
static void note(const S &t) { FS_NOTE(t); }
static S symStr(const S &name, int n) { S r; for (int i = 0; i < n; i++) r += (char)fs_sym((name + s_(i)).c_str(), 8); return r; }
#endif
