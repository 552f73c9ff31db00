// C23: type/typestr name exactly the kind of a value however it was obtained; conversions give the value the source denotes.
#include "mini.h"
static const int TID[] = {3, 4, 5, 2, 1, 6, 8, 9, 7, 0}; static const char *TN[] = {"Int", "Double", "String", "Bool", "Nil", "List", "Symbol", "NativeDictionary", "Function", "Undefined"};
static bool undef(const R &r) { return r.k == 0 && r.v->Type == LispType::_Undefined; }
// decimal integer text: 1 yes (value in v), 0 no, 2 unspecified (white space around a number)
static int decInt(const S &s, long long &v) {
  size_t i = 0, n = s.size(); bool ws = false; while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) { i++; ws = true; } while (n > i && (s[n - 1] == ' ' || (s[n - 1] >= 9 && s[n - 1] <= 13))) { n--; ws = true; }
  bool neg = false; if (i < n && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; } if (i >= n) return 0; v = 0; for (; i < n; i++) { if (s[i] < '0' || s[i] > '9') return 0; v = v * 10 + (s[i] - '0'); } if (neg) v = -v; return ws ? 2 : 1; }
static int decFloat(const S &s, double &d) {
  size_t i = 0, n = s.size(); bool ws = false; while (i < n && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) { i++; ws = true; } while (n > i && (s[n - 1] == ' ' || (s[n - 1] >= 9 && s[n - 1] <= 13))) { n--; ws = true; }
  bool neg = false; if (i < n && (s[i] == '+' || s[i] == '-')) { neg = s[i] == '-'; i++; } int digits = 0, frac = 0, ex = 0; int m = 0; for (; i < n && s[i] >= '0' && s[i] <= '9'; i++) { m = m * 10 + (s[i] - '0'); digits++; } if (i < n && s[i] == '.') for (i++; i < n && s[i] >= '0' && s[i] <= '9'; i++) { m = m * 10 + (s[i] - '0'); digits++; frac++; }
  if (!digits) return 0; if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; bool en = false; if (i < n && (s[i] == '+' || s[i] == '-')) { en = s[i] == '-'; i++; } if (i >= n) return 0; for (; i < n; i++) { if (s[i] < '0' || s[i] > '9') return 0; ex = ex * 10 + (s[i] - '0'); } if (en) ex = -ex; } if (i < n) return 0;
  int e = ex - frac; double p = 1; d = m; for (int k = 0; k < (e < 0 ? -e : e); k++) p *= 10; d = e < 0 ? d / p : d * p; if (neg) d = -d; if (e > 15 || e < -15) return 3; return ws ? 2 : 1; }
extern "C" void fs_main() {
  session(); fs_guard("crash"); mini();
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 8))
#endif
  {
  case 0: { // kind x route
    int k = fs_choice("kind", 10), rt = fs_choice("route", 12); static const char *RT[] = {"x", "(ident x)", "(first (list x))", "(if true x 1)", "(do (def y x) (ident y))", "(dict-get dd 1)", "((lambda (q) q) x)", "(nth 1 (list 1 x))", "(eval 'x)", "(evalstr \"(ident x)\")", "(apply ident (list x))", "(return x)"};
    R q = run("(do (defn ident (z) (return z)) (def dd (make-dict)))"); Val v = sym(k, "v", 2); setv("x", std::make_shared<object>(*toV(v))); q = run("(dict-set dd 1 x)"); fs_reach("kinds");
    if (rt == 6) { run("(def idl (lambda (q) q))"); } S e = rt == 6 ? "(idl x)" : RT[rt]; note(e); R a = run("(do (defn w () (typestr " + e + ")) (w))"), b = run("(do (defn w () (type " + e + ")) (w))"); if (rt == 11) { a = run("(typestr " + e + ")"); b = run("(type " + e + ")"); }
    if (a.k == 1) note(a.msg); FS_ASSERT(a.k == 0 && isStr(a.v, TN[k]), "typestr"); FS_ASSERT(b.k == 0 && isInt(b.v, TID[k]), "type"); break; }
  case 1: { // conversions of values that are no text
    int k = fs_choice("kind", 10), f = fs_choice("fn", 4); static const char *F[] = {"int", "float", "sym", "str"}; if (k == KS) return; Val v = sym(k, "v"); if (k == KL) { v.l.push_back(vI(1)); v.l.push_back(vS("a")); } if (f > 1 && (k == KI || k == KD)) return; setv("x", std::make_shared<object>(*toV(v))); note(KNAME[k]); fs_reach("values");
    R r = run(S("(") + F[f] + " x)"); FS_ASSERT(r.k != 2, "foreign-exception"); FS_ASSERT(isO((*g)["x"], v) || k == KD || k == KF || k == KDICT, "argument-kept"); if (f == 0) { if (k == KI) FS_ASSERT(r.k == 0 && isInt(r.v, v.i), "int-of-int"); else if (k == KB) FS_ASSERT(r.k == 0 && isInt(r.v, v.b ? 1 : 0), "int-of-bool");
      else if (k == KD) { double d = v.d; bool in = d > -2147483649.0 && d < 2147483648.0; if (!in) FS_ASSERT(undef(r), "int-of-large-double"); else { FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Int, "int-of-double"); FS_ASSERT(r.v->IntValue() == (int)d, "int-of-double:value"); } } else FS_ASSERT(undef(r), "int-of-other"); }
    else if (f == 1) { if (k == KI) FS_ASSERT(r.k == 0 && isDbl(r.v, (double)v.i), "float-of-int"); else if (k == KB) FS_ASSERT(r.k == 0 && isDbl(r.v, v.b ? 1.0 : 0.0), "float-of-bool"); else if (k == KD) FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Double && sameD(r.v->DoubleValue(), v.d), "float-of-double"); else FS_ASSERT(undef(r), "float-of-other"); }
    else { FS_ASSERT(r.k == 0 && r.v->Type == (f == 2 ? LispType::_Symbol : LispType::_String), "text-type"); S t = r.v->StringValue(); if (k == KB) FS_ASSERT(t == (v.b ? "#t" : "#f"), "text"); if (k == KN) FS_ASSERT(t == "NIL", "text"); if (k == KY) FS_ASSERT(t == v.s, "text"); if (k == KL) FS_ASSERT(t == "(1 \"a\")", "text"); } break; }
  case 2: { // texts as integers
    int n = fs_choice("length", TIER ? 6 : 4), f = fs_choice("fn", 3); S s = symStr("c", n); if (n > 3) for (int i = 0; i < n; i++) FS_ASSUME((s[i] >= '0' && s[i] <= '9') || s[i] == '-' || s[i] == ' ' || s[i] == 'a'); for (int i = 0; i < n; i++) FS_ASSUME(s[i] != 0); if (f == 2) setv("x", std::make_shared<object>(LispVariant(LispType::_Symbol, std::make_shared<object>(s)))); else setv("x", oS(s)); R r = run(f == 0 ? "(parse-integer x)" : f == 1 ? "(int x)" : "(parse-integer x)"); fs_reach("integer-texts"); long long v = 0; int d = decInt(s, v); FS_ASSERT(r.k == 0, "no-error");
    if (d == 1) FS_ASSERT(isInt(r.v, (int)v), "integer-value"); else if (d == 0) FS_ASSERT(undef(r), "integer-undefined"); else FS_ASSERT(undef(r) || isInt(r.v, (int)v), "integer-with-blanks"); break; }
  case 3: { // around the ends of the range
    int w = fs_choice("base", 4); static const char *P[] = {"214748", "-214748", "99999", "0000000"}; S s = P[w] + symStr("c", 4); for (size_t i = s.size() - 4; i < s.size(); i++) FS_ASSUME(s[i] >= '0' && s[i] <= '9'); if (w == 2) s += "9"; note(P[w]); setv("x", oS(s)); R r = run(fs_choice("fn", 2) ? "(int x)" : "(parse-integer x)"); long long v = 0; decInt(s, v); fs_reach("ends-of-range"); FS_ASSERT(r.k == 0, "no-error"); if (v >= -2147483648LL && v <= 2147483647LL) FS_ASSERT(r.v->Type == LispType::_Int && r.v->IntValue() == (int)v, "range:value"); else FS_ASSERT(undef(r), "range:undefined"); break; }
  case 4: { // texts as floating point numbers
    int n = fs_choice("length", TIER ? 6 : 4); int f = fs_choice("fn", 2); S s = symStr("c", n); for (int i = 0; i < n; i++) { FS_ASSUME(s[i] != 0); if (n > 2) FS_ASSUME((s[i] >= '0' && s[i] <= '9') || s[i] == '-' || s[i] == '.' || s[i] == 'e' || s[i] == ' ' || s[i] == 'x' || s[i] == 'n'); } for (int i = 0; i + 2 < n; i++) if (n > 3) FS_ASSUME((s[i] != 'e') | (s[i + 1] < '0') | (s[i + 1] > '9') | (s[i + 2] < '0') | (s[i + 2] > '9')); for (int i = 0; i + 3 < n; i++) FS_ASSUME((s[i] != 'e') | (s[i + 2] < '0') | (s[i + 2] > '9') | (s[i + 3] < '0') | (s[i + 3] > '9')); setv("x", oS(s)); R r = run(f ? "(float x)" : "(parse-float x)"); fs_reach("float-texts"); double v = 0; int d = decFloat(s, v); FS_ASSERT(r.k == 0, "no-error");
    if (d == 1) FS_ASSERT(isDbl(r.v, v), "float-value"); else if (d == 0) FS_ASSERT(undef(r), "float-undefined"); else if (d == 2) FS_ASSERT(undef(r) || isDbl(r.v, v), "float-with-blanks"); else FS_ASSERT(undef(r) || r.v->Type == LispType::_Double, "float-large"); break; }
  case 5: { // round trips
    int w = fs_choice("trip", 10); int i = I("i"); static const char *E[] = {"(int (str i))", "(parse-integer (str i))", "(int (float i))", "(float (int (float i)))", "(str (sym (str i)))", "(str (str i))", "(sym (str i))", "(evalstr (+ \"(+ 0 \" (str i) \")\"))", "(float (str i))", "(int (parse-float (str i)))"}; if (w != 2 && w != 3) { if (TIER) FS_ASSUME((i > -10000 && i < 10000) || (i > 2147483640) || i < -2147483640); else FS_ASSUME(i > -120 && i < 120); } setv("i", oI(i)); note(E[w]); R r = run(E[w]); fs_reach("round-trips"); FS_ASSERT(r.k == 0, "no-error");
    if (w == 3 || w == 8) FS_ASSERT(isDbl(r.v, (double)i), "round-trip"); else if (w == 4 || w == 5) { R q = run("(str i)"); FS_ASSERT(r.v->Type == LispType::_String && same(r.v, q.v), "round-trip:text"); } else if (w == 6) FS_ASSERT(r.v->Type == LispType::_Symbol && run("(== (str (sym (str i))) (str i))").v->BoolValue(), "round-trip:symbol"); else FS_ASSERT(isInt(r.v, i), "round-trip"); break; }
  case 6: { // symbols and texts
    int n = fs_choice("length", 4); S s = symStr("c", n); for (int i = 0; i < n; i++) FS_ASSUME(s[i] != 0); setv("x", oS(s)); R a = run("(sym x)"), b = run("(str (sym x))"), c = run("(str x)"), d = run("(typestr (sym x))"), e = run("(string x)"); fs_reach("symbols"); FS_ASSERT(a.k == 0 && a.v->Type == LispType::_Symbol, "sym"); { S t = a.v->StringValue(); FS_ASSERT(t == s, "sym:text"); } FS_ASSERT(b.k == 0 && isStr(b.v, s), "str-of-sym"); FS_ASSERT(c.k == 0 && isStr(c.v, s), "str-of-string"); FS_ASSERT(d.k == 0 && isStr(d.v, "Symbol"), "typestr-of-sym"); FS_ASSERT(e.k == 0 && isStr(e.v, s), "string"); break; }
  default: { // numbers of arguments
    static const char *F[] = {"type", "typestr", "int", "float", "parse-integer", "parse-float", "sym", "str"}; int f = fs_choice("fn", 8), n = fs_choice("args", 4); if (n == 1) return; S c = S("(") + F[f]; for (int i = 0; i < n; i++) c += " 1"; c += ")"; note(c); fs_reach("argument-counts"); R r = run(c); FS_ASSERT(r.k == 1, "argument-count"); break; }
  }
}
