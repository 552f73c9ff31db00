// C03: the value an atom or literal denotes, against an independent reading of its characters.
#include "vals.h"
static bool dig(unsigned char c) { return (unsigned)(c - '0') < 10u; }
// kind of an atom by its spelling: 0 symbol, 1 integer literal, 2 decimal literal, 3 true, 4 false, 5 nil
static int kind(const S &a) {
  size_t n = a.size(), i = 0, d = 0; if (n && (a[0] == '-' || a[0] == '+')) i++;
  while (i < n && dig(a[i])) i++, d++; if (i == n && d) return 1;
  if (i < n && a[i] == '.') { i++; while (i < n && dig(a[i])) i++, d++; }
  if (d && i == n) return 2;
  if (d && (a[i] == 'e' || a[i] == 'E')) { i++; if (i < n && (a[i] == '-' || a[i] == '+')) i++; size_t st = i; while (i < n && dig(a[i])) i++; if (i == n && i > st) return 2; return 0; }
  if (a == "true" || a == "#t") return 3; if (a == "false" || a == "#f") return 4;
  if (n == 3 && ((a[0] == 'n') | (a[0] == 'N')) && ((a[1] == 'i') | (a[1] == 'I')) && ((a[2] == 'l') | (a[2] == 'L'))) return 5;
  return 0; }
static unsigned long digits(const S &a, size_t from) { unsigned long v = 0; for (size_t i = from; i < a.size(); i++) { v = v * 10 + (unsigned long)(unsigned char)(a[i] - '0'); } return v; }
static R lit(const S &a) { return run("'" + a); }
static void intLit(const S &a, const S &id) {   // at most 15 digits
  bool neg = a[0] == '-'; unsigned long v = digits(a, (neg || a[0] == '+') ? 1 : 0); R r = lit(a); FS_ASSERT(r.k == 0, (id + ":value").c_str());
  if (neg ? v <= 2147483648ul : v <= 2147483647ul) { FS_ASSERT(r.v->Type == LispType::_Int, (id + ":in-range-is-int").c_str()); FS_ASSERT(r.v->IntValue() == (int)(neg ? 0ul - v : v), (id + ":int").c_str()); fs_reach("int"); }
  else { FS_ASSERT(r.v->Type == LispType::_Double, (id + ":out-of-range-is-double").c_str()); double d = (double)(long)v; FS_ASSERT(r.v->DoubleValue() == (neg ? -d : d), (id + ":double").c_str()); fs_reach("int-out-of-range"); } }
static O parsed(const S &t, bool &ok) { ok = false; try { O o = LispParser::Parse(t, 0, nullptr); ok = true; return o; } catch (...) { return O(); } }
extern "C" void fs_main() {
  session(); fs_guard("crash");
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 7))
#endif
  {
  case 0: { // integer literals of every length
    static const char *P[] = {"", "21474836", "99999999", "00000000", "000000000"}; int p = fs_choice("prefix", 5), n = p ? 2 : 1 + fs_choice("n", TIER ? 9 : 4), sg = fs_choice("sign", 3); S a = sg == 1 ? "-" : sg == 2 ? "+" : ""; S d = symStr("d", n); for (int i = 0; i < n; i++) FS_ASSUME(dig(d[i])); intLit(a + P[p] + d, "integer-literal"); break; }
  case 1: { // decimal literals
    int n = 1 + fs_choice("n", TIER ? 3 : 2), m = fs_choice("m", TIER ? 4 : 3), e = fs_choice("e", TIER ? 5 : 3), sg = fs_choice("sign", 2); S d = symStr("d", n + m); for (int i = 0; i < n + m; i++) FS_ASSUME(dig(d[i]));
    static const char *E[] = {"", "e2", "E-3", "e+10", "e-07"}; static const int X[] = {0, 2, -3, 10, -7}; if (!m && !e) fs_stop(); S a = (sg ? "-" : "") + d.substr(0, n) + (m ? "." : "") + d.substr(n) + E[e]; R r = lit(a); fs_reach("decimal"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Double, "decimal:is-double");
    int sc = X[e] - m; double v = (double)(int)digits(d, 0), p = 1; for (int i = 0; i < (sc < 0 ? -sc : sc); i++) p *= 10; if (sc < 0) v = v / p; else if (sc > 0) v = v * p; FS_ASSERT(r.v->DoubleValue() == (sg ? -v : v), "decimal:value"); break; }
  case 2: { // the kind of any atom
    int n = 1 + fs_choice("n", TIER ? 5 : 4); S a = symStr("c", n); for (int i = 0; i < n; i++) { unsigned char c = a[i]; FS_ASSUME(!((c == ' ') | ((unsigned)(c - 9) < 5u) | (c == '(') | (c == ')') | (c == ';') | (c == '\'') | (c == '`') | (c == ',') | (c == '"') | (c == '\\') | (c == 0))); }
    bool ok; O o = parsed("(x " + a + ")", ok); FS_ASSERT(ok, "atom:parses"); V v = vOf(o->ToEnumerableOfObjectRef()[1]); int k = kind(a); fs_reach(k == 0 ? "symbol" : k == 1 ? "integer" : k == 2 ? "decimal" : "constant");
    static const LispType T[] = {LispType::_Symbol, LispType::_Int, LispType::_Double, LispType::_Bool, LispType::_Bool, LispType::_Nil}; FS_ASSERT(v->Type == T[k], "atom:kind"); S t;
    if (k == 0) { t = v->StringValue(); FS_ASSERT(t == a, "atom:symbol-name"); } if (k == 3 || k == 4) FS_ASSERT(v->BoolValue() == (k == 3), "atom:bool"); break; }
  case 3: { // words around the constants
    static const char *W[] = {"true", "false", "nil", "#t", "#f", "inf", "nan"}; int w = fs_choice("w", 7); S a = W[w]; int p = fs_choice("p", a.size()); unsigned char c = fs_sym("c", 8); FS_ASSUME(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | (c == '#')); a[p] = c; if (fs_choice("longer", 2)) a += "x"; R r = lit(a); int k = kind(a); fs_reach("words");
    FS_ASSERT(r.k == 0, "word:value"); FS_ASSERT(r.v->Type == (k == 0 ? LispType::_Symbol : k == 5 ? LispType::_Nil : LispType::_Bool), "word:kind"); if (k == 3 || k == 4) FS_ASSERT(r.v->BoolValue() == (k == 3), "word:bool"); break; }
  case 4: { // string literals in a program
    int n = fs_choice("n", TIER ? 6 : 5); S t = symStr("c", n); for (int i = 0; i < n; i++) FS_ASSUME((t[i] != '"') & (t[i] != '\\')); int e = fs_choice("escape", 6); static const char *X[] = {"", "\\n", "\\t", "\\r", "\\\\", "\\\""}; static const char *Y[] = {"", "\n", "\t", "\r", "\\", "\""};
    R r = lit("\"" + t + X[e] + "b\""); fs_reach("string"); FS_ASSERT(r.k == 0, "string:value"); FS_ASSERT(isStr(r.v, t + Y[e] + "b"), "string:characters"); break; }
  case 5: { // printed and read back
    int k = fs_choice("k", 4); Val v; if (k == 0) { int i = I("i"), b = fs_choice("range", 4); FS_ASSUME(b == 0 ? (i >= -99) & (i <= 99) : b == 1 ? (i >= 2147483600) : b == 2 ? (i <= -2147483600) : (i >= 99990) & (i <= 100010)); v = vI(i); } else if (k == 1) { S t = symStr("c", 1 + fs_choice("n", 3)); for (size_t i = 0; i < t.size(); i++) FS_ASSUME((t[i] != '"') & (t[i] != '\\')); v = vS(t); } else if (k == 2) v = vB(Bo("b")); else v = Val(KN);
    std::vector<O> l; l.push_back(obj(v)); S t = oL(l)->ToString(); bool ok; O o = parsed(t, ok); fs_reach("read-back"); FS_ASSERT(ok, "read-back:parses"); const auto &q = o->ToEnumerableOfObjectRef(); FS_ASSERT(q.Count() == 1, "read-back:one-element"); FS_ASSERT(isO(q[0], v), (S("read-back:") + KNAME[v.k]).c_str());
    if (k != 1) { R r = run("'" + obj(v)->ToString()); FS_ASSERT(r.k == 0 && is(r.v, v), "read-back:alone"); } break; }
  default: { // literals beyond the symbolic bounds
    static const char *A[] = {"99999999999", "-99999999999999999999", "1e400", "1e-400", "123456789012345678901234567890", "0.1", "3.14159265358979323846", "2147483648", "-2147483649", "00000000000000000000000000000012"}; static const double E[] = {99999999999.0, -1e20, __builtin_inf(), 0.0, 123456789012345678901234567890.0, 0.1, 3.14159265358979323846, 2147483648.0, -2147483649.0, 12};
    int i = fs_choice("i", 10); R r = lit(A[i]); fs_reach("extreme"); FS_ASSERT(r.k == 0, "extreme:value"); if (i == 9) FS_ASSERT(isInt(r.v, 12), "extreme:int"); else FS_ASSERT(isDbl(r.v, E[i]), "extreme:double"); break; }
  }
}
