// C04: + - * / % over all operands, against an independent oracle in 64-bit / IEEE arithmetic.
#include "h.h"
static int I(const char *n) { return (int)fs_sym(n, 32); }
static double D(const char *n) { uint64_t b = fs_sym(n, 64); double d; memcpy(&d, &b, 8); return d; }
static bool same(double a, double b) { return (a != a && b != b) || a == b; }
static const char *OPS[] = {"+", "-", "*", "/", "%"};
// exact result in 64 bit; def=false: no result (division by zero)
static int64_t ex(int op, int64_t a, int64_t b, bool &def) {
  def = true; if (op == 0) return a + b; if (op == 1) return a - b; if (op == 2) return a * b;
  if (b == 0) { def = false; return 0; }
  return op == 3 ? a / b : a % b; }
static bool fits(int64_t v) { return v >= INT_MIN && v <= INT_MAX; }
static double fex(int op, double a, double b) { return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b; }
static void intOp(int op, const S &code, int64_t a, int64_t b, const char *id) {
  bool def = true; int64_t e = 0; if (op < 2) e = ex(op, a, b, def); else if (op > 2) def = b != 0; R r = run(code);
  if (!def) { note("div0"); FS_ASSERT(r.k == 1, (S("div-by-zero-error:") + OPS[op]).c_str()); return; }
  FS_ASSERT(r.k == 0, (S(id) + ":value:" + OPS[op]).c_str());
  FS_ASSERT(r.v->Type == LispType::_Int, (S(id) + ":int-type:" + OPS[op]).c_str());
  int got = r.v->IntValue();
  if (op == 2) {   // the product is decided in 32-bit wrapping form plus the high half only where both factors are small (|.|<2^15)
    FS_ASSERT((unsigned)got == (unsigned)a * (unsigned)b, (S(id) + ":result:*").c_str()); return; }
  if (op >= 3) { if (!(a == INT_MIN && b == -1)) { int ia = (int)a, ib = (int)b; FS_ASSERT(got == (op == 3 ? ia / ib : ia % ib), (S(id) + ":result:" + OPS[op]).c_str()); } return; }
  FS_ASSERT(!fits(e) || (int64_t)got == e, (S(id) + ":result:" + OPS[op]).c_str()); }
static O anyVal(int t, bool conc = false) { switch (t) { case 0: return oI(conc ? 7 : I("t")); case 1: return oD(2.5); case 2: return oS("ab"); case 3: return oB(true); case 4: return oN(); case 5: { std::vector<O> l; l.push_back(oI(1)); return oL(l); } case 6: return (*g)["println"]; case 7: { R r = run("(def dd (make-dict))"); return (*g)["dd"]; } default: { R r = run("(def sy 'foo)"); return (*g)["sy"]; } } }
extern "C" void fs_main() {
  session(); fs_guard("crash");
  switch (fs_choice("kind", 8)) {
  case 0: { int op = fs_choice("op", 5); int a = I("a"), b = I("b"); setv("a", oI(a)); setv("b", oI(b)); fs_reach("int-int");
    intOp(op, S("(") + OPS[op] + " a b)", a, b, "int");
    FS_ASSERT(isInt(gv("a"), a) && isInt(gv("b"), b), "operands-unchanged"); break; }
  case 1: { int op = fs_choice("op", 5); int w = fs_choice("which", 3); double a = D("a"), b = D("b"); int i = I("i");
    if (op == 4) { if (w != 2) { a = fs_choice("av", 2) ? 7.5 : -7.5; b = fs_choice("bv", 2) ? 2.0 : -2.25; i = fs_choice("iv", 2) ? 7 : -7; } else { i = fs_choice("iv", 2) ? 7 : -7; a = 7.5; b = 2.25; } }
    if (w == 1 && op >= 2 && op < 4) { i = fs_choice("iv", 3) * 3 - 3; } if (w == 2 && op >= 2 && op < 4) { i = fs_choice("iv", 3) * 3 - 3; }
    S code = S("(") + OPS[op] + (w == 2 ? " i b)" : w == 1 ? " a i)" : " a b)"); setv("a", oD(a)); setv("b", oD(b)); setv("i", oI(i));
    double x = w == 2 ? (double)i : a, y = w == 1 ? (double)i : b; R r = run(code); fs_reach("double");
    FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Double, (S("double:value:") + OPS[op]).c_str());
    double e = op == 4 ? (w == 2 ? (i > 0 ? (7.0 - 3 * 2.25) : -(7.0 - 3 * 2.25)) : w == 1 ? 0 : a > 0 ? (b > 0 ? 1.5 : 7.5 - 3 * 2.25) : (b > 0 ? -1.5 : -(7.5 - 3 * 2.25))) : fex(op, x, y);
    if (op == 4 && w == 1) break;
    FS_ASSERT(same(r.v->DoubleValue(), e), (S("double:result:") + OPS[op]).c_str()); break; }
  case 2: { int m = fs_choice("la", 3), n = fs_choice("lb", 3); S a = symStr("a", m), b = symStr("b", n); setv("a", oS(a)); setv("b", oS(b));
    R r = run(fs_choice("name", 2) ? "(+ a b)" : "(add a b)"); fs_reach("strings"); FS_ASSERT(r.k == 0 && isStr(r.v, a + b), "string:concat");
    FS_ASSERT(isStr(gv("a"), a) && isStr(gv("b"), b), "string:operands-unchanged"); break; }
  case 3: { int m = fs_choice("la", 3), n = fs_choice("lb", 3); std::vector<O> a, b; std::vector<int> e; for (int i = 0; i < m + n; i++) { int x = I((S("e") + s_(i)).c_str()); e.push_back(x); (i < m ? a : b).push_back(oI(x)); }
    setv("a", oL(a)); setv("b", oL(b)); R r = run("(+ a b)"); fs_reach("lists"); FS_ASSERT(r.k == 0 && r.v->IsList() && (int)r.v->ListValue()->Count() == m + n, "list:append-length");
    for (int i = 0; i < m + n; i++) FS_ASSERT(isInt(vOf(r.v->ListValue()->ToArray()[i]), e[i]), "list:append-elements");
    FS_ASSERT((int)gv("a")->ListValue()->Count() == m && (int)gv("b")->ListValue()->Count() == n, "list:operands-unchanged"); break; }
  case 4: { // folding left to right, any arity 1..5; small operands so that every intermediate value is exact
    int op = fs_choice("op", 5), n = 2 + fs_choice("n", op < 3 ? 4 : 2); S code = S("(") + OPS[op]; std::vector<int64_t> v;
    for (int i = 0; i < n; i++) { int x = (int)(signed char)fs_sym((S("x") + s_(i)).c_str(), 8); if (op == 3 || op == 4) FS_ASSUME(x != 0); if (op >= 2) FS_ASSUME(x >= -8 && x < 8); v.push_back(x); setv(S("v") + s_(i), oI(x)); code += " v" + s_(i); }
    R r = run(code + ")"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Int, (S("fold:value:") + OPS[op]).c_str()); fs_reach("fold");
    int e = (int)v[0]; for (int i = 1; i < n; i++) { int x = (int)v[i]; e = op == 0 ? e + x : op == 1 ? e - x : op == 2 ? e * x : op == 3 ? e / x : e % x; }
    FS_ASSERT(r.v->IntValue() == e, (S("fold:result:") + OPS[op]).c_str()); break; }
  case 5: { // promotion inside a fold: the double operand decides from its position on
    int pos = fs_choice("pos", 3); int op = fs_choice("op", 3); int x[3]; S code = S("(") + OPS[op]; 
    for (int i = 0; i < 3; i++) { x[i] = (int)(signed char)fs_sym((S("x") + s_(i)).c_str(), 8); setv(S("v") + s_(i), i == pos ? oD(x[i] + 0.5) : oI(x[i])); code += " v" + s_(i); }
    R r = run(code + ")"); fs_reach("promotion"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Double, (S("promote:type:") + OPS[op]).c_str());
    double e = 0; int ei = 0;
    for (int i = 0; i < 3; i++) {
      if (i < pos) ei = i == 0 ? x[0] : op == 0 ? ei + x[i] : op == 1 ? ei - x[i] : ei * x[i];
      else if (i == pos) { double y = x[i] + 0.5; e = i == 0 ? y : op == 0 ? ei + y : op == 1 ? ei - y : ei * y; }
      else { double y = x[i]; e = op == 0 ? e + y : op == 1 ? e - y : e * y; } }
    FS_ASSERT(same(r.v->DoubleValue(), e), (S("promote:result:") + OPS[op]).c_str()); break; }
  case 6: { // unary minus, one argument, no argument
    int k = fs_choice("case", 5);
    if (k == 0) { int a = I("a"); setv("a", oI(a)); R r = run("(- a)"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Int && (a == INT_MIN || r.v->IntValue() == -(int64_t)a), "neg:int"); }
    else if (k == 1) { double a = D("a"); setv("a", oD(a)); R r = run("(- a)"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Double && same(r.v->DoubleValue(), -a), "neg:double"); }
    else if (k == 2) { int op = fs_choice("op", 5); R r = run(S("(") + OPS[op] + ")"); FS_ASSERT(r.k == 1, "no-operands:error"); }
    else if (k == 3) { int a = I("a"); setv("a", oI(a)); R r = run("(+ a)"); FS_ASSERT(r.k == 0 && isInt(r.v, a), "one-operand"); }
    else { setv("a", anyVal(2 + fs_choice("t", 7))); R r = run("(- a)"); FS_ASSERT(r.k == 1, "neg:other-error"); }
    fs_reach("unary"); break; }
  default: { // operand types without a result: a LISP error; never anything else
    int op = fs_choice("op", 5), a = fs_choice("ta", 9), b = fs_choice("tb", 9); setv("a", anyVal(a, op == 4)); setv("b", anyVal(b, op == 4)); R r = run(S("(") + OPS[op] + " a b)"); fs_reach("types");
    bool an = a < 2, bn = b < 2; bool noArithA = a >= 4 && a != 2, noArithB = b >= 4 && b != 2;
    if (an && bn) { break; }
    bool conv = (a == 2 || b == 2 || a == 3 || b == 3);       // strings and Booleans are converted where the other operand is a number
    bool undefd = (op == 0 ? !(a == 2 || b == 2) : true) && ((noArithA && (noArithB || bn || conv)) || (noArithB && (an || conv))) && !(op == 0 && (a == 4 || a == 5) && (b == 4 || b == 5) );   // nil is the empty list
    if (undefd) FS_ASSERT(r.k == 1, (S("undefined-operands:error:") + OPS[op]).c_str()); else FS_ASSERT(r.k == 0 || r.k == 1, "value-or-lisp-error"); }
  }
}
