// C05: < > <= >= = != over pairs of values, against an independent definition of order and equality.
#include "vals.h"
static const double TOL = 1e-8;
static double num(const Val &v) { return v.k == KD ? v.d : v.k == KI ? (double)v.i : (v.b ? 1.0 : 0.0); }
static int inum(const Val &v) { return v.k == KI ? v.i : (v.b ? 1 : 0); }
static S text(const Val &v) { switch (v.k) { case KS: return v.s; case KI: return s_(v.i); case KB: return v.b ? "#t" : "#f"; default: return "?"; } }
static bool isNum(const Val &v) { return v.k == KI || v.k == KD; }
static bool numOrBool(const Val &v) { return isNum(v) || v.k == KB; }
// equality by definition; text comparisons of a string with another kind only where both texts are concrete
static bool eq(const Val &a, const Val &b) {
  if (a.k == KY || b.k == KY) return a.k == b.k && a.s == b.s;
  if (a.k == KN || b.k == KN) return a.k == b.k;
  if (a.k == KU || b.k == KU) return a.k == b.k;
  if (a.k == KL && b.k == KL) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); i++) if (!eq(a.l[i], b.l[i])) return false; return true; }
  if (a.k == KS && b.k == KS) return a.s == b.s;
  if (a.k == KS || b.k == KS) return text(a) == text(b);
  if (numOrBool(a) && numOrBool(b)) { if (a.k == KD || b.k == KD) { double x = num(a), y = num(b); return x == y || fabs(x - y) < TOL; } return inum(a) == inum(b); }
  return false; }   // different kinds
static int cmpS(const S &a, const S &b) { return a.compare(b); }   // std::string: unsigned byte order
static bool lt(const Val &a, const Val &b) { if (a.k == KS && b.k == KS) return cmpS(a.s, b.s) < 0; if (a.k == KD || b.k == KD) return num(a) < num(b); return inum(a) < inum(b); }
static bool le(const Val &a, const Val &b) { if (a.k == KS && b.k == KS) return cmpS(a.s, b.s) <= 0; if (a.k == KD || b.k == KD) return num(a) <= num(b); return inum(a) <= inum(b); }
static S T(const Val &a, const Val &b) { return S(":") + KNAME[a.k] + "-" + KNAME[b.k]; }
static void eqChecks(const Val &a, const Val &b) {
  bool e = eq(a, b), e2 = eq(b, a);   // e2: same truth value, computed in the order of the operands (|x-y| = |y-x| by IEEE 754)
  static const char *EQ[] = {"=", "==", "equal"};
  S op = EQ[(a.k + b.k) % 3]; R r = run("(list (" + op + " a b) (" + op + " b a) (!= a b) (!= b a))");
  FS_ASSERT(r.k == 0, ("equality-never-an-error" + T(a, b)).c_str()); auto l = items(r.v);
  FS_ASSERT(isBool(vOf(l[0]), e), ("equal:value" + T(a, b)).c_str()); FS_ASSERT(isBool(vOf(l[1]), e2), ("equal:symmetric" + T(a, b)).c_str());
  FS_ASSERT(isBool(vOf(l[2]), !e) && isBool(vOf(l[3]), !e2), ("not-equal:negation" + T(a, b)).c_str());
  FS_ASSERT(isO((*g)["a"], a) && isO((*g)["b"], b), "operands-unchanged"); }
static void ordChecks(const Val &a, const Val &b) {
  R r = run("(list (< a b) (> a b) (<= a b) (>= a b) (< b a))");
  FS_ASSERT(r.k == 0, ("order:value" + T(a, b)).c_str()); auto l = items(r.v);
  bool x = lt(a, b), y = lt(b, a), p = le(a, b), q = le(b, a);
  FS_ASSERT(isBool(vOf(l[0]), x), ("less" + T(a, b)).c_str()); FS_ASSERT(isBool(vOf(l[1]), y), ("greater" + T(a, b)).c_str());
  FS_ASSERT(isBool(vOf(l[2]), p), ("less-equal" + T(a, b)).c_str()); FS_ASSERT(isBool(vOf(l[3]), q), ("greater-equal" + T(a, b)).c_str());
  FS_ASSERT(isBool(vOf(l[4]), y), ("less-reversed" + T(a, b)).c_str()); }
static Val elemOf(const S &n, int kinds) { static const int KK[] = {KI, KS, KN, KY, KL, KD, KB}; int k = KK[fs_choice((n + "k").c_str(), kinds)];
  if (k == KL) { Val v = vL(); v.l.push_back(vI(I8(n + "x"))); return v; } if (k == KD) return vD(0.5); if (k == KI) return vI(I(n + "i")); return sym(k, n, 1); }
extern "C" void fs_main() {
  session(); fs_guard("crash");
  
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
 {
  case 0: { // numbers and Booleans: all pairs of kinds, every value
    static const int KK[] = {KI, KD, KB}; Val a = sym(KK[fs_choice("ka", 3)], "a"), b = sym(KK[fs_choice("kb", 3)], "b"); setv("a", obj(a)); setv("b", obj(b)); fs_reach("numbers");
    if (a.k == KB && b.k == KB) { R r = run(fs_choice("op", 2) ? "(< a b)" : "(>= a b)"); FS_ASSERT(r.k == 1, "unordered:error:bool-bool"); eqChecks(a, b); break; }
    if (fs_choice("order", 2)) ordChecks(a, b); else eqChecks(a, b);
    if (a.k == KI && b.k == KI) FS_ASSERT((int)lt(a, b) + (int)lt(b, a) + (int)eq(a, b) == 1, "oracle-trichotomy"); break; }
  case 1: { // strings, every content up to the bound
    int M = TIER ? 5 : 4; Val a = vS(symStr("a", fs_choice("la", M))), b = vS(symStr("b", fs_choice("lb", M))); setv("a", obj(a)); setv("b", obj(b)); fs_reach("strings");
    if (fs_choice("order", 2)) ordChecks(a, b); else eqChecks(a, b); break; }
  case 2: { // lists element by element
    int n = fs_choice("n", 3), m = fs_choice("m", 3); Val a = vL(), b = vL(); int kinds = n + m <= 2 ? 7 : TIER ? 5 : 3;
    for (int i = 0; i < n; i++) a.l.push_back(elemOf("a" + s_(i), kinds)); for (int i = 0; i < m; i++) b.l.push_back(elemOf("b" + s_(i), kinds));
    for (int i = 0; i < n && i < m; i++) { if ((a.l[i].k == KS) != (b.l[i].k == KS)) { if (a.l[i].k == KS) a.l[i].s = "q"; else b.l[i].s = "q"; if (a.l[i].k == KD || b.l[i].k == KD || a.l[i].k == KI || b.l[i].k == KI) fs_stop(); } }
    setv("a", obj(a)); setv("b", obj(b)); fs_reach("lists"); eqChecks(a, b); break; }
  case 3: { // every pair of kinds
    int ka = fs_choice("ka", 10), kb = fs_choice("kb", 10); bool str = ka == KS || kb == KS;
    Val a = sym(ka, "a", 2), b = sym(kb, "b", 2); if (ka == KI) a.i = 17; if (kb == KI) b.i = 18; if (ka == KD) a.d = 17.0; if (kb == KD) b.d = 2.5; if (str && ka != kb) { Val &s = ka == KS ? a : b, &o = ka == KS ? b : a; if (o.k == KI) o.i = 17; s.s = fs_choice("text", 3) == 0 ? "17" : fs_choice("text2", 2) ? "#t" : "x"; if (o.k == KD || o.k >= KL && o.k != KY && o.k != KU) fs_stop(); }
    if (ka == KL) a.l.push_back(vI(3)); if (kb == KL) b.l.push_back(vI(3)); setv("a", obj(a)); setv("b", obj(b)); fs_reach("kinds");
    if (ka == KF && kb == KF || ka == KDICT && kb == KDICT) break;
    eqChecks(a, b);
    static const char *OPS[] = {"<", ">", "<=", ">="}; for (int op = 0; op < 4; op++) { R r = run(S("(") + OPS[op] + " a b)");
    bool ordered = numOrBool(a) && numOrBool(b) && !(ka == KB && kb == KB) || str && (ka == kb);
    if (ordered) FS_ASSERT(r.k == 0, ("ordered:value" + T(a, b)).c_str());
    else if (!str) FS_ASSERT(r.k == 1, ("unordered:error" + T(a, b)).c_str());
    else FS_ASSERT(r.k == 0 || r.k == 1, ("order:value-or-error" + T(a, b)).c_str()); }
    break; }
  default: { // arity: exactly two arguments
    static const char *OPS[] = {"<", ">", "<=", ">=", "=", "!=", "==", "equal"}; int op = fs_choice("op", 8), n = fs_choice("n", 4); setv("a", oI(I("a")));
    S c = S("(") + OPS[op]; for (int i = 0; i < n; i++) c += " a"; R r = run(c + ")"); fs_reach("arity"); FS_ASSERT(n == 2 ? r.k == 0 : r.k == 1, "arity");
    if (n == 2) FS_ASSERT(isBool(r.v, op == 2 || op == 3 || op == 4 || op >= 6), "reflexive"); }
  }
}
