// C08: string functions over every text up to a length bound and every index, against definitions over std::string.
#include "vals.h"
static void expect(const S &code, const Val &e, const S &id) { R r = run(code); if (r.k) note(code + " -> " + r.msg); FS_ASSERT(r.k == 0, (id + ":value").c_str()); FS_ASSERT(is(r.v, e), (id + ":result").c_str()); }
static void err(const S &code, const S &id) { R r = run(code); FS_ASSERT(r.k == 1, (id + ":error").c_str()); }
static void unchanged(const S &n, const S &t) { FS_ASSERT(isStr(gv(n), t), "argument-unchanged"); }
static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static S ident(const S &t) { return t; }
// a text over a small alphabet where repetitions matter, otherwise any byte
static S ab(const S &n, int len) { S r; for (int i = 0; i < len; i++) { unsigned char c = (unsigned char)fs_sym((n + s_(i)).c_str(), 8); r += (char)c; } return r; }
static int findAt(const S &x, const S &t, int from) { for (int i = from; i + (int)x.size() <= (int)t.size(); i++) if (memcmp(t.data() + i, x.data(), x.size()) == 0) return i; return -1; }
extern "C" void fs_main() {
  session(); fs_guard("crash"); const int N = TIER ? 8 : 6;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 8))
#endif
  {
  case 0: { // slice with every start and length
    int n = fs_choice("n", N); S t = symStr("t", n); setv("t", oS(t)); bool sym = fs_choice("sym", 2); int a = sym ? I("a") : fs_choice("ca", n + 1), l = sym ? fs_choice("cl", 3) - 1 : I("l"); setv("a", oI(a)); setv("l", oI(l)); fs_reach("slice");
    if (a < 0 || a > n) { err("(slice t a l)", "slice-out-of-range"); break; }
    S e; for (int i = a; i < n; i++) { if (l >= 0 && i - a >= l) break; e += t[i]; } expect("(slice t a l)", vS(e), "slice"); unchanged("t", t); break; }
  case 1: { // search
    int n = fs_choice("n", N), m = fs_choice("m", 3); S t = ab("t", n), x = ab("x", m); setv("t", oS(t)); setv("x", oS(x)); fs_reach("search");
    int k = fs_choice("args", 3); if (k == 0) { expect("(search x t)", vI(findAt(x, t, 0)), "search"); unchanged("t", t); unchanged("x", x); break; }
    int p = k == 1 && n < 3 ? I("p") : fs_choice("cp", n + 2); if (p < -1) { R r = run("(do (def p 0) (def q 0))"); break; } setv("p", oI(p)); int from = p == -1 ? 0 : p;
    int e = from > n ? -1 : findAt(x, t, from);
    if (k == 1) expect("(search x t p)", vI(e), "search-from");
    else { int c = fs_choice("c", n + 2); setv("c", oI(c)); if (e >= 0 && e + m > from + c) e = -1; expect("(search x t p c)", vI(e), "search-from-length"); } break; }
  case 2: { // replace: every non-overlapping occurrence from the left
    int n = fs_choice("n", N), m = 1 + fs_choice("m", 2), q = fs_choice("q", 3); S t = ab("t", n), x = ab("x", m), y = ab("y", q); setv("t", oS(t)); setv("x", oS(x)); setv("y", oS(y)); fs_reach("replace");
    S e; for (int i = 0; i < n;) { if (i + m <= n && memcmp(t.data() + i, x.data(), m) == 0) { e += y; i += m; } else e += t[i++]; }
    expect("(replace t x y)", vS(e), "replace"); unchanged("t", t); unchanged("x", x); unchanged("y", y); break; }
  case 3: { // trim
    int n = fs_choice("n", N); S t = symStr("t", n); setv("t", oS(t)); fs_reach("trim"); int a = 0, b = n; while (a < b && ws(t[a])) a++; while (b > a && ws(t[b - 1])) b--;
    expect("(trim t)", vS(t.substr(a, b - a)), "trim"); unchanged("t", t); break; }
  case 4: { // case conversion: letters only, character by character
    int n = fs_choice("n", N); S t = symStr("t", n), u = t, w = t; setv("t", oS(t)); fs_reach("case"); for (int i = 0; i < n; i++) { unsigned char c = t[i]; u[i] = c >= 'a' && c <= 'z' ? c - 32 : c; w[i] = c >= 'A' && c <= 'Z' ? c + 32 : c; }
    if (fs_choice("up", 2)) expect("(upper-case t)", vS(u), "upper-case"); else expect("(lower-case t)", vS(w), "lower-case"); unchanged("t", t); break; }
  case 5: { // a string as its character sequence
    int n = fs_choice("n", N + 2); S t = symStr("t", n); setv("t", oS(t)); fs_reach("sequence"); expect("(len t)", vI(n), "len"); expect("(reverse t)", vS(S(t.rbegin(), t.rend())), "reverse");
    expect("(first t)", vS(t.substr(0, 1)), "first"); if (n) { expect("(last t)", vS(t.substr(n - 1)), "last"); expect("(rest t)", vS(t.substr(1)), "rest"); expect("(+ (first t) (rest t))", vS(t), "first-rest"); } else { err("(last t)", "last-of-empty"); err("(rest t)", "rest-of-empty"); }
    int i = I("i"); setv("i", oI(i)); if (i >= 0 && i < n) expect("(nth i t)", vS(S(1, t[i])), "nth"); else err("(nth i t)", "nth-out-of-range"); unchanged("t", t); break; }
  case 6: { // search in a list: the first element that prints as the text
    int n = fs_choice("n", 4); Val l = vL(); S x = symStr("x", 1 + fs_choice("m", 2)); int e = -1; for (int i = 0; i < n; i++) { S el = symStr("e" + s_(i), 1 + fs_choice(("el" + s_(i)).c_str(), 2)); l.l.push_back(vS(el)); if (e < 0 && el == x) e = i; }
    setv("x", oS(x)); setv("l", obj(l)); fs_reach("search-list"); expect("(search x l)", vI(e), "search-list"); FS_ASSERT(is(gv("l"), l), "argument-unchanged");
    run("(def m '(1 foo \"b\"))"); expect("(search 1 m)", vI(0), "search-list-int"); expect("(search 'foo m)", vI(1), "search-list-symbol"); expect("(search \"b\" m)", vI(2), "search-list-string"); break; }
  default: { // arity and kinds
    static const char *F[] = {"search", "slice", "replace", "trim", "upper-case", "lower-case"}; static const int LO[] = {2, 3, 3, 1, 1, 1}, HI[] = {4, 3, 3, 1, 1, 1}; int f = fs_choice("f", 6), n = fs_choice("n", 6); fs_reach("arity");
    if (n >= LO[f] && n <= HI[f]) { // other kinds of values: a value or a LISP error
      int k = fs_choice("k", 10), p = fs_choice("p", n); Val v = sym(k, "v", 2); if (k == KI) v.i = 1; if (k == KD) v.d = 2.5; setv("v", obj(v)); S c = S("(") + F[f]; for (int i = 0; i < n; i++) c += i == p ? " v" : i >= 2 || f == 1 && i == 1 ? " 0" : " \"abc\""; R r = run(c + ")"); FS_ASSERT(r.k == 0 || r.k == 1, (S("kinds:") + F[f]).c_str()); FS_ASSERT(is(gv("v"), v), "kinds:argument-unchanged"); break; }
    S c = S("(") + F[f]; for (int i = 0; i < n; i++) c += " \"a\""; err(c + ")", S("arity:") + F[f]); break; }
  }
}
