// C11: calls, arguments, apply, return and recursion against the reference interpreter.
#include "mini.h"
static int tag;
static P stmt(const S &n, int d, bool loop) {   // a statement with returns at arbitrary places
  switch (fs_choice(n.c_str(), d > 0 ? (loop ? 6 : 5) : 2)) { case 0: return Rd(tag++, K()); case 1: return Ret(K());
    case 2: { int t = T(1); P a = stmt(n + "a", d - 1, loop); P b = fs_choice((n + "e").c_str(), 2) ? stmt(n + "b", 0, loop) : P(); return If(t, a, b); }
    case 3: { P a = stmt(n + "a", d - 1, loop); return Do({a, stmt(n + "b", 0, loop)}); } case 4: return Rd(tag++, Call("g", one(K())));
    default: { P w = nd1(WHILEC, "", stmt(n + "a", d - 1, false)); w->id = T(2); return w; } } }
static P arg(const S &n, int d) { switch (fs_choice(n.c_str(), d ? 4 : 2)) { case 0: return K(); case 1: return Vr("x"); case 2: return Call("g", one(arg(n + "g", 0))); default: return nd1(VALOF, "", arg(n + "v", 0)); } }
extern "C" void fs_main() {
  session(); mini(); fs_guard("crash"); tag = 10; static const char *NM[] = {"a", "b", "c"};
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 6))
#endif
  {
  case 0: { // number of parameters and arguments, direct call and apply
    int np = fs_choice("params", 4), na = fs_choice("args", TIER ? 6 : 5), how = fs_choice("how", 3); std::vector<P> b, a; std::vector<S> q; for (int i = 0; i < np; i++) { q.push_back(NM[i]); b.push_back(Rd(i, Vr(NM[i]))); }
    b.push_back(Rd(5, nd(ARGC))); b.push_back(Rd(6, nd(ARGS))); int idx = fs_choice("arg", 4); if (idx < 3) b.push_back(Rd(7, nd(ARGN, "", idx + (idx == 2 ? np : 0)))); for (int i = 0; i < na; i++) a.push_back(K());
    P call = Call("f", a); if (how == 1) call->op = APPLY; P f = Defn("f", q, Do(b)); P top = how == 2 ? Do({f, nd1(DEF, "h", Vr("f")), Defn("w", ps("k"), Do({Call("k", a), Rd(8, nd(ARGC))})), Call("w", one(Vr("h")))}) : Do({f, Rd(9, call)}); fs_reach("arguments"); both(top, "arguments"); break; }
  case 1: { // every argument once, names first, nested forms from left to right, in the scope of the caller
    int n = TIER ? 3 : 2; std::vector<P> a; for (int i = 0; i < n; i++) a.push_back(arg("a" + s_(i), 1)); std::vector<S> q(NM, NM + n); std::vector<P> b; for (int i = 0; i < n; i++) b.push_back(Rd(i, Vr(NM[i])));
    int sh = fs_choice("shadow", 2); if (sh) q[0] = "x"; b.push_back(Rd(4, Vr("x")));
    P top = Do({nd1(DEF, "x", K()), Defn("g", ps("x"), Do({nd1(SETF, "x", K()), nd1(VALOF, "", Vr("x"))})), Defn("f", q, Do(b)), Defn("caller", ps("x"), Do({Call("f", a), Rd(5, Vr("x"))})), fs_choice("in", 2) ? Call("caller", one(K())) : Call("f", a), Rd(6, Vr("x"))}); fs_reach("evaluation"); both(top, "evaluation"); break; }
  case 2: { // return at any place of a body
    P s1 = stmt("s", TIER ? 3 : 2, true); P top = Do({Defn("g", ps("a"), Do({If(T(1), Ret(Vr("a")), P()), Rd(1, Vr("a")), Ret(K())})), Defn("f", ps("a"), Do({s1, Rd(2, K()), Rd(3, Vr("a")), nd1(VALOF, "", K())})), Rd(4, Call("f", one(K()))), Rd(5, K())}); fs_reach("return"); both(top, "return"); break; }
  case 3: { // recursion: activations have their own bindings
    int n = (int)fs_sym("n", 3); setv("n", oI(n)); fs_reach("recursion"); int w = fs_choice("which", 6); FS_ASSUME(w != 2 || n <= 5); R r; int e = 0; int c = I("c"); setv("c", oI(c));
    switch (w) {
    case 0: r = run("(do (defn f (k) (if (<= k 0) (+ c 0) (+ (f (- k 1)) k))) (f n))"); e = c; for (int i = 1; i <= n; i++) e = (int)((unsigned)e + (unsigned)i); break;
    case 1: r = run("(do (defn f (k) (do (def l k) (if (> k 0) (f (- k 1))) (rd 1 l) (+ l 0))) (f n))"); e = n; FS_ASSERT((int)ireads.size() == n + 1, "recursion:activations"); for (int i = 0; i <= n; i++) FS_ASSERT(ireads[i].second.kind == 0 && ireads[i].second.i == i, "recursion:own-bindings"); break;
    case 2: { r = run("(do (defn fib (k) (if (< k 2) (+ k 0) (+ (fib (- k 1)) (fib (- k 2))))) (fib n))"); int a = 0, b = 1; for (int i = 0; i < n; i++) { int t = a + b; a = b; b = t; } e = a; break; }
    case 3: { r = run("(do (defn ev (k) (if (== k 0) (do (return 1)) (od (- k 1)))) (defn od (k) (if (== k 0) (do (return 0)) (ev (- k 1)))) (ev n))"); e = n % 2 == 0; break; }
    case 4: r = run("(do (defn f (k a) (do (while #t (do (if (== k 0) (return a)) (return (f (- k 1) (+ a 2))))) (return 99))) (f n c))"); e = c; for (int i = 0; i < n; i++) e = (int)((unsigned)e + 2u); break;
    default: r = run("(do (defn f (k) (do (def s 0) (map (lambda (j) (do (setf s (+ s j)) (if (> j 0) (return (f (- j 1)))) (return 0))) (list k)) (return s))) (f n))"); e = n; break; }
    FS_ASSERT(r.k == 0, "recursion:value"); FS_ASSERT(isInt(r.v, e), (S("recursion:result:") + s_(w)).c_str()); break; }
  case 4: { // functions called by built-in functions and through values; a return inside ends only them
    int x = I("x"), y = I("y"); bool t = I("t") > 0; setv("x", oI(x)); setv("y", oI(y)); setv("t", oB(t)); run("(defn f (a) (do (if t (return x)) (rd 1 a) (return y)))"); int w = fs_choice("which", 6); fs_reach("values"); int e = t ? x : y; R r;
    static const char *PR[] = {"(do (def l (map f (list 1 2))) (rd 2 7) (append l))", "(do (def r (apply f (list 5))) (rd 2 7) (list r r))", "(do (defn g (h) (do (def r (h 3)) (rd 2 7) (list r r))) (g f))", "(do (def d (make-dict)) (dict-set d 1 f) (def h (dict-get d 1)) (def r (h 3)) (rd 2 7) (list r r))",
      "(do (def l (list f)) (def h (first l)) (def r (h 3)) (rd 2 7) (list r r))", "(do (def s (reduce (lambda (a b) (do (return (f a)) (rd 9 9))) (list 1 2) 0)) (rd 2 7) (list s s))"};
    r = run(PR[w]); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List, "values:value"); auto l = items(r.v); FS_ASSERT(l.size() == 2 && isInt(vOf(l[0]), e) && isInt(vOf(l[1]), e), "values:result"); int calls = w == 0 || w == 5 ? 2 : 1; FS_ASSERT((int)ireads.size() == (t ? 0 : calls) + 1 && ireads.back().first == 2, "values:calls"); break; }
  default: { // values of every kind arrive unchanged, by call, apply, surplus arguments and as result; wrong uses are errors
    static const int KK[] = {KI, KD, KS, KB, KN, KL, KY, KF, KDICT, KU}; int k = KK[fs_choice("k", 10)]; Val v = sym(k, "v", 2); if (k == KL) { v.l.push_back(vI(I("l0"))); v.l.push_back(vY("x")); Val in = vL(); in.l.push_back(vY("x")); in.l.push_back(vI(2)); v.l.push_back(in); } setv("v", obj(v)); fs_reach("kinds");
    run("(defn f (a b) (val b))"); static const char *PR[] = {"(f 1 v)", "(apply f (list 1 v))", "(do (defn h (a) (return (arg 1))) (h 1 v))", "(do (defn h (a) (nth 1 (args))) (h 1 v))", "(do (defn h (a) (first _additionalArgs)) (h 1 v))", "(do (defn h (a) (do (return a))) (h v))", "(f 1 (f 2 v))", "(do (defn h (a) (arg 0)) (apply h (list v)))"};
    int w = fs_choice("which", 11); if (w < 8) { R r = run(PR[w]); if (r.k) note(r.msg); FS_ASSERT(r.k == 0 || (k == KU && r.k == 3), "kinds:value"); FS_ASSERT((k == KU && r.k == 3) || is(r.v, v), (S("kinds:result:") + s_(w)).c_str()); break; }
    if (k == KD) setv("v", oD(1.5)); if (w == 8) { if (k == KL || k == KN) break; R r = run("(apply f v)"); FS_ASSERT(r.k == 1, "apply-without-list"); break; }
    if (w == 9) { if (k == KF || k == KY) break; R r = run("(do (defn h (a) (a 1)) (h v))"); FS_ASSERT(r.k == 1, "call-without-function"); break; }
    R r = run("(do (defn h (a) (f a) (f a)) (h v))"); FS_ASSERT(r.k == 1, "definition-with-two-bodies"); break; }
  }
}
