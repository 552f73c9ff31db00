// C22: the functions and macros of Library/fuellib.fuel (its current text, run by the interpreter) against their documentation.
#include "mini.h"
#include "fuellib.h"
static int sv[8];
static void lib() { fs_file_put("fuellib.fuel", FUELLIB); setv("p_fl", oS(fs_path("fuellib.fuel"))); R r = run("(import p_fl)"); FS_ASSERT(r.k == 0 || r.k == 3, "library-loads"); mini(); for (int i = 0; i < 8; i++) cval[i] = sv[i]; }
static bool err(const S &c) { R r = run(c); return r.k == 1; }
static void is(const S &c, const Val &v, const char *id) { R r = run(c); if (r.k == 1) note(c + ": " + r.msg); FS_ASSERT(r.k == 0, id); FS_ASSERT(isO(std::make_shared<object>(*r.v), v), id); }
static Val lst(int n) { Val v = vL(); for (int i = 0; i < n; i++) v.l.push_back(vI(sv[i])); return v; }
static void unch(const char *id) { static const char *N[] = {"i", "__i", "max", "container", "fcn", "result", "_list", "key", "l", "name", "data", "code", "counterinfo", "statements"}; for (int i = 0; i < 14; i++) { V v = gv(N[i]); FS_ASSERT(v && isInt(v, 70 + i), id); } }
static void callerVars() { static const char *N[] = {"i", "__i", "max", "container", "fcn", "result", "_list", "key", "l", "name", "data", "code", "counterinfo", "statements"}; for (int i = 0; i < 14; i++) setv(N[i], oI(70 + i)); }
extern "C" void fs_main() {
  session(); fs_guard("crash"); mini(); for (int i = 0; i < 8; i++) sv[i] = I("s" + s_(i)); lib();
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 6))
#endif
  {
  case 0: { // second, length, strlen, dict-len, find
    int w = fs_choice("what", 7), n = fs_choice("n", TIER ? 6 : 4); if (w == 5) callerVars(); fs_reach("selectors"); Val v = lst(n); setv("x", obj(v));
    if (w == 0) { if (n < 2) FS_ASSERT(err("(second x)"), "second:missing"); else is("(second x)", v.l[1], "second"); is("(length x)", vI(n), "length"); }
    else if (w == 1) { S t = symStr("t", n); setv("x", oS(t)); if (n < 2) { R r = run("(second x)"); FS_ASSERT(r.k == 1 || (r.k == 0 && isStr(r.v, "")), "second:text-missing"); } else is("(second x)", vS(t.substr(1, 1)), "second:text"); is("(length x)", vI(n), "length:text"); is("(strlen x)", vI(n), "strlen"); }
    else if (w == 2) { run("(def d (make-dict))"); int keys = 0; for (int i = 0; i < n && i < 3; i++) { setv("k", oI(sv[i])); run("(dict-set d k " + s_(i) + ")"); bool old = false; for (int j = 0; j < i; j++) old = old || sv[j] == sv[i]; if (!old) keys++; is("(dict-len d)", vI(keys), "dict-len"); } }
    else if (w == 3 || w == 5) { setv("k", oI(sv[7])); int e = -1; for (int i = n; i-- > 0;) if (sv[i] == sv[7]) e = i; is("(find k x)", vI(e), "find"); if (w == 5) unch("find:names-of-the-caller"); is("(val x)", v, "find:argument"); }
    else if (w == 4) { S t = symStr("t", n), k = symStr("k", 1); setv("x", oS(t)); setv("k", oS(k)); int e = -1; for (int i = n; i-- > 0;) if (t[i] == k[0]) e = i; is("(find k x)", vI(e), "find:text"); }
    else { Val m = vL(); m.l.push_back(vS("a")); m.l.push_back(vY("b")); m.l.push_back(Val(KN)); Val in = vL(); in.l.push_back(vI(sv[0])); m.l.push_back(in); m.l.push_back(vI(sv[1])); setv("x", obj(m)); int k = n % 5; if (k < 3) { setv("k", obj(m.l[k])); is("(find k x)", vI(k), "find:kinds"); } else { setv("k", k == 3 ? obj(in) : oS("nosuch")); is("(find k x)", vI(k == 3 ? 3 : -1), "find:kinds"); } FS_ASSERT(err("(find 1 2)") && err("(length 5)"), "selectors:wrong-kind"); }
    break; }
  case 1: { // foreach
    int w = fs_choice("what", 6), n = fs_choice("n", TIER ? 5 : 4); setv("x", obj(lst(n))); fs_reach("foreach"); for (int i = 0; i < 8; i++) cval[10 + i] = sv[i]; callerVars();
    if (w == 0) { R r = run("(foreach x (lambda (e) (rd 1 e)))"); FS_ASSERT(r.k == 0 || r.k == 3, "foreach:no-error"); FS_ASSERT((int)ireads.size() == n, "foreach:count"); for (int i = 0; i < n; i++) FS_ASSERT(ireads[i].second.kind == 0 && ireads[i].second.i == sv[i], "foreach:element"); unch("foreach:names-of-the-caller"); }
    else if (w == 1) { R r = run("(do (def r '()) (foreach x (lambda (e) (setf r (append r (list e max i))))) (val r))"); Val v = vL(); for (int i = 0; i < n; i++) { v.l.push_back(vI(sv[i])); v.l.push_back(vI(72)); v.l.push_back(vI(70)); } FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "foreach:names-seen-by-the-function"); }
    else if (w == 2) { R r = run("(do (def r '()) (defn f (container) (foreach container (lambda (fcn) (foreach container (lambda (__i) (setf r (append r (list fcn __i)))))))) (f x) (val r))"); Val v = vL(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { v.l.push_back(vI(sv[i])); v.l.push_back(vI(sv[j])); } FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "foreach:nested"); unch("foreach:nested-names"); }
    else if (w == 3) { S t = symStr("t", n); setv("x", oS(t)); R r = run("(do (def r \"\") (foreach x (lambda (e) (setf r (+ e r)))) (val r))"); FS_ASSERT(r.k == 0 && isStr(r.v, S(t.rbegin(), t.rend())), "foreach:text"); }
    else if (w == 4) { tval[20][0] = I("t0") > 0; tval[20][1] = I("t1") > 0; tval[20][2] = false; R r = run("(do (foreach x (lambda (e) (if (t 20) (fail) (rd 1 e)))) (p 3))"); int stop = n; for (int i = 0; i < n && i < 2; i++) if (tval[20][i] && stop == n) stop = i; FS_ASSERT((r.k == 1) == (stop < n), "foreach:error"); FS_ASSERT((int)ireads.size() == stop, "foreach:stopped"); unch("foreach:names-after-error"); R q = run("(do (def c '()) (foreach '(1 2) (lambda (e) (push e c))) (len '(1 2)))"); FS_ASSERT(q.k == 0 && isInt(q.v, 2), "foreach:again"); }
    else { // elements are data and not evaluated; functions with a name, returning early
      R r = run("(do (defn take (e) (do (rd 2 (len e)) (return 5) (p 1))) (foreach '((p 2) (nosuch x) (a)) take) (p 4))"); FS_ASSERT(r.k == 0, "foreach:data"); FS_ASSERT(ireads.size() == 3 && ireads[0].second.i == 2 && ireads[1].second.i == 2 && ireads[2].second.i == 1, "foreach:data"); FS_ASSERT(plog.size() == 1 && plog[0] == 4, "foreach:elements-not-evaluated"); } break; }
  case 2: { // dotimes
    int w = fs_choice("what", 7), n = (int)I("limit"); FS_ASSUME(n >= -1 && n <= (TIER ? 4 : 3)); int m = n < 0 ? 0 : n; setv("n", oI(n)); for (int i = 0; i < 8; i++) cval[10 + i] = sv[i]; callerVars(); fs_reach("dotimes");
    if (w == 0) { R r = run("(do (dotimes (c n) (rd 1 c)) (p 3) (rd 2 c))"); FS_ASSERT(r.k == 0, "dotimes:no-error"); FS_ASSERT((int)ireads.size() == m + 1, "dotimes:count"); for (int i = 0; i < m; i++) FS_ASSERT(ireads[i].second.i == i, "dotimes:counter"); FS_ASSERT(ireads[m].second.kind == 2, "dotimes:counter-leaks"); unch("dotimes:names-of-the-caller"); }
    else if (w == 1) { R r = run("(do (def s '()) (dotimes (a n) (dotimes (b (+ a 1)) (setf s (append s (list a b))))) (val s))"); Val v = vL(); for (int i = 0; i < m; i++) for (int j = 0; j <= i; j++) { v.l.push_back(vI(i)); v.l.push_back(vI(j)); } FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "dotimes:nested"); }
    else if (w == 2) { R r = run("(do (defn f (n y) (do (def loc y) (dotimes (k n) (do (setf loc (+ loc y)) (rd 1 loc))) (list loc y n))) (f n (p 1)))"); Val v = vL(); int loc = sv[1]; for (int i = 0; i < m; i++) { loc = (int)((unsigned)loc + (unsigned)sv[1]); } v.l.push_back(vI(loc)); v.l.push_back(vI(sv[1])); v.l.push_back(vI(n)); FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "dotimes:in-function"); FS_ASSERT((int)ireads.size() == m, "dotimes:in-function-count"); FS_ASSERT(!gv("k") && !gv("loc"), "dotimes:leak"); }
    else if (w == 3) { tval[20][0] = I("t0") > 0; tval[20][1] = I("t1") > 0; tval[20][2] = false; R r = run("(do (defn f (n) (do (dotimes (k n) (if (t 20) (return (list k n)) (p 2))) (list -1 n))) (f n))"); int e = -1; for (int i = 0; i < m && i < 2; i++) if (tval[20][i] && e < 0) e = i; Val v = vL(); v.l.push_back(vI(e)); v.l.push_back(vI(n)); FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "dotimes:return"); FS_ASSERT(pcount(2) == (e < 0 ? m : e), "dotimes:return-count"); }
    else if (w == 4) { R r = run("(do (def k '()) (dotimes (c n) (push (lambda () 5) k)) (def q 0) (dotimes (c n) (do (def inner (+ c 1)) (setf q (+ q inner)))) (val q))"); FS_ASSERT(r.k == 0 && isInt(r.v, m * (m + 1) / 2), "dotimes:several"); }
    else if (w == 5) { R r = run("(do (def s '()) (defn f (d) (do (dotimes (c 2) (do (setf s (append s (list d c))) (if (< d n) (f (+ d 1)) (nop)))) (list d))) (f 2) (val s))"); FS_ASSUME(n <= 3); Val v = vL(); struct L { static void f(int d, int n, Val &v) { for (int c = 0; c < 2; c++) { v.l.push_back(vI(d)); v.l.push_back(vI(c)); if (d < n) f(d + 1, n, v); } } }; L::f(2, n, v); FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "dotimes:recursion"); }
    else { R r = run("(do (dotimes (c n) x) (dotimes (c n) (do (p 1) (p 2))) (dotimes (c 2) '(nosuch)) (map (lambda (e) (do (dotimes (c e) (p 3)) (list 1))) (list n 1)) (p 4))"); FS_ASSERT(r.k == 0, "dotimes:bodies"); FS_ASSERT(pcount(1) == m && pcount(2) == m && pcount(3) == m + 1 && pcount(4) == 1, "dotimes:body-count"); unch("dotimes:names-of-the-caller"); } break; }
  case 3: { // defstruct
    int nf = fs_choice("fields", 4), nm = fs_choice("name", 3); static const char *NM[] = {"point", "p", "two-words"}, *FL[] = {"x", "y", "size"}; S name = NM[nm], d = "(defstruct " + name; for (int i = 0; i < nf; i++) d += S(" ") + FL[i]; d += ")"; callerVars(); for (int i = 0; i < 8; i++) cval[10 + i] = sv[i]; bool inFn = fs_choice("in-function", 2); if (inFn) { R r = run("(do (defn def-it () (do " + d + " (list (is-" + name + "-p 5) (len (make-" + name + " 1 2 3))))) (def-it))"); Val v = vL(); v.l.push_back(vB(false)); v.l.push_back(vI(nf + 1)); FS_ASSERT(r.k == 0 && isO(std::make_shared<object>(*r.v), v), "defstruct:in-function"); }
    R r = run("(do " + d + " (defstruct other x y) (p 1))"); FS_ASSERT(r.k == 0, "defstruct:defines"); fs_reach("defstruct"); int na = fs_choice("args", 5); S mk = "(make-" + name; for (int i = 0; i < na; i++) mk += " (p " + s_(2 + i) + ")"; mk += ")"; r = run("(def o " + mk + ")"); FS_ASSERT(r.k == 0, "defstruct:make"); for (int i = 0; i < na; i++) FS_ASSERT(pcount(2 + i) == 1, "defstruct:arguments-once"); V o = gv("o"); FS_ASSERT(o && o->Type == LispType::_List, "defstruct:list");
    auto l = items(o); FS_ASSERT((int)l.size() == nf + 1, "defstruct:size"); for (int i = 0; i < nf; i++) { Val e = i < na ? vI(sv[2 + i]) : Val(KN); is("(get-" + name + "-" + FL[i] + " o)", e, "defstruct:get"); } is("(is-" + name + "-p o)", vB(true), "defstruct:is"); is("(is-other-p o)", vB(false), "defstruct:other"); static const char *NOT[] = {"(make-other 1 2)", "'()", "(list 1 2 3)", "(list \"#point\" 1)", "5", "\"#point\"", "nil", "1.5", "true", "(make-dict)", "(list (list '#point))"}; for (int i = 0; i < 11; i++) is("(is-" + name + "-p " + NOT[i] + ")", vB(false), (S("defstruct:is-not:") + NOT[i]).c_str());
    if (nf) { run("(setf (nth 1 o) 9)"); is(S("(get-") + name + "-x o)", vI(9), "defstruct:changed"); r = run("(def o2 " + mk + ")"); is(S("(get-") + name + "-x o2)", na ? vI(sv[2]) : Val(KN), "defstruct:own-object"); } static const char *N[] = {"i", "max", "container", "fcn", "name", "data"}; static const int X[] = {0, 2, 3, 4, 9, 10}; for (int i = 0; i < 6; i++) FS_ASSERT(gv(N[i]) && isInt(gv(N[i]), 70 + X[i]), "defstruct:names-of-the-caller"); FS_ASSERT(!gv("__i"), "defstruct:counter-removed"); break; }
  case 4: { // setq is setf
    int w = fs_choice("place", 6); static const char *P1[] = {"a", "(nth 1 l)", "(first l)", "(rval 'a)", "undefined-name", "(last l)"}; fs_reach("setq"); R r[2]; V st[2][2]; for (int i = 0; i < 2; i++) { setv("a", oI(5)); setv("l", obj(lst(3))); plog.clear(); r[i] = run(S(i ? "(setf " : "(setq ") + P1[w] + " (p 6))"); FS_ASSERT(pcount(6) == 1 || r[i].k == 1, "setq:once"); st[i][0] = gv("a"); st[i][1] = gv("l"); } FS_ASSERT(r[0].k == r[1].k, "setq:outcome"); if (r[0].k == 0) FS_ASSERT(isO(std::make_shared<object>(*r[0].v), vI(sv[6])), "setq:value"); if (w == 4) FS_ASSERT(r[0].k == 1, "setq:undefined"); FS_ASSERT(isO(std::make_shared<object>(*st[0][0]), w == 0 ? vI(sv[6]) : vI(isInt(st[1][0], 5) ? 5 : st[1][0]->IntValue())), "setq:variable");
    Val v = lst(3); if (w == 1) v.l[1] = vI(sv[6]); if (w == 2) v.l[0] = vI(sv[6]); if (w == 5) v.l[2] = vI(sv[6]); FS_ASSERT(isO(std::make_shared<object>(*st[0][1]), v), "setq:list"); R q = run("(do (defn f (z) (do (setq z (+ z 1)) (val z))) (f a))"); FS_ASSERT(q.k == 0, "setq:parameter"); FS_ASSERT(isInt(gv("a"), st[1][0]->IntValue()), "setq:caller"); break; }
  default: { // functions that build call expressions for native classes; platform tests
    int n = fs_choice("count", TIER ? 5 : 4), w = fs_choice("what", 5); fs_reach("generators"); callerVars(); setv("n", oI(n)); S ps; for (int i = 0; i < n; i++) ps += S(i ? " " : "") + "p" + s_(i); S sp = n ? " " : ""; R r = run(w == 0 ? "(str (arg-list-expression n))" : w == 1 ? "(str (arg-list-with-obj-expression 'o n))" : w == 2 ? "(str (create-call-expression 'call 'meth 'obj n))" : w == 3 ? "(str (create-native-method-expression \"Pre-\" \"Cls\" \"nm\" \"Net\" #f n))" : "(str (create-native-method-expression \"Pre-\" \"Cls\" \"nm\" \"Net\" #t n))");
    S e = w == 0 ? "(" + ps + ")" : w == 1 ? "(o" + sp + ps + ")" : w == 2 ? "(call obj meth" + sp + ps + ")" : w == 3 ? "(defn \"Pre-nm\" (obj" + sp + ps + ") (call obj Net" + sp + ps + "))" : "(defn \"Pre-nm\" (" + ps + ") (call-static \"Cls\" Net" + sp + ps + "))"; if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0, "generators:no-error"); note(S(r.v->StringValue())); FS_ASSERT(isStr(r.v, e), "generators:text"); unch("generators:names-of-the-caller"); r = run("(str (list (isNET) (isCpp) (isHaxe)))"); FS_ASSERT(r.k == 0 && isStr(r.v, "(#f #t #f)"), "platform"); }
  }
}
