// C25: files keep exactly what was written to them; evalstr of a text is the text evaluated in place.
#include "mini.h"
static int sv[8];
static R ev(const S &c) { return evalIn(c, g, "mod"); }
// E: evaluated in place in one session and as text in the other; both results, effects and errors agree
static const char *EX[] = {"(+ x y)", "(setf x (p 1))", "(def q (p 2))", "(do (def q 5) (setf q (+ q x)) (list q))", "(list x y (p 1))", "(if (> x 0) (p 1) (p 2))", "(rd 3 x)", "(fail)", "(nosuch x)", "(first y)", "(gdef gg (+ x 1))", "(defn nf (a) (list a x))", "(do (defn nf (a) (list a x)) (nf (p 1)))", "((lambda (a) (+ a x)) y)", "(map (lambda (a) (+ a x)) l)", "(push (p 3) l)", "(setf (nth 0 l) x)", "'(a (b x))", "(quasiquote (a ,x))", "(mr x (p 1))", "(me x)", "(evalstr \"(setf x (+ x y))\")", "(eval '(+ x y))", "(do (while (< x 2) (setf x (+ x 1))) (list x))", "(do (define-macro-eval mm (a) (list a a)) (mm (p 1)))", "(list \"a\\nb\" 'c 1.5 nil true)", "(setf undefinedname 3)", "(argscount)", "(args)", "(arg 0)", "(do)", "(apply + (list x y))", "(h (h x))", "(do (return (p 4)) (p 5))", "(format \"{0}-{1}\" 7 \"z\")", "(dict-set d 1 x)", "(and (> x 0) (p 6))", "(def h2 h)", "(delvar y)", "(do (fail) (p 9))", "(reduce (lambda (a b) (+ a b)) l 0)"};
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
static const char *CXT[] = {"#", "(do (p 7) #)", "(do (def x 50) #)", "(do (defn f (x) #) (f (p 8)))", "(do (defn f (x l) (do (def y 4) (p 7) #)) (f (p 8) (list 1 2)))", "(do (defn f (x) (lambda (z) #)) (def c (f (p 8))) (c 1))", "(list # (p 7))", "(if # (p 7) (p 8))", "(do (defn f () (do (def i 0) (while (< i 2) (do (setf i (+ i 1)) #)))) (f))", "(h #)", "(map (lambda (x) #) (list 1 2))", "(do (defn f (n) (if (> n 0) (f (- n 1)) #)) (f 2))", "(do (def r #) (list r))", "(mr # (p 7))"};
static S esc(const S &e) { S r; for (size_t i = 0; i < e.size(); i++) { if (e[i] == '"' || e[i] == '\\') r += '\\'; r += e[i]; } return r; }
static S put(const S &c, const S &x) { size_t q = c.find('#'); return c.substr(0, q) + x + c.substr(q + 1); }
static void start() { session(); mini(); for (int i = 1; i < 8; i++) cval[i] = i == 3 ? 103 : sv[i]; cval[8] = sv[3]; cval[9] = 9; pval = [](int id, int) -> Val { if (id == 6) return vB(sv[6] > 0); return vI(cval[id]); };
  R r = ev("(do (define-macro-eval mr (a b) (list b a a)) (define-macro-expand me (a) (list '+ 1 'a)) (defn h (a) a) (def d (make-dict)) (def l '(1 2)) (gdef gg 0) (def x (p 4)) (def y (p 5)) (def i 0))"); FS_ASSERT(r.k == 0 || r.k == 3, "setup"); plog.clear(); }
static const char *ST[] = {"x", "y", "l", "gg", "q", "h2", "nf", "f", "i"};
extern "C" void fs_main() {
  session(); fs_guard("crash"); mini(); for (int i = 0; i < 8; i++) { sv[i] = I("s" + s_(i)); if (i == 4 || i == 3) FS_ASSUME(sv[i] >= -1 && sv[i] <= 3); }
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 4))
#endif
  {
  case 0: { // histories of file operations against a map
    static const char *FN[] = {"a.txt", "b"}; std::map<S, S> m; S pre = symStr("pre", 2); fs_file_put("b", pre); m["b"] = pre; fs_file_put("other", "keep\r\n"); for (int i = 0; i < 2; i++) setv(i ? "fb" : "fa", oS(fs_path(FN[i]))); int n = TIER ? 4 : 3; fs_reach("histories");
    for (int i = 0; i < n; i++) { int op = fs_choice(("op" + s_(i)).c_str(), 4), w = fs_choice(("file" + s_(i)).c_str(), 2); S f = FN[w], v = w ? "fb" : "fa"; note(s_(op) + f); if (op == 0 || op == 3) { S c = symStr("c" + s_(i), op ? 0 : 3); setv("c", oS(c)); R r = run("(File-WriteAllText " + v + " c)"); FS_ASSERT(r.k == 0 && isBool(r.v, true), "write"); m[f] = c; FS_ASSERT(isStr(gv("c"), c), "content-kept"); }
      else if (op == 1) { R r = run("(File-ReadAllText " + v + ")"); FS_ASSERT(r.k == 0, "read"); FS_ASSERT(isStr(r.v, m.count(f) ? m[f] : S("")), "read:text"); } else { R r = run("(File-Exists " + v + ")"); FS_ASSERT(r.k == 0 && isBool(r.v, m.count(f) > 0), "exists"); } }
    for (int i = 0; i < 2; i++) { S c; bool there = fs_file_get(FN[i], c); FS_ASSERT(there == (m.count(FN[i]) > 0), "file-there"); if (there) FS_ASSERT(c == m[FN[i]], "file-content"); } S c; FS_ASSERT(fs_file_get("other", c) && c == "keep\r\n", "other-file"); break; }
  case 1: { // contents of any length and any bytes; kinds of arguments; wrong numbers of arguments
    int w = fs_choice("what", 4); setv("fa", oS(fs_path("a.txt"))); fs_reach("contents"); if (w == 0) { int n = fs_choice("n", TIER ? 12 : 6); S c = symStr("c", n); setv("c", oS(c)); R r = run("(do (File-WriteAllText fa c) (File-ReadAllText fa))"); FS_ASSERT(r.k == 0 && isStr(r.v, c), "round-trip"); r = run("(do (File-WriteAllText fa (File-ReadAllText fa)) (== (File-ReadAllText fa) c))"); FS_ASSERT(r.k == 0 && isBool(r.v, true), "round-trip-again"); }
    else if (w == 1) { int k = fs_choice("kind", 5); Val v(k == 0 ? KI : k == 1 ? KB : k == 2 ? KN : k == 3 ? KY : KL); if (k == 0) { v.i = I8("i"); FS_ASSUME(v.i >= 0 && v.i < 20); } if (k == 1) v.b = Bo("b"); if (k == 3) v.s = "foo"; if (k == 4) { v.l.push_back(vS(symStr("l", 1))); v.l.push_back(vI(1)); } setv("c", obj(v)); R r = run("(do (File-WriteAllText fa c) (== (File-ReadAllText fa) (str c)))"); FS_ASSERT(r.k == 0 && isBool(r.v, true), "text-of-value"); }
    else if (w == 2) { fs_file_put("x", "1"); int k = fs_choice("call", 6); static const char *E[] = {"(File-WriteAllText fa)", "(File-WriteAllText)", "(File-ReadAllText)", "(File-ReadAllText fa 1)", "(File-Exists)", "(File-Exists fa 1)"}; R r = run(E[k]); S c; FS_ASSERT(r.k == 1, "argument-count"); FS_ASSERT(!fs_file_get("a.txt", c), "nothing-written"); }
    else { setv("fb", oS(fs_path("nodir/a.txt"))); R r = run("(list (File-WriteAllText fb \"1\") (File-Exists fb) (File-ReadAllText fb))"); FS_ASSERT(r.k == 0, "missing-directory:no-error"); auto a = items(r.v); FS_ASSERT(isBool(vOf(a[0]), false) && isBool(vOf(a[1]), false) && isStr(vOf(a[2]), ""), "missing-directory"); } break; }
  case 2: { // evalstr in every context
    int e = fs_choice("expr", CNT(EX)), c = fs_choice("context", CNT(CXT)), how = (e + c) % 3; S E = EX[e], C = CXT[c]; if ((c == 2 || c == 4) && e == 38) return; if (!TIER && (e + c) % 2 && e != 20 && c != 3) return; fs_reach("evalstr"); S A = put(C, how == 0 ? "(evalstr \"" + esc(E) + "\")" : how == 1 ? "(evalstr code)" : "(evalstr (File-ReadAllText file))"), B = put(C, E); note(A);
    start(); setv("code", oS(E)); fs_file_put("p.fuel", E); setv("file", oS(fs_path("p.fuel"))); R a = ev(A); std::vector<int> la = plog; std::vector<std::pair<int, MV> > ra = ireads; std::vector<V> va; for (int i = 0; i < CNT(ST); i++) va.push_back(gv(ST[i])); R a2 = ev("(list x y l gg (dict-keys d))"), a3 = ev("(argscount)");
    start(); setv("code", oS(E)); setv("file", oS(fs_path("p.fuel"))); R b = ev(B); FS_ASSERT(a.k != 2, "foreign-exception"); if (a.k == 1) note(a.msg); if (b.k == 1) note(b.msg); FS_ASSERT((a.k == 1) == (b.k == 1), "error"); FS_ASSERT(la.size() == plog.size(), "number-of-evaluations"); for (size_t i = 0; i < la.size(); i++) FS_ASSERT(la[i] == plog[i], "order-of-evaluations"); FS_ASSERT(ra.size() == ireads.size(), "number-of-reads"); for (size_t i = 0; i < ra.size(); i++) FS_ASSERT(meq(ra[i].second, ireads[i].second), "value-read");
    if (a.k == 1) FS_ASSERT(a.msg == b.msg, "message"); else FS_ASSERT((a.k == 3 || b.k == 3) ? (a.k != 0 || a.v->Type == LispType::_Undefined) && (b.k != 0 || b.v->Type == LispType::_Undefined) : same(a.v, b.v), "value"); for (int i = 0; i < CNT(ST); i++) { V w = gv(ST[i]); FS_ASSERT(same(va[i], w), (S("variable:") + ST[i]).c_str()); } R b2 = ev("(list x y l gg (dict-keys d))"), b3 = ev("(argscount)"); FS_ASSERT(a2.k == b2.k && (a2.k || same(a2.v, b2.v)), "state"); FS_ASSERT(a3.k == b3.k && a3.msg == b3.msg, "later-program"); break; }
  default: { // nested texts, arbitrary numbers in the text
    int i = I8("i"); FS_ASSUME(i > -20 && i < 120); setv("i", oI(i)); int w = fs_choice("text", 4); static const char *E[] = {"(evalstr (+ \"(+ 1 \" (str i) \")\"))", "(evalstr (+ \"(evalstr \\\"(+ 1 \" (str i) \")\\\")\"))", "(do (File-WriteAllText file (+ \"(do (def k \" (str i) \") (+ k 1))\")) (evalstr (File-ReadAllText file)))", "(do (defn f (n) (evalstr (+ \"(+ n \" (str i) \")\"))) (f 1))"}; setv("file", oS(fs_path("q"))); fs_reach("texts"); R r = run(E[w]); if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0 && isInt(r.v, i + 1), "value-of-text"); break; }
  }
}
