// C13: quote, quasiquote, unquote, splicing and eval over symbolically chosen trees, against substitution by the harness.
#include "mini.h"
// tree of quoted code: 0 int (symbolic), 1 symbol, 2 string, 3 list, 4 unquoted form, 5 spliced form, 6 Boolean, 7 nil, 8 double
struct Q { int k; int i; S t; std::vector<Q> l; Q() : k(0), i(0) {} };
static int nq; static std::vector<S> uforms; static std::vector<Val> uvals;
static const char *UF[] = {"u0", "(p 0)", "(+ u0 1)", "ul", "(list (p 0) 's)", "'(q r)", "us", "(list)", "'(+ 1 2)", "(first ul)"};
static Val UV(int f) { Val v, w; switch (f) { case 0: return vI(cval[10]); case 1: return vI(cval[0]); case 2: return vI((int)((unsigned)cval[10] + 1u)); case 3: v = vL(); v.l.push_back(vI(cval[11])); v.l.push_back(vI(cval[12])); return v; case 4: v = vL(); v.l.push_back(vI(cval[0])); v.l.push_back(vY("s")); return v; case 5: v = vL(); v.l.push_back(vY("q")); v.l.push_back(vY("r")); return v;
  case 6: return vS("t x"); case 7: return vL(); case 8: v = vL(); v.l.push_back(vY("+")); v.l.push_back(vI(1)); v.l.push_back(vI(2)); return v; default: return vI(cval[11]); } }
static bool isListForm(int f) { return f == 3 || f == 4 || f == 5 || f == 7 || f == 8; }
static Q tree(const S &n, int d, bool qq, int width) {
  Q q; int c = fs_choice((n + "k").c_str(), d > 0 ? (qq ? 5 : 3) : (qq ? 3 : 2)); if (d == 0 && c == 2) c = 3;
  switch (c) { case 0: { q.k = 1; q.t = "sym"; return q; } case 1: { static const int LK[] = {0, 2, 6, 7, 8, 1}; static const char *ST[] = {"5", "\"s t\"", "#t", "nil", "1.5", "u0"}; int z = nq++ % 6; q.k = LK[z]; q.t = ST[z]; return q; }
    case 2: { q.k = 3; int m = fs_choice((n + "n").c_str(), width + 1); for (int i = 0; i < m; i++) q.l.push_back(tree(n + s_(i), d - 1, qq, width)); return q; }
    case 3: q.k = 4; q.i = (nq++ * 3) % 10; return q;
    default: { q.k = 5; static const int LF[] = {3, 4, 5, 7, 8}; q.i = LF[nq++ % 5]; return q; } } }
static S code(const Q &q) { switch (q.k) { case 3: { S r = "("; for (size_t i = 0; i < q.l.size(); i++) r += (i ? " " : "") + code(q.l[i]); return r + ")"; } case 4: return S(",") + UF[q.i]; case 5: return S(",@") + UF[q.i]; default: return q.t; } }
static bool usesP(const Q &q) { if (q.k == 4 || q.k == 5) return q.i == 1 || q.i == 4; for (size_t i = 0; i < q.l.size(); i++) if (usesP(q.l[i])) return true; return false; }
static int evals(const Q &q) { if (q.k == 4 || q.k == 5) return (q.i == 1 || q.i == 4) ? 1 : 0; int n = 0; for (size_t i = 0; i < q.l.size(); i++) n += evals(q.l[i]); return n; }
static Val den(const Q &q) { switch (q.k) { case 0: return vI(5); case 1: return vY(q.t); case 2: return vS("s t"); case 6: return vB(true); case 7: return Val(KN); case 8: return vD(1.5); case 4: return UV(q.i);
  default: { Val v = vL(); for (size_t i = 0; i < q.l.size(); i++) { if (q.l[i].k == 5) { Val w = UV(q.l[i].i); for (size_t j = 0; j < w.l.size(); j++) v.l.push_back(w.l[j]); } else v.l.push_back(q.l[i].k == 0 ? vI(5) : den(q.l[i])); } return v; } } }
// the empty list and nil are one value when read as code
static bool isQ(V v, const Val &e) { if (e.k == KL && e.l.empty()) return v->Type == LispType::_Nil || (v->Type == LispType::_List && items(v).empty()); if (e.k != KL) return is(v, e); if (v->Type != LispType::_List) return false; auto a = items(v); if (a.size() != e.l.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!isQ(std::make_shared<LispVariant>(a[i]), e.l[i])) return false; return true; }
static void setup(bool start = true) { if (start) nq = fs_choice("start", TIER ? 15 : 5) * (TIER ? 2 : 6); cval[10] = I("u0"); cval[11] = I("u1"); cval[12] = I("u2"); cval[0] = I("p0"); setv("u0", oI(cval[10])); Val l = vL(); l.l.push_back(vI(cval[11])); l.l.push_back(vI(cval[12])); setv("ul", obj(l)); setv("us", oS("t x")); }
static const char *EX[] = {"(+ (p 1) (p 2))", "(list x (p 1) 'y)", "(if (t 60) (p 1) (p 2))", "(do (def z (p 1)) (rd 1 z) (list z z))", "(map (lambda (q) (+ q 1)) '(1 2))", "(setf x (p 1))", "(and (t 60) (= x (p 1)))", "((fail))", "(list '(a (b c)) \"s\" 1.5 nil)", "(fail)", "x", "`(a ,x ,@(list x 1))", "(eval '(+ x (p 1)))", "(m1 (p 1) x)", "(do (defn k (a) (do (return a) (p 2))) (k (p 1)))", "(while (t 60) (rd 2 (p 1)))", "(quote (p 1))", "7", "\"text\"", "nil", "(nofunction (p 1))", "(len (list))"};
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
struct Out { R r; std::vector<int> log; std::vector<std::pair<int, MV> > reads; V x, z; };
static int sv[8];
static Out go(const S &c) { session(); mini(); cval[1] = sv[0]; cval[2] = sv[1]; cval[5] = sv[5]; cval[6] = sv[6]; tval[60][0] = sv[2]; tval[60][1] = sv[3]; run("(define-macro-eval m1 (a b) (list b a (rd 3 b)))"); setv("x", oI(sv[4])); setv("z", oI(3)); plog.clear(); ireads.clear(); Out o; note(c); o.r = run(c); if (o.r.k == 1) note(o.r.msg); note(logs(plog)); o.log = plog; o.reads = ireads; o.x = gv("x"); o.z = gv("z"); return o; }
extern "C" void fs_main() {
  session(); mini(); fs_guard("crash"); nq = 0;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
  {
  case 0: { // quote: structure as written, nothing evaluated
    setup(); Q q = tree("q", 2, false, TIER ? 3 : 2); S c = code(q); note(c); fs_reach("quote"); static const char *F[] = {"'", "(quote ", "`", "(quasiquote "}; int f = fs_choice("form", 4); S full = S("(val ") + F[f] + c + (f & 1 ? ")" : "") + ")"; Val e = den(q);
    R r = run(full); if (r.k) note(r.msg); FS_ASSERT(r.k == 0, "quote:value"); FS_ASSERT(isQ(r.v, e), "quote:structure"); FS_ASSERT(plog.empty(), "quote:unevaluated"); break; }
  case 1: { // quasiquote: every unquoted form replaced by its value, every spliced one by the elements
    setup(); Q q; q.k = 3; int m = 1 + fs_choice("n", TIER ? 3 : 2); for (int i = 0; i < m; i++) q.l.push_back(tree("q" + s_(i), TIER ? 2 : 1, true, 2)); S c = code(q); note(c); fs_reach("quasiquote"); int f = fs_choice("form", 2); S full = S("(val ") + (f ? "(quasiquote " : "`") + c + (f ? ")" : "") + ")"; Val e = den(q);
    R r = run(full); if (r.k) note(r.msg); FS_ASSERT(r.k == 0, "quasiquote:value"); FS_ASSERT(isQ(r.v, e), "quasiquote:structure"); FS_ASSERT((int)plog.size() == evals(q), "quasiquote:each-form-once"); R r2 = run(full); FS_ASSERT(r2.k == 0 && isQ(r2.v, e), "quasiquote:again"); break; }
  case 2: case 3: { // eval of a quoted expression is the expression
    for (int i = 0; i < 8; i++) sv[i] = I("s" + s_(i)); sv[2] = sv[2] > 0; sv[3] = sv[3] > 0; int x = fs_choice("expr", CNT(EX)), w = fs_choice("context", TIER ? 6 : 5); fs_reach("eval"); static const char *CX[] = {"(list #)", "(do (defn f (x) (list # x)) (f (p 5)))", "(do (defn f (x z) (do (def g (lambda (z) (list # z))) (list (g (p 6)) x z))) (f (p 5) 8))", "(do (def i 0) (def r '()) (while (< i 2) (do (setf i (+ i 1)) (setf r (list # r)))) (append r))", "(list # #)", "(map (lambda (q) (list q #)) '(1 2))"};
    S cx = CX[w], e = EX[x], a, b; int q = fs_choice("quoted", 3); S ev = q == 0 ? S("(eval '") + e + ")" : q == 1 ? S("(eval (quote ") + e + "))" : S("(eval (val '") + e + "))"; for (size_t i = 0; i < cx.size(); i++) if (cx[i] == '#') { a += e; b += ev; } else { a += cx[i]; b += cx[i]; }
    if (e == "x" || w == 3) { Out o = go(b); Out p = go(a); if (e == "x") { FS_ASSERT(o.r.k == p.r.k, "eval:outcome"); if (p.r.k == 0 && w != 0 && w != 3) break; } FS_ASSERT(o.r.k == p.r.k && (p.r.k != 0 || same(o.r.v, p.r.v)), "eval:value"); FS_ASSERT(o.log.size() == p.log.size(), "eval:number-of-evaluations"); break; }
    Out o = go(b), p = go(a); FS_ASSERT(o.log.size() == p.log.size(), "eval:number-of-evaluations"); for (size_t i = 0; i < p.log.size(); i++) FS_ASSERT(o.log[i] == p.log[i], "eval:order-of-evaluations"); FS_ASSERT(o.reads.size() == p.reads.size(), "eval:number-of-reads"); for (size_t i = 0; i < p.reads.size(); i++) FS_ASSERT(meq(o.reads[i].second, p.reads[i].second), "eval:value-read");
    FS_ASSERT(o.r.k == p.r.k, "eval:outcome"); if (p.r.k == 0) FS_ASSERT(same(o.r.v, p.r.v), "eval:value"); FS_ASSERT(same(o.x, p.x) && same(o.z, p.z), "eval:variables"); break; }
  default: { // quoted data survives evaluation; wrong uses
    setup(false); int w = fs_choice("which", 8); fs_reach("others"); R r;
    if (w == 0) { r = run("(do (defn f () '(1 2 3)) (def a (f)) (def b (f)) (list (= a b) (len a) (nth 2 b)))"); FS_ASSERT(r.k == 0, "constant:value"); auto l = items(r.v); FS_ASSERT(l.size() == 3 && isO(l[0], vB(true)) && isO(l[1], vI(3)) && isO(l[2], vI(3)), "constant"); }
    else if (w == 1) { static const char *B[] = {"(quote)", "(quote 1 2)", "(quasiquote)", "(quasiquote 1 2)", "(eval)", "(eval 1 2)"}; r = run(B[fs_choice("bad", 6)]); FS_ASSERT(r.k == 1, "wrong-count"); }
    else if (w == 2) { r = run("(do (def e '(+ u0 1)) (def a (eval e)) (setf u0 5) (list a (eval e) (len e)))"); FS_ASSERT(r.k == 0, "again:value"); auto l = items(r.v); FS_ASSERT(l.size() == 3 && isInt(vOf(l[0]), (int)((unsigned)cval[10] + 1u)) && isO(l[1], vI(6)) && isO(l[2], vI(3)), "eval-twice"); }
    else if (w == 3) { r = run("(do (def n 2) `(a `(b ,n)))"); FS_ASSERT(r.k == 0, "nested-quasiquote:no-crash"); }
    else if (w == 4) { r = run("`(1 ,@u0)"); FS_ASSERT(r.k == 1, "splice-of-no-list"); }
    else if (w == 5) { r = run("(eval (val u0))"); FS_ASSERT(r.k == 0 && isInt(r.v, cval[10]), "eval-of-value"); }
    else if (w == 6) { r = run("(eval (append '(+) ul))"); FS_ASSERT(r.k == 0 && isInt(r.v, (int)((unsigned)cval[11] + (unsigned)cval[12])), "eval-of-built-list"); }
    else { r = run("(do (def c `(if (> ,u0 0) 'pos 'other)) (eval c))"); FS_ASSERT(r.k == 0 && is(r.v, vY(cval[10] > 0 ? "pos" : "other")), "eval-of-quasiquote"); } break; }
  }
}
