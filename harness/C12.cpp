// C12: a program with a macro call against the program in which the harness has replaced the parameters by the argument forms.
#include "mini.h"
static bool sep(char c) { return c == ' ' || c == '(' || c == ')' || c == '\'' || c == '`' || c == ',' || c == '@' || c == '"'; }
static S subst(const S &t, const std::vector<S> &p, const std::vector<S> &a) {   // all parameters at once, on whole atoms
  S r; for (size_t i = 0; i < t.size();) { if (t[i] == '"') { size_t j = t.find('"', i + 1); r += t.substr(i, j + 1 - i); i = j + 1; continue; } if (sep(t[i])) { r += t[i++]; continue; } size_t j = i; while (j < t.size() && !sep(t[j])) j++; S w = t.substr(i, j - i); size_t k = 0; while (k < p.size() && p[k] != w) k++; r += k < p.size() ? a[k] : w; i = j; } return r; }
struct Out { R r; std::vector<int> log; std::vector<std::pair<int, MV> > reads; V x, y, z; };
static int sv[12]; static void values() { for (int i = 0; i < 10; i++) sv[i] = I("c" + s_(i)); sv[10] = I("t0") > 0; sv[11] = I("t1") > 0; }
static Out go(const S &pre, const S &c) { session(); mini(); for (int i = 0; i < 8; i++) cval[i] = sv[i]; tval[60][0] = sv[10]; tval[60][1] = sv[11]; setv("x", oI(sv[8])); setv("y", oI(sv[9])); setv("a", oI(50)); setv("z", oI(60));
  Out o; if (pre.size()) { R q = run(pre); FS_ASSERT(q.k != 2, "definition:foreign-exception"); if (q.k == 1) note(q.msg); FS_ASSERT(q.k != 1, "definition:error"); } plog.clear(); ireads.clear(); note(c); o.r = run(c); if (o.r.k == 1) note(o.r.msg); o.log = plog; o.reads = ireads; o.x = gv("x"); o.y = gv("y"); o.z = gv("z"); note(logs(plog)); return o; }
static void cmp(const Out &m, const Out &e, const S &id) {
  FS_ASSERT(m.log.size() == e.log.size(), (id + ":number-of-evaluations").c_str()); for (size_t i = 0; i < e.log.size(); i++) FS_ASSERT(m.log[i] == e.log[i], (id + ":order-of-evaluations").c_str());
  FS_ASSERT(m.reads.size() == e.reads.size(), (id + ":number-of-reads").c_str()); for (size_t i = 0; i < e.reads.size(); i++) FS_ASSERT(meq(m.reads[i].second, e.reads[i].second), (id + ":value-read").c_str());
  FS_ASSERT(m.r.k == e.r.k, (id + ":outcome").c_str()); if (e.r.k == 0) FS_ASSERT(same(m.r.v, e.r.v), (id + ":value").c_str());
  FS_ASSERT(same(m.x, e.x), (id + ":variable-x").c_str()); FS_ASSERT(same(m.y, e.y), (id + ":variable-y").c_str()); FS_ASSERT(same(m.z, e.z), (id + ":variable-z").c_str()); }
static const char *BODY[] = {"(list a b)", "(list b a a)", "(do (rd 1 x) a (rd 2 x) b)", "(if (t 60) a b)", "(do (def z a) (list z b))", "(list 'a 'b)", "`(1 ,a (b ,@(list b)))", "(do (defn k (q) (list q a)) (k b))", "(while (t 60) (rd 3 a))", "(list \"a\" (list a (list b)))", "(val a)",
  "(setf x b)", "((lambda (a) a) b)", "(do (setf z 5) (rd 5 x) (list z a b))", "(map (lambda (q) (list q a)) (list b b))", "(and (= a a) (t 60) (= b b))", "(list (+ x 1) a)"};
static const char *ARG[] = {"(p 0)", "x", "b", "(+ (p 1) x)", "(list b (p 2))", "a", "(do (setf y (p 3)) (val y))", "7", "\"a b\"", "(fail)", "'(a b)", "nil", "(n (p 4))", "(n b)"};
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
extern "C" void fs_main() {
  session(); mini(); values(); fs_guard("crash"); std::vector<S> P2; P2.push_back("a"); P2.push_back("b"); std::vector<S> av(2);
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 6))
#endif
  {
  case 0: { // every body with every pair of argument forms, at the top level
    int bi = fs_choice("body", CNT(BODY)); int full = TIER; int i = fs_choice("arg1", CNT(ARG)), j = full ? fs_choice("arg2", CNT(ARG)) : (i * 5 + bi + 1) % CNT(ARG); av[0] = ARG[i]; av[1] = ARG[j]; int two = fs_choice("define", 2); fs_reach("bodies");
    S inner = "(define-macro-eval n (a) (list a (rd 6 a))) (defn n2 (q) (list q (rd 6 q)))"; S pre = "(do " + inner + " (" + (two ? "define-macro" : "define-macro-eval") + " m (a b) " + BODY[bi] + ") 0)"; (void)pre;
    pre = "(do " + inner + " (" + S(two ? "define-macro" : "define-macro-eval") + " m (a b) " + BODY[bi] + "))";
    Out e = go("(do " + inner + ")", subst(BODY[bi], P2, av)); Out m = go(pre, "(m " + av[0] + " " + av[1] + ")"); cmp(m, e, "eval-macro"); break; }
  case 1: { // called inside of functions with parameters and locals of the same names, in loops, as argument and twice
    int bi = fs_choice("body", CNT(BODY)), i = fs_choice("arg1", 8), j = (i * 3 + bi) % CNT(ARG), w = fs_choice("context", 5); av[0] = ARG[i]; av[1] = ARG[j]; fs_reach("contexts"); S inner = "(define-macro-eval n (a) (list a (rd 6 a)))";
    static const char *CX[] = {"(do (defn f (x) (do (def b (p 5)) @)) (f (p 6)))", "(do (defn f (a x) (list @ a x)) (f (p 5) (p 6)))", "(do (def i 0) (while (< i 2) (do (setf i (+ i 1)) @)) (list i x))", "(list @ @)", "(do (defn f (m) (lambda (x) @)) (def h (f 1)) (h (p 7)))"};
    S cx = CX[w], ce = cx, cm = cx; S exp = subst(BODY[bi], P2, av), call = "(m " + av[0] + " " + av[1] + ")"; size_t q; while ((q = ce.find('@')) != S::npos && ce.substr(q, 2) != "@(") { ce = ce.substr(0, q) + exp + ce.substr(q + 1); break; } q = cm.find('@'); cm = cm.substr(0, q) + call + cm.substr(q + 1); if (w == 3) { q = cx.rfind('@'); ce = "(list " + exp + " " + exp + ")"; cm = "(list " + call + " " + call + ")"; }
    Out e = go("(do " + inner + ")", ce); Out m = go("(do " + inner + " (define-macro-eval m (a b) " + BODY[bi] + "))", cm); cmp(m, e, "macro-in-context"); break; }
  case 2: { // macros that call macros, with parameters handed on
    static const char *B1[] = {"(list (n b) (n a))", "(n (n b a))", "(n (list a b))", "(do (n a) (n b))", "(list a (n (m2 b)))"}; int bi = fs_choice("body", 5), i = fs_choice("arg1", CNT(ARG) - 2), j = (i * 7 + bi + 2) % (CNT(ARG) - 2); av[0] = ARG[i]; av[1] = ARG[j]; fs_reach("nested"); std::vector<S> pn; pn.push_back("a");
    S ndef = "(define-macro-eval m2 (b) (list b 1)) (define-macro-eval n (a) (list (rd 6 a) a))"; S b = subst(B1[bi], P2, av);
    // the oracle expands the inner calls by functions of the same effect only for forms without effects: here by expanding the text itself
    for (int k = 0; k < 6; k++) { size_t q = b.find("(n "), m = b.find("(m2 "); bool isn = q != S::npos && (m == S::npos || q < m); size_t at = isn ? q : m; if (at == S::npos) break; size_t st = at + (isn ? 3 : 4), d = 1, x = st; for (; d; x++) { if (b[x] == '"') { x = b.find('"', x + 1); continue; } if (b[x] == '(') d++; if (b[x] == ')') d--; } S arg = b.substr(st, x - 1 - st);
      if (isn) { size_t dd = 0, y = 0; for (; y < arg.size(); y++) { if (arg[y] == '"') { y = arg.find('"', y + 1); continue; } if (arg[y] == '(') dd++; if (arg[y] == ')') dd--; if (arg[y] == ' ' && !dd) break; } arg = arg.substr(0, y); }
      S ex = isn ? "(list (rd 6 " + arg + ") " + arg + ")" : "(list " + arg + " 1)"; b = b.substr(0, at) + ex + b.substr(x); }
    Out e = go("", b); Out m = go("(do " + ndef + " (define-macro-eval m (a b) " + B1[bi] + "))", "(m " + av[0] + " " + av[1] + ")"); cmp(m, e, "macro-in-macro"); break; }
  case 3: { // compile-time macros: the value of the replaced body stands in place of the call
    struct T3 { const char *body, *code; }; static const T3 B[] = {{"(list 'list 'a 'b)", "(list @1 @2)"}, {"'(list b a a)", "(list @2 @1 @1)"}, {"`(if (t 60) ,'a ,'b)", "(if (t 60) @1 @2)"}, {"(list 'do (list 'rd 1 'a) (list 'rd 2 'b))", "(do (rd 1 @1) (rd 2 @2))"}, {"`(do (def z a) (list z b))", "(do (def z @1) (list z @2))"}, {"'(do (while (t 60) (rd 3 a)) (list b))", "(do (while (t 60) (rd 3 @1)) (list @2))"}, {"(do (def code '(list a)) (append code '(b)))", "(list @1 @2)"}, {"(cons 'list (map (lambda (q) (list 'val q)) '(a b)))", "(list (val @1) (val @2))"}};
    int bi = fs_choice("body", CNT(B)), i = fs_choice("arg1", 9), j = TIER ? fs_choice("arg2", 9) : (i * 2 + bi) % 9, w = fs_choice("context", 4); av[0] = ARG[i]; av[1] = ARG[j]; fs_reach("expand"); S code = B[bi].code, ex; for (size_t k = 0; k < code.size(); k++) if (code[k] == '@') { ex += av[code[k + 1] - '1']; k++; } else ex += code[k];
    static const char *CX[] = {"#", "(do (defn f (x) (do (def b (p 5)) #)) (f (p 6)))", "(do (def i 0) (while (< i 2) (do (setf i (+ i 1)) #)) (list i x))", "(do (defn f (x) (list # x)) (f (p 5)) (f (p 6)))"}; S cx = CX[w]; size_t q = cx.find('#'); S call = "(m " + av[0] + " " + av[1] + ")";
    Out e = go("", cx.substr(0, q) + ex + cx.substr(q + 1)); bool same_text = fs_choice("same-program", 2) != 0; S def = S("(define-macro-expand m (a b) ") + B[bi].body + ")"; S use = cx.substr(0, q) + call + cx.substr(q + 1);
    Out m = same_text ? go("", "(do " + def + " " + use + ")") : go("(do " + def + ")", use); cmp(m, e, "expand-macro"); break; }
  case 4: { // expansion happens once per call in the text, the body is evaluated then and not when the code runs
    int n = (int)fs_sym("n", 2); setv("n", oI(n)); cval[9] = I("c9"); int w = fs_choice("which", 3); fs_reach("expand-once"); R r; if (w == 0) r = run("(do (define-macro-expand m (a) (list '+ 'a (p 9))) (def i 0) (def s 0) (while (< i n) (do (setf s (m s)) (setf i (+ i 1)))) (+ s 0))"); else if (w == 1) r = run("(do (define-macro-expand m (a) (list '+ 'a (p 9))) (defn f (k) (m k)) (def i 0) (def s 0) (while (< i n) (do (setf s (f s)) (setf i (+ i 1)))) (+ s 0))");
    else { run("(do (define-macro-expand m (a) (list '+ 'a (p 9))))"); r = run("(do (def i 0) (def s 0) (if (> n 99) (m 1)) (while (< i n) (do (setf s (m s)) (setf i (+ i 1)))) (+ s 0))"); }
    int e = 0; for (int i = 0; i < n; i++) e = (int)((unsigned)e + (unsigned)cval[9]); FS_ASSERT(r.k == 0 && isInt(r.v, e), "expand-once:value"); FS_ASSERT((int)plog.size() == (w == 2 ? 2 : 1), "expand-once:evaluations"); break; }
  default: { // wrong number of arguments, redefinition, no parameters, surplus arguments, unevaluated arguments
    int w = fs_choice("which", 7), kind = fs_choice("kind", 2); S d = kind ? "define-macro-eval" : "define-macro-expand"; cval[1] = I("c1"); fs_reach("others"); R r;
    if (w == 0) { run("(do (" + d + " m (a b) (list a b)))"); r = run("(m 1)"); FS_ASSERT(r.k == 1, "too-few-arguments"); r = run("(m)"); FS_ASSERT(r.k == 1, "too-few-arguments"); }
    else if (w == 1) { run("(do (" + d + " m (a) (list 'rd 1 'a)))"); run("(do (" + d + " m (a) (list 'val 'a)))"); r = run("(m 4)"); if (kind) FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List && isO(items(r.v)[0], vY("val")), "redefined"); else FS_ASSERT(r.k == 0 && isInt(r.v, 4), "redefined"); FS_ASSERT(ireads.empty(), "redefined:effect"); }
    else if (w == 2) { run("(do (" + d + " m () (list '+ '(p 1) 0)))"); r = run("(m)"); if (kind) FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List && plog.empty(), "no-parameters"); else FS_ASSERT(r.k == 0 && isInt(r.v, cval[1]) && plog.size() == 1, "no-parameters"); }
    else if (w == 3) { run("(do (" + d + " m (a) 'a))"); r = run("(m (p 1))"); if (kind) FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List && plog.empty(), "unevaluated"); else FS_ASSERT(r.k == 0 && isInt(r.v, cval[1]) && plog.size() == 1, "evaluated-once"); }
    else if (w == 4) { run("(do (define-macro-eval m (a) (list (quoted-macro-args) 'a)))"); r = run("(m b (p 1) a)"); FS_ASSERT(r.k == 0 && plog.empty(), "quoted-args"); auto l = items(r.v); FS_ASSERT(l.size() == 2 && isO(l[1], vY("b")), "quoted-args:parameter"); Val e = vL(); e.l.push_back(vY("b")); Val c = vL(); c.l.push_back(vY("p")); c.l.push_back(vI(1)); e.l.push_back(c); e.l.push_back(vY("a")); FS_ASSERT(isO(l[0], e), "quoted-args:all"); }
    else if (w == 5) { r = run(S("(do (define-macro-eval m (a) (list 'val 'a)) (defn g (m) (val m)) (g 3))")); FS_ASSERT(r.k == 0 && isInt(r.v, 3), "macro-name-as-variable"); }
    else { r = run("(do (defn f (a) (do (" + d + " m (a) (list 'val 'a)) (val a))) (f 8))"); FS_ASSERT(r.k == 0 && isInt(r.v, 8), "definition-in-function"); } break; }
  }
}
