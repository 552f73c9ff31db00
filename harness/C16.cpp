// C16: a session with a program that fails at an arbitrary step against a session in which that program ends before the failing step.
#include "mini.h"
static int sv[10];
struct Res { int k; V v; S msg, data; };
static Res ev(const S &c) {
  Res r; r.k = 0;
  try { r.v = Lisp::Eval(c, g, "mod", false, g->Output, g->Input); if (!r.v) r.k = 3; }
  catch (LispException &e) { r.k = 1; r.msg = e.Message; static const char *D[] = {"LineNo", "StartPos", "StopPos", "ModuleName", "StackInfo"}; for (int i = 0; i < 5; i++) { auto d = e.Data[string(D[i])]; r.data += (d ? S(d->ToString()) : S("-")) + "|"; } }
  catch (LispExceptionBase &e) { r.k = 1; r.msg = e.Message; } catch (std::exception &e) { r.k = 2; r.msg = e.what(); }
  return r; }
static std::string nocon(std::string s) { return s; }
static const char *FAILS[] = {"(fail)", "(/ 1 0)", "(nofunc 1)", "(first 5)", "(setf nosuch 1)", "(len)", "(m1 1)", "(nth 9 '(1))", "(h 1 (fail))", "(str (list (fail)))", "(m1 (fail) 2)", "(eval '(fail))", "(map (lambda (z) (fail)) '(1))", "(if 5 1 2)", "(lambda)", "(return (fail))"};
struct Cx { const char *a, *b; };
static const Cx CX[] = {{"(do %)", "(do %)"}, {"(do (defn f (a) (do %)) (f 1))", 0}, {"(def v (do %))", "(do %)"}, {"(setf x (do %))", "(do %)"}, {"(gdef v (do %))", "(do %)"}, {"(map (lambda (q) (do %)) '(1 2))", "(map (lambda (q) (do %)) '(1))"}, {"(while true (do %))", "(do %)"}, {"(if (do %) 1 2)", "(do %)"},
  {"(list (p 4) (do %) (p 5))", "(do (p 4) %)"}, {"(eval '(do %))", 0}, {"(evalstr \"(do %)\")", 0}, {"(apply (lambda (q) (do %)) (list 1))", 0}, {"(setf (val (do %)) 3)", "(do %)"}, {"(m1 (do %) 2)", "(do %)"}, {"(and true (do %))", "(do %)"}, {"(return (do %))", "(do %)"},
  {"(do (defn f (n) (if (> n 0) (list (f (- n 1))) (do %))) (f 2))", 0}, {"(do (defn f (a) (do (def k (lambda (b) (do %))) (k a))) (f 1))", 0}, {"(reduce (lambda (a b) (do %)) '(1 2) 0)", "(reduce (lambda (a b) (do %)) '(1) 0)"}, {"(dict-set d (do %) 1)", "(do %)"}, {"(defn (do %) (a) 1)", "(do %)"}, {"(do (define-macro-eval m2 (a) (do %)) (m2 1))", 0},
  {"(quasiquote (1 ,(do %)))", "(do %)"}, {"(do (defn f (a) (evalstr \"(do %)\")) (f 1))", 0}, {"(trace (do %))", "(do %)"}, {"(do (def x2 7) (defn f (a) (do (while (< a 9) (do %)))) (f x2))", "(do (def x2 7) (defn f (a) (do (if (< a 9) (do %)))) (f x2))"}};
static const char *STEP[3][3] = {{"(setf x (p 1))", "(rd 1 x)", "(h (p 1))"}, {"(rd 2 x)", "(gdef z (p 2))", "(dict-set d 1 (p 2))"}, {"(def y (p 3))", "(setf z (+ x z))", "(defn nf (a) (+ a z))"}};
static const char *POST[] = {"(list x y z v)", "(do (rd 7 x) (h (p 6)))", "(do (return (p 1)) (rd 9 9))", "(evalstr \"(+ x 1)\")", "\n\n(do (h 1)\n (nth 7 (list 1)))", "(h (first 5))", "(need-l-value)", "(do (defn w (q) (argscount)) (w 1 2))", "(argscount)", "(m1 (p 1) x)", "(nf 3)", "(do (defn w (q) (do (setf q 3) (+ q 0))) (list (w 1) q))", "(len d)", "(do (def c (lambda () (setf x 5))) (c) (rd 8 x))", "(do (evalstr \"(first 5)\"))", "(do (while (< x 3) (setf x (+ x 1))) (val x))", "(gettrace)", "(do (define-macro-expand me (a) (list '+ 1 'a)) (me 4))", "(pre x)"};
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
static void start() { session(); mini(); cval[1] = sv[0]; cval[2] = sv[1]; cval[3] = sv[2]; cval[6] = sv[3]; tval[41][0] = sv[4]; tval[42][0] = sv[5]; tval[43][0] = true; Res r = ev("(do (define-macro-eval m1 (a b) (list b a (rd 3 b))) (define-macro-expand pre (a) (list 'list 'a 1)) (def x 10) (def z 20) (def d (make-dict)) (defn h (a) (do (setf z a) (if (> a 0) (return a)) (- 0 a))))"); FS_ASSERT(r.k == 0 || r.k == 3, "setup"); plog.clear(); ireads.clear(); }
struct Snap { Res f; std::vector<Res> post; std::vector<int> log; std::vector<std::pair<int, MV> > reads; };
static Snap go(const S &c, int from, int n) { start(); note(c); Snap s; s.f = ev(c); if (s.f.k == 1) note(s.f.msg); for (int i = 0; i < n; i++) { s.post.push_back(ev(POST[(from + i * 5) % CNT(POST)])); } s.log = plog; s.reads = ireads; return s; }
static S put(const S &c, const S &x) { size_t q = c.find('%'); return c.substr(0, q) + x + c.substr(q + 1); }
static void cmp(const Snap &a, const Snap &b, int from) {
  FS_ASSERT(a.log.size() == b.log.size(), "number-of-evaluations"); for (size_t i = 0; i < b.log.size(); i++) FS_ASSERT(a.log[i] == b.log[i], "order-of-evaluations"); FS_ASSERT(a.reads.size() == b.reads.size(), "number-of-reads"); for (size_t i = 0; i < b.reads.size(); i++) FS_ASSERT(meq(a.reads[i].second, b.reads[i].second), "value-read");
  for (size_t i = 0; i < b.post.size(); i++) { S id = S("later:") + s_((from + (int)i * 5) % CNT(POST)); const Res &p = a.post[i], &q = b.post[i]; FS_ASSERT(p.k != 2, "later:foreign-exception"); FS_ASSERT(p.k == q.k, (id + ":outcome").c_str()); if (q.k == 0) FS_ASSERT(same(p.v, q.v), (id + ":value").c_str()); if (q.k == 1) { FS_ASSERT(p.msg == q.msg, (id + ":message").c_str()); if (p.data != q.data) { note(p.data); note(q.data); } FS_ASSERT(p.data == q.data, (id + ":position").c_str()); } } }
extern "C" void fs_main() {
  session(); fs_guard("crash"); for (int i = 0; i < 8; i++) sv[i] = I("s" + s_(i)); FS_ASSUME(sv[0] > -4 && sv[0] < 4 && sv[1] > -4 && sv[1] < 4 && sv[2] > -4 && sv[2] < 4 && sv[3] > -4 && sv[3] < 4); sv[4] = sv[4] > 0; sv[5] = sv[5] > 0; const int NP = TIER ? CNT(POST) : 7;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 3))
#endif
  {
  case 0: { // every context, the failing step is the first of three whose condition holds
    int cx = fs_choice("context", CNT(CX)), fk = TIER ? fs_choice("fail", CNT(FAILS)) : (cx * 7 + fs_choice("fail", 3) * 5) % CNT(FAILS), st = fs_choice("steps", TIER ? 3 : 2), from = TIER ? 0 : (cx + fk) % CNT(POST); bool es = S(CX[cx].a).find("evalstr") != S::npos; fs_reach("failures"); S f = FAILS[fk]; (void)es;
    S A, B; int at = sv[4] ? 0 : sv[5] ? 1 : 2; for (int i = 0; i < 3; i++) { S step = STEP[i][(st + i * st) % 3]; S id = s_(41 + i); A += step + " (if (t " + id + ") " + f + ") "; if (i < at) B += step + " (if (t " + id + ") " + f + ") "; if (i == at) B += step + " (t " + id + ")"; }
    Snap a = go(put(CX[cx].a, A), from, NP), b = go(put(CX[cx].b ? CX[cx].b : CX[cx].a, B), from, NP); FS_ASSERT(a.f.k == 1, "failed"); FS_ASSERT(b.f.k == 0 || b.f.k == 3, "reference-succeeds"); cmp(a, b, from); break; }
  case 1: { // programs that fail before anything runs: syntax errors, macro expansion
    static const char *BAD[] = {"(do (setf x 1)", "(do (setf x 1)))", "(do (setf x 1) '", ")(", "\"abc", "(do (setf x 1) \"\\q\")", "(do (setf x 1) (pre))", "(do (setf x 1) (bad 3))", "(do (defn q2 (a) (pre)) (setf x 1))", "(do (setf x 1) (list 1 (bad 2)))"}; int bi = fs_choice("bad", CNT(BAD)), from = fs_choice("from", TIER ? 1 : 3) * 2; fs_reach("not-run");
    S def = "(define-macro-expand bad (a) (first a))"; start(); ev(def); note(BAD[bi]); Res f = ev(BAD[bi]); FS_ASSERT(f.k == 1, "failed"); Snap a, b; for (int i = 0; i < NP; i++) a.post.push_back(ev(POST[(from + i * 5) % CNT(POST)])); a.log = plog; a.reads = ireads; start(); ev(def); for (int i = 0; i < NP; i++) b.post.push_back(ev(POST[(from + i * 5) % CNT(POST)])); b.log = plog; b.reads = ireads; cmp(a, b, from); break; }
  default: { // many failures in a row
    int n = TIER ? 4 : 3; S A, B; int from = 1; start(); std::vector<int> w; fs_reach("repeated"); for (int i = 0; i < n; i++) w.push_back(fs_choice(("w" + s_(i)).c_str(), 4)); static const char *E[] = {"(do (defn f (a) (do (setf x a) (fail))) (f (+ x 1)))", "(setf (val (fail)) 3)", "(evalstr \"(do (setf z x) (nofunc 1))\")", "(map (lambda (q) (if (> q 1) (first 5) (setf x q))) '(0 1 2))"}, *OK[] = {"(do (defn f (a) (do (setf x a))) (f (+ x 1)))", "(val 1)", "(evalstr \"(do (setf z x))\")", "(map (lambda (q) (setf x q)) '(0 1))"};
    for (int i = 0; i < n; i++) { Res r = ev(E[w[i]]); FS_ASSERT(r.k == 1, "failed"); } Snap a, b; for (int i = 0; i < NP; i++) a.post.push_back(ev(POST[(from + i * 5) % CNT(POST)])); a.log = plog; a.reads = ireads; start(); for (int i = 0; i < n; i++) ev(OK[w[i]]); for (int i = 0; i < NP; i++) b.post.push_back(ev(POST[(from + i * 5) % CNT(POST)])); b.log = plog; b.reads = ireads; cmp(a, b, from); break; }
  }
}
