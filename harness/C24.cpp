// C24: programs over shared lists against a model of names and list references; pure functions change nothing; programs evaluate the same again.
#include "mini.h"
struct ML; typedef std::shared_ptr<ML> LR;
struct MX { int k; int i; LR l; MX() : k(0), i(0) {} };        // 0 int, 1 list
struct ML { std::vector<MX> v; };
static MX xi(int i) { MX m; m.i = i; return m; }
static MX xl() { MX m; m.k = 1; m.l = std::make_shared<ML>(); return m; }
static MX xl(const MX &a) { MX m = xl(); m.l->v.push_back(a); return m; }
static MX xl(const MX &a, const MX &b) { MX m = xl(a); m.l->v.push_back(b); return m; }
static bool eqx(const MX &m, V v) { if (m.k == 0) return isInt(v, m.i); if (v->Type != LispType::_List) return false; auto a = items(v); if (a.size() != m.l->v.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eqx(m.l->v[i], std::make_shared<LispVariant>(a[i]))) return false; return true; }
static MX A, B, C1, D1, CL; static int sv[12]; static bool ok;
static bool L(const MX &m, size_t n = 1) { if (m.k != 1 || m.l->v.size() < n) { ok = false; return false; } return true; }
static MX copy(const MX &m, size_t from = 0) { MX r = xl(); r.l->v.assign(m.l->v.begin() + from, m.l->v.end()); return r; }
static void push(MX &m, const MX &e) { if (L(m)) m.l->v.insert(m.l->v.begin(), e); }
struct Op2 { const char *txt; void (*f)(); };
static const Op2 OPS[] = {
  {"(def c a)", [] { C1 = A; }}, {"(def c b)", [] { C1 = B; }}, {"(setf a c)", [] { A = C1; }}, {"(setf b a)", [] { B = A; }}, {"(setf c (p 5))", [] { C1 = xi(sv[5]); }},
  {"(def c (nth 0 b))", [] { if (L(B)) C1 = B.l->v[0]; }}, {"(def c (list a c))", [] { C1 = xl(A, C1); }}, {"(def c (append a b))", [] { if (L(A, 0) && L(B, 0)) { C1 = copy(A); C1.l->v.insert(C1.l->v.end(), B.l->v.begin(), B.l->v.end()); } }}, {"(setf b (reverse b))", [] { if (L(B)) { MX r = xl(); r.l->v.assign(B.l->v.rbegin(), B.l->v.rend()); B = r; } }},
  {"(def c (rest b))", [] { if (L(B)) C1 = copy(B, 1); }}, {"(def c (map (lambda (x) x) b))", [] { if (L(B)) C1 = copy(B); }}, {"(def c (cons c a))", [] { if (L(A)) { MX r = copy(A); r.l->v.insert(r.l->v.begin(), C1); C1 = r; } }},
  {"(push (p 6) a)", [] { push(A, xi(sv[6])); }}, {"(push c a)", [] { if (C1.k == 1) ok = false; push(A, C1); }}, {"(push (p 7) c)", [] { push(C1, xi(sv[7])); }}, {"(pop a)", [] { if (L(A, 2)) A.l->v.erase(A.l->v.begin()); }}, {"(setf (nth 0 a) (p 8))", [] { if (L(A)) A.l->v[0] = xi(sv[8]); }}, {"(setf (nth 1 b) c)", [] { if (C1.k == 1) ok = false; if (L(B, 2)) B.l->v[1] = C1; }},
  {"(push (p 9) (nth 0 b))", [] { if (L(B)) push(B.l->v[0], xi(sv[9])); }}, {"(dict-set d 1 a)", [] { D1 = A; }}, {"(def c (dict-get d 1))", [] { C1 = D1; }}, {"(push (p 9) (dict-get d 1))", [] { push(D1, xi(sv[9])); }},
  {"(def c (ident a))", [] { C1 = A; }}, {"(addto a (p 6))", [] { push(A, xi(sv[6])); }}, {"(setin a)", [] {}}, {"(setin c)", [] {}}, {"(mk a)", [] { CL = A; }}, {"(cl)", [] { push(CL, xi(sv[7])); }}, {"(def c (cval))", [] { C1 = CL; }}, {"(def c (nth 1 b))", [] { if (L(B, 2)) C1 = B.l->v[1]; }}, {"(def c '(1 (2)))", [] { C1 = xl(xi(1), xl(xi(2))); }}, {"(def c (lit))", [] { C1 = xl(xl(xi(3)), xi(4)); }},
  {"(mpush a)", [] { push(A, xi(sv[9])); }}, {"(mset c (p 8))", [] { C1 = xi(sv[8]); }}, {"(setf a (quasiquote ((p) ,a ,c)))", 0}, {"(foreach2 b)", [] { if (L(B)) for (size_t i = 0; i < B.l->v.size(); i++) if (B.l->v[i].k == 1) push(B.l->v[i], xi(sv[6])); }}, {"(do (def x a) (def y x) (setf x 1) (push (p 7) y))", [] { push(A, xi(sv[7])); }}, {"(apply addto (list a (p 6)))", [] { push(A, xi(sv[6])); }}, {"(evalstr \"(push (p 9) a)\")", [] { push(A, xi(sv[9])); }}, {"(eval '(push (p 9) a))", [] { push(A, xi(sv[9])); }}, {"(gdef c (first b))", [] { if (L(B)) C1 = B.l->v[0]; }}, {"(def c (last b))", [] { if (L(B)) C1 = B.l->v.back(); }}, {"(def c (car (cdr b)))", [] { if (L(B, 2)) C1 = B.l->v[1]; }}, {"(setf c (reduce (lambda (x y) x) (list a b) 0))", [] { C1 = B; }}, {"(def c (args1 a b))", [] { C1 = xl(A, B); }}};
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
static const char *SETUP = "(do (defn ident (x) (return x)) (defn addto (x e) (push e x)) (defn setin (x) (do (setf x 9) (def a 8) (def c 7) (+ x 0))) (defn mk (x) (do (gdefn cl () (push (p 7) x)) (gdefn cval () (ident x)) (+ 0 1))) (defn lit () '((3) 4)) (define-macro-eval mpush (l) (push (p 9) l)) (define-macro-expand mset (n v) (list 'setf 'n 'v))"
  " (defn foreach2 (l) (map (lambda (x) (if (== (typestr x) \"List\") (push (p 6) x))) l)) (defn args1 (q r) (args)) (def d (make-dict)) (def a (list (p 1) (p 2))) (def b (list a (p 3))) (def c (p 4)) (dict-set d 1 b) (mk b))";
static void start() { session(); mini(); for (int i = 0; i < 10; i++) cval[i] = sv[i]; R r = run(SETUP); FS_ASSERT(r.k == 0 || r.k == 3, "setup"); }
static void check() { FS_ASSERT(eqx(A, gv("a")), "a"); FS_ASSERT(eqx(B, gv("b")), "b"); FS_ASSERT(eqx(C1, gv("c")), "c"); R r = run("(dict-get d 1)"); FS_ASSERT(r.k == 0 && eqx(D1, r.v), "d"); r = run("(cval)"); FS_ASSERT(r.k == 0 && eqx(CL, r.v), "captured"); }
// calls that modify nothing: the arguments are names of the session
static const char *PURE[] = {"(list a b)", "(append a b)", "(append b (list i))", "(reverse a)", "(rest a)", "(cdr b)", "(cons i a)", "(map (lambda (x) x) b)", "(len a)", "(+ i j)", "(- i)", "(* i j)", "(== a b)", "(== i j)", "(< i j)", "(string s i)", "(str b)", "(format \"{0} {1}\" a i)", "(slice s 0 1)", "(replace s \"b\" \"q\")", "(upper-case s)", "(lower-case s)", "(trim s)", "(search \"b\" s)", "(reverse s)", "(search i a)", "(type a)", "(typestr b)", "(int i)", "(float i)", "(int s)", "(parse-integer s)", "(not t1)", "(and t1 t1)", "(or t1 t1)", "(if t1 i j)", "(dict-keys d)", "(dict-contains-key d i)", "(dict-contains-value d i)", "(apply + (list i j))", "(reduce + (list i j) 0)", "(quasiquote (x ,a ,@b))", "(quasiquote (x (y z)))", "'(x (y z))", "(eval '(list i a))", "(evalstr \"(list i a)\")", "(lambda (x) x)", "(nop)", "(doc 'print)", "(cons a b)", "(list)", "(make-dict)", "(len s)", "(first s)", "(last s)", "(rest s)", "(nth 0 s)", "(| i j)", "(& i j)", "(^ i j)", "(~ i)", "(< s s)", "(print)", "(string s i)", "(+ s i)", "(copyl a)", "(flat b)", "(inf)",
  // the result may be the argument itself
  "!(ident a)", "!(first b)", "!(nth 0 b)", "!(last b)", "!(car b)", "!(dict-get d 1)", "!(if t1 a b)", "!(apply ident (list a))", "!(return a)", "!(rval a)", "!(append b)"};
// expressions evaluated again and again from one program
static const char *AGAIN[] = {"(do (def q '(1 (2) 3)) (push i (nth 1 q)) (push j q) (append q))", "(do (def q (quasiquote (1 (2) ,i))) (push i (nth 1 q)) (push j q) (append q))", "(do (def q 5) (setf q (+ q i)) (list q))", "(do (def q \"abc\") (setf q (+ q \"d\")) (list q))", "(do (defn w (x) (do (setf x (+ x 1)) (list x))) (w i))", "(do (define-macro-eval w (x) (list x j)) (w i))", "(pm i (pm j 2))", "(list (pe i) (pe (+ i j)))", "(do (def q (list 1 2)) (pop q) (append q))", "(map (lambda (x) (+ x i)) '(1 2))", "(do (def k 0) (while (< k 2) (setf k (+ k 1))) (list k))", "(do (def q '((1))) (setf (nth 0 q) i) (append q))", "(do (def q '((1 2))) (setf (nth 0 (rval (nth 0 q))) i) (append q))", "(apply (lambda (x y) (list y x)) '(1 2))", "(eval '(list i '(1 2)))", "(do (def q (eval ''(1 2))) (push 3 q) (append q))", "(do (def q (list '(1) '(1))) (push i (nth 0 q)) (append q))", "(do (def ff (lambda () '(1))) (push i (ff)) (push j (ff)) (ff))", "(do (def q (reverse '(1 (2)))) (push i (nth 0 q)) (append q))", "(do (def q (append '((1)) '(2))) (push i (nth 0 q)) (append q))", "(do (def q (rest '(0 (1)))) (push i (nth 0 q)) (append q))", "(do (def q (first '((1)))) (push i q) (append q))", "(do (def d2 (make-dict)) (dict-set d2 1 i) (dict-keys d2))", "(do (def q (reduce (lambda (x y) x) '((1 2) (3)) 0)) (push i q) (append q))", "(mq)", "(do (def q (mq)) (push i (nth 1 q)) (push i q) (append q))", "(do (def q (map (lambda (x) x) '((1) (2)))) (push i (nth 0 q)) (append q))", "(evalstr \"(do (def q '(1 2)) (push i q) (append q))\")", "(quasiquote (a ,@(list i j) (b ,i)))", "(do (def q (quasiquote (a ,@'(1 2)))) (push i q) (append q))", "(do (def q (list 1 i)) (setf (nth 0 q) 2) (append q))", "(do (def f1 +) (list (f1 i j)))", "(do (def f1 (if t1 + -)) (def t1 (not t1)) (list (f1 i j)))", "(do (def q (first '((1 (2))))) (push i (nth 1 q)) (append q))", "(do (def q '(1 2)) (eval (list 'push 'i 'q)) (append q))", "(nest i)"};
static const char *DEFS = "(do (defn ident (x) (return x)) (defn copyl (x) (do (def r (append x)) (push 1 r) (append r))) (defn flat (l) (reduce (lambda (x y) (append y (list x))) l '())) (defn inf () (do (def a 1) (def i 7) (list i a)))(define-macro-eval pm (x y) (list x y)) (define-macro-expand pe (x) (list '* 2 'x)) (define-macro-eval mq () '(1 (2) 3)) (defn nest (n) (do (def acc '(0)) (defn inner (m) (push m acc)) (inner n) (inner 1) (append acc))) (def i (p 1)) (def j (p 2)) (def s \"ab\") (def t1 true) (def a (list (p 3) i)) (def b (list a (p 4))) (def d (make-dict)) (dict-set d 1 a))";
static const char *NM[] = {"a", "b", "i", "j", "s", "t1"};
static void start2() { session(); mini(); for (int i = 0; i < 10; i++) cval[i] = sv[i]; R r = run(DEFS); FS_ASSERT(r.k == 0 || r.k == 3, "setup"); }
static void unchanged(const S &id) { MX a = xl(xi(sv[3]), xi(sv[1])); FS_ASSERT(eqx(a, gv("a")), (id + ":a").c_str()); FS_ASSERT(eqx(xl(a, xi(sv[4])), gv("b")), (id + ":b").c_str()); FS_ASSERT(isInt(gv("i"), sv[1]) && isInt(gv("j"), sv[2]), (id + ":numbers").c_str()); FS_ASSERT(isStr(gv("s"), "ab"), (id + ":s").c_str()); FS_ASSERT(isBool(gv("t1"), true), (id + ":t1").c_str()); R r = run("(dict-get d 1)"); FS_ASSERT(r.k == 0 && eqx(a, r.v), (id + ":d").c_str()); FS_ASSERT((run("(len (dict-keys d))").v)->IntValue() == 1, (id + ":keys").c_str()); }
extern "C" void fs_main() {
  session(); fs_guard("crash"); for (int i = 0; i < 10; i++) sv[i] = I("s" + s_(i));
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 3))
#endif
  {
  case 0: { // histories of operations
    int n = TIER ? 3 : 2, o[3]; for (int i = 0; i < n; i++) o[i] = fs_choice(("op" + s_(i)).c_str(), CNT(OPS)); for (int i = 0; i < n; i++) if (!OPS[o[i]].f) return; ok = true; A = xl(xi(sv[1]), xi(sv[2])); B = xl(A, xi(sv[3])); C1 = xi(sv[4]); D1 = B; CL = B; fs_reach("histories");
    S t; for (int i = 0; i < n; i++) { OPS[o[i]].f(); if (!ok) return; t += S(OPS[o[i]].txt) + " "; } start(); note(t);
    int how = (o[0] + o[1]) % 3; if (TIER == 0 || how == 0) { for (int i = 0; i < n; i++) { R r = run(OPS[o[i]].txt); if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0 || r.k == 3, "no-error"); } } else { R r = run(how == 1 ? "(do " + t + ")" : "(evalstr \"\")"); if (how == 2) r = run("(eval '(do " + t + "))"); if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0 || r.k == 3, "no-error"); }
    check(); break; }
  case 1: { // functions that modify nothing
    int w = fs_choice("call", CNT(PURE)); S c = PURE[w]; bool alias = c[0] == '!'; if (alias) c = c.substr(1); note(c); FS_ASSUME(sv[1] >= 0 && sv[1] < 10 && sv[2] >= 0 && sv[2] < 10 && sv[3] >= 0 && sv[3] < 10 && sv[4] >= 0 && sv[4] < 10); start2(); fs_reach("pure"); R r = run("(def r " + c + ")"); if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0 || r.k == 3 || c.find("(int s)") != S::npos, "no-error"); unchanged(S(alias ? "after-selection" : "after-call")); if (r.k) return;
    R q = run("(def r2 " + c + ")"); FS_ASSERT(q.k == 0 && same(r.v, q.v), "same-result-again"); unchanged("after-second-call"); V rv = gv("r"); if (rv && rv->Type == LispType::_List && !alias) { bool e = items(rv).empty(); R m = run(e ? "(nop)" : "(push 77 r)"); FS_ASSERT(m.k == 0 || m.k == 3, "modify"); m = run(e ? "(nop)" : "(setf (nth 0 r) 78)"); FS_ASSERT(m.k == 0 || m.k == 3, "modify"); unchanged("after-modification-of-result"); V r2 = gv("r2"); FS_ASSERT(r2 && same(r2, q.v), "second-result-kept"); if (!e) FS_ASSERT(items(r2).size() + 1 == items(gv("r")).size(), "second-result-own"); }
    run("(setf r 5)"); unchanged("after-binding"); break; }
  default: { // the same program again
    int w = fs_choice("expr", CNT(AGAIN)), how = fs_choice("how", 5); S e = AGAIN[w]; note(e); start2(); R f = run(e); if (f.k == 1) note(f.msg); FS_ASSERT(f.k == 0, "no-error"); V want = std::make_shared<LispVariant>(*f.v); R cp = run("(def want " + e + ")"); fs_reach("again");
    static const char *H[] = {"(do (defn fx () #) (gdef r1 (fx)) (gdef r2 (fx)) (gdef r3 (fx)))", "(do (gdef k9 0) (gdef rs (list 0)) (while (< k9 3) (do (push # rs) (setf k9 (+ k9 1)))) (gdef r1 (nth 0 rs)) (gdef r2 (nth 1 rs)) (gdef r3 (nth 2 rs)))", "(do (def ex '#) (gdef r1 (eval ex)) (gdef r2 (eval ex)) (gdef r3 (eval ex)))", "(do (def rs (map (lambda (z9) #) '(1 2 3))) (gdef r1 (nth 0 rs)) (gdef r2 (nth 1 rs)) (gdef r3 (nth 2 rs)))", "(do (defn fx (n9) (if (> n9 0) (do (gdef r1 #) (gdef r2 (fx (- n9 1))) (gdef r3 r1)) #)) (fx 1))"};
    S h = H[how]; for (;;) { size_t p = h.find('#'); if (p == S::npos) break; h = h.substr(0, p) + e + h.substr(p + 1); } start2(); R r = run(h); if (r.k == 1) note(r.msg); FS_ASSERT(r.k == 0 || r.k == 3, "no-error-again"); if (e.find("(not t1)") != S::npos) return; FS_ASSERT(same(gv("r1"), want), "first"); FS_ASSERT(same(gv("r2"), want), "second"); FS_ASSERT(same(gv("r3"), want), "third"); unchanged("program-again"); break; }
  }
}
