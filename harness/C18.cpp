// C18: every program is run plainly and then traced or under the debugger with commands that only inspect and continue; values, errors,
// positions, the effects, the program's output and the behaviour of the session afterwards must be those of the plain run.
#include "mini.h"
#include "Debugger.h"
#ifndef TIER
#define TIER 0
#endif
struct Res { int k; V v; S msg, data; };
static std::shared_ptr<LispDebugger> dbg; static std::shared_ptr<TextWriter> dout; static int sv[12];
static Res ev(const S &c, bool tracing) {
  Res r; r.k = 0;
  try { r.v = Lisp::Eval(c, g, "mod", tracing, g->Output, g->Input); if (!r.v) r.k = 3; }
  catch (LispStopDebuggerException &e) { r.k = 4; }
  catch (LispException &e) { r.k = 1; r.msg = e.Message; static const char *DT[] = {"LineNo", "StartPos", "StopPos", "ModuleName"}; for (int i = 0; i < 4; i++) { auto d = e.Data[string(DT[i])]; r.data += (d ? S(d->ToString()) : S("-")) + "|"; } }
  catch (LispExceptionBase &e) { r.k = 1; r.msg = e.Message; } catch (std::exception &e) { r.k = 2; r.msg = e.what(); }
  return r; }
static const char *PROG[] = {
  "(do (def y (h (p 1)))\n (setf x (h y))\n (println x \"a\" y)\n (rd 1 (list x y)))",
  "(do (defn f (n) (do (if (t 40)\n (return (h n)))\n (println \"f\")\n (+ n 1)))\n (rd 1 (f (p 2)))\n (f 3))",
  "(do (defn r (n) (if (> n 0)\n (+ (p 3) (r (- n 1)))\n 0))\n (rd 1 (r 3)) (print \"x\") (println))",
  "(do (define-macro-eval m1 (a b) (do (rd 1 a)\n (if (t 40) b (setf x b))))\n (m1 (h 1)\n (p 4)) (rd 2 x))",
  "(do (define-macro-expand m2 (a b) (list 'list 'a (list 'h 'b)))\n (rd 1 (m2 1 (p 5)))\n (m2 (p 6) 2))",
  "(do (def k (let1 x))\n (rd 1 (k (p 1)))\n (k 2)\n (val x))",
  "(do (def l (list 1 2 3))\n (setf (nth 1 l) (h (p 1)))\n (setf (first l) 9)\n (rd 1 l)\n (push 4 l) (rd 2 (pop l)) (rd 3 l))",
  "(do (def d (make-dict))\n (dict-set d (h 1) (p 1))\n (setf (dict-get d 1) (h 2))\n (rd 1 (dict-get d 1)) (list (len d) (dict-get d (h 1))))",
  "(do (def i 0)\n (while (and (t 41) (< i 3))\n (do (setf i (+ i 1))\n (rd 1 i) (if (t 40) (println i))))\n (val i))",
  "(do (rd 1 (map (lambda (q) (h q)) '(1 2)))\n (rd 2 (reduce (lambda (a b) (do (p 1) (+ a b))) '(1 2 3) 0))\n (apply h (list (p 2))))",
  "(do (rd 1 (eval '(h (p 1))))\n (rd 2 (evalstr \"(do (setf x (h x)) (list x (p 2)))\"))\n (eval (list (sym \"+\") 'x 1)))",
  "(do (defn g1 (a) (do (setf x (arg 0))\n (rd 1 (args)) (rd 2 (argscount)) (nested a)))\n (defn nested (b) (do (def y 5) (return (list b y)) (p 9)))\n (g1 (p 1) 2))",
  "(do (def q `(1 ,(h (p 1)) ,@(list 2 x)))\n (rd 1 q) (rd 2 '(a (b c)))\n (eval (list 'list 1 (list 'h 2))))",
  "(do (println (h 1))\n (h (list 1\n (fail)))\n (p 9))",
  "(do (defn e1 (n) (do (println n)\n (nosuch n)))\n (defn e2 (n) (do (p 1) (e1 (h n))\n (p 2)))\n (setf x 1)\n (e2 5))",
  "(do (defn e3 (n) (nth n '(1 2)))\n (rd 1 (e3 1))\n (map e3 '(0 7)))",
  "(do (evalstr \"(do (p 1) (h (first 5)))\"))", "(do (def c (do (def n 0) (lambda () (do (setf n (+ n 1)) (val n)))))\n (c) (rd 1 (c))\n (gdef gg (c)) (list gg n))",
  "(do (or (t 40) (h 5))\n (p 3))", "(do (setf nosuch (h 1)))", "(do (rd 1 (or (t 40) (t 41) (== (h 1) 1)))\n (rd 2 (and (t 40) (p 1)))\n (not (t 41)))", "(do (rd 1 (str (list 1 \"a\" (h 2))))\n (rd 2 (format \"{0,4}|{1}\" (h 3) x))\n (println (typestr (h 1)) (int \"12\")))",
  "(do (eval (list 'defn 'nf '(z) (list (sym \"+\") 'z (list (sym \"h\") 1))))\n (rd 1 (nf (p 1)))\n (nf 2))",
  "(do (import pm)\n (rd 1 (mf (p 1)))\n (setf mv (h 3)) (rd 2 (mf 1)))", "(do (import pm)\n (me 1))", "(do (return (h (p 1)))\n (p 2))", "(do (def tr (trace (p 1)))\n (rd 1 (h 1)) (rd 2 (gettrace)) (val x))", "(do (defn w (a) (do (evalstr \"(setf a (+ a 1))\") (evalstr \"(return 7)\") (rd 1 a) (val a)))\n (rd 2 (w (p 1))))",
  "(do (def s \"abc\")\n (setf s (+ s (str (h 1))))\n (rd 1 (search \"b\" s)) (rd 2 (slice s 1 2)) (need-l-value))",
  "(do (defn lv (l) (nth 0 l))\n (def l (list 5 6)) (setf (rval (lv l)) (h 7)) (rd 1 l) (lv l))" };
#define CNT(x) (int)(sizeof(x) / sizeof(x[0]))
static const char *POST[] = {"(list x (h 2))", "\n(h (first 5))", "(do (rd 8 x) (evalstr \"(h 1)\") (need-l-value))"};
static S MOD = "(def mv 4)\n(defn mf (n) (do\n (println n) (+ n mv)))\n(defn me (n)\n (mf (nosuch n)))\n";
static S clean(const S &o, bool marks) { S r; for (size_t i = 0; i < o.size();) { if (marks && o.compare(i, 4, "--> ") == 0) { while (i < o.size() && o[i] != '\n') i++; i++; continue; } r += o[i++]; } return r; }
struct Snap { Res f; std::vector<Res> post; std::vector<int> log; std::vector<std::pair<int, MV> > reads; S out; };
static void start() {
  session(); mini(); for (int i = 0; i < 8; i++) cval[i] = sv[i & 3]; for (int i = 40; i < 43; i++) for (int j = 0; j < 4; j++) tval[i][j] = sv[4 + i - 40 + (j > 0)] > 0; S file = fs_path("mod.fuel"); fs_file_put("mod.fuel", MOD); setv("pm", oS(file));
  Res r = ev("(do (def x 10) (defn h (a) (do (setf z2 a)\n (if (== a 99) (return 98)) (val a))) (gdef z2 0) (defn let1 (v) (lambda (q) (do (setf v (+ v q)) (rd 6 v) (val v)))))", false); FS_ASSERT(r.k != 1 && r.k != 2, "start"); g->Output = std::make_shared<TextWriter>(true); }
// how: 0 plain, 1 traced, otherwise with a debugger
static Snap go(const S &c, int how, const S &cmds) {
  start(); if (how >= 2) { auto rd = std::make_shared<TextReader>(string(cmds)); rd->EnableFromString(); dout = std::make_shared<TextWriter>(true); dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(dout, rd); g->Debugger = dbg.get(); }
  Snap s; s.f = ev(c, how == 1 || how == 3); g->Tracing = false; g->Debugger = 0; s.out = g->Output->GetContent(); g->Output = std::make_shared<TextWriter>(true); s.log = plog; for (int i = 0; i < CNT(POST); i++) s.post.push_back(ev(POST[i], false)); s.out += "\n=\n" + S(g->Output->GetContent()); s.reads = ireads; if (s.f.k == 1) { S t = s.f.msg + s.f.data, f = fs_path("mod.fuel"); size_t q = t.find(f); note(q == S::npos ? t : t.substr(0, q)); }; return s; }
static void cmp1(const Res &p, const Res &q, const S &id) { if (p.k != q.k) note(p.msg + " / " + q.msg); FS_ASSERT(p.k == q.k, (id + ":outcome").c_str()); if (q.k == 0) FS_ASSERT(same(p.v, q.v), (id + ":value").c_str()); if (q.k == 1) { if (p.msg != q.msg || p.data != q.data) note(p.msg + p.data + " / " + q.msg + q.data); FS_ASSERT(p.msg == q.msg, (id + ":message").c_str()); FS_ASSERT(p.data == q.data, (id + ":position").c_str()); } }
static void cmp(const Snap &a, const Snap &b, bool marks, bool text) {
  FS_ASSERT(a.log.size() == b.log.size(), "number-of-evaluations"); for (size_t i = 0; i < b.log.size(); i++) FS_ASSERT(a.log[i] == b.log[i], "order-of-evaluations"); FS_ASSERT(a.reads.size() == b.reads.size(), "number-of-reads"); for (size_t i = 0; i < b.reads.size(); i++) FS_ASSERT(meq(a.reads[i].second, b.reads[i].second), "value-read");
  cmp1(a.f, b.f, "run"); for (size_t i = 0; i < b.post.size(); i++) cmp1(a.post[i], b.post[i], "later:" + s_((int)i)); if (text) { S x = clean(a.out, marks), y = clean(b.out, marks); if (x != y) note("output: " + x + " / " + y); FS_ASSERT(x == y, "output"); } }
static S times(const S &s, int n) { S r; for (int i = 0; i < n; i++) r += s; return r; }
extern "C" void fs_main() {
  session(); fs_guard("crash"); for (int i = 0; i < 8; i++) sv[i] = I("s" + s_(i)); 
  int w = fs_choice("program", CNT(PROG)), how = fs_choice("how", TIER ? 26 : 14); S c = PROG[w]; bool err = false, marks = false, text = true; note(c);
  // programs that print or compute texts from the values get fixed ones
  int in = how - 8 + (TIER ? 0 : (w % 3) * 6); bool fixed = w == 0 || w == 1 || w == 7 || w == 10 || w == 13 || w == 14 || w == 21 || w == 23 || w == 26 || w == 28 || (how >= 8 && (in == 3 || in == 4));
  for (int i = 0; i < 4; i++) if (fixed) { FS_ASSUME(sv[i] == i + 1); sv[i] = i + 1; }
  Snap b = go(c, 0, ""); err = b.f.k == 1; S cmds; int mode = 2;
  static const char *IN[] = {"(+ 1 2)", "k", "d\n(type x)", "l", "g", "d\nd\n(h 1)\nu", "c", "(h (nosuch 1))", "doc car", "(evalstr \"(h 2)\")", "(do (return 4))", "(if false 1)", "t", "modules", "b 2 (== x 10)\nclear 1", "(map h '(1 2))", "(setf (nth 0 (list 1)) 2)", "searchdoc zz"};
  switch (how) {
  case 0: mode = 1; marks = true; break;                                                           // traced
  case 1: cmds = times("s\n", 150); break; case 2: cmds = times("v\n", 150); break; case 3: cmds = times("o\n", 60); break; case 4: cmds = times("r\n", 40); break;
  case 5: cmds = "b 1 (> x 10)\nb 2 (== (h 1) 2)\nb 3 (nosuch 1)\nb 4 (p 55\n" + times("r\n", 80); break;      // conditions without effects on the program
  case 6: cmds = "b 2\nb 3\n" + times("r\n", 80); break; case 7: mode = 3; marks = true; cmds = times("s\n", 150); break;
  default: { int i = in; cmds = times(S(IN[i]) + "\ns\n", 120); text = !(i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 13 || i == 8 || i == 17); break; } }
  fs_reach("runs"); note(cmds.substr(0, 60)); if (mode >= 2 && err) { text = false; }
  Snap a = go(c, mode, cmds); cmp(a, b, marks, text);
}
