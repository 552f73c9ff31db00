// C17: the real debugger runs programs under command sequences; every stop, prompt answer and breakpoint list is compared with the reference debugger.
#include "dbg.h"
#ifndef TIER
#define TIER 0
#endif
struct DbgBox : LispDebugger {};
static std::shared_ptr<LispDebugger> dbg;
static const char *PROG[] = {
  "(defn h (n)\n  (p 1 n))\n(defn f (n)\n  (do (p 2 (h n))\n      (if (t 40)\n        (h (p 3 n))\n        (p 4))\n      (p 5)))\n(p 6)\n(f a0)\n(setf x (f a1))\n(p 7)\n",
  "(define-macro-eval mm (a b)\n  (do (p 8)\n      a b))\n(defn r (n)\n  (if (> n 0)\n    (do (p 9 n)\n        (r\n         (- n 1))\n        (p 10))\n    (p 11)))\n(mm (r 2)\n    (p 12))\n(map r '(0 1))\n(eval '(p\n 13))\n",
  "(def k (lambda (n)\n  (do\n    (p 14)\n    (+ n\n       (p 15 n)))))\n\n; a comment (with\n(while (< x 2)\n  (do (setf x (+ x 1)) (p 16)\n    (k\n      x)))\n(or (t 41) (t 42)\n  (== 1 (p 17)))\n"};
static int NLINES[] = {13, 15, 14};
// runs program p with the commands dcs on both and compares; yields the texts
static int gx, ga0, ga1;
static void start() {
  session(); dreset(); gx = I("x"); ga0 = I("a0"); ga1 = I("a1"); dt[40] = I("t40") > 0; dt[41] = I("t41") > 0; dt[42] = I("t42") > 0; plog.clear(); }
// "*" stands for any lines
static void cmpLines(const std::vector<S> &real, const S &id) {
  size_t i = 0, j = 0; for (; j < dout.size(); j++) {
    if (dout[j] == "*") { if (j + 1 < dout.size()) while (i < real.size() && real[i] != dout[j + 1]) i++; else i = real.size(); continue; }
    if (i >= real.size()) break; if (real[i] != dout[j]) note("real: " + real[i] + " expected: " + dout[j]); FS_ASSERT(real[i] == dout[j], (id + ":stops-and-answers").c_str()); i++; }
  if (j < dout.size()) note("missing: " + dout[j]); if (i < real.size()) note("more: " + real[i]); FS_ASSERT(j == dout.size() && i == real.size(), (id + ":number-of-stops-and-answers").c_str()); }
// one path for each value, so that values can be printed
static void fix(int &v, const S &n, int lo, int hi) { int k = lo + fs_choice(n.c_str(), hi - lo + 1); FS_ASSUME(v == k); v = k; }
static void compare(const S &prog, const S &id) {
  dnatives(); setv("x", oI(gx)); setv("a0", oI(ga0)); setv("a1", oI(ga1)); dglob.v["x"] = Dv(gx); dglob.v["a0"] = Dv(ga0); dglob.v["a1"] = Dv(ga1);
  S in; for (size_t i = 0; i < dcs.size(); i++) in += dcs[i].text + (dcs[i].op == 7 ? "\ny" : dcs[i].op == 8 ? "\nn" : "") + "\n"; note(prog); { S t = in; if (dpath.size()) for (size_t q; (q = t.find(dpath)) != S::npos;) t.replace(q, dpath.size(), "PATH"); note(t); }
  auto reader = std::make_shared<TextReader>(string(in)); reader->EnableFromString(); g->Input = reader; dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(g->Output, reader); g->Debugger = dbg.get();
  int end = 0, want = 0; S msg; try { Lisp::Eval(prog, g, CM, false, g->Output, reader); } catch (LispStopDebuggerException &) { end = 1; } catch (LispExceptionBase &e) { end = 2; msg = e.Message; } catch (std::exception &e) { end = 3; msg = e.what(); }
  g->Debugger = 0; std::vector<S> real = dlines(g->Output->GetContent());
  try { dev(block(prog), &dglob); } catch (Dstop &) { want = 1; } catch (Derr &) { want = 2; } catch (Dret &) {}
  cmpLines(real, id);
  if (end != want) note("end: " + msg); FS_ASSERT(end == want, (id + ":end").c_str()); fs_reach(id.c_str()); }
static const char *STEPS[] = {"s", "v", "o", "r", "step", "over", "out", "run"};
static void stepCmd(const S &n) { int c = fs_choice(n.c_str(), 4); dcs.push_back(dc(STEPS[c], c)); }
extern "C" void fs_main() {
  fs_guard("crash");
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 7))
#endif
  {
  case 0: { // stepping only: every sequence of step commands
    start(); int w = fs_choice("program", 3), n = TIER ? 6 : 4; int skip = fs_choice("after", TIER ? 6 : 2) * (TIER ? 3 : 7); if (w == 2) FS_ASSUME(gx > -1 && gx < 4); for (int i = 0; i < skip; i++) dcs.push_back(dc("s", 0)); for (int i = 0; i < n; i++) stepCmd("c" + s_(i)); compare(PROG[w], "steps"); break; }
  case 1: { // breakpoints at every line with conditions over arbitrary values, the program runs from stop to stop
    static const char *COND[] = {"", "(> n 0)", "(> x 1)", "(== n a0)", "(p 50)", "(and (> (h n) 0) (t 41))", "(nosuch 1)", "(> x", "x", "(do (def z 1) (t 40))", "(return (> a0 a1))"};
    start(); int w = fs_choice("program", 3), l = 1 + fs_choice("line", NLINES[w]), c = fs_choice("condition", 11), b2 = fs_choice("second", TIER ? 4 : 2); if (w == 2) FS_ASSUME(gx > -1 && gx < 4); if (c == 5 && w) FS_ASSUME(false);
    dcs.push_back(dcb(l, CM, false, COND[c], l & 7)); if (b2 == 1) dcs.push_back(dcb(1 + (l + 3) % NLINES[w], CM, true, "", l & 3)); if (b2 == 2) dcs.push_back(dcb(l, CM, true, COND[(c + 3) % 5], 2)); if (b2 == 3) dcs.push_back(dcb(1 + (l + 1) % NLINES[w], "other", true, ""));
    if (b2 == 3 || TIER) dcs.push_back(dc("t", 9)); for (int i = 0; i < 12; i++) dcs.push_back(dc("r", 3)); compare(PROG[w], "conditions"); break; }
  case 2: { // adding, replacing, removing and listing breakpoints
    start(); int n = TIER ? 5 : 3; for (int i = 0; i < n; i++) { static const int Q[] = {0, 1, 6, 7, 10, 11}; int c = TIER || i < 2 ? fs_choice(("c" + s_(i)).c_str(), 20) : Q[fs_choice("third", 6)];
      switch (c) { case 0: dcs.push_back(dcb(2, CM, false, "")); break; case 1: dcs.push_back(dcb(4, CM, false, "(> a0 a1)", 1)); break; case 2: dcs.push_back(dcb(2, CM, true, "(t 40)")); break; case 3: dcs.push_back(dcb(4, "o", true, "", 1)); break; case 4: dcs.push_back(dcb(2, "a b", true, "(t 41) ; x", 2)); break; case 5: dcs.push_back(dcb(9, CM, true, "", 2)); break;
        case 6: dcs.push_back(dc("clear 1", 6, 1)); break; case 7: dcs.push_back(dc("clear 2", 6, 2)); break; case 8: dcs.push_back(dc("clear 0", 6, 0)); break; case 9: dcs.push_back(dc("clear -1", 6, -1)); break; case 10: dcs.push_back(dc("clear 1x", 16)); break; case 11: dcs.push_back(dc("clear", 7)); break; case 12: dcs.push_back(dc("clear", 8)); break; case 13: dcs.push_back(dc("clear 3", 6, 3)); break;
        case 14: dcs.push_back(dc("b x", 5)); break; case 15: dcs.push_back(dc("break 4x (t 40)", 5)); break; case 16: dcs.push_back(dc("b \"m:4", 5)); break; case 17: dcs.push_back(dc("b 99999999999", 5)); break; case 18: dcs.push_back(dc("b m:", 5)); break; default: dcs.push_back(dc("list", 9)); } }
    dcs.push_back(dc("t", 9)); for (int i = 0; i < 6; i++) dcs.push_back(dc("run", 3)); compare(PROG[0], "breakpoint-list"); break; }
  case 3: { // evaluating texts and looking around while stopped changes neither the program nor where it stops
    static const char *EV[] = {"(+ x 1)", "(setf x 2)", "(h 1)", "(setf n 7)", "(nosuch 1)", "(h (p 60))", "(return 3)", "(+ 1", "(def zz 1)", "(if (t 40) 1)", "(f 1)", "(+ n x)"}; static const char *SIL[] = {"l", "g", "c", "doc (", "doc println", "searchdoc map", "modules", "macros", "help", "ver", "locals", "globals"};
    start(); fix(gx, "gx", TIER ? -1 : 0, TIER ? 2 : 1); fix(ga0, "ga0", 0, TIER ? 1 : 0); fix(ga1, "ga1", 1, TIER ? 2 : 1); int n = TIER ? 3 : 2, at = fs_choice("at", TIER ? 8 : 4); dcs.push_back(dcb(at & 1 ? 2 : 6, CM, false, "")); for (int i = 0; i <= at / 2; i++) dcs.push_back(dc("r", 3)); if (at & 2) dcs.push_back(dcb(1, CM, false, "(> x 0)"));
    for (int i = 0; i < n; i++) { static const int Q[] = {0, 3, 6, 8, 11, 12, 13, 14, 15}; int c = TIER ? fs_choice(("c" + s_(i)).c_str(), 27) : i ? Q[fs_choice("second", 9)] : fs_choice("first", 27); if (c < 12) dcs.push_back(dc(EV[c], 12)); else if (c == 12) dcs.push_back(dc("u", 10)); else if (c == 13) dcs.push_back(dc("d", 11)); else if (c == 14) dcs.push_back(dc("k", 13)); else { dcs.push_back(dc(SIL[(c - 15) % 12], 15)); dcs.push_back(dc("(+ 4711 0)", 12)); } }
    if (TIER) stepCmd("last"); else { int c = (dcs.back().op + at) & 3; dcs.push_back(dc(STEPS[c], c)); } dcs.push_back(dc("k", 13)); dcs.push_back(dc("v", 1)); dcs.push_back(dc("(+ x 0)", 12)); for (int i = 0; i < 4; i++) dcs.push_back(dc("r", 3)); compare(PROG[0], "looking-around"); break; }
  case 4: { // modules and evaluated text: a breakpoint belongs to one module
    static const S MOD = "(defn mf (n)\n  (do (p 20 n)\n    (p 21)))\n(p 22)\n(mf 1)\n"; start(); S file = fs_path("mod.fuel"); fs_file_put("mod.fuel", MOD); dpath = file; dfiles[file] = MOD; setv("pm", oS(file));
    static const S P = "(defn h (n)\n  (p 1 n))\n(import pm)\n(mf (h\n  2))\n(evalstr \"(p 23)\")\n(p 24)\n"; int l = 1 + fs_choice("line", 8), m = fs_choice("module", 5), cmds = fs_choice("steps", TIER ? 64 : 16);
    if (m == 0) dcs.push_back(dcb(l, CM, false, "")); else dcs.push_back(dcb(l, m == 1 ? file : m == 2 ? CM : m == 3 ? S("other") : S(""), true, m == 2 ? "(> a0 a1)" : "", m == 1 && (l & 1) ? 2 : 0)); dcs.push_back(dc("r", 3)); dcs.push_back(dc("k", 13)); for (int i = 0; i < (TIER ? 3 : 2); i++) { dcs.push_back(dc(STEPS[cmds & 3], cmds & 3)); cmds >>= 2; } dcs.push_back(dc("c", 15)); dcs.push_back(dc("(+ 4711 0)", 12)); for (int i = 0; i < 6; i++) dcs.push_back(dc("r", 3)); compare(P, "modules"); break; }
  case 5: { // errors stop in every active function, code without positions, leaving the debugger
    static const char *P[] = {"(defn h (n)\n  (do (p 1 n)\n    (nosuch 1)))\n(defn f (n)\n  (do (h n) (p 2)))\n(f 1)\n(p 3)\n", "(defn f (n)\n  (if (> n 0)\n    (fail) (p 4)))\n(map f '(0 1 2))\n", "(p 1)\n(fail)\n", "(defn h (n)\n (do (return (p 3 n)) (p 4)))\n(p 5 (h 2))\n(return (p 6))\n"};
    start(); int w = fs_choice("program", 4), n = TIER ? 5 : 3; for (int i = 0; i < n; i++) { int c = fs_choice(("c" + s_(i)).c_str(), 7); if (c < 4) dcs.push_back(dc(STEPS[c], c)); else dcs.push_back(c == 4 ? dc("q", 14) : c == 5 ? dc("k", 13) : dc("(fail)", 12)); } if (fs_choice("rest", 2)) for (int i = 0; i < 8; i++) dcs.push_back(dc("r", 3)); compare(P[w], "errors"); break; }
  case 6: { // the loop of the debugger: the program is started again with a new session and the same breakpoints until it is left
    static const char *P[] = {"(defn h (n)\n  (println n))\n(h 1)\n(h 2)\n", "(def y 1)\n(defn h (n)\n  (nosuch n))\n(println 3)\n(h 1)\n(println 4)\n", "(println 1)\n(+ 1 2)\n"};
    session(); dreset(); int w = fs_choice("program", 3), n = TIER ? 5 : 3; for (int i = 0; i < n; i++) { int c = fs_choice(("c" + s_(i)).c_str(), 7); if (c < 4) dcs.push_back(dc(STEPS[c], c)); else dcs.push_back(c == 4 ? dc("q", 14) : c == 5 ? dcb(2, CM, false, "") : dc("restart", 17)); } if (fs_choice("rest", 2)) for (int i = 0; i < 3; i++) dcs.push_back(dc("r", 3));
    S in; for (size_t i = 0; i < dcs.size(); i++) in += dcs[i].text + "\n"; note(P[w]); note(in); auto reader = std::make_shared<TextReader>(string(in)); reader->EnableFromString(); auto writer = std::make_shared<TextWriter>(true); dbg = std::make_shared<LispDebugger>(); dbg->SetInputOutputStreams(writer, reader);
    std::shared_ptr<LispVariant> res = dbg->DebuggerLoop(P[w], CM); Dv last; bool have = false, again = true; int rounds = 0;
    while (again && ++rounds < 12) { dfns.clear(); dmacs.clear(); dglob.v.clear(); dglob.line = 1; again = true; try { last = dev(block(P[w]), &dglob); have = true; dmode = 1; } catch (Dstop &) { again = false; } catch (Derr &) { dline("*"); again = dprompt(&dglob, true); }
      if (again) { dline("restart program"); if (!have) again = dprompt(&dglob, true); } }
    cmpLines(dlines(writer->GetContent()), "debugger-loop"); FS_ASSERT((res != 0) == have, "debugger-loop:result"); if (have) FS_ASSERT(last.k != 1 || isInt(res, last.i), "debugger-loop:result"); fs_reach("debugger-loop"); break; }
  default: break;
  }
}
