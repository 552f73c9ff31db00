// C19: Fuel::MainExtended is called with every combination and order of the documented options, scripts and files; its output must be what the
// usage text promises, described independently of the option parsing of the program.
#include "vals.h"
#include "fuel.h"
#include "Debugger.h"
namespace CppLisp { extern string LispUtils_LibraryPath; }
#ifndef TIER
#define TIER 0
#endif
#ifndef ONLY
#define ONLY -1
#endif
typedef std::vector<S> A;
static S outText; static int died;
static void mainx(const A &a, const S &in = "") {
  std::vector<string> v; for (size_t i = 0; i < a.size(); i++) v.push_back(string(a[i])); auto o = std::make_shared<TextWriter>(true); auto r = std::make_shared<TextReader>(); r->SetContent(in); r->EnableFromString(true); died = 0; LispUtils_LibraryPath = "nolib";
  try { Fuel::MainExtended(v, o, r); } catch (...) { died = 1; } outText = o->GetContent(); FS_ASSERT(!died, "no-exception-leaves-main"); }
static bool has(const S &t, const S &w) { return t.find(w) != S::npos; }
// pattern: pieces separated by '\001' may have any text between them; the first and the last piece are anchored
static bool glob(const S &t, const S &p) {
  std::vector<S> q(1); for (size_t i = 0; i < p.size(); i++) if (p[i] == '\001') q.push_back(""); else q.back() += p[i];
  if (q.size() == 1) return t == q[0]; if (t.compare(0, q[0].size(), q[0]) != 0) return false; size_t pos = q[0].size();
  for (size_t i = 1; i + 1 < q.size(); i++) { size_t f = t.find(q[i], pos); if (f == S::npos) return false; pos = f + q[i].size(); }
  const S &l = q.back(); return t.size() >= pos + l.size() && t.compare(t.size() - l.size(), l.size(), l) == 0; }
#define ANY "\001"
// ------------------------------------------------------------------ scripts with their effects
struct Sc { S text, out, res, mac, exp; S tr; bool err; S msg; };      // output, result, output while only expanding, expanded text, output with trace lines
static S dg(int n) { return s_(n); }
static int lib = 0;      // 1: a library path with the module lm is given
static Sc sc(int n, int d) {
  Sc s; s.err = false;
  switch (n) {
  case 0: s.text = "(println \"a\") (+ " + dg(d) + " 5)"; s.out = "a\n"; s.res = dg(d + 5); s.exp = "(do (println \"a\") (+ " + dg(d) + " 5))"; s.tr = "--> do\n--> println\na\n--> +\n"; break;
  case 1: s.text = "(println \"b\")\n(nosuch " + dg(d) + ")\n(println \"c\")"; s.out = "b\n"; s.err = true; s.msg = "Function \"nosuch\" not found --> line=2 start=" ANY; s.exp = "(do (println \"b\") (nosuch " + dg(d) + ") (println \"c\"))"; s.tr = "--> do\n--> println\nb\n" ; break;
  case 2: s.text = "(define-macro-expand m (a) (list '+ a 1)) (println (m " + dg(d) + "))"; s.out = dg(d + 1) + "\n"; s.res = dg(d + 1); s.exp = ANY "(println (+ " + dg(d) + " 1))" ANY; s.tr = ANY "--> println\n" + s.out; s.res = ANY; s.tr = ANY; break;
  case 3: s.text = "(import lm)\n(lf " + dg(d) + ")"; s.exp = "(do (import lm) (lf " + dg(d) + "))"; s.tr = ANY;
    if (lib) { s.out = ""; s.res = dg(d + 70); } else { s.err = true; s.out = "WARNING: Library lm not found!" ANY "\n"; s.msg = ANY "lf" ANY " --> line=2 start=" ANY; } break;
  case 4: s.text = "(println \"d\") (if #f 1)"; s.out = "d\n"; s.res = ANY; s.exp = "(do (println \"d\") (if #f 1))"; s.tr = "--> do\n--> println\nd\n--> if\n"; break;
  case 5: s.text = "(do (println \"e\") (list 1 \"x\""; s.err = true; s.out = ""; s.msg = ANY "out of balance" ANY " --> line=" ANY; s.tr = ""; break;
  default: s.text = "(println \"f\" (list 1 \"x\"))\n(str " + dg(d) + ")"; s.out = "f (1 \"x\")\n"; s.res = dg(d); s.exp = "(do (println \"f\" (list 1 \"x\")) (str " + dg(d) + "))"; s.tr = "--> do\n--> println\n--> list\nf (1 \"x\")\n--> str\n"; s.tr = ANY; break; }
  return s; }
enum { M = 1, T = 2, X = 4, ME = 8 };
static S errBlock(const Sc &s, const S &mod, int f) { return "\nError executing script.\n\n" + s.msg + " stop=" ANY " module=" + mod + "\n" "\nCallstack:\n" ANY + ((f & X) ? S("Exception in" ANY) : S()) + "\n"; }
// the expected text of one script; sets the result text
static S one(const Sc &s, const S &mod, int f, S &res) {
  if (s.err && (!(f & ME) || s.exp.empty())) { res = "Error" ANY; return ((f & T) ? s.tr : s.out) + errBlock(s, mod, f); }
  if (f & ME) { res = s.exp; return (f & T) ? S(ANY) : S(); }
  res = s.res; return (f & T) ? s.tr : s.out; }
static S tail(const S &res, int f, bool tr) { S p; if (f & ME) p += "Macro expand: " + res + "\n"; if (tr) p += "Result=" + res + "\n"; if (f & M) p += S("Execution time = ") + ANY + " s\n"; return p; }
static void check(const S &p, int f, const S &id) { if (!glob(outText, p)) note("pattern: " + p + " output: " + outText); FS_ASSERT(glob(outText, p), id.c_str()); if (!(f & X)) FS_ASSERT(!has(outText, "Exception in"), (id + ":exhaustive").c_str()); if (!(f & M)) FS_ASSERT(!has(outText, "Execution time"), (id + ":time").c_str()); }
static A flags(int f) { A a; if (f & M) a.push_back("-m"); if (f & T) a.push_back("-t"); if (f & X) a.push_back("-x"); if (f & ME) a.push_back("--macro-expand"); return a; }
// the options around the payload: all in front, all behind, alternating, in reverse order behind the first argument
static A mix(const A &o, const A &p, int how) {
  A r; switch (how) { case 0: r = o; r.insert(r.end(), p.begin(), p.end()); break; case 1: r = p; r.insert(r.end(), o.begin(), o.end()); break;
  case 2: for (size_t i = 0; i < o.size() || i < p.size(); i++) { if (i < p.size()) r.push_back(p[i]); if (i < o.size()) r.push_back(o[i]); } break;
  default: r.push_back(p[0]); for (size_t i = o.size(); i-- > 0;) r.push_back(o[i]); r.insert(r.end(), p.begin() + 1, p.end()); } return r; }
static void noteA(const A &a) { S t; for (size_t i = 0; i < a.size(); i++) { size_t q = a[i].find(fs_path("")); t += (q == S::npos ? a[i] : S("file")) + " | "; } note(t); }
static const char *FN[] = {"f0.fuel", "f1.fuel", "f2.fuel", "f3.fuel", "f4.fuel", "f5.fuel", "f6.fuel", "-x"};
extern "C" void fs_main() {
  session(); fs_guard("crash"); int part = ONLY >= 0 ? ONLY : fs_choice("part", 7); S LP = fs_path("lib"); fs_file_put("lib/lm.fuel", "(defn lf (n) (+ n 70))\n");
  if (part == 0) {          // one script given by -e, with every set and order of options
    int n = fs_choice("script", 7), f = fs_choice("flags", 16), how = fs_choice("order", 4), l = n == 3 ? fs_choice("lib", 3) : 0, d = 3;
    lib = l > 0; Sc s = sc(n, d); A o = flags(f); if (l == 1) o.push_back("-l=" + LP); if (l == 2) o.insert(o.begin(), "-l=" + LP); A p; p.push_back("-e"); p.push_back(s.text); A a = mix(o, p, how); noteA(a); fs_reach("script by -e");
    mainx(a); S res, t = one(s, "cmdline", f, res); check(t + tail(res, f, (f & T) != 0), f, "-e"); }
  if (part == 1) {          // files: one, two, missing ones, errors in the middle
    int n = fs_choice("first", 8), m = fs_choice("second", TIER ? 9 : 5), f = fs_choice("flags", 16), how = TIER ? fs_choice("order", 4) : (n + f + m) & 3, l = (n == 3 || m == 3) ? fs_choice("lib", 2) : 0, d = 4; lib = l > 0;
    A p; S want, res = ANY; for (int i = 0; i < 2; i++) { int w = i ? (TIER ? m : (m == 0 ? 8 : m == 1 ? 0 : m == 2 ? 1 : m == 3 ? 7 : 3)) : n; if (i == 1 && m == 3 && !TIER) w = 7; if (w == 8) continue;
      if (w == 7) { S fn = fs_path("missing" + s_(i) + ".fuel"); p.push_back(fn); want += ANY "Error" ANY + fn + ANY "\n"; res = ANY; continue; }
      Sc s = sc(w, d); if (w == 3 && !lib) ; S fn = fs_path((i ? "g" : "f") + s_(w) + ".fuel"); fs_file_put((i ? "g" : "f") + s_(w) + ".fuel", s.text); p.push_back(fn); want += one(s, fn, f, res); }
    A o = flags(f); if (l) o.insert(o.begin() + ((n + f) % (o.size() + 1)), "-l=" + LP); A a = mix(o, p, how); noteA(a); fs_reach("script files"); mainx(a); check(want + tail(res, f, (f & T) != 0), f, "files"); }
  if (part == 2) {          // version, help, nothing, errors of the option list: nothing is run
    static const char *O[] = {"-m", "-t", "-x", "--macro-expand", "-e", "-l=a", "-v", "-h", "--doc", "-q", "--docs", "-l=b", "-", "(println \"ran\")", "-ex", "-i"}; int len = fs_choice("length", TIER ? 5 : 4); A a; for (int i = 0; i < len; i++) a.push_back(O[fs_choice(("o" + s_(i)).c_str(), 16)]);
    int cnt[16] = {0}; bool v = false, h = false, e = false, unk = false; int l = 0, txt = 0; for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < 16; j++) if (a[i] == O[j]) cnt[j]++;
    v = cnt[6] > 0; h = cnt[7] > 0; e = cnt[4] > 0; l = cnt[5] + cnt[11]; txt = cnt[13]; unk = cnt[9] || cnt[10] || cnt[12] || cnt[14];
    bool empty = a.empty(), bad = (e && !txt) || l > 1 || unk; FS_ASSUME(empty || v || h || bad); noteA(a); fs_reach("not a run"); mainx(a, "(println \"ran\")\n");
    FS_ASSERT(!has(outText, "ran\n") && !has(outText, "--> do") && !has(outText, "Result="), "nothing-is-run"); static const char *U[] = {"usage:", "-v ", "-h ", "-e ", "-l=", "--doc ", "--html ", "--macro-expand ", "-m ", "-t ", "-x ", "-i ", "-d "};
    bool ver = has(outText, S(Lisp::ProgramName) + " " + S(Lisp::Version) + " from " + S(Lisp::Date)) && !has(outText, "usage:"), us = true; for (int i = 0; i < 13; i++) if (!has(outText, U[i])) us = false;
    if (empty || (h && !v)) FS_ASSERT(us, "usage-shown"); else if (v && !h) FS_ASSERT(ver, "version-shown"); else if (v) FS_ASSERT(ver || us, "version-or-usage");
    else { FS_ASSERT(outText.compare(0, 5, "Error") == 0 && std::count(outText.begin(), outText.end(), '\n') == 1, "error-message"); if (unk && l <= 1 && !(e && !txt)) { static const int W[] = {9, 10, 12, 14}; for (int i = 0; i < 4; i++) if (cnt[W[i]]) FS_ASSERT(has(outText, O[W[i]]), "names-the-unknown-option"); } } }
  if (part == 3) {          // arbitrary option texts around a script: what each of them means is decided on its characters
    static const char *KN[] = {"-m", "-v", "-h", "-x", "-t", "-e", "-i", "-d"}; int cnt = 1 + fs_choice("options", TIER ? 3 : 2), lens = fs_choice("lengths", 3), pos = fs_choice("position", TIER ? 3 : 2); A a; a.push_back("-e"); a.push_back("(println \"ran\") (nosuch 1)"); int seen[10] = {0}, unk = 0, lp = 0; std::vector<S> us;
    for (int j = 0; j < cnt; j++) { int n = 1 + (lens == 1 && j == 0) + (lens == 2 && j + 1 == cnt) * 2; S o = "-", c = symStr("c" + s_(j), n); for (int i = 0; i < n; i++) FS_ASSUME(c[i] > ' ' && c[i] < 127); o += c; int k = -1; for (int i = 0; i < 8; i++) if (o == KN[i]) k = i; if (n >= 2 && o[1] == 'l' && o[2] == '=') k = 9;
      FS_ASSUME(k != 5 && k != 6 && k != 7); if (k == 9) lp++; else if (k >= 0) { seen[k]++; FS_ASSUME(seen[k] < 2); } else { unk++; us.push_back(o); } a.insert(a.begin() + (pos == 2 ? (j & 1) : pos * (int)a.size()), o); }
    fs_reach("arbitrary options"); mainx(a); bool info = seen[1] || seen[2], bad = unk || lp > 1, ran = has(outText, "ran\n");
    FS_ASSERT(ran == (!info && !bad), "run-or-not"); if (!info && bad) { FS_ASSERT(outText.compare(0, 5, "Error") == 0, "unknown-option"); if (lp < 2) for (size_t i = 0; i < us.size(); i++) FS_ASSERT(has(outText, us[i]), "names-the-unknown-option"); }
    if (ran) { FS_ASSERT(has(outText, "Exception in") == (seen[3] == 1), "exhaustive"); FS_ASSERT(has(outText, "--> println") == (seen[4] == 1) && has(outText, "Result=Error") == (seen[4] == 1), "trace"); FS_ASSERT(has(outText, "Execution time") == (seen[0] == 1), "time"); } }
  if (part == 4) {          // arbitrary script text: the same as evaluating it
    int n = TIER ? 3 : 2; S c = symStr("c", n); for (int i = 0; i < n; i++) FS_ASSUME(c[i] >= ' ' && c[i] <= 'z' && c[i] != '-' && c[i] != '\\' && c[i] != '/' && c[i] != '%'); static const char *B[] = {"(println (+ 1 ", "(list 7 ", "(str \"a\" "}; S t = S(B[fs_choice("around", 3)]) + c + ")"; A a; a.push_back("-t"); a.push_back("-e"); a.push_back(t); fs_reach("arbitrary script");
    int fl = fs_choice("where", 2); if (fl) { fs_file_put("s.fuel", t); a.clear(); a.push_back(fs_path("s.fuel")); a.push_back("-t"); } mainx(a); auto o = std::make_shared<TextWriter>(true); S w; Val dummy;
    try { auto r = Lisp::Eval(string(t), nullptr, fl ? string(fs_path("s.fuel")) : string("cmdline"), true, o, std::make_shared<TextReader>()); w = S(o->GetContent()) + "Result=" + (r ? S(r->ToString()) : S("<undefined>")) + "\n"; FS_ASSERT(outText == w, "script-runs"); }
    catch (LispExceptionBase &e) { w = S(o->GetContent()) + "\nError executing script.\n\n" + S(e.Message); FS_ASSERT(outText.compare(0, w.size(), w) == 0 && has(outText, "Result=Error"), "script-error"); } }
  if (part == 5) {          // documentation
    static const char *DO[] = {"--doc", "--html"}; int w = fs_choice("doc", 2), f = fs_choice("flags", 8), pos = fs_choice("position", 2); FS_ASSUME((f & T) == 0 || TIER == 0); A o = flags(f & ~T); o.insert(pos ? o.end() : o.begin(), DO[w]); noteA(o); fs_reach("documentation"); mainx(o);
    static const char *FNS[] = {"car", "println", "defn", "while", "evalstr", "dict-get", "nth"}; for (int i = 0; i < 7; i++) FS_ASSERT(has(outText, FNS[i]), "documentation-complete"); FS_ASSERT(has(outText, "Result="), "documentation-shown"); if (w) FS_ASSERT(has(outText, "<html>") || has(outText, "<!doctype") || has(outText, "<!DOCTYPE"), "html"); if (f & M) FS_ASSERT(has(outText, "Execution time"), "documentation:time"); }
  if (part == 6) {          // debugger and shell: the same as calling them directly
    int dbgopt = fs_choice("shell", 2), e = fs_choice("script", 3), f = fs_choice("flags", 16) , pos = fs_choice("position", 3); static const char *IN[] = {"s\ns\nr\nexit\n", "b 2\nr\nk\nl\nr\n", "(println 5)\nv\nfuncs zz\n"}; S in = IN[fs_choice("input", 3)]; FS_ASSUME(!(f & ME)); 
    Sc s = sc(6, 3); S fn = fs_path("f6.fuel"); fs_file_put("f6.fuel", s.text); A o = flags(f); A p; p.push_back(dbgopt ? "-d" : "-i"); if (e == 1) { p.push_back("-e"); p.push_back(s.text); } if (e == 2) p.push_back(fn); FS_ASSUME(!(dbgopt && e == 0) && !(e && !dbgopt)); A a = mix(o, p, pos); noteA(a); fs_reach("debugger"); mainx(a, in);
    auto w = std::make_shared<TextWriter>(true); auto r = std::make_shared<TextReader>(); r->SetContent(in); r->EnableFromString(true); LispDebugger d; d.SetInputOutputStreams(w, r); V res = std::make_shared<LispVariant>();
    if (dbgopt) res = d.DebuggerLoop(string(s.text), string(e == 1 ? S("command-line") : fn), (f & T) != 0); else static_cast<ILispDebugger &>(d).InteractiveLoop(nullptr, nullptr, true, (f & T) != 0, w, r);
    S want = S(ANY) + "Type \"help\" for informations.\n\n" + S(w->GetContent()) + tail(res ? S(res->ToString()) : S(ANY), f, (f & T) != 0); check(want, f, "debugger"); }
}
