// C21: importing a module runs its text once in a scope of its own whose definitions are found behind the global ones.
#include "mini.h"
namespace CppLisp { extern string LispUtils_LibraryPath; }
static P imp(const S &f, P body) { return nd1(IMPORT, f, body); }
static void files(const S &n, P body) { fs_file_put(n + ".fuel", "; module " + n + "\n" + show(body) + "\n"); setv("p_" + n, oS(fs_path(n + ".fuel"))); }
static P bumped() { return Vr("v"); }
// what a module contains; the importer uses the names v (variable), get, set, h (variable of the importer), call
static P stmt(int w, const S &v, const S &get, const S &set) {
  switch (w) { case 0: return nd1(DEF, v, K()); case 1: return nd1(GDEF, v, K()); case 2: return Defn(get, none().empty() ? std::vector<S>() : ps(""), nd1(VALOF, "", Vr(v))); case 3: return Defn(set, ps("x"), nd1(SETF, v, Vr("x"))); case 4: return nd1(SETF, "h", K()); case 5: return Rd(40, Vr("h"));
    case 6: return nd1(DEF, "h", K()); case 7: { int t = T(1); return If(t, nd(FAIL), P()); } default: return Defn("call", ps("fn"), Do({nd1(DEF, "l", K()), Call("fn", one(Vr("h")))})); } }
static P use(int w) {
  switch (w) { case 0: return Rd(1, Vr("v")); case 1: return Rd(2, Call("get", none())); case 2: return Call("set", one(K())); case 3: return nd1(SETF, "v", K()); case 4: return nd1(DEF, "v", K()); case 5: return Rd(3, Call("call", one(Vr("mine")))); case 6: return Do({Defn("f", ps("v"), Do({Call("set", one(K())), Rd(4, Vr("v")), Rd(5, Call("get", none())), nd1(SETF, "v", K()), Rd(6, Vr("v"))})), Call("f", one(K()))});
    case 7: return Defn("get", std::vector<S>(), K()); case 8: return Do({Defn("f", ps("z"), Do({nd1(SETF, "v", K()), Rd(7, Vr("v"))})), Call("f", one(K()))}); default: return Rd(8, Vr("h")); } }
static int dataInt(LispException &e, const S &k) { auto o = e.Data[k]; return o ? (int)*o : -99; }
extern "C" void fs_main() {
  session(); mini(); fs_guard("crash"); LispUtils_LibraryPath = "nolib";
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
  {
  case 0: { // one module with one or two statements beside the accessors, used by one or two steps
    std::vector<P> m, top; int s1 = fs_choice("s1", 9), s2 = TIER ? fs_choice("s2", 9) : (s1 * 5 + 6) % 9; if (fs_choice("gh", 2)) top.push_back(nd1(DEF, "h", K())); if (fs_choice("gv", 2)) top.push_back(nd1(DEF, "v", K())); top.push_back(nd1(DEF, "mine", Lam(ps("q"), Do({Rd(30, Vr("q")), Rd(31, Vr("h")), Rd(32, Vr("l"))}))));
    m.push_back(stmt(s1, "v", "get", "set")); m.push_back(Defn("get", std::vector<S>(), nd1(VALOF, "", Vr("v")))); m.push_back(Defn("set", ps("x"), nd1(SETF, "v", Vr("x")))); m.push_back(stmt(s2, "v", "get", "set")); P body = Do(m);
    top.push_back(imp("m1", body)); int u1 = fs_choice("u1", 10), u2 = TIER ? fs_choice("u2", 10) : (u1 * 3 + s1) % 10; top.push_back(use(u1)); top.push_back(use(u2)); top.push_back(use(0)); if (u2 & 1) top.push_back(use(1)); P p = Do(top); files("m1", body); fs_reach("module"); both(p, "module"); break; }
  case 1: { // two modules, the second one uses the first; imports inside of functions, several times, several at once
    P a = Do({nd1(DEF, "v", K()), Defn("get", std::vector<S>(), nd1(VALOF, "", Vr("v"))), Defn("set", ps("x"), nd1(SETF, "v", Vr("x")))}), b; int w = fs_choice("second", 5);
    if (w == 0) b = Do({Rd(11, Call("get", none())), Call("set", one(K()))}); else if (w == 1) b = Do({imp("m1", a), Defn("get2", std::vector<S>(), Call("get", none()))}); else if (w == 2) b = Do({Defn("get2", std::vector<S>(), Do({nd1(SETF, "v", K()), Call("get", none())}))}); else if (w == 3) b = Do({nd1(DEF, "v2", K()), Defn("get2", ps("v"), Rd(12, Call("get", none())))}); else b = Do({nd1(GDEF, "v", K()), Rd(13, Vr("v")), Rd(14, Call("get", none()))});
    std::vector<P> top; int o = fs_choice("order", 4); if (o == 0) { top.push_back(imp("m1", a)); top.push_back(imp("m2", b)); } else if (o == 1) { top.push_back(imp("m2", b)); top.push_back(imp("m1", a)); } else if (o == 2) { top.push_back(imp("m1", a)); top.push_back(Call("set", one(K()))); top.push_back(nd1(DEF, "old", Lam({}, Call("get", none())))); top.push_back(imp("m1", a)); top.push_back(Rd(15, Call("old", none()))); top.push_back(imp("m2", b)); } else { top.push_back(Defn("f", ps("v"), Do({imp("m1", a), Rd(16, Vr("v")), Rd(17, Call("get", none())), imp("m2", b)}))); top.push_back(Call("f", one(K()))); }
    top.push_back(Rd(18, Call("get", none()))); top.push_back(Rd(19, Vr("v"))); if (w >= 1 && w <= 3) top.push_back(Rd(20, w == 3 ? Call("get2", one(K())) : Call("get2", none()))); top.push_back(Call("set", one(K()))); top.push_back(Rd(21, Vr("v"))); top.push_back(Rd(22, Call("get", none()))); P p = Do(top); files("m1", a); files("m2", b); fs_reach("modules"); both(p, "modules"); break; }
  case 2: { // where a module is looked for
    static const char *AT[] = {"x", "x.fuel", "lp/x.fuel", "Library/x.fuel", "lib/fuel/x.fuel", "fp/x.fuel"}; int mask = fs_choice("exists", 64), nm = fs_choice("name", 3); bool ex[6]; int c[6]; for (int i = 0; i < 6; i++) { ex[i] = (mask >> i) & 1; c[i] = (i * 7 + 3); if (ex[i]) fs_file_put(AT[i], "(do (p " + s_(c[i]) + ") (def found (p " + s_(c[i]) + ")))"); }
    int env = nm == 2 ? 0 : fs_choice("env", 2); if (env) fs_setenv("FUELPATH", fs_path("fp").c_str()); LispUtils_LibraryPath = string(fs_path("lp")); int base = (int)I8("base"); pval = [base](int id, int) -> Val { return vI(base + id); }; fs_reach("search");
    int e = -1; if (nm == 0) e = ex[0] ? 0 : ex[2] ? 2 : ex[3] ? 3 : ex[4] ? 4 : env && ex[5] ? 5 : -1; else e = ex[1] ? 1 : ex[2] ? 2 : ex[3] ? 3 : ex[4] ? 4 : env && ex[5] ? 5 : -1; if (nm == 2) e = ex[0] ? 0 : -1;
    R r = run(nm == 0 ? "(import x)" : nm == 1 ? "(import \"x.fuel\")" : "(do (def keep 1) (import \"./x\" \"y\"))"); S o = g->Output->GetContent(); if (nm == 2) { e = ex[0] ? 0 : ex[2] ? 2 : ex[3] ? 3 : ex[4] ? 4 : -1; }
    FS_ASSERT(r.k != 1 && r.k != 2, "search:no-error"); R f = run("(val found)"); bool y = nm == 2; if (e < 0) { FS_ASSERT(f.k == 0 && f.v->Type == LispType::_Symbol, "search:nothing-loaded"); FS_ASSERT(plog.empty(), "search:nothing-run"); FS_ASSERT(o.find("x") != S::npos && o.size() > 0, "search:warning"); }
    else { FS_ASSERT(f.k == 0 && isInt(f.v, base + c[e]), "search:found"); FS_ASSERT(plog.size() == 2 && plog[0] == c[e] && plog[1] == c[e], "search:run-once"); if (!y) FS_ASSERT(o.empty(), "search:no-warning"); }
    if (y) { FS_ASSERT(o.find("y") != S::npos, "search:second-missing"); R k = run("(val keep)"); FS_ASSERT(k.k == 0 && isInt(k.v, 1), "search:importer-kept"); } break; }
  case 3: { // a failing module: position and module of the error, effects before it stay, nothing else is changed
    int pre = fs_choice("lines", 4), w = fs_choice("fails", 7); static const char *BAD[] = {"(nosuch 3)", "(setf noname (p 1))", "(if (p 2) 1 2)", "(do\n (p 3)\n (nosuch))", "(def q (nosuch (p 1)))", "(list 1 (nosuch2))", "(do (p 1)"}; static const int LN[] = {0, 0, 0, 2, 0, 0, 1}; S t = "(do\n(gdef gl (p 5))\n(def ml (p 6))\n"; for (int i = 0; i < pre; i++) t += i & 1 ? "; comment (\n" : "\n"; int line = 4 + pre + LN[w]; t += BAD[w]; t += "\n)\n"; fs_file_put("bad.fuel", t); setv("pm", oS(fs_path("bad.fuel"))); bool inFn = fs_choice("where", 2); int a = I("a"), b = I("b"); pval = [a, b](int id, int) -> Val { return id == 5 ? vI(a) : id == 6 ? vI(b) : vI(id); };
    run("(do (def keep 5) (defn imp (n) (do (def loc n) (import pm) (p 9))))"); fs_reach("failing-module"); bool thrown = false; string src(inFn ? "(imp 3)" : "(do (p 8) (import pm) (p 9))"); S m = w == 2 ? "" : fs_path("bad.fuel"); try { Lisp::Eval(src, g, "main.fuel", false, g->Output, g->Input); } catch (LispException &e) { thrown = true; if (w != 2) { FS_ASSERT(e.Data["ModuleName"]->ToString() == m, "error:module"); if (w != 6) FS_ASSERT(dataInt(e, "LineNo") == line, "error:line"); } } catch (LispExceptionBase &e) { thrown = true; FS_ASSERT(w == 2, "error:has-position"); }
    FS_ASSERT(thrown, "error:reported"); R r = run("(list keep gl ml loc q)"); FS_ASSERT(r.k == 0, "after:session-usable"); auto l = items(r.v); FS_ASSERT(isInt(vOf(l[0]), 5), "after:keep"); if (w != 6) FS_ASSERT(isInt(vOf(l[1]), a), "after:effects"); for (int i = w == 6 ? 1 : 2; i < 5; i++) FS_ASSERT(vOf(l[i])->Type == LispType::_Symbol, "after:no-leak"); FS_ASSERT(pcount(9) == 0, "after:stopped");
    r = run("(do (def z 3) (nosuchagain z))"); FS_ASSERT(r.k == 1, "after:later-error"); try { Lisp::Eval("\n(nosuchagain 3)", g, "main.fuel", false, g->Output, g->Input); } catch (LispException &e) { FS_ASSERT(e.Data["ModuleName"]->ToString() == "main.fuel" && dataInt(e, "LineNo") == 2, "after:own-position"); } break; }
  default: { // errors in functions of a module called later; call of a function of the importer by the module
    int pre = fs_choice("lines", 3), w = fs_choice("which", 4), dep = fs_choice("depth", 3); S t = "(do\n"; for (int i = 0; i < pre; i++) t += "\n"; t += "(defn bad (x)\n (if (t 3)\n  (nosuch x)\n  (val x)))\n(defn cb (f x)\n (f x))\n(defn deep (n x) (if (> n 0) (deep (- n 1) x) (bad x)))\n)\n"; fs_file_put("lib.fuel", t); setv("pm", oS(fs_path("lib.fuel"))); tval[3][0] = I("t") > 0; int v = I("v"); setv("v", oI(v)); run("(import pm)"); fs_reach("later-errors"); static const char *P_[] = {"\n\n(bad v)", "(do (defn mine (x)\n (if (t 3)\n  (nosuch x)\n  (val x)))\n (cb mine v))", "(do\n (defn own (y) (bad y))\n\n (own v))", "\n(deep 0 v)"}; S s = P_[w]; if (w == 3) s = "\n(deep " + s_(dep) + " v)"; else if (dep) return; bool th = false; R q; try { q.v = Lisp::Eval(s, g, "main.fuel", false, g->Output, g->Input); } catch (LispException &e) { th = true; FS_ASSERT(e.Data["ModuleName"]->ToString() == (w == 1 ? S("main.fuel") : fs_path("lib.fuel")), "later:module"); FS_ASSERT(dataInt(e, "LineNo") == (w == 1 ? 3 : 4 + pre), "later:line"); } FS_ASSERT(th == tval[3][0], "later:error"); if (!th) FS_ASSERT(isInt(q.v, v), "later:value"); }
  }
}
