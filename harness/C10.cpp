// C10: programs over nested functions which define, change and read one name at every level, against a lexically scoped reference interpreter.
#include "mini.h"
// what a level does to the name x: nothing, def, gdef, setf, or one of two decided at run time
static P act(const S &n, const S &x, int more = 5) {
  switch (fs_choice(n.c_str(), more)) { case 0: return P(); case 1: return nd1(DEF, x, K()); case 2: return nd1(GDEF, x, K()); case 3: return nd1(SETF, x, K());
    default: { int id = T(1); return If(id, nd1(DEF, x, K()), nd1(SETF, x, K())); } } }
extern "C" void fs_main() {
  session(); mini(); fs_guard("crash");
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 6))
#endif
  {
  case 0: { // global, function, function inside of the function
    std::vector<P> top; if (fs_choice("g", 2)) top.push_back(nd1(DEF, "x", K())); S op = fs_choice("op", 2) ? "x" : "a", ip = fs_choice("ip", 2) ? "x" : "b"; int mode = fs_choice("mode", 3);
    P inner = Lam(ps(ip), Do({act("i", "x", TIER ? 5 : 4), Rd(1, Vr("x")), Rd(2, Vr(ip))}));
    std::vector<P> b; b.push_back(act("o1", "x")); b.push_back(Rd(3, Vr("x"))); b.push_back(nd1(DEF, "in", inner)); if (mode == 0) { b.push_back(Call("in", one(K()))); } if (TIER || mode == 1) b.push_back(act("o2", "x", TIER ? 4 : 2)); b.push_back(Rd(4, Vr("x"))); b.push_back(nd1(VALOF, "", Vr("in")));
    top.push_back(Defn("f", ps(op), Do(b))); top.push_back(nd1(DEF, "r", Call("f", one(K())))); top.push_back(Rd(5, Vr("x"))); if (mode == 1) { top.push_back(Call("r", one(K()))); top.push_back(Rd(6, Vr("x"))); }
    if (mode == 2) { top.push_back(Defn("h", ps("x"), Do({Call("r", one(K())), Rd(7, Vr("x")), Call("r", one(K())), Rd(8, Vr("x"))}))); top.push_back(Call("h", one(K()))); }
    top.push_back(Rd(9, Vr("x"))); fs_reach("nested"); both(Do(top), "nested"); break; }
  case 1: { // two closures over the same bindings, two instances of them
    int seq = fs_choice("seq", TIER ? 81 : 27); std::vector<P> top; if (fs_choice("g", 2)) top.push_back(nd1(DEF, "x", K()));
    top.push_back(Defn("mk", ps("x"), Do({nd1(GDEF, "get", Lam({}, nd1(VALOF, "", Vr("x")))), nd1(GDEF, "set", Lam(ps("v"), nd1(SETF, "x", Vr("v")))), nd1(VALOF, "", Lam({}, nd1(SETF, "x", K())))})));
    top.push_back(nd1(DEF, "a", Call("mk", one(K())))); if (fs_choice("two", 2)) top.push_back(nd1(DEF, "b", Call("mk", one(K())))); for (int i = 0, s = seq; i < (TIER ? 4 : 3); i++, s /= 3) { top.push_back(s % 3 == 0 ? Call("set", one(K())) : s % 3 == 1 ? Call("a", none()) : Rd(1, Call("get", none()))); }
    top.push_back(Rd(2, Call("get", none()))); top.push_back(Rd(3, Vr("x"))); fs_reach("closures"); both(Do(top), "closures"); break; }
  case 2: { // a callee sees nothing of its caller; recursion has bindings of its own
    std::vector<P> top; if (fs_choice("g", 2)) top.push_back(nd1(DEF, "x", K())); S gp = fs_choice("gp", 2) ? "x" : "z"; for (int i = 0; i < 3; i++) tval[30][i] = I("t" + s_(i)) > 0; tval[30][2] = false;
    top.push_back(Defn("callee", ps(gp), Do({Rd(1, Vr("x")), Rd(2, Vr("l")), act("e", "x", 4), Rd(3, Vr("x"))})));
    top.push_back(Defn("f", ps("x"), Do({nd1(DEF, "l", K()), If(30, Call("f", one(K())), Call("callee", one(K()))), Rd(4, Vr("x")), Rd(5, Vr("l")), act("a", "l", 4), Rd(6, Vr("l"))})));
    top.push_back(Call("f", one(K()))); top.push_back(Rd(7, Vr("x"))); top.push_back(Rd(8, Vr("l"))); fs_reach("callee"); both(Do(top), "callee"); break; }
  case 3: { // functions defined in functions; names of functions follow the same rule
    std::vector<P> top; Op d1 = fs_choice("d1", 2) ? GDEFN : DEFN, d2 = fs_choice("d2", 2) ? GDEFN : DEFN; P in1 = nd(d1, "q"); in1->params = ps("u"); in1->k.push_back(Do({Rd(1, K()), Rd(2, Vr("u"))}));
    P in2 = nd(d2, "q"); in2->params = ps("u"); in2->k.push_back(Do({Rd(3, K()), Rd(4, Vr("u"))})); int when = fs_choice("when", 3); if (when != 2) top.push_back(Defn("q", ps("u"), Rd(5, K())));
    top.push_back(Defn("f", ps("a"), Do({in1, Call("q", one(Vr("a"))), Call("g", one(Vr("a")))}))); top.push_back(Defn("g", ps("a"), Do({when == 1 ? in2 : P(), Call("q", one(Vr("a")))}))); top.push_back(Call("f", one(K()))); top.push_back(Call("q", one(K()))); fs_reach("functions"); both(Do(top), "functions"); break; }
  case 4: { // three levels, quoted code evaluated in place, branches and loops do not open a scope
    std::vector<P> top; top.push_back(nd1(DEF, "x", K())); int lv = fs_choice("level", 4), how = fs_choice("how", 4); P a = nd1(fs_choice("set", 2) ? SETF : DEF, "x", K()); tval[25][0] = true; if (how == 1) a = nd1(EVALQ, "", a); if (how == 2) a = If(25, a, P()); if (how == 3) { a = nd1(WHILEC, "", a); a->id = 25; tval[25][1] = I("again") > 0; }
    P r = fs_choice("ev", 2) ? nd1(EVALQ, "", Rd(1, Vr("x"))) : Rd(1, Vr("x")); P l3 = Lam({}, Do({lv == 3 ? a : P(), r, Rd(2, Vr("x"))})); P l2 = Lam({}, Do({lv == 2 ? a : P(), nd1(DEF, "f3", l3), Call("f3", none()), Rd(3, Vr("x"))})); P l1 = Lam({}, Do({lv == 1 ? a : P(), nd1(DEF, "f2", l2), Call("f2", none()), Rd(4, Vr("x"))}));
    top.push_back(lv == 0 ? a : P()); top.push_back(nd1(DEF, "f1", l1)); top.push_back(Call("f1", none())); top.push_back(Rd(5, Vr("x"))); top.push_back(Rd(6, Vr("f2"))); fs_reach("levels"); both(Do(top), "levels"); break; }
  default: { // names of built-in functions, unbound names, delvar
    int w = fs_choice("what", 6); int v = I("v"); setv("v", oI(v)); fs_reach("names"); static const char *NM[] = {"len", "first", "str", "+", "pi"}; S n = NM[fs_choice("name", 5)];
    if (w == 0) { R r = run("(do (defn f (" + n + ") (val " + n + ")) (f v))"); FS_ASSERT(r.k == 0 && isInt(r.v, v), "builtin-as-parameter"); }
    else if (w == 1) { run("(do (defn f () (do (def " + n + " v) (val " + n + "))))"); R r = run("(f)"); FS_ASSERT(r.k == 0 && isInt(r.v, v), "builtin-as-local"); R q = run("(len '(1 2))"); FS_ASSERT(q.k == 0 && isInt(q.v, 2), "builtin-unchanged"); q = run("(+ 1 2)"); FS_ASSERT(q.k == 0 && isInt(q.v, 3), "builtin-unchanged"); }
    else if (w == 2) { R r = run("(nofunction v)"); FS_ASSERT(r.k == 1, "unbound-call"); r = run("(do (defn f (a) (nofunction a)) (f v))"); FS_ASSERT(r.k == 1, "unbound-call"); }
    else if (w == 3) { R r = run("(setf noname v)"); FS_ASSERT(r.k == 1, "unbound-setf"); FS_ASSERT(!gv("noname"), "unbound-setf:no-binding"); r = run("(do (defn f (a) (setf noname a)) (f v))"); FS_ASSERT(r.k == 1 && !gv("noname"), "unbound-setf"); }
    else if (w == 4) { R r = run("(do (defn f (a) (do (def b a) (gdef c b) (def d (lambda (e) (def h e))) (d a) (list a b h)))  (f v))"); FS_ASSERT(r.k == 0, "leak:value"); static const char *L[] = {"a", "b", "d", "e", "h"}; for (int i = 0; i < 5; i++) FS_ASSERT(!gv(L[i]), "leak:local-name"); FS_ASSERT(gv("c") && isInt(gv("c"), v), "leak:gdef");
      auto l = items(r.v); FS_ASSERT(l.size() == 3 && isInt(vOf(l[0]), v) && isInt(vOf(l[1]), v) && isO(l[2], vY("h")), "leak:inner-name-in-outer-function"); }
    else { R r = run("(do (def x v) (defn f (x) (do (delvar 'x) (val x))) (f 7))"); R q = run("(val x)"); FS_ASSERT(q.k == 0 && isInt(q.v, v), "delvar:global-kept"); } }
  }
}
