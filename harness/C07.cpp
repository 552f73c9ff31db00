// C07: list operations against sequence operations on a vector of value specifications.
#include "vals.h"
typedef std::vector<Val> L;
static Val ml(const L &x) { Val v = vL(); v.l = x; return v; }
static L lst(const S &n, int len, bool mixed) {   // elements: arbitrary ints, or (mixed) one of several kinds each
  L r; for (int i = 0; i < len; i++) { S m = n + s_(i); if (!mixed) { r.push_back(vI(I(m))); continue; }
    switch (fs_choice((m + "k").c_str(), 6)) { case 0: r.push_back(vI(I(m))); break; case 1: r.push_back(vS(symStr(m, 2))); break; case 2: r.push_back(vB(Bo(m))); break; case 3: { Val q = vL(); q.l.push_back(vI(I(m))); r.push_back(q); break; } case 4: r.push_back(Val(KN)); break; default: r.push_back(vY("foo")); } }
  return r; }
static void expect(const S &code, const Val &e, const S &id) { R r = run(code); if (r.k) note(code + " -> " + r.msg); FS_ASSERT(r.k == 0, (id + ":value").c_str()); bool ok = is(r.v, e); if (fs_is_concrete(ok) && !ok) note(code + " -> " + r.v->ToString()); FS_ASSERT(ok, (id + ":result").c_str()); }
static void err(const S &code, const S &id) { R r = run(code); FS_ASSERT(r.k == 1, (id + ":error").c_str()); }
static void unchanged(const L &l, const S &id = "argument-unchanged") { FS_ASSERT(is(gv("l"), ml(l)), id.c_str()); }
extern "C" void fs_main() {
  session(); fs_guard("crash"); const int N = TIER ? 5 : 4;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 9))
#endif
  {
  case 0: { // selectors
    bool mixed = fs_choice("mixed", 2); int n = fs_choice("n", mixed ? 3 : N); L l = lst("e", n, mixed); setv("l", obj(ml(l))); fs_reach("selectors");
    expect("(len l)", vI(n), "len"); if (n) { bool alt = fs_choice("alt", 2); expect(alt ? "(car l)" : "(first l)", l[0], "first"); expect("(last l)", l[n - 1], "last"); expect(alt ? "(cdr l)" : "(rest l)", ml(L(l.begin() + 1, l.end())), "rest"); }
    else { err("(first l)", "first-of-empty"); err("(last l)", "last-of-empty"); expect("(rest l)", vL(), "rest-of-empty"); }
    expect("(reverse l)", ml(L(l.rbegin(), l.rend())), "reverse"); unchanged(l); expect("(reverse (reverse l))", ml(l), "reverse-twice"); break; }
  case 1: { // nth at every index in range and around it
    int n = fs_choice("n", N); L l = lst("e", n, false); setv("l", obj(ml(l))); int i = I("i"); setv("i", oI(i)); fs_reach("nth");
    if (i >= 0 && i < n) expect("(nth i l)", l[i], "nth"); else err("(nth i l)", "nth-out-of-range"); unchanged(l); break; }
  case 2: { // cons list append
    bool mixed = fs_choice("mixed", 2); int n = fs_choice("n", mixed ? 3 : N); L l = lst("e", n, mixed), x = lst("x", 1, true); setv("l", obj(ml(l))); setv("x", obj(x[0])); fs_reach("cons");
    L e = l; e.insert(e.begin(), x[0]); expect("(cons x l)", ml(e), "cons"); unchanged(l); expect("(list x x)", ml(L(2, x[0])), "list"); expect("(list)", vL(), "list-empty");
    expect("(first (cons x l))", x[0], "first-cons"); expect("(rest (cons x l))", ml(l), "rest-cons"); expect("(len (cons x l))", vI(n + 1), "len-cons"); break; }
  case 3: { int a = fs_choice("a", 3), b = fs_choice("b", 3), c = fs_choice("c", 3), k = fs_choice("args", 4); L l = lst("e", a, false), m = lst("f", b, false), o = lst("h", c, false); setv("l", obj(ml(l))); setv("m", obj(ml(m))); setv("o", obj(ml(o))); fs_reach("append");
    L e; if (k >= 1) e.insert(e.end(), l.begin(), l.end()); if (k >= 2) e.insert(e.end(), m.begin(), m.end()); if (k >= 3) e.insert(e.end(), o.begin(), o.end());
    static const char *P[] = {"(append)", "(append l)", "(append l m)", "(append l m o)"}; expect(P[k], ml(e), "append"); unchanged(l); FS_ASSERT(is(gv("m"), ml(m)) && is(gv("o"), ml(o)), "append:arguments-unchanged");
    if (k == 2) { expect("(len (append l m))", vI(a + b), "append-len"); expect("(reverse (append l m))", ml(L(e.rbegin(), e.rend())), "append-reverse"); } if (k == 3) expect("(append (append l m) o)", ml(e), "append-associative"); break; }
  case 4: { // map and reduce: order, multiplicity, every element once; elements that are lists or symbols are data
    bool mixed = fs_choice("mixed", 2); int n = fs_choice("n", mixed ? 3 : N); L l = lst("e", n, mixed); setv("l", obj(ml(l))); fs_reach("map-reduce");
    expect("(map (lambda (x) (list x)) l)", [&]() { L e; for (int i = 0; i < n; i++) e.push_back(ml(L(1, l[i]))); return ml(e); }(), "map");
    expect("(do (def seen (list)) (map (lambda (x) (gdef seen (cons x seen))) l) (append seen))", ml(L(l.rbegin(), l.rend())), "map-order");
    expect("(reduce (lambda (x acc) (cons x acc)) l '())", ml(L(l.rbegin(), l.rend())), "reduce");
    if (!mixed) { int s = 0, start = I("start"); setv("st", oI(start)); s = start; for (int i = 0; i < n; i++) s = (int)((unsigned)l[i].i + (unsigned)s); expect("(reduce + l st)", vI(s), "reduce-sum");
      L d; for (int i = 0; i < n; i++) d.push_back(vI((int)(2u * (unsigned)l[i].i))); expect("(map (fn (x) (* 2 x)) l)", ml(d), "map-double"); s = start; for (int i = 0; i < n; i++) s = (int)((unsigned)l[i].i - (unsigned)s); expect("(reduce - l st)", vI(s), "reduce-minus"); }
    unchanged(l); break; }
  case 5: { // push and pop at a position, on one list
    bool mixed = fs_choice("mixed", 2); int n = fs_choice("n", mixed ? 3 : N); L l = lst("e", n, mixed), x = lst("x", 1, true); setv("l", obj(ml(l))); setv("x", obj(x[0])); bool withPos = fs_choice("withpos", 2); int p = withPos ? (mixed ? fs_choice("pc", n + 1) : I("p")) : 0; setv("p", oI(p));
    S pos = withPos ? " p" : ""; fs_reach("push-pop");
    if (fs_choice("push", 2)) { L e = l; if (p >= 0 && p < n) e.insert(e.begin() + p, x[0]);
      if (p < 0) err("(push x l" + pos + ")", "push-negative"); else expect("(push x l" + pos + ")", p < n ? ml(e) : Val(KN), "push"); unchanged(e, "push:list-after"); if (p >= 0 && p < n) expect("(nth p l)", x[0], "push-then-nth"); }
    else { L e = l; if (p >= 0 && p < n) e.erase(e.begin() + p); if (p < 0) err("(pop l" + pos + ")", "pop-negative"); else expect("(pop l" + pos + ")", p < n ? l[p] : Val(KN), "pop"); unchanged(e, "pop:list-after"); }
    break; }
  case 6: { // a sequence of modifying steps on a list, element assignment included
    int n = 1 + fs_choice("n", 3); L l = lst("e", n, false); setv("l", obj(ml(l))); fs_reach("history");
    for (int st = 0; st < (TIER ? 4 : 3); st++) { int op = fs_choice(("op" + s_(st)).c_str(), 6); S x = "x" + s_(st); Val v = vI(I(x)); setv("x", obj(v)); int m = l.size();
      switch (op) { case 0: expect("(push x l)", [&]() { L e = l; e.insert(e.begin(), v); if (m) return ml(e); return Val(KN); }(), "h-push"); if (m) l.insert(l.begin(), v); break;
        case 1: expect("(pop l)", m ? l[0] : Val(KN), "h-pop"); if (m) l.erase(l.begin()); break;
        case 2: if (m) { expect("(setf (first l) x)", v, "h-setf-first"); l[0] = v; } else err("(setf (first l) x)", "h-setf-first-empty"); break;
        case 3: if (m) { expect("(setf (last l) x)", v, "h-setf-last"); l[m - 1] = v; } else err("(setf (last l) x)", "h-setf-last-empty"); break;
        case 4: if (m > 1) { expect("(setf (nth 1 l) x)", v, "h-setf-nth"); l[1] = v; } else err("(setf (nth 1 l) x)", "h-setf-nth-range"); break;
        default: if (m > 1) { expect("(pop l 1)", l[1], "h-pop-1"); l.erase(l.begin() + 1); } else expect("(pop l 1)", Val(KN), "h-pop-1"); }
      unchanged(l, "history:list"); }
    expect("(len l)", vI((int)l.size()), "history:len"); break; }
  case 7: { // arguments that are not lists
    static const int KK[] = {KI, KD, KB, KY, KDICT, KF, KU}; int k = KK[fs_choice("k", 7)]; Val v = sym(k, "v", 2); if (k == KI) v.i = 42; if (k == KD) v.d = 1.5; setv("l", obj(v)); setv("x", oI(1)); fs_reach("not-a-list");
    static const char *P[] = {"(first l)", "(last l)", "(rest l)", "(nth 0 l)", "(reverse l)", "(append l)", "(push x l)", "(pop l)", "(map (fn (x) x) l)", "(reduce + l 0)", "(len l)", "(setf (first l) 1)"};
    int p = fs_choice("p", 12); if (p == 10 && k == KDICT) fs_stop(); err(P[p], "not-a-list"); FS_ASSERT(is(gv("l"), v), "not-a-list:unchanged"); break; }
  default: { // number of arguments
    static const char *F[] = {"first", "last", "rest", "nth", "reverse", "push", "pop", "map", "reduce", "len", "car", "cdr"}; static const int LO[] = {1, 1, 1, 2, 1, 2, 1, 2, 3, 1, 1, 1}, HI[] = {1, 1, 1, 2, 1, 3, 2, 2, 3, 1, 1, 1};
    int f = fs_choice("f", 12), n = fs_choice("n", 5); if (n >= LO[f] && n <= HI[f]) fs_stop(); run("(def l '(1 2))"); S c = S("(") + F[f]; for (int i = 0; i < n; i++) c += " l"; fs_reach("arity"); err(c + ")", S("arity:") + F[f]); break; }
  }
}
