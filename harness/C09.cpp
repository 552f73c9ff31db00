// C09: a dictionary against an association list of value specifications, over operation histories with symbolic keys.
#include "vals.h"
typedef std::vector<std::pair<Val, Val> > M;
static bool isn(const Val &v) { return v.k == KI || v.k == KD; }
// equal keys: same kind and equal value; int and double are the same key when numerically equal
static bool keq(const Val &a, const Val &b) {
  if (a.k == KI && b.k == KI) return a.i == b.i;
  if (isn(a) && isn(b)) return (a.k == KI ? (double)a.i : a.d) == (b.k == KI ? (double)b.i : b.d);
  if (a.k != b.k) return false;
  switch (a.k) { case KS: case KY: return a.s == b.s; case KB: return a.b == b.b; case KN: return true; case KL: if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); i++) if (!keq(a.l[i], b.l[i])) return false; return true; default: return false; } }
static int find(const M &m, const Val &k) { for (size_t i = 0; i < m.size(); i++) if (keq(m[i].first, k)) return i; return -1; }
static Val key(const S &n, int mode) {
  if (mode == 0) return vI(I(n)); if (mode == 1) return vS(symStr(n, 1 + fs_choice((n + "l").c_str(), 2)));
  switch (fs_choice((n + "k").c_str(), mode == 3 ? 5 : 9)) { case 0: return vI(I8(n)); case 1: return vS(Bo(n) ? "1" : "a"); case 2: return vD(1.0); case 3: return vB(true); case 4: return Val(KN); case 5: { Val v = vL(); v.l.push_back(vI(I8(n))); return v; } case 6: return vY("a"); case 7: return vD(2.5); default: return vL(); } }
static void err(const S &c, const S &id) { R r = run(c); FS_ASSERT(r.k == 1, (id + ":error").c_str()); }
static void chk(const S &c, const Val &e, const S &id) { R r = run(c); if (r.k) note(c + " -> " + r.msg); FS_ASSERT(r.k == 0, (id + ":value").c_str()); FS_ASSERT(is(r.v, e), (id + ":result").c_str()); }
static int same(const M &m, const Val &k) { return find(m, k); }
// everything observable of dictionary d agrees with the model
static void all(const S &d, const M &m, const S &id) {
  chk("(len " + d + ")", vI((int)m.size()), id + ":len"); R r = run("(dict-keys " + d + ")"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List, (id + ":keys:value").c_str());
  auto ks = items(r.v); FS_ASSERT(ks.size() == m.size(), (id + ":keys:count").c_str());
  for (size_t i = 0; i < m.size(); i++) { int n = 0; for (size_t j = 0; j < ks.size(); j++) if (isO(ks[j], m[i].first)) n++; FS_ASSERT(n == 1, (id + ":keys:each-once").c_str()); } }
extern "C" void fs_main() {
  session(); fs_guard("crash"); run("(def d (make-dict))"); run("(def e (make-dict))"); const int STEPS = TIER ? 4 : 3;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
  {
  case 0: { // histories over symbolic integer or text keys: every aliasing pattern of the keys
    int mode = fs_choice("mode", 2); M m; fs_reach("history"); std::vector<Val> ks;
    for (int s = 0; s < STEPS; s++) { S n = s_(s); int op = s == 0 ? 0 : fs_choice(("op" + n).c_str(), 3); Val k = key("k" + n, mode); setv("k", obj(k)); ks.push_back(k); int f = find(m, k);
      if (op == 0) { Val v = vI(I("v" + n)); setv("v", obj(v)); chk("(dict-set d k v)", v, "set"); if (f >= 0) m[f].second = v; else m.push_back(std::make_pair(k, v)); }
      else if (op == 1) { chk("(dict-remove d k)", vB(f >= 0), "remove"); if (f >= 0) m.erase(m.begin() + f); }
      else { chk("(dict-get d k)", f >= 0 ? m[f].second : Val(KU), "get"); chk("(dict-contains-key d k)", vB(f >= 0), "contains-key"); } }
    all("d", m, "after"); for (size_t i = 0; i < ks.size(); i++) { setv("k", obj(ks[i])); int f = find(m, ks[i]); chk("(dict-get d k)", f >= 0 ? m[f].second : Val(KU), "final-get"); chk("(dict-contains-key d k)", vB(f >= 0), "final-contains-key"); }
    chk("(len e)", vI(0), "other-dictionary"); break; }
  case 1: { // keys of every kind
    Val a = key("a", 2), b = key("b", 2), c = TIER ? key("c", 3) : vI(1); M m; setv("a", obj(a)); setv("b", obj(b)); setv("c", obj(c)); fs_reach("kinds");
    static const char *P[] = {"(dict-set d a 10)", "(dict-set d b 20)", "(dict-set d c 30)"}; const Val *K[] = {&a, &b, &c};
    for (int i = 0; i < 3; i++) { chk(P[i], vI(10 * i + 10), "set-kind"); int f = find(m, *K[i]); if (f < 0) m.push_back(std::make_pair(*K[i], vI(10 * i + 10))); else m[f].second = vI(10 * i + 10); }
    chk("(dict-get d a)", m[find(m, a)].second, "get-kind"); chk("(dict-get d b)", m[find(m, b)].second, "get-kind"); chk("(len d)", vI((int)m.size()), "len-kind");
    chk("(dict-remove d b)", vB(true), "remove-kind"); m.erase(m.begin() + find(m, b)); int f = find(m, a); chk("(dict-contains-key d a)", vB(f >= 0), "contains-kind"); chk("(len d)", vI((int)m.size()), "len-after-remove"); chk("(len (dict-keys d))", vI((int)m.size()), "keys-after-remove"); break; }
  case 2: { // values of every kind come back as they are; contains-value by equality
    static const int VK[] = {KI, KD, KS, KB, KN, KL, KY, KF, KDICT}; int k = VK[fs_choice("vk", 9)]; Val v = sym(k, "v", 2); if (k == KL) { v.l.push_back(vI(I("l0"))); v.l.push_back(vS("x")); } setv("v", obj(v)); fs_reach("values");
    chk("(dict-set d 1 v)", v, "set-value"); chk("(dict-get d 1)", v, "get-value"); chk("(dict-get d 2)", Val(KU), "get-missing"); if (k == KF || k == KDICT || k == KD) break;
    chk("(dict-contains-value d v)", vB(true), "contains-value"); Val w = sym(k, "w", 2); if (k == KL) w.l.push_back(vI(5)); setv("w", obj(w)); bool eq = k == KI ? v.i == w.i : k == KS || k == KY ? v.s == w.s : k == KB ? v.b == w.b : k == KN; chk("(dict-contains-value d w)", vB(eq), "contains-other-value");
    chk("(dict-contains-value e v)", vB(false), "contains-value-empty"); break; }
  case 3: { // two dictionaries and an alias; clear
    int x = I("x"), y = I("y"); setv("x", oI(x)); setv("y", oI(y)); run("(dict-set d x 1)"); run("(dict-set e y 2)"); run("(def al d)"); fs_reach("independent");
    switch (fs_choice("op", 4)) { case 0: run("(dict-clear d)"); chk("(len d)", vI(0), "clear"); chk("(dict-contains-key d x)", vB(false), "clear-key"); chk("(dict-get d x)", Val(KU), "clear-get"); chk("(len al)", vI(0), "alias-clear"); chk("(dict-set d y 9)", vI(9), "set-after-clear"); chk("(len d)", vI(1), "set-after-clear:len"); break;
      case 1: run("(dict-set d y 3)"); chk("(dict-get d x)", vI(x == y ? 3 : 1), "second-key"); chk("(dict-get al y)", vI(3), "alias-set"); break;
      case 2: chk("(dict-remove d y)", vB(x == y), "remove-other"); chk("(len d)", vI(x == y ? 0 : 1), "remove-other:len"); break;
      default: { setv("l", obj([&]() { Val v = vL(); v.l.push_back(vI(x)); return v; }())); run("(dict-set d l 7)"); run("(push 5 l)"); run("(def l2 (list x))"); chk("(dict-get d l2)", vI(7), "list-key-stored-by-value"); chk("(dict-contains-key d l)", vB(false), "modified-list-is-another-key"); } }
    chk("(dict-get e y)", vI(2), "independent:get"); chk("(len e)", vI(1), "independent:len"); break; }
  default: { // wrong arguments
    static const char *F[] = {"dict-set", "dict-get", "dict-remove", "dict-keys", "dict-clear", "dict-contains-key", "dict-contains-value", "make-dict"}; static const int AR[] = {3, 2, 2, 1, 1, 2, 2, 0}; int f = fs_choice("f", 8), n = fs_choice("n", 5); S c = S("(") + F[f]; fs_reach("wrong");
    if (n != AR[f]) { for (int i = 0; i < n; i++) c += " d"; err(c + ")", S("arity:") + F[f]); break; }
    if (f == 7) break; static const int KK[] = {KI, KD, KS, KB, KN, KL, KY, KF, KU}; Val v = sym(KK[fs_choice("k", 9)], "v", 1); if (v.k == KI) v.i = 3; if (v.k == KD) v.d = 1.5; setv("v", obj(v)); c += " v"; for (int i = 1; i < n; i++) c += " 1"; err(c + ")", S("not-a-dictionary:") + F[f]); break; }
  }
}
