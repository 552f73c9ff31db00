// C14: trees of control forms over probes with symbolic answers; the oracle evaluates the same tree.
#include "probe.h"
struct X { int op; int id; std::vector<X> k; };   // op: -1 leaf, 0 if, 1 and, 2 or, 3 not, 4 do, 5 begin, 6 while, 7 &&, 8 ||
static const char *NM[] = {"if", "and", "or", "not", "do", "begin", "while", "&&", "||"};
static int nid; static std::vector<int> elog; static uint64_t mask[16]; static int kind[16]; static int vk[16];
static Val answer(int id, int n) { if (vk[id]) { Val v; switch (vk[id]) { case 1: return vI(5 + id); case 2: return vS("s"); case 3: return Val(KN); case 4: return vL(); case 5: return Val(KU); case 6: return vI(0); default: return vD(0.5); } }
  if (n >= 3) return n >= 5 ? Val(KN) : vB(false); return vB(((mask[id] >> n) & 1) != 0); }
static X leaf() { X x; x.op = -1; x.id = nid++; mask[x.id] = fs_sym(("m" + s_(x.id)).c_str(), 8); vk[x.id] = 0; return x; }
static S code(const X &x) { if (x.op < 0) return "(p " + s_(x.id) + ")"; S r = S("(") + NM[x.op]; for (size_t i = 0; i < x.k.size(); i++) r += " " + code(x.k[i]); return r + ")"; }
struct Err {};
static bool cond(const Val &v) { if (v.k != KB) throw Err(); return v.b; }
static bool wcond(const Val &v) { if (v.k == KB) return v.b; if (v.k == KI) return v.i != 0; if (v.k == KD) return v.d != 0.0; throw Err(); }
static Val ev(const X &x) {
  if (x.op < 0) { int n = 0; for (size_t i = 0; i < elog.size(); i++) if (elog[i] == x.id) n++; elog.push_back(x.id); return answer(x.id, n); }
  switch (x.op) {
  case 0: if (cond(ev(x.k[0]))) return ev(x.k[1]); return x.k.size() > 2 ? ev(x.k[2]) : Val(KU);
  case 1: case 7: for (size_t i = 0; i < x.k.size(); i++) if (!cond(ev(x.k[i]))) return vB(false); return vB(true);
  case 2: case 8: for (size_t i = 0; i < x.k.size(); i++) if (cond(ev(x.k[i]))) return vB(true); return vB(false);
  case 3: return vB(!cond(ev(x.k[0])));
  case 4: case 5: { Val r(KU); for (size_t i = 0; i < x.k.size(); i++) r = ev(x.k[i]); return r; }
  default: while (wcond(ev(x.k[0]))) ev(x.k[1]); return Val(KU); } }
static bool hasWhileValue(const X &x) { if (x.op == 6) return true; if (x.op == 4 || x.op == 5) return !x.k.empty() && hasWhileValue(x.k.back()); if (x.op == 0) return hasWhileValue(x.k[1]) || (x.k.size() > 2 && hasWhileValue(x.k[2])); return false; }
static X node(int op, const std::vector<X> &k) { X x; x.op = op; x.id = -1; x.k = k; return x; }
static void check(const X &x, const S &id) {
  S c = code(x); note(c); elog.clear(); Val e; bool err = false; try { e = ev(x); } catch (Err &) { err = true; }
  plog.clear(); R r = run(c); if (r.k == 1) note(r.msg); note(logs(plog));
  FS_ASSERT(plog.size() == elog.size(), (id + ":number-of-evaluations").c_str()); for (size_t i = 0; i < elog.size(); i++) FS_ASSERT(plog[i] == elog[i], (id + ":order-of-evaluations").c_str());
  if (err) { FS_ASSERT(r.k == 1, (id + ":error").c_str()); return; }
  FS_ASSERT(r.k == 0 || r.k == 3, (id + ":no-error").c_str()); if (hasWhileValue(x)) return;
  if (e.k == KU) FS_ASSERT(r.k == 3 || r.v->Type == LispType::_Undefined, (id + ":undefined-value").c_str()); else FS_ASSERT(r.k == 0 && is(r.v, e), (id + ":value").c_str()); }
// a tree of up to depth d in a place where a Boolean is wanted (b) or any value (not b)
static X tree(const S &n, int d, bool b) {
  if (d == 0) return leaf();
  int op = fs_choice((n + "op").c_str(), b ? 6 : 7); if (op == 0) return leaf(); std::vector<X> k;
  switch (op) {
  case 1: { int three = b ? 1 : fs_choice((n + "else").c_str(), 2); k.push_back(tree(n + "c", d - 1, true)); k.push_back(tree(n + "t", d - 1, b)); if (three) k.push_back(tree(n + "e", d - 1, b)); return node(0, k); }
  case 2: case 3: { k.push_back(tree(n + "0", d - 1, true)); k.push_back(tree(n + "1", d - 1, true)); if (d > 1) k.push_back(leaf()); return node(op - 1, k); }
  case 4: k.push_back(tree(n + "0", d - 1, true)); return node(3, k);
  case 5: k.push_back(tree(n + "0", d - 1, false)); k.push_back(tree(n + "1", d - 1, b)); return node(4, k);
  default: k.push_back(tree(n + "c", d - 1, true)); k.push_back(tree(n + "b", d - 1, false)); return node(6, k); } }
// a tree of depth d in which only one child of every node is not a leaf
static X chain(const S &n, int d, bool b) {
  if (d == 0) return leaf();
  int op = fs_choice((n + "op").c_str(), b ? 5 : 6), nk = op == 0 ? (b ? 3 : 2 + fs_choice((n + "else").c_str(), 2)) : op == 3 ? 1 : 2, at = fs_choice((n + "at").c_str(), nk); std::vector<X> k; static const int OP[] = {0, 1, 2, 3, 4, 6};
  for (int i = 0; i < nk; i++) { bool kb = op == 0 ? (i == 0 || b) : op == 4 ? (i == 1 && b) : op == 5 ? i == 0 : true; k.push_back(i == at ? chain(n + "k", d - 1, kb) : leaf()); }
  return node(OP[op], k); }
static X wrongLeaf(int k) { X x = leaf(); vk[x.id] = k; return x; }
extern "C" void fs_main() {
  session(); probe(); pval = answer; fs_guard("crash"); nid = 0;
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 6))
#endif
  {
  case 0: fs_reach("trees"); if (TIER ? fs_choice("chain", 2) : 0) check(chain("t", 3, false), "chain"); else check(tree("t", 2, false), "tree"); break;
  case 1: { // every number of operands
    static const int OPS[] = {1, 2, 4, 5, 7, 8}; int op = OPS[fs_choice("op", 6)], n = fs_choice("n", TIER ? 7 : 5); std::vector<X> k; for (int i = 0; i < n; i++) k.push_back(leaf()); fs_reach("operands"); check(node(op, k), S(NM[op]) + "-operands"); break; }
  case 2: { // operands that are not Boolean at each place
    static const int OPS[] = {0, 1, 2, 3, 6, 7, 8}; int op = OPS[fs_choice("op", 7)], kd = 1 + fs_choice("kind", 7), n = op == 3 ? 1 : op == 6 ? 2 : 3, at = fs_choice("at", n); std::vector<X> k; for (int i = 0; i < n; i++) k.push_back(i == at ? wrongLeaf(kd) : leaf());
    if (op == 6 && at == 0) FS_ASSUME(kd == 2 || kd == 3 || kd == 4 || kd == 5 || kd == 6); fs_reach("kinds"); check(node(op, k), S(NM[op]) + "-kinds"); break; }
  case 3: { // values of all kinds pass through if, do, begin unchanged
    int kd = 1 + fs_choice("kind", 7), f = fs_choice("form", 4); std::vector<X> k; fs_reach("values"); if (f == 0) { k.push_back(leaf()); k.push_back(wrongLeaf(kd)); k.push_back(wrongLeaf(1)); check(node(0, k), "if-value"); break; }
    k.push_back(wrongLeaf(f == 3 ? 0 : 2)); k.push_back(wrongLeaf(f == 3 ? 3 : 5)); k.push_back(wrongLeaf(kd)); check(node(f == 1 ? 4 : 5, k), "do-value"); break; }
  case 4: { // loops counting with variables: number of repetitions for every symbolic limit
    int n = (int)fs_sym("n", 3), m = (int)fs_sym("m", 2); setv("n", oI(n)); setv("m", oI(m)); fs_reach("loops");
    R r = run("(do (def i 0) (def s 0) (def j 0) (while (< i n) (do (setf j 0) (while (< j m) (do (setf s (+ s 1)) (setf j (+ j 1)))) (setf i (+ i 1)))) (list i s))"); FS_ASSERT(r.k == 0, "loops:value");
    auto l = items(r.v); FS_ASSERT(l.size() == 2 && isInt(vOf(l[0]), n), "loops:outer"); FS_ASSERT(isInt(vOf(l[1]), n * m), "loops:inner"); break; }
  default: { // loop inside of functions and branches, condition with effects
    int n = (int)fs_sym("n", 2), f = fs_choice("f", 3); setv("n", oI(n)); fs_reach("effects"); vk[0] = 1; vk[1] = 1; vk[2] = 1; R r;
    if (f == 0) { r = run("(do (defn f (k) (do (while (> k 0) (do (p 0) (setf k (- k 1)))) (p 1) (+ k 0))) (f n))"); }
    else if (f == 1) { r = run("(do (def c n) (while (do (p 0) (setf c (- c 1)) (>= c 0)) (if (= c 1) (p 2) (p 1))) (p 2))"); }
    else r = run("(do (def l (list)) (while (< (len l) n) (setf l (append l (list (p 0))))) (p 1) (if (= (len l) 2) (p 2)))");
    FS_ASSERT(r.k == 0 || r.k == 3, "effects:value"); int c0 = pcount(0), c1 = pcount(1), c2 = pcount(2); note(logs(plog));
    if (f == 0) FS_ASSERT(c0 == n && c1 == 1 && plog.back() == 1, "effects:function"); else if (f == 1) FS_ASSERT(c0 == n + 1 && c1 + c2 == n + 1 && c2 == (n >= 2 ? 2 : 1) && plog.back() == 2, "effects:condition"); else FS_ASSERT(c0 == n && c1 == 1 && c2 == (n == 2), "effects:list"); }
  }
}
