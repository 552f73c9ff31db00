// C06: & | ^ ~ << >> over all 32-bit operands, operand kinds and arities.
#include "vals.h"
static const char *OPS[] = {"&", "|", "^", "<<", ">>", "~"};
static int ref(int op, int a, int b) { unsigned x = a, y = b; switch (op) { case 0: return x & y; case 1: return x | y; case 2: return x ^ y; case 3: return (int)(x << (y & 31)); case 4: return a >> (b & 31); default: return ~a; } }
extern "C" void fs_main() {
  session(); fs_guard("crash");
  switch (fs_choice("part", 4)) {
  case 0: { int op = fs_choice("op", 6); int a = I("a"), b = I("b"); setv("a", oI(a)); setv("b", oI(b)); fs_reach("ints");
    R r = run(S("(") + OPS[op] + (op == 5 ? " a)" : " a b)")); FS_ASSERT(r.k == 0, (S("value:") + OPS[op]).c_str());
    FS_ASSERT(r.v->Type == LispType::_Int, (S("int-type:") + OPS[op]).c_str());
    if (op < 3 || op == 5) FS_ASSERT(r.v->IntValue() == ref(op, a, b), (S("result:") + OPS[op]).c_str());
    else FS_ASSERT(b < 0 || b > 31 || r.v->IntValue() == ref(op, a, b), (S("result:") + OPS[op]).c_str());
    FS_ASSERT(isInt(gv("a"), a) && isInt(gv("b"), b), "operands-unchanged"); break; }
  case 1: { // nested: the result is an operand again, literals in the program
    int p = fs_choice("p", 5), q = fs_choice("q", 5); int a = I("a"), b = I("b"), c = I("c"); setv("a", oI(a)); setv("b", oI(b)); setv("c", oI(c)); FS_ASSUME(p < 3 || (b >= 0 && b < 32)); FS_ASSUME(q < 3 || (c >= 0 && c < 32));
    R r = run(S("(") + OPS[q] + " (" + OPS[p] + " a b) c)"); fs_reach("nested"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_Int, "nested:value"); FS_ASSERT(r.v->IntValue() == ref(q, ref(p, a, b), c), "nested:result"); break; }
  case 2: { // operands that are not integers: a LISP error
    int op = fs_choice("op", 6), w = fs_choice("which", op == 5 ? 1 : 3); int k = fs_choice("k", 10); Val x = sym(k, "x", 2); if (k == KI) fs_stop(); if (k == KD) x.d = 2.5; if (k == KL) x.l.push_back(vI(1));
    Val y = vI(5); setv("a", obj(w == 1 ? y : x)); setv("b", obj(w == 0 ? y : x)); R r = run(S("(") + OPS[op] + (op == 5 ? " a)" : " a b)")); fs_reach("kinds");
    FS_ASSERT(r.k == 1, (S("non-int:error:") + OPS[op] + ":" + KNAME[k]).c_str()); break; }
  default: { int op = fs_choice("op", 6), n = fs_choice("n", 4); setv("a", oI(fs_choice("v", 2) ? 3 : -3)); S c = S("(") + OPS[op]; for (int i = 0; i < n; i++) c += " a"; R r = run(c + ")"); fs_reach("arity");
    FS_ASSERT(n == (op == 5 ? 1 : 2) ? r.k == 0 : r.k == 1, (S("arity:") + OPS[op]).c_str()); break; }
  }
}
