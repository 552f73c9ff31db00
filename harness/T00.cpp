#include "h.h"
extern "C" void fs_main() {
  session();
  int a = (int)fs_sym("a", 32);
  setv("a", oI(a));
  R r = run("(if (< a 10) (+ a 1) (- a 1))");
  note(r.k ? r.msg : r.v->ToString());
  double d; uint64_t b = fs_sym("d", 64); memcpy(&d, &b, 8); setv("d", oD(d)); int c = (int)(signed char)fs_sym("c", 8); setv("c", oI(c));
  r = run("(* d c)"); FS_ASSERT(r.k == 0, "mul"); FS_ASSERT(isDbl(r.v, d * c) || d != d || (d*c) != (d*c), "mulv");
  std::string s = symStr("s", 3); r = run("(def x \"" + s + "\")"); note(r.k ? r.msg : r.v->ToString());
  fs_reach("end");
}
