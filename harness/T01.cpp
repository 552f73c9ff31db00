#include "h.h"
extern "C" void fs_main() {
  session();
  std::string s = symStr("s", 3); R r = run("(def x \"" + s + "\")"); note(r.k ? r.msg : r.v->ToString());
  fs_reach("end");
}
