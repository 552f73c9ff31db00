// A native function p for programs under test: (p ID) appends ID to a log and returns what the harness chose for that call.
#ifndef PROBE_H
#define PROBE_H
#include "vals.h"
#include <functional>
static std::vector<int> plog;
static std::function<Val(int, int)> pval;        // id, number of earlier calls with this id
static int pcount(int id) { int n = 0; for (size_t i = 0; i < plog.size(); i++) if (plog[i] == id) n++; return n; }
static V toV(const Val &v) { return v.k == KU ? std::make_shared<LispVariant>(LispType::_Undefined) : std::make_shared<LispVariant>(*vOf(obj(v))); }
static void fn(const S &name, std::function<V(const std::vector<O> &)> f) {
  LispFunctionWrapper w; w.Function = [f](const std::vector<O> &a, std::shared_ptr<LispScope>) -> V { return f(a); };
  w.Signature = string("(" + name + ")"); w.ModuleName = string("m"); w.SetSpecialForm(false); w.SetEvalInExpand(false); w.SetBuiltin(true);
  (*g)[string(name)] = std::make_shared<object>(LispVariant(LispType::_Function, std::make_shared<object>(w))); }
static void probe() { plog.clear(); fn("p", [](const std::vector<O> &a) -> V { int id = vOf(a[0])->IntValue(); int n = pcount(id); plog.push_back(id); return toV(pval(id, n)); }); }
static S logs(const std::vector<int> &l) { S r; for (size_t i = 0; i < l.size(); i++) r += s_(l[i]) + " "; return r; }
#endif
