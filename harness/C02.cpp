// C02: bracket structure. Programs are sequences of one-character tokens whose characters are symbolic, one per line.
#include "vals.h"
struct N { bool list; S a; std::vector<N> l; N() : list(false) {} };
static S lit(char c) { return S(1, c); }
struct P { std::vector<S> t; size_t i; bool err; };
static N expr(P &p) {   // one expression at token i
  N n; if (p.err || p.i >= p.t.size()) { p.err = true; return n; } S t = p.t[p.i++]; char c = t[0];
  if (c == ')') { p.err = true; return n; }
  if (c == '(') { n.list = true; while (!p.err) { if (p.i >= p.t.size()) { p.err = true; break; } if (p.t[p.i][0] == ')') { p.i++; break; } n.l.push_back(expr(p)); } return n; }
  if (c == '\'' || c == '`' || c == ',') { n.list = true; N q; q.a = c == '\'' ? "quote" : c == '`' ? "quasiquote" : t.size() > 1 ? "_unquotesplicing" : "_unquote"; n.l.push_back(q); n.l.push_back(expr(p)); return n; }
  n.a = t; return n; }
static bool same(O o, const N &n) {
  if (!o) return false;
  if (o->IsLispVariant()) { V v = vOf(o); if (v->IsList() && !v->IsNil()) { if (!n.list) return false; auto a = items(v); if (a.size() != n.l.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!same(a[i], n.l[i])) return false; return true; }
    if (n.list) return false; if (n.a[0] == '"') { S q = n.a.substr(1, n.a.size() - 2), w = v->StringValue(); return v->Type == LispType::_String && w == q; }
    if (v->Type == LispType::_Int) { char d = n.a[0]; return (d >= '0') & (d <= '9') && n.a.size() == 1 && v->IntValue() == d - '0'; }
    S t = v->StringValue(); return v->Type == LispType::_Symbol && t == n.a; }
  if (!(o->IsIEnumerableOfObject() || o->IsList()) || !n.list) return false;
  const auto &l = o->ToEnumerableOfObjectRef(); if (l.Count() != n.l.size()) return false; for (size_t i = 0; i < n.l.size(); i++) if (!same(l[i], n.l[i])) return false; return true; }
static int parse(const S &code, O &out, int &line) { line = -1;
  try { out = LispParser::Parse(code, 0, nullptr); return out ? 0 : 3; } catch (LispException &e) { auto d = e.Data["LineNo"]; if (d) line = (int)*d; return 1; } catch (LispExceptionBase &) { return 1; } catch (...) { return 2; } }
static void check(const std::vector<S> &toks, bool wrap) {
  S code = wrap ? "(do " : ""; P p; p.i = 0; p.err = false; if (wrap) { p.t.push_back("("); p.t.push_back("do"); }
  for (size_t i = 0; i < toks.size(); i++) { code += toks[i] + "\n"; char c = toks[i][0]; if (c != ';' && c != ' ' && c != '\t') p.t.push_back(toks[i]); }
  if (wrap) { code += "\n)"; p.t.push_back(")"); }
  N n = expr(p); bool ok = !p.err && p.i == p.t.size() && n.list && p.t[0] == "(";
  O o; int line; int r = parse(code, o, line); fs_reach(ok ? "balanced" : "unbalanced"); if (fs_is_concrete(r) && (r == 0) != ok) note(code);
  FS_ASSERT(r < 2, "tree-or-lisp-error"); FS_ASSERT((r == 0) == ok, ok ? "balanced-text-parses" : "unbalanced-text-is-an-error");
  if (!ok) { FS_ASSERT(line > 0 || p.t.empty(), "error-with-position"); return; }
  FS_ASSERT(same(o, n), "tree"); LispVariant v(o); S t = v.ToString(); O o2; r = parse(t, o2, line); FS_ASSERT(r == 0, "printed-text-parses"); FS_ASSERT(same(o2, n), "printed-text-parses-to-the-same-tree"); }
static bool allowed(unsigned char c, bool full) { if (!full) return (c == '(') | (c == ')') | (c == '\'') | (c == 'a');
  bool bad = (c == '"') | (c == '\\') | ((unsigned)(c - 9) < 5u) | (c == 0); return !bad; }
extern "C" void fs_main() {
  fs_guard("crash");
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
  {
  case 0: { int n = fs_choice("n", TIER ? 6 : 5); S s = symStr("c", n); std::vector<S> t; for (int i = 0; i < n; i++) { FS_ASSUME(allowed(s[i], true)); t.push_back(lit(s[i])); } check(t, true); break; }   // any character
  case 1: { int n = (TIER ? 5 : 4) + fs_choice("n", 3); S s = symStr("c", n); std::vector<S> t; for (int i = 0; i < n; i++) { FS_ASSUME(allowed(s[i], false)); t.push_back(lit(s[i])); } check(t, true); break; }   // brackets, quotes and atoms: longer
  case 2: { int n = fs_choice("n", TIER ? 6 : 5); S s = symStr("c", n); std::vector<S> t; for (int i = 0; i < n; i++) { FS_ASSUME(allowed(s[i], false)); t.push_back(lit(s[i])); } if (!n) fs_stop(); if (s[0] == '\'' || s[0] == 'a') fs_stop(); check(t, false); break; }   // without the surrounding block
  case 3: { // longer tokens among brackets: strings, splicing, comments with brackets, numbers
    S s = symStr("c", 4); std::vector<S> t; t.push_back("("); S q; for (int i = 0; i < 2; i++) { FS_ASSUME((s[i] != '"') & (s[i] != '\\')); q += s[i]; } t.push_back("\"" + q + "\""); FS_ASSUME(allowed(s[2], false) & allowed(s[3], false)); t.push_back(lit(s[2])); t.push_back("; ) (\" x"); t.push_back(",@"); t.push_back(lit(s[3])); t.push_back("b"); t.push_back(")"); check(t, true); break; }
  default: { // arbitrary text never crashes the parser
    int n = fs_choice("n", TIER ? 5 : 4); S s = symStr("c", n); O o; int line; int r = parse("(do " + s + "\n)", o, line); fs_reach("any-text"); FS_ASSERT(r < 2, "any-text:tree-or-lisp-error"); break; }
  }
}
