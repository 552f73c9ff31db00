// C20: the text of values in every place that renders them, and format strings against their rule.
#include "mini.h"
static S out; static S dig(int i) { return s_(i); }
static S text(const Val &v, bool inner) { switch (v.k) { case KI: return dig(v.i); case KS: return inner ? "\"" + v.s + "\"" : v.s; case KB: return v.b ? "#t" : "#f"; case KN: return "NIL"; case KY: return v.s; case KU: return "<undefined>"; case KL: { S r; for (size_t i = 0; i < v.l.size(); i++) r += (i ? " " : "") + text(v.l[i], true); return "(" + r + ")"; } default: return v.s; } }
static Val small(const S &n, int depth) {
  int k = fs_choice((n + "k").c_str(), depth ? 7 : 6); Val v; switch (k) { case 0: v = vI(I8(n + "i")); FS_ASSUME(v.i > -12 && v.i < 12); return v; case 1: return vS(symStr(n + "c", fs_choice((n + "n").c_str(), 3))); case 2: return vB(Bo(n + "b")); case 3: return Val(KN); case 4: return vY(Bo(n + "y") ? "foo" : "x-1"); case 5: return Val(KU);
    default: { v = vL(); int m = fs_choice((n + "m").c_str(), 3); for (int i = 0; i < m; i++) v.l.push_back(small(n + s_(i), depth - 1)); return v; } } }
static S got() { S t = g->Output->GetContent(); return t; }
static bool dg(char c) { return (c >= '0') & (c <= '9'); }
// the documented rule; ok is false if a placeholder names an argument that is not there or the width is absurd
static S fmt(const S &f, const std::vector<S> &a, bool &ok) {
  S r; size_t i = 0; ok = true; while (i < f.size()) { if (f[i] == '{' && i + 2 < f.size() && f[i + 1] >= '0' && f[i + 1] <= '4') { size_t p = i + 2; bool left = false, valid = true; int w = 0; if (f[p] == ',') { p++; while (p < f.size() && f[p] == ' ') p++; if (p < f.size() && (f[p] == '-' || f[p] == '+')) { left = f[p] == '-'; p++; } size_t st = p; while (p < f.size() && f[p] >= '0' && f[p] <= '9') { w = w * 10 + (f[p] - '0'); if (w > 999999) { ok = false; return ""; } p++; } valid = p > st; }
      if (valid && p < f.size() && f[p] == '}') { size_t n = 0; for (size_t q = 0; q < a.size(); q++) if (f[i + 1] == (char)('0' + q)) n = q + 1; if (!n) { ok = false; return ""; } const S &t = a[n - 1]; S pad; for (int q = (int)t.size(); q < w; q++) pad += ' '; r += left ? t + pad : pad + t; i = p + 1; continue; } } r += f[i++]; } return r; }
extern "C" void fs_main() {
  session(); fs_guard("crash"); mini();
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 7))
#endif
  {
  case 0: { // one value in every place that renders it
    Val v = small("v", TIER ? 2 : 1); setv("x", std::make_shared<object>(*toV(v))); S t = text(v, false); int w = fs_choice("place", 8); static const char *E[] = {"(print x)", "(println x)", "(str x)", "(format \"{0}\" x)", "(+ \"\" x)", "(string \"\" x)", "(print \"<\" x)", "(str (list x 1))"}; fs_reach("values"); if ((w == 4 || w == 5) && (v.k == KL || v.k == KU || v.k == KN || v.k == KB)) return; R r = run(E[w]); if (r.k == 1) note(r.msg);
    if (v.k == KL && v.l.size() > 0 && v.l[0].k == KY && v.l[0].s.empty()) return; FS_ASSERT(r.k == 0, "no-error"); S o = got(); if (w == 6) t = "< " + t; if (w == 7) t = "(" + text(v, true) + " 1)"; FS_ASSERT(isStr(r.v, t), "text"); if (w == 0 || w == 6) FS_ASSERT(o == t, "printed"); else if (w == 1) FS_ASSERT(o == t + "\n", "printed-line"); else FS_ASSERT(o.empty(), "nothing-printed"); break; }
  case 1: { // several arguments, several calls
    int n = fs_choice("count", TIER ? 5 : 4), f = fs_choice("fn", 2); S c = f ? "(println" : "(print", t; for (int i = 0; i < n; i++) { Val v; int k = fs_choice(("k" + s_(i)).c_str(), 3); if (k == 0) { v = vI(I8("i" + s_(i))); FS_ASSUME(v.i >= 0 && v.i < 10); } else if (k == 1) v = vS(symStr("s" + s_(i), 2)); else { v = vL(); v.l.push_back(vS(symStr("l" + s_(i), 1))); v.l.push_back(Val(KN)); } setv("x" + s_(i), obj(v)); c += " x" + s_(i); t += (i ? " " : "") + text(v, false); } c += ")"; fs_reach("arguments"); R r = run("(do " + c + " (print \"|\") " + c + ")"); FS_ASSERT(r.k == 0 && isStr(r.v, t), "value"); S e = t + (f ? "\n" : ""); FS_ASSERT(got() == e + "|" + e, "output"); break; }
  case 2: { // arbitrary format strings
    int n = 1 + fs_choice("length", TIER ? 8 : 6), na = fs_choice("args", 3); S f = symStr("f", n); for (int i = 0; i < n; i++) FS_ASSUME((f[i] == '{') | (f[i] == '}') | (f[i] == '0') | (f[i] == '1') | (f[i] == ',') | (f[i] == '-') | (f[i] == '9') | (f[i] == 'x')); if (n > 3) FS_ASSUME(f[0] == '{' || f[1] == '{'); std::vector<S> a; S c = "(format f"; setv("f", oS(f)); for (int i = 0; i < na; i++) { S t = i ? S("{0}") : symStr("a", 2); a.push_back(t); setv("a" + s_(i), oS(t)); c += " a" + s_(i); } c += ")"; fs_reach("format-strings"); R r = run(c); bool ok; S e = fmt(f, a, ok); FS_ASSERT(r.k != 2, "format:foreign-exception"); if (!ok) FS_ASSERT(r.k == 1, "format:missing-argument"); else { FS_ASSERT(r.k == 0, "format:no-error"); FS_ASSERT(isStr(r.v, e), "format:text"); } break; }
  case 3: { // placeholders with arbitrary index, width and surroundings
    int sh = fs_choice("shape", 5), na = 1 + fs_choice("args", 5); S d = symStr("d", 4); FS_ASSUME(dg(d[0]) & dg(d[1]) & dg(d[2]) & dg(d[3])); S f; if (sh == 0) f = S("{") + d[0] + "}"; else if (sh == 1) f = S("a{") + d[0] + "," + d[1] + "}b"; else if (sh == 2) f = S("{") + d[0] + ",-" + d[1] + "}|"; else if (sh == 3) f = S("{") + d[0] + "}{" + d[1] + ", " + d[2] + "}"; else f = S("{{") + d[0] + "," + (char)(d[1]) + "}}{" + d[2] + "}"; std::vector<S> a; S c = "(format f"; setv("f", oS(f)); for (int i = 0; i < na; i++) { S t; for (int j = 0; j < i; j++) t += (char)('p' + j); t += i & 1 ? "{1}" : "\"}"; if (i == 0) t = symStr("a", 1); a.push_back(t); setv("a" + s_(i), oS(t)); c += " a" + s_(i); } c += ")"; fs_reach("placeholders"); R r = run(c); bool ok; S e = fmt(f, a, ok); FS_ASSERT(r.k != 2, "format:foreign-exception"); if (!ok) FS_ASSERT(r.k == 1, "format:missing-argument"); else { FS_ASSERT(r.k == 0, "format:no-error"); FS_ASSERT(isStr(r.v, e), "format:text"); } break; }
  case 4: { // arguments of every kind, arbitrary text; the argument is never scanned
    Val v = small("v", 1); setv("x", std::make_shared<object>(*toV(v))); S t = symStr("t", 3); int w = fs_choice("special", 3); if (w == 1) t = "{" + t.substr(0, 1) + "}" + t.substr(1); if (w == 2) t = "##<NULL>##"; setv("y", oS(t)); fs_reach("format-arguments"); R r = run("(format \"[{0}|{1}|{0}]\" x y)"); S e = text(v, false); FS_ASSERT(r.k == 0, "format:no-error"); FS_ASSERT(isStr(r.v, "[" + e + "|" + t + "|" + e + "]"), "format:arguments"); break; }
  case 5: { // integers in decimal: all of them, digit by digit
    int i = I("i"); FS_ASSUME(TIER ? (i > -1000000 && i < 1000000) || i > 2147470000 || i < -2147470000 : (i > -1200 && i < 1200) || i > 2147483600 || i < -2147483600); setv("i", oI(i)); R r = run("(str i)"); fs_reach("integers"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_String, "integer:string"); S t = r.v->StringValue(); size_t p = 0; bool neg = false; if (t[0] == '-') { neg = true; p = 1; } FS_ASSERT(neg == (i < 0), "integer:sign"); FS_ASSERT(t.size() > p, "integer:digits"); FS_ASSERT(t.size() == p + 1 || t[p] != '0', "integer:leading-zero"); unsigned u = 0; bool ds = true; for (; p < t.size(); p++) { ds = ds & dg(t[p]); u = u * 10 + (unsigned)(t[p] - '0'); } FS_ASSERT(ds, "integer:digits"); FS_ASSERT(u == (i < 0 ? 0u - (unsigned)i : (unsigned)i), "integer:value"); break; }
  default: { // multiples of 1/64 with six decimals
    int k = fs_choice("k", TIER ? 512 : 96) - (TIER ? 256 : 40), big = fs_choice("scale", 3); double d = k / 64.0 * (big == 2 ? 4096 : 1) + (big == 1 ? 1e6 : 0); setv("d", oD(d)); long long m = (long long)k * 15625 * (big == 2 ? 4096 : 1) + (big == 1 ? 1000000000000LL : 0); bool neg = m < 0; if (neg) m = -m; S e; for (int i = 0; i < 6; i++) { e = (char)('0' + m % 10) + e; m /= 10; } e = "." + e; do { e = (char)('0' + m % 10) + e; m /= 10; } while (m); if (neg) e = "-" + e; fs_reach("doubles"); R r = run("(str d)"); FS_ASSERT(r.k == 0 && isStr(r.v, e), "double:text"); r = run("(println d (list d))"); FS_ASSERT(got() == e + " (" + e + ")\n", "double:printed"); break; }
  }
}
