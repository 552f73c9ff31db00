// A reference debugger: programs are read by a reader of its own that knows the line of every form, and evaluated by a
// small evaluator that reports every form before its function is called (after its arguments, with the call depth).
// The stops, prompts and answers which it predicts are compared with the text that the real debugger writes.
#ifndef DBG_H
#define DBG_H
#include "probe.h"
#include "Debugger.h"
#include <map>
struct Dn; typedef std::shared_ptr<Dn> DN;
struct Dn { int kind, num, line; S s; std::vector<DN> k; Dn() : kind(0), num(0), line(0) {} };      // 0 list, 1 symbol, 2 number, 3 text
struct Dv { int k, i; Dv() : k(0), i(0) {} Dv(int v) : k(1), i(v) {} };                            // 0 undefined or not of interest, 1 integer
struct Dmod; struct Dfn { std::vector<S> ps; DN body; S mod; S name; };
struct Dfr { S name, mod, tok; int line; std::map<S, Dv> v; Dfr *up, *lex; Dfr() : line(1), up(0), lex(0) {} };
struct Dbp { int line; S mod, cond; };
struct Derr {}; struct Dstop {}; struct Dret { Dv v; };
static const S CM = "m";
struct Reader { const S &t; size_t i; int line; Reader(const S &x) : t(x), i(0), line(1) {}
  void ws() { for (; i < t.size(); i++) { if (t[i] == '\n') line++; else if (t[i] == ';') { while (i + 1 < t.size() && t[i + 1] != '\n') i++; } else if (t[i] != ' ') break; } }
  DN node() { ws(); DN d = std::make_shared<Dn>(); d->line = line; char c = t[i];
    if (c == '(') { i++; for (ws(); t[i] != ')'; ws()) d->k.push_back(node()); i++; d->line = line; return d; }
    if (c == '\'') { i++; DN q = std::make_shared<Dn>(); q->kind = 1; q->s = "quote"; q->line = 0; d->k.push_back(q); d->k.push_back(node()); return d; }
    if (c == '"') { i++; d->kind = 3; while (t[i] != '"') { if (t[i] == '\n') line++; d->s += t[i++]; } i++; return d; }
    while (i < t.size() && t[i] != ' ' && t[i] != '\n' && t[i] != ')' && t[i] != '(') d->s += t[i++];
    if ((d->s[0] >= '0' && d->s[0] <= '9') || (d->s[0] == '-' && d->s.size() > 1)) { d->kind = 2; int n = 0; bool neg = d->s[0] == '-'; for (size_t j = neg; j < d->s.size(); j++) n = n * 10 + (d->s[j] - '0'); d->num = neg ? -n : n; } else d->kind = 1;
    return d; }
  std::vector<DN> all() { std::vector<DN> r; for (ws(); i < t.size(); ws()) r.push_back(node()); return r; } };
static DN sy(const S &s, int line) { DN d = std::make_shared<Dn>(); d->kind = 1; d->s = s; d->line = line; return d; }
static DN block(const S &t) { Reader r(t); std::vector<DN> a = r.all(); DN d = std::make_shared<Dn>(); d->k.push_back(sy("do", 1)); d->k.insert(d->k.end(), a.begin(), a.end()); d->line = 1; return d; }
static std::map<S, Dfn> dfns, dmacs; static std::map<S, S> dfiles; static S dpath; static Dfr dglob;
static std::vector<S> dout;                                      // lines the reference writes
static std::vector<Dbp> dbps; static int dmode, ddepth; static std::vector<S> dcmds; static size_t dci; static int deval; static bool dattached, dtrace;   // mode 0 run, 1 step, 2 stop at depth <= ddepth
static std::map<int, bool> dt; static int dcalls;
static bool special(const S &s) { static const char *A[] = {"do", "begin", "if", "while", "setf", "def", "gdef", "defn", "gdefn", "lambda", "quote", "define-macro-eval", "and", "or", "unquote"}; for (size_t i = 0; i < sizeof(A) / sizeof(A[0]); i++) if (s == A[i]) return true; return false; }
static int depthOf(Dfr *f) { int n = 0; for (; f; f = f->up) n++; return n; }
static Dv dev(DN d, Dfr *f);
static void dline(const S &s) { dout.push_back(s); }
static Dv *dfind(Dfr *f, const S &n) { for (Dfr *x = f; x; x = x->lex) { auto it = x->v.find(n); if (it != x->v.end()) return &it->second; } auto it = dglob.v.find(n); return it != dglob.v.end() ? &it->second : 0; }
static bool sameMod(const S &a, const S &b) { return a.empty() || b.empty() || a == b; }
// evaluates a text for a stopped program; 0 error, 1 value
static bool dbal(const S &t) { int n = 0; for (size_t i = 0; i < t.size(); i++) { n += t[i] == '(' ? 1 : t[i] == ')' ? -1 : 0; if (n < 0) return false; } return n == 0; }
static bool dtext(const S &t, Dfr *f, Dv &v) { if (!dbal(t)) return false; deval++; int line = f->line; S tok = f->tok; bool ok = true; try { v = dev(block(t), f); } catch (Derr &) { ok = false; } catch (Dret &r) { v = r.v; } f->line = line; f->tok = tok; deval--; return ok; }
static bool dhit(int line, Dfr *f) {
  for (size_t i = 0; i < dbps.size(); i++) if (dbps[i].line == line && sameMod(dbps[i].mod, f->mod)) {
    if (dbps[i].cond.empty()) return true;
    Dv v; if (!dtext(dbps[i].cond, f, v) || v.k != 2) { dline("Error: bad condition for line " + s_(line) + ": " + dbps[i].cond); return false; } return v.i != 0; }
  return false; }
static S dcmd() { return dci < dcmds.size() ? dcmds[dci++] : S(); }
static bool num(const S &s, int &n) { n = 0; if (s.empty() || s.size() > 6) return false; size_t i = s[0] == '-'; if (i == s.size()) return false; for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return false; n = n * 10 + (s[i] - '0'); } if (s[0] == '-') n = -n; return true; }
static void dset(int line, const S &mod, const S &cond) { Dbp b; b.line = line; b.mod = mod; b.cond = cond; for (size_t i = 0; i < dbps.size(); i++) if (dbps[i].line == line && dbps[i].mod == mod) { dbps[i] = b; return; } dbps.push_back(b); }
// the commands are given in parts, so that the reference does not have to take them apart as the debugger does
struct Dc { S text; int op, no, line; S mod, cond; bool hasMod; };    // op: 0 step 1 over 2 out 3 run 4 break 5 bad break 6 clear no 7 clear all, yes 8 clear all, no 9 list 10 up 11 down 12 evaluate 13 stack 14 exit 15 silent 16 clear without a number
static std::vector<Dc> dcs;
static Dc dc(const S &t, int op, int no = 0) { Dc c; c.text = t; c.op = op; c.no = no; c.line = 0; c.hasMod = false; return c; }
static Dc dcb(int line, const S &mod, bool hasMod, const S &cond, int form = 0) {
  Dc c; c.op = 4; c.no = 0; c.line = line; c.mod = mod; c.hasMod = hasMod; c.cond = cond; S l = s_(line);
  c.text = S(form & 1 ? "b " : "break ") + (hasMod ? form & 2 ? "\"" + mod + "\":" + l : mod + ":" + l : form & 4 ? " " + l : l) + (cond.size() ? " " + cond : S()); return c; }
static bool dprompt(Dfr *top, bool main = false) {      // yields true if the program is to be started again
  Dfr *cur = top; std::vector<Dfr *> over;
  for (;;) {
    if (dci >= dcs.size()) { dci++; if (!main) throw Dstop(); return false; }
    const Dc &c = dcs[dci++];
    switch (c.op) {
    case 0: dmode = 1; return false; case 1: dmode = 2; ddepth = depthOf(cur); return false; case 2: dmode = 2; ddepth = depthOf(cur) - 1; return false; case 3: dmode = 0; return false; case 17: return true;
    case 4: dset(c.line, c.hasMod ? c.mod : cur->mod, c.cond); break; case 5: dline("Warning: no breakpoint set or modified"); break;
    case 6: if (c.no >= 1 && c.no <= (int)dbps.size()) dbps.erase(dbps.begin() + (c.no - 1)); else dline("Warning: no breakpoint cleared"); break; case 16: dline("Warning: no breakpoint cleared"); break;
    case 7: case 8: dline("Really delete all breakpoints? (y/n)"); if (c.op == 7) dbps.clear(); break;
    case 9: dline("Breakpoints:"); for (size_t i = 0; i < dbps.size(); i++) dline("#" + s_((int)i + 1) + " line=" + s_(dbps[i].line) + " module=" + dbps[i].mod + " condition=" + dbps[i].cond); break;
    case 10: if (over.size()) { cur = over.back(); over.pop_back(); } break; case 11: if (cur->up) { over.push_back(cur); cur = cur->up; } break;
    case 12: { Dv v; if (dtext(c.text, cur, v)) dline(v.k == 1 ? "result=" + s_(v.i) : v.k == 2 ? S("result=") + (v.i ? "#t" : "#f") : S("result=<undefined>")); else dline("Exception:"); break; }
    case 13: { std::vector<Dfr *> s; for (Dfr *x = top; x; x = x->up) s.insert(s.begin(), x); for (size_t i = 0; i < s.size(); i++) dline((s[i] == cur ? S("--> ") : S()) + s_((int)i + 1) + " name=" + s[i]->name + " lineno=" + s_(s[i]->line) + " module=" + s[i]->mod); dline(""); break; }
    case 14: if (!main) throw Dstop(); return false;
    case 15: dline("*"); break;
    default: break; } } }
static void devent(const S &h, int line, Dfr *f) {
  if (dtrace && !deval) dline("--> " + h);
  if (line) { f->line = line; f->tok = h; } if (!dattached || deval) return;
  bool stop = dmode == 1 || (dmode == 2 && depthOf(f) <= ddepth); if (!stop) stop = dhit(line, f); if (!stop) return;
  dmode = 0; dline("--> " + h + " line=" + s_(f->line) + " module=" + f->mod + " token=" + f->tok); dprompt(f); }
static Dv dcall(const S &n, const std::vector<Dv> &a, Dfr *f) {
  if (++dcalls > 60) FS_ASSUME(false); const Dfn &fn = dfns[n]; Dfr c; c.name = fn.name; c.mod = fn.mod; c.up = f; c.line = -1; for (size_t i = 0; i < fn.ps.size(); i++) c.v[fn.ps[i]] = i < a.size() ? a[i] : Dv();
  try { return dev(fn.body, &c); } catch (Dret &r) { return r.v; }
  catch (Derr &) { if (dattached && !deval) { dline("*"); dline("--> " + fn.body->k[0]->s + " line=" + s_(c.line) + " module=" + c.mod + " token=" + c.tok); dprompt(&c); } throw; } }
static Dv dbool(bool b) { Dv v; v.k = 2; v.i = b; return v; }
static bool hold(const Dv &v) { return v.i != 0; }
static DN subst(DN d, const std::vector<S> &ps, const std::vector<DN> &a) { if (d->kind == 1) { for (size_t i = 0; i < ps.size(); i++) if (ps[i] == d->s) return a[i]; return d; } if (d->kind) return d; DN r = std::make_shared<Dn>(*d); for (size_t i = 0; i < r->k.size(); i++) r->k[i] = subst(r->k[i], ps, a); r->line = r->k.size() ? r->k[0]->line : d->line; return r; }
static Dv dev(DN d, Dfr *f) {
  if (d->kind == 2) return Dv(d->num); if (d->kind == 3) return Dv(); if (d->kind == 1) { Dv *v = dfind(f, d->s); return v ? *v : Dv(); }
  if (d->k.empty()) return Dv(); const S h = d->k[0]->s; int line = d->k[0]->line;
  if (dmacs.count(h)) { const Dfn &m = dmacs[h]; return dev(subst(m.body, m.ps, std::vector<DN>(d->k.begin() + 1, d->k.end())), f); }
  if (special(h)) { devent(h, line, f);
    if (h == "do" || h == "begin") { Dv v; for (size_t i = 1; i < d->k.size(); i++) v = dev(d->k[i], f); return v; }
    if (h == "if") { Dv c = dev(d->k[1], f); if (hold(c)) return dev(d->k[2], f); return d->k.size() > 3 ? dev(d->k[3], f) : Dv(); }
    if (h == "while") { while (hold(dev(d->k[1], f))) dev(d->k[2], f); return Dv(); }
    if (h == "def" || h == "gdef" || h == "setf") { Dv v = dev(d->k[2], f); if (d->k[2]->kind == 0 && d->k[2]->k[0]->s == "lambda") { dfns[d->k[1]->s] = dfns["lambda"]; return Dv(); } if (h == "setf") { Dv *w = dfind(f, d->k[1]->s); if (!w) throw Derr(); *w = v; } else if (h == "gdef") dglob.v[d->k[1]->s] = v; else f->v[d->k[1]->s] = v; return v; }
    if (h == "defn" || h == "gdefn" || h == "lambda" || h == "define-macro-eval") { bool l = h == "lambda"; Dfn n; const DN &p = d->k[l ? 1 : 2]; for (size_t i = 0; i < p->k.size(); i++) n.ps.push_back(p->k[i]->s); n.body = d->k[l ? 2 : 3]; n.mod = f->mod; n.name = l ? S() : d->k[1]->s; (h == "define-macro-eval" ? dmacs : dfns)[l ? "lambda" : n.name] = n; return Dv(); }
    if (h == "and") { for (size_t i = 1; i < d->k.size(); i++) if (!hold(dev(d->k[i], f))) return dbool(false); return dbool(true); }
    if (h == "or") { for (size_t i = 1; i < d->k.size(); i++) if (hold(dev(d->k[i], f))) return dbool(true); return dbool(false); }
    return Dv(); }
  static const char *FN[] = {"p", "t", "+", "-", ">", "<", "==", "map", "eval", "evalstr", "import", "fail", "return", "println"}; bool known = dfns.count(h) > 0; for (size_t i = 0; i < sizeof(FN) / sizeof(FN[0]); i++) known = known || h == FN[i]; f->line = line; f->tok = h; if (!known) throw Derr();
  bool tr = dtrace; if (dtrace && !deval) dline("--> " + h); std::vector<Dv> a; for (size_t i = 1; i < d->k.size(); i++) a.push_back(d->k[i]->kind == 0 ? dev(d->k[i], f) : dev(d->k[i], f)); dtrace = false; devent(h, line, f); dtrace = tr;
  if (h == "p") { dline("p" + s_(d->k[1]->num)); return a.size() > 1 ? a[1] : Dv(d->k[1]->num); }
  if (h == "t") return dbool(dt[d->k[1]->num]); if (h == "println") { dline(s_(a[0].i)); return Dv(); }
  if (h == "+" || h == "-" || h == ">" || h == "<" || h == "==") { for (size_t i = 0; i < 2; i++) if (i >= a.size() || a[i].k != 1) { if (h == "==") return dbool(false); throw Derr(); } unsigned x = (unsigned)a[0].i, y = (unsigned)a[1].i; return h == "+" ? Dv((int)(x + y)) : h == "-" ? Dv((int)(x - y)) : dbool(h == ">" ? a[0].i > a[1].i : h == "<" ? a[0].i < a[1].i : a[0].i == a[1].i); }
  if (h == "map") { for (size_t i = 0; i < d->k[2]->k[1]->k.size(); i++) { std::vector<Dv> b; b.push_back(Dv(d->k[2]->k[1]->k[i]->num)); dcall(d->k[1]->s, b, f); } return Dv(); }
  if (h == "eval") return dev(d->k[1]->k[1], f);
  if (h == "evalstr") { S m = f->mod; f->mod = "<evalstr>:" + m + ":" + d->k[1]->s; Dv v; try { v = dev(block(d->k[1]->s), f); } catch (Derr &) { f->mod = m; throw; } f->mod = m; return v; }
  if (h == "import") { S file = dpath; Dfr c; c.name = "import " + file; c.mod = file; c.up = f; Dv v = dev(block(dfiles[file]), &c); return v; }
  if (h == "fail") throw Derr(); if (h == "return") { Dret r; r.v = a[0]; throw r; }
  return dcall(h, a, f); }
// what the debugger wrote, without prompts, positions in the text and repeated blanks
static std::vector<S> dlines(const S &o) {
  std::vector<S> r; S l; for (size_t i = 0; i <= o.size(); i++) { if (i < o.size() && o[i] != '\n') { l += o[i]; continue; }     static const S P = "FUEL(isp)-DBG> "; while (l.compare(0, P.size(), P) == 0) l = l.substr(P.size()); if (i == o.size() && l.empty()) break; S c; for (size_t j = 0; j < l.size(); j++) if (l[j] != ' ' || (c.size() && c[c.size() - 1] != ' ')) c += l[j]; while (c.size() && c[c.size() - 1] == ' ') c = c.substr(0, c.size() - 1);
    size_t a = c.find(" start="), b = c.find(" module="); if (a != S::npos && b != S::npos) c = c.substr(0, a) + c.substr(b); if (c.compare(0, 11, "Exception: ") == 0) c = "Exception:"; if (c.size() || l.empty()) r.push_back(c); l.clear(); }
  return r; }
static void dreset() { dfns.clear(); dmacs.clear(); dglob = Dfr(); dglob.name = "<main>"; dglob.mod = CM; dglob.lex = 0; dout.clear(); dbps.clear(); dmode = 1; ddepth = 0; dcs.clear(); dci = 0; deval = 0; dattached = true; dtrace = false; dt.clear(); dcalls = 0; dfiles.clear(); }
static void dnatives() {
  fn("p", [](const std::vector<O> &a) -> V { int id = vOf(a[0])->IntValue(); plog.push_back(id); g->Output->WriteLine(string("p" + s_(id))); return std::make_shared<LispVariant>(a.size() > 1 ? a[1] : a[0]); });
  fn("t", [](const std::vector<O> &a) -> V { return vOf(oB(dt[vOf(a[0])->IntValue()])); });
  fn("fail", [](const std::vector<O> &) -> V { throw LispException("failed", g.get()); }); }
#endif
