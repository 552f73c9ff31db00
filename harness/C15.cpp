// C15: whatever is evaluated ends in a value or a LISP error. Every built-in function of the session (read from the global scope) gets every combination
// of argument kinds with arbitrary contents; texts of arbitrary characters, of arbitrary tokens and damaged programs are evaluated.
#include "vals.h"
#ifndef TIER
#define TIER 0
#endif
#ifndef ONLY
#define ONLY -1
#endif
static void outcome(const R &r, const S &id) { if (r.k == 2) note(id + ": " + r.msg); FS_ASSERT(r.k != 2, "value-or-LISP-error"); if (r.k == 1) FS_ASSERT(!r.msg.empty(), "error-has-a-message"); }
static void usable() { R r = run("(list (+ 1 2) (do (def q9 5) (+ q9 0)))"); FS_ASSERT(r.k == 0 && r.v->Type == LispType::_List, "session-usable"); auto l = items(r.v); FS_ASSERT(l.size() == 2 && isInt(std::make_shared<LispVariant>(l[0]), 3) && isInt(std::make_shared<LispVariant>(l[1]), 5), "session-usable-value"); }
static void save(const S &code) { auto o = std::make_shared<TextWriter>(true); V v; bool other = false; try { v = Lisp::SaveEval(code, "m", false, false, o, std::make_shared<TextReader>()); } catch (...) { other = true; } FS_ASSERT(!other, "SaveEval-catches"); }
static std::vector<S> names(bool all) {
  std::vector<S> r; for (auto it = g->begin(); it != g->end(); ++it) { S n = it->first; O o = it->second; if (!o) continue; if (o->IsLispVariant() && o->ToLispVariantRef().IsFunction()) r.push_back(n); } std::sort(r.begin(), r.end());
  if (!all) { static const char *SKIP[] = {"sleep", "while", "tickcount", "date-time"}; for (int i = 0; i < 4; i++) r.erase(std::remove(r.begin(), r.end(), S(SKIP[i])), r.end()); } return r; }
static bool fixedStr = false;
static S str(const S &n, int len) { if (fixedStr) return "7"; S s = symStr(n, len); for (int i = 0; i < len; i++) FS_ASSUME(s[i] != '/' && s[i] != 0); return s; }
// argument kinds
enum { NK = 16 };
static bool text = false;      // the numbers become text: one digit, fixed doubles
static int num(const S &n) { if (!text) return I(n); static const int V[] = {3, -1, INT_MAX, INT_MIN, 0}; return V[fs_choice((n + "v").c_str(), TIER ? 5 : 1)]; }
static bool dsym = false;      // doubles are arbitrary, otherwise one of the values below
static double dbl(const S &n) { if (dsym) return D(n); static const double V[] = {2.5, -1e300, 0.0 / 0.0, -0.0, 2147483648.0, 1e-310, 1.0 / 0.0}; return V[fs_choice((n + "v").c_str(), TIER ? 7 : 3)]; }
static O arg(int k, const S &n) {
  std::vector<O> l; switch (k) {
  case 0: return oI(num(n)); case 1: return oD(dbl(n)); case 2: return oS(str(n, 1)); case 3: return oB(Bo(n + "b")); case 4: return oN(); case 5: return oL(l);
  case 6: l.push_back(oI(2)); l.push_back(oI(3)); return oL(l); case 7: return obj(vY("foo")); case 8: return obj(Val(KDICT)); case 9: return obj(Val(KF)); case 10: return obj(Val(KU));
  case 11: { R r = run("(lambda (p) (+ p 1))"); return std::make_shared<object>(*r.v); } case 12: l.push_back(oS("x")); l.push_back(oL(std::vector<O>(1, oI(2)))); l.push_back(obj(vY("foo"))); return oL(l);
  case 13: return oS(""); case 14: { R r = run("(do (def dd (make-dict)) (dict-set dd 1 \"v\") (dict-set dd \"k\" 2) dd)"); if (r.k) { r = run("(do (def dd (make-dict)) (dict-set dd 1 \"v\") (dict-set dd \"k\" 2) (rval dd))"); } return r.v ? std::make_shared<object>(*r.v) : oN(); }
  default: { R r = run("(lambda (p q) (list q p))"); return std::make_shared<object>(*r.v); } } }
static const char *LIT[] = {"5", "-3", "2.5", "\"ab\"", "#t", "nil", "()", "'()", "'(1 2)", "foo", "bar", "(a0 1)", "(1 2)", "(foo)", "(list 1 \"x\")", "(lambda (p) p)", "'foo", "(do)", "((p) 1)", "`(1 ,foo ,@bar)", "(make-dict)", "\"(+ 1\"", "(+ 1 2)", "(return 3)"};
enum { NL = sizeof(LIT) / sizeof(LIT[0]) };
static const char *TOK[] = {"(", ")", "'", "`", ",", ",@", "foo", "1", "\"s\"", "nil", "#t", "do", "def", "setf", "if", "lambda", "defn", "define-macro-eval", "define-macro-expand", "quote", "list", "+", "nth", "eval", "evalstr", "return", "map", "and", "&optional", "2.5", "rval", "apply", "print", "args", "_unquote", "_unquotesplicing", "quasiquote", "type", "dict-get", "import", ";c\n", "&rest", "begin", "gdef", "\"(+ 1 2)\"", "-", ".", "#", "\"", "str", "sym", "reduce", "cons", "first", "len", "slice", "arg", "gdefn", "fn", "trace", "delvar", "need-l-value", "format"};
enum { NT = sizeof(TOK) / sizeof(TOK[0]) };
static const char *PROG[] = { "( def foo ( list 1 2 ) ) ( setf ( nth 0 foo ) 3 ) ( map ( lambda ( p ) ( + p 1 ) ) foo )", "( defn f ( n ) ( if ( > n 0 ) ( + n ( h ( - n 1 ) ) ) 0 ) ) ( defn h ( n ) ( - n ) ) ( print ( f 2 ) )",
  "( define-macro-expand m ( a b ) ( list '+ a b ) ) ( m 1 ( m 2 3 ) )", "( define-macro-eval m ( a b ) ( do ( setf a b ) ) ) ( def foo 1 ) ( m foo 2 )", "( def d ( make-dict ) ) ( dict-set d 1 ( list 1 ) ) ( setf ( dict-get d 1 ) \"s\" ) ( str d )",
  "( def foo `( 1 , ( + 1 2 ) ,@ ( list 3 4 ) ) ) ( eval '( len foo ) ) ( evalstr \"(+ 1 2)\" )", "( defn f ( a ) ( return ( args ) ) ) ( apply f '( 1 2 ) ) ( format \"{0} {1}\" 1 ( arg 0 ) )", "( reduce ( lambda ( a b ) ( + a b ) ) '( 1 2 ) 0 ) ( slice \"abc\" 1 2 ) ( cons 1 ( rest '( 1 2 ) ) )" };
static std::vector<S> split(const S &s) { std::vector<S> r; S c; bool q = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '"') q = !q; if (s[i] == ' ' && !q) { if (!c.empty()) r.push_back(c); c.clear(); } else c += s[i]; } if (!c.empty()) r.push_back(c); return r; }
static int inner(const std::vector<S> &n) { if (TIER) return fs_choice("inner", (int)n.size()); static const char *Q[] = {"list", "cons", "map", "rest", "reverse", "append", "first", "last", "lambda", "quote", "if", "do", "return", "args", "vars", "def", "setf", "defn", "eval", "str", "sym", "slice", "type", "+", "rval", "apply", "print", "and", "make-dict", "quasiquote"}; S q = Q[fs_choice("inner", 30)]; for (size_t i = 0; i < n.size(); i++) if (n[i] == q) return (int)i; return 0; }
extern "C" void fs_main() {
  session(); fs_guard("crash"); fs_stdin_set("line\n"); int part = ONLY >= 0 ? ONLY : fs_choice("part", 7);
  if (part == 0) {         // every built-in function with arguments of every kind
    auto n = names(false); FS_ASSERT(n.size() > 100, "built-in-functions"); int f = 
#ifdef ONLYFN
ONLYFN; if (f >= (int)n.size()) return; int
#else
fs_choice("function", (int)n.size()),
#endif
c = fs_choice("count", TIER ? 4 : 3); S code = "(" + n[f]; static const char *TF[] = {"print", "println", "trace", "str", "string", "add", "+", "format", "replace", "search", "slice", "trim", "sym", "import", "lower-case", "upper-case", "parse-integer", "parse-float", "int", "float", "readline", "dict-set", "dict-get", "dict-remove", "dict-contains-key", "doc", "searchdoc", "evalstr", "File-Exists", "File-ReadAllText", "File-WriteAllText", "delvar", "help", "map", "reduce", "apply", "eval", "vars", "call", "field", "native-fields", "fuel"}; for (size_t i = 0; i < sizeof(TF) / sizeof(TF[0]); i++) if (n[f] == TF[i]) text = true; dsym = c == 1 && (n[f] == "Math-Abs" || n[f] == "Math-Floor" || n[f] == "Math-Ceiling" || n[f] == "Math-Round" || n[f] == "Math-Truncate" || n[f] == "Math-Sqrt"); 
    static const char *NF[] = {"+", "-", "*", "/", "%", "add", "sub", "mul", "div", "mod", "<<", ">>", "|", "&", "^", "~", "<", ">", "<=", ">=", "==", "!=", "nth", "arg", "slice", "not", "len", "list", "push", "cons", "if", "and", "or", "setf", "return", "quote", "append"}; bool num = false; for (size_t i = 0; i < sizeof(NF) / sizeof(NF[0]); i++) if (n[f] == NF[i]) num = true;
    static const int M[] = {0, 6, 2, 4, 1, 7, 8, 11, 13, 12, 14, 3, 5, 9, 10, 15}; std::vector<int> ks; bool dbls = false; for (int i = 0; i < c; i++) { ks.push_back(M[fs_choice(("kind" + s_(i)).c_str(), c == 3 ? (i ? 5 : 9) : i && !TIER ? 5 : NK)]); if (ks[i] == 1) dbls = true; }
    bool ints = true; for (int i = 0; i < c; i++) if (ks[i]) ints = false; if (!num || n[f] == "%" || n[f] == "mod" || (!ints && n[f] != "nth" && n[f] != "arg" && n[f] != "slice" && n[f] != "<<" && n[f] != ">>") || (dbls && c > 1)) text = true; fixedStr = n[f].compare(0, 5, "Math-") == 0 || n[f] == "%" || n[f] == "mod"; for (int i = 0; i < c; i++) { S a = "a" + s_(i); setv(a, arg(ks[i], a)); code += " " + a; } code += ")"; fs_reach("built-in call"); R r = run(code); outcome(r, code);
    if (r.k == 0) { setv("res", std::make_shared<object>(*r.v)); outcome(run("(typestr res)"), code); } if (n[f] != "delvar" && (c < 2 || TIER)) usable(); }
  if (part == 1) {         // the same with literal texts, for the forms that look at their code
    auto n = names(false); int f = fs_choice("function", (int)n.size()), c = 1 + fs_choice("count", TIER ? 3 : 2); S code = "(" + n[f]; setv("a0", arg(11, "x")); setv("bar", oL(std::vector<O>(2, oI(1)))); 
    for (int i = 0; i < c; i++) code += S(" ") + LIT[(TIER ? 1 : i ? 4 : 1) * fs_choice(("lit" + s_(i)).c_str(), c == 3 ? 12 : i && !TIER ? 4 : NL)]; code += ")"; fs_reach("built-in form"); outcome(run(code), code); }
  if (part == 2) {         // values called as functions, in every function that calls functions
    static const char *F[] = {"(a0)", "(a0 a1)", "(a0 a1 a2)", "(apply a0 a1)", "(map a0 a1)", "(reduce a0 a1 a2)", "(eval a0)", "(eval (list a0 a1))", "(evalstr a0)", "(setf (nth a0 a1) a2)", "(setf (a0 a1) a2)", "(setf (dict-get a0 a1) a2)", "(while (a0 a1) (return a2))", "(if a0 a1 a2)", "((lambda (p) (p a1)) a0)", "((lambda (p q) (setf p q)) a0)", "(rval (a0 a1))", "(defn ff a0 a1)", "(eval (list 'lambda a0 a1))", "(eval (list 'defn a0 a1 a2))", "(eval (list 'define-macro-eval a0 a1 a2))", "(eval (list 'def a0 a1))", "(import a0)", "(setf (rval a0) a1)", "`(a ,a0 ,@a1)", "(a0 (a1 a2))", "(sleep \"x\" a0)", "(tickcount a0)", "(date-time a0)", "(while nil a0)", "(while)", "(while nil)", "(sleep)", "(date-time)", "(eval (list 'define-macro-expand a0 a1 a2))", "(eval (list 'let a0 a1))", "(eval (list 'quasiquote a0))", "(eval (list 'if a0 a1))" };
    text = true; int f = fs_choice("form", sizeof(F) / sizeof(F[0])); S code = F[f]; for (int i = 0; i < 3; i++) { S a = "a" + s_(i); if (code.find(a) == S::npos) continue; static const int M[] = {0, 2, 4, 6, 7, 9, 11, 12, 14, 1, 3, 5, 8, 10, 13, 15}; setv(a, arg(M[fs_choice(("kind" + s_(i)).c_str(), TIER ? (i < 2 ? NK : 8) : i == 0 ? NK : i == 1 ? 8 : 4)], a)); } fs_reach("value as function"); R r = run(code); outcome(r, code); }
  if (part == 3) {         // text of arbitrary bytes
    int n = fs_choice("length", TIER ? 5 : 4); S t = symStr("t", n); static const char *AR[] = {"", "(+ 1 ", "(do \"", "'"}; int a = fs_choice("around", n == 3 && !TIER ? 2 : 4); S code = S(AR[a]) + t + (a == 1 ? ")" : ""); fs_reach("arbitrary text"); outcome(run(code), "text"); }
  if (part == 4) {         // arbitrary tokens
    int n = fs_choice("tokens", TIER ? 4 : 3) + 1, some = n == 4 ? 20 : n == 3 && !TIER ? 16 : n == 2 && !TIER ? 44 : NT; static const char *PRE[] = {"", "(", "(foo ", "((", "'("}; int p = fs_choice("pre", n >= 4 - !TIER ? 1 : n == 2 && !TIER ? 3 : 5); if (n >= 4 - !TIER) p++; S code = PRE[p]; for (int i = 0; i < n; i++) code += S(TOK[fs_choice(("t" + s_(i)).c_str(), some)]) + " "; static const char *SUF[] = {"", ")", "))"}; code += SUF[p == 0 ? 0 : p == 3 ? 2 : 1]; fs_reach("arbitrary tokens"); outcome(run(code), code); }
  if (part == 5) {         // programs with a token removed, doubled or replaced
    int w = fs_choice("program", sizeof(PROG) / sizeof(PROG[0])); auto t = split(PROG[w]); int at = fs_choice("at", (int)t.size()), how = fs_choice("how", TIER ? NT + 3 : 20); S code; for (size_t i = 0; i < t.size(); i++) { if ((int)i != at) { code += t[i] + " "; continue; } if (how == 0) continue; if (how == 1) code += t[i] + " " + t[i] + " "; else if (how == 2 && i + 1 < t.size()) { code += t[i + 1] + " " + t[i] + " "; i++; } else if (how > 2) code += S(TOK[how - 3]) + " "; }
    FS_ASSUME(!(w == 0 && at == 16 && how == 9));      /* makes a list that contains itself */ fs_reach("damaged program"); R r = run(code); outcome(r, code); if (TIER == 0 && how < 3) save(code); }
  if (part == 6) {         // results of functions as arguments of functions
    auto n = names(false); int f = fs_choice("outer", (int)n.size()), h = inner(n), how = fs_choice("arguments", TIER ? 4 : 1); static const char *AR[] = {"'(1 2) 1", "\"ab\" 1", "d1 1 foo", "a0 '(3 4)"}; static const char *OU[] = {" 1", "", " 1", " '(1 2)"}; run("(gdef d1 (make-dict))"); setv("a0", arg(11, "x")); S code = "(" + n[f] + " (" + n[h] + " " + AR[how] + ")" + OU[how] + ")"; fs_reach("nested calls"); outcome(run(code), code); }
}
