// C01: the tokenizer against an independent reading of the text (one pass over the characters, state = inside string / atom).
#include "vals.h"
struct T { char kind; S text; size_t start, stop, line; };   // kind: a atom, s string, p punctuation, c comment
static bool ws(unsigned char c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }
// 0: tokens, 1: LISP error, 2: not specified (backslash outside of a string)
static int ref(const S &c, std::vector<T> &out) {
  size_t line = 1, start = 0, n = c.size(); S cur; bool atom = false;
  auto add = [&](char k, const S &t, size_t stop) { T x; x.kind = k; x.text = t; x.start = start; x.stop = stop; x.line = line; out.push_back(x); start = stop + 1; };
  for (size_t i = 0; i < n; i++) {
    unsigned char ch = c[i];
    bool isWs = ws(ch);
    if (!isWs && ch == '\\') return 2;
    bool br = !isWs && (ch == '(' || ch == ')'), semi = !isWs && !br && ch == ';', qu = !isWs && !br && !semi && (ch == '\'' || ch == '`' || ch == ','), dq = !isWs && !br && !semi && !qu && ch == '"';
    if (!(isWs || br || semi || qu || dq)) { atom = true; cur += (char)ch; continue; }
    if (atom) { add('a', cur, i); atom = false; cur = ""; }
    if (isWs) { if (ch == '\n') line++; }
    else if (br) add('p', S(1, (char)ch), i);
    else if (semi) { size_t e = i; S t; while (e < n && c[e] != '\n') t += c[e++]; if (e < n) t += c[e]; add('c', t, i); i = e; line++; }
    else if (qu) { if (ch == ',' && i + 1 < n && c[i + 1] == '@') { i++; add('p', ",@", i); } else add('p', S(1, (char)ch), i); }
    else { S t; bool end = false;
      for (i++; i < n; i++) { unsigned char d = c[i]; bool w = ws(d);
        if (!w && d == '\\') { if (++i >= n) return 1; unsigned char e = c[i]; bool we = ws(e);
          if (we || e == '\\' || e == '(' || e == ')' || e == ';' || e == '\'' || e == '`' || e == ',' || e == '"') { t += (char)e; if (e == '\n') line++; }
          else if (e == 'n') t += '\n'; else if (e == 'r') t += '\r'; else if (e == 't') t += '\t'; else return 1; continue; }
        if (!w && d == '"') { end = true; break; }
        if (d == '\n') line++;
        t += (char)d; }
      if (!end) return 1;
      add('s', t, i); } }
  if (atom) add('a', cur, n);
  return 0; }
static void check(const S &code, size_t offset) {
  std::vector<T> e; int k = ref(code, e); std::vector<std::shared_ptr<LispToken>> t; int r = 0;
  try { auto x = LispTokenizer::Tokenize(code, offset); t = x.ToArray(); } catch (LispException &) { r = 1; } catch (LispExceptionBase &) { r = 1; } catch (...) { r = 2; }
  fs_reach(k == 0 ? "tokens" : k == 1 ? "error" : "unspecified"); FS_ASSERT(r != 2, "only-lisp-errors"); if (k == 2) return;
  FS_ASSERT(r == k, "error-exactly-for-unknown-escapes-and-open-strings"); if (k) return;
  FS_ASSERT(t.size() == e.size(), "number-of-tokens");
  for (size_t i = 0; i < e.size(); i++) { LispToken &a = *t[i]; S v;
    if (e[i].kind == 'p') { FS_ASSERT(a.Type == (e[i].text == "(" ? ListStart : e[i].text == ")" ? ListEnd : e[i].text == "'" ? Quote : e[i].text == "`" ? QuasiQuote : e[i].text == "," ? UnQuote : UnQuoteSplicing), "punctuation"); }
    else if (e[i].kind == 's') { FS_ASSERT(a.Type == LispTokenType::String, "string:type"); v = a.ToString(); FS_ASSERT(v == e[i].text, "string:text"); }
    else if (e[i].kind == 'c') { FS_ASSERT(a.Type == Comment, "comment:type"); v = a.ToString(); FS_ASSERT(v == e[i].text, "comment:text"); }
    else switch (a.Type) {
      case Int: { size_t p = 0; unsigned u = 0; bool neg = e[i].text[0] == '-'; if (neg || e[i].text[0] == '+') p++; for (; p < e[i].text.size(); p++) u = u * 10 + (unsigned)(e[i].text[p] - '0'); FS_ASSERT((int)*a.Value == (int)(neg ? 0u - u : u), "atom:int"); break; }
      case Double: for (size_t p = 0; p < e[i].text.size(); p++) FS_ASSERT(S("0123456789+-.eE").find(e[i].text[p]) != S::npos, "atom:double"); break;
      case True: FS_ASSERT(e[i].text == "#t" || e[i].text == "true", "atom:true"); break;
      case False: FS_ASSERT(e[i].text == "#f" || e[i].text == "false", "atom:false"); break;
      case Nil: FS_ASSERT(e[i].text.size() == 3, "atom:nil"); break;
      case LispTokenType::Symbol: v = a.ToString(); FS_ASSERT(v == e[i].text, "atom:text"); break;
      default: FS_ASSERT(false, "atom:type"); }
    FS_ASSERT(a.LineNo == e[i].line, "line"); FS_ASSERT(a.StartPos == e[i].start - offset, "start"); FS_ASSERT(a.StopPos == e[i].stop - offset, "stop"); } }
extern "C" void fs_main() {
  fs_guard("crash");
#ifdef ONLY
  switch (ONLY)
#else
  switch (fs_choice("part", 5))
#endif
  {
  case 0: { int n = fs_choice("n", TIER ? 6 : 5); S s = symStr("c", n);
    if (n > (TIER ? 4 : 3)) for (int i = 0; i < n; i++) { unsigned char c = s[i]; FS_ASSUME((c == ' ') | (c == '\n') | (c == '(') | (c == '\'') | (c == ',') | (c == '@') | (c == ';') | (c == '"') | (c == '\\') | (c == 'a') | (c == '1')); }   // one character of each class
    check(s, 0); break; }
  case 1: { int n = fs_choice("n", TIER ? 5 : 4); S s = symStr("c", n); check("(do \"" + s + "\" x)", 4); break; }                       // inside a string literal
  case 2: { S s = symStr("c", 3); check(S("ab") + s[0] + "cd" + s[1] + s[2] + "e", 0); break; }   // between atoms
  case 3: { S s = symStr("c", 3); check(S("x ;") + s[0] + s[1] + "\n" + s[2] + "y", 0); break; }   // around a comment
  default: { S s = symStr("c", 2); check(S("(do '(a \"b\n") + s[0] + "\") ; c\n\n `(,@" + s[1] + " ,b)\n)", 4); break; }   // a program: lines and offsets
  }
}
