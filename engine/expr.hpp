// Hash-consed bit-vector expressions with simplification, concrete evaluation and translation to Z3.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <bitset>
#include <unordered_map>
#include <map>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef int32_t i32; typedef uint16_t u16; typedef uint8_t u8;
static const int MAXVARS = 512;
typedef std::bitset<MAXVARS> VarSet;

enum EK : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
  E_FADD, E_FSUB, E_FMUL, E_FDIV, E_FREM, E_FEQ, E_FLT, E_FLE, E_FUNO, E_SITOFP, E_UITOFP, E_FPTOSI, E_FPTOUI, E_FPEXT, E_FPTRUNC,
  E_FSQRT, E_FFLOOR, E_FCEIL, E_FTRUNC, E_FRINT, E_FROUND };

struct Expr {
  EK k; u8 w; bool fp; bool sc; u32 id; u64 c; Expr *a, *b, *d; Expr *next; u32 hash;
  const VarSet *vs;
  u32 stamp; u64 ev;
  Z3_ast zbv, zbool, zfp;
};

static inline u64 maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float asF(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static inline u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }

struct VarInfo { std::string name; int bits; Expr *e; };

class ExprCtx {
public:
  std::vector<Expr *> buckets; u32 count = 0; u32 nextid = 1;
  std::vector<VarInfo> vars; std::vector<u64> model; u32 modelStamp = 1;
  Expr *T, *F;
  struct VSHash { size_t operator()(const VarSet &v) const { return std::hash<VarSet>()(v); } };
  std::unordered_map<VarSet, const VarSet *, VSHash> vsets; const VarSet *emptyVS;
  // Z3
  Z3_context z3 = nullptr; Z3_solver sBV = nullptr, sFP = nullptr;
  char *arena = nullptr; size_t arenaLeft = 0;

  ExprCtx() { buckets.resize(1 << 16); emptyVS = internVS(VarSet()); F = cst(0, 1); T = cst(1, 1); }
  const VarSet *internVS(const VarSet &v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; auto p = new VarSet(v); vsets[v] = p; return p; }
  const VarSet *unionVS(const VarSet *x, const VarSet *y) { if (x == y || y == emptyVS) return x; if (x == emptyVS) return y; VarSet u = *x | *y; if (u == *x) return x; if (u == *y) return y; return internVS(u); }
  Expr *alloc() { if (arenaLeft < sizeof(Expr)) { arenaLeft = 1 << 18; arena = (char *)malloc(arenaLeft); } Expr *e = (Expr *)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e; }
  Expr *raw(EK k, int w, u64 c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr) {
    u32 h = (u32)k * 0x9E3779B1u ^ (u32)w * 0x85EBCA6Bu ^ (u32)(c ^ (c >> 32)) * 0xC2B2AE35u;
    h = (h << 5 | h >> 27) ^ (a ? a->id * 0x27D4EB2Fu : 0); h = (h << 7 | h >> 25) ^ (b ? b->id * 0x165667B1u : 0); h = (h << 11 | h >> 21) ^ (d ? d->id * 0xD3A2646Cu : 0);
    h ^= h >> 15; h *= 0x2c1b3c6du; h ^= h >> 12;
    if (count > buckets.size() * 2) rehash();
    Expr **p = &buckets[h & (buckets.size() - 1)];
    for (Expr *e = *p; e; e = e->next) if (e->hash == h && e->k == k && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d) return e;
    Expr *e = alloc(); e->k = k; e->w = (u8)w; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = h; e->id = nextid++; e->next = *p; *p = e; count++;
    e->fp = (k >= E_FADD) || (a && a->fp) || (b && b->fp) || (d && d->fp); e->sc = false;
    e->stamp = 0; e->ev = 0; e->zbv = e->zbool = e->zfp = nullptr;
    const VarSet *vs = emptyVS; if (a) vs = unionVS(vs, a->vs); if (b) vs = unionVS(vs, b->vs); if (d) vs = unionVS(vs, d->vs); e->vs = vs;
    return e;
  }
  void rehash() { std::vector<Expr *> nb(buckets.size() * 4); for (Expr *e : buckets) while (e) { Expr *n = e->next; Expr **p = &nb[e->hash & (nb.size() - 1)]; e->next = *p; *p = e; e = n; } buckets.swap(nb); }
  Expr *cst(u64 v, int w) { return raw(E_CONST, w, v & maskw(w)); }
  Expr *boolc(bool b) { return b ? T : F; }
  Expr *newVar(const std::string &name, int bits, u64 init) {
    if (vars.size() >= (size_t)MAXVARS) return nullptr;
    Expr *e = raw(E_VAR, bits, vars.size()); VarSet v; v.set(vars.size()); e->vs = internVS(v);
    vars.push_back({name, bits, e}); model.push_back(init & maskw(bits)); modelStamp++; return e; }
  static bool isC(Expr *e) { return e->k == E_CONST; }

  // ---------------------------------------------------------- concrete semantics
  static u64 fold(EK k, int w, u64 c, u64 x, u64 y, u64 z, int wa) {
    switch (k) {
    case E_ADD: return (x + y) & maskw(w); case E_SUB: return (x - y) & maskw(w); case E_MUL: return (x * y) & maskw(w);
    case E_UDIV: return y ? x / y : maskw(w); case E_UREM: return y ? x % y : x;
    case E_SDIV: { i64 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : maskw(w); if (b == -1) return (0 - x) & maskw(w); return (u64)(a / b) & maskw(w); }
    case E_SREM: { i64 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & maskw(w); }
    case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
    case E_SHL: return y >= (u64)w ? 0 : (x << y) & maskw(w); case E_LSHR: return y >= (u64)w ? 0 : x >> y;
    case E_ASHR: return (u64)(sx(x, w) >> (y >= (u64)w ? w - 1 : (int)y)) & maskw(w);
    case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y;
    case E_SLT: return sx(x, wa) < sx(y, wa); case E_SLE: return sx(x, wa) <= sx(y, wa);
    case E_ITE: return x ? y : z;
    case E_CONCAT: return 0; // handled by caller (needs width of b)
    case E_EXTRACT: return (x >> c) & maskw(w);
    case E_ZEXT: return x; case E_SEXT: return (u64)sx(x, wa) & maskw(w);
    case E_FADD: return w == 64 ? fromD(asD(x) + asD(y)) : fromF(asF(x) + asF(y));
    case E_FSUB: return w == 64 ? fromD(asD(x) - asD(y)) : fromF(asF(x) - asF(y));
    case E_FMUL: return w == 64 ? fromD(asD(x) * asD(y)) : fromF(asF(x) * asF(y));
    case E_FDIV: return w == 64 ? fromD(asD(x) / asD(y)) : fromF(asF(x) / asF(y));
    case E_FREM: return w == 64 ? fromD(fmod(asD(x), asD(y))) : fromF(fmodf(asF(x), asF(y)));
    case E_FEQ: return wa == 64 ? asD(x) == asD(y) : asF(x) == asF(y);
    case E_FLT: return wa == 64 ? asD(x) < asD(y) : asF(x) < asF(y);
    case E_FLE: return wa == 64 ? asD(x) <= asD(y) : asF(x) <= asF(y);
    case E_FUNO: return wa == 64 ? std::isnan(asD(x)) || std::isnan(asD(y)) : std::isnan(asF(x)) || std::isnan(asF(y));
    case E_SITOFP: return w == 64 ? fromD((double)sx(x, wa)) : fromF((float)sx(x, wa));
    case E_UITOFP: return w == 64 ? fromD((double)x) : fromF((float)x);
    case E_FPTOSI: { double d = wa == 64 ? asD(x) : asF(x); double lim = ldexp(1.0, w - 1); d = trunc(d); if (!(d >= -lim && d < lim)) return 1ull << (w - 1); return (u64)(i64)d & maskw(w); }
    case E_FPTOUI: { double d = wa == 64 ? asD(x) : asF(x); d = trunc(d); if (!(d > -1 && d < ldexp(1.0, w))) return 1ull << (w - 1); return (u64)d & maskw(w); }
    case E_FPEXT: return fromD((double)asF(x)); case E_FPTRUNC: return fromF((float)asD(x));
    case E_FSQRT: return w == 64 ? fromD(sqrt(asD(x))) : fromF(sqrtf(asF(x)));
    case E_FFLOOR: return w == 64 ? fromD(floor(asD(x))) : fromF(floorf(asF(x)));
    case E_FCEIL: return w == 64 ? fromD(ceil(asD(x))) : fromF(ceilf(asF(x)));
    case E_FTRUNC: return w == 64 ? fromD(trunc(asD(x))) : fromF(truncf(asF(x)));
    case E_FRINT: return w == 64 ? fromD(rint(asD(x))) : fromF(rintf(asF(x)));
    case E_FROUND: return w == 64 ? fromD(round(asD(x))) : fromF(roundf(asF(x)));
    default: return 0;
    }
  }
  u64 eval(Expr *e) {
    if (e->k == E_CONST) return e->c;
    if (e->stamp == modelStamp) return e->ev;
    u64 r;
    if (e->k == E_VAR) r = model[e->c];
    else if (e->k == E_ITE) r = eval(e->a) ? eval(e->b) : eval(e->d);
    else if (e->k == E_CONCAT) r = (eval(e->a) << e->b->w) | eval(e->b);
    else r = fold(e->k, e->w, e->c, eval(e->a), e->b ? eval(e->b) : 0, 0, e->a->w);
    e->stamp = modelStamp; e->ev = r; return r;
  }
  // upper bound of the unsigned value (cheap)
  static u64 umax(Expr *e, int depth = 4) {
    u64 m = maskw(e->w); if (depth == 0) return m;
    switch (e->k) {
    case E_CONST: return e->c; case E_ZEXT: return umax(e->a, depth - 1);
    case E_AND: return std::min(umax(e->a, depth - 1), umax(e->b, depth - 1));
    case E_LSHR: if (isC(e->b) && e->b->c < e->w) return umax(e->a, depth - 1) >> e->b->c; return m;
    case E_UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; return m;
    case E_UDIV: if (isC(e->b) && e->b->c) return umax(e->a, depth - 1) / e->b->c; return m;
    case E_ITE: return std::max(umax(e->b, depth - 1), umax(e->d, depth - 1));
    default: return m; }
  }
  Expr *nt(Expr *a) { return xor_(a, T); }
  Expr *xor_(Expr *a, Expr *b) { return bin(E_XOR, a, b); }
  Expr *ite(Expr *c, Expr *x, Expr *y) {
    if (isC(c)) return c->c ? x : y;
    if (x == y) return x;
    if (c->k == E_XOR && c->w == 1 && c->b == T) { std::swap(x, y); c = c->a; }
    if (x->w == 1) {
      if (isC(x) && isC(y)) return x->c ? c : nt(c);
      if (isC(x)) return x->c ? bin(E_OR, c, y) : bin(E_AND, nt(c), y);
      if (isC(y)) return y->c ? bin(E_OR, nt(c), x) : bin(E_AND, c, x);
    }
    if (x->k == E_ITE && x->a == c) x = x->b;
    if (y->k == E_ITE && y->a == c) y = y->d;
    if (x == y) return x;
    if (y->k == E_ITE && y->b == x) return ite(bin(E_OR, c, y->a), x, y->d);
    return raw(E_ITE, x->w, 0, c, x, y);
  }
  Expr *extract(Expr *a, int lo, int w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return cst(a->c >> lo, w);
    switch (a->k) {
    case E_EXTRACT: return extract(a->a, lo + (int)a->c, w);
    case E_CONCAT: if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w); if (lo + w <= a->b->w) return extract(a->b, lo, w);
      { int lw = a->b->w - lo; return concat(extract(a->a, 0, w - lw), extract(a->b, lo, lw)); }
    case E_ZEXT: if (lo >= a->a->w) return cst(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo == 0) return zext(a->a, w); return zext(extract(a->a, lo, a->a->w - lo), w);
    case E_SEXT: if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo == 0) return sext(a->a, w); if (lo + w < a->w) return raw(E_EXTRACT, w, lo, sext(a->a, lo + w)); break;
    case E_ITE: if (isC(a->b) || isC(a->d)) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w)); break;
    case E_AND: case E_OR: case E_XOR: if (isC(a->b)) return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w)); break;
    case E_ADD: case E_SUB: case E_MUL: if (lo == 0 && (isC(a->b) || w <= 8)) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w)); break;
    case E_LSHR: if (isC(a->b) && a->b->c + lo + w <= a->w) return extract(a->a, lo + (int)a->b->c, w); break;
    case E_SHL: if (isC(a->b) && a->b->c < a->w) { int s = (int)a->b->c; if (lo >= s) return extract(a->a, lo - s, w); if (lo + w <= s) return cst(0, w); } break;
    default: break; }
    return raw(E_EXTRACT, w, lo, a);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    int w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return zext(lo, w);
    if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(hi->a, (int)lo->c, w);
    // a high part next to the (separately simplified) low part of the same value
    if (hi->k == E_EXTRACT) {
      Expr *x = hi->a; int c = (int)hi->c;
      if (c >= lo->w && extract(x, c - lo->w, lo->w) == lo) return extract(x, c - lo->w, w);
      if (lo->k == E_CONCAT && c >= lo->a->w && extract(x, c - lo->a->w, lo->a->w) == lo->a) return concat(extract(x, c - lo->a->w, hi->w + lo->a->w), lo->b);
      if (x->k == E_SEXT && c + hi->w == x->w && c == lo->w && x->a == lo) return sext(lo, w); }
    return raw(E_CONCAT, w, 0, hi, lo);
  }
  Expr *zext(Expr *a, int w) { if (a->w == w) return a; if (isC(a)) return cst(a->c, w); if (a->k == E_ZEXT) return zext(a->a, w);
    if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, cst(a->b->c, w), cst(a->d->c, w));
    return raw(E_ZEXT, w, 0, a); }
  Expr *sext(Expr *a, int w) { if (a->w == w) return a; if (isC(a)) return cst((u64)sx(a->c, a->w), w); if (a->k == E_SEXT) return sext(a->a, w); if (a->k == E_ZEXT) return zext(a->a, w);
    if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, sext(a->b, w), sext(a->d, w));
    return raw(E_SEXT, w, 0, a); }
  Expr *un(EK k, int w, Expr *a) { if (isC(a)) return cst(fold(k, w, 0, a->c, 0, 0, a->w), w); return raw(k, w, 0, a); }
  Expr *eq(Expr *a, Expr *b) { return bin(E_EQ, a, b); }
  Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *d) {
    switch (e->k) { case E_ITE: return ite(a, b, d); case E_CONCAT: return concat(a, b); case E_EXTRACT: return extract(a, (int)e->c, e->w); case E_ZEXT: return zext(a, e->w); case E_SEXT: return sext(a, e->w);
    case E_SITOFP: case E_UITOFP: case E_FPTOSI: case E_FPTOUI: case E_FPEXT: case E_FPTRUNC: case E_FSQRT: case E_FFLOOR: case E_FCEIL: case E_FTRUNC: case E_FRINT: case E_FROUND: return un(e->k, e->w, a);
    default: return bin(e->k, a, b); } }
  static bool notNaN(Expr *e) { if (isC(e)) return e->w == 64 ? asD(e->c) == asD(e->c) : asF((u32)e->c) == asF((u32)e->c); return e->k == E_SITOFP || e->k == E_UITOFP; }
  Expr *bin(EK k, Expr *a, Expr *b) {
    int w = a->w; int rw = (k >= E_EQ && k <= E_SLE) || (k >= E_FEQ && k <= E_FUNO) ? 1 : w;
    if (isC(a) && isC(b)) return cst(fold(k, rw, 0, a->c, b->c, 0, w), rw);
    bool comm = k == E_FADD || k == E_FMUL || k == E_FEQ || k == E_FUNO || k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    switch (k) {
    case E_ADD:
      if (isC(b)) { if (b->c == 0) return a; if (a->k == E_ADD && isC(a->b)) return bin(E_ADD, a->a, cst(a->b->c + b->c, w)); if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, cst(a->b->c + b->c, w), cst(a->d->c + b->c, w)); }
      else { if (a->k == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_ADD, a->a, b), a->b); if (b->k == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_ADD, a, b->a), b->b); }
      break;
    case E_SUB:
      if (a == b) return cst(0, w); if (isC(b)) return bin(E_ADD, a, cst(0 - b->c, w));
      if (a->k == E_ADD && isC(a->b)) return bin(E_ADD, bin(E_SUB, a->a, b), a->b);
      if (b->k == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_SUB, a, b->a), cst(0 - b->b->c, w));
      if (a->k == E_ADD && a->a == b) return a->b; if (a->k == E_ADD && a->b == b) return a->a;
      break;
    case E_MUL: if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; if (!(b->c & (b->c - 1))) return bin(E_SHL, a, cst(__builtin_ctzll(b->c), w)); } break;
    case E_UDIV: if (isC(b)) { if (b->c == 1) return a; if (b->c && !(b->c & (b->c - 1))) return bin(E_LSHR, a, cst(__builtin_ctzll(b->c), w)); if (umax(a) < b->c) return cst(0, w); } break;
    case E_SDIV: if (isC(b) && b->c == 1) return a; break;
    case E_UREM: if (isC(b)) { if (b->c == 1) return cst(0, w); if (b->c && !(b->c & (b->c - 1))) return bin(E_AND, a, cst(b->c - 1, w)); if (umax(a) < b->c) return a; } break;
    case E_SREM: if (isC(b) && b->c == 1) return cst(0, w); break;
    case E_AND: if (a == b) return a;
      if (isC(b)) { if (b->c == 0) return b; if (b->c == maskw(w)) return a; if (a->k == E_AND && isC(a->b)) return bin(E_AND, a->a, cst(a->b->c & b->c, w));
        u64 um = umax(a); if (!(b->c & (b->c + 1)) && um <= b->c) return a; // low mask
        if (!(b->c & (b->c + 1)) && w > 1) { int n = __builtin_popcountll(b->c); return zext(extract(a, 0, n), w); }
        if (a->k == E_ZEXT) { u64 m = maskw(a->a->w); return zext(bin(E_AND, a->a, cst(b->c & m, a->a->w)), w); }
        if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b)); }
      if (w == 1) { if (a->k == E_XOR && a->b == T && a->a == b) return F; if (b->k == E_XOR && b->b == T && b->a == a) return F; }
      break;
    case E_OR: if (a == b) return a; if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b)); }
      if (w == 1) { if (a->k == E_XOR && a->b == T && a->a == b) return T; if (b->k == E_XOR && b->b == T && b->a == a) return T; }
      // (zext x) | (zext y << n)  -> concat, as produced by byte-wise assembly
      { Expr *p = a, *q = b; for (int i = 0; i < 2; i++) { if (q->k == E_SHL && isC(q->b) && p->k == E_ZEXT && p->a->w <= q->b->c && q->b->c < (u64)w) { int s = (int)q->b->c; return concat(extract(q->a, 0, w - s), zext(p->a, s)); } std::swap(p, q); } }
      break;
    case E_XOR: if (a == b) return cst(0, w); if (isC(b)) { if (b->c == 0) return a; if (a->k == E_XOR && isC(a->b)) return bin(E_XOR, a->a, cst(a->b->c ^ b->c, w)); if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b)); } break;
    case E_SHL: if (isC(b)) { if (b->c == 0) return a; if (b->c >= (u64)w) return cst(0, w); if (a->k == E_SHL && isC(a->b)) { u64 s = a->b->c + b->c; return s >= (u64)w ? cst(0, w) : bin(E_SHL, a->a, cst(s, w)); } } break;
    case E_LSHR: if (isC(b)) { if (b->c == 0) return a; if (b->c >= (u64)w) return cst(0, w); return zext(extract(a, (int)b->c, w - (int)b->c), w); } break;
    case E_ASHR: if (isC(b)) { if (b->c == 0) return a; u64 s = b->c >= (u64)w ? w - 1 : b->c; return sext(extract(a, (int)s, w - (int)s), w); } break;
    case E_EQ:
      if (a == b) return T;
      if (w == 1 && isC(b)) return b->c ? a : nt(a);
      if (w == 1) { return nt(bin(E_XOR, a, b)); }
      if (isC(b)) {
        if (a->k == E_ZEXT) { if (b->c > maskw(a->a->w)) return F; return bin(E_EQ, a->a, cst(b->c, a->a->w)); }
        if (a->k == E_SEXT) { if ((u64)sx(b->c & maskw(a->a->w), a->a->w) != (u64)sx(b->c, w)) return F; return bin(E_EQ, a->a, cst(b->c, a->a->w)); }
        if (a->k == E_ADD && isC(a->b)) return bin(E_EQ, a->a, cst(b->c - a->b->c, w));
        if (a->k == E_XOR && isC(a->b)) return bin(E_EQ, a->a, cst(b->c ^ a->b->c, w));
        if (a->k == E_SUB && b->c == 0) return bin(E_EQ, a->a, a->b);
        if (a->k == E_ITE && (isC(a->b) || isC(a->d))) return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->d, b));
        if (a->k == E_CONCAT) return bin(E_AND, bin(E_EQ, a->a, cst(b->c >> a->b->w, a->a->w)), bin(E_EQ, a->b, cst(b->c, a->b->w)));
        if (b->c > umax(a)) return F;
      } else {
        if (a->k == E_ZEXT && b->k == E_ZEXT) { int m = std::max(a->a->w, b->a->w); if (m < w) return bin(E_EQ, zext(a->a, m), zext(b->a, m)); }
        if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        if (a->k == E_ADD && isC(a->b) && a->a == b) return F; if (b->k == E_ADD && isC(b->b) && b->a == a) return F;
      }
      break;
    case E_ULT:
      if (a == b) return F;
      if (isC(b)) { if (b->c == 0) return F; if (b->c == 1) return bin(E_EQ, a, cst(0, w)); if (umax(a) < b->c) return T; if (a->k == E_ZEXT) return bin(E_ULT, a->a, cst(b->c, a->a->w)); if (a->k == E_ITE && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b)); }
      if (isC(a)) { if (a->c == maskw(w)) return F; if (umax(b) <= a->c) return F; if (b->k == E_ZEXT) return bin(E_ULT, cst(a->c, b->a->w), b->a); if (b->k == E_ITE && isC(b->b) && isC(b->d)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->d)); }
      if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
      break;
    case E_FEQ: if (a == b) return nt(bin(E_FUNO, a, a)); break;
    case E_FUNO: if (notNaN(a) && notNaN(b)) return F; if (a != b) { if (notNaN(b)) return bin(k, a, a); if (notNaN(a)) return bin(k, b, b); } break;
    case E_ULE: return nt(bin(E_ULT, b, a));
    case E_SLT:
      if (a == b) return F;
      if (a->k == E_ZEXT && isC(b)) { if (sx(b->c, w) <= 0) return F; return bin(E_ULT, a, b); }
      if (b->k == E_ZEXT && isC(a)) { if (sx(a->c, w) < 0) return T; return bin(E_ULT, a, b); }
      if (a->k == E_ZEXT && b->k == E_ZEXT) return bin(E_ULT, a, b);
      if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w) return bin(E_SLT, a->a, b->a);
      if (a->k == E_SEXT && isC(b)) { i64 v = sx(b->c, w), lo = -(1ll << (a->a->w - 1)), hi = (1ll << (a->a->w - 1)) - 1; if (v > hi) return T; if (v <= lo) return F; return bin(E_SLT, a->a, cst((u64)v, a->a->w)); }
      if (b->k == E_SEXT && isC(a)) { i64 v = sx(a->c, w), lo = -(1ll << (b->a->w - 1)), hi = (1ll << (b->a->w - 1)) - 1; if (v >= hi) return F; if (v < lo) return T; return bin(E_SLT, cst((u64)v, b->a->w), b->a); }
      if (a->k == E_ITE && isC(b) && isC(a->b) && isC(a->d)) return ite(a->a, bin(k, a->b, b), bin(k, a->d, b));
      if (b->k == E_ITE && isC(a) && isC(b->b) && isC(b->d)) return ite(b->a, bin(k, a, b->b), bin(k, a, b->d));
      break;
    case E_SLE: return nt(bin(E_SLT, b, a));
    default: break;
    }
    return raw(k, rw, 0, a, b);
  }

  // ---------------------------------------------------------- Z3
  Z3_sort bvs(int w) { return Z3_mk_bv_sort(z3, w); }
  Z3_ast keep(Z3_ast a) { return a; } // non-refcounted context: terms live as long as the process
  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
  Z3_ast rne = nullptr, rtz, rtp, rtn, rna;
  void z3init() {
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); z3 = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(z3, onErr);
    rne = keep(Z3_mk_fpa_rne(z3)); rtz = keep(Z3_mk_fpa_rtz(z3)); rtp = keep(Z3_mk_fpa_rtp(z3)); rtn = keep(Z3_mk_fpa_rtn(z3)); rna = keep(Z3_mk_fpa_rna(z3));
    Z3_tactic t = Z3_mk_tactic(z3, "qfbv"); Z3_tactic_inc_ref(z3, t); sBV = Z3_mk_solver_from_tactic(z3, t); Z3_solver_inc_ref(z3, sBV);
    t = Z3_mk_tactic(z3, "qffpbv"); Z3_tactic_inc_ref(z3, t); sFP = Z3_mk_solver_from_tactic(z3, t); Z3_solver_inc_ref(z3, sFP);
  }
  void setRlimit(unsigned bv, unsigned fp) {
    for (int i = 0; i < 2; i++) { Z3_params p = Z3_mk_params(z3); Z3_params_inc_ref(z3, p); Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "rlimit"), i ? fp : bv); Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "max_memory"), 3000); Z3_solver_set_params(z3, i ? sFP : sBV, p); Z3_params_dec_ref(z3, p); }
  }
  Z3_sort fps(int w) { return w == 64 ? Z3_mk_fpa_sort_64(z3) : Z3_mk_fpa_sort_32(z3); }
  Z3_ast zF(Expr *e) {
    if (e->zfp) return e->zfp; Z3_ast r; int w = e->w;
    switch (e->k) {
    case E_FADD: r = Z3_mk_fpa_add(z3, rne, zF(e->a), zF(e->b)); break; case E_FSUB: r = Z3_mk_fpa_sub(z3, rne, zF(e->a), zF(e->b)); break;
    case E_FMUL: r = Z3_mk_fpa_mul(z3, rne, zF(e->a), zF(e->b)); break; case E_FDIV: r = Z3_mk_fpa_div(z3, rne, zF(e->a), zF(e->b)); break;
    case E_SITOFP: r = Z3_mk_fpa_to_fp_signed(z3, rne, zB(e->a), fps(w)); break; case E_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(z3, rne, zB(e->a), fps(w)); break;
    case E_FPEXT: case E_FPTRUNC: r = Z3_mk_fpa_to_fp_float(z3, rne, zF(e->a), fps(w)); break;
    case E_FSQRT: r = Z3_mk_fpa_sqrt(z3, rne, zF(e->a)); break;
    case E_FFLOOR: r = Z3_mk_fpa_round_to_integral(z3, rtn, zF(e->a)); break; case E_FCEIL: r = Z3_mk_fpa_round_to_integral(z3, rtp, zF(e->a)); break;
    case E_FTRUNC: r = Z3_mk_fpa_round_to_integral(z3, rtz, zF(e->a)); break; case E_FRINT: r = Z3_mk_fpa_round_to_integral(z3, rne, zF(e->a)); break;
    case E_FROUND: r = Z3_mk_fpa_round_to_integral(z3, rna, zF(e->a)); break;
    case E_ITE: r = Z3_mk_ite(z3, zT(e->a), zF(e->b), zF(e->d)); break;
    default: r = Z3_mk_fpa_to_fp_bv(z3, zB(e), fps(w)); break; }
    return e->zfp = keep(r);
  }
  Z3_ast zT(Expr *e) { // boolean
    if (e->zbool) return e->zbool; Z3_ast r, x[2];
    switch (e->k) {
    case E_CONST: r = e->c ? Z3_mk_true(z3) : Z3_mk_false(z3); break;
    case E_AND: x[0] = zT(e->a); x[1] = zT(e->b); r = Z3_mk_and(z3, 2, x); break;
    case E_OR: x[0] = zT(e->a); x[1] = zT(e->b); r = Z3_mk_or(z3, 2, x); break;
    case E_XOR: if (e->b == T) r = Z3_mk_not(z3, zT(e->a)); else r = Z3_mk_xor(z3, zT(e->a), zT(e->b)); break;
    case E_EQ: r = e->a->w == 1 ? Z3_mk_iff(z3, zT(e->a), zT(e->b)) : Z3_mk_eq(z3, zB(e->a), zB(e->b)); break;
    case E_ULT: r = Z3_mk_bvult(z3, zB(e->a), zB(e->b)); break; case E_ULE: r = Z3_mk_bvule(z3, zB(e->a), zB(e->b)); break;
    case E_SLT: r = Z3_mk_bvslt(z3, zB(e->a), zB(e->b)); break; case E_SLE: r = Z3_mk_bvsle(z3, zB(e->a), zB(e->b)); break;
    case E_ITE: r = Z3_mk_ite(z3, zT(e->a), zT(e->b), zT(e->d)); break;
    case E_FEQ: r = Z3_mk_fpa_eq(z3, zF(e->a), zF(e->b)); break; case E_FLT: r = Z3_mk_fpa_lt(z3, zF(e->a), zF(e->b)); break; case E_FLE: r = Z3_mk_fpa_leq(z3, zF(e->a), zF(e->b)); break;
    case E_FUNO: x[0] = Z3_mk_fpa_is_nan(z3, zF(e->a)); x[1] = Z3_mk_fpa_is_nan(z3, zF(e->b)); r = Z3_mk_or(z3, 2, x); break;
    default: r = Z3_mk_eq(z3, zB(e), Z3_mk_int(z3, 1, bvs(1))); break; }
    return e->zbool = keep(r);
  }
  Z3_ast zB(Expr *e) {
    if (e->zbv) return e->zbv; Z3_ast r;
    switch (e->k) {
    case E_CONST: r = Z3_mk_unsigned_int64(z3, e->c, bvs(e->w)); break;
    case E_VAR: { char nm[32]; snprintf(nm, sizeof nm, "v%d", (int)e->c); r = Z3_mk_const(z3, Z3_mk_string_symbol(z3, nm), bvs(e->w)); break; }
#define ZB2(K, FN) case K: if (e->w == 1 && K >= E_AND && K <= E_XOR) r = Z3_mk_ite(z3, zT(e), Z3_mk_int(z3, 1, bvs(1)), Z3_mk_int(z3, 0, bvs(1))); else r = FN(z3, zB(e->a), zB(e->b)); break;
    ZB2(E_ADD, Z3_mk_bvadd) ZB2(E_SUB, Z3_mk_bvsub) ZB2(E_MUL, Z3_mk_bvmul) ZB2(E_UDIV, Z3_mk_bvudiv) ZB2(E_SDIV, Z3_mk_bvsdiv) ZB2(E_UREM, Z3_mk_bvurem) ZB2(E_SREM, Z3_mk_bvsrem)
    ZB2(E_AND, Z3_mk_bvand) ZB2(E_OR, Z3_mk_bvor) ZB2(E_XOR, Z3_mk_bvxor) ZB2(E_SHL, Z3_mk_bvshl) ZB2(E_LSHR, Z3_mk_bvlshr) ZB2(E_ASHR, Z3_mk_bvashr) ZB2(E_CONCAT, Z3_mk_concat)
#undef ZB2
    case E_EXTRACT: r = Z3_mk_extract(z3, (unsigned)e->c + e->w - 1, (unsigned)e->c, zB(e->a)); break;
    case E_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(z3, zT(e->a), Z3_mk_int(z3, 1, bvs(e->w)), Z3_mk_int(z3, 0, bvs(e->w))); else r = Z3_mk_zero_ext(z3, e->w - e->a->w, zB(e->a)); break;
    case E_SEXT: r = Z3_mk_sign_ext(z3, e->w - e->a->w, zB(e->a)); break;
    case E_ITE: r = Z3_mk_ite(z3, zT(e->a), zB(e->b), zB(e->d)); break;
    case E_FPTOSI: { double lim = ldexp(1.0, e->w - 1); Z3_ast f = zF(e->a); Z3_sort s = fps(e->a->w); Z3_ast t = Z3_mk_fpa_round_to_integral(z3, rtz, f);
      Z3_ast c[2] = {Z3_mk_fpa_geq(z3, t, Z3_mk_fpa_numeral_double(z3, -lim, s)), Z3_mk_fpa_lt(z3, t, Z3_mk_fpa_numeral_double(z3, lim, s))};
      r = Z3_mk_ite(z3, Z3_mk_and(z3, 2, c), Z3_mk_fpa_to_sbv(z3, rtz, f, e->w), Z3_mk_unsigned_int64(z3, 1ull << (e->w - 1), bvs(e->w))); break; }
    case E_FPTOUI: { Z3_ast f = zF(e->a); Z3_sort s = fps(e->a->w); Z3_ast t = Z3_mk_fpa_round_to_integral(z3, rtz, f);
      Z3_ast c[2] = {Z3_mk_fpa_gt(z3, t, Z3_mk_fpa_numeral_double(z3, -1, s)), Z3_mk_fpa_lt(z3, t, Z3_mk_fpa_numeral_double(z3, ldexp(1.0, e->w), s))};
      r = Z3_mk_ite(z3, Z3_mk_and(z3, 2, c), Z3_mk_fpa_to_ubv(z3, rtz, f, e->w), Z3_mk_unsigned_int64(z3, 1ull << (e->w - 1), bvs(e->w))); break; }
    case E_FADD: case E_FSUB: case E_FMUL: case E_FDIV: case E_FREM: case E_SITOFP: case E_UITOFP: case E_FPEXT: case E_FPTRUNC: case E_FSQRT: case E_FFLOOR: case E_FCEIL: case E_FTRUNC: case E_FRINT: case E_FROUND: {
      Z3_ast f = zF(e); r = Z3_mk_ite(z3, Z3_mk_fpa_is_nan(z3, f), Z3_mk_unsigned_int64(z3, e->w == 64 ? 0x7ff8000000000000ull : 0x7fc00000ull, bvs(e->w)), Z3_mk_fpa_to_ieee_bv(z3, f)); break; }
    default: // 1-bit predicates
      r = Z3_mk_ite(z3, zT(e), Z3_mk_int(z3, 1, bvs(1)), Z3_mk_int(z3, 0, bvs(1))); break; }
    return e->zbv = keep(r);
  }
  std::string str(Expr *e, int depth = 6) {
    static const char *nm[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "f+", "f-", "f*", "f/", "frem", "f==", "f<", "f<=", "funo", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "sqrt", "floor", "ceil", "trunc", "rint", "round"};
    char b[64];
    if (e->k == E_CONST) { snprintf(b, sizeof b, "%lld", (long long)sx(e->c, e->w)); return b; }
    if (e->k == E_VAR) return vars[e->c].name; if (depth == 0) return "...";
    std::string s = "("; s += nm[e->k]; if (e->k == E_EXTRACT) { snprintf(b, sizeof b, "[%d+%d]", (int)e->c, e->w); s += b; }
    if (e->k == E_ZEXT || e->k == E_SEXT) { snprintf(b, sizeof b, "%d", e->w); s += b; }
    if (e->a) s += " " + str(e->a, depth - 1); if (e->b) s += " " + str(e->b, depth - 1); if (e->d) s += " " + str(e->d, depth - 1); return s + ")";
  }
};
