// Hash-consed bit-vector expression DAG with a local simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum EK : u8 {
  K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
  K_AND, K_OR, K_XOR, K_NOT, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_SLT,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT
};

struct SymSet { // immutable set of symbol ids
  std::vector<u64> bits;
  bool has(u32 i) const { return (i >> 6) < bits.size() && (bits[i >> 6] >> (i & 63) & 1); }
  bool intersects(const SymSet &o) const {
    size_t n = std::min(bits.size(), o.bits.size());
    for (size_t i = 0; i < n; i++) if (bits[i] & o.bits[i]) return true;
    return false;
  }
  bool contains(const SymSet &o) const {
    for (size_t i = 0; i < o.bits.size(); i++) {
      u64 m = i < bits.size() ? bits[i] : 0;
      if (o.bits[i] & ~m) return false;
    }
    return true;
  }
  void add(const SymSet &o) {
    if (bits.size() < o.bits.size()) bits.resize(o.bits.size(), 0);
    for (size_t i = 0; i < o.bits.size(); i++) bits[i] |= o.bits[i];
  }
};

struct Expr {
  EK k; u16 w; u16 lo; // lo: low bit for extract
  u32 id; u32 hash;
  u128 c;              // constant / symbol id
  Expr *a, *b, *d;
  Expr *next;
  const SymSet *syms;
  Z3_ast zbv, zbool;
  u64 epoch; u128 ev;
  Expr *neg;           // cached boolean negation
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sx(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

struct ExprPool {
  std::vector<Expr *> tab;
  size_t count = 0;
  char *blk = nullptr; size_t left = 0;
  const SymSet *empty = new SymSet();
  size_t bytes = 0;
  ExprPool() : tab(1 << 20, nullptr) {}
  Expr *alloc() {
    if (left < sizeof(Expr)) { left = 1 << 20; blk = (char *)malloc(left); bytes += left; }
    Expr *e = (Expr *)blk; blk += sizeof(Expr); left -= sizeof(Expr);
    return e;
  }
  static u32 h(EK k, u16 w, u16 lo, u128 c, Expr *a, Expr *b, Expr *d) {
    u64 x = (u64)k * 0x9E3779B97F4A7C15ull ^ ((u64)w << 32) ^ ((u64)lo << 48);
    x ^= (u64)c * 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x += (u64)(c >> 64) * 0x94D049BB133111EBull;
    x = (x ^ (a ? a->id * 0x9E3779B1u : 7)) * 0xff51afd7ed558ccdull; x ^= x >> 32;
    x = (x ^ (b ? b->id * 0x85EBCA77u : 11)) * 0xc4ceb9fe1a85ec53ull; x ^= x >> 31;
    x = (x ^ (d ? d->id * 0xC2B2AE3Du : 13)) * 0x9E3779B97F4A7C15ull; x ^= x >> 33;
    return (u32)x;
  }
  Expr *get(EK k, u16 w, u16 lo, u128 c, Expr *a, Expr *b, Expr *d) {
    u32 hh = h(k, w, lo, c, a, b, d);
    u32 i = hh & (tab.size() - 1);
    for (Expr *e = tab[i]; e; e = e->next)
      if (e->hash == hh && e->k == k && e->w == w && e->lo == lo && e->c == c && e->a == a && e->b == b && e->d == d) return e;
    Expr *e = alloc();
    memset(e, 0, sizeof *e);
    e->k = k; e->w = w; e->lo = lo; e->c = c; e->a = a; e->b = b; e->d = d; e->hash = hh; e->id = ++count;
    e->next = tab[i]; tab[i] = e;
    const SymSet *s = empty;
    if (k == K_SYM) { SymSet *n = new SymSet(); n->bits.resize((size_t)(c >> 6) + 1, 0); n->bits[(size_t)(c >> 6)] |= (u64)1 << (c & 63); s = n; }
    else for (Expr *x : {a, b, d}) if (x) {
      if (x->syms == s || x->syms->bits.empty()) continue;
      if (s->bits.empty()) { s = x->syms; continue; }
      if (s->contains(*x->syms)) continue;
      if (x->syms->contains(*s)) { s = x->syms; continue; }
      SymSet *n = new SymSet(*s); n->add(*x->syms); s = n;
    }
    e->syms = s;
    if (count > tab.size() * 2) rehash();
    return e;
  }
  void rehash() {
    std::vector<Expr *> nt(tab.size() * 4, nullptr);
    for (Expr *e : tab) while (e) { Expr *n = e->next; u32 i = e->hash & (nt.size() - 1); e->next = nt[i]; nt[i] = e; e = n; }
    tab.swap(nt);
  }
};
static ExprPool EP;

static Expr *mkC(u128 v, unsigned w) { return EP.get(K_CONST, w, 0, v & maskw(w), 0, 0, 0); }
static Expr *mkSym(u32 id) { return EP.get(K_SYM, 8, 0, id, 0, 0, 0); }
static inline bool isC(Expr *e) { return e->k == K_CONST; }
static Expr *mkExtract(Expr *x, unsigned lo, unsigned w);
static Expr *mkConcat(Expr *hi, Expr *lo);
static Expr *mkZExt(Expr *x, unsigned w);
static Expr *mkSExt(Expr *x, unsigned w);
static Expr *mkNot(Expr *x);
static Expr *mkEq(Expr *a, Expr *b);
static Expr *mkIte(Expr *c, Expr *a, Expr *b);
static Expr *mkAnd(Expr *a, Expr *b);
static Expr *mkOr(Expr *a, Expr *b);
static Expr *mkAdd(Expr *a, Expr *b);

static u128 foldBin(EK k, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? (a / b) & m : m;
    case K_UREM: return b ? (a % b) & m : a;
    case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case K_SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sx(a, w) >> s) & m; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_SLT: return sx(a, w) < sx(b, w);
    default: abort();
  }
}

// upper bound of an expression's unsigned value (cheap)
static u128 ubound(Expr *e, int depth = 4) {
  switch (e->k) {
    case K_CONST: return e->c;
    case K_ZEXT: return depth ? ubound(e->a, depth - 1) : maskw(e->a->w);
    case K_ITE: if (depth) { u128 x = ubound(e->b, depth - 1), y = ubound(e->d, depth - 1); return x > y ? x : y; } break;
    case K_AND: if (depth) { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); return x < y ? x : y; } break;
    case K_UREM: if (isC(e->b) && e->b->c) return e->b->c - 1; break;
    case K_UDIV: if (isC(e->b) && e->b->c && depth) return ubound(e->a, depth - 1) / e->b->c; break;
    case K_ADD: if (depth) { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); u128 m = maskw(e->w); if (x <= m / 2 && y <= m / 2) return x + y; } break;
    case K_MUL: if (depth) { u128 x = ubound(e->a, depth - 1), y = ubound(e->b, depth - 1); if (!x || !y) return 0; if (y <= maskw(e->w) / x) return x * y; } break;
    case K_EXTRACT: if (depth && !e->lo) { u128 x = ubound(e->a, depth - 1); if (x <= maskw(e->w)) return x; } break;
    case K_CONCAT: if (depth) { u128 x = ubound(e->a, depth - 1); return (x << e->b->w) | maskw(e->b->w); } break;
    default: break;
  }
  return maskw(e->w);
}

static unsigned bitsOf(u128 v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n ? n : 1; }
// the low k bits of e, computed with k-bit arithmetic
static Expr *mkLow(Expr *e, unsigned k, int depth = 6);
// e = x * c1 + n with c1 a multiple of c and no overflow
static bool splitMul(Expr *e, u128 c, Expr *&xq, Expr *&n);

struct Seg { unsigned lo, w; Expr *e; };
static void segs(Expr *e, unsigned base, std::vector<Seg> &out, int depth = 0) {
  if (e->k == K_CONCAT && depth < 40) { segs(e->b, base, out, depth + 1); segs(e->a, base + e->b->w, out, depth + 1); }
  else if (e->k == K_ZEXT && depth < 40) { segs(e->a, base, out, depth + 1); }
  else if (isC(e)) { // split constants into runs of zero / nonzero
    if (e->c) out.push_back({base, e->w, e});
  } else out.push_back({base, e->w, e});
}
static Expr *mergeDisjoint(Expr *a, Expr *b) { // a|b where nonzero segments are disjoint; else null
  if ((a->k != K_CONCAT && a->k != K_ZEXT) && (b->k != K_CONCAT && b->k != K_ZEXT)) return nullptr;
  if (isC(a) || isC(b)) return nullptr;
  std::vector<Seg> s; segs(a, 0, s); size_t n = s.size(); segs(b, 0, s); (void)n;
  std::sort(s.begin(), s.end(), [](const Seg &x, const Seg &y) { return x.lo < y.lo; });
  for (size_t i = 1; i < s.size(); i++) if (s[i - 1].lo + s[i - 1].w > s[i].lo) return nullptr;
  Expr *r = nullptr; unsigned pos = 0;
  for (auto &g : s) {
    if (g.lo > pos) { Expr *z = mkC(0, g.lo - pos); r = r ? mkConcat(z, r) : z; }
    r = r ? mkConcat(g.e, r) : g.e; pos = g.lo + g.w;
  }
  if (pos < a->w) { Expr *z = mkC(0, a->w - pos); r = r ? mkConcat(z, r) : z; }
  return r;
}

static Expr *mkBin(EK k, Expr *a, Expr *b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, k); abort(); }
  bool cmp = k == K_EQ || k == K_ULT || k == K_SLT;
  if (isC(a) && isC(b)) return mkC(foldBin(k, a->c, b->c, w), cmp ? 1 : w);
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  u128 m = maskw(w);
  switch (k) {
    case K_ADD:
      if (isC(b)) {
        if (!b->c) return a;
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkC(a->b->c + b->c, w));
      }
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
      if (b->k == K_SUB && b->b == a) return b->a;
      if (a->k == K_SUB && a->b == b) return a->a;
      if (Expr *r = mergeDisjoint(a, b)) return r;
      break;
    case K_SUB:
      if (isC(b)) return mkBin(K_ADD, a, mkC(0 - b->c, w));
      if (a == b) return mkC(0, w);
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkC(0 - b->b->c, w));
      if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
      break;
    case K_MUL:
      if (isC(b)) {
        if (!b->c) return b;
        if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K_SHL, a, mkC(s, w)); }
      }
      break;
    case K_UDIV:
      if (isC(b) && b->c) {
        if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(K_LSHR, a, mkC(s, w)); }
        u128 u = ubound(a);
        if (u < b->c) return mkC(0, w);
        { Expr *x, *n; if (splitMul(a, b->c, x, n)) return mkBin(K_ADD, x, mkBin(K_UDIV, n, b)); }
        { unsigned k = std::max(bitsOf(ubound(a, 8)), bitsOf(b->c)); if (k < w) return mkZExt(mkBin(K_UDIV, mkLow(a, k), mkC(b->c, k)), w); }
        if (a->k == K_ZEXT && b->c <= maskw(a->a->w)) return mkZExt(mkBin(K_UDIV, a->a, mkC(b->c, a->a->w)), w);
      }
      break;
    case K_UREM:
      if (isC(b) && b->c) {
        if (b->c == 1) return mkC(0, w);
        if (!(b->c & (b->c - 1))) return mkBin(K_AND, a, mkC(b->c - 1, w));
        if (ubound(a) < b->c) return a;
        { Expr *x, *n; if (splitMul(a, b->c, x, n)) return mkBin(K_UREM, n, b); }
        { unsigned k = std::max(bitsOf(ubound(a, 8)), bitsOf(b->c)); if (k < w) return mkZExt(mkBin(K_UREM, mkLow(a, k), mkC(b->c, k)), w); }
        if (a->k == K_ZEXT && b->c <= maskw(a->a->w)) return mkZExt(mkBin(K_UREM, a->a, mkC(b->c, a->a->w)), w);
      }
      break;
    case K_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->c) return b;
        if (b->c == m) return a;
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkC(a->b->c & b->c, w));
        // contiguous mask
        u128 c = b->c; unsigned s = 0; while (!((c >> s) & 1)) s++;
        u128 t = c >> s; 
        if (!(t & (t + 1))) {
          unsigned n = 0; while (n < 128 && ((t >> n) & 1)) n++;
          Expr *r = mkExtract(a, s, n);
          if (s) r = mkConcat(r, mkC(0, s));
          return mkZExt(r, w);
        }
        if (a->k == K_ZEXT) return mkZExt(mkBin(K_AND, a->a, mkC(b->c, a->a->w)), w);
        if (a->k == K_CONCAT) return mkConcat(mkBin(K_AND, a->a, mkC(b->c >> a->b->w, a->a->w)), mkBin(K_AND, a->b, mkC(b->c, a->b->w)));
      }
      if (w == 1) {
        if (a->neg == b || b->neg == a) return mkC(0, 1);
        if (a->k == K_AND && (a->a == b || a->b == b)) return a;
        if (b->k == K_AND && (b->a == a || b->b == a)) return b;
      }
      if (a->k == K_NOT && a->a == b) return mkC(0, w);
      if (b->k == K_NOT && b->a == a) return mkC(0, w);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkBin(K_AND, a->a, b->a), w);
      break;
    case K_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->c) return a;
        if (b->c == m) return b;
        if (a->k == K_CONCAT) return mkConcat(mkBin(K_OR, a->a, mkC(b->c >> a->b->w, a->a->w)), mkBin(K_OR, a->b, mkC(b->c, a->b->w)));
        if (a->k == K_ZEXT) return mkConcat(mkC(b->c >> a->a->w, w - a->a->w), mkBin(K_OR, a->a, mkC(b->c, a->a->w)));
      }
      if (w == 1) {
        if (a->neg == b || b->neg == a) return mkC(1, 1);
        if (a->k == K_OR && (a->a == b || a->b == b)) return a;
        if (b->k == K_OR && (b->a == a || b->b == a)) return b;
      }
      if (Expr *r = mergeDisjoint(a, b)) return r;
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkBin(K_OR, a->a, b->a), w);
      break;
    case K_XOR:
      if (a == b) return mkC(0, w);
      if (isC(b)) {
        if (!b->c) return a;
        if (b->c == m) return mkNot(a);
        if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkC(a->b->c ^ b->c, w));
        if (a->k == K_ZEXT && w > 1) return mkConcat(mkC(b->c >> a->a->w, w - a->a->w), mkBin(K_XOR, a->a, mkC(b->c, a->a->w)));
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkZExt(mkBin(K_XOR, a->a, b->a), w);
      if (Expr *r = mergeDisjoint(a, b)) return r;
      break;
    case K_SHL:
      if (isC(b)) {
        if (!b->c) return a;
        if (b->c >= w) return mkC(0, w);
        unsigned s = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - s), mkC(0, s));
      }
      if (isC(a) && !a->c) return a;
      break;
    case K_LSHR:
      if (isC(b)) {
        if (!b->c) return a;
        if (b->c >= w) return mkC(0, w);
        unsigned s = (unsigned)b->c;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (isC(a) && !a->c) return a;
      break;
    case K_ASHR:
      if (isC(b)) {
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c;
        if (!s) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case K_EQ:
      if (a == b) return mkC(1, 1);
      if (isC(b)) {
        u128 c = b->c;
        if (w == 1) return c ? a : mkNot(a);
        if (a->k == K_ZEXT) { if (c > maskw(a->a->w)) return mkC(0, 1); return mkEq(a->a, mkC(c, a->a->w)); }
        if (a->k == K_SEXT) { u128 t = c & maskw(a->a->w); if (((u128)sx(t, a->a->w) & m) != c) return mkC(0, 1); return mkEq(a->a, mkC(t, a->a->w)); }
        if (a->k == K_CONCAT) { unsigned lw = a->b->w; return mkAnd(mkEq(a->a, mkC(c >> lw, a->a->w)), mkEq(a->b, mkC(c, lw))); }
        if (a->k == K_ADD && isC(a->b)) return mkEq(a->a, mkC(c - a->b->c, w));
        if (a->k == K_XOR && isC(a->b)) return mkEq(a->a, mkC(c ^ a->b->c, w));
        if (a->k == K_NOT) return mkEq(a->a, mkC(~c, w));
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->d, b));
        if (a->k == K_SUB && c == 0) return mkEq(a->a, a->b);
        if (a->k == K_XOR && c == 0) return mkEq(a->a, a->b);
        if (a->k == K_OR && c == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
        if (ubound(a) < c) return mkC(0, 1);
      }
      if (w == 1 && (a->neg == b || b->neg == a)) return mkC(0, 1);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b) && a->b == b->b) return mkEq(a->a, b->a);
      break;
    case K_ULT:
      if (a == b) return mkC(0, 1);
      if (isC(b)) {
        if (!b->c) return mkC(0, 1);
        if (b->c == 1) return mkEq(a, mkC(0, w));
        if (ubound(a) < b->c) return mkC(1, 1);
        if (a->k == K_ZEXT) return mkBin(K_ULT, a->a, mkC(b->c, a->a->w));
        if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return mkIte(a->a, mkBin(K_ULT, a->b, b), mkBin(K_ULT, a->d, b));
        if (w == 1) return mkNot(a);
      }
      if (isC(a)) {
        if (a->c == m) return mkC(0, 1);
        if (!a->c) return mkNot(mkEq(b, a));
        if (ubound(b) <= a->c) return mkC(0, 1);
        if (b->k == K_ZEXT) return mkBin(K_ULT, mkC(a->c, b->a->w), b->a);
        if (b->k == K_ITE && (isC(b->b) || isC(b->d))) return mkIte(b->a, mkBin(K_ULT, a, b->b), mkBin(K_ULT, a, b->d));
      }
      if (w > 32) { unsigned k = std::max(bitsOf(ubound(a)), bitsOf(ubound(b))); if (k < w && (a->k != K_CONCAT && b->k != K_CONCAT) && (a->k == K_MUL || b->k == K_MUL || a->k == K_ADD || b->k == K_ADD)) return mkBin(K_ULT, mkLow(a, k), mkLow(b, k)); }
      if (a->k == K_ZEXT && b->k == K_ZEXT) {
        unsigned ww = std::max(a->a->w, b->a->w);
        return mkBin(K_ULT, mkZExt(a->a, ww), mkZExt(b->a, ww));
      }
      break;
    case K_SLT: {
      if (a == b) return mkC(0, 1);
      u128 half = (u128)1 << (w - 1);
      bool an = ubound(a) < half, bn = ubound(b) < half; // known nonnegative
      if (an && bn) return mkBin(K_ULT, a, b);
      if (an && isC(b) && b->c >= half) return mkC(0, 1);
      if (bn && isC(a) && a->c >= half) return mkC(1, 1);
      if (isC(b) && !b->c) return mkExtract(a, w - 1, 1);
      if (isC(a) && a->c == m) return mkNot(mkExtract(b, w - 1, 1));
      break;
    }
    default: break;
  }
  return EP.get(k, cmp ? 1 : w, 0, 0, a, b, 0);
}
static Expr *mkEq(Expr *a, Expr *b) { return mkBin(K_EQ, a, b); }
static Expr *mkAnd(Expr *a, Expr *b) { return mkBin(K_AND, a, b); }
static Expr *mkOr(Expr *a, Expr *b) { return mkBin(K_OR, a, b); }
static Expr *mkAdd(Expr *a, Expr *b) { return mkBin(K_ADD, a, b); }
static Expr *mkUle(Expr *a, Expr *b) { return mkNot(mkBin(K_ULT, b, a)); }

static Expr *mkLow(Expr *e, unsigned k, int depth) {
  if (k >= e->w) return e;
  if (depth && (e->k == K_ADD || e->k == K_SUB || e->k == K_MUL)) return mkBin(e->k, mkLow(e->a, k, depth - 1), mkLow(e->b, k, depth - 1));
  return mkExtract(e, 0, k);
}
static bool splitMul(Expr *e, u128 c, Expr *&xq, Expr *&n) {
  unsigned w = e->w;
  if (e->k == K_ZEXT) { if (!splitMul(e->a, c, xq, n)) return false; xq = mkZExt(xq, w); n = mkZExt(n, w); return true; }
  Expr *m = e, *r = nullptr;
  if (e->k == K_ADD) {
    if (e->a->k == K_MUL && isC(e->a->b) && e->a->b->c && e->a->b->c % c == 0) { m = e->a; r = e->b; }
    else if (e->b->k == K_MUL && isC(e->b->b) && e->b->b->c && e->b->b->c % c == 0) { m = e->b; r = e->a; }
    else return false;
  }
  if (m->k != K_MUL || !isC(m->b) || !m->b->c || m->b->c % c) return false;
  u128 ux = ubound(m->a, 8), un = r ? ubound(r, 8) : 0, mk = maskw(w);
  if (ux > mk / m->b->c || ux * m->b->c > mk - un) return false;
  xq = mkBin(K_MUL, m->a, mkC(m->b->c / c, w)); n = r ? r : mkC(0, w); return true;
}
static Expr *mkNot(Expr *x) {
  if (isC(x)) return mkC(~x->c, x->w);
  if (x->k == K_NOT) return x->a;
  if (x->neg) return x->neg;
  Expr *r;
  if (x->k == K_ITE && isC(x->b) && isC(x->d)) r = mkIte(x->a, mkNot(x->b), mkNot(x->d));
  else r = EP.get(K_NOT, x->w, 0, 0, x, 0, 0);
  x->neg = r; r->neg = x;
  return r;
}
static Expr *mkZExt(Expr *x, unsigned w) {
  if (x->w == w) return x;
  if (x->w > w) abort();
  if (isC(x)) return mkC(x->c, w);
  if (x->k == K_ZEXT) return mkZExt(x->a, w);
  if (x->k == K_CONCAT && isC(x->a) && !x->a->c) return mkZExt(x->b, w);
  return EP.get(K_ZEXT, w, 0, 0, x, 0, 0);
}
static Expr *mkSExt(Expr *x, unsigned w) {
  if (x->w == w) return x;
  if (isC(x)) return mkC((u128)sx(x->c, x->w), w);
  if (x->k == K_SEXT) return mkSExt(x->a, w);
  if (x->k == K_ZEXT) return mkZExt(x->a, w);
  if (x->w > 1 && ubound(x) < ((u128)1 << (x->w - 1))) return mkZExt(x, w);
  return EP.get(K_SEXT, w, 0, 0, x, 0, 0);
}
static Expr *mkConcat(Expr *hi, Expr *lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (isC(hi) && isC(lo)) return mkC((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && !hi->c) return mkZExt(lo, w);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return mkExtract(hi->a, lo->lo, w);
  if (hi->k == K_EXTRACT && hi->a == lo && hi->lo == lo->w) return mkExtract(hi->a, 0, w);
  if (hi->k == K_CONCAT) {
    Expr *t = hi->b;
    if (isC(t) && isC(lo)) return mkConcat(hi->a, mkConcat(t, lo));
    if (t->k == K_EXTRACT && lo->k == K_EXTRACT && t->a == lo->a && t->lo == lo->lo + lo->w) return mkConcat(hi->a, mkConcat(t, lo));
    if (t->k == K_EXTRACT && t->a == lo && t->lo == lo->w) return mkConcat(hi->a, mkConcat(t, lo));
  }
  if (lo->k == K_CONCAT) { // right operand: merge with its high part
    Expr *t = lo->a;
    if ((isC(t) && isC(hi)) || (hi->k == K_EXTRACT && t->k == K_EXTRACT && hi->a == t->a && hi->lo == t->lo + t->w)) return mkConcat(mkConcat(hi, t), lo->b);
    return mkConcat(mkConcat(hi, t), lo->b); // left-normalise
  }
  return EP.get(K_CONCAT, w, 0, 0, hi, lo, 0);
}
static Expr *mkExtract(Expr *x, unsigned lo, unsigned w) {
  if (w == x->w) return x;
  if (lo + w > x->w || !w) { fprintf(stderr, "bad extract\n"); abort(); }
  switch (x->k) {
    case K_CONST: return mkC(x->c >> lo, w);
    case K_EXTRACT: return mkExtract(x->a, x->lo + lo, w);
    case K_CONCAT: {
      unsigned lw = x->b->w;
      if (lo >= lw) return mkExtract(x->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(x->b, lo, w);
      return mkConcat(mkExtract(x->a, 0, lo + w - lw), mkExtract(x->b, lo, lw - lo));
    }
    case K_ZEXT:
      if (lo >= x->a->w) return mkC(0, w);
      if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
      return mkZExt(mkExtract(x->a, lo, x->a->w - lo), w);
    case K_SEXT:
      if (lo + w <= x->a->w) return mkExtract(x->a, lo, w);
      if (lo < x->a->w) return mkSExt(mkExtract(x->a, lo, x->a->w - lo), w);
      return mkSExt(mkExtract(x->a, x->a->w - 1, 1), w);
    case K_AND: case K_OR: case K_XOR: return mkBin(x->k, mkExtract(x->a, lo, w), mkExtract(x->b, lo, w));
    case K_NOT: return mkNot(mkExtract(x->a, lo, w));
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0 && w >= 32 && (x->k != K_MUL)) return mkBin(x->k, mkExtract(x->a, 0, w), mkExtract(x->b, 0, w)); break;
    case K_ITE: return mkIte(x->a, mkExtract(x->b, lo, w), mkExtract(x->d, lo, w));
    default: break;
  }
  return EP.get(K_EXTRACT, w, lo, 0, x, 0, 0);
}
static Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    if (a == c) return mkOr(c, b);
    if (b == c) return mkAnd(c, a);
  }
  if (isC(a) && isC(b) && a->c == 1 && b->c == 0) return mkZExt(c, a->w);
  if (isC(a) && isC(b) && a->c == 0 && b->c == 1) return mkZExt(mkNot(c), a->w);
  if (a->k == K_ITE && a->a == c) return mkIte(c, a->b, b);
  if (b->k == K_ITE && b->a == c) return mkIte(c, a, b->d);
  return EP.get(K_ITE, a->w, 0, 0, c, a, b);
}

// ---- evaluation under a model (bytes indexed by symbol id; missing = 0)
static u64 g_evalEpoch = 0;
static u128 evalRec(Expr *e, const std::vector<u8> &m) {
  if (e->k == K_CONST) return e->c;
  if (e->epoch == g_evalEpoch) return e->ev;
  u128 r;
  switch (e->k) {
    case K_SYM: r = (size_t)e->c < m.size() ? m[(size_t)e->c] : 0; break;
    case K_NOT: r = ~evalRec(e->a, m) & maskw(e->w); break;
    case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    case K_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case K_EXTRACT: r = (evalRec(e->a, m) >> e->lo) & maskw(e->w); break;
    case K_ZEXT: r = evalRec(e->a, m); break;
    case K_SEXT: r = (u128)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = foldBin(e->k, evalRec(e->a, m), evalRec(e->b, m), e->a->w);
  }
  e->epoch = g_evalEpoch; e->ev = r;
  return r;
}
static u128 evalE(Expr *e, const std::vector<u8> &m) { if (isC(e)) return e->c; g_evalEpoch++; return evalRec(e, m); }

static std::string exprStr(Expr *e, int d = 12) {
  static const char *N[] = {"C", "S", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "~", "<<", ">>", ">>a", "==", "<u", "<s", "ite", "cat", "ext", "zx", "sx"};
  char b[64];
  if (e->k == K_CONST) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->c, e->w); return b; }
  if (e->k == K_SYM) { snprintf(b, 64, "s%d", (int)e->c); return b; }
  if (!d) return "..";
  std::string r = std::string("(") + N[e->k];
  if (e->k == K_EXTRACT) { snprintf(b, 64, "[%d+%d]", e->lo, e->w); r += b; }
  for (Expr *x : {e->a, e->b, e->d}) if (x) r += " " + exprStr(x, d - 1);
  return r + ")";
}

// ---- Z3 translation
struct Z3T {
  Z3_context c; Z3_sort s8;
  std::vector<Z3_ast> symAst;
  Z3_ast one, zero;
  void init() {
    Z3_config cfg = Z3_mk_config();
    c = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_ast_print_mode(c, Z3_PRINT_SMTLIB2_COMPLIANT);
    one = Z3_mk_int(c, 1, Z3_mk_bv_sort(c, 1)); zero = Z3_mk_int(c, 0, Z3_mk_bv_sort(c, 1));
    s8 = Z3_mk_bv_sort(c, 8);
  }
  Z3_ast sym(u32 id) {
    while (symAst.size() <= id) { char nm[32]; snprintf(nm, sizeof nm, "s%zu", symAst.size()); symAst.push_back(Z3_mk_const(c, Z3_mk_string_symbol(c, nm), s8)); }
    return symAst[id];
  }
  Z3_ast num(u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(c, w);
    if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
    char buf[64]; int i = 63; buf[i] = 0; u128 x = v; if (!x) buf[--i] = '0'; while (x) { buf[--i] = '0' + (int)(x % 10); x /= 10; }
    return Z3_mk_numeral(c, buf + i, s);
  }
  Z3_ast boolOf(Expr *e) { // e->w == 1
    if (e->zbool) return e->zbool;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = e->c ? Z3_mk_true(c) : Z3_mk_false(c); break;
      case K_EQ: r = e->a->w == 1 ? Z3_mk_iff(c, boolOf(e->a), boolOf(e->b)) : Z3_mk_eq(c, bv(e->a), bv(e->b)); break;
      case K_ULT: r = Z3_mk_bvult(c, bv(e->a), bv(e->b)); break;
      case K_SLT: r = Z3_mk_bvslt(c, bv(e->a), bv(e->b)); break;
      case K_AND: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_and(c, 2, x); break; }
      case K_OR: { Z3_ast x[2] = {boolOf(e->a), boolOf(e->b)}; r = Z3_mk_or(c, 2, x); break; }
      case K_XOR: r = Z3_mk_xor(c, boolOf(e->a), boolOf(e->b)); break;
      case K_NOT: r = Z3_mk_not(c, boolOf(e->a)); break;
      case K_ITE: r = Z3_mk_ite(c, boolOf(e->a), boolOf(e->b), boolOf(e->d)); break;
      default: r = Z3_mk_eq(c, bv(e), one);
    }
    Z3_inc_ref(c, r);
    return e->zbool = r;
  }
  Z3_ast bv(Expr *e) {
    if (e->zbv) return e->zbv;
    Z3_ast r;
    switch (e->k) {
      case K_CONST: r = num(e->c, e->w); break;
      case K_SYM: r = sym((u32)e->c); break;
      case K_ADD: r = Z3_mk_bvadd(c, bv(e->a), bv(e->b)); break;
      case K_SUB: r = Z3_mk_bvsub(c, bv(e->a), bv(e->b)); break;
      case K_MUL: r = Z3_mk_bvmul(c, bv(e->a), bv(e->b)); break;
      case K_UDIV: r = Z3_mk_bvudiv(c, bv(e->a), bv(e->b)); break;
      case K_SDIV: r = Z3_mk_bvsdiv(c, bv(e->a), bv(e->b)); break;
      case K_UREM: r = Z3_mk_bvurem(c, bv(e->a), bv(e->b)); break;
      case K_SREM: r = Z3_mk_bvsrem(c, bv(e->a), bv(e->b)); break;
      case K_SHL: r = Z3_mk_bvshl(c, bv(e->a), bv(e->b)); break;
      case K_LSHR: r = Z3_mk_bvlshr(c, bv(e->a), bv(e->b)); break;
      case K_ASHR: r = Z3_mk_bvashr(c, bv(e->a), bv(e->b)); break;
      case K_CONCAT: r = Z3_mk_concat(c, bv(e->a), bv(e->b)); break;
      case K_EXTRACT: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, bv(e->a)); break;
      case K_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(c, boolOf(e->a), num(1, e->w), num(0, e->w)); else r = Z3_mk_zero_ext(c, e->w - e->a->w, bv(e->a)); break;
      case K_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, bv(e->a)); break;
      case K_ITE: if (e->w == 1) { r = Z3_mk_ite(c, boolOf(e), one, zero); break; } r = Z3_mk_ite(c, boolOf(e->a), bv(e->b), bv(e->d)); break;
      case K_AND: if (e->w == 1) { r = Z3_mk_ite(c, boolOf(e), one, zero); break; } r = Z3_mk_bvand(c, bv(e->a), bv(e->b)); break;
      case K_OR: if (e->w == 1) { r = Z3_mk_ite(c, boolOf(e), one, zero); break; } r = Z3_mk_bvor(c, bv(e->a), bv(e->b)); break;
      case K_XOR: if (e->w == 1) { r = Z3_mk_ite(c, boolOf(e), one, zero); break; } r = Z3_mk_bvxor(c, bv(e->a), bv(e->b)); break;
      case K_NOT: if (e->w == 1) { r = Z3_mk_ite(c, boolOf(e), one, zero); break; } r = Z3_mk_bvnot(c, bv(e->a)); break;
      default: r = Z3_mk_ite(c, boolOf(e), one, zero); // EQ/ULT/SLT
    }
    Z3_inc_ref(c, r);
    return e->zbv = r;
  }
};
