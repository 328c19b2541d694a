// Hash-consed bit-vector expressions (width 1..64) with light simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;
enum EK : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };
static const char *EKN[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr",
  "eq","ult","ule","slt","sle","ite","zext","sext","extract","concat"};
struct Expr; typedef const Expr *E;
struct Expr {
  EK k; u8 w; u64 c;            // c: constant, var id, extract low bit
  E a, b, d;
  u32 id;
  int nvars;                    // 0,1,2(=many)
  int var0;
  mutable u64 stamp = 0, sval = 0; // evaluation memo
};
static inline u64 mask(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
struct EKey { EK k; u8 w; u64 c; E a, b, d; bool operator==(const EKey &o) const { return k==o.k&&w==o.w&&c==o.c&&a==o.a&&b==o.b&&d==o.d; } };
struct EHash { size_t operator()(const EKey &x) const { size_t h = x.k * 131 + x.w; h = h*0x9E3779B97F4A7C15ull + x.c; h = h*0x9E3779B97F4A7C15ull + (size_t)x.a; h = h*0x9E3779B97F4A7C15ull + (size_t)x.b; h = h*0x9E3779B97F4A7C15ull + (size_t)x.d; return h ^ (h>>29); } };
extern std::unordered_map<EKey, E, EHash> etab;
extern u32 enext;
extern std::vector<E> allE;
static inline E mk(EK k, int w, u64 c, E a = 0, E b = 0, E d = 0) {
  EKey key{k, (u8)w, c, a, b, d};
  auto it = etab.find(key);
  if (it != etab.end()) return it->second;
  Expr *e = new Expr{k, (u8)w, c, a, b, d, enext++, 0, -1};
  if (k == E_VAR) { e->nvars = 1; e->var0 = (int)c; }
  else for (E x : {a, b, d}) if (x && x->nvars) {
    if (e->nvars == 0) { e->nvars = x->nvars; e->var0 = x->var0; }
    else if (x->nvars > 1 || e->nvars > 1 || x->var0 != e->var0) e->nvars = 2;
  }
  etab[key] = e; allE.push_back(e);
  return e;
}
static inline E cst(u64 v, int w) { return mk(E_CONST, w, v & mask(w)); }
static inline bool isc(E e) { return e->k == E_CONST; }
static inline u64 fold(EK k, int w, u64 x, u64 y) { // w = operand width
  u64 m = mask(w); x &= m; y &= m;
  switch (k) {
  case E_ADD: return (x + y) & m; case E_SUB: return (x - y) & m; case E_MUL: return (x * y) & m;
  case E_UDIV: return y ? x / y : m; case E_UREM: return y ? x % y : x;
  case E_SDIV: { i64 a = sx(x,w), b = sx(y,w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u64)(a / b) & m; }
  case E_SREM: { i64 a = sx(x,w), b = sx(y,w); if (!b) return x; if (b == -1) return 0; return (u64)(a % b) & m; }
  case E_AND: return x & y; case E_OR: return x | y; case E_XOR: return x ^ y;
  case E_SHL: return y >= (u64)w ? 0 : (x << y) & m; case E_LSHR: return y >= (u64)w ? 0 : x >> y;
  case E_ASHR: { i64 a = sx(x,w); return (u64)(a >> (y >= (u64)w ? (w - 1 > 63 ? 63 : w - 1) : y)) & m; }
  case E_EQ: return x == y; case E_ULT: return x < y; case E_ULE: return x <= y;
  case E_SLT: return sx(x,w) < sx(y,w); case E_SLE: return sx(x,w) <= sx(y,w);
  default: abort();
  }
}
static inline bool iscmp(EK k) { return k >= E_EQ && k <= E_SLE; }
E mkbin(EK k, E a, E b);
E mkite(E c, E a, E b);
E mkzext(E a, int w);
E mksext(E a, int w);
E mkextract(E a, int lo, int w);
E mkconcat(E hi, E lo);
static inline E mknot(E a) { return mkbin(E_XOR, a, cst(mask(a->w), a->w)); }
extern std::vector<std::pair<u64,u64>> vrange; void rangeReset();
u64 evalE(E e, const u64 *model); // model indexed by var id
