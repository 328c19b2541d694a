#include "expr.h"
std::unordered_map<EKey, E, EHash> etab;
u32 enext = 0;
std::vector<E> allE;
// cheap unsigned interval
static std::unordered_map<E, std::pair<u64,u64>> rmemo;
std::vector<std::pair<u64,u64>> vrange; void rangeReset() { rmemo.clear(); }
static std::pair<u64,u64> range(E e, int depth = 0) {
  u64 m = mask(e->w);
  if (e->k == E_CONST) return {e->c, e->c};
  if (e->k == E_VAR) return e->c < vrange.size() ? vrange[e->c] : std::pair<u64,u64>{0, m};
  if (depth > 60) return {0, m};
  auto it = rmemo.find(e); if (it != rmemo.end()) return it->second;
  std::pair<u64,u64> r{0, m};
  switch (e->k) {
  case E_ZEXT: r = range(e->a, depth + 1); break;
  case E_AND: { auto x = range(e->a, depth + 1), y = range(e->b, depth + 1); r = {0, std::min(x.second, y.second)}; break; }
  case E_ADD: { auto x = range(e->a, depth + 1), y = range(e->b, depth + 1); unsigned __int128 h = (unsigned __int128)x.second + y.second; if (h <= m) r = {x.first + y.first, (u64)h}; else if (isc(e->b)) { unsigned __int128 l = (unsigned __int128)x.first + y.first; if (l > m) r = {(u64)(l - m - 1), (u64)(h - m - 1)}; } break; }
  case E_MUL: { auto x = range(e->a, depth + 1), y = range(e->b, depth + 1); unsigned __int128 h = (unsigned __int128)x.second * y.second; if (h <= m) r = {x.first * y.first, (u64)h}; break; }
  case E_UREM: { auto y = range(e->b, depth + 1), x = range(e->a, depth + 1); if (y.first > 0) r = {0, std::min(x.second, y.second - 1)}; break; }
  case E_UDIV: { auto x = range(e->a, depth + 1), y = range(e->b, depth + 1); if (y.first > 0) r = {x.first / y.second, x.second / y.first}; break; }
  case E_LSHR: { auto x = range(e->a, depth + 1); r = {0, x.second}; break; }
  case E_CONCAT: { auto x = range(e->a, depth + 1), y = range(e->b, depth + 1); int lw = e->b->w; r = {(x.first << lw) | y.first, (x.second << lw) | y.second}; break; }
  case E_ITE: { auto x = range(e->b, depth + 1), y = range(e->d, depth + 1); r = {std::min(x.first, y.first), std::max(x.second, y.second)}; break; }
  case E_SEXT: { auto x = range(e->a, depth + 1); if (x.second <= mask(e->a->w) >> 1) r = x; break; }
  case E_EXTRACT: { if (e->c == 0) { auto x = range(e->a, depth + 1); if (x.second <= m) r = x; } break; }
  default: break;
  }
  return rmemo[e] = r;
}
E mkextract(E a, int lo, int w) {
  if (lo == 0 && w == a->w) return a;
  if (isc(a)) return cst(a->c >> lo, w);
  switch (a->k) {
  case E_EXTRACT: return mkextract(a->a, lo + (int)a->c, w);
  case E_CONCAT: { int lw = a->b->w;
    if (lo + w <= lw) return mkextract(a->b, lo, w);
    if (lo >= lw) return mkextract(a->a, lo - lw, w);
    return mkconcat(mkextract(a->a, 0, w - (lw - lo)), mkextract(a->b, lo, lw - lo)); }
  case E_ZEXT: { int iw = a->a->w;
    if (lo + w <= iw) return mkextract(a->a, lo, w);
    if (lo >= iw) return cst(0, w);
    return mkzext(mkextract(a->a, lo, iw - lo), w); }
  case E_SEXT: { int iw = a->a->w;
    if (lo + w <= iw) return mkextract(a->a, lo, w);
    if (lo < iw && lo == 0) return mksext(a->a, w);
    break; }
  case E_AND: case E_OR: case E_XOR: return mkbin(a->k, mkextract(a->a, lo, w), mkextract(a->b, lo, w));
  case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return mkbin(a->k, mkextract(a->a, 0, w), mkextract(a->b, 0, w)); break;
  case E_ITE: return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->d, lo, w));
  default: break;
  }
  return mk(E_EXTRACT, w, lo, a);
}
E mkconcat(E hi, E lo) {
  int w = hi->w + lo->w;
  if (isc(hi) && isc(lo)) return cst((hi->c << lo->w) | lo->c, w);
  if (isc(hi) && hi->c == 0) return mkzext(lo, w);
  if (hi->k == E_EXTRACT && lo->k == E_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkextract(hi->a, (int)lo->c, w);
  if (hi->k == E_EXTRACT && hi->a == lo && hi->c == lo->w) return mkextract(hi->a, 0, w);
  if (lo->k == E_CONCAT) { // re-associate so adjacent extracts meet
    E h2 = lo->a;
    if (hi->k == E_EXTRACT && h2->k == E_EXTRACT && hi->a == h2->a && hi->c == h2->c + h2->w) return mkconcat(mkextract(hi->a, (int)h2->c, hi->w + h2->w), lo->b);
  }
  if (hi->k == E_CONCAT) return mkconcat(hi->a, mkconcat(hi->b, lo));
  return mk(E_CONCAT, w, 0, hi, lo);
}
E mkzext(E a, int w) {
  if (w == a->w) return a;
  if (isc(a)) return cst(a->c, w);
  if (a->k == E_ZEXT) return mkzext(a->a, w);
  return mk(E_ZEXT, w, 0, a);
}
E mksext(E a, int w) {
  if (w == a->w) return a;
  if (isc(a)) return cst((u64)sx(a->c, a->w), w);
  if (a->k == E_SEXT) return mksext(a->a, w);
  if (a->k == E_ZEXT) return mkzext(a->a, w);
  return mk(E_SEXT, w, 0, a);
}
E mkite(E c, E a, E b) {
  if (isc(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1 && isc(a) && isc(b)) return a->c ? c : mknot(c);
  if (a->w == 1 && isc(a)) return a->c ? mkbin(E_OR, c, b) : mkbin(E_AND, mknot(c), b);
  if (b->k == E_ITE && b->b == a) return mkite(mkbin(E_OR, c, b->a), a, b->d);
  return mk(E_ITE, a->w, 0, c, a, b);
}
E mkbin(EK k, E a, E b) {
  int w = a->w, rw = iscmp(k) ? 1 : w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d %d\n", k, a->w, b->w); abort(); }
  if (isc(a) && isc(b)) return cst(fold(k, w, a->c, b->c), rw);
  bool comm = k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ;
  if (comm && isc(a)) std::swap(a, b);
  if (comm && !isc(b) && a->id > b->id) std::swap(a, b);
  if (isc(b)) {
    u64 c = b->c;
    switch (k) {
    case E_ADD: if (!c) return a; if (a->k == E_ADD && isc(a->b)) return mkbin(E_ADD, a->a, cst(a->b->c + c, w)); break;
    case E_SUB: return mkbin(E_ADD, a, cst(0 - c, w));
    case E_MUL: if (c == 0) return b; if (c == 1) return a; break;
    case E_AND: if (c == 0) return b; if (c == mask(w)) return a;
      if ((c & (c + 1)) == 0) { int n = __builtin_popcountll(c); return mkzext(mkextract(a, 0, n), w); } break;
    case E_OR: if (c == 0) return a; if (c == mask(w)) return b; break;
    case E_XOR: if (c == 0) return a; if (a->k == E_XOR && isc(a->b)) return mkbin(E_XOR, a->a, cst(a->b->c ^ c, w));
      if (w == 1) { if (a->k == E_ITE && isc(a->b) && isc(a->d)) return mkite(a->a, cst(!a->b->c,1), cst(!a->d->c,1)); } break;
    case E_SHL: if (c == 0) return a; if (c >= (u64)w) return cst(0, w); return mkconcat(mkextract(a, 0, w - (int)c), cst(0, (int)c));
    case E_LSHR: if (c == 0) return a; if (c >= (u64)w) return cst(0, w); return mkzext(mkextract(a, (int)c, w - (int)c), w);
    case E_ASHR: if (c == 0) return a; break;
    case E_UDIV: if (c == 1) return a; if (c && !(c & (c - 1))) return mkbin(E_LSHR, a, cst(__builtin_ctzll(c), w)); break;
    case E_UREM: if (c == 1) return cst(0, w); if (c && !(c & (c - 1))) return mkbin(E_AND, a, cst(c - 1, w)); break;
    case E_EQ:
      if (w == 1) return c ? a : mknot(a);
      if (a->k == E_ZEXT) { if (c > mask(a->a->w)) return cst(0, 1); return mkbin(E_EQ, a->a, cst(c, a->a->w)); }
      if (a->k == E_SEXT) { if ((u64)sx(c & mask(a->a->w), a->a->w) != (u64)sx(c, w)) return cst(0, 1); return mkbin(E_EQ, a->a, cst(c, a->a->w)); }
      if (a->k == E_ITE && isc(a->b) && a->d->k == E_ITE) return mkite(a->a, cst(a->b->c == c, 1), mkbin(E_EQ, a->d, b));
      if (a->k == E_ITE && isc(a->b) && isc(a->d)) { bool t = a->b->c == c, f = a->d->c == c; return t ? (f ? cst(1,1) : a->a) : (f ? mknot(a->a) : cst(0,1)); }
      if (a->k == E_ADD && isc(a->b)) return mkbin(E_EQ, a->a, cst(c - a->b->c, w));
      if (a->k == E_CONCAT && isc(a->b)) { if ((c & mask(a->b->w)) != a->b->c) return cst(0,1); return mkbin(E_EQ, a->a, cst(c >> a->b->w, a->a->w)); }
      break;
    case E_ULT: if (c == 0) return cst(0, 1);
      if (a->k == E_ZEXT) { if (c > mask(a->a->w)) return cst(1, 1); return mkbin(E_ULT, a->a, cst(c, a->a->w)); } break;
    case E_ULE: if (c == mask(w)) return cst(1, 1);
      if (a->k == E_ZEXT) { if (c >= mask(a->a->w)) return cst(1, 1); return mkbin(E_ULE, a->a, cst(c, a->a->w)); } break;
    case E_SLT: if (a->k == E_ZEXT) { i64 s = sx(c, w); if (s <= 0) return cst(0, 1); return mkbin(E_ULT, a, b); } break;
    case E_SLE: if (a->k == E_ZEXT) { i64 s = sx(c, w); if (s < 0) return cst(0, 1); return mkbin(E_ULE, a, b); } break;
    default: break;
    }
  } else if (isc(a)) {
    u64 c = a->c;
    switch (k) {
    case E_SLT: if (b->k == E_ZEXT) { i64 s = sx(c, w); if (s < 0) return cst(1, 1); return mkbin(E_ULT, a, b); } break;
    case E_SLE: if (b->k == E_ZEXT) { i64 s = sx(c, w); if (s <= 0) return cst(1, 1); return mkbin(E_ULE, a, b); } break;
    case E_ULT: if (b->k == E_ZEXT) { if (c >= mask(b->a->w)) return cst(0, 1); return mkbin(E_ULT, cst(c, b->a->w), b->a); } break;
    case E_ULE: if (c == 0) return cst(1, 1); if (b->k == E_ZEXT) { if (c > mask(b->a->w)) return cst(0, 1); return mkbin(E_ULE, cst(c, b->a->w), b->a); } break;
    case E_SHL: case E_LSHR: if (c == 0) return a; break;
    default: break;
    }
  } else if (a == b) {
    switch (k) {
    case E_SUB: case E_XOR: return cst(0, w); case E_AND: case E_OR: return a;
    case E_EQ: case E_ULE: case E_SLE: return cst(1, 1); case E_ULT: case E_SLT: return cst(0, 1);
    default: break;
    }
  } else if (a->k == E_ZEXT && b->k == E_ZEXT && a->a->w == b->a->w) {
    if (k == E_EQ || k == E_ULT || k == E_ULE) return mkbin(k, a->a, b->a);
    if (k == E_SLT) return mkbin(E_ULT, a->a, b->a);
    if (k == E_SLE) return mkbin(E_ULE, a->a, b->a);
  } else if (a->k == E_SEXT && b->k == E_SEXT && a->a->w == b->a->w && (k == E_EQ || k == E_SLT || k == E_SLE)) return mkbin(k, a->a, b->a);
  if (iscmp(k) && (isc(a) || isc(b) || k == E_ULT || k == E_ULE)) {
    auto x = range(a), y = range(b);
    switch (k) {
    case E_EQ: if (x.second < y.first || y.second < x.first) return cst(0, 1); break;
    case E_ULT: if (x.second < y.first) return cst(1, 1); if (x.first >= y.second) return cst(0, 1); break;
    case E_ULE: if (x.second <= y.first) return cst(1, 1); if (x.first > y.second) return cst(0, 1); break;
    case E_SLT: case E_SLE: { u64 h = mask(w) >> 1; if (x.second <= h && y.second <= h) return mkbin(k == E_SLT ? E_ULT : E_ULE, a, b); break; }
    default: break;
    }
  }
  return mk(k, rw, 0, a, b);
}
static u64 stampNow;
static u64 ev(E e, const u64 *m) {
  switch (e->k) {
  case E_CONST: return e->c;
  case E_VAR: return m[e->c] & mask(e->w);
  default: break;
  }
  if (e->stamp == stampNow) return e->sval;
  u64 r;
  switch (e->k) {
  case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->d, m); break;
  case E_ZEXT: r = ev(e->a, m); break;
  case E_SEXT: r = (u64)sx(ev(e->a, m), e->a->w) & mask(e->w); break;
  case E_EXTRACT: r = (ev(e->a, m) >> e->c) & mask(e->w); break;
  case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
  default: r = fold(e->k, e->a->w, ev(e->a, m), ev(e->b, m));
  }
  e->stamp = stampNow; e->sval = r;
  return r;
}
u64 evalE(E e, const u64 *m) {
  stampNow++; return ev(e, m);
}
