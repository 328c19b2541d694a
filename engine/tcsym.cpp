// tcsym: forking symbolic executor for LLVM-18 bitcode (single-threaded C programs).
// State forking is done with fork(2); memory is native (arena) with a shadow map.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <signal.h>
#include <poll.h>
#include <unistd.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <bitset>
#include <functional>
using namespace llvm;
using std::string; using std::vector;

static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
// ---------------------------------------------------------------- shared statistics
struct Shared {
  volatile int active; int maxActive;
  volatile long paths, forks, queries, unsat, sat, unknown, insts, solver_us, killed, domq;
  volatile int stop;
  double deadline; long maxPaths;
  u8 fcov[8192];
};
static Shared *SH;
#define INC(f, n) __sync_fetch_and_add(&SH->f, (n))

// ---------------------------------------------------------------- values
struct Val { u64 c; E e; };
static inline Val CV(u64 c) { return Val{c, nullptr}; }
static inline Val fromE(E e) { if (isc(e)) return CV(e->c); return Val{0, e}; }
static inline E toE(const Val &v, int w) { return v.e ? v.e : cst(v.c, w); }

// ---------------------------------------------------------------- variables, path condition
struct Var { string name; int w; bool uninit; bool multi; std::bitset<256> dom; };
static vector<Var> vars;
static vector<E> pc;
static vector<u64> model;          // a model of pc at all times (hint)
static Z3_context zc; static Z3_solver zs; static bool zinit;
static std::unordered_map<E, Z3_ast> zmap;
static size_t zasserted;
static vector<string> notes;
static int curOutFd = -1;

static E newvar(const string &n, int w, bool uninit = false) {
  Var v; v.name = n; v.w = w; v.uninit = uninit; v.multi = false; v.dom.set();
  if (w < 8) for (int i = (1 << w); i < 256; i++) v.dom.reset(i);
  vars.push_back(v); model.push_back(0); vrange.push_back({0, mask(w)});
  return mk(E_VAR, w, vars.size() - 1);
}
static Z3_sort zbv(int w) { return Z3_mk_bv_sort(zc, w); }
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(c, e)); _exit(99); }
static void zsetup() {
  if (zinit) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, zerr);
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), 60000);
  Z3_solver_set_params(zc, zs, p);
  zinit = true;
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(zc, b, Z3_mk_unsigned_int64(zc, 1, zbv(1)), Z3_mk_unsigned_int64(zc, 0, zbv(1))); }
static Z3_ast z(E e) {
  auto it = zmap.find(e); if (it != zmap.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
  case E_CONST: r = Z3_mk_unsigned_int64(zc, e->c, zbv(e->w)); break;
  case E_VAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v" + std::to_string(e->c)).c_str()), zbv(e->w)); break;
  case E_ADD: r = Z3_mk_bvadd(zc, z(e->a), z(e->b)); break;
  case E_SUB: r = Z3_mk_bvsub(zc, z(e->a), z(e->b)); break;
  case E_MUL: r = Z3_mk_bvmul(zc, z(e->a), z(e->b)); break;
  case E_UDIV: r = Z3_mk_bvudiv(zc, z(e->a), z(e->b)); break;
  case E_SDIV: r = Z3_mk_bvsdiv(zc, z(e->a), z(e->b)); break;
  case E_UREM: r = Z3_mk_bvurem(zc, z(e->a), z(e->b)); break;
  case E_SREM: r = Z3_mk_bvsrem(zc, z(e->a), z(e->b)); break;
  case E_AND: r = Z3_mk_bvand(zc, z(e->a), z(e->b)); break;
  case E_OR: r = Z3_mk_bvor(zc, z(e->a), z(e->b)); break;
  case E_XOR: r = Z3_mk_bvxor(zc, z(e->a), z(e->b)); break;
  case E_SHL: r = Z3_mk_bvshl(zc, z(e->a), z(e->b)); break;
  case E_LSHR: r = Z3_mk_bvlshr(zc, z(e->a), z(e->b)); break;
  case E_ASHR: r = Z3_mk_bvashr(zc, z(e->a), z(e->b)); break;
  case E_EQ: r = b2v(Z3_mk_eq(zc, z(e->a), z(e->b))); break;
  case E_ULT: r = b2v(Z3_mk_bvult(zc, z(e->a), z(e->b))); break;
  case E_ULE: r = b2v(Z3_mk_bvule(zc, z(e->a), z(e->b))); break;
  case E_SLT: r = b2v(Z3_mk_bvslt(zc, z(e->a), z(e->b))); break;
  case E_SLE: r = b2v(Z3_mk_bvsle(zc, z(e->a), z(e->b))); break;
  case E_ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, z(e->a), Z3_mk_unsigned_int64(zc, 1, zbv(1))), z(e->b), z(e->d)); break;
  case E_ZEXT: r = Z3_mk_zero_ext(zc, e->w - e->a->w, z(e->a)); break;
  case E_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, z(e->a)); break;
  case E_EXTRACT: r = Z3_mk_extract(zc, (unsigned)(e->c + e->w - 1), (unsigned)e->c, z(e->a)); break;
  case E_CONCAT: r = Z3_mk_concat(zc, z(e->a), z(e->b)); break;
  default: abort();
  }
  Z3_inc_ref(zc, r);
  zmap[e] = r;
  return r;
}
static Z3_ast zb(E e) { // boolean ast of a 1-bit expr
  return Z3_mk_eq(zc, z(e), Z3_mk_unsigned_int64(zc, 1, zbv(1)));
}
[[noreturn]] static void endPath(const string &kind, const string &msg, int status);
static string btrace();
static bool zcheck(E c, vector<u64> *mout) {
  zsetup();
  for (; zasserted < pc.size(); zasserted++) Z3_solver_assert(zc, zs, zb(pc[zasserted]));
  double t0 = now();
  Z3_solver_push(zc, zs);
  Z3_solver_assert(zc, zs, zb(c));
  Z3_lbool r = Z3_solver_check(zc, zs);
  INC(queries, 1); if (getenv("TCSYM_Q")) fprintf(stderr, "Q %d %.3f %s\n", r, now() - t0, btrace().c_str());
  if (r == Z3_L_TRUE) {
    INC(sat, 1);
    if (mout) {
      Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
      *mout = model;
      for (size_t i = 0; i < vars.size(); i++) {
        Z3_ast o; Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v" + std::to_string(i)).c_str()), zbv(vars[i].w));
        uint64_t u = 0;
        if (Z3_model_eval(zc, m, v, true, &o)) Z3_get_numeral_uint64(zc, o, &u);
        // keep values of vars that are unconstrained and outside z3's knowledge consistent with their domain
        (*mout)[i] = u;
      }
      Z3_model_dec_ref(zc, m);
    }
  } else if (r == Z3_L_FALSE) INC(unsat, 1);
  else { INC(unknown, 1); }
  Z3_solver_pop(zc, zs, 1);
  INC(solver_us, (long)((now() - t0) * 1e6));
  if (r == Z3_L_UNDEF) endPath("engine-limit", "solver returned unknown", 0);
  return r == Z3_L_TRUE;
}
static const vector<int> &varsOf(E c) { // the variables of an expression, memoized (expressions are hash-consed and never freed)
  static std::unordered_map<E, vector<int>> memo; static const vector<int> none;
  if (!c || !c->nvars) return none;
  auto it = memo.find(c); if (it != memo.end()) return it->second;
  vector<int> r;
  if (c->k == E_VAR) r.push_back((int)c->c);
  else for (E x : {c->a, c->b, c->d}) if (x) { const vector<int> &y = varsOf(x); vector<int> t; std::set_union(r.begin(), r.end(), y.begin(), y.end(), std::back_inserter(t)); r.swap(t); }
  return memo.emplace(c, std::move(r)).first->second;
}
// exact decision by domain for constraints over one 8-bit var that occurs in no multi-var constraint
static bool domainable(E c) { return c->nvars == 1 && vars[c->var0].w <= 8 && !vars[c->var0].multi; }
static bool feasible(E c, vector<u64> *mout) {
  if (isc(c)) { if (c->c && mout) *mout = model; return c->c; }
  if (domainable(c)) {
    INC(domq, 1);
    int v = c->var0; vector<u64> m = model;
    for (int i = 0; i < 256; i++) if (vars[v].dom[i]) { m[v] = i; if (evalE(c, m.data())) { if (mout) *mout = m; return true; } }
    return false;
  }
  if (evalE(c, model.data())) { if (mout) *mout = model; return true; }
  if (c->nvars <= 4) { // small domains: no value satisfies c -> infeasible; a value that satisfies the whole path condition -> feasible
    const vector<int> vs = varsOf(c);
    u64 prod = 1; bool ok = true; vector<vector<int>> dv;
    for (int v : vs) { if (vars[v].w > 8) { ok = false; break; } vector<int> d; for (int i = 0; i < 256; i++) if (vars[v].dom[i]) d.push_back(i); prod *= d.size(); if (prod > 20000) { ok = false; break; } dv.push_back(d); }
    if (ok) {
      vector<E> in, outp; // path constraints over these variables only, and the others
      for (E q : pc) { const vector<int> &t = varsOf(q); (std::includes(vs.begin(), vs.end(), t.begin(), t.end()) ? in : outp).push_back(q); }
      vector<u64> m = model; bool any = false;
      for (u64 k = 0; k < prod; k++) {
        u64 t = k; for (size_t j = 0; j < vs.size(); j++) { m[vs[j]] = dv[j][t % dv[j].size()]; t /= dv[j].size(); }
        if (!evalE(c, m.data())) continue;
        bool all = true; for (size_t j = in.size(); j-- > 0;) if (!evalE(in[j], m.data())) { all = false; break; }
        if (!all) continue;
        any = true;
        for (E q : outp) if (!evalE(q, m.data())) { all = false; break; }
        if (all) { INC(domq, 1); if (mout) *mout = m; return true; }
      }
      if (!any) { INC(domq, 1); return false; }
    }
  }
  return zcheck(c, mout);
}
static string btrace();
static void addpc(E c, const vector<u64> &m) {
  if (isc(c)) return;
  pc.push_back(c);
  if (domainable(c)) {
    int v = c->var0; vector<u64> mm = model;
    for (int i = 0; i < 256; i++) if (vars[v].dom[i]) { mm[v] = i; if (!evalE(c, mm.data())) vars[v].dom.reset(i); }
    u64 lo = 256, hi = 0; for (int i = 0; i < 256; i++) if (vars[v].dom[i]) { if (lo == 256) lo = i; hi = i; }
    if (lo <= hi && (lo != vrange[v].first || hi != vrange[v].second)) { vrange[v] = {lo, hi}; rangeReset(); }
  } else {
    for (int v : varsOf(c)) vars[v].multi = true;
  }
  model = m;
}
static bool usesUninit(E c) {
  for (int v : varsOf(c)) if (vars[v].uninit) return true;
  return false;
}
// ---------------------------------------------------------------- forking
static vector<pid_t> kids;
static bool ownSlot;
static vector<std::pair<string, string>> choices; static vector<string> events;
static int subPipe = -1; // when simulating a child process: events are sent here
static void reap() {
  if (ownSlot) { __sync_fetch_and_sub(&SH->active, 1); ownSlot = false; }
  for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR); if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) { INC(killed, 1); } }
  kids.clear();
}
// returns true in the child
static bool forkState() {
  INC(forks, 1);
  bool par = false;
  int a = __sync_add_and_fetch(&SH->active, 1);
  if (a <= SH->maxActive) par = true; else __sync_fetch_and_sub(&SH->active, 1);
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { if (par) __sync_fetch_and_sub(&SH->active, 1); perror("fork"); INC(killed, 1); return false; }
  if (p == 0) { kids.clear(); ownSlot = par; return true; }
  if (par) { kids.push_back(p); // reap finished kids opportunistically
    if (kids.size() > 64) { vector<pid_t> k2; for (pid_t k : kids) { int st; pid_t r = waitpid(k, &st, WNOHANG); if (r == k) { if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) INC(killed, 1); } else k2.push_back(k); } kids = k2; }
  } else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) INC(killed, 1); }
  return false;
}
static void mergePoint(); // may long-jump into merge mode
static bool branchOn(E c) {
  if (isc(c)) return c->c;
  vector<u64> mt, mf;
  bool t = feasible(c, &mt), f = feasible(mknot(c), &mf);
  if (t && f) {
    if (usesUninit(c)) notes.push_back("branch on uninitialised value at " + btrace());
    mergePoint();
    if (SH->stop) endPath("budget", "path budget exhausted", 0);
    if (forkState()) { addpc(c, mt); return true; }
    addpc(mknot(c), mf); return false;
  }
  if (t) return true;
  if (f) return false;
  endPath("engine-error", "infeasible path", 0);
}
static u64 concretize(const Val &v, int w, const char *why, int cap = 4096) {
  if (!v.e) return v.c;
  if (usesUninit(v.e)) notes.push_back(string("uninitialised value used as ") + why + " at " + btrace());
  for (int n = 0;; n++) {
    u64 val = evalE(v.e, model.data());
    E eq = mkbin(E_EQ, v.e, cst(val, w));
    vector<u64> m0 = model, m;
    bool other = feasible(mknot(eq), &m);
    if (!other) { addpc(eq, m0); return val; }
    mergePoint();
    if (n >= cap) endPath("engine-limit", string("too many values for ") + why, 0);
    if (SH->stop) endPath("budget", "path budget exhausted", 0);
    if (forkState()) { addpc(eq, m0); return val; }
    addpc(mknot(eq), m);
  }
}
// ---------------------------------------------------------------- memory
static const u64 ABASE = 0x100000000000ull, ASIZE = 1ull << 33;
static u8 *SHD; // shadow
static const u64 GBASE = ABASE, STKBASE = ABASE + (1ull << 28), STKSIZE = 1ull << 27, HEAPBASE = ABASE + (1ull << 29);
static u64 gtop = GBASE + 64, heaptop = HEAPBASE;
static std::unordered_map<u64, E> symb;
static std::unordered_map<u64, u64> hsize; // live heap blocks
static std::map<u64, u64> gobjs; // global objects
static std::map<u64, u64> hobjs;
enum { S_NONE = 0, S_UNINIT = 1, S_INIT = 2, S_SYM = 3, S_RO = 4 };
static inline bool inA(u64 a, u64 n) { return a >= ABASE && a + n <= ABASE + ASIZE && a + n >= a; }
static inline u8 *sh(u64 a) { return SHD + (a - ABASE); }
static void memerr(const char *what, u64 a) {
  char b[128]; snprintf(b, sizeof b, "%s at address %s%#lx", what, a < 4096 ? "(null page) " : "", a < 4096 ? a : a - ABASE);
  endPath("memory-error", b, 0);
}
static u8 shv(u64 a) { return inA(a, 1) ? *sh(a) : S_NONE; }
static int uninitCnt = 0;
static E byteE(u64 a) {
  switch (*sh(a)) {
  case S_SYM: return symb[a];
  case S_UNINIT: { E v = newvar("uninit" + std::to_string(uninitCnt++), 8, true); symb[a] = v; *sh(a) = S_SYM; return v; }
  default: return cst(*(u8 *)a, 8);
  }
}
static Val loadInt(u64 a, int n) {
  if (!inA(a, n)) memerr("invalid read", a);
  u64 sv = 0; memcpy(&sv, sh(a), n);
  u64 m = n >= 8 ? ~0ull : ((1ull << (8 * n)) - 1);
  if (sv == (0x0202020202020202ull & m) || sv == (0x0404040404040404ull & m)) { u64 v = 0; memcpy(&v, (void *)a, n); return CV(v); }
  for (int i = 0; i < n; i++) if (*sh(a + i) == S_NONE) memerr("invalid read", a + i);
  E e = nullptr;
  for (int i = 0; i < n; i++) { E b = byteE(a + i); e = e ? mkconcat(b, e) : b; }
  return fromE(e);
}
static u64 storeEpoch; // counts stores outside the frames of a pure call
// load through a symbolic address: ITE over the elements of one object, or nothing (caller concretizes)
static bool loadSym(E addr, int n, Val &out) {
  u64 base = 0; E x = addr;
  if (addr->k == E_ADD && isc(addr->b)) { base = addr->b->c; x = addr->a; }
  if (!inA(base, 1)) return false;
  u64 stride = 1;
  if (x->k == E_MUL && isc(x->b)) stride = x->b->c; else if (x->k == E_CONCAT && isc(x->b) && x->b->c == 0) stride = 1ull << x->b->w;
  if (stride > 65536 || stride == 0) return false;
  u64 st = 0, sz = 0;
  for (auto *mp : {&gobjs, &hobjs}) { auto it = mp->upper_bound(base); if (it != mp->begin()) { --it; if (base >= it->first && base < it->first + it->second) { st = it->first; sz = it->second; } } }
  if (!sz) return false;
  u64 lo = base - (base - st) / stride * stride, cnt = 0; if (lo + n > st + sz) return false;
  cnt = (st + sz - n - lo) / stride + 1;
  if (cnt > 4096 || cnt < 2) return false;
  E inb = mkbin(E_ULE, mkbin(E_SUB, addr, cst(lo, 64)), cst((cnt - 1) * stride, 64));
  if (!branchOn(inb)) memerr("out-of-bounds read (symbolic index)", lo);
  std::map<u64, vector<u64>> groups; vector<std::pair<u64, E>> syms;
  for (u64 k = 0; k < cnt; k++) { Val v = loadInt(lo + k * stride, n); if (v.e) syms.push_back({lo + k * stride, v.e}); else groups[v.c].push_back(lo + k * stride); }
  // the largest concrete group is the default
  u64 best = 0; size_t bn = 0; for (auto &g : groups) if (g.second.size() > bn) { bn = g.second.size(); best = g.first; }
  E r; if (bn) r = cst(best, 8 * n); else { r = syms.back().second; syms.pop_back(); }
  for (auto &s : syms) r = mkite(mkbin(E_EQ, addr, cst(s.first, 64)), s.second, r);
  for (auto &g : groups) { if (bn && g.first == best) continue; E c = cst(0, 1);
    size_t i = 0; while (i < g.second.size()) { size_t j = i; while (j + 1 < g.second.size() && g.second[j + 1] == g.second[j] + stride) j++;
      E q = i == j ? mkbin(E_EQ, addr, cst(g.second[i], 64)) : mkbin(E_ULE, mkbin(E_SUB, addr, cst(g.second[i], 64)), cst(g.second[j] - g.second[i], 64)); c = mkbin(E_OR, c, q); i = j + 1; }
    r = mkite(c, cst(g.first, 8 * n), r); }
  out = fromE(r); return true;
}
static void storeInt(u64 a, int n, const Val &v) {
  if (!inA(a, n)) memerr("invalid write", a);
  for (int i = 0; i < n; i++) { u8 s = *sh(a + i); if (s == S_NONE) memerr("invalid write", a + i); if (s == S_RO) memerr("write to read-only memory", a + i); }
  if (!v.e) { memcpy((void *)a, &v.c, n); memset(sh(a), S_INIT, n); return; }
  for (int i = 0; i < n; i++) {
    E b = mkextract(v.e, 8 * i, 8);
    if (isc(b)) { *(u8 *)(a + i) = (u8)b->c; *sh(a + i) = S_INIT; }
    else { symb[a + i] = b; *sh(a + i) = S_SYM; }
  }
}
static void storeByteE(u64 a, E b) { storeInt(a, 1, fromE(b)); }
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  if (!inA(d, n)) memerr("invalid write", d); if (!inA(s, n)) memerr("invalid read", s);
  bool simple = true;
  for (u64 i = 0; i < n; i++) { u8 x = *sh(s + i), y = *sh(d + i);
    if (x == S_NONE) memerr("invalid read", s + i); if (y == S_NONE) memerr("invalid write", d + i); if (y == S_RO) memerr("write to read-only memory", d + i);
    if (x == S_SYM || x == S_UNINIT) simple = false; }
  if (simple) { memmove((void *)d, (void *)s, n); memset(sh(d), S_INIT, n); return; }
  bool back = d > s;
  for (u64 j = 0; j < n; j++) { u64 i = back ? n - 1 - j : j; u8 x = *sh(s + i);
    if (x == S_SYM) { symb[d + i] = symb[s + i]; *sh(d + i) = S_SYM; }
    else if (x == S_UNINIT) *sh(d + i) = S_UNINIT;
    else { *(u8 *)(d + i) = *(u8 *)(s + i); *sh(d + i) = S_INIT; } }
}
static u64 heapAlloc(u64 n, bool zero) {
  if (n > (1ull << 28)) return 0;
  u64 a = heaptop; heaptop += ((n + 15) & ~15ull) + 16;
  if (heaptop > ABASE + ASIZE) endPath("engine-limit", "heap exhausted", 0);
  memset(sh(a), zero ? S_INIT : S_UNINIT, n);
  if (zero) { /* fresh pages are zero */ }
  hsize[a] = n; if (n >= 64) hobjs[a] = n; return a;
}
static void heapFree(u64 a) {
  if (!a) return;
  auto it = hsize.find(a);
  if (it == hsize.end()) memerr("invalid free", a);
  memset(sh(a), S_NONE, it->second); hobjs.erase(a); hsize.erase(it);
}
static string cstr(u64 a) { // concrete C string (concretizes)
  string s;
  for (;; a++) { Val v = loadInt(a, 1); u64 c = concretize(v, 8, "string byte"); if (!c) return s; s.push_back((char)c); if (s.size() > 1 << 20) endPath("engine-limit", "string too long", 0); }
}
static u64 putStr(const string &s) { u64 a = heapAlloc(s.size() + 1, true); memcpy((void *)a, s.data(), s.size()); memset(sh(a), S_INIT, s.size() + 1); return a; }

// ---------------------------------------------------------------- compiled program
enum Op : u8 { O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_CAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_JMP, O_SWITCH, O_RET, O_CALL, O_SELECT, O_UNREACH, O_EXTRACTV, O_INSERTV, O_MOVE, O_VAARG };
enum TK : u8 { T_INT, T_FLOAT, T_DOUBLE, T_FP80 };
struct Ty { TK k; int w; }; // w: bits
struct Func;
struct Edge { int target; vector<std::pair<int, int>> moves; };
struct Inst {
  Op op; u8 sub; Ty ty, ty2; int dst; vector<int> ops; vector<Ty> otys; vector<u64> imm; vector<Edge> edges; Func *callee; Function *cfn; int nslots; int line;
};
struct Func {
  string name; Function *F; vector<Inst> code; int nregs; vector<int> argSlots; int nargs; bool vararg; bool decl; int id; bool compiled; int pure; bool retInt; int retW; bool retPtr;
  std::function<bool(vector<Val> &, vector<Ty> &, Val &)> *handler; bool handlerOptional;
};
static Module *M; static const DataLayout *DL;
static vector<Val> consts; static std::map<Function *, Func *> funcs; static vector<Func *> flist;
static std::map<u64, Func *> faddr; static std::map<GlobalValue *, u64> gaddr;
static std::map<string, Func *> fbyname;
static Ty tyOf(Type *t) {
  if (t->isIntegerTy()) { if (t->getIntegerBitWidth() > 64) { fprintf(stderr, "wide int\n"); exit(99); } return {T_INT, (int)t->getIntegerBitWidth()}; }
  if (t->isPointerTy()) return {T_INT, 64};
  if (t->isFloatTy()) return {T_FLOAT, 32};
  if (t->isDoubleTy()) return {T_DOUBLE, 64};
  if (t->isX86_FP80Ty()) return {T_FP80, 80};
  string s; raw_string_ostream o(s); t->print(o); fprintf(stderr, "unsupported type %s\n", o.str().c_str()); exit(99);
}
static void flat(Type *t, u64 off, vector<std::pair<Ty, u64>> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), off + i * es, out); }
  else out.push_back({tyOf(t), off});
}
static int nslots(Type *t) { if (t->isVoidTy()) return 0; if (!t->isAggregateType()) return 1; vector<std::pair<Ty, u64>> v; flat(t, 0, v); return v.size(); }
static int gLits = 0, gAbsHash = 0;
static Val ldv(long double x) { Val v{0, 0}; u64 hi = 0; memcpy(&v.c, &x, 8); memcpy(&hi, (char *)&x + 8, 2); v.e = (E)hi; return v; }
static long double vld(const Val &v) { long double x = 0; u64 hi = (u64)v.e; memcpy(&x, &v.c, 8); memcpy((char *)&x + 8, &hi, 2); return x; }
static double vd(const Val &v) { double d; memcpy(&d, &v.c, 8); return d; }
static float vf(const Val &v) { float f; memcpy(&f, &v.c, 4); return f; }
static Val dv(double d) { Val v{0, 0}; memcpy(&v.c, &d, 8); return v; }
static Val fv(float d) { Val v{0, 0}; memcpy(&v.c, &d, 4); return v; }

static u64 evalConstInt(Constant *c);
static Val constVal(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return CV(ci->getZExtValue());
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    if (c->getType()->isX86_FP80Ty()) { Val v; v.c = b.getRawData()[0]; v.e = (E)(b.getRawData()[1] & 0xffff); return v; }
    return CV(b.getZExtValue());
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return CV(0);
  return CV(evalConstInt(c));
}
static u64 evalConstInt(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { fprintf(stderr, "no address for %s\n", gv->getName().str().c_str()); exit(99); } return it->second; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) { APInt o(64, 0); if (!g->accumulateConstantOffset(*DL, o)) exit(99); return evalConstInt(cast<Constant>(g->getPointerOperand())) + o.getSExtValue(); }
    switch (ce->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return evalConstInt(ce->getOperand(0));
    case Instruction::Add: return evalConstInt(ce->getOperand(0)) + evalConstInt(ce->getOperand(1));
    case Instruction::Sub: return evalConstInt(ce->getOperand(0)) - evalConstInt(ce->getOperand(1));
    case Instruction::Trunc: return evalConstInt(ce->getOperand(0)) & mask(ce->getType()->getIntegerBitWidth());
    default: break;
    }
  }
  string s; raw_string_ostream o(s); c->print(o); fprintf(stderr, "unsupported constant %s\n", o.str().c_str()); exit(99);
}
static void initMem(u64 a, Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy((void *)a, r.data(), r.size()); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); i++) {
      u64 off;
      if (auto *st = dyn_cast<StructType>(t)) off = DL->getStructLayout(st)->getElementOffset(i);
      else off = i * DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
      initMem(a + off, ca->getOperand(i));
    }
    return;
  }
  Val v = constVal(c);
  if (t->isX86_FP80Ty()) { long double x = vld(v); memcpy((void *)a, &x, 10); return; }
  memcpy((void *)a, &v.c, DL->getTypeStoreSize(t));
}

struct Compiler {
  Func *fn; std::map<Value *, int> slot; std::map<BasicBlock *, int> bstart; vector<std::pair<int, int>> fix; // (inst, edge)
  vector<std::pair<std::pair<int,int>, std::pair<BasicBlock *, BasicBlock *>>> edgeFix;
  int cidx(Val v) { consts.push_back(v); return ~(int)(consts.size() - 1); }
  int op(Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      if (v->getType()->isAggregateType()) { // aggregate constant: zero/undef only, or elementwise
        int n = nslots(v->getType()); int first = fn->nregs; fn->nregs += n; (void)first;
        fprintf(stderr, "aggregate constant operand\n"); exit(99);
      }
      return cidx(constVal(c));
    }
    auto it = slot.find(v); if (it == slot.end()) { fprintf(stderr, "no slot\n"); exit(99); } return it->second;
  }
  void addEdge(Inst &in, int ii, BasicBlock *from, BasicBlock *to) {
    Edge e; e.target = -1;
    for (auto &phi : to->phis()) { Value *src = phi.getIncomingValueForBlock(from); int d = slot[&phi]; int n = nslots(phi.getType());
      if (n == 1) e.moves.push_back({d, op(src)});
      else { if (isa<Constant>(src)) { for (int i = 0; i < n; i++) e.moves.push_back({d + i, cidx(CV(0))}); } else for (int i = 0; i < n; i++) e.moves.push_back({d + i, slot[src] + i}); } }
    in.edges.push_back(e); edgeFix.push_back({{ii, (int)in.edges.size() - 1}, {from, to}});
  }
  void run(Func *f) {
    fn = f; Function *F = f->F; f->nregs = 0;
    for (auto &a : F->args()) { slot[&a] = f->nregs; f->argSlots.push_back(f->nregs); f->nregs += 1; }
    for (auto &bb : *F) for (auto &i : bb) if (!i.getType()->isVoidTy()) { slot[&i] = f->nregs; f->nregs += std::max(1, nslots(i.getType())); }
    for (auto &bb : *F) { bstart[&bb] = f->code.size();
      for (auto &i : bb) emit(i); }
    for (auto &x : edgeFix) f->code[x.first.first].edges[x.first.second].target = bstart[x.second.second];
    f->compiled = true;
  }
  void emit(Instruction &I) {
    if (isa<PHINode>(I)) return;
    Inst in{}; in.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; int ii = fn->code.size(); in.line = 0;
    if (auto *b = dyn_cast<BinaryOperator>(&I)) {
      in.ty = tyOf(b->getType()); in.ops = {op(b->getOperand(0)), op(b->getOperand(1))};
      if (in.ty.k == T_INT) { in.op = O_BIN; switch (b->getOpcode()) {
        case Instruction::Add: in.sub = E_ADD; break; case Instruction::Sub: in.sub = E_SUB; break; case Instruction::Mul: in.sub = E_MUL; break;
        case Instruction::UDiv: in.sub = E_UDIV; break; case Instruction::SDiv: in.sub = E_SDIV; break; case Instruction::URem: in.sub = E_UREM; break; case Instruction::SRem: in.sub = E_SREM; break;
        case Instruction::And: in.sub = E_AND; break; case Instruction::Or: in.sub = E_OR; break; case Instruction::Xor: in.sub = E_XOR; break;
        case Instruction::Shl: in.sub = E_SHL; break; case Instruction::LShr: in.sub = E_LSHR; break; case Instruction::AShr: in.sub = E_ASHR; break; default: exit(99); } }
      else { in.op = O_FBIN; in.sub = b->getOpcode() == Instruction::FAdd ? 0 : b->getOpcode() == Instruction::FSub ? 1 : b->getOpcode() == Instruction::FMul ? 2 : b->getOpcode() == Instruction::FDiv ? 3 : 4; }
    } else if (auto *u = dyn_cast<UnaryOperator>(&I)) { in.op = O_FNEG; in.ty = tyOf(u->getType()); in.ops = {op(u->getOperand(0))}; }
    else if (auto *c = dyn_cast<ICmpInst>(&I)) { in.op = O_ICMP; in.sub = c->getPredicate(); in.ty = tyOf(c->getOperand(0)->getType()); in.ops = {op(c->getOperand(0)), op(c->getOperand(1))}; }
    else if (auto *c = dyn_cast<FCmpInst>(&I)) { in.op = O_FCMP; in.sub = c->getPredicate(); in.ty = tyOf(c->getOperand(0)->getType()); in.ops = {op(c->getOperand(0)), op(c->getOperand(1))}; }
    else if (auto *c = dyn_cast<CastInst>(&I)) { in.op = O_CAST; in.sub = c->getOpcode(); in.ty = tyOf(c->getType()); in.ty2 = tyOf(c->getOperand(0)->getType()); in.ops = {op(c->getOperand(0))}; }
    else if (auto *l = dyn_cast<LoadInst>(&I)) { in.op = O_LOAD; in.ops = {op(l->getPointerOperand())}; vector<std::pair<Ty, u64>> v; flat(l->getType(), 0, v); for (auto &x : v) { in.otys.push_back(x.first); in.imm.push_back(x.second); } }
    else if (auto *s = dyn_cast<StoreInst>(&I)) { in.op = O_STORE; Value *vv = s->getValueOperand(); vector<std::pair<Ty, u64>> v; flat(vv->getType(), 0, v);
      in.ops = {op(s->getPointerOperand())}; int b0 = 0; if (v.size() > 1 || vv->getType()->isAggregateType()) { if (isa<Constant>(vv)) { for (size_t i = 0; i < v.size(); i++) in.ops.push_back(cidx(CV(0))); } else { b0 = slot[vv]; for (size_t i = 0; i < v.size(); i++) in.ops.push_back(b0 + i); } } else in.ops.push_back(op(vv));
      for (auto &x : v) { in.otys.push_back(x.first); in.imm.push_back(x.second); } }
    else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { in.op = O_GEP; in.ops = {op(g->getPointerOperand())}; u64 off = 0; 
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) { Value *ix = gi.getOperand();
        if (auto *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { u64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else { in.ops.push_back(op(ix)); in.otys.push_back(tyOf(ix->getType())); in.imm.push_back(sz); } } }
      in.imm.push_back(off); }
    else if (auto *a = dyn_cast<AllocaInst>(&I)) { in.op = O_ALLOCA; in.ops = {op(a->getArraySize())}; in.otys = {tyOf(a->getArraySize()->getType())}; in.imm = {DL->getTypeAllocSize(a->getAllocatedType()), std::max<u64>(8, a->getAlign().value())}; }
    else if (auto *b = dyn_cast<BranchInst>(&I)) { if (b->isUnconditional()) { in.op = O_JMP; addEdge(in, ii, I.getParent(), b->getSuccessor(0)); } else { in.op = O_BR; in.ops = {op(b->getCondition())}; addEdge(in, ii, I.getParent(), b->getSuccessor(0)); addEdge(in, ii, I.getParent(), b->getSuccessor(1)); } }
    else if (auto *s = dyn_cast<SwitchInst>(&I)) { in.op = O_SWITCH; in.ty = tyOf(s->getCondition()->getType()); in.ops = {op(s->getCondition())}; addEdge(in, ii, I.getParent(), s->getDefaultDest()); for (auto &cs : s->cases()) { in.imm.push_back(cs.getCaseValue()->getZExtValue()); addEdge(in, ii, I.getParent(), cs.getCaseSuccessor()); } }
    else if (auto *r = dyn_cast<ReturnInst>(&I)) { in.op = O_RET; if (r->getReturnValue()) { int n = nslots(r->getReturnValue()->getType()); if (!r->getReturnValue()->getType()->isAggregateType()) in.ops = {op(r->getReturnValue())}; else for (int i = 0; i < n; i++) in.ops.push_back(isa<Constant>(r->getReturnValue()) ? cidx(CV(0)) : slot[r->getReturnValue()] + i); } }
    else if (auto *s = dyn_cast<SelectInst>(&I)) { in.op = O_SELECT; in.ty = tyOf(s->getType()); in.sub = s->getType()->isPointerTy(); in.ops = {op(s->getCondition()), op(s->getTrueValue()), op(s->getFalseValue())}; }
    else if (isa<UnreachableInst>(I)) in.op = O_UNREACH;
    else if (auto *f = dyn_cast<FreezeInst>(&I)) { in.op = O_MOVE; in.ops = {op(f->getOperand(0))}; }
    else if (auto *e = dyn_cast<ExtractValueInst>(&I)) { in.op = O_EXTRACTV; int base = slot[e->getAggregateOperand()]; Type *t = e->getAggregateOperand()->getType(); int o = 0;
      for (unsigned ix : e->indices()) { for (unsigned k = 0; k < ix; k++) o += nslots(isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType()); t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType(); }
      int n = nslots(e->getType()); for (int i = 0; i < n; i++) in.ops.push_back(base + o + i); }
    else if (auto *e = dyn_cast<InsertValueInst>(&I)) { in.op = O_EXTRACTV; Type *t = e->getType(); int n = nslots(t); bool cbase = isa<Constant>(e->getAggregateOperand()); int base = cbase ? 0 : slot[e->getAggregateOperand()];
      for (int i = 0; i < n; i++) in.ops.push_back(cbase ? cidx(CV(0)) : base + i); int o = 0;
      for (unsigned ix : e->indices()) { for (unsigned k = 0; k < ix; k++) o += nslots(isa<StructType>(t) ? cast<StructType>(t)->getElementType(k) : cast<ArrayType>(t)->getElementType()); t = isa<StructType>(t) ? cast<StructType>(t)->getElementType(ix) : cast<ArrayType>(t)->getElementType(); }
      int m = nslots(t); for (int i = 0; i < m; i++) in.ops[o + i] = m == 1 ? op(e->getInsertedValueOperand()) : slot[e->getInsertedValueOperand()] + i; }
    else if (auto *c = dyn_cast<CallInst>(&I)) {
      if (isa<DbgInfoIntrinsic>(I)) return;
      Function *cf = c->getCalledFunction();
      if (cf && cf->isIntrinsic()) { string n = cf->getName().str(); if (n.find("llvm.lifetime") == 0 || n.find("llvm.dbg") == 0 || n.find("llvm.assume") == 0 || n.find("llvm.experimental.noalias") == 0) return; }
      in.op = O_CALL; in.cfn = cf; in.callee = cf ? funcs[cf] : nullptr; in.nslots = nslots(c->getType());
      if (c->isInlineAsm()) { fprintf(stderr, "inline asm\n"); exit(99); }
      if (!cf) in.ops.push_back(op(c->getCalledOperand()));
      // byval arguments: copy at call time (size in imm, aligned)
      for (unsigned i = 0; i < c->arg_size(); i++) { Value *a = c->getArgOperand(i); if (a->getType()->isMetadataTy()) { return; } in.ops.push_back(op(a)); in.otys.push_back(tyOf(a->getType())); in.imm.push_back(c->isByValArgument(i) ? DL->getTypeAllocSize(c->getParamByValType(i)) : 0); }
      if (!I.getType()->isVoidTy() && !I.getType()->isAggregateType()) in.ty = tyOf(I.getType()); else in.ty = {T_INT, 64};
    } else { string s; raw_string_ostream o(s); I.print(o); fprintf(stderr, "unsupported instruction %s\n", o.str().c_str()); exit(99); }
    fn->code.push_back(in);
  }
};
// ---------------------------------------------------------------- interpreter state
typedef vector<Val> VV0;
struct Frame { VV0 args; bool mergeOff; Func *f; int pcI; size_t rbase; u64 sp; int retDst; int retN; vector<Val> va; vector<Ty> vat; u64 vaArea; };
static vector<Frame> stk; static vector<Val> regs; static u64 sp = STKBASE;
static Func *entryF;
static string btrace() { string s; int n = 0; for (int i = (int)stk.size() - 1; i >= 0 && n < 8; i--, n++) { if (!s.empty()) s += "<"; s += stk[i].f->name; } return s; }
static inline Val rv(size_t base, int o) { return o >= 0 ? regs[base + o] : consts[~o]; }

// ---------------------------------------------------------------- result output
static std::map<string, vector<std::pair<bool, u64>>> gouts; // name -> bytes (sym?, byte or hole id)
static vector<std::pair<char, E>> holes; // kind, expr
static vector<string> asserts;
static string esc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static int dagId(E e, std::unordered_map<E, int> &m, string &out) {
  auto it = m.find(e); if (it != m.end()) return it->second;
  string args;
  for (E x : {e->a, e->b, e->d}) if (x) { args += "," + std::to_string(dagId(x, m, out)); }
  int id = m.size(); m[e] = id;
  if (!out.empty()) out += ",";
  out += "[\"" + string(EKN[e->k]) + "\"," + std::to_string(e->w) + ",\"" + std::to_string(e->c) + "\"" + args + "]";
  return id;
}
static void subLeaf(bool ok, Val r, int w); extern int *pSubMerge;
static void endPath(const string &kind, const string &msg, int status) {
  if (*pSubMerge >= 0) { if (kind == "infeasible") { reap(); _exit(0); } subLeaf(false, CV(0), 64); }
  string o = "{\"kind\":\"" + kind + "\",\"msg\":\"" + esc(msg) + "\",\"status\":" + std::to_string(status);
  if (kind != "exit") o += ",\"bt\":\"" + esc(btrace()) + "\"";
  o += ",\"vars\":["; for (size_t i = 0; i < vars.size(); i++) { if (i) o += ","; o += "[\"" + esc(vars[i].name) + "\"," + std::to_string(vars[i].w) + "," + (vars[i].uninit ? "1" : "0") + ",\"" + std::to_string(model[i]) + "\"]"; } o += "]";
  std::unordered_map<E, int> m; string dag, pcs, hs;
  for (E e : pc) { int id = dagId(e, m, dag); if (!pcs.empty()) pcs += ","; pcs += std::to_string(id); }
  for (auto &h : holes) { int id = dagId(h.second, m, dag); if (!hs.empty()) hs += ","; hs += "[\"" + string(1, h.first) + "\"," + std::to_string(id) + "]"; }
  o += ",\"dag\":[" + dag + "],\"pc\":[" + pcs + "],\"holes\":[" + hs + "],\"out\":{";
  bool first = true;
  for (auto &x : gouts) { if (!first) o += ","; first = false; string b; for (auto &p : x.second) { if (p.first) { b += '\x01'; b += holes[p.second].first; b += std::to_string(p.second); b += '\x02'; } else b += (char)p.second; } o += "\"" + esc(x.first) + "\":\"" + esc(b) + "\""; }
  o += "},\"choices\":{"; first = true; for (auto &c : choices) { if (!first) o += ","; first = false; o += "\"" + esc(c.first) + "\":\"" + esc(c.second) + "\""; }
  o += "},\"events\":["; first = true; for (auto &e : events) { if (!first) o += ","; first = false; o += e; } o += "],\"notes\":["; first = true; for (auto &e : notes) { if (!first) o += ","; first = false; o += "\"" + esc(e) + "\""; }
  o += "],\"asserts\":["; first = true; for (auto &e : asserts) { if (!first) o += ","; first = false; o += "\"" + esc(e) + "\""; } o += "]}\n";
  if (subPipe >= 0) { string s; for (auto &e : events) s += e + "\n"; if (kind != "exec") s += "{\"subexit\":" + std::to_string(status) + ",\"kind\":\"" + kind + "\"}\n"; (void)!write(subPipe, s.data(), s.size()); reap(); _exit(0); }
  flock(curOutFd, LOCK_EX);
  size_t off = 0; while (off < o.size()) { ssize_t k = write(curOutFd, o.data() + off, o.size() - off); if (k <= 0) break; off += k; }
  flock(curOutFd, LOCK_UN);
  long n = INC(paths, 1) + 1;
  if (n >= SH->maxPaths || now() > SH->deadline) SH->stop = 1;
  reap(); _exit(0);
}
// ---------------------------------------------------------------- scenario: files
static json::Value *SC;
struct Seg { bool sym; u64 v; E e; };
static std::map<string, E> namedSyms; // name#i -> var
static std::map<string, int> chosen;
static vector<string> altKeys;
static void assumeE(E c) { vector<u64> m; if (!feasible(c, &m)) endPath("infeasible", "assumption infeasible", 0); addpc(c, m); }
static E symByte(const string &name, const json::Array *alpha) {
  auto it = namedSyms.find(name); if (it != namedSyms.end()) return it->second;
  E v = newvar(name, 8); namedSyms[name] = v;
  if (alpha) { E c = cst(0, 1); for (auto &r : *alpha) { auto *a = r.getAsArray(); u64 lo = *(*a)[0].getAsInteger(), hi = *(*a)[1].getAsInteger(); c = mkbin(E_OR, c, lo == hi ? mkbin(E_EQ, v, cst(lo, 8)) : mkbin(E_AND, mkbin(E_ULE, cst(lo, 8), v), mkbin(E_ULE, v, cst(hi, 8)))); } assumeE(c); }
  return v;
}
static int choose(const string &name, int n) {
  auto it = chosen.find(name); if (it != chosen.end()) return it->second;
  int r = n - 1;
  for (int i = 0; i < n - 1; i++) { if (SH->stop) endPath("budget", "path budget exhausted", 0); if (forkState()) { r = i; break; } }
  chosen[name] = r; choices.push_back({name, std::to_string(r)}); return r;
}
static void expandSegs(const json::Value &v, vector<E> &out) {
  if (auto s = v.getAsString()) { for (char c : *s) out.push_back(cst((u8)c, 8)); return; }
  if (auto *a = v.getAsArray()) { for (auto &x : *a) expandSegs(x, out); return; }
  auto *o = v.getAsObject();
  if (auto s = o->getString("hex")) { for (size_t i = 0; i + 1 < s->size(); i += 2) out.push_back(cst(strtoul(s->substr(i, 2).str().c_str(), 0, 16), 8)); return; }
  if (auto n = o->getString("sym")) { int len = o->getInteger("n").value_or(1); for (int i = 0; i < len; i++) out.push_back(symByte(n->str() + "#" + std::to_string(i), o->getArray("in"))); return; }
  if (auto n = o->getString("choice")) { auto *alts = o->getArray("alts"); int k = choose(n->str(), alts->size()); expandSegs((*alts)[k], out); return; }
  fprintf(stderr, "bad segment\n"); exit(99);
}
static std::map<string, vector<E>> fileCache;
static std::map<string, vector<E>> written;
// returns 1 if it exists and fills out
static bool vfile(const string &path, vector<E> *out) {
  auto w = written.find(path); if (w != written.end()) { if (out) *out = w->second; return true; }
  auto *files = SC->getAsObject()->getObject("files");
  if (files) if (auto *v = files->get(path)) {
    auto *o = v->getAsObject();
    const json::Value *segs = v;
    if (o && o->get("exists")) { if (o->getString("exists")) { if (!choose("exists:" + o->getString("exists")->str(), 2)) return false; } segs = o->get("data"); }
    if (out) { auto it = fileCache.find(path); if (it != fileCache.end()) *out = it->second; else { expandSegs(*segs, *out); fileCache[path] = *out; } }
    return true;
  }
  auto *dirs = SC->getAsObject()->getArray("realdirs");
  if (dirs) for (auto &d : *dirs) { auto *p = d.getAsArray(); string pre = (*p)[0].getAsString()->str(), real = (*p)[1].getAsString()->str();
    if (path.compare(0, pre.size(), pre) == 0) { string rp = real + path.substr(pre.size()); struct stat st; if (stat(rp.c_str(), &st) || !S_ISREG(st.st_mode)) continue;
      if (out) { auto b = MemoryBuffer::getFile(rp); if (!b) continue; for (char c : (*b)->getBuffer()) out->push_back(cst((u8)c, 8)); } return true; } }
  return false;
}
// ---------------------------------------------------------------- handlers
typedef vector<Val> VV; typedef vector<Ty> VT;
static std::map<string, std::function<bool(VV &, VT &, Val &)>> handlers; // return false => fall back to bitcode body
static u64 ptr(const Val &v) { return concretize(v, 64, "pointer"); }
static bool allConc(u64 a, u64 n) { if (!inA(a, n)) return false; for (u64 i = 0; i < n; i++) { u8 s = *sh(a + i); if (s != S_INIT && s != S_RO) return false; } return true; }
static void emitByte(const string &name, E b) { if (isc(b)) gouts[name].push_back({false, b->c}); else { holes.push_back({'b', b}); gouts[name].push_back({true, holes.size() - 1}); } }
static void setupHandlers() {
  auto &H = handlers;
  H["malloc"] = [](VV &a, VT &, Val &r) { r = CV(heapAlloc(concretize(a[0], 64, "allocation size"), false)); return true; };
  H["calloc"] = [](VV &a, VT &, Val &r) { u64 n = concretize(a[0], 64, "allocation size"), m = concretize(a[1], 64, "allocation size"); r = CV(heapAlloc(n * m, true)); return true; };
  H["realloc"] = [](VV &a, VT &, Val &r) { u64 p = ptr(a[0]), n = concretize(a[1], 64, "allocation size"); u64 q = heapAlloc(n, false); if (p) { auto it = hsize.find(p); if (it == hsize.end()) memerr("invalid realloc", p); copyMem(q, p, std::min(n, it->second)); heapFree(p); } r = CV(q); return true; };
  H["free"] = [](VV &a, VT &, Val &r) { heapFree(ptr(a[0])); r = CV(0); return true; };
  auto mc = [](VV &a, VT &, Val &r) { u64 d = ptr(a[0]), s = ptr(a[1]), n = concretize(a[2], 64, "copy size"); copyMem(d, s, n); r = CV(d); return true; };
  H["memcpy"] = mc; H["memmove"] = mc; H["llvm.memcpy.p0.p0.i64"] = mc; H["llvm.memmove.p0.p0.i64"] = mc; H["llvm.memcpy.p0.p0.i32"] = mc; H["llvm.memcpy.inline.p0.p0.i64"] = mc;
  auto ms = [](VV &a, VT &t, Val &r) { u64 d = ptr(a[0]), n = concretize(a[2], 64, "memset size"); Val b = a[1].e ? fromE(mkextract(toE(a[1], t[1].w), 0, 8)) : CV(a[1].c & 255); for (u64 i = 0; i < n; i++) storeInt(d + i, 1, b); r = CV(d); return true; };
  H["memset"] = ms; H["llvm.memset.p0.i64"] = ms; H["llvm.memset.p0.i32"] = ms;
  H["strlen"] = [](VV &a, VT &, Val &r) { u64 p = ptr(a[0]); a[0] = CV(p); for (u64 q = p;; q++) { if (!allConc(q, 1)) return false; if (!*(u8 *)q) { r = CV(q - p); return true; } } };
  auto cmpf = [](u64 p, u64 q, u64 n, bool str, Val &r) { for (u64 i = 0; i < n; i++) { if (!allConc(p + i, 1) || !allConc(q + i, 1)) return false; int x = *(u8 *)(p + i), y = *(u8 *)(q + i); if (x != y) { r = CV((u32)(x - y)); return true; } if (str && !x) break; } r = CV(0); return true; };
  H["strcmp"] = [=](VV &a, VT &, Val &r) { a[0] = CV(ptr(a[0])); a[1] = CV(ptr(a[1])); return cmpf(a[0].c, a[1].c, ~0ull, true, r); };
  H["strncmp"] = [=](VV &a, VT &, Val &r) { a[0] = CV(ptr(a[0])); a[1] = CV(ptr(a[1])); if (a[2].e) return false; return cmpf(a[0].c, a[1].c, a[2].c, true, r); };
  H["memcmp"] = [=](VV &a, VT &, Val &r) { a[0] = CV(ptr(a[0])); a[1] = CV(ptr(a[1])); if (a[2].e) return false; return cmpf(a[0].c, a[1].c, a[2].c, false, r); };
  H["__sym_is_sym"] = [](VV &a, VT &, Val &r) { r = CV(a[0].e != 0); return true; };
  H["__sym_hole"] = [](VV &a, VT &, Val &r) { holes.push_back({(char)a[0].c, toE(a[1], 64)}); r = CV(holes.size() - 1); return true; };
  H["__sym_concretize"] = [](VV &a, VT &, Val &r) { r = CV(concretize(a[0], 64, "value")); return true; };
  H["__sym_var"] = [](VV &a, VT &, Val &r) { string n = cstr(ptr(a[0])); int w = (int)a[1].c; auto it = namedSyms.find(n); E v = it != namedSyms.end() ? it->second : newvar(n, w); namedSyms[n] = v; r = fromE(mkzext(v, 64)); return true; };
  // with "abshash": any function of the key is a correct hash; this one depends on the length and first byte only
  H["fnv_hash"] = [](VV &a, VT &t, Val &r) { if (!gAbsHash || a.size() != 2 || t[1].k != T_INT || a[1].e || a[0].e) return false;
    u64 n = a[1].c & 0xffffffff; Val b = CV(0); if (n) b = loadInt(ptr(a[0]), 1);
    if (b.e) r = fromE(mkbin(E_ADD, mkbin(E_MUL, mkzext(b.e, 64), cst(67, 64)), cst(n * 13, 64))); else r = CV(b.c * 67 + n * 13); return true; };
  H["__sym_lits"] = [](VV &, VT &, Val &r) { r = CV(gLits); return true; };
  H["__sym_lit"] = [](VV &a, VT &, Val &r) { string n = "lit" + std::to_string(a[0].c); auto it = namedSyms.find(n); E v = it != namedSyms.end() ? it->second : newvar(n, 64); namedSyms[n] = v; r = fromE(v); return true; };
  H["__sym_choose"] = [](VV &a, VT &, Val &r) { r = CV(choose(cstr(ptr(a[0])), (int)a[1].c)); return true; };
  H["__sym_assume"] = [](VV &a, VT &t, Val &r) { E c = mknot(mkbin(E_EQ, toE(a[0], t[0].w), cst(0, t[0].w))); if (isc(c) ? !c->c : !feasible(c, nullptr)) endPath("infeasible", "assume", 0); if (!isc(c)) assumeE(c); r = CV(0); return true; };
  H["__sym_assert"] = [](VV &a, VT &t, Val &r) { // solver-decided: is the negation feasible on this path?
    E bad = mkbin(E_EQ, toE(a[0], t[0].w), cst(0, t[0].w)); vector<u64> m; string msg = cstr(ptr(a[1]));
    INC(queries, isc(bad) ? 1 : 0);
    if (isc(bad) ? bad->c : zcheck(bad, &m)) { if (!isc(bad)) addpc(bad, m); endPath("assert", msg, 0); }
    asserts.push_back(msg); r = CV(0); return true; };
  H["__sym_exit"] = [](VV &a, VT &, Val &) -> bool { endPath("exit", "", (int)concretize(a[0], 32, "exit status")); };
  H["__sym_abort"] = [](VV &a, VT &, Val &) -> bool { endPath("abort", cstr(ptr(a[0])), 0); };
  H["__sym_event"] = [](VV &a, VT &, Val &r) { events.push_back("{\"" + esc(cstr(ptr(a[0]))) + "\":\"" + esc(cstr(ptr(a[1]))) + "\"}"); r = CV(0); return true; };
  H["__sym_emit"] = [](VV &a, VT &, Val &r) { // name, buf, len
    string n = cstr(ptr(a[0])); u64 p = ptr(a[1]), l = a[2].c; for (u64 i = 0; i < l; i++) { loadInt(p + i, 1); emitByte(n, byteE(p + i)); } if (!gouts.count(n)) gouts[n]; r = CV(0); return true; };
  H["__sym_emithole"] = [](VV &a, VT &, Val &r) { string n = cstr(ptr(a[0])); gouts[n].push_back({true, a[1].c}); r = CV(0); return true; };
  H["__sym_outtrunc"] = [](VV &a, VT &, Val &r) { gouts[cstr(ptr(a[0]))].clear(); r = CV(0); return true; };
  H["__sym_outgone"] = [](VV &a, VT &, Val &r) { gouts.erase(cstr(ptr(a[0]))); r = CV(0); return true; };
  H["__sym_file"] = [](VV &a, VT &, Val &r) { // path, char **buf, long *size -> exists
    string p = cstr(ptr(a[0])); vector<E> d; bool want = a[1].c != 0;
    if (!vfile(p, want ? &d : nullptr)) { r = CV(0); return true; }
    if (want) { u64 b = heapAlloc(d.size() ? d.size() : 1, false); for (size_t i = 0; i < d.size(); i++) { if (isc(d[i])) { *(u8 *)(b + i) = d[i]->c; *sh(b + i) = S_INIT; } else { symb[b + i] = d[i]; *sh(b + i) = S_SYM; } } storeInt(a[1].c, 8, CV(b)); storeInt(a[2].c, 8, CV(d.size())); }
    r = CV(1); return true; };
  H["__sym_native_fmt"] = [](VV &a, VT &, Val &r) { // buf, size, fmt, width(-1), prec(-1), isld, long double
    string f = cstr(ptr(a[2])); char b[512]; long double x = vld(a[3]); int n = snprintf(b, sizeof b, f.c_str(), x); u64 d = ptr(a[0]); for (int i = 0; i <= n && i < 511; i++) storeInt(d + i, 1, CV((u8)b[i])); r = CV((u32)n); return true; };
  static auto fltPrefix = [](VV &a) { u64 p = ptr(a[0]); string s; // concretize only the prefix strtold can look at
    for (u64 q = p;; q++) { Val v = loadInt(q, 1); if (v.e) { // fork: is it a float char?
        E b = v.e; auto rng = [&](int lo, int hi) { return mkbin(E_AND, mkbin(E_ULE, cst(lo, 8), b), mkbin(E_ULE, b, cst(hi, 8))); };
        E num = mkbin(E_OR, rng('0', '9'), mkbin(E_OR, mkbin(E_EQ, mkbin(E_AND, b, cst(0xdf, 8)), b), cst(0, 1)));
        num = mkbin(E_OR, rng('0', '9'), mkbin(E_OR, mkbin(E_OR, rng('a', 'z'), rng('A', 'Z')), mkbin(E_OR, mkbin(E_EQ, b, cst('.', 8)), mkbin(E_OR, mkbin(E_EQ, b, cst('+', 8)), mkbin(E_EQ, b, cst('-', 8))))));
        if (!branchOn(num)) break; v = CV(concretize(v, 8, "float literal byte")); }
      char c = (char)v.c; if (!isalnum((u8)c) && c != '.' && c != '+' && c != '-' && !(s.empty() && isspace((u8)c))) break; s.push_back(c); }
    return s; };
  H["__sym_strtold"] = [](VV &a, VT &, Val &r) { string s = fltPrefix(a); char *e; long double x = strtold(s.c_str(), &e); if (a[1].c) storeInt(a[1].c, 8, CV(ptr(a[0]) + (e - s.c_str()))); r = ldv(x); return true; };
  H["__sym_strtod"] = [](VV &a, VT &, Val &r) { string s = fltPrefix(a); char *e; double x = strtod(s.c_str(), &e); if (a[1].c) storeInt(a[1].c, 8, CV(ptr(a[0]) + (e - s.c_str()))); r = dv(x); return true; };
  H["__sym_strtof"] = [](VV &a, VT &, Val &r) { string s = fltPrefix(a); char *e; float x = strtof(s.c_str(), &e); if (a[1].c) storeInt(a[1].c, 8, CV(ptr(a[0]) + (e - s.c_str()))); r = fv(x); return true; };
  H["__sym_fork"] = [](VV &, VT &, Val &r) { // simulate fork(): run the child to its exec/exit, then continue as parent
    int pfd[2]; if (pipe(pfd)) exit(99); fflush(stdout); pid_t p = fork();
    if (p == 0) { close(pfd[0]); subPipe = pfd[1]; kids.clear(); ownSlot = false; events.clear(); r = CV(0); return true; }
    close(pfd[1]); string s; char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n); close(pfd[0]); int st; waitpid(p, &st, 0);
    size_t i = 0; while (i < s.size()) { size_t e = s.find('\n', i); events.push_back(s.substr(i, e - i)); i = e + 1; }
    r = CV(4242); return true; };
  H["__sym_exec"] = [](VV &a, VT &, Val &) -> bool { string o = "{\"exec\":["; u64 p = ptr(a[0]); bool f = true; for (;; p += 8) { u64 q = ptr(loadInt(p, 8)); if (!q) break; if (!f) o += ","; f = false; o += "\"" + esc(cstr(q)) + "\""; } o += "]}"; events.push_back(o); endPath("exec", "", 0); };
}
// ---------------------------------------------------------------- call machinery
static u64 stackAlloc(u64 n, u64 al) { sp = (sp + al - 1) & ~(al - 1); u64 a = sp; if (sp + n + 16 > STKBASE + STKSIZE || stk.size() > 20000) endPath("memory-error", "stack overflow (unbounded recursion)", 0); memset(sh(a), S_UNINIT, n); sp += n + 16; return a; }
static void enter(Func *f, VV &args, VT &tys, int dst, int n) {
  if (!f->compiled) { Compiler c; c.run(f); }
  SH->fcov[f->id] = 1;
  Frame fr; fr.f = f; fr.pcI = 0; fr.rbase = stk.empty() ? 0 : stk.back().rbase + stk.back().f->nregs; fr.sp = sp; fr.retDst = dst; fr.retN = n; fr.vaArea = 0; fr.mergeOff = false; if (f->pure == 1 && !vars.empty()) fr.args = args;
  if (regs.size() < fr.rbase + f->nregs + 16) regs.resize((fr.rbase + f->nregs + 16) * 2);
  for (size_t i = 0; i < f->argSlots.size() && i < args.size(); i++) regs[fr.rbase + f->argSlots[i]] = args[i];
  for (size_t i = f->argSlots.size(); i < args.size(); i++) { fr.va.push_back(args[i]); fr.vat.push_back(tys[i]); }
  if (stk.size() > 12000) endPath("memory-error", "stack overflow (unbounded recursion)", 0);
  stk.push_back(std::move(fr));
}
static Val nativeCall(const string &name, VV &a, VT &t) {
  void *fp = dlsym(RTLD_DEFAULT, name.c_str());
  if (!fp) endPath("engine-limit", "unmodelled external function " + name, 0);
  u64 x[6] = {0}; for (size_t i = 0; i < a.size() && i < 6; i++) { if (t[i].k != T_INT) endPath("engine-limit", "unmodelled external function " + name, 0); x[i] = concretize(a[i], t[i].w, "native argument"); }
  return CV(((u64(*)(u64, u64, u64, u64, u64, u64))fp)(x[0], x[1], x[2], x[3], x[4], x[5]));
}
static bool intrinsicOp(const string &n, VV &a, VT &t, Val &r);
static Val castOp(const Inst &in, Val v);
static long double fget(const Val &v, Ty t) { if (t.k == T_FP80) return vld(v); Val c = v; if (v.e) c = CV(concretize(v, t.w, "floating value", 300)); return t.k == T_FLOAT ? (long double)vf(c) : (long double)vd(c); }
static Val fput(long double x, Ty t) { return t.k == T_FP80 ? ldv(x) : t.k == T_FLOAT ? fv((float)x) : dv((double)x); }
static Val castOp(const Inst &in, Val v) {
  int w = in.ty.w, w2 = in.ty2.w;
  switch (in.sub) {
  case Instruction::Trunc: return v.e ? fromE(mkextract(v.e, 0, w)) : CV(v.c & mask(w));
  case Instruction::ZExt: return v.e ? fromE(mkzext(v.e, w)) : CV(v.c & mask(w2));
  case Instruction::SExt: return v.e ? fromE(mksext(v.e, w)) : CV((u64)sx(v.c, w2) & mask(w));
  case Instruction::PtrToInt: return v.e ? fromE(w < 64 ? mkextract(v.e, 0, w) : v.e) : CV(v.c & mask(w));
  case Instruction::IntToPtr: return v.e ? fromE(mkzext(v.e, 64)) : v;
  case Instruction::BitCast: return v;
  case Instruction::FPTrunc: case Instruction::FPExt: { if (in.ty2.k == T_FP80 && in.ty.k == T_DOUBLE) return dv((double)vld(v)); return fput(fget(v, in.ty2), in.ty); }
  case Instruction::SIToFP: { i64 x = sx(concretize(v, w2, "integer converted to floating", 300), w2); if (in.ty.k == T_FLOAT) return fv((float)x); if (in.ty.k == T_DOUBLE) return dv((double)x); return ldv((long double)x); }
  case Instruction::UIToFP: { u64 x = concretize(v, w2, "integer converted to floating", 300) & mask(w2); if (in.ty.k == T_FLOAT) return fv((float)x); if (in.ty.k == T_DOUBLE) return dv((double)x); return ldv((long double)x); }
  case Instruction::FPToSI: { long double x = fget(v, in.ty2); volatile long double y = x; i64 q = (i64)y; return CV((u64)q & mask(w)); }
  case Instruction::FPToUI: { long double x = fget(v, in.ty2); volatile long double y = x; u64 q = w < 64 ? (u64)(i64)y : (u64)y; return CV(q & mask(w)); }
  }
  endPath("engine-limit", "cast", 0);
}
static bool fcmp(unsigned p, long double a, long double b) {
  bool un = std::isnan(a) || std::isnan(b);
  switch (p) { case FCmpInst::FCMP_OEQ: return a == b; case FCmpInst::FCMP_OGT: return a > b; case FCmpInst::FCMP_OGE: return a >= b; case FCmpInst::FCMP_OLT: return a < b; case FCmpInst::FCMP_OLE: return a <= b; case FCmpInst::FCMP_ONE: return !un && a != b; case FCmpInst::FCMP_ORD: return !un; case FCmpInst::FCMP_UNO: return un;
  case FCmpInst::FCMP_UEQ: return un || a == b; case FCmpInst::FCMP_UGT: return un || a > b; case FCmpInst::FCMP_UGE: return un || a >= b; case FCmpInst::FCMP_ULT: return un || a < b; case FCmpInst::FCMP_ULE: return un || a <= b; case FCmpInst::FCMP_UNE: return un || a != b; case FCmpInst::FCMP_TRUE: return true; default: return false; }
}
static bool intrinsicOp(const string &n, VV &a, VT &t, Val &r) {
  Frame &fr = stk.back();
  if (n.find("llvm.va_start") == 0) {
    if (!fr.vaArea) { u64 tot = 0; for (size_t i = 0; i < fr.va.size(); i++) { if (fr.vat[i].k == T_FP80) { tot = (tot + 15) & ~15ull; tot += 16; } else tot += 8; }
      u64 ar = stackAlloc(tot + 16, 16); fr.vaArea = ar; u64 o = 0;
      for (size_t i = 0; i < fr.va.size(); i++) { if (fr.vat[i].k == T_FP80) { o = (o + 15) & ~15ull; storeInt(ar + o, 8, CV(fr.va[i].c)); storeInt(ar + o + 8, 8, CV((u64)fr.va[i].e)); o += 16; } else { Val v = fr.va[i]; if (v.e && fr.vat[i].w < 64) v = fromE(mkzext(v.e, 64)); storeInt(ar + o, 8, v); o += 8; } } }
    u64 tag = ptr(a[0]); storeInt(tag, 4, CV(48)); storeInt(tag + 4, 4, CV(176)); storeInt(tag + 8, 8, CV(fr.vaArea)); storeInt(tag + 16, 8, CV(0)); r = CV(0); return true;
  }
  if (n.find("llvm.va_end") == 0) { r = CV(0); return true; }
  if (n.find("llvm.va_copy") == 0) { copyMem(ptr(a[0]), ptr(a[1]), 24); r = CV(0); return true; }
  if (n.find("llvm.stacksave") == 0) { r = CV(sp); return true; }
  if (n.find("llvm.stackrestore") == 0) { u64 o = a[0].c; if (sp > o) memset(sh(o), S_NONE, sp - o); sp = o; r = CV(0); return true; }
  if (n.find("llvm.expect") == 0) { r = a[0]; return true; }
  auto bin = [&](EK cmp, bool takeA) { int w = t[0].w; E x = toE(a[0], w), y = toE(a[1], w); E c = mkbin(cmp, x, y); r = fromE(takeA ? mkite(c, x, y) : mkite(c, y, x)); return true; };
  if (n.find("llvm.umin") == 0) return bin(E_ULT, true); if (n.find("llvm.umax") == 0) return bin(E_ULT, false);
  if (n.find("llvm.smin") == 0) return bin(E_SLT, true); if (n.find("llvm.smax") == 0) return bin(E_SLT, false);
  if (n.find("llvm.abs") == 0) { int w = t[0].w; E x = toE(a[0], w); r = fromE(mkite(mkbin(E_SLT, x, cst(0, w)), mkbin(E_SUB, cst(0, w), x), x)); return true; }
  if (n.find("llvm.fabs") == 0) { r = fput(fabsl(fget(a[0], t[0])), t[0]); return true; }
  if (n.find("llvm.ctpop") == 0) { r = CV(__builtin_popcountll(concretize(a[0], t[0].w, "ctpop"))); return true; }
  if (n.find("llvm.ctlz") == 0) { u64 x = concretize(a[0], t[0].w, "ctlz"); r = CV(x ? __builtin_clzll(x) - (64 - t[0].w) : t[0].w); return true; }
  if (n.find("llvm.cttz") == 0) { u64 x = concretize(a[0], t[0].w, "cttz"); r = CV(x ? __builtin_ctzll(x) : t[0].w); return true; }
  if (n.find("llvm.bswap") == 0) { u64 x = concretize(a[0], t[0].w, "bswap"); r = CV(__builtin_bswap64(x) >> (64 - t[0].w)); return true; }
  if (n.find("llvm.fshl") == 0) { int w = t[0].w; u64 k = concretize(a[2], w, "fshl") % w; E x = toE(a[0], w), y = toE(a[1], w); r = k ? fromE(mkbin(E_OR, mkbin(E_SHL, x, cst(k, w)), mkbin(E_LSHR, y, cst(w - k, w)))) : a[0]; return true; }
  return false;
}
static void doCall(Frame &fr, const Inst &in) {
  VV args; VT tys; size_t k = 0; Func *f = in.callee;
  if (!in.cfn) { u64 a = concretize(rv(fr.rbase, in.ops[0]), 64, "function pointer"); auto it = faddr.find(a); if (it == faddr.end()) memerr("call through invalid function pointer", a); f = it->second; k = 1; }
  for (size_t i = k; i < in.ops.size(); i++) {
    Val v = rv(fr.rbase, in.ops[i]); u64 bs = in.imm[i - k];
    if (bs) { u64 n = stackAlloc(bs, 16); copyMem(n, ptr(v), bs); v = CV(n); }
    args.push_back(v); tys.push_back(in.otys[i - k]); }
  size_t rb = fr.rbase; int dst = in.dst; Val r = CV(0);
  if (f->handler && (*f->handler)(args, tys, r)) { if (dst >= 0) regs[rb + dst] = r; return; }
  if (f->decl) { if (intrinsicOp(f->name, args, tys, r)) { if (dst >= 0) regs[rb + dst] = r; return; }
    r = nativeCall(f->name, args, tys); if (dst >= 0) { regs[rb + dst] = r; if (in.ty.k == T_INT) regs[rb + dst].c &= mask(in.ty.w); } return; }
  if (in.dst >= 0 || true) enter(f, args, tys, dst, in.nslots);
}
static inline void takeEdge(Frame &fr, const Edge &e) {
  size_t b = fr.rbase; size_t n = e.moves.size();
  if (n == 1) regs[b + e.moves[0].first] = rv(b, e.moves[0].second);
  else if (n) { Val tmp[64]; vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = rv(b, e.moves[i].second); for (size_t i = 0; i < n; i++) regs[b + e.moves[i].first] = t[i]; }
  fr.pcI = e.target;
}
static const EK icmpK[] = {};
static Val icmp(unsigned p, Val a, Val b, int w) {
  if (!a.e && !b.e) { u64 m = mask(w), x = a.c & m, y = b.c & m; i64 sx_ = sx(x, w), sy = sx(y, w); bool r = false;
    switch (p) { case ICmpInst::ICMP_EQ: r = x == y; break; case ICmpInst::ICMP_NE: r = x != y; break; case ICmpInst::ICMP_UGT: r = x > y; break; case ICmpInst::ICMP_UGE: r = x >= y; break; case ICmpInst::ICMP_ULT: r = x < y; break; case ICmpInst::ICMP_ULE: r = x <= y; break; case ICmpInst::ICMP_SGT: r = sx_ > sy; break; case ICmpInst::ICMP_SGE: r = sx_ >= sy; break; case ICmpInst::ICMP_SLT: r = sx_ < sy; break; case ICmpInst::ICMP_SLE: r = sx_ <= sy; break; }
    return CV(r); }
  E x = toE(a, w), y = toE(b, w);
  switch (p) { case ICmpInst::ICMP_EQ: return fromE(mkbin(E_EQ, x, y)); case ICmpInst::ICMP_NE: return fromE(mknot(mkbin(E_EQ, x, y))); case ICmpInst::ICMP_UGT: return fromE(mkbin(E_ULT, y, x)); case ICmpInst::ICMP_UGE: return fromE(mkbin(E_ULE, y, x)); case ICmpInst::ICMP_ULT: return fromE(mkbin(E_ULT, x, y)); case ICmpInst::ICMP_ULE: return fromE(mkbin(E_ULE, x, y)); case ICmpInst::ICMP_SGT: return fromE(mkbin(E_SLT, y, x)); case ICmpInst::ICMP_SGE: return fromE(mkbin(E_SLE, y, x)); case ICmpInst::ICMP_SLT: return fromE(mkbin(E_SLT, x, y)); default: return fromE(mkbin(E_SLE, x, y)); }
}
// ---------------------------------------------------------------- merging of side-effect free calls
// When a branch inside a call to a (statically inferred) pure function is about to fork, the call is re-executed in a
// sub-exploration whose leaves report (path condition, return value); the caller continues with one ITE value.
#include <setjmp.h>
static jmp_buf mergeJmp; static bool inLoop = false; static int mergeDepth = -1; static int subMergePipe = -1; static int subMergeDepth = 0; static size_t subPcStart = 0; static u32 subEnext = 0; static size_t subVars = 0;
static bool mergeEnabled = true; int *pSubMerge = &subMergePipe;
static bool isPure(Func *f) {
  if (f->pure == 2) return false; if (f->pure == 1) return true; if (f->pure == 3) return true; // 3: in progress (recursion)
  if (f->decl) { static std::set<string> ok = {"strlen", "memcmp", "strcmp", "strncmp", "__sym_is_sym"}; return ok.count(f->name) || f->name.find("llvm.umin") == 0; }
  f->pure = 3; bool p = true;
  for (auto &bb : *f->F) for (auto &I : bb) {
    if (auto *s = dyn_cast<StoreInst>(&I)) { if (!isa<AllocaInst>(s->getPointerOperand()->stripPointerCasts())) p = false; }
    else if (auto *c = dyn_cast<CallInst>(&I)) { Function *cf = c->getCalledFunction(); if (!cf) p = false; else { string n = cf->getName().str(); if (n.find("llvm.lifetime") == 0 || n.find("llvm.dbg") == 0) continue; if (c->doesNotReturn() || cf->doesNotReturn()) continue; if (!isPure(funcs[cf])) p = false; } }
    else if (isa<UnreachableInst>(I)) {}
    if (!p) break; }
  Type *rt = f->F->getReturnType(); f->retInt = rt->isIntegerTy(); f->retPtr = rt->isPointerTy(); f->retW = rt->isIntegerTy() ? rt->getIntegerBitWidth() : 64;
  f->pure = p ? 1 : 2; return p;
}
static void mergePoint() {
  if (!mergeEnabled || !inLoop) return;
  for (size_t i = (subMergePipe >= 0 ? subMergeDepth + 1 : 1); i < stk.size(); i++) { Frame &fr = stk[i];
    if (fr.f->pure == 1 && (fr.f->retInt || fr.f->retPtr) && !fr.mergeOff && !fr.args.empty()) { if (subMergePipe >= 0) return; mergeDepth = i; longjmp(mergeJmp, 1); } }
}
static void wr(string &s, u64 v) { s.append((char *)&v, 8); }
static void serE(E e, string &s, std::unordered_map<E, u64> &m, u64 &n) {
  if (e->id < subEnext || m.count(e)) return;
  for (E x : {e->a, e->b, e->d}) if (x) serE(x, s, m, n);
  auto ref = [&](E x) -> u64 { if (!x) return ~0ull; return x->id < subEnext ? x->id : ((1ull << 40) | m[x]); };
  wr(s, e->k); wr(s, e->w); wr(s, e->c); wr(s, ref(e->a)); wr(s, ref(e->b)); wr(s, ref(e->d)); m[e] = n++;
}
static void subLeaf(bool ok, Val r, int w) { // in sub-exploration: report and exit
  string body; u64 n = 0; std::unordered_map<E, u64> m; 
  if (vars.size() != subVars || !notes.empty()) ok = false;
  string recs; E c = cst(1, 1); if (ok) for (size_t i = subPcStart; i < pc.size(); i++) c = mkbin(E_AND, c, pc[i]);
  E re = toE(r, w); if (ok) { serE(c, recs, m, n); serE(re, recs, m, n); }
  auto ref = [&](E x) -> u64 { return x->id < subEnext ? x->id : ((1ull << 40) | m[x]); };
  wr(body, ok); wr(body, n); body += recs; wr(body, ok ? ref(c) : 0); wr(body, ok ? ref(re) : 0);
  string msg; wr(msg, body.size()); msg += body;
  flock(curOutFd, LOCK_EX); size_t off = 0; while (off < msg.size()) { ssize_t k = write(subMergePipe, msg.data() + off, msg.size() - off); if (k <= 0) break; off += k; } flock(curOutFd, LOCK_UN);
  reap(); _exit(0);
}
static void doMerge() { // called from run() after the jump
  int d = mergeDepth; Frame &fr = stk[d]; Func *f = fr.f; VV args = fr.args; int dst = fr.retDst, rn = fr.retN; u64 osp = fr.sp;
  while ((int)stk.size() > d) stk.pop_back();
  if (sp > osp) memset(sh(osp), S_NONE, sp - osp); sp = osp;
  VT tys(args.size(), Ty{T_INT, 64});
  int pfd[2]; if (pipe(pfd)) exit(99); fcntl(pfd[0], F_SETPIPE_SZ, 1 << 20);
  fflush(stdout); pid_t p = fork();
  if (p == 0) { close(pfd[0]); subMergePipe = pfd[1]; subMergeDepth = d; subPcStart = pc.size(); subEnext = enext; subVars = vars.size(); notes.clear(); kids.clear(); ownSlot = false; enter(f, args, tys, dst, rn); return; }
  close(pfd[1]); string s; char b[65536]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0) s.append(b, n); close(pfd[0]); int st; waitpid(p, &st, 0);
  bool ok = !(WIFSIGNALED(st)); vector<std::pair<E, E>> leaves; size_t i = 0; auto rd = [&](size_t at) { u64 v; memcpy(&v, s.data() + at, 8); return v; };
  while (ok && i + 8 <= s.size()) { u64 len = rd(i); i += 8; if (i + len > s.size()) { ok = false; break; } size_t q = i; i += len; if (!rd(q)) { ok = false; break; } u64 cnt = rd(q + 8); q += 16; vector<E> loc;
    auto get = [&](u64 r) -> E { if (r == ~0ull) return nullptr; return (r >> 40) ? loc[r & 0xffffffffffull] : allE[r]; };
    for (u64 k = 0; k < cnt; k++, q += 48) { EK kk = (EK)rd(q); int w = rd(q + 8); u64 c = rd(q + 16); loc.push_back(mk(kk, w, c, get(rd(q + 24)), get(rd(q + 32)), get(rd(q + 40)))); }
    leaves.push_back({get(rd(q)), get(rd(q + 8))}); }
  if (leaves.empty()) ok = false;
  if (!ok) { enter(f, args, tys, dst, rn); stk.back().mergeOff = true; stk.back().args.clear(); return; }
  // group by return value
  vector<std::pair<E, E>> g; for (auto &l : leaves) { bool done = false; for (auto &x : g) if (x.second == l.second) { x.first = mkbin(E_OR, x.first, l.first); done = true; break; } if (!done) g.push_back(l); }
  Val r;
  if (g.size() == 1) r = fromE(g[0].second);
  else if (f->retInt) { // put the group with most leaves last
    E e = g.back().second; for (size_t k = g.size() - 1; k-- > 0;) e = mkite(g[k].first, g[k].second, e); r = fromE(e); }
  else { mergeEnabled = false; E res = g.back().second; for (size_t k = 0; k + 1 < g.size(); k++) if (branchOn(g[k].first)) { res = g[k].second; break; } mergeEnabled = true; r = fromE(res); }
  if (dst >= 0) regs[stk.back().rbase + dst] = r;
}
static long instLimit = 400000000; 
static void run() {
  static long cnt = 0, flush = 0;
  if (setjmp(mergeJmp)) { inLoop = false; doMerge(); }
  inLoop = true;
  for (;;) {
    Frame &fr = stk.back(); const Inst &in = fr.f->code[fr.pcI++]; size_t b = fr.rbase;
    if (++cnt - flush >= 1000000) { INC(insts, cnt - flush); flush = cnt; if (cnt > instLimit) endPath("timeout", "instruction limit (possible non-termination)", 0); if (now() > SH->deadline) { SH->stop = 1; endPath("budget", "time budget exhausted", 0); } }
    switch (in.op) {
    case O_BIN: { Val x = rv(b, in.ops[0]), y = rv(b, in.ops[1]); int w = in.ty.w; EK k = (EK)in.sub;
      if (k >= E_UDIV && k <= E_SREM) {
        E zy = mkbin(E_EQ, toE(y, w), cst(0, w)); if (branchOn(zy)) endPath("crash", "integer division by zero (SIGFPE)", 0);
        if ((k == E_SDIV || k == E_SREM) && w >= 32) { E ov = mkbin(E_AND, mkbin(E_EQ, toE(y, w), cst(mask(w), w)), mkbin(E_EQ, toE(x, w), cst(1ull << (w - 1), w))); if (branchOn(ov)) endPath("crash", "integer division overflow (SIGFPE)", 0); } }
      if ((k == E_SHL || k == E_LSHR || k == E_ASHR) && w >= 32) { if (!y.e) y.c &= w - 1; else y = fromE(mkbin(E_AND, y.e, cst(w - 1, w))); }
      if (!x.e && !y.e) regs[b + in.dst] = CV(fold(k, w, x.c, y.c)); else regs[b + in.dst] = fromE(mkbin(k, toE(x, w), toE(y, w))); break; }
    case O_ICMP: regs[b + in.dst] = icmp(in.sub, rv(b, in.ops[0]), rv(b, in.ops[1]), in.ty.w); break;
    case O_FBIN: { long double x = fget(rv(b, in.ops[0]), in.ty), y = fget(rv(b, in.ops[1]), in.ty); Val r;
      if (in.ty.k == T_FP80) { long double q = in.sub == 0 ? x + y : in.sub == 1 ? x - y : in.sub == 2 ? x * y : in.sub == 3 ? x / y : fmodl(x, y); r = ldv(q); }
      else if (in.ty.k == T_DOUBLE) { double p = (double)x, q = (double)y; r = dv(in.sub == 0 ? p + q : in.sub == 1 ? p - q : in.sub == 2 ? p * q : in.sub == 3 ? p / q : fmod(p, q)); }
      else { float p = (float)x, q = (float)y; r = fv(in.sub == 0 ? p + q : in.sub == 1 ? p - q : in.sub == 2 ? p * q : in.sub == 3 ? p / q : fmodf(p, q)); }
      regs[b + in.dst] = r; break; }
    case O_FNEG: regs[b + in.dst] = fput(-fget(rv(b, in.ops[0]), in.ty), in.ty); break;
    case O_FCMP: regs[b + in.dst] = CV(fcmp(in.sub, fget(rv(b, in.ops[0]), in.ty), fget(rv(b, in.ops[1]), in.ty))); break;
    case O_CAST: { Val r = castOp(in, rv(b, in.ops[0])); regs[b + in.dst] = r; break; }
    case O_LOAD: { { Val pv = rv(b, in.ops[0]), ov; if (pv.e && in.otys.size() == 1 && in.otys[0].k == T_INT && in.otys[0].w % 8 == 0 && loadSym(pv.e, in.otys[0].w / 8, ov)) { regs[b + in.dst] = ov; break; } }
      u64 a = concretize(rv(b, in.ops[0]), 64, "load address");
      for (size_t i = 0; i < in.otys.size(); i++) { Ty t = in.otys[i]; Val v;
        if (t.k == T_FP80) { Val lo = loadInt(a + in.imm[i], 8), hi = loadInt(a + in.imm[i] + 8, 2); v.c = concretize(lo, 64, "long double", 300); v.e = (E)concretize(hi, 16, "long double", 300); }
        else { v = loadInt(a + in.imm[i], (t.w + 7) / 8); if (t.k == T_INT && t.w % 8) { v = v.e ? fromE(mkextract(v.e, 0, t.w)) : CV(v.c & mask(t.w)); } if (t.k != T_INT && v.e) v = CV(concretize(v, t.w, "floating", 300)); }
        regs[b + in.dst + i] = v; } break; }
    case O_STORE: { u64 a = concretize(rv(b, in.ops[0]), 64, "store address");
      for (size_t i = 0; i < in.otys.size(); i++) { Ty t = in.otys[i]; Val v = rv(b, in.ops[1 + i]);
        if (t.k == T_FP80) { storeInt(a + in.imm[i], 8, CV(v.c)); storeInt(a + in.imm[i] + 8, 2, CV((u64)v.e)); }
        else { int n = (t.w + 7) / 8; if (v.e && v.e->w < 8 * n) v = fromE(mkzext(v.e, 8 * n)); storeInt(a + in.imm[i], n, v); } } break; }
    case O_GEP: { Val p = rv(b, in.ops[0]); u64 off = in.imm.back(); E se = p.e; u64 c = p.c + off; bool sym = p.e; 
      if (sym) se = mkbin(E_ADD, p.e, cst(off, 64));
      for (size_t i = 1; i < in.ops.size(); i++) { Val x = rv(b, in.ops[i]); int w = in.otys[i - 1].w; 
        if (!x.e && !sym) c += (u64)sx(x.c, w) * in.imm[i - 1];
        else { if (!sym) { se = cst(c, 64); sym = true; } se = mkbin(E_ADD, se, mkbin(E_MUL, mksext(toE(x, w), 64), cst(in.imm[i - 1], 64))); } }
      regs[b + in.dst] = sym ? fromE(se) : CV(c); break; }
    case O_ALLOCA: { u64 n = concretize(rv(b, in.ops[0]), in.otys[0].w, "alloca size"); regs[b + in.dst] = CV(stackAlloc(n * in.imm[0], in.imm[1])); break; }
    case O_JMP: takeEdge(fr, in.edges[0]); break;
    case O_BR: { Val c = rv(b, in.ops[0]); bool t = c.e ? branchOn(c.e) : (c.c & 1); takeEdge(stk.back(), in.edges[t ? 0 : 1]); break; }
    case O_SWITCH: { Val v = rv(b, in.ops[0]); int w = in.ty.w;
      if (!v.e) { int k = 0; for (size_t i = 0; i < in.imm.size(); i++) if (in.imm[i] == (v.c & mask(w))) { k = i + 1; break; } takeEdge(fr, in.edges[k]); break; }
      // group cases by target block
      std::map<int, E> grp; vector<int> order; E any = cst(0, 1); std::map<int,int> edgeOf;
      for (size_t i = 0; i < in.imm.size(); i++) { E c = mkbin(E_EQ, v.e, cst(in.imm[i], w)); int tg = in.edges[i + 1].moves.empty() ? in.edges[i + 1].target : -(int)i - 2; if (!grp.count(tg)) { grp[tg] = c; order.push_back(tg); edgeOf[tg] = i + 1; } else grp[tg] = mkbin(E_OR, grp[tg], c); any = mkbin(E_OR, any, c); }
      int pick = -1; for (int tg : order) if (branchOn(grp[tg])) { pick = edgeOf[tg]; break; }
      takeEdge(stk.back(), in.edges[pick < 0 ? 0 : pick]); break; }
    case O_RET: { VV r; for (int o : in.ops) r.push_back(rv(b, o));
      u64 osp = fr.sp; if (sp > osp) memset(sh(osp), S_NONE, sp - osp); sp = osp; int d = fr.retDst; int rw = fr.f->retW; stk.pop_back();
      if (subMergePipe >= 0 && (int)stk.size() == subMergeDepth) subLeaf(true, r[0], rw);
      if (stk.empty()) { endPath("exit", "returned", r.empty() ? 0 : (int)concretize(r[0], 32, "exit status")); }
      if (d >= 0) for (size_t i = 0; i < r.size(); i++) regs[stk.back().rbase + d + i] = r[i];
      break; }
    case O_CALL: doCall(fr, in); break;
    case O_SELECT: { Val c = rv(b, in.ops[0]), x = rv(b, in.ops[1]), y = rv(b, in.ops[2]);
      if (!c.e) regs[b + in.dst] = (c.c & 1) ? x : y;
      else if (in.sub || in.ty.k != T_INT) { bool t = branchOn(c.e); regs[b + in.dst] = t ? x : y; }
      else regs[b + in.dst] = fromE(mkite(c.e, toE(x, in.ty.w), toE(y, in.ty.w))); break; }
    case O_MOVE: regs[b + in.dst] = rv(b, in.ops[0]); break;
    case O_EXTRACTV: { VV t; for (int o : in.ops) t.push_back(rv(b, o)); for (size_t i = 0; i < t.size(); i++) regs[b + in.dst + i] = t[i]; break; }
    case O_UNREACH: endPath("crash", "reached unreachable code", 0);
    default: endPath("engine-limit", "op", 0);
    }
  }
}
int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: tcsym prog.bc scenario.json out.jsonl\n"); return 2; }
  signal(SIGPIPE, SIG_IGN);
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) { err.print("tcsym", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  auto mb = MemoryBuffer::getFile(argv[2]); if (!mb) return 2;
  auto jv = json::parse((*mb)->getBuffer()); if (!jv) { fprintf(stderr, "bad scenario json\n"); return 2; }
  SC = &*jv; auto *so = SC->getAsObject();
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  SH->maxActive = so->getInteger("jobs").value_or(8); SH->maxPaths = so->getInteger("max_paths").value_or(100000); double t0 = now(); SH->deadline = t0 + so->getNumber("timeout").value_or(600);
  instLimit = so->getInteger("max_insts").value_or(400000000);
  if (mmap((void *)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) == MAP_FAILED) return 2;
  SHD = (u8 *)mmap(0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (SHD == MAP_FAILED) return 2;
  curOutFd = open(argv[3], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
  setupHandlers();
  u64 fa = ABASE + ASIZE + 0x1000; int fid = 0;
  for (auto &F : *M) { Func *f = new Func(); f->name = F.getName().str(); f->F = &F; f->decl = F.isDeclaration(); f->vararg = F.isVarArg(); f->compiled = false; f->id = fid++; f->handler = nullptr; if (fid >= 8192) return 2; auto h = handlers.find(f->name); if (h != handlers.end()) f->handler = &h->second; funcs[&F] = f; flist.push_back(f); gaddr[&F] = fa; faddr[fa] = f; fbyname[f->name] = f; fa += 16; }
  for (auto &G : M->globals()) { u64 sz = DL->getTypeAllocSize(G.getValueType()); u64 al = std::max<u64>(16, G.getAlign().valueOrOne().value()); gtop = (gtop + al - 1) & ~(al - 1); gaddr[&G] = gtop; gobjs[gtop] = sz; gtop += sz + 16; }
  for (auto &A : M->aliases()) gaddr[&A] = 0;
  for (auto &A : M->aliases()) gaddr[&A] = evalConstInt(A.getAliasee());
  if (gtop > STKBASE) return 2;
  for (auto &G : M->globals()) { u64 a = gaddr[&G]; u64 sz = DL->getTypeAllocSize(G.getValueType()); if (G.hasInitializer()) { initMem(a, G.getInitializer()); memset(sh(a), G.isConstant() ? S_RO : S_INIT, sz); } else { fprintf(stderr, "undefined global %s\n", G.getName().str().c_str()); memset(sh(a), S_INIT, sz); } }
  for (auto *f : flist) { f->pure = 0; } for (auto *f : flist) if (!f->decl) isPure(f);
  string entry = so->getString("entry").value_or("main").str();
  auto *E0 = M->getFunction(entry); if (!E0) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  entryF = funcs[E0];
  // run the root state in a child so that this process can report totals
  SH->active = 1;
  pid_t root = fork();
  if (root == 0) {
    ownSlot = true;
    if (auto x = so->getInteger("lits")) gLits = (int)*x;
    if (auto x = so->getInteger("abshash")) gAbsHash = (int)*x;
    if (auto *pre = so->getArray("prechoose")) for (auto &x : *pre) { auto *o = x.getAsArray(); choose((*o)[0].getAsString()->str(), (int)*(*o)[1].getAsInteger()); }
    VV args; VT tys;
    if (auto *av = so->getArray("argv")) {
      vector<u64> ps; for (auto &x : *av) { vector<E> d; 
        if (auto *o = x.getAsObject()) if (auto nm = o->getString("optional")) { if (!choose(nm->str(), 2)) continue; expandSegs(*o->get("data"), d); goto have; }
        expandSegs(x, d);
      have: u64 p = heapAlloc(d.size() + 1, true); for (size_t i = 0; i < d.size(); i++) storeByteE(p + i, d[i]); ps.push_back(p); }
      u64 ap = heapAlloc(8 * (ps.size() + 1), true); for (size_t i = 0; i < ps.size(); i++) storeInt(ap + 8 * i, 8, CV(ps[i]));
      args = {CV(ps.size()), CV(ap)}; tys = {{T_INT, 32}, {T_INT, 64}};
    }
    enter(entryF, args, tys, -1, 0);
    run();
    _exit(0);
  }
  int st; waitpid(root, &st, 0); if (WIFSIGNALED(st) || WEXITSTATUS(st) == 99) INC(killed, 1);
  string fn; for (auto *f : flist) if (SH->fcov[f->id] && f->name.compare(0, 2, "__") != 0) { if (!fn.empty()) fn += ","; fn += "\"" + f->name + "\""; }
  INC(insts, 0); printf("{\"paths\":%ld,\"forks\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"domain_queries\":%ld,\"insts\":%ld,\"solver_s\":%.3f,\"wall_s\":%.3f,\"killed\":%ld,\"complete\":%s,\"functions\":[%s]}\n", SH->paths, SH->forks, SH->queries, SH->sat, SH->unsat, SH->unknown, SH->domq, SH->insts, SH->solver_us * 1e-6, now() - t0, SH->killed, (SH->stop || SH->killed) ? "false" : "true", fn.c_str());
  return 0;
}
