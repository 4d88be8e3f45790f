// Symbolic executor for the pre-decoded LLVM module.
//
//   symex MODULE.bc JOBS OUTDIR [options]
//
// JOBS: one job per line:   <entry function> <p0> <p1> ...      (u64 parameters)
// Every job is explored exhaustively over its symbolic variables.  OUTDIR gets
// w<pid>.txt files (violations, path samples) and summary.txt.
#include "module.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cinttypes>
#include <cmath>
#include <cstdio>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <set>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

Z3_ast domainZ3(unsigned var, const Set256 &d);
Z3_solver mkBvSolver();

// ------------------------------------------------------------------ options
static double g_timeLimit = 600;
static double g_certBudget = 20;
static uint64_t g_instLimit = 30000000;
static int g_nproc = 8;
static uint64_t g_sampleEvery = 0;     // emit every n-th completed path as a sample for native validation
static int g_maxViol = 40;
static std::string g_out;
static const int NV = 64;

struct Shared {
  std::atomic<int> active, stop, viol, errors, timedOut;
  std::atomic<uint64_t> paths, pruned, panics, forks, insts, queries, qsat, qunsat, qunknown, qns, samples, certTotal, certChecked, certFailed, certQueries, certUs, unexplored, checks, symchecks;
  std::atomic<uint64_t> reach[4096];
  std::atomic<uint64_t> jobPaths[65536];
  std::atomic<uint64_t> hits[1 << 16];
  std::atomic<uint64_t> claims[1 << 22];
};
static Shared *SH;
static bool claimFn(uint64_t h) {
  if (!h) h = 1;
  size_t i = h & ((1 << 22) - 1);
  for (int n = 0; n < 64; n++, i = (i + 1) & ((1 << 22) - 1)) {
    uint64_t c = SH->claims[i].load(std::memory_order_relaxed);
    if (c == h) return false;
    if (c == 0) { uint64_t z = 0; if (SH->claims[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
  }
  return true;
}
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ------------------------------------------------------------------ memory
static const unsigned PB = 10, PS = 1 << PB, CB = 6, CS = 1 << CB;
struct Page { int ref; Expr **sh; uint8_t d[PS]; };
struct Chunk { int ref; Page *p[CS]; };
static uint64_t S_BASE, S_END, H_BASE;
static const uint64_t STACK = 8ull << 20, HEAPMAX = 256ull << 20;

static void pageFree(Page *p) { if (--p->ref == 0) { free(p->sh); free(p); } }
static void chunkFree(Chunk *c) { if (--c->ref == 0) { for (auto *p : c->p) if (p) pageFree(p); free(c); } }

struct Mem {
  std::vector<Chunk *> ch;
  Mem() {}
  Mem(const Mem &o) : ch(o.ch) { for (auto *c : ch) if (c) c->ref++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) if (c) chunkFree(c); }
  inline Page *rd(uint64_t a) const {
    uint64_t i = (a - G_BASE) >> PB;
    uint64_t ci = i >> CB;
    if (ci >= ch.size()) return nullptr;
    Chunk *c = ch[ci];
    return c ? c->p[i & (CS - 1)] : nullptr;
  }
  Page *wr(uint64_t a) {
    uint64_t i = (a - G_BASE) >> PB, ci = i >> CB;
    if (ci >= ch.size()) ch.resize(ci + 1);
    Chunk *&c = ch[ci];
    if (!c) { c = (Chunk *)calloc(1, sizeof(Chunk)); c->ref = 1; }
    else if (c->ref > 1) {
      Chunk *n = (Chunk *)malloc(sizeof(Chunk)); memcpy(n, c, sizeof(Chunk)); n->ref = 1;
      for (auto *p : n->p) if (p) p->ref++;
      c->ref--; c = n;
    }
    Page *&p = c->p[i & (CS - 1)];
    if (!p) { p = (Page *)calloc(1, sizeof(Page)); p->ref = 1; }
    else if (p->ref > 1) {
      Page *n = (Page *)malloc(sizeof(Page)); memcpy(n->d, p->d, PS); n->ref = 1; n->sh = nullptr;
      if (p->sh) { n->sh = (Expr **)malloc(PS * sizeof(Expr *)); memcpy(n->sh, p->sh, PS * sizeof(Expr *)); }
      p->ref--; p = n;
    }
    return p;
  }
};

// ------------------------------------------------------------------ state
struct Frame { Func *f; int pc; uint32_t base; uint64_t sp; const CallInfo *ci; int dst; };
struct State {
  Mem mem;
  std::vector<Val> regs;
  std::vector<Frame> fr;
  uint64_t sp, hp, lastAlloc = 0;
  Set256 dom[NV]; uint64_t fixed = 0; uint64_t used = 0, wused = 0;
  std::vector<Expr *> mc; uint64_t mcSup = 0, mcW = 0;
  Model model;
  uint64_t ninst = 0; uint32_t depth = 0;
  int job = 0;
  std::vector<Val> logs; std::vector<uint8_t> logw;
};
struct Job { std::string entry; std::vector<uint64_t> p; };
static std::vector<Job> g_jobs;
static std::vector<State *> g_work;
static FILE *g_f;
static State *S;    // current

struct PathEnd { int kind; std::string msg; };
enum { PE_END, PE_PRUNE, PE_PANIC, PE_VIOL, PE_ERROR, PE_LIMIT, PE_FAULT };

static std::string stackTrace(int maxn = 40) {
  std::string s;
  for (int i = (int)S->fr.size() - 1, n = 0; i >= 0 && n < maxn; i--, n++) { if (n) s += " <- "; s += S->fr[i].f->dem; }
  return s;
}
[[noreturn]] static void endPath(int k, std::string m = "") { throw PathEnd{k, m}; }
[[noreturn]] static void unsup(const std::string &m) { endPath(PE_ERROR, m + " @ " + stackTrace()); }

// ------------------------------------------------------------------ solver
static Z3_solver g_sol;
static std::unordered_map<uint64_t, std::pair<bool, Model>> qcache;
static uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }

// Is (path condition restricted to the connected component of `extra`) && extra satisfiable?
static bool solve(State &s, const std::vector<Expr *> &extra, Model &out) {
  uint64_t sup = 0, ws = 0;
  for (auto *e : extra) sup |= e->sup, ws |= e->wsup;
  std::vector<Expr *> cs; std::vector<bool> in(s.mc.size());
  bool ch = true;
  while (ch) { ch = false;
    for (size_t i = 0; i < s.mc.size(); i++) if (!in[i] && ((s.mc[i]->sup & sup) || (s.mc[i]->wsup & ws))) { in[i] = true; ch = true; sup |= s.mc[i]->sup; ws |= s.mc[i]->wsup; } }
  for (size_t i = 0; i < s.mc.size(); i++) if (in[i]) cs.push_back(s.mc[i]);
  for (auto *e : extra) cs.push_back(e);
  uint64_t h = 1;
  for (auto *e : cs) h = hmix(h, (uint64_t)e);
  for (int v = 0; v < NV; v++) if (sup >> v & 1) for (int i = 0; i < 4; i++) h = hmix(h, s.dom[v].w[i]);
  auto it = qcache.find(h);
  if (it == qcache.end()) {
    auto t = std::chrono::steady_clock::now();
    Z3_solver_push(g_z3, g_sol);
    for (int v = 0; v < NV; v++) if ((sup >> v & 1) && s.dom[v].count() < 256) Z3_solver_assert(g_z3, g_sol, domainZ3(v, s.dom[v]));
    for (auto *e : cs) Z3_solver_assert(g_z3, g_sol, Z3_mk_eq(g_z3, toZ3(e), Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1))));
    Z3_lbool r = Z3_solver_check(g_z3, g_sol);
    SH->queries++;
    Model m; memset(&m, 0, sizeof m);
    if (r == Z3_L_UNDEF) { SH->qunknown++; Z3_solver_pop(g_z3, g_sol, 1); unsup("solver returned unknown"); }
    if (r == Z3_L_TRUE) {
      SH->qsat++;
      Z3_model zm = Z3_solver_get_model(g_z3, g_sol); Z3_model_inc_ref(g_z3, zm);
      auto ev = [&](Expr *x) { Z3_ast o; uint64_t v = 0; Z3_model_eval(g_z3, zm, toZ3(x), true, &o); Z3_get_numeral_uint64(g_z3, o, &v); return v; };
      for (int v = 0; v < NV; v++) if (sup >> v & 1) m.b[v] = ev(mkVar(v));
      for (int v = 0; v < 16; v++) if (ws >> v & 1) m.w[v] = ev(mkWVar(v, g_wvars[v].w));
      Z3_model_dec_ref(g_z3, zm);
    } else SH->qunsat++;
    Z3_solver_pop(g_z3, g_sol, 1);
    SH->qns += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t).count();
    it = qcache.emplace(h, std::make_pair(r == Z3_L_TRUE, m)).first;
  }
  if (!it->second.first) return false;
  out = s.model;
  for (int v = 0; v < NV; v++) if (sup >> v & 1) out.b[v] = it->second.second.b[v];
  for (int v = 0; v < 16; v++) if (ws >> v & 1) out.w[v] = it->second.second.w[v];
  return true;
}

static bool constOver(const Expr *e, const Set256 &d, uint64_t &val) {
  if (e->w == 1) {
    Set256 t = d & *(Set256 *)e->tab;
    if (t.empty()) { val = 0; return true; }
    if (t == d) { val = 1; return true; }
    return false;
  }
  bool first = true;
  for (int i = 0; i < 4; i++) for (uint64_t b = d.w[i]; b; b &= b - 1) {
    uint64_t x = e->at(i * 64 + __builtin_ctzll(b));
    if (first) { val = x; first = false; } else if (x != val) return false;
  }
  return true;
}

// simplify under the state's domains
static std::unordered_map<Expr *, Expr *> simpMemo;
static Expr *simpRec(Expr *e) {
  if (e->isConst()) return e;
  if (e->var >= 0) { uint64_t v; if (constOver(e, S->dom[e->var], v)) { if (e->w == 1) certBranch(S->dom[e->var], e, v); return mkConst(e->w, v); } return e; }
  if (e->op == E_WVAR) return e;
  auto it = simpMemo.find(e);
  if (it != simpMemo.end()) return it->second;
  Expr *a = simpRec(e->a), *b = e->b ? simpRec(e->b) : nullptr, *c = e->c ? simpRec(e->c) : nullptr;
  Expr *r = (a == e->a && b == e->b && c == e->c) ? e : mk(e->op, e->w, a, b, c, e->k);
  if (r != e && !r->isConst() && r->var >= 0) r = simpRec(r);
  return simpMemo[e] = r;
}
static Expr *simp(Expr *e) { simpMemo.clear(); return simpRec(e); }

static Expr *eNot(Expr *e) { return mk(E_XOR, 1, e, mkConst(1, 1)); }

// narrow state by cond == val (known feasible together with the path condition, witnessed by s.model unless it must be refreshed)
static void narrow(State &s, Expr *c, bool val) {
  if (c->isConst()) return;
  if (c->var >= 0) {
    Set256 t = *(Set256 *)c->tab;
    s.dom[c->var] = val ? s.dom[c->var] & t : s.dom[c->var].andnot(t);
    if (s.dom[c->var].count() == 1) s.fixed |= 1ull << c->var;
    return;
  }
  if (c->op == E_XOR && c->b->isConst()) { narrow(s, c->a, !val); return; }
  if (c->op == E_AND && val) { narrow(s, c->a, true); narrow(s, c->b, true); return; }
  if (c->op == E_OR && !val) { narrow(s, c->a, false); narrow(s, c->b, false); return; }
  Expr *k = val ? c : eNot(c);
  for (auto *x : s.mc) if (x == k) return;
  s.mc.push_back(k); s.mcSup |= k->sup; s.mcW |= k->wsup;
}

static Expr *findAtom(Expr *e) {  // first single-variable boolean below a boolean structure
  if (e->isConst() || e->w != 1) return nullptr;
  if (e->var >= 0) return e;
  if (e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE) {
    for (Expr *x : {e->a, e->b, e->c}) if (x) if (Expr *r = findAtom(x)) return r;
  }
  return nullptr;
}

// Decide feasibility of both outcomes of c (w==1, already simplified, not constant). Models returned for feasible outcomes.
static void feasible(State &s, Expr *c, bool &ft, bool &ff, Model &mt, Model &mf) {
  if (c->var >= 0 && !((s.mcSup >> c->var) & 1)) {
    Set256 t = s.dom[c->var] & *(Set256 *)c->tab, f = s.dom[c->var].andnot(*(Set256 *)c->tab);
    ft = !t.empty(); ff = !f.empty();
    mt = mf = s.model;
    int v = c->var;
    if (ft && !t.test(mt.b[v])) mt.b[v] = t.first();
    if (ff && !f.test(mf.b[v])) mf.b[v] = f.first();
    return;
  }
  bool mv = evalModel(c, s.model);
  if (mv) { ft = true; mt = s.model; ff = solve(s, {eNot(c)}, mf); }
  else { ff = true; mf = s.model; ft = solve(s, {c}, mt); }
}

static State *cloneState() { SH->forks++; State *n = new State(*S); n->depth++; S->depth++; return n; }

// Case split: when an undecided expression mixes several byte variables and one of them has a small
// domain, fork over that variable so that the remaining expression is a function of fewer variables.
static int g_splitMax = 32;
static bool splitVar(Expr *c) {
  int best = -1, bc = g_splitMax + 1;
  for (int v = 0; v < NV; v++) if ((c->sup >> v & 1) && !((S->mcSup >> v) & 1)) { int n = S->dom[v].count(); if (n > 1 && n < bc) best = v, bc = n; }
  if (best < 0) return false;
  const Set256 d = S->dom[best];
  int n = 0;
  for (int i = 0; i < 256; i++) if (d.test(i)) {
    State *t = ++n < bc ? cloneState() : S;
    t->dom[best] = Set256::none(); t->dom[best].set(i); t->fixed |= 1ull << best; t->model.b[best] = i;
    if (t != S) g_work.push_back(t);
  }
  return true;
}

// returns the branch direction for the current state; clones are pushed to re-execute the same instruction
static bool decide(Expr *e) {
  for (;;) {
    Expr *c = simp(e);
    if (c->isConst()) return c->k;
    bool ft, ff; Model mt, mf;
    if (c->var < 0) if (Expr *at = findAtom(c)) {
      feasible(*S, at, ft, ff, mt, mf);
      if (ft && ff) { State *o = cloneState(); narrow(*o, at, false); o->model = mf; g_work.push_back(o); narrow(*S, at, true); S->model = mt; }
      else narrow(*S, at, ft);
      continue;
    }
    if (c->var < 0 && splitVar(c)) continue;
    feasible(*S, c, ft, ff, mt, mf);
    if (ft && ff) { State *o = cloneState(); narrow(*o, c, false); o->model = mf; g_work.push_back(o); narrow(*S, c, true); S->model = mt; return true; }
    // the other outcome is infeasible: remember the consequence so that it is not queried again
    if (c->var >= 0) narrow(*S, c, ft);
    return ft;
  }
}

// make e concrete, forking over every feasible value
static uint64_t concretize(Expr *e) {
  Expr *c = simp(e);
  if (c->isConst()) return c->k;
  unsigned w = c->w;
  if (c->var >= 0 && !((S->mcSup >> c->var) & 1)) {
    int var = c->var;
    std::map<uint64_t, Set256> groups; const Set256 d = S->dom[var];
    for (int i = 0; i < 256; i++) if (d.test(i)) { auto it = groups.emplace(c->at(i), Set256::none()).first; it->second.set(i); }
    uint64_t ret = 0; size_t n = 0;
    for (auto &g : groups) {
      State *t = S;
      if (++n < groups.size()) t = cloneState(); else ret = g.first;
      t->dom[var] = g.second; if (g.second.count() == 1) t->fixed |= 1ull << var;
      if (!g.second.test(t->model.b[var])) t->model.b[var] = g.second.first();
      if (t != S) g_work.push_back(t);
    }
    return ret;
  }
  // pick one byte variable to split on when the expression mixes several: fork over that variable's domain first
  for (int n = 0;; n++) {
    if (n > 4096) unsup("too many values to concretise");
    uint64_t v = evalModel(c, S->model);
    Expr *eq = mk(E_EQ, 1, c, mkConst(w, v));
    Model mf;
    if (eq->isConst()) return v;
    if (!solve(*S, {eNot(eq)}, mf)) { narrow(*S, eq, true); return v; }
    State *o = cloneState(); narrow(*o, eq, false); o->model = mf; g_work.push_back(o);
    narrow(*S, eq, true);
    return v;
  }
}
static inline uint64_t conc(Val &v) { if (!v.e) return v.v; v.v = concretize(v.e); v.e = nullptr; return v.v; }

// ------------------------------------------------------------------ loads / stores
[[noreturn]] static void fault(const char *what, uint64_t a) { char b[64]; snprintf(b, sizeof b, "%s at 0x%" PRIx64, what, a); endPath(PE_FAULT, std::string(b) + " @ " + stackTrace()); }
static inline Expr *byteExpr(Page *p, unsigned o) {
  if (p->sh && p->sh[o]) {
    Expr *e = p->sh[o];
    if (S->fixed && (e->sup & S->fixed)) { if (e->var >= 0) return mkConst(8, e->at(S->dom[e->var].first())); Expr *r = simp(e); return r; }
    return e;
  }
  return nullptr;
}
static Val loadN(uint64_t a, unsigned n, unsigned bits) {
  unsigned o = a & (PS - 1);
  Page *p = S->mem.rd(a);
  if (!p) { if (a >= S_BASE && (a - H_BASE < HEAPMAX || a < S_END)) return {0, nullptr}; fault("load from unmapped address", a); }
  if (o + n <= PS) {
    if (!p->sh) { uint64_t v = 0; memcpy(&v, p->d + o, n); return {bits < 64 ? v & maskw(bits) : v, nullptr}; }
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (p->sh[o + i]) { any = true; break; }
    if (!any) { uint64_t v = 0; memcpy(&v, p->d + o, n); return {bits < 64 ? v & maskw(bits) : v, nullptr}; }
  }
  Expr *acc = nullptr;
  for (unsigned i = 0; i < n; i++) {
    Page *q = S->mem.rd(a + i); unsigned oo = (a + i) & (PS - 1);
    Expr *b = q ? byteExpr(q, oo) : nullptr;
    if (!b) b = mkConst(8, q ? q->d[oo] : 0);
    acc = acc ? mk(E_CONCAT, 8 * (i + 1), b, acc) : b;
  }
  if (bits < acc->w) acc = mk(E_EXTRACT, bits, acc, nullptr, nullptr, 0);
  if (acc->isConst()) return {acc->k, nullptr};
  return {0, acc};
}
static inline void clearSh(Page *p, unsigned o, unsigned n) { if (p->sh) for (unsigned i = 0; i < n; i++) p->sh[o + i] = nullptr; }
static void storeN(uint64_t a, unsigned n, Val v, unsigned bits) {
  if (a < G_BASE || a - G_BASE > (H_BASE - G_BASE) + HEAPMAX) fault("store to unmapped address", a);
  unsigned o = a & (PS - 1);
  if (!v.e && o + n <= PS) { Page *p = S->mem.wr(a); memcpy(p->d + o, &v.v, n); clearSh(p, o, n); return; }
  Expr *e = v.e;
  if (e && bits < 8 * n) e = mk(E_ZEXT, 8 * n, e);
  for (unsigned i = 0; i < n; i++) {
    Page *p = S->mem.wr(a + i); unsigned oo = (a + i) & (PS - 1);
    if (!e) { p->d[oo] = v.v >> (8 * i); if (p->sh) p->sh[oo] = nullptr; continue; }
    Expr *b = mk(E_EXTRACT, 8, e, nullptr, nullptr, 8 * i);
    if (b->isConst()) { p->d[oo] = b->k; if (p->sh) p->sh[oo] = nullptr; }
    else { if (!p->sh) p->sh = (Expr **)calloc(PS, sizeof(Expr *)); p->sh[oo] = b; }
  }
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n || d == s) return;
  if (n > HEAPMAX) fault("huge copy", d);
  if (d < G_BASE) fault("store to unmapped address", d);
  auto seg = [&](uint64_t dd, uint64_t ss, unsigned k) {   // within one page on each side
    Page *q = S->mem.rd(ss);
    if (!q) { if (ss < S_BASE) fault("load from unmapped address", ss); Page *p = S->mem.wr(dd); memset(p->d + (dd & (PS - 1)), 0, k); clearSh(p, dd & (PS - 1), k); return; }
    Page *p = S->mem.wr(dd); q = S->mem.rd(ss);
    unsigned od = dd & (PS - 1), os = ss & (PS - 1);
    memmove(p->d + od, q->d + os, k);
    if (q->sh) { if (!p->sh) { bool any = false; for (unsigned i = 0; i < k; i++) if (q->sh[os + i]) { any = true; break; } if (any) p->sh = (Expr **)calloc(PS, sizeof(Expr *)); } if (p->sh) memmove(p->sh + od, q->sh + os, k * sizeof(Expr *)); }
    else clearSh(p, od, k);
  };
  if (d < s || d >= s + n) {
    while (n) { unsigned k = std::min<uint64_t>({n, PS - (d & (PS - 1)), PS - (s & (PS - 1))}); seg(d, s, k); d += k; s += k; n -= k; }
  } else {
    while (n) { unsigned kd = ((d + n - 1) & (PS - 1)) + 1, ks = ((s + n - 1) & (PS - 1)) + 1; unsigned k = std::min<uint64_t>({n, kd, ks}); seg(d + n - k, s + n - k, k); n -= k; }
  }
}
static void setMem(uint64_t d, Val b, uint64_t n) {
  if (!n) return;
  if (d < G_BASE || n > HEAPMAX) fault("store to unmapped address", d);
  if (b.e) { for (uint64_t i = 0; i < n; i++) storeN(d + i, 1, b, 8); return; }
  while (n) { unsigned o = d & (PS - 1), k = std::min<uint64_t>(n, PS - o); Page *p = S->mem.wr(d); memset(p->d + o, b.v, k); clearSh(p, o, k); d += k; n -= k; }
}
// load through a symbolic address
static bool loadSym(Expr *addr, unsigned n, unsigned bits, Val &out) {
  Expr *c = simp(addr);
  if (c->isConst()) { out = loadN(c->k, n, bits); return true; }
  if (c->var < 0) return false;
  int var = c->var; const Set256 &d = S->dom[var];
  uint64_t vals[256]; memset(vals, 0, sizeof vals);
  for (int i = 0; i < 256; i++) if (d.test(i)) {
    uint64_t a = c->at(i);
    if (!S->mem.rd(a) && !(a >= S_BASE && a - H_BASE < HEAPMAX)) return false;   // let the forked path report the fault
    Val v = loadN(a, n, bits);
    if (v.e) { if (v.e->var != var) return false; vals[i] = v.e->at(i); } else vals[i] = v.v;
  }
  Expr *e = mkLut(var, bits, vals);
  out = e->isConst() ? Val{e->k, nullptr} : Val{0, e};
  return true;
}

static uint64_t heapAlloc(uint64_t size, uint64_t align) {
  if (align < 16) align = 16;
  uint64_t p = (S->hp + align - 1) & ~(align - 1);
  if (size > HEAPMAX || p + size + 16 > H_BASE + HEAPMAX) unsup("heap exhausted");
  S->lastAlloc = p;
  S->hp = p + size + 16;
  return p;
}

// ------------------------------------------------------------------ reporting
static void emitModel(FILE *f, const State &s, const Model &m) {
  int hi = 0; for (int v = 0; v < NV; v++) if (s.used >> v & 1) hi = v + 1;
  fprintf(f, "%d", hi); for (int v = 0; v < hi; v++) fprintf(f, " %u", m.b[v]);
  int hw = 0; for (int v = 0; v < 16; v++) if (s.wused >> v & 1) hw = v + 1;
  fprintf(f, " %d", hw); for (int v = 0; v < hw; v++) fprintf(f, " %" PRIu64, m.w[v]);
}
static void report(const char *kind, uint64_t id, const std::string &msg) {
  int n = SH->viol++;
  if (n < 4000) {
    fprintf(g_f, "V\t%d\t%s\t%" PRIu64 "\t", S->job, kind, id); emitModel(g_f, *S, S->model); fprintf(g_f, "\t%s\n", msg.c_str()); fflush(g_f);
  }
  if (n + 1 >= g_maxViol) SH->stop = 1;
}

// ------------------------------------------------------------------ interpreter
static inline uint64_t binConc(unsigned op, unsigned w, uint64_t a, uint64_t b) { return evalOp((EOp)op, w, a, b, 0, w, w, 0); }
static inline Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.v); }
static inline Val vx(Expr *e) { return e->isConst() ? Val{e->k, nullptr} : Val{0, e}; }

static std::string panicInfo(std::vector<Val> &args) {
  std::string loc;
  for (auto &a : args) {
    if (a.e || a.v < G_BASE || a.v >= S_BASE) continue;
    Val fp = loadN(a.v, 8, 64), fl = loadN(a.v + 8, 8, 64), ln = loadN(a.v + 16, 4, 32), cl = loadN(a.v + 20, 4, 32);
    if (fp.v < G_BASE || fp.v >= S_BASE || fl.v < 4 || fl.v > 300 || !ln.v || ln.v > 200000 || cl.v > 2000) continue;
    std::string f; for (uint64_t i = 0; i < fl.v; i++) f += (char)loadN(fp.v + i, 1, 8).v;
    if (f.size() > 3 && f.substr(f.size() - 3) == ".rs") loc = f + ":" + std::to_string(ln.v);
  }
  return loc;
}

static void callSpecial(Func *f, const CallInfo &ci, std::vector<Val> &A, Val *dst) {
  auto ret = [&](Val v) { if (dst) *dst = v; };
  switch (f->special) {
  case S_PANIC: endPath(PE_PANIC, panicInfo(A) + " | " + f->dem + " <- " + stackTrace(14));
  case S_MALLOC: { uint64_t n = conc(A[0]); uint64_t p = heapAlloc(n + 16, 16); storeN(p, 8, {n, nullptr}, 64); ret({p + 16, nullptr}); return; }
  case S_CALLOC: { uint64_t n = conc(A[0]) * conc(A[1]); uint64_t p = heapAlloc(n + 16, 16); setMem(p, {0, nullptr}, n + 16); storeN(p, 8, {n, nullptr}, 64); ret({p + 16, nullptr}); return; }
  case S_REALLOC: { uint64_t o = conc(A[0]), n = conc(A[1]); uint64_t p = heapAlloc(n + 16, 16); storeN(p, 8, {n, nullptr}, 64); if (o) { uint64_t on = loadN(o - 16, 8, 64).v; copyMem(p + 16, o, std::min(on, n)); } ret({p + 16, nullptr}); return; }
  case S_FREE: ret({0, nullptr}); return;
  case S_MEMALIGN: { uint64_t n = conc(A[2]); uint64_t p = heapAlloc(n, conc(A[1])); storeN(conc(A[0]), 8, {p, nullptr}, 64); ret({0, nullptr}); return; }
  case S_RUSTALLOC: ret({heapAlloc(conc(A[0]), conc(A[1])), nullptr}); return;
  case S_RUSTALLOCZ: { uint64_t n = conc(A[0]); uint64_t p = heapAlloc(n, conc(A[1])); setMem(p, {0, nullptr}, n); ret({p, nullptr}); return; }
  case S_RUSTDEALLOC: { uint64_t p = conc(A[0]); if (p == S->lastAlloc) { S->hp = p; S->lastAlloc = 0; } return; }
  case S_RUSTREALLOC: {
    uint64_t o = conc(A[0]), on = conc(A[1]), al = conc(A[2]), n = conc(A[3]);
    if (o == S->lastAlloc && n >= on) { if (o + n + 16 > H_BASE + HEAPMAX) unsup("heap exhausted"); S->hp = o + n + 16; ret({o, nullptr}); return; }
    uint64_t p = heapAlloc(n, al); copyMem(p, o, std::min(on, n)); ret({p, nullptr}); return;
  }
  case S_MEMCMP: {
    uint64_t p = conc(A[0]), q = conc(A[1]), n = conc(A[2]);
    for (uint64_t i = 0; i < n; i++) {
      Val a = loadN(p + i, 1, 8), b = loadN(q + i, 1, 8);
      if (!a.e && !b.e) { if (a.v != b.v) { ret({a.v < b.v ? 0xffffffffull : 1ull, nullptr}); return; } continue; }
      Expr *eq = mk(E_EQ, 1, ex(a, 8), ex(b, 8));
      if (decide(eq)) continue;
      if (f->name == "bcmp") { ret({1, nullptr}); return; }
      ret({decide(mk(E_ULT, 1, ex(a, 8), ex(b, 8))) ? 0xffffffffull : 1ull, nullptr}); return;
    }
    ret({0, nullptr}); return;
  }
  case S_STRLEN: { uint64_t p = conc(A[0]), n = 0; for (;; n++) { Val c = loadN(p + n, 1, 8); if (conc(c) == 0) break; } ret({n, nullptr}); return; }
  case S_SYM_BYTE: { uint64_t i = conc(A[0]); if (i >= NV) unsup("sym_byte index"); S->used |= 1ull << i; ret(vx((S->fixed >> i & 1) ? mkConst(8, S->dom[i].first()) : mkVar(i))); return; }
  case S_SYM_WORD: { uint64_t i = conc(A[0]), w = conc(A[1]); if (i >= 16) unsup("sym_word index"); while (g_wvars.size() <= i) g_wvars.push_back({64, ""}); g_wvars[i].w = w; S->wused |= 1ull << i; Expr *e = mkWVar(i, w); if (w < 64) e = mk(E_ZEXT, 64, e); ret({0, e}); return; }
  case S_SYM_ASSUME: {
    if (!A[0].e) { if (!A[0].v) endPath(PE_PRUNE); return; }
    Expr *c = simp(A[0].e); if (c->w != 1) c = simp(mk(E_EXTRACT, 1, c, nullptr, nullptr, 0));
    if (c->isConst()) { if (!c->k) endPath(PE_PRUNE); return; }
    bool ft, ff; Model mt, mf; feasible(*S, c, ft, ff, mt, mf);
    if (!ft) endPath(PE_PRUNE);
    narrow(*S, c, true); S->model = mt; return;
  }
  case S_SYM_CHECK: {
    uint64_t id = conc(A[1]); SH->checks++;
    if (!A[0].e) { if (!(A[0].v & 1)) { endPath(PE_VIOL, std::to_string(id)); } return; }
    SH->symchecks++;
    Expr *c = simp(A[0].e); if (c->w != 1) c = simp(mk(E_EXTRACT, 1, c, nullptr, nullptr, 0));
    if (!decide(c)) endPath(PE_VIOL, std::to_string(id));
    return;
  }
  case S_SYM_REACH: { uint64_t id = conc(A[0]); if (id < 4096) SH->reach[id]++; return; }
  case S_SYM_PARAM: { uint64_t i = conc(A[0]); auto &p = g_jobs[S->job].p; ret({i < p.size() ? p[i] : 0, nullptr}); return; }
  case S_SYM_LOG: S->logs.push_back(A[0]); S->logw.push_back(64); return;
  case S_SYM_NOTE: return;
  case S_SYM_CONC: { ret({conc(A[0]), nullptr}); return; }
  case S_RANDKEYS: if (dst) { dst[0] = {0x0706050403020100ull, nullptr}; dst[1] = {0x0f0e0d0c0b0a0908ull, nullptr}; } return;
  case S_SYSCALL: {   // getrandom only: hash-map keys, fixed here (iteration order of the sets is never observed)
    if (conc(A[0]) != 318) unsup("syscall " + std::to_string(A[0].v));
    uint64_t p = conc(A[1]), n = conc(A[2]); for (uint64_t i = 0; i < n; i++) storeN(p + i, 1, {i & 0xff, nullptr}, 8);
    ret({n, nullptr}); return;
  }
  case S_IGNORE0: ret({0, nullptr}); return;
  case S_GETENV: ret({0, nullptr}); return;
  case S_ABORT: endPath(PE_PANIC, "abort | " + stackTrace(14));
  default: unsup("call to unmodelled function " + f->dem);
  }
}

static uint64_t g_instSince = 0;
static std::vector<uint64_t> g_hits;

static void step_loop();
static void pushCall(Func *f, const CallInfo *ci, const std::vector<Val> &args, int dst) {
  decodeFunc(f);
  size_t fi = (f->addr - 0x1000) / 16; g_hits[fi]++;
  if (S->fr.size() > 3000) endPath(PE_LIMIT, "call depth > 3000 @ " + stackTrace(20));
  Frame fr; fr.f = f; fr.pc = 0; fr.base = S->regs.size(); fr.sp = S->sp; fr.ci = ci; fr.dst = dst;
  S->regs.resize(fr.base + f->nslots);
  memcpy(&S->regs[fr.base], args.data(), std::min<size_t>(args.size(), f->nargslots) * sizeof(Val));
  S->fr.push_back(fr);
}

static void takeEdge(Frame &fr, Val *R, int edge) {
  Edge &e = fr.f->edges[edge];
  const Val *C = fr.f->consts.data();
  size_t n = e.copies.size();
  if (n == 1) { int s = e.copies[0].first; R[e.copies[0].second] = s >= 0 ? R[s] : C[~s]; }
  else if (n) {
    static std::vector<Val> tmp; tmp.resize(n);
    for (size_t i = 0; i < n; i++) { int s = e.copies[i].first; tmp[i] = s >= 0 ? R[s] : C[~s]; }
    for (size_t i = 0; i < n; i++) R[e.copies[i].second] = tmp[i];
  }
  fr.pc = e.pc;
}

typedef unsigned __int128 u128;
static void wideOp(const Inst &x, Val *R, const Val *C) {
  auto at = [&](int s, int i) -> Val { int k = s >= 0 ? s + i : ~((~s) + i); return k >= 0 ? R[k] : C[~k]; };
  auto get = [&](int s, unsigned w) -> u128 { Val a = at(s, 0); u128 r = conc(a); if (w > 64) { Val b = at(s, 1); r |= (u128)conc(b) << 64; } return r; };
  auto put = [&](u128 v, unsigned w) { u128 m = w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); v &= m; R[x.dst] = {(uint64_t)v, nullptr}; if (w > 64) R[x.dst + 1] = {(uint64_t)(v >> 64), nullptr}; };
  auto sxt = [&](u128 v, unsigned w) -> __int128 { return (__int128)(v << (128 - w)) >> (128 - w); };
  if (x.n != 1) unsup("wide vector");
  if (x.sub >= 200) {
    unsigned sw = x.imm >> 32, dw = x.imm & 0xffffffff; if (sw > 128 || dw > 128) unsup("wide > 128");
    // symbolic pass-through for zext/trunc
    if (x.sub == 200 && sw <= 64) { Val a = at(x.a, 0); if (a.e) a.e = mk(E_ZEXT, 64, a.e); R[x.dst] = a; R[x.dst + 1] = {0, nullptr}; return; }
    if (x.sub == 202 && dw <= 64) { Val a = at(x.a, 0); if (a.e) { if (dw < 64) a = vx(mk(E_EXTRACT, dw, a.e, nullptr, nullptr, 0)); } else a.v &= maskw(dw); R[x.dst] = a; return; }
    u128 v = get(x.a, sw); if (x.sub == 201) v = (u128)sxt(v, sw); put(v, dw); return;
  }
  unsigned w = x.imm; if (w > 128) unsup("wide > 128");
  if (x.sub == E_LSHR && !at(x.b, 0).e && at(x.b, 0).v == 64) { R[x.dst] = at(x.a, 1); R[x.dst + 1] = {0, nullptr}; return; }
  if (x.sub == E_SHL && !at(x.b, 0).e && at(x.b, 0).v == 64) { Val lo = at(x.a, 0); R[x.dst] = {0, nullptr}; R[x.dst + 1] = lo; return; }
  if (x.sub == E_OR || x.sub == E_AND || x.sub == E_XOR) {
    for (int i = 0; i < 2; i++) { Val a = at(x.a, i), b = at(x.b, i); R[x.dst + i] = (!a.e && !b.e) ? Val{binConc(x.sub, 64, a.v, b.v), nullptr} : vx(mk((EOp)x.sub, 64, ex(a, 64), ex(b, 64))); }
    return;
  }
  u128 a = get(x.a, w), b = get(x.b, w);
  switch (x.sub) {
  case E_ADD: put(a + b, w); return;
  case E_SUB: put(a - b, w); return;
  case E_MUL: put(a * b, w); return;
  case E_UDIV: if (!b) unsup("wide div 0"); put(a / b, w); return;
  case E_UREM: if (!b) unsup("wide div 0"); put(a % b, w); return;
  case E_SHL: put((uint64_t)b >= w ? 0 : a << (uint64_t)b, w); return;
  case E_LSHR: put((uint64_t)b >= w ? 0 : a >> (uint64_t)b, w); return;
  case E_EQ: R[x.dst] = {(uint64_t)((a == b) ^ x.flag), nullptr}; return;
  case E_ULT: R[x.dst] = {(uint64_t)(a < b), nullptr}; return;
  case E_ULE: R[x.dst] = {(uint64_t)(a <= b), nullptr}; return;
  case E_SLT: R[x.dst] = {(uint64_t)(sxt(a, w) < sxt(b, w)), nullptr}; return;
  case E_SLE: R[x.dst] = {(uint64_t)(sxt(a, w) <= sxt(b, w)), nullptr}; return;
  default: unsup("wide op");
  }
}

static Val intrinsic1(int k, unsigned w, std::vector<Val> &A, unsigned i, unsigned n) {
  // lane i of an n-lane value; arguments are laid out arg-major
  auto arg = [&](int j) -> Val & { return A[j * n + i]; };
  auto E = [&](int j) { return ex(arg(j), w); };
  bool sym = false; int na = (k == N_FSHL || k == N_FSHR) ? 3 : (k == N_CTLZ || k == N_CTTZ || k == N_CTPOP || k == N_BSWAP || k == N_ABS || k == N_BITREVERSE) ? 1 : 2;
  for (int j = 0; j < na; j++) if (arg(j).e) sym = true;
  auto C = [&](uint64_t v) { return mkConst(w, v); };
  switch (k) {
  case N_UMAX: return vx(mk(E_ITE, w, mk(E_ULT, 1, E(0), E(1)), E(1), E(0)));
  case N_UMIN: return vx(mk(E_ITE, w, mk(E_ULT, 1, E(0), E(1)), E(0), E(1)));
  case N_SMAX: return vx(mk(E_ITE, w, mk(E_SLT, 1, E(0), E(1)), E(1), E(0)));
  case N_SMIN: return vx(mk(E_ITE, w, mk(E_SLT, 1, E(0), E(1)), E(0), E(1)));
  case N_USUBSAT: return vx(mk(E_ITE, w, mk(E_ULT, 1, E(0), E(1)), C(0), mk(E_SUB, w, E(0), E(1))));
  case N_UADDSAT: { Expr *s = mk(E_ADD, w, E(0), E(1)); return vx(mk(E_ITE, w, mk(E_ULT, 1, s, E(0)), C(maskw(w)), s)); }
  case N_ABS: return vx(mk(E_ITE, w, mk(E_SLT, 1, E(0), C(0)), mk(E_SUB, w, C(0), E(0)), E(0)));
  case N_FSHL: case N_FSHR: {
    Val s = arg(2); uint64_t sh = conc(s) % w; arg(2) = s;
    if (sh == 0) return k == N_FSHL ? arg(0) : arg(1);
    if (k == N_FSHR) sh = w - sh;
    return vx(mk(E_OR, w, mk(E_SHL, w, E(0), C(sh)), mk(E_LSHR, w, E(1), C(w - sh))));
  }
  case N_BSWAP: { Expr *a = E(0); Expr *acc = nullptr; for (int b = w / 8 - 1; b >= 0; b--) { Expr *x = mk(E_EXTRACT, 8, a, nullptr, nullptr, 8 * b); acc = acc ? mk(E_CONCAT, acc->w + 8, x, acc) : x; } return vx(acc); }
  case N_CTPOP: case N_CTLZ: case N_CTTZ: case N_BITREVERSE: {
    auto f = [&](uint64_t v) -> uint64_t {
      if (k == N_CTPOP) return __builtin_popcountll(v);
      if (k == N_CTLZ) return v ? __builtin_clzll(v) - (64 - w) : w;
      if (k == N_CTTZ) return v ? __builtin_ctzll(v) : w;
      uint64_t r = 0; for (unsigned b = 0; b < w; b++) if (v >> b & 1) r |= 1ull << (w - 1 - b); return r; };
    if (!sym) return {f(arg(0).v), nullptr};
    Expr *a = simp(arg(0).e);
    if (a->isConst()) return {f(a->k), nullptr};
    if (a->var >= 0) { uint64_t vals[256]; for (int v = 0; v < 256; v++) vals[v] = f(a->at(v)); return vx(mkLut(a->var, w, vals)); }
    Expr *r = nullptr;  // bitwise encodings
    if (k == N_CTPOP) { r = C(0); for (unsigned b = 0; b < w; b++) r = mk(E_ADD, w, r, mk(E_ZEXT, w, mk(E_EXTRACT, 1, a, nullptr, nullptr, b))); }
    else if (k == N_CTTZ) { r = C(w); for (int b = w - 1; b >= 0; b--) r = mk(E_ITE, w, mk(E_EXTRACT, 1, a, nullptr, nullptr, b), C(b), r); }
    else if (k == N_CTLZ) { r = C(w); for (unsigned b = 0; b < w; b++) r = mk(E_ITE, w, mk(E_EXTRACT, 1, a, nullptr, nullptr, b), C(w - 1 - b), r); }
    else unsup("bitreverse");
    return vx(r);
  }
  default: unsup("intrinsic");
  }
}

static void flushCounters() { SH->insts += g_instSince; g_instSince = 0; }

static void step_loop() {
  std::vector<Val> args;
  for (;;) {
    Frame *fr = &S->fr.back();
    Val *R = S->regs.data() + fr->base;
    Func *f = fr->f;
    const Val *C = f->consts.data();
    const Inst *code = f->code.data();
#define G(i) ((i) >= 0 ? R[i] : C[~(i)])
#define GA(s, i) ((s) >= 0 ? R[(s) + (i)] : C[(~(s)) + (i)])
    for (;;) {
      const Inst &x = code[fr->pc];
      g_instSince++;
      if (++S->ninst > g_instLimit) endPath(PE_LIMIT, "instruction limit @ " + stackTrace(20));
      switch (x.op) {
      case I_BIN:
        for (int i = 0; i < x.n; i++) {
          const Val &a = GA(x.a, i), &b = GA(x.b, i);
          if (!a.e && !b.e) {
            if ((x.sub == E_UDIV || x.sub == E_UREM || x.sub == E_SDIV || x.sub == E_SREM) && b.v == 0) unsup("division by zero in IR");
            R[x.dst + i] = {binConc(x.sub, x.w, a.v, b.v), nullptr};
          } else R[x.dst + i] = vx(mk((EOp)x.sub, x.w, ex(a, x.w), ex(b, x.w)));
        }
        fr->pc++; break;
      case I_ICMP:
        for (int i = 0; i < x.n; i++) {
          const Val &a = GA(x.a, i), &b = GA(x.b, i);
          if (!a.e && !b.e) R[x.dst + i] = {evalOp((EOp)x.sub, 1, a.v, b.v, 0, x.w, x.w, 0) ^ x.flag, nullptr};
          else { Expr *e = mk((EOp)x.sub, 1, ex(a, x.w), ex(b, x.w)); if (x.flag) e = eNot(e); R[x.dst + i] = vx(e); }
        }
        fr->pc++; break;
      case I_SELECT: {
        auto &mp = f->mems[x.aux];
        for (int i = 0; i < x.n; i++) {
          const Val &c = GA(x.a, x.flag ? i : 0);
          if (!c.e) { R[x.dst + i] = (c.v & 1) ? GA(x.b, i) : GA(x.c, i); continue; }
          unsigned w = mp[i].bits;
          Val cc = c; Expr *ce = cc.e;
          if (ce->var >= 0) { uint64_t v; if (constOver(ce, S->dom[ce->var], v)) { certBranch(S->dom[ce->var], ce, v); R[x.dst + i] = v ? GA(x.b, i) : GA(x.c, i); continue; } }
          Val b = GA(x.b, i), d = GA(x.c, i);
          R[x.dst + i] = vx(mk(E_ITE, w, ce, ex(b, w), ex(d, w)));
        }
        fr->pc++; break;
      }
      case I_MOV: case I_EXTRACT:
        for (int i = 0; i < x.n; i++) R[x.dst + i] = GA(x.a, i);
        fr->pc++; break;
      case I_ZEXT:
        for (int i = 0; i < x.n; i++) { const Val &a = GA(x.a, i); R[x.dst + i] = a.e ? vx(mk(E_ZEXT, x.w, a.e)) : a; }
        fr->pc++; break;
      case I_SEXT:
        for (int i = 0; i < x.n; i++) { const Val &a = GA(x.a, i); R[x.dst + i] = a.e ? vx(mk(E_SEXT, x.w, a.e)) : Val{(uint64_t)sx(a.v, x.w2) & maskw(x.w), nullptr}; }
        fr->pc++; break;
      case I_TRUNC:
        for (int i = 0; i < x.n; i++) { const Val &a = GA(x.a, i); R[x.dst + i] = a.e ? vx(mk(E_EXTRACT, x.w, a.e, nullptr, nullptr, 0)) : Val{a.v & maskw(x.w), nullptr}; }
        fr->pc++; break;
      case I_BITCASTV: {
        // reinterpret x.b source slots of x.w2 bits as x.n slots of x.w bits
        std::vector<Val> src(x.b); for (int i = 0; i < x.b; i++) src[i] = GA(x.a, i);
        unsigned sw = x.w2, dw = x.w;
        for (int i = 0; i < x.n; i++) {
          Expr *acc = nullptr; uint64_t av = 0; bool sym = false; unsigned got = 0, bit = i * dw;
          std::vector<std::pair<Val, std::pair<unsigned, unsigned>>> parts;
          while (got < dw) { unsigned k = bit / sw, o = bit % sw, n = std::min(sw - o, dw - got); parts.push_back({k < (unsigned)x.b ? src[k] : Val{0, nullptr}, {o, n}}); if (parts.back().first.e) sym = true; got += n; bit += n; }
          if (!sym) { unsigned sh = 0; for (auto &p : parts) { av |= ((p.first.v >> p.second.first) & maskw(p.second.second)) << sh; sh += p.second.second; } R[x.dst + i] = {av, nullptr}; }
          else { for (auto &p : parts) { Expr *q = mk(E_EXTRACT, p.second.second, ex(p.first, sw), nullptr, nullptr, p.second.first); acc = acc ? mk(E_CONCAT, acc->w + q->w, q, acc) : q; } R[x.dst + i] = vx(acc); }
        }
        fr->pc++; break;
      }
      case I_WIDE: wideOp(x, R, C); fr->pc++; break;
      case I_FCMP: {
        Val a = G(x.a), b = G(x.b); conc(a); conc(b); double p, q;
        if (x.w == 32) { float u, v; memcpy(&u, &a.v, 4); memcpy(&v, &b.v, 4); p = u; q = v; } else { memcpy(&p, &a.v, 8); memcpy(&q, &b.v, 8); }
        bool un = std::isnan(p) || std::isnan(q), r = false; int pr = x.sub;  // llvm predicate bits: U L G E
        if (un) r = pr & 8; else r = (p == q && (pr & 1)) || (p > q && (pr & 2)) || (p < q && (pr & 4));
        R[x.dst] = {r, nullptr}; fr->pc++; break;
      }
      case I_FBIN: {
        Val a = G(x.a), b = G(x.b); conc(a); conc(b);
        auto op = [&](auto p, auto q) { switch (x.sub) { case 0: return p + q; case 1: return p - q; case 2: return p * q; case 3: return p / q; default: return (decltype(p))fmod(p, q); } };
        uint64_t o = 0;
        if (x.w == 32) { float p, q, r; memcpy(&p, &a.v, 4); memcpy(&q, &b.v, 4); r = op(p, q); memcpy(&o, &r, 4); } else { double p, q, r; memcpy(&p, &a.v, 8); memcpy(&q, &b.v, 8); r = op(p, q); memcpy(&o, &r, 8); }
        R[x.dst] = {o, nullptr}; fr->pc++; break;
      }
      case I_FNEG: { Val a = G(x.a); conc(a); R[x.dst] = {a.v ^ (1ull << (x.w - 1)), nullptr}; fr->pc++; break; }
      case I_FCAST: {
        Val a = G(x.a); conc(a); double d = 0; float s; uint64_t o = 0;
        auto rd = [&](unsigned w) { if (w == 32) { memcpy(&s, &a.v, 4); return (double)s; } double t; memcpy(&t, &a.v, 8); return t; };
        auto wrt = [&](double v) { if (x.w == 32) { s = (float)v; memcpy(&o, &s, 4); } else memcpy(&o, &v, 8); };
        switch (x.sub) { case 0: wrt((double)a.v); break; case 1: wrt((double)sx(a.v, x.w2)); break; case 2: d = rd(x.w2); o = d < 0 ? 0 : (uint64_t)d; break; case 3: d = rd(x.w2); o = (uint64_t)(int64_t)d & maskw(x.w); break; default: wrt(rd(x.w2)); }
        R[x.dst] = {o, nullptr}; fr->pc++; break;
      }
      case I_ALLOCA: {
        uint64_t al = x.aux; uint64_t p = (S->sp + al - 1) & ~(al - 1); S->sp = p + x.imm;
        if (S->sp > S_END) endPath(PE_LIMIT, "stack overflow @ " + stackTrace(20));
        R[x.dst] = {p, nullptr}; fr->pc++; break;
      }
      case I_LOAD: {
        Val a = G(x.a);
        auto &mp = f->mems[x.aux];
        if (a.e) {
          Val out;
          if (x.n == 1 && loadSym(a.e, mp[0].bytes, mp[0].bits, out)) { R[x.dst] = out; fr->pc++; break; }
          a.v = concretize(a.e); a.e = nullptr;
        }
        if (x.n == 1) R[x.dst] = loadN(a.v, mp[0].bytes, mp[0].bits);
        else for (int i = 0; i < x.n; i++) R[x.dst + i] = loadN(a.v + mp[i].off, mp[i].bytes, mp[i].bits);
        fr->pc++; break;
      }
      case I_STORE: {
        Val a = G(x.a); uint64_t p = conc(a);
        auto &mp = f->mems[x.aux];
        for (int i = 0; i < x.n; i++) storeN(p + mp[i].off, mp[i].bytes, GA(x.b, i), mp[i].bits);
        fr->pc++; break;
      }
      case I_GEPC: { const Val &a = G(x.a); R[x.dst] = a.e ? vx(mk(E_ADD, 64, a.e, mkConst(64, x.imm))) : Val{a.v + x.imm, nullptr}; fr->pc++; break; }
      case I_GEP: {
        const Val &a = G(x.a); uint64_t v = x.imm; Expr *e = a.e; if (!e) v += a.v;
        for (auto &t : f->geps[x.aux]) {
          const Val &i = G(t.slot);
          if (!i.e) { v += (uint64_t)sx(i.v, t.w) * t.scale; continue; }
          Expr *ie = i.e; if (t.w < 64) ie = mk(E_SEXT, 64, ie);
          ie = mk(E_MUL, 64, ie, mkConst(64, t.scale));
          e = e ? mk(E_ADD, 64, e, ie) : ie;
        }
        R[x.dst] = e ? vx(mk(E_ADD, 64, e, mkConst(64, v))) : Val{v, nullptr};
        fr->pc++; break;
      }
      case I_BR: takeEdge(*fr, R, x.b); break;
      case I_CBR: {
        const Val &c = G(x.a);
        bool t = c.e ? decide(c.e) : c.v & 1;
        takeEdge(*fr, R, t ? x.b : x.c); break;
      }
      case I_SWITCH: {
        const Val &c = G(x.a);
        SwitchInfo &si = f->switches[x.aux];
        if (!c.e) { auto it = si.map.find(c.v); takeEdge(*fr, R, it == si.map.end() ? si.def : it->second); break; }
        Expr *e = simp(c.e);
        if (e->isConst()) { auto it = si.map.find(e->k); takeEdge(*fr, R, it == si.map.end() ? si.def : it->second); break; }
        if (e->var >= 0 && !((S->mcSup >> e->var) & 1)) {
          int var = e->var; const Set256 d = S->dom[var];
          std::map<int, Set256> groups;
          for (int i = 0; i < 256; i++) if (d.test(i)) { auto it = si.map.find(e->at(i)); int ed = it == si.map.end() ? si.def : it->second; groups.emplace(ed, Set256::none()).first->second.set(i); }
          size_t n = 0; int myEdge = 0;
          for (auto &g : groups) {
            State *t = S;
            if (++n < groups.size()) t = cloneState(); else myEdge = g.first;
            t->dom[var] = g.second; if (g.second.count() == 1) t->fixed |= 1ull << var;
            if (!g.second.test(t->model.b[var])) t->model.b[var] = g.second.first();
            if (t != S) g_work.push_back(t);   // re-executes the switch, now decided
          }
          takeEdge(*fr, R, myEdge); break;
        }
        if (e->var < 0 && splitVar(e)) break;   // re-execute with fewer variables
        // general: test the cases grouped by target one after another
        std::map<int, std::vector<uint64_t>> by;
        for (auto &cs : si.cases) by[cs.second].push_back(cs.first);
        int edge = -1;
        for (auto &g : by) {
          if (g.first == si.def) continue;
          Expr *any = mkConst(1, 0);
          for (uint64_t v : g.second) any = mk(E_OR, 1, any, mk(E_EQ, 1, e, mkConst(x.w, v)));
          any = simp(any);
          if (any->isConst()) { if (any->k) { edge = g.first; break; } continue; }
          bool ft, ff; Model mt, mf; feasible(*S, any, ft, ff, mt, mf);
          if (ft && ff) { State *o = cloneState(); narrow(*o, any, false); o->model = mf; g_work.push_back(o); narrow(*S, any, true); S->model = mt; edge = g.first; break; }
          if (ft) { edge = g.first; break; }
        }
        takeEdge(*fr, R, edge < 0 ? si.def : edge); break;
      }
      case I_RET: {
        Frame cur = *fr;
        Val rv[16]; std::vector<Val> big; Val *rp = rv;
        if (x.n > 16) { big.resize(x.n); rp = big.data(); }
        for (int i = 0; i < x.n; i++) rp[i] = GA(x.a, i);
        S->sp = cur.sp; S->regs.resize(cur.base); S->fr.pop_back();
        if (S->fr.empty()) endPath(PE_END);
        Frame &pf = S->fr.back(); Val *PR = S->regs.data() + pf.base;
        for (int i = 0; i < x.n; i++) PR[cur.dst + i] = rp[i];
        if (cur.ci->edge >= 0) takeEdge(pf, PR, cur.ci->edge); else pf.pc++;
        goto reload;
      }
      case I_UNREACHABLE: endPath(PE_PANIC, "unreachable | " + stackTrace(14));
      case I_CALL: {
        CallInfo &ci = f->calls[x.aux];
        Func *cf = ci.f;
        args.clear();
        for (auto &a : ci.args) for (int i = 0; i < a.second; i++) args.push_back(GA(a.first, i));
        if (ci.intr) {
          unsigned w = ci.argw.empty() ? 0 : ci.argw[0];
          switch (ci.intr) {
          case N_MEMCPY: { uint64_t n = conc(args[2]); if (n) copyMem(conc(args[0]), conc(args[1]), n); break; }
          case N_MEMSET: { uint64_t n = conc(args[2]); if (n) setMem(conc(args[0]), args[1], n); break; }
          case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
            if (w > 64) unsup("wide overflow op");
            Val a = args[0], b = args[1];
            if (!a.e && !b.e) {
              uint64_t r; bool o;
              if (ci.intr <= N_UMULO) { u128 p = a.v, q = b.v, z = ci.intr == N_UADDO ? p + q : ci.intr == N_USUBO ? p - q : p * q; r = (uint64_t)z & maskw(w); o = ci.intr == N_USUBO ? a.v < b.v : (z >> w) != 0; }
              else { __int128 p = sx(a.v, w), q = sx(b.v, w), z = ci.intr == N_SADDO ? p + q : ci.intr == N_SSUBO ? p - q : p * q; r = (uint64_t)z & maskw(w); o = z != (__int128)sx(r, w); }
              R[x.dst] = {r, nullptr}; R[x.dst + 1] = {o, nullptr};
            } else {
              Expr *p = ex(a, w), *q = ex(b, w), *r, *o;
              switch (ci.intr) {
              case N_UADDO: r = mk(E_ADD, w, p, q); o = mk(E_ULT, 1, r, p); break;
              case N_USUBO: r = mk(E_SUB, w, p, q); o = mk(E_ULT, 1, p, q); break;
              case N_UMULO: r = mk(E_MUL, w, p, q);
                if (2 * w <= 64) o = eNot(mk(E_EQ, 1, mk(E_MUL, 2 * w, mk(E_ZEXT, 2 * w, p), mk(E_ZEXT, 2 * w, q)), mk(E_ZEXT, 2 * w, r)));
                else o = mk(E_AND, 1, eNot(mk(E_EQ, 1, q, mkConst(w, 0))), eNot(mk(E_EQ, 1, mk(E_UDIV, w, r, q), p)));
                break;
              case N_SADDO: r = mk(E_ADD, w, p, q); o = mk(E_XOR, 1, mk(E_SLT, 1, r, p), mk(E_SLT, 1, q, mkConst(w, 0))); break;
              case N_SSUBO: r = mk(E_SUB, w, p, q); o = mk(E_XOR, 1, mk(E_SLT, 1, r, p), mk(E_SLT, 1, mkConst(w, 0), q)); break;
              default: if (2 * w > 64) { conc(args[0]); unsup("symbolic smul 64"); } r = mk(E_MUL, w, p, q); o = eNot(mk(E_EQ, 1, mk(E_MUL, 2 * w, mk(E_SEXT, 2 * w, p), mk(E_SEXT, 2 * w, q)), mk(E_SEXT, 2 * w, r)));
              }
              R[x.dst] = vx(r); R[x.dst + 1] = vx(o);
            }
            break;
          }
          case N_THREADLOCAL: case N_EXPECT: R[x.dst] = args[0]; break;
          case N_ISCONST: R[x.dst] = {0, nullptr}; break;
          case N_PTRMASK: R[x.dst] = (!args[0].e && !args[1].e) ? Val{args[0].v & args[1].v, nullptr} : vx(mk(E_AND, 64, ex(args[0], 64), ex(args[1], 64))); break;
          case N_LOADREL: {
            Expr *off = args[1].e;
            if (off) {
              Expr *ad = mk(E_ADD, 64, mkConst(64, conc(args[0])), ci.argw[1] < 64 ? mk(E_SEXT, 64, off) : off); Val o;
              if (loadSym(ad, 4, 32, o)) { R[x.dst] = vx(mk(E_ADD, 64, mkConst(64, args[0].v), mk(E_SEXT, 64, ex(o, 32)))); break; }
            }
            uint64_t b = conc(args[0]); Val o = loadN(b + sx(conc(args[1]), ci.argw[1]), 4, 32); R[x.dst] = {b + sx(conc(o), 32), nullptr}; break;
          }
          case N_VREDADD: case N_VREDOR: case N_VREDAND: { EOp op = ci.intr == N_VREDADD ? E_ADD : ci.intr == N_VREDOR ? E_OR : E_AND; Expr *e = ex(args[0], w); for (size_t i = 1; i < args.size(); i++) e = mk(op, w, e, ex(args[i], w)); R[x.dst] = vx(e); break; }
          case N_TRAP: endPath(PE_PANIC, "trap | " + stackTrace(14));
          case N_BAD: unsup("intrinsic " + cf->name);
          default: { if (w > 64) unsup("wide intrinsic " + cf->name); unsigned n = ci.retslots; for (unsigned i = 0; i < n; i++) R[x.dst + i] = intrinsic1(ci.intr, w, args, i, n); }
          }
          if (ci.edge >= 0) takeEdge(*fr, R, ci.edge); else fr->pc++;
          break;
        }
        if (ci.indirect) {
          Val t = G(ci.fslot); uint64_t a = conc(t);
          auto it = M.byAddr.find(a);
          if (it == M.byAddr.end()) unsup("indirect call to unknown address");
          cf = it->second;
        }
        if (cf->special == S_EDITDIST) cf->special = S_NONE;
        if (cf->special) {
          if (cf->special != S_PANIC) g_hits[(cf->addr - 0x1000) / 16]++;
          callSpecial(cf, ci, args, ci.retslots ? R + x.dst : nullptr);
          if (ci.edge >= 0) takeEdge(*fr, R, ci.edge); else fr->pc++;
          break;
        }
        if (cf->decl) unsup("call to declaration " + cf->dem);
        pushCall(cf, &ci, args, x.dst);
        goto reload;
      }
      case I_INSERT:
        for (int i = 0; i < x.n; i++) R[x.dst + i] = GA(x.a, i);
        for (int i = 0; i < x.aux; i++) R[x.dst + x.c + i] = GA(x.b, i);
        fr->pc++; break;
      case I_EXTELT: { Val i = G(x.b); uint64_t k = conc(i); R[x.dst] = GA(x.a, (int)k); fr->pc++; break; }
      case I_INSELT: { Val i = G(x.c); uint64_t k = conc(i); Val v = G(x.b); for (int j = 0; j < x.n; j++) R[x.dst + j] = GA(x.a, j); R[x.dst + k] = v; fr->pc++; break; }
      case I_SHUFFLE: {
        auto &si = f->shuf[x.aux]; std::vector<Val> t;
        for (int mm : si.mask) t.push_back(mm < 0 ? Val{0, nullptr} : mm < si.na ? GA(x.a, mm) : GA(x.b, mm - si.na));
        for (size_t i = 0; i < t.size(); i++) R[x.dst + i] = t[i];
        fr->pc++; break;
      }
      case I_RMW: {
        Val a = G(x.a); uint64_t p = conc(a); Val old = loadN(p, (x.w + 7) / 8, x.w), v = G(x.b), nv;
        Expr *o = ex(old, x.w), *q = ex(v, x.w);
        switch (x.sub) { case 0: nv = v; break; case 1: nv = vx(mk(E_ADD, x.w, o, q)); break; case 2: nv = vx(mk(E_SUB, x.w, o, q)); break; case 3: nv = vx(mk(E_AND, x.w, o, q)); break; case 5: nv = vx(mk(E_OR, x.w, o, q)); break; case 6: nv = vx(mk(E_XOR, x.w, o, q)); break; default: unsup("atomicrmw"); }
        storeN(p, (x.w + 7) / 8, nv, x.w); R[x.dst] = old; fr->pc++; break;
      }
      case I_CMPXCHG: {
        Val a = G(x.a); uint64_t p = conc(a); Val old = loadN(p, (x.w + 7) / 8, x.w), c = G(x.b), n = G(x.c);
        uint64_t ov = conc(old), cv = conc(c); bool ok = ov == cv;
        if (ok) storeN(p, (x.w + 7) / 8, n, x.w);
        R[x.dst] = {ov, nullptr}; R[x.dst + 1] = {ok, nullptr}; fr->pc++; break;
      }
      case I_NOP: fr->pc++; break;
      default: unsup("unsupported instruction opcode " + std::to_string(x.imm) + " in " + f->dem);
      }
    }
  reload:;
  }
}

// ------------------------------------------------------------------ exploration
static uint64_t g_pathNo = 0;
static void sample(const char *tag) {
  fprintf(g_f, "S\t%d\t%s\t", S->job, tag); emitModel(g_f, *S, S->model); fprintf(g_f, "\t%zu", S->logs.size());
  for (auto &l : S->logs) fprintf(g_f, " %" PRIu64, l.e ? evalModel(l.e, S->model) : l.v);
  fprintf(g_f, "\n"); SH->samples++;
}
static void runState() {
  try { step_loop(); }
  catch (PathEnd &pe) {
    SH->jobPaths[S->job & 65535]++;
    switch (pe.kind) {
    case PE_END: SH->paths++; if (g_sampleEvery && (hmix(g_pathNo++, getpid()) % g_sampleEvery == 0 || SH->jobPaths[S->job & 65535] == 1)) sample("end"); break;
    case PE_PRUNE: SH->pruned++; break;
    case PE_PANIC: SH->panics++; report("panic", 0, pe.msg); break;
    case PE_VIOL: report("check", strtoull(pe.msg.c_str(), 0, 10), ""); break;
    case PE_LIMIT: report("limit", 0, pe.msg); break;
    case PE_FAULT: report("fault", 0, pe.msg); break;
    case PE_ERROR: SH->errors++; fprintf(g_f, "E\t%d\t%s\t", S->job, pe.msg.c_str()); emitModel(g_f, *S, S->model); fprintf(g_f, "\n"); fflush(g_f); if (SH->errors > 50) SH->stop = 1; break;
    }
  }
}
static void openOut() { char b[600]; snprintf(b, sizeof b, "%s/w%d.txt", g_out.c_str(), getpid()); g_f = fopen(b, "w"); if (!g_f) { perror(b); _Exit(70); } }

static void trySplit() {
  if (g_work.size() < 2) return;
  int a = SH->active.load();
  if (a >= g_nproc) return;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return;
  flushCounters(); fflush(g_f);
  pid_t p = fork();
  if (p < 0) { SH->active--; return; }
  // oldest states are the biggest subtrees: deal them alternately
  std::vector<State *> mine;
  for (size_t i = 0; i < g_work.size(); i++) if (((i & 1) == 0) == (p == 0)) mine.push_back(g_work[i]); else delete g_work[i];
  g_work.swap(mine);
  if (p == 0) { openOut(); certSkipExisting(); std::fill(g_hits.begin(), g_hits.end(), 0); }
}

static void worker() {
  uint64_t n = 0; auto last = std::chrono::steady_clock::now();
  while (!g_work.empty()) {
    S = g_work.back(); g_work.pop_back();
    runState();
    delete S; S = nullptr;
    if ((++n & 7) == 0) {
      if (SH->stop) break;
      auto now = std::chrono::steady_clock::now();
      if (std::chrono::duration<double>(now - last).count() > 0.02) {
        if (elapsed() > g_timeLimit) { SH->timedOut = 1; break; }
        if (SH->active < g_nproc) { trySplit(); }
        last = std::chrono::steady_clock::now();
      }
    }
  }
  SH->unexplored += g_work.size();
  flushCounters();
  CertStats cs = certify(SH->stop ? 0 : g_certBudget);
  SH->certTotal += cs.total; SH->certChecked += cs.checked; SH->certFailed += cs.failed; SH->certUs += (uint64_t)(cs.secs * 1e6); SH->certQueries += cs.queries;
  for (size_t i = 0; i < g_hits.size() && i < (1 << 16); i++) if (g_hits[i]) SH->hits[i] += g_hits[i];
  fclose(g_f);
  SH->active--;
  _Exit(0);
}

static State *initialState(int job) {
  State *s = new State();
  s->job = job;
  for (auto &d : s->dom) d = Set256::all();
  memset(&s->model, 0, sizeof s->model);
  s->sp = S_BASE + 64; s->hp = H_BASE + 64;
  return s;
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: symex MODULE JOBS OUTDIR [-t secs] [-c certsecs] [-i instlimit] [-p procs] [-s sampleEvery] [-v maxviol]\n"); return 64; }
  g_out = argv[3];
  for (int i = 4; i + 1 < argc; i += 2) {
    std::string o = argv[i]; double v = atof(argv[i + 1]);
    if (o == "-t") g_timeLimit = v; else if (o == "-c") g_certBudget = v; else if (o == "-i") g_instLimit = v; else if (o == "-p") g_nproc = v; else if (o == "-s") g_sampleEvery = v; else if (o == "-v") g_maxViol = v;
  }
  T0 = std::chrono::steady_clock::now();
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (SH == MAP_FAILED) { perror("mmap"); return 70; }
  g_certClaim = claimFn;
  loadModule(argv[1]);
  double tl = elapsed();
  z3Init();
  std::ifstream jf(argv[2]); std::string line;
  while (std::getline(jf, line)) { std::istringstream is(line); Job j; if (!(is >> j.entry)) continue; uint64_t v; while (is >> v) j.p.push_back(v); g_jobs.push_back(j); }
  if (g_jobs.size() > 65536) { fprintf(stderr, "too many jobs\n"); return 70; }
  S_BASE = (G_BASE + g_globalMem.size() + 0xffff) & ~0xffffull; S_END = S_BASE + STACK; H_BASE = S_END + 0x10000;
  g_hits.assign(M.funcs.size() + 1, 0);
  // global image, shared by all states
  State *g = initialState(0); S = g;
  for (uint64_t i = 0; i < g_globalMem.size(); i += PS) { Page *p = g->mem.wr(G_BASE + i); memcpy(p->d, g_globalMem.data() + i, std::min<uint64_t>(PS, g_globalMem.size() - i)); }
  g->mem.ch.resize(((H_BASE - G_BASE) >> (PB + CB)) + 1);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  SH->active = 1;
  pid_t root = fork();
  if (root == 0) {
    Z3_params ps = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, ps);
    Z3_params_set_uint(g_z3, ps, Z3_mk_string_symbol(g_z3, "timeout"), 20000);
    g_sol = mkBvSolver(); Z3_solver_set_params(g_z3, g_sol, ps);
    openOut();
    for (int j = (int)g_jobs.size() - 1; j >= 0; j--) {
      auto it = M.byName.find(g_jobs[j].entry);
      if (it == M.byName.end() || it->second->decl) { fprintf(stderr, "no entry function %s\n", g_jobs[j].entry.c_str()); _Exit(70); }
      State *s = new State(*g); s->job = j; S = s;
      pushCall(it->second, nullptr, {}, 0);
      g_work.push_back(s);
    }
    worker();
  }
  bool bad = false; int st; int nproc = 0;
  for (;;) { pid_t p = waitpid(-1, &st, 0); if (p < 0) break; nproc++; if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad = true; SH->active--; if (WIFSIGNALED(st)) fprintf(stderr, "worker %d killed by signal %d\n", p, WTERMSIG(st)); } }
  FILE *o = fopen((g_out + "/summary.txt").c_str(), "w");
  auto P = [&](const char *k, uint64_t v) { fprintf(o, "%s\t%" PRIu64 "\n", k, v); };
  P("crashed", bad); P("jobs", g_jobs.size()); P("paths", SH->paths); P("pruned", SH->pruned); P("panics", SH->panics); P("violations", SH->viol); P("errors", SH->errors);
  P("timedout", SH->timedOut); P("stopped", SH->stop); P("unexplored", SH->unexplored); P("forks", SH->forks); P("instructions", SH->insts);
  P("queries", SH->queries); P("sat", SH->qsat); P("unsat", SH->qunsat); P("unknown", SH->qunknown); P("solver_us", SH->qns / 1000); P("cert_total", SH->certTotal); P("cert_checked", SH->certChecked);
  P("cert_failed", SH->certFailed); P("cert_queries", SH->certQueries); P("cert_us", SH->certUs); P("samples", SH->samples); P("checks", SH->checks); P("symchecks", SH->symchecks); P("processes", nproc); P("load_ms", tl * 1000); P("wall_ms", elapsed() * 1000);
  for (int i = 0; i < 4096; i++) if (SH->reach[i]) fprintf(o, "reach\t%d\t%" PRIu64 "\n", i, SH->reach[i].load());
  for (size_t i = 0; i < g_jobs.size(); i++) fprintf(o, "job\t%zu\t%" PRIu64 "\n", i, SH->jobPaths[i].load());
  for (auto &f : M.funcs) { size_t i = (f->addr - 0x1000) / 16; if (i < (1 << 16) && SH->hits[i]) fprintf(o, "func\t%s\t%" PRIu64 "\n", f->dem.c_str(), SH->hits[i].load()); }
  fclose(o);
  return bad ? 70 : 0;
}
