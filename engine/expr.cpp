#include "expr.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>

std::vector<WideVar> g_wvars;
Z3_context g_z3;
uint64_t g_nexpr = 0;

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

struct Key { EOp op; uint8_t w; Expr *a, *b, *c; uint64_t k; };
struct KeyH { size_t operator()(const Key &x) const {
  uint64_t h = x.op * 131 + x.w; h = mix(h, (uint64_t)x.a); h = mix(h, (uint64_t)x.b); h = mix(h, (uint64_t)x.c); return mix(h, x.k); } };
struct KeyE { bool operator()(const Key &x, const Key &y) const {
  return x.op == y.op && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; } };
static std::unordered_map<Key, Expr *, KeyH, KeyE> opCache;
static std::unordered_multimap<uint64_t, Expr *> tabCache;
struct CertEntry { Key key; Expr *res; Set256 dom; bool branch; };
bool (*g_certClaim)(uint64_t) = nullptr;
static bool claim(uint64_t h) { return !g_certClaim || g_certClaim(h); }
static std::vector<CertEntry> certList;
static size_t certDone = 0;

static Expr *alloc() { Expr *e = (Expr *)calloc(1, sizeof(Expr)); e->id = ++g_nexpr; e->var = -1; return e; }

static size_t tabBytes(unsigned w) { return w == 1 ? 32 : w <= 8 ? 256 : w <= 16 ? 512 : w <= 32 ? 1024 : 2048; }

uint64_t evalOp(EOp op, unsigned w, uint64_t a, uint64_t b, uint64_t c, unsigned wa, unsigned wb, uint64_t k) {
  uint64_t M = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & M;
  case E_SUB: return (a - b) & M;
  case E_MUL: return (a * b) & M;
  case E_UDIV: return b ? (a / b) & M : M;
  case E_UREM: return b ? (a % b) & M : a;
  case E_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (0 - (uint64_t)x) & M; return (uint64_t)(x / y) & M; }
  case E_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & M; }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & M;
  case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: { int64_t x = sx(a, w); return (uint64_t)(b >= w ? (x < 0 ? -1 : 0) : (x >> b)) & M; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sx(a, wa) < sx(b, wb);
  case E_SLE: return sx(a, wa) <= sx(b, wb);
  case E_ITE: return a ? b : c;
  case E_CONCAT: return ((a << wb) | b) & M;
  case E_EXTRACT: return (a >> k) & M;
  case E_ZEXT: return a;
  case E_SEXT: return (uint64_t)sx(a, wa) & M;
  default: abort();
  }
}

Expr *mkConst(unsigned w, uint64_t v) {
  v &= maskw(w);
  Key key{E_CONST, (uint8_t)w, nullptr, nullptr, nullptr, v};
  auto it = opCache.find(key);
  if (it != opCache.end()) return it->second;
  Expr *e = alloc(); e->op = E_CONST; e->w = w; e->k = v;
  return opCache[key] = e;
}

static Expr *internTable(unsigned var, unsigned w, const void *tab, Expr *proto) {
  size_t n = tabBytes(w);
  uint64_t h = mix(w, n);
  const uint64_t *p = (const uint64_t *)tab;
  for (size_t i = 0; i < n / 8; i++) h = mix(h, p[i]);
  uint64_t content = h;
  h = mix(h, var);
  auto r = tabCache.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) {
    Expr *e = it->second;
    if (e->var == (int)var && e->w == w && !memcmp(e->tab, tab, n)) return e;
  }
  Expr *e = alloc(); uint32_t id = e->id;
  *e = *proto; e->id = id; e->w = w; e->var = var; e->sup = 1ull << var; e->wsup = 0; e->z = nullptr;
  e->tab = malloc(n); memcpy(e->tab, tab, n); e->ch = content;
  tabCache.emplace(h, e);
  return e;
}

template <class F> static Expr *buildTable(unsigned var, unsigned w, F f, Expr *proto) {
  alignas(8) static uint8_t buf[2048];
  bool same = true; uint64_t v0 = f(0);
  if (w == 1) memset(buf, 0, 32);
  for (unsigned v = 0; v < 256; v++) {
    uint64_t x = f(v);
    if (x != v0) same = false;
    if (w == 1) { if (x) ((Set256 *)buf)->set(v); }
    else if (w <= 8) buf[v] = x;
    else if (w <= 16) ((uint16_t *)buf)[v] = x;
    else if (w <= 32) ((uint32_t *)buf)[v] = x;
    else ((uint64_t *)buf)[v] = x;
  }
  if (same) return mkConst(w, v0);
  return internTable(var, w, buf, proto);
}

Expr *mkVar(unsigned idx) {
  Expr p{}; p.op = E_VAR; p.k = idx;
  return buildTable(idx, 8, [](unsigned v) { return (uint64_t)v; }, &p);
}

Expr *mkLut(unsigned var, unsigned w, const uint64_t *vals) {
  Expr p{}; p.op = E_LUT; p.k = var;
  uint64_t M = maskw(w);
  return buildTable(var, w, [&](unsigned v) { return vals[v] & M; }, &p);
}

Expr *mkWVar(unsigned idx, unsigned w) {
  Key key{E_WVAR, (uint8_t)w, nullptr, nullptr, nullptr, idx};
  auto it = opCache.find(key);
  if (it != opCache.end()) return it->second;
  Expr *e = alloc(); e->op = E_WVAR; e->w = w; e->k = idx; e->wsup = 1ull << idx;
  return opCache[key] = e;
}

static Expr *mkRaw(const Key &key) {
  Expr *e = alloc(); e->op = key.op; e->w = key.w; e->a = key.a; e->b = key.b; e->c = key.c; e->k = key.k;
  for (Expr *x : {key.a, key.b, key.c}) if (x) { e->sup |= x->sup; e->wsup |= x->wsup; }
  return e;
}

// local rewrites for multi-variable expressions; nullptr = none applies
static Expr *simplify(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t k) {
  switch (op) {
  case E_ADD:
    if (b->isConst() && b->k == 0) return a;
    if (a->isConst() && a->k == 0) return b;
    if (b->isConst() && a->op == E_ADD && a->b->isConst()) return mk(E_ADD, w, a->a, mkConst(w, a->b->k + b->k));
    if (a->isConst()) return mk(E_ADD, w, b, a);
    break;
  case E_SUB:
    if (b->isConst()) return mk(E_ADD, w, a, mkConst(w, 0 - b->k));
    if (a == b) return mkConst(w, 0);
    break;
  case E_MUL:
    if (b->isConst() && b->k == 1) return a;
    if (b->isConst() && b->k == 0) return b;
    if (a->isConst() && !b->isConst()) return mk(E_MUL, w, b, a);
    break;
  case E_AND:
    if (a == b) return a;
    if (a->isConst() && !b->isConst()) return mk(E_AND, w, b, a);
    if (b->isConst() && b->k == 0) return b;
    if (b->isConst() && b->k == maskw(w)) return a;
    if (b->isConst() && a->op == E_CONCAT) {
      unsigned lw = a->b->w;
      return mk(E_CONCAT, w, mk(E_AND, w - lw, a->a, mkConst(w - lw, b->k >> lw)), mk(E_AND, lw, a->b, mkConst(lw, b->k)));
    }
    if (b->isConst() && a->op == E_ZEXT) return mk(E_ZEXT, w, mk(E_AND, a->a->w, a->a, mkConst(a->a->w, b->k)));
    break;
  case E_OR:
    if (a == b) return a;
    if (a->isConst() && !b->isConst()) return mk(E_OR, w, b, a);
    if (b->isConst() && b->k == 0) return a;
    if (b->isConst() && b->k == maskw(w)) return b;
    break;
  case E_XOR:
    if (a == b) return mkConst(w, 0);
    if (a->isConst() && !b->isConst()) return mk(E_XOR, w, b, a);
    if (b->isConst() && b->k == 0) return a;
    if (b->isConst() && a->op == E_XOR && a->b->isConst()) return mk(E_XOR, w, a->a, mkConst(w, a->b->k ^ b->k));
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (b->isConst() && b->k == 0) return a;
    if (b->isConst() && op == E_LSHR && b->k < w) return mk(E_ZEXT, w, mk(E_EXTRACT, w - b->k, a, nullptr, nullptr, b->k));
    break;
  case E_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->isConst()) return mk(E_EQ, 1, b, a);
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return mk(E_EQ, 1, a->a, b->a);
    if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w)
      return mk(E_AND, 1, mk(E_EQ, 1, a->a, b->a), mk(E_EQ, 1, a->b, b->b));
    if (b->isConst()) {
      if (a->op == E_ZEXT) {
        if (b->k & ~maskw(a->a->w)) return mkConst(1, 0);
        return mk(E_EQ, 1, a->a, mkConst(a->a->w, b->k));
      }
      if (a->op == E_CONCAT) {
        Expr *h = mk(E_EQ, 1, a->a, mkConst(a->a->w, b->k >> a->b->w));
        Expr *l = mk(E_EQ, 1, a->b, mkConst(a->b->w, b->k));
        return mk(E_AND, 1, h, l);
      }
      if (a->w == 1) return b->k ? a : mk(E_XOR, 1, a, mkConst(1, 1));
      if (a->op == E_ITE && a->b->isConst() && a->c->isConst()) {
        bool t = a->b->k == b->k, f = a->c->k == b->k;
        if (t && f) return mkConst(1, 1);
        if (!t && !f) return mkConst(1, 0);
        return t ? a->a : mk(E_XOR, 1, a->a, mkConst(1, 1));
      }
      if (a->op == E_ADD && a->b->isConst()) return mk(E_EQ, 1, a->a, mkConst(a->w, b->k - a->b->k));
    }
    break;
  case E_ULT:
    if (a == b) return mkConst(1, 0);
    if (b->isConst() && b->k == 0) return mkConst(1, 0);
    if (a->op == E_ZEXT && b->isConst()) {
      if (b->k > maskw(a->a->w)) return mkConst(1, 1);
      return mk(E_ULT, 1, a->a, mkConst(a->a->w, b->k));
    }
    break;
  case E_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->op == E_ZEXT && b->isConst()) {
      if (b->k >= maskw(a->a->w)) return mkConst(1, 1);
      return mk(E_ULE, 1, a->a, mkConst(a->a->w, b->k));
    }
    break;
  case E_SLT: if (a == b) return mkConst(1, 0); break;
  case E_SLE: if (a == b) return mkConst(1, 1); break;
  case E_ITE:
    if (a->isConst()) return a->k ? b : c;
    if (b == c) return b;
    if (w == 1 && b->isConst() && c->isConst()) return b->k ? a : mk(E_XOR, 1, a, mkConst(1, 1));
    if (w == 1 && b->isConst()) return b->k ? mk(E_OR, 1, a, c) : mk(E_AND, 1, mk(E_XOR, 1, a, mkConst(1, 1)), c);
    if (w == 1 && c->isConst()) return c->k ? mk(E_OR, 1, mk(E_XOR, 1, a, mkConst(1, 1)), b) : mk(E_AND, 1, a, b);
    break;
  case E_ZEXT:
    if (a->w == w) return a;
    if (a->op == E_ZEXT) return mk(E_ZEXT, w, a->a);
    break;
  case E_SEXT:
    if (a->w == w) return a;
    if (a->op == E_ZEXT) return mk(E_ZEXT, w, a->a);
    break;
  case E_EXTRACT:
    if (k == 0 && a->w == w) return a;
    if (a->op == E_EXTRACT) return mk(E_EXTRACT, w, a->a, nullptr, nullptr, a->k + k);
    if (a->op == E_ZEXT) {
      if (k >= a->a->w) return mkConst(w, 0);
      if (k + w <= a->a->w) return mk(E_EXTRACT, w, a->a, nullptr, nullptr, k);
      if (k == 0) return mk(E_ZEXT, w, a->a);
    }
    if (a->op == E_CONCAT) {
      unsigned lw = a->b->w;
      if (k + w <= lw) return mk(E_EXTRACT, w, a->b, nullptr, nullptr, k);
      if (k >= lw) return mk(E_EXTRACT, w, a->a, nullptr, nullptr, k - lw);
    }
    break;
  case E_CONCAT:
    if (a->isConst() && a->k == 0) return mk(E_ZEXT, w, b);
    if (a->op == E_EXTRACT && b->op == E_EXTRACT && a->a == b->a && a->k == b->k + b->w)
      return mk(E_EXTRACT, w, a->a, nullptr, nullptr, b->k);
    // concat(extract(x,hi), concat(extract(x,lo), ...)) handled by re-association at load time
    break;
  default: break;
  }
  return nullptr;
}

Expr *mk(EOp op, unsigned w, Expr *a, Expr *b, Expr *c, uint64_t k) {
  unsigned wa = a->w, wb = b ? b->w : 0;
  if (a->isConst() && (!b || b->isConst()) && (!c || c->isConst()))
    return mkConst(w, evalOp(op, w, a->k, b ? b->k : 0, c ? c->k : 0, wa, wb, k));
  Key key{op, (uint8_t)w, a, b, c, k};
  auto it = opCache.find(key);
  if (it != opCache.end()) return it->second;
  uint64_t sup = a->sup | (b ? b->sup : 0) | (c ? c->sup : 0);
  uint64_t wsup = a->wsup | (b ? b->wsup : 0) | (c ? c->wsup : 0);
  Expr *r;
  if (!wsup && sup && !(sup & (sup - 1))) {
    unsigned var = __builtin_ctzll(sup);
    Expr p{}; p.op = op; p.a = a; p.b = b; p.c = c; p.k = k;
    auto val = [](Expr *e, unsigned v) -> uint64_t { return !e ? 0 : e->isConst() ? e->k : e->at(v); };
    r = buildTable(var, w, [&](unsigned v) { return evalOp(op, w, val(a, v), val(b, v), val(c, v), wa, wb, k); }, &p);
    uint64_t h = mix(op * 1000003 + w, k);
    for (Expr *x : {a, b, c, r}) h = mix(h, !x ? 0 : x->isConst() ? mix(x->k, x->w + 7) : x->ch);
    if (claim(h)) certList.push_back({key, r, Set256::none(), false});
  } else {
    r = simplify(op, w, a, b, c, k);
    if (!r) r = mkRaw(key);
  }
  opCache[key] = r;
  return r;
}

static std::unordered_map<Expr *, uint64_t> evalMemo;
static uint64_t evalRec(Expr *e, const Model &m) {
  switch (e->op) {
  case E_CONST: return e->k;
  case E_WVAR: return m.w[e->k] & maskw(e->w);
  default: break;
  }
  if (e->var >= 0) return e->at(m.b[e->var]);
  auto it = evalMemo.find(e);
  if (it != evalMemo.end()) return it->second;
  uint64_t r = evalOp(e->op, e->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0, e->c ? evalRec(e->c, m) : 0, e->a->w,
                      e->b ? e->b->w : 0, e->k);
  return evalMemo[e] = r;
}
uint64_t evalModel(Expr *e, const Model &m) { evalMemo.clear(); return evalRec(e, m); }

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(70); }
void z3Init() {
  Z3_config cfg = Z3_mk_config();
  g_z3 = Z3_mk_context(cfg);
  Z3_set_error_handler(g_z3, z3err);
}

static Z3_ast zbool(Z3_ast b) {
  return Z3_mk_ite(g_z3, b, Z3_mk_unsigned_int64(g_z3, 1, Z3_mk_bv_sort(g_z3, 1)), Z3_mk_unsigned_int64(g_z3, 0, Z3_mk_bv_sort(g_z3, 1)));
}
static Z3_ast zconst(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(g_z3, v, Z3_mk_bv_sort(g_z3, w)); }
static Z3_ast zvar(unsigned idx, unsigned w, bool wide) {
  char nm[32]; snprintf(nm, sizeof nm, wide ? "w%u" : "b%u", idx);
  return Z3_mk_const(g_z3, Z3_mk_string_symbol(g_z3, nm), Z3_mk_bv_sort(g_z3, w));
}
// value table as a shared binary decision tree over the bits of its variable
static Z3_ast zlut(Expr *e) {
  Z3_ast x = zvar(e->var, 8, false);
  std::unordered_map<uint64_t, Z3_ast> leaf;
  Z3_ast cur[256];
  for (int v = 0; v < 256; v++) { uint64_t k = e->at(v); auto it = leaf.find(k); if (it == leaf.end()) it = leaf.emplace(k, zconst(e->w, k)).first; cur[v] = it->second; }
  Z3_ast one = zconst(1, 1);
  for (int bit = 0, n = 256; bit < 8; bit++, n >>= 1) {
    Z3_ast c = Z3_mk_eq(g_z3, Z3_mk_extract(g_z3, bit, bit, x), one);
    for (int i = 0; i < n / 2; i++) cur[i] = cur[2 * i] == cur[2 * i + 1] ? cur[2 * i] : Z3_mk_ite(g_z3, c, cur[2 * i + 1], cur[2 * i]);
  }
  return cur[0];
}
static Z3_ast zop(EOp op, unsigned w, Z3_ast a, Z3_ast b, Z3_ast c, uint64_t k, unsigned wa) {
  switch (op) {
  case E_ADD: return Z3_mk_bvadd(g_z3, a, b);
  case E_SUB: return Z3_mk_bvsub(g_z3, a, b);
  case E_MUL: return Z3_mk_bvmul(g_z3, a, b);
  case E_UDIV: return Z3_mk_bvudiv(g_z3, a, b);
  case E_SDIV: return Z3_mk_bvsdiv(g_z3, a, b);
  case E_UREM: return Z3_mk_bvurem(g_z3, a, b);
  case E_SREM: return Z3_mk_bvsrem(g_z3, a, b);
  case E_AND: return Z3_mk_bvand(g_z3, a, b);
  case E_OR: return Z3_mk_bvor(g_z3, a, b);
  case E_XOR: return Z3_mk_bvxor(g_z3, a, b);
  case E_SHL: return Z3_mk_bvshl(g_z3, a, b);
  case E_LSHR: return Z3_mk_bvlshr(g_z3, a, b);
  case E_ASHR: return Z3_mk_bvashr(g_z3, a, b);
  case E_EQ: return zbool(Z3_mk_eq(g_z3, a, b));
  case E_ULT: return zbool(Z3_mk_bvult(g_z3, a, b));
  case E_ULE: return zbool(Z3_mk_bvule(g_z3, a, b));
  case E_SLT: return zbool(Z3_mk_bvslt(g_z3, a, b));
  case E_SLE: return zbool(Z3_mk_bvsle(g_z3, a, b));
  case E_ITE: return Z3_mk_ite(g_z3, Z3_mk_eq(g_z3, a, zconst(1, 1)), b, c);
  case E_CONCAT: return Z3_mk_concat(g_z3, a, b);
  case E_EXTRACT: return Z3_mk_extract(g_z3, k + w - 1, k, a);
  case E_ZEXT: return Z3_mk_zero_ext(g_z3, w - wa, a);
  case E_SEXT: return Z3_mk_sign_ext(g_z3, w - wa, a);
  default: abort();
  }
}
Z3_ast toZ3(Expr *e) {
  if (e->z) return e->z;
  Z3_ast r;
  switch (e->op) {
  case E_CONST: r = zconst(e->w, e->k); break;
  case E_VAR: r = zvar(e->k, 8, false); break;
  case E_WVAR: r = zvar(e->k, e->w, true); break;
  case E_LUT: r = zlut(e); break;
  default:
    r = zop(e->op, e->w, toZ3(e->a), e->b ? toZ3(e->b) : nullptr, e->c ? toZ3(e->c) : nullptr, e->k, e->a->w);
  }
  Z3_inc_ref(g_z3, r);
  return e->z = r;
}

void certSkipExisting() { certDone = certList.size(); }

void certBranch(const Set256 &dom, Expr *cond, bool value) {
  static std::unordered_map<uint64_t, bool> seen;
  uint64_t h = mix(cond->ch, value);
  for (int i = 0; i < 4; i++) h = mix(h, dom.w[i]);
  if (!seen.emplace(h, true).second) return;
  if (!claim(h)) return;
  Key k{E_EQ, 1, cond, mkConst(1, value), nullptr, 0};
  certList.push_back({k, nullptr, dom, true});
}

static Z3_ast zset(unsigned var, const Set256 &d) {  // membership as a disjunction of ranges
  Z3_ast x = zvar(var, 8, false);
  std::vector<Z3_ast> ors;
  unsigned v = 0;
  while (v < 256) {
    if (!d.test(v)) { v++; continue; }
    unsigned u = v;
    while (u + 1 < 256 && d.test(u + 1)) u++;
    Z3_ast r[2] = {Z3_mk_bvuge(g_z3, x, zconst(8, v)), Z3_mk_bvule(g_z3, x, zconst(8, u))};
    ors.push_back(v == u ? Z3_mk_eq(g_z3, x, zconst(8, v)) : Z3_mk_and(g_z3, 2, r));
    v = u + 1;
  }
  if (ors.empty()) return Z3_mk_false(g_z3);
  return ors.size() == 1 ? ors[0] : Z3_mk_or(g_z3, ors.size(), ors.data());
}
Z3_ast domainZ3(unsigned var, const Set256 &d) { return zset(var, d); }

Z3_solver mkBvSolver() {
  Z3_solver s = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV")); Z3_solver_inc_ref(g_z3, s); return s;
}
CertStats certify(double budget) {
  CertStats s{0, 0, 0, 0, certList.size() - certDone};
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver sol = mkBvSolver();
  // batch: a disjunction of up to 32 negated obligations per query, all must be unsat
  while (certDone < certList.size()) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (el > budget) break;
    std::vector<Z3_ast> ds;
    size_t n0 = certDone;
    while (certDone < certList.size() && ds.size() < 32) {
      auto &ce = certList[certDone++];
      Key &k = ce.key;
      auto leaf = [](Expr *x) -> Z3_ast { return !x ? nullptr : x->isConst() ? zconst(x->w, x->k) : x->op == E_VAR ? zvar(x->k, 8, false) : zlut(x); };
      if (ce.branch) {
        Z3_ast c[2] = {zset(k.a->var, ce.dom), Z3_mk_not(g_z3, Z3_mk_eq(g_z3, leaf(k.a), leaf(k.b)))};
        ds.push_back(Z3_mk_and(g_z3, 2, c));
        continue;
      }
      Z3_ast l = zop(k.op, k.w, leaf(k.a), leaf(k.b), leaf(k.c), k.k, k.a->w);
      Z3_ast r = ce.res->isConst() ? zconst(ce.res->w, ce.res->k) : ce.res->op == E_VAR ? zvar(ce.res->k, 8, false) : zlut(ce.res);
      ds.push_back(Z3_mk_not(g_z3, Z3_mk_eq(g_z3, l, r)));
    }
    Z3_solver_push(g_z3, sol);
    Z3_solver_assert(g_z3, sol, Z3_mk_or(g_z3, ds.size(), ds.data()));
    Z3_lbool v = Z3_solver_check(g_z3, sol);
    s.queries++;
    if (v != Z3_L_FALSE) s.failed += 1;
    Z3_solver_pop(g_z3, sol, 1);
    s.checked += certDone - n0;
  }
  Z3_solver_dec_ref(g_z3, sol);
  s.secs = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return s;
}
