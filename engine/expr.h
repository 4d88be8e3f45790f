// Hash-consed bit-vector expressions over symbolic byte / word variables.
//
// Every expression whose support is a single *byte* variable carries its
// complete value table (256 entries) and is canonicalised on that table; the
// tables are certified against Z3 (see certify()).  All other expressions are
// decided by Z3 only.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum EOp : uint8_t {
  E_CONST, E_VAR, E_WVAR, E_LUT,
  E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ITE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT,
};

struct Set256 {
  uint64_t w[4];
  bool test(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
  void set(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  static Set256 all() { return {{~0ull, ~0ull, ~0ull, ~0ull}}; }
  static Set256 none() { return {{0, 0, 0, 0}}; }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  int count() const {
    return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) +
           __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]);
  }
  int first() const {
    for (int i = 0; i < 4; i++)
      if (w[i]) return i * 64 + __builtin_ctzll(w[i]);
    return -1;
  }
  Set256 operator&(const Set256 &o) const {
    return {{w[0] & o.w[0], w[1] & o.w[1], w[2] & o.w[2], w[3] & o.w[3]}};
  }
  Set256 andnot(const Set256 &o) const {
    return {{w[0] & ~o.w[0], w[1] & ~o.w[1], w[2] & ~o.w[2], w[3] & ~o.w[3]}};
  }
  bool operator==(const Set256 &o) const { return !memcmp(w, o.w, 32); }
};

struct Expr {
  EOp op;
  uint8_t w;
  int16_t var;      // single byte-variable support: its index, else -1
  uint32_t id;
  Expr *a, *b, *c;
  uint64_t k;       // constant / extract offset / variable index
  uint64_t sup;     // byte variables (bit mask)
  uint64_t wsup;    // word variables (bit mask)
  void *tab;        // value table when var >= 0
  uint64_t ch;      // content hash of the table (independent of the variable's index)
  Z3_ast z;         // memo
  bool isConst() const { return op == E_CONST; }
  inline uint64_t at(unsigned v) const {
    if (w == 1) return ((Set256 *)tab)->test(v);
    if (w <= 8) return ((uint8_t *)tab)[v];
    if (w <= 16) return ((uint16_t *)tab)[v];
    if (w <= 32) return ((uint32_t *)tab)[v];
    return ((uint64_t *)tab)[v];
  }
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w) {
  return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w);
}

struct WideVar { unsigned w; std::string name; };

extern std::vector<WideVar> g_wvars;   // word variables, index = bit in wsup

uint64_t evalOp(EOp op, unsigned w, uint64_t a, uint64_t b, uint64_t c, unsigned wa, unsigned wb, uint64_t k);
Expr *mkConst(unsigned w, uint64_t v);
Expr *mkVar(unsigned idx);
Expr *mkWVar(unsigned idx, unsigned w);
Expr *mkLut(unsigned var, unsigned w, const uint64_t *vals);
Expr *mk(EOp op, unsigned w, Expr *a, Expr *b = nullptr, Expr *c = nullptr, uint64_t k = 0);

struct Model {
  uint8_t b[64];
  uint64_t w[16];
};
uint64_t evalModel(Expr *e, const Model &m);

extern Z3_context g_z3;
void z3Init();
Z3_ast toZ3(Expr *e);

struct CertStats { uint64_t checked, failed, queries; double secs; uint64_t total; };
extern bool (*g_certClaim)(uint64_t hash);   // true when this process is the first to claim the obligation
void certSkipExisting();                     // after fork: the parent keeps its own obligations
void certBranch(const Set256 &dom, Expr *cond, bool value);  // obligation: dom => cond == value
// Certify the single-byte value tables: for every interned operation r = op(a,b,c),
// Z3 must find op(a,b,c) != table_r unsatisfiable.
CertStats certify(double budget_s);
extern uint64_t g_nexpr;
