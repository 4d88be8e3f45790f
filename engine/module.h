// Pre-decoded LLVM module.
#pragma once
#include "expr.h"
#include <map>
#include <memory>

struct Val { uint64_t v; Expr *e; };

enum IOp : uint16_t {
  I_BIN,      // sub = EOp, per-lane (n lanes)
  I_ICMP,     // sub = EOp, neg/swap flags
  I_FCMP, I_FBIN, I_FNEG,
  I_SELECT, I_MOV, I_ZEXT, I_SEXT, I_TRUNC, I_BITCASTV, I_FCAST,
  I_WIDE,     // > 64-bit integer op, concrete only
  I_ALLOCA, I_LOAD, I_STORE, I_GEPC, I_GEP,
  I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE,
  I_CALL, I_EXTRACT, I_INSERT, I_EXTELT, I_INSELT, I_SHUFFLE,
  I_RMW, I_CMPXCHG, I_NOP, I_UNSUP, I_MULADDR
};

struct MemPart { uint32_t off; uint8_t bytes; uint8_t bits; };  // one slot <-> memory

struct Inst {
  uint16_t op; uint8_t sub; uint8_t w;
  uint8_t flag; uint8_t w2; uint16_t n;
  int32_t dst, a, b, c;
  int32_t aux; int64_t imm;
};

struct Edge { int32_t pc; std::vector<std::pair<int32_t, int32_t>> copies; };
struct SwitchInfo { std::vector<std::pair<uint64_t, int>> cases; int def; std::unordered_map<uint64_t, int> map; };
struct GepTerm { int32_t slot; uint64_t scale; uint8_t w; };
struct Func;
struct CallInfo {
  Func *f = nullptr; int32_t fslot = 0; bool indirect = false;
  std::vector<std::pair<int32_t, int>> args;  // slot, nslots
  int retslots = 0; uint8_t retw = 0; int32_t edge = -1; // invoke normal dest
  int intr = 0;
  std::vector<uint8_t> argw;
};
struct ShuffleInfo { std::vector<int> mask; int na; };

struct Func {
  std::string name, dem;
  bool decl = true; int special = 0;
  int nslots = 0; std::vector<int> argslots; int nargslots = 0;
  std::vector<Inst> code; std::vector<Val> consts;
  std::vector<Edge> edges; std::vector<SwitchInfo> switches; std::vector<std::vector<GepTerm>> geps;
  std::vector<CallInfo> calls; std::vector<ShuffleInfo> shuf; std::vector<std::vector<MemPart>> mems;
  uint64_t addr = 0; void *llvm = nullptr; bool decoded = false;
  uint64_t hits = 0;
};

struct Module_ {
  std::vector<std::unique_ptr<Func>> funcs;
  std::unordered_map<std::string, Func *> byName;
  std::unordered_map<uint64_t, Func *> byAddr;
};
extern Module_ M;
extern std::vector<uint8_t> g_globalMem;      // initial image of the globals
extern uint64_t G_BASE;
void loadModule(const char *path);
void decodeFunc(Func *f);

enum Special {
  S_NONE = 0, S_PANIC, S_MALLOC, S_CALLOC, S_REALLOC, S_FREE, S_MEMALIGN, S_MEMCMP, S_STRLEN,
  S_SYM_BYTE, S_SYM_WORD, S_SYM_ASSUME, S_SYM_CHECK, S_SYM_REACH, S_SYM_PARAM, S_SYM_LOG, S_SYM_NOTE,
  S_RANDKEYS, S_IGNORE0, S_ABORT, S_UNMODELLED, S_GETENV, S_SYM_CONC, S_RUSTALLOC, S_RUSTALLOCZ, S_RUSTDEALLOC, S_RUSTREALLOC, S_EDITDIST, S_SYSCALL
};
// intrinsics
enum Intr {
  N_NONE = 0, N_NOP, N_MEMCPY, N_MEMSET, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UMAX, N_UMIN, N_SMAX, N_SMIN,
  N_USUBSAT, N_UADDSAT, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_ABS, N_FSHL, N_FSHR, N_LOADREL, N_VREDADD, N_TRAP, N_EXPECT,
  N_THREADLOCAL, N_VREDOR, N_VREDAND, N_BAD, N_PTRMASK, N_SSUBSAT, N_SADDSAT, N_VREDMAX, N_VREDMIN, N_BITREVERSE, N_ISCONST
};
