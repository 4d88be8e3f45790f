#include "module.h"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

Module_ M;
std::vector<uint8_t> g_globalMem;
uint64_t G_BASE = 0x100000;
static LLVMContext *ctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static const uint64_t F_BASE = 0x1000;

static int nslots(Type *t) {
  if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return 0;
  if (auto *it = dyn_cast<IntegerType>(t)) return (it->getBitWidth() + 63) / 64;
  if (t->isPointerTy() || t->isFloatTy() || t->isDoubleTy()) return 1;
  if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : st->elements()) n += nslots(e); return n; }
  if (auto *at = dyn_cast<ArrayType>(t)) return at->getNumElements() * nslots(at->getElementType());
  if (auto *vt = dyn_cast<FixedVectorType>(t)) return vt->getNumElements() * nslots(vt->getElementType());
  errs() << "nslots: unsupported type " << *t << "\n"; _Exit(70);
}
static unsigned scalarW(Type *t) {
  if (auto *vt = dyn_cast<FixedVectorType>(t)) t = vt->getElementType();
  if (auto *it = dyn_cast<IntegerType>(t)) return it->getBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  return 0;
}
static void memParts(Type *t, uint64_t off, std::vector<MemPart> &out) {
  if (auto *it = dyn_cast<IntegerType>(t)) {
    unsigned w = it->getBitWidth();
    if (w <= 64) out.push_back({(uint32_t)off, (uint8_t)((w + 7) / 8), (uint8_t)w});
    else for (unsigned i = 0; i < w; i += 64) { unsigned ww = std::min(64u, w - i); out.push_back({(uint32_t)(off + i / 8), (uint8_t)((ww + 7) / 8), (uint8_t)ww}); }
    return;
  }
  if (t->isPointerTy() || t->isDoubleTy()) { out.push_back({(uint32_t)off, 8, 64}); return; }
  if (t->isFloatTy()) { out.push_back({(uint32_t)off, 4, 32}); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) memParts(st->getElementType(i), off + (uint64_t)sl->getElementOffset(i), out); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) memParts(at->getElementType(), off + i * sz, out); return; }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) { unsigned eb = DL->getTypeSizeInBits(vt->getElementType()) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) memParts(vt->getElementType(), off + i * eb, out); return; }
  errs() << "memParts: unsupported " << *t << "\n"; _Exit(70);
}

static uint64_t constInt(const Constant *c);
static void constSlots(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (int i = 0, n = nslots(t); i < n; i++) out.push_back({0, nullptr}); return; }
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    const APInt &v = ci->getValue();
    for (unsigned i = 0; i < (v.getBitWidth() + 63) / 64; i++) out.push_back({v.getRawData()[i], nullptr});
    return;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back({cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr}); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constSlots(cd->getElementAsConstant(i), out); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (auto &op : ca->operands()) constSlots(cast<Constant>(op), out); return; }
  out.push_back({constInt(c), nullptr});
}
static uint64_t constInt(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
  if (auto *al = dyn_cast<GlobalAlias>(c)) return constInt(al->getAliasee());
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) return 0;
    return it->second;
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = scalarW(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) { errs() << "const gep\n"; _Exit(70); }
      return constInt(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
      return constInt(ce->getOperand(0)) & maskw(w);
    case Instruction::Add: return (constInt(ce->getOperand(0)) + constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::Sub: return (constInt(ce->getOperand(0)) - constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::And: return (constInt(ce->getOperand(0)) & constInt(ce->getOperand(1))) & maskw(w);
    case Instruction::ICmp: {
      uint64_t a = constInt(ce->getOperand(0)), b = constInt(ce->getOperand(1));
      switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; default: break; }
    } // fallthrough
    default: break;
    }
  }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constInt(a->getAliasee());
  errs() << "constInt: unsupported " << *c << "\n"; _Exit(70);
}
static void writeInit(const Constant *c, uint8_t *p) {
  Type *t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(p, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeInit(cs->getOperand(i), p + (uint64_t)sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeInit(ca->getOperand(i), p + i * sz); return; }
  std::vector<Val> v; constSlots(c, v);
  std::vector<MemPart> mp; memParts(t, 0, mp);
  for (size_t i = 0; i < mp.size(); i++) memcpy(p + mp[i].off, &v[i].v, mp[i].bytes);
}

static std::string pretty(std::string s) {   // rust legacy mangling escapes
  static const std::pair<const char *, const char *> tab[] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$u20$", " "}, {"$RF$", "&"}, {"$BP$", "*"}, {"$C$", ","}, {"$LP$", "("}, {"$RP$", ")"}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"$u27$", "'"}, {"$u3b$", ";"}, {"$u2b$", "+"}, {"$u22$", "\""}, {"$SP$", "@"}, {"..", "::"}};
  for (auto &t : tab) for (size_t p; (p = s.find(t.first)) != std::string::npos;) s.replace(p, strlen(t.first), t.second);
  if (s.size() > 1 && s[0] == '_' && s[1] == '<') s.erase(0, 1);
  return s;
}
static std::string stripHash(std::string s) {
  size_t p = s.rfind("::h");
  if (p != std::string::npos && s.size() - p == 19) s.resize(p);
  return s;
}
static int classify(const std::string &n, const std::string &d, bool decl) {
  auto starts = [&](const char *p) { return d.rfind(p, 0) == 0; };
  if (starts("core::panicking::") || starts("std::panicking::begin_panic") || starts("std::panicking::rust_panic") ||
      d == "core::result::unwrap_failed" || d == "core::option::expect_failed" || d == "core::option::unwrap_failed" ||
      starts("core::cell::panic_already") || starts("core::slice::index::slice_") || starts("core::str::slice_error_fail") ||
      starts("alloc::raw_vec::capacity_overflow") || starts("alloc::alloc::handle_alloc_error") ||
      d.find("::assert_failed") != std::string::npos || d.find("_mismatch_fail") != std::string::npos ||
      d.find("_overflow_fail") != std::string::npos || n == "rust_begin_unwind" || n == "rust_panic")
    return S_PANIC;
  if (n == "sym_byte") return S_SYM_BYTE;
  if (n == "sym_word") return S_SYM_WORD;
  if (n == "sym_assume") return S_SYM_ASSUME;
  if (n == "sym_check") return S_SYM_CHECK;
  if (n == "sym_reach") return S_SYM_REACH;
  if (n == "sym_param") return S_SYM_PARAM;
  if (n == "sym_log") return S_SYM_LOG;
  if (n == "sym_note") return S_SYM_NOTE;
  if (n == "sym_conc") return S_SYM_CONC;
  if (d == "std::sys::unix::rand::hashmap_random_keys") return S_RANDKEYS;
  if (n == "malloc") return S_MALLOC;
  if (n == "calloc") return S_CALLOC;
  if (n == "realloc") return S_REALLOC;
  if (n == "free") return S_FREE;
  if (n == "posix_memalign") return S_MEMALIGN;
  if (n == "__rust_alloc" || n == "__rdl_alloc") return S_RUSTALLOC;
  if (n == "__rust_alloc_zeroed" || n == "__rdl_alloc_zeroed") return S_RUSTALLOCZ;
  if (n == "__rust_dealloc" || n == "__rdl_dealloc") return S_RUSTDEALLOC;
  if (n == "__rust_realloc" || n == "__rdl_realloc") return S_RUSTREALLOC;
  if (n == "bcmp" || n == "memcmp") return S_MEMCMP;
  if (n == "strlen") return S_STRLEN;
  if (n == "abort" || n == "_exit" || n == "exit") return S_ABORT;
  if (n == "getenv") return S_GETENV;
  if (n == "syscall") return S_SYSCALL;
  if (d == "std::sys::unix::thread_local_dtor::register_dtor" || d == "std::sys_common::thread_local_dtor::register_dtor_fallback") return S_IGNORE0;
  if (d == "edit_distance::edit_distance") return S_EDITDIST;
  if (decl && n.rfind("llvm.", 0) != 0) return S_UNMODELLED;
  return S_NONE;
}

void loadModule(const char *path) {
  ctx = new LLVMContext();
  auto buf = MemoryBuffer::getFile(path);
  if (!buf) { errs() << "cannot read " << path << "\n"; _Exit(70); }
  auto m = parseBitcodeFile((*buf)->getMemBufferRef(), *ctx);
  if (!m) { errs() << "bitcode: " << toString(m.takeError()) << "\n"; _Exit(70); }
  mod = std::move(*m);
  DL = &mod->getDataLayout();
  uint64_t fa = F_BASE;
  for (auto &F : *mod) {
    auto f = std::make_unique<Func>();
    f->name = F.getName().str(); f->dem = pretty(stripHash(demangle(f->name)));
    f->decl = F.isDeclaration(); f->llvm = &F; f->addr = fa; fa += 16;
    f->special = classify(f->name, f->dem, f->decl);
    gaddr[&F] = f->addr; M.byAddr[f->addr] = f.get(); M.byName[f->name] = f.get();
    M.funcs.push_back(std::move(f));
  }
  if (fa >= G_BASE) G_BASE = (fa + 0xfffff) & ~0xfffffull;
  uint64_t a = G_BASE + 64;
  for (auto &G : mod->globals()) {
    if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
    uint64_t al = std::max<uint64_t>(DL->getPreferredAlign(&G).value(), 1);
    a = (a + al - 1) & ~(al - 1);
    gaddr[&G] = a; a += DL->getTypeAllocSize(G.getValueType()) + 16;
  }
  g_globalMem.assign(a - G_BASE + 4096, 0);
  for (auto &G : mod->globals())
    if (G.hasInitializer()) writeInit(G.getInitializer(), g_globalMem.data() + (gaddr[&G] - G_BASE));
}

// ---------------------------------------------------------------- decoding
struct Dec {
  Func *f; Function *F;
  std::unordered_map<const llvm::Value *, int> slot;
  std::unordered_map<const Constant *, int> cslot;
  std::unordered_map<const BasicBlock *, int> bbpc;
  std::vector<std::pair<int, std::pair<const BasicBlock *, const BasicBlock *>>> fix;

  int val(const llvm::Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto it = cslot.find(c);
      if (it != cslot.end()) return it->second;
      int idx = f->consts.size();
      std::vector<Val> out; constSlots(c, out);
      for (auto &x : out) f->consts.push_back(x);
      if (out.empty()) f->consts.push_back({0, nullptr});
      return cslot[c] = ~idx;
    }
    auto it = slot.find(v);
    if (it == slot.end()) { errs() << "no slot for " << *v << "\n"; _Exit(70); }
    return it->second;
  }
  // index i of a multi-slot value: consts are stored contiguously, addressed by ~(idx+i)
  int edge(const BasicBlock *from, const BasicBlock *to) {
    f->edges.emplace_back(); int id = f->edges.size() - 1;
    fix.push_back({id, {from, to}});
    return id;
  }
  void run();
  void inst(Instruction &I);
  void call(CallBase &CB, Inst &x);
};
static int slotAt(int s, int i) { return s >= 0 ? s + i : ~((~s) + i); }

void Dec::run() {
  int n = 0;
  for (auto &A : F->args()) { slot[&A] = n; f->argslots.push_back(n); n += nslots(A.getType()); }
  f->nargslots = n;
  for (auto &BB : *F) for (auto &I : BB) { int k = nslots(I.getType()); if (k) { slot[&I] = n; n += k; } }
  f->nslots = n;
  for (auto &BB : *F) {
    bbpc[&BB] = f->code.size();
    for (auto &I : BB) { if (isa<PHINode>(I)) continue; inst(I); }
  }
  for (auto &fx : fix) {
    Edge &e = f->edges[fx.first];
    const BasicBlock *from = fx.second.first, *to = fx.second.second;
    e.pc = bbpc[to];
    for (auto &P : to->phis()) {
      const llvm::Value *v = P.getIncomingValueForBlock(from);
      if (isa<UndefValue>(v)) continue;
      int s = val(v), d = slot[&P], k = nslots(P.getType());
      for (int i = 0; i < k; i++) e.copies.push_back({slotAt(s, i), d + i});
    }
  }
}
static std::string sname(const llvm::Value *v) { std::string s; raw_string_ostream o(s); v->print(o); return s; }

void Dec::call(CallBase &CB, Inst &x) {
  x.op = I_CALL;
  CallInfo ci;
  Function *cf = CB.getCalledFunction();
  if (!cf) if (auto *c = dyn_cast<Constant>(CB.getCalledOperand())) { if (auto *ff = dyn_cast<Function>(c->stripPointerCastsAndAliases())) cf = ff; }
  if (isa<InlineAsm>(CB.getCalledOperand())) { x.op = I_NOP; return; }  // only compiler fences / black_box in std
  ci.retslots = nslots(CB.getType()); ci.retw = scalarW(CB.getType());
  for (auto &A : CB.args()) {
    if (A->getType()->isMetadataTy()) { ci.args.push_back({0, 0}); ci.argw.push_back(0); continue; }
    ci.args.push_back({val(A), nslots(A->getType())}); ci.argw.push_back(scalarW(A->getType()));
  }
  if (cf) {
    ci.f = M.byName[cf->getName().str()];
    if (cf->isIntrinsic()) {
      StringRef nm = cf->getName();
      struct { const char *p; int k; } tab[] = {
        {"llvm.memcpy", N_MEMCPY}, {"llvm.memmove", N_MEMCPY}, {"llvm.memset", N_MEMSET}, {"llvm.lifetime", N_NOP}, {"llvm.assume", N_NOP},
        {"llvm.experimental.noalias", N_NOP}, {"llvm.dbg", N_NOP}, {"llvm.x86.sse2.pause", N_NOP}, {"llvm.invariant", N_NOP}, {"llvm.donothing", N_NOP}, {"llvm.prefetch", N_NOP},
        {"llvm.uadd.with", N_UADDO}, {"llvm.usub.with", N_USUBO}, {"llvm.umul.with", N_UMULO}, {"llvm.sadd.with", N_SADDO}, {"llvm.ssub.with", N_SSUBO}, {"llvm.smul.with", N_SMULO},
        {"llvm.umax", N_UMAX}, {"llvm.umin", N_UMIN}, {"llvm.smax", N_SMAX}, {"llvm.smin", N_SMIN}, {"llvm.usub.sat", N_USUBSAT}, {"llvm.uadd.sat", N_UADDSAT}, {"llvm.ssub.sat", N_SSUBSAT}, {"llvm.sadd.sat", N_SADDSAT},
        {"llvm.ctlz", N_CTLZ}, {"llvm.cttz", N_CTTZ}, {"llvm.ctpop", N_CTPOP}, {"llvm.bswap", N_BSWAP}, {"llvm.abs", N_ABS}, {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR},
        {"llvm.load.relative", N_LOADREL}, {"llvm.vector.reduce.add", N_VREDADD}, {"llvm.vector.reduce.or", N_VREDOR}, {"llvm.vector.reduce.and", N_VREDAND},
        {"llvm.trap", N_TRAP}, {"llvm.expect", N_EXPECT}, {"llvm.threadlocal.address", N_THREADLOCAL}, {"llvm.ptrmask", N_PTRMASK}, {"llvm.bitreverse", N_BITREVERSE}, {"llvm.is.constant", N_ISCONST}};
      ci.intr = N_BAD;
      for (auto &t : tab) if (nm.starts_with(t.p)) { ci.intr = t.k; break; }
      if (ci.intr == N_NOP) { x.op = I_NOP; return; }
      if (ci.intr == N_MEMCPY || ci.intr == N_MEMSET) ci.argw[3] = 0;
    }
  } else { ci.indirect = true; ci.fslot = val(CB.getCalledOperand()); }
  if (auto *inv = dyn_cast<InvokeInst>(&CB)) ci.edge = edge(CB.getParent(), inv->getNormalDest());
  x.aux = f->calls.size(); f->calls.push_back(std::move(ci));
}

void Dec::inst(Instruction &I) {
  Inst x{}; x.op = I_UNSUP; x.n = 1;
  Type *T = I.getType();
  auto it = slot.find(&I); if (it != slot.end()) x.dst = it->second;
  x.w = std::min(255u, scalarW(T));
  auto lanes = [&](Type *t) { return isa<FixedVectorType>(t) ? (int)cast<FixedVectorType>(t)->getNumElements() : 1; };
  static const std::map<unsigned, EOp> bins = {{Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV}, {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND}, {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR}, {Instruction::AShr, E_ASHR}};
  unsigned opc = I.getOpcode();
  if (auto b = bins.find(opc); b != bins.end()) {
    x.sub = b->second; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.n = lanes(T);
    x.op = scalarW(T) > 64 ? I_WIDE : I_BIN; x.imm = scalarW(T);
  } else switch (opc) {
  case Instruction::ICmp: {
    auto *c = cast<ICmpInst>(&I); Type *ot = c->getOperand(0)->getType();
    x.a = val(c->getOperand(0)); x.b = val(c->getOperand(1)); x.n = lanes(ot); x.w = std::min(255u, scalarW(ot));
    switch (c->getPredicate()) {
    case CmpInst::ICMP_EQ: x.sub = E_EQ; break;
    case CmpInst::ICMP_NE: x.sub = E_EQ; x.flag = 1; break;
    case CmpInst::ICMP_ULT: x.sub = E_ULT; break;
    case CmpInst::ICMP_ULE: x.sub = E_ULE; break;
    case CmpInst::ICMP_UGT: x.sub = E_ULT; std::swap(x.a, x.b); break;
    case CmpInst::ICMP_UGE: x.sub = E_ULE; std::swap(x.a, x.b); break;
    case CmpInst::ICMP_SLT: x.sub = E_SLT; break;
    case CmpInst::ICMP_SLE: x.sub = E_SLE; break;
    case CmpInst::ICMP_SGT: x.sub = E_SLT; std::swap(x.a, x.b); break;
    case CmpInst::ICMP_SGE: x.sub = E_SLE; std::swap(x.a, x.b); break;
    default: _Exit(70);
    }
    x.op = I_ICMP;
    if (scalarW(ot) > 64) { x.op = I_WIDE; x.imm = scalarW(ot); }
    break;
  }
  case Instruction::FCmp: x.op = I_FCMP; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.sub = cast<FCmpInst>(&I)->getPredicate(); x.w = scalarW(I.getOperand(0)->getType()); break;
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
    x.op = lanes(T) == 1 ? I_FBIN : I_UNSUP; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.sub = opc == Instruction::FAdd ? 0 : opc == Instruction::FSub ? 1 : opc == Instruction::FMul ? 2 : opc == Instruction::FDiv ? 3 : 4; break;
  case Instruction::FNeg: x.op = I_FNEG; x.a = val(I.getOperand(0)); break;
  case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
    x.op = I_FCAST; x.a = val(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()); x.sub = opc == Instruction::UIToFP ? 0 : opc == Instruction::SIToFP ? 1 : opc == Instruction::FPToUI ? 2 : opc == Instruction::FPToSI ? 3 : opc == Instruction::FPExt ? 4 : 5; break;
  case Instruction::Select: {
    x.op = I_SELECT; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.c = val(I.getOperand(2)); x.n = nslots(T);
    x.flag = isa<FixedVectorType>(I.getOperand(0)->getType());
    std::vector<MemPart> mp; memParts(T, 0, mp); x.aux = f->mems.size(); f->mems.push_back(mp);
    break;
  }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
    unsigned sw = scalarW(I.getOperand(0)->getType()), dw = scalarW(T);
    x.a = val(I.getOperand(0)); x.n = lanes(T); x.w2 = std::min(255u, sw); x.w = std::min(255u, dw);
    x.op = opc == Instruction::ZExt ? I_ZEXT : opc == Instruction::SExt ? I_SEXT : I_TRUNC;
    if (sw > 64 || dw > 64) { x.sub = x.op == I_ZEXT ? 200 : x.op == I_SEXT ? 201 : 202; x.op = I_WIDE; x.imm = ((int64_t)sw << 32) | dw; }
    break;
  }
  case Instruction::PtrToInt: x.a = val(I.getOperand(0)); x.op = x.w < 64 ? I_TRUNC : I_MOV; x.w2 = 64; break;
  case Instruction::IntToPtr: x.a = val(I.getOperand(0)); x.w2 = scalarW(I.getOperand(0)->getType()); x.op = x.w2 < 64 ? I_ZEXT : I_MOV; break;
  case Instruction::Freeze: x.op = I_MOV; x.a = val(I.getOperand(0)); x.n = nslots(T); break;
  case Instruction::BitCast: {
    Type *s = I.getOperand(0)->getType(); x.a = val(I.getOperand(0)); x.n = nslots(T);
    if (nslots(s) == nslots(T) && scalarW(s) == scalarW(T)) x.op = I_MOV;
    else { x.op = I_BITCASTV; x.w2 = scalarW(s) > 64 ? 64 : scalarW(s); x.b = nslots(s); x.w = scalarW(T) > 64 ? 64 : scalarW(T); }
    break;
  }
  case Instruction::Alloca: {
    auto *a = cast<AllocaInst>(&I); x.op = I_ALLOCA; x.imm = DL->getTypeAllocSize(a->getAllocatedType()); x.aux = a->getAlign().value();
    if (auto *c = dyn_cast<ConstantInt>(a->getArraySize())) x.imm *= c->getZExtValue(); else x.op = I_UNSUP;
    break;
  }
  case Instruction::Load: {
    auto *l = cast<LoadInst>(&I); x.op = I_LOAD; x.a = val(l->getPointerOperand());
    std::vector<MemPart> mp; memParts(T, 0, mp); x.n = mp.size(); x.w2 = mp.empty() ? 0 : mp[0].bytes; x.aux = f->mems.size(); f->mems.push_back(mp);
    if (mp.empty()) x.op = I_NOP;
    break;
  }
  case Instruction::Store: {
    auto *s = cast<StoreInst>(&I); x.op = I_STORE; x.a = val(s->getPointerOperand()); x.b = val(s->getValueOperand());
    std::vector<MemPart> mp; memParts(s->getValueOperand()->getType(), 0, mp); x.n = mp.size(); x.w2 = mp.empty() ? 0 : mp[0].bytes; x.w = mp.empty() ? 0 : mp[0].bits; x.aux = f->mems.size(); f->mems.push_back(mp);
    if (mp.empty() || isa<UndefValue>(s->getValueOperand())) x.op = I_NOP;
    break;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(&I); x.a = val(g->getPointerOperand());
    if (T->isVectorTy()) break;
    MapVector<llvm::Value *, APInt> vo; APInt co(64, 0);
    if (!cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co)) break;
    x.imm = co.getSExtValue();
    if (vo.empty()) x.op = I_GEPC;
    else { x.op = I_GEP; std::vector<GepTerm> ts; for (auto &p : vo) ts.push_back({val(p.first), p.second.getZExtValue(), (uint8_t)scalarW(p.first->getType())}); x.aux = f->geps.size(); f->geps.push_back(ts); }
    break;
  }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(&I);
    if (b->isUnconditional()) { x.op = I_BR; x.b = edge(I.getParent(), b->getSuccessor(0)); }
    else { x.op = I_CBR; x.a = val(b->getCondition()); x.b = edge(I.getParent(), b->getSuccessor(0)); x.c = edge(I.getParent(), b->getSuccessor(1)); }
    break;
  }
  case Instruction::Switch: {
    auto *s = cast<SwitchInst>(&I); x.op = I_SWITCH; x.a = val(s->getCondition()); x.w = scalarW(s->getCondition()->getType());
    SwitchInfo si; std::map<const BasicBlock *, int> em;
    auto ed = [&](const BasicBlock *bb) { auto e = em.find(bb); if (e != em.end()) return e->second; return em[bb] = edge(I.getParent(), bb); };
    si.def = ed(s->getDefaultDest());
    for (auto &c : s->cases()) { int e = ed(c.getCaseSuccessor()); si.cases.push_back({c.getCaseValue()->getZExtValue(), e}); si.map[c.getCaseValue()->getZExtValue()] = e; }
    x.aux = f->switches.size(); f->switches.push_back(si);
    break;
  }
  case Instruction::Ret: x.op = I_RET; x.n = 0; if (I.getNumOperands()) { x.a = val(I.getOperand(0)); x.n = nslots(I.getOperand(0)->getType()); } break;
  case Instruction::Unreachable: x.op = I_UNREACHABLE; break;
  case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I), x); if (x.op == I_NOP && isa<InvokeInst>(I)) { x.op = I_BR; x.b = edge(I.getParent(), cast<InvokeInst>(I).getNormalDest()); } break;
  case Instruction::ExtractValue: {
    auto *e = cast<ExtractValueInst>(&I); Type *t = e->getAggregateOperand()->getType(); int off = 0;
    for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nslots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); t = at->getElementType(); off += ix * nslots(t); } }
    x.op = I_EXTRACT; x.a = slotAt(val(e->getAggregateOperand()), off); x.n = nslots(T); break;
  }
  case Instruction::InsertValue: {
    auto *e = cast<InsertValueInst>(&I); Type *t = T; int off = 0;
    for (unsigned ix : e->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < ix; i++) off += nslots(st->getElementType(i)); t = st->getElementType(ix); } else { auto *at = cast<ArrayType>(t); t = at->getElementType(); off += ix * nslots(t); } }
    x.op = I_INSERT; x.a = val(e->getAggregateOperand()); x.b = val(e->getInsertedValueOperand()); x.n = nslots(T); x.c = off; x.aux = nslots(t); break;
  }
  case Instruction::ExtractElement: x.op = I_EXTELT; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.n = nslots(T); break;
  case Instruction::InsertElement: x.op = I_INSELT; x.a = val(I.getOperand(0)); x.b = val(I.getOperand(1)); x.c = val(I.getOperand(2)); x.n = nslots(T); break;
  case Instruction::ShuffleVector: {
    auto *s = cast<ShuffleVectorInst>(&I); ShuffleInfo si; for (int mm : s->getShuffleMask()) si.mask.push_back(mm); si.na = lanes(s->getOperand(0)->getType());
    x.op = I_SHUFFLE; x.a = val(s->getOperand(0)); x.b = val(s->getOperand(1)); x.aux = f->shuf.size(); f->shuf.push_back(si); break;
  }
  case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&I); x.op = I_RMW; x.a = val(r->getPointerOperand()); x.b = val(r->getValOperand()); x.sub = r->getOperation(); x.w = scalarW(T); break; }
  case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(&I); x.op = I_CMPXCHG; x.a = val(r->getPointerOperand()); x.b = val(r->getCompareOperand()); x.c = val(r->getNewValOperand()); x.w = scalarW(r->getCompareOperand()->getType()); break; }
  case Instruction::Fence: x.op = I_NOP; break;
  case Instruction::LandingPad: case Instruction::Resume: x.op = I_UNREACHABLE; break;
  default: break;
  }
  if (x.op == I_UNSUP) x.imm = opc;
  f->code.push_back(x);
}

void decodeFunc(Func *f) {
  if (f->decoded || f->decl) return;
  f->decoded = true;
  Dec d; d.f = f; d.F = (Function *)f->llvm;
  d.run();
}
