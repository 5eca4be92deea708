// Symbolic executor for LLVM IR produced from the real Rust code.
// Explores every feasible path of a harness function; branch feasibility is
// decided by Z3.  See /verif/DESIGN.md.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sstream>
#include <set>
#include <iostream>
#include <memory>
#include <deque>
using namespace llvm;
using std::vector; using std::string;

struct Val { u64 lo; Expr *e; };
static inline Expr *X(Val v, int w) { return v.e ? v.e : K(v.lo, w); }
static inline Val V(Expr *e) { if (e->op == CONST && e->width <= 64) return {(u64)e->cv, nullptr}; return {0, e}; }
static inline Val VK(u128 v, int w) { if (w <= 64) return {(u64)(v & maskw(w)), nullptr}; return {0, K(v, w)}; }

// ------------------------------------------------------------------ memory
enum { OK_RO, OK_GLOBAL, OK_HEAP, OK_STACK };
struct Obj { u32 rc, size; u8 kind; u8 *d; Expr **s; };
static u64 liveObjs = 0;
static Obj *newObj(u32 size, u8 kind) { Obj *o = (Obj *)malloc(sizeof(Obj)); o->rc = 1; o->size = size; o->kind = kind; o->d = (u8 *)calloc(size ? size : 1, 1); o->s = nullptr; liveObjs++; return o; }
static void relObj(Obj *o) { if (--o->rc == 0) { free(o->d); free(o->s); free(o); liveObjs--; } }
static const int CH = 64;
struct Chunk { u32 rc; Obj *o[CH]; };
struct Mem {
  vector<Chunk *> top; u32 next = 1;
  Mem() {}
  Mem(const Mem &m) : top(m.top), next(m.next) { for (Chunk *c : top) if (c) c->rc++; }
  Mem &operator=(const Mem &m) = delete;
  ~Mem() { for (Chunk *c : top) if (c) relChunk(c); }
  static void relChunk(Chunk *c) { if (--c->rc == 0) { for (Obj *o : c->o) if (o) relObj(o); delete c; } }
  Obj *get(u32 id) const { u32 k = id / CH; if (k >= top.size() || !top[k]) return nullptr; return top[k]->o[id % CH]; }
  Chunk *wchunk(u32 k) {
    if (k >= top.size()) top.resize(k + 1, nullptr);
    Chunk *c = top[k];
    if (!c) { c = new Chunk(); memset(c, 0, sizeof *c); c->rc = 1; top[k] = c; }
    else if (c->rc > 1) { Chunk *n = new Chunk(); n->rc = 1; for (int i = 0; i < CH; i++) { n->o[i] = c->o[i]; if (n->o[i]) n->o[i]->rc++; } c->rc--; top[k] = c = n; }
    return c;
  }
  u32 add(Obj *o) { u32 id = next++; wchunk(id / CH)->o[id % CH] = o; return id; }
  Obj *wr(u32 id) {
    Chunk *c = wchunk(id / CH); Obj *o = c->o[id % CH]; if (!o) return nullptr;
    if (o->rc > 1) { Obj *n = newObj(o->size, o->kind); memcpy(n->d, o->d, o->size); if (o->s) { n->s = (Expr **)malloc(sizeof(Expr *) * (o->size ? o->size : 1)); memcpy(n->s, o->s, sizeof(Expr *) * o->size); } o->rc--; c->o[id % CH] = o = n; }
    return o;
  }
  void del(u32 id) { u32 k = id / CH; Chunk *c = wchunk(k); relObj(c->o[id % CH]); c->o[id % CH] = nullptr; for (Obj *o : c->o) if (o) return; if ((id / CH) != next / CH) { delete c; top[k] = nullptr; } }
};

// ---------------------------------------------------------------- compiled IR
enum IOp : u8 { I_BIN, I_ICMP, I_FBIN, I_FCMP, I_FNEG, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_FCVT, I_SELECT, I_GEP, I_LOAD, I_STORE, I_ALLOCA, I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACH, I_CALL, I_EXTELT, I_INSELT, I_SHUF, I_CMPXCHG, I_RMW, I_INTRIN, I_BITCAST, I_NOP, I_DEAD };
struct Edge { int pc; vector<std::array<int, 3>> copies; int block; }; // dst, src, n
struct FnInfo;
struct Leaf { u32 off; u16 w; };
struct Ins {
  u8 op, sub = 0; u16 w = 0, w2 = 0; int n = 1; int dst = -1, a = -1, b = -1, c = -1;
  vector<int> args; vector<u16> argw; vector<int> argn;
  FnInfo *fn = nullptr; int intr = 0; bool indirect = false;
  vector<Leaf> leaves; u64 k = 0; vector<std::pair<int, i64>> gep; vector<int> gepw;
  vector<Edge> edges; vector<u64> cases; Instruction *I = nullptr; int block = 0;
};
enum Builtin { B_NONE, B_SYM_BYTES, B_SYM_FAIL, B_SYM_OBS, B_SYM_ASSUME, B_SYM_REACH, B_SYM_PARAM, B_SYM_CONC, B_PANIC, B_ABORT, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMALIGN, B_MEMCMP, B_BCMP, B_STRLEN, B_RANDKEYS, B_HASH, B_GETENV, B_STRERROR, B_WRITE, B_SYSCALL, B_UNSUP, B_RET0 };
struct FnInfo { Function *F; string name; bool compiled = false; int nslots = 0; vector<Ins> code; vector<int> argSlot, argN; vector<u16> argW; Builtin bi = B_NONE; u32 fid = 0; bool lib = false; int nblocks = 0; vector<u8> visited; u64 calls = 0; u64 forks = 0; u64 steps = 0; };

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static vector<Val> pool;            // constants
static std::unordered_map<Function *, FnInfo *> fns; static vector<FnInfo *> fnById;
static std::unordered_map<const GlobalVariable *, u32> globId;
static const u32 FUNC_BASE = 0x40000000u;
static Mem *baseMem;

static int tyWidth(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32;
  string s; raw_string_ostream o(s); t->print(o); fatal("unsupported scalar type " + o.str());
}
static void flatten(Type *t, u32 off, vector<Leaf> &out) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatten(st->getElementType(i), off + (u32)sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { u32 sz = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) flatten(at->getElementType(), off + i * sz, out); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) { u32 bits = DL->getTypeSizeInBits(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) { if (bits % 8) out.push_back({0xffffffff, (u16)bits}); else flatten(vt->getElementType(), off + i * (bits / 8), out); } }
  else if (t->isVoidTy()) {}
  else out.push_back({off, (u16)tyWidth(t)});
}
static vector<Leaf> leavesOf(Type *t) { vector<Leaf> r; flatten(t, 0, r); return r; }
static FnInfo *fnInfo(Function *F);

// constants -> slots
static void constVals(Constant *c, vector<Val> &out);
static vector<u64> relOff; // what the entries of relative lookup tables stand for
static u64 constAddr(GlobalVariable *g) { if (g->hasExternalWeakLinkage() && (g->getName() == "getrandom" || g->getName() == "statx")) return 0; auto it = globId.find(g); if (it == globId.end()) fatal("global without storage: " + g->getName().str()); return (u64)it->second << 32; }
static Val constScalar(Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { int w = ci->getBitWidth(); if (w <= 64) return {ci->getZExtValue(), nullptr}; APInt a = ci->getValue(); return VK(((u128)a.extractBitsAsZExtValue(w - 64, 64) << 64) | a.extractBitsAsZExtValue(64, 0), w); }
  if (auto *cf = dyn_cast<ConstantFP>(c)) return {cf->getValueAPF().bitcastToAPInt().getZExtValue(), nullptr};
  if (isa<ConstantPointerNull>(c)) return {0, nullptr};
  if (isa<UndefValue>(c)) { int w = tyWidth(c->getType()); return VK(0, w); }
  if (isa<ConstantAggregateZero>(c)) return VK(0, tyWidth(c->getType()));
  if (auto *f = dyn_cast<Function>(c)) return {(u64)(FUNC_BASE + fnInfo(f)->fid) << 32, nullptr};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return {constAddr(g), nullptr};
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    int w = tyWidth(ce->getType());
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("const gep"); return {constScalar(cast<Constant>(ce->getOperand(0))).lo + off.getZExtValue(), nullptr}; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val v = constScalar(ce->getOperand(0)); return VK(v.lo, w); }
    case Instruction::Trunc: {
      u64 v = constScalar(ce->getOperand(0)).lo;
      // An entry of a relative table: objects are further apart than 32 bits, so it is a number in `relOff`.
      if (w == 32 && (u64)(int64_t)(int32_t)v != v) { auto it = std::find(relOff.begin(), relOff.end(), v); if (it == relOff.end()) it = relOff.insert(it, v); return VK(0x40000000 + (it - relOff.begin()), w); }
      return VK(v, w); }
    case Instruction::Sub: return VK(constScalar(ce->getOperand(0)).lo - constScalar(ce->getOperand(1)).lo, w);
    case Instruction::Add: return VK(constScalar(ce->getOperand(0)).lo + constScalar(ce->getOperand(1)).lo, w);
    case Instruction::ICmp: { u64 a = constScalar(ce->getOperand(0)).lo, b = constScalar(ce->getOperand(1)).lo; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return {a == b, nullptr}; case CmpInst::ICMP_NE: return {a != b, nullptr}; case CmpInst::ICMP_ULT: return {a < b, nullptr}; case CmpInst::ICMP_UGT: return {a > b, nullptr}; default: break; } }
    }
  }
  string s; raw_string_ostream o(s); c->print(o); fatal("unsupported constant " + o.str().substr(0, 300));
}
static void constVals(Constant *c, vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (auto &l : leavesOf(t)) out.push_back(VK(0, l.w)); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) constVals(c->getAggregateElement(i), out);
  } else out.push_back(constScalar(c));
}
static void initBytes(Constant *c, u8 *d, u64 off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(d + off, r.data(), r.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), d, off + sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), d, off + i * sz); return; }
  if (auto *cv = dyn_cast<ConstantVector>(c)) { u64 sz = DL->getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) initBytes(cv->getOperand(i), d, off + i * sz); return; }
  Val v = constScalar(c); int w = tyWidth(t); u128 x = v.e ? v.e->cv : v.lo; for (int i = 0; i < (w + 7) / 8; i++) d[off + i] = (u8)(x >> (8 * i));
}

static bool has(const string &s, const char *t) { return s.find(t) != string::npos; }
static Builtin builtinFor(const string &n, bool decl) {
  if (n == "__symex_bytes") return B_SYM_BYTES; if (n == "__symex_fail") return B_SYM_FAIL; if (n == "__symex_observe") return B_SYM_OBS;
  if (n == "__symex_assume") return B_SYM_ASSUME; if (n == "__symex_reach") return B_SYM_REACH; if (n == "__symex_param") return B_SYM_PARAM; if (n == "__symex_conc") return B_SYM_CONC;
  if (has(n, "9panicking9panic_fmt17h") || n == "rust_begin_unwind" || has(n, "9panicking18panic_nounwind_fmt") || has(n, "rust_panic_with_hook") || has(n, "9panicking14panic_nounwind17h") || has(n, "9panicking19panic_cannot_unwind") || has(n, "9panicking16panic_in_cleanup") || has(n, "11begin_panic") || has(n, "rust_panic_without_hook")) return B_PANIC;
  if (has(n, "18handle_alloc_error") || n == "abort" || n == "__rust_alloc_error_handler" || has(n, "14abort_internal") || has(n, "3sys3pal4unix14abort_internal") || n == "__rust_start_panic" || has(n, "7process5abort")) return B_ABORT;
  if (n == "malloc") return B_MALLOC; if (n == "calloc") return B_CALLOC; if (n == "realloc") return B_REALLOC; if (n == "free") return B_FREE;
  if (n == "posix_memalign") return B_MEMALIGN; if (n == "memcmp") return B_MEMCMP; if (n == "bcmp") return B_BCMP; if (n == "strlen") return B_STRLEN;
  if (has(n, "thread_local_dtor13register_dtor17h")) return B_RET0; // destructors of thread locals are not run
  if (has(n, "hashmap_random_keys")) return B_RANDKEYS; if (n == "getenv") return B_GETENV; if (n == "__xpg_strerror_r") return B_STRERROR; if (n == "write") return B_WRITE; if (n == "syscall") return B_SYSCALL;
  if (decl) return B_UNSUP;
  return B_NONE;
}
static FnInfo *fnInfo(Function *F) {
  auto it = fns.find(F); if (it != fns.end()) return it->second;
  FnInfo *f = new FnInfo(); f->F = F; f->name = F->getName().str(); f->fid = fnById.size(); fnById.push_back(f); fns[F] = f;
  f->bi = builtinFor(f->name, F->isDeclaration()); f->lib = has(f->name, "4upon") ;
  return f;
}
static string demangle(const string &s) { // legacy rust mangling
  string in = s; size_t p = in.rfind("17h"); if (in.compare(0, 3, "_ZN") || p == string::npos) return s;
  string out; size_t i = 3; while (i < in.size() && isdigit(in[i])) { size_t n = 0; while (isdigit(in[i])) n = n * 10 + (in[i++] - '0'); string part = in.substr(i, n); i += n; if (part.size() == 17 && part[0] == 'h') break; if (!out.empty()) out += "::"; out += part; }
  const char *rep[][2] = {{"$LT$", "<"}, {"$GT$", ">"}, {"$RF$", "&"}, {"$u20$", " "}, {"$C$", ","}, {"$u7b$", "{"}, {"$u7d$", "}"}, {"..", "::"}, {"$LP$", "("}, {"$RP$", ")"}, {"$BP$", "*"}, {"$u5b$", "["}, {"$u5d$", "]"}, {"$u3b$", ";"}, {"$u27$", "'"}, {"$u21$", "!"}, {"$u3d$", "="}};
  for (auto &r : rep) { size_t q; while ((q = out.find(r[0])) != string::npos) out.replace(q, strlen(r[0]), r[1]); }
  return out;
}

enum Intr { N_MEMCPY = 1, N_MEMSET, N_UMAX, N_UMIN, N_SMAX, N_SMIN, N_ABS, N_CTLZ, N_CTTZ, N_CTPOP, N_BSWAP, N_BITREV, N_FSHL, N_FSHR, N_UADDO, N_USUBO, N_UMULO, N_SADDO, N_SSUBO, N_SMULO, N_UADDS, N_USUBS, N_SADDS, N_SSUBS, N_RADD, N_ROR, N_RAND, N_RXOR, N_RUMAX, N_RUMIN, N_LOADREL, N_TRAP, N_ISCONST, N_FABS, N_FLOOR, N_CEIL, N_FTRUNC, N_RINT, N_ROUND, N_FMIN, N_FMAX, N_COPYSIGN, N_FTOSIS, N_FTOUIS, N_EXPECT, N_UNSUP };

struct Compiler {
  FnInfo *f; std::unordered_map<Value *, int> slot; std::unordered_map<Value *, int> constSlot; std::unordered_map<BasicBlock *, int> bbStart, bbIdx;
  vector<std::pair<int, int>> fix; // ins, edge -> filled later
  int cnt(Type *t) { return (int)leavesOf(t).size(); }
  int ref(Value *v) {
    auto it = slot.find(v); if (it != slot.end()) return it->second;
    if (auto *c = dyn_cast<Constant>(v)) { auto jt = constSlot.find(v); if (jt != constSlot.end()) return jt->second; int base = (int)pool.size(); vector<Val> tmp; constVals(c, tmp); pool.insert(pool.end(), tmp.begin(), tmp.end()); int r = ~base; constSlot[v] = r; return r; }
    if (isa<MetadataAsValue>(v)) return ~0;
    fatal("unknown value");
  }
  int idxOffset(Type *t, ArrayRef<unsigned> ix) { int o = 0; for (unsigned i : ix) { unsigned n = 0; if (t->isStructTy()) { for (n = 0; n < i; n++) o += cnt(t->getStructElementType(n)); t = t->getStructElementType(i); } else { o += i * cnt(t->getArrayElementType()); t = t->getArrayElementType(); } } return o; }
  Edge edge(BasicBlock *from, BasicBlock *to) {
    Edge e; e.pc = -1; e.block = bbIdx[to];
    for (auto &ph : to->phis()) { Value *in = ph.getIncomingValueForBlock(from); int n = cnt(ph.getType()); int d = slot[&ph], s = ref(in); if (d != s && n) { if (isa<UndefValue>(in)) continue; e.copies.push_back({d, s, n}); } }
    return e;
  }
  int intrinId(StringRef nm) {
    struct { const char *p; int id; } t[] = {{"llvm.memcpy", N_MEMCPY}, {"llvm.memmove", N_MEMCPY}, {"llvm.memset", N_MEMSET}, {"llvm.umax", N_UMAX}, {"llvm.umin", N_UMIN}, {"llvm.smax", N_SMAX}, {"llvm.smin", N_SMIN}, {"llvm.abs", N_ABS}, {"llvm.ctlz", N_CTLZ}, {"llvm.cttz", N_CTTZ}, {"llvm.ctpop", N_CTPOP}, {"llvm.bswap", N_BSWAP}, {"llvm.bitreverse", N_BITREV}, {"llvm.fshl", N_FSHL}, {"llvm.fshr", N_FSHR}, {"llvm.uadd.with", N_UADDO}, {"llvm.usub.with", N_USUBO}, {"llvm.umul.with", N_UMULO}, {"llvm.sadd.with", N_SADDO}, {"llvm.ssub.with", N_SSUBO}, {"llvm.smul.with", N_SMULO}, {"llvm.uadd.sat", N_UADDS}, {"llvm.usub.sat", N_USUBS}, {"llvm.sadd.sat", N_SADDS}, {"llvm.ssub.sat", N_SSUBS}, {"llvm.vector.reduce.add", N_RADD}, {"llvm.vector.reduce.or", N_ROR}, {"llvm.vector.reduce.and", N_RAND}, {"llvm.vector.reduce.xor", N_RXOR}, {"llvm.vector.reduce.umax", N_RUMAX}, {"llvm.vector.reduce.umin", N_RUMIN}, {"llvm.load.relative", N_LOADREL}, {"llvm.trap", N_TRAP}, {"llvm.is.constant", N_ISCONST}, {"llvm.fabs", N_FABS}, {"llvm.floor", N_FLOOR}, {"llvm.ceil", N_CEIL}, {"llvm.trunc", N_FTRUNC}, {"llvm.rint", N_RINT}, {"llvm.roundeven", N_RINT}, {"llvm.round", N_ROUND}, {"llvm.minnum", N_FMIN}, {"llvm.maxnum", N_FMAX}, {"llvm.nearbyint", N_RINT}, {"llvm.copysign", N_COPYSIGN}, {"llvm.fptosi.sat", N_FTOSIS}, {"llvm.fptoui.sat", N_FTOUIS}, {"llvm.expect", N_EXPECT}, {"llvm.threadlocal.address", N_EXPECT}, {"llvm.launder.invariant", N_EXPECT}, {"llvm.ssa.copy", N_EXPECT}};
    for (auto &x : t) if (nm.starts_with(x.p)) return x.id;
    for (const char *p : {"llvm.assume", "llvm.lifetime", "llvm.experimental.noalias", "llvm.dbg", "llvm.x86.sse2.pause", "llvm.sideeffect", "llvm.invariant", "llvm.prefetch", "llvm.donothing"}) if (nm.starts_with(p)) return 0;
    return N_UNSUP;
  }
  static int binop(unsigned op) { switch (op) { case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM; case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; case Instruction::FRem: return FREM; } return -1; }
  void compile(FnInfo *fi) {
    f = fi; f->compiled = true; Function *F = f->F; int ns = 0;
    for (auto &a : F->args()) { auto lv = leavesOf(a.getType()); f->argSlot.push_back(ns); f->argN.push_back(lv.size()); f->argW.push_back(lv.empty() ? 0 : lv[0].w); slot[&a] = ns; ns += lv.size(); }
    int bi = 0;
    for (auto &bb : *F) { bbIdx[&bb] = bi++; for (auto &I : bb) { int n = cnt(I.getType()); if (n) { slot[&I] = ns; ns += n; } } }
    f->nslots = ns; f->nblocks = bi; f->visited.assign(bi, 0);
    for (auto &bb : *F) { bbStart[&bb] = (int)f->code.size(); for (auto &I : bb) one(I); }
    for (auto &ins : f->code) for (auto &e : ins.edges) { BasicBlock *t = nullptr; (void)t; e.pc = startOf[e.block]; }
  }
  std::unordered_map<int, int> startOf;
  void one(Instruction &I) {
    BasicBlock *bb = I.getParent(); int bidx = bbIdx[bb]; if (!startOf.count(bidx)) startOf[bidx] = (int)f->code.size();
    if (isa<PHINode>(I)) return;
    Ins s; s.I = &I; s.block = bidx; s.dst = slot.count(&I) ? slot[&I] : -1;
    Type *T = I.getType(); auto sw = [&](Type *t) { return tyWidth(t->getScalarType()); };
    auto R = [&](unsigned k) { return ref(I.getOperand(k)); };
    switch (I.getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      s.op = I_BIN; s.sub = binop(I.getOpcode()); s.w = sw(T); s.n = cnt(T); s.a = R(0); s.b = R(1); break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      s.op = I_FBIN; s.sub = binop(I.getOpcode()); s.w = sw(T); s.n = cnt(T); s.a = R(0); s.b = R(1); break;
    case Instruction::FNeg: s.op = I_FNEG; s.w = sw(T); s.n = cnt(T); s.a = R(0); break;
    case Instruction::ICmp: s.op = I_ICMP; s.sub = cast<ICmpInst>(I).getPredicate(); s.w = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); s.b = R(1); break;
    case Instruction::FCmp: s.op = I_FCMP; s.sub = cast<FCmpInst>(I).getPredicate(); s.w = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); s.b = R(1); break;
    case Instruction::ZExt: s.op = I_ZEXT; s.w = sw(T); s.w2 = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); break;
    case Instruction::SExt: s.op = I_SEXT; s.w = sw(T); s.w2 = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); break;
    case Instruction::Trunc: s.op = I_TRUNC; s.w = sw(T); s.w2 = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { int w = sw(T), w2 = sw(I.getOperand(0)->getType()); s.op = w == w2 ? I_COPY : w < w2 ? I_TRUNC : I_ZEXT; s.w = w; s.w2 = w2; s.n = cnt(T); s.a = R(0); break; }
    case Instruction::BitCast: { Type *S = I.getOperand(0)->getType(); if (cnt(S) == cnt(T)) { s.op = I_COPY; s.n = cnt(T); s.a = R(0); } else { s.op = I_BITCAST; s.w = sw(T); s.n = cnt(T); s.w2 = sw(S); s.k = cnt(S); s.a = R(0); } break; }
    case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
      int o = I.getOpcode(); s.op = I_FCVT; s.sub = o == Instruction::FPToSI ? FTOSI : o == Instruction::FPToUI ? FTOUI : o == Instruction::SIToFP ? SITOF : o == Instruction::UIToFP ? UITOF : FTOF; s.w = sw(T); s.w2 = sw(I.getOperand(0)->getType()); s.n = cnt(T); s.a = R(0); break; }
    case Instruction::Freeze: s.op = I_COPY; s.n = cnt(T); s.a = R(0); break;
    case Instruction::Select: { s.op = I_SELECT; s.n = cnt(T); s.a = R(0); s.b = R(1); s.c = R(2); s.leaves = leavesOf(T); s.k = I.getOperand(0)->getType()->isVectorTy(); break; }
    case Instruction::ExtractValue: { auto &e = cast<ExtractValueInst>(I); int o = idxOffset(e.getAggregateOperand()->getType(), e.getIndices()); s.op = I_COPY; s.n = cnt(T); int r = R(0); s.a = r >= 0 ? r + o : ~((~r) + o); break; }
    case Instruction::InsertValue: { auto &e = cast<InsertValueInst>(I); int o = idxOffset(T, e.getIndices()); s.op = I_COPY; s.n = cnt(T); s.a = R(0); f->code.push_back(s); Ins s2; s2.I = &I; s2.block = bidx; s2.op = I_COPY; s2.dst = s.dst + o; s2.n = cnt(I.getOperand(1)->getType()); s2.a = R(1); f->code.push_back(s2); return; }
    case Instruction::ExtractElement: { if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(1))) { s.op = I_COPY; s.n = 1; int r = R(0), o = ci->getZExtValue(); s.a = r >= 0 ? r + o : ~((~r) + o); } else { s.op = I_EXTELT; s.a = R(0); s.b = R(1); s.n = cnt(I.getOperand(0)->getType()); } break; }
    case Instruction::InsertElement: { if (auto *ci = dyn_cast<ConstantInt>(I.getOperand(2))) { s.op = I_COPY; s.n = cnt(T); s.a = R(0); f->code.push_back(s); Ins s2; s2.I = &I; s2.block = bidx; s2.op = I_COPY; s2.dst = s.dst + ci->getZExtValue(); s2.n = 1; s2.a = R(1); f->code.push_back(s2); return; } fatal("dynamic insertelement"); }
    case Instruction::ShuffleVector: { auto &sv = cast<ShuffleVectorInst>(I); s.op = I_SHUF; s.a = R(0); s.b = R(1); s.k = cnt(I.getOperand(0)->getType()); for (int m : sv.getShuffleMask()) s.args.push_back(m); s.n = s.args.size(); break; }
    case Instruction::GetElementPtr: {
      s.op = I_GEP; s.a = R(0); if (T->isVectorTy()) fatal("vector gep"); u64 off = 0;
      for (gep_type_iterator it = gep_type_begin(I), e = gep_type_end(I); it != e; ++it) {
        Value *ix = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else { i64 sz = it.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sz; else { s.gep.push_back({ref(ix), sz}); s.gepw.push_back(tyWidth(ix->getType())); } }
      }
      s.k = off; break; }
    case Instruction::Load: s.op = I_LOAD; s.a = R(0); s.leaves = leavesOf(T); s.n = s.leaves.size(); s.w = s.n ? s.leaves[0].w : 0; break;
    case Instruction::Store: { Type *VT = I.getOperand(0)->getType(); s.op = I_STORE; s.a = R(0); s.b = R(1); s.leaves = leavesOf(VT); s.n = s.leaves.size(); s.w = s.n ? s.leaves[0].w : 0; break; }
    case Instruction::Alloca: { auto &al = cast<AllocaInst>(I); s.op = I_ALLOCA; s.k = DL->getTypeAllocSize(al.getAllocatedType()); s.a = ref(al.getArraySize()); break; }
    case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { s.op = I_BR; s.edges.push_back(edge(bb, b.getSuccessor(0))); } else { s.op = I_CBR; s.a = ref(b.getCondition()); s.edges.push_back(edge(bb, b.getSuccessor(0))); s.edges.push_back(edge(bb, b.getSuccessor(1))); } break; }
    case Instruction::Switch: { auto &sw2 = cast<SwitchInst>(I); s.op = I_SWITCH; s.a = ref(sw2.getCondition()); s.w = tyWidth(sw2.getCondition()->getType()); if (s.w > 64) fatal("wide switch"); s.edges.push_back(edge(bb, sw2.getDefaultDest())); for (auto &c : sw2.cases()) { s.cases.push_back(c.getCaseValue()->getZExtValue()); s.edges.push_back(edge(bb, c.getCaseSuccessor())); } break; }
    case Instruction::Ret: { auto &r = cast<ReturnInst>(I); s.op = I_RET; if (r.getReturnValue()) { s.a = R(0); s.n = cnt(r.getReturnValue()->getType()); } else s.n = 0; break; }
    case Instruction::Unreachable: s.op = I_UNREACH; break;
    case Instruction::Fence: s.op = I_NOP; break;
    case Instruction::LandingPad: case Instruction::Resume: s.op = I_DEAD; break;
    case Instruction::AtomicRMW: { auto &r = cast<AtomicRMWInst>(I); s.op = I_RMW; s.sub = r.getOperation(); s.a = R(0); s.b = R(1); s.w = tyWidth(T); s.leaves = leavesOf(T); break; }
    case Instruction::AtomicCmpXchg: { s.op = I_CMPXCHG; s.a = R(0); s.b = R(1); s.c = R(2); s.w = tyWidth(I.getOperand(1)->getType()); break; }
    case Instruction::Call: case Instruction::Invoke: {
      auto &cb = cast<CallBase>(I);
      if (cb.isInlineAsm()) { s.op = I_NOP; if (s.dst >= 0) { s.op = I_COPY; s.n = cnt(T); s.a = ref(cb.getArgOperand(0)); } finishCall(I, s); return; }
      Function *cf = cb.getCalledFunction();
      if (cf && cf->isIntrinsic()) {
        int id = intrinId(cf->getName()); if (!id) { if (isa<InvokeInst>(I)) { s.op = I_NOP; finishCall(I, s); } return; }
        s.op = I_INTRIN; s.intr = id;
        for (auto &a : cb.args()) { s.args.push_back(ref(a.get())); auto lv = leavesOf(a->getType()); s.argn.push_back(lv.size()); s.argw.push_back(lv.empty() ? 0 : lv[0].w); }
        s.n = s.dst >= 0 ? cnt(T) : 0; s.w = s.dst >= 0 ? leavesOf(T)[0].w : 0; finishCall(I, s); return;
      }
      s.op = I_CALL;
      Value *callee = cb.getCalledOperand()->stripPointerCasts(); if (auto *ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
      if (auto *ff = dyn_cast<Function>(callee)) s.fn = fnInfo(ff); else { s.indirect = true; s.a = ref(callee); }
      for (auto &a : cb.args()) { if (a->getType()->isMetadataTy()) continue; s.args.push_back(ref(a.get())); auto lv = leavesOf(a->getType()); s.argn.push_back(lv.size()); s.argw.push_back(lv.empty() ? 0 : lv[0].w); if (cb.isByValArgument(s.args.size() - 1)) fatal("byval"); }
      s.n = s.dst >= 0 ? cnt(T) : 0; s.w = s.n ? leavesOf(T)[0].w : 0; finishCall(I, s); return; }
    default: { string str; raw_string_ostream o(str); I.print(o); fatal("unsupported instruction " + o.str()); }
    }
    f->code.push_back(s);
  }
  void finishCall(Instruction &I, Ins &s) {
    f->code.push_back(s);
    if (auto *inv = dyn_cast<InvokeInst>(&I)) { Ins b; b.I = &I; b.block = s.block; b.op = I_BR; b.edges.push_back(edge(I.getParent(), inv->getNormalDest())); f->code.push_back(b); }
  }
};

// ---------------------------------------------------------------- state
struct Frame { FnInfo *f; int pc; int base; int ret; u32 allocaBase; };
struct ObsItem { vector<Val> bytes; };
struct State {
  vector<Val> stk; vector<Frame> fr; Mem mem; vector<u32> allocas;
  vector<Mask> dom; u8 model[MAXV]; vector<Expr *> multi; VarSet mv; vector<std::pair<Expr *, u64>> conc; vector<std::shared_ptr<ObsItem>> obs; u64 reach = 0; u64 steps = 0; int nv = 0; u32 depth = 0;
  State(const Mem &m) : mem(m) { memset(model, 0, sizeof model); }
};
enum Outcome { O_OK, O_PANIC, O_ABORT, O_FAIL, O_HANG, O_STACK, O_PRUNED };
static const char *outName[] = {"ok", "panic", "abort", "fail", "hang", "stack", "pruned"};

struct Config { u64 maxSteps = 200000000; u32 maxDepth = 6000; u64 maxPaths = ~0ull; double maxTime = 1e9; u64 sample = 40; u64 maxViol = 60; bool prof = false; bool verbose = false; } cfg;
static vector<u64> params;
struct Viol { string kind, detail; u64 code; vector<u8> bytes; };
struct Sample { vector<u8> bytes; string outcome; u64 obs; u64 obsLen; };
struct Result { u64 paths = 0, forks = 0, steps = 0, pruned = 0; std::map<string, u64> outcomes; vector<Viol> viols; u64 nviol = 0; vector<Sample> samples; u64 reach = 0; u64 maxSym = 0; bool complete = true; string note; };
static Result res;
static std::deque<State *> work;
struct PathEnd { Outcome o; u64 code; string detail; };
static u64 rngS = 88172645463325252ull; static u64 rng() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }

struct MKey { vector<u32> k; bool operator==(const MKey &o) const { return k == o.k; } };
struct MKeyH { size_t operator()(const MKey &m) const { u64 x = 1469598103934665603ull; for (u32 v : m.k) { x ^= v; x *= 0xff51afd7ed558ccdull; x ^= x >> 29; } return x; } };
struct MVal { bool sat; vector<std::pair<u8, u8>> model; };
static std::unordered_map<MKey, MVal, MKeyH> mcache;

static void flattenAnd(Expr *c, vector<Expr *> &out) {
  if (c->width != 1) fatal("cond width");
  if (c->op == AND) { flattenAnd(c->a, out); flattenAnd(c->b, out); return; }
  if (isNot(c) && c->a->op == OR) { flattenAnd(mkNot(c->a->a), out); flattenAnd(mkNot(c->a->b), out); return; }
  out.push_back(c);
}
// rewrite under facts of the state: bytes fixed to one value and expressions already enumerated
static u32 rwEpoch = 0;
static Expr *rebuild(Expr *e, Expr *a, Expr *b, Expr *c) {
  switch (e->op) {
  case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case AND: case OR: case XOR: case SHL: case LSHR: case ASHR: return mkBin(e->op, a, b);
  case EQ: return mkEq(a, b); case ULT: return mkUlt(a, b); case ULE: return mkUle(a, b); case SLT: return mkSlt(a, b); case SLE: return mkSle(a, b);
  case ITE: return mkIte(a, b, c); case CONCAT: return mkConcat(a, b); case EXTRACT: return mkExtract(a, (int)e->cv, e->width); case ZEXT: return mkZext(a, e->width); case SEXT: return mkSext(a, e->width);
  case TABLE: return isK(a) ? K(((Tab *)(uintptr_t)(u64)e->cv)->v[(u8)a->cv], e->width) : a->op == VAR ? mkTable(a, ((Tab *)(uintptr_t)(u64)e->cv)->v, e->width) : mkFold(e->op, e->width, a, b, c, e->cv);
  case READ: {
    Expr *r = mkFold(READ, e->width, a, nullptr, nullptr, e->cv);
    if (r->op != READ || r->sv < 0 || e->width > 64) return r;
    u64 *t = vals256(r); Expr *ve = P.get(VAR, 8, nullptr, nullptr, nullptr, r->sv); return mkTable(ve, t, e->width); }
  default: return mkFold(e->op, e->width, a, b, c, e->cv);
  }
}
static bool rwConc = true;
static Expr *rwRec(State &S, Expr *e) {
  if (e->op == CONST) return e;
  if (e->op == VAR) { int v = (int)e->cv; const Mask &m = S.dom[v]; return m.count() == 1 ? K(m.first(), 8) : e; }
  if (e->ep2 == rwEpoch) return e->rw;
  if (rwConc) for (auto &p : S.conc) if (p.first == e) { e->ep2 = rwEpoch; return e->rw = K(p.second, e->width); }
  Expr *a = e->a ? rwRec(S, e->a) : nullptr, *b = e->b ? rwRec(S, e->b) : nullptr, *c = e->c ? rwRec(S, e->c) : nullptr;
  Expr *r = (a == e->a && b == e->b && c == e->c) ? e : rebuild(e, a, b, c);
  e->ep2 = rwEpoch; return e->rw = r;
}
static Expr *rewrite(State &S, Expr *e) { rwEpoch++; return rwRec(S, e); }
// is (path condition && extra) satisfiable?  fills m (copy of S.model updated)
static bool satWith(State &S, Expr *cond, u8 *m) {
  memcpy(m, S.model, MAXV);
  vector<Expr *> ex; flattenAnd(cond, ex);
  for (Expr *e : ex) if (isK(e, 0)) return false;
  // slice
  VarSet vs; for (Expr *e : ex) vs.orr(e->vs);
  vector<Expr *> cs = ex; vector<char> used(S.multi.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < S.multi.size(); i++) if (!used[i] && S.multi[i]->vs.inter(vs)) { used[i] = 1; ch = true; vs.orr(S.multi[i]->vs); cs.push_back(S.multi[i]); } }
  MKey key; for (Expr *e : cs) key.k.push_back(e->id); std::sort(key.k.begin(), key.k.end());
  vector<std::pair<int, Mask>> doms;
  for (int i = 0; i < S.nv; i++) if (vs.has(i)) { doms.push_back({i, S.dom[i]}); key.k.push_back(0x80000000u + i); for (u64 w : S.dom[i].w) { key.k.push_back((u32)w); key.k.push_back((u32)(w >> 32)); } }
  auto it = mcache.find(key);
  if (it == mcache.end()) {
    MVal v; Z.multi++; u8 tmp[MAXV]; memcpy(tmp, S.model, MAXV); v.sat = Z.check(cs, doms, tmp);
    if (v.sat) for (auto &d : doms) v.model.push_back({(u8)d.first, tmp[d.first]});
    it = mcache.emplace(std::move(key), std::move(v)).first;
    if (it->second.sat) { memcpy(m, S.model, MAXV); for (auto &p : it->second.model) m[p.first] = p.second; for (Expr *e : cs) if (!evalModel(e, m)) { printE(stderr, e); fatal("solver model does not satisfy the constraint under the evaluator"); } }
  } else Z.cacheHits++;
  if (!it->second.sat) return false;
  memcpy(m, S.model, MAXV); for (auto &p : it->second.model) m[p.first] = p.second;
  return true;
}
static bool addAtoms(State &S, Expr *cond) { // true when a constrained byte became fixed
  vector<Expr *> ex; flattenAnd(cond, ex); bool fixed = false;
  for (Expr *e : ex) {
    if (isK(e)) { if (!e->cv) fatal("added false constraint"); continue; }
    if (e->sv >= 0) { Mask &d = S.dom[e->sv]; int before = d.count(); d = d & maskOf(e); if (d.empty()) fatal("empty domain"); if (before > 1 && d.count() == 1 && S.mv.has(e->sv)) fixed = true; }
    else { bool dup = false; for (Expr *x : S.multi) if (x == e) dup = true; if (!dup) { S.multi.push_back(e); S.mv.orr(e->vs); } }
  }
  return fixed;
}
static void addConstraint(State &S, Expr *cond) { // model must already satisfy cond
  if (cond->sv == -2) cond = rewrite(S, cond);
  bool fixed = addAtoms(S, cond);
  // Substitute fixed bytes in the constraints over several bytes.
  while (fixed) {
    fixed = false; vector<Expr *> old; old.swap(S.multi); S.mv = VarSet();
    rwConc = false; rwEpoch++; for (Expr *&e : old) e = rwRec(S, e); rwConc = true; rwEpoch++;
    for (Expr *e : old) if (addAtoms(S, e)) fixed = true;
    // a byte fixed by an atom may still occur in constraints processed before it
    if (!fixed) for (int i = 0; i < S.nv; i++) if (S.mv.has(i) && S.dom[i].count() == 1) fixed = true;
  }
}
// bit0: cond can be true, bit1: can be false. For the side not satisfied by S.model, alt holds a model.
static int decide(State &S, Expr *cond, bool &modelSide, u8 *alt) {
  modelSide = evalModel(cond, S.model);
  if (cond->sv == -2) { cond = rewrite(S, cond); if (isK(cond)) return cond->cv ? 1 : 2; }
  if (cond->sv >= 0) {
    int v = cond->sv; int r = Z.decideSingle(cond, S.dom[v]);
    if (r != 3) return r;
    if (!S.mv.has(v)) {
      Mask m = modelSide ? S.dom[v] & ~maskOf(cond) : S.dom[v] & maskOf(cond);
      memcpy(alt, S.model, MAXV); alt[v] = (u8)m.first(); return 3;
    }
  }
  bool other = satWith(S, modelSide ? mkNot(cond) : cond, alt);
  int r = (modelSide ? 1 : 2); if (other) r |= modelSide ? 2 : 1; return r;
}
static bool feasible(State &S, Expr *cond, u8 *m) { // like satWith but tries the model first
  if (isK(cond)) { memcpy(m, S.model, MAXV); return cond->cv; }
  bool ms; int r = decide(S, cond, ms, m); if (ms) memcpy(m, S.model, MAXV); return r & 1;
}
static State *cloneState(State &S) { res.forks++; S.fr.back().f->forks++; State *n = new State(S); n->depth++; return n; }

static u64 concretize(State &S, Expr *e) {
  if (e->op == CONST) return (u64)e->cv;
  for (auto &p : S.conc) if (p.first == e) return p.second;
  Expr *orig = e;
  if (e->sv == -2) { e = rewrite(S, e); if (isK(e)) { S.conc.push_back({orig, (u64)e->cv}); return (u64)e->cv; } }
  vector<std::pair<u64, std::array<u8, MAXV>>> vals; // value, model
  int w = e->width;
  if (e->sv >= 0 && !S.mv.has(e->sv)) {
    u64 *t = vals256(e); std::map<u64, int> seen; int v = e->sv;
    u64 mine = t[S.model[v]]; seen[mine] = 1; std::array<u8, MAXV> mm; memcpy(mm.data(), S.model, MAXV); vals.push_back({mine, mm});
    for (int i = 0; i < 256; i++) if (S.dom[v].has(i) && !seen.count(t[i])) { seen[t[i]] = 1; mm[v] = i; vals.push_back({t[i], mm}); }
    if (vals.size() == 1) { Expr *q = mkEq(e, K(mine, w)); if (!isK(q)) { int r = Z.decideSingle(q, S.dom[v]); if (r != 1) fatal("concretize mismatch"); } }
  } else {
    if (cfg.verbose) { fprintf(stderr, "concretize multi in %s: ", demangle(S.fr.back().f->name).c_str()); printE(stderr, e); fputc('\n', stderr); }
    u64 mine = (u64)evalModel(e, S.model); std::array<u8, MAXV> mm; memcpy(mm.data(), S.model, MAXV); vals.push_back({mine, mm});
    Expr *ne = mkNot(mkEq(e, K(mine, w)));
    while (true) { u8 m[MAXV]; if (!satWith(S, ne, m)) break; u64 v = (u64)evalModel(e, m); memcpy(mm.data(), m, MAXV); vals.push_back({v, mm}); ne = mkBin(AND, ne, mkNot(mkEq(e, K(v, w)))); if (vals.size() > 1024) { printE(stderr, e); fatal("too many values to enumerate in " + demangle(S.fr.back().f->name)); } }
  }
  for (size_t i = 1; i < vals.size(); i++) {
    State *n = cloneState(S); memcpy(n->model, vals[i].second.data(), MAXV); addConstraint(*n, mkEq(e, K(vals[i].first, w))); n->conc.push_back({e, vals[i].first}); if (orig != e) n->conc.push_back({orig, vals[i].first}); work.push_back(n);
  }
  if (vals.size() > 1) addConstraint(S, mkEq(e, K(vals[0].first, w)));
  S.conc.push_back({e, vals[0].first}); if (orig != e) S.conc.push_back({orig, vals[0].first});
  return vals[0].first;
}
static inline u64 C(State &S, Val v) { return v.e ? concretize(S, v.e) : v.lo; }

// ------------------------------------------------------------- memory access
[[noreturn]] static void memErr(State &S, const char *what, u64 addr, u64 n) {
  string bt; for (size_t i = S.fr.size(); i-- > 0 && bt.size() < 2000;) bt += "\n    " + demangle(S.fr[i].f->name);
  char b[128]; snprintf(b, 128, "%s at %llx size %llu", what, (unsigned long long)addr, (unsigned long long)n); fatal(string("memory access outside an object: ") + b + bt);
}
static inline Obj *objR(State &S, u64 addr, u64 n) { Obj *o = S.mem.get((u32)(addr >> 32)); if (!o || (u64)(u32)addr + n > o->size) memErr(S, "read", addr, n); return o; }
static inline Obj *objW(State &S, u64 addr, u64 n) { Obj *o = S.mem.get((u32)(addr >> 32)); if (!o || (u64)(u32)addr + n > o->size || o->kind == OK_RO) memErr(S, "write", addr, n); return S.mem.wr((u32)(addr >> 32)); }

static Val loadAt(Obj *o, u32 off, int w) {
  int nb = (w + 7) / 8;
  bool sym = false; if (o->s) for (int i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { if (w <= 64) { u64 x = 0; memcpy(&x, o->d + off, nb); if (w < 64) x &= (1ull << w) - 1; return {x, nullptr}; } u128 x = 0; memcpy(&x, o->d + off, nb); return VK(x, w); }
  Expr *r = nullptr;
  for (int i = nb - 1; i >= 0; i--) { Expr *b = o->s[off + i] ? o->s[off + i] : K(o->d[off + i], 8); r = r ? mkConcat(r, b) : b; }
  if (r->width > w) r = mkExtract(r, 0, w);
  return V(r);
}
static void storeAt(Obj *o, u32 off, int w, Val v) {
  int nb = (w + 7) / 8;
  if (!v.e) { memcpy(o->d + off, &v.lo, nb); if (o->s) for (int i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
  if (v.e->op == CONST) { u128 x = v.e->cv; memcpy(o->d + off, &x, nb); if (o->s) for (int i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
  if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
  Expr *e = v.e; if (w & 7) e = mkZext(e, nb * 8);
  for (int i = 0; i < nb; i++) { Expr *b = nb == 1 ? e : mkExtract(e, 8 * i, 8); if (b->op == CONST) { o->d[off + i] = (u8)b->cv; o->s[off + i] = nullptr; } else o->s[off + i] = b; }
}
static Val load(State &S, Val p, int w) {
  int nb = (w + 7) / 8;
  if (p.e) {
    Expr *e = p.e; bool done = false; u64 addr = 0;
    if (e->sv == -2) { e = rewrite(S, e); if (isK(e)) { done = true; addr = (u64)e->cv; } }
    if (!done) for (auto &q : S.conc) if (q.first == e) { addr = q.second; done = true; break; }
    if (!done && e->sv >= 0 && w <= 64 && !S.mv.has(e->sv)) {
      u64 *t = vals256(e); u64 out[256]; bool ok = true; const Mask &dm = S.dom[e->sv];
      for (int i = 0; i < 256 && ok; i++) { Obj *o = S.mem.get((u32)(t[i] >> 32)); bool in = o && (u64)(u32)t[i] + nb <= o->size;
        if (!in) { if (dm.has(i)) { ok = false; } out[i] = 0; continue; }
        Val v = loadAt(o, (u32)t[i], w); if (v.e) { if (dm.has(i)) ok = false; out[i] = 0; } else out[i] = v.lo; }
      if (ok) { Expr *ve = P.get(VAR, 8, nullptr, nullptr, nullptr, e->sv); Expr *te = mkTable(ve, out, w); if (w == 64 && te->op == TABLE) { std::set<u64> ds; for (int i = 0; i < 256; i++) if (dm.has(i)) ds.insert(out[i]); if (ds.size() <= 16) return {concretize(S, te), nullptr}; } return V(te); }
    } else if (!done && w <= 64) {
      u64 a0 = (u64)evalModel(e, S.model); Obj *o = S.mem.get((u32)(a0 >> 32));
      if (o && o->size <= 65536 && o->size >= (u32)nb) {
        bool sym = false; if (o->s) for (u32 i = 0; i < o->size; i++) if (o->s[i]) { sym = true; break; }
        if (!sym) {
          u64 base = a0 >> 32 << 32; Expr *off = mkBin(SUB, e, K(base, 64)); Expr *bad = mkUlt(K(o->size - nb, 64), off); u8 m[MAXV];
          if (!feasible(S, bad, m)) return V(mkFold(READ, w, off, nullptr, nullptr, (u128)(u64)(uintptr_t)internBlob(o->d, o->size)));
        }
      }
    }
    if (!done) addr = concretize(S, e);
    p = {addr, nullptr};
  }
  return loadAt(objR(S, p.lo, nb), (u32)p.lo, w);
}
static void copyMem(State &S, u64 dst, u64 src, u64 n) {
  if (!n) return;
  Obj *so = objR(S, src, n); so->rc++; // keep alive across COW of dst
  if (S.mem.get((u32)(dst >> 32)) == so && so->rc == 2) { so->rc--; Obj *o = objW(S, dst, n); u32 a = (u32)dst, b = (u32)src; memmove(o->d + a, o->d + b, n); if (o->s) memmove(o->s + a, o->s + b, n * sizeof(Expr *)); return; }
  Obj *o = objW(S, dst, n); u32 a = (u32)dst, b = (u32)src;
  memmove(o->d + a, so->d + b, n);
  if (so->s) { bool any = false; for (u64 i = 0; i < n; i++) if (so->s[b + i]) { any = true; break; } if (any && !o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *)); if (any) memmove(o->s + a, so->s + b, n * sizeof(Expr *)); else if (o->s) memset(o->s + a, 0, n * sizeof(Expr *)); }
  else if (o->s) memset(o->s + a, 0, n * sizeof(Expr *));
  relObj(so);
}
static vector<Val> readBytes(State &S, u64 p, u64 n) { vector<Val> r; if (!n) return r; Obj *o = objR(S, p, n); u32 a = (u32)p; for (u64 i = 0; i < n; i++) { if (o->s && o->s[a + i]) r.push_back({0, o->s[a + i]}); else r.push_back({o->d[a + i], nullptr}); } return r; }

// ------------------------------------------------------------- scalar ops
static inline Val bin(int op, Val a, Val b, int w) {
  if (!a.e && !b.e && w <= 64) {
    u64 m = w == 64 ? ~0ull : (1ull << w) - 1; u64 x = a.lo, y = b.lo;
    switch (op) {
    case ADD: return {(x + y) & m, nullptr}; case SUB: return {(x - y) & m, nullptr}; case MUL: return {(x * y) & m, nullptr};
    case AND: return {x & y, nullptr}; case OR: return {x | y, nullptr}; case XOR: return {x ^ y, nullptr};
    case SHL: return {y >= (u64)w ? 0 : (x << y) & m, nullptr}; case LSHR: return {y >= (u64)w ? 0 : x >> y, nullptr};
    case UDIV: if (!y) fatal("division by zero"); return {x / y, nullptr}; case UREM: if (!y) fatal("division by zero"); return {x % y, nullptr};
    default: break;
    }
  }
  return V(mkBin(op, X(a, w), X(b, w)));
}
static inline Val icmp(int pred, Val a, Val b, int w) {
  if (!a.e && !b.e && w <= 64) {
    u64 x = a.lo, y = b.lo; i64 sxv = (i64)(x << (64 - w)) >> (64 - w), syv = (i64)(y << (64 - w)) >> (64 - w);
    switch (pred) { case CmpInst::ICMP_EQ: return {x == y, nullptr}; case CmpInst::ICMP_NE: return {x != y, nullptr}; case CmpInst::ICMP_ULT: return {x < y, nullptr}; case CmpInst::ICMP_ULE: return {x <= y, nullptr}; case CmpInst::ICMP_UGT: return {x > y, nullptr}; case CmpInst::ICMP_UGE: return {x >= y, nullptr}; case CmpInst::ICMP_SLT: return {sxv < syv, nullptr}; case CmpInst::ICMP_SLE: return {sxv <= syv, nullptr}; case CmpInst::ICMP_SGT: return {sxv > syv, nullptr}; case CmpInst::ICMP_SGE: return {sxv >= syv, nullptr}; }
  }
  Expr *x = X(a, w), *y = X(b, w);
  switch (pred) { case CmpInst::ICMP_EQ: return V(mkEq(x, y)); case CmpInst::ICMP_NE: return V(mkNot(mkEq(x, y))); case CmpInst::ICMP_ULT: return V(mkUlt(x, y)); case CmpInst::ICMP_ULE: return V(mkUle(x, y)); case CmpInst::ICMP_UGT: return V(mkUlt(y, x)); case CmpInst::ICMP_UGE: return V(mkUle(y, x)); case CmpInst::ICMP_SLT: return V(mkSlt(x, y)); case CmpInst::ICMP_SLE: return V(mkSle(x, y)); case CmpInst::ICMP_SGT: return V(mkSlt(y, x)); case CmpInst::ICMP_SGE: return V(mkSle(y, x)); }
  fatal("icmp");
}
static Val fcmp(int pred, Val a, Val b, int w) {
  Expr *x = X(a, w), *y = X(b, w);
  auto lt = [&](Expr *p, Expr *q) { return mkFold(FOLT, 1, p, q); }; auto le = [&](Expr *p, Expr *q) { return mkFold(FOLE, 1, p, q); };
  Expr *uno = nullptr; auto U = [&]() { return uno ? uno : uno = mkFold(FUNO, 1, x, y); };
  switch (pred) {
  case CmpInst::FCMP_FALSE: return {0, nullptr}; case CmpInst::FCMP_TRUE: return {1, nullptr};
  case CmpInst::FCMP_OEQ: return V(mkFold(FOEQ, 1, x, y)); case CmpInst::FCMP_UNE: return V(mkNot(mkFold(FOEQ, 1, x, y)));
  case CmpInst::FCMP_OLT: return V(lt(x, y)); case CmpInst::FCMP_OLE: return V(le(x, y)); case CmpInst::FCMP_OGT: return V(lt(y, x)); case CmpInst::FCMP_OGE: return V(le(y, x));
  case CmpInst::FCMP_ULT: return V(mkNot(le(y, x))); case CmpInst::FCMP_ULE: return V(mkNot(lt(y, x))); case CmpInst::FCMP_UGT: return V(mkNot(le(x, y))); case CmpInst::FCMP_UGE: return V(mkNot(lt(x, y)));
  case CmpInst::FCMP_UNO: return V(U()); case CmpInst::FCMP_ORD: return V(mkNot(U()));
  case CmpInst::FCMP_UEQ: return V(mkBin(OR, U(), mkFold(FOEQ, 1, x, y))); case CmpInst::FCMP_ONE: return V(mkBin(AND, mkNot(U()), mkNot(mkFold(FOEQ, 1, x, y))));
  }
  fatal("fcmp");
}
static Expr *popcnt(Expr *e, int w) { Expr *r = K(0, w); for (int i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(e, i, 1), w)); return r; }
static Expr *ctz(Expr *e, int w, bool lead) { Expr *r = K(w, w); for (int i = w - 1; i >= 0; i--) { int bit = lead ? w - 1 - i : i; r = mkIte(mkEq(mkExtract(e, bit, 1), K(1, 1)), K(i, w), r); } return r; }

// ------------------------------------------------------------- interpreter
struct Interp {
  State &S; explicit Interp(State &s) : S(s) {}
  Val get(int r) { return r >= 0 ? S.stk[S.fr.back().base + r] : pool[~r]; }
  Val getk(int r, int k) { return r >= 0 ? S.stk[S.fr.back().base + r + k] : pool[(~r) + k]; }
  void set(int r, Val v) { S.stk[S.fr.back().base + r] = v; }
  void jump(Edge &e) {
    Frame &f = S.fr.back(); Val *st = S.stk.data() + f.base;
    if (e.copies.size() == 1) { auto &c = e.copies[0]; Val tmp[16]; if (c[2] > 16) fatal("phi too wide"); for (int k = 0; k < c[2]; k++) tmp[k] = getk(c[1], k); for (int k = 0; k < c[2]; k++) st[c[0] + k] = tmp[k]; }
    else if (!e.copies.empty()) { static vector<Val> tmp; tmp.clear(); for (auto &c : e.copies) for (int k = 0; k < c[2]; k++) tmp.push_back(getk(c[1], k)); size_t q = 0; for (auto &c : e.copies) for (int k = 0; k < c[2]; k++) st[c[0] + k] = tmp[q++]; }
    f.pc = e.pc; f.f->visited[e.block] = 1;
  }
  void pushFrame(FnInfo *fi, int ret) {
    if (!fi->compiled) { Compiler c; c.compile(fi); }
    Frame n; n.f = fi; n.pc = 0; n.base = (int)S.stk.size(); n.ret = ret; n.allocaBase = (u32)S.allocas.size(); S.stk.resize(n.base + fi->nslots, Val{0, nullptr}); S.fr.push_back(n); fi->calls++; fi->visited[0] = 1;
    if (S.fr.size() > cfg.maxDepth) throw PathEnd{O_STACK, 0, "recursion depth limit in " + demangle(fi->name)};
  }
  u64 allocHeap(u64 size) { if (size > (64ull << 20)) fatal("huge allocation " + std::to_string(size)); u32 id = S.mem.add(newObj((u32)size, OK_HEAP)); return (u64)id << 32; }
  void freeHeap(u64 p) { if (!p) return; Obj *o = S.mem.get((u32)(p >> 32)); if (!o || (u32)p != 0 || o->kind != OK_HEAP) memErr(S, "invalid free", p, 0); S.mem.del((u32)(p >> 32)); }
  string readStr(u64 p, u64 n) { string s; for (auto &v : readBytes(S, p, n)) s += v.e ? (char)evalModel(v.e, S.model) : (char)v.lo; return s; }
  string location(u64 loc) { try { u64 sp = loadAt(objR(S, loc, 24), (u32)loc, 64).lo, sl = loadAt(objR(S, loc + 8, 8), (u32)loc + 8, 64).lo; u64 ln = loadAt(objR(S, loc + 16, 4), (u32)loc + 16, 32).lo; if (sl > 400) return "?"; return readStr(sp, sl) + ":" + std::to_string(ln); } catch (Fatal &) { return "?"; } }
  string backtrace() { string b; for (size_t i = S.fr.size(); i-- > 0 && b.size() < 900;) { string d = demangle(S.fr[i].f->name); b += (b.empty() ? "" : " < ") + d; } return b; }

  // returns true when control stays in this frame and pc should advance
  bool builtin(Ins &s, FnInfo *fi) {
    auto A = [&](int i) { return get(s.args[i]); };
    switch (fi->bi) {
    case B_SYM_BYTES: { u64 p = C(S, A(0)), n = C(S, A(1)); if (!n) return true; Obj *o = objW(S, p, n); for (u64 i = 0; i < n; i++) { if (S.nv >= MAXV) fatal("too many symbolic bytes"); int v = S.nv++; S.dom.push_back(Mask::full()); S.model[v] = 0; storeAt(o, (u32)p + i, 8, V(P.get(VAR, 8, nullptr, nullptr, nullptr, v))); } if ((u64)S.nv > res.maxSym) res.maxSym = S.nv; return true; }
    case B_SYM_FAIL: { u64 c = C(S, A(0)); throw PathEnd{O_FAIL, c, backtrace()}; }
    case B_SYM_OBS: { u64 p = C(S, A(0)), n = C(S, A(1)); auto it = std::make_shared<ObsItem>(); it->bytes = readBytes(S, p, n); S.obs.push_back(it); return true; }
    case B_SYM_ASSUME: { Val v = A(0); if (!v.e) { if (!v.lo) throw PathEnd{O_PRUNED, 0, ""}; return true; } Expr *c = mkNot(mkEq(v.e, K(0, v.e->width))); u8 m[MAXV]; if (!feasible(S, c, m)) throw PathEnd{O_PRUNED, 0, ""}; memcpy(S.model, m, MAXV); addConstraint(S, c); return true; }
    case B_SYM_REACH: { u64 c = C(S, A(0)); S.reach |= 1ull << c; return true; }
    case B_SYM_PARAM: { u64 i = C(S, A(0)); set(s.dst, {i < params.size() ? params[i] : 0, nullptr}); return true; }
    case B_SYM_CONC: { u64 v = C(S, A(0)); set(s.dst, {v, nullptr}); return true; }
    case B_PANIC: { string loc = "?"; if (s.args.size() >= 2) { Val v = get(s.args.back()); if (has(fi->name, "9panic_fmt")) v = get(s.args[1]); if (!v.e) loc = location(v.lo); } throw PathEnd{O_PANIC, 0, loc + " | " + backtrace()}; }
    case B_ABORT: throw PathEnd{O_ABORT, 0, fi->name + " | " + backtrace()};
    case B_MALLOC: set(s.dst, {allocHeap(C(S, A(0))), nullptr}); return true;
    case B_CALLOC: { u64 n = C(S, A(0)), m = C(S, A(1)); set(s.dst, {allocHeap(n * m), nullptr}); return true; }
    case B_REALLOC: { u64 p = C(S, A(0)), n = C(S, A(1)); if (!p) { set(s.dst, {allocHeap(n), nullptr}); return true; } Obj *o = objR(S, p, 0); u64 q = allocHeap(n); copyMem(S, q, p, std::min<u64>(n, o->size)); freeHeap(p); set(s.dst, {q, nullptr}); return true; }
    case B_FREE: freeHeap(C(S, A(0))); return true;
    case B_MEMALIGN: { u64 pp = C(S, A(0)); u64 n = C(S, A(2)); u64 q = allocHeap(n); storeAt(objW(S, pp, 8), (u32)pp, 64, {q, nullptr}); set(s.dst, {0, nullptr}); return true; }
    case B_BCMP: case B_MEMCMP: {
      u64 n = C(S, A(2)); if (!n) { set(s.dst, {0, nullptr}); return true; }
      u64 p = C(S, A(0)), q = C(S, A(1)); auto x = readBytes(S, p, n), y = readBytes(S, q, n);
      if (fi->bi == B_BCMP) { Expr *r = K(1, 1); for (u64 i = 0; i < n; i++) { if (!x[i].e && !y[i].e) { if (x[i].lo != y[i].lo) { set(s.dst, {1, nullptr}); return true; } continue; } r = mkBin(AND, r, mkEq(X(x[i], 8), X(y[i], 8))); } set(s.dst, V(mkIte(r, K(0, 32), K(1, 32)))); return true; }
      Expr *r = K(0, 32);
      for (u64 i = n; i-- > 0;) { if (!x[i].e && !y[i].e) { if (x[i].lo != y[i].lo) r = K(x[i].lo < y[i].lo ? 0xffffffffu : 1, 32); continue; } Expr *a = X(x[i], 8), *b = X(y[i], 8); r = mkIte(mkEq(a, b), r, mkIte(mkUlt(a, b), K(0xffffffffu, 32), K(1, 32))); }
      set(s.dst, V(r)); return true; }
    case B_STRLEN: { u64 p = C(S, A(0)), n = 0; while (true) { Val v = loadAt(objR(S, p + n, 1), (u32)(p + n), 8); if (C(S, v) == 0) break; n++; } set(s.dst, {n, nullptr}); return true; }
    case B_RET0: if (s.n) set(s.dst, {0, nullptr}); return true;
    case B_HASH: set(s.dst, {0, nullptr}); return true;
    case B_RANDKEYS: if (s.n == 2) { set(s.dst, {0x1234567, nullptr}); set(s.dst + 1, {0x89abcdef, nullptr}); return true; } fatal("random keys abi");
    case B_GETENV: set(s.dst, {0, nullptr}); return true;
    case B_STRERROR: { u64 no = C(S, A(0)), p = C(S, A(1)), n = C(S, A(2)); string t = strerror((int)no); if (t.size() + 1 > n) fatal("strerror buffer"); Obj *o = objW(S, p, t.size() + 1); for (size_t i = 0; i <= t.size(); i++) storeAt(o, (u32)p + i, 8, Val{(u8)t.c_str()[i], nullptr}); set(s.dst, {0, nullptr}); return true; }
    case B_SYSCALL: { u64 nr = C(S, A(0)); if (nr != 318) fatal("unsupported system call " + std::to_string(nr)); u64 p = C(S, A(1)), n = C(S, A(2)); Obj *o = objW(S, p, n); memset(o->d + (u32)p, 0x5a, n); if (o->s) memset(o->s + (u32)p, 0, n * sizeof(Expr *)); set(s.dst, {n, nullptr}); return true; } // getrandom: a fixed seed
    case B_WRITE: set(s.dst, A(2)); return true;
    default: fatal("call to unsupported external function " + fi->name + " via " + backtrace());
    }
  }
  void intrin(Ins &s) {
    auto A = [&](int i) { return get(s.args[i]); }; int w = s.w;
    auto each = [&](auto fnn) { vector<Val> out; for (int k = 0; k < s.n; k++) out.push_back(fnn(k)); for (int k = 0; k < s.n; k++) set(s.dst + k, out[k]); };
    switch (s.intr) {
    case N_MEMCPY: { u64 n = C(S, A(2)); if (!n) return; u64 d = C(S, A(0)), p = C(S, A(1)); copyMem(S, d, p, n); return; }
    case N_MEMSET: { u64 n = C(S, A(2)); if (!n) return; u64 d = C(S, A(0)); Val v = A(1); Obj *o = objW(S, d, n); if (!v.e) { memset(o->d + (u32)d, (int)v.lo, n); if (o->s) memset(o->s + (u32)d, 0, n * sizeof(Expr *)); } else for (u64 i = 0; i < n; i++) storeAt(o, (u32)d + i, 8, v); return; }
    case N_UMAX: case N_UMIN: case N_SMAX: case N_SMIN: each([&](int k) { Val a = getk(s.args[0], k), b = getk(s.args[1], k); int p = s.intr == N_UMAX ? CmpInst::ICMP_UGT : s.intr == N_UMIN ? CmpInst::ICMP_ULT : s.intr == N_SMAX ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; Val c = icmp(p, a, b, w); if (!c.e) return c.lo ? a : b; return V(mkIte(c.e, X(a, w), X(b, w))); }); return;
    case N_ABS: each([&](int k) { Expr *x = X(getk(s.args[0], k), w); return V(mkIte(mkSlt(x, K(0, w)), mkBin(SUB, K(0, w), x), x)); }); return;
    case N_CTLZ: case N_CTTZ: each([&](int k) { return V(ctz(X(getk(s.args[0], k), w), w, s.intr == N_CTLZ)); }); return;
    case N_CTPOP: each([&](int k) { return V(popcnt(X(getk(s.args[0], k), w), w)); }); return;
    case N_BSWAP: { Expr *x = X(A(0), w), *r = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } set(s.dst, V(r)); return; }
    case N_BITREV: { Expr *x = X(A(0), w), *r = nullptr; for (int i = 0; i < w; i++) { Expr *b = mkExtract(x, i, 1); r = r ? mkConcat(r, b) : b; } set(s.dst, V(r)); return; }
    case N_FSHL: case N_FSHR: { Expr *a = X(A(0), w), *b = X(A(1), w), *c = X(A(2), w); Expr *sh = mkBin(UREM, c, K(w, w)); Expr *inv = mkBin(SUB, K(w, w), sh); Expr *z = mkEq(sh, K(0, w)); Expr *r = s.intr == N_FSHL ? mkIte(z, a, mkBin(OR, mkBin(SHL, a, sh), mkBin(LSHR, b, inv))) : mkIte(z, b, mkBin(OR, mkBin(SHL, a, inv), mkBin(LSHR, b, sh))); set(s.dst, V(r)); return; }
    case N_UADDO: case N_USUBO: case N_UMULO: case N_SADDO: case N_SSUBO: case N_SMULO: {
      Val a = A(0), b = A(1); Expr *x = X(a, w), *y = X(b, w); Expr *r, *o;
      switch (s.intr) {
      case N_UADDO: r = mkBin(ADD, x, y); o = isK(y) ? mkUlt(mkBin(SUB, K(maskw(w), w), y), x) : mkUlt(r, x); break;
      case N_USUBO: r = mkBin(SUB, x, y); o = mkUlt(x, y); break;
      case N_UMULO: { r = mkBin(MUL, x, y); if (isK(x) && !isK(y)) std::swap(x, y); if (isK(y)) o = y->cv == 0 ? K(0, 1) : mkUlt(K(maskw(w) / y->cv, w), x); else { if (w > 64) { o = mkBin(AND, mkNot(mkEq(x, K(0, w))), mkNot(mkEq(mkBin(UDIV, r, mkIte(mkEq(x, K(0, w)), K(1, w), x)), y))); break; } Expr *p = mkBin(MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); o = mkNot(mkEq(mkExtract(p, w, w), K(0, w))); } break; }
      case N_SADDO: r = mkBin(ADD, x, y); o = isK(y) ? (sx(y->cv, w) >= 0 ? mkSlt(K(((u128)1 << (w - 1)) - 1 - y->cv, w), x) : mkSlt(x, K(((u128)1 << (w - 1)) - y->cv, w))) : mkSlt(mkBin(AND, mkBin(XOR, r, x), mkBin(XOR, r, y)), K(0, w)); break;
      case N_SSUBO: r = mkBin(SUB, x, y); o = mkSlt(mkBin(AND, mkBin(XOR, x, y), mkBin(XOR, r, x)), K(0, w)); break;
      default: { r = mkBin(MUL, x, y); if (isK(x) && !isK(y)) std::swap(x, y);
        if (isK(y) && (y->cv == 0 || sx(y->cv, w) > 0)) { u128 h = (u128)1 << (w - 1); o = y->cv == 0 ? K(0, 1) : mkNot(mkBin(AND, mkNot(mkSlt(K((h - 1) / y->cv, w), x)), mkNot(mkSlt(x, K(-(h / y->cv), w))))); break; }
        if (w > 64) fatal("wide smulo"); Expr *p = mkBin(MUL, mkSext(x, 2 * w), mkSext(y, 2 * w)); o = mkNot(mkEq(p, mkSext(r, 2 * w))); }
      }
      set(s.dst, V(r)); set(s.dst + 1, V(o)); return; }
    case N_UADDS: each([&](int k) { Expr *x = X(getk(s.args[0], k), w), *y = X(getk(s.args[1], k), w); Expr *r = mkBin(ADD, x, y); return V(mkIte(mkUlt(r, x), K(maskw(w), w), r)); }); return;
    case N_USUBS: each([&](int k) { Expr *x = X(getk(s.args[0], k), w), *y = X(getk(s.args[1], k), w); return V(mkIte(mkUlt(x, y), K(0, w), mkBin(SUB, x, y))); }); return;
    case N_SADDS: case N_SSUBS: { Expr *x = X(A(0), w), *y = X(A(1), w); bool ad = s.intr == N_SADDS; Expr *X2 = mkSext(x, w + 1), *Y2 = mkSext(y, w + 1); Expr *r = mkBin(ad ? ADD : SUB, X2, Y2); u128 mx = ((u128)1 << (w - 1)) - 1, mn = (u128)1 << (w - 1); Expr *o = mkIte(mkSlt(K(mx, w + 1), r), K(mx, w), mkIte(mkSlt(r, mkSext(K(mn, w), w + 1)), K(mn, w), mkExtract(r, 0, w))); set(s.dst, V(o)); return; }
    case N_RADD: case N_ROR: case N_RAND: case N_RXOR: case N_RUMAX: case N_RUMIN: { int wi = s.argw[0]; Val r = A(0); for (int k = 1; k < s.argn[0]; k++) { Val b = getk(s.args[0], k); if (s.intr == N_RUMAX || s.intr == N_RUMIN) { Val c = icmp(s.intr == N_RUMAX ? CmpInst::ICMP_UGT : CmpInst::ICMP_ULT, r, b, wi); r = !c.e ? (c.lo ? r : b) : V(mkIte(c.e, X(r, wi), X(b, wi))); } else r = bin(s.intr == N_RADD ? ADD : s.intr == N_ROR ? OR : s.intr == N_RAND ? AND : XOR, r, b, wi); } set(s.dst, r); return; }
    case N_LOADREL: { Val base = A(0), off = A(1); Val addr = bin(ADD, base, off, 64); Val v = load(S, addr, 32); u64 k = concretize(S, mkZext(X(v, 32), 64)), b = C(S, base); // relative tables hold (target - base)
      k = k - 0x40000000 < relOff.size() ? relOff[k - 0x40000000] : (u64)(int64_t)(int32_t)k;
      set(s.dst, {b + k, nullptr}); return; }
    case N_TRAP: throw PathEnd{O_ABORT, 0, "trap | " + backtrace()};
    case N_ISCONST: set(s.dst, {0, nullptr}); return;
    case N_EXPECT: each([&](int k) { return getk(s.args[0], k); }); return;
    case N_FABS: each([&](int k) { return bin(AND, getk(s.args[0], k), VK(maskw(w - 1), w), w); }); return;
    case N_COPYSIGN: { Val a = bin(AND, A(0), VK(maskw(w - 1), w), w), b = bin(AND, A(1), VK((u128)1 << (w - 1), w), w); set(s.dst, bin(OR, a, b, w)); return; }
    case N_FLOOR: case N_CEIL: case N_FTRUNC: case N_RINT: case N_ROUND: set(s.dst, V(mkFold(FRND, w, X(A(0), w), nullptr, nullptr, s.intr == N_FLOOR ? 0 : s.intr == N_CEIL ? 1 : s.intr == N_FTRUNC ? 2 : s.intr == N_RINT ? 3 : 4))); return;
    case N_FMIN: case N_FMAX: { Expr *x = X(A(0), w), *y = X(A(1), w); Expr *lt = s.intr == N_FMIN ? mkFold(FOLT, 1, x, y) : mkFold(FOLT, 1, y, x); Expr *r = mkIte(lt, x, y); r = mkIte(mkFold(FUNO, 1, y, y), x, r); set(s.dst, V(mkIte(mkFold(FUNO, 1, x, x), y, r))); return; }
    case N_FTOSIS: case N_FTOUIS: {
      int wf = s.argw[0]; Expr *x = X(A(0), wf); bool sg = s.intr == N_FTOSIS; double lo = sg ? -ldexp(1.0, w - 1) : 0.0, hi = sg ? ldexp(1.0, w - 1) : ldexp(1.0, w);
      Expr *klo = K(fromF(lo, wf), wf), *khi = K(fromF(hi, wf), wf); u128 mx = sg ? ((u128)1 << (w - 1)) - 1 : maskw(w), mn = sg ? (u128)1 << (w - 1) : 0;
      Expr *r = mkFold(sg ? FTOSI : FTOUI, w, x); r = mkIte(mkFold(FOLE, 1, khi, x), K(mx, w), r); r = mkIte(mkFold(FOLT, 1, x, klo), K(mn, w), r); r = mkIte(mkFold(FUNO, 1, x, x), K(0, w), r); set(s.dst, V(r)); return; }
    default: fatal("unsupported intrinsic " + cast<CallBase>(s.I)->getCalledFunction()->getName().str());
    }
  }
  void run() {
    while (true) {
      Frame &f = S.fr.back(); Ins &s = f.f->code[f.pc]; Val *st = S.stk.data() + f.base;
if (cfg.verbose && (S.steps & 0xffffff) == 0) fprintf(stderr, "  steps %llu in %s\n", (unsigned long long)S.steps, backtrace().c_str());
#define G(r) ((r) >= 0 ? st[r] : pool[~(r)])
      if (++S.steps > cfg.maxSteps) throw PathEnd{O_HANG, 0, "step limit | " + backtrace()};
      if (cfg.prof) f.f->steps++;
      switch (s.op) {
      case I_BIN: if (s.n == 1) st[s.dst] = bin(s.sub, G(s.a), G(s.b), s.w); else for (int k = 0; k < s.n; k++) st[s.dst + k] = bin(s.sub, getk(s.a, k), getk(s.b, k), s.w); f.pc++; break;
      case I_ICMP: for (int k = 0; k < s.n; k++) st[s.dst + k] = icmp(s.sub, getk(s.a, k), getk(s.b, k), s.w); f.pc++; break;
      case I_FBIN: for (int k = 0; k < s.n; k++) st[s.dst + k] = V(mkFold(s.sub, s.w, X(getk(s.a, k), s.w), X(getk(s.b, k), s.w))); f.pc++; break;
      case I_FCMP: for (int k = 0; k < s.n; k++) st[s.dst + k] = fcmp(s.sub, getk(s.a, k), getk(s.b, k), s.w); f.pc++; break;
      case I_FNEG: for (int k = 0; k < s.n; k++) st[s.dst + k] = bin(XOR, getk(s.a, k), VK((u128)1 << (s.w - 1), s.w), s.w); f.pc++; break;
      case I_ZEXT: for (int k = 0; k < s.n; k++) { Val v = getk(s.a, k); st[s.dst + k] = (!v.e && s.w <= 64) ? v : V(mkZext(X(v, s.w2), s.w)); } f.pc++; break;
      case I_SEXT: for (int k = 0; k < s.n; k++) { Val v = getk(s.a, k); st[s.dst + k] = V(mkSext(X(v, s.w2), s.w)); } f.pc++; break;
      case I_TRUNC: for (int k = 0; k < s.n; k++) { Val v = getk(s.a, k); st[s.dst + k] = !v.e ? Val{s.w >= 64 ? v.lo : v.lo & ((1ull << s.w) - 1), nullptr} : V(mkExtract(v.e, 0, s.w)); } f.pc++; break;
      case I_FCVT: for (int k = 0; k < s.n; k++) st[s.dst + k] = V(mkFold(s.sub, s.w, X(getk(s.a, k), s.w2))); f.pc++; break;
      case I_COPY: if (s.n == 1) st[s.dst] = G(s.a); else for (int k = 0; k < s.n; k++) st[s.dst + k] = getk(s.a, k); f.pc++; break;
      case I_BITCAST: {
        vector<Val> out; int srcBits = s.w2, nsrc = (int)s.k;
        Expr *all = nullptr; if (srcBits * nsrc > 128) fatal("wide bitcast");
        for (int k = nsrc - 1; k >= 0; k--) { Expr *e = X(getk(s.a, k), srcBits); all = all ? mkConcat(all, e) : e; }
        for (int k = 0; k < s.n; k++) out.push_back(V(mkExtract(all, k * s.w, s.w)));
        for (int k = 0; k < s.n; k++) st[s.dst + k] = out[k];
        f.pc++; break; }
      case I_SELECT: {
        vector<Val> out;
        for (int k = 0; k < s.n; k++) { Val c = s.k ? getk(s.a, k) : G(s.a); Val x = getk(s.b, k), y = getk(s.c, k); if (!c.e) { if (s.n == 1) { st[s.dst] = c.lo ? x : y; goto seldone; } out.push_back(c.lo ? x : y); } else out.push_back(V(mkIte(c.e, X(x, s.leaves[k].w), X(y, s.leaves[k].w)))); }
        for (int k = 0; k < s.n; k++) st[s.dst + k] = out[k];
      seldone: f.pc++; break; }
      case I_GEP: {
        Val p = G(s.a); if (s.k) p = bin(ADD, p, {s.k, nullptr}, 64);
        for (size_t i = 0; i < s.gep.size(); i++) { Val ix = G(s.gep[i].first); int gw = s.gepw[i]; if (gw < 64) ix = V(mkSext(X(ix, gw), 64)); if (s.gep[i].second != 1) ix = bin(MUL, ix, {(u64)s.gep[i].second, nullptr}, 64); p = bin(ADD, p, ix, 64); }
        st[s.dst] = p; f.pc++; break; }
      case I_LOAD: {
        Val p = G(s.a);
        if (s.n == 1) { Val v = load(S, p, s.w); S.stk[S.fr.back().base + s.dst] = v; S.fr.back().pc++; break; }
        if (s.n && s.leaves[0].off == 0xffffffff) { int bits = s.leaves[0].w * s.n; Val v = load(S, p, bits); Expr *e = X(v, bits); for (int k = 0; k < s.n; k++) st[s.dst + k] = V(mkExtract(e, k * s.w, s.w)); f.pc++; break; }
        if (s.n) { u64 a = C(S, p); for (int k = 0; k < s.n; k++) { auto &l = s.leaves[k]; st[s.dst + k] = loadAt(objR(S, a + l.off, (l.w + 7) / 8), (u32)(a + l.off), l.w); } }
        f.pc++; break; }
      case I_STORE: {
        if (!s.n) { f.pc++; break; }
        u64 a = C(S, G(s.b));
        if (s.leaves[0].off == 0xffffffff) { int bits = s.leaves[0].w * s.n; Expr *e = nullptr; for (int k = s.n - 1; k >= 0; k--) { Expr *x = X(getk(s.a, k), s.w); e = e ? mkConcat(e, x) : x; } storeAt(objW(S, a, (bits + 7) / 8), (u32)a, bits, V(e)); }
        else for (int k = 0; k < s.n; k++) { auto &l = s.leaves[k]; storeAt(objW(S, a + l.off, (l.w + 7) / 8), (u32)(a + l.off), l.w, getk(s.a, k)); }
        f.pc++; break; }
      case I_ALLOCA: { u64 n = C(S, G(s.a)); u32 id = S.mem.add(newObj((u32)(s.k * n), OK_STACK)); S.allocas.push_back(id); st[s.dst] = {(u64)id << 32, nullptr}; f.pc++; break; }
      case I_BR: jump(s.edges[0]); break;
      case I_CBR: {
        Val c = G(s.a); if (!c.e) { jump(s.edges[c.lo ? 0 : 1]); break; }
        bool ms; u8 alt[MAXV]; int r = decide(S, c.e, ms, alt);
        if (r == 3) {
          State *o = cloneState(S); memcpy(o->model, alt, MAXV); addConstraint(*o, ms ? mkNot(c.e) : c.e); Interp oi(*o); oi.jump(s.edges[ms ? 1 : 0]); work.push_back(o);
          addConstraint(S, ms ? c.e : mkNot(c.e)); jump(s.edges[ms ? 0 : 1]);
        } else jump(s.edges[r == 1 ? 0 : 1]);
        break; }
      case I_SWITCH: {
        Val v = G(s.a);
        if (!v.e) { size_t k = 0; for (size_t i = 0; i < s.cases.size(); i++) if (s.cases[i] == v.lo) { k = i + 1; break; } jump(s.edges[k]); break; }
        // group by destination
        vector<std::pair<int, Expr *>> grp; Expr *none = K(1, 1);
        for (size_t i = 0; i < s.cases.size(); i++) { Expr *q = mkEq(v.e, K(s.cases[i], s.w)); none = mkBin(AND, none, mkNot(q)); bool found = false; if (s.edges[i + 1].copies.empty()) for (auto &g : grp) if (s.edges[g.first].pc == s.edges[i + 1].pc && s.edges[g.first].copies.empty()) { g.second = mkBin(OR, g.second, q); found = true; break; } if (!found) grp.push_back({(int)i + 1, q}); }
        { bool found = false; for (auto &g : grp) if (s.edges[0].copies.empty() && s.edges[g.first].copies.empty() && s.edges[g.first].pc == s.edges[0].pc) { g.second = mkBin(OR, g.second, none); found = true; } if (!found) grp.push_back({0, none}); }
        int taken = -1; vector<std::pair<int, std::array<u8, MAXV>>> alts;
        for (size_t g = 0; g < grp.size(); g++) { Expr *c = grp[g].second; if (isK(c)) { if (c->cv) taken = (int)g; continue; } bool ms; u8 alt[MAXV]; int r = decide(S, c, ms, alt); if (ms) taken = (int)g; else if (r & 1) { std::array<u8, MAXV> a; memcpy(a.data(), alt, MAXV); alts.push_back({(int)g, a}); } if (r == 1) break; }
        if (taken < 0) fatal("switch without model side");
        for (auto &al : alts) { State *o = cloneState(S); memcpy(o->model, al.second.data(), MAXV); addConstraint(*o, grp[al.first].second); Interp oi(*o); oi.jump(s.edges[grp[al.first].first]); work.push_back(o); }
        if (!alts.empty()) addConstraint(S, grp[taken].second);
        jump(s.edges[grp[taken].first]); break; }
      case I_RET: {
        Val tmp[16]; if (s.n > 16) fatal("wide return"); for (int k = 0; k < s.n; k++) tmp[k] = getk(s.a, k);
        int ret = f.ret, n = s.n; while (S.allocas.size() > f.allocaBase) { S.mem.del(S.allocas.back()); S.allocas.pop_back(); }
        S.stk.resize(f.base); S.fr.pop_back();
        if (S.fr.empty()) throw PathEnd{O_OK, 0, ""};
        Frame &c = S.fr.back(); if (ret >= 0) for (int k = 0; k < n; k++) S.stk[c.base + ret + k] = tmp[k];
        c.pc++; break; }
      case I_UNREACH: fatal("reached unreachable instruction in " + backtrace());
      case I_DEAD: fatal("reached landing pad");
      case I_NOP: f.pc++; break;
      case I_EXTELT: { u64 ix = C(S, G(s.b)); st[s.dst] = getk(s.a, (int)ix); f.pc++; break; }
      case I_SHUF: { vector<Val> out; for (int m : s.args) { if (m < 0) out.push_back({0, nullptr}); else if (m < (int)s.k) out.push_back(getk(s.a, m)); else out.push_back(getk(s.b, m - (int)s.k)); } for (int k = 0; k < s.n; k++) st[s.dst + k] = out[k]; f.pc++; break; }
      case I_RMW: { u64 a = C(S, G(s.a)); Val old = loadAt(objR(S, a, s.w / 8), (u32)a, s.w), v = G(s.b), nv; switch (s.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = bin(ADD, old, v, s.w); break; case AtomicRMWInst::Sub: nv = bin(SUB, old, v, s.w); break; case AtomicRMWInst::Or: nv = bin(OR, old, v, s.w); break; case AtomicRMWInst::And: nv = bin(AND, old, v, s.w); break; default: fatal("rmw"); } storeAt(objW(S, a, s.w / 8), (u32)a, s.w, nv); st[s.dst] = old; f.pc++; break; }
      case I_CMPXCHG: { u64 a = C(S, G(s.a)); Val old = loadAt(objR(S, a, s.w / 8), (u32)a, s.w), ex = G(s.b); if (old.e || ex.e) fatal("symbolic cmpxchg"); bool ok = old.lo == ex.lo; if (ok) storeAt(objW(S, a, s.w / 8), (u32)a, s.w, G(s.c)); st[s.dst] = old; st[s.dst + 1] = {ok, nullptr}; f.pc++; break; }
      case I_INTRIN: intrin(s); S.fr.back().pc++; break;
      case I_CALL: {
        FnInfo *fi = s.fn;
        if (s.indirect) { u64 t = C(S, G(s.a)); u32 id = (u32)(t >> 32); if (id < FUNC_BASE || id - FUNC_BASE >= fnById.size() || (u32)t) fatal("bad function pointer in " + backtrace()); fi = fnById[id - FUNC_BASE]; }
        if (fi->bi != B_NONE) { fi->calls++; if (builtin(s, fi)) S.fr.back().pc++; break; }
        int ob = f.base; (void)ob; static vector<Val> av; av.clear(); for (size_t i = 0; i < s.args.size(); i++) for (int k = 0; k < s.argn[i]; k++) av.push_back(getk(s.args[i], k));
        int nargs = (int)s.args.size(); Ins *sp = &s; pushFrame(fi, s.dst);
        Frame &n = S.fr.back(); if (nargs < (int)fi->argSlot.size()) fatal("argument count " + fi->name); size_t q = 0; for (size_t i = 0; i < fi->argSlot.size(); i++) for (int k = 0; k < sp->argn[i]; k++) S.stk[n.base + fi->argSlot[i] + k] = av[q++];
        break; }
      default: fatal("bad op");
      }
    }
  }
};

// ------------------------------------------------------------- driver
static string jsonEsc(const string &s) { string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static string hex(const vector<u8> &v) { string o; char b[4]; for (u8 x : v) { snprintf(b, 4, "%02x", x); o += b; } return o; }
static void endPath(State &S, PathEnd &pe) {
  if (pe.o == O_PRUNED) { res.pruned++; return; }
  res.paths++; res.steps += S.steps; res.outcomes[outName[pe.o]]++; res.reach |= S.reach;
  vector<u8> bytes(S.model, S.model + S.nv);
  for (int i = 0; i < S.nv; i++) if (!S.dom[i].has(S.model[i])) fatal("model outside domain");
  for (Expr *e : S.multi) if (!evalModel(e, S.model)) fatal("model violates path condition");
  u64 h = 1469598103934665603ull, len = 0;
  for (auto &o : S.obs) { for (auto &v : o->bytes) { u8 b = v.e ? (u8)evalModel(v.e, S.model) : (u8)v.lo; h = (h ^ b) * 1099511628211ull; len++; } h = (h ^ 0xff) * 1099511628211ull; h = (h ^ (u8)o->bytes.size()) * 1099511628211ull; len++; }
  if (pe.o != O_OK) {
    res.nviol++;
    bool dup = false; int same = 0; for (auto &v : res.viols) if (v.kind == outName[pe.o] && v.code == pe.code && v.detail == pe.detail) { same++; }
    dup = same >= 3; if (!dup && res.viols.size() < cfg.maxViol) res.viols.push_back({outName[pe.o], pe.detail, pe.code, bytes});
  }
  if (pe.o == O_OK || pe.o == O_PANIC || pe.o == O_FAIL) {
    Sample sm{bytes, outName[pe.o], h, len};
    if (res.samples.size() < cfg.sample) res.samples.push_back(sm); else { u64 k = rng() % res.paths; if (k < cfg.sample) res.samples[k] = sm; }
  }
}
static void runJob(const string &harness, std::ostream &out) {
  res = Result(); double t0 = nowSec(); u64 q0 = Z.queries, s0 = Z.single, m0 = Z.multi, c0 = Z.cacheHits, sat0 = Z.qSat, us0 = Z.qUnsat; double zt0 = Z.time; Z.maxq = 0; string err; int aborted = 0;
  for (auto *f : fnById) { f->calls = 0; f->forks = 0; f->steps = 0; std::fill(f->visited.begin(), f->visited.end(), 0); }
  try {
    Function *F = M->getFunction(harness); if (!F || F->isDeclaration()) fatal("no harness " + harness);
    State *S0 = new State(*baseMem); { Interp it(*S0); it.pushFrame(fnInfo(F), -1); }
    work.push_back(S0); u64 iter = 0;
    while (!work.empty()) {
      State *S = work.back(); work.pop_back();
      try { Interp it(*S); it.run(); } catch (PathEnd &pe) { endPath(*S, pe); }
      catch (Fatal &f) {
        // This path is given up; its input is reported, to be tried natively.
        if (err.empty()) err = f.msg;
        res.complete = false; res.outcomes["abort"]++;
        if (++aborted > 200) { delete S; throw Fatal{f.msg}; }
        if (aborted <= 4) res.viols.push_back({"abort", f.msg, 0, vector<u8>(S->model, S->model + S->nv)});
      }
      delete S;
      if ((++iter & 15) == 0) { if (res.paths >= cfg.maxPaths || nowSec() - t0 > cfg.maxTime || res.viols.size() >= cfg.maxViol) { if (res.viols.empty()) { res.complete = false; res.note = "budget exhausted with " + std::to_string(work.size()) + " pending states"; } else { res.complete = false; res.note = "stopped after violations"; } break; }
        if (cfg.verbose && (iter & 0xfff) == 0) fprintf(stderr, "%s: paths %llu pending %zu t %.1f q %llu exprs %zu\n", harness.c_str(), (unsigned long long)res.paths, work.size(), nowSec() - t0, (unsigned long long)Z.queries, P.n); }
    }
  } catch (Fatal &f) { err = f.msg; res.complete = false; }
  for (State *s : work) delete s; work.clear();
  if (cfg.prof) { vector<FnInfo *> v = fnById; std::sort(v.begin(), v.end(), [](FnInfo *a, FnInfo *b) { return a->forks > b->forks; }); for (int i = 0; i < 15 && i < (int)v.size(); i++) if (v[i]->forks) fprintf(stderr, "forks %10llu %s\n", (unsigned long long)v[i]->forks, demangle(v[i]->name).c_str()); std::sort(v.begin(), v.end(), [](FnInfo *a, FnInfo *b) { return a->steps > b->steps; }); for (int i = 0; i < 25 && i < (int)v.size(); i++) if (v[i]->steps) fprintf(stderr, "steps %10llu calls %8llu %s\n", (unsigned long long)v[i]->steps, (unsigned long long)v[i]->calls, demangle(v[i]->name).c_str()); }
  out << "{\"harness\":\"" << harness << "\",\"params\":["; for (size_t i = 0; i < params.size(); i++) out << (i ? "," : "") << params[i];
  out << "],\"complete\":" << (res.complete ? "true" : "false") << ",\"error\":\"" << jsonEsc(err) << "\",\"note\":\"" << jsonEsc(res.note) << "\",\"paths\":" << res.paths << ",\"pruned\":" << res.pruned << ",\"forks\":" << res.forks << ",\"steps\":" << res.steps << ",\"sym_bytes\":" << res.maxSym << ",\"reach\":" << res.reach << ",\"nviol\":" << res.nviol;
  out << ",\"queries\":" << Z.queries - q0 << ",\"sat\":" << Z.qSat - sat0 << ",\"unsat\":" << Z.qUnsat - us0 << ",\"single_decisions\":" << Z.single - s0 << ",\"multi_decisions\":" << Z.multi - m0 << ",\"cache_hits\":" << Z.cacheHits - c0 << ",\"solver_s\":" << Z.time - zt0 << ",\"max_query_s\":" << Z.maxq << ",\"wall_s\":" << nowSec() - t0 << ",\"outcomes\":{";
  bool first = true; for (auto &p : res.outcomes) { out << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
  out << "},\"fns\":["; first = true; for (auto *f : fnById) if (f->lib && f->calls && f->compiled) { int vb = 0; for (u8 x : f->visited) vb += x; out << (first ? "" : ",") << "[\"" << jsonEsc(demangle(f->name)) << "\"," << vb << "," << f->nblocks << "]"; first = false; }
  out << "],\"violations\":["; first = true; for (auto &v : res.viols) { out << (first ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"code\":" << v.code << ",\"detail\":\"" << jsonEsc(v.detail) << "\",\"bytes\":\"" << hex(v.bytes) << "\"}"; first = false; }
  out << "],\"samples\":["; first = true; for (auto &v : res.samples) { out << (first ? "" : ",") << "{\"bytes\":\"" << hex(v.bytes) << "\",\"outcome\":\"" << v.outcome << "\",\"obs\":\"" << std::hex << v.obs << std::dec << "\",\"len\":" << v.obsLen << "}"; first = false; }
  out << "]}" << std::endl;
}
int main(int argc, char **argv) {
  string bc; vector<string> jobs; 
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--max-time") cfg.maxTime = atof(argv[++i]); else if (a == "--max-paths") cfg.maxPaths = strtoull(argv[++i], 0, 0); else if (a == "--max-steps") cfg.maxSteps = strtoull(argv[++i], 0, 0); else if (a == "--sample") cfg.sample = atoi(argv[++i]); else if (a == "--seed") rngS ^= strtoull(argv[++i], 0, 0) * 0x9E3779B97F4A7C15ull; else if (a == "--prof") cfg.prof = true; else if (a == "-v") cfg.verbose = true; else if (a == "--solver-timeout") Z.timeoutMs = atoi(argv[++i]); else if (a == "--dump") { Z.dump = fopen(argv[++i], "w"); Z.dumpMax = 2000; } else if (a == "--slow") Z.slowLog = atof(argv[++i]); else if (a == "--job") jobs.push_back(nx()); else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } }
  try {
    SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("symex", errs()); return 3; }
    DL = &M->getDataLayout(); Z.init(); baseMem = new Mem();
    for (auto &F : *M) fnInfo(&F);
    // The hash of a key may be any number, as long as it is the same for equal keys: it is 0 for all of them,
    // when all code that computes SipHash is in a function of its own (else it is executed).
    vector<FnInfo *> sip; bool all = true;
    for (auto &F : *M) { bool y = false; for (auto &B : F) for (auto &I : B) for (auto &o : I.operands()) if (auto *c = dyn_cast<ConstantInt>(o)) if (c->getBitWidth() == 64 && c->getZExtValue() == 0x736f6d6570736575ULL) y = true; if (y) { sip.push_back(fnInfo(&F)); all = all && has(F.getName().str(), "11BuildHasher8hash_one17h") && F.getReturnType()->isIntegerTy(64); } }
    if (all) for (auto *f : sip) f->bi = B_HASH;
    for (auto &g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); Obj *o = newObj((u32)sz, g.isConstant() ? OK_RO : OK_GLOBAL); globId[&g] = baseMem->add(o); }
    for (auto &g : M->globals()) { if (!g.hasInitializer()) continue; try { initBytes(g.getInitializer(), baseMem->get(globId[&g])->d, 0); } catch (Fatal &f) { fprintf(stderr, "warning: initializer of %s: %s\n", g.getName().str().c_str(), f.msg.c_str()); } }
  } catch (Fatal &f) { fprintf(stderr, "fatal: %s\n", f.msg.c_str()); return 3; }
  auto doJob = [&](const string &line) { std::istringstream is(line); string h; is >> h; params.clear(); u64 p; while (is >> p) params.push_back(p); std::ostringstream o; runJob(h, o); std::cout << o.str() << std::flush; };
  if (!jobs.empty()) { for (auto &j : jobs) doJob(j); return 0; }
  string line; while (std::getline(std::cin, line)) { if (line.empty()) continue; doJob(line); }
  return 0;
}
