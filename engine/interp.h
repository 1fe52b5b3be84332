// IR decoding and interpretation (included by bsx.cpp)
#include <setjmp.h>

enum IOp : uint16_t {
  I_NOP, I_RET, I_BR, I_CBR, I_SWITCH, I_UNREACH,
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG,
  I_ICMP, I_FCMP, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC,
  I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTOUI, I_MOVE, I_CALL, I_MEMCPY, I_MEMMOVE, I_MEMSET,
  I_FABS, I_MINMAX, I_ABS, I_ATOMICRMW, I_CMPXCHG, I_FMATH, I_CTLZ, I_CTTZ, I_CTPOP, I_OVF, I_FMULADD,
  I_FMINMAX, I_USUBSAT, I_UADDSAT, I_LANDING, I_TRAP, I_MULTI, I_VASTART, I_COPYSIGN, I_ISFPCLASS, I_BSWAP, I_FSHL, I_UNSUP
};

struct Scalar { u8 k; u8 w; u64 off; };  // k: 0 int, 1 double, 2 ptr, 3 float
struct Edge { u32 target; std::vector<std::pair<int, int>> mv; bool conflict; };
struct CFn;
struct CInst {
  u16 op; u8 w; u8 f;   // f: flags (nsw=1,nuw=2, exact) / predicate
  int dst, a, b, c;
  u64 imm;
  void *aux;
};
struct GepIdx { int op; i64 scale; u8 w; };
struct CallInfo {
  CFn *fn = nullptr;            // direct internal
  int callee = 0;               // operand for indirect
  std::string name;             // external
  int builtin = -1;
  void *native = nullptr;
  std::vector<int> args;        // operand per slot
  std::vector<u8> argk;         // 0 int,1 double,2 ptr,3 float
  std::vector<int> argw;
  std::vector<int> argFirst;    // index of first slot of arg i
  std::vector<u64> byval;       // per slot, byval size or 0
  int nret = 0;
  std::vector<Scalar> ret;
  bool vararg = false;
  int normal = -1;              // edge for invoke
  bool noreturn_ = false;
};
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct CFn {
  Function *f = nullptr;
  std::string name;
  bool decoded = false, symTouched = false;
  std::vector<CInst> code;
  std::vector<Edge> edges;
  std::vector<u64> consts;
  int nslots = 0, nargs = 0;
  std::vector<int> argSlots;
  std::vector<Scalar> ret;
  std::vector<u32> lines;
  u64 token = 0;
};

static Module *Mod;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u64, CFn *> fnByAddr;
static std::unordered_map<const Function *, CFn *> fnByIR;
static u64 fnTokenTop;
static std::vector<u32> tab32;                  // 20-bit id -> node
static std::unordered_map<u32, u32> tab32inv;

static std::vector<Scalar> flat(Type *t) {
  std::vector<Scalar> r;
  if (t->isVoidTy()) return r;
  if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) { r.push_back({9, 128, 0}); return r; } r.push_back({0, (u8)w, 0}); return r; }
  if (t->isDoubleTy()) { r.push_back({1, 64, 0}); return r; }
  if (t->isFloatTy()) { r.push_back({3, 32, 0}); return r; }
  if (t->isPointerTy()) { r.push_back({2, 64, 0}); return r; }
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) {
      auto e = flat(s->getElementType(i));
      for (auto x : e) { x.off += L->getElementOffset(i); r.push_back(x); }
    }
    return r;
  }
  if (auto *s = dyn_cast<ArrayType>(t)) {
    u64 es = DL->getTypeAllocSize(s->getElementType());
    auto e = flat(s->getElementType());
    for (u64 i = 0; i < s->getNumElements(); ++i) for (auto x : e) { x.off += i * es; r.push_back(x); }
    return r;
  }
  if (auto *s = dyn_cast<FixedVectorType>(t)) {
    u64 es = DL->getTypeAllocSize(s->getElementType());
    auto e = flat(s->getElementType());
    for (u64 i = 0; i < s->getNumElements(); ++i) for (auto x : e) { x.off += i * es; r.push_back(x); }
    return r;
  }
  r.push_back({9, 0, 0});
  return r;
}
static CFn *getFn(Function *f) {
  auto it = fnByIR.find(f);
  if (it != fnByIR.end()) return it->second;
  CFn *c = new CFn;
  c->f = f;
  c->name = f->getName().str();
  fnByIR[f] = c;
  return c;
}
static u64 fnToken(Function *f) {
  CFn *c = getFn(f);
  if (!c->token) { c->token = fnTokenTop; fnTokenTop += 16; fnByAddr[c->token] = c; }
  return c->token;
}
static std::unordered_map<std::string, u64> builtinTokens;
static u64 externAddr(const std::string &n);

static u64 globalAddr(const GlobalValue *g) {
  auto it = gaddr.find(g);
  if (it != gaddr.end()) return it->second;
  if (auto *a = dyn_cast<GlobalAlias>(g)) {
    auto *b = dyn_cast<GlobalValue>(a->getAliasee()->stripPointerCasts());
    return gaddr[g] = globalAddr(b);
  }
  if (auto *f = dyn_cast<Function>(g)) {
    if (!f->isDeclaration()) return gaddr[g] = fnToken(const_cast<Function *>(f));
    return gaddr[g] = fnToken(const_cast<Function *>(f));
  }
  auto *v = cast<GlobalVariable>(g);
  if (v->isDeclaration()) {
    u64 a = externAddr(v->getName().str());
    if (!a) { a = M.alloc(64, true); }
    return gaddr[g] = a;
  }
  u64 sz = DL->getTypeAllocSize(v->getValueType());
  u64 al = std::max<u64>(16, v->getAlign() ? v->getAlign()->value() : 1);
  u64 a = M.alloc(sz + (al > 16 ? al : 0), true);
  if (al > 16) a = (a + al - 1) / al * al;
  return gaddr[g] = a;
}
static u64 externAddr(const std::string &n) { return (u64)dlsym(RTLD_DEFAULT, n.c_str()); }

static u64 constAddr(const Constant *c);
// scalar constant value
static u64 constScalar(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) unsupported("i128 constant");
    return i->getZExtValue();
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) {
    if (f->getType()->isDoubleTy() || f->getType()->isFloatTy()) return f->getValueAPF().bitcastToAPInt().getZExtValue();
    unsupported("fp constant type");
  }
  if (isa<ConstantPointerNull>(c)) return 0;
  if (isa<UndefValue>(c)) return box(ID_UNINIT);
  if (auto *g = dyn_cast<GlobalValue>(c)) return globalAddr(g);
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto *g = cast<GEPOperator>(e);
        if (!g->accumulateConstantOffset(*DL, off)) unsupported("const gep");
        return constScalar(cast<Constant>(g->getPointerOperand())) + off.getSExtValue();
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        return constScalar(e->getOperand(0));
      case Instruction::Trunc: { u64 v = constScalar(e->getOperand(0)); unsigned w = e->getType()->getIntegerBitWidth(); return w < 64 ? v & ((1ull << w) - 1) : v; }
      case Instruction::Sub: return constScalar(e->getOperand(0)) - constScalar(e->getOperand(1));
      case Instruction::Add: return constScalar(e->getOperand(0)) + constScalar(e->getOperand(1));
      default: unsupported(std::string("const expr ") + e->getOpcodeName());
    }
  }
  unsupported("constant kind");
}
static void constFlat(const Constant *c, std::vector<u64> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    if (isa<UndefValue>(c)) { auto f = flat(t); for (size_t i = 0; i < f.size(); ++i) out.push_back(box(ID_UNINIT)); return; }
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; ++i) constFlat(c->getAggregateElement(i), out);
    return;
  }
  out.push_back(constScalar(c));
}
static void initGlobal(const Constant *c, u64 a) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = d->getRawDataValues();
    memcpy((void *)a, s.data(), s.size());
    return;
  }
  if (t->isStructTy()) {
    auto *L = DL->getStructLayout(cast<StructType>(t));
    for (unsigned i = 0; i < t->getStructNumElements(); ++i) initGlobal(c->getAggregateElement(i), a + L->getElementOffset(i));
    return;
  }
  if (t->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(t->getArrayElementType());
    for (unsigned i = 0; i < t->getArrayNumElements(); ++i) initGlobal(c->getAggregateElement(i), a + i * es);
    return;
  }
  if (t->isVectorTy()) {
    auto *vt = cast<FixedVectorType>(t);
    u64 es = DL->getTypeAllocSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); ++i) initGlobal(c->getAggregateElement(i), a + i * es);
    return;
  }
  u64 v = constScalar(c);
  u64 n = DL->getTypeStoreSize(t);
  memcpy((void *)a, &v, n);
}

// ---------------------------------------------------------------- decoding
enum Builtin {
  B_NONE = -1, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE, B_ASSERT, B_ABORT, B_THROW, B_GUARD_ACQ, B_GUARD_REL, B_ATEXIT,
  B_SQRT, B_SIN, B_COS, B_EXP, B_LOG, B_POW, B_FLOOR, B_CEIL, B_TRUNC, B_ROUND, B_FABS, B_CEXP, B_CSQRT, B_CABS, B_HYPOT, B_MULDC, B_DIVDC, B_TAN, B_ATAN2, B_ACOS, B_LOG2, B_SINCOS, B_FMOD, B_LOG10, B_CBRT, B_RINT,
  B_BSX_REAL, B_BSX_INT, B_BSX_LONG, B_BSX_CHOICE, B_BSX_ASSUME, B_BSX_ASSERT, B_BSX_EQUAL, B_BSX_CLOSE, B_BSX_COVER, B_BSX_UF, B_BSX_EXP, B_BSX_STOP, B_BSX_SYMBOLIC, B_BSX_EXPECT, B_BSX_FORKABS,
  B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_CLOCK, B_ALLOCEXC, B_FREEEXC, B_RAND, B_ALIGNED_ALLOC, B_CLOCK_NOW, B_KMPC
};
static int builtinOf(const std::string &n) {
  static const std::map<std::string, int> m = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE},
    {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE},
    {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW}, {"_ZdlPvRKSt9nothrow_t", B_DELETE},
    {"__assert_fail", B_ASSERT}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT}, {"_ZSt9terminatev", B_ABORT}, {"__cxa_pure_virtual", B_ABORT},
    {"__cxa_throw", B_THROW}, {"__cxa_rethrow", B_THROW}, {"_ZSt17__throw_bad_allocv", B_THROW}, {"_ZSt20__throw_length_errorPKc", B_THROW},
    {"_ZSt20__throw_out_of_rangePKc", B_THROW}, {"_ZSt24__throw_out_of_range_fmtPKcz", B_THROW}, {"_ZSt24__throw_invalid_argumentPKc", B_THROW},
    {"_ZSt28__throw_bad_array_new_lengthv", B_THROW}, {"_ZSt19__throw_logic_errorPKc", B_THROW}, {"_ZSt25__throw_bad_function_callv", B_THROW}, {"_ZSt16__throw_bad_castv", B_THROW},
    {"_ZSt20__throw_system_errori", B_THROW}, {"_ZSt21__throw_runtime_errorPKc", B_THROW},
    {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_REL}, {"__cxa_atexit", B_ATEXIT}, {"atexit", B_ATEXIT},
    {"__cxa_allocate_exception", B_ALLOCEXC}, {"__cxa_free_exception", B_FREEEXC},
    {"sqrt", B_SQRT}, {"sin", B_SIN}, {"cos", B_COS}, {"exp", B_EXP}, {"log", B_LOG}, {"pow", B_POW}, {"floor", B_FLOOR}, {"ceil", B_CEIL}, {"trunc", B_TRUNC}, {"round", B_ROUND}, {"rint", B_RINT}, {"nearbyint", B_RINT},
    {"fabs", B_FABS}, {"cexp", B_CEXP}, {"csqrt", B_CSQRT}, {"cabs", B_CABS}, {"hypot", B_HYPOT}, {"__muldc3", B_MULDC}, {"__divdc3", B_DIVDC}, {"tan", B_TAN}, {"atan2", B_ATAN2}, {"acos", B_ACOS}, {"log2", B_LOG2}, {"sincos", B_SINCOS}, {"fmod", B_FMOD}, {"log10", B_LOG10}, {"cbrt", B_CBRT},
    {"bsx_real", B_BSX_REAL}, {"bsx_int", B_BSX_INT}, {"bsx_long", B_BSX_LONG}, {"bsx_choice", B_BSX_CHOICE}, {"bsx_assume", B_BSX_ASSUME}, {"bsx_assert", B_BSX_ASSERT},
    {"bsx_equal", B_BSX_EQUAL}, {"bsx_close", B_BSX_CLOSE}, {"bsx_cover", B_BSX_COVER}, {"bsx_uf1", B_BSX_UF}, {"bsx_uf2", B_BSX_UF}, {"bsx_uf3", B_BSX_UF}, {"bsx_exp", B_BSX_EXP},
    {"bsx_stop", B_BSX_STOP}, {"bsx_symbolic", B_BSX_SYMBOLIC}, {"bsx_expect_abort", B_BSX_EXPECT}, {"bsx_fork_abs", B_BSX_FORKABS},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP},
    {"aligned_alloc", B_ALIGNED_ALLOC},
    {"_ZNSt6chrono3_V212system_clock3nowEv", B_CLOCK_NOW}, {"_ZNSt6chrono3_V212steady_clock3nowEv", B_CLOCK_NOW},
  };
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  if (n.rfind("__kmpc_", 0) == 0 || n.rfind("omp_", 0) == 0) return B_KMPC;
  return B_NONE;
}

struct Decoder {
  CFn *F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<u64, int> cslot;
  std::unordered_map<const BasicBlock *, u32> bbStart;
  std::vector<std::pair<u32, std::pair<const BasicBlock *, const BasicBlock *>>> pend;  // edge idx
  int nslots = 0;
  int newSlots(Type *t) { int n = std::max<size_t>(1, flat(t).size()); int s = nslots; nslots += n; return s; }
  int cst(u64 v) {
    auto it = cslot.find(v);
    if (it != cslot.end()) return it->second;
    F->consts.push_back(v);
    int id = -(int)F->consts.size();
    cslot[v] = id;
    return id;
  }
  // operand of slot k of v
  int opk(const Value *v, int k = 0) {
    if (auto *c = dyn_cast<Constant>(v)) {
      std::vector<u64> o;
      constFlat(c, o);
      return cst(o[k]);
    }
    auto it = slot.find(v);
    if (it == slot.end()) unsupported("operand without slot");
    return it->second + k;
  }
  int edge(const BasicBlock *from, const BasicBlock *to) {
    F->edges.push_back(Edge());
    u32 e = F->edges.size() - 1;
    pend.push_back({e, {from, to}});
    return e;
  }
  CInst &emit(u16 op, int dst = 0, int a = 0, int b = 0, int c = 0, u8 w = 64, u8 f = 0, u64 imm = 0, void *aux = nullptr) {
    CInst x;
    x.op = op; x.w = w; x.f = f; x.dst = dst; x.a = a; x.b = b; x.c = c; x.imm = imm; x.aux = aux;
    F->code.push_back(x);
    return F->code.back();
  }
  static u8 width(Type *t) {
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsupported("wide integer"); return w; }
    return 64;
  }
  void run(CFn *f) {
    F = f;
    Function *fn = f->f;
    for (auto &a : fn->args()) {
      slot[&a] = newSlots(a.getType());
      auto fl = flat(a.getType());
      for (size_t i = 0; i < fl.size(); ++i) f->argSlots.push_back(slot[&a] + i);
    }
    f->nargs = f->argSlots.size();
    f->ret = flat(fn->getReturnType());
    for (auto &bb : *fn)
      for (auto &i : bb) if (!i.getType()->isVoidTy()) slot[&i] = newSlots(i.getType());
    for (auto &bb : *fn) {
      bbStart[&bb] = f->code.size();
      for (auto &i : bb) {
        if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i)) continue;
        try { one(i); }
        catch (Unsupported &u) { emit(I_UNSUP, 0, 0, 0, 0, 64, 0, 0, new std::string(u.what)); }
      }
    }
    for (auto &p : pend) {
      Edge &e = f->edges[p.first];
      e.target = bbStart[p.second.second];
      for (auto &i : *p.second.second) {
        auto *ph = dyn_cast<PHINode>(&i);
        if (!ph) break;
        Value *v = ph->getIncomingValueForBlock(p.second.first);
        int n = flat(ph->getType()).size();
        for (int k = 0; k < n; ++k) {
          int s = opk(v, k), d = slot[ph] + k;
          if (s != d) e.mv.push_back({d, s});
        }
      }
      e.conflict = false;
      std::set<int> ds;
      for (auto &m : e.mv) { if (ds.count(m.second)) e.conflict = true; ds.insert(m.first); }
    }
    f->nslots = nslots;
    f->decoded = true;
  }
  void gep(const GEPOperator *g, int dst) {
    if (g->getType()->isVectorTy()) unsupported("vector gep");
    APInt off(64, 0);
    i64 coff = 0;
    auto *idx = new std::vector<GepIdx>;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      Value *v = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) {
        coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
      } else {
        i64 sz = DL->getTypeAllocSize(it.getIndexedType());
        if (auto *c = dyn_cast<ConstantInt>(v)) coff += sz * c->getSExtValue();
        else idx->push_back(GepIdx{opk(v), sz, width(v->getType())});
      }
    }
    emit(I_GEP, dst, opk(g->getPointerOperand()), idx->size() == 1 ? (*idx)[0].op : 0, (int)idx->size(), idx->size() == 1 ? (*idx)[0].w : 64, 0, (u64)coff, idx);
  }
  void call(CallBase &c, int dst) {
    auto *ci = new CallInfo;
    Value *cv = c.getCalledOperand()->stripPointerCasts();
    if (isa<InlineAsm>(cv)) { if (c.getType()->isVoidTy()) return; unsupported("inline asm"); }
    auto *fn = dyn_cast<Function>(cv);
    if (auto *al = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(al->getAliasee()->stripPointerCasts());
    if (fn && fn->isIntrinsic()) { if (intrinsic(c, fn, dst)) return; unsupported("intrinsic " + fn->getName().str()); }
    ci->ret = flat(c.getType());
    for (auto &r : ci->ret) if (r.k == 9) unsupported("return type");
    ci->nret = ci->ret.size();
    for (unsigned i = 0; i < c.arg_size(); ++i) {
      Value *a = c.getArgOperand(i);
      auto fl = flat(a->getType());
      ci->argFirst.push_back(ci->args.size());
      for (size_t k = 0; k < fl.size(); ++k) {
        if (fl[k].k == 9) unsupported("argument type");
        ci->args.push_back(opk(a, k));
        ci->argk.push_back(fl[k].k);
        ci->argw.push_back(fl[k].w);
        ci->byval.push_back(c.isByValArgument(i) ? DL->getTypeAllocSize(c.getParamByValType(i)) : 0);
      }
    }
    ci->vararg = c.getFunctionType()->isVarArg();
    if (fn) {
      ci->name = fn->getName().str();
      int b = builtinOf(ci->name);
      if (fn->isDeclaration() || (b >= B_SQRT && b <= B_RINT)) {
        ci->builtin = b;
      } else ci->fn = getFn(fn);
      if (!ci->fn && ci->builtin < 0) {
        ci->native = (void *)externAddr(ci->name);
      }
    } else ci->callee = opk(cv);
    emit(I_CALL, dst, 0, 0, 0, 64, 0, 0, ci);
    if (auto *iv = dyn_cast<InvokeInst>(&c)) {
      emit(I_BR, 0, 0, 0, 0, 64, 0, edge(c.getParent(), iv->getNormalDest()));
    }
  }
  bool intrinsic(CallBase &c, Function *fn, int dst) {
    auto A = [&](unsigned i) { return opk(c.getArgOperand(i)); };
    u8 w = c.arg_size() ? (c.getArgOperand(0)->getType()->isIntegerTy() ? width(c.getArgOperand(0)->getType()) : 64) : 64;
    bool dbl = c.arg_size() && c.getArgOperand(0)->getType()->isDoubleTy();
    switch (fn->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value:
      case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch:
      case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::vaend: case Intrinsic::sideeffect: case Intrinsic::donothing:
        if (!c.getType()->isVoidTy()) emit(I_MOVE, dst, cst(0));
        return true;
      case Intrinsic::stacksave: emit(I_MOVE, dst, cst(0)); return true;
      case Intrinsic::stackrestore: return true;
      case Intrinsic::memcpy: emit(I_MEMCPY, 0, A(0), A(1), A(2)); return true;
      case Intrinsic::memmove: emit(I_MEMMOVE, 0, A(0), A(1), A(2)); return true;
      case Intrinsic::memset: emit(I_MEMSET, 0, A(0), A(1), A(2)); return true;
      case Intrinsic::fabs: if (!dbl) return false; emit(I_FABS, dst, A(0)); return true;
      case Intrinsic::copysign: if (!dbl) return false; emit(I_COPYSIGN, dst, A(0), A(1)); return true;
      case Intrinsic::fmuladd: case Intrinsic::fma: if (!dbl) return false; emit(I_FMULADD, dst, A(0), A(1), A(2)); return true;
      case Intrinsic::sqrt: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow:
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::log2: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::log10: {
        if (!dbl) return false;
        static const std::map<unsigned, int> mm = {{Intrinsic::sqrt, B_SQRT}, {Intrinsic::sin, B_SIN}, {Intrinsic::cos, B_COS}, {Intrinsic::exp, B_EXP}, {Intrinsic::log, B_LOG}, {Intrinsic::pow, B_POW}, {Intrinsic::floor, B_FLOOR}, {Intrinsic::ceil, B_CEIL}, {Intrinsic::trunc, B_TRUNC}, {Intrinsic::round, B_ROUND}, {Intrinsic::log2, B_LOG2}, {Intrinsic::rint, B_RINT}, {Intrinsic::nearbyint, B_RINT}, {Intrinsic::log10, B_LOG10}};
        auto *ci = new CallInfo;
        ci->builtin = mm.at(fn->getIntrinsicID());
        for (unsigned i = 0; i < c.arg_size(); ++i) { ci->args.push_back(A(i)); ci->argk.push_back(1); ci->argw.push_back(64); ci->byval.push_back(0); ci->argFirst.push_back(i); }
        ci->nret = 1;
        ci->ret = flat(c.getType());
        emit(I_CALL, dst, 0, 0, 0, 64, 0, 0, ci);
        return true;
      }
      case Intrinsic::powi: {
        if (!dbl) return false;
        auto *ci = new CallInfo;
        ci->builtin = B_POW;
        ci->args = {A(0), A(1)}; ci->argk = {1, 0}; ci->argw = {64, 32}; ci->byval = {0, 0}; ci->argFirst = {0, 1};
        ci->nret = 1; ci->ret = flat(c.getType());
        emit(I_CALL, dst, 0, 0, 0, 64, 0, 0, ci);
        return true;
      }
      case Intrinsic::smax: emit(I_MINMAX, dst, A(0), A(1), 0, w, 0); return true;
      case Intrinsic::smin: emit(I_MINMAX, dst, A(0), A(1), 0, w, 1); return true;
      case Intrinsic::umax: emit(I_MINMAX, dst, A(0), A(1), 0, w, 2); return true;
      case Intrinsic::umin: emit(I_MINMAX, dst, A(0), A(1), 0, w, 3); return true;
      case Intrinsic::abs: emit(I_ABS, dst, A(0), 0, 0, w); return true;
      case Intrinsic::usub_sat: emit(I_USUBSAT, dst, A(0), A(1), 0, w); return true;
      case Intrinsic::uadd_sat: emit(I_UADDSAT, dst, A(0), A(1), 0, w); return true;
      case Intrinsic::maxnum: case Intrinsic::maximum: if (!dbl) return false; emit(I_FMINMAX, dst, A(0), A(1), 0, 64, 0); return true;
      case Intrinsic::minnum: case Intrinsic::minimum: if (!dbl) return false; emit(I_FMINMAX, dst, A(0), A(1), 0, 64, 1); return true;
      case Intrinsic::ctlz: emit(I_CTLZ, dst, A(0), 0, 0, w); return true;
      case Intrinsic::cttz: emit(I_CTTZ, dst, A(0), 0, 0, w); return true;
      case Intrinsic::ctpop: emit(I_CTPOP, dst, A(0), 0, 0, w); return true;
      case Intrinsic::bswap: emit(I_BSWAP, dst, A(0), 0, 0, w); return true;
      case Intrinsic::fshl: emit(I_FSHL, dst, A(0), A(1), A(2), w, 0); return true;
      case Intrinsic::fshr: emit(I_FSHL, dst, A(0), A(1), A(2), w, 1); return true;
      case Intrinsic::is_fpclass: if (!dbl) return false; emit(I_ISFPCLASS, dst, A(0), 0, 0, 64, 0, cast<ConstantInt>(c.getArgOperand(1))->getZExtValue()); return true;
      case Intrinsic::umul_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 0); return true;
      case Intrinsic::smul_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 1); return true;
      case Intrinsic::uadd_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 2); return true;
      case Intrinsic::sadd_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 3); return true;
      case Intrinsic::usub_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 4); return true;
      case Intrinsic::ssub_with_overflow: emit(I_OVF, dst, A(0), A(1), 0, w, 5); return true;
      case Intrinsic::trap: case Intrinsic::debugtrap: emit(I_TRAP); return true;
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: emit(I_MOVE, dst, A(0)); return true;
      case Intrinsic::objectsize: emit(I_MOVE, dst, cst(~0ull)); return true;
      case Intrinsic::is_constant: emit(I_MOVE, dst, cst(0)); return true;
      case Intrinsic::eh_typeid_for: emit(I_MOVE, dst, cst(1)); return true;
      case Intrinsic::vastart: emit(I_VASTART, 0, A(0)); return true;
      default: return false;
    }
  }
  void one(Instruction &i) {
    auto it = slot.find(&i);
    int dst = it == slot.end() ? 0 : it->second;
    auto O = [&](unsigned k) { return opk(i.getOperand(k)); };
    Type *t = i.getType();
    u8 w = t->isIntegerTy() ? width(t) : 64;
    auto bin = [&](u16 op) {
      if (t->isVectorTy()) unsupported("vector op");
      u8 fl = 0;
      if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&i)) fl = (ob->hasNoSignedWrap() ? 1 : 0);
      emit(op, dst, O(0), O(1), 0, w, fl);
    };
    auto fbin = [&](u16 op) {
      if (!t->isDoubleTy()) unsupported("non-double arithmetic");
      emit(op, dst, O(0), O(1));
    };
    switch (i.getOpcode()) {
      case Instruction::Ret: {
        auto *r = cast<ReturnInst>(&i);
        auto *v = new std::vector<int>;
        if (r->getReturnValue()) { int n = flat(r->getReturnValue()->getType()).size(); for (int k = 0; k < n; ++k) v->push_back(opk(r->getReturnValue(), k)); }
        emit(I_RET, 0, v->empty() ? 0 : (*v)[0], 0, (int)v->size(), 64, 0, 0, v);
        return;
      }
      case Instruction::Br: {
        auto *b = cast<BranchInst>(&i);
        if (b->isUnconditional()) emit(I_BR, 0, 0, 0, 0, 64, 0, edge(i.getParent(), b->getSuccessor(0)));
        else {
          int e0 = edge(i.getParent(), b->getSuccessor(0)), e1 = edge(i.getParent(), b->getSuccessor(1));
          emit(I_CBR, 0, opk(b->getCondition()), e0, e1);
        }
        return;
      }
      case Instruction::Switch: {
        auto *s = cast<SwitchInst>(&i);
        auto *si = new SwitchInfo;
        for (auto &c : s->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(i.getParent(), c.getCaseSuccessor())});
        si->def = edge(i.getParent(), s->getDefaultDest());
        emit(I_SWITCH, 0, opk(s->getCondition()), 0, 0, width(s->getCondition()->getType()), 0, 0, si);
        return;
      }
      case Instruction::Unreachable: emit(I_UNREACH); return;
      case Instruction::Resume: emit(I_UNREACH); return;
      case Instruction::Add: return bin(I_ADD);
      case Instruction::Sub: return bin(I_SUB);
      case Instruction::Mul: return bin(I_MUL);
      case Instruction::UDiv: return bin(I_UDIV);
      case Instruction::SDiv: return bin(I_SDIV);
      case Instruction::URem: return bin(I_UREM);
      case Instruction::SRem: return bin(I_SREM);
      case Instruction::And: return bin(I_AND);
      case Instruction::Or: return bin(I_OR);
      case Instruction::Xor: return bin(I_XOR);
      case Instruction::Shl: return bin(I_SHL);
      case Instruction::LShr: return bin(I_LSHR);
      case Instruction::AShr: return bin(I_ASHR);
      case Instruction::FAdd: return fbin(I_FADD);
      case Instruction::FSub: return fbin(I_FSUB);
      case Instruction::FMul: return fbin(I_FMUL);
      case Instruction::FDiv: return fbin(I_FDIV);
      case Instruction::FRem: return fbin(I_FREM);
      case Instruction::FNeg: if (!t->isDoubleTy()) unsupported("fneg type"); emit(I_FNEG, dst, O(0)); return;
      case Instruction::ICmp: {
        Type *ot = i.getOperand(0)->getType();
        if (ot->isVectorTy()) unsupported("vector icmp");
        emit(I_ICMP, dst, O(0), O(1), 0, width(ot), cast<ICmpInst>(i).getPredicate());
        return;
      }
      case Instruction::FCmp:
        if (!i.getOperand(0)->getType()->isDoubleTy()) unsupported("fcmp type");
        emit(I_FCMP, dst, O(0), O(1), 0, 64, cast<FCmpInst>(i).getPredicate());
        return;
      case Instruction::Select: {
        if (i.getOperand(0)->getType()->isVectorTy()) unsupported("vector select");
        auto fl = flat(t);
        if (fl.size() != 1) {
          for (size_t k = 0; k < fl.size(); ++k) emit(I_SELECT, dst + k, O(0), opk(i.getOperand(1), k), opk(i.getOperand(2), k), fl[k].w, fl[k].k);
        } else emit(I_SELECT, dst, O(0), O(1), O(2), fl[0].w, fl[0].k);
        return;
      }
      case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(&i);
        u64 sz = DL->getTypeAllocSize(a->getAllocatedType());
        emit(I_ALLOCA, dst, opk(a->getArraySize()), 0, 0, 64, (u8)std::min<u64>(128, a->getAlign().value()), sz);
        return;
      }
      case Instruction::Load: {
        auto fl = flat(t);
        for (size_t k = 0; k < fl.size(); ++k) {
          if (fl[k].k == 9) unsupported("load type");
          emit(I_LOAD, dst + k, O(0), 0, 0, fl[k].w, fl[k].k, fl[k].off);
        }
        return;
      }
      case Instruction::Store: {
        Value *v = i.getOperand(0);
        auto fl = flat(v->getType());
        for (size_t k = 0; k < fl.size(); ++k) {
          if (fl[k].k == 9) unsupported("store type");
          emit(I_STORE, 0, O(1), opk(v, k), 0, fl[k].w, fl[k].k, fl[k].off);
        }
        return;
      }
      case Instruction::GetElementPtr: return gep(cast<GEPOperator>(&i), dst);
      case Instruction::ZExt: emit(I_ZEXT, dst, O(0), 0, 0, w, width(i.getOperand(0)->getType())); return;
      case Instruction::SExt: emit(I_SEXT, dst, O(0), 0, 0, w, width(i.getOperand(0)->getType())); return;
      case Instruction::Trunc: emit(I_TRUNC, dst, O(0), 0, 0, w, width(i.getOperand(0)->getType())); return;
      case Instruction::SIToFP: if (!t->isDoubleTy()) unsupported("sitofp type"); emit(I_SITOFP, dst, O(0), 0, 0, width(i.getOperand(0)->getType())); return;
      case Instruction::UIToFP: if (!t->isDoubleTy()) unsupported("uitofp type"); emit(I_UITOFP, dst, O(0), 0, 0, width(i.getOperand(0)->getType())); return;
      case Instruction::FPToSI: if (!i.getOperand(0)->getType()->isDoubleTy()) unsupported("fptosi type"); emit(I_FPTOSI, dst, O(0), 0, 0, w); return;
      case Instruction::FPToUI: if (!i.getOperand(0)->getType()->isDoubleTy()) unsupported("fptoui type"); emit(I_FPTOUI, dst, O(0), 0, 0, w); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
        if (w != 64) { emit(I_TRUNC, dst, O(0), 0, 0, w, 64); return; }
        emit(I_MOVE, dst, O(0));
        return;
      case Instruction::BitCast: {
        Type *f = i.getOperand(0)->getType();
        auto a = flat(f), b = flat(t);
        if (a.size() != b.size()) unsupported("bitcast");
        for (size_t k = 0; k < a.size(); ++k) { if (a[k].w != b[k].w) unsupported("bitcast"); emit(I_MOVE, dst + k, opk(i.getOperand(0), k)); }
        return;
      }
      case Instruction::Freeze: { auto f = flat(t); for (size_t k = 0; k < f.size(); ++k) emit(I_MOVE, dst + k, opk(i.getOperand(0), k)); return; }
      case Instruction::Call: return call(cast<CallBase>(i), dst);
      case Instruction::Invoke: return call(cast<CallBase>(i), dst);
      case Instruction::LandingPad: emit(I_LANDING); return;
      case Instruction::ExtractValue: {
        auto *e = cast<ExtractValueInst>(&i);
        int o = aggOff(e->getAggregateOperand()->getType(), e->getIndices());
        auto f = flat(t);
        for (size_t k = 0; k < f.size(); ++k) emit(I_MOVE, dst + k, opk(e->getAggregateOperand(), o + k));
        return;
      }
      case Instruction::InsertValue: {
        auto *e = cast<InsertValueInst>(&i);
        int o = aggOff(e->getAggregateOperand()->getType(), e->getIndices());
        auto f = flat(t), g = flat(e->getInsertedValueOperand()->getType());
        for (int k = 0; k < (int)f.size(); ++k) {
          if (k >= o && k < o + (int)g.size()) emit(I_MOVE, dst + k, opk(e->getInsertedValueOperand(), k - o));
          else emit(I_MOVE, dst + k, opk(e->getAggregateOperand(), k));
        }
        return;
      }
      case Instruction::AtomicRMW: {
        auto *a = cast<AtomicRMWInst>(&i);
        emit(I_ATOMICRMW, dst, opk(a->getPointerOperand()), opk(a->getValOperand()), 0, width(a->getValOperand()->getType()), a->getOperation());
        return;
      }
      case Instruction::AtomicCmpXchg: {
        auto *a = cast<AtomicCmpXchgInst>(&i);
        emit(I_CMPXCHG, dst, opk(a->getPointerOperand()), opk(a->getCompareOperand()), opk(a->getNewValOperand()), width(a->getNewValOperand()->getType()));
        return;
      }
      case Instruction::Fence: return;
      case Instruction::ExtractElement: {
        auto *ix = dyn_cast<ConstantInt>(i.getOperand(1));
        if (!ix) unsupported("extractelement");
        emit(I_MOVE, dst, opk(i.getOperand(0), ix->getZExtValue()));
        return;
      }
      case Instruction::InsertElement: {
        auto *ix = dyn_cast<ConstantInt>(i.getOperand(2));
        if (!ix) unsupported("insertelement");
        int n = flat(t).size();
        for (int k = 0; k < n; ++k) emit(I_MOVE, dst + k, k == (int)ix->getZExtValue() ? opk(i.getOperand(1)) : opk(i.getOperand(0), k));
        return;
      }
      default: unsupported(std::string("instruction ") + i.getOpcodeName());
    }
  }
  int aggOff(Type *t, ArrayRef<unsigned> idx) {
    int o = 0;
    for (unsigned x : idx) {
      if (auto *s = dyn_cast<StructType>(t)) {
        for (unsigned k = 0; k < x; ++k) o += flat(s->getElementType(k)).size();
        t = s->getElementType(x);
      } else {
        auto *a = cast<ArrayType>(t);
        o += x * flat(a->getElementType()).size();
        t = a->getElementType();
      }
    }
    return o;
  }
};
static void ensure(CFn *f) {
  if (f->decoded) return;
  Decoder d;
  d.run(f);
}

// ---------------------------------------------------------------- runtime
struct Frame {
  CFn *f;
  u64 *r;
  const u64 *k;
  u32 pc;
  int dst;
  u64 sp;      // guest stack to restore
  size_t rbase;
  std::vector<u64> va;
};
static std::vector<Frame> frames;
static std::vector<u64> regs;   // register stack
static u64 g_instr = 0;
static sigjmp_buf g_jmp;
static volatile bool g_inGuest = false;
static volatile u64 g_faultAddr;

static std::string where() {
  std::string s;
  int n = 0;
  for (int i = (int)frames.size() - 1; i >= 0 && n < 6; --i, ++n) {
    std::string d = demangle(frames[i].f->name);
    if (d.size() > 120) d = d.substr(0, 120) + "...";
    s += (n ? " < " : "") + d;
  }
  return s;
}
#include <execinfo.h>
static void onSegv(int, siginfo_t *si, void *) {
  if (getenv("BSX_DEBUG")) { void *b[30]; int n = backtrace(b, 30); backtrace_symbols_fd(b, n, 2); }
  if (!g_inGuest) { signal(SIGSEGV, SIG_DFL); return; }
  g_faultAddr = (u64)si->si_addr;
  siglongjmp(g_jmp, 1);
}
static void installSegv() {
  stack_t ss;
  ss.ss_sp = mmap(nullptr, 1 << 18, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  ss.ss_size = 1 << 18;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = onSegv;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, nullptr);
  sigaction(SIGBUS, &sa, nullptr);
}
static void touch() { if (!frames.empty()) frames.back().f->symTouched = true; }

static u32 nodeI(u64 v, unsigned w) { return isSym(v) ? unbox(v) : E.bconst(w, v); }
static u32 nodeF(u64 v) { return isSym(v) ? unbox(v) : E.fconst(Exprs::d(v)); }
static u64 fromNode(u32 id) {
  const Node &x = E.n[id];
  if (x.op == O_BCONST || x.op == O_FCONST) return x.imm;
  if (id == ID_TRUE) return 1;
  if (id == ID_FALSE) return 0;
  return box(id);
}
static u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

[[noreturn]] static void memFault(const char *what, u64 a, u64 n) {
  char b[200];
  snprintf(b, sizeof b, "invalid memory access: %s of %lu bytes", what, (unsigned long)n);
  (void)a;
  reportViolation("memory", b, ID_TRUE);
  throw PathEnd{"memory"};
}
static u64 addrOf(u64 v, const char *what) {
  if (!isSym(v)) return v;
  touch();
  return concretize(unbox(v), what);
}
static u64 tag32(u32 id) {
  auto it = tab32inv.find(id);
  u32 k;
  if (it != tab32inv.end()) k = it->second;
  else {
    k = tab32.size();
    if (k >= (1u << 20)) unsupported("too many 32-bit symbolic values in memory");
    tab32.push_back(id);
    tab32inv[id] = k;
  }
  return (u64)(TAG12 << 20 | k);
}
static inline bool is32(u32 v) { return (v >> 20) == TAG12; }

static u64 loadMem(u64 a, unsigned w, u8 kind, u64 n) {
  if (!M.ok(a, n)) memFault("read", a, n);
  u64 v = 0;
  switch (n) {
    case 8: memcpy(&v, (void *)a, 8); break;
    case 4: { u32 t; memcpy(&t, (void *)a, 4); v = t; break; }
    case 2: { uint16_t t; memcpy(&t, (void *)a, 2); v = t; break; }
    case 1: v = *(u8 *)a; break;
    default: memcpy(&v, (void *)a, n);
  }
  if (n == 8) {
    return v;
  }
  // sub-word loads of symbolic words
  if (M.in(a)) {
    u64 wa = a & ~7ull;
    u64 word;
    memcpy(&word, (void *)wa, 8);
    if (isSym(word)) {
      u32 id = unbox(word);
      if (E.un(id)) return box(ID_UNINIT);
      if (E.n[id].w == 0) unsupported("partial read of a symbolic double");
      unsigned sh = (a - wa) * 8;
      u32 x = E.bbin(O_BLSHR, 64, id, E.bconst(64, sh));
      return fromNode(E.btrunc(x, w));
    }
    if (n == 4) {
      if (is32((u32)v) && (v & 0xfffff) < tab32.size()) { u32 id = tab32[v & 0xfffff]; return box(id); }
    } else if (n < 4) {
      u32 half;
      memcpy(&half, (void *)(a & ~3ull), 4);
      if (is32(half) && (half & 0xfffff) < tab32.size()) {
        u32 id = tab32[half & 0xfffff];
        if (E.un(id)) return box(ID_UNINIT);
        unsigned sh = (a & 3) * 8;
        return fromNode(E.btrunc(E.bbin(O_BLSHR, 32, id, E.bconst(32, sh)), w));
      }
    }
  }
  return maskw(v, w);
}
// a word that is about to be accessed in parts: two marked halves
static void splitWord(u64 wa) {
  u64 word;
  memcpy(&word, (void *)wa, 8);
  if (!isSym(word)) return;
  u32 id = unbox(word);
  u64 lo, hi;
  if (!E.un(id) && E.n[id].w == 64) {
    u32 l = E.btrunc(id, 32), h = E.btrunc(E.bbin(O_BLSHR, 64, id, E.bconst(64, 32)), 32);
    lo = E.n[l].op == O_BCONST ? E.n[l].imm : tag32(l);
    hi = E.n[h].op == O_BCONST ? E.n[h].imm : tag32(h);
  } else lo = hi = tag32(ID_UNINIT);
  u64 nw = lo | hi << 32;
  memcpy((void *)wa, &nw, 8);
}
// boundary of a byte range that is overwritten: no marker may stay half
static void splitEdge(u64 a) {
  if (!M.in(a)) return;
  if (a & 7) splitWord(a & ~7ull);
  if (a & 3) {
    u32 half;
    memcpy(&half, (void *)(a & ~3ull), 4);
    if (is32(half) && (half & 0xfffff) < tab32.size()) {
      u32 z = 0;
      memcpy((void *)(a & ~3ull), &z, 4);
    }
  }
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  splitEdge(d);
  splitEdge(d + n);
  if (M.in(s)) {
    if (s & 7) splitWord(s & ~7ull);
    if ((s + n) & 7) splitWord((s + n) & ~7ull);
    if ((s ^ d) & 7)
      for (u64 w = s & ~7ull; w < s + n; w += 8) splitWord(w);
    if ((s ^ d) & 3) {
      // relative shift by bytes: markers cannot be kept
      std::vector<u8> t((u8 *)s, (u8 *)s + n);
      for (u64 h = (s + 3) & ~3ull; h + 4 <= s + n; h += 4) {
        u32 half;
        memcpy(&half, (void *)h, 4);
        if (is32(half) && (half & 0xfffff) < tab32.size()) {
          if (tab32[half & 0xfffff] != ID_UNINIT) unsupported("unaligned copy of a symbolic value");
          memset(&t[h - s], 0xCD, 4);
        }
      }
      memcpy((void *)d, t.data(), n);
      return;
    }
  }
  memmove((void *)d, (void *)s, n);
}
static void setMem(u64 d, int b, u64 n) {
  if (!n) return;
  splitEdge(d);
  splitEdge(d + n);
  memset((void *)d, b, n);
}
static void storeMem(u64 a, u64 v, unsigned w, u64 n) {
  if (!M.ok(a, n)) memFault("write", a, n);
  if (n == 8) {
    memcpy((void *)a, &v, 8);
    return;
  }
  if (M.in(a)) {
    splitWord(a & ~7ull);
    if (n < 4) {
      u32 half;
      memcpy(&half, (void *)(a & ~3ull), 4);
      if (is32(half) && (half & 0xfffff) < tab32.size()) {
        u32 z = 0;
        memcpy((void *)(a & ~3ull), &z, 4);
      }
    }
  }
  if (isSym(v)) {
    u32 id = unbox(v);
    if (n == 4) v = tag32(id);
    else {
      if (E.un(id)) v = 0xCD;
      else v = concretize(id, "stored small integer");
    }
  }
  switch (n) {
    case 4: { u32 t = (u32)v; memcpy((void *)a, &t, 4); break; }
    case 2: { uint16_t t = (uint16_t)v; memcpy((void *)a, &t, 2); break; }
    case 1: *(u8 *)a = (u8)v; break;
    default: memcpy((void *)a, &v, n);
  }
}

static std::string cstr(u64 a) { return std::string((const char *)a); }

static u64 symBin(u16 op, u64 a, u64 b, unsigned w) {
  static const Op m[] = {O_BADD, O_BSUB, O_BMUL, O_BUDIV, O_BSDIV, O_BUREM, O_BSREM, O_BAND, O_BOR, O_BXOR, O_BSHL, O_BLSHR, O_BASHR};
  touch();
  u32 x = nodeI(a, w), y = nodeI(b, w);
  // pointer arithmetic on a tagged double etc. is rejected by bbin
  if (op == I_UDIV || op == I_SDIV || op == I_UREM || op == I_SREM) {
    u32 z = E.bcmp(O_BEQ, y, E.bconst(w, 0));
    if (z != ID_FALSE && decide(z)) { reportViolation("ub", "integer division by zero", ID_TRUE); throw PathEnd{"div0"}; }
  }
  return fromNode(E.bbin(m[op - I_ADD], w, x, y));
}
static u64 symF(u16 op, u64 a, u64 b) {
  touch();
  u32 x = nodeF(a), y = nodeF(b);
  if (E.n[x].w || E.n[y].w) {
    if (!E.un(x) && !E.un(y)) unsupported("floating point operation on integer node");
  }
  if (op == I_FDIV && !g_fpMode && !E.isC(y) && !E.un(y)) {
    S->divAssumed++;
    // division by an expression that vanishes identically
    FracP f = C.canon(y);
    if (f->num.empty()) { reportViolation("ub", "floating point division by zero", ID_TRUE); throw PathEnd{"div0"}; }
  }
  if (op == I_FDIV && E.n[y].op == O_FCONST && Exprs::d(E.n[y].imm) == 0 && !g_fpMode) {
    if (!E.un(x)) { reportViolation("ub", "floating point division by zero", ID_TRUE); throw PathEnd{"div0"}; }
  }
  static const Op m[] = {O_FADD, O_FSUB, O_FMUL, O_FDIV};
  return fromNode(E.fbin(m[op - I_FADD], x, y));
}
static u32 icmpNode(u8 p, u32 x, u32 y) {
  switch (p) {
    case CmpInst::ICMP_EQ: return E.bcmp(O_BEQ, x, y);
    case CmpInst::ICMP_NE: return E.not_(E.bcmp(O_BEQ, x, y));
    case CmpInst::ICMP_ULT: return E.bcmp(O_BULT, x, y);
    case CmpInst::ICMP_ULE: return E.bcmp(O_BULE, x, y);
    case CmpInst::ICMP_UGT: return E.bcmp(O_BULT, y, x);
    case CmpInst::ICMP_UGE: return E.bcmp(O_BULE, y, x);
    case CmpInst::ICMP_SLT: return E.bcmp(O_BSLT, x, y);
    case CmpInst::ICMP_SLE: return E.bcmp(O_BSLE, x, y);
    case CmpInst::ICMP_SGT: return E.bcmp(O_BSLT, y, x);
    case CmpInst::ICMP_SGE: return E.bcmp(O_BSLE, y, x);
  }
  unsupported("icmp");
}
static bool icmpC(u8 p, u64 a, u64 b, unsigned w) {
  i64 x = Exprs::sx(a, w), y = Exprs::sx(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y;
    case CmpInst::ICMP_SLE: return x <= y;
    case CmpInst::ICMP_SGT: return x > y;
    case CmpInst::ICMP_SGE: return x >= y;
  }
  unsupported("icmp");
}
static u32 fcmpNode(u8 p, u32 x, u32 y) {
  switch (p) {
    case CmpInst::FCMP_FALSE: return ID_FALSE;
    case CmpInst::FCMP_TRUE: return ID_TRUE;
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return E.fcmp(O_FEQ, x, y);
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return E.not_(E.fcmp(O_FEQ, x, y));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return E.fcmp(O_FLT, x, y);
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return E.fcmp(O_FLE, x, y);
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return E.fcmp(O_FLT, y, x);
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return E.fcmp(O_FLE, y, x);
    case CmpInst::FCMP_ORD: return (E.un(x) || E.un(y)) ? ID_UNINIT : ID_TRUE;   // no NaN in the modelled arithmetic
    case CmpInst::FCMP_UNO: return (E.un(x) || E.un(y)) ? ID_UNINIT : ID_FALSE;
  }
  unsupported("fcmp");
}
static bool fcmpC(u8 p, double x, double y) {
  bool u = std::isnan(x) || std::isnan(y);
  switch (p) {
    case CmpInst::FCMP_FALSE: return false;
    case CmpInst::FCMP_TRUE: return true;
    case CmpInst::FCMP_OEQ: return x == y;
    case CmpInst::FCMP_UEQ: return u || x == y;
    case CmpInst::FCMP_ONE: return !u && x != y;
    case CmpInst::FCMP_UNE: return x != y;
    case CmpInst::FCMP_OLT: return x < y;
    case CmpInst::FCMP_ULT: return u || x < y;
    case CmpInst::FCMP_OLE: return x <= y;
    case CmpInst::FCMP_ULE: return u || x <= y;
    case CmpInst::FCMP_OGT: return x > y;
    case CmpInst::FCMP_UGT: return u || x > y;
    case CmpInst::FCMP_OGE: return x >= y;
    case CmpInst::FCMP_UGE: return u || x >= y;
    case CmpInst::FCMP_ORD: return !u;
    case CmpInst::FCMP_UNO: return u;
  }
  return false;
}
static bool condOf(u64 v) {
  if (!isSym(v)) return v & 1;
  touch();
  return decide(unbox(v));
}
// absolute values by case distinction of the sign (keeps conditions linear)
static bool g_forkAbs = false;
static u32 absFork(u32 id) {
  if (!g_forkAbs || g_fpMode || E.n[id].op != O_FABS) return id;
  u32 x = E.n[id].a;
  return decide(E.fcmp(O_FLE, E.fconst(0), x)) ? x : E.fneg(x);
}
static u64 fneg(u64 a) { return isSym(a) ? (touch(), fromNode(E.fneg(unbox(a)))) : a ^ (1ull << 63); }
static u64 FB(u16 op, u64 a, u64 b) {
  if (isSym(a) | isSym(b)) return symF(op, a, b);
  double x = Exprs::d(a), y = Exprs::d(b), r;
  switch (op) {
    case I_FADD: r = x + y; break;
    case I_FSUB: r = x - y; break;
    case I_FMUL: r = x * y; break;
    default: r = x / y; break;
  }
  return Exprs::bits(r);
}

static std::vector<u64> g_kmpcDummy;
static bool kmpc(CallInfo *ci, std::vector<u64> &a, u64 *ret);
static bool clockNow(u64 *ret);

// math function on a double slot
static u64 math1(int b, u64 v) {
  if (!isSym(v)) {
    double x = Exprs::d(v), r;
    switch (b) {
      case B_SQRT: r = std::sqrt(x); break;
      case B_SIN: r = std::sin(x); break;
      case B_COS: r = std::cos(x); break;
      case B_EXP: r = std::exp(x); break;
      case B_LOG: r = std::log(x); break;
      case B_LOG2: r = std::log2(x); break;
      case B_LOG10: r = std::log10(x); break;
      case B_FLOOR: r = std::floor(x); break;
      case B_CEIL: r = std::ceil(x); break;
      case B_TRUNC: r = std::trunc(x); break;
      case B_ROUND: r = std::round(x); break;
      case B_RINT: r = std::rint(x); break;
      case B_FABS: r = std::fabs(x); break;
      case B_TAN: r = std::tan(x); break;
      case B_ACOS: r = std::acos(x); break;
      case B_CBRT: r = std::cbrt(x); break;
      default: unsupported("math1");
    }
    return Exprs::bits(r);
  }
  touch();
  u32 x = unbox(v);
  if (E.un(x)) return box(ID_UNINIT);
  switch (b) {
    case B_SQRT: return fromNode(absFork(E.fsqrt(x)));
    case B_FABS: return fromNode(absFork(E.fabs_(x)));
    case B_FLOOR: case B_CEIL: case B_TRUNC: return Exprs::bits(roundFork(x, b == B_FLOOR ? 0 : b == B_CEIL ? 1 : 2));
    case B_SIN: return fromNode(E.uf("sin", x));
    case B_COS: return fromNode(E.uf("cos", x));
    case B_EXP: return fromNode(E.uf("exp", x));
    case B_LOG: return fromNode(E.uf("log", x));
    case B_LOG2: return fromNode(E.fbin(O_FDIV, E.uf("log", x), E.fconst(std::log(2.0))));
    case B_LOG10: return fromNode(E.fbin(O_FDIV, E.uf("log", x), E.fconst(std::log(10.0))));
    case B_ACOS: return fromNode(E.uf("acos", x));
    case B_TAN: return fromNode(E.fbin(O_FDIV, E.uf("sin", x), E.uf("cos", x)));
    case B_ROUND: {
      // half away from zero
      if (decide(E.fcmp(O_FLE, E.fconst(0), x))) return Exprs::bits(roundFork(E.fbin(O_FADD, x, E.fconst(0.5)), 0));
      return Exprs::bits(roundFork(E.fbin(O_FSUB, x, E.fconst(0.5)), 1));
    }
    default: unsupported("math function of a symbolic value");
  }
}

static u64 g_concreteValue(const std::string &n, bool &have) {
  have = false;
  for (auto &s : g_concrete) {
    size_t p = s.find('=');
    if (s.substr(0, p) == n) { have = true; return Exprs::bits(atof(s.c_str() + p + 1)); }
  }
  return 0;
}

static void boolArg(u64 v, unsigned w, u32 &c) {
  if (!isSym(v)) { c = v ? ID_TRUE : ID_FALSE; return; }
  u32 id = unbox(v);
  if (E.un(id)) { c = ID_UNINIT; return; }
  if (E.n[id].w == 1) c = id;
  else c = E.not_(E.bcmp(O_BEQ, id, E.bconst(E.n[id].w, 0)));
}
static u64 truncTo(u64 v, unsigned from, unsigned w);

static bool builtin(CallInfo *ci, std::vector<u64> &a, u64 *ret) {
  auto conc = [&](int i, const char *w) { return isSym(a[i]) ? (touch(), concretize(unbox(a[i]), w)) : a[i]; };
  switch (ci->builtin) {
    case B_MALLOC: case B_NEW: *ret = M.alloc(conc(0, "allocation size")); return true;
    case B_ALIGNED_ALLOC: { u64 al = conc(0, "align"), n = conc(1, "size"); u64 p = M.alloc(n + al); *ret = (p + al - 1) / al * al; return true; }
    case B_CALLOC: *ret = M.alloc(conc(0, "allocation size") * conc(1, "allocation size"), true); return true;
    case B_REALLOC: {
      u64 p = conc(0, "pointer"), n = conc(1, "allocation size");
      u64 q = M.alloc(n);
      if (p && M.in(p)) { memcpy((void *)q, (void *)p, std::min(n, M.sizeOf(p))); M.release(p); }
      else if (p) { unsupported("realloc of native memory"); }
      *ret = q;
      return true;
    }
    case B_FREE: case B_DELETE: {
      u64 p = conc(0, "pointer");
      if (!p) return true;
      if (M.in(p)) { if (!M.release(p)) { reportViolation("memory", "invalid or double free", ID_TRUE); throw PathEnd{"free"}; } }
      else free((void *)p);
      return true;
    }
    case B_ALLOCEXC: *ret = M.alloc(a[0] + 128, true); return true;
    case B_FREEEXC: return true;
    case B_ASSERT: {
      if (g_expectAbort) throw PathEnd{"expected abort"};
      reportViolation("assertion", "library assertion failed: " + cstr(a[0]), ID_TRUE);
      throw PathEnd{"assert"};
    }
    case B_ABORT:
      if (g_expectAbort) throw PathEnd{"expected abort"};
      reportViolation("abort", "call of " + ci->name, ID_TRUE);
      throw PathEnd{"abort"};
    case B_THROW:
      if (g_expectAbort) throw PathEnd{"expected abort"};
      reportViolation("exception", "exception thrown (" + demangle(ci->name) + ")", ID_TRUE);
      throw PathEnd{"throw"};
    case B_GUARD_ACQ: { u8 *g = (u8 *)a[0]; *ret = *g == 0; return true; }
    case B_GUARD_REL: { *(u8 *)a[0] = 1; return true; }
    case B_ATEXIT: *ret = 0; return true;
    case B_SQRT: case B_SIN: case B_COS: case B_EXP: case B_LOG: case B_LOG2: case B_LOG10: case B_FLOOR: case B_CEIL: case B_TRUNC: case B_ROUND: case B_RINT: case B_FABS: case B_TAN: case B_ACOS: case B_CBRT:
      *ret = math1(ci->builtin, a[0]);
      return true;
    case B_HYPOT: {
      if (!isSym(a[0]) && !isSym(a[1])) { *ret = Exprs::bits(std::hypot(Exprs::d(a[0]), Exprs::d(a[1]))); return true; }
      *ret = math1(B_SQRT, FB(I_FADD, FB(I_FMUL, a[0], a[0]), FB(I_FMUL, a[1], a[1])));
      return true;
    }
    case B_CABS: {
      *ret = math1(B_SQRT, FB(I_FADD, FB(I_FMUL, a[0], a[0]), FB(I_FMUL, a[1], a[1])));
      return true;
    }
    case B_CEXP: {
      u64 e = math1(B_EXP, a[0]);
      ret[0] = FB(I_FMUL, e, math1(B_COS, a[1]));
      ret[1] = FB(I_FMUL, e, math1(B_SIN, a[1]));
      return true;
    }
    case B_SINCOS: {
      storeMem(a[1], math1(B_SIN, a[0]), 64, 8);
      storeMem(a[2], math1(B_COS, a[0]), 64, 8);
      return true;
    }
    case B_MULDC: {
      ret[0] = FB(I_FSUB, FB(I_FMUL, a[0], a[2]), FB(I_FMUL, a[1], a[3]));
      ret[1] = FB(I_FADD, FB(I_FMUL, a[0], a[3]), FB(I_FMUL, a[1], a[2]));
      return true;
    }
    case B_DIVDC: {
      u64 n = FB(I_FADD, FB(I_FMUL, a[2], a[2]), FB(I_FMUL, a[3], a[3]));
      ret[0] = FB(I_FDIV, FB(I_FADD, FB(I_FMUL, a[0], a[2]), FB(I_FMUL, a[1], a[3])), n);
      ret[1] = FB(I_FDIV, FB(I_FSUB, FB(I_FMUL, a[1], a[2]), FB(I_FMUL, a[0], a[3])), n);
      return true;
    }
    case B_POW: {
      if (ci->argk[1] == 0) {  // powi
        i64 e = Exprs::sx(conc(1, "exponent"), 32);
        u64 r = Exprs::bits(1.0);
        for (i64 k = 0; k < std::llabs(e); ++k) r = FB(I_FMUL, r, a[0]);
        if (e < 0) r = FB(I_FDIV, Exprs::bits(1.0), r);
        *ret = r;
        return true;
      }
      if (!isSym(a[0]) && !isSym(a[1])) { *ret = Exprs::bits(std::pow(Exprs::d(a[0]), Exprs::d(a[1]))); return true; }
      touch();
      if (!isSym(a[1])) {
        double e = Exprs::d(a[1]);
        if (e == std::floor(e * 2) / 2 && std::fabs(e) <= 64) {
          int n2 = (int)std::lround(std::fabs(e) * 2);
          u64 r = Exprs::bits(1.0);
          for (int k = 0; k < n2 / 2; ++k) r = FB(I_FMUL, r, a[0]);
          if (n2 % 2) r = FB(I_FMUL, r, math1(B_SQRT, a[0]));
          if (e < 0) r = FB(I_FDIV, Exprs::bits(1.0), r);
          *ret = r;
          return true;
        }
      } else if (!isSym(a[0])) {
        // c^x = exp(x log c)
        double c = Exprs::d(a[0]);
        if (c == 2) { *ret = math1(B_EXP, FB(I_FMUL, a[1], Exprs::bits(std::log(2.0)))); return true; }
      }
      *ret = fromNode(E.uf("pow", nodeF(a[0]), nodeF(a[1])));
      return true;
    }
    case B_FMOD:
      if (!isSym(a[0]) && !isSym(a[1])) { *ret = Exprs::bits(std::fmod(Exprs::d(a[0]), Exprs::d(a[1]))); return true; }
      unsupported("fmod");
    case B_ATAN2:
      if (!isSym(a[0]) && !isSym(a[1])) { *ret = Exprs::bits(std::atan2(Exprs::d(a[0]), Exprs::d(a[1]))); return true; }
      *ret = fromNode(E.uf("atan2", nodeF(a[0]), nodeF(a[1])));
      return true;
    case B_CSQRT: unsupported("csqrt");
    case B_MEMCPY: case B_MEMMOVE: {
      u64 n = conc(2, "length");
      u64 d = conc(0, "ptr"), s = conc(1, "ptr");
      if (!M.ok(s, n)) memFault("read", s, n);
      if (!M.ok(d, n)) memFault("write", d, n);
      copyMem(d, s, n);
      *ret = d;
      return true;
    }
    case B_MEMSET: {
      u64 n = conc(2, "length");
      u64 d = conc(0, "ptr");
      if (!M.ok(d, n)) memFault("write", d, n);
      setMem(d, (int)conc(1, "byte"), n);
      *ret = d;
      return true;
    }
    case B_MEMCMP: {
      u64 n = conc(2, "length"), x = conc(0, "ptr"), y = conc(1, "ptr");
      if (!M.ok(x, n)) memFault("read", x, n);
      if (!M.ok(y, n)) memFault("read", y, n);
      *ret = maskw((u64)(i64)memcmp((void *)x, (void *)y, n), 32);
      return true;
    }
    // ---- harness interface
    case B_BSX_REAL: {
      std::string nm = cstr(a[0]);
      bool have;
      u64 v = g_concreteValue(nm, have);
      if (have) { *ret = v; return true; }
      *ret = box(E.var(nm, 0, Exprs::d(a[1]), Exprs::d(a[2]), 0, 0));
      return true;
    }
    case B_BSX_INT: case B_BSX_LONG: {
      std::string nm = cstr(a[0]);
      bool have;
      u64 v = g_concreteValue(nm, have);
      unsigned w = ci->builtin == B_BSX_INT ? 32 : 64;
      if (have) { *ret = maskw((u64)(i64)Exprs::d(v), w); return true; }
      *ret = box(E.var(nm, 1, 0, 0, Exprs::sx(a[1], w), Exprs::sx(a[2], w), w));
      return true;
    }
    case B_BSX_CHOICE: {
      std::string nm = cstr(a[0]);
      bool have;
      u64 v = g_concreteValue(nm, have);
      if (have) { *ret = maskw((u64)(i64)Exprs::d(v), 32); return true; }
      i64 lo = Exprs::sx(a[1], 32), hi = Exprs::sx(a[2], 32);
      u32 var = E.var(nm, 1, 0, 0, lo, hi, 32);
      for (i64 k = lo; k < hi; ++k) {
        u32 eq = E.bcmp(O_BEQ, var, E.bconst(32, (u64)k));
        if (forkPath()) { addPC(eq); *ret = maskw((u64)k, 32); return true; }
      }
      addPC(E.bcmp(O_BEQ, var, E.bconst(32, (u64)hi)));
      *ret = maskw((u64)hi, 32);
      return true;
    }
    case B_BSX_ASSUME: { u32 c; boolArg(a[0], 32, c); assume(c); return true; }
    case B_BSX_ASSERT: { u32 c; boolArg(a[0], 32, c); prove(c, cstr(a[1]), 0); return true; }
    case B_BSX_EQUAL: {
      if (!isSym(a[0]) && !isSym(a[1])) {
        double x = Exprs::d(a[0]), y = Exprs::d(a[1]);
        prove(std::fabs(x - y) <= 1e-10 * (1 + std::fabs(x) + std::fabs(y)) ? ID_TRUE : ID_FALSE, cstr(a[2]), 0);
        return true;
      }
      u32 x = nodeF(a[0]), y = nodeF(a[1]);
      u32 c = E.fcmp(O_FEQ, x, y);
      if (g_fpMode || c == ID_TRUE || E.un(x) || E.un(y)) { prove(c, cstr(a[2]), 0); return true; }
      if (rawFirst(x, y, cstr(a[2]))) return true;
      if (normBool(c) == 1) { prove(c, cstr(a[2]), 0); return true; }
      if (coefClose(x, y, cstr(a[2]))) return true;
      // not an identity: rounding of constants is forgiven, nothing else
      u32 d = E.fbin(O_FSUB, x, y);
      u32 strong = E.or_(E.fcmp(O_FLE, E.fconst(1e-2), d), E.fcmp(O_FLE, d, E.fconst(-1e-2)));
      u32 neg = E.or_(E.fcmp(O_FLT, E.fconst(1e-8), d), E.fcmp(O_FLT, d, E.fconst(-1e-8)));
      prove(E.not_(neg), cstr(a[2]), strong);
      return true;
    }
    case B_BSX_CLOSE: {
      u64 t = a[2];
      u64 d = FB(I_FSUB, a[0], a[1]);
      if (isSym(d) && E.un(unbox(d))) { prove(ID_UNINIT, cstr(a[3]), 0); return true; }
      u32 dn = nodeF(d), tn = nodeF(t), tm = nodeF(fneg(t));
      if (!isSym(d) && !isSym(t)) {
        double x = Exprs::d(d);
        prove(std::fabs(x) <= Exprs::d(t) ? ID_TRUE : ID_FALSE, cstr(a[3]), 0);
        return true;
      }
      u32 c = E.and_(E.fcmp(O_FLE, dn, tn), E.fcmp(O_FLE, tm, dn));
      u32 strong = E.or_(E.fcmp(O_FLE, E.fbin(O_FMUL, tn, E.fconst(1000)), dn), E.fcmp(O_FLE, dn, E.fbin(O_FMUL, tm, E.fconst(1000))));
      // split so that each side is an atom of the box relaxation
      u32 neg = E.or_(E.fcmp(O_FLT, tn, dn), E.fcmp(O_FLT, dn, tm));
      (void)c;
      prove(E.not_(neg), cstr(a[3]), strong);
      return true;
    }
    case B_BSX_COVER: {
      std::string m = cstr(a[0]);
      if (g_covers.insert(m).second) {
        Res r = PC.empty() ? R_SAT : query(PC, g_aTimeout);
        if (r == R_SAT) { S->covers++; logLine("{\"kind\":\"cover\",\"msg\":\"" + jesc(m) + "\"}"); }
        else if (r == R_UNSAT) throw PathEnd{"infeasible"};
      }
      return true;
    }
    case B_BSX_UF: {
      std::string n = cstr(a[0]);
      *ret = fromNode(E.uf("u_" + n, nodeF(a[1]), a.size() > 2 ? nodeF(a[2]) : 0, a.size() > 3 ? nodeF(a[3]) : 0));
      return true;
    }
    case B_BSX_EXP: *ret = math1(B_EXP, a[0]); return true;
    case B_BSX_STOP: throw PathEnd{"stop"};
    case B_BSX_SYMBOLIC: *ret = 1; return true;
    case B_BSX_EXPECT: g_expectAbort = a[0]; return true;
    case B_BSX_FORKABS: g_forkAbs = a[0]; return true;
    case B_KMPC: return kmpc(ci, a, ret);
    default: return false;
  }
}

typedef u64 (*FnI)(...);
typedef double (*FnD)(...);
struct II { u64 a, b; };
struct DD { double a, b; };
struct ID_ { u64 a; double b; };
typedef II (*FnII)(...);
typedef DD (*FnDD)(...);

// native code writes bytes: drop the uninitialised markers of the object it gets
static void wash(u64 p) {
  const u64 un = box(ID_UNINIT);
  const u32 un32 = tab32inv.count(ID_UNINIT) ? (TAG12 << 20 | tab32inv[ID_UNINIT]) : 0;
  u64 a = p & ~7ull;
  for (int i = 0; i < 1024 && M.in(a) && M.sh[(a - M.base) >> 3]; ++i, a += 8) {
    u64 w;
    memcpy(&w, (void *)a, 8);
    if (w == un) w = 0;
    else if (un32) {
      if ((u32)w == un32) w &= ~0xffffffffull;
      if ((u32)(w >> 32) == un32) w &= 0xffffffffull;
    }
    memcpy((void *)a, &w, 8);
  }
}
static void nativeCall(CallInfo *ci, void *fn, std::vector<u64> &a, u64 *ret) {
  u64 x[16] = {0};
  double d[8] = {0};
  int ni = 0, nd = 0;
  for (size_t i = 0; i < a.size(); ++i) {
    u64 v = a[i];
    if (ci->byval[i]) unsupported("byval argument to native function " + ci->name);
    if (ci->argk[i] == 1) {
      if (nd >= 8) unsupported("too many double args");
      d[nd++] = Exprs::d(v);  // a tagged NaN passes through (output only)
    } else if (ci->argk[i] == 3) unsupported("float argument");
    else {
      if (isSym(v)) { touch(); v = concretize(unbox(v), ("argument of " + ci->name).c_str()); }
      if (ni >= 16) unsupported("too many args");
      if (ci->argw[i] < 64 && ci->argk[i] == 0) v = (u64)Exprs::sx(v, ci->argw[i]);
      if (M.in(v)) wash(v);
      x[ni++] = v;
    }
  }
  if (ni > 12) unsupported("too many integer arguments");
#define ARGS x[0], x[1], x[2], x[3], x[4], x[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], x[6], x[7], x[8], x[9], x[10], x[11]
  if (ci->nret == 0) ((FnI)fn)(ARGS);
  else if (ci->nret == 1) {
    if (ci->ret[0].k == 1) ret[0] = Exprs::bits(((FnD)fn)(ARGS));
    else { ret[0] = ((FnI)fn)(ARGS); if (ci->ret[0].k == 0) ret[0] = maskw(ret[0], ci->ret[0].w); }
  } else if (ci->nret == 2) {
    bool d0 = ci->ret[0].k == 1, d1 = ci->ret[1].k == 1;
    if (d0 && d1) { DD r = ((FnDD)fn)(ARGS); ret[0] = Exprs::bits(r.a); ret[1] = Exprs::bits(r.b); }
    else if (!d0 && !d1) { II r = ((FnII)fn)(ARGS); ret[0] = maskw(r.a, ci->ret[0].w); ret[1] = maskw(r.b, ci->ret[1].w); }
    else unsupported("native return type");
  } else unsupported("native return type");
}

static u64 truncTo(u64 v, unsigned from, unsigned w) {
  if (!isSym(v)) {
    v = maskw(v, w);
    if (w == 32 && from == 64 && is32((u32)v) && (v & 0xfffff) < tab32.size()) return box(tab32[v & 0xfffff]);
    return v;
  }
  touch();
  return fromNode(E.btrunc(unbox(v), w));
}

static void growRegs(size_t need) {
  if (regs.size() >= need) return;
  std::vector<u64 *> dummy;
  size_t old = regs.size();
  regs.resize(std::max(need, old * 2));
  for (auto &f : frames) f.r = regs.data() + f.rbase;
}
static void pushFrame(CFn *f, const std::vector<u64> &args, int dst) {
  ensure(f);
  if (frames.size() > 20000) { reportViolation("recursion", "unbounded recursion", ID_TRUE); throw PathEnd{"recursion"}; }
  size_t base = frames.empty() ? 0 : frames.back().rbase + frames.back().f->nslots + 1;
  growRegs(base + f->nslots + 8);
  Frame fr;
  fr.f = f;
  fr.rbase = base;
  fr.r = regs.data() + base;
  fr.k = f->consts.data();
  fr.pc = 0;
  fr.dst = dst;
  fr.sp = M.stackTop;
  for (size_t i = 0; i < f->argSlots.size() && i < args.size(); ++i) fr.r[f->argSlots[i]] = args[i];
  if (args.size() > f->argSlots.size()) fr.va.assign(args.begin() + f->argSlots.size(), args.end());
  frames.push_back(std::move(fr));
}

#include "omp.h"

static void interpret(size_t stopDepth);
static void callFn(CFn *f, const std::vector<u64> &args) {
  size_t d = frames.size();
  pushFrame(f, args, -1);
  interpret(d);
}

static void interpret(size_t stopDepth) {
  std::vector<u64> args;
  u64 budget = 0;
  Frame *fr = &frames.back();
  u64 *r = fr->r;
  const u64 *k = fr->k;
  const CInst *code = fr->f->code.data();
  u32 pc = fr->pc;
#define V(i) ((i) >= 0 ? r[i] : k[-(i) - 1])
#define RELOAD() do { fr = &frames.back(); r = fr->r; k = fr->k; code = fr->f->code.data(); pc = fr->pc; } while (0)
  auto takeEdge = [&](int ei) {
    const Edge &e = fr->f->edges[ei];
    if (!e.mv.empty()) {
      if (e.conflict) {
        u64 tmp[64];
        std::vector<u64> big;
        u64 *t = tmp;
        if (e.mv.size() > 64) { big.resize(e.mv.size()); t = big.data(); }
        for (size_t i = 0; i < e.mv.size(); ++i) t[i] = V(e.mv[i].second);
        for (size_t i = 0; i < e.mv.size(); ++i) r[e.mv[i].first] = t[i];
      } else
        for (auto &m : e.mv) r[m.first] = V(m.second);
    }
    pc = e.target;
  };
  for (;;) {
    const CInst &I = code[pc];
    fr->pc = pc;
    ++pc;
    if (++budget >= 65536) {
      S->instrs += budget;
      g_instr += budget;
      budget = 0;
      if (nowS() > g_deadline) { S->inconclusive++; logLine("{\"kind\":\"inconclusive\",\"what\":\"deadline\",\"where\":\"" + jesc(where()) + "\"}"); throw PathEnd{"deadline"}; }
      if (g_instr > g_maxInstr) { S->inconclusive++; throw PathEnd{"instruction limit"}; }
      if (S->violations >= (u64)g_maxViol) throw PathEnd{"violation limit"};
    }
    switch (I.op) {
      case I_NOP: break;
      case I_RET: {
        u64 rv[8];
        int n = I.c;
        std::vector<u64> big;
        u64 *rp = rv;
        if (n > 8) { big.resize(n); rp = big.data(); }
        auto *v = (std::vector<int> *)I.aux;
        for (int i = 0; i < n; ++i) rp[i] = V((*v)[i]);
        int dst = fr->dst;
        M.spop(fr->sp);
        if (fr->f->symTouched) {}
        frames.pop_back();
        if (frames.size() == stopDepth) { S->instrs += budget; g_instr += budget; return; }
        RELOAD();
        for (int i = 0; i < n; ++i) r[dst + i] = rp[i];
        ++pc;
        break;
      }
      case I_BR: takeEdge((int)I.imm); break;
      case I_CBR: {
        u64 c = V(I.a);
        bool t = isSym(c) ? condOf(c) : (c & 1);
        takeEdge(t ? I.b : I.c);
        break;
      }
      case I_SWITCH: {
        auto *si = (SwitchInfo *)I.aux;
        u64 v = V(I.a);
        int e = -1;
        if (isSym(v)) {
          touch();
          u32 id = unbox(v);
          for (auto &c : si->cases)
            if (decide(E.bcmp(O_BEQ, id, E.bconst(I.w, c.first)))) { e = c.second; break; }
          if (e < 0) e = si->def;
        } else {
          e = si->def;
          for (auto &c : si->cases) if (c.first == v) { e = c.second; break; }
        }
        takeEdge(e);
        break;
      }
      case I_UNREACH:
        reportViolation("ub", "unreachable code reached", ID_TRUE);
        throw PathEnd{"unreachable"};
      case I_TRAP:
        reportViolation("ub", "trap reached", ID_TRUE);
        throw PathEnd{"trap"};
      case I_LANDING: throw PathEnd{"landingpad"};
      case I_ADD: case I_SUB: case I_MUL: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { r[I.dst] = symBin(I.op, a, b, I.w); break; }
        u64 x = I.op == I_ADD ? a + b : I.op == I_SUB ? a - b : a * b;
        if (I.f & 1) {
          i64 p = Exprs::sx(a, I.w), q = Exprs::sx(b, I.w), s;
          bool o = I.op == I_ADD ? __builtin_add_overflow(p, q, &s) : I.op == I_SUB ? __builtin_sub_overflow(p, q, &s) : __builtin_mul_overflow(p, q, &s);
          if (!o && I.w < 64) o = Exprs::sx((u64)s, I.w) != s;
          if (o) { r[I.dst] = box(ID_UNINIT); break; }  // poison
        }
        r[I.dst] = maskw(x, I.w);
        break;
      }
      case I_UDIV: case I_UREM: case I_SDIV: case I_SREM: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { r[I.dst] = symBin(I.op, a, b, I.w); break; }
        if (!b) { reportViolation("ub", "integer division by zero", ID_TRUE); throw PathEnd{"div0"}; }
        u64 x;
        Exprs::fold(O_BUDIV, 64, 1, 1, x);
        Op m = I.op == I_UDIV ? O_BUDIV : I.op == I_UREM ? O_BUREM : I.op == I_SDIV ? O_BSDIV : O_BSREM;
        Exprs::fold(m, I.w, a, b, x);
        r[I.dst] = x;
        break;
      }
      case I_AND: case I_OR: case I_XOR: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { r[I.dst] = symBin(I.op, a, b, I.w); break; }
        r[I.dst] = I.op == I_AND ? a & b : I.op == I_OR ? a | b : a ^ b;
        break;
      }
      case I_SHL: case I_LSHR: case I_ASHR: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { r[I.dst] = symBin(I.op, a, b, I.w); break; }
        u64 x;
        Exprs::fold(I.op == I_SHL ? O_BSHL : I.op == I_LSHR ? O_BLSHR : O_BASHR, I.w, a, b, x);
        r[I.dst] = x;
        break;
      }
      case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: r[I.dst] = FB(I.op, V(I.a), V(I.b)); break;
      case I_FREM: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) unsupported("frem");
        r[I.dst] = Exprs::bits(std::fmod(Exprs::d(a), Exprs::d(b)));
        break;
      }
      case I_FMULADD: r[I.dst] = FB(I_FADD, FB(I_FMUL, V(I.a), V(I.b)), V(I.c)); break;
      case I_FNEG: r[I.dst] = fneg(V(I.a)); break;
      case I_ICMP: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { touch(); r[I.dst] = fromNode(icmpNode(I.f, nodeI(a, I.w), nodeI(b, I.w))); break; }
        r[I.dst] = icmpC(I.f, a, b, I.w);
        break;
      }
      case I_FCMP: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { touch(); r[I.dst] = fromNode(fcmpNode(I.f, nodeF(a), nodeF(b))); break; }
        r[I.dst] = fcmpC(I.f, Exprs::d(a), Exprs::d(b));
        break;
      }
      case I_SELECT: {
        u64 c = V(I.a);
        if (!isSym(c)) { r[I.dst] = (c & 1) ? V(I.b) : V(I.c); break; }
        u64 a = V(I.b), b = V(I.c);
        if (a == b) { r[I.dst] = a; break; }
        if (I.f == 0 && !E.un(unbox(c))) { touch(); r[I.dst] = fromNode(E.bite(I.w, unbox(c), nodeI(a, I.w), nodeI(b, I.w))); break; }
        r[I.dst] = condOf(c) ? a : b;
        break;
      }
      case I_ALLOCA: {
        u64 n = V(I.a);
        if (isSym(n)) n = concretize(unbox(n), "alloca size");
        r[I.dst] = M.salloc(n * I.imm, I.f);
        break;
      }
      case I_LOAD: {
        u64 p = V(I.a);
        if (isSym(p)) p = addrOf(p, "address");
        p += I.imm;
        if (I.w == 64) {
          if (!M.ok(p, 8)) memFault("read", p, 8);
          u64 v;
          memcpy(&v, (void *)p, 8);
          r[I.dst] = v;
        } else r[I.dst] = loadMem(p, I.w, I.f, I.w <= 8 ? 1 : I.w <= 16 ? 2 : I.w <= 32 ? 4 : (I.w + 7) / 8);
        break;
      }
      case I_STORE: {
        u64 p = V(I.a);
        if (isSym(p)) p = addrOf(p, "address");
        p += I.imm;
        u64 v = V(I.b);
        if (I.w == 64) {
          if (!M.ok(p, 8)) memFault("write", p, 8);
          memcpy((void *)p, &v, 8);
        } else storeMem(p, v, I.w, I.w <= 8 ? 1 : I.w <= 16 ? 2 : I.w <= 32 ? 4 : (I.w + 7) / 8);
        break;
      }
      case I_GEP: {
        u64 p = V(I.a);
        if (I.c == 0) {
          if (isSym(p)) { p = addrOf(p, "pointer"); }
          r[I.dst] = p + I.imm;
          break;
        }
        auto *ix = (std::vector<GepIdx> *)I.aux;
        if (isSym(p)) p = addrOf(p, "pointer");
        p += I.imm;
        u32 sym = 0;
        for (auto &g : *ix) {
          u64 v = V(g.op);
          if (isSym(v)) {
            touch();
            if (E.un(unbox(v))) { sym = ID_UNINIT; break; }
            u32 x = E.bbin(O_BMUL, 64, E.bsext(unbox(v), 64), E.bconst(64, (u64)g.scale));
            sym = sym ? E.bbin(O_BADD, 64, sym, x) : x;
          } else p += (u64)(Exprs::sx(v, g.w) * g.scale);
        }
        if (sym == ID_UNINIT) r[I.dst] = box(ID_UNINIT);
        else r[I.dst] = sym ? fromNode(E.bbin(O_BADD, 64, sym, E.bconst(64, p))) : p;
        break;
      }
      case I_ZEXT: {
        u64 v = V(I.a);
        r[I.dst] = isSym(v) ? (touch(), fromNode(E.bzext(unbox(v), I.w))) : v;
        break;
      }
      case I_SEXT: {
        u64 v = V(I.a);
        r[I.dst] = isSym(v) ? (touch(), fromNode(E.bsext(unbox(v), I.w))) : maskw((u64)Exprs::sx(v, I.f), I.w);
        break;
      }
      case I_TRUNC: r[I.dst] = truncTo(V(I.a), I.f, I.w); break;
      case I_SITOFP: case I_UITOFP: {
        u64 v = V(I.a);
        if (isSym(v)) {
          touch();
          if (E.un(unbox(v))) { r[I.dst] = v; break; }
          v = concretize(unbox(v), "int to double");
        }
        r[I.dst] = Exprs::bits(I.op == I_SITOFP ? (double)Exprs::sx(v, I.w) : (double)v);
        break;
      }
      case I_FPTOSI: case I_FPTOUI: {
        u64 v = V(I.a);
        double x;
        if (isSym(v)) {
          touch();
          if (E.un(unbox(v))) { r[I.dst] = v; break; }
          x = roundFork(unbox(v), 2);
        } else x = Exprs::d(v);
        double lim = std::ldexp(1.0, I.op == I_FPTOSI ? I.w - 1 : I.w);
        if (!(x > -lim - 1 && x < lim) || (I.op == I_FPTOUI && x <= -1)) { reportViolation("ub", "double to integer conversion out of range", ID_TRUE); throw PathEnd{"fptosi"}; }
        r[I.dst] = I.op == I_FPTOSI ? maskw((u64)(i64)x, I.w) : maskw((u64)x, I.w);
        break;
      }
      case I_MOVE: r[I.dst] = V(I.a); break;
      case I_MEMCPY: case I_MEMMOVE: {
        u64 d = addrOf(V(I.a), "address"), s = addrOf(V(I.b), "address"), n = addrOf(V(I.c), "length");
        if (!n) break;
        if (!M.ok(s, n)) memFault("read", s, n);
        if (!M.ok(d, n)) memFault("write", d, n);
        copyMem(d, s, n);
        break;
      }
      case I_MEMSET: {
        u64 d = addrOf(V(I.a), "address"), b = addrOf(V(I.b), "byte"), n = addrOf(V(I.c), "length");
        if (!n) break;
        if (!M.ok(d, n)) memFault("write", d, n);
        setMem(d, (int)b, n);
        break;
      }
      case I_FABS: {
        u64 v = V(I.a);
        r[I.dst] = isSym(v) ? (touch(), fromNode(absFork(E.fabs_(unbox(v))))) : v & ~(1ull << 63);
        break;
      }
      case I_COPYSIGN: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) {
          touch();
          u32 m = E.fabs_(nodeF(a));
          if (!isSym(b)) { r[I.dst] = fromNode(std::signbit(Exprs::d(b)) ? E.fneg(m) : m); break; }
          r[I.dst] = fromNode(decide(E.fcmp(O_FLE, E.fconst(0), unbox(b))) ? m : E.fneg(m));
          break;
        }
        r[I.dst] = Exprs::bits(std::copysign(Exprs::d(a), Exprs::d(b)));
        break;
      }
      case I_ISFPCLASS: {
        u64 v = V(I.a);
        if (isSym(v)) { touch(); r[I.dst] = E.un(unbox(v)) ? v : (I.imm & 3) ? ((I.imm & ~3ull & 0x3ff) == 0 ? 0 : 0) : ((I.imm & 0x1f8) == 0x1f8); break; }
        double x = Exprs::d(v);
        u64 m = 0;
        if (std::isnan(x)) m = 3;
        else if (std::isinf(x)) m = x < 0 ? 4 : 512;
        else if (x == 0) m = std::signbit(x) ? 32 : 64;
        else if (std::fabs(x) < 2.2250738585072014e-308) m = x < 0 ? 16 : 128;
        else m = x < 0 ? 8 : 256;
        r[I.dst] = (m & I.imm) != 0;
        break;
      }
      case I_FMINMAX: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) {
          touch();
          bool lt = decide(E.fcmp(O_FLT, nodeF(a), nodeF(b)));
          r[I.dst] = (I.f == 0) == lt ? b : a;
          break;
        }
        r[I.dst] = Exprs::bits(I.f == 0 ? std::fmax(Exprs::d(a), Exprs::d(b)) : std::fmin(Exprs::d(a), Exprs::d(b)));
        break;
      }
      case I_MINMAX: {
        u64 a = V(I.a), b = V(I.b);
        static const u8 pr[] = {CmpInst::ICMP_SGT, CmpInst::ICMP_SLT, CmpInst::ICMP_UGT, CmpInst::ICMP_ULT};
        if (isSym(a) | isSym(b)) { touch(); u32 x = nodeI(a, I.w), y = nodeI(b, I.w); r[I.dst] = fromNode(E.bite(I.w, icmpNode(pr[I.f], x, y), x, y)); break; }
        r[I.dst] = icmpC(pr[I.f], a, b, I.w) ? a : b;
        break;
      }
      case I_ABS: {
        u64 a = V(I.a);
        if (isSym(a)) { touch(); u32 x = unbox(a); if (E.un(x)) { r[I.dst] = a; break; } u32 z = E.bconst(I.w, 0); r[I.dst] = fromNode(E.bite(I.w, E.bcmp(O_BSLT, x, z), E.bbin(O_BSUB, I.w, z, x), x)); break; }
        i64 s = Exprs::sx(a, I.w);
        r[I.dst] = maskw((u64)(s < 0 ? -s : s), I.w);
        break;
      }
      case I_USUBSAT: case I_UADDSAT: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a) | isSym(b)) { a = isSym(a) ? concretize(unbox(a), "sat") : a; b = isSym(b) ? concretize(unbox(b), "sat") : b; }
        if (I.op == I_USUBSAT) r[I.dst] = a < b ? 0 : a - b;
        else { u64 s = maskw(a + b, I.w); r[I.dst] = s < a ? maskw(~0ull, I.w) : s; }
        break;
      }
      case I_CTLZ: { u64 a = V(I.a); if (isSym(a)) a = concretize(unbox(a), "ctlz"); r[I.dst] = a ? __builtin_clzll(a) - (64 - I.w) : I.w; break; }
      case I_CTTZ: { u64 a = V(I.a); if (isSym(a)) a = concretize(unbox(a), "cttz"); r[I.dst] = a ? __builtin_ctzll(a) : I.w; break; }
      case I_CTPOP: { u64 a = V(I.a); if (isSym(a)) a = concretize(unbox(a), "ctpop"); r[I.dst] = __builtin_popcountll(a); break; }
      case I_BSWAP: { u64 a = V(I.a); if (isSym(a)) a = concretize(unbox(a), "bswap"); r[I.dst] = __builtin_bswap64(a) >> (64 - I.w); break; }
      case I_FSHL: {
        u64 a = V(I.a), b = V(I.b), s = V(I.c);
        if (isSym(a) | isSym(b) | isSym(s)) unsupported("funnel shift");
        s %= I.w;
        unsigned w = I.w;
        r[I.dst] = I.f == 0 ? (s ? maskw(a << s | b >> (w - s), w) : a) : (s ? maskw(a << (w - s) | b >> s, w) : b);
        break;
      }
      case I_OVF: {
        u64 a = V(I.a), b = V(I.b);
        if (isSym(a)) a = concretize(unbox(a), "overflow op");
        if (isSym(b)) b = concretize(unbox(b), "overflow op");
        unsigned __int128 x = a, y = b;
        __int128 p = Exprs::sx(a, I.w), q = Exprs::sx(b, I.w);
        u64 res;
        bool o;
        if (I.f & 1) { __int128 z = I.f == 1 ? p * q : I.f == 3 ? p + q : p - q; res = maskw((u64)z, I.w); o = (__int128)Exprs::sx(res, I.w) != z; }
        else { unsigned __int128 z = I.f == 0 ? x * y : I.f == 2 ? x + y : x - y; res = maskw((u64)z, I.w); o = (unsigned __int128)res != z; }
        r[I.dst] = res;
        r[I.dst + 1] = o;
        break;
      }
      case I_ATOMICRMW: {
        u64 p = addrOf(V(I.a), "address"), v = V(I.b);
        unsigned n = I.w / 8;
        u64 o = loadMem(p, I.w, 0, n), x;
        switch (I.f) {
          case AtomicRMWInst::Add: x = (isSym(o) | isSym(v)) ? symBin(I_ADD, o, v, I.w) : maskw(o + v, I.w); break;
          case AtomicRMWInst::Sub: x = (isSym(o) | isSym(v)) ? symBin(I_SUB, o, v, I.w) : maskw(o - v, I.w); break;
          case AtomicRMWInst::Xchg: x = v; break;
          case AtomicRMWInst::Or: x = o | v; break;
          case AtomicRMWInst::And: x = o & v; break;
          default: unsupported("atomicrmw");
        }
        storeMem(p, x, I.w, n);
        r[I.dst] = o;
        break;
      }
      case I_CMPXCHG: {
        u64 p = addrOf(V(I.a), "address");
        unsigned n = I.w / 8;
        u64 o = loadMem(p, I.w, 0, n);
        bool eq = o == V(I.b);
        if (eq) storeMem(p, V(I.c), I.w, n);
        r[I.dst] = o;
        r[I.dst + 1] = eq;
        break;
      }
      case I_VASTART: {
        // x86-64 va_list with everything in the overflow area
        u64 p = V(I.a);
        u64 area = M.alloc(fr->va.size() * 8 + 8, true);
        for (size_t i = 0; i < fr->va.size(); ++i) memcpy((void *)(area + 8 * i), &fr->va[i], 8);
        u32 gp = 48, fpo = 176;
        memcpy((void *)p, &gp, 4);
        memcpy((void *)(p + 4), &fpo, 4);
        memcpy((void *)(p + 8), &area, 8);
        u64 z = 0;
        memcpy((void *)(p + 16), &z, 8);
        break;
      }
      case I_CALL: {
        auto *ci = (CallInfo *)I.aux;
        size_t n = ci->args.size();
        args.resize(n);
        for (size_t i = 0; i < n; ++i) args[i] = V(ci->args[i]);
        CFn *f = ci->fn;
        CallInfo tmp;
        CallInfo *use = ci;
        if (!f && ci->callee) {
          u64 a = addrOf(V(ci->callee), "function pointer");
          auto it = fnByAddr.find(a);
          if (it != fnByAddr.end()) {
            f = it->second;
            if (f->f->isDeclaration()) {
              tmp = *ci;
              tmp.name = f->name;
              tmp.builtin = builtinOf(f->name);
              tmp.native = tmp.builtin < 0 ? (void *)externAddr(f->name) : nullptr;
              use = &tmp;
              f = nullptr;
            }
          } else if (M.in(a) || a < 4096) {
            reportViolation("memory", "call through an invalid function pointer", ID_TRUE);
            throw PathEnd{"badcall"};
          } else {
            tmp = *ci;
            tmp.name = "(native)";
            tmp.native = (void *)a;
            use = &tmp;
          }
        }
        if (f) {
          for (size_t i = 0; i < n; ++i)
            if (ci->byval[i]) {
              u64 p = addrOf(args[i], "address");
              // copy lives in the callee's frame region
              u64 q = M.salloc(ci->byval[i], 16);
              if (!M.ok(p, ci->byval[i])) memFault("read", p, ci->byval[i]);
              memcpy((void *)q, (void *)p, ci->byval[i]);
              args[i] = q;
            }
          fr->pc = pc - 1;
          pushFrame(f, args, I.dst);
          RELOAD();
          break;
        }
        u64 ret[8] = {0};
        if (use->builtin == B_CLOCK_NOW) {
          // the harness supplies the clock
          Function *h = Mod->getFunction("bsx_clock_now");
          if (h && !h->isDeclaration()) {
            fr->pc = pc - 1;
            pushFrame(getFn(h), {}, I.dst);
            RELOAD();
            break;
          }
          use->native = (void *)externAddr(use->name);
          use->builtin = B_NONE;
        }
        if (use->builtin == B_KMPC && ompCall(use, args)) {
          // may have pushed frames
          RELOAD();
          break;
        }
        if (use->builtin >= 0) {
          if (!builtin(use, args, ret)) unsupported("builtin " + use->name);
        } else {
          if (!use->native) unsupported("unknown external function " + use->name);
          nativeCall(use, use->native, args, ret);
        }
        for (int i = 0; i < ci->nret; ++i) r[I.dst + i] = ret[i];
        break;
      }
      case I_UNSUP: unsupported(*(std::string *)I.aux);
      default: unsupported("opcode " + std::to_string(I.op));
    }
  }
}

static void runAll(Module &m) {
  Mod = &m;
  DL = &m.getDataLayout();
  fnTokenTop = M.top;
  M.top += 1 << 22;  // function tokens (never valid memory)
  tab32.push_back(ID_UNINIT);
  tab32inv[ID_UNINIT] = 0;
  regs.resize(1 << 16);
  std::string why = "end";
  try {
    for (auto &g : m.globals()) if (!g.isDeclaration()) globalAddr(&g);
    for (auto &g : m.globals()) if (!g.isDeclaration() && g.hasInitializer() && g.getName() != "llvm.global_ctors" && g.getName() != "llvm.used" && g.getName() != "llvm.compiler.used") initGlobal(g.getInitializer(), globalAddr(&g));
    if (sigsetjmp(g_jmp, 1) == 0) {
      g_inGuest = true;
      if (auto *gc = m.getNamedGlobal("llvm.global_ctors")) {
        if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
          std::vector<std::pair<u64, Function *>> v;
          for (auto &o : ca->operands()) {
            auto *s = cast<ConstantStruct>(o);
            if (auto *f = dyn_cast<Function>(s->getOperand(1))) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f});
          }
          std::stable_sort(v.begin(), v.end(), [](const std::pair<u64, Function *> &a, const std::pair<u64, Function *> &b) { return a.first < b.first; });
          for (auto &p : v) callFn(getFn(p.second), {});
        }
      }
      Function *f = m.getFunction(g_fnName);
      if (!f || f->isDeclaration()) unsupported("no function " + g_fnName);
      callFn(getFn(f), {});
    } else {
      g_inGuest = false;
      { char b[96]; snprintf(b, sizeof b, "invalid memory access (fault)"); if (getenv("BSX_DEBUG")) fprintf(stderr, "fault at %llx, arena %llx, pc %u op %d\n", (unsigned long long)g_faultAddr, (unsigned long long)M.base, frames.back().pc, (int)frames.back().f->code[frames.back().pc].op); }
      reportViolation("memory", "invalid memory access (fault)", ID_TRUE);
      throw PathEnd{"segv"};
    }
  } catch (PathEnd &p) {
    why = p.why;
  } catch (Unsupported &u) {
    why = "unsupported: " + u.what;
    S->errors++;
    logLine("{\"kind\":\"error\",\"what\":\"" + jesc(u.what) + "\",\"where\":\"" + jesc(where()) + "\"}");
  }
  g_inGuest = false;
  S->paths++;
  if (why == "end") {
    // the completed path is real: its condition has a model
    Res r = R_UNKNOWN;
    try { r = PC.empty() ? R_SAT : query(PC, g_qTimeout * 2); } catch (Unsupported &) {}
    if (r == R_SAT) { S->pathsSat++; logPathModel(); }
  }
  crossFlush();
  if (getenv("BSX_DEBUG")) fprintf(stderr, "[%d] path end: %s (pc %zu)\n", getpid(), why.c_str(), PC.size());
  static std::set<std::string> seen;
  for (auto &p : fnByIR) if (p.second->symTouched && p.second->f) {
    std::string n = demangle(p.second->name);
    if (seen.insert(n).second) logLine("{\"kind\":\"fn\",\"name\":\"" + jesc(n) + "\"}");
    // functions inlined by the compiler
    for (auto &bb : *p.second->f)
      for (auto &in : bb)
        for (const DILocation *l = in.getDebugLoc().get(); l; l = l->getInlinedAt()) {
          auto *sp = l->getScope()->getSubprogram();
          if (!sp || !sp->getFilename().contains("/Bembel/")) continue;
          std::string q = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str());
          if (seen.insert(q).second) logLine("{\"kind\":\"fn\",\"name\":\"" + jesc(q) + "\"}");
        }
  }
}
