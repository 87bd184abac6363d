// sxinst: rewrites an LLVM module so that every instruction also computes a
// symbolic shadow of its result through calls into the symx runtime (rt.cpp).
// Concrete work keeps running natively; a value whose shadow is non-null is
// described by that shadow only and its native bits are never trusted.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Scalar/Scalarizer.h"
#include "llvm/Transforms/Scalar/LowerAtomicPass.h"
#include <set>
#include <map>
#include <string>
#include <vector>
using namespace llvm;
static bool raceMode = false;

static Module *M;
static LLVMContext *C;
static const DataLayout *DL;
static Type *I1, *I8, *I32, *I64, *VoidT;
static PointerType *P;

static FunctionCallee rt(const char *n, Type *r, ArrayRef<Type *> a) {
  auto f = M->getOrInsertFunction(n, FunctionType::get(r, a, false));
  if (auto *F = dyn_cast<Function>(f.getCallee())) F->setDoesNotThrow();
  return f;
}

static bool hasSh(Type *T) {
  if (T->isIntegerTy() || T->isPointerTy() || T->isDoubleTy() || T->isFloatTy()) return true;
  if (T->isStructTy() || T->isArrayTy()) return true;
  return false;
}
static Type *shTy(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) {
    std::vector<Type *> e;
    for (auto *x : S->elements()) e.push_back(shTy(x));
    return StructType::get(*C, e);
  }
  if (auto *A = dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
  return P;
}
static unsigned leaves(Type *T) {
  if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (auto *x : S->elements()) n += leaves(x); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return leaves(A->getElementType()) * (unsigned)A->getNumElements();
  return 1;
}
static bool isFP(Type *T) { return T->isDoubleTy() || T->isFloatTy(); }
static unsigned bitsOf(Type *T) {
  if (T->isPointerTy()) return 64;
  if (T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  return 0;
}
static bool scalarSh(Type *T) { return hasSh(T) && !T->isAggregateType() ; }

static std::set<std::string> mathFns = {
  "exp","exp2","log","log2","log10","log1p","expm1","pow","sqrt","sin","cos","tan","acos","asin","atan","atan2","sinh","cosh","tanh",
  "floor","ceil","round","trunc","rint","nearbyint","fabs","fmin","fmax","erf","erfc","lgamma","tgamma","hypot","fmod","lround","llround","cbrt","ldexp"};

static bool ignoreExternal(StringRef n) {
  // formatting / stream output only: argument bits are printed, never read back
  return n.starts_with("_ZNSo") || n.starts_with("_ZSt16__ostream_insert") || n.starts_with("_ZStls") ||
         n == "printf" || n == "snprintf" || n == "vsnprintf" || n == "fprintf" || n == "puts" || n == "sprintf" ||
         n.starts_with("_ZNSt7__cxx1119basic_ostringstream") || n.starts_with("_ZNKSt7__cxx11") ||
         n == "__cxa_throw" || n == "__cxa_allocate_exception";
}

struct Inst {
  Function *F;
  std::map<Value *, Value *> sh;
  std::vector<PHINode *> phis;
  GlobalVariable *args, *callee, *ret, *retfn;

  Value *nullSh(Type *T) { return Constant::getNullValue(shTy(T)); }
  Value *get(Value *v) {
    auto it = sh.find(v);
    if (it != sh.end()) return it->second;
    return nullSh(v->getType());
  }
  bool isNull(Value *s) { return isa<Constant>(s) && cast<Constant>(s)->isNullValue(); }
  Value *toI64(IRBuilder<> &B, Value *v) {
    Type *T = v->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(v, I64);
    if (T->isDoubleTy()) return B.CreateBitCast(v, I64);
    if (T->isFloatTy()) return B.CreateZExt(B.CreateBitCast(v, I32), I64);
    if (T->isIntegerTy()) {
      if (T->getIntegerBitWidth() > 64) return B.CreateTrunc(v, I64);
      return B.CreateZExtOrTrunc(v, I64);
    }
    return ConstantInt::get(I64, 0);
  }
  Value *fromI64(IRBuilder<> &B, Value *v, Type *T) {
    if (T->isPointerTy()) return B.CreateIntToPtr(v, T);
    if (T->isDoubleTy()) return B.CreateBitCast(v, T);
    if (T->isFloatTy()) return B.CreateBitCast(B.CreateTrunc(v, I32), T);
    return B.CreateZExtOrTrunc(v, T);
  }
  Value *i32(int x) { return ConstantInt::get(I32, x); }
  Value *i64(uint64_t x) { return ConstantInt::get(I64, x); }

  Value *fixAddr(IRBuilder<> &B, Value *ptr) {
    Value *s = get(ptr);
    if (isNull(s)) return ptr;
    return B.CreateCall(rt("sx_addr", P, {P, P}), {ptr, s});
  }
  Value *conc(IRBuilder<> &B, Value *v, const char *why) {
    Value *s = get(v);
    if (isNull(s) || !scalarSh(v->getType())) return v;
    Value *w = B.CreateGlobalStringPtr(why);
    Value *r = B.CreateCall(rt("sx_concretize", I64, {I64, P, I32, P}), {toI64(B, v), s, i32(bitsOf(v->getType())), w});
    return fromI64(B, r, v->getType());
  }
  Value *math(IRBuilder<> &B, StringRef name, ArrayRef<Value *> a) {
    std::string nm = name.str();
    Value *n = B.CreateGlobalStringPtr(nm);
    Value *z = i64(0), *ns = ConstantPointerNull::get(P);
    unsigned bits = bitsOf(a[0]->getType());
    return B.CreateCall(rt("sx_math", P, {P, I32, I64, P, I64, P}),
        {n, i32(bits), toI64(B, a[0]), get(a[0]), a.size() > 1 ? toI64(B, a[1]) : z, a.size() > 1 ? get(a[1]) : ns});
  }
  // store leaf shadows into slots
  void storeLeaves(IRBuilder<> &B, Value *s, Type *T, GlobalVariable *arr, unsigned &slot) {
    if (T->isAggregateType()) {
      unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
        storeLeaves(B, B.CreateExtractValue(s, i), ET, arr, slot);
      }
      return;
    }
    if (slot < 96)
      B.CreateStore(s, B.CreateConstInBoundsGEP2_64(arr->getValueType(), arr, 0, slot));
    slot++;
  }
  Value *loadLeaves(IRBuilder<> &B, Type *T, Value *base, unsigned &slot) {
    if (T->isAggregateType()) {
      Value *agg = Constant::getNullValue(shTy(T));
      unsigned n = T->isStructTy() ? T->getStructNumElements() : (unsigned)T->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        Type *ET = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType();
        agg = B.CreateInsertValue(agg, loadLeaves(B, ET, base, slot), i);
      }
      return agg;
    }
    Value *r;
    if (slot < 96) r = B.CreateLoad(P, B.CreateConstGEP1_64(P, base, slot));
    else r = ConstantPointerNull::get(P);
    slot++;
    return r;
  }

  Value *binop(IRBuilder<> &B, int op, bool fp, unsigned bits, Value *a, Value *sa, Value *b, Value *sb) {
    return B.CreateCall(rt(fp ? "sx_fbin" : "sx_bin", P, {I32, I32, I64, P, I64, P}),
                        {i32(op), i32(bits), toI64(B, a), sa, toI64(B, b), sb});
  }

  void visitCall(CallBase &CB) {
    Value *cv = CB.getCalledOperand()->stripPointerCasts();
    Function *CF = dyn_cast<Function>(cv);
    if (!CF) if (auto *GA = dyn_cast<GlobalAlias>(cv)) CF = dyn_cast<Function>(GA->getAliaseeObject());
    if (isa<InlineAsm>(CB.getCalledOperand())) {
      return;
    }
    if (auto *CI = dyn_cast<CallInst>(&CB)) CI->setTailCallKind(CallInst::TCK_None);
    IRBuilder<> B(&CB);
    if (CF && CF->isIntrinsic()) { visitIntrinsic(cast<CallInst>(CB), CF); return; }
    StringRef name = CF ? CF->getName() : StringRef("");
    bool external = CF && CF->isDeclaration();
    bool symxApi = CF && name.starts_with("symx_");
    // point for code after the call
    auto after = [&]() -> Instruction * {
      if (auto *II = dyn_cast<InvokeInst>(&CB)) {
        BasicBlock *nd = II->getNormalDest();
        if (!nd->getSinglePredecessor() || isa<PHINode>(nd->front())) { // (SplitEdge gives up on some edges)
          BasicBlock *mid = BasicBlock::Create(II->getContext(), "after", II->getFunction(), nd); BranchInst::Create(nd, mid); II->setNormalDest(mid);
          for (PHINode &ph : nd->phis()) ph.replaceIncomingBlockWith(II->getParent(), mid);
          nd = mid;
        }
        return &*nd->getFirstInsertionPt();
      }
      return CB.getNextNode();
    };
    if (external && !symxApi) {
      if (name == "memcpy" || name == "memmove" || name == "__memcpy_chk" || name == "__memmove_chk") {
        for (int i = 0; i < 3; i++) CB.setArgOperand(i, conc(B, CB.getArgOperand(i), "memcpy"));
        B.CreateCall(rt("sx_memcpy", VoidT, {P, P, I64}), {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2)});
        return;
      }
      if (name == "memset") {
        for (int i = 0; i < 3; i++) CB.setArgOperand(i, conc(B, CB.getArgOperand(i), "memset"));
        B.CreateCall(rt("sx_clear", VoidT, {P, I64}), {CB.getArgOperand(0), CB.getArgOperand(2)});
        return;
      }
      if (name == "memcmp" || name == "bcmp") {
        for (int i = 0; i < 3; i++) CB.setArgOperand(i, conc(B, CB.getArgOperand(i), "memcmp"));
        sh[&CB] = B.CreateCall(rt("sx_memcmp", P, {P, P, I64, I32}), {CB.getArgOperand(0), CB.getArgOperand(1), CB.getArgOperand(2), i32(name == "bcmp")});
        return;
      }
      if ((mathFns.count(name.str())) && isFP(CB.getType()) && CB.arg_size() <= 2) {
        std::vector<Value *> a;
        for (auto &x : CB.args()) a.push_back(x.get());
        sh[&CB] = math(B, name, a);
        return;
      }
      if ((name == "free" || name.starts_with("_ZdlPv") || name.starts_with("_ZdaPv")) && CB.arg_size() >= 1)
        B.CreateCall(rt("sx_free", VoidT, {P}), {CB.getArgOperand(0)});
      if (raceMode && (name == "pthread_mutex_lock" || name == "pthread_mutex_unlock")) B.CreateCall(rt("sx_lock", VoidT, {I32}), {i32(name == "pthread_mutex_lock" ? 1 : -1)});
      bool ign = ignoreExternal(name);
      if (!ign)
        for (unsigned i = 0; i < CB.arg_size(); i++) {
          Value *v = CB.getArgOperand(i);
          if (!scalarSh(v->getType()) || isNull(get(v))) continue;
          std::string w = "ext:" + name.str();
          if (isFP(v->getType())) {
            Value *r = B.CreateCall(rt("sx_ext_fp", I64, {I64, P, I32, P}), {toI64(B, v), get(v), i32(bitsOf(v->getType())), B.CreateGlobalStringPtr(w)});
            CB.setArgOperand(i, fromI64(B, r, v->getType()));
          } else
            CB.setArgOperand(i, conc(B, v, w.c_str()));
        }
      if (name == "malloc" || name == "calloc" || name == "_Znwm" || name == "_Znam" || name == "aligned_alloc" || name == "_ZnwmSt11align_val_t" || name=="__cxa_allocate_exception") {
        Instruction *ip = after();
        IRBuilder<> B2(ip);
        Value *sz = CB.getArgOperand(name == "aligned_alloc" ? 1 : 0);
        if (name == "calloc") sz = B2.CreateMul(sz, CB.getArgOperand(1));
        B2.CreateCall(rt("sx_clear", VoidT, {P, I64}), {&CB, sz});
      } else if (name == "realloc") {
        IRBuilder<> B2(after());
        B2.CreateCall(rt("sx_realloc", VoidT, {P, P, I64}), {CB.getArgOperand(0), &CB, CB.getArgOperand(1)});
      }
      return;
    }
    // instrumented or indirect call
    if (!CF) {
      Value *s = get(CB.getCalledOperand());
      if (!isNull(s)) CB.setCalledOperand(conc(B, CB.getCalledOperand(), "icall"));
    }
    unsigned slot = 0;
    for (unsigned i = 0; i < CB.arg_size(); i++) {
      Value *v = CB.getArgOperand(i);
      Type *T = v->getType();
      if (!hasSh(T)) { slot++; continue; }
      if (CB.isByValArgument(i)) {
        B.CreateStore(v, B.CreateConstInBoundsGEP2_64(args->getValueType(), args, 0, slot++));
        continue;
      }
      storeLeaves(B, get(v), T, args, slot);
    }
    B.CreateStore(CB.getCalledOperand(), callee);
    if (CB.getType()->isVoidTy() || !hasSh(CB.getType())) {
      return;
    }
    Value *fp = CB.getCalledOperand();
    IRBuilder<> B2(after());
    Value *base = B2.CreateCall(rt(symxApi ? "sx_ret_api" : "sx_ret", P, {P}), {fp});
    unsigned rs = 0;
    Value *s = loadLeaves(B2, CB.getType(), base, rs);
    sh[&CB] = s;
  }

  void visitIntrinsic(CallInst &CI, Function *CF) {
    IRBuilder<> B(&CI);
    auto id = CF->getIntrinsicID();
    auto A = [&](unsigned i) { return CI.getArgOperand(i); };
    bool anySh = false;
    for (auto &x : CI.args()) if (scalarSh(x->getType()) && !isa<MetadataAsValue>(x.get()) && !isNull(get(x.get()))) anySh = true;
    Type *T = CI.getType();
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
      for (int i = 0; i < 3; i++) CI.setArgOperand(i, conc(B, A(i), "memcpy"));
      B.CreateCall(rt("sx_memcpy", VoidT, {P, P, I64}), {A(0), A(1), B.CreateZExtOrTrunc(A(2), I64)});
      return;
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      CI.setArgOperand(0, conc(B, A(0), "memset")); CI.setArgOperand(2, conc(B, A(2), "memset"));
      Value *s = get(A(1));
      IRBuilder<> B2(CI.getNextNode());
      if (isNull(s)) { if (raceMode) B2.CreateCall(rt("sx_access", VoidT, {P, I64, I32}), {A(0), B2.CreateZExtOrTrunc(A(2), I64), i32(1)}); B2.CreateCall(rt("sx_clear", VoidT, {P, I64}), {A(0), B2.CreateZExtOrTrunc(A(2), I64)}); }
      else B2.CreateCall(rt("sx_memset", VoidT, {P, P, I64}), {A(0), s, B2.CreateZExtOrTrunc(A(2), I64)});
      return; }
    case Intrinsic::lifetime_start: {
      auto *n = dyn_cast<ConstantInt>(A(0));
      if (n && n->getSExtValue() > 0) B.CreateCall(rt("sx_clear", VoidT, {P, I64}), {A(1), i64(n->getZExtValue())});
      return; }
    case Intrinsic::fabs: {
      bool inf = !CI.use_empty(); // |x| compared with infinity does not depend on the sign of a finite x
      for (User *u : CI.users()) { auto *f = dyn_cast<FCmpInst>(u); auto *c = f ? dyn_cast<ConstantFP>(f->getOperand(f->getOperand(0) == &CI ? 1 : 0)) : nullptr; if (!c || !c->isInfinity() || c->isNegative()) inf = false; }
      sh[&CI] = math(B, inf ? "fabsinf" : "fabs", {A(0)}); return;
    }
    case Intrinsic::sqrt: sh[&CI] = math(B, "sqrt", {A(0)}); return;
    case Intrinsic::exp: sh[&CI] = math(B, "exp", {A(0)}); return;
    case Intrinsic::exp2: sh[&CI] = math(B, "exp2", {A(0)}); return;
    case Intrinsic::log: sh[&CI] = math(B, "log", {A(0)}); return;
    case Intrinsic::log2: sh[&CI] = math(B, "log2", {A(0)}); return;
    case Intrinsic::log10: sh[&CI] = math(B, "log10", {A(0)}); return;
    case Intrinsic::sin: sh[&CI] = math(B, "sin", {A(0)}); return;
    case Intrinsic::cos: sh[&CI] = math(B, "cos", {A(0)}); return;
    case Intrinsic::pow: sh[&CI] = math(B, "pow", {A(0), A(1)}); return;
    case Intrinsic::powi: {
      Value *e = conc(B, A(1), "powi"); CI.setArgOperand(1, e);
      sh[&CI] = B.CreateCall(rt("sx_powi", P, {I32, I64, P, I32}), {i32(bitsOf(T)), toI64(B, A(0)), get(A(0)), e}); return; }
    case Intrinsic::floor: sh[&CI] = math(B, "floor", {A(0)}); return;
    case Intrinsic::ceil: sh[&CI] = math(B, "ceil", {A(0)}); return;
    case Intrinsic::trunc: sh[&CI] = math(B, "trunc", {A(0)}); return;
    case Intrinsic::rint: sh[&CI] = math(B, "rint", {A(0)}); return;
    case Intrinsic::nearbyint: sh[&CI] = math(B, "nearbyint", {A(0)}); return;
    case Intrinsic::round: sh[&CI] = math(B, "round", {A(0)}); return;
    case Intrinsic::copysign: sh[&CI] = math(B, "copysign", {A(0), A(1)}); return;
    case Intrinsic::minnum: sh[&CI] = math(B, "fmin", {A(0), A(1)}); return;
    case Intrinsic::maxnum: sh[&CI] = math(B, "fmax", {A(0), A(1)}); return;
    case Intrinsic::fma: case Intrinsic::fmuladd: {
      if (!scalarSh(T)) return;
      Value *m = binop(B, Instruction::FMul, true, bitsOf(T), A(0), get(A(0)), A(1), get(A(1)));
      Value *mv = B.CreateFMul(A(0), A(1));
      sh[&CI] = binop(B, Instruction::FAdd, true, bitsOf(T), mv, m, A(2), get(A(2)));
      return; }
    case Intrinsic::is_fpclass:
      if (anySh) sh[&CI] = B.CreateCall(rt("sx_fpclass", P, {I32, P, I32}), {i32(bitsOf(A(0)->getType())), get(A(0)), A(1)});
      return;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::annotation:
      sh[&CI] = get(A(0)); return;
    case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_end:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing:
    case Intrinsic::eh_typeid_for: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::trap: case Intrinsic::is_constant: case Intrinsic::objectsize: case Intrinsic::prefetch:
      return;
    case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
      if (!anySh || !scalarSh(T)) return;
      int op = id == Intrinsic::smax ? 101 : id == Intrinsic::smin ? 102 : id == Intrinsic::umax ? 103 : 104;
      sh[&CI] = binop(B, op, false, bitsOf(T), A(0), get(A(0)), A(1), get(A(1))); return; }
    case Intrinsic::abs: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: {
      if (!anySh || !scalarSh(T)) return;
      int op = id == Intrinsic::abs ? 110 : id == Intrinsic::ctpop ? 111 : id == Intrinsic::ctlz ? 112 : id == Intrinsic::cttz ? 113 : 114;
      sh[&CI] = binop(B, op, false, bitsOf(T), A(0), get(A(0)), A(0), get(A(0))); return; }
    case Intrinsic::usub_sat: case Intrinsic::uadd_sat: {
      if (!anySh || !scalarSh(T)) return;
      sh[&CI] = binop(B, id == Intrinsic::usub_sat ? 120 : 121, false, bitsOf(T), A(0), get(A(0)), A(1), get(A(1))); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      if (!anySh || !scalarSh(T)) return;
      if (A(0) == A(1)) { sh[&CI] = binop(B, id == Intrinsic::fshl ? 122 : 123, false, bitsOf(T), A(0), get(A(0)), A(2), get(A(2))); return; }
      break; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: {
      if (!anySh) return;
      int op = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Instruction::Add
             : (id == Intrinsic::ssub_with_overflow || id == Intrinsic::usub_with_overflow) ? Instruction::Sub : Instruction::Mul;
      bool sg = (id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow);
      unsigned bits = bitsOf(A(0)->getType());
      Value *v = binop(B, op, false, bits, A(0), get(A(0)), A(1), get(A(1)));
      Value *o = B.CreateCall(rt("sx_ovf", P, {I32, I32, I32, I64, P, I64, P}), {i32(op), i32(sg), i32(bits), toI64(B, A(0)), get(A(0)), toI64(B, A(1)), get(A(1))});
      Value *agg = Constant::getNullValue(shTy(T));
      agg = B.CreateInsertValue(agg, v, 0); agg = B.CreateInsertValue(agg, o, 1);
      sh[&CI] = agg; return; }
    default: break;
    }
    for (unsigned i = 0; i < CI.arg_size(); i++) {
      Value *v = A(i);
      if (v->getType()->isMetadataTy()) continue;
      if (scalarSh(v->getType()) && !isNull(get(v))) {
        std::string w = "intr:" + CF->getName().str();
        CI.setArgOperand(i, conc(B, v, w.c_str()));
      }
    }
  }

  void run(Function &Fn, unsigned fid) {
    F = &Fn;
    std::vector<Instruction *> work;
    // RPO so that operands are visited before uses (phis patched later)
    {
      std::vector<BasicBlock *> order;
      std::set<BasicBlock *> seen;
      std::vector<std::pair<BasicBlock *, unsigned>> st;
      st.push_back({&Fn.getEntryBlock(), 0}); seen.insert(&Fn.getEntryBlock());
      while (!st.empty()) {
        auto &t = st.back();
        auto *ti = t.first->getTerminator();
        if (t.second < ti->getNumSuccessors()) {
          BasicBlock *s = ti->getSuccessor(t.second++);
          if (seen.insert(s).second) st.push_back({s, 0});
        } else { order.push_back(t.first); st.pop_back(); }
      }
      for (auto it = order.rbegin(); it != order.rend(); ++it) for (auto &I : **it) work.push_back(&I);
    }
    // prologue
    Instruction *ip = &*Fn.getEntryBlock().getFirstInsertionPt();
    while (isa<AllocaInst>(ip)) ip = ip->getNextNode();
    IRBuilder<> B(ip);
    Value *base = B.CreateCall(rt("sx_enter", P, {P, I32}), {&Fn, i32((int)fid)});
    unsigned slot = 0;
    for (auto &A : Fn.args()) {
      Type *T = A.getType();
      if (!hasSh(T)) { slot++; continue; }
      if (A.hasByValAttr()) {
        Value *src = loadLeaves(B, P, base, slot);
        uint64_t sz = DL->getTypeAllocSize(A.getParamByValType());
        B.CreateCall(rt("sx_byval", VoidT, {P, P, I64}), {&A, src, i64(sz)});
        continue;
      }
      sh[&A] = loadLeaves(B, T, base, slot);
    }
    for (auto *I : work) {
      if (auto *AI = dyn_cast<AllocaInst>(I)) {
        if (AI->isStaticAlloca()) {
          auto sz = AI->getAllocationSize(*DL);
          if (sz) { IRBuilder<> B0(ip); B0.CreateCall(rt("sx_clear", VoidT, {P, I64}), {AI, i64(sz->getFixedValue())}); }
        } else { IRBuilder<> B0(I); AI->setOperand(0, conc(B0, AI->getArraySize(), "alloca")); }
        continue;
      }
      visit(*I);
    }
    for (auto *ph : phis) {
      auto *sp = dyn_cast<PHINode>(sh[ph]);
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++)
        sp->addIncoming(get(ph->getIncomingValue(i)), ph->getIncomingBlock(i));
    }
  }

  void visit(Instruction &I) {
    IRBuilder<> B(&I);
    Type *T = I.getType();
    if (auto *ph = dyn_cast<PHINode>(&I)) {
      if (!hasSh(T)) return;
      auto *sp = PHINode::Create(shTy(T), ph->getNumIncomingValues(), "", ph);
      sh[&I] = sp; phis.push_back(ph); return;
    }
    if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
      if (!scalarSh(T)) return;
      Value *a = BO->getOperand(0), *b = BO->getOperand(1);
      Value *sa = get(a), *sb = get(b);
      bool fp = isFP(T);
      if (!fp && isNull(sa) && isNull(sb)) return;
      if (!fp && bitsOf(T) > 64) {
        sh[&I] = B.CreateCall(rt("sx_wide", P, {P, P}), {sa, sb}); return;
      }
      sh[&I] = binop(B, BO->getOpcode(), fp, bitsOf(T), a, sa, b, sb);
      auto op = BO->getOpcode();
      if (op == Instruction::SDiv || op == Instruction::UDiv || op == Instruction::SRem || op == Instruction::URem) {
        Value *any = B.CreateOr(B.CreateIsNotNull(sa), B.CreateIsNotNull(sb));
        BO->setOperand(1, B.CreateSelect(any, ConstantInt::get(T, 1), b));
      }
      return;
    }
    if (auto *UO = dyn_cast<UnaryOperator>(&I)) {
      if (!scalarSh(T)) return;
      sh[&I] = math(B, "fneg", {UO->getOperand(0)}); return;
    }
    if (auto *IC = dyn_cast<ICmpInst>(&I)) {
      Value *a = IC->getOperand(0), *b = IC->getOperand(1);
      if (!scalarSh(a->getType())) return;
      Value *sa = get(a), *sb = get(b);
      if (isNull(sa) && isNull(sb)) return;
      sh[&I] = B.CreateCall(rt("sx_icmp", P, {I32, I32, I64, P, I64, P}), {i32(IC->getPredicate()), i32(bitsOf(a->getType())), toI64(B, a), sa, toI64(B, b), sb});
      return;
    }
    if (auto *FC = dyn_cast<FCmpInst>(&I)) {
      Value *a = FC->getOperand(0), *b = FC->getOperand(1);
      if (!scalarSh(a->getType())) return;
      Value *sa = get(a), *sb = get(b);
      if (isNull(sa) && isNull(sb)) return;
      sh[&I] = B.CreateCall(rt("sx_fcmp", P, {I32, I32, I64, P, I64, P}), {i32(FC->getPredicate()), i32(bitsOf(a->getType())), toI64(B, a), sa, toI64(B, b), sb});
      return;
    }
    if (auto *CA = dyn_cast<CastInst>(&I)) {
      Value *a = CA->getOperand(0);
      if (!scalarSh(T) || !scalarSh(a->getType())) {
        if (scalarSh(a->getType()) && !isNull(get(a))) { Value *n = conc(B, a, "cast"); CA->setOperand(0, n); }
        return;
      }
      Value *s = get(a);
      auto op = CA->getOpcode();
      if (op == Instruction::BitCast) { sh[&I] = s; return; }
      bool fpres = (op == Instruction::FPTrunc || op == Instruction::FPExt);
      if (isNull(s)) return;
      (void)fpres;
      sh[&I] = B.CreateCall(rt("sx_cast", P, {I32, I32, I32, P}), {i32(op), i32(bitsOf(a->getType())), i32(bitsOf(T)), s});
      return;
    }
    if (auto *LI = dyn_cast<LoadInst>(&I)) {
      LI->setOperand(0, fixAddr(B, LI->getPointerOperand()));
      uint64_t sz = DL->getTypeStoreSize(T);
      if (raceMode) B.CreateCall(rt("sx_access", VoidT, {P, I64, I32}), {LI->getPointerOperand(), i64(sz), i32(0)});
      if (!scalarSh(T)) { B.CreateCall(rt("sx_expect_concrete", VoidT, {P, I64}), {LI->getPointerOperand(), i64(sz)}); return; }
      sh[&I] = B.CreateCall(rt("sx_load", P, {P, I32, I32}), {LI->getPointerOperand(), i32((int)sz), i32(bitsOf(T))});
      return;
    }
    if (auto *SI = dyn_cast<StoreInst>(&I)) {
      SI->setOperand(1, fixAddr(B, SI->getPointerOperand()));
      Type *VT = SI->getValueOperand()->getType();
      uint64_t sz = DL->getTypeStoreSize(VT);
      IRBuilder<> B2(SI->getNextNode());
      if (raceMode) B.CreateCall(rt("sx_access", VoidT, {P, I64, I32}), {SI->getOperand(1), i64(sz), i32(1)});
      Value *s = scalarSh(VT) ? get(SI->getValueOperand()) : nullptr;
      if (!s || isNull(s)) B2.CreateCall(rt("sx_clear", VoidT, {P, I64}), {SI->getPointerOperand(), i64(sz)});
      else B2.CreateCall(rt("sx_store", VoidT, {P, I32, I32, P}), {SI->getPointerOperand(), i32((int)sz), i32(bitsOf(VT)), s});
      return;
    }
    if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
      if (!T->isPointerTy()) return;
      bool any = !isNull(get(G->getPointerOperand()));
      for (auto &x : G->indices()) if (!isNull(get(x.get()))) any = true;
      if (!any) return;
      // base + sum
      APInt coff(64, 0);
      MapVector<Value *, APInt> vo;
      if (!G->collectOffset(*DL, 64, vo, coff)) return;
      Value *cur = B.CreatePtrToInt(G->getPointerOperand(), I64);
      Value *cs = get(G->getPointerOperand());
      cs = binop(B, Instruction::Add, false, 64, cur, cs, i64(coff.getZExtValue()), ConstantPointerNull::get(P));
      cur = B.CreateAdd(cur, i64(coff.getZExtValue()));
      for (auto &kv : vo) {
        Value *idx = kv.first; Value *is = get(idx);
        Value *iv = B.CreateSExtOrTrunc(idx, I64);
        if (bitsOf(idx->getType()) < 64 && !isNull(is))
          is = B.CreateCall(rt("sx_cast", P, {I32, I32, I32, P}), {i32(Instruction::SExt), i32(bitsOf(idx->getType())), i32(64), is});
        Value *sc = i64(kv.second.getZExtValue());
        Value *ms = binop(B, Instruction::Mul, false, 64, iv, is, sc, ConstantPointerNull::get(P));
        Value *mv = B.CreateMul(iv, sc);
        cs = binop(B, Instruction::Add, false, 64, cur, cs, mv, ms);
        cur = B.CreateAdd(cur, mv);
      }
      sh[&I] = cs;
      return;
    }
    if (auto *SE = dyn_cast<SelectInst>(&I)) {
      Value *c = SE->getCondition();
      if (!hasSh(T) || !c->getType()->isIntegerTy(1)) return;
      Value *sc = get(c), *sa = get(SE->getTrueValue()), *sb = get(SE->getFalseValue());
      if (isNull(sc)) {
        if (isNull(sa) && isNull(sb)) return;
        sh[&I] = B.CreateSelect(c, sa, sb); return;
      }
      if (!scalarSh(T)) { // fork on the condition
        Value *d = B.CreateCall(rt("sx_branch", I1, {I1, P}), {c, sc});
        SE->setCondition(d); sh[&I] = B.CreateSelect(d, sa, sb); return;
      }
      int kind = T->isPointerTy() ? 2 : isFP(T) ? 1 : 0;
      Value *d = B.CreateCall(rt("sx_seldir", I32, {I1, P, I32}), {c, sc, i32(kind)});
      SE->setCondition(B.CreateTrunc(d, I1));
      sh[&I] = B.CreateCall(rt("sx_select", P, {I32, P, I32, I32, I64, P, I64, P}), {d, sc, i32(bitsOf(T)), i32(kind), toI64(B, SE->getTrueValue()), sa, toI64(B, SE->getFalseValue()), sb});
      return;
    }
    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
      if (!hasSh(T)) return;
      Value *s = get(EV->getAggregateOperand());
      if (isNull(s)) return;
      sh[&I] = B.CreateExtractValue(s, EV->getIndices()); return;
    }
    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
      Value *s = get(IV->getAggregateOperand()), *e = get(IV->getInsertedValueOperand());
      if (isNull(s) && isNull(e)) return;
      if (!hasSh(IV->getInsertedValueOperand()->getType())) { return; }
      sh[&I] = B.CreateInsertValue(s, e, IV->getIndices()); return;
    }
    if (auto *FR = dyn_cast<FreezeInst>(&I)) { if (hasSh(T)) sh[&I] = get(FR->getOperand(0)); return; }
    if (auto *BR = dyn_cast<BranchInst>(&I)) {
      if (!BR->isConditional()) return;
      Value *s = get(BR->getCondition());
      if (isNull(s)) return;
      BR->setCondition(B.CreateCall(rt("sx_branch", I1, {I1, P}), {BR->getCondition(), s}));
      return;
    }
    if (auto *SW = dyn_cast<SwitchInst>(&I)) {
      Value *c = SW->getCondition(), *s = get(c);
      if (isNull(s)) return;
      unsigned n = SW->getNumCases();
      std::vector<Constant *> cs;
      for (auto &k : SW->cases()) cs.push_back(ConstantInt::get(I64, k.getCaseValue()->getValue().getZExtValue()));
      auto *AT = ArrayType::get(I64, n);
      auto *GV = new GlobalVariable(*M, AT, true, GlobalValue::PrivateLinkage, ConstantArray::get(AT, cs));
      Value *r = B.CreateCall(rt("sx_switch", I64, {I64, P, I32, P, I32}), {toI64(B, c), s, i32(bitsOf(c->getType())), GV, i32((int)n)});
      SW->setCondition(fromI64(B, r, c->getType()));
      return;
    }
    if (auto *RI = dyn_cast<ReturnInst>(&I)) {
      Value *v = RI->getReturnValue();
      if (!v || !hasSh(v->getType())) return;
      unsigned slot = 0;
      storeLeaves(B, get(v), v->getType(), ret, slot);
      B.CreateStore(F, retfn);
      return;
    }
    if (auto *CB = dyn_cast<CallBase>(&I)) { visitCall(*CB); return; }
    if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) {
      for (unsigned i = 0; i < I.getNumOperands(); i++) {
        Value *v = I.getOperand(i);
        if (scalarSh(v->getType()) && !isNull(get(v))) I.setOperand(i, conc(B, v, "atomic"));
      }
      B.CreateCall(rt("sx_expect_concrete", VoidT, {P, I64}), {I.getOperand(0), i64(8)});
      return;
    }
    if (isa<InsertElementInst>(&I)) {
      Value *v = I.getOperand(1);
      if (scalarSh(v->getType()) && !isNull(get(v))) I.setOperand(1, conc(B, v, "vector"));
      return;
    }
    if (isa<ExtractElementInst>(&I)) {
      Value *v = I.getOperand(1);
      if (!isNull(get(v))) I.setOperand(1, conc(B, v, "vector"));
      return;
    }
  }
};

int main(int argc, char **argv) {
  raceMode = argc > 3 && !strcmp(argv[3], "race");
  LLVMContext ctx; C = &ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(argv[1], err, ctx);
  if (!mod) { err.print("sxinst", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  I1 = Type::getInt1Ty(ctx); I8 = Type::getInt8Ty(ctx); I32 = Type::getInt32Ty(ctx); I64 = Type::getInt64Ty(ctx);
  VoidT = Type::getVoidTy(ctx); P = PointerType::get(ctx, 0);
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    ScalarizerPassOptions so; so.ScalarizeLoadStore = true;
    MPM.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass(so)));
    if (raceMode) { // addresses used atomically are synchronisation, not data
      std::vector<std::pair<Instruction *, Value *>> at;
      for (auto &F : *M) for (auto &I : instructions(F)) { if (auto *L = dyn_cast<LoadInst>(&I)) { if (L->isAtomic()) at.push_back({L, L->getPointerOperand()}); } else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isAtomic()) at.push_back({S, S->getPointerOperand()}); } else if (auto *R = dyn_cast<AtomicRMWInst>(&I)) at.push_back({R, R->getPointerOperand()}); else if (auto *X = dyn_cast<AtomicCmpXchgInst>(&I)) at.push_back({X, X->getPointerOperand()}); }
      auto fn = M->getOrInsertFunction("sx_atomic", VoidT, P);
      for (auto &x : at) IRBuilder<>(x.first).CreateCall(fn, {x.second});
    }
    MPM.addPass(createModuleToFunctionPassAdaptor(LowerAtomicPass()));
    MPM.run(*M, MAM);
  }
  std::vector<Function *> fns;
  for (auto &F : *M) if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage()) fns.push_back(&F);
  // available_externally bodies become plain declarations
  for (auto &F : *M) if (F.hasAvailableExternallyLinkage()) F.deleteBody();
  auto *AT = ArrayType::get(P, 96);
  auto mk = [&](const char *n, Type *T) { return new GlobalVariable(*M, T, false, GlobalValue::ExternalLinkage, nullptr, n); };
  GlobalVariable *args = mk("__sx_args", AT), *callee = mk("__sx_callee", P), *ret = mk("__sx_retslots", AT), *retfn = mk("__sx_retfn", P);
  std::vector<Constant *> names;
  unsigned fid = 0;
  for (auto *F : fns) {
    Constant *s = ConstantDataArray::getString(ctx, F->getName());
    names.push_back(new GlobalVariable(*M, s->getType(), true, GlobalValue::PrivateLinkage, s));
    Inst in; in.args = args; in.callee = callee; in.ret = ret; in.retfn = retfn;
    in.run(*F, fid++);
    F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoFree); F->removeFnAttr(Attribute::NoSync); F->removeFnAttr(Attribute::WillReturn); F->removeFnAttr(Attribute::NoRecurse); F->removeFnAttr(Attribute::Speculatable);
    for (auto &I : instructions(*F)) if (auto *CB = dyn_cast<CallBase>(&I)) {
      CB->removeFnAttr(Attribute::Memory); CB->removeFnAttr(Attribute::NoFree); CB->removeFnAttr(Attribute::WillReturn); CB->removeFnAttr(Attribute::NoSync);
    }
  }
  // symbolic garbage must never be exploited as poison/UB by later codegen
  for (auto *F : fns) for (auto &I : instructions(*F)) {
    I.dropPoisonGeneratingFlags();
    if (isa<CallBase>(&I)) { }
    I.setMetadata(LLVMContext::MD_range, nullptr); I.setMetadata(LLVMContext::MD_nonnull, nullptr); I.setMetadata(LLVMContext::MD_noundef, nullptr); I.setMetadata(LLVMContext::MD_tbaa, nullptr); I.setMetadata(LLVMContext::MD_invariant_load, nullptr);
  }
  std::vector<Instruction *> dead;
  for (auto *F : fns) for (auto &I : instructions(*F)) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::assume) dead.push_back(II);
  for (auto *I : dead) I->eraseFromParent();
  // instrumented bodies must never be picked up by the runtime's or the standard library's own calls
  for (auto *F : fns) if (!F->hasLocalLinkage()) { F->setComdat(nullptr); F->setVisibility(GlobalValue::DefaultVisibility); F->setLinkage(GlobalValue::InternalLinkage); }
  auto *NT = ArrayType::get(P, names.size());
  new GlobalVariable(*M, NT, true, GlobalValue::ExternalLinkage, ConstantArray::get(NT, names), "__sx_fn_names");
  new GlobalVariable(*M, I32, true, GlobalValue::ExternalLinkage, ConstantInt::get(I32, names.size()), "__sx_fn_count");
  if (verifyModule(*M, &errs())) { errs() << "sxinst: broken module\n"; std::error_code ec; raw_fd_ostream o("/tmp/broken.ll", ec); M->print(o, nullptr); return 3; }
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec, sys::fs::OF_None);
  WriteBitcodeToFile(*M, os);
  return 0;
}
