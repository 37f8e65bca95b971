// LLVM pass: instruments every function so that each integer/pointer value carries a 32-bit "shadow" id naming a
// bit-vector expression over the symbolic inputs (0 = concrete). The runtime (rt.cc) builds the expressions and
// records path constraints.
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/ModuleUtils.h"

#include <map>
#include <set>
#include <string>

using namespace llvm;

namespace {

enum { MAX_ARGS = 64, MAX_RET = 16 };

struct Rt {
  Module& M;
  LLVMContext& C;
  const DataLayout& DL;
  Type *I1, *I8, *I32, *I64, *Ptr, *Void;
  GlobalVariable *ArgTLS, *RetTLS, *CallTarget, *RetValid;
  FunctionCallee Bin, Icmp, Cast, Select, Load, Store, Branch, Switch, Conc, Addr, Memcpy, Memset, Alloca, Ovf, MinMax,
      Gep, ConcMem, Atomic, BoolSel;

  Rt(Module& M) : M(M), C(M.getContext()), DL(M.getDataLayout()) {
    I1 = Type::getInt1Ty(C);
    I8 = Type::getInt8Ty(C);
    I32 = Type::getInt32Ty(C);
    I64 = Type::getInt64Ty(C);
    Ptr = PointerType::get(C, 0);
    Void = Type::getVoidTy(C);
    auto G = [&](const char* n, Type* t) {
      return cast<GlobalVariable>(M.getOrInsertGlobal(n, t));
    };
    ArgTLS = G("sx_arg_tls", ArrayType::get(I32, MAX_ARGS));
    RetTLS = G("sx_ret_tls", ArrayType::get(I32, MAX_RET));
    CallTarget = G("sx_call_target", Ptr);
    RetValid = G("sx_ret_valid", Ptr);
    auto F = [&](const char* n, Type* r, std::initializer_list<Type*> a) {
      FunctionCallee f = M.getOrInsertFunction(n, FunctionType::get(r, ArrayRef<Type*>(a.begin(), a.end()), false));
      if (auto* fn = dyn_cast<Function>(f.getCallee())) fn->addFnAttr(Attribute::NoUnwind);
      return f;
    };
    Bin = F("sxr_bin", I32, {I32, I32, I32, I32, I64, I64});
    Icmp = F("sxr_icmp", I32, {I32, I32, I32, I32, I64, I64});
    Cast = F("sxr_cast", I32, {I32, I32, I32, I32});
    Select = F("sxr_select", I32, {I32, I32, I32, I32, I64, I64, I64});
    BoolSel = F("sxr_boolsel", Void, {});
    Load = F("sxr_load", I32, {Ptr, I32, I32});
    Store = F("sxr_store", Void, {Ptr, I32, I32});
    Branch = F("sxr_branch", Void, {I32, I32});
    Switch = F("sxr_switch", Void, {I32, I32, I64, I32, Ptr});
    Conc = F("sxr_conc", Void, {I32, I64});
    Addr = F("sxr_addr", Void, {I32, Ptr});
    Memcpy = F("sxr_memcpy", Void, {Ptr, Ptr, I64});
    Memset = F("sxr_memset", Void, {Ptr, I64, I32, I32});
    Alloca = F("sxr_alloca", Void, {Ptr, I64});
    Ovf = F("sxr_ovf", I32, {I32, I32, I32, I32, I64, I64});
    MinMax = F("sxr_minmax", I32, {I32, I32, I32, I32, I64, I64});
    Gep = F("sxr_gep", I32, {I32, I64, I32, I64, I32, I64, I64});
    ConcMem = F("sxr_concmem", Void, {Ptr, I64});
    Atomic = F("sxr_atomic", Void, {Ptr, I32, I32});
  }
};

bool isScalar(Type* T) {
  if (auto* IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth() <= 64;
  return T->isPointerTy();
}
unsigned widthOf(Type* T) {
  if (auto* IT = dyn_cast<IntegerType>(T)) return IT->getBitWidth();
  return 64;
}

bool hasScalarLeaf(Type* T) {
  if (isScalar(T)) return true;
  if (auto* S = dyn_cast<StructType>(T)) {
    for (auto* E : S->elements())
      if (hasScalarLeaf(E)) return true;
  }
  if (auto* A = dyn_cast<ArrayType>(T)) return hasScalarLeaf(A->getElementType());
  return false;
}

struct Instr {
  Rt& R;
  Function& F;
  DenseMap<Value*, Value*> Sh;
  SmallVector<std::pair<PHINode*, PHINode*>, 16> Phis;

  Instr(Rt& R, Function& F) : R(R), F(F) {}

  Type* shTy(Type* T) {
    if (auto* S = dyn_cast<StructType>(T)) {
      SmallVector<Type*, 8> E;
      for (auto* e : S->elements()) E.push_back(shTy(e));
      return StructType::get(R.C, E);
    }
    if (auto* A = dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()), A->getNumElements());
    return R.I32;
  }
  Constant* zero(Type* T) { return Constant::getNullValue(shTy(T)); }
  Value* sh(Value* V) {
    auto i = Sh.find(V);
    if (i != Sh.end()) return i->second;
    return zero(V->getType());
  }
  bool isZero(Value* S) {
    auto* c = dyn_cast<Constant>(S);
    return c && c->isNullValue();
  }
  Constant* i32(uint32_t v) { return ConstantInt::get(R.I32, v); }
  Constant* i64(uint64_t v) { return ConstantInt::get(R.I64, v); }
  Value* val64(IRBuilder<>& B, Value* V) {
    Type* T = V->getType();
    if (T->isPointerTy()) return B.CreatePtrToInt(V, R.I64);
    return B.CreateZExtOrTrunc(V, R.I64);
  }

  // Emits: any(shadows) != 0 ? slow() : 0, before I. Returns the result shadow.
  template <class Fn>
  Value* guarded(Instruction* I, ArrayRef<Value*> Shadows, Fn slow) {
    IRBuilder<> B(I);
    Value* any = nullptr;
    SmallPtrSet<Value*, 4> seen;
    for (Value* s : Shadows) {
      if (isZero(s) || !seen.insert(s).second) continue;
      any = any ? B.CreateOr(any, s) : s;
    }
    if (!any) return i32(0);
    Value* cond = B.CreateICmpNE(any, i32(0));
    MDBuilder MDB(R.C);
    Instruction* Then =
        SplitBlockAndInsertIfThen(cond, I, false, MDB.createBranchWeights(1, 100000));
    IRBuilder<> TB(Then);
    Value* r = slow(TB);
    if (!r || r->getType()->isVoidTy()) return nullptr;
    PHINode* P = PHINode::Create(R.I32, 2, "", &I->getParent()->front());
    BasicBlock* ThenBB = Then->getParent();
    for (BasicBlock* Pred : predecessors(I->getParent())) {
      P->addIncoming(Pred == ThenBB ? r : (Value*)i32(0), Pred);
    }
    return P;
  }

  void concretize(Instruction* I, Value* V) {
    Value* s = sh(V);
    if (!isScalar(V->getType())) {
      if (!isZero(s) && (V->getType()->isStructTy() || V->getType()->isArrayTy())) {
        // Concretize every leaf.
        concAgg(I, V, s);
      }
      return;
    }
    if (isZero(s)) return;
    guarded(I, {s}, [&](IRBuilder<>& B) -> Value* { B.CreateCall(R.Conc, {s, val64(B, V)}); return nullptr; });
  }
  void concAgg(Instruction* I, Value* V, Value* s) {
    IRBuilder<> B(I);
    unsigned n = V->getType()->isStructTy() ? V->getType()->getStructNumElements() : V->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) {
      IRBuilder<> B2(I);
      Value* e = B2.CreateExtractValue(V, i);
      Value* es = B2.CreateExtractValue(s, i);
      if (isScalar(e->getType())) {
        guarded(I, {es}, [&](IRBuilder<>& B3) -> Value* { B3.CreateCall(R.Conc, {es, val64(B3, e)}); return nullptr; });
      } else if (e->getType()->isStructTy() || e->getType()->isArrayTy()) {
        concAgg(I, e, es);
      }
    }
  }
  void concAddr(Instruction* I, Value* P) {
    Value* s = sh(P);
    if (isZero(s)) return;
    guarded(I, {s}, [&](IRBuilder<>& B) -> Value* { B.CreateCall(R.Addr, {s, P}); return nullptr; });
  }

  // Build shadows of an aggregate/scalar loaded from memory.
  Value* loadShadow(IRBuilder<>& B, Type* T, Value* P) {
    if (isScalar(T)) {
      return B.CreateCall(R.Load, {P, i32(R.DL.getTypeStoreSize(T)), i32(widthOf(T))});
    }
    if (auto* S = dyn_cast<StructType>(T)) {
      Value* r = UndefValue::get(shTy(T));
      auto* L = R.DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i) {
        Value* p = B.CreateConstInBoundsGEP1_64(R.I8, P, L->getElementOffset(i));
        r = B.CreateInsertValue(r, loadShadow(B, S->getElementType(i), p), i);
      }
      return r;
    }
    if (auto* A = dyn_cast<ArrayType>(T)) {
      Value* r = UndefValue::get(shTy(T));
      uint64_t sz = R.DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements(); ++i) {
        Value* p = B.CreateConstInBoundsGEP1_64(R.I8, P, sz * i);
        r = B.CreateInsertValue(r, loadShadow(B, A->getElementType(), p), i);
      }
      return r;
    }
    B.CreateCall(R.ConcMem, {P, i64(R.DL.getTypeStoreSize(T))});
    return i32(0);
  }
  void storeShadow(IRBuilder<>& B, Type* T, Value* P, Value* s) {
    if (auto* S = dyn_cast<StructType>(T)) {
      auto* L = R.DL.getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); ++i) {
        Value* p = B.CreateConstInBoundsGEP1_64(R.I8, P, L->getElementOffset(i));
        storeShadow(B, S->getElementType(i), p, B.CreateExtractValue(s, i));
      }
      return;
    }
    if (auto* A = dyn_cast<ArrayType>(T)) {
      uint64_t sz = R.DL.getTypeAllocSize(A->getElementType());
      for (unsigned i = 0; i < A->getNumElements(); ++i) {
        Value* p = B.CreateConstInBoundsGEP1_64(R.I8, P, sz * i);
        storeShadow(B, A->getElementType(), p, B.CreateExtractValue(s, i));
      }
      return;
    }
    B.CreateCall(R.Store, {P, i32(R.DL.getTypeStoreSize(T)), isScalar(T) ? s : i32(0)});
  }

  void retLeaves(Type* T, SmallVectorImpl<SmallVector<unsigned, 4>>& out, SmallVector<unsigned, 4> path) {
    if (isScalar(T)) {
      out.push_back(path);
      return;
    }
    if (auto* S = dyn_cast<StructType>(T)) {
      for (unsigned i = 0; i < S->getNumElements(); ++i) {
        auto p = path;
        p.push_back(i);
        retLeaves(S->getElementType(i), out, p);
      }
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
      for (unsigned i = 0; i < A->getNumElements(); ++i) {
        auto p = path;
        p.push_back(i);
        retLeaves(A->getElementType(), out, p);
      }
    }
  }

  Value* argSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(R.ArgTLS->getValueType(), R.ArgTLS, 0, i); }
  Value* retSlot(IRBuilder<>& B, unsigned i) { return B.CreateConstInBoundsGEP2_64(R.RetTLS->getValueType(), R.RetTLS, 0, i); }

  void run() {
    // Static allocas first, so that splitting the entry block never makes them dynamic.
    {
      SmallVector<AllocaInst*, 16> As;
      for (auto& I : F.getEntryBlock())
        if (auto* A = dyn_cast<AllocaInst>(&I))
          if (isa<ConstantInt>(A->getArraySize())) As.push_back(A);
      Instruction* At = &*F.getEntryBlock().begin();
      for (auto* A : As) {
        if (A == At) { At = At->getNextNode(); continue; }
        A->moveBefore(At);
      }
    }
    SmallVector<Instruction*, 256> Work;
    // Definitions before uses: reverse post order, not layout order.
    {
      ReversePostOrderTraversal<Function*> RPOT(&F);
      for (BasicBlock* BB : RPOT)
        for (auto& I : *BB) Work.push_back(&I);
    }

    for (auto* I : Work) {
      if (auto* P = dyn_cast<PHINode>(I)) {
        if (!hasScalarLeaf(P->getType())) continue;
        PHINode* S = PHINode::Create(shTy(P->getType()), P->getNumIncomingValues(), "", P);
        Sh[P] = S;
        Phis.push_back({P, S});
      }
    }
    {
      Instruction* First = &*F.getEntryBlock().getFirstInsertionPt();
      while (isa<AllocaInst>(First)) First = First->getNextNode();
      IRBuilder<> B(First);
      bool any = false;
      for (auto& A : F.args()) any |= isScalar(A.getType());
      if (any) {
        Value* ct = B.CreateLoad(R.Ptr, R.CallTarget);
        Value* ok = B.CreateICmpEQ(ct, &F);
        unsigned idx = 0;
        for (auto& A : F.args()) {
          if (idx + 3 >= MAX_ARGS) break;
          if (A.hasByValAttr()) {
            // Two slots: pointer to the caller's copy.
            Value* lo = B.CreateLoad(R.I32, argSlot(B, idx));
            Value* hi = B.CreateLoad(R.I32, argSlot(B, idx + 1));
            Value* p = B.CreateOr(B.CreateZExt(lo, R.I64), B.CreateShl(B.CreateZExt(hi, R.I64), 32));
            p = B.CreateSelect(ok, p, i64(0));
            B.CreateCall(R.Memcpy, {&A, B.CreateIntToPtr(p, R.Ptr), i64(R.DL.getTypeAllocSize(A.getParamByValType()))});
            idx += 2;
            continue;
          }
          if (isScalar(A.getType())) {
            Value* s = B.CreateLoad(R.I32, argSlot(B, idx));
            Sh[&A] = B.CreateSelect(ok, s, i32(0));
          }
          idx++;
        }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.Ptr)), R.CallTarget);
      }
    }
    for (auto* I : Work) visit(I);
    for (auto& p : Phis) {
      for (unsigned i = 0; i < p.first->getNumIncomingValues(); ++i) {
        p.second->addIncoming(sh(p.first->getIncomingValue(i)), p.first->getIncomingBlock(i));
      }
    }
  }

  void visit(Instruction* I) {
    if (isa<PHINode>(I)) return;
    if (auto* BO = dyn_cast<BinaryOperator>(I)) return visitBin(BO);
    if (auto* IC = dyn_cast<ICmpInst>(I)) return visitICmp(IC);
    if (auto* CI = dyn_cast<CastInst>(I)) return visitCast(CI);
    if (auto* SI = dyn_cast<SelectInst>(I)) return visitSelect(SI);
    if (auto* LI = dyn_cast<LoadInst>(I)) return visitLoad(LI);
    if (auto* SI = dyn_cast<StoreInst>(I)) return visitStore(SI);
    if (auto* G = dyn_cast<GetElementPtrInst>(I)) return visitGEP(G);
    if (auto* B = dyn_cast<BranchInst>(I)) {
      if (B->isConditional()) {
        Value* c = B->getCondition();
        Value* s = sh(c);
        guarded(I, {s}, [&](IRBuilder<>& TB) -> Value* {
          TB.CreateCall(R.Branch, {s, TB.CreateZExt(c, R.I32)});
          return nullptr;
        });
      }
      return;
    }
    if (auto* S = dyn_cast<SwitchInst>(I)) return visitSwitch(S);
    if (auto* C = dyn_cast<CallBase>(I)) return visitCall(C);
    if (auto* RI = dyn_cast<ReturnInst>(I)) return visitRet(RI);
    if (auto* A = dyn_cast<AllocaInst>(I)) {
      Instruction* N = A->getNextNode();
      while (isa<AllocaInst>(N)) N = N->getNextNode();
      IRBuilder<> B(N);
      uint64_t sz = R.DL.getTypeAllocSize(A->getAllocatedType());
      Value* n = B.CreateMul(B.CreateZExtOrTrunc(A->getArraySize(), R.I64), i64(sz));
      if (A->isArrayAllocation()) {
        // dynamic size: concretize
        Value* s = sh(A->getArraySize());
        if (!isZero(s)) concretize(A, A->getArraySize());
      }
      B.CreateCall(R.Alloca, {A, n});
      return;
    }
    if (auto* E = dyn_cast<ExtractValueInst>(I)) {
      if (!hasScalarLeaf(E->getType())) return;
      Value* s = sh(E->getAggregateOperand());
      if (isZero(s)) return;
      IRBuilder<> B(I);
      Sh[I] = B.CreateExtractValue(s, E->getIndices());
      return;
    }
    if (auto* E = dyn_cast<InsertValueInst>(I)) {
      if (!hasScalarLeaf(E->getType())) return;
      Value* s = sh(E->getAggregateOperand());
      Value* v = sh(E->getInsertedValueOperand());
      if (isZero(s) && isZero(v)) return;
      IRBuilder<> B(I);
      Sh[I] = B.CreateInsertValue(s, v, E->getIndices());
      return;
    }
    if (auto* Fz = dyn_cast<FreezeInst>(I)) {
      Value* s = sh(Fz->getOperand(0));
      if (!isZero(s)) Sh[I] = s;
      return;
    }
    if (auto* A = dyn_cast<AtomicRMWInst>(I)) {
      concAddr(I, A->getPointerOperand());
      concretize(I, A->getValOperand());
      IRBuilder<> B(I);
      B.CreateCall(R.ConcMem, {A->getPointerOperand(), i64(R.DL.getTypeStoreSize(A->getType()))});
      B.CreateCall(R.Store, {A->getPointerOperand(), i32(R.DL.getTypeStoreSize(A->getType())), i32(0)});
      B.CreateCall(R.Atomic, {A->getPointerOperand(), i32(R.DL.getTypeStoreSize(A->getType())), i32(2)});
      return;
    }
    if (auto* A = dyn_cast<AtomicCmpXchgInst>(I)) {
      concAddr(I, A->getPointerOperand());
      concretize(I, A->getCompareOperand());
      concretize(I, A->getNewValOperand());
      IRBuilder<> B(I);
      Type* T = A->getCompareOperand()->getType();
      B.CreateCall(R.ConcMem, {A->getPointerOperand(), i64(R.DL.getTypeStoreSize(T))});
      B.CreateCall(R.Store, {A->getPointerOperand(), i32(R.DL.getTypeStoreSize(T)), i32(0)});
      B.CreateCall(R.Atomic, {A->getPointerOperand(), i32(R.DL.getTypeStoreSize(T)), i32(2)});
      return;
    }
    // Anything else: operands must be concrete.
    for (Value* op : I->operands())
      if (isa<Instruction>(op) || isa<Argument>(op)) concretize(I, op);
  }

  void visitBin(BinaryOperator* I) {
    if (!isScalar(I->getType())) {
      concretize(I, I->getOperand(0));
      concretize(I, I->getOperand(1));
      return;
    }
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    Value *sa = sh(a), *sb = sh(b);
    if (isZero(sa) && isZero(sb)) return;
    unsigned op = I->getOpcode();
    if (op == Instruction::Or && cast<PossiblyDisjointInst>(I)->isDisjoint() && widthOf(I->getType()) > 1) op = Instruction::Add;
    Sh[I] = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
      return B.CreateCall(R.Bin, {i32(op), i32(widthOf(I->getType())), sa, sb, val64(B, a), val64(B, b)});
    });
  }
  void visitICmp(ICmpInst* I) {
    Value *a = I->getOperand(0), *b = I->getOperand(1);
    if (!isScalar(a->getType())) {
      concretize(I, a);
      concretize(I, b);
      return;
    }
    Value *sa = sh(a), *sb = sh(b);
    if (isZero(sa) && isZero(sb)) return;
    Sh[I] = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
      return B.CreateCall(
          R.Icmp, {i32(I->getPredicate()), i32(widthOf(a->getType())), sa, sb, val64(B, a), val64(B, b)});
    });
  }
  void visitCast(CastInst* I) {
    Value* a = I->getOperand(0);
    Value* s = sh(a);
    if (isZero(s)) return;
    if (!isScalar(I->getType()) || !isScalar(a->getType())) {
      concretize(I, a);
      return;
    }
    unsigned op = I->getOpcode();
    if (op == Instruction::BitCast || ((op == Instruction::PtrToInt || op == Instruction::IntToPtr) &&
                                          widthOf(a->getType()) == widthOf(I->getType()))) {
      Sh[I] = s;
      return;
    }
    if (op == Instruction::PtrToInt) op = Instruction::Trunc;
    if (op == Instruction::IntToPtr) op = Instruction::ZExt;
    Sh[I] = guarded(I, {s}, [&](IRBuilder<>& B) -> Value* {
      return B.CreateCall(R.Cast, {i32(op), i32(widthOf(a->getType())), i32(widthOf(I->getType())), s});
    });
  }
  void visitSelect(SelectInst* I) {
    Value *c = I->getCondition(), *a = I->getTrueValue(), *b = I->getFalseValue();
    Value *sc = sh(c), *sa = sh(a), *sb = sh(b);
    if (!isScalar(I->getType()) || I->getType()->isPointerTy() || !isScalar(c->getType())) {
      // Pointers (and floats, aggregates): fork on the condition instead of building an if-then-else.
      if (isScalar(c->getType()) && !isZero(sc))
        guarded(I, {sc}, [&](IRBuilder<>& TB) -> Value* {
          TB.CreateCall(R.Branch, {sc, TB.CreateZExt(c, R.I32)});
          return nullptr;
        });
      if (isZero(sa) && isZero(sb)) return;
      if (!hasScalarLeaf(I->getType())) return;
      if (!isScalar(c->getType())) return;
      IRBuilder<> B(I);
      Sh[I] = B.CreateSelect(c, sa, sb);
      return;
    }
    if (isZero(sc) && isZero(sa) && isZero(sb)) return;
    if (isZero(sc)) {
      IRBuilder<> B(I);
      Sh[I] = B.CreateSelect(c, sa, sb);
      return;
    }
    Sh[I] = guarded(I, {sc, sa, sb}, [&](IRBuilder<>& B) -> Value* {
      return B.CreateCall(R.Select, {i32(widthOf(I->getType())), sc, sa, sb, val64(B, c), val64(B, a), val64(B, b)});
    });
  }
  void visitLoad(LoadInst* I) {
    concAddr(I, I->getPointerOperand());
    if (auto* GV = dyn_cast<GlobalVariable>(I->getPointerOperand()->stripPointerCasts())) {
      if (GV->isConstant()) return;
    }
    if (I->isAtomic()) {
      IRBuilder<> B(I);
      B.CreateCall(R.Atomic, {I->getPointerOperand(), i32(R.DL.getTypeStoreSize(I->getType())), i32(0)});
    }
    // vtable loads are never symbolic.
    if (MDNode* T = I->getMetadata(LLVMContext::MD_tbaa)) {
      if (T->getNumOperands() >= 2)
        if (auto* N = dyn_cast<MDNode>(T->getOperand(1)))
          if (N->getNumOperands())
            if (auto* S = dyn_cast<MDString>(N->getOperand(0)))
              if (S->getString() == "vtable pointer") return;
    }
    IRBuilder<> B(I);
    Value* s = loadShadow(B, I->getType(), I->getPointerOperand());
    if (hasScalarLeaf(I->getType())) Sh[I] = s;
  }
  void visitStore(StoreInst* I) {
    concAddr(I, I->getPointerOperand());
    if (I->isAtomic()) {
      IRBuilder<> B(I);
      B.CreateCall(R.Atomic, {I->getPointerOperand(), i32(R.DL.getTypeStoreSize(I->getValueOperand()->getType())), i32(1)});
    }
    IRBuilder<> B(I);
    Value* v = I->getValueOperand();
    if (!hasScalarLeaf(v->getType())) {
      B.CreateCall(R.Store, {I->getPointerOperand(), i32(R.DL.getTypeStoreSize(v->getType())), i32(0)});
      return;
    }
    storeShadow(B, v->getType(), I->getPointerOperand(), sh(v));
  }
  void visitGEP(GetElementPtrInst* I) {
    if (!I->getType()->isPointerTy()) return;
    Value* base = I->getPointerOperand();
    MapVector<Value*, APInt> Var;
    APInt Const(64, 0);
    bool ok = cast<GEPOperator>(I)->collectOffset(R.DL, 64, Var, Const);
    SmallVector<Value*, 4> S;
    S.push_back(sh(base));
    if (!ok) {
      for (Value* v : I->indices()) concretize(I, v);
    } else {
      for (auto& kv : Var) S.push_back(sh(kv.first));
    }
    bool all0 = true;
    for (Value* s : S) all0 &= isZero(s);
    if (all0) return;
    Sh[I] = guarded(I, S, [&](IRBuilder<>& B) -> Value* {
      Value* cur = sh(base);
      Value* curv = val64(B, base);
      bool first = true;
      for (auto& kv : Var) {
        Value* idx = kv.first;
        Value* idx64 = B.CreateZExtOrTrunc(idx, R.I64);
        uint64_t c = first ? Const.getZExtValue() : 0;
        first = false;
        cur = B.CreateCall(R.Gep, {cur, curv, sh(idx), idx64, i32(widthOf(idx->getType())), i64(kv.second.getZExtValue()), i64(c)});
        Value* sidx = B.CreateSExtOrTrunc(idx, R.I64);
        curv = B.CreateAdd(B.CreateAdd(curv, B.CreateMul(sidx, i64(kv.second.getZExtValue()))), i64(c));
      }
      if (first) cur = B.CreateCall(R.Gep, {cur, curv, i32(0), i64(0), i32(64), i64(0), i64(Const.getZExtValue())});
      return cur;
    });
  }
  void visitSwitch(SwitchInst* I) {
    Value* c = I->getCondition();
    Value* s = sh(c);
    if (isZero(s)) return;
    SmallVector<Constant*, 16> vals;
    for (auto& cs : I->cases()) vals.push_back(i64(cs.getCaseValue()->getZExtValue()));
    Constant* arr = ConstantArray::get(ArrayType::get(R.I64, vals.size()), vals);
    auto* GV = new GlobalVariable(R.M, arr->getType(), true, GlobalValue::PrivateLinkage, arr, "sx_cases");
    guarded(I, {s}, [&](IRBuilder<>& B) -> Value* {
      B.CreateCall(R.Switch, {s, i32(widthOf(c->getType())), val64(B, c), i32(vals.size()), GV});
      return nullptr;
    });
  }
  void visitRet(ReturnInst* I) {
    IRBuilder<> B(I);
    Value* v = I->getReturnValue();
    if (!v || !hasScalarLeaf(v->getType())) return;
    SmallVector<SmallVector<unsigned, 4>, 4> leaves;
    retLeaves(v->getType(), leaves, {});
    if (leaves.size() > MAX_RET) {
      concretize(I, v);
      return;
    }
    Value* s = sh(v);
    if (isa<Constant>(v)) {
      // Nothing symbolic: leave the return invalid, but it may have been set by a nested call.
      B.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.Ptr)), R.RetValid);
      return;
    }
    for (unsigned i = 0; i < leaves.size(); ++i) {
      Value* e = leaves[i].empty() ? s : B.CreateExtractValue(s, leaves[i]);
      B.CreateStore(e, retSlot(B, i));
    }
    B.CreateStore(&F, R.RetValid);
  }

  static bool externalName(StringRef n) {
    if (n.starts_with("sx_")) return false;
    return !n.contains("slinky");
  }

  void visitCall(CallBase* I) {
    if (auto* II = dyn_cast<IntrinsicInst>(I)) return visitIntrinsic(II);
    if (isa<InlineAsm>(I->getCalledOperand())) return;
    Function* Callee = I->getCalledFunction();
    if (Callee) {
      StringRef n = Callee->getName();
      if (n.starts_with("sxr_")) return;
      if (Callee->isDeclaration() && (n == "memcpy" || n == "memmove")) {
        for (auto& a : I->args()) concretize(I, a);
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(R.Memcpy, {I->getArgOperand(0), I->getArgOperand(1), I->getArgOperand(2)});
        return;
      }
      if (Callee->isDeclaration() && n == "memset") {
        concretize(I, I->getArgOperand(0));
        concretize(I, I->getArgOperand(2));
        Value* v = I->getArgOperand(1);
        IRBuilder<> B(I->getNextNode());
        B.CreateCall(R.Memset, {I->getArgOperand(0), I->getArgOperand(2), sh(v), i32(32)});
        return;
      }
      const char* redirect = nullptr;
      if (Callee->isDeclaration()) {
        if (n == "memcmp" || n == "bcmp") redirect = "sx_i_memcmp";
      }
      if (redirect) {
        Function* NF = cast<Function>(R.M.getOrInsertFunction(redirect, Callee->getFunctionType()).getCallee());
        I->setCalledFunction(NF);
        Callee = NF;
      }
      else if (Callee->isDeclaration() && externalName(n)) {
        for (auto& a : I->args()) concretize(I, a);
        // External code may call back: make sure stale arguments are not picked up.
        IRBuilder<> B(I);
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.Ptr)), R.CallTarget);
        return;
      }
    } else {
      concAddr(I, I->getCalledOperand());
    }
    if (auto* CI = dyn_cast<CallInst>(I)) {
      if (CI->isMustTailCall()) return;
      CI->setTailCall(false);
    }
    IRBuilder<> B(I);
    unsigned idx = 0;
    bool anyScalar = false;
    for (unsigned i = 0; i < I->arg_size(); ++i) {
      Value* a = I->getArgOperand(i);
      if (idx + 3 >= MAX_ARGS) break;
      if (I->isByValArgument(i)) {
        Value* p = B.CreatePtrToInt(a, R.I64);
        B.CreateStore(B.CreateTrunc(p, R.I32), argSlot(B, idx));
        B.CreateStore(B.CreateTrunc(B.CreateLShr(p, 32), R.I32), argSlot(B, idx + 1));
        idx += 2;
        anyScalar = true;
        continue;
      }
      if (isScalar(a->getType())) {
        B.CreateStore(sh(a), argSlot(B, idx));
        anyScalar = true;
      }
      idx++;
    }
    if (anyScalar) B.CreateStore(I->getCalledOperand(), R.CallTarget);
    if (!hasScalarLeaf(I->getType())) return;
    SmallVector<SmallVector<unsigned, 4>, 4> leaves;
    retLeaves(I->getType(), leaves, {});
    if (leaves.size() > MAX_RET) return;
    B.CreateStore(ConstantPointerNull::get(cast<PointerType>(R.Ptr)), R.RetValid);
    Instruction* N;
    if (auto* Inv = dyn_cast<InvokeInst>(I)) {
      BasicBlock* BB = Inv->getNormalDest();
      if (!BB->getSinglePredecessor()) BB = SplitEdge(Inv->getParent(), BB);
      N = &*BB->getFirstInsertionPt();
    } else {
      N = I->getNextNode();
    }
    IRBuilder<> A(N);
    Value* ok = A.CreateICmpEQ(A.CreateLoad(R.Ptr, R.RetValid), I->getCalledOperand());
    Value* s = leaves.size() == 1 && leaves[0].empty() ? nullptr : (Value*)zero(I->getType());
    for (unsigned i = 0; i < leaves.size(); ++i) {
      Value* e = A.CreateSelect(ok, A.CreateLoad(R.I32, retSlot(A, i)), i32(0));
      if (leaves[i].empty()) s = e;
      else s = A.CreateInsertValue(s, e, leaves[i]);
    }
    Sh[I] = s;
  }

  void visitIntrinsic(IntrinsicInst* I) {
    switch (I->getIntrinsicID()) {
    case Intrinsic::dbg_declare:
    case Intrinsic::dbg_value:
    case Intrinsic::dbg_label:
    case Intrinsic::assume:
    case Intrinsic::lifetime_end:
    case Intrinsic::invariant_start:
    case Intrinsic::invariant_end:
    case Intrinsic::experimental_noalias_scope_decl: return;
    case Intrinsic::lifetime_start: {
      IRBuilder<> B(I);
      auto* sz = cast<ConstantInt>(I->getArgOperand(0));
      if (sz->getSExtValue() > 0) B.CreateCall(R.Alloca, {I->getArgOperand(1), i64(sz->getZExtValue())});
      return;
    }
    case Intrinsic::memcpy:
    case Intrinsic::memcpy_inline:
    case Intrinsic::memmove: {
      auto* M = cast<MemTransferInst>(I);
      concAddr(I, M->getRawDest());
      concAddr(I, M->getRawSource());
      concretize(I, M->getLength());
      IRBuilder<> B(I);
      B.CreateCall(R.Memcpy, {M->getRawDest(), M->getRawSource(), B.CreateZExtOrTrunc(M->getLength(), R.I64)});
      return;
    }
    case Intrinsic::memset:
    case Intrinsic::memset_inline: {
      auto* M = cast<MemSetInst>(I);
      concAddr(I, M->getRawDest());
      concretize(I, M->getLength());
      IRBuilder<> B(I);
      B.CreateCall(R.Memset, {M->getRawDest(), B.CreateZExtOrTrunc(M->getLength(), R.I64), sh(M->getValue()), i32(8)});
      return;
    }
    case Intrinsic::smin:
    case Intrinsic::smax:
    case Intrinsic::umin:
    case Intrinsic::umax: {
      if (!isScalar(I->getType())) break;
      unsigned p = I->getIntrinsicID() == Intrinsic::smin   ? CmpInst::ICMP_SLT
                   : I->getIntrinsicID() == Intrinsic::smax ? CmpInst::ICMP_SGT
                   : I->getIntrinsicID() == Intrinsic::umin ? CmpInst::ICMP_ULT
                                                            : CmpInst::ICMP_UGT;
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      if (isZero(sa) && isZero(sb)) return;
      Sh[I] = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
        return B.CreateCall(R.MinMax, {i32(p), i32(widthOf(I->getType())), sa, sb, val64(B, a), val64(B, b)});
      });
      return;
    }
    case Intrinsic::abs: {
      if (!isScalar(I->getType())) break;
      Value* a = I->getArgOperand(0);
      Value* sa = sh(a);
      if (isZero(sa)) return;
      Sh[I] = guarded(I, {sa}, [&](IRBuilder<>& B) -> Value* {
        return B.CreateCall(R.MinMax, {i32(1000), i32(widthOf(I->getType())), sa, i32(0), val64(B, a), i64(0)});
      });
      return;
    }
    case Intrinsic::uadd_sat:
    case Intrinsic::usub_sat:
    case Intrinsic::sadd_sat:
    case Intrinsic::ssub_sat: {
      if (!isScalar(I->getType())) break;
      unsigned p = I->getIntrinsicID() == Intrinsic::uadd_sat   ? 1001
                   : I->getIntrinsicID() == Intrinsic::usub_sat ? 1002
                   : I->getIntrinsicID() == Intrinsic::sadd_sat ? 1003
                                                                : 1004;
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      Value *sa = sh(a), *sb = sh(b);
      if (isZero(sa) && isZero(sb)) return;
      Sh[I] = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
        return B.CreateCall(R.MinMax, {i32(p), i32(widthOf(I->getType())), sa, sb, val64(B, a), val64(B, b)});
      });
      return;
    }
    case Intrinsic::sadd_with_overflow:
    case Intrinsic::ssub_with_overflow:
    case Intrinsic::smul_with_overflow:
    case Intrinsic::uadd_with_overflow:
    case Intrinsic::usub_with_overflow:
    case Intrinsic::umul_with_overflow: {
      Value *a = I->getArgOperand(0), *b = I->getArgOperand(1);
      if (!isScalar(a->getType())) break;
      Value *sa = sh(a), *sb = sh(b);
      if (isZero(sa) && isZero(sb)) return;
      unsigned op, k;
      switch (I->getIntrinsicID()) {
      case Intrinsic::sadd_with_overflow: op = Instruction::Add, k = 0; break;
      case Intrinsic::ssub_with_overflow: op = Instruction::Sub, k = 1; break;
      case Intrinsic::smul_with_overflow: op = Instruction::Mul, k = 2; break;
      case Intrinsic::uadd_with_overflow: op = Instruction::Add, k = 3; break;
      case Intrinsic::usub_with_overflow: op = Instruction::Sub, k = 4; break;
      default: op = Instruction::Mul, k = 5; break;
      }
      unsigned w = widthOf(a->getType());
      Value* r = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
        return B.CreateCall(R.Bin, {i32(op), i32(w), sa, sb, val64(B, a), val64(B, b)});
      });
      Value* o = guarded(I, {sa, sb}, [&](IRBuilder<>& B) -> Value* {
        return B.CreateCall(R.Ovf, {i32(k), i32(w), sa, sb, val64(B, a), val64(B, b)});
      });
      IRBuilder<> B(I);
      Value* s = zero(I->getType());
      s = B.CreateInsertValue(s, r, 0u);
      s = B.CreateInsertValue(s, o, 1u);
      Sh[I] = s;
      return;
    }
    default: break;
    }
    for (auto& a : I->args()) concretize(I, a);
  }
};

struct SxPass : PassInfoMixin<SxPass> {
  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    Rt R(M);
    SmallVector<Function*, 64> Fs;
    for (auto& F : M)
      if (!F.isDeclaration() && !F.hasAvailableExternallyLinkage() && !F.getName().starts_with("sxr_") && !F.hasFnAttribute("sx_skip"))
        Fs.push_back(&F);
    // Function coverage table.
    SmallVector<Constant*, 64> names;
    Type* ET = StructType::get(R.C, {R.Ptr, R.I64});
    SmallVector<std::pair<Function*, unsigned>, 64> cov;
    for (auto* F : Fs) {
      if (F->getName().contains("slinky")) cov.push_back({F, 0});
    }
    GlobalVariable* Tab = nullptr;
    if (!cov.empty()) {
      auto* AT = ArrayType::get(ET, cov.size());
      for (auto& c : cov) {
        Constant* str = ConstantDataArray::getString(R.C, c.first->getName());
        auto* SG = new GlobalVariable(M, str->getType(), true, GlobalValue::PrivateLinkage, str, "sx_fn");
        names.push_back(ConstantStruct::get(cast<StructType>(ET), {SG, i64c(R, 0)}));
      }
      Tab = new GlobalVariable(M, AT, false, GlobalValue::PrivateLinkage, ConstantArray::get(AT, names), "sx_fntab");
      Tab->setSection("sx_funcs");
      Tab->setAlignment(Align(16));
      appendToUsed(M, {Tab});
    }
    for (auto* F : Fs) {
      Instr(R, *F).run();
    }
    unsigned i = 0;
    for (auto& c : cov) {
      IRBuilder<> B(&*c.first->getEntryBlock().getFirstInsertionPt());
      Value* p = B.CreateConstInBoundsGEP1_64(R.I8, Tab, i * 16 + 8);
      B.CreateStore(i64c(R, 1), p);
      ++i;
    }
    // Attributes that no longer hold.
    for (auto& F : M) {
      if (F.isIntrinsic()) continue;
      for (auto K : {Attribute::Memory, Attribute::NoFree, Attribute::NoSync, Attribute::WillReturn, Attribute::Speculatable, Attribute::NoRecurse, Attribute::AllocKind, Attribute::AllocSize, Attribute::NoCallback})
        F.removeFnAttr(K);
      for (auto& A : F.args()) {
        for (auto K : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::NoCapture, Attribute::Writable})
          A.removeAttr(K);
      }
      for (auto& I : instructions(F)) {
        if (auto* C = dyn_cast<CallBase>(&I)) {
          if (isa<IntrinsicInst>(C)) continue;
          for (auto K : {Attribute::Memory, Attribute::NoFree, Attribute::NoSync, Attribute::WillReturn, Attribute::AllocKind, Attribute::AllocSize, Attribute::NoCallback, Attribute::Builtin})
            C->removeFnAttr(K);
          for (unsigned a = 0; a < C->arg_size(); ++a)
            for (auto K : {Attribute::ReadNone, Attribute::ReadOnly, Attribute::WriteOnly, Attribute::NoAlias, Attribute::NoCapture})
              C->removeParamAttr(a, K);
        }
      }
    }
    return PreservedAnalyses::none();
  }
  static Constant* i64c(Rt& R, uint64_t v) { return ConstantInt::get(R.I64, v); }
  static bool isRequired() { return true; }
};

}  // namespace

extern "C" LLVM_ATTRIBUTE_WEAK ::llvm::PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "sx", "1", [](PassBuilder& PB) {
            PB.registerOptimizerLastEPCallback(
                [](ModulePassManager& MPM, OptimizationLevel) { MPM.addPass(SxPass()); });
            PB.registerPipelineParsingCallback(
                [](StringRef N, ModulePassManager& MPM, ArrayRef<PassBuilder::PipelineElement>) {
                  if (N == "sx") {
                    MPM.addPass(SxPass());
                    return true;
                  }
                  return false;
                });
          }};
}
