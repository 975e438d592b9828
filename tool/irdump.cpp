// irdump: reads one LLVM bitcode/IR file produced by clang -O0 (optnone disabled),
// promotes memory to registers, and prints the module as JSON for the Python analyser.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; using json::Value;
typedef llvm::Value LV;

static const DataLayout *DL;
static std::map<const LV *, int> Ids;
static std::set<const DIType *> SeenTy;
static Object Structs;

static std::string tyStr(Type *T) {
  std::string s; raw_string_ostream os(s); T->print(os, false, true); return os.str();
}
static std::string gname(const GlobalValue *G) { return G->getName().str(); }

static json::Value opnd(const LV *V) {
  if (auto *CI = dyn_cast<ConstantInt>(V)) {
    if (CI->getBitWidth() <= 64) return Array{"c", (int64_t)CI->getSExtValue()};
    return Array{"u"};
  }
  if (isa<ConstantPointerNull>(V)) return Array{"c", 0};
  if (isa<UndefValue>(V)) return Array{"u"};
  if (auto *A = dyn_cast<Argument>(V)) return Array{"a", (int64_t)A->getArgNo()};
  if (auto *G = dyn_cast<GlobalAlias>(V)) return Array{"g", gname(G)};
  if (auto *G = dyn_cast<GlobalValue>(V)) return Array{"g", gname(G)};
  if (auto *CE = dyn_cast<ConstantExpr>(V)) {
    if (auto *GO = dyn_cast<GEPOperator>(CE)) {
      APInt Off(64, 0);
      if (GO->accumulateConstantOffset(*DL, Off))
        return Array{"p", opnd(GO->getPointerOperand()), (int64_t)Off.getSExtValue()};
    }
    if (CE->isCast()) return opnd(CE->getOperand(0));
    return Array{"u"};
  }
  if (isa<ConstantAggregateZero>(V)) return Array{"z"};
  if (auto *IA = dyn_cast<InlineAsm>(V))
    return Array{"asm", IA->getAsmString(), IA->getConstraintString()};
  if (isa<Instruction>(V)) return Array{"v", (int64_t)Ids[V]};
  if (isa<MetadataAsValue>(V)) return Array{"m"};
  if (isa<Constant>(V)) return Array{"k"};
  return Array{"u"};
}

static std::string diTypeName(const DIType *T) {
  if (!T) return "void";
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    switch (D->getTag()) {
    case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType()) + "*";
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType());
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(D->getBaseType());
    case dwarf::DW_TAG_typedef: return D->getName().str();
    default: return diTypeName(D->getBaseType());
    }
  }
  if (auto *C = dyn_cast<DICompositeType>(T)) {
    if (C->getTag() == dwarf::DW_TAG_array_type) return diTypeName(C->getBaseType()) + "[]";
    if (C->getTag() == dwarf::DW_TAG_structure_type) return "struct " + C->getName().str();
    if (C->getTag() == dwarf::DW_TAG_union_type) return "union " + C->getName().str();
    return C->getName().str();
  }
  if (isa<DISubroutineType>(T)) return "fn";
  return T->getName().str();
}

static void addType(const DIType *T) {
  if (!T || SeenTy.count(T)) return;
  SeenTy.insert(T);
  if (auto *D = dyn_cast<DIDerivedType>(T)) { addType(D->getBaseType()); return; }
  if (auto *ST = dyn_cast<DISubroutineType>(T)) {
    for (auto *E : ST->getTypeArray()) addType(E);
    return;
  }
  auto *C = dyn_cast<DICompositeType>(T);
  if (!C) return;
  addType(C->getBaseType());
  if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) return;
  Array F;
  for (auto *E : C->getElements()) {
    auto *M = dyn_cast<DIDerivedType>(E);
    if (!M) continue;
    addType(M->getBaseType());
    const DIType *B = M->getBaseType();
    F.push_back(Object{{"name", M->getName().str()}, {"bit", (int64_t)M->getOffsetInBits()},
      {"bits", (int64_t)M->getSizeInBits()}, {"bf", (bool)M->isBitField()},
      {"type", diTypeName(B)}, {"line", (int64_t)M->getLine()}});
  }
  if (C->getName().empty() || C->isForwardDecl()) return;
  Structs[C->getName().str()] = Object{{"size", (int64_t)C->getSizeInBits() / 8}, {"fields", std::move(F)},
      {"file", C->getFilename().str()}, {"line", (int64_t)C->getLine()}};
}

static json::Value initVal(const Constant *C, int depth = 0) {
  if (depth > 4) return nullptr;
  if (auto *CI = dyn_cast<ConstantInt>(C)) return Array{"c", CI->getBitWidth() <= 64 ? (int64_t)CI->getSExtValue() : 0};
  if (isa<ConstantPointerNull>(C)) return Array{"c", 0};
  if (C->isNullValue()) return Array{"z"};
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
    if (CD->isString() || CD->getElementByteSize() == 1) {
      Array A; A.push_back("bytes"); Array B;
      for (unsigned i = 0; i < CD->getNumElements(); ++i) B.push_back((int64_t)CD->getElementAsInteger(i));
      A.push_back(std::move(B)); return A;
    }
    Array A; A.push_back("arr"); A.push_back((int64_t)CD->getElementByteSize()); Array B;
    if (CD->getElementType()->isIntegerTy())
      for (unsigned i = 0; i < CD->getNumElements(); ++i) B.push_back((int64_t)CD->getElementAsInteger(i));
    A.push_back(std::move(B)); return A;
  }
  if (isa<ConstantAggregate>(C)) {
    Array A; A.push_back("agg"); Array B;
    Type *T = C->getType();
    for (unsigned i = 0; i < C->getNumOperands(); ++i) {
      int64_t off = 0;
      if (auto *ST = dyn_cast<StructType>(T)) off = DL->getStructLayout(ST)->getElementOffset(i);
      else if (auto *AT = dyn_cast<ArrayType>(T)) off = i * DL->getTypeAllocSize(AT->getElementType());
      B.push_back(Array{off, initVal(cast<Constant>(C->getOperand(i)), depth + 1)});
    }
    A.push_back(std::move(B)); return A;
  }
  return opnd(C);
}

int main(int argc, char **argv) {
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  {
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM; FunctionPassManager FPM; FPM.addPass(PromotePass());
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  DebugInfoFinder Finder; Finder.processModule(*M);
  for (auto *T : Finder.types()) addType(T);
  Array Globals, Funcs;
  for (auto &G : M->globals()) {
    Object O{{"name", gname(&G)}, {"tls", G.isThreadLocal()}, {"const", G.isConstant()},
      {"decl", G.isDeclaration()}, {"internal", G.hasLocalLinkage()},
      {"size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : 0}};
    SmallVector<DIGlobalVariableExpression *, 2> GVs; G.getDebugInfo(GVs);
    if (!GVs.empty()) {
      auto *V = GVs[0]->getVariable();
      O["line"] = (int64_t)V->getLine(); O["file"] = V->getFilename().str();
      O["ctype"] = diTypeName(V->getType()); O["src"] = V->getName().str();
    }
    if (G.hasInitializer()) O["init"] = initVal(G.getInitializer());
    Globals.push_back(std::move(O));
  }
  for (auto &F : *M) {
    if (F.isIntrinsic()) continue;
    Object FO{{"name", gname(&F)}, {"decl", F.isDeclaration()}, {"internal", F.hasLocalLinkage()},
      {"noreturn", F.hasFnAttribute(Attribute::NoReturn)}, {"ret", tyStr(F.getReturnType())},
      {"vararg", F.isVarArg()}, {"hidden", F.hasHiddenVisibility()}};
    Array Args;
    for (auto &A : F.args()) Args.push_back(Object{{"name", A.getName().str()}, {"ty", tyStr(A.getType())}});
    FO["args"] = std::move(Args);
    if (F.isDeclaration()) { Funcs.push_back(std::move(FO)); continue; }
    if (auto *SP = F.getSubprogram()) {
      FO["line"] = (int64_t)SP->getLine(); FO["file"] = SP->getFilename().str();
      Array PT;
      for (auto *E : SP->getType()->getTypeArray()) PT.push_back(diTypeName(E));
      FO["ptypes"] = std::move(PT); // [ret, args...]
    }
    Ids.clear(); int n = 0;
    std::map<const BasicBlock *, int> BB; int b = 0;
    for (auto &B : F) { BB[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) Ids[&I] = n++; }
    Array Blocks;
    for (auto &B : F) {
      Array Ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
          auto id = II->getIntrinsicID();
          if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end) continue;
        }
        Object O{{"op", I.getOpcodeName()}};
        if (!I.getType()->isVoidTy()) { O["id"] = Ids[&I]; O["ty"] = tyStr(I.getType()); }
        if (I.hasName()) O["nm"] = I.getName().str();
        if (auto &L = I.getDebugLoc()) { O["ln"] = (int64_t)L.getLine();
          if (auto *S = dyn_cast_or_null<DIScope>(L.getScope())) O["fl"] = S->getFilename().str(); }
        auto bits = [&](Type *T) -> int64_t { return T->isSized() ? (int64_t)DL->getTypeSizeInBits(T).getKnownMinValue() : 0; };
        if (auto *A = dyn_cast<AllocaInst>(&I)) {
          O["aty"] = tyStr(A->getAllocatedType()); O["size"] = bits(A->getAllocatedType()) / 8;
          O["n"] = opnd(A->getArraySize());
        } else if (auto *L = dyn_cast<LoadInst>(&I)) {
          O["p"] = opnd(L->getPointerOperand()); O["bits"] = bits(L->getType()); O["al"] = (int64_t)L->getAlign().value();
          if (L->isAtomic()) O["atomic"] = true; if (L->isVolatile()) O["vol"] = true;
        } else if (auto *S = dyn_cast<StoreInst>(&I)) {
          O["p"] = opnd(S->getPointerOperand()); O["val"] = opnd(S->getValueOperand());
          O["bits"] = bits(S->getValueOperand()->getType()); O["al"] = (int64_t)S->getAlign().value(); O["vty"] = tyStr(S->getValueOperand()->getType());
          if (auto *C = dyn_cast<Constant>(S->getValueOperand())) if (C->getType()->isVectorTy() || C->getType()->isAggregateType()) O["cv"] = initVal(C);
        } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<LV *, APInt> Var; APInt Off(64, 0);
          auto *GO = cast<GEPOperator>(G);
          O["p"] = opnd(G->getPointerOperand());
          O["sty"] = tyStr(G->getSourceElementType());
          if (GO->collectOffset(*DL, 64, Var, Off)) {
            O["off"] = (int64_t)Off.getSExtValue();
            Array V; for (auto &KV : Var) V.push_back(Array{opnd(KV.first), (int64_t)KV.second.getSExtValue()});
            O["var"] = std::move(V);
          } else O["off"] = nullptr;
        } else if (auto *C = dyn_cast<CallBase>(&I)) {
          O["fn"] = opnd(C->getCalledOperand());
          Array A; for (auto &X : C->args()) A.push_back(opnd(X.get()));
          O["args"] = std::move(A);
          if (C->isInlineAsm()) O["sidefx"] = cast<InlineAsm>(C->getCalledOperand())->hasSideEffects();
        } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
          if (Br->isConditional()) O["c"] = opnd(Br->getCondition());
          Array S; for (unsigned i = 0; i < Br->getNumSuccessors(); ++i) S.push_back(BB[Br->getSuccessor(i)]);
          O["s"] = std::move(S);
        } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
          O["c"] = opnd(Sw->getCondition()); O["d"] = BB[Sw->getDefaultDest()];
          Array S; for (auto &Cs : Sw->cases()) S.push_back(Array{(int64_t)Cs.getCaseValue()->getSExtValue(), BB[Cs.getCaseSuccessor()]});
          O["s"] = std::move(S); O["bits"] = bits(Sw->getCondition()->getType());
        } else if (auto *P = dyn_cast<PHINode>(&I)) {
          Array S; for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
            S.push_back(Array{BB[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))});
          O["in"] = std::move(S);
        } else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
          O["pred"] = CmpInst::getPredicateName(IC->getPredicate()).str();
          O["a"] = opnd(IC->getOperand(0)); O["b"] = opnd(IC->getOperand(1));
          O["bits"] = bits(IC->getOperand(0)->getType()); O["isptr"] = IC->getOperand(0)->getType()->isPointerTy();
        } else if (I.isCast()) {
          O["a"] = opnd(I.getOperand(0)); O["from"] = bits(I.getOperand(0)->getType()); O["bits"] = bits(I.getType());
        } else if (I.isBinaryOp()) {
          O["a"] = opnd(I.getOperand(0)); O["b"] = opnd(I.getOperand(1)); O["bits"] = bits(I.getType());
          if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) if (OB->hasNoSignedWrap()) O["nsw"] = 1;
        } else if (isa<SelectInst>(I)) {
          O["c"] = opnd(I.getOperand(0)); O["a"] = opnd(I.getOperand(1)); O["b"] = opnd(I.getOperand(2));
        } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
          if (R->getReturnValue()) O["val"] = opnd(R->getReturnValue());
        } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
          O["a"] = opnd(EV->getAggregateOperand()); O["ix"] = (int64_t)EV->getIndices()[0];
        } else {
          Array A; for (auto &X : I.operands()) A.push_back(opnd(X.get())); O["ops"] = std::move(A);
        }
        Ins.push_back(std::move(O));
      }
      Blocks.push_back(std::move(Ins));
    }
    FO["blocks"] = std::move(Blocks);
    Funcs.push_back(std::move(FO));
  }
  Object Out{{"globals", std::move(Globals)}, {"funcs", std::move(Funcs)}, {"structs", std::move(Structs)},
    {"file", M->getSourceFileName()}};
  outs() << json::Value(std::move(Out)) << "\n";
  return 0;
}
