// irx: load textual/bitcode IR, force-inline everything but an explicit keep-list into the
// harness roots, canonicalise it with a fixed pass pipeline, and export the resulting
// functions (CFG, dominators, loops, SCEV, debug locations) as JSON. No rule lives here.
#include "llvm/IR/IRBuilder.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/Analysis/AliasAnalysis.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/MemoryBuiltins.h"
#include "llvm/Analysis/MemorySSA.h"
#include "llvm/Analysis/TargetFolder.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/StringRef.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/InitLLVM.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/ValueMapper.h"
using namespace llvm;

static cl::opt<std::string> In(cl::Positional, cl::Required, cl::desc("input .ll/.bc"));
static cl::opt<std::string> Out("o", cl::desc("json output"), cl::init("-"));
static cl::opt<std::string> LL("ll", cl::desc("optimised .ll output"), cl::init(""));
static cl::opt<std::string> RootRe("roots", cl::desc("regex of root function names"), cl::init("^h_"));
static cl::opt<std::string> KeepRe("keep", cl::desc("regex of demangled names never inlined"), cl::init(""));
static cl::opt<std::string> PureRe("textops", cl::desc("regex of demangled names of text-building functions: they touch nothing but their own arguments, do not capture them and do not unwind"), cl::init(""));
static cl::opt<std::string> Passes("passes", cl::desc("pass pipeline"), cl::init(""));
static cl::opt<bool> H2S("h2s", cl::desc("turn constant-size operator new into stack objects, drop operator delete"), cl::init(false));
static cl::opt<bool> All("all", cl::desc("export every defined function, not only the roots"), cl::init(false));
static cl::opt<unsigned> Peel("peel", cl::desc("peel the loops left by this many iterations"), cl::init(0));
static cl::opt<int> PeelRounds("peel-rounds", cl::desc("how many times to peel"), cl::init(2));
static cl::opt<unsigned> Walk("walk", cl::desc("iterations peeled from the outermost loops of the roots at each round"), cl::init(0));
static cl::opt<int> WalkRounds("walk-rounds", cl::desc("rounds of outermost-first peeling"), cl::init(12));
static cl::opt<bool> Fill("fill", cl::desc("memory starts with unknown contents"), cl::init(true));
static cl::opt<bool> Bounds("bounds", cl::desc("insert obligations that accesses of objects of known size are inside"), cl::init(false));
static cl::opt<unsigned> WalkMax("walk-max", cl::desc("stop peeling functions of more instructions"), cl::init(60000));

// "context::base" of a mangled function, without template arguments of the base, return type and parameters.
// Free std operators on strings or streams get the suffix "{text}".
static std::string shortName(const std::string &Mangled) {
  ItaniumPartialDemangler D;
  if (D.partialDemangle(Mangled.c_str()) || !D.isFunction()) return Mangled;
  size_t N = 0;
  std::string Ctx, Base;
  if (char *C = D.getFunctionDeclContextName(nullptr, &N)) { Ctx = C; free(C); }
  N = 0;
  if (char *B = D.getFunctionBaseName(nullptr, &N)) { Base = B; free(B); }
  std::string R = Ctx.empty() ? Base : Ctx + "::" + Base;
  if (Ctx == "std" && StringRef(Base).starts_with("operator")) {
    std::string Full = demangle(Mangled);
    if (Full.find("basic_string") != std::string::npos || Full.find("stream") != std::string::npos) R += "{text}";
  }
  return R;
}

namespace {
struct Exporter {
  json::OStream &J;
  const DataLayout &DL;
  DenseMap<const Value *, int> Ids;
  int Next = 0;
  Exporter(json::OStream &J, const DataLayout &DL) : J(J), DL(DL) {}
  int id(const Value *V) {
    auto It = Ids.find(V);
    if (It != Ids.end()) return It->second;
    return Ids[V] = Next++;
  }
  static std::string str(const Type *T) {
    std::string S;
    raw_string_ostream OS(S);
    T->print(OS, false, true);
    return OS.str();
  }
  static std::string strv(const Value *V) {
    std::string S;
    raw_string_ostream OS(S);
    V->printAsOperand(OS, false);
    return OS.str();
  }
  // value reference: ["v",id] | ["i",dec,bits] | ["f",text] | ["null"] | ["undef"] | ["g",name,demangled] | ["b",id] | ["c",text] | ["cgep",base,off]
  json::Value ref(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
      SmallString<32> S;
      C->getValue().toString(S, 10, true);
      return json::Array{"i", S.str().str(), (int64_t)C->getBitWidth()};
    }
    if (auto *C = dyn_cast<ConstantFP>(V)) {
      SmallString<32> S;
      C->getValueAPF().toString(S, 17, 0);
      return json::Array{"f", S.str().str(), str(C->getType())};
    }
    if (isa<ConstantPointerNull>(V)) return json::Array{"null"};
    if (isa<UndefValue>(V)) return json::Array{"undef"};
    if (auto *G = dyn_cast<GlobalValue>(V)) return json::Array{"g", G->getName().str(), demangle(G->getName().str()), isa<Function>(G) ? shortName(G->getName().str()) : std::string()};
    if (auto *B = dyn_cast<BasicBlock>(V)) return json::Array{"b", id(B)};
    if (isa<Instruction>(V) || isa<Argument>(V)) return json::Array{"v", id(V)};
    if (auto *CE = dyn_cast<GEPOperator>(V)) {
      APInt Off(DL.getIndexTypeSizeInBits(CE->getType()), 0);
      if (CE->accumulateConstantOffset(DL, Off)) {
        return json::Array{"cgep", ref(CE->getPointerOperand()), Off.getSExtValue()};
      }
    }
    if (isa<MetadataAsValue>(V)) return json::Array{"md"};
    return json::Array{"c", strv(V)};
  }
  json::Value scev(const SCEV *S) {
    switch (S->getSCEVType()) {
      case scConstant: {
        SmallString<32> T;
        cast<SCEVConstant>(S)->getAPInt().toString(T, 10, true);
        return json::Array{"i", T.str().str(), (int64_t)cast<SCEVConstant>(S)->getAPInt().getBitWidth()};
      }
      case scTruncate: case scZeroExtend: case scSignExtend: case scPtrToInt: {
        auto *C = cast<SCEVCastExpr>(S);
        const char *N = S->getSCEVType() == scTruncate ? "trunc" : S->getSCEVType() == scZeroExtend ? "zext" : S->getSCEVType() == scSignExtend ? "sext" : "ptrtoint";
        return json::Array{N, scev(C->getOperand()), (int64_t)(S->getType()->isIntegerTy() ? S->getType()->getIntegerBitWidth() : 64)};
      }
      case scAddExpr: case scMulExpr: case scUMaxExpr: case scSMaxExpr: case scUMinExpr: case scSMinExpr: case scSequentialUMinExpr: {
        const char *N = S->getSCEVType() == scAddExpr ? "add" : S->getSCEVType() == scMulExpr ? "mul" : S->getSCEVType() == scUMaxExpr ? "umax" : S->getSCEVType() == scSMaxExpr ? "smax" : S->getSCEVType() == scUMinExpr || S->getSCEVType() == scSequentialUMinExpr ? "umin" : "smin";
        json::Array A{N};
        for (auto *O : cast<SCEVNAryExpr>(S)->operands()) A.push_back(scev(O));
        return A;
      }
      case scUDivExpr: {
        auto *D = cast<SCEVUDivExpr>(S);
        return json::Array{"udiv", scev(D->getLHS()), scev(D->getRHS())};
      }
      case scAddRecExpr: {
        auto *R = cast<SCEVAddRecExpr>(S);
        json::Array A{"rec", id(R->getLoop()->getHeader())};
        for (auto *O : R->operands()) A.push_back(scev(O));
        return A;
      }
      case scUnknown:
        return json::Array{"u", ref(cast<SCEVUnknown>(S)->getValue())};
      case scVScale:
        return json::Array{"vscale"};
      case scCouldNotCompute:
        return json::Array{"cnc"};
    }
    return json::Array{"cnc"};
  }
  void loc(const Instruction &I) {
    const DebugLoc &D = I.getDebugLoc();
    if (!D) return;
    J.attributeArray("loc", [&] {
      for (const DILocation *L = D.get(); L; L = L->getInlinedAt()) {
        auto *SP = L->getScope()->getSubprogram();
        J.value(json::Array{L->getFilename().str(), (int64_t)L->getLine(), SP ? (SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : std::string(), (int64_t)L->getColumn()});
      }
    });
  }
  void fn(Function &F, DominatorTree &DT, LoopInfo &LI, ScalarEvolution &SE, MemorySSA &MSSA) {
    J.objectBegin();
    J.attribute("name", F.getName().str());
    J.attribute("dem", demangle(F.getName().str()));
    if (auto *SP = F.getSubprogram()) {
      J.attribute("file", SP->getFilename().str());
      J.attribute("line", (int64_t)SP->getLine());
    }
    J.attributeArray("args", [&] {
      for (auto &A : F.args()) {
        std::string S;
        if (A.hasStructRetAttr()) S = "sret";
        J.value(json::Array{id(&A), str(A.getType()), A.getName().str(), S});
      }
    });
    J.attributeArray("blocks", [&] {
      for (auto &B : F) {
        J.objectBegin();
        J.attribute("id", id(&B));
        J.attributeArray("succ", [&] { for (auto *S : successors(&B)) J.value(id(S)); });
        J.attributeArray("pred", [&] { for (auto *S : predecessors(&B)) J.value(id(S)); });
        auto *N = DT.getNode(&B);
        J.attribute("idom", N && N->getIDom() ? id(N->getIDom()->getBlock()) : -1);
        J.attribute("reach", DT.isReachableFromEntry(&B));
        auto *L = LI.getLoopFor(&B);
        J.attribute("loop", L ? id(L->getHeader()) : -1);
        J.attributeArray("ins", [&] {
          for (auto &I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            J.objectBegin();
            J.attribute("id", id(&I));
            J.attribute("op", I.getOpcodeName());
            J.attribute("ty", str(I.getType()));
            if (auto *C = dyn_cast<CmpInst>(&I)) J.attribute("pred", CmpInst::getPredicateName(C->getPredicate()).str());
            if (auto *CB = dyn_cast<CallBase>(&I)) {
              const Value *Cal = CB->getCalledOperand()->stripPointerCasts();
              J.attribute("callee", ref(Cal));
              J.attributeArray("ops", [&] { for (auto &O : CB->args()) J.value(ref(O.get())); });
              if (CB->doesNotReturn()) J.attribute("noreturn", true);
              if (auto *IV = dyn_cast<InvokeInst>(&I)) {
                J.attribute("normal", id(IV->getNormalDest()));
                J.attribute("unwind", id(IV->getUnwindDest()));
              }
              if (CB->onlyReadsMemory()) J.attribute("readonly", true);
              if (CB->doesNotAccessMemory()) J.attribute("readnone", true);
              if (CB->doesNotThrow()) J.attribute("nounwind", true);
            } else if (auto *P = dyn_cast<PHINode>(&I)) {
              J.attributeArray("ops", [&] {
                for (unsigned K = 0; K < P->getNumIncomingValues(); ++K)
                  J.value(json::Array{ref(P->getIncomingValue(K)), id(P->getIncomingBlock(K))});
              });
            } else {
              J.attributeArray("ops", [&] { for (auto &O : I.operands()) J.value(ref(O.get())); });
            }
            if (auto *A = dyn_cast<AllocaInst>(&I)) {
              J.attribute("aty", str(A->getAllocatedType()));
              auto Sz = A->getAllocationSize(DL);
              J.attribute("asize", Sz ? (int64_t)Sz->getFixedValue() : -1);
            }
            if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
              MapVector<Value *, APInt> VO;
              APInt CO(DL.getIndexTypeSizeInBits(G->getType()), 0);
              if (cast<GEPOperator>(G)->collectOffset(DL, CO.getBitWidth(), VO, CO)) {
                J.attributeArray("off", [&] {
                  J.value(json::Array{CO.getSExtValue()});
                  for (auto &P : VO) J.value(json::Array{P.second.getSExtValue(), ref(P.first)});
                });
              }
            }
            if (auto *E = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (auto X : E->indices()) J.value((int64_t)X); });
            if (auto *E = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (auto X : E->indices()) J.value((int64_t)X); });
            if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
              J.attributeArray("cases", [&] { for (auto &C : Sw->cases()) J.value(json::Array{ref(C.getCaseValue()), id(C.getCaseSuccessor())}); });
              J.attribute("default", id(Sw->getDefaultDest()));
            }
            if (auto *LP = dyn_cast<LandingPadInst>(&I)) J.attribute("cleanup", LP->isCleanup());
            if (I.getType()->isIntegerTy() || I.getType()->isPointerTy())
              if (SE.isSCEVable(I.getType())) { J.attributeBegin("scev"); J.value(scev(SE.getSCEV(&I))); J.attributeEnd(); }
            if (I.mayReadFromMemory() && !isa<PHINode>(I)) {
              if (auto *MA = MSSA.getMemoryAccess(&I)) {
                auto *D = MSSA.getWalker()->getClobberingMemoryAccess(MA);
                if (MSSA.isLiveOnEntryDef(D)) J.attribute("clobber", "entry");
                else if (auto *MD = dyn_cast<MemoryDef>(D)) J.attribute("clobber", id(MD->getMemoryInst()));
                else J.attribute("clobber", json::Array{"phi", id(D->getBlock())});
              }
            }
            if (auto *O = dyn_cast<OverflowingBinaryOperator>(&I)) {
              if (O->hasNoSignedWrap()) J.attribute("nsw", true);
              if (O->hasNoUnsignedWrap()) J.attribute("nuw", true);
            }
            if (auto *PE = dyn_cast<PossiblyExactOperator>(&I)) if (PE->isExact()) J.attribute("exact", true);
            if (auto *PD = dyn_cast<PossiblyDisjointInst>(&I)) if (PD->isDisjoint()) J.attribute("disjoint", true);
            loc(I);
            J.objectEnd();
          }
        });
        J.objectEnd();
      }
    });
    J.attributeArray("loops", [&] {
      for (auto *L : LI.getLoopsInPreorder()) {
        J.objectBegin();
        J.attribute("header", id(L->getHeader()));
        J.attribute("parent", L->getParentLoop() ? id(L->getParentLoop()->getHeader()) : -1);
        J.attribute("depth", (int64_t)L->getLoopDepth());
        J.attributeArray("blocks", [&] { for (auto *B : L->blocks()) J.value(id(B)); });
        SmallVector<BasicBlock *, 4> Ex;
        L->getExitingBlocks(Ex);
        J.attributeArray("exiting", [&] { for (auto *B : Ex) J.value(id(B)); });
        J.attribute("preheader", L->getLoopPreheader() ? id(L->getLoopPreheader()) : -1);
        J.attribute("latch", L->getLoopLatch() ? id(L->getLoopLatch()) : -1);
        J.attributeBegin("btc");
        J.value(scev(SE.getBackedgeTakenCount(L)));
        J.attributeEnd();
        J.attributeArray("exits", [&] {
          for (auto *B : Ex) J.value(json::Array{id(B), scev(SE.getExitCount(L, B))});
        });
        J.objectEnd();
      }
    });
    J.objectEnd();
  }
};
} // namespace

// p + c with low bits cleared is a constant offset when p is an aligned stack object.
static void foldMasks(Function &F, const DataLayout &DL) {
  SmallVector<IntrinsicInst *, 4> Masks;
  for (auto &I : instructions(F)) if (auto *II = dyn_cast<IntrinsicInst>(&I)) if (II->getIntrinsicID() == Intrinsic::ptrmask) Masks.push_back(II);
  for (auto *II : Masks) {
    auto *Mk = dyn_cast<ConstantInt>(II->getArgOperand(1));
    APInt Off(64, 0);
    auto *A = dyn_cast<AllocaInst>(II->getArgOperand(0)->stripAndAccumulateConstantOffsets(DL, Off, true));
    if (!Mk || !A || !Mk->getValue().isNegatedPowerOf2() || A->getAlign().value() < uint64_t(-Mk->getSExtValue())) continue;
    IRBuilder<> B(II);
    II->replaceAllUsesWith(B.CreateGEP(B.getInt8Ty(), A, B.getInt64((Off & Mk->getValue()).getSExtValue())));
    II->eraseFromParent();
  }
}

// Scalar type through which an object is accessed, if it is unique (pointer casts and offsets are followed).
static Type *accessType(Value *Obj) {
  SmallVector<Value *, 8> Todo{Obj};
  SmallPtrSet<Value *, 16> Seen;
  Type *T = nullptr;
  while (!Todo.empty()) {
    Value *V = Todo.pop_back_val();
    if (!Seen.insert(V).second) continue;
    for (auto *U : V->users()) {
      Type *A = nullptr;
      if (auto *L = dyn_cast<LoadInst>(U)) A = L->getType();
      else if (auto *St = dyn_cast<StoreInst>(U)) { if (St->getPointerOperand() == V) A = St->getValueOperand()->getType(); }
      else if (isa<GetElementPtrInst>(U)) Todo.push_back(U);
      if (A) { if (T && T != A) return nullptr; T = A; }
    }
  }
  return T;
}
// Small copies become element-wise, so that values flow through them.
static bool expandCopies(Function &F, const DataLayout &DL) {
  SmallVector<MemTransferInst *, 8> Copies;
  for (auto &I : instructions(F)) if (auto *MT = dyn_cast<MemTransferInst>(&I)) Copies.push_back(MT);
  bool Any = false;
  for (auto *MT : Copies) {
    auto *Len = dyn_cast<ConstantInt>(MT->getLength());
    if (!Len || Len->getZExtValue() > 512 || MT->isVolatile()) continue;
    Type *T = accessType(getUnderlyingObject(MT->getRawSource()));
    if (!T) T = accessType(getUnderlyingObject(MT->getRawDest()));
    if (!T || !(T->isIntegerTy() || T->isFloatingPointTy() || T->isPointerTy())) continue;
    uint64_t Sz = DL.getTypeStoreSize(T), N = Len->getZExtValue();
    if (!Sz || N % Sz) continue;
    IRBuilder<> B(MT);
    SmallVector<Value *, 16> Vals;
    for (uint64_t K = 0; K < N; K += Sz) Vals.push_back(B.CreateAlignedLoad(T, B.CreateConstGEP1_64(B.getInt8Ty(), MT->getRawSource(), K), Align(1)));
    for (uint64_t K = 0; K < N; K += Sz) B.CreateAlignedStore(Vals[K / Sz], B.CreateConstGEP1_64(B.getInt8Ty(), MT->getRawDest(), K), Align(1));
    MT->eraseFromParent();
    Any = true;
  }
  return Any;
}

// Peel one iteration of a loop in simplified and LCSSA form, whatever its exits.
// The state of the ghosts belongs to each root: make it a local variable.
static bool localizeGhosts(Function &F) {
  bool Any = false;
  for (auto &G : F.getParent()->globals()) {
    if (!G.getName().contains("ghost_state") || !G.hasLocalLinkage()) continue;
    SmallVector<Constant *, 1> C {&G};
    convertUsersOfConstantsToInstructions(C);
    SmallVector<Use *, 32> Uses;
    for (auto &U : G.uses())
      if (auto *I = dyn_cast<Instruction>(U.getUser())) if (I->getFunction() == &F) Uses.push_back(&U);
    if (Uses.empty()) continue;
    auto *At = &*F.getEntryBlock().getFirstInsertionPt();
    auto *A = new AllocaInst(G.getValueType(), 0, nullptr, Align(256), "ghost", At);
    new StoreInst(G.getInitializer(), A, At);
    for (auto *U : Uses) U->set(A);
    Any = true;
  }
  return Any;
}

static bool peelOnce(Function &F, Loop *L) {
  auto *H = L->getHeader(), *Pre = L->getLoopPreheader();
  if (!Pre || !L->isLoopSimplifyForm()) return false;
  for (auto *B : L->blocks())
    if (isa<IndirectBrInst>(B->getTerminator()) || isa<CallBrInst>(B->getTerminator())) return false;
  ValueToValueMapTy VM;
  SmallVector<BasicBlock *, 16> Copies, Blocks(L->blocks());
  for (auto *B : Blocks) {
    auto *C = CloneBasicBlock(B, VM, ".w", &F);
    VM[B] = C;
    Copies.push_back(C);
  }
  auto *CH = cast<BasicBlock>(VM[H]);
  SmallVector<MDNode *, 6> Scopes;
  identifyNoAliasScopesToClone(Blocks, Scopes);
  // header phis of the copy are the values from the preheader
  for (auto &P : make_early_inc_range(H->phis())) {
    auto *CP = cast<PHINode>(VM[&P]);
    auto *V = P.getIncomingValueForBlock(Pre);
    CP->eraseFromParent();
    VM[&P] = V;
  }
  for (auto *C : Copies)
    for (auto &I : *C) RemapInstruction(&I, VM, RF_NoModuleLevelChanges | RF_IgnoreMissingLocals);
  cloneAndAdaptNoAliasScopes(Scopes, Copies, F.getContext(), "walk");
  // the back edges of the copy enter the loop
  SmallVector<BasicBlock *, 4> Latches;
  for (auto *P : predecessors(H)) if (L->contains(P)) Latches.push_back(P);
  for (auto *La : Latches) cast<BasicBlock>(VM[La])->getTerminator()->replaceUsesOfWith(CH, H);
  for (auto &P : H->phis()) {
    P.removeIncomingValue(Pre, false);
    for (auto *La : Latches) {
      auto *V = P.getIncomingValueForBlock(La);
      auto It = VM.find(V);
      P.addIncoming(It != VM.end() ? (Value *)It->second : V, cast<BasicBlock>(VM[La]));
    }
  }
  Pre->getTerminator()->replaceUsesOfWith(H, CH);
  // exits
  SmallVector<BasicBlock *, 8> Exits;
  L->getUniqueExitBlocks(Exits);
  for (auto *E : Exits)
    for (auto &P : E->phis())
      for (unsigned I = 0, N = P.getNumIncomingValues(); I < N; ++I) {
        auto *B = P.getIncomingBlock(I);
        if (!L->contains(B)) continue;
        auto *V = P.getIncomingValue(I);
        auto It = VM.find(V);
        P.addIncoming(It != VM.end() ? (Value *)It->second : V, cast<BasicBlock>(VM[B]));
      }
  return true;
}

// Catch clause which stops an exception of type T: 1 if C does, 0 if not, -1 if unknown.
static int catches(Value *T, Value *C) {
  if (isa<ConstantPointerNull>(C)) return 1;
  for (int K = 0; K < 16; ++K) {
    if (T == C) return 1;
    auto *G = dyn_cast<GlobalVariable>(T);
    if (!G || !isa<GlobalVariable>(C)) return -1;
    if (!G->hasInitializer()) return G->getName().size() <= 5 && cast<GlobalVariable>(C)->getName() != G->getName() ? 0 : -1; // fundamental types
    auto *I = dyn_cast<ConstantStruct>(G->getInitializer());
    if (!I || I->getNumOperands() > 3) return -1;
    if (I->getNumOperands() < 3) return 0;
    T = I->getOperand(2)->stripPointerCasts();
  }
  return -1;
}
// Handlers of exceptions whose type is known: fold the selectors.
static bool foldSelectors(Function &F) {
  bool Any = false;
  for (auto &B : F) {
    auto *L = B.getLandingPadInst();
    if (!L) continue;
    int Sel = -2; // matching clause, -1 for none
    for (auto *P : predecessors(&B)) {
      auto *I = dyn_cast<InvokeInst>(P->getTerminator());
      auto *C = I ? I->getCalledFunction() : nullptr;
      int S = -3;
      if (C && C->getName() == "__cxa_throw") {
        S = -1;
        for (unsigned K = 0; K < L->getNumClauses() && S == -1; ++K) {
          const int M = L->isCatch(K) ? catches(I->getArgOperand(1)->stripPointerCasts(), L->getClause(K)->stripPointerCasts()) : -1;
          if (M < 0) S = -3;
          else if (M) S = K;
        }
      }
      if (Sel == -2) Sel = S;
      if (S != Sel) Sel = -3;
    }
    if (Sel < -1) continue;
    for (auto *U : L->users()) {
      auto *X = dyn_cast<ExtractValueInst>(U);
      if (!X || X->getIndices()[0] != 1) continue;
      for (auto *V : make_early_inc_range(X->users())) {
        auto *Cmp = dyn_cast<ICmpInst>(V);
        if (!Cmp || !Cmp->isEquality()) continue;
        auto *T = dyn_cast<IntrinsicInst>(Cmp->getOperand(Cmp->getOperand(0) == X));
        if (!T || T->getIntrinsicID() != Intrinsic::eh_typeid_for) continue;
        const bool Eq = Sel >= 0 && T->getArgOperand(0)->stripPointerCasts() == L->getClause(Sel)->stripPointerCasts();
        Cmp->replaceAllUsesWith(ConstantInt::getBool(Cmp->getType(), Eq == (Cmp->getPredicate() == CmpInst::ICMP_EQ)));
        Any = true;
      }
    }
  }
  return Any;
}

// Accesses of objects of known size (stack, heap, globals), with an obligation where they are not provably inside.
// Those of the markers excepted, every access is considered once.
static unsigned Traps2 = 0, CheckedAccesses = 0, FoldedAccesses = 0, NewAccesses = 0, PendingAccesses = 0, LeftAccesses = 0;
// Accesses whose object is not known yet are recorded as calls to Within, which outlive the accesses themselves.
static unsigned checkAccesses(Function &F, const TargetLibraryInfo &TLI, FunctionCallee Oob, Value *Label, FunctionCallee Within) {
  unsigned Resolved = 0;
  auto &DL = F.getParent()->getDataLayout();
  auto &Ctx = F.getContext();
  const unsigned Kind = Ctx.getMDKindID("litl.checked");
  ObjectSizeOpts Opts;
  Opts.NullIsUnknownSize = true;
  ObjectSizeOffsetEvaluator Eval(DL, &TLI, Ctx, Opts);
  struct Access { Instruction *I; Value *P, *Size; };
  SmallVector<Access, 64> Todo;
  auto *I64 = Type::getInt64Ty(Ctx);
  for (auto &I : instructions(F)) {
    if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledOperand() == Within.getCallee()) { Todo.push_back({&I, C->getArgOperand(0), C->getArgOperand(1)}); continue; }
    if (I.getMetadata(Kind)) continue;
    auto Fixed = [&](Type *T) -> Value * { return ConstantInt::get(I64, DL.getTypeStoreSize(T)); };
    if (auto *L = dyn_cast<LoadInst>(&I)) Todo.push_back({&I, L->getPointerOperand(), Fixed(L->getType())});
    else if (auto *S = dyn_cast<StoreInst>(&I)) Todo.push_back({&I, S->getPointerOperand(), Fixed(S->getValueOperand()->getType())});
    else if (auto *M = dyn_cast<AnyMemIntrinsic>(&I)) {
      Todo.push_back({&I, M->getRawDest(), M->getLength()});
      if (auto *T = dyn_cast<AnyMemTransferInst>(&I)) Todo.push_back({&I, T->getRawSource(), M->getLength()});
    }
  }
  for (auto &A : Todo) {
    IRBuilder<TargetFolder> B(A.I->getParent(), BasicBlock::iterator(A.I), TargetFolder(DL));
    B.SetCurrentDebugLocation(A.I->getDebugLoc());
    SizeOffsetValue SO = Eval.compute(A.P);
    auto *Pending = dyn_cast<CallInst>(A.I);
    if (Pending && Pending->getCalledOperand() != Within.getCallee()) Pending = nullptr;
    if (!SO.bothKnown()) {
      if (Pending) continue;
      auto *Base = getUnderlyingObject(A.P, 0);
      if (isa<Argument>(Base)) { A.I->setMetadata(Kind, MDNode::get(Ctx, {})); continue; }
      A.I->setMetadata(Kind, MDNode::get(Ctx, {}));
      B.CreateCall(Within, {A.P, B.CreateZExtOrTrunc(A.Size, I64)});
      ++PendingAccesses;
      continue;
    }
    A.I->setMetadata(Kind, MDNode::get(Ctx, {}));
    ++CheckedAccesses;
    ++Resolved;
    Value *N = B.CreateZExtOrTrunc(A.Size, SO.Size->getType());
    // offset <= size && size - offset >= n; an empty copy is inside whatever its bounds
    Value *C = B.CreateOr(B.CreateICmpULT(SO.Size, SO.Offset), B.CreateICmpULT(B.CreateSub(SO.Size, SO.Offset), N));
    if (!isa<ConstantInt>(N)) C = B.CreateAnd(C, B.CreateICmpNE(N, ConstantInt::get(N->getType(), 0)));
    if (auto *K = dyn_cast<ConstantInt>(C)) if (K->isZero()) { ++FoldedAccesses; if (Pending) Pending->eraseFromParent(); continue; }
    ++NewAccesses;
    auto *BB = A.I->getParent();
    auto *Cont = BB->splitBasicBlock(A.I->getIterator());
    auto *Out = BasicBlock::Create(Ctx, "oob", &F, Cont);
    BB->getTerminator()->eraseFromParent();
    IRBuilder<> B2(BB);
    B2.SetCurrentDebugLocation(A.I->getDebugLoc());
    B2.CreateCondBr(C, Out, Cont);
    IRBuilder<> B3(Out);
    B3.SetCurrentDebugLocation(A.I->getDebugLoc());
    auto *Call = B3.CreateCall(Oob, {Label});
    Call->setDoesNotReturn();
    Call->addFnAttr(Attribute::NoMerge);
    B3.CreateUnreachable();
    if (Pending) Pending->eraseFromParent();
  }
  return Resolved;
}

// Memory which is not initialized has unknown contents, instead of those which suit the optimizer: objects start as copies of
// external constants.
static unsigned fillAllocas(Function &F, unsigned &Count) {
  auto &M = *F.getParent();
  auto &DL = M.getDataLayout();
  auto &Ctx = F.getContext();
  SmallVector<std::pair<Instruction *, AllocaInst *>, 32> Todo;
  SmallVector<std::pair<CallInst *, uint64_t>, 8> News;
  Instruction *Entry = nullptr;
  for (auto &I : F.getEntryBlock()) if (!isa<AllocaInst>(I)) { Entry = &I; break; }
  for (auto &I : instructions(F)) {
    if (auto *A = dyn_cast<AllocaInst>(&I)) {
      if (A->isArrayAllocation() || A->getParent() != &F.getEntryBlock()) continue;
      const auto N = DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
      if (N == 0 || N > 4096) continue;
      bool Any = false, Param = false;
      for (auto *U : A->users()) {
        if (auto *C = dyn_cast<IntrinsicInst>(U)) if (C->getIntrinsicID() == Intrinsic::lifetime_start) { Todo.push_back({C->getNextNode(), A}); Any = true; }
        if (auto *S = dyn_cast<StoreInst>(U)) if (isa<Argument>(S->getValueOperand()) && S->getPointerOperand() == A) Param = true;
      }
      if (!Any && !Param) Todo.push_back({Entry, A});
    } else if (auto *C = dyn_cast<CallInst>(&I)) {
      if (auto *G = C->getCalledFunction()) if (G->getName() == "_Znwm" || G->getName() == "_Znam")
        if (auto *K = dyn_cast<ConstantInt>(C->getArgOperand(0))) if (K->getZExtValue() && K->getZExtValue() <= 4096) News.push_back({C, K->getZExtValue()});
    }
  }
  auto Global = [&](Type *T) {
    auto *G = new GlobalVariable(M, T, true, GlobalValue::ExternalLinkage, nullptr, "litl_garbage." + std::to_string(Count++));
    G->setAlignment(Align(16));
    return G;
  };
  for (auto &[At, A] : Todo) {
    IRBuilder<> B(At);
    auto *T = A->getAllocatedType();
    auto *G = Global(T);
    if (T->isSingleValueType()) B.CreateStore(B.CreateLoad(T, G), A);
    else B.CreateMemCpy(A, A->getAlign(), G, Align(16), DL.getTypeAllocSize(T).getFixedValue());
  }
  for (auto &[C, N] : News) {
    IRBuilder<> B(C->getNextNode());
    B.CreateMemCpy(C, Align(16), Global(ArrayType::get(Type::getInt8Ty(Ctx), N)), Align(16), N);
  }
  return Todo.size() + News.size();
}

int main(int argc, char **argv) {
  InitLLVM X(argc, argv);
  cl::ParseCommandLineOptions(argc, argv);
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(In, Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  Regex Roots(RootRe), Keep(KeepRe.empty() ? "^$" : KeepRe.getValue()), Pure(PureRe.empty() ? "^$" : PureRe.getValue());
  for (auto &F : *M) {
    if (!PureRe.empty() && !F.isIntrinsic() && Pure.match(shortName(F.getName().str()))) {
      F.removeFnAttr(Attribute::AlwaysInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      F.addFnAttr(Attribute::NoInline);
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      F.addFnAttr(Attribute::NoUnwind);
      F.addFnAttr(Attribute::WillReturn);
      for (auto &A : F.args()) {
        A.removeAttr(Attribute::Writable);
        A.removeAttr(Attribute::DeadOnUnwind);
        if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoCapture);
      }
      for (auto *U : F.users())
        if (auto *CB = dyn_cast<CallBase>(U))
          for (unsigned K = 0; K < CB->arg_size(); ++K) {
            CB->removeParamAttr(K, Attribute::Writable);
            CB->removeParamAttr(K, Attribute::DeadOnUnwind);
          }
      if (!F.isDeclaration()) { F.setComdat(nullptr); F.deleteBody(); F.setLinkage(GlobalValue::ExternalLinkage); }
      continue;
    }
    if (F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string D = shortName(F.getName().str());
    if (Roots.match(F.getName())) { F.addFnAttr(Attribute::NoInline); continue; }
    if (!KeepRe.empty() && Keep.match(D)) {
      F.removeFnAttr(Attribute::AlwaysInline);
      F.addFnAttr(Attribute::NoInline);
      continue;
    }
    F.removeFnAttr(Attribute::NoInline);
    F.addFnAttr(Attribute::AlwaysInline);
    if (!F.hasLocalLinkage() && !F.hasAvailableExternallyLinkage()) F.setLinkage(GlobalValue::InternalLinkage);
    F.setComdat(nullptr);
  }
  for (auto &F : *M) {
    StringRef N = F.getName();
    if (N.starts_with("litl_")) {
      F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
      F.addFnAttr(Attribute::NoUnwind);
      // litl_assume may not return: an assumption placed after it must not fold its own operand.
      if (N != "litl_assume" && N != "litl_oob") F.addFnAttr(Attribute::WillReturn); else F.removeFnAttr(Attribute::WillReturn);
      F.addFnAttr(Attribute::NoMerge);
      for (auto &A : F.args()) if (A.getType()->isPointerTy()) A.addAttr(Attribute::NoCapture);
      for (auto *U : F.users()) if (auto *CB = dyn_cast<CallBase>(U)) CB->addFnAttr(Attribute::NoMerge);
    }
    // Allocation is assumed to succeed and to return fresh memory.
    if (N == "_Znwm" || N == "_Znam" || N == "_ZnwmSt11align_val_t") { F.addFnAttr(Attribute::NoUnwind); F.addRetAttr(Attribute::NoAlias); }
    // signgam is not modelled: the function is used for its value
    if (N == "lgamma" || N == "lgammaf") { F.setDoesNotAccessMemory(); F.setWillReturn(); F.addFnAttr(Attribute::NoUnwind); }
    // The bookkeeping of exceptions is not observable.
    if (F.isDeclaration() && (N == "__cxa_throw" || N == "__cxa_rethrow")) F.setMemoryEffects(MemoryEffects::inaccessibleOrArgMemOnly());
    if (N == "__cxa_begin_catch" || N == "__cxa_end_catch") F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    if (N == "__cxa_allocate_exception") { F.setMemoryEffects(MemoryEffects::inaccessibleMemOnly()); F.addRetAttr(Attribute::NoAlias); }
    if (N == "malloc" || N == "aligned_alloc") { F.addRetAttr(Attribute::NonNull); F.addRetAttr(Attribute::NoAlias); F.addFnAttr(Attribute::NoUnwind); }
    if (N == "_ZdlPv" || N == "_ZdaPv" || N == "_ZdlPvm") F.addFnAttr(Attribute::NoUnwind);
  }
  unsigned Filled = 0, Garbage = 0;
  if (Fill) for (auto &F : *M) if (!F.isDeclaration()) Filled += fillAllocas(F, Garbage);
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  // inttoptr(mask(ptrtoint(p) + c)) keeps its provenance: p + c with its low bits cleared.
  auto heapToStack = [&]() {
    bool Any = false;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      auto &LI = FAM.getResult<LoopAnalysis>(F);
      SmallVector<CallInst *, 16> News, Dels;
      for (auto &I : instructions(F))
        if (auto *CI = dyn_cast<CallInst>(&I))
          if (auto *C = CI->getCalledFunction()) {
            StringRef N = C->getName();
            if (N == "_Znwm" || N == "_Znam") {
              auto *Sz = dyn_cast<ConstantInt>(CI->getArgOperand(0));
              if (Sz && Sz->getZExtValue() <= 65536 && !LI.getLoopFor(CI->getParent())) News.push_back(CI);
            } else if (N == "_ZdlPv" || N == "_ZdaPv" || N == "_ZdlPvm") Dels.push_back(CI);
          }
      for (auto *D : Dels) D->eraseFromParent();
      for (auto *N : News) {
        auto *A = new AllocaInst(ArrayType::get(Type::getInt8Ty(Ctx), cast<ConstantInt>(N->getArgOperand(0))->getZExtValue()), 0, nullptr, Align(256), "heap", &*F.getEntryBlock().getFirstInsertionPt());
        N->replaceAllUsesWith(A);
        N->eraseFromParent();
        Any = true;
      }
      Any |= localizeGhosts(F);
      Any |= foldSelectors(F);
      foldMasks(F, M->getDataLayout());
      Any |= expandCopies(F, M->getDataLayout());
      // A call marked "tail" would be assumed not to access the new stack objects.
      for (auto &I : instructions(F)) if (auto *CI = dyn_cast<CallInst>(&I)) if (CI->isTailCall() && !CI->isMustTailCall()) CI->setTailCallKind(CallInst::TCK_None);
      FAM.invalidate(F, PreservedAnalyses::none());
    }
    MAM.invalidate(*M, PreservedAnalyses::none());
    return Any;
  };
  auto bounds = [&](const char *Before, bool Last = false) -> unsigned {
    if (!Bounds) return 0;
    ModulePassManager MPMB;
    if (*Before) {
      if (auto E = PB.parsePassPipeline(MPMB, Before)) { errs() << toString(std::move(E)) << "\n"; exit(2); }
      MPMB.run(*M, MAM);
    }
    auto Oob = M->getOrInsertFunction("litl_oob", Type::getVoidTy(Ctx), PointerType::getUnqual(Ctx));
    auto *OF = cast<Function>(Oob.getCallee());
    OF->setDoesNotReturn();
    OF->addFnAttr(Attribute::NoMerge);
    OF->addFnAttr(Attribute::NoUnwind);
    OF->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    for (auto &A : OF->args()) A.addAttr(Attribute::NoCapture);
    auto Text = [&](const std::string &T) -> Value * {
      const std::string Name = "litl_oob_" + T;
      auto *G = M->getNamedGlobal(Name);
      auto *C = ConstantDataArray::getString(Ctx, T);
      return G ? G : new GlobalVariable(*M, C->getType(), true, GlobalValue::PrivateLinkage, C, Name);
    };
    // Undefined operations which the front end guards
    for (auto &F : *M) {
      SmallVector<CallInst *, 16> Traps;
      for (auto &I : instructions(F))
        if (auto *T = dyn_cast<IntrinsicInst>(&I)) if (T->getIntrinsicID() == Intrinsic::ubsantrap) Traps.push_back(T);
      for (auto *T : Traps) {
        static const char *Kinds[] = {"add", "builtin", "cfi", "division", "type", "cast", "type", "conversion", "bool", "return", "multiplication", "negation", "null", "nullability", "nullability", "null", "nullability", "objc", "pointer", "shift", "bounds", "subtraction", "type", "alignment", "vla"};
        const auto K = cast<ConstantInt>(T->getArgOperand(0))->getZExtValue();
        auto *Call = CallInst::Create(Oob, {Text(K < 25 ? Kinds[K] : "undefined")}, "", T);
        Call->setDebugLoc(T->getDebugLoc());
        Call->setDoesNotReturn();
        Call->addFnAttr(Attribute::NoMerge);
        T->eraseFromParent();
        ++Traps2;
      }
    }
    auto *Label = Text("access");
    auto Within = M->getOrInsertFunction("litl_within", Type::getVoidTy(Ctx), PointerType::getUnqual(Ctx), Type::getInt64Ty(Ctx));
    auto *WF = cast<Function>(Within.getCallee());
    WF->addFnAttr(Attribute::NoUnwind);
    WF->addFnAttr(Attribute::WillReturn);
    WF->setMemoryEffects(MemoryEffects::inaccessibleMemOnly());
    for (auto &A : WF->args()) if (A.getType()->isPointerTy()) { A.addAttr(Attribute::NoCapture); A.addAttr(Attribute::ReadNone); }
    unsigned Resolved = 0;
    for (auto &F : *M) {
      if (F.isDeclaration() || !Roots.match(F.getName())) continue;
      Resolved += checkAccesses(F, FAM.getResult<TargetLibraryAnalysis>(F), Oob, Label, Within);
      if (Last) {
        SmallVector<CallInst *, 16> Left;
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledOperand() == WF) Left.push_back(C);
        for (auto *C : Left) { C->eraseFromParent(); ++LeftAccesses; }
      }
      FAM.invalidate(F, PreservedAnalyses::none());
    }
    MAM.invalidate(*M, PreservedAnalyses::none());
    return Resolved;
  };
  bounds("always-inline,function(mem2reg)");
  for (unsigned Round = 0; Bounds && Round < 6; ++Round)
    if (!bounds(Round ? "function(sroa,early-cse<memssa>,gvn,instcombine<no-verify-fixpoint>)" : "function(early-cse,sroa)") && Round) break;
  {
    ModulePassManager MPM0;
    if (auto E = PB.parsePassPipeline(MPM0, "function(sroa)")) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM0.run(*M, MAM);
    for (auto &F : *M) {
      SmallVector<IntToPtrInst *, 4> Casts;
      for (auto &I : instructions(F)) if (auto *C = dyn_cast<IntToPtrInst>(&I)) Casts.push_back(C);
      for (auto *C : Casts) {
        auto *And = dyn_cast<BinaryOperator>(C->getOperand(0));
        if (!And || And->getOpcode() != Instruction::And) continue;
        for (int K = 0; K < 2; ++K) {
          auto *Add = dyn_cast<BinaryOperator>(And->getOperand(K));
          if (!Add || Add->getOpcode() != Instruction::Add) continue;
          PtrToIntInst *P = dyn_cast<PtrToIntInst>(Add->getOperand(0));
          Value *Off = Add->getOperand(1);
          if (!P) { P = dyn_cast<PtrToIntInst>(Add->getOperand(1)); Off = Add->getOperand(0); }
          if (!P) continue;
          IRBuilder<> B(C);
          Value *G = B.CreateGEP(B.getInt8Ty(), P->getOperand(0), Off);
          Value *R = B.CreateIntrinsic(Intrinsic::ptrmask, {G->getType(), Off->getType()}, {G, And->getOperand(1 - K)});
          C->replaceAllUsesWith(R);
          C->eraseFromParent();
          break;
        }
      }
    }
    MAM.invalidate(*M, PreservedAnalyses::none());
  }
  if (!Passes.empty()) {
    ModulePassManager MPM;
    if (auto E = PB.parsePassPipeline(MPM, Passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM.run(*M, MAM);
    bounds("");
    if (H2S) {
      for (int Round = 0; Round < 4; ++Round) {
        const bool Any = heapToStack();
        if (!Any) break;
        if (getenv("IRX_H2S_DUMP")) { std::error_code EC; raw_fd_ostream OS(getenv("IRX_H2S_DUMP"), EC); M->print(OS, nullptr); }
        ModulePassManager MPM2;
        if (auto E = PB.parsePassPipeline(MPM2, Passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
        MPM2.run(*M, MAM);
        bounds("");
      }
    }
  }
  bounds("", !Walk);
  // Loops of constant geometry whose trip count has no closed form: unwind them from the outermost to the innermost
  // ones, while they fold.
  if (Walk) {
    const char *Light = "function(sroa<modify-cfg>,early-cse<memssa>,sccp,instcombine<no-verify-fixpoint>,jump-threading,correlated-propagation,simplifycfg,"
                        "gvn,sccp,instcombine<no-verify-fixpoint>,simplifycfg,dse,adce,loop-simplify,lcssa)";
    ModulePassManager MPM4;
    if (auto E = PB.parsePassPipeline(MPM4, "function(loop-simplify,lcssa)")) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM4.run(*M, MAM);
    for (int Round = 0; Round < WalkRounds; ++Round) {
      bool Any = false;
      for (auto &F : *M) {
        if (F.isDeclaration() || !Roots.match(F.getName()) || F.getInstructionCount() > WalkMax) continue;
        for (unsigned K = 0; K < Walk; ++K) {
          auto &LI = FAM.getResult<LoopAnalysis>(F);
          bool Peeled = false;
          SmallVector<Loop *, 16> Top(LI.begin(), LI.end());
          for (auto *L : Top) Peeled |= peelOnce(F, L);
          if (!Peeled) break;
          Any = true;
          FAM.invalidate(F, PreservedAnalyses::none());
          auto &LI2 = FAM.getResult<LoopAnalysis>(F);
          auto &DT2 = FAM.getResult<DominatorTreeAnalysis>(F);
          SmallVector<Loop *, 16> Top2(LI2.begin(), LI2.end());
          for (auto *L : Top2) {
            simplifyLoop(L, &DT2, &LI2, nullptr, nullptr, nullptr, false);
            formLCSSARecursively(*L, DT2, &LI2, nullptr);
          }
          FAM.invalidate(F, PreservedAnalyses::none());
        }
      }
      if (!Any) break;
      MAM.invalidate(*M, PreservedAnalyses::none());
      ModulePassManager MPM5;
      if (auto E = PB.parsePassPipeline(MPM5, Light)) { errs() << toString(std::move(E)) << "\n"; return 2; }
      MPM5.run(*M, MAM);
      bounds("");
      if (H2S) {
        heapToStack();
        ModulePassManager MPM6;
        if (auto E = PB.parsePassPipeline(MPM6, Light)) { errs() << toString(std::move(E)) << "\n"; return 2; }
        MPM6.run(*M, MAM);
      }
    }
    bounds("", true);
    ModulePassManager MPM7;
    if (auto E = PB.parsePassPipeline(MPM7, Passes)) { errs() << toString(std::move(E)) << "\n"; return 2; }
    MPM7.run(*M, MAM);
  }
  // Bounded loops whose bound only shows along each path: peel them, so that the paths separate.
  if (Peel) {
    auto &Opts = cl::getRegisteredOptions();
    auto It = Opts.find("unroll-force-peel-count");
    if (It == Opts.end()) { errs() << "no peel option\n"; return 2; }
    It->second->addOccurrence(0, "unroll-force-peel-count", std::to_string(Peel));
    for (int Round = 0; Round < PeelRounds; ++Round) {
      ModulePassManager MPM3;
      std::string S = "function(loop-simplify,lcssa,loop-unroll<O3;peeling;no-partial;no-runtime;no-upperbound>)," + Passes.getValue();
      if (auto E = PB.parsePassPipeline(MPM3, S)) { errs() << toString(std::move(E)) << "\n"; return 2; }
      MPM3.run(*M, MAM);
    }
  }
  if (verifyModule(*M, &errs())) return 2;
  std::error_code EC;
  if (!LL.empty()) { raw_fd_ostream OS(LL, EC); M->print(OS, nullptr); }
  raw_fd_ostream OS(Out, EC);
  if (EC) { errs() << EC.message() << "\n"; return 2; }
  json::OStream J(OS);
  Exporter X2(J, M->getDataLayout());
  J.objectBegin();
  J.attributeArray("functions", [&] {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      if (!All && !Roots.match(F.getName())) continue;
      X2.fn(F, FAM.getResult<DominatorTreeAnalysis>(F), FAM.getResult<LoopAnalysis>(F), FAM.getResult<ScalarEvolutionAnalysis>(F), FAM.getResult<MemorySSAAnalysis>(F).getMSSA());
    }
  });
  if (Bounds) {
    J.attribute("accesses", CheckedAccesses);
    J.attribute("folded", FoldedAccesses);
    J.attribute("inserted", NewAccesses);
    J.attribute("operations", Traps2);
    J.attribute("pending", PendingAccesses);
    J.attribute("left", LeftAccesses);
  }
  J.attributeArray("globals", [&] {
    for (auto &G : M->globals()) {
      json::Object O{{"name", G.getName().str()}, {"dem", demangle(G.getName().str())}, {"const", G.isConstant()}, {"decl", G.isDeclaration()}};
      if (G.hasInitializer()) {
        if (auto *C = dyn_cast<ConstantDataArray>(G.getInitializer())) { if (C->isCString()) O["str"] = C->getAsCString().str(); }
        std::string S; raw_string_ostream SS(S);
        G.getInitializer()->printAsOperand(SS, false);
        if (SS.str().size() < 2000) O["init"] = SS.str();
      }
      J.value(std::move(O));
    }
  });
  J.objectEnd();
  return 0;
}
