// astx: parse a translation unit and export, as JSON, the constructs of the analysed tree that the
// source-level rules judge. No rule lives here.
//   usage: astx --root=DIR FILE -- CLANG-ARGS
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
namespace json = llvm::json;

static std::string Root;

namespace {

// Values given to something whose type is a narrow integer, whatever the template arguments
struct Patterns : RecursiveASTVisitor<Patterns> {
  ASTContext &C;
  std::set<SourceLocation> Fixed;
  Patterns(ASTContext &C) : C(C) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }
  bool narrow(QualType T) {
    T = T.getNonReferenceType();
    return !T.isNull() && !T->isDependentType() && !T->isUndeducedType() && T->isIntegerType() && !T->isBooleanType() && C.getTypeSize(T) < 64;
  }
  void put(const Expr *E) { if (E) Fixed.insert(E->getBeginLoc()); }
  void returns(const Stmt *S) {
    if (!S || isa<LambdaExpr>(S)) return;
    if (auto *R = dyn_cast<ReturnStmt>(S)) put(R->getRetValue());
    for (auto *X : S->children()) returns(X);
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (D->doesThisDeclarationHaveABody() && narrow(D->getReturnType())) returns(D->getBody());
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    if (auto *D = L->getCallOperator()) if (narrow(D->getReturnType())) returns(D->getBody());
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (narrow(V->getType()) && V->getInit()) {
      put(V->getInit());
      if (auto *L = dyn_cast<InitListExpr>(V->getInit())) for (auto *E : L->inits()) put(E);
      if (auto *L = dyn_cast<ParenListExpr>(V->getInit())) for (auto *E : L->exprs()) put(E);
    }
    return true;
  }
  bool VisitFieldDecl(FieldDecl *D) {
    if (narrow(D->getType()) && D->hasInClassInitializer()) put(D->getInClassInitializer());
    return true;
  }
  bool VisitCXXConstructorDecl(CXXConstructorDecl *D) {
    for (auto *I : D->inits())
      if (I->isMemberInitializer() && I->getMember() && narrow(I->getMember()->getType())) {
        put(I->getInit());
        if (auto *L = dyn_cast<InitListExpr>(I->getInit())) for (auto *E : L->inits()) put(E);
        if (auto *L = dyn_cast<ParenListExpr>(I->getInit())) for (auto *E : L->exprs()) put(E);
      }
    return true;
  }
  bool VisitBinaryOperator(BinaryOperator *B) {
    if (B->isAssignmentOp() && !B->getLHS()->isTypeDependent() && narrow(B->getLHS()->getType())) {
      put(B->getRHS());
      if (B->isCompoundAssignmentOp()) put(B);
    }
    return true;
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  ASTContext &C;
  const SourceManager &SM;
  json::Object Out;
  json::Array Vars, Mutables, Casts, Calls, Defs, Streams, Narrowings, Counters;
  std::set<std::string> Seen, Functions, Classes;
  std::vector<const FunctionDecl *> Stack;

  Visitor(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  bool in(SourceLocation L, std::string &File, unsigned &Line) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    llvm::StringRef F(P.getFilename());
    if (!F.starts_with(Root)) return false;
    File = F.substr(Root.size()).ltrim('/').str();
    Line = P.getLine();
    return true;
  }

  std::string name(const FunctionDecl *F) { return F ? F->getQualifiedNameAsString() : ""; }

  // Function enclosing the visited node, lambdas excepted
  const FunctionDecl *named() {
    for (auto I = Stack.rbegin(); I != Stack.rend(); ++I) {
      auto *M = dyn_cast<CXXMethodDecl>(*I);
      if (!M || !M->getParent()->isLambda()) return *I;
    }
    return nullptr;
  }

  bool once(json::Object &O) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    OS << json::Value(json::Object(O));
    return Seen.insert(OS.str()).second;
  }

  bool TraverseFunctionLike(FunctionDecl *F, bool (*T)(Visitor &, FunctionDecl *)) {
    Stack.push_back(F);
    bool R = T(*this, F);
    Stack.pop_back();
    return R;
  }
#define FUN(K) \
  bool Traverse##K(K *F) { \
    Stack.push_back(F); \
    bool R = RecursiveASTVisitor::Traverse##K(F); \
    Stack.pop_back(); \
    return R; \
  }
  FUN(FunctionDecl)
  FUN(CXXMethodDecl)
  FUN(CXXConstructorDecl)
  FUN(CXXDestructorDecl)
  FUN(CXXConversionDecl)
  bool TraverseLambdaExpr(LambdaExpr *L) {
    Stack.push_back(L->getCallOperator());
    bool R = RecursiveASTVisitor::TraverseLambdaExpr(L);
    Stack.pop_back();
    return R;
  }

  // What an expression ultimately refers to
  struct Refs : RecursiveASTVisitor<Refs> {
    bool Param = false, Local = false, This = false, Global = false;
    std::set<const Decl *> Own;
    bool VisitVarDecl(VarDecl *V) { Own.insert(V); return true; }
    bool VisitDeclRefExpr(DeclRefExpr *E) {
      if (Own.count(E->getDecl())) return true;
      if (isa<ParmVarDecl>(E->getDecl())) Param = true;
      else if (auto *V = dyn_cast<VarDecl>(E->getDecl())) {
        if (V->hasLocalStorage()) Local = true;
        else if (!V->isConstexpr() && !V->getType().isConstQualified()) Global = true;
      }
      return true;
    }
    bool VisitCXXThisExpr(CXXThisExpr *) { This = true; return true; }
    bool TraverseLambdaExpr(LambdaExpr *L) {
      for (auto *P : L->getCallOperator()->parameters()) Own.insert(P);
      return RecursiveASTVisitor<Refs>::TraverseLambdaExpr(L);
    }
  };

  bool stateless(QualType T) {
    auto *R = T->getAsCXXRecordDecl();
    if (!R || !R->hasDefinition()) return false;
    if (!R->field_empty() || R->isPolymorphic()) return false;
    for (const auto &B : R->bases()) if (!stateless(B.getType())) return false;
    return true;
  }

  bool VisitVarDecl(VarDecl *V) {
    std::string F; unsigned L;
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V) || !in(V->getLocation(), F, L)) return true;
    QualType T = V->getType();
    bool Const = T.getNonReferenceType().isConstQualified() && !T->isPointerType();
    if (T->isPointerType()) Const = T.isConstQualified() && T->getPointeeType().isConstQualified();
    if (T->isArrayType()) Const = C.getBaseElementType(T).isConstQualified();
    if (T->isReferenceType()) Const = T->getPointeeType().isConstQualified();
    Refs R;
    if (V->hasInit()) R.TraverseStmt(V->getInit());
    bool Mut = false;
    if (auto *RD = T.getNonReferenceType()->getAsCXXRecordDecl()) Mut = RD->hasDefinition() && RD->hasMutableFields();
    json::Object O{{"file", F}, {"name", V->getQualifiedNameAsString()}, {"function", name(named())},
      {"const", Const || V->isConstexpr()}, {"local", V->isStaticLocal()}, {"tls", V->getTSCSpec() != TSCS_unspecified},
      {"stateless", stateless(T)}, {"mutable", Mut},
      {"varying", R.Param || R.Local || R.This || R.Global}, {"dependent", T->isDependentType()}};
    if (once(O)) { O["line"] = L; Vars.push_back(std::move(O)); }
    return true;
  }

  bool VisitFieldDecl(FieldDecl *D) {
    std::string F; unsigned L;
    if (!D->isMutable() || !in(D->getLocation(), F, L)) return true;
    json::Object O{{"file", F}, {"name", D->getQualifiedNameAsString()}};
    if (once(O)) { O["line"] = L; Mutables.push_back(std::move(O)); }
    return true;
  }

  // The object whose constness is cast away: "this", "parameter", "local", "global" or "call"
  std::string base(const Expr *E, QualType &T) {
    while (true) {
      E = E->IgnoreParenImpCasts();
      T = E->getType();
      if (auto *X = dyn_cast<MemberExpr>(E)) { E = X->getBase(); continue; }
      if (auto *X = dyn_cast<CXXDependentScopeMemberExpr>(E)) { if (X->isImplicitAccess()) return "this"; E = X->getBase(); continue; }
      if (auto *X = dyn_cast<UnresolvedMemberExpr>(E)) { if (X->isImplicitAccess()) return "this"; E = X->getBase(); continue; }
      if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { E = X->getBase(); continue; }
      if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) { E = X->getImplicitObjectArgument(); continue; }
      if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) { if (X->getNumArgs()) { E = X->getArg(0); continue; } return "call"; }
      if (auto *X = dyn_cast<CallExpr>(E)) {
        const Expr *Cal = X->getCallee()->IgnoreParenImpCasts();
        if (isa<MemberExpr>(Cal) || isa<CXXDependentScopeMemberExpr>(Cal) || isa<UnresolvedMemberExpr>(Cal)) { E = Cal; continue; }
        return "call";
      }
      if (auto *X = dyn_cast<UnaryOperator>(E)) { E = X->getSubExpr(); continue; }
      if (auto *X = dyn_cast<ExplicitCastExpr>(E)) { E = X->getSubExpr(); continue; }
      if (isa<CXXThisExpr>(E)) return "this";
      if (auto *X = dyn_cast<DeclRefExpr>(E)) {
        if (auto *P = dyn_cast<ParmVarDecl>(X->getDecl())) { T = P->getType(); return "parameter"; }
        if (auto *V = dyn_cast<VarDecl>(X->getDecl())) { T = V->getType(); return V->hasLocalStorage() ? "local" : "global"; }
        return "call";
      }
      return "other";
    }
  }

  bool VisitExplicitCastExpr(ExplicitCastExpr *E) {
    written(E);
    std::string F; unsigned L;
    if (!in(E->getBeginLoc(), F, L)) return true;
    bool Drops = false;
    QualType To = E->getTypeAsWritten();
    QualType From = E->getSubExpr()->getType();
    bool Dep = To->isDependentType() || From->isDependentType();
    if (isa<CXXConstCastExpr>(E) || isa<CStyleCastExpr>(E) || isa<CXXReinterpretCastExpr>(E) || isa<CXXFunctionalCastExpr>(E)) {
      auto Pointee = [](QualType T) { return T->isReferenceType() || T->isPointerType() ? T->getPointeeType() : T; };
      if (!Dep && (To->isReferenceType() || To->isPointerType())) {
        QualType P = To->isReferenceType() && !From->isReferenceType() ? From : Pointee(From);
        if (From->isPointerType() && To->isReferenceType()) P = From;
        Drops = P.isConstQualified() && !Pointee(To).isConstQualified();
      }
    }
    if (!Drops) return true;
    QualType T;
    std::string B = base(E->getSubExpr(), T);
    auto *M = dyn_cast_or_null<CXXMethodDecl>(named());
    bool ConstM = M && !M->isStatic() && M->isConst();
    bool ConstP = false;
    if (B == "parameter") {
      QualType P = T->isReferenceType() || T->isPointerType() ? T->getPointeeType() : QualType();
      ConstP = !P.isNull() && P.isConstQualified();
    }
    json::Object O{{"file", F}, {"function", name(named())}, {"base", B}, {"const_method", ConstM}, {"const_param", ConstP},
      {"ctor", M && isa<CXXConstructorDecl>(M)}};
    if (once(O)) { O["line"] = L; Casts.push_back(std::move(O)); }
    return true;
  }

  // Sizes, indices and offsets: 64-bit integers which become narrower
  static const Expr *bare(const Expr *E) {
    for (;;) {
      const Expr *S = E->IgnoreParenImpCasts();
      if (auto *X = dyn_cast<ExplicitCastExpr>(S)) S = X->getSubExpr();
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(S)) S = X->getSubExpr();
      if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = X->getReplacement();
      if (S == E) return E;
      E = S;
    }
  }
  bool generic(QualType T) { return T->getAs<SubstTemplateTypeParmType>() || T->isDependentType(); }
  bool constant(const Expr *E) {
    Expr::EvalResult R;
    return E->isValueDependent() || E->EvaluateAsInt(R, C);
  }
  // Numbers of axes or of arguments, as opposed to numbers of elements
  bool axes(const Expr *E) {
    E = bare(E);
    const Expr *O = nullptr;
    std::string N;
    if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
      if (!M->getMethodDecl()) return false;
      N = M->getMethodDecl()->getNameAsString();
      O = bare(M->getImplicitObjectArgument());
    } else if (auto *B = dyn_cast<BinaryOperator>(E)) {
      return (axes(B->getLHS()) || constant(B->getLHS())) && (axes(B->getRHS()) || constant(B->getRHS()));
    } else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      auto *V = dyn_cast<VarDecl>(D->getDecl());
      if (V && V->hasLocalStorage() && !isa<ParmVarDecl>(V) && V->getInit() && V->getType().isConstQualified()) return axes(V->getInit());
      return false;
    }
    if (N == "dimension") return true;
    if (N != "size" || !O) return false;
    auto *R = O->getType()->getAsCXXRecordDecl();
    if (O->getType()->isPointerType()) R = O->getType()->getPointeeType()->getAsCXXRecordDecl();
    if (!R) return false;
    std::string Q = R->getQualifiedNameAsString();
    if (Q == "Litl::Vector" || Q == "std::initializer_list") return true;
    if (Q == "std::array" || Q == "std::vector") return isa<DeclRefExpr>(O) || isa<CallExpr>(O);
    return false;
  }
  std::set<SourceLocation> Fixed;
  void narrowing(const Expr *E, const Expr *X, QualType From, QualType To) {
    if (To->isDependentType() || From->isDependentType() || !To->isIntegerType() || To->isBooleanType() || C.getTypeSize(To) >= 64) return;
    bool Floating = From->isFloatingType();
    if (!Floating && (!From->isIntegerType() || C.getTypeSize(From) < 64)) return;
    std::string F; unsigned L;
    if (!in(E->getBeginLoc(), F, L) || (!Floating && constant(X)) || axes(X)) return;
    json::Object O{{"file", F}, {"function", name(named())}, {"from", From.getAsString()}, {"to", To.getAsString()}};
    if (once(O)) { O["line"] = L; Narrowings.push_back(std::move(O)); }
  }
  bool VisitImplicitCastExpr(ImplicitCastExpr *E) {
    if (E->getCastKind() != CK_IntegralCast && E->getCastKind() != CK_FloatingToIntegral) return true;
    if (Fixed.count(E->getBeginLoc())) narrowing(E, E->getSubExpr(), E->getSubExpr()->getType(), E->getType());
    return true;
  }
  void written(const ExplicitCastExpr *E) {
    QualType To = E->getTypeAsWritten();
    const Expr *X = E->getSubExpr()->IgnoreParenImpCasts();
    if (!generic(To)) narrowing(E, X, X->getType(), To);
  }
  bool VisitCompoundAssignOperator(CompoundAssignOperator *B) {
    if (Fixed.count(B->getBeginLoc())) narrowing(B, B->getRHS(), B->getComputationResultType(), B->getLHS()->getType());
    return true;
  }
  // Standard accumulations whose result is narrower than what they accumulate
  void accumulation(CallExpr *E) {
    auto *D = E->getDirectCallee();
    if (!D || !E->getNumArgs() || !D->getIdentifier() || !D->isInStdNamespace()) return;
    auto N = D->getName();
    if (N != "accumulate" && N != "inner_product" && N != "reduce" && N != "transform_reduce") return;
    QualType To = D->getReturnType(), From = E->getArg(0)->getType();
    if (From->isPointerType()) From = From->getPointeeType();
    else if (auto *R = dyn_cast_or_null<ClassTemplateSpecializationDecl>(From->getAsCXXRecordDecl())) {
      if (!R->getTemplateArgs().size() || R->getTemplateArgs()[0].getKind() != TemplateArgument::Type) return;
      From = R->getTemplateArgs()[0].getAsType();
      if (From->isPointerType()) From = From->getPointeeType();
    }
    if (!To->isIntegerType() || !From->isIntegerType() || C.getTypeSize(To) >= 64 || C.getTypeSize(From) < 64) return;
    std::string F; unsigned L;
    if (!in(E->getBeginLoc(), F, L)) return;
    json::Object O{{"file", F}, {"function", name(named())}, {"from", From.getAsString()}, {"to", To.getAsString()}};
    if (once(O)) { O["line"] = L; Narrowings.push_back(std::move(O)); }
  }
  bool VisitForStmt(ForStmt *S) { counter(S->getCond(), S->getInc()); return true; }
  bool VisitWhileStmt(WhileStmt *S) { counter(S->getCond(), nullptr); return true; }
  void counter(const Expr *Cond, const Expr *Inc) {
    auto *B = Cond ? dyn_cast<BinaryOperator>(Cond->IgnoreParens()) : nullptr;
    if (!B || !B->isComparisonOp()) return;
    for (auto P : {std::make_pair(B->getLHS(), B->getRHS()), std::make_pair(B->getRHS(), B->getLHS())}) {
      auto *I = dyn_cast<ImplicitCastExpr>(P.first->IgnoreParens());
      auto *D = dyn_cast<DeclRefExpr>(P.first->IgnoreParenImpCasts());
      auto *V = D ? dyn_cast<VarDecl>(D->getDecl()) : nullptr;
      if (!I || !V || !V->hasLocalStorage() || V->getType()->isDependentType() || !V->getType()->isIntegerType()) continue;
      QualType T = P.second->getType();
      if (T->isDependentType() || !T->isIntegerType() || C.getTypeSize(V->getType()) >= 64 || C.getTypeSize(T) < 64) continue;
      const Expr *Bound = P.second->IgnoreParenImpCasts();
      if (Bound->getType()->isDependentType() || !Bound->getType()->isIntegerType() || C.getTypeSize(Bound->getType()) < 64) continue;
      std::string F; unsigned L;
      if (!in(B->getBeginLoc(), F, L) || constant(P.second) || axes(P.second)) continue;
      json::Object O{{"file", F}, {"function", name(named())}, {"counter", V->getNameAsString()}, {"type", V->getType().getAsString()}};
      if (once(O)) { O["line"] = L; Counters.push_back(std::move(O)); }
    }
  }

  void call(const NamedDecl *D, SourceLocation Loc) {
    std::string F; unsigned L;
    if (!D || !in(Loc, F, L)) return;
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(D->getLocation()));
    if (P.isValid() && llvm::StringRef(P.getFilename()).starts_with(Root)) return; // Not a leaf
    json::Object O{{"file", F}, {"function", name(named())}, {"callee", D->getQualifiedNameAsString()}};
    if (once(O)) { O["line"] = L; Calls.push_back(std::move(O)); }
  }
  // Parameters of the library which are narrower than the sizes they are given by its users
  template <typename TCall> void parameters(TCall *E, const FunctionDecl *D, unsigned Shift) {
    std::string F; unsigned L;
    if (!D || !in(D->getLocation(), F, L)) return;
    for (unsigned I = 0; I < D->getNumParams() && I + Shift < E->getNumArgs(); ++I) {
      const Expr *A = E->getArg(I + Shift);
      if (auto *X = dyn_cast<MaterializeTemporaryExpr>(A)) A = X->getSubExpr();
      auto *X = dyn_cast<ImplicitCastExpr>(A);
      if (!X || X->getCastKind() != CK_IntegralCast) continue;
      QualType To = X->getType(), From = X->getSubExpr()->getType();
      if (To->isDependentType() || From->isDependentType() || !To->isIntegerType() || !From->isIntegerType() || To->isBooleanType()) continue;
      if (C.getTypeSize(From) < 64 || C.getTypeSize(To) >= 64) continue;
      if (generic(D->getParamDecl(I)->getType().getNonReferenceType()) || constant(X->getSubExpr()) || axes(X->getSubExpr())) continue;
      json::Object O{{"file", F}, {"function", name(D)}, {"from", From.getAsString()}, {"to", To.getAsString()}};
      if (once(O)) { O["line"] = L; Narrowings.push_back(std::move(O)); }
    }
  }
  bool VisitCallExpr(CallExpr *E) {
    accumulation(E);
    parameters(E, E->getDirectCallee(), isa<CXXOperatorCallExpr>(E) && isa_and_nonnull<CXXMethodDecl>(E->getDirectCallee()) ? 1 : 0);
    if (auto *D = E->getDirectCallee()) call(D, E->getBeginLoc());
    return true;
  }
  bool VisitCXXConstructExpr(CXXConstructExpr *E) { parameters(E, E->getConstructor(), 0); call(E->getConstructor(), E->getBeginLoc()); return true; }
  bool VisitDeclRefExpr(DeclRefExpr *E) {
    auto *V = dyn_cast<VarDecl>(E->getDecl());
    std::string F; unsigned L;
    if (!V || V->hasLocalStorage() || !in(E->getBeginLoc(), F, L)) return true;
    auto P = SM.getPresumedLoc(SM.getExpansionLoc(V->getLocation()));
    if (P.isValid() && llvm::StringRef(P.getFilename()).starts_with(Root)) return true;
    if (V->isConstexpr() || V->getType().isConstQualified()) return true;
    json::Object O{{"file", F}, {"function", name(named())}, {"variable", V->getQualifiedNameAsString()}};
    if (once(O)) { O["line"] = L; Streams.push_back(std::move(O)); }
    return true;
  }

  bool VisitFunctionDecl(FunctionDecl *D) {
    std::string F; unsigned L;
    if (!in(D->getLocation(), F, L)) return true;
    if (D->isThisDeclarationADefinition()) {
      Functions.insert(D->getQualifiedNameAsString());
      bool Tmpl = D->isTemplated() || D->getTemplateSpecializationKind() == TSK_ImplicitInstantiation || D->getTemplateSpecializationKind() == TSK_ExplicitInstantiationDefinition;
      if (!Tmpl && !D->isInlined() && !D->isDefaulted() && !D->isDeleted() && D->getFormalLinkage() == Linkage::External) {
        json::Object O{{"file", F}, {"function", name(D)}};
        if (once(O)) { O["line"] = L; Defs.push_back(std::move(O)); }
      }
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *D) {
    std::string F; unsigned L;
    if (D->isThisDeclarationADefinition() && in(D->getLocation(), F, L)) Classes.insert(D->getQualifiedNameAsString());
    return true;
  }

  void print() {
    json::Array Fs, Cs;
    for (auto &S : Functions) Fs.push_back(S);
    for (auto &S : Classes) Cs.push_back(S);
    json::Object O{{"variables", std::move(Vars)}, {"mutables", std::move(Mutables)}, {"casts", std::move(Casts)},
      {"narrowings", std::move(Narrowings)}, {"counters", std::move(Counters)},
      {"calls", std::move(Calls)}, {"definitions", std::move(Defs)}, {"externals", std::move(Streams)},
      {"functions", std::move(Fs)}, {"classes", std::move(Cs)}};
    llvm::outs() << json::Value(std::move(O)) << "\n";
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Patterns P(C);
    P.TraverseDecl(C.getTranslationUnitDecl());
    Visitor V(C);
    V.Fixed = std::move(P.Fixed);
    V.TraverseDecl(C.getTranslationUnitDecl());
    V.print();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

} // namespace

int main(int argc, const char **argv) {
  std::string File;
  std::vector<std::string> Args;
  bool Rest = false;
  for (int i = 1; i < argc; ++i) {
    llvm::StringRef A(argv[i]);
    if (Rest) Args.push_back(A.str());
    else if (A == "--") Rest = true;
    else if (A.consume_front("--root=")) Root = A.str();
    else File = A.str();
  }
  tooling::FixedCompilationDatabase DB(".", Args);
  tooling::ClangTool Tool(DB, {File});
  auto F = tooling::newFrontendActionFactory<Action>();
  return Tool.run(F.get());
}
