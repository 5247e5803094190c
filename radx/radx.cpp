// radx: dumps the resolved syntax trees of one translation unit's repository
// functions, records and globals as JSON lines (clang AST, after name lookup,
// overload resolution, template instantiation and macro expansion).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using namespace clang::tooling;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static llvm::raw_ostream *Out = &llvm::outs();

namespace {
struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  explicit Dumper(ASTContext &Ctx)
      : C(Ctx), SM(Ctx.getSourceManager()), PP(Ctx.getLangOpts()) {
    PP.AnonymousTagLocations = false;
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = true;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return SM.getFilename(L).str();
  }
  unsigned line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    llvm::SmallString<256> P(file(L));
    if (P.empty()) return false;
    return P.str().starts_with(Root);
  }
  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        OS << rec(M->getParent()) << "::";
        M->getNameForDiagnostic(OS, PP, false);
        OS.flush();
        return S;
      }
      F->printQualifiedName(OS, PP);
      OS.flush();
      return S;
    }
    if (auto *FD = dyn_cast<FieldDecl>(D)) {
      if (auto *R = dyn_cast<CXXRecordDecl>(FD->getParent()))
        return rec(R) + "::" + FD->getNameAsString();
    }
    D->printQualifiedName(OS, PP);
    OS.flush();
    return S;
  }
  std::string rec(const CXXRecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PP);
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return B.str().str();
  }
  std::map<const VarDecl *, int> Ids;
  int id(const VarDecl *V) {
    V = V->getCanonicalDecl();
    auto It = Ids.find(V);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1;
    Ids[V] = N;
    return N;
  }
  Value var(const VarDecl *V) {
    const char *K = isa<ParmVarDecl>(V) ? "p" : V->isLocalVarDecl() ? (V->isStaticLocal() ? "sl" : "l") : "g";
    if (*K == 'g' || *K == 's') {
      if (V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) {
        const VarDecl *Def = nullptr;
        if (const Expr *I = V->getAnyInitializer(Def))
          if (!I->isValueDependent()) {
            Expr::EvalResult R;
            if (I->EvaluateAsInt(R, C))
              return Array{"int", (int64_t)R.Val.getInt().extOrTrunc(64).getSExtValue(), V->getNameAsString()};
          }
      }
      return Array{"var", qual(V), 0, "g", ty(V->getType())};
    }
    return Array{"var", V->getNameAsString(), id(V), K, ty(V->getType())};
  }
  Value E(const Expr *X);
  Value args(llvm::ArrayRef<const Expr *> A) {
    Array R;
    for (auto *X : A) R.push_back(E(X));
    return R;
  }
  Value S(const Stmt *X);
  Value params(const FunctionDecl *F) {
    Array R;
    for (auto *P : F->parameters())
      R.push_back(Array{P->getNameAsString(), id(P), ty(P->getType())});
    return R;
  }
  Object lit(std::string S) { return Object{{"s", S}}; }
};

Value Dumper::E(const Expr *X) {
  if (!X) return nullptr;
  if (auto *P = dyn_cast<ParenExpr>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<ExprWithCleanups>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<ConstantExpr>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(P->getReplacement());
  if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) return E(P->getExpr());
  if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) return E(P->getExpr());
  if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) return E(P->getSubExpr());
  if (auto *P = dyn_cast<ImplicitValueInitExpr>(X)) return Array{"zero", ty(P->getType())};
  if (auto *P = dyn_cast<CXXScalarValueInitExpr>(X)) return Array{"zero", ty(P->getType())};
  if (auto *L = dyn_cast<IntegerLiteral>(X)) {
    Array R{"int", (int64_t)L->getValue().getLimitedValue()};
    if (SM.isWrittenInScratchSpace(SM.getSpellingLoc(L->getLocation())) && L->getValue() == SM.getExpansionLineNumber(L->getLocation()))
      return Array{"str", "__LINE__"};
    if (L->getLocation().isMacroID()) {
      std::string N = Lexer::getImmediateMacroName(L->getLocation(), SM, C.getLangOpts()).str();
      if (SM.isMacroBodyExpansion(L->getLocation())) R.push_back(N);
    }
    return R;
  }
  if (auto *L = dyn_cast<CharacterLiteral>(X)) return Array{"int", (int64_t)L->getValue()};
  if (auto *L = dyn_cast<CXXBoolLiteralExpr>(X)) return Array{"bool", L->getValue()};
  if (auto *L = dyn_cast<FloatingLiteral>(X)) return Array{"float", L->getValueAsApproximateDouble()};
  if (auto *L = dyn_cast<StringLiteral>(X)) {
    std::string T = L->getCharByteWidth() == 1 ? L->getString().str() : std::string("?");
    if (SM.isWrittenInScratchSpace(SM.getSpellingLoc(L->getBeginLoc())) && T == SM.getFilename(SM.getExpansionLoc(L->getBeginLoc()))) T = "__FILE__";
    if (!llvm::json::isUTF8(T)) T = llvm::json::fixUTF8(T);
    return Array{"str", T};
  }
  if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return Array{"null"};
  if (auto *P = dyn_cast<PredefinedExpr>(X)) return Array{"str", "__func__"};
  if (isa<CXXThisExpr>(X)) return Array{"this"};
  if (auto *D = dyn_cast<DeclRefExpr>(X)) {
    const ValueDecl *V = D->getDecl();
    if (auto *EC = dyn_cast<EnumConstantDecl>(V))
      return Array{"enum", qual(EC), (int64_t)EC->getInitVal().extOrTrunc(64).getSExtValue()};
    if (auto *VD = dyn_cast<VarDecl>(V)) return var(VD);
    if (auto *F = dyn_cast<FunctionDecl>(V)) return Array{"fn", qual(F), usr(F)};
    if (auto *B = dyn_cast<BindingDecl>(V)) {
      if (auto *HV = B->getHoldingVar()) if (HV->getInit()) return E(HV->getInit());
      if (B->getBinding()) return E(B->getBinding());
      return Array{"var", B->getNameAsString(), 0, "b", ty(B->getType())};
    }
    if (auto *FD = dyn_cast<FieldDecl>(V)) return Array{"fieldref", qual(FD)};
    return Array{"unk", "declref"};
  }
  if (auto *M = dyn_cast<MemberExpr>(X)) {
    const ValueDecl *V = M->getMemberDecl();
    if (auto *VD = dyn_cast<VarDecl>(V)) return var(VD);
    if (auto *EC = dyn_cast<EnumConstantDecl>(V))
      return Array{"enum", qual(EC), (int64_t)EC->getInitVal().extOrTrunc(64).getSExtValue()};
    return Array{"mem", E(M->getBase()), V->getNameAsString(), qual(V), ty(V->getType()), M->isArrow()};
  }
  if (auto *I = dyn_cast<ImplicitCastExpr>(X)) {
    switch (I->getCastKind()) {
    case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_IntegralToBoolean:
    case CK_PointerToBoolean: case CK_FloatingToBoolean:
      return Array{"cast", I->getCastKindName(), ty(I->getType()), E(I->getSubExpr())};
    case CK_IntegralCast: {
      QualType A = I->getSubExpr()->getType(), B = I->getType();
      if (A->isBooleanType()) return E(I->getSubExpr());
      if (C.getTypeSize(B) < C.getTypeSize(A) && !isa<IntegerLiteral>(I->getSubExpr()->IgnoreParenImpCasts()))
        return Array{"cast", "Narrow", ty(B), E(I->getSubExpr())};
      return E(I->getSubExpr());
    }
    case CK_NullToPointer: return Array{"null"};
    default: return E(I->getSubExpr());
    }
  }
  if (auto *I = dyn_cast<ExplicitCastExpr>(X)) {
    CastKind K = I->getCastKind();
    Value Sub = E(I->getSubExpr());
    switch (K) {
    case CK_ConstructorConversion: case CK_UserDefinedConversion: return Sub;
    case CK_Dynamic: return Array{"cast", "Dynamic", ty(I->getType()), std::move(Sub)};
    case CK_NoOp: case CK_LValueToRValue: case CK_BaseToDerived: case CK_DerivedToBase:
    case CK_UncheckedDerivedToBase: case CK_ToVoid: case CK_ArrayToPointerDecay:
      return Sub;
    case CK_NullToPointer: return Array{"null"};
    default:
      return Array{"cast", I->getCastKindName(), ty(I->getType()), std::move(Sub)};
    }
  }
  if (auto *U = dyn_cast<UnaryOperator>(X)) {
    std::string Op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
    if (U->isPostfix()) Op = "p" + Op;
    return Array{"un", Op, E(U->getSubExpr()), line(U->getOperatorLoc())};
  }
  if (auto *A = dyn_cast<CompoundAssignOperator>(X)) {
    std::string Op = A->getOpcodeStr().str();
    return Array{"asg", Op, E(A->getLHS()), E(A->getRHS()), line(A->getOperatorLoc()), ty(A->getLHS()->getType()), ty(A->getComputationResultType())};
  }
  if (auto *B = dyn_cast<BinaryOperator>(X)) {
    std::string Op = B->getOpcodeStr().str();
    if (Op == "=") return Array{"asg", Op, E(B->getLHS()), E(B->getRHS()), line(B->getOperatorLoc()), ty(B->getLHS()->getType())};
    return Array{"bin", Op, E(B->getLHS()), E(B->getRHS()), line(B->getOperatorLoc()), ty(B->getType()), ty(B->getLHS()->getType())};
  }
  if (auto *T = dyn_cast<ConditionalOperator>(X))
    return Array{"cond", E(T->getCond()), E(T->getTrueExpr()), E(T->getFalseExpr())};
  if (auto *A = dyn_cast<ArraySubscriptExpr>(X))
    return Array{"idx", E(A->getBase()), E(A->getIdx()), line(A->getExprLoc())};
  if (auto *O = dyn_cast<CXXOperatorCallExpr>(X)) {
    const FunctionDecl *F = O->getDirectCallee();
    std::string N = F ? qual(F) : "?";
    bool Cst = false, Mem = false;
    if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) { Cst = M->isConst(); Mem = true; }
    std::string Ot = O->getNumArgs() ? ty(O->getArg(0)->getType()) : "";
    return Array{"op", getOperatorSpelling(O->getOperator()), N, args(llvm::ArrayRef<const Expr *>(O->getArgs(), O->getNumArgs())), line(O->getExprLoc()), Cst, F ? usr(F) : "", Mem, Ot, ty(O->getType())};
  }
  if (auto *M = dyn_cast<CXXMemberCallExpr>(X)) {
    const CXXMethodDecl *D = M->getMethodDecl();
    const Expr *Obj = M->getImplicitObjectArgument();
    std::string Fl;
    bool BaseCall = false;
    if (D) {
      if (D->isConst()) Fl += "c";
      bool Qualified = false;
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) Qualified = ME->hasQualifier();
      if (D->isVirtual() && !Qualified) Fl += "v";
      if (isa<CXXConversionDecl>(D)) Fl += "k";
    }
    (void)BaseCall;
    std::string Ot = Obj ? ty(Obj->getType()) : "";
    return Array{"mcall", Obj ? E(Obj) : Value(nullptr), D ? qual(D) : "?", D ? D->getNameAsString() : "?", args(llvm::ArrayRef<const Expr *>(M->getArgs(), M->getNumArgs())), line(M->getExprLoc()), Fl, D ? usr(D) : "", Ot, ty(M->getType()), D ? Value(Obj ? Value(nullptr) : Value(nullptr)) : E(M->getCallee())};
  }
  if (auto *K = dyn_cast<CallExpr>(X)) {
    const FunctionDecl *F = K->getDirectCallee();
    if (!F) return Array{"icall", E(K->getCallee()), args(llvm::ArrayRef<const Expr *>(K->getArgs(), K->getNumArgs())), line(K->getExprLoc())};
    std::string Q = qual(F);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string I;
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Integral) I += (I.empty() ? "" : ",") + llvm::toString(A.getAsIntegral(), 10);
      if (!I.empty() && F->getNameAsString() == "get") Q += "<" + I + ">";
    }
    return Array{"call", Q, args(llvm::ArrayRef<const Expr *>(K->getArgs(), K->getNumArgs())), line(K->getExprLoc()), usr(F), ty(K->getType())};
  }
  if (auto *K = dyn_cast<CXXConstructExpr>(X)) {
    auto *CD = K->getConstructor();
    if (CD->isCopyOrMoveConstructor() && K->getNumArgs() >= 1) return E(K->getArg(0));
    return Array{"ctor", ty(K->getType()), args(llvm::ArrayRef<const Expr *>(K->getArgs(), K->getNumArgs())), line(K->getExprLoc()), usr(CD)};
  }
  if (auto *N = dyn_cast<CXXNewExpr>(X)) {
    Value Sz = nullptr;
    if (N->isArray()) { auto A = N->getArraySize(); if (A && *A) Sz = E(*A); }
    Array Ar;
    if (auto *CE = N->getConstructExpr()) { for (auto *A : CE->arguments()) Ar.push_back(E(A)); }
    else if (N->getInitializer()) Ar.push_back(E(N->getInitializer()));
    return Array{"new", ty(N->getAllocatedType()), std::move(Ar), std::move(Sz), line(N->getExprLoc())};
  }
  if (auto *D = dyn_cast<CXXDeleteExpr>(X))
    return Array{"delete", E(D->getArgument()), D->isArrayForm(), line(D->getExprLoc())};
  if (auto *T = dyn_cast<CXXThrowExpr>(X)) return Array{"throw", E(T->getSubExpr())};
  if (auto *L = dyn_cast<InitListExpr>(X)) {
    if (L->isSemanticForm() == false && L->getSemanticForm()) L = L->getSemanticForm();
    Array R;
    for (auto *I : L->inits()) R.push_back(E(I));
    return Array{"list", ty(L->getType()), std::move(R)};
  }
  if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
    Expr::EvalResult R;
    if (!U->isValueDependent() && U->EvaluateAsInt(R, C)) return Array{"int", (int64_t)R.Val.getInt().extOrTrunc(64).getSExtValue(), "sizeof"};
    return Array{"unk", "sizeof"};
  }
  if (auto *L = dyn_cast<LambdaExpr>(X)) {
    Array Caps;
    for (auto &Cp : L->captures())
      if (Cp.capturesVariable())
        if (auto *V = dyn_cast<VarDecl>(Cp.getCapturedVar())) Caps.push_back(Array{V->getNameAsString(), id(V), Cp.getCaptureKind() == LCK_ByRef});
    return Array{"lambda", params(L->getCallOperator()), S(L->getBody()), std::move(Caps)};
  }
  if (auto *F = dyn_cast<CXXFunctionalCastExpr>(X)) return E(F->getSubExpr());
  if (auto *P = dyn_cast<OpaqueValueExpr>(X)) return E(P->getSourceExpr());
  if (auto *P = dyn_cast<ArrayInitLoopExpr>(X)) return E(P->getCommonExpr());
  if (auto *P = dyn_cast<UserDefinedLiteral>(X)) return Array{"unk", "udl"};
  return Array{"unk", X->getStmtClassName()};
}

Value Dumper::S(const Stmt *X) {
  if (!X) return nullptr;
  unsigned L = line(X->getBeginLoc());
  if (auto *K = dyn_cast<CompoundStmt>(X)) {
    Array R;
    for (auto *Y : K->body()) R.push_back(S(Y));
    return Object{{"s", "{"}, {"b", std::move(R)}, {"l", L}};
  }
  if (auto *D = dyn_cast<DeclStmt>(X)) {
    Array R;
    for (auto *Y : D->decls()) {
      if (auto *V = dyn_cast<VarDecl>(Y)) {
        Value Init = V->getInit() ? E(V->getInit()) : Value(nullptr);
        R.push_back(Object{{"n", V->getNameAsString()}, {"id", id(V)}, {"t", ty(V->getType())}, {"i", std::move(Init)}, {"st", V->isStaticLocal()},
                           {"ref", V->getType()->isReferenceType()}});
        if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
          Array Bs;
          for (auto *B : DD->bindings()) Bs.push_back(Array{B->getNameAsString(), B->getBinding() ? E(B->getBinding()) : Value(nullptr)});
          (*R.back().getAsObject())["bind"] = std::move(Bs);
        }
      }
    }
    return Object{{"s", "decl"}, {"d", std::move(R)}, {"l", L}};
  }
  if (auto *I = dyn_cast<IfStmt>(X)) {
    Array Pre;
    if (I->getInit()) Pre.push_back(S(I->getInit()));
    if (I->getConditionVariableDeclStmt()) Pre.push_back(S(I->getConditionVariableDeclStmt()));
    Value R = Object{{"s", "if"}, {"c", E(I->getCond())}, {"t", S(I->getThen())}, {"e", S(I->getElse())}, {"l", L}};
    if (!Pre.empty()) { Pre.push_back(std::move(R)); return Object{{"s", "{"}, {"b", std::move(Pre)}, {"l", L}}; }
    return R;
  }
  if (auto *W = dyn_cast<WhileStmt>(X)) return Object{{"s", "while"}, {"c", E(W->getCond())}, {"b", S(W->getBody())}, {"l", L}};
  if (auto *W = dyn_cast<DoStmt>(X)) return Object{{"s", "do"}, {"c", E(W->getCond())}, {"b", S(W->getBody())}, {"l", L}};
  if (auto *F = dyn_cast<ForStmt>(X))
    return Object{{"s", "for"}, {"i", S(F->getInit())}, {"c", E(F->getCond())}, {"n", E(F->getInc())}, {"b", S(F->getBody())}, {"l", L}};
  if (auto *F = dyn_cast<CXXForRangeStmt>(X)) {
    const VarDecl *V = F->getLoopVariable();
    Object Ob{{"s", "range"}, {"n", V->getNameAsString()}, {"id", id(V)}, {"t", ty(V->getType())}, {"r", E(F->getRangeInit())}, {"b", S(F->getBody())}, {"l", L}};
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      Array Bs;
      for (auto *B : DD->bindings()) Bs.push_back(Array{B->getNameAsString(), B->getBinding() ? E(B->getBinding()) : Value(nullptr)});
      Ob["bind"] = std::move(Bs);
    }
    return Ob;
  }
  if (auto *W = dyn_cast<SwitchStmt>(X)) return Object{{"s", "switch"}, {"c", E(W->getCond())}, {"b", S(W->getBody())}, {"l", L}};
  if (auto *W = dyn_cast<CaseStmt>(X)) return Object{{"s", "case"}, {"v", E(W->getLHS())}, {"b", S(W->getSubStmt())}, {"l", L}};
  if (auto *W = dyn_cast<DefaultStmt>(X)) return Object{{"s", "default"}, {"b", S(W->getSubStmt())}, {"l", L}};
  if (isa<BreakStmt>(X)) return Object{{"s", "break"}, {"l", L}};
  if (isa<ContinueStmt>(X)) return Object{{"s", "continue"}, {"l", L}};
  if (auto *R = dyn_cast<ReturnStmt>(X)) return Object{{"s", "ret"}, {"v", E(R->getRetValue())}, {"l", L}};
  if (isa<NullStmt>(X)) return Object{{"s", "nop"}, {"l", L}};
  if (auto *T = dyn_cast<CXXTryStmt>(X)) {
    Array H;
    for (unsigned i = 0; i < T->getNumHandlers(); i++) H.push_back(S(T->getHandler(i)->getHandlerBlock()));
    return Object{{"s", "try"}, {"b", S(T->getTryBlock())}, {"h", std::move(H)}, {"l", L}};
  }
  if (auto *A = dyn_cast<AttributedStmt>(X)) return S(A->getSubStmt());
  if (auto *A = dyn_cast<LabelStmt>(X)) return S(A->getSubStmt());
  if (auto *Ex = dyn_cast<Expr>(X)) return Object{{"s", "x"}, {"e", E(Ex)}, {"l", L}};
  return Object{{"s", "unk"}, {"k", X->getStmtClassName()}, {"l", L}};
}

struct Vis : RecursiveASTVisitor<Vis> {
  Dumper D;
  std::set<std::string> Done;
  explicit Vis(ASTContext &C) : D(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  void emit(Object O) { *Out << Value(std::move(O)) << "\n"; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (F->isDefaulted() || !F->hasBody()) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!D.inRoot(F->getLocation())) return true;
    std::string U = D.usr(F);
    if (!Done.insert(U).second) return true;
    Object O{{"k", "fn"}, {"name", D.qual(F)}, {"usr", U}, {"file", D.file(F->getLocation())}, {"line", D.line(F->getLocation())},
             {"ret", D.ty(F->getReturnType())}, {"params", D.params(F)}};
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = D.rec(M->getParent());
      O["virtual"] = M->isVirtual();
      O["const"] = M->isConst();
      O["static"] = M->isStatic();
      Array Ov;
      for (auto *P : M->overridden_methods()) Ov.push_back(D.usr(P));
      if (!Ov.empty()) O["ov"] = std::move(Ov);
    }
    O["access"] = (int)F->getAccess();
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *X : K->inits()) {
        if (auto *M = X->getAnyMember()) I.push_back(Array{"m", M->getNameAsString(), D.E(X->getInit()), X->isWritten()});
        else if (X->isBaseInitializer()) I.push_back(Array{"b", D.ty(QualType(X->getBaseClass(), 0)), D.E(X->getInit()), X->isWritten()});
        else if (X->isDelegatingInitializer()) I.push_back(Array{"d", "", D.E(X->getInit()), true});
      }
      O["inits"] = std::move(I);
      O["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = D.S(F->getBody());
    emit(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    std::string N = D.rec(R);
    if (!Done.insert("R:" + N).second) return true;
    Array B, Fs, Ms;
    for (auto &X : R->bases()) B.push_back(D.ty(X.getType()));
    for (auto *F : R->fields()) {
      Value Init = F->hasInClassInitializer() && F->getInClassInitializer() ? D.E(F->getInClassInitializer()) : Value(nullptr);
      Fs.push_back(Array{F->getNameAsString(), D.ty(F->getType()), D.line(F->getLocation()), std::move(Init)});
    }
    for (auto *M : R->methods())
      if (!M->isImplicit()) Ms.push_back(Array{D.qual(M), D.usr(M), M->isPureVirtual(), M->isVirtual(), (int)M->getAccess()});
    emit(Object{{"k", "rec"}, {"name", N}, {"file", D.file(R->getLocation())}, {"line", D.line(R->getLocation())}, {"bases", std::move(B)}, {"fields", std::move(Fs)}, {"methods", std::move(Ms)}});
    return true;
  }
  bool VisitEnumDecl(EnumDecl *En) {
    if (!En->isThisDeclarationADefinition() || En->isDependentContext() || !D.inRoot(En->getLocation())) return true;
    std::string N = D.qual(En);
    Array K;
    for (auto *X : En->enumerators()) K.push_back(Array{D.qual(X), (int64_t)X->getInitVal().extOrTrunc(64).getSExtValue()});
    std::string U = D.usr(En);
    if (!Done.insert("E:" + U).second) return true;
    emit(Object{{"k", "enum"}, {"name", N}, {"file", D.file(En->getLocation())}, {"line", D.line(En->getLocation())}, {"consts", std::move(K)}});
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || !V->hasGlobalStorage()) return true;
    if (V->getDeclContext()->isDependentContext() || !D.inRoot(V->getLocation())) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !V->hasInit()) return true;
    std::string U = D.usr(V);
    if (!Done.insert("V:" + U).second) return true;
    emit(Object{{"k", "var"}, {"name", D.qual(V)}, {"t", D.ty(V->getType())}, {"file", D.file(V->getLocation())}, {"line", D.line(V->getLocation())}, {"i", V->getInit() ? D.E(V->getInit()) : Value(nullptr)}});
    return true;
  }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Vis V(C);
    V.TraverseDecl(C.getTranslationUnitDecl());
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
} // namespace

// usage: radx ROOT OUT SOURCE -- compiler flags
int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: radx ROOT OUT SOURCE -- flags\n"; return 2; }
  Root = argv[1];
  std::error_code EC;
  llvm::raw_fd_ostream OS(argv[2], EC);
  if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
  Out = &OS;
  std::vector<std::string> Fl;
  for (int i = 5; i < argc; i++) Fl.push_back(argv[i]);
  FixedCompilationDatabase DB(".", Fl);
  ClangTool T(DB, {argv[3]});
  int R = T.run(newFrontendActionFactory<Act>().get());
  OS.flush();
  return R;
}
