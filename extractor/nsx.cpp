// nsx: dumps the type-checked program of NapSAT as JSON for the Python analyses.
// For every function defined in a file under --root: its resolved AST (implicit wrappers
// collapsed), and clang's CFG with every sub-expression as an element, in evaluation order.
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::string Root;

static std::string usr(const Decl *D) {
  llvm::SmallString<128> B;
  if (index::generateUSRForDecl(D, B)) return "";
  return std::string(B.str());
}

class Dumper : public RecursiveASTVisitor<Dumper> {
public:
  ASTContext &C; SourceManager &SM; OStream &J; PrintingPolicy PP;
  std::set<const FunctionDecl *> Seen;
  std::vector<const FunctionDecl *> Funcs;
  std::vector<const CXXRecordDecl *> Recs;
  std::vector<const EnumDecl *> Enums;
  std::vector<const VarDecl *> Globals;
  Dumper(ASTContext &C, OStream &J) : C(C), SM(C.getSourceManager()), J(J), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string F = fileOf(L);
    llvm::SmallString<256> P(F);
    if (!F.empty() && F[0] != '/') { llvm::SmallString<256> A; SM.getFileManager().makeAbsolutePath(P); }
    return llvm::StringRef(P).starts_with(Root);
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
    if (F->isDeleted()) return true;
    if (!F->getBody()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (F->isDefaulted() && F->isImplicit()) return true;
    if (Seen.insert(F).second) Funcs.push_back(F);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr *L) {
    CXXMethodDecl *M = L->getCallOperator();
    if (M && M->getBody() && !M->isDependentContext() && inRoot(M->getLocation()) && Seen.insert(M).second) Funcs.push_back(M);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !R->isLambda() && inRoot(R->getLocation())) Recs.push_back(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (E->isThisDeclarationADefinition() && inRoot(E->getLocation())) Enums.push_back(E);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isLocalVarDecl() && inRoot(V->getLocation()) && !isa<ParmVarDecl>(V)) Globals.push_back(V);
    return true;
  }

  // ---- function dump ----
  std::map<const Stmt *, int> Ids;
  std::vector<const Stmt *> Order;
  std::map<const Decl *, int> LocalIds;
  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *P = dyn_cast<ParenExpr>(S)) S = P->getSubExpr();
      else if (auto *E = dyn_cast<FullExpr>(S)) S = E->getSubExpr();
      else if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr();
      else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(S)) S = B->getSubExpr();
      else if (auto *D = dyn_cast<CXXDefaultArgExpr>(S)) S = D->getExpr();
      else if (auto *D = dyn_cast<CXXDefaultInitExpr>(S)) S = D->getExpr();
      else if (auto *N = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = N->getReplacement();
      else if (auto *I = dyn_cast<ImplicitCastExpr>(S)) {
        if (I->getCastKind() == CK_NoOp || I->getCastKind() == CK_FunctionToPointerDecay || I->getCastKind() == CK_BuiltinFnToFnPtr)
          S = I->getSubExpr();
        else if ((I->getCastKind() == CK_ConstructorConversion || I->getCastKind() == CK_UserDefinedConversion))
          S = I->getSubExpr();
        else break;
      } else if (auto *CE = dyn_cast<CXXConstructExpr>(S)) {
        if (CE->isElidable() && CE->getNumArgs() >= 1) S = CE->getArg(0); else break;
      } else break;
    }
    return S;
  }
  int id(const Stmt *S) {
    S = strip(S);
    if (!S) return -1;
    auto It = Ids.find(S);
    if (It != Ids.end()) return It->second;
    int N = Order.size();
    Ids[S] = N; Order.push_back(S);
    return N;
  }
  int localId(const Decl *D) {
    auto It = LocalIds.find(D);
    if (It != LocalIds.end()) return It->second;
    int N = LocalIds.size() + 1;
    LocalIds[D] = N;
    return N;
  }
  std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
  std::string funcId(const FunctionDecl *F) {
    const FunctionDecl *D = F->getCanonicalDecl();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) {
      return "lambda@" + fileOf(F->getLocation()) + ":" + std::to_string(SM.getExpansionLineNumber(M->getParent()->getLocation())) + ":" + std::to_string(SM.getExpansionColumnNumber(M->getParent()->getLocation())) + ":" + std::to_string(SM.getSpellingColumnNumber(M->getParent()->getLocation()))+ ":" + std::to_string(SM.getSpellingLineNumber(M->getParent()->getLocation()));
    }
    std::string U = usr(D);
    if (!F->isExternallyVisible() && !isa<CXXMethodDecl>(F)) U += "@" + llvm::sys::path::filename(fileOf(D->getLocation())).str();
    return U;
  }
  void declRef(const ValueDecl *D) {
    J.attribute("name", D->getNameAsString());
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J.attribute("dk", "func"); J.attribute("fid", funcId(F)); J.attribute("qn", F->getQualifiedNameAsString());
    } else if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->isLocalVarDeclOrParm()) {
        J.attribute("dk", isa<ParmVarDecl>(V) ? "param" : (V->isStaticLocal() ? "slocal" : "local"));
        J.attribute("lid", localId(V->getCanonicalDecl()));
      } else { J.attribute("dk", "global"); J.attribute("qn", V->getQualifiedNameAsString()); 
        if (V->getType().isConstQualified()) if (auto *I = V->getAnyInitializer()) { Expr::EvalResult R; if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType() && I->EvaluateAsInt(R, C)) J.attribute("cv", llvm::toString(R.Val.getInt(), 10)); } }
    } else if (auto *F = dyn_cast<FieldDecl>(D)) {
      J.attribute("dk", "field"); J.attribute("qn", F->getQualifiedNameAsString());
    } else if (auto *E = dyn_cast<EnumConstantDecl>(D)) {
      J.attribute("dk", "enum"); J.attribute("qn", E->getQualifiedNameAsString()); J.attribute("cv", llvm::toString(E->getInitVal(), 10));
    } else if (auto *B = dyn_cast<BindingDecl>(D)) {
      J.attribute("dk", "binding"); J.attribute("lid", localId(B));
    } else { J.attribute("dk", D->getDeclKindName()); J.attribute("qn", D->getQualifiedNameAsString()); }
  }
  void callee(const FunctionDecl *F) {
    J.attribute("fid", funcId(F)); J.attribute("qn", F->getQualifiedNameAsString());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (!M->isStatic()) J.attribute("method", true);
      if (M->isConst()) J.attribute("constm", true);
      if (M->isVirtual()) J.attribute("virt", true);
    }
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(ty(P->getType())); });
  }
  void macros(SourceLocation L) {
    std::vector<std::string> V;
    while (L.isMacroID()) {
      V.push_back(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
      if (SM.isMacroArgExpansion(L)) { V.back() += "/arg"; }
      L = SM.getImmediateExpansionRange(L).getBegin();
    }
    if (!V.empty()) J.attributeArray("mac", [&] { for (auto &S : V) J.value(S); });
  }
  void kids(std::initializer_list<const Stmt *> L) { J.attributeArray("c", [&] { for (auto *S : L) J.value(S ? id(S) : -1); }); }
  void genericKids(const Stmt *S) { J.attributeArray("c", [&] { for (auto *K : S->children()) J.value(K ? id(K) : -1); }); }
  void dumpVar(const VarDecl *V) {
    J.attribute("name", V->getNameAsString()); J.attribute("lid", localId(V->getCanonicalDecl())); J.attribute("vt", ty(V->getType()));
    if (V->isStaticLocal()) J.attribute("static", true);
    if (V->getType()->isReferenceType()) J.attribute("ref", true);
    J.attribute("init", V->getInit() ? id(V->getInit()) : -1);
  }
  void dumpStmt(const Stmt *S) {
    J.object([&] {
      J.attribute("i", Ids[S]);
      J.attribute("k", S->getStmtClassName());
      SourceLocation L = S->getBeginLoc();
      if (auto *B = dyn_cast<BinaryOperator>(S)) L = B->getOperatorLoc();
      J.attribute("l", (int64_t)SM.getExpansionLineNumber(L));
      macros(S->getBeginLoc());
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", ty(E->getType()));
        if (E->isLValue()) J.attribute("lv", true);
        Expr::EvalResult R;
        if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && E->isPRValue() && E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
          J.attribute("cv", llvm::toString(R.Val.getInt(), 10));
      }
      if (auto *D = dyn_cast<DeclRefExpr>(S)) { declRef(D->getDecl()); J.attributeArray("c", [] {}); return; }
      if (auto *M = dyn_cast<MemberExpr>(S)) { declRef(M->getMemberDecl()); if (M->isArrow()) J.attribute("arrow", true); kids({M->getBase()}); return; }
      if (isa<CXXThisExpr>(S)) { J.attributeArray("c", [] {}); return; }
      if (auto *L = dyn_cast<StringLiteral>(S)) { if (L->isOrdinary()) J.attribute("s", llvm::json::fixUTF8(L->getString())); J.attributeArray("c", [] {}); return; }
      if (auto *L = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<32> B; L->getValue().toString(B); J.attribute("s", B.str()); J.attributeArray("c", [] {}); return; }
      if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) { J.attribute("b", L->getValue()); J.attributeArray("c", [] {}); return; }
      if (auto *U = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode())); if (U->isPostfix()) J.attribute("post", true); kids({U->getSubExpr()}); return; }
      if (auto *B = dyn_cast<BinaryOperator>(S)) { J.attribute("op", B->getOpcodeStr()); kids({B->getLHS(), B->getRHS()}); return; }
      if (auto *X = dyn_cast<CastExpr>(S)) { J.attribute("ck", X->getCastKindName()); kids({X->getSubExpr()}); return; }
      if (auto *X = dyn_cast<CXXOperatorCallExpr>(S)) {
        J.attribute("op", getOperatorSpelling(X->getOperator()));
        if (X->getOperator() == OO_PlusPlus || X->getOperator() == OO_MinusMinus) if (X->getNumArgs() == 2) J.attribute("post", true);
        if (auto *F = X->getDirectCallee()) callee(F);
        J.attributeArray("c", [&] { for (auto *A : X->arguments()) J.value(id(A)); });
        return;
      }
      if (auto *X = dyn_cast<CXXMemberCallExpr>(S)) {
        if (auto *F = X->getMethodDecl()) callee(F);
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) { if (ME->isArrow()) J.attribute("arrow", true); }
        J.attributeArray("c", [&] { J.value(X->getImplicitObjectArgument() ? id(X->getImplicitObjectArgument()) : id(X->getCallee())); for (auto *A : X->arguments()) J.value(id(A)); });
        return;
      }
      if (auto *X = dyn_cast<CallExpr>(S)) {
        if (auto *F = X->getDirectCallee()) { callee(F); J.attributeArray("c", [&] { for (auto *A : X->arguments()) J.value(id(A)); }); }
        else { J.attribute("indirect", true); J.attributeArray("c", [&] { J.value(id(X->getCallee())); for (auto *A : X->arguments()) J.value(id(A)); }); }
        return;
      }
      if (auto *X = dyn_cast<CXXConstructExpr>(S)) { callee(X->getConstructor()); J.attribute("rec", X->getConstructor()->getParent()->getQualifiedNameAsString());
        if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
        J.attributeArray("c", [&] { for (auto *A : X->arguments()) J.value(id(A)); }); return; }
      if (auto *X = dyn_cast<CXXNewExpr>(S)) { J.attribute("nt", ty(X->getAllocatedType())); if (X->isArray()) J.attribute("arr", true);
        J.attribute("size", X->isArray() && X->getArraySize() ? id(*X->getArraySize()) : -1); J.attribute("init", X->getInitializer() ? id(X->getInitializer()) : -1);
        J.attributeArray("c", [&] { if (X->isArray() && X->getArraySize()) J.value(id(*X->getArraySize())); if (X->getInitializer()) J.value(id(X->getInitializer())); }); return; }
      if (auto *X = dyn_cast<CXXDeleteExpr>(S)) { if (X->isArrayForm()) J.attribute("arr", true); kids({X->getArgument()}); return; }
      if (auto *X = dyn_cast<LambdaExpr>(S)) {
        J.attribute("fid", funcId(X->getCallOperator()));
        J.attributeArray("caps", [&] { for (auto &K : X->captures()) J.object([&] { J.attribute("this", K.capturesThis()); J.attribute("byref", K.getCaptureKind() == LCK_ByRef); if (K.capturesVariable()) { J.attribute("name", K.getCapturedVar()->getNameAsString()); J.attribute("lid", localId(K.getCapturedVar()->getCanonicalDecl())); } }); });
        J.attributeArray("c", [&] { for (auto *I : X->capture_inits()) J.value(I ? id(I) : -1); }); return; }
      if (auto *X = dyn_cast<DeclStmt>(S)) {
        J.attributeArray("vars", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) J.object([&] { dumpVar(V);
            if (auto *DD = dyn_cast<DecompositionDecl>(V)) J.attributeArray("bind", [&] { for (auto *B : DD->bindings()) J.value(localId(B)); }); }); });
        J.attributeArray("c", [&] { for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) if (V->getInit()) J.value(id(V->getInit())); }); return; }
      if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
        J.attribute("range", id(X->getRangeInit())); J.attribute("var", X->getLoopVariable()->getNameAsString()); J.attribute("lid", localId(X->getLoopVariable()->getCanonicalDecl()));
        if (X->getLoopVariable()->getType()->isReferenceType()) J.attribute("ref", true);
        J.attribute("body", id(X->getBody())); kids({X->getRangeStmt(), X->getBeginStmt(), X->getEndStmt(), X->getCond(), X->getInc(), X->getLoopVarStmt(), X->getBody()}); return; }
      if (auto *X = dyn_cast<ForStmt>(S)) { J.attribute("init", X->getInit() ? id(X->getInit()) : -1); J.attribute("cond", X->getCond() ? id(X->getCond()) : -1); J.attribute("inc", X->getInc() ? id(X->getInc()) : -1); J.attribute("body", id(X->getBody())); genericKids(S); return; }
      if (auto *X = dyn_cast<WhileStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("body", id(X->getBody())); genericKids(S); return; }
      if (auto *X = dyn_cast<DoStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("body", id(X->getBody())); genericKids(S); return; }
      if (auto *X = dyn_cast<IfStmt>(S)) { J.attribute("cond", id(X->getCond())); J.attribute("then", id(X->getThen())); J.attribute("else", X->getElse() ? id(X->getElse()) : -1); genericKids(S); return; }
      if (auto *X = dyn_cast<CaseStmt>(S)) { J.attribute("val", id(X->getLHS())); genericKids(S); return; }
      if (auto *X = dyn_cast<SwitchStmt>(S)) { J.attribute("cond", id(X->getCond())); genericKids(S); return; }
      if (auto *X = dyn_cast<CXXTryStmt>(S)) { J.attributeArray("c", [&] { J.value(id(X->getTryBlock())); for (unsigned i = 0; i < X->getNumHandlers(); i++) J.value(id(X->getHandler(i))); }); return; }
      if (auto *X = dyn_cast<CXXCatchStmt>(S)) { J.attribute("caught", ty(X->getCaughtType())); kids({X->getHandlerBlock()}); return; }
      if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { (void)X; J.attributeArray("c", [] {}); return; }
      genericKids(S);
    });
  }
  void dumpFunc(const FunctionDecl *F) {
    Ids.clear(); Order.clear(); LocalIds.clear();
    J.object([&] {
      J.attribute("fid", funcId(F)); J.attribute("qn", F->getQualifiedNameAsString()); J.attribute("name", F->getNameAsString());
      J.attribute("ret", ty(F->getReturnType()));
      llvm::SmallString<256> P(fileOf(F->getLocation())); SM.getFileManager().makeAbsolutePath(P); llvm::sys::path::remove_dots(P, true);
      J.attribute("file", P.str());
      J.attribute("line", (int64_t)SM.getExpansionLineNumber(F->getLocation()));
      J.attribute("end", (int64_t)SM.getExpansionLineNumber(F->getBody()->getEndLoc()));
      J.attribute("internal", !F->isExternallyVisible());
      J.attribute("kind", isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : isa<CXXMethodDecl>(F) ? "method" : "func");
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("record", M->getParent()->getQualifiedNameAsString());
        J.attribute("const", M->isConst()); J.attribute("static", M->isStatic()); J.attribute("lambda", M->getParent()->isLambda());
        J.attribute("access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
      }
      J.attributeArray("params", [&] { for (auto *V : F->parameters()) J.object([&] { J.attribute("name", V->getNameAsString()); J.attribute("lid", localId(V->getCanonicalDecl())); J.attribute("t", ty(V->getType())); }); });
      if (auto *K = dyn_cast<CXXConstructorDecl>(F))
        J.attributeArray("inits", [&] { for (auto *I : K->inits()) J.object([&] { if (I->isMemberInitializer()) J.attribute("field", I->getMember()->getQualifiedNameAsString()); else J.attribute("base", true); J.attribute("e", id(I->getInit())); }); });
      J.attribute("body", id(F->getBody()));
      CFG::BuildOptions O; O.setAllAlwaysAdd(); O.AddInitializers = true; O.AddImplicitDtors = false; O.PruneTriviallyFalseEdges = true;
      std::unique_ptr<CFG> G = CFG::buildCFG(F, F->getBody(), &C, O);
      if (G) {
        J.attribute("entry", (int64_t)G->getEntry().getBlockID()); J.attribute("exit", (int64_t)G->getExit().getBlockID());
        J.attributeArray("cfg", [&] { for (auto *B : *G) J.object([&] {
          J.attribute("b", (int64_t)B->getBlockID());
          J.attributeArray("e", [&] { int Last = -1; for (auto &E : *B) { if (auto S = E.getAs<CFGStmt>()) { int X = id(S->getStmt()); 
              if (strip(S->getStmt()) != S->getStmt() && X == Last) continue; J.value(X); Last = X; } else if (auto I = E.getAs<CFGInitializer>()) { J.value(id(I->getInitializer()->getInit())); } } });
          if (auto *T = B->getTerminatorStmt()) { J.attribute("t", id(T)); }
          if (auto *T = B->getTerminatorCondition()) J.attribute("tc", id(T));
          if (auto *L = B->getLabel()) J.attribute("lab", id(L));
          if (auto *LT = B->getLoopTarget()) J.attribute("lt", id(LT));
          if (B->hasNoReturnElement()) J.attribute("noret", true);
          J.attributeArray("s", [&] { for (auto &S : B->succs()) J.value(S.getReachableBlock() ? (int64_t)S.getReachableBlock()->getBlockID() : (int64_t)-1); });
        }); });
      }
      // flush nodes (ids grow while dumping)
      J.attributeArray("n", [&] { for (size_t i = 0; i < Order.size(); i++) dumpStmt(Order[i]); });
    });
  }
  void run() {
    J.object([&] {
      J.attributeArray("functions", [&] { for (auto *F : Funcs) dumpFunc(F); });
      J.attributeArray("records", [&] { for (auto *R : Recs) J.object([&] {
        J.attribute("qn", R->getQualifiedNameAsString());
        J.attribute("file", fileOf(R->getLocation())); J.attribute("line", (int64_t)SM.getExpansionLineNumber(R->getLocation()));
        J.attribute("udtor", R->hasUserDeclaredDestructor());
        bool CC = false, CA = false;
        for (auto *K : R->ctors()) if (K->isCopyConstructor() && !K->isDeleted() && K->getAccess() != AS_private) CC = true;
        bool UCC = R->hasUserDeclaredCopyConstructor(), UCA = R->hasUserDeclaredCopyAssignment();
        J.attribute("ucopyctor", UCC); J.attribute("ucopyassign", UCA);
        J.attribute("copyctor", CC || R->needsImplicitCopyConstructor());
        (void)CA;
        J.attributeArray("fields", [&] { for (auto *F : R->fields()) J.object([&] { J.attribute("name", F->getNameAsString()); J.attribute("t", ty(F->getType())); J.attribute("line", (int64_t)SM.getExpansionLineNumber(F->getLocation())); J.attribute("init", F->hasInClassInitializer()); J.attribute("access", F->getAccess() == AS_public ? "public" : "private");
            if (F->hasInClassInitializer()) if (auto *E = F->getInClassInitializer()) { Expr::EvalResult X; if (!E->isValueDependent() && E->EvaluateAsInt(X, C)) J.attribute("iv", llvm::toString(X.Val.getInt(), 10)); } }); });
        J.attributeArray("methods", [&] { for (auto *M : R->methods()) J.object([&] { J.attribute("name", M->getNameAsString()); J.attribute("fid", funcId(M)); J.attribute("implicit", M->isImplicit()); J.attribute("deleted", M->isDeleted()); J.attribute("access", M->getAccess() == AS_public ? "public" : "private"); }); });
      }); });
      J.attributeArray("enums", [&] { for (auto *E : Enums) J.object([&] { J.attribute("qn", E->getQualifiedNameAsString()); J.attributeArray("vals", [&] { for (auto *V : E->enumerators()) J.value(V->getNameAsString()); }); J.attributeArray("nums", [&] { for (auto *V : E->enumerators()) J.value((int64_t)V->getInitVal().getExtValue()); }); }); });
      J.attributeArray("globals", [&] { for (auto *V : Globals) J.object([&] { J.attribute("qn", V->getQualifiedNameAsString()); J.attribute("t", ty(V->getType())); J.attribute("const", V->getType().isConstQualified()); if (auto *I = V->getInit()) { const Expr *X = I->IgnoreImplicit(); while (auto *K = dyn_cast<CXXConstructExpr>(X)) { if (K->getNumArgs() != 1) break; X = K->getArg(0)->IgnoreImplicit(); } Expr::EvalResult R; if (!X->isValueDependent() && X->getType()->isIntegralOrEnumerationType() && X->EvaluateAsInt(R, C)) J.attribute("cv", R.Val.getInt().isSigned() ? R.Val.getInt().getSExtValue() : (int64_t)R.Val.getInt().getZExtValue()); } }); });
    });
  }
};

class Consumer : public ASTConsumer {
  raw_ostream &OS;
public:
  Consumer(raw_ostream &OS) : OS(OS) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    OStream J(OS);
    Dumper D(C, J);
    D.TraverseDecl(C.getTranslationUnitDecl());
    D.run();
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(llvm::outs()); }
};

// usage: nsx ROOT FILE -- flags...
int main(int argc, const char **argv) {
  Root = argv[1];
  std::vector<std::string> Flags;
  for (int i = 4; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {argv[2]});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
