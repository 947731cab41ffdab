// extract: dumps the resolved program (clang AST) of one translation unit as compact JSON.
// Only declarations whose source lies under --root are dumped. No code of the project is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string Root;

static std::string utf(StringRef s) { return llvm::json::fixUTF8(s); }

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true; PP.SuppressInlineNamespace = true;
    PP.PrintCanonicalTypes = true;
  }
  std::string ty(QualType T) { if (T.isNull()) return ""; return T.getCanonicalType().getAsString(PP); }
  int line(SourceLocation L) { return (int)SM.getPresumedLineNumber(SM.getExpansionLoc(L)); }
  std::string file(SourceLocation L) {
    auto F = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L)));
    if (!F) return "";
    StringRef rp = F->getFileEntry().tryGetRealPathName();
    std::string n = rp.empty() ? F->getName().str() : rp.str();
    return n;
  }
  bool inRoot(SourceLocation L) { if (L.isInvalid()) return false; std::string f = file(L); return StringRef(f).starts_with(Root); }
  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = Ids.find(D); if (it != Ids.end()) return it->second; int n = Ids.size(); Ids[D] = n; return n; }
  std::string qn(const NamedDecl *D) { std::string s; llvm::raw_string_ostream os(s); 
    D->printQualifiedName(os, PP); return os.str(); }
  std::string fsig(const FunctionDecl *F) {
    std::string s; 
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { s = ty(C.getRecordType(M->getParent())) + "::"; s += F->getNameAsString(); 
      if (isa<CXXConstructorDecl>(F)) { s = ty(C.getRecordType(M->getParent())) + "::<ctor>"; }
      if (isa<CXXDestructorDecl>(F)) { s = ty(C.getRecordType(M->getParent())) + "::<dtor>"; }
    }
    else { s = qn(F); if (F->getStorageClass() == SC_Static && inRoot(F->getLocation())) s = "static " + s; }
    s += "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) s += ","; first = false; s += ty(P->getType()); }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  std::string rec(const CXXRecordDecl *R) { return ty(C.getRecordType(R)); }

  Value S(const Stmt *St) {
    if (!St) return nullptr;
    if (auto *E = dyn_cast<Expr>(St)) return X(E);
    Object o; o["l"] = line(St->getBeginLoc());
    switch (St->getStmtClass()) {
    case Stmt::CompoundStmtClass: { Array a; for (auto *c : cast<CompoundStmt>(St)->body()) a.push_back(S(c)); o["k"] = "block"; o["s"] = std::move(a);
        o["el"] = line(cast<CompoundStmt>(St)->getRBracLoc()); break; }
    case Stmt::IfStmtClass: { auto *I = cast<IfStmt>(St); o["k"] = "if"; if (I->getInit()) o["init"] = S(I->getInit()); if (I->getConditionVariableDeclStmt()) o["cvar"] = S(I->getConditionVariableDeclStmt()); o["c"] = X(I->getCond()); o["t"] = S(I->getThen()); o["e"] = S(I->getElse()); break; }
    case Stmt::WhileStmtClass: { auto *W = cast<WhileStmt>(St); o["k"] = "while"; if (W->getConditionVariableDeclStmt()) o["cvar"] = S(W->getConditionVariableDeclStmt()); o["c"] = X(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::DoStmtClass: { auto *W = cast<DoStmt>(St); o["k"] = "do"; o["c"] = X(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::ForStmtClass: { auto *F = cast<ForStmt>(St); o["k"] = "for"; o["i"] = S(F->getInit()); o["c"] = F->getCond() ? X(F->getCond()) : Value(nullptr); o["n"] = F->getInc() ? X(F->getInc()) : Value(nullptr); o["b"] = S(F->getBody()); break; }
    case Stmt::CXXForRangeStmtClass: { auto *F = cast<CXXForRangeStmt>(St); o["k"] = "forrange"; o["v"] = var(F->getLoopVariable()); o["r"] = X(F->getRangeInit()); o["b"] = S(F->getBody()); break; }
    case Stmt::SwitchStmtClass: { auto *W = cast<SwitchStmt>(St); o["k"] = "switch"; o["c"] = X(W->getCond()); o["b"] = S(W->getBody()); break; }
    case Stmt::CaseStmtClass: { auto *Cs = cast<CaseStmt>(St); o["k"] = "case"; o["v"] = X(Cs->getLHS()); o["s"] = S(Cs->getSubStmt()); break; }
    case Stmt::DefaultStmtClass: { o["k"] = "default"; o["s"] = S(cast<DefaultStmt>(St)->getSubStmt()); break; }
    case Stmt::BreakStmtClass: o["k"] = "break"; break;
    case Stmt::ContinueStmtClass: o["k"] = "continue"; break;
    case Stmt::ReturnStmtClass: { auto *R = cast<ReturnStmt>(St); o["k"] = "return"; o["e"] = R->getRetValue() ? X(R->getRetValue()) : Value(nullptr); break; }
    case Stmt::DeclStmtClass: { Array a; for (auto *D : cast<DeclStmt>(St)->decls()) if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); o["k"] = "decl"; o["v"] = std::move(a); break; }
    case Stmt::NullStmtClass: o["k"] = "null_stmt"; break;
    case Stmt::GotoStmtClass: o["k"] = "goto"; o["n"] = cast<GotoStmt>(St)->getLabel()->getNameAsString(); break;
    case Stmt::LabelStmtClass: o["k"] = "label"; o["n"] = cast<LabelStmt>(St)->getName(); o["s"] = S(cast<LabelStmt>(St)->getSubStmt()); break;
    case Stmt::CXXTryStmtClass: { auto *T = cast<CXXTryStmt>(St); o["k"] = "try"; o["b"] = S(T->getTryBlock()); Array h;
        for (unsigned i = 0; i < T->getNumHandlers(); i++) { auto *H = T->getHandler(i); Object ho; ho["ty"] = H->getExceptionDecl() ? ty(H->getCaughtType()) : "..."; if (H->getExceptionDecl()) ho["v"] = var(H->getExceptionDecl()); ho["b"] = S(H->getHandlerBlock()); ho["l"] = line(H->getBeginLoc()); h.push_back(std::move(ho)); }
        o["h"] = std::move(h); break; }
    default: { o["k"] = "otherstmt"; o["cls"] = St->getStmtClassName(); Array a; for (auto *c : St->children()) if (c) a.push_back(S(c)); o["s"] = std::move(a); }
    }
    return std::move(o);
  }
  Value var(const VarDecl *V) {
    Object o; o["k"] = "var"; o["n"] = V->getNameAsString(); o["id"] = id(V); o["ty"] = ty(V->getType()); o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["st"] = true;
    if (V->hasGlobalStorage()) o["gl"] = true;
    if (V->getType().isConstQualified()) o["const"] = true;
    if (V->hasInit()) { o["i"] = X(V->getInit()); o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list"; }
    if (auto *AT = C.getAsConstantArrayType(V->getType())) o["n_el"] = (int64_t)AT->getSize().getZExtValue();
    return std::move(o);
  }
  static const char *ck(CastKind K) { return CastExpr::getCastKindName(K); }
  Value X(const Expr *E) {
    if (!E) return nullptr;
    // transparent nodes
    while (true) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr:
          E = P->getSubExpr(); continue;
        default: break;
        }
      }
      break;
    }
    Object o; o["l"] = line(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    if (E->getBeginLoc().isMacroID()) {
      SourceLocation ML = E->getBeginLoc();
      o["mac"] = Lexer::getImmediateMacroName(ML, SM, C.getLangOpts()).str();
    }
    o["ty"] = ty(E->getType());
    if (!E->isValueDependent() && E->getType()->isArithmeticType() && !isa<IntegerLiteral>(E) && !isa<FloatingLiteral>(E)) {
      Expr::EvalResult R;
      if (E->isPRValue() && E->EvaluateAsRValue(R, C) && !R.HasSideEffects) {
        if (R.Val.isInt()) { if (R.Val.getInt().isRepresentableByInt64()) o["cv"] = (int64_t)R.Val.getInt().getExtValue(); else o["cvs"] = llvm::toString(R.Val.getInt(), 10); }
        else if (R.Val.isFloat()) { double d = R.Val.getFloat().convertToDouble(); if (std::isfinite(d)) o["cv"] = d; }
      }
    }
    {
      const ValueDecl *VD = nullptr;
      if (auto *DR = dyn_cast<DeclRefExpr>(E)) VD = DR->getDecl();
      else if (auto *ME = dyn_cast<MemberExpr>(E)) VD = ME->getMemberDecl();
      if (auto *V = dyn_cast_or_null<VarDecl>(VD)) {
        QualType T = V->getType();
        if (!isa<ParmVarDecl>(V) && T.isConstQualified() && !T.isVolatileQualified() && T->isIntegralOrEnumerationType() && !E->isValueDependent()) {
          const VarDecl *D = nullptr;
          const Expr *I = V->getAnyInitializer(D);
          Expr::EvalResult R;
          if (I && !I->isValueDependent() && I->EvaluateAsRValue(R, C) && R.Val.isInt() && R.Val.getInt().isRepresentableByInt64()) o["cv"] = (int64_t)R.Val.getInt().getExtValue();
        }
      }
    }
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: { o["k"] = "int"; auto v = cast<IntegerLiteral>(E)->getValue(); if (v.getActiveBits() <= 63) o["v"] = (int64_t)v.getZExtValue(); else o["vs"] = llvm::toString(v, 10, false); break; }
    case Stmt::FloatingLiteralClass: { o["k"] = "flt"; double d = cast<FloatingLiteral>(E)->getValueAsApproximateDouble(); if (std::isfinite(d)) o["v"] = d; else o["vs"] = "inf"; break; }
    case Stmt::CharacterLiteralClass: o["k"] = "int"; o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue(); o["ch"] = true; break;
    case Stmt::CXXBoolLiteralExprClass: o["k"] = "bool"; o["v"] = cast<CXXBoolLiteralExpr>(E)->getValue(); break;
    case Stmt::StringLiteralClass: { o["k"] = "str"; auto *SL = cast<StringLiteral>(E); o["v"] = SL->getCharByteWidth() == 1 ? utf(SL->getBytes()) : std::string("?"); break; }
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "null"; break;
    case Stmt::CXXThisExprClass: o["k"] = "this"; break;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl(); o["k"] = "ref"; o["n"] = D->getNameAsString(); o["id"] = id(D);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["q"] = qn(D); o["cv"] = (int64_t)EC->getInitVal().getExtValue(); }
      else if (isa<ParmVarDecl>(D)) o["dk"] = "param";
      else if (auto *V = dyn_cast<VarDecl>(D)) { if (V->isStaticLocal()) o["dk"] = "static"; else if (V->isLocalVarDecl()) o["dk"] = "local"; else { o["dk"] = "global"; o["q"] = qn(D); }
        o["dty"] = ty(V->getType()); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["q"] = qn(D); o["fid"] = fsig(F); }
      else { o["dk"] = "other"; o["q"] = qn(D); }
      if (auto *P = dyn_cast<ParmVarDecl>(D)) o["dty"] = ty(P->getType());
      break; }
    case Stmt::MemberExprClass: { auto *M = cast<MemberExpr>(E); auto *D = M->getMemberDecl();
      o["k"] = "mem"; o["f"] = D->getNameAsString(); o["q"] = qn(D); o["arrow"] = M->isArrow(); o["b"] = X(M->getBase());
      if (auto *FD = dyn_cast<FieldDecl>(D)) { o["cls"] = rec(cast<CXXRecordDecl>(FD->getParent())); o["fty"] = ty(FD->getType()); }
      if (auto *VD = dyn_cast<VarDecl>(D)) { o["stm"] = true; o["fty"] = ty(VD->getType()); }
      break; }
    case Stmt::UnaryOperatorClass: { auto *U = cast<UnaryOperator>(E); o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str(); if (U->isPostfix()) o["post"] = true; o["e"] = X(U->getSubExpr()); break; }
    case Stmt::CompoundAssignOperatorClass: case Stmt::BinaryOperatorClass: { auto *B = cast<BinaryOperator>(E); o["k"] = B->isAssignmentOp() ? "asg" : "bin"; o["op"] = B->getOpcodeStr().str(); o["a"] = X(B->getLHS()); o["b"] = X(B->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) o["cty"] = ty(CA->getComputationResultType()); break; }
    case Stmt::ConditionalOperatorClass: { auto *Q = cast<ConditionalOperator>(E); o["k"] = "cond"; o["c"] = X(Q->getCond()); o["t"] = X(Q->getTrueExpr()); o["e"] = X(Q->getFalseExpr()); break; }
    case Stmt::ArraySubscriptExprClass: { auto *A = cast<ArraySubscriptExpr>(E); o["k"] = "idx"; o["b"] = X(A->getBase()); o["i"] = X(A->getIdx());
      const Expr *Bs = A->getBase()->IgnoreParenImpCasts(); if (auto *AT = C.getAsConstantArrayType(Bs->getType())) o["n_el"] = (int64_t)AT->getSize().getZExtValue(); break; }
    case Stmt::CXXMemberCallExprClass: { auto *M = cast<CXXMemberCallExpr>(E); call(o, M, M->getMethodDecl()); o["this"] = X(M->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow();
        if (M->getMethodDecl() && M->getMethodDecl()->isVirtual() && !ME->hasQualifier()) o["virt"] = true; if (ME->hasQualifier()) o["qual"] = true; }
      else o["fp"] = X(M->getCallee());
      break; }
    case Stmt::CXXOperatorCallExprClass: { auto *M = cast<CXXOperatorCallExpr>(E); const FunctionDecl *F = M->getDirectCallee(); call(o, M, F); o["oper"] = getOperatorSpelling(M->getOperator()); break; }
    case Stmt::CallExprClass: case Stmt::UserDefinedLiteralClass: { auto *M = cast<CallExpr>(E); const FunctionDecl *F = M->getDirectCallee(); call(o, M, F); if (!F) o["fp"] = X(M->getCallee()); break; }
    case Stmt::CXXTemporaryObjectExprClass: case Stmt::CXXConstructExprClass: { auto *K = cast<CXXConstructExpr>(E); auto *Ct = K->getConstructor();
      o["k"] = "ctor"; o["cls"] = rec(Ct->getParent()); o["fid"] = fsig(Ct); Array a; for (auto *A : K->arguments()) a.push_back(X(A)); o["a"] = std::move(a);
      if (Ct->isCopyConstructor()) o["copy"] = true; if (Ct->isMoveConstructor()) { o["copy"] = true; o["move"] = true; } if (Ct->isDefaultConstructor()) o["dflt"] = true; if (Ct->isImplicit()) o["impl"] = true; if (K->requiresZeroInitialization()) o["zero"] = true; break; }
    case Stmt::CXXNewExprClass: { auto *N = cast<CXXNewExpr>(E); o["k"] = "new"; o["aty"] = ty(N->getAllocatedType()); o["arr"] = N->isArray(); if (N->isArray() && N->getArraySize()) o["n"] = X(*N->getArraySize()); if (N->getInitializer()) o["i"] = X(N->getInitializer()); break; }
    case Stmt::CXXDeleteExprClass: { auto *D = cast<CXXDeleteExpr>(E); o["k"] = "del"; o["arr"] = D->isArrayForm(); o["e"] = X(D->getArgument()); o["dty"] = ty(D->getDestroyedType()); break; }
    case Stmt::InitListExprClass: { auto *I = cast<InitListExpr>(E); o["k"] = "init"; Array a; for (auto *c : I->inits()) a.push_back(X(c)); o["a"] = std::move(a); break; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "zero"; break;
    case Stmt::CXXThrowExprClass: o["k"] = "throw"; o["e"] = X(cast<CXXThrowExpr>(E)->getSubExpr()); break;
    case Stmt::UnaryExprOrTypeTraitExprClass: { auto *U = cast<UnaryExprOrTypeTraitExpr>(E); o["k"] = "sizeof"; if (U->isArgumentType()) o["aty"] = ty(U->getArgumentType()); else o["e"] = X(U->getArgumentExpr()); break; }
    case Stmt::ImplicitCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXDynamicCastExprClass: {
      auto *K = cast<CastExpr>(E); o["k"] = "cast"; o["ck"] = ck(K->getCastKind()); o["from"] = ty(K->getSubExpr()->getType()); o["e"] = X(K->getSubExpr()); if (isa<ImplicitCastExpr>(E)) o["imp"] = true; break; }
    case Stmt::LambdaExprClass: { auto *L = cast<LambdaExpr>(E); o["k"] = "lambda"; o["b"] = S(L->getBody()); Array p; for (auto *P : L->getCallOperator()->parameters()) p.push_back(var(P)); o["p"] = std::move(p); break; }
    default: { o["k"] = "other"; o["cls"] = E->getStmtClassName(); Array a; for (auto *c : E->children()) if (c) a.push_back(S(c)); o["c"] = std::move(a); }
    }
    return std::move(o);
  }
  void call(Object &o, const CallExpr *M, const FunctionDecl *F) {
    o["k"] = "call"; Array a; for (auto *A : M->arguments()) a.push_back(X(A)); o["a"] = std::move(a);
    if (F) { o["f"] = qn(F); o["fid"] = fsig(F); o["nm"] = F->getNameAsString(); Array pt; for (auto *P : F->parameters()) pt.push_back(ty(P->getType())); o["pt"] = std::move(pt);
      if (F->isVariadic()) o["var"] = true;
      if (auto *Md = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = rec(Md->getParent()); if (Md->isConst()) o["cm"] = true; if (Md->isStatic()) o["stm"] = true; else o["meth"] = true; } }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper &D; Array Funcs, Records, Enums, Globals; std::set<const Decl *> Seen;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!D.inRoot(F->getLocation())) return true;
    if (F->isDependentContext()) return true;
    const FunctionDecl *Def = nullptr;
    if (!F->isThisDeclarationADefinition()) return true;
    if (F->isDeleted()) return true;
    Def = F;
    if (!Seen.insert(F).second) return true;
    Object o; o["n"] = F->getNameAsString(); o["q"] = D.qn(F); o["fid"] = D.fsig(F); o["file"] = D.file(F->getLocation()); o["l"] = D.line(F->getBeginLoc()); o["el"] = D.line(F->getEndLoc());
    o["ret"] = D.ty(F->getReturnType()); Array p; for (auto *P : F->parameters()) p.push_back(D.var(P)); o["p"] = std::move(p);
    if (F->isImplicit()) o["impl"] = true; if (F->isDefaulted()) o["dflt"] = true;
    if (F->getStorageClass() == SC_Static) o["static"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["cls"] = D.rec(M->getParent()); o["const"] = M->isConst(); o["virt"] = M->isVirtual(); if (M->isStatic()) o["static"] = true;
      o["acc"] = (int)M->getAccess();
      Array ov; for (auto *OM : M->overridden_methods()) ov.push_back(D.fsig(OM)); o["over"] = std::move(ov); }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) { o["ctor"] = true; if (K->isCopyConstructor()) o["copy"] = true; Array in; for (auto *I : K->inits()) { Object io; if (I->isMemberInitializer()) io["m"] = I->getMember()->getNameAsString(); else if (I->isBaseInitializer()) io["base"] = D.ty(QualType(I->getBaseClass(), 0)); else if (I->isDelegatingInitializer()) io["deleg"] = true; io["w"] = I->isWritten(); io["l"] = D.line(I->getSourceLocation()); io["e"] = D.X(I->getInit()); in.push_back(std::move(io)); } o["inits"] = std::move(in); }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isOverloadedOperator()) o["oper"] = getOperatorSpelling(F->getOverloadedOperator());
    o["b"] = F->getBody() ? D.S(F->getBody()) : Value(nullptr);
    Funcs.push_back(std::move(o)); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !D.inRoot(R->getLocation())) return true;
    if (R->isLambda()) return true;
    if (!Seen.insert(R).second) return true;
    Object o; o["n"] = D.rec(R); o["file"] = D.file(R->getLocation()); o["l"] = D.line(R->getBeginLoc());
    Array f; for (auto *F : R->fields()) { Object fo; fo["n"] = F->getNameAsString(); fo["ty"] = D.ty(F->getType()); fo["l"] = D.line(F->getLocation()); if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["i"] = D.X(F->getInClassInitializer()); if (F->getType()->isPointerType()) fo["ptr"] = true; if (auto *RT = F->getType()->getAsCXXRecordDecl()) fo["rec"] = D.rec(RT); if (auto *AT = D.C.getAsConstantArrayType(F->getType())) fo["n_el"] = (int64_t)AT->getSize().getZExtValue(); f.push_back(std::move(fo)); } o["f"] = std::move(f);
    Array b; for (auto &B : R->bases()) b.push_back(D.ty(B.getType())); o["bases"] = std::move(b);
    o["poly"] = R->isPolymorphic(); o["abstract"] = R->isAbstract();
    bool userCopy = false, delCopy = false, userAsg = false, delAsg = false, userDtor = false, vd = false;
    for (auto *K : R->ctors()) if (K->isCopyConstructor()) { if (K->isDeleted()) delCopy = true; else if (K->isUserProvided()) userCopy = true; if (K->getAccess() == AS_private && !K->hasBody()) delCopy = true; }
    for (auto *M : R->methods()) if (M->isCopyAssignmentOperator()) { if (M->isDeleted()) delAsg = true; else if (M->isUserProvided()) userAsg = true; }
    if (auto *DD = R->getDestructor()) { userDtor = DD->isUserProvided(); vd = DD->isVirtual(); }
    o["ucopy"] = userCopy; o["dcopy"] = delCopy; o["uasg"] = userAsg; o["dasg"] = delAsg; o["udtor"] = userDtor; o["vdtor"] = vd;
    Array ms; for (auto *M : R->methods()) { Object mo; mo["n"] = M->getNameAsString(); mo["fid"] = D.fsig(M); mo["virt"] = M->isVirtual(); mo["pure"] = M->isPureVirtual(); mo["impl"] = M->isImplicit(); ms.push_back(std::move(mo)); } o["m"] = std::move(ms);
    Records.push_back(std::move(o)); return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRoot(E->getLocation())) return true;
    if (!Seen.insert(E).second) return true;
    Object o; o["n"] = D.qn(E); o["file"] = D.file(E->getLocation()); Array a; for (auto *K : E->enumerators()) { Object c; c["n"] = K->getNameAsString(); c["v"] = (int64_t)K->getInitVal().getExtValue(); a.push_back(std::move(c)); } o["c"] = std::move(a); Enums.push_back(std::move(o)); return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !D.inRoot(V->getLocation()) || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!Seen.insert(V).second) return true;
    Value v = D.var(V); Object &o = *v.getAsObject(); o["q"] = D.qn(V); o["file"] = D.file(V->getLocation()); Globals.push_back(std::move(v)); return true;
  }
};

struct Consumer : ASTConsumer {
  std::string Main;
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C); Visitor V(D); V.TraverseDecl(C.getTranslationUnitDecl());
    Object o; o["functions"] = std::move(V.Funcs); o["records"] = std::move(V.Records); o["enums"] = std::move(V.Enums); o["globals"] = std::move(V.Globals);
    llvm::outs() << Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(); } };

int main(int argc, char **argv) {
  // extract ROOT FILE -- flags...
  if (argc < 4) { llvm::errs() << "usage: extract ROOT FILE -- flags\n"; return 2; }
  Root = argv[1]; std::string file = argv[2];
  std::vector<std::string> flags; bool on = false; for (int i = 3; i < argc; i++) { if (on) flags.push_back(argv[i]); else if (!strcmp(argv[i], "--")) on = true; }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
