// dtgx: dumps the type-checked program (functions, records, globals defined under a root
// directory) of one translation unit as JSON, for the analyses in /verif/analysis.
// No rule lives here: this is the front end only.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutFile;

namespace {

class Dumper {
public:
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ASTNameGenerator> NG;
  std::map<const Decl *, int> VarIds;
  int NextVar = 1;
  Array Lambdas;
  Dumper(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
    PP.SuppressUnwrittenScope = false;
    NG = std::make_unique<ASTNameGenerator>(C);
  }

  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  std::string relFile(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(L);
    if (F.starts_with(Root)) return F.drop_front(Root.size()).ltrim('/').str();
    return F.str();
  }
  int line(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  std::string clsName(const CXXRecordDecl *R) {
    if (!R) return "";
    return ty(QualType(R->getTypeForDecl(), 0));
  }
  std::string fnId(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    if (isa<CXXDeductionGuideDecl>(F)) return "dg";
    if (F->isDependentContext()) return "dep:" + qn(F);
    std::string N = NG->getName(F);
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) {
        std::ostringstream os;
        os << "lambda:" << relFile(M->getParent()->getBeginLoc()) << ":"
           << line(M->getParent()->getBeginLoc()) << ":"
           << SM.getExpansionColumnNumber(M->getParent()->getBeginLoc());
        return os.str();
      }
    if (N.empty()) N = qn(F);
    return N;
  }
  int varId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = VarIds.find(D);
    if (It != VarIds.end()) return It->second;
    return VarIds[D] = NextVar++;
  }
  std::string fieldId(const FieldDecl *F) {
    std::string C;
    if (const auto *R = dyn_cast<CXXRecordDecl>(F->getParent())) C = clsName(R);
    return C + "::" + F->getNameAsString();
  }

  void typeInfo(Object &O, QualType T) {
    QualType C = T.getCanonicalType();
    if (C->isReferenceType()) {
      O["ref"] = true;
      QualType P = C->getPointeeType();
      O["cst"] = P.isConstQualified();
      O["bt"] = ty(P.getUnqualifiedType());
      if (C->isRValueReferenceType()) O["rref"] = true;
      C = P;
    } else {
      O["bt"] = ty(C.getUnqualifiedType());
      if (C.isConstQualified()) O["cst"] = true;
    }
    if (C->isPointerType()) {
      O["ptr"] = true;
      O["pcst"] = C->getPointeeType().isConstQualified();
      O["pt"] = ty(C->getPointeeType().getUnqualifiedType());
    }
  }

  Value opt(const Stmt *S) {
    if (!S) return nullptr;
    return stmt(S);
  }

  Object node(const char *K, const Stmt *S) {
    Object O;
    O["k"] = K;
    O["l"] = line(S->getBeginLoc());
    return O;
  }

  Object varDecl(const VarDecl *V) {
    Object O;
    O["id"] = varId(V);
    O["name"] = V->getNameAsString();
    typeInfo(O, V->getType());
    O["t"] = ty(V->getType());
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    if (V->isConstexpr()) O["cx"] = true;
    if (V->hasInit()) {
      O["init"] = expr(V->getInit());
      O["istyle"] = V->getInitStyle() == VarDecl::CInit ? "c" : (V->getInitStyle() == VarDecl::CallInit ? "call" : "list");
    }
    O["l"] = line(V->getLocation());
    return O;
  }

  Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (const auto *E = dyn_cast<Expr>(S)) {
      Object O = node("expr", S);
      O["e"] = expr(E);
      return O;
    }
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      Object O = node("block", S);
      Array A;
      for (const Stmt *C : cast<CompoundStmt>(S)->body()) A.push_back(stmt(C));
      O["s"] = std::move(A);
      O["el"] = line(S->getEndLoc());
      return O;
    }
    case Stmt::DeclStmtClass: {
      Object O = node("decl", S);
      Array A;
      for (const Decl *D : cast<DeclStmt>(S)->decls()) {
        if (const auto *V = dyn_cast<VarDecl>(D)) {
          Object VO = varDecl(V);
          if (const auto *DD = dyn_cast<DecompositionDecl>(V)) {
            Array B;
            for (const auto *BD : DD->bindings()) {
              Object BO;
              BO["id"] = varId(BD);
              BO["name"] = BD->getNameAsString();
              if (BD->getBinding()) BO["e"] = expr(BD->getBinding());
              B.push_back(std::move(BO));
            }
            VO["bindings"] = std::move(B);
          }
          A.push_back(std::move(VO));
        }
      }
      O["v"] = std::move(A);
      return O;
    }
    case Stmt::IfStmtClass: {
      const auto *I = cast<IfStmt>(S);
      Object O = node("if", S);
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) O["cv"] = varDecl(I->getConditionVariable());
      if (I->isConstexpr()) O["cx"] = true;
      O["c"] = I->getCond() ? Value(expr(I->getCond())) : Value(nullptr);
      O["a"] = opt(I->getThen());
      O["b"] = opt(I->getElse());
      return O;
    }
    case Stmt::WhileStmtClass: {
      const auto *W = cast<WhileStmt>(S);
      Object O = node("while", S);
      if (W->getConditionVariable()) O["cv"] = varDecl(W->getConditionVariable());
      O["c"] = W->getCond() ? Value(expr(W->getCond())) : Value(nullptr);
      O["a"] = opt(W->getBody());
      return O;
    }
    case Stmt::DoStmtClass: {
      const auto *W = cast<DoStmt>(S);
      Object O = node("do", S);
      O["c"] = expr(W->getCond());
      O["a"] = opt(W->getBody());
      return O;
    }
    case Stmt::ForStmtClass: {
      const auto *F = cast<ForStmt>(S);
      Object O = node("for", S);
      O["init"] = opt(F->getInit());
      if (F->getConditionVariable()) O["cv"] = varDecl(F->getConditionVariable());
      O["c"] = F->getCond() ? Value(expr(F->getCond())) : Value(nullptr);
      O["inc"] = F->getInc() ? Value(expr(F->getInc())) : Value(nullptr);
      O["a"] = opt(F->getBody());
      return O;
    }
    case Stmt::CXXForRangeStmtClass: {
      const auto *F = cast<CXXForRangeStmt>(S);
      Object O = node("rfor", S);
      O["init"] = opt(F->getInit());
      O["range"] = F->getRangeInit() ? Value(expr(F->getRangeInit())) : Value(nullptr);
      Object VO = varDecl(F->getLoopVariable());
      VO.erase("init");
      if (const auto *DD = dyn_cast<DecompositionDecl>(F->getLoopVariable())) {
        Array B;
        for (const auto *BD : DD->bindings()) {
          Object BO;
          BO["id"] = varId(BD);
          BO["name"] = BD->getNameAsString();
          if (BD->getBinding()) BO["e"] = expr(BD->getBinding());
          B.push_back(std::move(BO));
        }
        VO["bindings"] = std::move(B);
      }
      O["v"] = std::move(VO);
      O["a"] = opt(F->getBody());
      return O;
    }
    case Stmt::SwitchStmtClass: {
      const auto *W = cast<SwitchStmt>(S);
      Object O = node("switch", S);
      if (W->getInit()) O["init"] = stmt(W->getInit());
      if (W->getConditionVariable()) O["cv"] = varDecl(W->getConditionVariable());
      O["c"] = expr(W->getCond());
      O["ct"] = ty(W->getCond()->IgnoreParenImpCasts()->getType());
      O["a"] = opt(W->getBody());
      return O;
    }
    case Stmt::CaseStmtClass: {
      const auto *C = cast<CaseStmt>(S);
      Object O = node("case", S);
      O["v"] = expr(C->getLHS());
      O["a"] = opt(C->getSubStmt());
      return O;
    }
    case Stmt::DefaultStmtClass: {
      Object O = node("default", S);
      O["a"] = opt(cast<DefaultStmt>(S)->getSubStmt());
      return O;
    }
    case Stmt::BreakStmtClass: return node("break", S);
    case Stmt::ContinueStmtClass: return node("continue", S);
    case Stmt::NullStmtClass: return node("null", S);
    case Stmt::ReturnStmtClass: {
      Object O = node("return", S);
      const auto *R = cast<ReturnStmt>(S);
      O["e"] = R->getRetValue() ? Value(expr(R->getRetValue())) : Value(nullptr);
      return O;
    }
    case Stmt::CXXTryStmtClass: {
      const auto *T = cast<CXXTryStmt>(S);
      Object O = node("try", S);
      O["a"] = stmt(T->getTryBlock());
      Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        const auto *H = T->getHandler(i);
        Object HO;
        HO["l"] = line(H->getBeginLoc());
        if (H->getExceptionDecl()) HO["v"] = varDecl(H->getExceptionDecl());
        HO["a"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      return O;
    }
    case Stmt::LabelStmtClass: {
      Object O = node("label", S);
      O["a"] = stmt(cast<LabelStmt>(S)->getSubStmt());
      return O;
    }
    case Stmt::AttributedStmtClass:
      return stmt(cast<AttributedStmt>(S)->getSubStmt());
    case Stmt::GotoStmtClass: return node("goto", S);
    default: {
      Object O = node("opaque_stmt", S);
      O["cls"] = S->getStmtClassName();
      return O;
    }
    }
  }

  void addConst(Object &O, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull()) return;
    if (!(T->isIntegralOrEnumerationType() || T->isRealFloatingType())) return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return;
    if (R.Val.isInt()) {
      llvm::SmallString<32> S;
      R.Val.getInt().toString(S, 10);
      if (R.Val.getInt().getSignificantBits() <= 63)
        O["cv"] = R.Val.getInt().getExtValue();
      else
        O["cvs"] = S.str().str();
    } else if (R.Val.isFloat()) {
      llvm::APFloat F = R.Val.getFloat();
      bool L;
      F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &L);
      double D = F.convertToDouble();
      if (std::isfinite(D)) O["cv"] = D;
      else O["cvs"] = "inf";
    }
  }

  Value expr(const Expr *E) {
    if (!E) return nullptr;
    // wrappers
    while (true) {
      if (const auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (const auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (const auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (const auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (const auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
        case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_PointerToBoolean: case CK_NullToPointer:
          break;
        default:
          E = P->getSubExpr();
          continue;
        }
      }
      break;
    }
    Object O;
    O["l"] = line(E->getExprLoc().isValid() ? E->getExprLoc() : E->getBeginLoc());
    O["t"] = ty(E->getType());
    switch (E->getStmtClass()) {
    case Stmt::IntegerLiteralClass: {
      O["k"] = "lit";
      addConst(O, E);
      return O;
    }
    case Stmt::FloatingLiteralClass:
    case Stmt::CharacterLiteralClass:
    case Stmt::CXXBoolLiteralExprClass:
      O["k"] = "lit";
      addConst(O, E);
      return O;
    case Stmt::StringLiteralClass: {
      O["k"] = "str";
      const auto *L = cast<StringLiteral>(E);
      if (L->getCharByteWidth() == 1) {
        std::string B = L->getBytes().str();
        if (llvm::json::isUTF8(B)) O["v"] = B; else O["v"] = llvm::json::fixUTF8(B);
      }
      return O;
    }
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass:
      O["k"] = "null";
      return O;
    case Stmt::CXXThisExprClass:
      O["k"] = "this";
      return O;
    case Stmt::DeclRefExprClass: {
      const auto *D = cast<DeclRefExpr>(E)->getDecl();
      if (const auto *F = dyn_cast<FunctionDecl>(D)) {
        O["k"] = "fnref";
        O["fn"] = fnId(F);
        O["name"] = qn(F);
        return O;
      }
      O["k"] = "var";
      O["name"] = D->getNameAsString();
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["sc"] = "enum";
        O["qn"] = qn(EC);
        addConst(O, E);
        return O;
      }
      O["id"] = varId(D);
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        if (isa<ParmVarDecl>(V)) O["sc"] = "param";
        else if (V->isStaticLocal()) { O["sc"] = "slocal"; O["qn"] = qn(V); }
        else if (V->hasGlobalStorage()) { O["sc"] = "global"; O["qn"] = qn(V); }
        else O["sc"] = "local";
        if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
        if (V->getType().isConstQualified()) { addConst(O, E); O["cst"] = true; }
        if (V->getType()->isReferenceType()) O["rv"] = true;
      } else {
        O["sc"] = "binding";
      }
      return O;
    }
    case Stmt::MemberExprClass: {
      const auto *M = cast<MemberExpr>(E);
      const ValueDecl *D = M->getMemberDecl();
      if (const auto *F = dyn_cast<FieldDecl>(D)) {
        O["k"] = "mem";
        O["f"] = F->getNameAsString();
        O["fid"] = fieldId(F);
        O["b"] = expr(M->getBase());
        if (M->isArrow()) O["arrow"] = true;
        if (F->getType().isConstQualified()) O["cst"] = true;
        if (F->getType()->isReferenceType()) O["rf"] = true;
        return O;
      }
      if (const auto *V = dyn_cast<VarDecl>(D)) {
        O["k"] = "var";
        O["name"] = V->getNameAsString();
        O["qn"] = qn(V);
        O["id"] = varId(V);
        O["sc"] = "global";
        if (V->getType().isConstQualified()) { addConst(O, E); O["cst"] = true; }
        return O;
      }
      if (const auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "var"; O["sc"] = "enum"; O["qn"] = qn(EC); O["name"] = EC->getNameAsString();
        addConst(O, E);
        return O;
      }
      O["k"] = "opaque";
      O["cls"] = "MemberExpr";
      O["a"] = Array{expr(M->getBase())};
      return O;
    }
    case Stmt::CXXMemberCallExprClass:
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      const auto *C = cast<CallExpr>(E);
      O["k"] = "call";
      const FunctionDecl *F = C->getDirectCallee();
      unsigned first = 0;
      if (F) {
        O["fn"] = fnId(F);
        O["name"] = qn(F);
        O["sn"] = F->getNameAsString();
        O["rt"] = ty(F->getReturnType());
        if (F->getReturnType()->isReferenceType()) {
          O["rref"] = true;
          O["rcst"] = F->getReturnType()->getPointeeType().isConstQualified();
        }
        bool NE = false;
        if (const auto *FPT = F->getType()->getAs<FunctionProtoType>()) {
          ExceptionSpecificationType EST = FPT->getExceptionSpecType();
          if (!isUnresolvedExceptionSpec(EST)) NE = FPT->isNothrow();
        }
        if (NE || F->hasAttr<NoThrowAttr>()) O["ne"] = true;
        if (F->isNoReturn() || F->hasAttr<NoReturnAttr>()) O["noret"] = true;
        if (F->getBuiltinID()) O["builtin"] = true;
        // parameter passing
        Array PA;
        for (const auto *P : F->parameters()) {
          Object PO;
          typeInfo(PO, P->getType());
          PA.push_back(std::move(PO));
        }
        O["pp"] = std::move(PA);
        if (const auto *TA = F->getTemplateSpecializationArgs()) {
          std::string S;
          llvm::raw_string_ostream OS(S);
          for (unsigned i = 0; i < TA->size(); ++i) { if (i) OS << ","; TA->get(i).print(PP, OS, true); }
          O["ta"] = OS.str();
        }
        if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
          O["cls"] = clsName(M->getParent());
          if (M->isConst()) O["mc"] = true;
          if (M->isStatic()) O["mstatic"] = true;
          if (M->isVirtual()) O["virt"] = true;
          if (M->getParent()->isLambda()) O["lam"] = true;
        }
      } else {
        O["callee"] = expr(C->getCallee());
      }
      if (const auto *OC = dyn_cast<CXXOperatorCallExpr>(C)) {
        O["op"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && C->getNumArgs() > 0) {
          O["obj"] = expr(C->getArg(0));
          first = 1;
        }
      } else if (const auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
        if (const Expr *Ob = MC->getImplicitObjectArgument()) {
          O["obj"] = expr(Ob);
          if (Ob->getType()->isPointerType()) O["arrow"] = true;
        }
      }
      Array A;
      for (unsigned i = first; i < C->getNumArgs(); ++i) A.push_back(expr(C->getArg(i)));
      O["a"] = std::move(A);
      addConst(O, E);
      return O;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      const auto *C = cast<CXXConstructExpr>(E);
      const CXXConstructorDecl *D = C->getConstructor();
      O["k"] = "ctor";
      O["cls"] = clsName(D->getParent());
      O["fn"] = fnId(D);
      if (D->isCopyConstructor()) O["copy"] = true;
      if (D->isMoveConstructor()) O["move"] = true;
      if (D->isDefaultConstructor()) O["dflt"] = true;
      if (D->isImplicit()) O["impl"] = true;
      if (D->isTrivial()) O["triv"] = true;
      if (C->isElidable()) O["elid"] = true;
      if (C->isListInitialization()) O["list"] = true;
      if (C->requiresZeroInitialization()) O["zero"] = true;
      Array PA;
      for (const auto *P : D->parameters()) {
        Object PO;
        typeInfo(PO, P->getType());
        PA.push_back(std::move(PO));
      }
      O["pp"] = std::move(PA);
      Array A;
      for (const Expr *X : C->arguments()) A.push_back(expr(X));
      O["a"] = std::move(A);
      return O;
    }
    case Stmt::CXXInheritedCtorInitExprClass:
      O["k"] = "opaque";
      O["cls"] = "InheritedCtor";
      O["a"] = Array{};
      return O;
    case Stmt::UnaryOperatorClass: {
      const auto *U = cast<UnaryOperator>(E);
      O["k"] = "un";
      O["op"] = (U->isPostfix() ? std::string("post") : std::string("")) +
                UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      // pointer to member / field
      O["a"] = Array{expr(U->getSubExpr())};
      addConst(O, E);
      return O;
    }
    case Stmt::BinaryOperatorClass: {
      const auto *B = cast<BinaryOperator>(E);
      O["k"] = B->isAssignmentOp() ? "asg" : "bin";
      O["op"] = B->getOpcodeStr().str();
      O["a"] = Array{expr(B->getLHS()), expr(B->getRHS())};
      addConst(O, E);
      return O;
    }
    case Stmt::CompoundAssignOperatorClass: {
      const auto *B = cast<BinaryOperator>(E);
      O["k"] = "asg";
      O["op"] = B->getOpcodeStr().str();
      O["a"] = Array{expr(B->getLHS()), expr(B->getRHS())};
      return O;
    }
    case Stmt::ConditionalOperatorClass: {
      const auto *C = cast<ConditionalOperator>(E);
      O["k"] = "cond";
      O["a"] = Array{expr(C->getCond()), expr(C->getTrueExpr()), expr(C->getFalseExpr())};
      addConst(O, E);
      return O;
    }
    case Stmt::ArraySubscriptExprClass: {
      const auto *S = cast<ArraySubscriptExpr>(E);
      O["k"] = "idx";
      O["a"] = Array{expr(S->getBase()), expr(S->getIdx())};
      QualType BT = S->getBase()->IgnoreParenImpCasts()->getType();
      O["at"] = ty(BT);
      return O;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      const auto *C = cast<CastExpr>(E);
      if (C->getCastKind() == CK_ConstructorConversion || C->getCastKind() == CK_UserDefinedConversion)
        return expr(C->getSubExpr());
      O["k"] = "cast";
      O["ck"] = C->getCastKindName();
      if (!isa<ImplicitCastExpr>(C)) O["ex"] = true;
      O["a"] = Array{expr(C->getSubExpr())};
      addConst(O, E);
      return O;
    }
    case Stmt::LambdaExprClass: {
      const auto *L = cast<LambdaExpr>(E);
      O["k"] = "lambda";
      O["fn"] = fnId(L->getCallOperator());
      Array CA;
      auto CI = L->capture_init_begin();
      for (const auto &C : L->captures()) {
        Object CO;
        if (C.capturesThis()) CO["this"] = true;
        else if (C.capturesVariable()) {
          CO["id"] = varId(C.getCapturedVar());
          CO["name"] = C.getCapturedVar()->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (cast<VarDecl>(C.getCapturedVar())->isInitCapture() && *CI) {
            CO["init"] = expr(*CI);
          }
        }
        ++CI;
        CA.push_back(std::move(CO));
      }
      O["cap"] = std::move(CA);
      Object FO;
      const CXXMethodDecl *M = L->getCallOperator();
      if (!M->isDependentContext() && !L->isGenericLambda()) {
        fillFunction(FO, M);
        O["def"] = std::move(FO);
      }
      return O;
    }
    case Stmt::CXXNewExprClass: {
      const auto *N = cast<CXXNewExpr>(E);
      O["k"] = "new";
      O["at"] = ty(N->getAllocatedType());
      if (N->isArray()) {
        O["arr"] = true;
        if (N->getArraySize() && *N->getArraySize()) O["size"] = expr(*N->getArraySize());
      }
      if (N->getInitializer()) O["init"] = expr(N->getInitializer());
      else if (N->getConstructExpr()) O["init"] = expr(N->getConstructExpr());
      return O;
    }
    case Stmt::CXXDeleteExprClass: {
      const auto *D = cast<CXXDeleteExpr>(E);
      O["k"] = "del";
      if (D->isArrayForm()) O["arr"] = true;
      O["a"] = Array{expr(D->getArgument())};
      return O;
    }
    case Stmt::InitListExprClass: {
      const auto *I = cast<InitListExpr>(E);
      if (I->getSemanticForm()) I = I->getSemanticForm();
      O["k"] = "ilist";
      Array A;
      for (const Expr *X : I->inits()) A.push_back(expr(X));
      O["a"] = std::move(A);
      if (I->hasArrayFiller()) O["filler"] = true;
      if (E->getType()->isRecordType()) {
        Array FN;
        if (const auto *R = E->getType()->getAsCXXRecordDecl())
          for (const auto *F : R->fields()) FN.push_back(F->getNameAsString());
        O["fields"] = std::move(FN);
      }
      return O;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass:
      O["k"] = "lit";
      addConst(O, E);
      return O;
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass:
      O["k"] = "zero";
      return O;
    case Stmt::CXXThrowExprClass: {
      const auto *T = cast<CXXThrowExpr>(E);
      O["k"] = "throw";
      Array A;
      if (T->getSubExpr()) A.push_back(expr(T->getSubExpr()));
      O["a"] = std::move(A);
      return O;
    }
    case Stmt::PredefinedExprClass:
      O["k"] = "str";
      O["v"] = "__func__";
      return O;
    default: {
      O["k"] = "opaque";
      O["cls"] = E->getStmtClassName();
      Array A;
      for (const Stmt *C : E->children())
        if (C)
          if (const auto *CE = dyn_cast<Expr>(C)) A.push_back(expr(CE));
      O["a"] = std::move(A);
      addConst(O, E);
      return O;
    }
    }
  }

  void fillFunction(Object &O, const FunctionDecl *F) {
    O["id"] = fnId(F);
    O["name"] = qn(F);
    O["sn"] = F->getNameAsString();
    O["file"] = relFile(F->getBeginLoc());
    O["l"] = line(F->getBeginLoc());
    O["nl"] = line(F->getLocation());
    O["el"] = line(F->getEndLoc());
    O["ret"] = ty(F->getReturnType());
    {
      Object RI;
      typeInfo(RI, F->getReturnType());
      O["ri"] = std::move(RI);
    }
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->getStorageClass() == SC_Static) O["internal"] = true;
    bool NE = false;
    if (const auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(FPT->getExceptionSpecType())) NE = FPT->isNothrow();
    if (NE) O["ne"] = true;
    const char *K = "func";
    if (const auto *M = dyn_cast<CXXMethodDecl>(F)) {
      K = "method";
      O["cls"] = clsName(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (M->isCopyAssignmentOperator()) O["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) O["moveasg"] = true;
      O["acc"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_private ? "private" : "protected");
    }
    if (const auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      K = "ctor";
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["move"] = true;
      if (C->isDefaultConstructor()) O["dflt"] = true;
      Array IA;
      for (const auto *I : C->inits()) {
        Object IO;
        if (I->isAnyMemberInitializer()) IO["field"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["written"] = I->isWritten();
        IO["inclass"] = I->isInClassMemberInitializer();
        IO["e"] = expr(I->getInit());
        IA.push_back(std::move(IO));
      }
      O["inits"] = std::move(IA);
    }
    if (isa<CXXDestructorDecl>(F)) K = "dtor";
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    O["kind"] = K;
    Array PA;
    for (const auto *P : F->parameters()) {
      Object PO;
      PO["id"] = varId(P);
      PO["name"] = P->getNameAsString();
      PO["t"] = ty(P->getType());
      typeInfo(PO, P->getType());
      PA.push_back(std::move(PO));
    }
    O["params"] = std::move(PA);
    if (F->getBody()) O["body"] = stmt(F->getBody());
  }

  Object record(const CXXRecordDecl *R) {
    Object O;
    O["name"] = clsName(R);
    O["sn"] = R->getNameAsString();
    O["file"] = relFile(R->getBeginLoc());
    O["l"] = line(R->getBeginLoc());
    if (R->isLambda()) O["lambda"] = true;
    Array BA;
    for (const auto &B : R->bases()) BA.push_back(ty(B.getType()));
    O["bases"] = std::move(BA);
    Array FA;
    for (const auto *F : R->fields()) {
      Object FO;
      FO["name"] = F->getNameAsString();
      FO["t"] = ty(F->getType());
      typeInfo(FO, F->getType());
      if (F->isMutable()) FO["mutable"] = true;
      if (F->hasInClassInitializer()) {
        FO["hasinit"] = true;
        if (F->getInClassInitializer()) FO["init"] = expr(F->getInClassInitializer());
      }
      FO["l"] = line(F->getLocation());
      if (F->getType()->isScalarType()) FO["scalar"] = true;
      FO["acc"] = F->getAccess() == AS_public ? "public" : "private";
      FA.push_back(std::move(FO));
    }
    O["fields"] = std::move(FA);
    Array MA;
    for (const auto *M : R->methods()) {
      Object MO;
      MO["id"] = fnId(M);
      MO["sn"] = M->getNameAsString();
      MO["acc"] = M->getAccess() == AS_public ? "public" : (M->getAccess() == AS_private ? "private" : "protected");
      if (M->isImplicit()) MO["implicit"] = true;
      if (M->isDeleted()) MO["deleted"] = true;
      if (M->isDefaulted()) MO["defaulted"] = true;
      if (M->isCopyAssignmentOperator()) MO["copyasg"] = true;
      if (M->isMoveAssignmentOperator()) MO["moveasg"] = true;
      if (isa<CXXDestructorDecl>(M)) MO["dtor"] = true;
      if (const auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        MO["ctor"] = true;
        if (C->isCopyConstructor()) MO["copy"] = true;
        if (C->isMoveConstructor()) MO["move"] = true;
        if (C->isDefaultConstructor()) MO["dflt"] = true;
      }
      MA.push_back(std::move(MO));
    }
    O["methods"] = std::move(MA);
    return O;
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
  Dumper &D;
  Array Fns, Recs, Globs, Enums;
  std::set<std::string> SeenF, SeenR;
  Visitor(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition()) return true;
    if (F->isDependentContext()) return true;
    if (isa<CXXDeductionGuideDecl>(F)) return true;
    if (!D.inRoot(F->getLocation())) return true;
    if (const auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    std::string Id = D.fnId(F);
    if (!SeenF.insert(Id).second) return true;
    Object O;
    D.fillFunction(O, F);
    Fns.push_back(std::move(O));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!D.inRoot(R->getLocation())) return true;
    if (R->isLambda()) return true;
    std::string N = D.clsName(R);
    if (!SeenR.insert(N).second) return true;
    Recs.push_back(D.record(R));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return true;
    if (!D.inRoot(V->getLocation())) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    Object O = D.varDecl(V);
    O["qn"] = D.qn(V);
    O["file"] = D.relFile(V->getLocation());
    if (V->getTSCSpec() != TSCS_unspecified) O["tls"] = true;
    O["constinit_type"] = V->getType().isConstQualified();
    Globs.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!D.inRoot(E->getLocation()) || !E->isComplete() || E->isDependentContext()) return true;
    Object O;
    O["name"] = D.ty(QualType(E->getTypeForDecl(), 0));
    Array A;
    for (const auto *C : E->enumerators()) {
      Object CO;
      CO["name"] = C->getNameAsString();
      CO["v"] = C->getInitVal().getExtValue();
      A.push_back(std::move(CO));
    }
    O["c"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    Visitor V(D);
    V.TraverseDecl(Ctx.getTranslationUnitDecl());
    Object Top;
    Top["functions"] = std::move(V.Fns);
    Top["records"] = std::move(V.Recs);
    Top["globals"] = std::move(V.Globs);
    Top["enums"] = std::move(V.Enums);
    Top["errors"] = (int)Ctx.getDiagnostics().getClient()->getNumErrors();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OS << Value(std::move(Top));
  }
};

class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, char **argv) {
  // dtgx ROOT OUT SRC -- flags...
  if (argc < 5) return 2;
  Root = argv[1];
  OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> Args = {"clang++"};
  for (int i = 5; i < argc; ++i) Args.push_back(argv[i]);
  Args.push_back("-fsyntax-only");
  Args.push_back("-w");
  Args.push_back(Src);
  IntrusiveRefCntPtr<FileManager> FM(new FileManager(FileSystemOptions()));
  tooling::ToolInvocation Inv(Args, std::make_unique<Action>(), FM.get());
  return Inv.run() ? 0 : 1;
}
