// hlextract: exports the type-checked program (all function definitions of the analysed
// repository, template instantiations and lambdas included) of one translation unit as JSON.
// It decides nothing: the rules in /verif/hlsa consume this.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string Root, OutPath, Main;
static bool Failed = false;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  std::map<const Decl *, int> Ids;
  std::map<std::string, int> TypeIds;
  std::map<std::string, int> FileIds;
  std::vector<std::string> Files;
  json::Array Types;
  std::set<const FunctionDecl *> Done;
  std::set<const CXXRecordDecl *> DoneRec;
  std::set<const VarDecl *> DoneVar;

public:
  json::Array Functions, Records, Globals;

  explicit Exporter(ASTContext &C)
      : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NG(C) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  json::Array takeTypes() { return std::move(Types); }
  json::Array files() {
    json::Array A;
    for (auto &f : Files) A.push_back(f);
    return A;
  }

  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    StringRef F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  json::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return nullptr;
    std::string F = SM.getFilename(L).str();
    auto it = FileIds.find(F);
    int n;
    if (it == FileIds.end()) {
      n = Files.size();
      FileIds[F] = n;
      Files.push_back(F);
    } else
      n = it->second;
    return json::Array{n, (int)SM.getSpellingLineNumber(L)};
  }
  std::string qname(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    D->printQualifiedName(OS, PP);
    return OS.str();
  }
  // class name with template arguments
  std::string recName(const CXXRecordDecl *R) {
    QualType T = Ctx.getRecordType(R);
    return T.getCanonicalType().getAsString(PP);
  }
  std::string fkey(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string M;
    if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F)) {
      auto V = NG.getAllManglings(F);
      M = V.empty() ? NG.getName(F) : V[0];
    } else
      M = NG.getName(F);
    if (M.empty()) M = qname(F);
    if (F->getFormalLinkage() == Linkage::Internal ||
        F->getFormalLinkage() == Linkage::UniqueExternal || F->isInAnonymousNamespace() ||
        F->getStorageClass() == SC_Static) {
      const FunctionDecl *Def = F;
      F->isDefined(Def);
      if (!(isa<CXXMethodDecl>(F)) || F->isInAnonymousNamespace())
        M += "@" + SM.getFilename(SM.getExpansionLoc((Def ? Def : F)->getLocation())).str();
    }
    return M;
  }
  int type(QualType T) {
    QualType C = T.getCanonicalType();
    std::string S = C.getAsString(PP);
    auto it = TypeIds.find(S);
    if (it != TypeIds.end()) return it->second;
    int n = Types.size();
    TypeIds[S] = n;
    Types.push_back(nullptr);
    json::Object O{{"s", S}};
    if (C.isConstQualified()) O["const"] = true;
    QualType U = C.getUnqualifiedType();
    if (U->isDependentType()) {
      O["k"] = "dep";
    } else if (U->isReferenceType()) {
      O["k"] = U->isRValueReferenceType() ? "rref" : "ref";
      O["to"] = type(U->getPointeeType());
    } else if (U->isPointerType()) {
      O["k"] = "ptr";
      O["to"] = type(U->getPointeeType());
    } else if (U->isBooleanType()) {
      O["k"] = "bool";
    } else if (U->isIntegralOrEnumerationType()) {
      O["k"] = "int";
      if (!U->isIncompleteType()) {
        O["bits"] = (int)Ctx.getTypeSize(U);
        O["signed"] = U->isSignedIntegerOrEnumerationType();
      }
    } else if (U->isFloatingType()) {
      O["k"] = "float";
      O["bits"] = (int)Ctx.getTypeSize(U);
    } else if (U->isVoidType()) {
      O["k"] = "void";
    } else if (U->isArrayType()) {
      O["k"] = "arr";
      O["to"] = type(Ctx.getAsArrayType(U)->getElementType());
      if (auto *CA = Ctx.getAsConstantArrayType(U)) O["n"] = (int64_t)CA->getSize().getZExtValue();
    } else if (auto *R = U->getAsCXXRecordDecl()) {
      O["k"] = "rec";
      O["q"] = qname(R);
      O["r"] = recName(R);
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        json::Array A;
        for (auto &Arg : S->getTemplateArgs().asArray()) {
          if (Arg.getKind() == TemplateArgument::Type) A.push_back(type(Arg.getAsType()));
          else if (Arg.getKind() == TemplateArgument::Integral) A.push_back("" + llvm::toString(Arg.getAsIntegral(), 10));
          else A.push_back(nullptr);
        }
        O["args"] = std::move(A);
      }
    } else
      O["k"] = "other";
    Types[n] = std::move(O);
    return n;
  }

  // ---- declarations -----------------------------------------------------
  json::Object varDecl(const VarDecl *V) {
    json::Object O{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", type(V->getType())},
                   {"l", loc(V->getLocation())}};
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->getInit()) {
      O["init"] = expr(V->getInit());
      if (V->hasConstantInitialization()) O["cinit"] = true;
    }
    if (V->isConstexpr()) O["constexpr"] = true;
    return O;
  }

  json::Value stmtOrNull(const Stmt *S) {
    if (!S) return nullptr;
    return stmt(S);
  }
  json::Value exprOrNull(const Expr *E) {
    if (!E) return nullptr;
    return expr(E);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      return json::Object{{"k", "Expr"}, {"e", expr(E)}, {"l", loc(S->getBeginLoc())}};
    }
    json::Object O{{"l", loc(S->getBeginLoc())}};
    switch (S->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      O["k"] = "Block";
      json::Array A;
      for (auto *C : cast<CompoundStmt>(S)->body()) A.push_back(stmt(C));
      O["b"] = std::move(A);
      O["le"] = loc(S->getEndLoc());
      break;
    }
    case Stmt::DeclStmtClass: {
      O["k"] = "Decl";
      json::Array A;
      for (auto *D : cast<DeclStmt>(S)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object vo = varDecl(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (auto *BD : DD->bindings()) {
              json::Object bo{{"id", id(BD)}, {"n", BD->getNameAsString()}, {"t", type(BD->getType())}};
              if (BD->getBinding()) bo["e"] = expr(BD->getBinding());
              if (auto *HV = BD->getHoldingVar()) { bo["hv"] = varDecl(HV); }
              B.push_back(std::move(bo));
            }
            vo["bindings"] = std::move(B);
          }
          A.push_back(std::move(vo));
        }
      }
      O["d"] = std::move(A);
      break;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(S);
      O["k"] = "If";
      if (I->getInit()) O["init"] = stmt(I->getInit());
      if (I->getConditionVariableDeclStmt()) O["cv"] = stmt(I->getConditionVariableDeclStmt());
      O["c"] = expr(I->getCond());
      O["then"] = stmtOrNull(I->getThen());
      O["else"] = stmtOrNull(I->getElse());
      if (I->isConstexpr()) O["constexpr"] = true;
      break;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(S);
      O["k"] = "For";
      O["init"] = stmtOrNull(F->getInit());
      if (F->getConditionVariableDeclStmt()) O["cv"] = stmt(F->getConditionVariableDeclStmt());
      O["c"] = exprOrNull(F->getCond());
      O["inc"] = exprOrNull(F->getInc());
      O["body"] = stmtOrNull(F->getBody());
      break;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(S);
      O["k"] = "While";
      if (W->getConditionVariableDeclStmt()) O["cv"] = stmt(W->getConditionVariableDeclStmt());
      O["c"] = expr(W->getCond());
      O["body"] = stmtOrNull(W->getBody());
      break;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(S);
      O["k"] = "Do";
      O["c"] = expr(W->getCond());
      O["body"] = stmtOrNull(W->getBody());
      break;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *R = cast<CXXForRangeStmt>(S);
      O["k"] = "RangeFor";
      if (R->getInit()) O["init"] = stmt(R->getInit());
      O["range"] = exprOrNull(R->getRangeInit());
      json::Object vo = varDecl(R->getLoopVariable());
      vo.erase("init");
      if (auto *DD = dyn_cast<DecompositionDecl>(R->getLoopVariable())) {
        json::Array B;
        for (auto *BD : DD->bindings()) {
          json::Object bo{{"id", id(BD)}, {"n", BD->getNameAsString()}, {"t", type(BD->getType())}};
          if (BD->getBinding()) bo["e"] = expr(BD->getBinding());
          if (auto *HV = BD->getHoldingVar()) { bo["hv"] = varDecl(HV); }
          B.push_back(std::move(bo));
        }
        vo["bindings"] = std::move(B);
      }
      O["var"] = std::move(vo);
      if (R->getLoopVariable()->getInit()) O["vinit"] = expr(R->getLoopVariable()->getInit());
      O["body"] = stmtOrNull(R->getBody());
      break;
    }
    case Stmt::ReturnStmtClass:
      O["k"] = "Return";
      O["e"] = exprOrNull(cast<ReturnStmt>(S)->getRetValue());
      break;
    case Stmt::BreakStmtClass: O["k"] = "Break"; break;
    case Stmt::ContinueStmtClass: O["k"] = "Continue"; break;
    case Stmt::NullStmtClass: O["k"] = "Null"; break;
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(S);
      O["k"] = "Switch";
      if (W->getInit()) O["init"] = stmt(W->getInit());
      O["c"] = expr(W->getCond());
      O["body"] = stmtOrNull(W->getBody());
      break;
    }
    case Stmt::CaseStmtClass: {
      auto *C = cast<CaseStmt>(S);
      O["k"] = "Case";
      O["v"] = expr(C->getLHS());
      O["body"] = stmtOrNull(C->getSubStmt());
      break;
    }
    case Stmt::DefaultStmtClass:
      O["k"] = "Default";
      O["body"] = stmtOrNull(cast<DefaultStmt>(S)->getSubStmt());
      break;
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(S);
      O["k"] = "Try";
      O["body"] = stmt(T->getTryBlock());
      json::Array A;
      for (unsigned i = 0; i < T->getNumHandlers(); ++i) {
        auto *H = T->getHandler(i);
        json::Object HO{{"l", loc(H->getBeginLoc())}};
        if (H->getExceptionDecl()) {
          HO["var"] = varDecl(H->getExceptionDecl());
          HO["t"] = type(H->getCaughtType());
        }
        HO["body"] = stmt(H->getHandlerBlock());
        A.push_back(std::move(HO));
      }
      O["h"] = std::move(A);
      break;
    }
    case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(S)->getSubStmt());
    default:
      O["k"] = "UnknownStmt";
      O["cls"] = S->getStmtClassName();
    }
    return O;
  }

  void constVal(const Expr *E, json::Object &O) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (!T->isArithmeticType() && !T->isEnumeralType()) return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, Ctx) || R.HasSideEffects) return;
    if (R.Val.isInt()) {
      llvm::SmallString<40> S;
      R.Val.getInt().toString(S, 10);
      O["cv"] = S.str().str();
    } else if (R.Val.isFloat()) {
      llvm::SmallString<40> S;
      R.Val.getFloat().toString(S, 25, 0);
      O["cf"] = S.str().str();
    }
  }

  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> R) {
    json::Array A;
    for (auto *E : R) A.push_back(expr(E));
    return A;
  }
  void callee(const FunctionDecl *F, json::Object &O) {
    O["q"] = qname(F);
    O["f"] = fkey(F);
    O["name"] = F->getNameAsString();
    if (inRepo(F->getLocation())) O["repo"] = true;
    json::Array P;
    for (auto *D : F->parameters()) P.push_back(type(D->getType()));
    O["pt"] = std::move(P);
    if (F->isNoReturn()) O["noret"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (FPT->isNothrow()) O["nothrow"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = qname(M->getParent());
      if (M->isConst()) O["cm"] = true;
      if (M->isStatic()) O["sm"] = true;
      if (M->isVirtual()) O["virt"] = true;
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &Arg : TA->asArray()) {
        if (Arg.getKind() == TemplateArgument::Type) A.push_back(type(Arg.getAsType()));
        else if (Arg.getKind() == TemplateArgument::Integral) A.push_back(llvm::toString(Arg.getAsIntegral(), 10));
        else A.push_back(nullptr);
      }
      O["ta"] = std::move(A);
    }
  }

  json::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<FullExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else if (auto *P = dyn_cast<OpaqueValueExpr>(E)) { if (!P->getSourceExpr()) break; E = P->getSourceExpr(); }
      else break;
    }
    json::Object O{{"t", type(E->getType())}, {"l", loc(E->getExprLoc())}};
    if (E->isGLValue()) O["lv"] = E->isLValue() ? 1 : 2;
    switch (E->getStmtClass()) {
    case Stmt::MaterializeTemporaryExprClass: {
      auto *M = cast<MaterializeTemporaryExpr>(E);
      O["k"] = "Temp";
      O["e"] = expr(M->getSubExpr());
      if (M->getExtendingDecl()) O["ext"] = id(M->getExtendingDecl());
      break;
    }
    case Stmt::IntegerLiteralClass: {
      O["k"] = "Int";
      llvm::SmallString<40> S;
      auto *L = cast<IntegerLiteral>(E);
      L->getValue().toString(S, 10, L->getType()->isSignedIntegerType());
      O["v"] = S.str().str();
      break;
    }
    case Stmt::CharacterLiteralClass:
      O["k"] = "Int";
      O["v"] = std::to_string(cast<CharacterLiteral>(E)->getValue());
      break;
    case Stmt::FloatingLiteralClass: {
      O["k"] = "Float";
      llvm::SmallString<40> S;
      cast<FloatingLiteral>(E)->getValue().toString(S, 25, 0);
      O["v"] = S.str().str();
      break;
    }
    case Stmt::CXXBoolLiteralExprClass:
      O["k"] = "Bool";
      O["v"] = cast<CXXBoolLiteralExpr>(E)->getValue();
      break;
    case Stmt::StringLiteralClass:
      O["k"] = "Str";
      if (cast<StringLiteral>(E)->getCharByteWidth() == 1) {
        std::string S = cast<StringLiteral>(E)->getString().str();
        O["v"] = llvm::json::isUTF8(S) ? S : llvm::json::fixUTF8(S);
      }
      break;
    case Stmt::PredefinedExprClass: O["k"] = "Str"; O["v"] = "__func__"; break;
    case Stmt::CXXNullPtrLiteralExprClass:
    case Stmt::GNUNullExprClass: O["k"] = "Null"; break;
    case Stmt::CXXThisExprClass: O["k"] = "This"; break;
    case Stmt::DeclRefExprClass: {
      auto *D = cast<DeclRefExpr>(E)->getDecl();
      O["k"] = "Ref";
      O["id"] = id(D);
      O["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (auto *P = dyn_cast<ParmVarDecl>(V)) { O["dk"] = "param"; (void)P; }
        else if (V->isStaticLocal()) O["dk"] = "static";
        else if (V->hasGlobalStorage()) { O["dk"] = "global"; O["q"] = qname(V); }
        else O["dk"] = "local";
        if (V->hasGlobalStorage()) noteGlobal(V);
        constVal(E, O);
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) {
        O["dk"] = "func";
        callee(F, O);
      } else if (isa<EnumConstantDecl>(D)) {
        O["dk"] = "enum";
        constVal(E, O);
      } else if (isa<BindingDecl>(D)) {
        O["dk"] = "binding";
      } else
        O["dk"] = "other";
      break;
    }
    case Stmt::MemberExprClass: {
      auto *M = cast<MemberExpr>(E);
      auto *D = M->getMemberDecl();
      O["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        O["k"] = "Ref"; O["dk"] = "global"; O["id"] = id(V); O["q"] = qname(V);
        noteGlobal(V);
        constVal(E, O);
      } else {
        O["k"] = "Member";
        O["q"] = qname(D);
        O["arrow"] = M->isArrow();
        O["b"] = expr(M->getBase());
        if (auto *F = dyn_cast<FieldDecl>(D)) {
          O["cls"] = recName(cast<CXXRecordDecl>(F->getParent()));
          if (inRepo(F->getLocation())) O["repo"] = true;
        }
      }
      break;
    }
    case Stmt::ArraySubscriptExprClass:
      O["k"] = "Sub";
      O["b"] = expr(cast<ArraySubscriptExpr>(E)->getBase());
      O["i"] = expr(cast<ArraySubscriptExpr>(E)->getIdx());
      break;
    case Stmt::UnaryOperatorClass: {
      auto *U = cast<UnaryOperator>(E);
      O["k"] = "Un";
      O["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) O["post"] = true;
      O["e"] = expr(U->getSubExpr());
      break;
    }
    case Stmt::BinaryOperatorClass: {
      auto *B = cast<BinaryOperator>(E);
      O["k"] = "Bin";
      O["op"] = B->getOpcodeStr().str();
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      break;
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto *B = cast<CompoundAssignOperator>(E);
      O["k"] = "CAssign";
      O["op"] = B->getOpcodeStr().str();
      O["ct"] = type(B->getComputationLHSType());
      O["a"] = expr(B->getLHS());
      O["b"] = expr(B->getRHS());
      break;
    }
    case Stmt::ConditionalOperatorClass: {
      auto *C = cast<ConditionalOperator>(E);
      O["k"] = "Cond";
      O["c"] = expr(C->getCond());
      O["a"] = expr(C->getTrueExpr());
      O["b"] = expr(C->getFalseExpr());
      break;
    }
    case Stmt::ImplicitCastExprClass:
    case Stmt::CStyleCastExprClass:
    case Stmt::CXXStaticCastExprClass:
    case Stmt::CXXConstCastExprClass:
    case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CXXDynamicCastExprClass: {
      auto *C = cast<CastExpr>(E);
      O["k"] = "Cast";
      O["ck"] = C->getCastKindName();
      if (isa<ExplicitCastExpr>(E)) O["explicit"] = true;
      if (isa<CXXConstCastExpr>(E)) O["constcast"] = true;
      O["e"] = expr(C->getSubExpr());
      break;
    }
    case Stmt::CXXMemberCallExprClass: {
      auto *C = cast<CXXMemberCallExpr>(E);
      auto *F = C->getMethodDecl();
      O["k"] = "MCall";
      if (F) callee(F, O);
      O["obj"] = exprOrNull(C->getImplicitObjectArgument());
      if (auto *ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) O["arrow"] = ME->isArrow();
      O["args"] = args(C->arguments());
      constVal(E, O);
      break;
    }
    case Stmt::CXXOperatorCallExprClass: {
      auto *C = cast<CXXOperatorCallExpr>(E);
      auto *F = C->getDirectCallee();
      O["op"] = getOperatorSpelling(C->getOperator());
      if (F) callee(F, O);
      json::Array A;
      unsigned b = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        O["k"] = "MCall";
        O["obj"] = expr(C->getArg(0));
        b = 1;
      } else
        O["k"] = F ? "Call" : "ICall";
      for (unsigned i = b; i < C->getNumArgs(); ++i) A.push_back(expr(C->getArg(i)));
      O["args"] = std::move(A);
      break;
    }
    case Stmt::CallExprClass:
    case Stmt::UserDefinedLiteralClass: {
      auto *C = cast<CallExpr>(E);
      auto *F = C->getDirectCallee();
      if (F) {
        O["k"] = "Call";
        callee(F, O);
      } else {
        O["k"] = "ICall";
        O["callee"] = expr(C->getCallee());
      }
      O["args"] = args(C->arguments());
      constVal(E, O);
      break;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto *C = cast<CXXConstructExpr>(E);
      auto *F = C->getConstructor();
      O["k"] = "Ctor";
      callee(F, O);
      if (F->isCopyConstructor()) O["copy"] = true;
      if (F->isMoveConstructor()) O["move"] = true;
      if (F->isDefaultConstructor()) O["def"] = true;
      if (C->isElidable()) O["elide"] = true;
      if (C->isListInitialization()) O["list"] = true;
      if (C->isStdInitListInitialization()) O["stdlist"] = true;
      O["args"] = args(C->arguments());
      break;
    }
    case Stmt::CXXNewExprClass: {
      auto *N = cast<CXXNewExpr>(E);
      O["k"] = "New";
      O["at"] = type(N->getAllocatedType());
      if (N->isArray()) {
        O["array"] = true;
        O["size"] = exprOrNull(N->getArraySize().value_or(nullptr));
      }
      if (N->getInitializer()) O["init"] = expr(N->getInitializer());
      break;
    }
    case Stmt::CXXDeleteExprClass: {
      auto *D = cast<CXXDeleteExpr>(E);
      O["k"] = "Delete";
      if (D->isArrayForm()) O["array"] = true;
      O["e"] = expr(D->getArgument());
      break;
    }
    case Stmt::CXXThrowExprClass: {
      auto *T = cast<CXXThrowExpr>(E);
      O["k"] = "Throw";
      if (T->getSubExpr()) {
        O["e"] = expr(T->getSubExpr());
        O["tt"] = type(T->getSubExpr()->getType());
        json::Array B;
        if (auto *R = T->getSubExpr()->getType()->getAsCXXRecordDecl()) bases(R, B);
        O["bases"] = std::move(B);
      }
      break;
    }
    case Stmt::InitListExprClass: {
      auto *I = cast<InitListExpr>(E);
      if (I->isSemanticForm() == false && I->getSemanticForm()) I = I->getSemanticForm();
      O["k"] = "InitList";
      json::Array A;
      if (I->getNumInits() <= 4096)
        for (auto *X : I->inits()) A.push_back(expr(X));
      O["e"] = std::move(A);
      break;
    }
    case Stmt::ImplicitValueInitExprClass:
    case Stmt::CXXScalarValueInitExprClass: O["k"] = "Zero"; break;
    case Stmt::LambdaExprClass: {
      auto *L = cast<LambdaExpr>(E);
      O["k"] = "Lambda";
      json::Array Caps;
      for (auto &C : L->captures()) {
        json::Object CO;
        if (C.capturesThis()) CO["this"] = true;
        else if (C.capturesVariable()) {
          CO["id"] = id(C.getCapturedVar());
          CO["n"] = C.getCapturedVar()->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (L->isInitCapture(&C)) {
            auto *V = cast<VarDecl>(C.getCapturedVar());
            if (V->getInit()) CO["init"] = expr(V->getInit());
          }
        }
        Caps.push_back(std::move(CO));
      }
      O["caps"] = std::move(Caps);
      auto *M = L->getCallOperator();
      O["f"] = fkey(M);
      O["generic"] = L->isGenericLambda();
      O["mutable"] = L->isMutable();
      if (!L->isGenericLambda()) O["fn"] = function(M);
      else {
        json::Array A;
        if (auto *FT = M->getDescribedFunctionTemplate())
          for (auto *Sp : FT->specializations()) A.push_back(function(Sp));
        O["fns"] = std::move(A);
      }
      break;
    }
    case Stmt::UnaryExprOrTypeTraitExprClass: {
      O["k"] = "SizeOf";
      constVal(E, O);
      break;
    }
    case Stmt::TypeTraitExprClass: O["k"] = "Const"; constVal(E, O); break;
    case Stmt::ArrayInitLoopExprClass: O["k"] = "ArrayCopy"; break;
    default:
      O["k"] = "UnknownExpr";
      O["cls"] = E->getStmtClassName();
      { json::Array A;
        for (auto *C : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) A.push_back(expr(CE));
        O["ch"] = std::move(A); }
    }
    return O;
  }

  void bases(const CXXRecordDecl *R, json::Array &A) {
    A.push_back(qname(R));
    if (!R->hasDefinition()) return;
    for (auto &B : R->getDefinition()->bases())
      if (auto *BR = B.getType()->getAsCXXRecordDecl()) bases(BR, A);
  }

  json::Object function(const FunctionDecl *F) {
    json::Object O{{"f", fkey(F)}, {"q", qname(F)}, {"name", F->getNameAsString()},
                   {"l", loc(F->getLocation())}, {"ret", type(F->getReturnType())}};
    json::Array P;
    for (auto *D : F->parameters())
      P.push_back(json::Object{{"id", id(D)}, {"n", D->getNameAsString()}, {"t", type(D->getType())}});
    O["params"] = std::move(P);
    if (F->isTemplateInstantiation()) O["inst"] = true;
    if (F->isVariadic()) O["variadic"] = true;
    if (auto *FPT = F->getType()->getAs<FunctionProtoType>())
      if (FPT->isNothrow()) O["nothrow"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = recName(M->getParent());
      O["clsq"] = qname(M->getParent());
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      if (M->isVirtual()) O["virt"] = true;
      if (isa<CXXDestructorDecl>(M)) O["dtor"] = true;
      if (auto *C = dyn_cast<CXXConstructorDecl>(M)) {
        O["ctor"] = true;
        if (C->isCopyConstructor()) O["copy"] = true;
        if (C->isMoveConstructor()) O["move"] = true;
        json::Array I;
        for (auto *CI : C->inits()) {
          json::Object IO{{"l", loc(CI->getSourceLocation())}, {"e", expr(CI->getInit())}, {"written", CI->isWritten()}};
          if (CI->isAnyMemberInitializer()) {
            IO["field"] = CI->getAnyMember()->getNameAsString();
            IO["q"] = qname(CI->getAnyMember());
            IO["ft"] = type(CI->getAnyMember()->getType());
          } else if (CI->isBaseInitializer()) {
            IO["base"] = type(QualType(CI->getBaseClass(), 0));
          } else if (CI->isDelegatingInitializer()) {
            IO["deleg"] = true;
          }
          I.push_back(std::move(IO));
        }
        O["inits"] = std::move(I);
      }
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array A;
      for (auto &Arg : TA->asArray())
        if (Arg.getKind() == TemplateArgument::Type) A.push_back(type(Arg.getAsType()));
      O["ta"] = std::move(A);
    }
    O["body"] = stmtOrNull(F->getBody());
    return O;
  }

  void noteGlobal(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (const VarDecl *D = V->getDefinition()) V = D;
    if (!DoneVar.insert(V).second) return;
    json::Object O = json::Object{{"id", id(V)}, {"n", V->getNameAsString()}, {"q", qname(V)}, {"t", type(V->getType())},
                                  {"l", loc(V->getLocation())}, {"repo", inRepo(V->getLocation())}};
    if (V->isStaticLocal()) O["static"] = true;
    if (V->getTLSKind() != VarDecl::TLS_None) O["tls"] = true;
    if (V->isConstexpr()) O["constexpr"] = true;
    if (inRepo(V->getLocation()) && V->getInit()) {
      O["cinit"] = V->hasConstantInitialization();
      O["init"] = expr(V->getInit());
    }
    Globals.push_back(std::move(O));
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return true;
    if (F->isDefaulted() || F->isDeleted()) return true;
    if (!inRepo(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    if (!Done.insert(F).second) return true;
    Functions.push_back(function(F));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isInvalidDecl() || V->getType()->isDependentType()) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->hasGlobalStorage() && inRepo(V->getLocation()) && !isa<ParmVarDecl>(V)) noteGlobal(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRepo(R->getLocation())) return true;
    if (!DoneRec.insert(R).second) return true;
    json::Object O{{"r", recName(R)}, {"q", qname(R)}, {"l", loc(R->getLocation())}};
    json::Array F, B, M;
    for (auto *D : R->fields()) {
      json::Object FO{{"n", D->getNameAsString()}, {"t", type(D->getType())}, {"l", loc(D->getLocation())}};
      if (D->isMutable()) FO["mutable"] = true;
      if (D->hasInClassInitializer() && D->getInClassInitializer()) FO["init"] = expr(D->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    for (auto &X : R->bases())
      if (auto *BR = X.getType()->getAsCXXRecordDecl()) B.push_back(recName(BR));
    for (auto *D : R->methods()) {
      json::Object MO{{"n", D->getNameAsString()}, {"f", fkey(D)}, {"l", loc(D->getLocation())}, {"access", (int)D->getAccess()}};
      if (D->isDeleted()) MO["deleted"] = true;
      if (D->isDefaulted()) MO["defaulted"] = true;
      if (D->isImplicit()) MO["implicit"] = true;
      if (D->isVirtual()) MO["virt"] = true;
      if (D->isConst()) MO["const"] = true;
      if (auto *C = dyn_cast<CXXConstructorDecl>(D)) {
        MO["ctor"] = true;
        if (C->isCopyConstructor()) MO["copy"] = true;
        if (C->isMoveConstructor()) MO["move"] = true;
        if (C->isExplicit()) MO["explicit"] = true;
      }
      if (D->isCopyAssignmentOperator()) MO["copyassign"] = true;
      if (D->isMoveAssignmentOperator()) MO["moveassign"] = true;
      if (isa<CXXDestructorDecl>(D)) MO["dtor"] = true;
      M.push_back(std::move(MO));
    }
    O["fields"] = std::move(F);
    O["bases"] = std::move(B);
    O["methods"] = std::move(M);
    // implicit copy/move availability
    {
      bool any = false, ok = false;
      for (auto *C : R->ctors())
        if (C->isCopyConstructor()) { any = true; if (!C->isDeleted()) ok = true; }
      if (!any && R->needsImplicitCopyConstructor())
        ok = !R->defaultedCopyConstructorIsDeleted() && !R->hasMoveConstructor() && !R->hasMoveAssignment();
      O["copyctor_ok"] = ok;
    }
    Records.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
  CompilerInstance &CI;

public:
  explicit Consumer(CompilerInstance &C) : CI(C) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    if (Ctx.getDiagnostics().hasErrorOccurred()) { Failed = true; return; }
    Exporter X(Ctx);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object O;
    O["main"] = Main;
    O["functions"] = std::move(X.Functions);
    O["records"] = std::move(X.Records);
    O["globals"] = std::move(X.Globals);
    O["types"] = X.takeTypes();
    O["files"] = X.files();
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { Failed = true; return; }
    OS << json::Value(std::move(O)) << "\n";
  }
};
class Action : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};
} // namespace

// hlextract ROOT OUT FILE -- flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  Root = argv[1];
  OutPath = argv[2];
  Main = argv[3];
  std::vector<std::string> Flags;
  for (int i = 5; i < argc; ++i) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Main});
  int r = Tool.run(tooling::newFrontendActionFactory<Action>().get());
  return (r || Failed) ? 3 : 0;
}
