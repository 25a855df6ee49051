// AST exporter: dumps the type-checked, template-instantiated bodies of every
// function whose definition lies under the requested path prefixes as JSON.
// Nothing is executed; this is the front end of all the analyses in /verif.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdlib>

using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> Prefixes;
static std::string OutPath;
static std::string Root = "/repo/";

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
  ASTContext &Ctx;
  SourceManager &SM;
  PrintingPolicy PP;
  OStream &J;
  std::map<std::string, int> TypeIdx;
  std::vector<std::string> Types;
  std::map<const Decl *, int> DeclIds;
  std::set<const Decl *> DoneFns;
  std::map<std::string, int> FileIdx;
  std::vector<std::string> Files;
  std::set<const Decl *> DoneRecs, DoneVars, DoneEnums;

public:
  std::vector<const FunctionDecl *> Fns;
  std::vector<const CXXRecordDecl *> Recs;
  std::vector<const VarDecl *> Vars;
  std::vector<const EnumDecl *> Enums;
  std::vector<const FunctionDecl *> HdrDefs; // every non-dependent *or* pattern function definition (for linkage rules)

  Exporter(ASTContext &C, OStream &J) : Ctx(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), J(J) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    FileID F = SM.getFileID(L);
    if (auto E = SM.getFileEntryRefForID(F)) {
      StringRef rp = E->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return P.getFilename();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inScope(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &p : Prefixes)
      if (StringRef(f).starts_with(p)) return true;
    return false;
  }
  int fidx(const std::string &f) {
    auto it = FileIdx.find(f);
    if (it != FileIdx.end()) return it->second;
    int n = Files.size();
    Files.push_back(f);
    FileIdx[f] = n;
    return n;
  }
  int tidx(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = TypeIdx.find(s);
    if (it != TypeIdx.end()) return it->second;
    int n = Types.size();
    Types.push_back(s);
    TypeIdx[s] = n;
    return n;
  }
  int did(const Decl *D) {
    if (!D) return -1;
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size();
    DeclIds[D] = n;
    return n;
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    P2.AnonymousTagLocations = false;
    P2.FullyQualifiedName = true;
    D->printQualifiedName(os, P2);
    os.flush();
    return s;
  }
  // qualified name with template arguments
  std::string dname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    os.flush();
    return s;
  }

  // ---------------------------------------------------------------- collection
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !(F->isDefaulted() && F->hasBody())) return true;
    if (!inScope(F->getLocation())) return true;
    HdrDefs.push_back(F);
    if (F->isDependentContext()) return true;
    if (!F->hasBody()) return true;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) return true;
    if (!DoneFns.insert(Def->getCanonicalDecl()).second) return true;
    Fns.push_back(Def);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    if (!inScope(R->getLocation())) return true;
    if (!DoneRecs.insert(R->getCanonicalDecl()).second) return true;
    Recs.push_back(R);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!(V->hasGlobalStorage())) return true;
    if (!inScope(V->getLocation())) return true;
    if (!DoneVars.insert(V->getCanonicalDecl()).second) return true;
    Vars.push_back(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isComplete() || E->isDependentContext()) return true;
    if (!inScope(E->getLocation())) return true;
    if (!DoneEnums.insert(E->getCanonicalDecl()).second) return true;
    Enums.push_back(E);
    return true;
  }

  // ---------------------------------------------------------------- expressions
  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (P->getCastKind() == CK_NoOp || P->getCastKind() == CK_ConstructorConversion || P->getCastKind()==CK_UserDefinedConversion) { E = P->getSubExpr(); continue; }
      }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) {
        switch (P->getCastKind()) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_FloatingCast:
        case CK_IntegralCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
          break;
        default: E = P->getSubExpr(); continue;
        }
      }
      break;
    }
    return E;
  }

  void loc(SourceLocation L) { if (L.isValid()) J.attribute("l", (int64_t)lineOf(L)); }

  void attrExpr(const char *k, const Expr *E) {
    J.attributeBegin(k);
    expr(E);
    J.attributeEnd();
  }
  void attrStmt(const char *k, const Stmt *S) {
    if (!S) return;
    J.attributeBegin(k);
    stmt(S);
    J.attributeEnd();
  }
  void exprs(const char *k, llvm::ArrayRef<const Expr *> A) {
    J.attributeBegin(k);
    J.arrayBegin();
    for (auto *a : A) expr(a);
    J.arrayEnd();
    J.attributeEnd();
  }

  void callee(const FunctionDecl *F) {
    J.attribute("q", qname(F));
    J.attribute("fn", did(F->getDefinition() ? F->getDefinition() : F));
    if (const FunctionDecl *P = F->getTemplateInstantiationPattern()) (void)P;
    // explicit (non-type / type) template args of the function itself
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeBegin("ta");
      J.arrayBegin();
      for (auto &a : TA->asArray()) targ(a);
      J.arrayEnd();
      J.attributeEnd();
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) J.attribute("cm", 1);
      if (M->isStatic()) J.attribute("sm", 1);
      if (M->isVirtual()) J.attribute("vm", 1);
      J.attribute("cls", dname(M->getParent()));
    }
  }
  void targ(const TemplateArgument &a) {
    if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; a.getAsIntegral().toString(s); J.value(StringRef(s)); }
    else if (a.getKind() == TemplateArgument::Type) J.value(Types[tidx(a.getAsType())]);
    else if (a.getKind() == TemplateArgument::Pack) { for (auto &b : a.pack_elements()) targ(b); }
    else J.value("?");
  }

  void constVal(const Expr *E) {
    // integral constant folding by the front end (template constants, enumerators, sizeof, ...)
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !(T->isIntegralOrEnumerationType())) return;
    if (!E->isPRValue() && !isa<DeclRefExpr>(E)) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects) && R.Val.isInt()) {
      llvm::SmallString<32> s;
      R.Val.getInt().toString(s);
      J.attribute("cv", StringRef(s));
    }
  }

  void expr(const Expr *E) {
    if (!E) { J.value(nullptr); return; }
    E = strip(E);
    if (!E) { J.value(nullptr); return; }
    if (E->isTypeDependent() || E->isValueDependent()) {
      J.object([&] { J.attribute("k", "dep"); });
      return;
    }
    J.objectBegin();
    loc(E->getExprLoc());
    if (auto *I = dyn_cast<IntegerLiteral>(E)) {
      J.attribute("k", "int");
      llvm::SmallString<32> s; I->getValue().toString(s, 10, E->getType()->isSignedIntegerType());
      J.attribute("v", StringRef(s));
      J.attribute("t", tidx(E->getType()));
    } else if (auto *F = dyn_cast<FloatingLiteral>(E)) {
      J.attribute("k", "flt");
      J.attribute("v", F->getValueAsApproximateDouble());
      bool inv = false;
      StringRef txt = Lexer::getSourceText(CharSourceRange::getTokenRange(F->getSourceRange()), SM, Ctx.getLangOpts(), &inv);
      if (!inv) J.attribute("x", txt);
      J.attribute("t", tidx(E->getType()));
    } else if (auto *B = dyn_cast<CXXBoolLiteralExpr>(E)) {
      J.attribute("k", "bool"); J.attribute("v", B->getValue() ? 1 : 0);
    } else if (auto *S = dyn_cast<clang::StringLiteral>(E)) {
      J.attribute("k", "str");
      if (S->getCharByteWidth() == 1) J.attribute("v", llvm::json::fixUTF8(S->getString()));
    } else if (auto *C = dyn_cast<CharacterLiteral>(E)) {
      J.attribute("k", "int"); J.attribute("v", std::to_string(C->getValue())); J.attribute("t", tidx(E->getType()));
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      J.attribute("k", "null");
    } else if (auto *D = dyn_cast<DeclRefExpr>(E)) {
      J.attribute("k", "ref");
      const ValueDecl *V = D->getDecl();
      J.attribute("n", V->getNameAsString());
      J.attribute("id", did(V));
      if (isa<EnumConstantDecl>(V)) { J.attribute("d", "enum"); J.attribute("q", qname(V)); }
      else if (auto *F = dyn_cast<FunctionDecl>(V)) { J.attribute("d", "func"); J.attribute("q", qname(V)); J.attribute("fn", did(F->getDefinition() ? F->getDefinition() : F)); }
      else if (isa<ParmVarDecl>(V)) J.attribute("d", "param");
      else if (auto *VV = dyn_cast<VarDecl>(V)) {
        J.attribute("d", VV->hasGlobalStorage() ? (VV->isStaticLocal() ? "slocal" : "global") : "var");
        if (VV->hasGlobalStorage()) J.attribute("q", qname(V));
      }
      else if (isa<BindingDecl>(V)) J.attribute("d", "bind");
      else J.attribute("d", "other");
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (auto *M = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *V = M->getMemberDecl();
      if (auto *VV = dyn_cast<VarDecl>(V)) { // static data member
        J.attribute("k", "ref"); J.attribute("d", "global"); J.attribute("n", V->getNameAsString());
        J.attribute("id", did(V)); J.attribute("q", qname(V)); (void)VV;
      } else {
        J.attribute("k", "mem");
        J.attribute("n", V->getNameAsString());
        J.attribute("q", qname(V));
        if (M->isArrow()) J.attribute("arrow", 1);
        if (isa<CXXMethodDecl>(V)) J.attribute("meth", 1);
        attrExpr("b", M->getBase());
      }
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (isa<CXXThisExpr>(E)) {
      J.attribute("k", "this");
    } else if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call");
      J.attribute("op", getOperatorSpelling(O->getOperator()));
      if (auto *F = O->getDirectCallee()) { callee(F); if (isa<CXXMethodDecl>(F)) J.attribute("meth", 1); }
      std::vector<const Expr *> A(O->arg_begin(), O->arg_end());
      exprs("a", A);
      J.attribute("t", tidx(E->getType()));
    } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call");
      if (auto *F = MC->getMethodDecl()) callee(F);
      J.attribute("mcall", 1);
      if (auto *ME = dyn_cast<MemberExpr>(strip(MC->getCallee()))) { if (ME->isArrow()) J.attribute("arrow", 1); if (ME->hasQualifier()) J.attribute("qual", 1);}
      attrExpr("o", MC->getImplicitObjectArgument());
      std::vector<const Expr *> A(MC->arg_begin(), MC->arg_end());
      exprs("a", A);
      J.attribute("t", tidx(E->getType()));
    } else if (auto *C = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      if (auto *F = C->getDirectCallee()) callee(F);
      else attrExpr("callee", C->getCallee());
      std::vector<const Expr *> A(C->arg_begin(), C->arg_end());
      exprs("a", A);
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (auto *C = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor");
      callee(C->getConstructor());
      if (C->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", C->getConstructor()->isMoveConstructor() ? 2 : 1);
      if (C->getConstructor()->isDefaultConstructor()) J.attribute("dflt", 1);
      if (C->isListInitialization()) J.attribute("list", 1);
      if (C->isStdInitListInitialization()) J.attribute("sil", 1);
      std::vector<const Expr *> A(C->arg_begin(), C->arg_end());
      exprs("a", A);
      J.attribute("t", tidx(E->getType()));
    } else if (auto *C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      J.attribute("k", "ctor"); callee(C->getConstructor()); J.attribute("inh", 1); J.attribute("t", tidx(E->getType()));
      exprs("a", {});
    } else if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) {
      J.attribute("k", "zero"); J.attribute("t", tidx(E->getType()));
    } else if (auto *IL = dyn_cast<InitListExpr>(E)) {
      J.attribute("k", "ilist");
      const InitListExpr *S = IL->isSemanticForm() ? IL : (IL->getSemanticForm() ? IL->getSemanticForm() : IL);
      std::vector<const Expr *> A; for (unsigned i = 0; i < S->getNumInits(); i++) A.push_back(S->getInit(i));
      exprs("a", A);
      if (auto *CAT = Ctx.getAsConstantArrayType(E->getType())) J.attribute("n", (int64_t)CAT->getSize().getZExtValue());
      J.attribute("t", tidx(E->getType()));
    } else if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) {
      J.attribute("k", "asg");
      J.attribute("op", CA->getOpcodeStr());
      attrExpr("x", CA->getLHS());
      attrExpr("y", CA->getRHS());
      J.attribute("t", tidx(E->getType()));
    } else if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Assign) { J.attribute("k", "asg"); J.attribute("op", "="); }
      else { J.attribute("k", "bin"); J.attribute("op", B->getOpcodeStr()); }
      attrExpr("x", B->getLHS());
      attrExpr("y", B->getRHS());
      J.attribute("t", tidx(E->getType()));
      if (B->getOpcode() != BO_Assign) constVal(E);
    } else if (auto *RB = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
      expr_rewritten(RB);
    } else if (auto *U = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      J.attribute("op", UnaryOperator::getOpcodeStr(U->getOpcode()));
      if (U->isPostfix()) J.attribute("post", 1);
      attrExpr("x", U->getSubExpr());
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (auto *C = dyn_cast<ConditionalOperator>(E)) {
      J.attribute("k", "cond");
      attrExpr("c", C->getCond()); attrExpr("x", C->getTrueExpr()); attrExpr("y", C->getFalseExpr());
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      attrExpr("x", A->getBase()); attrExpr("y", A->getIdx());
      J.attribute("t", tidx(E->getType()));
    } else if (auto *C = dyn_cast<CastExpr>(E)) {
      J.attribute("k", "cast");
      J.attribute("ck", C->getCastKindName());
      if (isa<ExplicitCastExpr>(C)) J.attribute("ex", 1);
      attrExpr("x", C->getSubExpr());
      J.attribute("t", tidx(E->getType()));
      constVal(E);
    } else if (auto *L = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      lambda(L);
    } else if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new"); J.attribute("t", tidx(E->getType()));
      if (N->isArray()) { J.attribute("arr", 1); if (N->getArraySize()) attrExpr("n", *N->getArraySize()); }
      if (N->getInitializer()) attrExpr("x", N->getInitializer());
    } else if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete"); if (D->isArrayForm()) J.attribute("arr", 1); attrExpr("x", D->getArgument());
    } else if (auto *T = dyn_cast<CXXThrowExpr>(E)) {
      J.attribute("k", "throw"); if (T->getSubExpr()) attrExpr("x", T->getSubExpr());
    } else if (isa<UnaryExprOrTypeTraitExpr>(E) || isa<TypeTraitExpr>(E) || isa<SizeOfPackExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<ConceptSpecializationExpr>(E) || isa<RequiresExpr>(E)) {
      J.attribute("k", "const"); constVal(E); J.attribute("t", tidx(E->getType()));
    } else if (auto *P = dyn_cast<CXXParenListInitExpr>(E)) {
      J.attribute("k", "ilist");
      std::vector<const Expr *> A; for (auto *x : const_cast<CXXParenListInitExpr*>(P)->getInitExprs()) A.push_back(x);
      exprs("a", A); J.attribute("t", tidx(E->getType()));
    } else if (auto *OV = dyn_cast<OpaqueValueExpr>(E)) {
      J.attribute("k", "opaque"); if (OV->getSourceExpr()) attrExpr("x", OV->getSourceExpr());
    } else if (isa<PredefinedExpr>(E) || isa<SourceLocExpr>(E)) {
      J.attribute("k", "str"); J.attribute("v", "<src>");
    } else {
      J.attribute("k", "other"); J.attribute("cls", E->getStmtClassName());
      J.attributeBegin("a"); J.arrayBegin();
      for (const Stmt *c : E->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) expr(ce);
      J.arrayEnd(); J.attributeEnd();
    }
    J.objectEnd();
  }
  void expr_rewritten(const CXXRewrittenBinaryOperator *RB) {
    J.attribute("k", "rw"); J.attribute("op", RB->getOpcodeStr());
    attrExpr("x", RB->getLHS()); attrExpr("y", RB->getRHS());
    attrExpr("sem", RB->getSemanticForm());
  }
  void lambda(const LambdaExpr *L) {
    J.attribute("gen", L->isGenericLambda() ? 1 : 0);
    J.attributeBegin("caps"); J.arrayBegin();
    for (auto I = L->capture_begin(); I != L->capture_end(); ++I) {
      J.objectBegin();
      if (I->capturesVariable()) {
        J.attribute("n", I->getCapturedVar()->getNameAsString());
        J.attribute("id", did(I->getCapturedVar()));
        J.attribute("by", I->getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        if (I->getCapturedVar()->isInitCapture()) {
            if (auto *VD = dyn_cast<VarDecl>(I->getCapturedVar())) if (VD->getInit()) attrExpr("init", VD->getInit());
        }
      } else if (I->capturesThis()) J.attribute("n", "this");
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    const CXXMethodDecl *M = L->getCallOperator();
    J.attribute("fn", did(M));
    if (!L->isGenericLambda() && M) {
      params(M);
      J.attribute("rt", tidx(M->getReturnType()));
      attrStmt("body", M->getBody());
    } else if (M && M->getDescribedFunctionTemplate()) {
      J.attributeBegin("insts"); J.arrayBegin();
      for (auto *S : M->getDescribedFunctionTemplate()->specializations()) {
        const FunctionDecl *Def = nullptr;
        if (!S->hasBody(Def)) continue;
        J.objectBegin();
        J.attribute("id", did(S));
        params(Def);
        J.attribute("rt", tidx(Def->getReturnType()));
        attrStmt("body", Def->getBody());
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
  }
  void params(const FunctionDecl *F) {
    J.attributeBegin("params"); J.arrayBegin();
    for (auto *P : F->parameters()) {
      J.objectBegin();
      J.attribute("id", did(P)); J.attribute("n", P->getNameAsString()); J.attribute("t", tidx(P->getType()));
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg()) attrExpr("dv", P->getDefaultArg());
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
  }

  // ---------------------------------------------------------------- statements
  void varDecl(const VarDecl *V) {
    J.objectBegin();
    J.attribute("id", did(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", tidx(V->getType()));
    loc(V->getLocation());
    if (V->isStaticLocal()) J.attribute("static", 1);
    if (V->isConstexpr()) J.attribute("cexpr", 1);
    if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", 1);
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      J.attributeBegin("binds"); J.arrayBegin();
      for (auto *B : DD->bindings()) {
        J.objectBegin(); J.attribute("id", did(B)); J.attribute("n", B->getNameAsString());
        if (auto *HV = B->getHoldingVar()) J.attribute("hid", did(HV));
        J.attribute("t", tidx(B->getType())); J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    if (V->getInit()) attrExpr("init", V->getInit());
    J.objectEnd();
  }
  void stmts(const char *k, llvm::ArrayRef<const Stmt *> A) {
    J.attributeBegin(k); J.arrayBegin();
    for (auto *a : A) if (a) stmt(a);
    J.arrayEnd(); J.attributeEnd();
  }
  void condVar(const VarDecl *V) { if (V) { J.attributeBegin("cvar"); varDecl(V); J.attributeEnd(); } }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    J.objectBegin();
    loc(S->getBeginLoc());
    if (auto *C = dyn_cast<CompoundStmt>(S)) {
      J.attribute("k", "blk"); std::vector<const Stmt *> A(C->body_begin(), C->body_end()); stmts("s", A);
    } else if (auto *D = dyn_cast<DeclStmt>(S)) {
      J.attribute("k", "decl"); J.attributeBegin("v"); J.arrayBegin();
      for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) varDecl(V);
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *I = dyn_cast<IfStmt>(S)) {
      J.attribute("k", "if");
      if (I->isConstexpr()) J.attribute("cx", 1);
      if (I->getInit()) attrStmt("init", I->getInit());
      condVar(I->getConditionVariable());
      attrExpr("c", I->getCond()); attrStmt("x", I->getThen()); attrStmt("y", I->getElse());
    } else if (auto *F = dyn_cast<ForStmt>(S)) {
      J.attribute("k", "for"); attrStmt("init", F->getInit());
      if (F->getCond()) attrExpr("c", F->getCond());
      if (F->getInc()) attrExpr("inc", F->getInc());
      attrStmt("x", F->getBody());
    } else if (auto *W = dyn_cast<WhileStmt>(S)) {
      J.attribute("k", "while"); condVar(W->getConditionVariable()); attrExpr("c", W->getCond()); attrStmt("x", W->getBody());
    } else if (auto *W = dyn_cast<DoStmt>(S)) {
      J.attribute("k", "do"); attrExpr("c", W->getCond()); attrStmt("x", W->getBody());
    } else if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      J.attribute("k", "rfor"); J.attributeBegin("v"); varDecl(R->getLoopVariable()); J.attributeEnd();
      attrExpr("r", R->getRangeInit()); attrStmt("x", R->getBody());
      auto *RC = R->getRangeInit()->getType().getNonReferenceType()->getAsCXXRecordDecl();
      if (RC && !RC->isInStdNamespace() && R->getBeginStmt() && R->getEndStmt()) {     // a range of the library: its own iterators
        attrStmt("rs", R->getRangeStmt()); attrStmt("bs", R->getBeginStmt()); attrStmt("es", R->getEndStmt());
        attrStmt("lvs", R->getLoopVarStmt()); attrExpr("c", R->getCond()); attrExpr("inc", R->getInc());
      }
    } else if (auto *W = dyn_cast<SwitchStmt>(S)) {
      J.attribute("k", "switch"); condVar(W->getConditionVariable()); attrExpr("c", W->getCond());
      attrStmt("x", W->getBody());
    } else if (auto *C = dyn_cast<CaseStmt>(S)) {
      J.attribute("k", "case"); attrExpr("v", C->getLHS());
      Expr::EvalResult R;
      if (!C->getLHS()->isValueDependent() && C->getLHS()->EvaluateAsInt(R, Ctx)) { llvm::SmallString<32> s; R.Val.getInt().toString(s); J.attribute("cv", StringRef(s)); }
      attrStmt("x", C->getSubStmt());
    } else if (auto *D = dyn_cast<DefaultStmt>(S)) {
      J.attribute("k", "default"); attrStmt("x", D->getSubStmt());
    } else if (auto *R = dyn_cast<ReturnStmt>(S)) {
      J.attribute("k", "ret"); if (R->getRetValue()) attrExpr("x", R->getRetValue());
    } else if (isa<BreakStmt>(S)) J.attribute("k", "break");
    else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
    else if (isa<NullStmt>(S)) J.attribute("k", "null_s");
    else if (auto *A = dyn_cast<AttributedStmt>(S)) { J.attribute("k", "blk"); stmts("s", {A->getSubStmt()}); }
    else if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      J.attribute("k", "try"); attrStmt("x", T->getTryBlock());
      J.attributeBegin("h"); J.arrayBegin();
      for (unsigned i = 0; i < T->getNumHandlers(); i++) stmt(T->getHandler(i)->getHandlerBlock());
      J.arrayEnd(); J.attributeEnd();
    } else if (auto *L = dyn_cast<LabelStmt>(S)) { J.attribute("k", "label"); attrStmt("x", L->getSubStmt()); }
    else { J.attribute("k", "sother"); J.attribute("cls", S->getStmtClassName()); }
    J.objectEnd();
  }

  // ---------------------------------------------------------------- top level
  void function(const FunctionDecl *F) {
    J.objectBegin();
    J.attribute("fn", did(F)); J.attribute("q", qname(F)); J.attribute("d", dname(F));
    J.attribute("file", fidx(fileOf(F->getLocation())));
    J.attribute("l", (int64_t)lineOf(F->getLocation()));
    J.attribute("le", (int64_t)lineOf(F->getEndLoc()));
    J.attribute("rt", tidx(F->getReturnType()));
    if (F->isImplicit() || F->isDefaulted()) J.attribute("impl", 1);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J.attributeBegin("ta"); J.arrayBegin(); for (auto &a : TA->asArray()) targ(a); J.arrayEnd(); J.attributeEnd();
    }
    if (F->isInlined()) J.attribute("inl", 1);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      J.attribute("cls", dname(M->getParent())); J.attribute("clsq", qname(M->getParent())); J.attribute("cid", did(M->getParent()));
      if (M->isConst()) J.attribute("cm", 1);
      if (M->isStatic()) J.attribute("sm", 1);
      if (M->isVirtual()) J.attribute("vm", 1);
      if (isa<CXXConstructorDecl>(M)) J.attribute("ct", 1);
      if (isa<CXXDestructorDecl>(M)) J.attribute("dt", 1);
      J.attribute("acc", M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv");
      if (M->getParent()->isLambda()) J.attribute("lam", 1);
    }
    params(F);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      J.attributeBegin("inits"); J.arrayBegin();
      for (auto *I : C->inits()) {
        J.objectBegin();
        if (I->isAnyMemberInitializer()) J.attribute("m", I->getAnyMember()->getNameAsString());
        else if (I->isBaseInitializer()) J.attribute("base", tidx(QualType(I->getBaseClass(), 0)));
        else if (I->isDelegatingInitializer()) J.attribute("deleg", 1);
        if (I->isWritten()) J.attribute("w", 1);
        attrExpr("x", I->getInit());
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
    }
    attrStmt("body", F->getBody());
    J.objectEnd();
  }
  void run(TranslationUnitDecl *TU) {
    TraverseDecl(TU);
    J.objectBegin();
    J.attributeBegin("functions"); J.arrayBegin();
    for (auto *F : Fns) function(F);
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("records"); J.arrayBegin();
    for (auto *R : Recs) {
      J.objectBegin();
      J.attribute("id", did(R)); J.attribute("q", qname(R)); J.attribute("d", dname(R));
      J.attribute("file", fidx(fileOf(R->getLocation()))); J.attribute("l", (int64_t)lineOf(R->getLocation()));
      if (R->isLambda()) J.attribute("lam", 1);
      J.attributeBegin("bases"); J.arrayBegin();
      for (auto &B : R->bases()) J.value(Types[tidx(B.getType())]);
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("fields"); J.arrayBegin();
      for (auto *F : R->fields()) {
        J.objectBegin(); J.attribute("n", F->getNameAsString()); J.attribute("t", tidx(F->getType())); J.attribute("l", (int64_t)lineOf(F->getLocation()));
        if (F->isMutable()) J.attribute("mut", 1);
        if (F->hasInClassInitializer() && F->getInClassInitializer()) { J.attribute("hasinit", 1); attrExpr("init", F->getInClassInitializer()); }
        J.attribute("acc", F->getAccess() == AS_public ? "pub" : F->getAccess() == AS_protected ? "prot" : "priv");
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      J.attributeBegin("methods"); J.arrayBegin();
      for (auto *M : R->methods()) {
        J.objectBegin(); J.attribute("n", M->getNameAsString()); J.attribute("fn", did(M->getDefinition() ? M->getDefinition() : M));
        if (M->isDeleted()) J.attribute("del", 1);
        if (M->isConst()) J.attribute("cm", 1);
        if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { if (C->isCopyConstructor()) J.attribute("cc", 1); if (C->isMoveConstructor()) J.attribute("mc", 1); J.attribute("ct", 1); }
        if (M->isCopyAssignmentOperator()) J.attribute("ca", 1);
        if (M->isImplicit()) J.attribute("impl", 1);
        if (M->isUserProvided()) J.attribute("user", 1);
        J.attribute("acc", M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_protected ? "prot" : "priv");
        J.objectEnd();
      }
      J.arrayEnd(); J.attributeEnd();
      if (R->hasDefinition()) {
        if (R->hasUserDeclaredDestructor()) J.attribute("udtor", 1);
        if (R->needsImplicitCopyConstructor() || R->hasSimpleCopyConstructor()) J.attribute("icc", 1);
      }
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("globals"); J.arrayBegin();
    for (auto *V : Vars) {
      const VarDecl *D = V->getDefinition() ? V->getDefinition() : V;
      J.objectBegin();
      J.attribute("id", did(V)); J.attribute("q", qname(V)); J.attribute("n", V->getNameAsString()); J.attribute("t", tidx(V->getType()));
      J.attribute("file", fidx(fileOf(D->getLocation()))); J.attribute("l", (int64_t)lineOf(D->getLocation()));
      if (V->isStaticLocal()) J.attribute("slocal", 1);
      if (V->isConstexpr()) J.attribute("cexpr", 1);
      if (V->getType().isConstQualified() || (V->getType()->isArrayType() && Ctx.getBaseElementType(V->getType()).isConstQualified()) || V->getType()->isReferenceType()) J.attribute("const", 1);
      if (V->getTSCSpec() != TSCS_unspecified) J.attribute("tls", 1);
      if (V->isInline()) J.attribute("inl", 1);
      if (V->hasExternalFormalLinkage() ) J.attribute("ext", 1);
      if (V->isThisDeclarationADefinition() == VarDecl::Definition || D->isThisDeclarationADefinition() == VarDecl::Definition) J.attribute("def", 1);
      if (V->isStaticDataMember()) J.attribute("sdm", 1);
      if (V->getTemplateSpecializationKind() != TSK_Undeclared || V->getDescribedVarTemplate() || V->getDeclContext()->isDependentContext()) J.attribute("tmpl", 1);
      if (!V->getDeclContext()->isDependentContext() && D->getInit() && !D->getInit()->isValueDependent()) attrExpr("init", D->getInit());
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("enums"); J.arrayBegin();
    for (auto *E : Enums) {
      J.objectBegin(); J.attribute("q", qname(E)); J.attribute("file", fidx(fileOf(E->getLocation()))); J.attribute("l", (int64_t)lineOf(E->getLocation()));
      J.attributeBegin("c"); J.arrayBegin();
      for (auto *C : E->enumerators()) { J.objectBegin(); J.attribute("n", C->getNameAsString()); J.attribute("q", qname(C)); J.attribute("id", did(C)); llvm::SmallString<32> s; C->getInitVal().toString(s); J.attribute("v", StringRef(s)); J.objectEnd(); }
      J.arrayEnd(); J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    // linkage facts of every function definition seen (patterns included)
    J.attributeBegin("defs"); J.arrayBegin();
    for (auto *F : HdrDefs) {
      if (F->isImplicit()) continue;
      if (F->getTemplateInstantiationPattern()) continue; // instantiation
      J.objectBegin();
      J.attribute("q", qname(F)); J.attribute("file", fidx(fileOf(F->getLocation()))); J.attribute("l", (int64_t)lineOf(F->getLocation()));
      if (F->isInlined()) J.attribute("inl", 1);
      if (F->getDescribedFunctionTemplate() || F->isDependentContext()) J.attribute("tmpl", 1);
      if (F->getTemplateSpecializationKind() == TSK_ExplicitSpecialization) J.attribute("spec", 1);
      if (F->hasExternalFormalLinkage()) J.attribute("ext", 1);
      if (isa<CXXMethodDecl>(F)) J.attribute("meth", 1);
      if (F->isConstexpr()) J.attribute("cexpr", 1);
      J.objectEnd();
    }
    J.arrayEnd(); J.attributeEnd();
    // included files in scope
    J.attributeBegin("included"); J.arrayBegin();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string p = it->first.getFileEntry().tryGetRealPathName().str();
      for (auto &x : Prefixes) if (StringRef(p).starts_with(x)) { J.value(p); break; }
    }
    J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("files"); J.arrayBegin(); for (auto &f : Files) J.value(f); J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("types"); J.arrayBegin(); for (auto &f : Types) J.value(llvm::json::fixUTF8(f)); J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; exit(3); }
    OStream J(OS);
    Exporter X(Ctx, J);
    X.run(Ctx.getTranslationUnitDecl());
    OS << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

// usage: exporter OUT.json SRC PREFIX[,PREFIX...] -- compiler flags
int main(int argc, const char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1];
  std::string Src = argv[2];
  {
    llvm::SmallVector<StringRef, 8> parts;
    StringRef(argv[3]).split(parts, ',', -1, false);
    for (auto p : parts) Prefixes.push_back(p.str());
  }
  std::vector<std::string> Flags;
  int i = 4;
  if (std::string(argv[i]) == "--") i++;
  for (; i < argc; i++) Flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {Src});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
