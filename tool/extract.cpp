// susa-extract: dumps the resolved program (clang AST after template
// instantiation) of every function whose definition lies in the analysed tree
// or the witness file, as JSON, for the analyses in /verif/engine.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Type *, int> typeIds;
  J::Array types;
  std::map<const Decl *, int> declIds;
  int nextDecl = 1;
  std::vector<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::vector<const CXXRecordDecl *> recs;
  std::set<const CXXRecordDecl *> seenRec;
  std::map<const Decl *, J::Object> globals;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }

  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    return declIds[D] = nextDecl++;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    llvm::SmallString<256> P(F->getName());
    return std::string(F->getFileEntry().tryGetRealPathName());
  }
  bool inRoots(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  // Algorithms of the standard library that have no model in the engine are
  // analysed from the bodies in the installed headers.
  bool stdBody(const FunctionDecl *F) {
    static const char *files[] = {"/bits/stl_algo.h", "/bits/stl_algobase.h", "/bits/stl_numeric.h",
                                  "/bits/predefined_ops.h", "/bits/stl_function.h", "/bits/stl_heap.h"};
    static const char *modelled[] = {"fill", "fill_n", "copy", "copy_n", "swap", "max", "min", "distance", "move",
                                     "copy_backward", "move_backward", "equal", "__miter_base", "__niter_base",
                                     "__niter_wrap", "__lg"};
    std::string q = qname(F);
    if (q.compare(0, 5, "std::") != 0 && q.compare(0, 18, "__gnu_cxx::__ops::") != 0) return false;
    std::string f = fileOf(F->getLocation());
    bool in = false;
    for (auto *s : files) {
      std::string t(s);
      if (f.size() > t.size() && f.compare(f.size() - t.size(), t.size(), t) == 0) in = true;
    }
    if (!in) return false;
    if (!F->getDeclName().isIdentifier()) return true;
    std::string n = F->getNameAsString();
    for (auto *m : modelled)
      if (n == m && (F->getNumParams() <= 2 || (n != "max" && n != "min"))) return false;
    if (n == "accumulate" && F->getNumParams() == 3) return false;
    if (n == "inner_product" && F->getNumParams() == 4) return false;
    return true;
  }
  J::Value loc(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return (int64_t)SM.getExpansionLineNumber(L);
  }

  int type(QualType Q) {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    QualType U = Q.getUnqualifiedType();
    const Type *key = (const Type *)Q.getAsOpaquePtr();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = types.size();
    typeIds[key] = id;
    types.push_back(nullptr);
    J::Object o;
    o["s"] = U.getAsString(PP);
    if (cst) o["const"] = true;
    const Type *T = U.getTypePtr();
    if (T->isBooleanType()) {
      o["k"] = "bool"; o["bits"] = 1; o["sg"] = false;
    } else if (auto *E = T->getAs<EnumType>()) {
      o["k"] = "int"; o["enum"] = true;
      QualType IT = E->getDecl()->getIntegerType();
      o["bits"] = IT.isNull() ? 32 : (int64_t)C.getTypeSize(IT);
      o["sg"] = IT.isNull() ? true : IT->isSignedIntegerType();
    } else if (T->isIntegerType()) {
      o["k"] = "int"; o["bits"] = (int64_t)C.getTypeSize(U);
      o["sg"] = T->isSignedIntegerType();
    } else if (T->isRealFloatingType()) {
      o["k"] = "float"; o["bits"] = (int64_t)C.getTypeSize(U);
    } else if (T->isPointerType()) {
      o["k"] = "ptr"; o["to"] = type(T->getPointeeType());
    } else if (T->isReferenceType()) {
      o["k"] = "ref"; o["to"] = type(T->getPointeeType());
      if (T->isRValueReferenceType()) o["rv"] = true;
    } else if (auto *AT = C.getAsConstantArrayType(U)) {
      o["k"] = "array"; o["to"] = type(AT->getElementType());
      o["n"] = (int64_t)AT->getSize().getZExtValue();
    } else if (T->isArrayType()) {
      o["k"] = "array"; o["to"] = type(T->getAsArrayTypeUnsafe()->getElementType());
    } else if (auto *R = T->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["rec"] = did(R);
      o["name"] = R->getQualifiedNameAsString();
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
        J::Array a;
        for (auto &A : S->getTemplateArgs().asArray()) tmplArg(A, a);
        o["targs"] = std::move(a);
      }
      addRec(R);
    } else if (T->isVoidType()) {
      o["k"] = "void";
    } else if (T->isNullPtrType()) {
      o["k"] = "null";
    } else if (T->isFunctionType()) {
      o["k"] = "func";
    } else {
      o["k"] = "other";
    }
    if (!T->isIncompleteType() && !T->isDependentType() && !T->isFunctionType() && !T->isVoidType() && !T->isUndeducedType())
      o["size"] = (int64_t)C.getTypeSizeInChars(U.getNonReferenceType()).getQuantity();
    types[id] = std::move(o);
    return id;
  }
  void tmplArg(const TemplateArgument &A, J::Array &a) {
    switch (A.getKind()) {
    case TemplateArgument::Type: {
      J::Object o; o["type"] = type(A.getAsType()); a.push_back(std::move(o)); break; }
    case TemplateArgument::Integral: {
      J::Object o; o["int"] = toString(A.getAsIntegral(), 10); a.push_back(std::move(o)); break; }
    case TemplateArgument::Pack:
      for (auto &B : A.pack_elements()) tmplArg(B, a);
      break;
    default: a.push_back("?");
    }
  }

  void addRec(const CXXRecordDecl *R) {
    R = R->getDefinition() ? R->getDefinition() : R;
    if (!seenRec.insert(R).second) return;
    recs.push_back(R);
  }

  std::string qname(const NamedDecl *D) { return D->getQualifiedNameAsString(); }

  // function reference: record it; bodies in the analysed tree are queued
  int fref(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && D) F = D;
    // instantiated pattern may have the definition elsewhere
    int id = did(F);
    if (seen.insert(cast<FunctionDecl>(F->getCanonicalDecl())).second) {
      work.push_back(F);
    }
    return id;
  }

  J::Value constVal(const APValue &V, QualType T) {
    J::Object o;
    o["t"] = type(T);
    if (V.isInt()) { o["k"] = "int"; o["v"] = toString(V.getInt(), 10); return J::Value(std::move(o)); }
    if (V.isFloat()) {
      o["k"] = "float";
      llvm::SmallString<32> s; V.getFloat().toString(s, 40);
      o["v"] = s.str().str(); return J::Value(std::move(o));
    }
    return nullptr;
  }

  J::Value expr(const Expr *E) {
    if (!E) return nullptr;
    // transparent wrappers
    if (auto *P = dyn_cast<ParenExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return expr(P->getExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(P->getSubExpr());
    if (auto *P = dyn_cast<OpaqueValueExpr>(E)) return expr(P->getSourceExpr());
    if (auto *P = dyn_cast<PredefinedExpr>(E)) { J::Object o; o["k"]="str"; o["t"]=type(E->getType()); return J::Value(std::move(o)); }

    // constant folding of non-literal scalar rvalues
    // (floating arithmetic is left to the analyser: folding would round)
    if (E->isPRValue() && !E->isValueDependent() && !isa<IntegerLiteral>(E) &&
        !(E->getType()->isRealFloatingType() && (isa<BinaryOperator>(E) || isa<UnaryOperator>(E) || isa<ParenExpr>(E) || isa<FloatingLiteral>(E) || isa<CastExpr>(E) || isa<ConditionalOperator>(E))) &&
        (E->getType()->isIntegralOrEnumerationType() || E->getType()->isRealFloatingType())) {
      Expr::EvalResult R;
      if (E->EvaluateAsRValue(R, C) && !R.HasSideEffects && !R.Diag) {
        if (R.Val.isInt() || R.Val.isFloat()) {
          auto v = constVal(R.Val, E->getType());
          if (auto *o = v.getAsObject()) { (*o)["l"] = loc(E->getExprLoc()); (*o)["folded"] = true;
            if (isa<SizeOfPackExpr>(E) || isa<UnaryExprOrTypeTraitExpr>(E)) return v;
            return v; }
        }
      }
    }

    J::Object o;
    o["t"] = type(E->getType());
    o["l"] = loc(E->getExprLoc());
    o["lv"] = E->isGLValue();
    if (E->getBeginLoc().isMacroID()) {
      o["mac"] = Lexer::getImmediateMacroName(E->getBeginLoc(), SM, C.getLangOpts()).str();
    }

    if (auto *X = dyn_cast<ExprWithCleanups>(E)) {
      o["k"] = "cleanups"; o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "temp"; o["e"] = expr(X->getSubExpr());
      o["ext"] = X->getStorageDuration() != SD_FullExpression;
    } else if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int"; o["v"] = toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
    } else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "int"; o["v"] = X->getValue() ? "1" : "0";
    } else if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int"; o["v"] = std::to_string(X->getValue());
    } else if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float"; llvm::SmallString<32> s; X->getValue().toString(s, 40); o["v"] = s.str().str();
    } else if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["k"] = "str";
      if (X->getCharByteWidth() == 1) { std::string s = X->getString().str(); bool ok = true; for (unsigned char c : s) if (c >= 128 || c < 9) ok = false; if (ok) o["v"] = s; }
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
    } else if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
    } else if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      o["k"] = "ref"; o["d"] = did(D); o["n"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; o["q"] = qname(D); fref(F); }
      else if (isa<ParmVarDecl>(D)) o["dk"] = "parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDecl() && !V->isStaticLocal()) o["dk"] = "local";
        else if (V->isStaticLocal()) { o["dk"] = "static"; glob(V); }
        else { o["dk"] = "global"; o["q"] = qname(D); glob(V); }
      } else if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["k"] = "binding"; o["e"] = expr(B->getBinding());
      } else o["dk"] = "other";
    } else if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["k"] = "mem"; o["f"] = F->getNameAsString(); o["arrow"] = X->isArrow(); o["b"] = expr(X->getBase());
        o["own"] = did(F->getParent());
      } else if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["k"] = "ref"; o["d"] = did(V); o["dk"] = "global"; o["n"] = V->getNameAsString(); glob(V);
      } else {
        o["k"] = "memfn"; o["b"] = expr(X->getBase()); o["arrow"] = X->isArrow();
      }
    } else if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      callCommon(o, X);
      o["op"] = getOperatorSpelling(X->getOperator());
      const FunctionDecl *F = X->getDirectCallee();
      J::Array a;
      unsigned i = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["k"] = "mcall"; o["b"] = expr(X->getArg(0)); o["arrow"] = false; i = 1;
      } else o["k"] = "call";
      for (; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      callCommon(o, X);
      o["k"] = "mcall";
      if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParenImpCasts())) {
        o["b"] = expr(ME->getBase()); o["arrow"] = ME->isArrow();
      }
      J::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CallExpr>(E)) {
      callCommon(o, X);
      o["k"] = "call";
      if (!X->getDirectCallee()) o["callee"] = expr(X->getCallee());
      J::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "ctor";
      const CXXConstructorDecl *D = X->getConstructor();
      o["f"] = fref(D); o["q"] = qname(D->getParent());
      o["elid"] = X->isElidable();
      if (D->isCopyConstructor()) o["cc"] = true;
      if (D->isMoveConstructor()) o["mc"] = true;
      if (D->isDefaultConstructor()) o["dc"] = true;
      o["triv"] = D->isTrivial();
      o["zi"] = X->requiresZeroInitialization();
      o["il"] = X->isStdInitListInitialization();
      paramTypes(o, D);
      J::Array a;
      for (auto *A : X->arguments()) a.push_back(expr(A));
      o["a"] = std::move(a);
    } else if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "cassign"; o["op"] = X->getOpcodeStr().str();
      o["ct"] = type(X->getComputationLHSType()); o["rt"] = type(X->getComputationResultType());
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["k"] = X->isAssignmentOp() ? "assign" : "bin"; o["op"] = X->getOpcodeStr().str();
      o["x"] = expr(X->getLHS()); o["y"] = expr(X->getRHS());
    } else if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      o["post"] = X->isPostfix(); o["x"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["x"] = expr(X->getTrueExpr()); o["y"] = expr(X->getFalseExpr());
    } else if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "idx"; o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx());
    } else if (auto *X = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
      if (!isa<ImplicitCastExpr>(E)) o["explicit"] = true;
    } else if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["k"] = "new"; o["at"] = type(X->getAllocatedType());
      o["arr"] = X->isArray();
      if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize());
      o["init"] = expr(X->getInitializer());
      J::Array a;
      for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) a.push_back(expr(X->getPlacementArg(i)));
      o["pl"] = std::move(a);
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete"; o["arr"] = X->isArrayForm(); o["e"] = expr(X->getArgument());
      o["at"] = type(X->getDestroyedType());
    } else if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "initlist"; J::Array a;
      for (unsigned i = 0; i < X->getNumInits(); i++) a.push_back(expr(X->getInit(i)));
      o["a"] = std::move(a);
      if (X->hasArrayFiller()) o["fill"] = expr(X->getArrayFiller());
    } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "stdil"; o["e"] = expr(X->getSubExpr());
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
    } else if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw"; o["e"] = expr(X->getSubExpr());
    } else if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda"; o["f"] = fref(X->getCallOperator());
      J::Array a;
      auto it = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        J::Object c;
        if (Cp.capturesVariable()) { c["d"] = did(Cp.getCapturedVar()); c["byref"] = Cp.getCaptureKind() == LCK_ByRef; }
        else if (Cp.capturesThis()) c["this"] = true;
        c["e"] = expr(*it); ++it;
        a.push_back(std::move(c));
      }
      o["caps"] = std::move(a);
    } else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["k"] = "arrcopy"; o["e"] = expr(X->getCommonExpr());
    } else {
      o["k"] = "unk"; o["cls"] = E->getStmtClassName();
    }
    return J::Value(std::move(o));
  }

  void paramTypes(J::Object &o, const FunctionDecl *F) {
    J::Array p;
    for (auto *P : F->parameters()) p.push_back(type(P->getType()));
    o["pt"] = std::move(p);
  }

  void callCommon(J::Object &o, const CallExpr *X) {
    if (auto *F = X->getDirectCallee()) {
      o["f"] = fref(F); o["q"] = qname(F);
      if (F->isVariadic()) o["va"] = true;
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        o["cls"] = type(C.getRecordType(M->getParent()));
        o["mconst"] = M->isConst();
        o["virt"] = M->isVirtual();
      }
      if (F->hasAttr<NoReturnAttr>() || F->isNoReturn()) o["noret"] = true;
      paramTypes(o, F);
      if (auto *A = F->getTemplateSpecializationArgs()) {
        J::Array a;
        for (auto &TA : A->asArray()) tmplArg(TA, a);
        o["targs"] = std::move(a);
      }
    }
  }

  void glob(const VarDecl *V) {
    const VarDecl *K = V->getCanonicalDecl();
    if (globals.count(K)) return;
    globals[K] = J::Object();
    J::Object o;
    o["d"] = did(V); o["n"] = qname(V); o["t"] = type(V->getType());
    o["file"] = fileOf(V->getLocation()); o["l"] = loc(V->getLocation());
    o["static_local"] = V->isStaticLocal();
    o["constexpr"] = V->isConstexpr();
    o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
    const VarDecl *D = nullptr;
    if (auto *I = V->getAnyInitializer(D)) {
      if (!I->isValueDependent() && inRoots(V->getLocation())) o["init"] = expr(I);
    }
    globals[K] = std::move(o);
  }

  J::Value vardecl(const VarDecl *V) {
    J::Object o;
    o["d"] = did(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
    o["l"] = loc(V->getLocation());
    if (V->isStaticLocal()) { o["static"] = true; glob(V); }
    if (V->isNRVOVariable()) o["nrvo"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    return J::Value(std::move(o));
  }

  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) {
      J::Object o; o["k"] = "expr"; o["l"] = loc(E->getExprLoc()); o["e"] = expr(E); return J::Value(std::move(o));
    }
    if (auto *L = dyn_cast<LabelStmt>(S)) return stmt(L->getSubStmt());
    if (auto *L = dyn_cast<AttributedStmt>(S)) return stmt(L->getSubStmt());
    J::Object o;
    o["l"] = loc(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      o["k"] = "block"; J::Array a;
      for (auto *B : X->body()) a.push_back(stmt(B));
      o["b"] = std::move(a);
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "decl"; J::Array a;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(vardecl(V));
        if (auto *DD = dyn_cast<DecompositionDecl>(D))
          for (auto *B : DD->bindings())
            if (auto *H = B->getHoldingVar()) a.push_back(vardecl(H));
      }
      o["v"] = std::move(a);
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "if";
      if (X->isConstexpr()) o["constexpr"] = true;
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond()); o["x"] = stmt(X->getThen()); o["y"] = stmt(X->getElse());
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond());
      o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "for"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); o["while"] = true;
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      o["k"] = "range";
      o["range"] = stmt(X->getRangeStmt()); o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc());
      o["var"] = stmt(X->getLoopVarStmt()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["k"] = "return"; o["e"] = expr(X->getRetValue());
      if (X->getNRVOCandidate()) o["nrvo"] = did(X->getNRVOCandidate());
    } else if (isa<BreakStmt>(S)) o["k"] = "break";
    else if (isa<ContinueStmt>(S)) o["k"] = "continue";
    else if (isa<NullStmt>(S)) o["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "switch"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "case"; o["v"] = expr(X->getLHS()); o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["k"] = "default"; o["b"] = stmt(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["k"] = "try"; o["b"] = stmt(X->getTryBlock()); J::Array a;
      for (unsigned i = 0; i < X->getNumHandlers(); i++) {
        auto *H = X->getHandler(i); J::Object h;
        if (H->getExceptionDecl()) h["t"] = type(H->getExceptionDecl()->getType());
        h["b"] = stmt(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
    } else { o["k"] = "unk"; o["cls"] = S->getStmtClassName(); }
    return J::Value(std::move(o));
  }

  J::Value func(const FunctionDecl *F) {
    const FunctionDecl *D = nullptr;
    bool has = F->hasBody(D);
    if (has && D) F = D;
    J::Object o;
    o["id"] = did(F); o["q"] = qname(F); o["n"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation()); o["l"] = loc(F->getLocation());
    o["ret"] = type(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(C.getRecordType(M->getParent()));
      o["static"] = M->isStatic(); o["const"] = M->isConst(); o["virt"] = M->isVirtual();
      o["access"] = (int)M->getAccess();
      if (isa<CXXConstructorDecl>(F)) o["mk"] = "ctor";
      else if (isa<CXXDestructorDecl>(F)) o["mk"] = "dtor";
      else if (isa<CXXConversionDecl>(F)) o["mk"] = "conv";
      else o["mk"] = "method";
    }
    o["implicit"] = F->isImplicit() || F->isDefaulted();
    if (F->isDefaulted()) o["defaulted"] = true;
    J::Array ps;
    for (auto *P : F->parameters()) {
      J::Object p; p["d"] = did(P); p["n"] = P->getNameAsString(); p["t"] = type(P->getType());
      ps.push_back(std::move(p));
    }
    o["p"] = std::move(ps);
    if (auto *A = F->getTemplateSpecializationArgs()) {
      J::Array a;
      for (auto &TA : A->asArray()) tmplArg(TA, a);
      o["targs"] = std::move(a);
    }
    bool analysed = has && inRoots(F->getLocation()) && !F->isDependentContext();
    if (has && F->isImplicit() && !F->isDependentContext()) {
      analysed = inRoots(F->getLocation());
    }
    if (has && !analysed && !F->isDependentContext()) analysed = stdBody(F);
    if (analysed) {
      if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
        J::Array in;
        for (auto *I : K->inits()) {
          J::Object i;
          if (I->isAnyMemberInitializer()) { i["f"] = I->getAnyMember()->getNameAsString(); i["ft"] = type(I->getAnyMember()->getType()); }
          else if (I->isBaseInitializer()) i["base"] = type(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) i["deleg"] = true;
          i["written"] = I->isWritten();
          i["e"] = expr(I->getInit());
          in.push_back(std::move(i));
        }
        o["inits"] = std::move(in);
      }
      o["body"] = stmt(F->getBody());
    }
    return J::Value(std::move(o));
  }

  J::Value rec(const CXXRecordDecl *R) {
    J::Object o;
    o["id"] = did(R); o["q"] = qname(R); o["s"] = C.getRecordType(R).getAsString(PP);
    o["file"] = fileOf(R->getLocation()); o["l"] = loc(R->getLocation());
    if (!R->hasDefinition()) return J::Value(std::move(o));
    bool mine = inRoots(R->getLocation());
    o["mine"] = mine;
    if (mine && !R->isDependentContext()) {
      J::Array f;
      for (auto *F : R->fields()) {
        J::Object x; x["n"] = F->getNameAsString(); x["t"] = type(F->getType()); x["l"] = loc(F->getLocation());
        if (F->hasInClassInitializer() && F->getInClassInitializer()) x["init"] = true;
        x["mutable"] = F->isMutable();
        f.push_back(std::move(x));
      }
      o["fields"] = std::move(f);
      J::Array b;
      for (auto &B : R->bases()) b.push_back(type(B.getType()));
      o["bases"] = std::move(b);
      if (auto *D = R->getDestructor()) { o["dtor"] = fref(D); }
      J::Object flags;
      auto q = [&](const char *n, bool v) { flags[n] = v; };
      q("ucc", R->hasUserDeclaredCopyConstructor());
      q("uca", R->hasUserDeclaredCopyAssignment());
      q("umc", R->hasUserDeclaredMoveConstructor());
      q("uma", R->hasUserDeclaredMoveAssignment());
      q("udt", R->hasUserDeclaredDestructor());
      bool ccdel = false, cadel = false;
      for (auto *K : R->ctors()) if (K->isCopyConstructor() && K->isDeleted()) ccdel = true;
      for (auto *M : R->methods()) if (M->isCopyAssignmentOperator() && M->isDeleted()) cadel = true;
      q("ccdel", ccdel); q("cadel", cadel);
      q("impl_cc_del", R->defaultedCopyConstructorIsDeleted());
      o["flags"] = std::move(flags);
      J::Array ms;
      for (auto *M : R->methods()) {
        J::Object m; m["f"] = did(M); m["n"] = M->getNameAsString(); m["access"] = (int)M->getAccess();
        m["const"] = M->isConst(); m["deleted"] = M->isDeleted(); m["static"] = M->isStatic();
        m["l"] = loc(M->getLocation());
        ms.push_back(std::move(m));
      }
      o["methods"] = std::move(ms);
    } else if (auto *D = R->getDestructor()) {
      (void)D;
    }
    o["trivdtor"] = R->hasTrivialDestructor();
    o["trivcopy"] = R->isTriviallyCopyable();
    return J::Value(std::move(o));
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D;
  Collect(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (D.inRoots(F->getLocation())) D.fref(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->getDeclContext()->isDependentContext()) return true;
    if (V->hasGlobalStorage() && D.inRoots(V->getLocation()) && !V->getType()->isDependentType()) D.glob(V);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isDependentContext() || !R->hasDefinition()) return true;
    if (D.inRoots(R->getLocation()) && !R->isLambda()) D.addRec(R);
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    Dumper D(C);
    Collect V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    J::Array fs, rs, gs;
    size_t i = 0, j = 0;
    while (i < D.work.size() || j < D.recs.size()) {
      if (i < D.work.size()) { fs.push_back(D.func(D.work[i++])); continue; }
      rs.push_back(D.rec(D.recs[j++]));
    }
    for (auto &g : D.globals) gs.push_back(std::move(g.second));
    J::Object o;
    o["functions"] = std::move(fs);
    o["records"] = std::move(rs);
    o["globals"] = std::move(gs);
    o["types"] = std::move(D.types);
    o["errors"] = (int64_t)C.getDiagnostics().getNumErrors();
    llvm::outs() << J::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    return std::make_unique<Consumer>();
  }
};

// usage: extract --root=DIR ... FILE -- compiler args
int main(int argc, const char **argv) {
  std::vector<std::string> args;
  std::string file;
  int i = 1;
  for (; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--") { i++; break; }
    if (a.rfind("--root=", 0) == 0) Roots.push_back(a.substr(7));
    else file = a;
  }
  for (; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {file});
  Tool.setPrintErrorMessage(true);
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } factory;
  int rc = Tool.run(&factory);
  return rc;
}
