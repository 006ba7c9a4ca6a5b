// susa-lint: effect analysis over the type-checked program (all function
// bodies and template instantiations of the analysed tree).  Rules:
//   shared-state   a variable with static storage that the program can modify
//   lost-update    a load followed by a separate store of one atomic object
//   const-write    an object received as constant (a const member function's
//                  object, a const reference/pointer parameter) is modified
//   frozen-init    a function-local static initialised from the call's operands
//   non-reentrant  a C library function with hidden static state
//   undefined      a function declared in a header and defined nowhere
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;
static std::string Root;

struct Lint : RecursiveASTVisitor<Lint> {
  ASTContext &C; SourceManager &SM;
  J::Array viol; J::Array sites;
  std::vector<const FunctionDecl *> funcs;
  std::vector<const VarDecl *> statics;
  std::set<const Decl *> seenFn;
  std::map<std::string, int> counts;
  std::set<std::string> dedup;
  Lint(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFileEntryRefForID(SM.getFileID(L));
    if (!F) return "";
    return std::string(F->getFileEntry().tryGetRealPathName());
  }
  std::string rel(SourceLocation L) {
    std::string f = fileOf(L);
    if (f.compare(0, Root.size() + 1, Root + "/") == 0) return f.substr(Root.size() + 1);
    return "";
  }
  bool mine(SourceLocation L) {
    std::string f = rel(L);
    return f.compare(0, 4, "inc/") == 0 || f.compare(0, 4, "src/") == 0;
  }
  void report(const char *kind, SourceLocation L, const std::string &func, const std::string &detail) {
    unsigned ln = SM.getExpansionLineNumber(L);
    std::string key = std::string(kind) + rel(L) + std::to_string(ln);
    if (!dedup.insert(key).second) return;
    J::Object o; o["kind"] = kind; o["file"] = rel(L); o["line"] = (int64_t)ln; o["func"] = func; o["detail"] = detail;
    viol.push_back(std::move(o));
  }
  std::string nm(const NamedDecl *D) { return D ? D->getQualifiedNameAsString() : ""; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
    if (!mine(F->getLocation())) return true;
    if (seenFn.insert(F->getCanonicalDecl()).second) funcs.push_back(F);
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (isa<ParmVarDecl>(V)) return true;
    if (!V->hasGlobalStorage() || !mine(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (seenFn.insert(V->getCanonicalDecl()).second) statics.push_back(V);
    return true;
  }

  // ---- types -------------------------------------------------------------
  static bool isAtomicRec(const CXXRecordDecl *R) {
    for (; R;) {
      if (R->isInStdNamespace()) {
        StringRef n = R->getName();
        if (n == "atomic" || n.starts_with("__atomic_base") || n == "atomic_flag" || n == "mutex" || n == "recursive_mutex" || n == "shared_mutex" || n == "once_flag" || n == "condition_variable") return true;
      }
      if (!R->hasDefinition() || R->getNumBases() != 1) return false;
      R = R->bases_begin()->getType()->getAsCXXRecordDecl();
    }
    return false;
  }
  bool threadSafe(QualType T, int depth = 0) { // no unsynchronised mutable part
    T = T.getCanonicalType();
    if (depth > 6) return false;
    if (auto *A = C.getAsArrayType(T)) return threadSafe(A->getElementType(), depth + 1);
    if (T->isAtomicType()) return true;
    if (auto *R = T->getAsCXXRecordDecl()) {
      if (isAtomicRec(R)) return true;
      if (!R->hasDefinition()) return false;
      for (auto *F : R->fields()) {
        QualType FT = F->getType();
        if (FT.isConstQualified() && !F->isMutable() && !FT->getAsCXXRecordDecl()) continue;
        if (!threadSafe(FT, depth + 1)) return false;
      }
      for (auto &B : R->bases()) if (!threadSafe(B.getType(), depth + 1)) return false;
      return true;
    }
    return T.isConstQualified();
  }
  bool hasMutableField(QualType T, int depth = 0) {
    auto *R = T.getCanonicalType()->getAsCXXRecordDecl();
    if (!R || !R->hasDefinition() || depth > 4 || isAtomicRec(R)) return false;
    for (auto *F : R->fields()) {
      if (F->isMutable() && !threadSafe(F->getType())) return true;
      if (hasMutableField(F->getType(), depth + 1)) return true;
    }
    return false;
  }

  // ---- does a function modify what a root designates? --------------------
  struct RootSet { bool self = false; std::set<const VarDecl *> vars; };
  static const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else return E;
    }
    return E;
  }
  static bool refOrPtr(QualType T) { return T->isReferenceType() || T->isPointerType(); }
  static QualType pointee(QualType T) { return T->getPointeeType(); }
  // names storage that belongs to a root (or points to such storage)
  bool tainted(const Expr *E, const RootSet &R, int depth = 0) {
    E = strip(E);
    if (!E || depth > 40) return false;
    if (isa<CXXThisExpr>(E)) return R.self;
    if (auto *D = dyn_cast<DeclRefExpr>(E)) { auto *V = dyn_cast<VarDecl>(D->getDecl()); return V && R.vars.count(V->getCanonicalDecl()); }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl())) return R.vars.count(V->getCanonicalDecl());
      if (!isa<FieldDecl>(M->getMemberDecl())) return false;
      return tainted(M->getBase(), R, depth + 1);
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) return tainted(A->getBase(), R, depth + 1);
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Deref || U->getOpcode() == UO_AddrOf || U->isIncrementDecrementOp()) return tainted(U->getSubExpr(), R, depth + 1);
      return false;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      if (B->getOpcode() == BO_Comma) return tainted(B->getRHS(), R, depth + 1);
      if (B->isAdditiveOp() && E->getType()->isPointerType()) return tainted(B->getLHS(), R, depth + 1) || tainted(B->getRHS(), R, depth + 1);
      if (B->isAssignmentOp() && E->isLValue()) return tainted(B->getLHS(), R, depth + 1);
      return false;
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      if (K->getCastKind() == CK_LValueToRValue && !K->getType()->isPointerType()) return false; // a value
      if (!(K->isGLValue() || K->getType()->isPointerType())) return false;
      return tainted(K->getSubExpr(), R, depth + 1);
    }
    if (auto *Q = dyn_cast<ConditionalOperator>(E)) {
      if (!(E->isGLValue() || E->getType()->isPointerType())) return false;
      return tainted(Q->getTrueExpr(), R, depth + 1) || tainted(Q->getFalseExpr(), R, depth + 1);
    }
    if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
      if (!(E->isGLValue() || E->getType()->isPointerType())) return false;
      return tainted(M->getImplicitObjectArgument(), R, depth + 1);
    }
    if (auto *O = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (!(E->isGLValue() || E->getType()->isPointerType()) || O->getNumArgs() == 0) return false;
      auto k = O->getOperator();
      if (k == OO_LessLess || k == OO_GreaterGreater) return false;
      return tainted(O->getArg(0), R, depth + 1);
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      const FunctionDecl *F = K->getDirectCallee();
      if (F && (F->isInStdNamespace()) && F->getIdentifier() && K->getNumArgs() >= 1 && (F->getName() == "move" || F->getName() == "forward" || F->getName() == "addressof" || F->getName() == "begin" || F->getName() == "data")) return tainted(K->getArg(0), R, depth + 1);
      return false;
    }
    return false;
  }
  static bool nonConstTarget(QualType T) { // non-const pointer/reference
    if (!refOrPtr(T)) return false;
    return !pointee(T).isConstQualified();
  }
  std::map<std::pair<const FunctionDecl *, std::string>, int> memo;
  // the writes of F to the roots: first one found (or null)
  struct Hit { const Expr *at = nullptr; std::string what; };
  struct BodyScan : RecursiveASTVisitor<BodyScan> {
    std::vector<const VarDecl *> vars; std::vector<const Expr *> exprs; std::vector<std::pair<const VarDecl *, const Expr *>> asg;
    std::vector<const ReturnStmt *> rets;
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitVarDecl(VarDecl *V) { vars.push_back(V); return true; }
    bool VisitReturnStmt(ReturnStmt *S) { rets.push_back(S); return true; }
    bool VisitExpr(Expr *E) {
      exprs.push_back(E);
      if (auto *B = dyn_cast<BinaryOperator>(E))
        if (B->getOpcode() == BO_Assign)
          if (auto *D = dyn_cast<DeclRefExpr>(strip(B->getLHS())))
            if (auto *V = dyn_cast<VarDecl>(D->getDecl())) asg.push_back({V->getCanonicalDecl(), B->getRHS()});
      return true;
    }
  };
  std::map<const FunctionDecl *, BodyScan> scans;
  BodyScan &scan(const FunctionDecl *F) {
    auto it = scans.find(F);
    if (it != scans.end()) return it->second;
    BodyScan &S = scans[F];
    if (F->getBody()) S.TraverseStmt(F->getBody());
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) for (auto *I : K->inits()) if (I->getInit()) S.TraverseStmt(I->getInit());
    return S;
  }
  void closeRoots(const FunctionDecl *F, RootSet &R) { // aliases
    BodyScan &S = scan(F);
    for (int n = 0; n < 8; n++) {
      bool ch = false;
      for (auto *V : S.vars) {
        QualType T = V->getType();
        if (!T->isReferenceType() && !T->isPointerType()) continue;
        if (!nonConstTarget(T) || R.vars.count(V->getCanonicalDecl())) continue;
        bool any = false, other = false;
        if (V->getInit()) {
          const Expr *I = strip(V->getInit());
          if (tainted(I, R)) any = true;
          else if (!I->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNull)) other = true;
        }
        for (auto &a : S.asg) if (a.first == V->getCanonicalDecl() && T->isPointerType()) {
          if (tainted(a.second, R)) any = true;
          else if (!strip(a.second)->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNull)) {
            // p = p + 1 keeps pointing to the same storage
            const Expr *X = strip(a.second);
            RootSet own; own.vars.insert(V->getCanonicalDecl());
            if (!tainted(X, own)) other = true;
          }
        }
        if (any && !other) { R.vars.insert(V->getCanonicalDecl()); ch = true; }
      }
      if (!ch) break;
    }
  }
  Hit writes(const FunctionDecl *F, RootSet R, int depth = 0) {
    Hit h;
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D) || depth > 5) return h;
    F = D;
    closeRoots(F, R);
    BodyScan &S = scan(F);
    auto memLV = [&](const Expr *L) { // an lvalue in storage (not merely a local pointer variable)
      L = strip(L);
      if (auto *X = dyn_cast<DeclRefExpr>(L)) {
        auto *V = dyn_cast<VarDecl>(X->getDecl());
        if (!V || !R.vars.count(V->getCanonicalDecl())) return false;
        if (V->getType()->isReferenceType() || V->hasGlobalStorage()) return true;
        return !V->getType()->isPointerType();
      }
      if (auto *P = dyn_cast<UnaryOperator>(L)) if (P->isIncrementDecrementOp()) return false;
      if (isa<CXXMemberCallExpr>(L) || isa<CXXOperatorCallExpr>(L)) {
        if (L->getType().isConstQualified()) return false;
      }
      return tainted(L, R);
    };
    for (auto *E : S.exprs) {
      if (auto *B = dyn_cast<BinaryOperator>(E)) {
        if (B->isAssignmentOp() && memLV(B->getLHS())) { h.at = E; h.what = "assignment"; return h; }
      } else if (auto *U = dyn_cast<UnaryOperator>(E)) {
        if (U->isIncrementDecrementOp() && memLV(U->getSubExpr())) { h.at = E; h.what = "increment/decrement"; return h; }
      } else if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
        if (tainted(X->getArgument(), R)) { h.at = E; h.what = "delete"; return h; }
      } else if (auto *K = dyn_cast<CallExpr>(E)) {
        const FunctionDecl *G = K->getDirectCallee();
        if (!G) continue;
        unsigned skip = 0;
        const Expr *obj = nullptr; const CXXMethodDecl *M = dyn_cast<CXXMethodDecl>(G);
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(E)) obj = MC->getImplicitObjectArgument();
        else if (isa<CXXOperatorCallExpr>(E) && M && !M->isStatic() && K->getNumArgs()) { obj = K->getArg(0); skip = 1; }
        if (obj && M && !M->isConst() && !M->isStatic() && !isa<CXXDestructorDecl>(M)) {
          bool t = tainted(obj, R);
          if (t && !isAtomicRec(M->getParent())) {
            const Expr *so = strip(obj);
            bool ptrvar = so->getType()->isPointerType();
            (void)ptrvar;
            if (mine(M->getLocation())) {
              RootSet Q; Q.self = true;
              Hit g = writes(M, Q, depth + 1);
              if (g.at) { h.at = E; h.what = "call of " + nm(M); return h; }
            } else if (M->isInStdNamespace() || (M->getParent() && M->getParent()->isInStdNamespace())) {
              StringRef n = M->getIdentifier() ? M->getName() : "";
              static const std::set<std::string> w = {"push_back","emplace_back","insert","erase","clear","resize","assign","pop_back","swap","emplace","push","pop","reserve","fill","push_front","pop_front","append","store","reset","seed"};
              bool mut = w.count(n.str()) || (M->isOverloadedOperator() && (M->getOverloadedOperator() == OO_Equal || M->getOverloadedOperator() == OO_PlusEqual || M->getOverloadedOperator() == OO_MinusEqual || M->getOverloadedOperator() == OO_StarEqual || M->getOverloadedOperator() == OO_SlashEqual || M->getOverloadedOperator() == OO_PlusPlus || M->getOverloadedOperator() == OO_MinusMinus));
              if (mut) {
                // an iterator/pointer variable itself is not the storage
                if (auto *dv = dyn_cast<DeclRefExpr>(so)) { auto *v = dyn_cast<VarDecl>(dv->getDecl()); if (v && !v->getType()->isReferenceType() && !v->hasGlobalStorage() && !isa<ParmVarDecl>(v)) continue; }
                h.at = E; h.what = "call of " + nm(M); return h;
              }
            }
          }
        }
        for (unsigned i = skip; i < K->getNumArgs(); i++) {
          unsigned pi = i - skip;
          if (pi >= G->getNumParams()) break;
          QualType PT = G->getParamDecl(pi)->getType();
          if (!nonConstTarget(PT)) continue;
          if (PT->isRValueReferenceType() && false) continue;
          if (!tainted(K->getArg(i), R)) continue;
          if (PT->isReferenceType()) {
            // reference to a local pointer variable: not the storage
            if (auto *X = dyn_cast<DeclRefExpr>(strip(K->getArg(i)))) { auto *v = dyn_cast<VarDecl>(X->getDecl()); if (v && v->getType()->isPointerType() && !v->hasGlobalStorage()) continue; }
          }
          const FunctionDecl *GD = nullptr;
          if (mine(G->getLocation()) && G->hasBody(GD)) {
            RootSet Q; Q.vars.insert(GD->getParamDecl(pi)->getCanonicalDecl());
            Hit g = writes(GD, Q, depth + 1);
            if (g.at) { h.at = E; h.what = "passed to " + nm(G) + ", which modifies it"; return h; }
          } else {
            std::string n = G->getIdentifier() ? G->getName().str() : "";
            static const std::set<std::string> d0 = {"memcpy","memmove","memset","strcpy","strncpy","strcat","free","realloc","fill","fill_n","iota","sort","stable_sort","reverse","rotate","generate","partial_sort","nth_element","transform_inplace","snprintf","sprintf","random_shuffle","shuffle","replace","unique","remove"};
            static const std::set<std::string> any = {"swap","swap_ranges","iter_swap","exchange"};
            static const std::set<std::string> last = {"copy","copy_n","transform","partial_sum","move_backward","copy_backward","uninitialized_copy"};
            bool w = (d0.count(n) && pi <= 1 && !(pi == 1 && (n == "memcpy" || n == "memmove"))) || any.count(n) || (last.count(n) && pi + (n == "transform" ? 2 : 1) >= G->getNumParams());
            if (w) { h.at = E; h.what = "passed to " + n; return h; }
          }
        }
      }
    }
    return h;
  }

  bool exemptStatic(const VarDecl *V) { // the process-wide stopwatch
    bool any = false;
    for (auto *F : funcs) {
      for (auto *E : scan(F).exprs)
        if (auto *D = dyn_cast<DeclRefExpr>(E)) if (D->getDecl()->getCanonicalDecl() == V->getCanonicalDecl()) {
          any = true;
          std::string n = nm(F);
          if (n != "susa::tic" && n != "susa::toc" && n != "susa::toc_print") return false;
        }
    }
    return any;
  }
  bool refersToOperands(const Expr *E, const FunctionDecl *F) {
    struct V : RecursiveASTVisitor<V> { bool hit = false;
      bool VisitDeclRefExpr(DeclRefExpr *D) { auto *v = dyn_cast<VarDecl>(D->getDecl()); if (v && !v->hasGlobalStorage() && !v->isConstexpr() && !(v->getType().isConstQualified() && v->getInit() && v->getType()->isIntegralOrEnumerationType() && !v->getInit()->isValueDependent() && v->getInit()->isConstantInitializer(v->getASTContext(), false))) hit = true; return true; }
      bool VisitCXXThisExpr(CXXThisExpr *) { hit = true; return true; }
      bool TraverseLambdaExpr(LambdaExpr *L) { return true; } } v;
    v.TraverseStmt(const_cast<Expr *>(E));
    return v.hit;
  }

  void runShared() {
    // variables of static storage duration
    for (auto *V : statics) {
      counts["static variables"]++;
      QualType T = V->getType();
      const FunctionDecl *in = dyn_cast<FunctionDecl>(V->getDeclContext());
      if (in && V->getInit() && refersToOperands(V->getInit(), in)) {
        report("frozen-init", V->getLocation(), nm(in), "static " + V->getNameAsString() + " keeps the value computed from the operands of the first call");
        continue;
      }
      if (V->isConstexpr()) continue;
      if (T.isConstQualified() && !hasMutableField(T)) continue;
      if (auto *A = C.getAsArrayType(T)) if (A->getElementType().isConstQualified()) continue;
      if (T->isReferenceType() && T->getPointeeType().isConstQualified()) continue;
      if (threadSafe(T)) continue;
      if (exemptStatic(V)) { counts["stopwatch variables"]++; continue; }
      // modified anywhere?
      bool hit = false;
      for (auto *F : funcs) {
        RootSet R; R.vars.insert(V->getCanonicalDecl());
        Hit h = writes(F, R);
        if (h.at) { report("shared-state", h.at->getExprLoc(), nm(F), "modifies the static variable " + nm(V) + " (" + h.what + "), which every object and thread shares"); hit = true; }
        // handed out for modification
        if (!hit && nonConstTarget(F->getReturnType()))
          for (auto *S : scan(F).rets) if (S->getRetValue()) {
            RootSet Q; Q.vars.insert(V->getCanonicalDecl()); closeRoots(F, Q);
            const Expr *X = strip(S->getRetValue());
            if (tainted(X, Q) && nm(F) != "") { report("shared-state", X->getExprLoc(), nm(F), "hands out the static variable " + nm(V) + " for modification"); hit = true; }
          }
      }
    }
    for (auto *F : funcs) {
      counts["functions"]++;
      auto *M = dyn_cast<CXXMethodDecl>(F);
      // const operands
      auto root = [&](const RootSet &R, const std::string &what) {
        counts["constant operands"]++;
        Hit h = writes(F, R);
        if (h.at) report("const-write", h.at->getExprLoc(), nm(F), "modifies " + what + " (" + h.what + ")");
      };
      if (M && !M->isStatic() && M->isConst() && !M->getParent()->isLambda()) { RootSet R; R.self = true; root(R, "the object of a const member function"); }
      for (auto *P : F->parameters()) {
        QualType T = P->getType();
        if (refOrPtr(T) && pointee(T).isConstQualified()) { RootSet R; R.vars.insert(P->getCanonicalDecl()); root(R, "its constant operand " + P->getNameAsString()); }
      }
      // atomic read-modify-write in two steps
      std::map<std::string, const Expr *> loads, stores;
      for (auto *E : scan(F).exprs) {
        auto *K = dyn_cast<CallExpr>(E);
        if (!K) continue;
        auto *G = dyn_cast_or_null<CXXMethodDecl>(K->getDirectCallee());
        if (!G || !isAtomicRec(G->getParent())) continue;
        const Expr *obj = isa<CXXMemberCallExpr>(E) ? cast<CXXMemberCallExpr>(E)->getImplicitObjectArgument() : K->getNumArgs() ? K->getArg(0) : nullptr;
        if (!obj) continue;
        obj = obj->IgnoreParenImpCasts();
        std::string key;
        if (auto *m = dyn_cast<MemberExpr>(obj)) key = nm(m->getMemberDecl());
        else if (auto *d = dyn_cast<DeclRefExpr>(obj)) key = nm(d->getDecl());
        else continue;
        counts["atomic accesses"]++;
        std::string n = G->getIdentifier() ? G->getName().str() : "";
        if (n == "load" || isa<CXXConversionDecl>(G)) loads[key] = E;
        if (n == "store" || (G->isOverloadedOperator() && G->getOverloadedOperator() == OO_Equal)) stores[key] = E;
      }
      for (auto &s : stores) if (loads.count(s.first)) report("lost-update", s.second->getExprLoc(), nm(F), "loads and separately stores the atomic " + s.first + ": a concurrent update in between is lost");
      // hidden static state of the C library
      static const std::set<std::string> bad = {"rand","srand","strtok","asctime","ctime","gmtime","localtime","setlocale","drand48","srand48","lrand48","mrand48","random","srandom","tmpnam","lgamma","getenv","strerror"};
      for (auto *E : scan(F).exprs) if (auto *K = dyn_cast<CallExpr>(E)) if (auto *G = K->getDirectCallee()) {
        if (!G->getIdentifier() || mine(G->getLocation())) continue;
        counts["library calls"]++;
        std::string n = G->getName().str();
        if (bad.count(n) && !isa<CXXMethodDecl>(G) && nm(F) != "susa::timestamp") report("non-reentrant", E->getExprLoc(), nm(F), "calls " + n + ", which keeps hidden state shared by all threads");
      }
    }
  }

  void runApi() {
    struct V : RecursiveASTVisitor<V> { Lint &L; V(Lint &L) : L(L) {}
      bool VisitFunctionDecl(FunctionDecl *F) {
        if (!L.mine(F->getLocation()) || F->isImplicit() || F->isDeleted() || F->isDefaulted() || F->isPureVirtual()) return true;
        if (F->getTemplateSpecializationKind() != TSK_Undeclared && F->getTemplateSpecializationKind() != TSK_ExplicitSpecialization) return true;
        if (F->getFriendObjectKind() != Decl::FOK_None && !F->getDescribedFunctionTemplate()) { /* friend declaration of a function */ }
        if (!L.seenFn.insert(F->getCanonicalDecl()).second) return true;
        L.counts["declared functions"]++;
        const FunctionDecl *D = nullptr;
        bool def = F->isDefined(D);
        if (!def) if (auto *T = F->getDescribedFunctionTemplate()) for (auto *r : T->redecls()) if (cast<FunctionTemplateDecl>(r)->getTemplatedDecl()->isThisDeclarationADefinition()) def = true;
        if (!def) L.report("undefined", F->getLocation(), L.nm(F), "declared but defined nowhere: " + F->getType().getAsString());
        return true;
      } } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
  }
};

struct Con : ASTConsumer { std::string mode; Con(std::string m) : mode(m) {}
  void HandleTranslationUnit(ASTContext &C) override {
    Lint L(C);
    if (mode == "shared") { L.TraverseDecl(C.getTranslationUnitDecl()); L.runShared(); }
    else L.runApi();
    J::Object o; o["violations"] = std::move(L.viol);
    J::Object c; for (auto &k : L.counts) c[k.first] = k.second;
    o["counts"] = std::move(c);
    o["errors"] = (int64_t)C.getDiagnostics().getNumErrors();
    llvm::outs() << J::Value(std::move(o)) << "\n";
  } };
struct Act : ASTFrontendAction { std::string mode; Act(std::string m) : mode(m) {}
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(mode); } };
struct Fac : tooling::FrontendActionFactory { std::string mode; Fac(std::string m) : mode(m) {}
  std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(mode); } };
int main(int argc, const char **argv) {
  // susa-lint MODE ROOT FILE -- args
  std::string mode = argv[1]; Root = argv[2]; std::string file = argv[3];
  int n = argc - 4; const char **av = argv + 4; std::string err;
  auto db = tooling::FixedCompilationDatabase::loadFromCommandLine(n, av, err);
  if (!db) { llvm::errs() << "no command line " << err; return 2; }
  tooling::ClangTool T(*db, {file});
  Fac F(mode);
  T.run(&F);
  return 0;
}
