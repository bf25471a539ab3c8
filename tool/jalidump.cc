// jalidump: parses C++ sources with clang and writes a normalised, fully resolved
// syntax tree of every function defined under --root as JSON.  No code is run.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext &C;
  SourceManager &SM;
  J::Array Funcs, Classes, Enums, Globals, Patterns;
  std::set<std::string> seenFunc, seenClass, seenEnum, seenGlobal;
  std::map<const Decl *, int> localId;
  int nextId = 0;
  PrintingPolicy PP;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  unsigned lineOf(SourceLocation L) {
    if (L.isInvalid()) return 0;
    return SM.getExpansionLineNumber(L);
  }
  bool inRoot(SourceLocation L) {
    std::string f = fileOf(L);
    for (auto &r : Roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string usr(const Decl *D) {
    if (isa<FunctionDecl>(D)) D = D->getCanonicalDecl();   // a definition may add const to its parameters
    llvm::SmallString<128> B;
    if (index::generateUSRForDecl(D, B)) return "?";
    return std::string(B.str());
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os);
    return os.str();
  }
  int idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = localId.find(D);
    if (it != localId.end()) return it->second;
    return localId[D] = nextId++;
  }

  // ---- expressions -------------------------------------------------------
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
        if (P->isElidable() && P->getNumArgs() >= 1 &&
            P->getConstructor()->isCopyOrMoveConstructor()) { E = P->getArg(0); continue; }
      }
      break;
    }
    return E;
  }

  J::Object base(const char *k, const Expr *E) {
    J::Object o;
    o["k"] = k;
    o["t"] = ty(E->getType());
    o["l"] = lineOf(E->getBeginLoc());
    return o;
  }
  void addCV(J::Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T.isNull() || !T->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects) && R.Val.isInt())
      o["cv"] = sval(R.Val.getInt());
  }
  static int64_t sval(const llvm::APSInt &I) {
    return I.isRepresentableByInt64() ? I.getExtValue() : (int64_t)I.getLimitedValue();
  }
  J::Value declRef(const ValueDecl *D, const Expr *E) {
    if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      J::Object o = base("enum", E);
      o["e"] = qn(cast<NamedDecl>(EC->getDeclContext()));
      o["n"] = EC->getNameAsString();
      o["v"] = sval(EC->getInitVal());
      return o;
    }
    if (auto *F = dyn_cast<FunctionDecl>(D)) {
      J::Object o = base("fn", E);
      o["fn"] = qn(F);
      o["usr"] = usr(F);
      return o;
    }
    J::Object o = base("var", E);
    o["n"] = D->getNameAsString();
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (isa<ParmVarDecl>(V)) o["vk"] = "param";
      else if (V->hasLocalStorage()) o["vk"] = "local";
      else { o["vk"] = V->isStaticLocal() ? "slocal" : "global"; o["qn"] = qn(V); }
      addCV(o, E);
    }
    o["id"] = idOf(D);
    return o;
  }
  void callee(J::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fn"] = qn(F);
    o["usr"] = usr(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["cm"] = true;
      if (M->isStatic()) o["smeth"] = true;
    }
    J::Array pt;
    for (auto *P : F->parameters()) pt.push_back(ty(P->getType()));
    o["pt"] = std::move(pt);
    if (inRoot(F->getLocation())) o["repo"] = true;
    if (F->isNoReturn()) o["noret"] = true;
  }
  template <class R> J::Array exprs(R &&range) {
    J::Array a;
    for (const Expr *A : range) a.push_back(expr(A));
    return a;
  }
  J::Value expr(const Expr *E0) {
    const Expr *E = strip(E0);
    if (!E) return nullptr;
    bool defArg = false;
    {
      const Expr *X = E0;
      while (X) {
        if (isa<CXXDefaultArgExpr>(X)) { defArg = true; break; }
        if (auto *P = dyn_cast<ImplicitCastExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<ExprWithCleanups>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
          if (P->isElidable() && P->getNumArgs() >= 1) X = P->getArg(0); else break;
        } else break;
      }
    }
    J::Value v = expr1(E);
    if (defArg) if (auto *o = v.getAsObject()) (*o)["def"] = true;
    return v;
  }
  J::Value expr1(const Expr *E) {
    if (auto *L = dyn_cast<IntegerLiteral>(E)) { auto o = base("int", E); o["v"] = (int64_t)L->getValue().getLimitedValue(); return o; }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = base("bool", E); o["v"] = L->getValue(); return o; }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) { auto o = base("int", E); o["v"] = (int64_t)L->getValue(); return o; }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) { auto o = base("float", E); o["v"] = L->getValueAsApproximateDouble(); return o; }
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) { auto o = base("str", E); o["v"] = L->isOrdinary() ? L->getString().str() : std::string(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return base("null", E);
    if (isa<CXXThisExpr>(E)) return base("this", E);
    if (auto *D = dyn_cast<DeclRefExpr>(E)) return declRef(D->getDecl(), E);
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        auto o = base("mem", E);
        o["f"] = F->getNameAsString();
        o["c"] = qn(F->getParent());
        o["b"] = expr(M->getBase());
        if (M->isArrow()) o["arrow"] = true;
        return o;
      }
      return declRef(M->getMemberDecl(), E);
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      auto o = base("un", E);
      std::string op = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->getOpcode() == UO_PostInc) op = "p++";
      if (U->getOpcode() == UO_PostDec) op = "p--";
      o["op"] = op;
      o["e"] = expr(U->getSubExpr());
      addCV(o, E);
      return o;
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      auto o = base(B->isAssignmentOp() ? "asg" : "bin", E);
      o["op"] = B->getOpcodeStr().str();
      o["L"] = expr(B->getLHS());
      o["R"] = expr(B->getRHS());
      if (!B->isAssignmentOp()) addCV(o, E);
      return o;
    }
    if (auto *K = dyn_cast<ConditionalOperator>(E)) {
      auto o = base("cond", E);
      o["c"] = expr(K->getCond()); o["T"] = expr(K->getTrueExpr()); o["F"] = expr(K->getFalseExpr());
      addCV(o, E);
      return o;
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = base("idx", E);
      o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx());
      return o;
    }
    if (auto *K = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = K->getDirectCallee();
      auto o = base("call", E);
      callee(o, F);
      o["oper"] = getOperatorSpelling(K->getOperator());
      J::Array args;
      unsigned i = 0;
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        o["obj"] = expr(K->getArg(0));
        i = 1;
      }
      for (; i < K->getNumArgs(); i++) args.push_back(expr(K->getArg(i)));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *K = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = base("call", E);
      callee(o, K->getDirectCallee());
      if (auto *O = K->getImplicitObjectArgument()) {
        o["obj"] = expr(O);
        if (auto *ME = dyn_cast<MemberExpr>(K->getCallee()->IgnoreParens())) {
          if (ME->isArrow()) o["arrow"] = true;
          if (ME->hasQualifier()) o["qual"] = true;
        }
      }
      J::Array args;
      for (auto *A : K->arguments()) args.push_back(expr(A));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *K = dyn_cast<CallExpr>(E)) {
      auto o = base("call", E);
      if (auto *F = K->getDirectCallee()) callee(o, F);
      else o["callee"] = expr(K->getCallee());
      J::Array args;
      for (auto *A : K->arguments()) args.push_back(expr(A));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *K = dyn_cast<CXXConstructExpr>(E)) {
      auto o = base("ctor", E);
      callee(o, K->getConstructor());
      o["cls"] = qn(K->getConstructor()->getParent());
      if (K->getConstructor()->isCopyConstructor()) o["copy"] = true;
      if (K->getConstructor()->isMoveConstructor()) o["move"] = true;
      if (K->getConstructor()->isDefaultConstructor()) o["dflt"] = true;
      J::Array args;
      for (auto *A : K->arguments()) args.push_back(expr(A));
      o["a"] = std::move(args);
      return o;
    }
    if (auto *K = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto o = base("ctor", E); callee(o, K->getConstructor()); o["a"] = J::Array(); return o; }
    if (auto *N = dyn_cast<CXXNewExpr>(E)) {
      auto o = base("new", E);
      o["at"] = ty(N->getAllocatedType());
      if (N->isArray()) {
        o["arr"] = true;
        if (auto S = N->getArraySize()) if (*S) o["n"] = expr(*S);
      }
      if (N->getInitializer()) o["init"] = expr(N->getInitializer());
      return o;
    }
    if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
      auto o = base("del", E);
      if (D->isArrayForm()) o["arr"] = true;
      o["e"] = expr(D->getArgument());
      return o;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      auto o = base("cast", E);
      o["ck"] = X->getStmtClassName();
      o["e"] = expr(X->getSubExpr());
      addCV(o, E);
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto o = base("list", E);
      J::Array a;
      for (auto *I : X->inits()) a.push_back(expr(I));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto o = base("lambda", E);
      J::Array ps;
      for (auto *P : X->getCallOperator()->parameters()) {
        J::Object p; p["n"] = P->getNameAsString(); p["id"] = idOf(P); p["t"] = ty(P->getType()); ps.push_back(std::move(p));
      }
      o["p"] = std::move(ps);
      J::Array caps;
      for (auto &Cp : X->captures()) {
        J::Object c;
        if (Cp.capturesThis()) c["this"] = true;
        else if (Cp.capturesVariable()) { c["id"] = idOf(Cp.getCapturedVar()); c["n"] = Cp.getCapturedVar()->getNameAsString(); c["ref"] = Cp.getCaptureKind() == LCK_ByRef; }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      o["usr"] = usr(X->getCallOperator());
      o["body"] = stmt(X->getBody());
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = base("throw", E);
      if (X->getSubExpr()) o["e"] = expr(X->getSubExpr());
      return o;
    }
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return base("zero", E);
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { auto o = base("sizeof", E); addCV(o, E); (void)X; return o; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      auto o = base("typeid", E);
      if (X->isTypeOperand()) o["of"] = ty(X->getTypeOperand(C));
      else o["e"] = expr(X->getExprOperand());
      return o;
    }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) return expr(X->getCommonExpr()->getSourceExpr());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (X->getSourceExpr()) return expr(X->getSourceExpr()); }
    auto o = base("other", E);
    o["cls"] = E->getStmtClassName();
    J::Array sub;
    for (const Stmt *S : E->children()) if (S) { if (auto *SE = dyn_cast<Expr>(S)) sub.push_back(expr(SE)); }
    o["a"] = std::move(sub);
    addCV(o, E);
    return o;
  }

  // ---- statements --------------------------------------------------------
  J::Object sbase(const char *k, const Stmt *S) {
    J::Object o;
    o["k"] = k;
    o["l"] = lineOf(S->getBeginLoc());
    return o;
  }
  J::Object varDecl(const VarDecl *V) {
    J::Object o;
    o["n"] = V->getNameAsString();
    o["id"] = idOf(V);
    o["t"] = ty(V->getType());
    o["l"] = lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    return o;
  }
  J::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *E1 = strip(E);
      if (auto *T = dyn_cast<CXXThrowExpr>(E1)) {
        auto o = sbase("throw", S);
        if (T->getSubExpr()) o["e"] = expr(T->getSubExpr());
        return o;
      }
      auto o = sbase("expr", S);
      o["e"] = expr(E);
      return o;
    }
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      auto o = sbase("block", S);
      J::Array a;
      for (auto *X : B->body()) a.push_back(stmt(X));
      o["s"] = std::move(a);
      o["el"] = lineOf(B->getEndLoc());
      return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      auto o = sbase("decl", S);
      J::Array a;
      for (auto *X : D->decls())
        if (auto *V = dyn_cast<VarDecl>(X)) a.push_back(varDecl(V));
      o["d"] = std::move(a);
      return o;
    }
    if (auto *I = dyn_cast<IfStmt>(S)) {
      auto o = sbase("if", S);
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cvar"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond());
      o["T"] = stmt(I->getThen());
      if (I->getElse()) o["F"] = stmt(I->getElse());
      return o;
    }
    if (auto *F = dyn_cast<ForStmt>(S)) {
      auto o = sbase("for", S);
      if (F->getInit()) o["init"] = stmt(F->getInit());
      if (F->getCond()) o["c"] = expr(F->getCond());
      if (F->getInc()) o["inc"] = expr(F->getInc());
      o["body"] = stmt(F->getBody());
      return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(S)) {
      auto o = sbase("while", S);
      o["c"] = expr(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    if (auto *W = dyn_cast<DoStmt>(S)) {
      auto o = sbase("do", S);
      o["c"] = expr(W->getCond());
      o["body"] = stmt(W->getBody());
      return o;
    }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = sbase("rfor", S);
      J::Object v;
      auto *V = R->getLoopVariable();
      v["n"] = V->getNameAsString(); v["id"] = idOf(V); v["t"] = ty(V->getType()); v["l"] = lineOf(V->getLocation());
      if (V->getType()->isReferenceType()) v["ref"] = true;
      o["v"] = std::move(v);
      o["range"] = expr(R->getRangeInit());
      o["body"] = stmt(R->getBody());
      return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(S)) {
      auto o = sbase("switch", S);
      o["c"] = expr(W->getCond());
      J::Array items;  // flattened: {"case":v..}|{"default"}|stmt
      flatten(W->getBody(), items);
      o["items"] = std::move(items);
      return o;
    }
    if (auto *R = dyn_cast<ReturnStmt>(S)) {
      auto o = sbase("return", S);
      if (R->getRetValue()) o["e"] = expr(R->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(S)) return sbase("break", S);
    if (isa<ContinueStmt>(S)) return sbase("continue", S);
    if (isa<NullStmt>(S)) return sbase("null", S);
    if (auto *T = dyn_cast<CXXTryStmt>(S)) {
      auto o = sbase("try", S);
      o["body"] = stmt(T->getTryBlock());
      J::Array hs;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        J::Object h;
        h["l"] = lineOf(H->getCatchLoc());
        if (auto *V = H->getExceptionDecl()) { h["t"] = ty(V->getType()); h["id"] = idOf(V); h["n"] = V->getNameAsString(); }
        else h["all"] = true;
        h["body"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (isa<GotoStmt>(S)) return sbase("goto", S);
    auto o = sbase("other", S);
    o["cls"] = S->getStmtClassName();
    return o;
  }
  void flatten(const Stmt *S, J::Array &items) {
    if (!S) return;
    if (auto *B = dyn_cast<CompoundStmt>(S)) {
      for (auto *X : B->body()) flatten1(X, items);
      return;
    }
    flatten1(S, items);
  }
  void flatten1(const Stmt *S, J::Array &items) {
    if (auto *K = dyn_cast<CaseStmt>(S)) {
      J::Object o;
      o["k"] = "case";
      o["l"] = lineOf(K->getBeginLoc());
      o["v"] = expr(K->getLHS());
      Expr::EvalResult R;
      if (K->getLHS()->EvaluateAsInt(R, C)) o["cv"] = sval(R.Val.getInt());
      items.push_back(std::move(o));
      flatten1(K->getSubStmt(), items);
      return;
    }
    if (auto *D = dyn_cast<DefaultStmt>(S)) {
      J::Object o;
      o["k"] = "default";
      o["l"] = lineOf(D->getBeginLoc());
      items.push_back(std::move(o));
      flatten1(D->getSubStmt(), items);
      return;
    }
    items.push_back(stmt(S));
  }

  // ---- declarations ------------------------------------------------------
  J::Array params(const FunctionDecl *F) {
    J::Array a;
    for (auto *P : F->parameters()) {
      J::Object p;
      p["n"] = P->getNameAsString();
      p["id"] = idOf(P);
      p["t"] = ty(P->getType());
      p["st"] = P->getType().getAsString(PrintingPolicy(C.getLangOpts()));
      if (P->hasDefaultArg() && !P->hasUninstantiatedDefaultArg() && !P->hasUnparsedDefaultArg() && P->getDefaultArg()) p["dflt"] = expr(P->getDefaultArg());
      else if (P->hasUninstantiatedDefaultArg() && P->getUninstantiatedDefaultArg() && !P->getUninstantiatedDefaultArg()->isInstantiationDependent())
        p["dflt"] = expr(P->getUninstantiatedDefaultArg());
      else if (P->hasDefaultArg()) p["dflt"] = true;
      a.push_back(std::move(p));
    }
    return a;
  }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!inRoot(F->getLocation())) return true;
    if (F->isDependentContext() || F->isTemplated()) {
      if (F->isThisDeclarationADefinition()) {
        J::Object o; o["qn"] = qn(F); o["file"] = fileOf(F->getLocation()); o["line"] = lineOf(F->getLocation());
        o["usr"] = usr(F);
        Patterns.push_back(std::move(o));
      }
      return true;
    }
    if (!F->doesThisDeclarationHaveABody()) {
      if (F->isDefaulted() || F->isDeleted()) return true;
      return true;
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda()) return true;
    std::string u = usr(F);
    if (!seenFunc.insert(u).second) return true;
    J::Object o;
    o["usr"] = u;
    o["qn"] = qn(F);
    o["name"] = F->getNameAsString();
    o["file"] = fileOf(F->getLocation());
    o["line"] = lineOf(F->getLocation());
    o["eline"] = lineOf(F->getEndLoc());
    o["ret"] = ty(F->getReturnType());
    if (auto *Pat = F->getTemplateInstantiationPattern()) { o["pattern"] = usr(Pat); }
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      J::Array ta;
      for (auto &A : TA->asArray()) {
        std::string s; llvm::raw_string_ostream os(s); A.print(PP, os, true); ta.push_back(os.str());
      }
      o["targs"] = std::move(ta);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qn(M->getParent());
      o["clst"] = ty(C.getRecordType(M->getParent()));
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isStatic()) o["static"] = true;
      J::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(usr(B));
      if (ov.size()) o["overrides"] = std::move(ov);
      o["access"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        o["kind"] = K->isCopyConstructor() ? "copyctor" : K->isMoveConstructor() ? "movector" : "ctor";
        J::Array in;
        for (auto *I : K->inits()) {
          J::Object io;
          io["l"] = lineOf(I->getSourceLocation());
          if (I->isAnyMemberInitializer()) {
            io["f"] = I->getAnyMember()->getNameAsString();
            io["c"] = qn(I->getAnyMember()->getParent());
          } else if (I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0));
          else if (I->isDelegatingInitializer()) io["deleg"] = true;
          if (I->isWritten()) io["w"] = true;
          io["e"] = expr(I->getInit());
          in.push_back(std::move(io));
        }
        o["inits"] = std::move(in);
      } else if (isa<CXXDestructorDecl>(M)) o["kind"] = "dtor";
      else if (M->isCopyAssignmentOperator()) o["kind"] = "copyassign";
      else if (M->isMoveAssignmentOperator()) o["kind"] = "moveassign";
      else o["kind"] = "method";
    } else o["kind"] = "free";
    if (F->isImplicit()) o["implicit"] = true;
    if (F->getFormalLinkage() == Linkage::Internal) o["internal"] = true;
    o["params"] = params(F);
    o["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation()) || R->isLambda()) return true;
    if (R->isDependentContext()) return true;
    std::string u = usr(R);
    if (!seenClass.insert(u).second) return true;
    J::Object o;
    o["usr"] = u;
    o["qn"] = qn(R);
    o["t"] = ty(C.getRecordType(R));
    o["file"] = fileOf(R->getLocation());
    o["line"] = lineOf(R->getLocation());
    if (R->isAbstract()) o["abstract"] = true;
    J::Array bs;
    for (auto &B : R->bases()) bs.push_back(ty(B.getType()));
    o["bases"] = std::move(bs);
    J::Array fs;
    for (auto *F : R->fields()) {
      J::Object f;
      f["n"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      f["l"] = lineOf(F->getLocation());
      if (F->isMutable()) f["mut"] = true;
      if (F->hasInClassInitializer()) f["dmi"] = true;
      if (F->getType().isConstQualified()) f["const"] = true;
      QualType T = F->getType().getCanonicalType();
      QualType ET = T;
      while (auto *AT = C.getAsArrayType(ET)) ET = AT->getElementType();
      if (ET->isScalarType()) f["scalar"] = true;
      f["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private";
      fs.push_back(std::move(f));
    }
    o["fields"] = std::move(fs);
    J::Object sp;
    for (auto *M : R->methods()) {
      std::string k;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) {
        if (K->isCopyConstructor()) k = "copyctor"; else if (K->isMoveConstructor()) k = "movector"; else continue;
      } else if (M->isCopyAssignmentOperator()) k = "copyassign";
      else if (M->isMoveAssignmentOperator()) k = "moveassign";
      else if (isa<CXXDestructorDecl>(M)) k = "dtor";
      else continue;
      sp[k] = M->isDeleted() ? "deleted" : M->isUserProvided() ? "user" : "default";
    }
    o["special"] = std::move(sp);
    J::Array ms;
    for (auto *M : R->methods()) {
      if (M->isImplicit()) continue;
      J::Object m;
      m["n"] = M->getNameAsString(); m["usr"] = usr(M); m["ret"] = ty(M->getReturnType());
      if (M->isConst()) m["const"] = true;
      if (M->isVirtual()) m["virtual"] = true;
      if (M->isPureVirtual()) m["pure"] = true;
      if (M->isDeleted()) m["deleted"] = true;
      if (M->isStatic()) m["static"] = true;
      m["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private";
      m["l"] = lineOf(M->getLocation());
      m["params"] = params(M);
      J::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(usr(B));
      if (ov.size()) m["overrides"] = std::move(ov);
      ms.push_back(std::move(m));
    }
    o["methods"] = std::move(ms);
    Classes.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return true;
    std::string u = usr(E);
    if (!seenEnum.insert(u).second) return true;
    J::Object o;
    o["qn"] = qn(E);
    o["file"] = fileOf(E->getLocation());
    o["line"] = lineOf(E->getLocation());
    o["scoped"] = E->isScoped();
    J::Array es;
    for (auto *C1 : E->enumerators()) {
      J::Object e; e["n"] = C1->getNameAsString(); e["v"] = sval(C1->getInitVal()); es.push_back(std::move(e));
    }
    o["e"] = std::move(es);
    Enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!inRoot(V->getLocation())) return true;
    if (V->isStaticLocal() || (V->hasGlobalStorage() && !V->isStaticLocal())) {
      if (V->getDeclContext()->isDependentContext()) return true;
      std::string u = usr(V) + fileOf(V->getLocation()) + std::to_string(lineOf(V->getLocation()));
      if (!seenGlobal.insert(u).second) return true;
      J::Object o;
      o["qn"] = qn(V);
      o["n"] = V->getNameAsString();
      o["id"] = idOf(V);
      o["t"] = ty(V->getType());
      o["file"] = fileOf(V->getLocation());
      o["line"] = lineOf(V->getLocation());
      o["internal"] = V->getFormalLinkage() == Linkage::Internal;
      o["anon"] = V->isInAnonymousNamespace();
      o["slocal"] = V->isStaticLocal();
      o["const"] = V->getType().isConstQualified() || (V->getType()->isArrayType() && C.getBaseElementType(V->getType()).isConstQualified());
      o["def"] = V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
      if (V->hasInit()) o["init"] = expr(V->getInit());
      Globals.push_back(std::move(o));
    }
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance &CI;
  std::string file;
  Consumer(CompilerInstance &CI, std::string f) : CI(CI), file(f) {}
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Dumper D(Ctx);
    D.TraverseDecl(Ctx.getTranslationUnitDecl());
    J::Object o;
    o["tu"] = file;
    o["errors"] = (int64_t)CI.getDiagnostics().hasErrorOccurred();
    o["functions"] = std::move(D.Funcs);
    o["classes"] = std::move(D.Classes);
    o["enums"] = std::move(D.Enums);
    o["globals"] = std::move(D.Globals);
    o["patterns"] = std::move(D.Patterns);
    std::error_code EC;
    llvm::raw_fd_ostream os(OutPath, EC);
    os << J::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Consumer>(CI, F.str());
  }
};

// usage: jalidump OUT ROOT[,ROOT..] FILE -- FLAGS...
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  OutPath = argv[1];
  llvm::SmallVector<StringRef, 4> rs;
  StringRef(argv[2]).split(rs, ',');
  for (auto r : rs) Roots.push_back(r.str());
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
