// Fact extractor: dumps the type-resolved program (classes, functions with
// simplified expression trees and clang CFGs, globals) of one translation unit
// as JSON.  Only declarations located below the roots given with --root are
// emitted.   usage: gyfacts --root=/repo --out=FILE SRC -- clang-flags
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/QualTypeNames.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
namespace J = llvm::json;

static std::string Root, OutFile;

namespace {
struct Ctx {
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  std::map<const Type*, std::string> tcache;
  Ctx(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.SuppressUnwrittenScope = true;
    PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.TerseOutput = true;
  }
  std::string ty(QualType q) { if (q.isNull()) return "?"; return q.getCanonicalType().getAsString(PP); }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    if (f.empty()) return "";
    return f.str();
  }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    if (f.empty()) return false;
    if (f.rfind(Root, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }
  std::string rel(SourceLocation L) {
    std::string f = file(L);
    if (f.rfind(Root, 0) == 0) { f = f.substr(Root.size()); while(!f.empty()&&f[0]=='/') f=f.substr(1);} 
    // normalise "x/../"
    for (;;) { auto p = f.find("/../"); if (p==std::string::npos) break; auto s=f.rfind('/',p-1); size_t st = s==std::string::npos?0:s+1; f = f.substr(0,st)+f.substr(p+4);} 
    return f;
  }
  std::string qn(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true); os.flush();
    return s;
  }
  std::string fid(const FunctionDecl *F) {
    std::string s = qn(F);
    s += "(";
    bool first = true;
    for (auto *P : F->parameters()) { if (!first) s += ","; first = false; s += ty(P->getType().getCanonicalType().getUnqualifiedType()); }
    if (F->isVariadic()) s += ",...";
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isConst()) s += "const"; if (isa<CXXConversionDecl>(M)) s += "->" + ty(M->getReturnType().getCanonicalType()); }
    else if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) s = rel(F->getLocation()) + "::" + s;
    return s;
  }
};

struct FuncDumper {
  Ctx &X; J::Array nodes; std::map<const Stmt*, int> idx; std::map<const Decl*, int> varIdx;
  std::map<const Decl*, int> localNum; 
  std::set<const FunctionDecl*> *used; 
  FuncDumper(Ctx &x) : X(x) {}

  std::string vid(const VarDecl *V) {
    if (V->hasGlobalStorage()) { 
      if (V->isStaticLocal()) { auto *F = dyn_cast<FunctionDecl>(V->getDeclContext()); return "S:" + (F?X.fid(F):std::string("?")) + "::" + V->getNameAsString(); }
      if (V->getFormalLinkage()==Linkage::Internal && !V->isStaticDataMember()) return "G:" + X.rel(V->getLocation()) + "::" + X.qn(V);
      return "G:" + X.qn(V); }
    auto *K = V->getCanonicalDecl();
    auto it = localNum.find(K);
    int n; if (it == localNum.end()) { n = localNum.size(); localNum[K] = n; } else n = it->second;
    return "L:" + V->getNameAsString() + "@" + std::to_string(n);
  }
  std::string fieldId(const ValueDecl *D) {
    if (auto *F = dyn_cast<FieldDecl>(D)) return X.qn(cast<NamedDecl>(F->getParent())) + "::" + F->getNameAsString();
    return X.qn(D);
  }
  int add(J::Object o) { nodes.push_back(std::move(o)); return (int)nodes.size() - 1; }
  J::Object base(const char *k, const Stmt *S) {
    J::Object o; o["k"] = k; SourceLocation L = S->getBeginLoc();
    o["l"] = X.line(L);
    if (auto *E = dyn_cast<Expr>(S)) { o["t"] = X.ty(E->getType()); }
    return o;
  }
  std::string macro(SourceLocation L) {
    std::string m;
    while (L.isMacroID()) { m = Lexer::getImmediateMacroName(L, X.SM, X.C.getLangOpts()).str(); L = X.SM.getImmediateMacroCallerLoc(L); }
    return m;
  }
  void constv(J::Object &o, const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    QualType T = E->getType();
    if (T->isIntegralOrEnumerationType()) {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, X.C, Expr::SE_NoSideEffects)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); 
        if (R.Val.getInt().isRepresentableByInt64()) o["v"] = (int64_t)R.Val.getInt().getExtValue(); else o["v"] = s.str().str(); }
    } else if (T->isRealFloatingType()) {
      llvm::APFloat F(0.0);
      if (E->EvaluateAsFloat(F, X.C, Expr::SE_NoSideEffects)) { bool li; F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li); double d = F.convertToDouble(); 
        if (std::isfinite(d)) o["v"] = d; else o["v"] = std::isnan(d)?"nan":(d>0?"inf":"-inf"); }
    }
  }
  int var(const VarDecl *V) {
    auto it = varIdx.find(V); if (it != varIdx.end()) return it->second;
    J::Object o; o["k"] = "Var"; o["l"] = X.line(V->getLocation()); o["t"] = X.ty(V->getType()); o["d"] = vid(V);
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getType().isConstQualified() || V->isConstexpr()) o["const"] = true;
    J::Array c;
    if (auto *I = V->getInit()) c.push_back(walk(I));
    o["c"] = std::move(c);
    int n = add(std::move(o)); varIdx[V] = n; return n;
  }
  int walk(const Stmt *S) {
    if (!S) return -1;
    auto it = idx.find(S); if (it != idx.end()) return it->second;
    int n = walk1(S); idx[S] = n; return n;
  }
  J::Array kids(const Stmt *S) { J::Array a; for (auto *c : S->children()) if (c) a.push_back(walk(c)); return a; }
  int gen(const char *k, const Stmt *S) { auto a = kids(S); auto o = base(k, S); o["c"] = std::move(a); return add(std::move(o)); }
  void calleeInfo(J::Object &o, const FunctionDecl *F) {
    o["f"] = X.fid(F); o["q"] = X.qn(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { if (M->isVirtual()) o["virt"] = true; if (M->isStatic()) o["stat"]=true; 
      if (M->isConst()) o["cst"] = true; o["cls"] = X.qn(M->getParent()); }
    o["n"] = F->getNameAsString();
    if (F->isNoReturn()) o["noret"] = true;
  }
  int walk1(const Stmt *S) {
    // transparent wrappers
    if (auto *E = dyn_cast<ImplicitCastExpr>(S)) {
      // keep user-defined conversions visible through their child call; derived->base is transparent
      return walk(E->getSubExpr());
    }
    if (auto *E = dyn_cast<ParenExpr>(S)) return walk(E->getSubExpr());
    if (auto *E = dyn_cast<FullExpr>(S)) return walk(E->getSubExpr());
    if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) return walk(E->getSubExpr());
    if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) return walk(E->getSubExpr());
    if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) return walk(E->getReplacement());
    if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { int c = walk(E->getExpr()); auto o = base("DefArg", S); o["c"] = J::Array{c}; return add(std::move(o)); }
    if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { int c = walk(E->getExpr()); auto o = base("DefInit", S); o["c"] = J::Array{c}; return add(std::move(o)); }
    if (auto *E = dyn_cast<CXXStdInitializerListExpr>(S)) return walk(E->getSubExpr());

    if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      auto o = base("Ref", S); auto *D = E->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { o["d"] = vid(V); o["dk"] = isa<ParmVarDecl>(V) ? "param" : V->hasGlobalStorage() ? "global" : "local"; }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; calleeInfo(o, F); }
      else if (auto *C = dyn_cast<EnumConstantDecl>(D)) { o["dk"] = "enum"; o["d"] = X.qn(C); }
      else if (auto *F = dyn_cast<FieldDecl>(D)) { o["dk"] = "field"; o["d"] = fieldId(F); }
      else { o["dk"] = "other"; o["d"] = X.qn(D); }
      constv(o, E);
      return add(std::move(o));
    }
    if (auto *E = dyn_cast<MemberExpr>(S)) {
      int b = walk(E->getBase()); auto o = base("Mem", S); auto *D = E->getMemberDecl();
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["d"] = fieldId(F); o["n"] = F->getNameAsString(); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; calleeInfo(o, F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["k"] = "Ref"; o["dk"] = "global"; o["d"] = vid(V); }
      if (E->isArrow()) o["arrow"] = true;
      if (E->hasQualifier()) o["qual"] = true;
      o["c"] = J::Array{b}; constv(o, E);
      return add(std::move(o));
    }
    if (isa<CXXThisExpr>(S)) return add(base("This", S));
    if (auto *E = dyn_cast<CallExpr>(S)) {
      J::Array c; auto o = base("Call", S);
      const FunctionDecl *F = E->getDirectCallee();
      if (F) calleeInfo(o, F);
      std::string m = macro(E->getBeginLoc()); if (!m.empty()) o["m"] = m;
      if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
        o["mc"] = true;
        auto *ce = M->getCallee()->IgnoreParens();
        if (auto *me = dyn_cast<MemberExpr>(ce)) { c.push_back(walk(me->getBase())); if (me->hasQualifier()) o["qual"] = true; if (me->isArrow()) o["arrow"]=true; 
          // register the member expr too (for CFG)
          idx[me] = -2; }
        else { o["ptrmem"] = true; c.push_back(walk(ce)); }
      } else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) o["mc"] = true;
      } else if (!F) { o["indirect"] = true; c.push_back(walk(E->getCallee())); }
      for (auto *A : E->arguments()) c.push_back(walk(A));
      o["c"] = std::move(c); constv(o, E);
      return add(std::move(o));
    }
    if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      if (E->isElidable() && E->getNumArgs() == 1) return walk(E->getArg(0));
      J::Array c; for (auto *A : E->arguments()) c.push_back(walk(A));
      auto o = base("Ctor", S); calleeInfo(o, E->getConstructor());
      auto *CD = E->getConstructor();
      if (CD->isCopyConstructor()) o["copy"] = true; 
      if (CD->isMoveConstructor()) o["move"] = true;
      if (CD->isTrivial()) o["triv"] = true;
      if (E->requiresZeroInitialization()) o["zero"] = true;
      o["c"] = std::move(c); return add(std::move(o));
    }
    if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      J::Array c; auto o = base("New", S); o["at"] = X.ty(E->getAllocatedType());
      if (E->isArray()) { o["arr"] = true; if (auto sz = E->getArraySize()) c.push_back(walk(*sz)); }
      if (auto *I = E->getInitializer()) { c.push_back(walk(I)); o["init"] = true; }
      for (unsigned i = 0; i < E->getNumPlacementArgs(); ++i) { o["placement"] = true; c.push_back(walk(E->getPlacementArg(i))); }
      o["c"] = std::move(c); return add(std::move(o));
    }
    if (auto *E = dyn_cast<CXXDeleteExpr>(S)) {
      int a = walk(E->getArgument()); auto o = base("Delete", S); if (E->isArrayForm()) o["arr"] = true; o["c"] = J::Array{a}; 
      o["dt"] = X.ty(E->getDestroyedType());
      return add(std::move(o));
    }
    if (auto *E = dyn_cast<BinaryOperator>(S)) { auto a = kids(S); auto o = base(E->isAssignmentOp() ? "Asg" : "Bin", S); o["op"] = E->getOpcodeStr().str(); o["c"] = std::move(a); if (!E->isAssignmentOp()) constv(o, E); return add(std::move(o)); }
    if (auto *E = dyn_cast<UnaryOperator>(S)) { auto a = kids(S); auto o = base("Un", S); o["op"] = UnaryOperator::getOpcodeStr(E->getOpcode()).str(); if (E->isPostfix()) o["post"] = true; o["c"] = std::move(a); constv(o, E); return add(std::move(o)); }
    if (auto *E = dyn_cast<ArraySubscriptExpr>(S)) { int b = walk(E->getBase()), i = walk(E->getIdx()); auto o = base("Sub", S); o["c"] = J::Array{b, i}; return add(std::move(o)); }
    if (auto *E = dyn_cast<AbstractConditionalOperator>(S)) { int a = walk(E->getCond()), b = walk(E->getTrueExpr()), c = walk(E->getFalseExpr()); auto o = base("Cond", S); o["c"] = J::Array{a,b,c}; constv(o,E); return add(std::move(o)); }
    if (auto *E = dyn_cast<ExplicitCastExpr>(S)) {
      int a = walk(E->getSubExpr()); auto o = base("Cast", S); o["ck"] = E->getCastKindName(); 
      o["style"] = isa<CXXDynamicCastExpr>(E) ? "dynamic" : isa<CXXStaticCastExpr>(E) ? "static" : isa<CXXReinterpretCastExpr>(E) ? "reinterpret" : isa<CXXConstCastExpr>(E) ? "const" : isa<CStyleCastExpr>(E) ? "c" : "func";
      o["c"] = J::Array{a}; constv(o, E); return add(std::move(o)); }
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { auto o = base("Lit", S); constv(o, E); return add(std::move(o)); }
    if (auto *E = dyn_cast<FloatingLiteral>(S)) { auto o = base("Lit", S); constv(o, E); return add(std::move(o)); }
    if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) { auto o = base("Lit", S); o["v"] = (int64_t)E->getValue(); return add(std::move(o)); }
    if (auto *E = dyn_cast<CharacterLiteral>(S)) { auto o = base("Lit", S); o["v"] = (int64_t)E->getValue(); return add(std::move(o)); }
    if (isa<CXXNullPtrLiteralExpr>(S) || isa<GNUNullExpr>(S)) { auto o = base("Lit", S); o["v"] = 0; o["null"] = true; return add(std::move(o)); }
    if (auto *E = dyn_cast<StringLiteral>(S)) { auto o = base("Str", S); o["s"] = E->getCharByteWidth()==1 ? J::fixUTF8(E->getString()) : std::string(); return add(std::move(o)); }
    if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) { auto o = base("SizeOf", S); constv(o, E); J::Array c; if (!E->isArgumentType()) c.push_back(walk(E->getArgumentExpr())); else o["at"]=X.ty(E->getArgumentType()); o["c"]=std::move(c); return add(std::move(o)); }
    if (auto *E = dyn_cast<InitListExpr>(S)) { auto *Sem = E->isSemanticForm() ? E : E->getSemanticForm(); if (!Sem) Sem = E; J::Array c; for (auto *i : Sem->inits()) c.push_back(walk(i)); auto o = base("IList", S); if (Sem->hasArrayFiller()) o["filler"] = true; o["c"] = std::move(c); return add(std::move(o)); }
    if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) { auto o = base("Zero", S); constv(o, cast<Expr>(S)); return add(std::move(o)); }
    if (auto *E = dyn_cast<CXXThrowExpr>(S)) { return gen("Throw", S); }
    if (auto *E = dyn_cast<LambdaExpr>(S)) { int b = walk(E->getBody()); auto o = base("Lambda", S); J::Array c; c.push_back(b); o["c"] = std::move(c); 
      J::Array ps; J::Array pt, caps; for (auto *P : E->getCallOperator()->parameters()) { ps.push_back(vid(P)); pt.push_back(X.ty(P->getType())); } o["params"]=std::move(ps); o["pt"]=std::move(pt);
      for (auto &C : E->captures()) if (C.capturesVariable()) if (auto *V = dyn_cast<VarDecl>(C.getCapturedVar())) { J::Object co; co["d"]=vid(V); co["ref"]=C.getCaptureKind()==LCK_ByRef; if (V->isInitCapture() && V->getInit()) co["init"]=walk(V->getInit()); caps.push_back(std::move(co)); }
      o["caps"]=std::move(caps); return add(std::move(o)); }
    if (auto *E = dyn_cast<CXXPseudoDestructorExpr>(S)) return gen("PseudoDtor", S);
    if (auto *E = dyn_cast<OpaqueValueExpr>(S)) { if (E->getSourceExpr()) return walk(E->getSourceExpr()); return gen("Opaque", S); }

    // statements
    if (auto *D = dyn_cast<DeclStmt>(S)) {
      J::Array c; for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) c.push_back(var(V));
      auto o = base("Decl", S); o["c"] = std::move(c); return add(std::move(o)); }
    if (isa<CompoundStmt>(S)) return gen("Block", S);
    if (auto *I = dyn_cast<IfStmt>(S)) { J::Array c; if (I->getInit()) c.push_back(walk(I->getInit())); if (I->getConditionVariableDeclStmt()) c.push_back(walk(I->getConditionVariableDeclStmt()));
      int k = walk(I->getCond()), t = walk(I->getThen()), e = I->getElse() ? walk(I->getElse()) : -1; auto o = base("If", S); std::string m = macro(I->getBeginLoc()); if (!m.empty()) o["m"] = m;
      o["cond"] = k; o["then"] = t; o["else"] = e; c.push_back(k); c.push_back(t); if (e >= 0) c.push_back(e); o["c"] = std::move(c); return add(std::move(o)); }
    if (auto *F = dyn_cast<ForStmt>(S)) { J::Array c; int i = walk(F->getInit()), cv = F->getConditionVariableDeclStmt()?walk(F->getConditionVariableDeclStmt()):-1, k = walk(F->getCond()), n = walk(F->getInc()), b = walk(F->getBody()); auto o = base("For", S);
      o["init"] = i; o["cond"] = k; o["inc"] = n; o["body"] = b; for (int x : {i, cv, k, b, n}) if (x >= 0) c.push_back(x); o["c"] = std::move(c); return add(std::move(o)); }
    if (auto *W = dyn_cast<WhileStmt>(S)) { int k = walk(W->getCond()), b = walk(W->getBody()); auto o = base("While", S); o["cond"] = k; o["body"] = b; o["c"] = J::Array{k,b}; return add(std::move(o)); }
    if (auto *W = dyn_cast<DoStmt>(S)) { int b = walk(W->getBody()), k = walk(W->getCond()); auto o = base("Do", S); o["cond"] = k; o["body"] = b; o["c"] = J::Array{b,k}; return add(std::move(o)); }
    if (auto *R = dyn_cast<CXXForRangeStmt>(S)) { J::Array c; int i=walk(R->getRangeStmt()), be=walk(R->getBeginStmt()), en=walk(R->getEndStmt()), k=walk(R->getCond()), n=walk(R->getInc()), v=walk(R->getLoopVarStmt()), b=walk(R->getBody()); auto o=base("ForRange",S); o["body"]=b; for (int x : {i,be,en,k,v,b,n}) if (x>=0) c.push_back(x); o["c"]=std::move(c); return add(std::move(o)); }
    if (auto *W = dyn_cast<SwitchStmt>(S)) { J::Array c; int k = walk(W->getCond()), b = walk(W->getBody()); auto o = base("Switch", S); o["cond"] = k; o["body"] = b; o["ct"] = X.ty(W->getCond()->IgnoreParenImpCasts()->getType()); o["c"] = J::Array{k,b}; return add(std::move(o)); }
    if (auto *C = dyn_cast<CaseStmt>(S)) { int k = walk(C->getLHS()), b = walk(C->getSubStmt()); auto o = base("Case", S); { J::Object t; constv(t, C->getLHS()); if (auto *v = t.get("v")) o["v"] = *v; } o["c"] = J::Array{k,b}; return add(std::move(o)); }
    if (auto *C = dyn_cast<DefaultStmt>(S)) { int b = walk(C->getSubStmt()); auto o = base("Default", S); o["c"] = J::Array{b}; return add(std::move(o)); }
    if (isa<ReturnStmt>(S)) return gen("Return", S);
    if (isa<BreakStmt>(S)) return gen("Break", S);
    if (isa<ContinueStmt>(S)) return gen("Continue", S);
    if (isa<GotoStmt>(S)) return gen("Goto", S);
    if (isa<LabelStmt>(S)) return gen("Label", S);
    if (isa<NullStmt>(S)) return gen("Null", S);
    if (auto *T = dyn_cast<CXXTryStmt>(S)) return gen("Try", S);
    if (auto *T = dyn_cast<CXXCatchStmt>(S)) { J::Array c; auto o = base("Catch", S); if (T->getExceptionDecl()) { o["et"] = X.ty(T->getCaughtType()); o["d"] = vid(T->getExceptionDecl()); } else o["et"] = "..."; c.push_back(walk(T->getHandlerBlock())); o["c"] = std::move(c); return add(std::move(o)); }
    { auto a = kids(S); auto o = base("Other", S); o["cls"] = S->getStmtClassName(); o["c"] = std::move(a); return add(std::move(o)); }
  }

  J::Value cfg(const FunctionDecl *F) {
    CFG::BuildOptions BO; BO.AddInitializers = true; BO.AddImplicitDtors = true; BO.AddEHEdges = false; BO.PruneTriviallyFalseEdges = false;
    BO.AddCXXDefaultInitExprInCtors = true; BO.AddCXXDefaultInitExprInAggregates = true;
    BO.setAllAlwaysAdd();
    auto cfg = CFG::buildCFG(F, F->getBody(), &X.C, BO);
    if (!cfg) return nullptr;
    J::Array blocks;
    std::map<const CXXCtorInitializer*, int> im;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) { int i = 0; for (auto *I : CD->inits()) im[I] = i++; }
    for (auto *B : *cfg) {
      J::Object b; b["id"] = (int)B->getBlockID();
      J::Array e; int last = -1;
      for (auto &El : *B) {
        if (auto CS = El.getAs<CFGStmt>()) {
          const Stmt *S = CS->getStmt(); int n = -1;
          auto it = idx.find(S);
          if (it != idx.end()) n = it->second;
          else if (auto *DS = dyn_cast<DeclStmt>(S)) { if (DS->isSingleDecl()) { auto v = varIdx.find(DS->getSingleDecl()); if (v != varIdx.end()) n = v->second; } }
          else { n = -1; }
          if (n >= 0 && n != last) { 
             e.push_back(n); last = n; }
        } else if (auto CI = El.getAs<CFGInitializer>()) { e.push_back(J::Array{"init", im[CI->getInitializer()]}); last = -1; }
        else if (auto AD = El.getAs<CFGAutomaticObjDtor>()) { if (AD->getVarDecl()) e.push_back(J::Array{"dtor", vid(AD->getVarDecl()), X.ty(AD->getVarDecl()->getType())}); last = -1; }
      }
      b["e"] = std::move(e);
      if (auto *T = B->getTerminatorStmt()) { auto it = idx.find(T); b["t"] = it != idx.end() ? it->second : -1; 
        if (auto *TC = B->getTerminatorCondition()) { auto it2 = idx.find(TC); if (it2 != idx.end()) b["tc"] = it2->second; } }
      if (auto *L = B->getLabel()) { auto it = idx.find(L); if (it != idx.end()) b["lab"] = it->second; }
      if (B->hasNoReturnElement()) b["noret"] = true;
      J::Array s; for (auto I = B->succ_begin(); I != B->succ_end(); ++I) { 
        const CFGBlock *R = I->getReachableBlock(); if (!R) R = I->getPossiblyUnreachableBlock();
        if (R) s.push_back((int)R->getBlockID()); else s.push_back(-1); }
      b["s"] = std::move(s);
      blocks.push_back(std::move(b));
    }
    J::Object o; o["entry"] = (int)cfg->getEntry().getBlockID(); o["exit"] = (int)cfg->getExit().getBlockID(); o["b"] = std::move(blocks);
    return J::Value(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
  Ctx &X; J::Array &funcs, &classes, &vars, &enums; std::set<std::string> seenF, seenV; std::set<const Decl*> seenC;
public:
  V(Ctx &x, J::Array &f, J::Array &c, J::Array &v, J::Array &e) : X(x), funcs(f), classes(c), vars(v), enums(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext()) return true;
    if (!F->doesThisDeclarationHaveABody() ) return true;
    if (!X.inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    std::string id = X.fid(F);
    if (!seenF.insert(id).second) return true;
    J::Object o; o["id"] = id; o["q"] = X.qn(F); o["n"] = F->getNameAsString(); o["file"] = X.rel(F->getLocation()); o["l"] = X.line(F->getLocation());
    o["ret"] = X.ty(F->getReturnType());
    if (F->isImplicit()) o["implicit"] = true;
    if (F->isDefaulted()) o["defaulted"] = true;
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (!isa<CXXMethodDecl>(F) && F->isStatic()) o["internal"] = true;
    FuncDumper D(X);
    J::Array ps; for (auto *P : F->parameters()) { J::Object p; p["n"] = P->getNameAsString(); p["t"] = X.ty(P->getType()); p["d"] = D.vid(P); ps.push_back(std::move(p)); }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = X.qn(M->getParent()); if (M->isStatic()) o["static"] = true; if (M->isVirtual()) o["virtual"] = true; if (M->isConst()) o["const"] = true;
      J::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(X.fid(B)); if (!ov.empty()) o["ovr"] = std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        o["kind"] = "ctor"; if (CD->isCopyConstructor()) o["copy"] = true; if (CD->isDefaultConstructor()) o["default"] = true; if (CD->isMoveConstructor()) o["move"] = true;
        J::Array in;
        for (auto *I : CD->inits()) { J::Object i; if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString(); else if (I->isBaseInitializer()) i["base"] = X.ty(QualType(I->getBaseClass(),0)); else i["deleg"] = true;
          i["w"] = I->isWritten(); i["l"]=X.line(I->getSourceLocation()); i["e"] = D.walk(I->getInit()); in.push_back(std::move(i)); }
        o["inits"] = std::move(in);
      } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor"; else o["kind"] = "method";
    } else o["kind"] = "func";
    o["body"] = D.walk(F->getBody());
    o["cfg"] = D.cfg(F);
    o["nodes"] = std::move(D.nodes);
    funcs.push_back(std::move(o));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!X.inRoot(R->getLocation())) return true;
    if (!seenC.insert(R).second) return true;
    J::Object o; o["q"] = X.qn(R); o["file"] = X.rel(R->getLocation()); o["l"] = X.line(R->getLocation());
    J::Array b; for (auto &B : R->bases()) { J::Object x; x["q"] = X.ty(B.getType()); x["virtual"] = B.isVirtual(); x["access"] = (int)B.getAccessSpecifier(); b.push_back(std::move(x)); } o["bases"] = std::move(b);
    J::Array f; for (auto *F : R->fields()) { J::Object x; x["n"] = F->getNameAsString(); x["t"] = X.ty(F->getType()); x["wt"] = F->getType().getAsString(X.C.getPrintingPolicy()); x["l"] = X.line(F->getLocation()); if (F->isMutable()) x["mutable"] = true; if (F->hasInClassInitializer()) x["dinit"] = true; x["access"]=(int)F->getAccess(); f.push_back(std::move(x)); } o["fields"] = std::move(f);
    J::Array m; for (auto *M : R->methods()) { J::Object x; x["id"] = X.fid(M); x["n"] = M->getNameAsString(); if (M->isVirtual()) x["virtual"] = true; if (M->isPureVirtual()) x["pure"] = true; if (M->isStatic()) x["static"] = true; if (M->isConst()) x["const"] = true; if (M->isDeleted()) x["deleted"] = true; if (M->isUserProvided()) x["user"] = true; if (M->isImplicit()) x["implicit"] = true;
      x["access"]=(int)M->getAccess(); x["l"]=X.line(M->getLocation()); x["ret"]=X.ty(M->getReturnType());
      J::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(X.fid(B)); if (!ov.empty()) x["ovr"] = std::move(ov);
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { x["kind"] = "ctor"; if (CD->isCopyConstructor()) x["copy"] = true; if (CD->isDefaultConstructor()) x["default"] = true; if (CD->isMoveConstructor()) x["move"]=true; } else if (isa<CXXDestructorDecl>(M)) x["kind"] = "dtor"; else { x["kind"] = "method"; if (M->isCopyAssignmentOperator()) x["copyassign"]=true; }
      m.push_back(std::move(x)); } o["methods"] = std::move(m);
    J::Array sf; for (auto *D : R->decls()) if (auto *VD = dyn_cast<VarDecl>(D)) { J::Object x; x["n"] = VD->getNameAsString(); x["t"] = X.ty(VD->getType()); x["const"] = VD->getType().isConstQualified(); sf.push_back(std::move(x)); } o["sfields"] = std::move(sf);
    o["abstract"] = R->isAbstract(); o["poly"] = R->isPolymorphic();
    o["implicit_copy"] = R->hasSimpleCopyConstructor() || R->needsImplicitCopyConstructor();
    o["user_copy"] = R->hasUserDeclaredCopyConstructor();
    if (isa<ClassTemplateSpecializationDecl>(R)) o["inst"] = true;
    classes.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || D->getDeclContext()->isDependentContext()) return true;
    if (!X.inRoot(D->getLocation())) return true;
    if (isa<ParmVarDecl>(D)) return true;
    FuncDumper FD(X); std::string id = FD.vid(D); bool def = D->isThisDeclarationADefinition() == VarDecl::Definition || (D->isStaticLocal());
    if (!seenV.insert(id + (def ? "D" : "")).second) return true;
    J::Object o; o["id"] = id; o["t"] = X.ty(D->getType()); o["file"] = X.rel(D->getLocation()); o["l"] = X.line(D->getLocation()); o["def"] = def;
    o["const"] = D->getType().isConstQualified() || D->getType().isConstant(X.C); if (D->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; if (D->isStaticLocal()) o["slocal"] = true;
    if (D->isStaticDataMember()) o["smember"] = true;
    if (def && D->getInit() && !D->isStaticLocal()) { o["init"] = FD.walk(D->getInit()); o["nodes"] = std::move(FD.nodes); }
    vars.push_back(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !X.inRoot(E->getLocation())) return true;
    J::Object o; o["q"] = X.qn(E); o["file"] = X.rel(E->getLocation()); J::Object vals; for (auto *c : E->enumerators()) { auto iv = c->getInitVal(); vals[c->getNameAsString()] = iv.isRepresentableByInt64() ? iv.getExtValue() : (int64_t)iv.getZExtValue(); } o["vals"] = std::move(vals); enums.push_back(std::move(o)); return true;
  }
};

struct Cons : ASTConsumer {
  CompilerInstance &CI; Cons(CompilerInstance &c) : CI(c) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (CI.getDiagnostics().hasErrorOccurred()) return;
    // instantiate nothing more: Sema already did
    Ctx X(C); J::Array f, c, v, e;
    V vis(X, f, c, v, e); vis.TraverseDecl(C.getTranslationUnitDecl());
    J::Object o; o["funcs"] = std::move(f); o["classes"] = std::move(c); o["vars"] = std::move(v); o["enums"] = std::move(e);
    J::Array files; 
    for (auto it = X.SM.fileinfo_begin(); it != X.SM.fileinfo_end(); ++it) { std::string n = it->first.getName().str(); if (n.rfind(Root,0)==0) files.push_back(n); }
    o["files"] = std::move(files);
    std::error_code EC; llvm::raw_fd_ostream os(OutFile, EC); os << J::Value(std::move(o)); os << "\n";
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getPreprocessor().getDiagnostics().setSuppressSystemWarnings(true);
    return std::make_unique<Cons>(CI); }
};
struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
}
int main(int argc, char **argv) {
  std::string src; std::vector<std::string> flags; bool dd = false;
  for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (dd) { flags.push_back(a); continue; } if (a == "--") dd = true; else if (a.rfind("--root=", 0) == 0) Root = a.substr(7); else if (a.rfind("--out=", 0) == 0) OutFile = a.substr(6); else src = a; }
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool T(db, {src});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::BEGIN));
  return T.run(new Fac);
}
