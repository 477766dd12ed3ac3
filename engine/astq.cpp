// clang plugin: lists the functions the headers declare but leave to be defined elsewhere, and every variable with static or thread storage declared in the library sources (templates as written, not their instantiations)
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
using namespace clang;
namespace {
struct Locals : RecursiveASTVisitor<Locals> {            // run-time state of the enclosing call an initialiser reads
  std::set<const Decl*> own; std::set<std::string> names;
  bool VisitVarDecl(VarDecl* d) { own.insert(d); return true; }
  bool VisitDeclRefExpr(DeclRefExpr* e) { if(auto* v = dyn_cast<VarDecl>(e->getDecl())) if(v->hasLocalStorage() && !own.count(v) && !v->getType().isConstQualified() && !v->isConstexpr()) names.insert(v->getNameAsString());
    else if(v->hasLocalStorage() && !own.count(v) && !v->isConstexpr()) { Locals s; if(v->getInit()) { s.TraverseStmt(const_cast<Expr*>(v->getInit())); names.insert(s.names.begin(), s.names.end()); } else names.insert(v->getNameAsString()); } return true; }
  bool VisitCXXThisExpr(CXXThisExpr*) { names.insert("this"); return true; }
  bool TraverseLambdaExpr(LambdaExpr* l) { for(auto* p : l->getCallOperator()->parameters()) own.insert(p); return RecursiveASTVisitor<Locals>::TraverseLambdaExpr(l); } };
struct Vars : RecursiveASTVisitor<Vars> {
  ASTContext& C; llvm::raw_ostream& os; SourceManager& sm; bool quiet = false;
  Vars(ASTContext& c, llvm::raw_ostream& o) : C(c), os(o), sm(c.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return false; }
  bool mine(SourceLocation l) { auto f = sm.getFilename(sm.getExpansionLoc(l)); return f.contains("integratorxx") || f.contains("/src/") || sm.isInMainFile(sm.getExpansionLoc(l)); }
  bool TraverseInitListExpr(InitListExpr* e, DataRecursionQueue* q = nullptr) { return e->getNumInits() > 64 ? true : RecursiveASTVisitor<Vars>::TraverseInitListExpr(e, q); }
  bool TraverseDecl(Decl* d) { if(d && isa<NamespaceDecl>(d) && cast<NamespaceDecl>(d)->getName() == "std") return true; return RecursiveASTVisitor<Vars>::TraverseDecl(d); }
  static bool mut(QualType t, int depth = 0) {            // reaches modifiable storage through a const object
    if(t.isNull() || depth > 3) return false;
    if(t->isReferenceType() || t->isPointerType()) { QualType p = t->getPointeeType(); return !p.isConstQualified() && !p->isFunctionType(); }
    if(auto* r = t->getAsCXXRecordDecl()) { std::string n = r->getNameAsString();
      if(auto* s = dyn_cast<ClassTemplateSpecializationDecl>(r)) if(n == "shared_ptr" || n == "unique_ptr" || n == "reference_wrapper") { QualType p = s->getTemplateArgs()[0].getAsType(); return !p.isConstQualified(); }
      if(n == "mutex" || n == "once_flag") return true;
      if(!r->hasDefinition()) return false;
      for(auto* f : r->fields()) if(f->isMutable()) return true; }
    return false; }
  bool VisitFunctionDecl(FunctionDecl* d) {
    if(!mine(d->getLocation()) || d->isDependentContext() || d->isTemplated() || d->isDeleted() || d->isDefaulted() || d->isImplicit() || d->isPureVirtual() || d->getBuiltinID() || d->isDefined() || d->getFormalLinkage() == Linkage::Internal || d->isExternC()) return true;
    if(d->getTemplateSpecializationKind() == TSK_ImplicitInstantiation) return true;
    ASTNameGenerator g(C); llvm::json::Object o; o["fn"] = g.getName(d); o["name"] = d->getQualifiedNameAsString(); o["file"] = sm.getFilename(sm.getExpansionLoc(d->getLocation())).str(); o["line"] = (int64_t)sm.getExpansionLineNumber(d->getLocation());
    os << llvm::json::Value(std::move(o)) << "\n"; return true; }
  bool VisitVarDecl(VarDecl* d) {
    if(isa<ParmVarDecl>(d) || !(d->hasGlobalStorage() || d->getTSCSpec() != TSCS_unspecified) || !mine(d->getLocation())) return true;
    QualType t = d->getType(); bool isc = t.isConstQualified() || d->isConstexpr() || (t->isArrayType() && C.getBaseElementType(t).isConstQualified()) || (t->isReferenceType() && t->getPointeeType().isConstQualified());
    llvm::json::Object o; o["name"] = d->getQualifiedNameAsString(); o["short"] = d->getNameAsString(); o["file"] = sm.getFilename(sm.getExpansionLoc(d->getLocation())).str(); o["line"] = (int64_t)sm.getExpansionLineNumber(d->getLocation());
    o["const"] = isc; o["constexpr"] = d->isConstexpr(); o["local"] = d->isStaticLocal(); o["tls"] = d->getTSCSpec() != TSCS_unspecified; o["mut"] = mut(t);
    llvm::json::Array dep; if(d->isStaticLocal() && d->getInit() && !d->isConstexpr()) { Locals l; l.TraverseStmt(d->getInit()); for(auto& n : l.names) dep.push_back(n); }
    o["depends"] = std::move(dep); os << llvm::json::Value(std::move(o)) << "\n"; return true; } };
struct Cons : ASTConsumer { void HandleTranslationUnit(ASTContext& c) override { Vars v(c, llvm::outs()); v.TraverseDecl(c.getTranslationUnitDecl()); llvm::outs().flush(); } };
struct Act : PluginASTAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); }
  bool ParseArgs(const CompilerInstance&, const std::vector<std::string>&) override { return true; } };
}
static FrontendPluginRegistry::Add<Act> X("astq", "static storage listing");
