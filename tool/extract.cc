// Dumps the resolved program (instantiated function bodies, classes, enums, globals) of one translation unit,
// restricted to declarations located under given path prefixes, as one JSON object on stdout.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/DenseSet.h"
#include <deque>
#include <map>
#include <string>
#include <vector>
using namespace clang;
using llvm::json::Array; using llvm::json::Object; using llvm::json::Value;

static std::vector<std::string> prefixes;

namespace {

struct Dumper {
  ASTContext& C; SourceManager& SM; PrintingPolicy PP;
  std::map<std::string,unsigned> typeIdx; Array types;
  llvm::DenseMap<const Decl*,unsigned> declIds; unsigned nextId=1;
  std::deque<const FunctionDecl*> work; llvm::DenseSet<const FunctionDecl*> seenF;
  llvm::DenseSet<const CXXRecordDecl*> seenR; llvm::DenseSet<const VarDecl*> seenV; llvm::DenseSet<const EnumDecl*> seenE;
  Array functions, records, enums, vars;
  std::vector<const CXXRecordDecl*> recWork;

  explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword=true; PP.FullyQualifiedName=true; PP.PrintCanonicalTypes=true; PP.Bool=true; PP.SuppressUnwrittenScope=true; PP.AnonymousTagLocations=false;
  }

  unsigned ty(QualType t) {
    if (t.isNull()) return 0;
    std::string s=t.getCanonicalType().getAsString(PP);
    if (s.size()>600) s=s.substr(0,600)+"...";
    auto it=typeIdx.find(s); if (it!=typeIdx.end()) return it->second;
    unsigned i=typeIdx.size(); typeIdx[s]=i; types.push_back(s); return i;
  }
  unsigned id(const Decl* d) {
    d=d->getCanonicalDecl();
    auto it=declIds.find(d); if (it!=declIds.end()) return it->second;
    return declIds[d]=nextId++;
  }
  std::string file(SourceLocation l) {
    l=SM.getExpansionLoc(l); if (l.isInvalid()) return "";
    auto p=SM.getPresumedLoc(l,false); if (p.isInvalid()) return ""; 
    llvm::SmallString<256> r(p.getFilename()); 
    if (auto fe=SM.getFileEntryRefForID(SM.getFileID(l))) { auto rp=fe->getFileEntry().tryGetRealPathName(); if (!rp.empty()) return rp.str(); }
    return std::string(r);
  }
  unsigned line(SourceLocation l) { l=SM.getExpansionLoc(l); if (l.isInvalid()) return 0; return SM.getExpansionLineNumber(l); }
  bool inScope(const Decl* d) {
    std::string f=file(d->getLocation());
    for (auto& p : prefixes) if (f.compare(0,p.size(),p)==0) return true;
    return false;
  }
  std::string qname(const NamedDecl* d) { std::string s; llvm::raw_string_ostream os(s); d->printQualifiedName(os,PP); return os.str(); }
  std::string targs(const TemplateArgumentList* l) {
    if (!l) return ""; std::string s; llvm::raw_string_ostream os(s); printTemplateArgumentList(os,l->asArray(),PP); os.flush(); if (s.size()>800) s=s.substr(0,800)+"..."; return s;
  }
  std::string recName(const CXXRecordDecl* r) {
    std::string s=qname(r);
    if (r->isLambda()) s+="@"+std::to_string(line(r->getLocation()));
    if (auto* sp=dyn_cast<ClassTemplateSpecializationDecl>(r)) s+=targs(&sp->getTemplateArgs());
    // enclosing specialisations
    return s;
  }
  std::string recFull(const CXXRecordDecl* r) { 
    std::string s=C.getRecordType(r).getCanonicalType().getAsString(PP);
    if (r->isLambda()) s+="#"+std::to_string(id(r));
    return s; }

  unsigned rec(const CXXRecordDecl* r) {
    if (auto* d=r->getDefinition()) r=d;
    if (!seenR.count(r)) { seenR.insert(r); recWork.push_back(r);} 
    return id(r);
  }
  const FunctionDecl* defn(const FunctionDecl* f) { const FunctionDecl* d=nullptr; if (f->hasBody(d)) return d; 
    if (f->isDefined(d)) return d; return nullptr; }
  unsigned fn(const FunctionDecl* f) {
    const FunctionDecl* d=defn(f); 
    const FunctionDecl* k=d?d:f;
    if (inScope(k) || k->isDefaulted()) { if (!seenF.count(k->getCanonicalDecl()) && (inScope(k))) { seenF.insert(k->getCanonicalDecl()); work.push_back(k);} }
    return id(f);
  }

  // ---- callee description -------------------------------------------------
  Object callee(const FunctionDecl* f) {
    Object o; o["f"]=fn(f); o["q"]=qname(f);
    if (auto* ta=f->getTemplateSpecializationArgs()) o["ta"]=targs(ta);
    if (auto* m=dyn_cast<CXXMethodDecl>(f)) { o["c"]=recFull(m->getParent()); o["cid"]=rec(m->getParent()); if (m->isVirtual()) o["virt"]=1; if (m->isStatic()) o["st"]=1; if (m->isConst()) o["k"]=1; }
    if (f->getBuiltinID()) o["b"]=1;
    { Array pt; for (auto* p : f->parameters()) pt.push_back(ty(p->getType())); o["pt"]=std::move(pt); o["rt"]=ty(f->getReturnType()); o["ty"]=ty(f->getType()); o["fl"]=line(f->getLocation()); if (inScope(f)) o["sc"]=1; }
    return o;
  }

  Value S(const Stmt* s) { if (!s) return nullptr; if (auto* e=dyn_cast<Expr>(s)) return E(e); return stmt(s); }

  Value constant(const Expr* e, bool& ok) {
    ok=false;
    if (e->isValueDependent()||e->isTypeDependent()) return nullptr;
    QualType t=e->getType();
    if (!(t->isIntegralOrEnumerationType()||t->isRealFloatingType())) return nullptr;
    if (e->isGLValue()) return nullptr;
    Expr::EvalResult r;
    if (e->HasSideEffects(C)) return nullptr;
    if (!e->EvaluateAsRValue(r,C) || r.HasSideEffects) return nullptr;
    ok=true;
    if (r.Val.isInt()) { auto& v=r.Val.getInt(); llvm::SmallString<40> s; v.toString(s,10); Array a{"num",ty(t),s.str().str()}; return a; }
    if (r.Val.isFloat()) { llvm::SmallString<60> s; r.Val.getFloat().toString(s,0,0); return Array{"num",ty(t),s.str().str()}; }
    ok=false; return nullptr;
  }

  Value varDecl(const VarDecl* v) {
    Object o; o["id"]=id(v); o["n"]=v->getNameAsString(); o["t"]=ty(v->getType()); o["l"]=line(v->getLocation());
    if (v->isStaticLocal()) o["static"]=1;
    if (v->getInit()) o["i"]=E(v->getInit());
    if (auto* dd=dyn_cast<DecompositionDecl>(v)) { Array b; for (auto* bd : dd->bindings()) { Object bo; bo["id"]=id(bd); bo["n"]=bd->getNameAsString(); if (bd->getBinding()) bo["e"]=E(bd->getBinding()); if (auto* hv=bd->getHoldingVar()) { bo["hid"]=id(hv); if (hv->getInit()) bo["hi"]=E(hv->getInit()); } b.push_back(std::move(bo)); } o["b"]=std::move(b); }
    return o;
  }

  Value args(llvm::ArrayRef<const Expr*> as) { Array a; for (auto* e : as) a.push_back(E(e)); return a; }
  template<class R> Value argsR(R&& as) { Array a; for (auto* e : as) a.push_back(E(e)); return a; }

  const Expr* strip(const Expr* e) {
    for (;;) {
      if (auto* p=dyn_cast<ParenExpr>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<ExprWithCleanups>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<ConstantExpr>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<MaterializeTemporaryExpr>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<CXXBindTemporaryExpr>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=p->getReplacement();
      else if (auto* p=dyn_cast<ImplicitCastExpr>(e)) {
        e=p->getSubExpr();
      }
      else if (auto* p=dyn_cast<CXXRewrittenBinaryOperator>(e)) e=p->getSemanticForm();
      else if (auto* p=dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e=p->getSourceExpr(); }
      else if (auto* p=dyn_cast<CXXStdInitializerListExpr>(e)) e=p->getSubExpr();
      else if (auto* p=dyn_cast<CXXDefaultArgExpr>(e)) e=p->getExpr();
      else if (auto* p=dyn_cast<CXXDefaultInitExpr>(e)) e=p->getExpr();
      else return e;
    }
  }

  Value E(const Expr* e0) {
    if (!e0) return nullptr;
    // integral/boolean conversions that change the value class
    const Expr* pre=e0;
    bool ok; 
    {
      const Expr* p=e0; 
      Value v=constant(p,ok); if (ok) return v;
    }
    // find relevant implicit cast kinds
    QualType castT; std::string castK;
    {
      const Expr* e=e0;
      for (;;) {
        if (auto* p=dyn_cast<ParenExpr>(e)) e=p->getSubExpr();
        else if (auto* p=dyn_cast<ExprWithCleanups>(e)) e=p->getSubExpr();
        else if (auto* p=dyn_cast<MaterializeTemporaryExpr>(e)) e=p->getSubExpr();
        else if (auto* p=dyn_cast<CXXBindTemporaryExpr>(e)) e=p->getSubExpr();
        else if (auto* p=dyn_cast<ImplicitCastExpr>(e)) {
          auto k=p->getCastKind();
          if (k==CK_FloatingToIntegral||k==CK_IntegralToBoolean||k==CK_FloatingToBoolean||k==CK_PointerToBoolean) { castT=p->getType(); castK=CastExpr::getCastKindName(k); pre=p->getSubExpr(); break; }
          e=p->getSubExpr();
        }
        else break;
      }
    }
    if (!castK.empty()) return Array{"icast",ty(castT),castK,E(pre)};
    const Expr* e=strip(e0);
    { Value v=constant(e,ok); if (ok) return v; }
    unsigned ln=line(e->getBeginLoc());
    unsigned t=ty(e->getType());
    switch (e->getStmtClass()) {
      case Stmt::IntegerLiteralClass: case Stmt::FloatingLiteralClass: case Stmt::CXXBoolLiteralExprClass: case Stmt::CharacterLiteralClass: break;
      case Stmt::StringLiteralClass: { auto* s=cast<StringLiteral>(e); return Array{"str",s->isOrdinary()||s->isUTF8()?llvm::json::fixUTF8(s->getString()):std::string("?")}; }
      case Stmt::PredefinedExprClass: return Array{"str","__func__"};
      case Stmt::CXXNullPtrLiteralExprClass: return Array{"null"};
      case Stmt::GNUNullExprClass: return Array{"null"};
      case Stmt::CXXThisExprClass: return Array{"this",t};
      case Stmt::DeclRefExprClass: {
        auto* d=cast<DeclRefExpr>(e); auto* vd=d->getDecl();
        if (auto* ec=dyn_cast<EnumConstantDecl>(vd)) { llvm::SmallString<40> s; ec->getInitVal().toString(s,10); return Array{"enum",t,s.str().str(),qname(ec)}; }
        if (auto* f=dyn_cast<FunctionDecl>(vd)) { return Array{"fref",t,Value(callee(f))}; }
        if (auto* b=dyn_cast<BindingDecl>(vd)) { return Array{"ref",t,"bind",id(b),b->getNameAsString()}; }
        if (auto* v=dyn_cast<VarDecl>(vd)) {
          const char* k=isa<ParmVarDecl>(v)?"parm":(v->isStaticLocal()?"sloc":(v->isLocalVarDecl()?"loc":"glob"));
          if (k[0]=='g') { noteVar(v); return Array{"ref",t,k,id(v),qname(v)}; }
          return Array{"ref",t,k,id(v),v->getNameAsString()};
        }
        return Array{"ref",t,"other",id(vd),qname(vd)};
      }
      case Stmt::MemberExprClass: {
        auto* m=cast<MemberExpr>(e);
        if (auto* f=dyn_cast<FunctionDecl>(m->getMemberDecl())) return Array{"mfref",t,E(m->getBase()),Value(callee(f)),m->isArrow()};
        if (auto* v=dyn_cast<VarDecl>(m->getMemberDecl())) { noteVar(v); return Array{"ref",t,"glob",id(v),qname(v)}; }
        auto* fd=m->getMemberDecl();
        std::string own; unsigned rid=0; if (auto* r=dyn_cast_or_null<CXXRecordDecl>(fd->getDeclContext())) { own=recFull(r); rid=rec(r);} 
        return Array{"mem",t,E(m->getBase()),fd->getNameAsString(),rid,own,m->isArrow(),ln};
      }
      case Stmt::CXXMemberCallExprClass: {
        auto* c=cast<CXXMemberCallExpr>(e); auto* md=c->getMethodDecl();
        if (!md) return Array{"pmcall",t,E(c->getCallee()),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln};
        if (isa<CXXDestructorDecl>(md)) return Array{"dtor",t,E(c->getImplicitObjectArgument())};
        bool qualified=false; if (auto* me=dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) qualified=me->hasQualifier();
        Object ce=callee(md); if (qualified) ce["qual"]=1;
        const Expr* ob=c->getImplicitObjectArgument();
        bool arrow=ob->getType()->isPointerType();
        return Array{"mcall",t,E(ob),Value(std::move(ce)),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln,arrow};
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto* c=cast<CXXOperatorCallExpr>(e); auto* f=c->getDirectCallee();
        std::string op=getOperatorSpelling(c->getOperator());
        if (f) return Array{"ocall",t,op,Value(callee(f)),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln,isa<CXXMethodDecl>(f)};
        return Array{"ocall",t,op,nullptr,args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln,false};
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto* c=cast<CallExpr>(e); auto* f=c->getDirectCallee();
        if (f) return Array{"call",t,Value(callee(f)),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln};
        return Array{"icall",t,E(c->getCallee()),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln};
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
        auto* c=cast<CXXConstructExpr>(e); auto* k=c->getConstructor();
        std::string kind=k->isCopyConstructor()?"copy":k->isMoveConstructor()?"move":k->isDefaultConstructor()?"def":"";
        return Array{"ctor",t,Value(callee(k)),args(llvm::ArrayRef(c->getArgs(),c->getNumArgs())),ln,kind,c->isListInitialization()};
      }
      case Stmt::CXXInheritedCtorInitExprClass: { auto* c=cast<CXXInheritedCtorInitExpr>(e); return Array{"inhctor",t,Value(callee(c->getConstructor())),ln}; }
      case Stmt::CXXFunctionalCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass: {
        auto* c=cast<ExplicitCastExpr>(e);
        const char* k= isa<CXXDynamicCastExpr>(e)?"dyn": isa<CXXReinterpretCastExpr>(e)?"rein": isa<CXXConstCastExpr>(e)?"const": "stat";
        return Array{"cast",ty(c->getTypeAsWritten()),k,E(c->getSubExpr()),CastExpr::getCastKindName(c->getCastKind())};
      }
      case Stmt::UnaryOperatorClass: { auto* u=cast<UnaryOperator>(e); std::string op=UnaryOperator::getOpcodeStr(u->getOpcode()).str(); return Array{"un",t,op,E(u->getSubExpr()),u->isPostfix(),ln}; }
      case Stmt::BinaryOperatorClass: { auto* b=cast<BinaryOperator>(e); return Array{b->isAssignmentOp()?"assign":"bin",t,b->getOpcodeStr().str(),E(b->getLHS()),E(b->getRHS()),ln}; }
      case Stmt::CompoundAssignOperatorClass: { auto* b=cast<CompoundAssignOperator>(e); return Array{"assign",t,b->getOpcodeStr().str(),E(b->getLHS()),E(b->getRHS()),ln}; }
      case Stmt::ConditionalOperatorClass: { auto* c=cast<ConditionalOperator>(e); 
        Expr::EvalResult r; 
        if (!c->getCond()->isValueDependent() && !c->getCond()->HasSideEffects(C) && c->getCond()->EvaluateAsRValue(r,C) && r.Val.isInt()) return E(r.Val.getInt().getBoolValue()?c->getTrueExpr():c->getFalseExpr());
        return Array{"cond",t,E(c->getCond()),E(c->getTrueExpr()),E(c->getFalseExpr()),ln}; }
      case Stmt::ArraySubscriptExprClass: { auto* a=cast<ArraySubscriptExpr>(e); return Array{"idx",t,E(a->getBase()),E(a->getIdx()),ln}; }
      case Stmt::InitListExprClass: { auto* i=cast<InitListExpr>(e); if (i->isSemanticForm()==false && i->getSemanticForm()) i=i->getSemanticForm(); 
        if (i->isTransparent() && i->getNumInits()==1) return E(i->getInit(0));
        { auto* rd=i->getType()->getAsCXXRecordDecl(); return Array{"ilist",t,argsR(i->inits()),ln,rd?llvm::json::Value(rec(rd)):llvm::json::Value(nullptr)}; } }
      case Stmt::CXXParenListInitExprClass: { auto* i=cast<CXXParenListInitExpr>(e); { auto* rd=i->getType()->getAsCXXRecordDecl(); return Array{"ilist",t,argsR(const_cast<CXXParenListInitExpr*>(i)->getInitExprs()),ln,rd?llvm::json::Value(rec(rd)):llvm::json::Value(nullptr)}; } }
      case Stmt::CXXScalarValueInitExprClass: case Stmt::ImplicitValueInitExprClass: return Array{"zero",t};
      case Stmt::LambdaExprClass: {
        auto* l=cast<LambdaExpr>(e); Array caps; auto ii=l->capture_init_begin();
        for (auto& c : l->captures()) { Object o; if (c.capturesThis()) o["k"]="this"; else if (c.capturesVariable()) { o["k"]=c.getCaptureKind()==LCK_ByRef?"ref":"val"; o["id"]=id(c.getCapturedVar()); o["n"]=c.getCapturedVar()->getNameAsString(); 
            if (auto* vd=dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) o["initc"]=1; } else o["k"]="?"; 
          if (c.capturesThis() && c.getCaptureKind()==LCK_StarThis) o["star"]=1;
          if (*ii) o["i"]=E(*ii); ++ii; caps.push_back(std::move(o)); }
        return Array{"lambda",t,rec(l->getLambdaClass()),std::move(caps),fn(l->getCallOperator()),ln};
      }
      case Stmt::CXXNewExprClass: { auto* n=cast<CXXNewExpr>(e); Array pl; for (auto* p : n->placement_arguments()) pl.push_back(E(p)); return Array{"new",t,E(n->getInitializer()),n->isArray()&&n->getArraySize()?E(*n->getArraySize()):Value(nullptr),std::move(pl),ln}; }
      case Stmt::CXXDeleteExprClass: return Array{"delete",E(cast<CXXDeleteExpr>(e)->getArgument()),ln};
      case Stmt::CXXThrowExprClass: { auto* th=cast<CXXThrowExpr>(e); return Array{"throw",th->getSubExpr()?ty(th->getSubExpr()->getType()):0,E(th->getSubExpr()),ln}; }
      case Stmt::CXXTypeidExprClass: { auto* ti=cast<CXXTypeidExpr>(e); if (ti->isTypeOperand()) return Array{"typeid",ty(ti->getTypeOperand(C)),nullptr}; return Array{"typeid",0,E(ti->getExprOperand())}; }
      case Stmt::ArrayInitLoopExprClass: return E(cast<ArrayInitLoopExpr>(e)->getCommonExpr());
      case Stmt::CXXFoldExprClass: return Array{"unk","fold"};
      case Stmt::StmtExprClass: return Array{"unk","stmtexpr"};
      case Stmt::SourceLocExprClass: return Array{"str","__srcloc__"};
      default: break;
    }
    return Array{"unk",std::string(e->getStmtClassName()),t,ln};
  }

  void noteVar(const VarDecl* v) {
    if (const VarDecl* d=v->getDefinition()) v=d; 
    const VarDecl* i=nullptr; v->getAnyInitializer(i); if (i) v=i;
    if (!inScope(v) || !seenV.insert(v->getCanonicalDecl()).second) return;
    if (v->getType()->isDependentType() || v->getDeclContext()->isDependentContext()) return;
    Object o; o["id"]=id(v); o["q"]=qname(v); o["t"]=ty(v->getType()); o["file"]=file(v->getLocation()); o["l"]=line(v->getLocation());
    if (auto* sp=dyn_cast<VarTemplateSpecializationDecl>(v)) o["ta"]=targs(&sp->getTemplateArgs());
    const Expr* in=v->getAnyInitializer(); 
    if (in && !in->isValueDependent() && !in->isTypeDependent()) {
      if (v->getType()->isIntegralOrEnumerationType() && v->getType().isConstQualified()) { if (auto* av=v->evaluateValue(); av && av->isInt()) { llvm::SmallString<40> s; av->getInt().toString(s,10); o["cv"]=s.str().str(); } }
      o["i"]=E(in);
    }
    vars.push_back(std::move(o));
  }

  Value stmt(const Stmt* s) {
    unsigned ln=line(s->getBeginLoc());
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: { Array a; for (auto* c : cast<CompoundStmt>(s)->body()) a.push_back(S(c)); return Array{"{",std::move(a)}; }
      case Stmt::NullStmtClass: return Array{"nop"};
      case Stmt::DeclStmtClass: { Array a; for (auto* d : cast<DeclStmt>(s)->decls()) { if (auto* v=dyn_cast<VarDecl>(d)) a.push_back(varDecl(v)); } return Array{"decl",std::move(a)}; }
      case Stmt::IfStmtClass: { auto* i=cast<IfStmt>(s);
        if (i->isConstexpr()) { if (auto nd=i->getNondiscardedCase(C)) { Array a; if (i->getInit()) a.push_back(S(i->getInit())); if (*nd) a.push_back(S(*nd)); return Array{"{",std::move(a)}; } }
        return Array{"if",S(i->getInit()),i->getConditionVariable()?Value(varDecl(i->getConditionVariable())):Value(nullptr),E(i->getCond()),S(i->getThen()),S(i->getElse()),ln}; }
      case Stmt::ForStmtClass: { auto* f=cast<ForStmt>(s); return Array{"for",S(f->getInit()),f->getConditionVariable()?Value(varDecl(f->getConditionVariable())):Value(nullptr),E(f->getCond()),E(f->getInc()),S(f->getBody()),ln}; }
      case Stmt::WhileStmtClass: { auto* f=cast<WhileStmt>(s); return Array{"while",f->getConditionVariable()?Value(varDecl(f->getConditionVariable())):Value(nullptr),E(f->getCond()),S(f->getBody()),ln}; }
      case Stmt::DoStmtClass: { auto* f=cast<DoStmt>(s); return Array{"do",S(f->getBody()),E(f->getCond()),ln}; }
      case Stmt::CXXForRangeStmtClass: { auto* f=cast<CXXForRangeStmt>(s); return Array{"rfor",S(f->getInit()),E(f->getRangeInit()),varDecl(f->getLoopVariable()),S(f->getBody()),ln}; }
      case Stmt::ReturnStmtClass: return Array{"return",E(cast<ReturnStmt>(s)->getRetValue()),ln};
      case Stmt::BreakStmtClass: return Array{"break",ln};
      case Stmt::ContinueStmtClass: return Array{"continue",ln};
      case Stmt::SwitchStmtClass: { auto* w=cast<SwitchStmt>(s); return Array{"switch",S(w->getInit()),E(w->getCond()),S(w->getBody()),ln}; }
      case Stmt::CaseStmtClass: { auto* c=cast<CaseStmt>(s); return Array{"case",E(c->getLHS()),S(c->getSubStmt()),ln}; }
      case Stmt::DefaultStmtClass: return Array{"default",S(cast<DefaultStmt>(s)->getSubStmt()),ln};
      case Stmt::CXXTryStmtClass: { auto* t=cast<CXXTryStmt>(s); Array h; for (unsigned i=0;i<t->getNumHandlers();++i) { auto* c=t->getHandler(i); Object o; if (c->getExceptionDecl()) { o["v"]=varDecl(c->getExceptionDecl()); o["t"]=ty(c->getCaughtType()); } o["b"]=S(c->getHandlerBlock()); h.push_back(std::move(o)); } return Array{"try",S(t->getTryBlock()),std::move(h),ln}; }
      case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass: return S(cast<LabelStmt>(s)->getSubStmt());
      default: return Array{"unk",std::string(s->getStmtClassName()),0,ln};
    }
  }

  void function(const FunctionDecl* f) {
    if (f->isDependentContext() || f->getType()->isDependentType()) return;
    Object o; o["id"]=id(f); o["q"]=qname(f); o["n"]=f->getNameAsString(); o["file"]=file(f->getLocation()); o["l"]=line(f->getLocation()); o["le"]=line(f->getEndLoc());
    o["ty"]=ty(f->getType()); o["rt"]=ty(f->getReturnType());
    if (auto* ta=f->getTemplateSpecializationArgs()) o["ta"]=targs(ta);
    if (auto* m=dyn_cast<CXXMethodDecl>(f)) { o["c"]=recFull(m->getParent()); o["cid"]=rec(m->getParent()); if (m->isVirtual()) o["virt"]=1; if (m->isStatic()) o["st"]=1; if (m->isConst()) o["k"]=1;
      if (m->isPureVirtual()) o["pure"]=1; if (m->isDefaulted()) o["defaulted"]=1; if (m->isDeleted()) o["deleted"]=1;
      Array ov; for (auto* om : m->overridden_methods()) { ov.push_back(id(om)); } if (!ov.empty()) o["ov"]=std::move(ov); }
    o["k2"]= isa<CXXConstructorDecl>(f)?"ctor": isa<CXXDestructorDecl>(f)?"dtor": isa<CXXConversionDecl>(f)?"conv": f->isOverloadedOperator()?"op":"fn";
    o["acc"]=(int)f->getAccess();
    Array ps; for (auto* p : f->parameters()) { Object po; po["id"]=id(p); po["n"]=p->getNameAsString(); po["t"]=ty(p->getType()); ps.push_back(std::move(po)); } o["p"]=std::move(ps);
    if (auto* k=dyn_cast<CXXConstructorDecl>(f)) {
      Array is; for (auto* i : k->inits()) { Object io; 
        if (i->isAnyMemberInitializer()) { io["m"]=i->getAnyMember()->getNameAsString(); }
        else if (i->isBaseInitializer()) { io["b"]=ty(QualType(i->getBaseClass(),0)); if (auto* r=i->getBaseClass()->getAsCXXRecordDecl()) io["bid"]=rec(r); if (i->isBaseVirtual()) io["v"]=1; }
        else io["d"]=1;
        if (i->isWritten()) io["w"]=1; io["l"]=line(i->getSourceLocation()); io["e"]=E(i->getInit()); is.push_back(std::move(io)); }
      o["in"]=std::move(is); o["ck"]=k->isCopyConstructor()?"copy":k->isMoveConstructor()?"move":k->isDefaultConstructor()?"def":"";
      if (k->isDelegatingConstructor()) o["deleg"]=1;
      if (auto ic=k->getInheritedConstructor()) o["inh"]=id(ic.getConstructor());
    }
    if (auto* d=defn(f)) o["body"]=S(d->getBody());
    functions.push_back(std::move(o));
  }
  void record(const CXXRecordDecl* r) {
    if (!r->hasDefinition() || r->isDependentContext()) return;
    Object o; o["id"]=id(r); o["q"]=qname(r); o["full"]=recFull(r); o["file"]=file(r->getLocation()); o["l"]=line(r->getLocation());
    bool sc=inScope(r);
    if (sc) o["scope"]=1;
    Array bs; for (auto& b : r->bases()) { Object bo; if (auto* br=b.getType()->getAsCXXRecordDecl()) bo["id"]=rec(br); bo["t"]=ty(b.getType()); bo["v"]=b.isVirtual(); bs.push_back(std::move(bo)); } o["b"]=std::move(bs);
    if (sc) {
      Array fs; for (auto* f : r->fields()) { Object fo; fo["n"]=f->getNameAsString(); fo["t"]=ty(f->getType()); if (f->isMutable()) fo["mut"]=1; if (f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent()) fo["i"]=E(f->getInClassInitializer()); 
        if (auto* fr=f->getType().getNonReferenceType()->getAsCXXRecordDecl()) fo["rid"]=rec(fr);
        fs.push_back(std::move(fo)); } o["fs"]=std::move(fs);
      Array ms; for (auto* d : r->decls()) {
        if (auto* m=dyn_cast<CXXMethodDecl>(d)) { ms.push_back(id(m)); if (defn(m) || m->isDefaulted()|| m->isPureVirtual()|| m->isDeleted()) { const FunctionDecl* k=defn(m)?defn(m):m; if (!m->isImplicit()||r->isLambda()||m->isDefaulted()) if (inScope(k) && seenF.insert(k->getCanonicalDecl()).second) work.push_back(k); } }
        else if (auto* ft=dyn_cast<FunctionTemplateDecl>(d)) { for (auto* sp : ft->specializations()) { ms.push_back(id(sp)); if (defn(sp)) fn(sp);} }
        else if (auto* v=dyn_cast<VarDecl>(d)) noteVar(v);
      } o["ms"]=std::move(ms);
      if (auto* sp=dyn_cast<ClassTemplateSpecializationDecl>(r)) o["ta"]=targs(&sp->getTemplateArgs());
    }
    if (r->isLambda()) { o["lambda"]=1; Array co; 
      if (auto* ft=r->getDependentLambdaCallOperator()) { for (auto* sp : ft->specializations()) if (defn(sp)) co.push_back(fn(sp)); }
      else if (auto* co1=r->getLambdaCallOperator()) co.push_back(fn(co1)); 
      o["co"]=std::move(co); }
    records.push_back(std::move(o));
  }
};

struct V : RecursiveASTVisitor<V> {
  Dumper& D; explicit V(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const {return true;}
  bool shouldVisitImplicitCode() const {return true;}
  bool VisitFunctionDecl(FunctionDecl* f) {
    if (f->isDependentContext()) return true;
    if (D.defn(f) && D.inScope(D.defn(f))) D.fn(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (r->hasDefinition() && !r->isDependentContext() && D.inScope(r)) D.rec(r); return true; }
  bool VisitVarDecl(VarDecl* v) { if (v->hasGlobalStorage() && !v->isStaticLocal()) D.noteVar(v); return true; }
  bool VisitEnumDecl(EnumDecl* e) {
    if (!D.inScope(e) || e->isDependentContext() || !D.seenE.insert(e->getCanonicalDecl()).second) return true;
    Object o; o["q"]=D.qname(e); Array cs; for (auto* c : e->enumerators()) { llvm::SmallString<40> s; c->getInitVal().toString(s,10); cs.push_back(Array{c->getNameAsString(),s.str().str()}); } o["c"]=std::move(cs); D.enums.push_back(std::move(o)); return true;
  }
};

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C); D.ty(C.VoidTy); V v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    for (;;) {
      if (!D.work.empty()) { auto* f=D.work.front(); D.work.pop_front(); D.function(f); continue; }
      if (!D.recWork.empty()) { auto* r=D.recWork.back(); D.recWork.pop_back(); D.record(r); continue; }
      break;
    }
    Object o; o["errors"]=(int)C.getDiagnostics().getClient()->getNumErrors();
    o["types"]=std::move(D.types); o["functions"]=std::move(D.functions); o["records"]=std::move(D.records); o["enums"]=std::move(D.enums); o["vars"]=std::move(D.vars);
    llvm::outs()<<Value(std::move(o))<<"\n";
  }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {return std::make_unique<Cons>();} };
}

// extract <file> <prefix,prefix,...> -- flags
int main(int argc, const char** argv) {
  std::string f=argv[1]; { std::string p=argv[2]; size_t b=0; while (b<p.size()) { size_t e=p.find(',',b); if (e==std::string::npos) e=p.size(); prefixes.push_back(p.substr(b,e-b)); b=e+1; } }
  std::vector<std::string> flags; for (int i=3;i<argc;++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",flags); tooling::ClangTool tool(db,{f});
  struct F : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override {return std::make_unique<Act>();} } fac;
  return tool.run(&fac);
}
