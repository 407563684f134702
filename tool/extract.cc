// Mechanical extractor: parses a translation unit with clang and prints, as JSON, the bodies of every
// function (template instantiations and lambdas included) reachable from the functions named vf_*.
// Nothing is rewritten: the output is clang's own AST with the value-preserving wrapper nodes
// (parentheses, cleanups, temporaries materialisation) dropped and integer constant expressions folded.
#include "clang/AST/AST.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;
static std::string esc(llvm::StringRef s){ std::string o="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c<0x20||c>=0x7f){ char b[8]; snprintf(b,8,"\\u%04x",c); o+=b;} else o+=c;} return o+"\""; }
struct Ex {
  ASTContext& C; PrintingPolicy PP;
  std::map<const void*,int> ids; std::deque<const FunctionDecl*> work; std::set<const FunctionDecl*> seen;
  std::map<const Type*,int> tids; std::vector<std::string> tout; std::set<const RecordDecl*> rseen; std::deque<const RecordDecl*> rwork;
  std::set<const VarDecl*> gseen; std::deque<const VarDecl*> gwork;
  std::string roots;
  Ex(ASTContext&c):C(c),PP(c.getPrintingPolicy()){ PP.SuppressTagKeyword=true; PP.Bool=true; }
  int id(const void*p){ auto it=ids.find(p); if(it!=ids.end())return it->second; int n=ids.size()+1; ids[p]=n; return n; }
  static bool inStd(const Decl*d){ for(const DeclContext*dc=d->getDeclContext(); dc; dc=dc->getParent()){ if(auto ns=dyn_cast<NamespaceDecl>(dc)){ auto n=ns->getName(); if(n=="std"||n=="__gnu_cxx"||n=="fmt"||n=="__cxxabiv1") return true; } } return false; }
  bool inSys(const Decl*d){ return C.getSourceManager().isInSystemHeader(d->getLocation()); }
  bool external(const Decl*d){ return inStd(d)||inSys(d); }
  int type(QualType q){
    q=q.getCanonicalType(); const Type*t=q.getTypePtr();
    auto it=tids.find(t); if(it!=tids.end()) return it->second;
    int n=tout.size(); tids[t]=n; tout.push_back("");
    std::string s="{\"s\":"+esc(QualType(t,0).getAsString(PP));
    if(t->isReferenceType()) s+=",\"k\":\"ref\",\"e\":"+std::to_string(type(t->getPointeeType()));
    else if(t->isPointerType()) s+=",\"k\":\"ptr\",\"e\":"+std::to_string(type(t->getPointeeType()));
    else if(t->isBooleanType()) s+=",\"k\":\"bool\"";
    else if(auto et=t->getAs<EnumType>()) { auto it2=et->getDecl()->getIntegerType(); s+=",\"k\":\"int\",\"w\":"+std::to_string(it2.isNull()?32:C.getTypeSize(it2))+",\"sg\":"+((it2.isNull()||it2->isSignedIntegerType())?"1":"0"); }
    else if(t->isIntegerType()) s+=",\"k\":\"int\",\"w\":"+std::to_string(C.getTypeSize(QualType(t,0)))+",\"sg\":"+(t->isSignedIntegerType()?"1":"0");
    else if(t->isRealFloatingType()) s+=",\"k\":\"float\",\"w\":"+std::to_string(C.getTypeSize(QualType(t,0)));
    else if(t->isVoidType()) s+=",\"k\":\"void\"";
    else if(auto at=dyn_cast<ConstantArrayType>(t)) s+=",\"k\":\"arr\",\"n\":"+std::to_string(at->getSize().getZExtValue())+",\"e\":"+std::to_string(type(at->getElementType()));
    else if(auto rt=t->getAs<RecordType>()) { s+=",\"k\":\"rec\",\"d\":"+std::to_string(rec(rt->getDecl())); }
    else s+=std::string(",\"k\":\"")+t->getTypeClassName()+"\"";
    s+="}"; tout[n]=s; return n;
  }
  int rec(const RecordDecl*r){ r=r->getDefinition()?r->getDefinition():r; if(rseen.insert(r).second) rwork.push_back(r); return id(r->getCanonicalDecl()); }
  const FunctionDecl* def(const FunctionDecl*f){ const FunctionDecl*d=nullptr; if(f->hasBody(d)) return d; return f; }
  int fn(const FunctionDecl*f){ f=def(f); if(seen.insert(f).second) work.push_back(f); return id(f->getCanonicalDecl()); }
  int var(const VarDecl*v){ if(v->hasGlobalStorage()&&gseen.insert(v->getCanonicalDecl()).second) gwork.push_back(v); return id(v->getCanonicalDecl()); }
  std::string targ(const TemplateArgument&a){
    switch(a.getKind()){
      case TemplateArgument::Type: return "{\"t\":"+std::to_string(type(a.getAsType()))+"}";
      case TemplateArgument::Integral: { llvm::SmallString<32> s; a.getAsIntegral().toString(s,10); return "{\"i\":"+esc(s)+"}"; }
      case TemplateArgument::Pack: { std::string s="{\"p\":["; bool f=true; for(auto&x:a.pack_elements()){ if(!f)s+=","; f=false; s+=targ(x);} return s+"]}"; }
      default: return "{}"; } }
  std::string targs(const TemplateArgumentList*l){ std::string s="["; if(l) for(unsigned i=0;i<l->size();++i){ if(i)s+=","; s+=targ(l->get(i)); } return s+"]"; }
  std::string loc(SourceLocation l){ auto&SM=C.getSourceManager(); auto p=SM.getPresumedLoc(SM.getExpansionLoc(l)); if(p.isInvalid()) return "\"?\""; return esc(std::string(p.getFilename())+":"+std::to_string(p.getLine())); }
  std::string unsup(const char*k,const Stmt*s){ return std::string("{\"k\":\"unsupported\",\"what\":")+esc(k)+",\"loc\":"+loc(s->getBeginLoc())+"}"; }
  std::string list(llvm::ArrayRef<const Expr*> a){ std::string s="["; for(size_t i=0;i<a.size();++i){ if(i)s+=","; s+=e(a[i]);} return s+"]"; }
  template<class It> std::string elist(It b, It en){ std::string s="["; bool f=true; for(;b!=en;++b){ if(!f)s+=","; f=false; s+=e(*b);} return s+"]"; }
  std::string tq(const Expr*x){ return ",\"t\":"+std::to_string(type(x->getType())); }
  std::string apint(const llvm::APSInt&v){ llvm::SmallString<32> s; v.toString(s,10); return std::string(s); }
  std::string e(const Expr*x){
    if(!x) return "null";
    x=x->IgnoreParens();
    if(auto y=dyn_cast<ExprWithCleanups>(x)) return e(y->getSubExpr());
    if(auto y=dyn_cast<MaterializeTemporaryExpr>(x)) return "{\"k\":\"tmp\",\"e\":"+e(y->getSubExpr())+tq(x)+"}";
    if(auto y=dyn_cast<CXXBindTemporaryExpr>(x)) return e(y->getSubExpr());
    if(auto y=dyn_cast<SubstNonTypeTemplateParmExpr>(x)) return e(y->getReplacement());
    if(auto y=dyn_cast<CXXDefaultArgExpr>(x)) return e(y->getExpr());
    if(auto y=dyn_cast<CXXDefaultInitExpr>(x)) return e(y->getExpr());
    if(auto y=dyn_cast<CXXRewrittenBinaryOperator>(x)) return e(y->getSemanticForm());
    if(auto y=dyn_cast<OpaqueValueExpr>(x)) return e(y->getSourceExpr());
    if(auto y=dyn_cast<CXXStdInitializerListExpr>(x)) return "{\"k\":\"stdinit\",\"e\":"+e(y->getSubExpr())+tq(x)+"}";
    if((x->getType()->isIntegerType()) && x->isPRValue() && !x->isValueDependent()){
      Expr::EvalResult r; if(!isa<CallExpr>(x) || true){ if(x->EvaluateAsInt(r,C,Expr::SE_NoSideEffects)) return "{\"k\":\"int\",\"v\":"+esc(apint(r.Val.getInt()))+tq(x)+"}"; } }
    if(auto y=dyn_cast<ConstantExpr>(x)) return e(y->getSubExpr());
    if(auto y=dyn_cast<FloatingLiteral>(x)) { llvm::SmallString<64> s; llvm::APFloat v=y->getValue(); bool li; v.convert(llvm::APFloat::IEEEdouble(),llvm::APFloat::rmNearestTiesToEven,&li); char b[64]; snprintf(b,64,"%a",v.convertToDouble()); return "{\"k\":\"float\",\"v\":"+esc(b)+tq(x)+"}"; }
    if(isa<CXXNullPtrLiteralExpr>(x)||isa<GNUNullExpr>(x)) return "{\"k\":\"null\"}";
    if(auto y=dyn_cast<clang::StringLiteral>(x)) return "{\"k\":\"str\",\"v\":"+(y->getCharByteWidth()==1?esc(y->getString()):esc(""))+tq(x)+"}";
    if(isa<PredefinedExpr>(x)) return "{\"k\":\"str\",\"v\":\"\""+tq(x)+"}";
    if(isa<CXXThisExpr>(x)) return "{\"k\":\"this\""+tq(x)+"}";
    if(auto y=dyn_cast<DeclRefExpr>(x)){
      auto d=y->getDecl();
      if(auto f=dyn_cast<FunctionDecl>(d)) return "{\"k\":\"fref\",\"f\":"+std::to_string(fn(f))+"}";
      if(auto v=dyn_cast<VarDecl>(d)) { if(auto*dv=dyn_cast<VarDecl>(d)) var(dv); std::string s="{\"k\":\"ref\",\"d\":"+std::to_string(var(v))+",\"n\":"+esc(v->getName())+(y->refersToEnclosingVariableOrCapture()?",\"cap\":1":"")+(v->hasGlobalStorage()?",\"g\":1":"")+tq(x)+"}"; return s; }
      if(auto b=dyn_cast<BindingDecl>(d)) return "{\"k\":\"bref\",\"d\":"+std::to_string(id(b))+",\"n\":"+esc(b->getName())+(y->refersToEnclosingVariableOrCapture()?",\"cap\":1":"")+tq(x)+"}";
      if(auto ec=dyn_cast<EnumConstantDecl>(d)) return "{\"k\":\"int\",\"v\":"+esc(apint(ec->getInitVal()))+tq(x)+"}";
      if(isa<TemplateParamObjectDecl>(d)) return "{\"k\":\"opaque\""+tq(x)+"}";
      return unsup("declref",x);
    }
    if(auto y=dyn_cast<MemberExpr>(x)){
      auto d=y->getMemberDecl();
      std::string s="{\"k\":\"mem\",\"b\":"+e(y->getBase())+",\"ar\":"+(y->isArrow()?"1":"0")+",\"n\":"+esc(d->getNameAsString());
      if(auto m=dyn_cast<CXXMethodDecl>(d)) s+=",\"m\":"+std::to_string(fn(m));
      else if(auto v=dyn_cast<VarDecl>(d)) s+=",\"sv\":"+std::to_string(var(v));
      return s+tq(x)+"}";
    }
    if(auto y=dyn_cast<CXXOperatorCallExpr>(x)){
      auto cal=y->getDirectCallee(); if(!cal) return unsup("opcall",x);
      return "{\"k\":\"op\",\"o\":"+esc(getOperatorSpelling(y->getOperator()))+",\"f\":"+std::to_string(fn(cal))+",\"mt\":"+(isa<CXXMethodDecl>(cal)&&!cast<CXXMethodDecl>(cal)->isStatic()?"1":"0")+",\"a\":"+elist(y->arg_begin(),y->arg_end())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    }
    if(auto y=dyn_cast<CXXMemberCallExpr>(x)){
      auto m=y->getMethodDecl(); if(!m) return unsup("ptr-to-member call",x);
      auto me=dyn_cast<MemberExpr>(y->getCallee()->IgnoreParens());
      return "{\"k\":\"mcall\",\"o\":"+e(y->getImplicitObjectArgument())+",\"ar\":"+((me&&me->isArrow())?"1":"0")+",\"f\":"+std::to_string(fn(m))+",\"a\":"+elist(y->arg_begin(),y->arg_end())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    }
    if(auto y=dyn_cast<CallExpr>(x)){
      std::string s="{\"k\":\"call\"";
      if(auto f=y->getDirectCallee()) s+=",\"f\":"+std::to_string(fn(f)); else s+=",\"c\":"+e(y->getCallee());
      return s+",\"a\":"+elist(y->arg_begin(),y->arg_end())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    }
    if(auto y=dyn_cast<CXXConstructExpr>(x)){
      auto cd=y->getConstructor();
      return "{\"k\":\"ctor\",\"f\":"+std::to_string(fn(cd))+",\"copy\":"+((cd->isCopyOrMoveConstructor())?"1":"0")+",\"mv\":"+(cd->isMoveConstructor()?"1":"0")+",\"zi\":"+(y->requiresZeroInitialization()?"1":"0")+",\"triv\":"+(cd->isTrivial()?"1":"0")+",\"lst\":"+(y->isListInitialization()?"1":"0")+",\"il\":"+(y->isStdInitListInitialization()?"1":"0")+",\"a\":"+elist(y->arg_begin(),y->arg_end())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    }
    if(auto y=dyn_cast<CXXInheritedCtorInitExpr>(x)) return "{\"k\":\"ictor\",\"f\":"+std::to_string(fn(y->getConstructor()))+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    if(auto y=dyn_cast<CastExpr>(x)){
      auto k=y->getCastKind();
      switch(k){ case CK_NoOp: case CK_FunctionToPointerDecay: case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr: return e(y->getSubExpr()); default: break; }
      return "{\"k\":\"cast\",\"ck\":"+esc(y->getCastKindName())+",\"e\":"+e(y->getSubExpr())+tq(x)+",\"ft\":"+std::to_string(type(y->getSubExpr()->getType()))+"}";
    }
    if(auto y=dyn_cast<UnaryOperator>(x)) return "{\"k\":\"un\",\"o\":"+esc(UnaryOperator::getOpcodeStr(y->getOpcode()))+",\"post\":"+(y->isPostfix()?"1":"0")+",\"e\":"+e(y->getSubExpr())+tq(x)+"}";
    if(auto y=dyn_cast<CompoundAssignOperator>(x)) return "{\"k\":\"casg\",\"o\":"+esc(y->getOpcodeStr())+",\"l\":"+e(y->getLHS())+",\"r\":"+e(y->getRHS())+",\"ct\":"+std::to_string(type(y->getComputationLHSType()))+",\"rt\":"+std::to_string(type(y->getComputationResultType()))+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    if(auto y=dyn_cast<BinaryOperator>(x)) return "{\"k\":\"bin\",\"o\":"+esc(y->getOpcodeStr())+",\"l\":"+e(y->getLHS())+",\"r\":"+e(y->getRHS())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    if(auto y=dyn_cast<ConditionalOperator>(x)) return "{\"k\":\"cond\",\"c\":"+e(y->getCond())+",\"l\":"+e(y->getTrueExpr())+",\"r\":"+e(y->getFalseExpr())+tq(x)+"}";
    if(auto y=dyn_cast<ArraySubscriptExpr>(x)) return "{\"k\":\"idx\",\"b\":"+e(y->getBase())+",\"i\":"+e(y->getIdx())+",\"loc\":"+loc(x->getBeginLoc())+tq(x)+"}";
    if(auto y=dyn_cast<CXXParenListInitExpr>(x)){ std::string s="{\"k\":\"ilist\",\"a\":["; bool first=true; for(auto z:y->getInitExprs()){ if(!first)s+=","; first=false; s+=e(z); } s+="]"; return s+tq(y)+"}"; }
    if(auto y=dyn_cast<InitListExpr>(x)){ if(y->isSemanticForm()==false && y->getSemanticForm()) y=y->getSemanticForm(); std::string s="{\"k\":\"ilist\",\"a\":["; for(unsigned i=0;i<y->getNumInits();++i){ if(i)s+=","; s+=e(y->getInit(i)); } s+="]"; if(y->getArrayFiller()) s+=",\"fill\":"+e(y->getArrayFiller()); return s+tq(y)+"}"; }
    if(isa<ImplicitValueInitExpr>(x)||isa<CXXScalarValueInitExpr>(x)) return "{\"k\":\"zero\""+tq(x)+"}";
    if(auto y=dyn_cast<LambdaExpr>(x)){
      auto r=y->getLambdaClass(); std::string s="{\"k\":\"lambda\",\"rec\":"+std::to_string(rec(r))+",\"caps\":["; bool f=true; auto fi=r->field_begin(); auto ii=y->capture_init_begin();
      for(auto ci=y->capture_begin(); ci!=y->capture_end(); ++ci,++fi,++ii){ if(!f)s+=","; f=false; int vid=0; std::string nm; if(ci->capturesVariable()){ auto cv=ci->getCapturedVar(); vid=id(isa<VarDecl>(cv)?(const void*)cast<VarDecl>(cv)->getCanonicalDecl():(const void*)cv); nm=cv->getNameAsString(); }
        s+="{\"d\":"+std::to_string(vid)+",\"this\":"+(ci->capturesThis()?"1":"0")+",\"byref\":"+((ci->capturesVariable()&&ci->getCaptureKind()==LCK_ByRef)?"1":"0")+",\"n\":"+esc(nm)+",\"init\":"+e(*ii)+"}"; }
      return s+"]"+tq(x)+"}";
    }
    if(auto y=dyn_cast<CXXNewExpr>(x)) return "{\"k\":\"new\",\"n\":"+(y->isArray()?e(*y->getArraySize()):std::string("null"))+",\"init\":"+e(y->getInitializer())+tq(x)+"}";
    if(auto y=dyn_cast<CXXDeleteExpr>(x)) return "{\"k\":\"delete\",\"e\":"+e(y->getArgument())+"}";
    if(auto y=dyn_cast<CXXThrowExpr>(x)) return "{\"k\":\"throw\"}";
    if(auto y=dyn_cast<CXXPseudoDestructorExpr>(x)) return "{\"k\":\"nop\"}";
    return unsup(x->getStmtClassName(),x);
  }
  std::string vdecl(const VarDecl*v){
    std::string s="{\"d\":"+std::to_string(id(v->getCanonicalDecl()))+",\"n\":"+esc(v->getName())+",\"t\":"+std::to_string(type(v->getType()))+",\"st\":"+(v->isStaticLocal()?"1":"0")+",\"init\":"+(v->hasInit()?e(v->getInit()):"null");
    if(auto dd=dyn_cast<DecompositionDecl>(v)){ s+=",\"bind\":["; bool f=true; for(auto b:dd->bindings()){ if(!f)s+=","; f=false; s+="{\"d\":"+std::to_string(id(b))+",\"n\":"+esc(b->getName())+",\"hv\":"+(b->getHoldingVar()?vdecl(b->getHoldingVar()):std::string("null"))+",\"e\":"+e(b->getBinding())+"}"; } s+="]"; }
    return s+"}";
  }
  std::string st(const Stmt*s){
    if(!s) return "null";
    if(auto y=dyn_cast<CompoundStmt>(s)){ std::string o="{\"k\":\"block\",\"b\":["; bool f=true; for(auto c:y->body()){ if(!f)o+=","; f=false; o+=st(c);} return o+"]}"; }
    if(auto y=dyn_cast<DeclStmt>(s)){ std::string o="{\"k\":\"decl\",\"v\":["; bool f=true; for(auto d:y->decls()) if(auto v=dyn_cast<VarDecl>(d)){ if(!f)o+=","; f=false; o+=vdecl(v);} return o+"]}"; }
    if(auto y=dyn_cast<IfStmt>(s)){ if(y->isConstexpr()){ if(auto nd=y->getNondiscardedCase(C)) return "{\"k\":\"block\",\"b\":["+(y->getInit()?st(y->getInit())+",":std::string())+(*nd?st(*nd):std::string("{\"k\":\"nop\"}"))+"]}"; }
      return "{\"k\":\"if\",\"init\":"+st(y->getInit())+",\"cv\":"+(y->getConditionVariableDeclStmt()?st(y->getConditionVariableDeclStmt()):"null")+",\"c\":"+e(y->getCond())+",\"l\":"+st(y->getThen())+",\"r\":"+st(y->getElse())+",\"loc\":"+loc(s->getBeginLoc())+"}"; }
    if(auto y=dyn_cast<ForStmt>(s)) return "{\"k\":\"for\",\"init\":"+st(y->getInit())+",\"c\":"+e(y->getCond())+",\"inc\":"+e(y->getInc())+",\"b\":"+st(y->getBody())+",\"loc\":"+loc(s->getBeginLoc())+"}";
    if(auto y=dyn_cast<WhileStmt>(s)) return "{\"k\":\"for\",\"init\":null,\"c\":"+e(y->getCond())+",\"inc\":null,\"b\":"+st(y->getBody())+",\"loc\":"+loc(s->getBeginLoc())+"}";
    if(auto y=dyn_cast<DoStmt>(s)) return "{\"k\":\"do\",\"c\":"+e(y->getCond())+",\"b\":"+st(y->getBody())+",\"loc\":"+loc(s->getBeginLoc())+"}";
    if(auto y=dyn_cast<CXXForRangeStmt>(s)) return "{\"k\":\"rfor\",\"pre\":["+(y->getInit()?st(y->getInit())+",":std::string())+st(y->getRangeStmt())+","+st(y->getBeginStmt())+","+st(y->getEndStmt())+"],\"c\":"+e(y->getCond())+",\"inc\":"+e(y->getInc())+",\"lv\":"+st(y->getLoopVarStmt())+",\"b\":"+st(y->getBody())+",\"loc\":"+loc(s->getBeginLoc())+"}";
    if(auto y=dyn_cast<ReturnStmt>(s)) return "{\"k\":\"ret\",\"e\":"+e(y->getRetValue())+",\"loc\":"+loc(s->getBeginLoc())+"}";
    if(isa<BreakStmt>(s)) return "{\"k\":\"break\"}";
    if(isa<ContinueStmt>(s)) return "{\"k\":\"continue\"}";
    if(isa<NullStmt>(s)) return "{\"k\":\"nop\"}";
    if(auto y=dyn_cast<CXXTryStmt>(s)) return st(y->getTryBlock());
    if(auto y=dyn_cast<AttributedStmt>(s)) return st(y->getSubStmt());
    if(auto y=dyn_cast<SwitchStmt>(s)){
      auto body=dyn_cast_or_null<CompoundStmt>(y->getBody()); if(!body||y->getConditionVariableDeclStmt()) return unsup("switch",s);
      std::string o; bool f=true; auto item=[&](const std::string&x){ if(!f)o+=","; f=false; o+=x; };
      for(auto c:body->body()){
        const Stmt*q=c;
        while(auto sc=dyn_cast<SwitchCase>(q)){
          if(auto k=dyn_cast<CaseStmt>(sc)){ if(k->getRHS()) return unsup("case range",s); auto v=k->getLHS()->EvaluateKnownConstInt(C); llvm::SmallString<32> t; v.toString(t,10); item("{\"v\":\""+std::string(t.str())+"\"}"); }
          else item("{\"v\":null}");
          q=sc->getSubStmt(); }
        item("{\"s\":"+st(q)+"}"); }
      return "{\"k\":\"switch\",\"init\":"+st(y->getInit())+",\"c\":"+e(y->getCond())+",\"b\":["+o+"],\"loc\":"+loc(s->getBeginLoc())+"}"; }
    if(auto y=dyn_cast<Expr>(s)) return "{\"k\":\"expr\",\"e\":"+e(y)+"}";
    return unsup(s->getStmtClassName(),s);
  }
  void run(llvm::raw_ostream&o){
    std::string fo; bool ff=true;
    std::string ro; bool rf=true; std::string go; bool gf=true;
    while(!work.empty()||!rwork.empty()||!gwork.empty()){
      if(!gwork.empty()){ auto v=gwork.front(); gwork.pop_front(); const VarDecl*d=v; const Expr*in=v->getAnyInitializer(d); if(!gf)go+=",\n"; gf=false; go+="\""+std::to_string(id(v->getCanonicalDecl()))+"\":{\"n\":"+esc(v->getQualifiedNameAsString())+",\"t\":"+std::to_string(type(v->getType()))+",\"init\":"+((in&&!external(v))?e(in):"null")+"}"; continue; }
      if(!rwork.empty()){
        auto r=rwork.front(); rwork.pop_front(); std::string s="\""+std::to_string(id(r->getCanonicalDecl()))+"\":{\"n\":"+esc(r->getQualifiedNameAsString());
        if(auto sp=dyn_cast<ClassTemplateSpecializationDecl>(r)) s+=",\"ta\":"+targs(&sp->getTemplateArgs());
        bool ext=external(r); auto cr=dyn_cast<CXXRecordDecl>(r); if(cr&&cr->isLambda()) ext=inStd(r)&&inSys(r);
        s+=std::string(",\"ext\":")+(ext?"1":"0");
        if(!ext && r->getDefinition()){
          s+=",\"fields\":["; bool f=true; for(auto fd:r->fields()){ if(!f)s+=","; f=false; s+="{\"n\":"+esc(fd->getName())+",\"t\":"+std::to_string(type(fd->getType()))+",\"init\":"+(fd->hasInClassInitializer()&&fd->getInClassInitializer()?e(fd->getInClassInitializer()):"null")+"}"; } s+="]";
          if(cr){ s+=",\"bases\":["; f=true; for(auto&b:cr->bases()){ if(!f)s+=","; f=false; s+=std::to_string(type(b.getType())); } s+="]"; s+=std::string(",\"lam\":")+(cr->isLambda()?"1":"0");
            { bool dq=false; for(auto*mm:cr->methods()) if(mm->isDefaulted()&&(mm->getOverloadedOperator()==OO_EqualEqual||mm->getOverloadedOperator()==OO_Spaceship)) dq=true; if(dq) s+=",\"deq\":1"; }
            if(auto d=cr->getDestructor()) if(d->isUserProvided()&&!d->isTrivial()) { const FunctionDecl*df=nullptr; if(d->hasBody(df)) s+=",\"dtor\":"+std::to_string(fn(d)); }
            { bool itr=false; for(auto*mm:cr->methods()) if(mm->getOverloadedOperator()==OO_PlusPlus) itr=true;   // operators that library algorithms call on a user-defined iterator
              if(itr){ for(auto*mm:cr->methods()) if(mm->isOverloadedOperator()&&!mm->isDependentContext()&&mm->hasBody()&&!mm->isDefaulted()) fn(mm);
                for(auto*fr:cr->friends()) if(auto fd=dyn_cast_or_null<FunctionDecl>(fr->getFriendDecl())) if(!fd->isDependentContext()&&fd->hasBody()) fn(fd); } }
            s+=",\"ctors\":["; f=true; std::string cl; bool cf=true;
            auto addc=[&](const FunctionDecl*fd){ if(!fd) return; if(fd->isDeleted()||fd->isDependentContext()||!fd->hasBody()) return; if(auto cc=dyn_cast<CXXConstructorDecl>(fd)){ if(!cc->isUserProvided()) return; if(!f)s+=","; f=false; s+="{\"f\":"+std::to_string(fn(cc))+",\"cc\":"+(cc->isCopyConstructor()?"1":"0")+",\"mc\":"+(cc->isMoveConstructor()?"1":"0")+"}"; } };
            auto addo=[&](const FunctionDecl*fd){ if(!fd||fd->isDependentContext()||!fd->hasBody()) return; if(!cf)cl+=","; cf=false; cl+=std::to_string(fn(fd)); };
            for(auto d: cr->decls()){
              if(auto c=dyn_cast<CXXConstructorDecl>(d)) addc(c);
              else if(auto m=dyn_cast<CXXMethodDecl>(d)){ if(m->getOverloadedOperator()==OO_Call) addo(m); }
              else if(auto ft=dyn_cast<FunctionTemplateDecl>(d)){ for(auto sp: ft->specializations()){ if(isa<CXXConstructorDecl>(sp)) addc(sp); else if(sp->getOverloadedOperator()==OO_Call) addo(sp); } }
            }
            s+="],\"calls\":["+cl+"]";
          }
        }
        s+="}"; if(!rf)ro+=",\n"; rf=false; ro+=s; continue; }
      auto f=work.front(); work.pop_front();
      std::string s="\""+std::to_string(id(f->getCanonicalDecl()))+"\":{\"n\":"+esc(f->getQualifiedNameAsString())+",\"sn\":"+esc(f->getNameAsString())+",\"loc\":"+loc(f->getLocation());
      bool ext=external(f); 
      if(auto m=dyn_cast<CXXMethodDecl>(f)){ auto p=m->getParent(); if(p->isLambda()) ext=inSys(f); s+=",\"cls\":"+std::to_string(rec(p))+",\"static\":"+(m->isStatic()?"1":"0")+",\"virt\":"+(m->isVirtual()?"1":"0"); }
      s+=",\"rt\":"+std::to_string(type(f->getReturnType()))+",\"ta\":"+targs(f->getTemplateSpecializationArgs());
      s+=",\"ps\":["; bool pf=true; for(auto p:f->parameters()){ if(!pf)s+=","; pf=false; s+="{\"d\":"+std::to_string(id(p->getCanonicalDecl()))+",\"n\":"+esc(p->getName())+",\"t\":"+std::to_string(type(p->getType()))+((!external(f)&&p->hasDefaultArg()&&!p->hasUninstantiatedDefaultArg()&&!p->hasUnparsedDefaultArg())?",\"dv\":"+e(p->getDefaultArg()):std::string(""))+"}"; } s+="]";
      s+=std::string(",\"ext\":")+(ext?"1":"0");
      static const std::set<std::string> acc{"begin","end","cbegin","cend","rbegin","rend","crbegin","crend","data","size","empty"};   // range access on a user class: the library's body is read as it is
      if(!ext||(inStd(f)&&!isa<CXXMethodDecl>(f)&&f->getDeclName().isIdentifier()&&acc.count(f->getName().str()))){
        if(f->isDefaulted()&&!f->isUserProvided()) s+=",\"dft\":1";
        if(f->hasBody() && !(f->isDefaulted() && isa<CXXConstructorDecl>(f) && !f->isUserProvided() && cast<CXXConstructorDecl>(f)->isCopyOrMoveConstructor())){
          if(auto c=dyn_cast<CXXConstructorDecl>(f)){ s+=",\"inits\":["; bool cf=true; for(auto i:c->inits()){ if(!cf)s+=","; cf=false; s+="{\"f\":"+(i->isAnyMemberInitializer()?esc(i->getAnyMember()->getName()):std::string("null"))+",\"base\":"+(i->isBaseInitializer()?std::to_string(type(QualType(i->getBaseClass(),0))):"null")+",\"del\":"+(i->isDelegatingInitializer()?"1":"0")+",\"e\":"+e(i->getInit())+"}"; } s+="]"; }
          s+=",\"body\":"+st(f->getBody());
        }
      }
      s+="}"; if(!ff)fo+=",\n"; ff=false; fo+=s;
    }
    o<<"{\"roots\":{"<<roots<<"},\n\"functions\":{"<<fo<<"},\n\"records\":{"<<ro<<"},\n\"globals\":{"<<go<<"},\n\"types\":["; for(size_t i=0;i<tout.size();++i){ if(i)o<<",\n"; o<<tout[i]; } o<<"]}\n";
  }
};
struct Find: RecursiveASTVisitor<Find>{ Ex&x; Find(Ex&x):x(x){} bool first=true;
  bool VisitFunctionDecl(FunctionDecl*f){ if(f->getDeclName().isIdentifier()&&f->getName().starts_with("vf_")&&f->isThisDeclarationADefinition()&&!f->isDependentContext()&&f->getTemplatedKind()!=FunctionDecl::TK_FunctionTemplate){ if(!first)x.roots+=","; first=false; x.roots+=esc(f->getName())+":"+std::to_string(x.fn(f)); } return true; } };
struct Cons: ASTConsumer{ void HandleTranslationUnit(ASTContext&C) override { if(C.getDiagnostics().hasErrorOccurred()) return; Ex x(C); Find f(x); for(auto d:C.getTranslationUnitDecl()->decls()){ if(!C.getSourceManager().isInMainFile(d->getLocation())) continue; f.TraverseDecl(d);} x.run(llvm::outs()); } };
struct Act: ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef) override { return std::make_unique<Cons>(); } };
struct Fac: tooling::FrontendActionFactory{ std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };
int main(int c,char**v){ std::vector<std::string> args; for(int i=2;i<c;++i) args.push_back(v[i]); tooling::FixedCompilationDatabase db(".",args); tooling::ClangTool t(db,{v[1]}); Fac f; return t.run(&f); }
