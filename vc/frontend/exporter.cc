// AST exporter: a clang plugin that writes the (type-checked, template-instantiated)
// bodies of every function defined under the given source prefixes as JSON.
// Nothing is rewritten: the output is clang's own AST with the sugar nodes
// (parentheses, no-op casts, cleanups, temporaries) removed.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json=llvm::json;
namespace {
struct Ex {
  ASTContext& C; std::vector<std::string> prefixes;
  std::unique_ptr<MangleContext> MC;
  json::Object records; json::Array functions;
  std::set<std::string> doneRec; std::map<const Decl*,int> ids; int nid=0;
  PrintingPolicy PP;
  Ex(ASTContext& c,std::vector<std::string> p):C(c),prefixes(p),PP(c.getPrintingPolicy()){
    MC.reset(C.createMangleContext());
    PP.SuppressTagKeyword=true; PP.Bool=true;
  }
  int id(const Decl* d){ d=d->getCanonicalDecl(); auto it=ids.find(d); if(it!=ids.end()) return it->second; return ids[d]=nid++; }
  std::string file(SourceLocation l){ l=C.getSourceManager().getExpansionLoc(l); auto P=C.getSourceManager().getPresumedLoc(l); if(P.isInvalid()) return ""; return P.getFilename(); }
  int line(SourceLocation l){ auto P=C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l)); return P.isInvalid()?0:P.getLine(); }
  bool inScope(SourceLocation l){ std::string f=file(l); for(auto&p:prefixes) if(f.rfind(p,0)==0) return true; return false; }
  std::string plainQ(const NamedDecl* d){ // qualified name without template arguments / inline namespaces
    std::string r=d->getDeclName().getAsString();
    if(auto*cd=dyn_cast<CXXConstructorDecl>(d)) r=cd->getParent()->getNameAsString();
    if(auto*cd=dyn_cast<CXXDestructorDecl>(d)) r="~"+cd->getParent()->getNameAsString();
    const DeclContext* dc=d->getDeclContext();
    while(dc && !dc->isTranslationUnit()){
      if(auto*n=dyn_cast<NamespaceDecl>(dc)){ if(!n->isInline()&&!n->isAnonymousNamespace()) r=n->getNameAsString()+"::"+r; }
      else if(auto*t=dyn_cast<TagDecl>(dc)) r=t->getNameAsString()+"::"+r;
      dc=dc->getParent();
    }
    return r;
  }
  std::string mangled(const FunctionDecl* f){
    std::string s; llvm::raw_string_ostream o(s);
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)) MC->mangleName(GlobalDecl(c,Ctor_Complete),o);
    else if(auto*c=dyn_cast<CXXDestructorDecl>(f)) MC->mangleName(GlobalDecl(c,Dtor_Complete),o);
    else if(MC->shouldMangleDeclName(f)) MC->mangleName(GlobalDecl(f),o); else o<<f->getNameAsString();
    return o.str();
  }
  json::Value type(QualType t){
    t=t.getCanonicalType(); json::Object o;
    if(t.isConstQualified()) o["c"]=true;
    const Type* p=t.getTypePtr();
    if(auto*b=dyn_cast<BuiltinType>(p)){ o["b"]=b->getName(PP).str(); }
    else if(auto*x=dyn_cast<PointerType>(p)) o["p"]=type(x->getPointeeType());
    else if(auto*x=dyn_cast<ReferenceType>(p)) o["r"]=type(x->getPointeeType());
    else if(auto*x=dyn_cast<EnumType>(p)) o["e"]=plainQ(x->getDecl());
    else if(auto*x=dyn_cast<ConstantArrayType>(p)){ o["arr"]=type(x->getElementType()); o["n"]=(int64_t)x->getSize().getZExtValue(); }
    else if(auto*x=dyn_cast<ArrayType>(p)){ o["arr"]=type(x->getElementType()); }
    else if(auto*x=dyn_cast<RecordType>(p)){
      auto*rd=x->getDecl(); o["rec"]=plainQ(rd);
      if(auto*s=dyn_cast<ClassTemplateSpecializationDecl>(rd)){
        json::Array a; for(auto&ta:s->getTemplateArgs().asArray()) arg(ta,a); o["args"]=std::move(a);
      }
      std::string nm=t.getUnqualifiedType().getAsString(PP); o["q"]=nm;
      record(rd,nm);
    }
    else o["x"]=t.getAsString(PP);
    return std::move(o);
  }
  void arg(const TemplateArgument& ta,json::Array& a){
    if(ta.getKind()==TemplateArgument::Type) a.push_back(type(ta.getAsType()));
    else if(ta.getKind()==TemplateArgument::Integral) a.push_back((int64_t)ta.getAsIntegral().getExtValue());
    else if(ta.getKind()==TemplateArgument::Pack){ for(auto&x:ta.pack_elements()) arg(x,a);} 
    else a.push_back(nullptr);
  }
  void record(const RecordDecl* rd,const std::string& nm){
    if(doneRec.count(nm)) return; doneRec.insert(nm);
    rd=rd->getDefinition(); if(!rd) return;
    SourceLocation rl=rd->getLocation(); if(auto*sp=dyn_cast<ClassTemplateSpecializationDecl>(rd)) rl=sp->getSpecializedTemplate()->getLocation();
    if(!inScope(rl)) return;
    json::Object o; json::Array fs,bs,ms;
    for(auto*f:rd->fields()){ json::Object fo; fo["name"]=f->getNameAsString(); fo["t"]=type(f->getType()); fs.push_back(std::move(fo)); }
    if(auto*cx=dyn_cast<CXXRecordDecl>(rd)){
      for(auto&b:cx->bases()) bs.push_back(type(b.getType()));
      for(auto*m:cx->methods()){
        if(m->isImplicit()) continue;
        json::Object mo; mo["name"]=m->getDeclName().getAsString(); mo["key"]=mangled(m); mo["virt"]=m->isVirtual();
        json::Array ov; for(auto*q:m->overridden_methods()) ov.push_back(mangled(q)); mo["over"]=std::move(ov);
        ms.push_back(std::move(mo));
      }
    }
    o["name"]=plainQ(rd); o["fields"]=std::move(fs); o["bases"]=std::move(bs); o["methods"]=std::move(ms);
    records[nm]=std::move(o);
  }
  json::Value fnref(const FunctionDecl* f){
    json::Object o; o["q"]=plainQ(f); 
    if(!f->getTemplateInstantiationPattern()||true) o["key"]=mangled(f);
    json::Array pt; for(auto*p:f->parameters()) pt.push_back(type(p->getType())); o["pt"]=std::move(pt);
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["const"]=m->isConst(); o["static"]=m->isStatic(); o["virt"]=m->isVirtual(); o["cls"]=type(C.getRecordType(m->getParent())); }
    o["rt"]=type(f->getReturnType());
    return std::move(o);
  }
  const Expr* strip(const Expr* e){
    while(true){
      if(auto*p=dyn_cast<ParenExpr>(e)) e=p->getSubExpr();
      else if(auto*p=dyn_cast<ExprWithCleanups>(e)) e=p->getSubExpr();
      else if(auto*p=dyn_cast<MaterializeTemporaryExpr>(e)) e=p->getSubExpr();
      else if(auto*p=dyn_cast<CXXBindTemporaryExpr>(e)) e=p->getSubExpr();
      else if(auto*p=dyn_cast<ConstantExpr>(e)) e=p->getSubExpr();
      else if(auto*p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=p->getReplacement();
      else if(auto*p=dyn_cast<CXXDefaultArgExpr>(e)) e=p->getExpr();
      else if(auto*p=dyn_cast<CXXDefaultInitExpr>(e)) e=p->getExpr();
      else return e;
    }
  }
  json::Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r){ json::Array a; for(auto*x:r) a.push_back(expr(x)); return a; }
  json::Value expr(const Expr* e){
    if(!e) return nullptr;
    e=strip(e); json::Object o; o["l"]=line(e->getExprLoc());
    o["t"]=type(e->getType()); if(e->isLValue()||e->isXValue()) o["lv"]=true;
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ o["k"]="int"; llvm::SmallString<32> s; x->getValue().toString(s,10,x->getType()->isSignedIntegerType()); o["v"]=s.str().str(); }
    else if(auto*x=dyn_cast<CharacterLiteral>(e)){ o["k"]="int"; o["v"]=std::to_string(x->getValue()); }
    else if(auto*x=dyn_cast<CXXBoolLiteralExpr>(e)){ o["k"]="bool"; o["v"]=x->getValue(); }
    else if(auto*x=dyn_cast<FloatingLiteral>(e)){ o["k"]="flt"; llvm::SmallString<64> s; x->getValue().toString(s,120,0); o["v"]=s.str().str(); }
    else if(auto*x=dyn_cast<StringLiteral>(e)){ o["k"]="str"; std::string s; if(x->getCharByteWidth()==1) s=x->getString().str(); if(json::isUTF8(s)) o["v"]=s; else o["v"]="?"; }
    else if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ o["k"]="null"; }
    else if(auto*x=dyn_cast<CXXScalarValueInitExpr>(e)){ (void)x; o["k"]="zero"; }
    else if(isa<ImplicitValueInitExpr>(e)){ o["k"]="zero"; }
    else if(isa<CXXThisExpr>(e)){ o["k"]="this"; }
    else if(auto*x=dyn_cast<DeclRefExpr>(e)){
      const ValueDecl* d=x->getDecl(); o["k"]="ref"; o["n"]=d->getNameAsString(); o["d"]=id(d);
      if(auto*ec=dyn_cast<EnumConstantDecl>(d)){ o["dk"]="enum"; o["v"]=ec->getInitVal().getExtValue(); }
      else if(auto*f=dyn_cast<FunctionDecl>(d)){ o["dk"]="fn"; o["fn"]=fnref(f); }
      else if(auto*v=dyn_cast<VarDecl>(d)){
        if(v->hasGlobalStorage()){ o["dk"]="glob"; o["q"]=plainQ(v);
          if(v->isStaticLocal()) o["dk"]="static";
          const VarDecl* def=nullptr; const Expr* in=v->getAnyInitializer(def);
          if(in && v->getType().isConstQualified() && !in->isValueDependent()){
            Expr::EvalResult R; if(v->getType()->isIntegralOrEnumerationType() && in->EvaluateAsInt(R,C)) o["v"]=R.Val.getInt().getExtValue();
          }
        }
        else o["dk"]=isa<ParmVarDecl>(v)?"parm":"var";
      } else o["dk"]="other";
    }
    else if(auto*x=dyn_cast<MemberExpr>(e)){
      auto*d=x->getMemberDecl();
      if(isa<FieldDecl>(d)){ o["k"]="mem"; o["n"]=d->getNameAsString(); o["arrow"]=x->isArrow(); o["base"]=expr(x->getBase()); }
      else if(auto*v=dyn_cast<VarDecl>(d)){ o["k"]="ref"; o["dk"]="glob"; o["q"]=plainQ(v); o["n"]=v->getNameAsString(); o["d"]=id(v); }
      else { o["k"]="unsup"; o["w"]="memberfn"; }
    }
    else if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
      if(auto*f=x->getDirectCallee()){
        if(auto*m=dyn_cast<CXXMethodDecl>(f); m && !m->isStatic()){
          o["k"]="mcall"; o["fn"]=fnref(f); o["arrow"]=false; o["obj"]=expr(x->getArg(0));
          json::Array a; for(unsigned i=1;i<x->getNumArgs();++i) a.push_back(expr(x->getArg(i))); o["args"]=std::move(a);
        } else { o["k"]="call"; o["fn"]=fnref(f); o["args"]=args(x->arguments()); }
      } else { o["k"]="unsup"; o["w"]="opcall"; }
    }
    else if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){
      auto*m=x->getMethodDecl(); auto*me=dyn_cast<MemberExpr>(strip(x->getCallee()));
      if(m && me){ o["k"]="mcall"; o["fn"]=fnref(m); o["arrow"]=me->isArrow(); o["obj"]=expr(me->getBase()); o["args"]=args(x->arguments());
        if(me->hasQualifier()) o["novirt"]=true; }
      else { o["k"]="unsup"; o["w"]="mcall"; }
    }
    else if(auto*x=dyn_cast<CallExpr>(e)){
      if(auto*f=x->getDirectCallee()){ o["k"]="call"; o["fn"]=fnref(f); o["args"]=args(x->arguments()); }
      else { o["k"]="icall"; o["f"]=expr(x->getCallee()); o["args"]=args(x->arguments()); }
    }
    else if(auto*x=dyn_cast<CXXConstructExpr>(e)){
      o["k"]="ctor"; auto*c=x->getConstructor(); o["fn"]=fnref(c); json::Array a; for(auto*y:x->arguments()) a.push_back(expr(y)); o["args"]=std::move(a);
      o["copy"]=c->isCopyOrMoveConstructor(); o["elid"]=x->isElidable(); o["triv"]=c->isImplicit(); o["dflt"]=c->isDefaultConstructor();
    }
    else if(auto*x=dyn_cast<CXXNewExpr>(e)){
      o["k"]="new"; o["at"]=type(x->getAllocatedType()); o["array"]=x->isArray();
      if(x->isArray()&&x->getArraySize()) o["n"]=expr(*x->getArraySize());
      o["init"]=expr(x->getInitializer());
      if(!x->isArray()&&x->getNumPlacementArgs()==1) o["place"]=expr(x->getPlacementArg(0));
    }
    else if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ o["k"]="delete"; o["e"]=expr(x->getArgument()); o["array"]=x->isArrayForm(); }
    else if(auto*x=dyn_cast<UnaryOperator>(e)){ o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"]=x->isPostfix(); o["e"]=expr(x->getSubExpr()); }
    else if(auto*x=dyn_cast<CompoundAssignOperator>(e)){ o["k"]="cas"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); o["ct"]=type(x->getComputationResultType()); }
    else if(auto*x=dyn_cast<BinaryOperator>(e)){ o["k"]="bin"; o["op"]=BinaryOperator::getOpcodeStr(x->getOpcode()).str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); }
    else if(auto*x=dyn_cast<ConditionalOperator>(e)){ o["k"]="cond"; o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); }
    else if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ o["k"]="sub"; o["a"]=expr(x->getBase()); o["i"]=expr(x->getIdx()); }
    else if(auto*x=dyn_cast<CastExpr>(e)){
      o["k"]="cast"; o["ck"]=x->getCastKindName(); o["e"]=expr(x->getSubExpr());
      if(isa<CXXDynamicCastExpr>(e)) o["dyn"]=true;
    }
    else if(auto*x=dyn_cast<UnaryExprOrTypeTraitExpr>(e)){
      o["k"]="unsup"; o["w"]="sizeof";
      Expr::EvalResult R; if(!e->isValueDependent() && e->EvaluateAsInt(R,C)){ o["k"]="int"; llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["v"]=s.str().str(); }
      if(x->getKind()==UETT_SizeOf) o["szof"]=type(x->getTypeOfArgument());
    }
    else if(auto*x=dyn_cast<InitListExpr>(e)){ o["k"]="ilist"; json::Array a; for(auto*y:x->inits()) a.push_back(expr(y)); o["args"]=std::move(a); }
    else if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)){ o["k"]="silist"; o["e"]=expr(x->getSubExpr()); }
    else { o["k"]="unsup"; o["w"]=e->getStmtClassName(); }
    return std::move(o);
  }
  json::Value var(const VarDecl* v){
    json::Object o; o["d"]=id(v); o["n"]=v->getNameAsString(); o["t"]=type(v->getType()); o["init"]=expr(v->getInit()); if(v->isStaticLocal()) o["static"]=true; return std::move(o);
  }
  json::Value stmt(const Stmt* s){
    if(!s) return nullptr;
    json::Object o; o["l"]=line(s->getBeginLoc());
    if(auto*x=dyn_cast<Expr>(s)){ o["k"]="expr"; o["e"]=expr(x); }
    else if(auto*x=dyn_cast<CompoundStmt>(s)){ o["k"]="block"; json::Array a; for(auto*y:x->body()) a.push_back(stmt(y)); o["s"]=std::move(a); }
    else if(auto*x=dyn_cast<DeclStmt>(s)){ o["k"]="decl"; json::Array a; for(auto*d:x->decls()) if(auto*v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"]=std::move(a); }
    else if(auto*x=dyn_cast<IfStmt>(s)){ o["k"]="if"; o["init"]=stmt(x->getInit()); if(x->getConditionVariable()) o["cv"]=var(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); }
    else if(auto*x=dyn_cast<ForStmt>(s)){ o["k"]="for"; o["init"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["body"]=stmt(x->getBody()); }
    else if(auto*x=dyn_cast<WhileStmt>(s)){ o["k"]="for"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); if(x->getConditionVariable()) {o["k"]="unsup"; o["w"]="whilevar";} }
    else if(auto*x=dyn_cast<DoStmt>(s)){ o["k"]="do"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); }
    else if(auto*x=dyn_cast<CXXForRangeStmt>(s)){
      o["k"]="for"; json::Array a; a.push_back(stmt(x->getRangeStmt())); a.push_back(stmt(x->getBeginStmt())); a.push_back(stmt(x->getEndStmt()));
      json::Object b; b["k"]="seq"; b["s"]=std::move(a); o["init"]=std::move(b); o["c"]=expr(x->getCond()); o["inc"]=expr(x->getInc());
      json::Array c; c.push_back(stmt(x->getLoopVarStmt())); c.push_back(stmt(x->getBody())); json::Object d; d["k"]="block"; d["s"]=std::move(c); o["body"]=std::move(d); o["range"]=true;
    }
    else if(auto*x=dyn_cast<ReturnStmt>(s)){ o["k"]="ret"; o["e"]=expr(x->getRetValue()); }
    else if(isa<BreakStmt>(s)) o["k"]="break";
    else if(isa<ContinueStmt>(s)) o["k"]="cont";
    else if(isa<NullStmt>(s)) o["k"]="null";
    else if(auto*x=dyn_cast<SwitchStmt>(s)){ o["k"]="switch"; o["c"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); }
    else if(auto*x=dyn_cast<CaseStmt>(s)){ o["k"]="case"; o["v"]=expr(x->getLHS()); Expr::EvalResult R; if(x->getLHS()->EvaluateAsInt(R,C)) o["cv"]=R.Val.getInt().getExtValue(); o["s"]=stmt(x->getSubStmt()); }
    else if(auto*x=dyn_cast<DefaultStmt>(s)){ o["k"]="default"; o["s"]=stmt(x->getSubStmt()); }
    else if(auto*x=dyn_cast<LabelStmt>(s)){ o["k"]="unsup"; o["w"]="label"; (void)x; }
    else { o["k"]="unsup"; o["w"]=s->getStmtClassName(); }
    return std::move(o);
  }
  std::set<std::string> doneFn;
  void function(const FunctionDecl* f){
    if(!f->doesThisDeclarationHaveABody()||f->isDependentContext()) return;
    if(f->getTemplatedKind()==FunctionDecl::TK_FunctionTemplate) return;
    if(!inScope(f->getLocation())) return;
    if(f->isImplicit()||f->isDefaulted()) return;
    std::string key=mangled(f); if(!doneFn.insert(key).second) return;
    json::Object o; o["key"]=key; o["q"]=plainQ(f); { std::string s; llvm::raw_string_ostream os(s); f->getNameForDiagnostic(os,PP,true); o["pn"]=os.str(); }
    o["file"]=file(f->getLocation()); o["line"]=line(f->getLocation());
    o["endline"]=line(f->getEndLoc());
    json::Array ps; for(auto*p:f->parameters()){ json::Object po; po["d"]=id(p); po["n"]=p->getNameAsString(); po["t"]=type(p->getType()); ps.push_back(std::move(po)); } o["params"]=std::move(ps);
    o["rt"]=type(f->getReturnType());
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ o["cls"]=type(C.getRecordType(m->getParent())); o["const"]=m->isConst(); o["static"]=m->isStatic(); }
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ o["ctor"]=true; json::Array is; for(auto*i:c->inits()){ json::Object io; if(i->isAnyMemberInitializer()) io["f"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) io["base"]=type(QualType(i->getBaseClass(),0)); io["e"]=expr(i->getInit()); io["written"]=i->isWritten(); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
    if(isa<CXXDestructorDecl>(f)) o["dtor"]=true;
    o["body"]=stmt(f->getBody());
    functions.push_back(std::move(o));
  }
};
class V: public RecursiveASTVisitor<V>{ public: Ex& X; V(Ex&x):X(x){} bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return false;}
  bool VisitFunctionDecl(FunctionDecl* f){ const FunctionDecl* d=nullptr; if(f->hasBody(d)) X.function(d); return true; } };
class Cons: public ASTConsumer{ std::string out; std::vector<std::string> pre; public: Cons(std::string o,std::vector<std::string> p):out(o),pre(p){}
  void HandleTranslationUnit(ASTContext& C) override {
    Ex X(C,pre); V v(X); v.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code ec; llvm::raw_fd_ostream os(out,ec);
    json::Object o; o["functions"]=std::move(X.functions); o["records"]=std::move(X.records); os<<json::Value(std::move(o));
  } };
class Act: public PluginASTAction{ std::string out="ast.json"; std::vector<std::string> pre;
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,llvm::StringRef) override { return std::make_unique<Cons>(out,pre); }
  bool ParseArgs(const CompilerInstance&,const std::vector<std::string>& a) override { for(auto&s:a){ if(s.rfind("out=",0)==0) out=s.substr(4); else if(s.rfind("prefix=",0)==0) pre.push_back(s.substr(7)); } return true; }
  ActionType getActionType() override { return ReplaceAction; } };
}
static FrontendPluginRegistry::Add<Act> Xreg("vcexport","export AST");
