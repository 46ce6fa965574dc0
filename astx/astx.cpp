// astx: export the fully type-checked AST (template instantiations included)
// of the functions defined under a source root as JSON.  One translation unit
// per run.  Nothing is simplified except: parentheses, ExprWithCleanups,
// MaterializeTemporary and CXXBindTemporary wrappers are dropped, default
// arguments/initialisers are expanded in place, side-effect-free constant
// integer expressions are replaced by their value (as evaluated by clang).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
using namespace clang;
namespace js = llvm::json;
static std::string gRoot;   // source root(s), ':' separated
static std::string gOut;

struct Exporter {
  ASTContext &C; SourceManager &SM; ASTNameGenerator NG;
  js::Array types, funcs, records, globals;
  std::map<std::string,int> typeIds;
  std::set<std::string> doneF, doneR, doneG;
  std::vector<const FunctionDecl*> work;
  std::map<const ValueDecl*,int> varIds; int nextVar=0;
  int curLine=0;
  PrintingPolicy PP;
  Exporter(ASTContext &c):C(c),SM(c.getSourceManager()),NG(c),PP(c.getLangOpts()){ PP.PrintCanonicalTypes=true; PP.SuppressTagKeyword=true; PP.UsePreferredNames=false; }

  std::string file(SourceLocation l){
    l=SM.getExpansionLoc(l); auto p=SM.getPresumedLoc(l);
    return p.isValid()? std::string(p.getFilename()):"";
  }
  bool inRoot(SourceLocation l){
    std::string f=file(l); size_t s=0;
    while(s<=gRoot.size()){ size_t e=gRoot.find(':',s); if(e==std::string::npos)e=gRoot.size();
      std::string r=gRoot.substr(s,e-s); if(!r.empty()&&f.compare(0,r.size(),r)==0) return true; s=e+1;}
    return false;
  }
  int line(SourceLocation l){ return SM.getExpansionLineNumber(l); }
  int col(SourceLocation l){ return SM.getExpansionColumnNumber(l); }

  std::string qn(const NamedDecl*d){ // qualified name without template args; inline namespaces dropped
    std::string r=d->getNameAsString();
    if(isa<CXXConstructorDecl>(d)) r="(ctor)"; else if(isa<CXXDestructorDecl>(d)) r="(dtor)";
    else if(isa<CXXConversionDecl>(d)) r="(conv)";
    if(auto*rd=dyn_cast<CXXRecordDecl>(d)) if(rd->isLambda()) r="(lambda)";
    const DeclContext*dc=d->getDeclContext();
    while(dc){
      if(auto*n=dyn_cast<NamespaceDecl>(dc)){ if(!n->isInline()) r=(n->isAnonymousNamespace()?std::string("(anon)"):n->getNameAsString())+"::"+r; }
      else if(auto*n=dyn_cast<RecordDecl>(dc)){ auto*rd=dyn_cast<CXXRecordDecl>(dc);
        r=((rd&&rd->isLambda())?std::string("(lambda)"):n->getNameAsString())+"::"+r; }
      else if(auto*n=dyn_cast<EnumDecl>(dc)){ r=n->getNameAsString()+"::"+r; }
      else if(auto*f=dyn_cast<FunctionDecl>(dc)){ r=f->getNameAsString()+"()::"+r; }
      dc=dc->getParent();
    }
    return r;
  }
  std::string recKey(const CXXRecordDecl*d){
    if(d->isLambda()){ auto l=d->getLocation(); std::string p;
      const DeclContext*dc=d->getDeclContext(); while(dc&&!isa<FunctionDecl>(dc)) dc=dc->getParent();
      if(dc) p=fkey(cast<FunctionDecl>(dc)); 
      return "lambda@"+file(l)+":"+std::to_string(line(l))+":"+std::to_string(col(l))+"@"+p; }
    return C.getTypeDeclType(d).getCanonicalType().getAsString(PP);
  }
  std::string fkey(const FunctionDecl*f){
    f=f->getCanonicalDecl();
    if(auto*m=dyn_cast<CXXMethodDecl>(f)) if(m->getParent()->isLambda()) return recKey(m->getParent())+"::"+m->getNameAsString();
    std::string k=NG.getName(f);
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ (void)c; k=recKey(cast<CXXMethodDecl>(f)->getParent())+"::ctor#"+k; }
    if(k.empty()) k=f->getQualifiedNameAsString();
    if(!f->isExternallyVisible()) k+="@"+file(f->getLocation());
    return k;
  }
  int type(QualType q){
    q=q.getCanonicalType();
    std::string key=q.getAsString(PP);
    if(auto*rt=q->getAs<RecordType>()) if(auto*rd=dyn_cast<CXXRecordDecl>(rt->getDecl())) if(rd->isLambda()) key=(q.isConstQualified()?"const ":"")+recKey(rd);
    auto it=typeIds.find(key); if(it!=typeIds.end()) return it->second;
    int id=types.size(); typeIds[key]=id; types.push_back(nullptr);
    js::Object o; o["s"]=key; if(q.isConstQualified()) o["c"]=true;
    QualType u=q.getUnqualifiedType(); const Type*t=u.getTypePtr();
    if(t->isVoidType()) o["k"]="void";
    else if(t->isBooleanType()) o["k"]="bool";
    else if(auto*et=t->getAs<EnumType>()){ o["k"]="enum"; o["n"]=qn(et->getDecl()); 
      QualType it2=et->getDecl()->getIntegerType(); if(!it2.isNull()){ o["b"]=(int)C.getTypeSize(it2); o["sg"]=it2->isSignedIntegerType(); }
      js::Array en; for(auto*e:et->getDecl()->enumerators()){ js::Object x; x["n"]=e->getNameAsString(); llvm::SmallString<32> s; e->getInitVal().toString(s,10); x["v"]=s.str().str(); en.push_back(std::move(x)); } o["en"]=std::move(en); }
    else if(t->isIntegerType()){ o["k"]="int"; o["b"]=(int)C.getTypeSize(u); o["sg"]=t->isSignedIntegerType(); if(t->isCharType()) o["ch"]=true; }
    else if(t->isFloatingType()) o["k"]="float";
    else if(t->isNullPtrType()) o["k"]="null";
    else if(t->isReferenceType()){ o["k"]="ref"; o["rv"]=t->isRValueReferenceType(); o["t"]=type(t->getPointeeType()); }
    else if(t->isPointerType()){ o["k"]="ptr"; o["t"]=type(t->getPointeeType()); }
    else if(auto*ca=C.getAsConstantArrayType(u)){ o["k"]="arr"; o["t"]=type(ca->getElementType()); o["n"]=(int64_t)ca->getSize().getZExtValue(); }
    else if(t->isArrayType()){ o["k"]="arr"; o["t"]=type(C.getAsArrayType(u)->getElementType()); o["n"]=-1; }
    else if(t->isVectorType()){ o["k"]="simd"; o["b"]=(int)C.getTypeSize(u); }
    else if(auto*rt=t->getAs<RecordType>()){
      auto*rd=cast<RecordDecl>(rt->getDecl()); o["k"]="rec"; o["n"]=qn(rd);
      auto*cx=dyn_cast<CXXRecordDecl>(rd);
      if(cx&&cx->isLambda()) o["lam"]=true;
      if(auto*sp=dyn_cast<ClassTemplateSpecializationDecl>(rd)){
        js::Array ta; for(auto&a:sp->getTemplateArgs().asArray()) targ(a,ta); o["ta"]=std::move(ta); }
      if(cx){ record(cx); o["r"]=recKey(cx); }
    }
    else if(t->isFunctionProtoType()){ o["k"]="fn"; auto*fp=t->getAs<FunctionProtoType>(); o["ret"]=type(fp->getReturnType()); js::Array ps; for(auto p:fp->getParamTypes()) ps.push_back(type(p)); o["ps"]=std::move(ps); }
    else { o["k"]="other"; }
    types[id]=std::move(o); return id;
  }
  void targ(const TemplateArgument&a, js::Array&ta){
    switch(a.getKind()){
      case TemplateArgument::Type: { js::Object x; x["t"]=type(a.getAsType()); ta.push_back(std::move(x)); break; }
      case TemplateArgument::Integral: { js::Object x; llvm::SmallString<32> s; a.getAsIntegral().toString(s,10); x["v"]=s.str().str(); ta.push_back(std::move(x)); break; }
      case TemplateArgument::Pack: for(auto&b:a.pack_elements()) targ(b,ta); break;
      default: ta.push_back(js::Object()); }
  }
  void record(const CXXRecordDecl*d){
    d=d->getDefinition()?d->getDefinition():d;
    std::string k=recKey(d); if(!doneR.insert(k).second) return;
    if(!d->isCompleteDefinition()) return;
    bool user=inRoot(d->getLocation()); if(auto*sp=dyn_cast<ClassTemplateSpecializationDecl>(d)) user=user||inRoot(sp->getSpecializedTemplate()->getTemplatedDecl()->getLocation());
    if(!user && !d->isLambda() && !(d->isAggregate()&&d->isPOD())) return;
    js::Object o; o["k"]=k; o["qn"]=qn(d); o["lam"]=d->isLambda(); o["user"]=user;
    js::Array b; for(auto&x:d->bases()) b.push_back(type(x.getType())); o["bases"]=std::move(b);
    js::Array f;
    if(d->isLambda()){
      int i=0; auto fi=d->field_begin();
      for(auto&cap:d->captures()){ js::Object x; x["n"]="$cap"+std::to_string(i++);
        x["t"]=type((*fi)->getType()); ++fi;
        if(cap.capturesVariable()) { x["var"]=cap.getCapturedVar()->getNameAsString(); }
        x["byref"]=cap.getCaptureKind()==LCK_ByRef; x["this"]=cap.capturesThis(); f.push_back(std::move(x)); }
    } else for(auto*x:d->fields()){ js::Object y; y["n"]=x->getNameAsString(); y["t"]=type(x->getType());
      if(x->hasInClassInitializer()&&x->getInClassInitializer()&&!x->getInClassInitializer()->isTypeDependent()) y["init"]=expr(x->getInClassInitializer()); f.push_back(std::move(y)); }
    o["fields"]=std::move(f);
    o["loc"]=file(d->getLocation())+":"+std::to_string(line(d->getLocation()));
    records.push_back(std::move(o));
  }
  int var(const ValueDecl*v){ v=cast<ValueDecl>(v->getCanonicalDecl()); auto it=varIds.find(v); if(it!=varIds.end()) return it->second; return varIds[v]=nextVar++; }

  void fnref(const FunctionDecl*f, js::Object&o){
    o["fn"]=fkey(f); o["qn"]=qn(f);
    const FunctionDecl*def=nullptr;
    if(f->hasBody(def)||f->isDefined(def)){ if(def&&inRoot(def->getLocation())&&!def->isDependentContext()){ work.push_back(def);} }
    if(inRoot(f->getLocation())||(def&&inRoot(def->getLocation()))) o["user"]=true;
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){ if(m->isVirtual()) o["virt"]=true; if(m->isStatic()) o["static"]=true; if(m->isDefaulted()) o["dflt"]=true; if(m->isConst()) o["cm"]=true;}
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ if(c->isCopyConstructor()) o["copy"]=true; if(c->isMoveConstructor()) o["move"]=true; if(c->isDefaultConstructor()) o["dc"]=true; }
    if(auto*ta=f->getTemplateSpecializationArgs()){ js::Array a; for(auto&x:ta->asArray()) targ(x,a); o["ta"]=std::move(a); }
    js::Array ps; for(auto*p:f->parameters()) ps.push_back(type(p->getType())); o["ps"]=std::move(ps);
  }
  js::Value unsup(const Stmt*s){ js::Object o; o["e"]="unsup"; o["s"]="unsup"; o["why"]=s->getStmtClassName(); o["l"]=line(s->getBeginLoc()); return o; }

  void global(const VarDecl*v){
    const VarDecl*def=v->getDefinition(); const VarDecl*iv=nullptr; const Expr*in=v->getAnyInitializer(iv);
    std::string k=qnv(v); if(!doneG.insert(k).second) return;
    js::Object o; o["k"]=k; o["t"]=type(v->getType()); o["const"]=v->getType().isConstQualified()||v->isConstexpr();
    (void)def; if(in&&inRoot(v->getLocation())&&!in->isValueDependent()) o["init"]=expr(in); globals.push_back(std::move(o));
  }
  std::string qnv(const VarDecl*v){ std::string r=v->getQualifiedNameAsString(); 
    if(v->isStaticDataMember()){ auto*d=cast<CXXRecordDecl>(v->getDeclContext()); return recKey(d)+"::"+v->getNameAsString(); }
    if(!v->isExternallyVisible()||v->isStaticLocal()) r+="@"+file(v->getLocation())+":"+std::to_string(line(v->getLocation()));
    return r; }

  js::Value exprs(ArrayRef<const Expr*> a){ js::Array r; for(auto*x:a) r.push_back(expr(x)); return r; }
  js::Value expr(const Expr*e){
    if(!e) return nullptr;
    // strip wrappers
    for(;;){
      if(auto*x=dyn_cast<ParenExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<ExprWithCleanups>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<CXXBindTemporaryExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<ConstantExpr>(e)) e=x->getSubExpr();
      else if(auto*x=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e=x->getReplacement();
      else if(auto*x=dyn_cast<CXXDefaultArgExpr>(e)) e=x->getExpr();
      else if(auto*x=dyn_cast<CXXDefaultInitExpr>(e)) e=x->getExpr();
      else break;
    }
    if(auto*x=dyn_cast<MaterializeTemporaryExpr>(e)){ js::Object o; o["e"]="mat"; o["a"]=expr(x->getSubExpr()); o["t"]=type(e->getType()); return o; }
    QualType T=e->getType();
    if(e->isPRValue() && !e->isValueDependent() && (T->isIntegralOrEnumerationType()) ){
      Expr::EvalResult R;
      if(e->EvaluateAsInt(R,C,Expr::SE_NoSideEffects)){ js::Object o; llvm::SmallString<64> s; 
        if(T->isBooleanType()){ o["e"]="bool"; o["v"]=R.Val.getInt().getBoolValue(); }
        else { R.Val.getInt().toString(s,10); o["e"]="int"; o["v"]=s.str().str(); } o["t"]=type(T); o["l"]=line(e->getBeginLoc()); return o; }
    }
    js::Object o; o["t"]=type(T); o["l"]=line(e->getBeginLoc()); if(e->isLValue()) o["lv"]=true; else if(e->isXValue()) o["xv"]=true;
    if(auto*x=dyn_cast<IntegerLiteral>(e)){ llvm::SmallString<64> s; x->getValue().toString(s,10,T->isSignedIntegerType()); o["e"]="int"; o["v"]=s.str().str(); return o; }
    if(auto*x=dyn_cast<CharacterLiteral>(e)){ o["e"]="int"; o["v"]=std::to_string(x->getValue()); return o; }
    if(auto*x=dyn_cast<StringLiteral>(e)){ o["e"]="str"; o["v"]=x->isOrdinary()?js::fixUTF8(x->getString()):std::string(""); return o; }
    if(auto*x=dyn_cast<FloatingLiteral>(e)){ o["e"]="float"; o["v"]=x->getValueAsApproximateDouble(); return o; }
    if(isa<CXXNullPtrLiteralExpr>(e)||isa<GNUNullExpr>(e)){ o["e"]="null"; return o; }
    if(isa<CXXThisExpr>(e)){ o["e"]="this"; return o; }
    if(auto*x=dyn_cast<DeclRefExpr>(e)){
      auto*d=x->getDecl();
      if(auto*v=dyn_cast<VarDecl>(d)){
        if(v->hasLocalStorage()){ o["e"]="var"; o["id"]=var(v); o["n"]=v->getNameAsString(); if(x->refersToEnclosingVariableOrCapture()) o["cap"]=true; return o; }
        global(v); o["e"]="gvar"; o["k"]=qnv(v); return o; }
      if(auto*v=dyn_cast<EnumConstantDecl>(d)){ llvm::SmallString<32> s; v->getInitVal().toString(s,10); o["e"]="int"; o["v"]=s.str().str(); return o; }
      if(auto*f=dyn_cast<FunctionDecl>(d)){ o["e"]="fnref"; fnref(f,o); return o; }
      if(auto*b=dyn_cast<BindingDecl>(d)){ if(b->getBinding()) return expr(b->getBinding()); }
      return unsup(e);
    }
    if(auto*x=dyn_cast<MemberExpr>(e)){
      auto*d=x->getMemberDecl();
      if(auto*f=dyn_cast<FieldDecl>(d)){ o["e"]="mem"; o["b"]=expr(x->getBase()); o["arrow"]=x->isArrow(); o["f"]=f->getNameAsString(); 
        o["rec"]=recKey(cast<CXXRecordDecl>(f->getParent())); return o; }
      if(auto*v=dyn_cast<VarDecl>(d)){ global(v); o["e"]="gvar"; o["k"]=qnv(v); return o; }
      if(auto*f=dyn_cast<FunctionDecl>(d)){ o["e"]="fnref"; fnref(f,o); return o; }
      return unsup(e);
    }
    if(auto*x=dyn_cast<ArraySubscriptExpr>(e)){ o["e"]="idx"; o["b"]=expr(x->getBase()); o["i"]=expr(x->getIdx()); return o; }
    if(auto*x=dyn_cast<UnaryOperator>(e)){ o["e"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"]=x->isPostfix(); o["a"]=expr(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CompoundAssignOperator>(e)){ o["e"]="asg"; std::string op=x->getOpcodeStr().str(); op.pop_back(); o["op"]=op; o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); o["ct"]=type(x->getComputationResultType()); o["clt"]=type(x->getComputationLHSType()); return o; }
    if(auto*x=dyn_cast<BinaryOperator>(e)){
      if(x->getOpcode()==BO_Assign){ o["e"]="asg"; o["op"]=""; o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); return o; }
      o["e"]="bin"; o["op"]=x->getOpcodeStr().str(); o["a"]=expr(x->getLHS()); o["b"]=expr(x->getRHS()); return o; }
    if(auto*x=dyn_cast<ConditionalOperator>(e)){ o["e"]="cond"; o["c"]=expr(x->getCond()); o["a"]=expr(x->getTrueExpr()); o["b"]=expr(x->getFalseExpr()); return o; }
    if(auto*x=dyn_cast<CastExpr>(e)){ 
      o["e"]="cast"; o["ck"]=x->getCastKindName(); o["a"]=expr(x->getSubExpr());
      if(x->getCastKind()==CK_UserDefinedConversion||x->getCastKind()==CK_ConstructorConversion) return o;
      return o; }
    if(auto*x=dyn_cast<CXXMemberCallExpr>(e)){
      auto*f=x->getMethodDecl(); if(!f) return unsup(e);
      o["e"]="call"; fnref(f,o); o["obj"]=expr(x->getImplicitObjectArgument());
      if(auto*me=dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())){ o["arrow"]=me->isArrow(); if(me->hasQualifier()) o["qual"]=true; }
      js::Array a; for(auto*y:x->arguments()) a.push_back(expr(y)); o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<CXXOperatorCallExpr>(e)){
      auto*f=dyn_cast_or_null<FunctionDecl>(x->getCalleeDecl()); if(!f) return unsup(e);
      o["e"]="call"; fnref(f,o); js::Array a; int i=0; bool mem=isa<CXXMethodDecl>(f)&&!cast<CXXMethodDecl>(f)->isStatic(); if(mem) o["arrow"]=false;
      o["opc"]=true;
      for(auto*y:x->arguments()){ if(i++==0&&mem) o["obj"]=expr(y); else a.push_back(expr(y)); } o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<CallExpr>(e)){
      auto*f=x->getDirectCallee();
      js::Array a; for(auto*y:x->arguments()) a.push_back(expr(y)); 
      if(!f){ o["e"]="icall"; o["callee"]=expr(x->getCallee()); o["args"]=std::move(a); return o; }
      o["e"]="call"; fnref(f,o); o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<CXXConstructExpr>(e)){
      o["e"]="ctor"; fnref(x->getConstructor(),o); if(x->isElidable()) o["elide"]=true; o["zi"]=x->requiresZeroInitialization(); 
      if(x->isStdInitListInitialization()) o["il"]=true;
      js::Array a; for(auto*y:x->arguments()) a.push_back(expr(y)); o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<CXXInheritedCtorInitExpr>(e)) return unsup(e);
    if(auto*x=dyn_cast<CXXStdInitializerListExpr>(e)){ o["e"]="stdil"; o["a"]=expr(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<InitListExpr>(e)){ 
      if(auto*sem=x->isSemanticForm()?x:x->getSemanticForm()) x=sem;
      if(x->isTransparent()) return expr(x->getInit(0));
      o["e"]="il"; js::Array a; for(auto*y:x->inits()) a.push_back(expr(y)); o["a"]=std::move(a); if(x->hasArrayFiller()) o["filler"]=expr(x->getArrayFiller()); return o; }
    if(isa<ImplicitValueInitExpr>(e)||isa<CXXScalarValueInitExpr>(e)){ o["e"]="zero"; return o; }
    if(auto*x=dyn_cast<CXXThrowExpr>(e)){ o["e"]="throw"; o["a"]=expr(x->getSubExpr()); return o; }
    if(auto*x=dyn_cast<CXXNewExpr>(e)){ o["e"]="new"; o["at"]=type(x->getAllocatedType()); if(x->isArray()&&x->getArraySize()) o["n"]=expr(*x->getArraySize()); if(x->getInitializer()) o["init"]=expr(x->getInitializer()); return o; }
    if(auto*x=dyn_cast<CXXDeleteExpr>(e)){ o["e"]="delete"; o["a"]=expr(x->getArgument()); return o; }
    if(auto*x=dyn_cast<LambdaExpr>(e)){
      o["e"]="lambda"; auto*d=x->getLambdaClass(); record(d); o["r"]=recKey(d); o["op"]=fkey(x->getCallOperator());
      if(!x->getCallOperator()->isDependentContext()) work.push_back(x->getCallOperator());
      js::Array caps; auto ci=x->capture_init_begin();
      for(auto&cp:x->captures()){ js::Object y; if(cp.capturesVariable()){ y["id"]=var(cast<ValueDecl>(cp.getCapturedVar())); y["n"]=cp.getCapturedVar()->getNameAsString(); } if(cp.capturesThis()) y["this"]=true; y["byref"]=cp.getCaptureKind()==LCK_ByRef; y["init"]=expr(*ci); ++ci; caps.push_back(std::move(y)); }
      o["caps"]=std::move(caps); return o; }
    if(auto*x=dyn_cast<StmtExpr>(e)){ o["e"]="stmtexpr"; o["b"]=stmt(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<ShuffleVectorExpr>(e)){ o["e"]="call"; o["qn"]="__builtin_shufflevector"; o["fn"]="__builtin_shufflevector"; js::Array a; for(unsigned i=0;i<x->getNumSubExprs();i++) a.push_back(expr(x->getExpr(i))); o["args"]=std::move(a); return o; }
    if(auto*x=dyn_cast<ArrayInitLoopExpr>(e)){ o["e"]="arrcopy"; o["a"]=expr(x->getCommonExpr()->getSourceExpr()); return o; }
    if(auto*x=dyn_cast<OpaqueValueExpr>(e)){ if(x->getSourceExpr()) return expr(x->getSourceExpr()); }
    if(auto*x=dyn_cast<CompoundLiteralExpr>(e)) return expr(x->getInitializer());
    return unsup(e);
  }
  js::Value vdecl(const VarDecl*v){
    js::Object o; o["id"]=var(v); o["n"]=v->getNameAsString(); o["t"]=type(v->getType()); 
    if(v->isStaticLocal()) { o["static"]=true; global(v); o["k"]=qnv(v);} if(v->getInit()) o["init"]=expr(v->getInit()); o["l"]=line(v->getLocation()); return o; }
  js::Value stmt(const Stmt*s){
    if(!s) return nullptr;
    js::Object o; o["l"]=line(s->getBeginLoc());
    if(auto*x=dyn_cast<CompoundStmt>(s)){ o["s"]="blk"; js::Array b; for(auto*y:x->body()) b.push_back(stmt(y)); o["b"]=std::move(b); return o; }
    if(auto*x=dyn_cast<DeclStmt>(s)){ o["s"]="decl"; js::Array b; for(auto*d:x->decls()){ 
        if(auto*dd=dyn_cast<DecompositionDecl>(d)){ b.push_back(vdecl(dd)); for(auto*bd:dd->bindings()) if(auto*hv=bd->getHoldingVar()) b.push_back(vdecl(hv)); }
        else if(auto*v=dyn_cast<VarDecl>(d)) b.push_back(vdecl(v)); } o["v"]=std::move(b); return o; }
    if(auto*x=dyn_cast<IfStmt>(s)){ o["s"]="if"; if(x->isConstexpr()){ if(auto nd=x->getNondiscardedCase(C)) { return *nd?stmt(*nd):js::Value(js::Object{{"s","nop"}}); } }
      o["init"]=stmt(x->getInit()); if(x->getConditionVariable()) o["cv"]=vdecl(x->getConditionVariable()); o["c"]=expr(x->getCond()); o["a"]=stmt(x->getThen()); o["b"]=stmt(x->getElse()); return o; }
    if(auto*x=dyn_cast<WhileStmt>(s)){ o["s"]="while"; if(x->getConditionVariable()) return unsup(s); o["c"]=expr(x->getCond()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<DoStmt>(s)){ o["s"]="do"; o["c"]=expr(x->getCond()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<ForStmt>(s)){ o["s"]="for"; if(x->getConditionVariable()) return unsup(s); o["i"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["n"]=expr(x->getInc()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<CXXForRangeStmt>(s)){ o["s"]="rfor"; js::Array pre; if(x->getInit()) pre.push_back(stmt(x->getInit())); pre.push_back(stmt(x->getRangeStmt())); pre.push_back(stmt(x->getBeginStmt())); pre.push_back(stmt(x->getEndStmt())); o["pre"]=std::move(pre);
      o["c"]=expr(x->getCond()); o["n"]=expr(x->getInc()); o["v"]=stmt(x->getLoopVarStmt()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<ReturnStmt>(s)){ o["s"]="ret"; o["a"]=expr(x->getRetValue()); return o; }
    if(isa<BreakStmt>(s)){ o["s"]="break"; return o; }
    if(isa<ContinueStmt>(s)){ o["s"]="cont"; return o; }
    if(isa<NullStmt>(s)){ o["s"]="nop"; return o; }
    if(auto*x=dyn_cast<SwitchStmt>(s)){ o["s"]="switch"; o["init"]=stmt(x->getInit()); o["c"]=expr(x->getCond()); o["b"]=stmt(x->getBody()); return o; }
    if(auto*x=dyn_cast<CaseStmt>(s)){ o["s"]="case"; o["v"]=expr(x->getLHS()); o["b"]=stmt(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<DefaultStmt>(s)){ o["s"]="default"; o["b"]=stmt(x->getSubStmt()); return o; }
    if(auto*x=dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if(auto*x=dyn_cast<CXXTryStmt>(s)){ o["s"]="try"; o["b"]=stmt(x->getTryBlock()); js::Array h; for(unsigned i=0;i<x->getNumHandlers();i++){ auto*hh=x->getHandler(i); js::Object y; if(hh->getExceptionDecl()) y["v"]=vdecl(hh->getExceptionDecl()); y["b"]=stmt(hh->getHandlerBlock()); h.push_back(std::move(y)); } o["h"]=std::move(h); return o; }
    if(auto*x=dyn_cast<Expr>(s)){ o["s"]="expr"; o["a"]=expr(x); return o; }
    return unsup(s);
  }
  void function(const FunctionDecl*f){
    std::string k=fkey(f); if(!doneF.insert(k).second) return;
    js::Object o; o["k"]=k; o["qn"]=qn(f); o["file"]=file(f->getLocation()); o["l"]=line(f->getLocation()); o["el"]=line(f->getEndLoc());
    o["ret"]=type(f->getReturnType());
    js::Array ps; for(auto*p:f->parameters()){ js::Object x; x["id"]=var(p); x["n"]=p->getNameAsString(); x["t"]=type(p->getType()); ps.push_back(std::move(x)); } o["ps"]=std::move(ps);
    if(auto*ta=f->getTemplateSpecializationArgs()){ js::Array a; for(auto&x:ta->asArray()) targ(x,a); o["ta"]=std::move(a); }
    if(auto*m=dyn_cast<CXXMethodDecl>(f)){
      o["cls"]=type(C.getTypeDeclType(m->getParent())); o["static"]=m->isStatic(); o["const"]=m->isConst(); o["virt"]=m->isVirtual(); o["lam"]=m->getParent()->isLambda(); o["access"]=(int)m->getAccess();
      js::Array ov; for(auto*x:m->overridden_methods()) ov.push_back(fkey(x)); o["over"]=std::move(ov);
      if(m->getParent()->isLambda()) record(m->getParent());
    }
    if(auto*c=dyn_cast<CXXConstructorDecl>(f)){ js::Array in; for(auto*i:c->inits()){ js::Object x; 
        if(i->isAnyMemberInitializer()) x["f"]=i->getAnyMember()->getNameAsString(); else if(i->isBaseInitializer()) x["base"]=type(QualType(i->getBaseClass(),0)); else if(i->isDelegatingInitializer()) x["deleg"]=true;
        x["written"]=i->isWritten(); x["a"]=expr(i->getInit()); in.push_back(std::move(x)); } o["inits"]=std::move(in); o["ctor"]=true; }
    o["dflt"]=f->isDefaulted();
    o["body"]=stmt(f->getBody());
    funcs.push_back(std::move(o));
  }
  void drain(){ while(!work.empty()){ auto*f=work.back(); work.pop_back(); function(f);} }
};
struct V:RecursiveASTVisitor<V>{ Exporter&X; V(Exporter&x):X(x){} bool shouldVisitTemplateInstantiations()const{return true;} bool shouldVisitImplicitCode()const{return true;}
  bool VisitFunctionDecl(FunctionDecl*f){ if(f->isThisDeclarationADefinition()&&f->hasBody()&&!f->isDependentContext()&&!f->isTemplated()&&X.inRoot(f->getLocation())) X.work.push_back(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl*d){ if(d->isThisDeclarationADefinition()&&!d->isDependentContext()&&X.inRoot(d->getLocation())&&!d->isLambda()) X.type(X.C.getTypeDeclType(d)); return true; } };
struct Cons:ASTConsumer{ void HandleTranslationUnit(ASTContext&C)override{ if(C.getDiagnostics().hasErrorOccurred()) return; Exporter X(C); V v(X); v.TraverseDecl(C.getTranslationUnitDecl()); X.drain();
  js::Object o; o["types"]=std::move(X.types); o["funcs"]=std::move(X.funcs); o["records"]=std::move(X.records); o["globals"]=std::move(X.globals);
  std::error_code ec; llvm::raw_fd_ostream os(gOut,ec); os<<js::Value(std::move(o)); } };
struct Act:ASTFrontendAction{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&,StringRef)override{ return std::make_unique<Cons>(); } };
// usage: astx ROOTS OUT FILE -- flags
int main(int argc,char**argv){
  if(argc<5) return 2; gRoot=argv[1]; gOut=argv[2]; std::string f=argv[3]; std::vector<std::string> fl; for(int i=5;i<argc;i++) fl.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".",fl); tooling::ClangTool T(db,{f});
  return T.run(tooling::newFrontendActionFactory<Act>().get());
}
