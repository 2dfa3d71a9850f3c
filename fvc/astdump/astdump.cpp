// astdump: mechanical extraction of the typed AST of the real sources to JSON.
// Built once by setup; run on every check on a translation unit that #includes
// the files of /repo.  Nothing is rewritten: every function of namespace falcon (and of the
// driver namespace vf) with a body is dumped statement by statement, templates
// as instantiated by the compiler front end.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <deque>
using namespace clang;
namespace json = llvm::json;

static std::string OutPath;
static std::vector<std::string> Roots; // file prefixes regarded as "ours"

class Dumper {
  ASTContext &C;
  SourceManager &SM;
  std::map<const Type*, int> TypeIds;
  json::Array Types;
  std::map<const Decl*, int> DeclIds;
  json::Object Functions, Vars, Records;
  std::set<const FunctionDecl*> DoneF;
  std::set<const RecordDecl*> DoneR;
  std::set<const VarDecl*> DoneV;
  std::deque<const FunctionDecl*> Queue;
public:
  Dumper(ASTContext &c): C(c), SM(c.getSourceManager()) {}

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = DeclIds.find(D);
    if (it != DeclIds.end()) return it->second;
    int n = DeclIds.size()+1; DeclIds[D]=n; return n;
  }
  std::string loc(SourceLocation L) {
    if (L.isInvalid()) return "";
    L = SM.getExpansionLoc(L);
    return (SM.getFilename(L) + ":" + llvm::Twine(SM.getExpansionLineNumber(L))).str();
  }
  bool ours(const Decl *D) {
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    if (L.isInvalid()) return false;
    std::string f = SM.getFilename(L).str();
    for (auto &r: Roots) if (f.compare(0, r.size(), r)==0) return true;
    return SM.isInMainFile(L);
  }
  json::Array targs(llvm::ArrayRef<TemplateArgument> A) {
    json::Array r;
    for (auto &a: A) targ(a, r);
    return r;
  }
  void targ(const TemplateArgument &a, json::Array &r) {
    switch (a.getKind()) {
      case TemplateArgument::Type: r.push_back(type(a.getAsType())); break;
      case TemplateArgument::Integral: { llvm::SmallString<32> s; a.getAsIntegral().toString(s,10); r.push_back(json::Object{{"int", s.str().str()}}); break; }
      case TemplateArgument::Pack: for (auto &p: a.pack_elements()) targ(p, r); break;
      default: r.push_back(json::Object{{"other", (int)a.getKind()}});
    }
  }
  std::string recName(const RecordDecl *R) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P(C.getLangOpts()); P.SuppressUnwrittenScope=true;
    R->printQualifiedName(os, P);
    os.flush();
    return s;
  }
  int type(QualType Q) {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    QualType U = Q;
    const Type *T = Q.getTypePtr();
    // key: pointer with const bit
    auto key = (const Type*)((uintptr_t)T | (cst?1:0));
    auto it = TypeIds.find(key);
    if (it != TypeIds.end()) return it->second;
    int id = Types.size(); TypeIds[key]=id; Types.push_back(nullptr);
    json::Object o;
    o["s"] = Q.getAsString();
    if (cst) o["const"]=true;
    if (T->isDependentType()) o["k"]="dep";
    else if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind()==BuiltinType::Bool) o["k"]="bool";
      else if (B->isInteger()) { o["k"]="int"; o["w"]=(int64_t)C.getTypeSize(T); o["sg"]=B->isSignedInteger(); o["ch"]=T->isAnyCharacterType(); }
      else if (B->isFloatingPoint()) { o["k"]="float"; o["w"]=(int64_t)C.getTypeSize(T);}
      else if (B->getKind()==BuiltinType::Void) o["k"]="void";
      else if (B->getKind()==BuiltinType::NullPtr) o["k"]="nullptr";
      else o["k"]="builtin";
    } else if (auto *P = dyn_cast<PointerType>(T)) { o["k"]="ptr"; o["to"]=type(P->getPointeeType()); }
    else if (auto *R = dyn_cast<ReferenceType>(T)) { o["k"]="ref"; o["rv"]=isa<RValueReferenceType>(R); o["to"]=type(R->getPointeeType()); }
    else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"]="enum"; o["n"]=E->getDecl()->getQualifiedNameAsString();
      if (E->getDecl()->isComplete()) {
        auto it2=E->getDecl()->getIntegerType();
        if(!it2.isNull()){ o["w"]=(int64_t)C.getTypeSize(it2); o["sg"]=it2->isSignedIntegerType(); }
        json::Array a; for (auto *c: E->getDecl()->enumerators()) a.push_back(json::Object{{"n",c->getNameAsString()},{"v",(int64_t)c->getInitVal().getExtValue()}});
        o["vals"]=std::move(a); if (E->getDecl()->isFixed()) o["fixed"]=true;
      }
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"]="rec"; o["n"]=recName(R->getDecl());
      o["rid"]=declId(R->getDecl());
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(R->getDecl())) o["args"]=targs(S->getTemplateArgs().asArray());
      record(R->getDecl());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) { o["k"]="arr"; o["n"]=(int64_t)A->getSize().getZExtValue(); o["to"]=type(A->getElementType()); }
    else if (auto *F = dyn_cast<FunctionProtoType>(T)) { o["k"]="fn"; o["ret"]=type(F->getReturnType()); }
    else if (auto *M = dyn_cast<MemberPointerType>(T)) { o["k"]="memptr"; o["to"]=type(M->getPointeeType()); }
    else o["k"]="other";
    Types[id]=std::move(o);
    return id;
  }
  void record(const RecordDecl *R0) {
    const RecordDecl *R = R0->getDefinition();
    if (!R) return;
    if (!DoneR.insert(R).second) return;
    json::Object o;
    o["n"]=recName(R); o["id"]=declId(R); o["loc"]=loc(R->getLocation());
    o["ours"]=ours(R);
    o["union"]=R->isUnion();
    if (ours(R)) {
      json::Array fs;
      for (auto *F: R->fields()) {
        json::Object f{{"n",F->getNameAsString()},{"t",type(F->getType())},{"id",declId(F)}};
        if (F->hasInClassInitializer() && F->getInClassInitializer()) f["init"]=stmt(F->getInClassInitializer());
        if (F->isMutable()) f["mutable"]=true;
        fs.push_back(std::move(f));
      }
      o["fields"]=std::move(fs);
      if (auto *X = dyn_cast<CXXRecordDecl>(R)) {
        o["lambda"]=X->isLambda();
        o["poly"]=X->isPolymorphic();
        json::Array bs; for (auto &b: X->bases()) bs.push_back(type(b.getType()));
        o["bases"]=std::move(bs);
        json::Array ms;
        for (auto *D: X->decls()) {
          if (auto *M = dyn_cast<CXXMethodDecl>(D)) { if(!M->isImplicit() || M->getDefinition()) ms.push_back(func(M)); }
          else if (auto *FT = dyn_cast<FunctionTemplateDecl>(D)) {
            for (auto *S: FT->specializations()) ms.push_back(func(S));
          }
        }
        o["methods"]=std::move(ms);
        if (auto *D = X->getDestructor()) o["dtor"]=func(D);
        o["trivdtor"]=X->hasTrivialDestructor();
      }
    } else if (auto *X = dyn_cast<CXXRecordDecl>(R)) {
      json::Array bs; for (auto &b: X->bases()) bs.push_back(type(b.getType()));
      o["bases"]=std::move(bs);
      o["trivdtor"]=X->hasTrivialDestructor();
    }
    Records[std::to_string(declId(R))]=std::move(o);
  }
  int func(const FunctionDecl *F) {
    int id = declId(F);
    if (!DoneF.insert(cast<FunctionDecl>(F->getCanonicalDecl())).second) return id;
    Queue.push_back(F);
    return id;
  }
  void dumpFunc(const FunctionDecl *F) {
    json::Object o;
    o["id"]=declId(F);
    std::string s; { llvm::raw_string_ostream os(s); PrintingPolicy P(C.getLangOpts()); F->printQualifiedName(os,P);} 
    o["qn"]=s; o["n"]=F->getNameAsString();
    if (F->isDependentContext()) { o["dep"]=true; Functions[std::to_string(declId(F))]=std::move(o); return; }
    o["ret"]=type(F->getReturnType());
    const FunctionDecl *Def = nullptr;
    F->hasBody(Def);
    const FunctionDecl *D = Def ? Def : F;
    json::Array ps;
    for (auto *P: D->parameters()) ps.push_back(json::Object{{"n",P->getNameAsString()},{"t",type(P->getType())},{"id",declId(P)}});
    o["params"]=std::move(ps);
    o["variadic"]=F->isVariadic();
    if (auto *A = F->getTemplateSpecializationArgs()) o["targs"]=targs(A->asArray());
    o["implicit"]=F->isImplicit(); o["defaulted"]=F->isDefaulted(); o["deleted"]=F->isDeleted();
    o["trivial"]=F->isTrivial();
    auto *FPT = F->getType()->getAs<FunctionProtoType>();
    if (FPT) { auto es=FPT->getExceptionSpecType(); o["noexcept"] = !isUnresolvedExceptionSpec(es) && FPT->isNothrow(); }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"]=type(C.getRecordType(M->getParent()));
      o["static"]=M->isStatic(); o["const"]=M->isConst(); o["virtual"]=M->isVirtual(); o["pure"]=M->isPureVirtual();
      o["access"]=(int)M->getAccess();
      json::Array ov; for (auto *x: M->overridden_methods()) ov.push_back(func(x));
      o["overrides"]=std::move(ov);
      if (isa<CXXConstructorDecl>(M)) { o["ctor"]=true; auto *cd=cast<CXXConstructorDecl>(M);
        o["copyctor"]=cd->isCopyConstructor(); o["movector"]=cd->isMoveConstructor(); o["dfltctor"]=cd->isDefaultConstructor(); }
      if (isa<CXXDestructorDecl>(M)) o["dtor"]=true;
      o["copyassign"]=M->isCopyAssignmentOperator(); o["moveassign"]=M->isMoveAssignmentOperator();
    }
    bool mine = ours(F) || (Def && ours(Def));
    o["ours"]=mine; o["loc"]=loc(D->getLocation());
    o["oploc"]=F->isOverloadedOperator()? getOperatorSpelling(F->getOverloadedOperator()):"";
    if (mine && Def && Def->getBody()) {
      if (auto *CD = dyn_cast<CXXConstructorDecl>(Def)) {
        json::Array is;
        for (auto *I: CD->inits()) {
          json::Object i;
          if (I->isAnyMemberInitializer()) { i["f"]=I->getAnyMember()->getNameAsString(); i["fid"]=declId(I->getAnyMember()); i["ft"]=type(I->getAnyMember()->getType()); }
          else if (I->isBaseInitializer()) i["base"]=type(QualType(I->getBaseClass(),0));
          else i["deleg"]=true;
          i["e"]=stmt(I->getInit());
          is.push_back(std::move(i));
        }
        o["inits"]=std::move(is);
      }
      o["body"]=stmt(Def->getBody());
    }
    Functions[std::to_string(declId(F))]=std::move(o);
  }
  json::Value var(const VarDecl *V) {
    json::Object o{{"id",declId(V)},{"n",V->getNameAsString()},{"t",type(V->getType())}};
    o["loc"]=loc(V->getLocation());
    if (V->isStaticLocal()) o["sl"]=true;
    if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["glob"]=true; o["qn"]=V->getQualifiedNameAsString(); }
    if (V->getTLSKind()!=VarDecl::TLS_None) o["tls"]=true;
    const VarDecl *ID=nullptr;
    if (auto *I = V->getAnyInitializer(ID)) if(!I->isValueDependent() && (!o.get("glob")|| ours(V))) o["init"]=stmt(I);
    if (!V->getInstantiatedFromStaticDataMember() && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType() && V->getAnyInitializer(ID) && !ID->getType()->isDependentType() && !V->getAnyInitializer()->isValueDependent()) {
      if (const APValue *A = V->evaluateValue()) if (A->isInt()) { llvm::SmallString<32> b; A->getInt().toString(b,10); o["cv"]=std::string(b.str()); }
    }
    return o;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    // strip noise
    if (auto *P = dyn_cast<ParenExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(S)) return stmt(P->getSubExpr());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(S)) return stmt(P->getExpr());
    if (auto *P = dyn_cast<AttributedStmt>(S)) return stmt(P->getSubStmt());
    o["k"]=S->getStmtClassName();
    o["l"]=loc(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["t"]=type(E->getType());
      o["v"]=E->isLValue()?"l":E->isXValue()?"x":"p";
      if (E->isTypeDependent() || E->isValueDependent()) { o["k"]="Dependent"; return o; }
    }
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) { o["n"]=P->getParameter()->getNameAsString(); o["c"]=json::Array{stmt(P->getReplacement())}; return o; }
    auto kids = [&](){ json::Array a; for (auto *c: S->children()) a.push_back(stmt(c)); o["c"]=std::move(a); };
    if (auto *E = dyn_cast<IntegerLiteral>(S)) { llvm::SmallString<32> s; E->getValue().toString(s,10,E->getType()->isSignedIntegerType()); o["val"]=s.str().str(); }
    else if (auto *E = dyn_cast<FloatingLiteral>(S)) { llvm::SmallString<32> s; E->getValue().toString(s); o["val"]=s.str().str(); o["dbl"]=E->getValueAsApproximateDouble(); }
    else if (auto *E = dyn_cast<CXXBoolLiteralExpr>(S)) o["val"]=E->getValue();
    else if (auto *E = dyn_cast<CharacterLiteral>(S)) o["val"]=(int64_t)E->getValue();
    else if (auto *E = dyn_cast<StringLiteral>(S)) { std::string b=E->getBytes().str(); if (llvm::json::isUTF8(b)) o["val"]=b; else o["val"]=llvm::json::fixUTF8(b); }
    else if (auto *E = dyn_cast<DeclRefExpr>(S)) {
      auto *D = E->getDecl();
      o["d"]=declId(D); o["dn"]=D->getNameAsString();
      if (E->refersToEnclosingVariableOrCapture()) o["cap"]=true;
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"]="fn"; func(F); }
      else if (auto *P = dyn_cast<ParmVarDecl>(D)) o["dk"]="parm";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        o["dk"]=V->hasGlobalStorage()?"glob":"var";
        o["qn"]=V->getQualifiedNameAsString();
        o["vt"]=type(V->getType());
        if (V->hasGlobalStorage() && DoneV.insert(V->getCanonicalDecl()).second) Vars[std::to_string(declId(V))]=var(V);
      }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"]="enumc"; o["val"]=(int64_t)EC->getInitVal().getExtValue(); }
      else if (auto *BD = dyn_cast<BindingDecl>(D)) { o["dk"]="binding"; (void)BD; }
      else o["dk"]="other";
    }
    else if (auto *E = dyn_cast<MemberExpr>(S)) {
      auto *D = E->getMemberDecl();
      o["d"]=declId(D); o["dn"]=D->getNameAsString(); o["arrow"]=E->isArrow();
      if (auto *F = dyn_cast<FieldDecl>(D)) { o["dk"]="field"; o["own"]=recName(F->getParent()); }
      else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"]="fn"; func(F); }
      else if (auto *V = dyn_cast<VarDecl>(D)) { o["dk"]="glob"; o["qn"]=V->getQualifiedNameAsString(); if (DoneV.insert(V->getCanonicalDecl()).second) Vars[std::to_string(declId(V))]=var(V); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) { o["dk"]="enumc"; o["val"]=(int64_t)EC->getInitVal().getExtValue(); }
      kids();
    }
    else if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
      o["ctor"]=func(E->getConstructor()); o["elid"]=E->isElidable(); o["list"]=E->isListInitialization();
      kids();
    }
    else if (auto *E = dyn_cast<CXXInheritedCtorInitExpr>(S)) { o["ctor"]=func(E->getConstructor()); }
    else if (auto *E = dyn_cast<AtomicExpr>(S)) {
      o["op"]=E->getOpAsString().str();
      json::Array a; for (unsigned i=0;i<E->getNumSubExprs();++i) a.push_back(stmt(E->getSubExprs()[i])); o["args"]=std::move(a);
    }
    else if (auto *E = dyn_cast<CallExpr>(S)) {
      if (auto *F = E->getDirectCallee()) o["fn"]=func(F);
      if (auto *M = dyn_cast<CXXMemberCallExpr>(E)) {
        // qualified (non virtual) call?
        if (auto *ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParens())) o["qual"]=ME->hasQualifier();
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(E)) o["op"]=getOperatorSpelling(OC->getOperator());
      o["callee"]=stmt(E->getCallee());
      json::Array a; for (auto *x: E->arguments()) a.push_back(stmt(x)); o["args"]=std::move(a);
    }
    else if (auto *E = dyn_cast<CastExpr>(S)) {
      o["ck"]=E->getCastKindName();
      if (auto *F = dyn_cast_or_null<FunctionDecl>(E->getConversionFunction())) o["conv"]=func(F);
      o["c"]=json::Array{stmt(E->getSubExpr())};
    }
    else if (auto *E = dyn_cast<UnaryOperator>(S)) { o["op"]=UnaryOperator::getOpcodeStr(E->getOpcode()).str(); o["post"]=E->isPostfix(); kids(); }
    else if (auto *E = dyn_cast<BinaryOperator>(S)) {
      o["op"]=E->getOpcodeStr().str(); 
      if (auto *CA = dyn_cast<CompoundAssignOperator>(E)) { o["ct"]=type(CA->getComputationResultType()); o["clt"]=type(CA->getComputationLHSType()); }
      kids();
    }
    else if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      Expr::EvalResult R; if (E->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s,10); o["val"]=s.str().str(); }
    }
    else if (auto *E = dyn_cast<SizeOfPackExpr>(S)) { o["val"]=std::to_string(E->getPackLength()); }
    else if (auto *E = dyn_cast<TypeTraitExpr>(S)) { o["val"]=E->getValue(); }
    else if (auto *E = dyn_cast<LambdaExpr>(S)) {
      json::Array cs;
      auto ii = E->capture_init_begin();
      for (auto &c: E->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"]=true;
        else if (c.capturesVariable()) { co["d"]=declId(c.getCapturedVar()); co["n"]=c.getCapturedVar()->getNameAsString(); co["ref"]=c.getCaptureKind()==LCK_ByRef; co["init"]=stmt(*ii); }
        ++ii; cs.push_back(std::move(co));
      }
      o["caps"]=std::move(cs);
      json::Array fs;
      if (auto *FT = E->getDependentCallOperator()) { for (auto *s: FT->specializations()) fs.push_back(func(s)); }
      else fs.push_back(func(E->getCallOperator()));
      o["ops"]=std::move(fs);
    }
    else if (auto *E = dyn_cast<CXXNewExpr>(S)) {
      o["at"]=type(E->getAllocatedType()); o["array"]=E->isArray();
      if (E->isArray() && E->getArraySize()) o["asize"]=stmt(*E->getArraySize());
      json::Array pl; for (unsigned i=0;i<E->getNumPlacementArgs();++i) pl.push_back(stmt(E->getPlacementArg(i))); o["place"]=std::move(pl);
      o["init"]=stmt(E->getInitializer()); o["ctorx"]=stmt(E->getConstructExpr());
    }
    else if (auto *E = dyn_cast<CXXDeleteExpr>(S)) { o["array"]=E->isArrayForm(); o["dt"]=type(E->getDestroyedType()); kids(); }
    else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) { kids(); (void)E; }
    else if (auto *E = dyn_cast<MaterializeTemporaryExpr>(S)) { if (E->getExtendingDecl()) o["ext"]=declId(E->getExtendingDecl()); o["c"]=json::Array{stmt(E->getSubExpr())}; }
    else if (auto *E = dyn_cast<PredefinedExpr>(S)) { o["val"]=E->getFunctionName()?E->getFunctionName()->getString().str():""; }
    else if (auto *E = dyn_cast<InitListExpr>(S)) { const InitListExpr *X = E->isSemanticForm()? E : (E->getSemanticForm()?E->getSemanticForm():E);
      json::Array a; for (unsigned i=0;i<X->getNumInits();++i) a.push_back(stmt(X->getInit(i))); o["c"]=std::move(a); }
    else if (auto *D = dyn_cast<DeclStmt>(S)) {
      json::Array a;
      for (auto *d: D->decls()) { if (auto *V=dyn_cast<VarDecl>(d)) {
            if (auto *DD = dyn_cast<DecompositionDecl>(V)) { json::Object x{{"decomp",true}}; a.push_back(std::move(x)); (void)DD; }
            else a.push_back(var(V)); }
          else a.push_back(json::Object{{"other",d->getDeclKindName()}}); }
      o["decls"]=std::move(a);
    }
    else if (auto *I = dyn_cast<IfStmt>(S)) {
      o["cx"]=I->isConstexpr(); o["init"]=stmt(I->getInit()); o["cvar"]=I->getConditionVariable()?var(I->getConditionVariable()):json::Value(nullptr);
      o["cond"]=stmt(I->getCond());
      if (I->isConstexpr()) { auto n=I->getNondiscardedCase(C); if (n) { o["taken"]=stmt(*n); o["known"]=true; } }
      if (!o.get("known")) { o["then"]=stmt(I->getThen()); o["else"]=stmt(I->getElse()); }
    }
    else if (auto *W = dyn_cast<WhileStmt>(S)) { o["cvar"]=W->getConditionVariable()?var(W->getConditionVariable()):json::Value(nullptr); o["cond"]=stmt(W->getCond()); o["body"]=stmt(W->getBody()); }
    else if (auto *W = dyn_cast<DoStmt>(S)) { o["cond"]=stmt(W->getCond()); o["body"]=stmt(W->getBody()); }
    else if (auto *F = dyn_cast<ForStmt>(S)) { o["init"]=stmt(F->getInit()); o["cond"]=stmt(F->getCond()); o["inc"]=stmt(F->getInc()); o["body"]=stmt(F->getBody()); }
    else if (auto *F = dyn_cast<CXXForRangeStmt>(S)) { o["init"]=stmt(F->getInit()); o["range"]=stmt(F->getRangeStmt()); o["begin"]=stmt(F->getBeginStmt()); o["end"]=stmt(F->getEndStmt()); o["cond"]=stmt(F->getCond()); o["inc"]=stmt(F->getInc()); o["lv"]=stmt(F->getLoopVarStmt()); o["body"]=stmt(F->getBody()); }
    else if (auto *T = dyn_cast<CXXTryStmt>(S)) { o["body"]=stmt(T->getTryBlock()); json::Array hs; for (unsigned i=0;i<T->getNumHandlers();++i){ auto *H=T->getHandler(i); json::Object h; if (H->getExceptionDecl()) h["var"]=var(H->getExceptionDecl()); if(!H->getCaughtType().isNull()) h["ct"]=type(H->getCaughtType()); h["body"]=stmt(H->getHandlerBlock()); hs.push_back(std::move(h)); } o["hs"]=std::move(hs); }
    else if (auto *W = dyn_cast<SwitchStmt>(S)) { o["cond"]=stmt(W->getCond()); o["body"]=stmt(W->getBody()); }
    else if (auto *W = dyn_cast<CaseStmt>(S)) { o["lhs"]=stmt(W->getLHS()); o["sub"]=stmt(W->getSubStmt()); }
    else if (auto *W = dyn_cast<DefaultStmt>(S)) { o["sub"]=stmt(W->getSubStmt()); }
    else kids();
    return o;
  }
  void run() {
    // every function of ours with a body
    struct V : RecursiveASTVisitor<V> {
      Dumper &d; V(Dumper &x): d(x) {}
      bool shouldVisitTemplateInstantiations() const { return true; }
      bool shouldVisitImplicitCode() const { return true; }
      bool VisitFunctionDecl(FunctionDecl *F) { if (d.ours(F) && !F->isDependentContext()) d.func(F); return true; }
      bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (d.ours(R) && R->isCompleteDefinition() && !R->isDependentContext()) d.record(R); return true; }
      bool VisitVarDecl(VarDecl *X) { if (d.ours(X) && X->hasGlobalStorage() && !X->getDeclContext()->isDependentContext() && !X->getType()->isDependentType()) { if (d.DoneV.insert(X->getCanonicalDecl()).second) d.Vars[std::to_string(d.declId(X))]=d.var(X);} return true; }
    } v(*this);
    v.TraverseDecl(C.getTranslationUnitDecl());
    while (!Queue.empty()) { auto *F=Queue.front(); Queue.pop_front(); dumpFunc(F); }
    json::Object o;
    o["functions"]=std::move(Functions); o["records"]=std::move(Records); o["types"]=std::move(Types); o["vars"]=std::move(Vars);
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
    os << json::Value(std::move(o)); os.close();
  }
};
class Cons : public ASTConsumer { CompilerInstance &CI; public: Cons(CompilerInstance &c):CI(c){} void HandleTranslationUnit(ASTContext &C) override { if (C.getDiagnostics().hasErrorOccurred()) return; Dumper(C).run(); } };
class Act : public ASTFrontendAction { public: std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI);} };

// astdump OUT ROOT[,ROOT..] -- clang-args... file
int main(int argc, const char **argv) {
  OutPath = argv[1];
  std::string r = argv[2]; size_t p;
  while ((p=r.find(','))!=std::string::npos) { Roots.push_back(r.substr(0,p)); r=r.substr(p+1); }
  if(!r.empty()) Roots.push_back(r);
  std::string file = argv[argc-1];
  std::vector<std::string> args;
  for (int i=4;i<argc-1;++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool T(DB, {file});
  auto f = tooling::newFrontendActionFactory<Act>();
  return T.run(f.get());
}
