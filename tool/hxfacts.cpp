// hxfacts: exports the type-checked program (every function body under the given root
// directories, after template instantiation) as JSON for the rules in /verif/rules.
// usage: hxfacts ROOT[:ROOT...] OUT.json SOURCE -- <compiler arguments>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;
static std::string out_path;
static bool failed = false;

struct Exporter {
  ASTContext& ctx;
  SourceManager& sm;
  PrintingPolicy pp;
  json::Object funcs, records, vars, decls;
  json::Array types, files;
  std::map<std::string, int> type_ids, file_ids;
  std::map<const Decl*, std::string> local_ids;
  std::map<const LambdaExpr*, int> lambda_ids;
  std::set<std::string> dep_files;
  std::set<const FunctionDecl*> done;

  Exporter(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.PrintCanonicalTypes = true; pp.Bool = true;
    pp.SuppressUnwrittenScope = true;
  }
  std::string usr(const Decl* d) {
    llvm::SmallString<256> s; if (index::generateUSRForDecl(d, s)) return "";
    return s.str().str();
  }
  std::string file_of(SourceLocation l) {
    auto e = sm.getExpansionLoc(l);
    auto f = sm.getFilename(e).str();
    if (auto fe = sm.getFileEntryRefForID(sm.getFileID(e))) {
      auto rp = fe->getFileEntry().tryGetRealPathName().str();
      if (!rp.empty()) f = rp;
    }
    return f;
  }
  bool in_root(SourceLocation l) {
    if (l.isInvalid()) return false;
    auto f = file_of(l);
    for (auto& r : roots) if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  int line(SourceLocation l) { return sm.getExpansionLineNumber(l); }
  int col(SourceLocation l) { return sm.getExpansionColumnNumber(l); }
  int type_id(QualType t) {
    if (t.isNull()) return -1;
    std::string s = t.getCanonicalType().getAsString(pp);
    auto it = type_ids.find(s);
    if (it != type_ids.end()) return it->second;
    int i = types.size();
    type_ids[s] = i;
    json::Object o; o["s"] = s;
    QualType c = t.getCanonicalType();
    if (c->isReferenceType()) { o["ref"] = true; c = c->getPointeeType().getCanonicalType(); }
    if (c.isConstQualified()) o["const"] = true;
    types.push_back(std::move(o));
    // fill after push (recursion)
    if (c->isPointerType()) { int p = type_id(c->getPointeeType()); (*types[i].getAsObject())["ptr"] = p; }
    if (auto at = ctx.getAsConstantArrayType(c)) { int p = type_id(at->getElementType()); auto& ob = *types[i].getAsObject(); ob["elem"] = p; ob["n"] = (int64_t)at->getSize().getZExtValue(); }
    if (auto rd = c->getAsCXXRecordDecl()) { (*types[i].getAsObject())["rec"] = rec_name(rd); }
    auto& ob = *types[i].getAsObject();
    if (c->isBooleanType()) ob["cls"] = "bool";
    else if (c->isEnumeralType()) ob["cls"] = "enum";
    else if (c->isIntegerType()) { ob["cls"] = c->isSignedIntegerType() ? "int" : "uint"; if (!c->isDependentType()) ob["bits"] = (int64_t)ctx.getTypeSize(c); }
    else if (c->isFloatingType()) { ob["cls"] = "float"; ob["bits"] = (int64_t)ctx.getTypeSize(c); }
    else if (c->isPointerType()) ob["cls"] = "ptr";
    else if (c->isRecordType()) ob["cls"] = "rec";
    return i;
  }
  std::string rec_name(const CXXRecordDecl* rd) {
    if (rd->isLambda()) return "lambda@" + std::to_string(line(rd->getBeginLoc())) + ":" + std::to_string(col(rd->getBeginLoc()));
    std::string s; llvm::raw_string_ostream os(s);
    rd->getNameForDiagnostic(os, pp, true);
    return os.str();
  }
  std::string rec_base(const CXXRecordDecl* rd) { return rd->isLambda() ? "lambda" : rd->getQualifiedNameAsString(); }
  int file_id(std::string f) {
    auto it = file_ids.find(f); if (it != file_ids.end()) return it->second;
    int i = files.size(); files.push_back(f); file_ids[f] = i; return i;
  }
  std::string func_key(const FunctionDecl* fd) {
    return usr(fd->getCanonicalDecl());
  }
  std::string pat_key(const FunctionDecl* fd) {
    if (auto p = fd->getTemplateInstantiationPattern()) return file_of(p->getLocation()) + ":" + std::to_string(line(p->getLocation())) + ":" + std::to_string(col(p->getLocation()));
    return "";
  }
  std::string decl_ref(const FunctionDecl* fd) {
    std::string k = func_key(fd);
    if (decls.find(k) == decls.end()) {
      decls[k] = nullptr;
      json::Object o;
      o["q"] = fd->getQualifiedNameAsString();
      o["n"] = fd->getNameAsString();
      if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
        o["cls"] = rec_name(md->getParent()); o["clsb"] = rec_base(md->getParent());
        if (md->isConst()) o["const"] = true;
        if (md->isStatic()) o["static"] = true;
        if (md->isVirtual()) o["virt"] = true;
        if (isa<CXXConstructorDecl>(md)) o["kind"] = "ctor";
        if (isa<CXXDestructorDecl>(md)) o["kind"] = "dtor";
        if (isa<CXXConversionDecl>(md)) o["kind"] = "conv";
        if (md->getParent()->isLambda()) { o["lam"] = true; o["lamk"] = lam_key(md->getParent()); }
      }
      json::Array ps; for (auto p : fd->parameters()) ps.push_back(type_id(p->getType()));
      o["ps"] = std::move(ps);
      if (fd->isVariadic()) o["variadic"] = true;
      o["ret"] = type_id(fd->getReturnType());
      if (in_root(fd->getLocation())) { o["repo"] = true; o["file"] = file_id(file_of(fd->getLocation())); o["l"] = line(fd->getLocation()); }
      std::string pk = pat_key(fd); if (!pk.empty()) o["pat"] = pk;
      if (fd->isDeleted()) o["deleted"] = true;
      if (fd->isDefaulted()) o["defaulted"] = true;
      if (fd->isImplicit()) o["implicit"] = true;
      decls[k] = std::move(o);
    }
    return k;
  }
  std::string lam_key(const CXXRecordDecl* rd) { return file_of(rd->getBeginLoc()) + ":" + std::to_string(line(rd->getBeginLoc())) + ":" + std::to_string(col(rd->getBeginLoc())); }
  int local_counter = 0;
  std::string var_id(const ValueDecl* vd) {
    vd = cast<ValueDecl>(vd->getCanonicalDecl());
    if (auto v = dyn_cast<VarDecl>(vd)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) return "G:" + v->getQualifiedNameAsString();
    }
    auto it = local_ids.find(vd);
    if (it != local_ids.end()) return it->second;
    std::string id = "v" + std::to_string(local_counter++);
    local_ids[vd] = id;
    return id;
  }

  // ---- statements ----
  json::Value kids(const Stmt* s) {
    json::Array a;
    for (auto c : s->children()) if (c) a.push_back(st(c));
    return a;
  }
  json::Value vardecl(const VarDecl* v) {
    json::Object o; o["k"] = "Var"; o["id"] = var_id(v); o["n"] = v->getNameAsString(); o["t"] = type_id(v->getType()); o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["static"] = true;
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->hasGlobalStorage() && v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->hasInit()) {
      o["init"] = st(v->getInit());
      o["style"] = v->getInitStyle() == VarDecl::CInit ? "c" : v->getInitStyle() == VarDecl::CallInit ? "call" : "list";
    }
    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
      json::Array b; for (auto x : dd->bindings()) { json::Object bo; bo["id"] = var_id(x); bo["n"] = x->getNameAsString(); bo["t"] = type_id(x->getType()); b.push_back(std::move(bo)); }
      o["binds"] = std::move(b);
    }
    return o;
  }
  const Expr* strip(const Expr* e) {
    while (true) {
      if (auto p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto p = dyn_cast<FullExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto p = dyn_cast<MaterializeTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
      if (auto p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
      if (auto p = dyn_cast<ImplicitCastExpr>(e)) {
        switch (p->getCastKind()) {
          case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast: case CK_FloatingCast:
          case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
            return e;
          default: e = p->getSubExpr(); continue;
        }
      }
      return e;
    }
  }
  bool try_const(const Expr* e, json::Object& o) {
    if (e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent()) return false;
    auto t = e->getType();
    if (t.isNull() || !(t->isIntegralOrEnumerationType())) return false;
    Expr::EvalResult r;
    if (e->isLValue()) {
      // only constexpr variables
      if (auto d = dyn_cast<DeclRefExpr>(e)) { if (auto v = dyn_cast<VarDecl>(d->getDecl())) if (!(v->isConstexpr() || (v->getType().isConstQualified()))) return false; }
      else return false;
    }
    if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
      if (!r.Val.isInt() || !r.Val.getInt().isRepresentableByInt64()) return false;
      o["cv"] = r.Val.getInt().getExtValue();
      return true;
    }
    return false;
  }
  json::Value st(const Stmt* s) {
    if (!s) return nullptr;
    json::Object o;
    if (auto e = dyn_cast<Expr>(s)) return ex(e);
    o["l"] = line(s->getBeginLoc());
    if (auto d = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"] = "OMP"; o["dir"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
      json::Array cl;
      for (auto c : d->clauses()) {
        json::Object co; co["n"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        json::Array vs;
        auto addvars = [&](auto* vc) { for (auto v : vc->varlists()) vs.push_back(ex(v)); };
        if (auto x = dyn_cast<OMPReductionClause>(c)) { addvars(x); co["op"] = x->getNameInfo().getAsString(); }
        else if (auto x = dyn_cast<OMPPrivateClause>(c)) addvars(x);
        else if (auto x = dyn_cast<OMPFirstprivateClause>(c)) addvars(x);
        else if (auto x = dyn_cast<OMPLastprivateClause>(c)) addvars(x);
        else if (auto x = dyn_cast<OMPSharedClause>(c)) addvars(x);
        if (c->isImplicit()) co["impl"] = true;
        co["vars"] = std::move(vs); cl.push_back(std::move(co));
      }
      o["clauses"] = std::move(cl);
      if (d->hasAssociatedStmt()) {
        const Stmt* b = d->getRawStmt();
        while (auto cs = dyn_cast_or_null<CapturedStmt>(b)) b = cs->getCapturedStmt();
        o["body"] = st(b);
      }
      return o;
    }
    if (auto x = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; o["c"] = kids(x); o["le"] = line(x->getEndLoc()); return o; }
    if (auto x = dyn_cast<OMPCanonicalLoop>(s)) return st(x->getLoopStmt());
    if (auto x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "Decl"; json::Array a;
      for (auto d : x->decls()) if (auto v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
      o["c"] = std::move(a); return o;
    }
    if (auto x = dyn_cast<IfStmt>(s)) {
      o["k"] = "If";
      if (x->isConstexpr()) o["constexpr"] = true;
      if (x->getInit()) o["init"] = st(x->getInit());
      if (auto v = x->getConditionVariable()) o["var"] = vardecl(v);
      o["cond"] = st(x->getCond()); o["then"] = st(x->getThen()); o["else"] = st(x->getElse());
      return o;
    }
    if (auto x = dyn_cast<ForStmt>(s)) {
      o["k"] = "For"; o["init"] = st(x->getInit()); o["cond"] = st(x->getCond()); o["inc"] = st(x->getInc()); o["body"] = st(x->getBody()); return o;
    }
    if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "RFor"; o["var"] = vardecl(x->getLoopVariable()); o["range"] = st(x->getRangeInit()); o["body"] = st(x->getBody()); return o;
    }
    if (auto x = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if (auto v = x->getConditionVariable()) o["var"] = vardecl(v); o["cond"] = st(x->getCond()); o["body"] = st(x->getBody()); return o; }
    if (auto x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["cond"] = st(x->getCond()); o["body"] = st(x->getBody()); return o; }
    if (auto x = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; o["cond"] = st(x->getCond()); o["body"] = st(x->getBody()); return o; }
    if (auto x = dyn_cast<CaseStmt>(s)) { o["k"] = "Case"; o["val"] = st(x->getLHS()); o["body"] = st(x->getSubStmt()); return o; }
    if (auto x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["body"] = st(x->getSubStmt()); return o; }
    if (auto x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; if (x->getRetValue()) o["e"] = st(x->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
    if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
    if (isa<NullStmt>(s)) { o["k"] = "Null"; return o; }
    if (auto x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "Try"; o["body"] = st(x->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto c = x->getHandler(i); json::Object ho; ho["k"] = "Catch"; ho["l"] = line(c->getBeginLoc()); if (c->getExceptionDecl()) ho["var"] = vardecl(c->getExceptionDecl()); ho["body"] = st(c->getHandlerBlock()); h.push_back(std::move(ho)); }
      o["handlers"] = std::move(h); return o;
    }
    if (auto x = dyn_cast<AttributedStmt>(s)) return st(x->getSubStmt());
    if (auto x = dyn_cast<CapturedStmt>(s)) return st(x->getCapturedStmt());
    if (auto x = dyn_cast<LabelStmt>(s)) { o["k"] = "Label"; o["body"] = st(x->getSubStmt()); return o; }
    o["k"] = std::string("S:") + s->getStmtClassName(); o["c"] = kids(s);
    return o;
  }
  json::Value args(llvm::ArrayRef<const Expr*> as) { json::Array a; for (auto x : as) a.push_back(ex(x)); return a; }
  template <typename R> json::Value args_r(R r) { json::Array a; for (auto x : r) a.push_back(ex(x)); return a; }
  json::Value ex(const Expr* e0) {
    if (!e0) return nullptr;
    const Expr* e = strip(e0);
    json::Object o;
    o["l"] = line(e->getBeginLoc());
    o["t"] = type_id(e->getType());
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) { auto v = ex(x->getExpr()); if (auto ob = v.getAsObject()) (*ob)["def"] = true; return v; }
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) { auto v = ex(x->getExpr()); if (auto ob = v.getAsObject()) (*ob)["def"] = true; return v; }
    if (auto x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return ex(x->getSemanticForm());
    if (auto x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "Int"; o["v"] = x->getValue().getSExtValue(); return o; }
    if (auto x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "Float"; o["v"] = x->getValueAsApproximateDouble(); return o; }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
    if (auto x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "Char"; o["v"] = (int64_t)x->getValue(); return o; }
    if (auto x = dyn_cast<clang::StringLiteral>(e)) { o["k"] = "Str"; std::string v = x->isOrdinary() || x->isUTF8() ? x->getString().str() : ""; o["v"] = json::fixUTF8(v); return o; }
    if (auto x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "Str"; o["v"] = "__func__"; return o; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return o; }
    if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return o; }
    if (auto x = dyn_cast<DeclRefExpr>(e)) {
      auto d = x->getDecl();
      if (auto fd = dyn_cast<FunctionDecl>(d)) { o["k"] = "Fn"; o["f"] = decl_ref(fd); o["n"] = fd->getNameAsString(); return o; }
      if (isa<EnumConstantDecl>(d)) { o["k"] = "Enum"; o["n"] = d->getQualifiedNameAsString(); try_const(e, o); return o; }
      o["k"] = "Ref"; o["id"] = var_id(d); o["n"] = d->getNameAsString();
      if (auto v = dyn_cast<VarDecl>(d)) { if (v->hasGlobalStorage()) o["glob"] = true; }
      if (isa<NonTypeTemplateParmDecl>(d)) o["ntp"] = true;
      try_const(e, o);
      return o;
    }
    if (auto x = dyn_cast<MemberExpr>(e)) {
      if (auto v = dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"] = "Ref"; o["id"] = var_id(v); o["n"] = v->getNameAsString(); o["glob"] = true; try_const(e, o); return o; }
      o["k"] = "Mem"; o["n"] = x->getMemberDecl()->getNameAsString(); o["q"] = x->getMemberDecl()->getQualifiedNameAsString();
      if (x->isArrow()) o["arrow"] = true;
      o["b"] = ex(x->getBase());
      return o;
    }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
      if (auto fd = x->getDirectCallee()) { o["f"] = decl_ref(fd); }
      json::Array a; for (auto y : x->arguments()) a.push_back(ex(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "MCall";
      if (auto md = x->getMethodDecl()) { o["f"] = decl_ref(md); o["n"] = md->getNameAsString(); }
      if (auto obj = x->getImplicitObjectArgument()) o["obj"] = ex(obj);
      if (auto me = dyn_cast<MemberExpr>(strip(x->getCallee()))) { if (me->isArrow()) o["arrow"] = true; if (me->hasQualifier()) o["qual"] = true; }
      json::Array a; for (auto y : x->arguments()) a.push_back(ex(y)); o["a"] = std::move(a);
      return o;
    }
    if (auto x = dyn_cast<UserDefinedLiteral>(e)) { o["k"] = "Udl"; o["c"] = kids(e); return o; }
    if (auto x = dyn_cast<CallExpr>(e)) {
      o["k"] = "Call";
      if (auto fd = x->getDirectCallee()) { o["f"] = decl_ref(fd); o["n"] = fd->getNameAsString(); }
      else o["fe"] = ex(x->getCallee());
      json::Array a; for (auto y : x->arguments()) a.push_back(ex(y)); o["a"] = std::move(a);
      try_const(e, o);
      return o;
    }
    if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "Ctor"; o["f"] = decl_ref(x->getConstructor());
      json::Array a; for (auto y : x->arguments()) a.push_back(ex(y)); o["a"] = std::move(a);
      if (x->isListInitialization()) o["list"] = true;
      if (x->isElidable()) o["elide"] = true;
      if (auto c = x->getConstructor()) { if (c->isCopyConstructor()) o["copy"] = true; if (c->isMoveConstructor()) o["move"] = true; }
      return o;
    }
    if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { o["k"] = "Ctor"; o["f"] = decl_ref(x->getConstructor()); o["inherited"] = true; o["a"] = json::Array(); return o; }
    if (auto x = dyn_cast<UnaryOperator>(e)) { o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); if (x->isPostfix()) o["post"] = true; o["e"] = ex(x->getSubExpr()); try_const(e, o); return o; }
    if (auto x = dyn_cast<CompoundAssignOperator>(e)) { o["k"] = "Asg"; o["op"] = x->getOpcodeStr().str(); o["a"] = args({x->getLHS(), x->getRHS()}); return o; }
    if (auto x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->isAssignmentOp() ? "Asg" : "Bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = args({x->getLHS(), x->getRHS()}); try_const(e, o); return o;
    }
    if (auto x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Idx"; o["b"] = ex(x->getBase()); o["i"] = ex(x->getIdx()); return o; }
    if (auto x = dyn_cast<ConditionalOperator>(e)) { o["k"] = "Cond"; o["cond"] = ex(x->getCond()); o["then"] = ex(x->getTrueExpr()); o["else"] = ex(x->getFalseExpr()); return o; }
    if (auto x = dyn_cast<CastExpr>(e)) {
      if (isa<ExplicitCastExpr>(e)) {
        o["k"] = isa<CXXConstCastExpr>(e) ? "ConstCast" : isa<CXXReinterpretCastExpr>(e) ? "ReCast" : isa<CXXDynamicCastExpr>(e) ? "DynCast" : "Cast";
      } else o["k"] = "ICast";
      o["ck"] = x->getCastKindName(); o["e"] = ex(x->getSubExpr()); try_const(e, o); return o;
    }
    if (auto x = dyn_cast<InitListExpr>(e)) { auto sem = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x); o["k"] = "Init"; json::Array a; for (auto y : sem->inits()) a.push_back(ex(y)); o["a"] = std::move(a); 
      if (sem->hasArrayFiller()) { json::Object fo; o["filler"] = true; } return o; }
    if (auto x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "Lambda"; o["id"] = lam_key(x->getLambdaClass());
      json::Array cs;
      for (auto& c : x->captures()) {
        json::Object co;
        if (c.capturesThis()) { co["this"] = true; if (c.getCaptureKind() == LCK_StarThis) co["copy"] = true; }
        else if (c.capturesVariable()) {
          auto v = c.getCapturedVar(); co["id"] = var_id(v); co["n"] = v->getNameAsString(); co["t"] = type_id(v->getType()); if (c.getCaptureKind() == LCK_ByRef) co["ref"] = true;
          if (auto vv = dyn_cast<VarDecl>(v)) if (vv->isInitCapture() && vv->getInit()) co["init"] = st(vv->getInit());
        }
        cs.push_back(std::move(co));
      }
      o["caps"] = std::move(cs);
      json::Array ps;
      auto op = x->getCallOperator();
      for (auto p : op->parameters()) ps.push_back(vardecl(p));
      o["params"] = std::move(ps);
      if (op->isConst()) o["const"] = true;
      o["ret"] = type_id(op->getReturnType());
      o["body"] = st(op->hasBody() ? op->getBody() : x->getBody());
      return o;
    }
    if (auto x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "New"; o["at"] = type_id(x->getAllocatedType()); if (x->getArraySize()) o["size"] = ex(*x->getArraySize()); if (x->getInitializer()) o["init"] = ex(x->getInitializer());
      return o;
    }
    if (auto x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = ex(x->getArgument()); return o; }
    if (auto x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; if (x->getSubExpr()) o["e"] = ex(x->getSubExpr()); return o; }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { o["k"] = "Sizeof"; try_const(e, o); return o; }
    if (auto x = dyn_cast<CXXScalarValueInitExpr>(e)) { o["k"] = "Zero"; return o; }
    if (auto x = dyn_cast<ImplicitValueInitExpr>(e)) { o["k"] = "Zero"; return o; }
    if (auto x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return ex(x->getSourceExpr()); o["k"] = "Opaque"; return o; }
    if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"] = "ArrCopy"; o["e"] = ex(x->getCommonExpr()); return o; }
    if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(e)) { o["k"] = "DepMem"; o["n"] = x->getMember().getAsString(); if (!x->isImplicitAccess()) o["b"] = ex(x->getBase()); return o; }
    if (auto x = dyn_cast<UnresolvedLookupExpr>(e)) { o["k"] = "DepName"; o["n"] = x->getName().getAsString(); return o; }
    if (auto x = dyn_cast<UnresolvedMemberExpr>(e)) { o["k"] = "DepMem"; o["n"] = x->getMemberName().getAsString(); if (!x->isImplicitAccess()) o["b"] = ex(x->getBase()); return o; }
    if (auto x = dyn_cast<DependentScopeDeclRefExpr>(e)) { o["k"] = "DepName"; o["n"] = x->getDeclName().getAsString(); return o; }
    if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(e)) { o["k"] = "DepCtor"; json::Array a; for (unsigned i = 0; i < x->getNumArgs(); ++i) a.push_back(ex(x->getArg(i))); o["a"] = std::move(a); return o; }
    if (auto x = dyn_cast<ParenListExpr>(e)) { o["k"] = "Init"; json::Array a; for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(ex(x->getExpr(i))); o["a"] = std::move(a); return o; }
    if (auto x = dyn_cast<CXXParenListInitExpr>(e)) { o["k"] = "Init"; json::Array a; for (auto y : x->getInitExprs()) a.push_back(ex(y)); o["a"] = std::move(a); return o; }
    o["k"] = std::string("E:") + e->getStmtClassName(); o["c"] = kids(e); try_const(e, o);
    return o;
  }

  void function(const FunctionDecl* fd) {
    if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return;
    if (!in_root(fd->getLocation())) return;
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) if (md->getParent()->isLambda() && !isa<CXXConversionDecl>(fd)) {
      // generic lambda instantiations are exported as functions of their own; plain lambdas are exported inline
      if (!fd->isTemplateInstantiation()) return;
    }
    if (isa<CXXConversionDecl>(fd) && cast<CXXConversionDecl>(fd)->getParent()->isLambda()) return;
    if (!done.insert(fd).second) return;
    std::string k = func_key(fd);
    if (k.empty()) return;
    bool dep = fd->isDependentContext();
    if (dep) k = "DEP:" + k;
    if (funcs.find(k) != funcs.end()) return;
    json::Object o;
    o["q"] = fd->getQualifiedNameAsString();
    o["n"] = fd->getNameAsString();
    { std::string s; llvm::raw_string_ostream os(s); fd->getNameForDiagnostic(os, pp, true); o["disp"] = os.str(); }
    if (dep) o["dep"] = true;
    o["file"] = file_id(file_of(fd->getLocation())); o["l"] = line(fd->getLocation()); o["c0"] = col(fd->getLocation()); o["le"] = line(fd->getEndLoc());
    std::string pk = pat_key(fd); if (!pk.empty()) o["pat"] = pk;
    o["ret"] = type_id(fd->getReturnType());
    json::Array ps; for (auto p : fd->parameters()) ps.push_back(vardecl(p)); o["params"] = std::move(ps);
    if (fd->isVariadic()) o["variadic"] = true;
    if (fd->isDefaulted()) o["defaulted"] = true;
    if (fd->isImplicit()) o["implicit"] = true;
    if (fd->isDeleted()) o["deleted"] = true;
    if (fd->getStorageClass() == SC_Static) o["static"] = true;
    if (auto ta = fd->getTemplateSpecializationArgs()) { std::string s; llvm::raw_string_ostream os(s); printTemplateArgumentList(os, ta->asArray(), pp); o["targs"] = os.str(); }
    o["kind"] = "func";
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o["kind"] = md->isStatic() ? "smethod" : "method";
      o["cls"] = rec_name(md->getParent()); o["clsb"] = rec_base(md->getParent());
      if (md->getParent()->isLambda()) { o["kind"] = "lambda"; o["lamk"] = lam_key(md->getParent()); }
      if (md->isConst()) o["const"] = true;
      if (md->isVirtual()) o["virt"] = true;
      if (md->isPureVirtual()) o["pure"] = true;
      o["access"] = (int64_t)md->getAccess();
      json::Array ov; for (auto m : md->overridden_methods()) ov.push_back(decl_ref(m)); o["ov"] = std::move(ov);
      if (auto cd = dyn_cast<CXXConstructorDecl>(md)) {
        o["kind"] = "ctor";
        if (cd->isCopyConstructor()) o["copy"] = true;
        if (cd->isMoveConstructor()) o["move"] = true;
        json::Array is;
        for (auto i : cd->inits()) {
          json::Object io; 
          if (i->isAnyMemberInitializer()) { io["field"] = i->getAnyMember()->getNameAsString(); io["q"] = i->getAnyMember()->getQualifiedNameAsString(); }
          else if (i->isBaseInitializer()) { io["base"] = type_id(QualType(i->getBaseClass(), 0)); }
          else if (i->isDelegatingInitializer()) io["deleg"] = true;
          if (i->isWritten()) io["written"] = true;
          io["e"] = ex(i->getInit()); is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
      if (isa<CXXDestructorDecl>(md)) o["kind"] = "dtor";
      if (isa<CXXConversionDecl>(md)) o["kind"] = "conv";
    }
    if (fd->doesThisDeclarationHaveABody() && fd->getBody()) o["body"] = st(fd->getBody());
    decl_ref(fd);
    funcs[k] = std::move(o);
  }
  void record(const CXXRecordDecl* rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isLambda() || !in_root(rd->getLocation())) return;
    std::string k = rec_name(rd);
    if (rd->isDependentContext()) k = "DEP:" + k;
    if (records.find(k) != records.end()) return;
    json::Object o;
    o["q"] = rd->getQualifiedNameAsString(); o["file"] = file_id(file_of(rd->getLocation())); o["l"] = line(rd->getLocation());
    if (rd->isDependentContext()) o["dep"] = true;
    json::Array fs;
    for (auto f : rd->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type_id(f->getType()); fo["l"] = line(f->getLocation()); if (f->isMutable()) fo["mutable"] = true; if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = ex(f->getInClassInitializer()); fo["access"] = (int64_t)f->getAccess(); fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array bs; for (auto& b : rd->bases()) { json::Object bo; bo["t"] = type_id(b.getType()); if (auto br = b.getType()->getAsCXXRecordDecl()) { bo["rec"] = rec_name(br); bo["q"] = br->getQualifiedNameAsString(); } bo["virtual"] = b.isVirtual(); bs.push_back(std::move(bo)); }
    o["bases"] = std::move(bs);
    json::Array ms; 
    if (!rd->isDependentContext()) for (auto m : rd->methods()) {
      json::Object mo; mo["f"] = decl_ref(m); mo["n"] = m->getNameAsString(); if (m->isDeleted()) mo["deleted"] = true; if (m->isDefaulted()) mo["defaulted"] = true; if (m->isPureVirtual()) mo["pure"] = true; if (m->isVirtual()) mo["virt"] = true; if (m->isImplicit()) mo["implicit"] = true;
      mo["access"] = (int64_t)m->getAccess(); mo["const"] = m->isConst();
      if (m->isCopyAssignmentOperator()) mo["sp"] = "copy="; if (m->isMoveAssignmentOperator()) mo["sp"] = "move=";
      if (auto c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) mo["sp"] = "copy"; if (c->isMoveConstructor()) mo["sp"] = "move"; }
      if (isa<CXXDestructorDecl>(m)) mo["sp"] = "dtor";
      json::Array ov; for (auto x : m->overridden_methods()) ov.push_back(decl_ref(x)); mo["ov"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (rd->hasDefinition() && !rd->isDependentContext()) { o["polymorphic"] = rd->isPolymorphic(); o["abstract"] = rd->isAbstract(); }
    records[k] = std::move(o);
  }
  void global(const VarDecl* v) {
    if (!v->hasGlobalStorage() || !in_root(v->getLocation())) return;
    if (v->isStaticLocal()) return;
    std::string k = var_id(v);
    if (vars.find(k) != vars.end()) { if (!v->hasInit()) return; }
    json::Object o; o["q"] = v->getQualifiedNameAsString(); o["t"] = type_id(v->getType()); o["file"] = file_id(file_of(v->getLocation())); o["l"] = line(v->getLocation());
    if (v->isConstexpr()) o["constexpr"] = true;
    if (v->getTSCSpec() != TSCS_unspecified) o["tls"] = true;
    if (v->getType().isConstQualified()) o["const"] = true;
    if (v->hasInit() && !v->getType()->isDependentType() && !v->isInvalidDecl()) o["init"] = ex(v->getInit());
    vars[k] = std::move(o);
  }
  void finish() {
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      auto rp = it->first.getFileEntry().tryGetRealPathName().str(); 
      for (auto& r : roots) if (rp.rfind(r, 0) == 0) dep_files.insert(rp);
    }
    json::Array df; for (auto& f : dep_files) df.push_back(f);
    json::Object top; top["funcs"] = std::move(funcs); top["records"] = std::move(records); top["vars"] = std::move(vars); top["decls"] = std::move(decls); top["types"] = std::move(types); top["files"] = std::move(files); top["deps"] = std::move(df);
    std::error_code ec; llvm::raw_fd_ostream os(out_path, ec);
    if (ec) { llvm::errs() << "cannot write " << out_path << "\n"; failed = true; return; }
    os << json::Value(std::move(top));
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Exporter& x;
  Visitor(Exporter& e) : x(e) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* fd) { x.function(fd); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* rd) { x.record(rd); return true; }
  bool VisitVarDecl(VarDecl* v) { x.global(v); return true; }
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) { failed = true; return; }
    Exporter x(ctx);
    Visitor v(x);
    for (auto d : ctx.getTranslationUnitDecl()->decls()) {
      // skip system declarations quickly
      SourceLocation l = d->getLocation();
      if (!isa<NamespaceDecl>(d) && !isa<LinkageSpecDecl>(d) && !x.in_root(l)) continue;
      if (auto ns = dyn_cast<NamespaceDecl>(d)) { if (!x.in_root(l)) continue; }
      v.TraverseDecl(d);
    }
    x.finish();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char** argv) {
  if (argc < 5) return 3;
  std::string r = argv[1]; size_t p = 0;
  while (p <= r.size()) { auto q = r.find(':', p); if (q == std::string::npos) q = r.size(); if (q > p) roots.push_back(r.substr(p, q - p)); p = q + 1; }
  out_path = argv[2]; std::string src = argv[3];
  std::vector<std::string> args; for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  class F : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } f;
  int rc = tool.run(&f);
  return rc || failed ? 2 : 0;
}
