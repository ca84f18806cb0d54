// extract: dumps the type-resolved program of one translation unit as JSON.
// usage: extract ROOT[:ROOT...] FILE -- CLANG_ARGS...
// Every function whose definition lies under one of the ROOTs is written with its body (template
// functions: their instantiations), as are the records, enums and constants defined there.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;  // NOLINT
namespace json = llvm::json;
using std::string;

static std::vector<string> roots;

struct Dumper
{
  ASTContext & C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::vector<const CXXRecordDecl *> lambdas;
  std::set<const FunctionDecl *> wanted;     // referenced lambdas call operators etc.
  explicit Dumper(ASTContext & c) : C(c), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true; PP.PrintCanonicalTypes = true; PP.AnonymousTagLocations = true;
  }
  int id(const Decl * d)
  {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[d] = n; return n;
  }
  string loc(SourceLocation l)
  {
    auto & sm = C.getSourceManager();
    l = sm.getExpansionLoc(l);
    auto p = sm.getPresumedLoc(l);
    if (p.isInvalid()) return "?";
    return string(p.getFilename()) + ":" + std::to_string(p.getLine());
  }
  string file(SourceLocation l)
  {
    auto & sm = C.getSourceManager();
    auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
    return p.isInvalid() ? "" : string(p.getFilename());
  }
  bool inRoot(SourceLocation l)
  {
    string f = file(l);
    for (auto & r : roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  string ty(QualType q)
  {
    if (q.isNull()) return "?";
    return q.getCanonicalType().getAsString(PP);
  }
  string qn(const NamedDecl * d)
  {
    string s; llvm::raw_string_ostream os(s);
    if (auto * m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) return lambdaName(m->getParent());
    d->getNameForDiagnostic(os, PP, true);
    return os.str();
  }
  string plain(const NamedDecl * d)
  {
    if (auto * m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) return lambdaName(m->getParent());
    return d->getQualifiedNameAsString();
  }
  string lambdaName(const CXXRecordDecl * r) { return "lambda@" + loc(r->getBeginLoc()) + "#" + std::to_string(id(r)); }
  string fid(const FunctionDecl * f)
  {
    if (auto * m = dyn_cast<CXXMethodDecl>(f))
      if (m->getParent()->isLambda()) return lambdaName(m->getParent());
    string s = qn(f) + "(";
    bool first = true;
    for (auto * p : f->parameters()) { if (!first) s += ","; first = false; s += ty(p->getType()); }
    s += ")";
    if (auto * m = dyn_cast<CXXMethodDecl>(f)) if (m->isConst()) s += " const";
    return s;
  }

  json::Value E(const Expr * e)
  {
    if (!e) return nullptr;
    json::Object o = expr(e);
    if (!o.get("l")) o["l"] = loc(e->getExprLoc().isValid() ? e->getExprLoc() : e->getBeginLoc());
    if (!o.get("t")) o["t"] = ty(e->getType());
    return o;
  }
  json::Array A(llvm::iterator_range<CallExpr::const_arg_iterator> r, unsigned skip = 0)
  {
    json::Array a; unsigned i = 0;
    for (auto * x : r) if (i++ >= skip) a.push_back(E(x));
    return a;
  }
  json::Object unk(const Stmt * s) { return json::Object{{"k", "unknown"}, {"what", s->getStmtClassName()}}; }

  json::Object expr(const Expr * e)
  {
    if (auto * x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<FullExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto * x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
    if (auto * x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto * x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return expr(x->getSourceExpr()); return unk(e); }
    if (auto * x = dyn_cast<GNUNullExpr>(e)) { (void)x; return json::Object{{"k", "null"}}; }
    if (auto * x = dyn_cast<CXXNullPtrLiteralExpr>(e)) { (void)x; return json::Object{{"k", "null"}}; }
    if (auto * x = dyn_cast<IntegerLiteral>(e))
    { llvm::SmallString<32> s; x->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); return json::Object{{"k", "int"}, {"v", string(s.str())}}; }
    if (auto * x = dyn_cast<CharacterLiteral>(e)) return json::Object{{"k", "int"}, {"v", std::to_string(x->getValue())}};
    if (auto * x = dyn_cast<FloatingLiteral>(e))
    { // the literal as written where possible: it is the exact decimal that is meant
      llvm::SmallString<64> s; x->getValue().toString(s, 40, 0);
      string txt = Lexer::getSourceText(CharSourceRange::getTokenRange(
        C.getSourceManager().getSpellingLoc(x->getBeginLoc())), C.getSourceManager(), C.getLangOpts()).str();
      return json::Object{{"k", "float"}, {"v", string(s.str())}, {"txt", txt}}; }
    if (auto * x = dyn_cast<CXXBoolLiteralExpr>(e)) return json::Object{{"k", "bool"}, {"v", x->getValue()}};
    if (auto * x = dyn_cast<StringLiteral>(e)) return json::Object{{"k", "str"}, {"v", x->isOrdinary() ? x->getString().str() : string("?")}};
    if (isa<CXXThisExpr>(e)) return json::Object{{"k", "this"}};
    if (auto * x = dyn_cast<DeclRefExpr>(e))
    {
      const ValueDecl * d = x->getDecl();
      json::Object o{{"k", "ref"}, {"id", id(d)}, {"name", d->getNameAsString()}};
      if (auto * v = dyn_cast<VarDecl>(d))
      {
        o["dk"] = isa<ParmVarDecl>(v) ? "param" : v->isLocalVarDecl() && !v->isStaticLocal() ? "local" : "global";
        if (o["dk"] == json::Value("global"))
        {
          o["q"] = plain(d);
          Expr::EvalResult r;
          if (v->getType().isConstQualified() || v->isConstexpr())
            if (auto * val = v->evaluateValue()) putConst(o, *val);
        }
      }
      else if (auto * ec = dyn_cast<EnumConstantDecl>(d))
      { o["dk"] = "enum"; llvm::SmallString<32> s; ec->getInitVal().toString(s, 10); o["v"] = string(s.str()); o["q"] = plain(d); }
      else if (auto * f = dyn_cast<FunctionDecl>(d)) { o["dk"] = "func"; o["q"] = plain(f); o["f"] = fid(f); }
      else if (auto * b = dyn_cast<BindingDecl>(d)) { o["dk"] = "binding"; o["b"] = E(b->getBinding()); }
      else o["dk"] = "other";
      return o;
    }
    if (auto * x = dyn_cast<MemberExpr>(e))
    {
      auto * m = x->getMemberDecl();
      if (auto * v = dyn_cast<VarDecl>(m))
      {
        json::Object o{{"k", "ref"}, {"id", id(v)}, {"name", v->getNameAsString()}, {"dk", "global"}, {"q", plain(v)}};
        if (auto * val = v->evaluateValue()) putConst(o, *val);
        return o;
      }
      if (auto * ec = dyn_cast<EnumConstantDecl>(m))
      { llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
        return json::Object{{"k", "ref"}, {"id", id(ec)}, {"name", ec->getNameAsString()}, {"dk", "enum"}, {"v", string(s.str())}, {"q", plain(ec)}}; }
      return json::Object{{"k", "member"}, {"b", E(x->getBase())}, {"arrow", x->isArrow()},
        {"name", m->getNameAsString()}, {"q", plain(m)}, {"isf", isa<FieldDecl>(m)}};
    }
    if (auto * x = dyn_cast<CXXOperatorCallExpr>(e))
    {
      json::Object o{{"k", "opcall"}, {"op", getOperatorSpelling(x->getOperator())}, {"a", A(x->arguments())}};
      if (auto * f = x->getDirectCallee()) { o["q"] = plain(f); o["f"] = fid(f); callee(o, f); }
      return o;
    }
    if (auto * x = dyn_cast<CXXMemberCallExpr>(e))
    {
      json::Object o{{"k", "mcall"}, {"a", A(x->arguments())}};
      const Expr * ce = x->getCallee()->IgnoreParens();
      if (auto * f = x->getMethodDecl())
      {
        o["q"] = plain(f); o["f"] = fid(f); o["name"] = f->getNameAsString(); o["virtual"] = f->isVirtual();
        callee(o, f);
        if (auto * me = dyn_cast<MemberExpr>(ce))
        { o["o"] = E(me->getBase()); o["arrow"] = me->isArrow(); if (me->hasQualifier()) o["nonvirt"] = true;
          o["ot"] = ty(me->getBase()->getType()); }
        else o["o"] = E(x->getImplicitObjectArgument());
        if (isa<CXXConversionDecl>(f)) o["conv"] = true;
      }
      else o["c"] = E(ce);
      return o;
    }
    if (auto * x = dyn_cast<CallExpr>(e))
    {
      json::Object o{{"k", "call"}, {"a", A(x->arguments())}};
      if (auto * f = x->getDirectCallee()) { o["q"] = plain(f); o["f"] = fid(f); o["name"] = f->getNameAsString(); callee(o, f); }
      else o["c"] = E(x->getCallee());
      return o;
    }
    if (auto * x = dyn_cast<CXXConstructExpr>(e))
    {
      auto * cd = x->getConstructor();
      json::Array a; for (auto * y : x->arguments()) a.push_back(E(y));
      json::Object o{{"k", "ctor"}, {"q", plain(cd->getParent())}, {"f", fid(cd)}, {"a", std::move(a)}};
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["move"] = true;
      if (x->isListInitialization()) o["list"] = true;
      if (x->isElidable()) o["elide"] = true;
      callee(o, cd);
      return o;
    }
    if (auto * x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unk(x);
    if (auto * x = dyn_cast<CXXNewExpr>(e))
    {
      json::Object o{{"k", "new"}, {"at", ty(x->getAllocatedType())}, {"init", E(x->getInitializer())}};
      if (x->isArray()) { auto s = x->getArraySize(); o["n"] = s && *s ? E(*s) : json::Value(nullptr); }
      return o;
    }
    if (auto * x = dyn_cast<CXXDeleteExpr>(e)) return json::Object{{"k", "delete"}, {"e", E(x->getArgument())}};
    if (auto * x = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)x; return json::Object{{"k", "zero"}}; }
    if (isa<ImplicitValueInitExpr>(e)) return json::Object{{"k", "zero"}};
    if (auto * x = dyn_cast<CastExpr>(e))
    {
      switch (x->getCastKind())
      {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr: case CK_UncheckedDerivedToBase:
        case CK_DerivedToBase: case CK_BaseToDerived: case CK_Dynamic: case CK_ToVoid:
        {
          json::Object o = expr(x->getSubExpr());
          if (!o.get("t")) o["t"] = ty(x->getSubExpr()->getType());
          return o;
        }
        case CK_ArrayToPointerDecay:
        {
          const Expr * y = x->getSubExpr()->IgnoreParens();
          if (isa<StringLiteral>(y) || isa<PredefinedExpr>(y)) return expr(x->getSubExpr());
          return json::Object{{"k", "decay"}, {"e", E(x->getSubExpr())}};
        }
        case CK_NullToPointer: return json::Object{{"k", "null"}};
        default: break;
      }
      return json::Object{{"k", "cast"}, {"ck", x->getCastKindName()}, {"from", ty(x->getSubExpr()->getType())}, {"e", E(x->getSubExpr())}};
    }
    if (auto * x = dyn_cast<UnaryOperator>(e))
      return json::Object{{"k", "un"}, {"op", UnaryOperator::getOpcodeStr(x->getOpcode()).str()}, {"post", x->isPostfix()}, {"e", E(x->getSubExpr())}};
    if (auto * x = dyn_cast<CompoundAssignOperator>(e))
      return json::Object{{"k", "cassign"}, {"op", x->getOpcodeStr().drop_back().str()}, {"a", E(x->getLHS())}, {"b", E(x->getRHS())},
        {"ct", ty(x->getComputationResultType())}};
    if (auto * x = dyn_cast<BinaryOperator>(e))
      return json::Object{{"k", x->getOpcode() == BO_Assign ? "assign" : "bin"}, {"op", x->getOpcodeStr().str()}, {"a", E(x->getLHS())}, {"b", E(x->getRHS())}};
    if (auto * x = dyn_cast<ConditionalOperator>(e))
      return json::Object{{"k", "cond"}, {"c", E(x->getCond())}, {"a", E(x->getTrueExpr())}, {"b", E(x->getFalseExpr())}};
    if (auto * x = dyn_cast<ArraySubscriptExpr>(e))
    {
      const Expr * b = x->getBase()->IgnoreParens();
      if (auto * y = dyn_cast<ImplicitCastExpr>(b); y && y->getCastKind() == CK_ArrayToPointerDecay) b = y->getSubExpr();
      return json::Object{{"k", "index"}, {"b", E(b)}, {"i", E(x->getIdx())}};
    }
    if (auto * x = dyn_cast<InitListExpr>(e))
    {
      if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
      json::Array a; for (auto * y : x->inits()) a.push_back(E(y));
      json::Object o{{"k", "initlist"}, {"a", std::move(a)}};
      if (x->getArrayFiller()) o["filler"] = E(x->getArrayFiller());
      return o;
    }
    if (auto * x = dyn_cast<LambdaExpr>(e))
    {
      json::Array caps;
      auto ci = x->capture_init_begin();
      for (auto & c : x->captures())
      {
        json::Object o;
        if (c.capturesThis()) o["this"] = true;
        else if (c.capturesVariable()) { o["id"] = id(c.getCapturedVar()); o["name"] = c.getCapturedVar()->getNameAsString(); o["init"] = E(*ci); }
        o["byref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This;
        caps.push_back(std::move(o)); ++ci;
      }
      auto * op = x->getCallOperator();
      return json::Object{{"k", "lambda"}, {"caps", std::move(caps)}, {"params", params(op)}, {"body", S(x->getBody())},
        {"f", lambdaName(x->getLambdaClass())}};
    }
    if (auto * x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
    {
      Expr::EvalResult r; if (e->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); return json::Object{{"k", "int"}, {"v", string(s.str())}}; }
      return unk(x);
    }
    if (auto * x = dyn_cast<CXXThrowExpr>(e)) return json::Object{{"k", "throw"}, {"e", E(x->getSubExpr())}};
    if (auto * x = dyn_cast<CXXFunctionalCastExpr>(e)) return expr(x->getSubExpr());
    if (auto * x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    json::Object u = unk(e);
    json::Array kids; for (auto * k : e->children()) if (auto * ke = dyn_cast_or_null<Expr>(k)) kids.push_back(E(ke));
    u["a"] = std::move(kids);
    return u;
  }
  void callee(json::Object & o, const FunctionDecl * f)
  {
    const FunctionDecl * def = nullptr;
    if (f->hasBody(def) && inRoot(def->getLocation())) { o["repo"] = true; wanted.insert(def); }
    json::Array rt;
    for (auto * p : f->parameters())
    {
      QualType t = p->getType();
      rt.push_back(t->isReferenceType() && !t.getNonReferenceType().isConstQualified() ? 1 : t->isPointerType() ? 2 : 0);
    }
    o["pm"] = std::move(rt);
    if (auto * m = dyn_cast<CXXMethodDecl>(f)) { o["mconst"] = m->isConst(); o["cls"] = plain(m->getParent()); }
    if (auto * ta = f->getTemplateSpecializationArgs())
    { json::Array x; for (auto & a : ta->asArray()) { string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); x.push_back(os.str()); } o["targs"] = std::move(x); }
  }
  void putConst(json::Object & o, const APValue & v)
  {
    if (v.isInt()) { llvm::SmallString<32> s; v.getInt().toString(s, 10); o["v"] = string(s.str()); }
    else if (v.isFloat()) { llvm::SmallString<64> s; v.getFloat().toString(s, 40, 0); o["fv"] = string(s.str()); }
  }
  json::Array params(const FunctionDecl * f)
  {
    json::Array a;
    for (auto * p : f->parameters())
      a.push_back(json::Object{{"id", id(p)}, {"name", p->getNameAsString()}, {"t", ty(p->getType())}, {"ref", p->getType()->isReferenceType()},
        {"def", p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() ? E(p->getDefaultArg()) : json::Value(nullptr)}});
    return a;
  }
  json::Object var(const VarDecl * v)
  {
    json::Object o{{"id", id(v)}, {"name", v->getNameAsString()}, {"t", ty(v->getType())}, {"l", loc(v->getLocation())},
      {"ref", v->getType()->isReferenceType()}, {"static", v->isStaticLocal()}};
    if (v->hasInit()) o["init"] = E(v->getInit());
    return o;
  }
  json::Value S(const Stmt * s)
  {
    if (!s) return nullptr;
    if (auto * e = dyn_cast<Expr>(s)) return json::Object{{"k", "expr"}, {"e", E(e)}, {"l", loc(s->getBeginLoc())}, {"void", isa<CStyleCastExpr>(e) && e->getType()->isVoidType()}};
    json::Object o;
    if (auto * x = dyn_cast<CompoundStmt>(s))
    { json::Array a; for (auto * y : x->body()) a.push_back(S(y)); o = json::Object{{"k", "block"}, {"s", std::move(a)}, {"end", loc(x->getRBracLoc())}}; }
    else if (auto * x = dyn_cast<DeclStmt>(s))
    {
      json::Array a;
      for (auto * d : x->decls())
      {
        if (auto * v = dyn_cast<DecompositionDecl>(d))
        { auto vo = var(v); json::Array bs; for (auto * b : v->bindings()) bs.push_back(json::Object{{"id", id(b)}, {"name", b->getNameAsString()}}); vo["bindings"] = std::move(bs); a.push_back(std::move(vo)); }
        else if (auto * v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
      }
      o = json::Object{{"k", "decl"}, {"v", std::move(a)}};
    }
    else if (auto * x = dyn_cast<IfStmt>(s))
      o = json::Object{{"k", "if"}, {"init", S(x->getInit())}, {"var", x->getConditionVariable() ? json::Value(var(x->getConditionVariable())) : json::Value(nullptr)},
        {"c", E(x->getCond())}, {"a", S(x->getThen())}, {"b", S(x->getElse())}};
    else if (auto * x = dyn_cast<ForStmt>(s))
      o = json::Object{{"k", "for"}, {"init", S(x->getInit())}, {"c", E(x->getCond())}, {"inc", E(x->getInc())}, {"body", S(x->getBody())}};
    else if (auto * x = dyn_cast<WhileStmt>(s))
      o = json::Object{{"k", "while"}, {"var", x->getConditionVariable() ? json::Value(var(x->getConditionVariable())) : json::Value(nullptr)}, {"c", E(x->getCond())}, {"body", S(x->getBody())}};
    else if (auto * x = dyn_cast<DoStmt>(s)) o = json::Object{{"k", "do"}, {"c", E(x->getCond())}, {"body", S(x->getBody())}};
    else if (auto * x = dyn_cast<CXXForRangeStmt>(s))
      o = json::Object{{"k", "rangefor"}, {"var", var(x->getLoopVariable())}, {"range", E(x->getRangeInit())}, {"body", S(x->getBody())}};
    else if (auto * x = dyn_cast<ReturnStmt>(s)) o = json::Object{{"k", "return"}, {"e", E(x->getRetValue())}};
    else if (isa<BreakStmt>(s)) o = json::Object{{"k", "break"}};
    else if (isa<ContinueStmt>(s)) o = json::Object{{"k", "continue"}};
    else if (isa<NullStmt>(s)) o = json::Object{{"k", "nop"}};
    else if (auto * x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    else if (auto * x = dyn_cast<SwitchStmt>(s)) o = json::Object{{"k", "switch"}, {"init", S(x->getInit())}, {"c", E(x->getCond())}, {"body", S(x->getBody())}};
    else if (auto * x = dyn_cast<CaseStmt>(s)) o = json::Object{{"k", "case"}, {"c", E(x->getLHS())}, {"s", S(x->getSubStmt())}};
    else if (auto * x = dyn_cast<DefaultStmt>(s)) o = json::Object{{"k", "default"}, {"s", S(x->getSubStmt())}};
    else if (auto * x = dyn_cast<CXXTryStmt>(s))
    {
      json::Array h;
      for (unsigned i = 0; i < x->getNumHandlers(); ++i)
      { auto * c = x->getHandler(i); h.push_back(json::Object{{"t", c->getExceptionDecl() ? ty(c->getCaughtType()) : string("...")}, {"body", S(c->getHandlerBlock())}}); }
      o = json::Object{{"k", "try"}, {"body", S(x->getTryBlock())}, {"h", std::move(h)}};
    }
    else o = unk(s);
    o["l"] = loc(s->getBeginLoc());
    return o;
  }
  json::Object func(const FunctionDecl * f)
  {
    json::Object o{{"f", fid(f)}, {"q", plain(f)}, {"qn", qn(f)}, {"name", f->getNameAsString()}, {"l", loc(f->getLocation())}, {"end", loc(f->getEndLoc())},
      {"ret", ty(f->getReturnType())}, {"params", params(f)}, {"body", S(f->getBody())}};
    if (auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      o["cls"] = qn(m->getParent()); o["const"] = m->isConst(); o["static"] = m->isStatic(); o["virtual"] = m->isVirtual();
      o["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov; for (auto * b : m->overridden_methods()) ov.push_back(fid(b)); o["overrides"] = std::move(ov);
    }
    if (auto * c = dyn_cast<CXXConstructorDecl>(f))
    {
      json::Array in;
      for (auto * i : c->inits())
      {
        json::Object x;
        if (i->isAnyMemberInitializer()) x["field"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) x["base"] = ty(QualType(i->getBaseClass(), 0));
        else x["delegate"] = true;
        x["written"] = i->isWritten(); x["e"] = E(i->getInit());
        in.push_back(std::move(x));
      }
      o["inits"] = std::move(in); o["ctor"] = true;
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    return o;
  }
  json::Object record(const CXXRecordDecl * r)
  {
    json::Array f, b, m;
    for (auto * x : r->fields())
      f.push_back(json::Object{{"name", x->getNameAsString()}, {"t", ty(x->getType())}, {"l", loc(x->getLocation())}, {"mutable", x->isMutable()},
        {"init", x->hasInClassInitializer() && x->getInClassInitializer() ? E(x->getInClassInitializer()) : json::Value(nullptr)}});
    if (r->hasDefinition()) for (auto & x : r->bases()) b.push_back(ty(x.getType()));
    for (auto * x : r->methods())
    { json::Array ov; for (auto * y : x->overridden_methods()) ov.push_back(fid(y));
      m.push_back(json::Object{{"f", fid(x)}, {"name", x->getNameAsString()}, {"pure", x->isPureVirtual()}, {"virtual", x->isVirtual()}, {"const", x->isConst()},
        {"implicit", x->isImplicit()}, {"access", x->getAccess() == AS_public ? "public" : x->getAccess() == AS_protected ? "protected" : "private"}, {"overrides", std::move(ov)}}); }
    return json::Object{{"q", qn(r)}, {"plain", plain(r)}, {"l", loc(r->getLocation())}, {"fields", std::move(f)}, {"bases", std::move(b)}, {"methods", std::move(m)}};
  }
};

struct Visitor : RecursiveASTVisitor<Visitor>
{
  Dumper & D; json::Array recs, glob; std::set<const FunctionDecl *> funcs; std::set<const CXXRecordDecl *> seen;
  explicit Visitor(Dumper & d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl * f)
  {
    if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !D.inRoot(f->getLocation())) return true;
    if (auto * m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
    if (f->isImplicit() && !isa<CXXConstructorDecl>(f)) return true;
    funcs.insert(f); return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl * r)
  {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda() || !D.inRoot(r->getLocation())) return true;
    if (seen.insert(r).second) recs.push_back(D.record(r));
    return true;
  }
  bool VisitVarDecl(VarDecl * v)
  {
    if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || v->getDeclContext()->isDependentContext() || !D.inRoot(v->getLocation()) ||
        v->getType()->isDependentType() || v->getDescribedVarTemplate() || (v->hasInit() && v->getInit()->isInstantiationDependent())) return true;
    json::Object o = D.var(v); o["q"] = D.plain(v);
    if (v->hasInit() && !v->getInit()->isValueDependent() && (v->isConstexpr() || v->getType().isConstQualified()))
      if (auto * val = v->evaluateValue()) D.putConst(o, *val);
    glob.push_back(std::move(o)); return true;
  }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext & C) override
  {
    Dumper D(C); Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    std::map<string, json::Value> out;
    std::set<const FunctionDecl *> done;
    while (true)
    {
      std::vector<const FunctionDecl *> todo;
      for (auto * f : V.funcs) if (!done.count(f)) todo.push_back(f);
      for (auto * f : D.wanted) if (!done.count(f) && !f->isDependentContext()) todo.push_back(f);
      if (todo.empty()) break;
      for (auto * f : todo) { done.insert(f); if (auto * m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) continue; auto key = D.fid(f); if (!out.count(key)) out.emplace(key, D.func(f)); }
    }
    json::Array fs; for (auto & x : out) fs.push_back(std::move(x.second));
    json::Object o{{"funcs", std::move(fs)}, {"records", std::move(V.recs)}, {"globals", std::move(V.glob)},
      {"errors", (int64_t)C.getDiagnostics().getClient()->getNumErrors()}};
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction
{ std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); } };

int main(int argc, char ** argv)
{
  string r = argv[1]; size_t p = 0;
  while (p <= r.size()) { size_t q = r.find(':', p); if (q == string::npos) q = r.size(); if (q > p) roots.push_back(r.substr(p, q - p)); p = q + 1; }
  std::vector<string> args(argv + 4, argv + argc);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {string(argv[2])});
  return tool.run(tooling::newFrontendActionFactory<Action>().get()) ? 3 : 0;
}
