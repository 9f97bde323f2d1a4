// Fact extractor: parses one translation unit with the project's own flags and
// dumps, for every function with a body that lives under a given root
// (template instantiations and implicit members included), its type-resolved
// syntax tree and clang CFG as JSON lines.  No judgement is made here.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
static std::unique_ptr<llvm::raw_fd_ostream> gOS;

static int64_t ival(const llvm::APSInt &a) { return a.isRepresentableByInt64() ? a.getExtValue() : INT64_MAX; }
static std::string usr(const Decl *D) {
  llvm::SmallString<128> b;
  if (index::generateUSRForDecl(D, b)) return "";
  return std::string(b.str());
}

struct TypeTab {
  std::map<std::string, int> ids;
  std::vector<std::string> names;
  int get(const std::string &s) {
    auto it = ids.find(s);
    if (it != ids.end()) return it->second;
    int i = names.size();
    ids[s] = i;
    names.push_back(s);
    return i;
  }
};

class Dumper {
 public:
  ASTContext &C;
  const SourceManager &SM;
  TypeTab &TT;
  PrintingPolicy PP;
  std::map<const Stmt *, int> ids;
  std::map<const VarDecl *, int> vars;
  int nextId = 0;
  json::Array varTab;

  Dumper(ASTContext &c, TypeTab &tt)
      : C(c), SM(c.getSourceManager()), TT(tt), PP(c.getPrintingPolicy()) {
    PP.SuppressUnwrittenScope = true;
  }
  int type(QualType t) {
    if (t.isNull()) return -1;
    return TT.get(t.getCanonicalType().getAsString(PP));
  }
  int line(SourceLocation l) {
    if (l.isInvalid()) return 0;
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isValid() ? p.getLine() : 0;
  }
  std::string file(SourceLocation l) {
    if (l.isInvalid()) return "";
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isValid() ? std::string(p.getFilename()) : "";
  }
  int var(const VarDecl *v) {
    v = v->getCanonicalDecl();
    auto it = vars.find(v);
    if (it != vars.end()) return it->second;
    int i = vars.size();
    vars[v] = i;
    json::Object o;
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["s"] = TT.get(v->getType().getAsString(PP));
    if (isa<ParmVarDecl>(v)) o["p"] = true;
    if (v->isStaticLocal()) o["st"] = true;
    o["l"] = line(v->getLocation());
    varTab.push_back(std::move(o));
    return i;
  }
  const Expr *strip(const Expr *e) {
    for (;;) {
      if (auto *x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) {
        // keep integral<->floating and boolean conversions visible
        e = x->getSubExpr();
      } else if (auto *x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        if (x->isElidable() && x->getNumArgs() >= 1) e = x->getArg(0);
        else return e;
      } else return e;
    }
  }
  void alias(const Expr *from, int id) {
    // every wrapper we strip maps to the id of what it wraps
    for (;;) {
      ids[from] = id;
      const Expr *e = from;
      if (auto *x = dyn_cast<ParenExpr>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<ImplicitCastExpr>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<ExprWithCleanups>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<ConstantExpr>(e)) from = x->getSubExpr();
      else if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) from = x->getExpr();
      else if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) from = x->getExpr();
      else if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) from = x->getReplacement();
      else if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
        if (x->isElidable() && x->getNumArgs() >= 1) from = x->getArg(0);
        else return;
      } else return;
    }
  }
  void fnref(json::Object &o, const FunctionDecl *fd) {
    o["fn"] = usr(fd);
    o["q"] = fd->getQualifiedNameAsString();
    if (auto *m = dyn_cast<CXXMethodDecl>(fd)) {
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cst"] = true;
      if (m->isStatic()) o["stat"] = true;
    }
    if (fd->isNoReturn()) o["nr"] = true;
    json::Array ps;
    for (auto *p : fd->parameters()) ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    if (fd->isVariadic()) o["va"] = true;
  }
  json::Value dump(const Stmt *s) {
    if (!s) return nullptr;
    const Stmt *orig = s;
    if (auto *e = dyn_cast<Expr>(s)) s = strip(e);
    int id = nextId++;
    json::Object o;
    o["i"] = id;
    if (auto *e = dyn_cast<Expr>(orig)) alias(e, id);
    ids[s] = id;
    o["l"] = line(s->getBeginLoc());
    json::Array ch;
    auto kids = [&]() {
      for (const Stmt *k : s->children())
        if (k) ch.push_back(dump(k));
    };
    if (auto *e = dyn_cast<Expr>(s)) {
      o["t"] = type(e->getType());
      if (orig != s) {
        auto *oe = cast<Expr>(orig);
        if (oe->getType().getCanonicalType() != e->getType().getCanonicalType())
          o["ct"] = type(oe->getType());
      }
      if (!e->isValueDependent() && !e->isTypeDependent() &&
          e->getType()->isIntegralOrEnumerationType() && e->isPRValue() &&
          !isa<IntegerLiteral>(e)) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
          o["cv"] = ival(r.Val.getInt());
      } else if (e->isLValue() && e->getType()->isIntegralOrEnumerationType() &&
                 isa<DeclRefExpr>(e)) {
        auto *vd = dyn_cast<VarDecl>(cast<DeclRefExpr>(e)->getDecl());
        if (vd && vd->getType().isConstQualified() && vd->getInit() && !vd->getInit()->isValueDependent()) {
          Expr::EvalResult r;
          if (vd->getInit()->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
            o["cv"] = ival(r.Val.getInt());
        }
      }
    }
    std::string k;
    if (auto *e = dyn_cast<DeclRefExpr>(s)) {
      const ValueDecl *d = e->getDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm()) {
          k = "Var";
          o["v"] = var(v);
          o["n"] = v->getNameAsString();
        } else {
          k = "Global";
          o["q"] = v->getQualifiedNameAsString();
        }
      } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
        k = "Enum";
        o["q"] = ec->getQualifiedNameAsString();
        o["cv"] = ival(ec->getInitVal());
      } else if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        k = "Fn";
        fnref(o, fd);
      } else {
        k = "Ref";
        o["q"] = d->getQualifiedNameAsString();
      }
    } else if (auto *e = dyn_cast<MemberExpr>(s)) {
      const ValueDecl *d = e->getMemberDecl();
      if (auto *fd = dyn_cast<FunctionDecl>(d)) {
        k = "MemFn";
        fnref(o, fd);
      } else if (auto *v = dyn_cast<VarDecl>(d)) {
        k = "Global";
        o["q"] = v->getQualifiedNameAsString();
      } else {
        k = "Mem";
        o["q"] = d->getQualifiedNameAsString();
        o["n"] = d->getNameAsString();
      }
      if (e->isArrow()) o["arrow"] = true;
      ch.push_back(dump(e->getBase()));
    } else if (isa<CXXThisExpr>(s)) {
      k = "This";
    } else if (auto *e = dyn_cast<CXXOperatorCallExpr>(s)) {
      k = "Call";
      const FunctionDecl *fd = e->getDirectCallee();
      if (fd) fnref(o, fd);
      o["oper"] = std::string(getOperatorSpelling(e->getOperator()));
      unsigned n = e->getNumArgs(), st = 0;
      if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && n) {
        o["obj"] = dump(e->getArg(0));
        st = 1;
      }
      for (unsigned i = st; i < n; i++) ch.push_back(dump(e->getArg(i)));
      if (auto *ce = e->getCallee()) ids[ce] = id;
    } else if (auto *e = dyn_cast<CXXMemberCallExpr>(s)) {
      k = "Call";
      if (auto *md = e->getMethodDecl()) fnref(o, md);
      if (auto *me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) {
        if (me->hasQualifier()) o["virt"] = false;
        if (me->isArrow()) o["arrow"] = true;
      }
      if (auto *ob = e->getImplicitObjectArgument()) o["obj"] = dump(ob);
      for (auto *a : e->arguments()) ch.push_back(dump(a));
      ids[e->getCallee()] = id;
    } else if (auto *e = dyn_cast<CallExpr>(s)) {
      k = "Call";
      if (const FunctionDecl *fd = e->getDirectCallee()) fnref(o, fd);
      else o["ind"] = dump(e->getCallee());
      for (auto *a : e->arguments()) ch.push_back(dump(a));
      if (e->getDirectCallee()) ids[e->getCallee()] = id;
    } else if (auto *e = dyn_cast<CXXConstructExpr>(s)) {
      k = "Ctor";
      fnref(o, e->getConstructor());
      auto *cd = e->getConstructor();
      if (cd->isCopyConstructor()) o["copy"] = true;
      if (cd->isMoveConstructor()) o["copy"] = true;
      if (cd->isDefaultConstructor()) o["deflt"] = true;
      if (e->requiresZeroInitialization()) o["zero"] = true;
      for (auto *a : e->arguments()) ch.push_back(dump(a));
    } else if (auto *e = dyn_cast<CXXNewExpr>(s)) {
      k = "New";
      o["at"] = type(e->getAllocatedType());
      if (e->isArray()) {
        o["arr"] = true;
        if (e->getArraySize() && *e->getArraySize()) o["size"] = dump(*e->getArraySize());
      }
      for (unsigned i = 0; i < e->getNumPlacementArgs(); i++) {
        o["plc"] = true;
        ch.push_back(dump(e->getPlacementArg(i)));
      }
      if (e->getInitializer()) ch.push_back(dump(e->getInitializer()));
      else if (auto *ce = e->getConstructExpr()) ch.push_back(dump(ce));
    } else if (auto *e = dyn_cast<CXXDeleteExpr>(s)) {
      k = "Delete";
      if (e->isArrayForm()) o["arr"] = true;
      ch.push_back(dump(e->getArgument()));
    } else if (auto *e = dyn_cast<CompoundAssignOperator>(s)) {
      k = "Assign";
      o["op"] = e->getOpcodeStr().str();
      kids();
    } else if (auto *e = dyn_cast<BinaryOperator>(s)) {
      k = e->isAssignmentOp() ? "Assign" : "Bin";
      o["op"] = e->getOpcodeStr().str();
      kids();
    } else if (auto *e = dyn_cast<UnaryOperator>(s)) {
      k = "Un";
      std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) op = "post" + op;
      o["op"] = op;
      kids();
    } else if (auto *e = dyn_cast<IntegerLiteral>(s)) {
      k = "Lit";
      o["v"] = (int64_t)e->getValue().getLimitedValue(INT64_MAX);
    } else if (auto *e = dyn_cast<FloatingLiteral>(s)) {
      k = "Flt";
      double dv = e->getValueAsApproximateDouble();
      if (std::isfinite(dv)) o["v"] = dv; else o["v"] = "inf";
    } else if (auto *e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      k = "Bool";
      o["v"] = e->getValue();
    } else if (auto *e = dyn_cast<CharacterLiteral>(s)) {
      k = "Chr";
      o["v"] = (int64_t)e->getValue();
    } else if (auto *e = dyn_cast<StringLiteral>(s)) {
      k = "Str";
      std::string str = e->getCharByteWidth() == 1 ? e->getString().str() : "";
      o["v"] = json::fixUTF8(str.size() > 4000 ? str.substr(0, 4000) : str);
    } else if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
      k = "Null";
    } else if (auto *e = dyn_cast<ArraySubscriptExpr>(s)) {
      k = "Idx";
      ch.push_back(dump(e->getBase()));
      ch.push_back(dump(e->getIdx()));
    } else if (auto *e = dyn_cast<ExplicitCastExpr>(s)) {
      k = "Cast";
      if (isa<CXXDynamicCastExpr>(e)) o["dyn"] = true;
      ch.push_back(dump(e->getSubExpr()));
    } else if (isa<ConditionalOperator>(s)) {
      k = "Cond";
      kids();
    } else if (auto *d = dyn_cast<DeclStmt>(s)) {
      k = "Decl";
      json::Array vs;
      for (auto *dd : d->decls())
        if (auto *v = dyn_cast<VarDecl>(dd)) {
          json::Object vo;
          if (v->isLocalVarDeclOrParm()) vo["v"] = var(v);
          vo["n"] = v->getNameAsString();
          vo["t"] = type(v->getType());
          if (v->hasInit()) vo["init"] = dump(v->getInit());
          vs.push_back(std::move(vo));
        }
      o["vars"] = std::move(vs);
    } else if (auto *x = dyn_cast<IfStmt>(s)) {
      k = "If";
      if (x->getInit()) o["init"] = dump(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = dump(x->getConditionVariableDeclStmt());
      o["cond"] = dump(x->getCond());
      o["then"] = dump(x->getThen());
      if (x->getElse()) o["else"] = dump(x->getElse());
    } else if (auto *x = dyn_cast<ForStmt>(s)) {
      k = "For";
      if (x->getInit()) o["init"] = dump(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = dump(x->getConditionVariableDeclStmt());
      if (x->getCond()) o["cond"] = dump(x->getCond());
      if (x->getInc()) o["inc"] = dump(x->getInc());
      o["body"] = dump(x->getBody());
    } else if (auto *x = dyn_cast<WhileStmt>(s)) {
      k = "While";
      if (x->getConditionVariableDeclStmt()) o["cvar"] = dump(x->getConditionVariableDeclStmt());
      o["cond"] = dump(x->getCond());
      o["body"] = dump(x->getBody());
    } else if (auto *x = dyn_cast<DoStmt>(s)) {
      k = "Do";
      o["body"] = dump(x->getBody());
      o["cond"] = dump(x->getCond());
    } else if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      k = "ForRange";
      if (x->getInit()) o["init"] = dump(x->getInit());
      o["range"] = dump(x->getRangeStmt());
      o["begin"] = dump(x->getBeginStmt());
      o["end"] = dump(x->getEndStmt());
      o["cond"] = dump(x->getCond());
      o["inc"] = dump(x->getInc());
      o["lvar"] = dump(x->getLoopVarStmt());
      o["body"] = dump(x->getBody());
    } else if (auto *x = dyn_cast<SwitchStmt>(s)) {
      k = "Switch";
      if (x->getInit()) o["init"] = dump(x->getInit());
      if (x->getConditionVariableDeclStmt()) o["cvar"] = dump(x->getConditionVariableDeclStmt());
      o["cond"] = dump(x->getCond());
      o["body"] = dump(x->getBody());
    } else if (auto *x = dyn_cast<CaseStmt>(s)) {
      k = "Case";
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, C)) o["cv"] = ival(r.Val.getInt());
      o["val"] = dump(x->getLHS());
      ch.push_back(dump(x->getSubStmt()));
    } else if (auto *x = dyn_cast<DefaultStmt>(s)) {
      k = "Default";
      ch.push_back(dump(x->getSubStmt()));
    } else if (auto *x = dyn_cast<ReturnStmt>(s)) {
      k = "Return";
      if (x->getRetValue()) ch.push_back(dump(x->getRetValue()));
    } else if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      k = "SizeOf";
      if (x->isArgumentType()) o["at"] = type(x->getArgumentType());
      else o["at"] = type(x->getArgumentExpr()->getType());
    } else if (auto *x = dyn_cast<InitListExpr>(s)) {
      k = "InitList";
      const InitListExpr *sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      for (auto *i : sem->inits()) ch.push_back(dump(i));
    } else if (auto *x = dyn_cast<LambdaExpr>(s)) {
      k = "Lambda";
      fnref(o, x->getCallOperator());
      for (auto *i : x->capture_inits()) if (i) ch.push_back(dump(i));
    } else if (auto *x = dyn_cast<StmtExpr>(s)) {
      k = "StmtExpr";
      ch.push_back(dump(x->getSubStmt()));
    } else if (isa<CXXScalarValueInitExpr>(s) || isa<ImplicitValueInitExpr>(s)) {
      k = "Zero";
    } else if (isa<CompoundStmt>(s)) {
      k = "Block";
      kids();
    } else if (isa<BreakStmt>(s)) k = "Break";
    else if (isa<ContinueStmt>(s)) k = "Continue";
    else {
      k = s->getStmtClassName();
      kids();
    }
    o["k"] = k;
    if (!ch.empty()) o["c"] = std::move(ch);
    return json::Value(std::move(o));
  }
};

class V : public RecursiveASTVisitor<V> {
 public:
  ASTContext &C;
  TypeTab TT;
  std::set<std::string> seen, recs;
  V(ASTContext &c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool inRoot(SourceLocation l) {
    auto &SM = C.getSourceManager();
    if (l.isInvalid()) return false;
    SourceLocation e = SM.getExpansionLoc(l);
    auto fe = SM.getFileEntryRefForID(SM.getFileID(e));
    if (!fe) return false;
    llvm::StringRef rp = fe->getFileEntry().tryGetRealPathName();
    return rp.starts_with(gRoot);
  }
  std::string path(SourceLocation l) {
    auto &SM = C.getSourceManager();
    SourceLocation e = SM.getExpansionLoc(l);
    PresumedLoc p = SM.getPresumedLoc(e);
    auto fe = SM.getFileEntryRefForID(SM.getFileID(e));
    std::string real = fe ? std::string(fe->getFileEntry().tryGetRealPathName()) : "";
    std::string pres = p.isValid() ? p.getFilename() : "";
    if (pres.find(".y") == pres.size() - 2 || pres.find(".l") == pres.size() - 2) return pres;
    return real;
  }
  void emit(json::Object o) { *gOS << json::Value(std::move(o)) << "\n"; }

  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRoot(D->getLocation())) return true;
    json::Object o;
    o["rec"] = "enum";
    o["q"] = D->getQualifiedNameAsString();
    o["f"] = path(D->getLocation());
    json::Array a;
    for (auto *e : D->enumerators())
      a.push_back(json::Array{e->getQualifiedNameAsString(), ival(e->getInitVal())});
    o["vals"] = std::move(a);
    emit(std::move(o));
    return true;
  }
  bool VisitRecordDecl(RecordDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRoot(D->getLocation())) return true;
    if (D->isDependentContext()) return true;
    std::string u = usr(D);
    if (!recs.insert(u).second) return true;
    json::Object o;
    o["rec"] = "record";
    o["q"] = D->getQualifiedNameAsString();
    o["tn"] = C.getTypeDeclType(D).getCanonicalType().getAsString(C.getPrintingPolicy());
    o["u"] = u;
    o["f"] = path(D->getLocation());
    o["l"] = (int)C.getSourceManager().getPresumedLineNumber(C.getSourceManager().getExpansionLoc(D->getLocation()));
    json::Array fs;
    PrintingPolicy PP = C.getPrintingPolicy();
    for (auto *f : D->fields()) {
      json::Object fo;
      fo["q"] = f->getQualifiedNameAsString();
      fo["n"] = f->getNameAsString();
      fo["t"] = f->getType().getCanonicalType().getAsString(PP);
      fo["s"] = f->getType().getAsString(PP);
      fo["l"] = (int)C.getSourceManager().getPresumedLineNumber(C.getSourceManager().getExpansionLoc(f->getLocation()));
      QualType ft = f->getType().getCanonicalType();
      const char *cls = "class";
      if (ft->isPointerType()) cls = "ptr";
      else if (ft->isReferenceType()) cls = "ref";
      else if (ft->isBooleanType() || ft->isIntegralOrEnumerationType() || ft->isFloatingType()) cls = "scalar";
      else if (ft->isArrayType()) cls = "array";
      fo["cls"] = cls;
      if (f->hasInClassInitializer()) fo["dmi"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) {
      json::Array bs;
      for (auto &b : R->bases())
        if (auto *br = b.getType()->getAsCXXRecordDecl()) bs.push_back(json::Array{br->getQualifiedNameAsString(), usr(br)});
      o["bases"] = std::move(bs);
      json::Array ms;
      for (auto *m : R->methods())
        ms.push_back(json::Array{m->getNameAsString(), usr(m), m->isVirtual(), m->isPureVirtual()});
      o["methods"] = std::move(ms);
      if (R->hasDefinition()) o["agg"] = R->isAggregate();
      o["udc"] = R->hasUserProvidedDefaultConstructor();
    }
    emit(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (!D->hasGlobalStorage() || D->isStaticLocal()) return true;
    if (!inRoot(D->getLocation()) || D->getDeclContext()->isDependentContext()) return true;
    if (D->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    Dumper d(C, TT);
    json::Object o;
    o["rec"] = "global";
    o["q"] = D->getQualifiedNameAsString();
    o["f"] = path(D->getLocation());
    o["l"] = d.line(D->getLocation());
    o["t"] = D->getType().getCanonicalType().getAsString(C.getPrintingPolicy());
    if (auto *at = C.getAsConstantArrayType(D->getType())) o["asz"] = (int64_t)at->getSize().getZExtValue();
    if (D->hasInit() && D->getInit() && !D->getInit()->isValueDependent() &&
        !(isa<InitListExpr>(D->getInit()) && cast<InitListExpr>(D->getInit())->getNumInits() > 600))
      o["init"] = d.dump(D->getInit());
    emit(std::move(o));
    return true;
  }
  bool VisitFunctionDecl(FunctionDecl *D) {
    if (!D->doesThisDeclarationHaveABody() || D->isDependentContext()) return true;
    if (!inRoot(D->getLocation())) return true;
    if (!D->getBody()) return true;
    std::string u = usr(D);
    if (D->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(D)) u = u + "@" + path(D->getLocation());
    if (!seen.insert(u).second) return true;
    Dumper d(C, TT);
    json::Object o;
    o["rec"] = "func";
    o["u"] = usr(D);
    o["q"] = D->getQualifiedNameAsString();
    o["n"] = D->getNameAsString();
    o["f"] = path(D->getLocation());
    o["l"] = d.line(D->getLocation());
    o["rt"] = d.type(D->getReturnType());
    if (D->isStatic()) o["static"] = true;
    if (D->isImplicit() || D->isDefaulted()) o["impl"] = true;
    if (D->isNoReturn()) o["nr"] = true;
    if (D->isTemplateInstantiation()) o["tmpl"] = true;
    json::Array ps;
    for (auto *p : D->parameters()) ps.push_back(d.var(p));
    o["params"] = std::move(ps);
    if (auto *m = dyn_cast<CXXMethodDecl>(D)) {
      o["cls"] = m->getParent()->getQualifiedNameAsString();
      o["clsu"] = usr(m->getParent());
      if (m->isVirtual()) o["virt"] = true;
      if (m->isConst()) o["cst"] = true;
      json::Array ov;
      for (auto *b : m->overridden_methods()) ov.push_back(usr(b));
      o["over"] = std::move(ov);
      if (isa<CXXDestructorDecl>(m)) o["dtor"] = true;
      if (auto *cd = dyn_cast<CXXConstructorDecl>(m)) {
        o["ctor"] = cd->isCopyConstructor() ? "copy" : cd->isMoveConstructor() ? "move" : cd->isDefaultConstructor() ? "default" : "other";
        json::Array is;
        for (auto *i : cd->inits()) {
          json::Object io;
          if (i->isAnyMemberInitializer()) io["m"] = i->getAnyMember()->getQualifiedNameAsString();
          else if (i->isBaseInitializer()) {
            if (auto *br = i->getBaseClass()->getAsCXXRecordDecl()) io["b"] = usr(br);
          } else io["dlg"] = true;
          if (i->isWritten()) io["w"] = true;
          io["e"] = d.dump(i->getInit());
          is.push_back(std::move(io));
        }
        o["inits"] = std::move(is);
      }
    }
    o["body"] = d.dump(D->getBody());
    CFG::BuildOptions bo;
    bo.setAllAlwaysAdd();
    bo.AddInitializers = true;
    bo.PruneTriviallyFalseEdges = false;
    bo.AddCXXDefaultInitExprInCtors = false;
    std::unique_ptr<CFG> cfg = CFG::buildCFG(D, D->getBody(), &C, bo);
    if (cfg) {
      json::Object co;
      co["entry"] = (int)cfg->getEntry().getBlockID();
      co["exit"] = (int)cfg->getExit().getBlockID();
      json::Array bs;
      auto idOf = [&](const Stmt *s) -> json::Value {
        if (!s) return nullptr;
        auto it = d.ids.find(s);
        if (it == d.ids.end()) return nullptr;
        return it->second;
      };
      for (CFGBlock *b : *cfg) {
        json::Object bb;
        bb["b"] = (int)b->getBlockID();
        json::Array es;
        int last = -1;
        for (auto &el : *b) {
          if (auto cs = el.getAs<CFGStmt>()) {
            const Stmt *st = cs->getStmt();
            auto it = d.ids.find(st);
            int id = -1;
            if (it != d.ids.end()) id = it->second;
            else if (auto *ds = dyn_cast<DeclStmt>(st)) {
              // clang synthesises one-variable DeclStmts
              if (ds->isSingleDecl())
                if (auto *v = dyn_cast<VarDecl>(ds->getSingleDecl())) {
                  es.push_back(json::Object{{"dv", d.var(v)}});
                  last = -1;
                  continue;
                }
            }
            if (id >= 0 && id != last) { es.push_back(id); last = id; }
          } else if (auto ci = el.getAs<CFGInitializer>()) {
            auto *in = ci->getInitializer();
            json::Object io;
            if (in->isAnyMemberInitializer()) io["init"] = in->getAnyMember()->getQualifiedNameAsString();
            else io["init"] = "";
            es.push_back(std::move(io));
            last = -1;
          }
        }
        bb["e"] = std::move(es);
        if (const Stmt *t = b->getTerminatorStmt()) {
          bb["term"] = idOf(t);
          bb["tk"] = t->getStmtClassName();
        }
        if (const Stmt *tc = b->getTerminatorCondition()) {
          bb["cond"] = idOf(tc);
          // innermost operand actually branched on
        }
        if (const Stmt *lb = b->getLabel()) bb["label"] = idOf(lb);
        if (b->hasNoReturnElement()) bb["nr"] = true;
        json::Array ss;
        for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
          CFGBlock *sb = it->getReachableBlock();
          if (!sb) sb = it->getPossiblyUnreachableBlock();
          if (sb) ss.push_back((int)sb->getBlockID()); else ss.push_back(nullptr);
        }
        bb["s"] = std::move(ss);
        bs.push_back(std::move(bb));
      }
      co["blocks"] = std::move(bs);
      o["cfg"] = std::move(co);
    }
    o["vars"] = std::move(d.varTab);
    emit(std::move(o));
    return true;
  }
  void finish() {
    json::Object o;
    o["rec"] = "types";
    json::Array a;
    for (auto &s : TT.names) a.push_back(json::fixUTF8(s));
    o["names"] = std::move(a);
    emit(std::move(o));
  }
};

class Cons : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    v.finish();
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>();
  }
};

// usage: extract ROOT OUT SRC -- compiler args...
int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT SRC -- args\n"; return 2; }
  gRoot = argv[1];
  gOut = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  std::error_code ec;
  gOS = std::make_unique<llvm::raw_fd_ostream>(gOut, ec);
  if (ec) { llvm::errs() << ec.message() << "\n"; return 2; }
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-resource-dir=/usr/lib/llvm-18/lib/clang/18", tooling::ArgumentInsertPosition::BEGIN));
  int r = tool.run(tooling::newFrontendActionFactory<Act>().get());
  gOS->close();
  return r ? 2 : 0;
}
