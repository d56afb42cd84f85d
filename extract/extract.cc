// Dumps the resolved program of one translation unit as JSON lines: classes, enums and, for every
// function with a body under the given source root, its clang CFG over a small expression IR.
#include <cstdio>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static llvm::raw_ostream* g_out = nullptr;
static std::set<std::string> g_deps;

static int64_t ExtV(const llvm::APSInt& v) {
  return v.isRepresentableByInt64() ? v.getExtValue() : (int64_t)v.getZExtValue();
}

struct Dumper {
  ASTContext& ctx;
  SourceManager& sm;
  std::unique_ptr<MangleContext> mangler;
  PrintingPolicy pp;
  std::set<std::string> done_funcs;
  std::set<const CXXRecordDecl*> done_classes;

  explicit Dumper(ASTContext& c)
      : ctx(c), sm(c.getSourceManager()), mangler(c.createMangleContext()), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.UseVoidForZeroParams = false;
    pp.FullyQualifiedName = true;
  }

  std::string FileOf(SourceLocation loc) {
    loc = sm.getExpansionLoc(loc);
    auto p = sm.getPresumedLoc(loc, false);
    if (p.isInvalid()) return "";
    std::string f = p.getFilename();
    if (f.compare(0, g_root.size(), g_root) == 0) return f.substr(g_root.size());
    return "";
  }
  unsigned LineOf(SourceLocation loc) { return sm.getExpansionLineNumber(loc); }
  std::string LocId(SourceLocation loc) {
    std::string f = FileOf(loc);
    if (f.empty()) f = "?";
    return f + ":" + std::to_string(LineOf(loc)) + ":" +
           std::to_string(sm.getExpansionColumnNumber(loc));
  }

  std::string QName(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->printQualifiedName(os, pp);
    return os.str();
  }
  // Class name including template arguments.
  std::string CName(const CXXRecordDecl* d) {
    if (d->isLambda()) return "lambda@" + LocId(d->getBeginLoc());
    std::string s = TypeStr(ctx.getRecordType(d));
    if (d->isLocalClass()) s += "@" + LocId(d->getBeginLoc());
    return s;
  }
  std::string TypeStr(QualType t) {
    if (t.isNull()) return "";
    return t.getCanonicalType().getAsString(pp);
  }

  std::string FuncId(const FunctionDecl* f) {
    f = f->getCanonicalDecl();
    bool local = false;
    std::string locs;
    for (const DeclContext* dc = f->getDeclContext(); dc; dc = dc->getParent()) {
      if (auto* r = dyn_cast<CXXRecordDecl>(dc)) {
        if (r->isLambda() || r->isLocalClass()) {
          local = true;
          locs = LocId(r->getBeginLoc());
          break;
        }
      }
    }
    std::string s;
    llvm::raw_string_ostream os(s);
    if (isa<CXXConstructorDecl>(f)) {
      mangler->mangleName(GlobalDecl(cast<CXXConstructorDecl>(f), Ctor_Complete), os);
    } else if (isa<CXXDestructorDecl>(f)) {
      mangler->mangleName(GlobalDecl(cast<CXXDestructorDecl>(f), Dtor_Complete), os);
    } else if (mangler->shouldMangleDeclName(f)) {
      mangler->mangleName(GlobalDecl(f), os);
    } else {
      os << f->getNameAsString();
    }
    os.flush();
    if (local) s += "@" + locs;
    return s;
  }

  std::string VarId(const ValueDecl* d) {
    d = cast<ValueDecl>(d->getCanonicalDecl());
    return d->getNameAsString() + "@" + LocId(d->getLocation());
  }

  // ---- expressions
  struct FCtx {
    std::map<const Stmt*, int> ids;
    std::vector<json::Object> nodes;
    const FunctionDecl* fd = nullptr;
  };

  const Stmt* Strip(const Stmt* s) {
    while (s) {
      if (auto* e = dyn_cast<ParenExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<ExprWithCleanups>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) { s = e->getExpr(); continue; }
      if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) { s = e->getExpr(); continue; }
      if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) { s = e->getReplacement(); continue; }
      if (auto* e = dyn_cast<ConstantExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<FullExpr>(s)) { s = e->getSubExpr(); continue; }
      if (auto* e = dyn_cast<CastExpr>(s)) {
        switch (e->getCastKind()) {
          case CK_IntegralCast:
          case CK_UserDefinedConversion:
          case CK_ConstructorConversion: {
            if (e->getCastKind() == CK_IntegralCast) {
              QualType a = e->getSubExpr()->getType(), b = e->getType();
              if (a->isIntegerType() && b->isIntegerType() &&
                  ctx.getTypeSize(a) == ctx.getTypeSize(b) &&
                  a->isSignedIntegerOrEnumerationType() == b->isSignedIntegerOrEnumerationType()) {
                s = e->getSubExpr();
                continue;
              }
              return s;
            }
            s = e->getSubExpr();
            continue;
          }
          case CK_IntegralToBoolean:
          case CK_PointerToBoolean:
          case CK_FloatingToIntegral:
          case CK_IntegralToFloating:
          case CK_ToVoid:
            return s;
          default:
            s = e->getSubExpr();
            continue;
        }
      }
      break;
    }
    return s;
  }

  int Node(FCtx& fc, const Stmt* s0) {
    const Stmt* s = Strip(s0);
    if (!s) return -1;
    auto it = fc.ids.find(s);
    if (it != fc.ids.end()) return it->second;
    int id = fc.nodes.size();
    fc.ids[s] = id;
    fc.nodes.emplace_back();
    json::Object o = Build(fc, s);
    if (auto* e = dyn_cast<Expr>(s)) {
      o["ln"] = (int64_t)LineOf(e->getExprLoc());
      if (!o.get("ty") && !e->getType().isNull()) {
        o["ty"] = TypeStr(e->getType());
      }
      if (e->isGLValue()) o["lv"] = 1;
      if (!e->isValueDependent() && !e->getType().isNull() &&
          (e->getType()->isIntegralOrEnumerationType()) && !e->isGLValue()) {
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
          o["cv"] = ExtV(r.Val.getInt());
        }
      } else if (e->isGLValue() && isa<DeclRefExpr>(e)) {
        if (auto* vd = dyn_cast<VarDecl>(cast<DeclRefExpr>(e)->getDecl())) {
          if (vd->getType().isConstQualified() && vd->getType()->isIntegralOrEnumerationType() &&
              !vd->getType()->isDependentType()) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
              o["cv"] = ExtV(r.Val.getInt());
            }
          }
        }
      }
    } else {
      o["ln"] = (int64_t)LineOf(s->getBeginLoc());
    }
    fc.nodes[id] = std::move(o);
    return id;
  }

  json::Array Args(FCtx& fc, llvm::ArrayRef<const Expr*> args) {
    json::Array a;
    for (auto* e : args) a.push_back(Node(fc, e));
    return a;
  }

  void CalleeInfo(json::Object& o, const FunctionDecl* fd) {
    if (!fd) return;
    o["fn"] = FuncId(fd);
    o["qn"] = QName(fd);
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isVirtual()) o["virt"] = 1;
      if (md->isConst()) o["cst"] = 1;
      if (md->isStatic()) o["stat"] = 1;
    }
    json::Array pt;
    bool any = false;
    for (auto* p : fd->parameters()) {
      // 'r' non-const ref, 'c' const ref, 'p' pointer to non-const, 'q' pointer to const, 'v' value
      QualType t = p->getType();
      std::string k = "v";
      if (t->isReferenceType()) {
        k = t->getPointeeType().isConstQualified() ? "c" : "r";
        if (t->isRValueReferenceType()) k = "x";
      } else if (t->isPointerType()) {
        k = t->getPointeeType().isConstQualified() ? "q" : "p";
      }
      if (k != "v") any = true;
      pt.push_back(k);
    }
    if (any) o["pk"] = std::move(pt);
  }

  json::Object Build(FCtx& fc, const Stmt* s) {
    json::Object o;
    if (auto* e = dyn_cast<DeclRefExpr>(s)) {
      const ValueDecl* d = e->getDecl();
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        o["k"] = "enum";
        o["n"] = QName(ec);
        o["cv"] = ExtV(ec->getInitVal());
      } else if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "fref";
        CalleeInfo(o, f);
      } else if (auto* b = dyn_cast<BindingDecl>(d)) {
        o["k"] = "var";
        o["d"] = VarId(b);
        o["n"] = b->getNameAsString();
        o["sc"] = "b";
      } else if (auto* v = dyn_cast<VarDecl>(d)) {
        o["k"] = "var";
        o["d"] = VarId(v);
        o["n"] = v->getNameAsString();
        if (isa<ParmVarDecl>(v)) {
          o["sc"] = "p";
        } else if (v->isStaticDataMember() || v->hasGlobalStorage()) {
          o["sc"] = "g";
          o["n"] = QName(v);
        } else {
          o["sc"] = "l";
        }
        o["vt"] = TypeStr(v->getType());
      } else {
        o["k"] = "other";
        o["n"] = QName(d);
      }
      return o;
    }
    if (auto* e = dyn_cast<MemberExpr>(s)) {
      const ValueDecl* d = e->getMemberDecl();
      if (auto* f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "mfref";
        o["b"] = Node(fc, e->getBase());
        CalleeInfo(o, f);
      } else {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          o["k"] = "var";
          o["d"] = VarId(v);
          o["n"] = QName(v);
          o["sc"] = "g";
          return o;
        }
        o["k"] = "mem";
        o["b"] = Node(fc, e->getBase());
        o["f"] = d->getNameAsString();
        if (auto* fd = dyn_cast<FieldDecl>(d)) {
          if (auto* rd = dyn_cast<CXXRecordDecl>(fd->getParent())) o["c"] = CName(rd);
        }
        if (e->isArrow()) o["ar"] = 1;
      }
      return o;
    }
    if (isa<CXXThisExpr>(s)) {
      o["k"] = "this";
      return o;
    }
    if (auto* e = dyn_cast<CXXOperatorCallExpr>(s)) {
      o["k"] = "call";
      o["op"] = getOperatorSpelling(e->getOperator());
      const FunctionDecl* fd = e->getDirectCallee();
      CalleeInfo(o, fd);
      if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
        o["m"] = Node(fc, e->getArg(0));
        json::Array a;
        for (unsigned i = 1; i < e->getNumArgs(); i++) a.push_back(Node(fc, e->getArg(i)));
        o["a"] = std::move(a);
      } else {
        json::Array a;
        for (unsigned i = 0; i < e->getNumArgs(); i++) a.push_back(Node(fc, e->getArg(i)));
        o["a"] = std::move(a);
      }
      return o;
    }
    if (auto* e = dyn_cast<CXXMemberCallExpr>(s)) {
      o["k"] = "call";
      const CXXMethodDecl* md = e->getMethodDecl();
      CalleeInfo(o, md);
      if (const Expr* obj = e->getImplicitObjectArgument()) {
        o["m"] = Node(fc, obj);
        QualType ot = obj->getType();
        if (ot->isPointerType()) {
          o["mp"] = 1;
          ot = ot->getPointeeType();
        }
        o["mt"] = TypeStr(ot.getUnqualifiedType());
        if (auto* me = dyn_cast<MemberExpr>(e->getCallee()->IgnoreParens())) {
          if (me->hasQualifier()) o["nonvirt"] = 1;
        }
      }
      if (!md) o["fe"] = Node(fc, e->getCallee());
      json::Array a;
      for (unsigned i = 0; i < e->getNumArgs(); i++) a.push_back(Node(fc, e->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<CallExpr>(s)) {
      o["k"] = "call";
      const FunctionDecl* fd = e->getDirectCallee();
      CalleeInfo(o, fd);
      if (!fd) o["fe"] = Node(fc, e->getCallee());
      json::Array a;
      for (unsigned i = 0; i < e->getNumArgs(); i++) a.push_back(Node(fc, e->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
      o["k"] = "ctor";
      o["ct"] = TypeStr(e->getType().getUnqualifiedType());
      const CXXConstructorDecl* cd = e->getConstructor();
      CalleeInfo(o, cd);
      if (cd->isCopyOrMoveConstructor()) o["cp"] = 1;
      if (cd->isDefaultConstructor()) o["df"] = 1;
      if (e->isElidable()) o["el"] = 1;
      json::Array a;
      for (unsigned i = 0; i < e->getNumArgs(); i++) a.push_back(Node(fc, e->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<IntegerLiteral>(s)) {
      o["k"] = "lit";
      o["cv"] = e->getValue().getLimitedValue() > (uint64_t)INT64_MAX
                    ? (int64_t)e->getValue().getLimitedValue()
                    : (int64_t)e->getValue().getLimitedValue();
      return o;
    }
    if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
      o["k"] = "lit";
      o["cv"] = e->getValue() ? 1 : 0;
      o["b"] = 1;
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) {
      o["k"] = "null";
      return o;
    }
    if (auto* e = dyn_cast<StringLiteral>(s)) {
      o["k"] = "str";
      if (e->getCharByteWidth() == 1) {
        std::string v = e->getString().str();
        if (v.size() > 200) v.resize(200);
        for (char& c : v) if ((unsigned char)c >= 0x80) c = '?';
        o["s"] = v;
        o["len"] = (int64_t)e->getByteLength();
      }
      return o;
    }
    if (auto* e = dyn_cast<CharacterLiteral>(s)) {
      o["k"] = "lit";
      o["cv"] = (int64_t)e->getValue();
      return o;
    }
    if (auto* e = dyn_cast<BinaryOperator>(s)) {
      o["k"] = "bin";
      o["op"] = e->getOpcodeStr().str();
      o["l"] = Node(fc, e->getLHS());
      o["r"] = Node(fc, e->getRHS());
      return o;
    }
    if (auto* e = dyn_cast<UnaryOperator>(s)) {
      o["k"] = "un";
      std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
      if (e->isPostfix()) op = "post" + op;
      o["op"] = op;
      o["s"] = Node(fc, e->getSubExpr());
      return o;
    }
    if (auto* e = dyn_cast<AbstractConditionalOperator>(s)) {
      o["k"] = "cond";
      o["c"] = Node(fc, e->getCond());
      o["l"] = Node(fc, e->getTrueExpr());
      o["r"] = Node(fc, e->getFalseExpr());
      return o;
    }
    if (auto* e = dyn_cast<ArraySubscriptExpr>(s)) {
      o["k"] = "sub";
      o["b"] = Node(fc, e->getBase());
      o["i"] = Node(fc, e->getIdx());
      return o;
    }
    if (auto* e = dyn_cast<CastExpr>(s)) {
      o["k"] = "icast";
      o["s"] = Node(fc, e->getSubExpr());
      o["ck"] = e->getCastKindName();
      QualType t = e->getType();
      if (t->isIntegerType()) {
        o["w"] = (int64_t)ctx.getTypeSize(t);
        o["sg"] = t->isSignedIntegerOrEnumerationType() ? 1 : 0;
        QualType f = e->getSubExpr()->getType();
        if (f->isIntegerType()) {
          o["fw"] = (int64_t)ctx.getTypeSize(f);
          o["fsg"] = f->isSignedIntegerOrEnumerationType() ? 1 : 0;
        }
      }
      if (isa<ExplicitCastExpr>(e)) o["ex"] = 1;
      return o;
    }
    if (auto* e = dyn_cast<LambdaExpr>(s)) {
      o["k"] = "lambda";
      o["fn"] = FuncId(e->getCallOperator());
      json::Array caps;
      for (auto& c : e->captures()) {
        json::Object co;
        if (c.capturesThis()) {
          co["this"] = 1;
        } else if (c.capturesVariable()) {
          co["d"] = VarId(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
        }
        co["ref"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This ? 1 : 0;
        caps.push_back(std::move(co));
      }
      int ci = 0;
      for (auto it = e->capture_init_begin(); it != e->capture_init_end(); ++it, ++ci) {
        if (*it) (*caps[ci].getAsObject())["init"] = Node(fc, *it);
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto* e = dyn_cast<CXXNewExpr>(s)) {
      o["k"] = "new";
      o["ct"] = TypeStr(e->getAllocatedType());
      if (e->getInitializer()) o["i"] = Node(fc, e->getInitializer());
      if (e->isArray()) o["arr"] = 1;
      if (e->isArray() && e->getArraySize() && *e->getArraySize()) o["as"] = Node(fc, *e->getArraySize());
      if (e->getNumPlacementArgs() > 0) o["pl"] = 1;
      return o;
    }
    if (auto* e = dyn_cast<CXXDeleteExpr>(s)) {
      o["k"] = "delete";
      o["s"] = Node(fc, e->getArgument());
      o["dt"] = TypeStr(e->getDestroyedType());
      if (e->isArrayForm()) o["arr"] = 1;
      return o;
    }
    if (auto* e = dyn_cast<InitListExpr>(s)) {
      o["k"] = "init";
      json::Array a;
      for (unsigned i = 0; i < e->getNumInits(); i++) a.push_back(Node(fc, e->getInit(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) {
      o["k"] = "init";
      json::Array a;
      a.push_back(Node(fc, e->getSubExpr()));
      o["a"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      o["k"] = "lit";
      return o;
    }
    if (auto* e = dyn_cast<CXXThrowExpr>(s)) {
      o["k"] = "throw";
      if (e->getSubExpr()) o["s"] = Node(fc, e->getSubExpr());
      return o;
    }
    if (auto* e = dyn_cast<OpaqueValueExpr>(s)) {
      if (e->getSourceExpr()) {
        o["k"] = "id";
        o["s"] = Node(fc, e->getSourceExpr());
        return o;
      }
    }
    if (auto* e = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      json::Array a;
      for (auto* d : e->decls()) {
        if (auto* v = dyn_cast<VarDecl>(d)) {
          json::Object vo;
          vo["d"] = VarId(v);
          vo["n"] = v->getNameAsString();
          vo["ty"] = TypeStr(v->getType());
          if (v->getType()->isReferenceType()) vo["ref"] = 1;
          if (v->isStaticLocal()) vo["static"] = 1;
          if (v->getInit()) vo["i"] = Node(fc, v->getInit());
          if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            for (auto* b : dd->bindings()) bs.push_back(VarId(b));
            vo["bind"] = std::move(bs);
          }
          a.push_back(std::move(vo));
        }
      }
      o["v"] = std::move(a);
      return o;
    }
    if (auto* e = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "ret";
      if (e->getRetValue()) o["s"] = Node(fc, e->getRetValue());
      return o;
    }
    o["k"] = "other";
    o["cls"] = s->getStmtClassName();
    json::Array a;
    if (isa<Expr>(s)) {
      for (auto* c : s->children()) if (c) a.push_back(Node(fc, c));
    }
    o["a"] = std::move(a);
    return o;
  }

  void DumpClass(const CXXRecordDecl* rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentType()) return;
    SourceLocation loc = rd->getLocation();
    if (auto* pattern = rd->getTemplateInstantiationPattern()) loc = pattern->getLocation();
    if (FileOf(loc).empty()) return;
    if (!done_classes.insert(rd).second) return;
    json::Object o;
    o["t"] = "class";
    o["name"] = CName(rd);
    o["qn"] = QName(rd);
    o["file"] = FileOf(loc);
    o["line"] = (int64_t)LineOf(loc);
    json::Array bases;
    for (auto& b : rd->bases()) {
      if (auto* br = b.getType()->getAsCXXRecordDecl()) bases.push_back(CName(br));
    }
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto* f : rd->fields()) {
      json::Object fo;
      fo["n"] = f->getNameAsString();
      fo["ty"] = TypeStr(f->getType());
      fo["line"] = (int64_t)LineOf(f->getLocation());
      if (f->isBitField()) fo["bits"] = 1;
      if (f->hasInClassInitializer()) fo["init"] = 1;
      fields.push_back(std::move(fo));
    }
    o["fields"] = std::move(fields);
    json::Array methods;
    for (auto* d : rd->decls()) {
      const CXXMethodDecl* m = dyn_cast<CXXMethodDecl>(d);
      if (!m || m->isImplicit()) continue;
      json::Object mo;
      mo["n"] = m->getNameAsString();
      mo["id"] = FuncId(m);
      mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      if (m->isVirtual()) mo["virt"] = 1;
      if (m->isPureVirtual()) mo["pure"] = 1;
      if (m->isStatic()) mo["stat"] = 1;
      if (m->isConst()) mo["cst"] = 1;
      if (m->isDeleted()) mo["del"] = 1;
      mo["ret"] = TypeStr(m->getReturnType());
      json::Array ov;
      for (auto* om : m->overridden_methods()) ov.push_back(FuncId(om));
      mo["ov"] = std::move(ov);
      json::Array ps;
      for (auto* p : m->parameters()) {
        json::Object po;
        po["n"] = p->getNameAsString();
        po["ty"] = TypeStr(p->getType());
        ps.push_back(std::move(po));
      }
      mo["ps"] = std::move(ps);
      methods.push_back(std::move(mo));
    }
    o["methods"] = std::move(methods);
    Emit(std::move(o));
  }

  void DumpEnum(const EnumDecl* ed) {
    if (!ed->isThisDeclarationADefinition() || ed->isDependentType()) return;
    if (FileOf(ed->getLocation()).empty()) return;
    json::Object o;
    o["t"] = "enum";
    o["name"] = QName(ed);
    o["file"] = FileOf(ed->getLocation());
    o["line"] = (int64_t)LineOf(ed->getLocation());
    json::Array a;
    for (auto* c : ed->enumerators()) {
      json::Object e;
      e["n"] = c->getNameAsString();
      e["qn"] = QName(c);
      e["v"] = ExtV(c->getInitVal());
      a.push_back(std::move(e));
    }
    o["vals"] = std::move(a);
    Emit(std::move(o));
  }

  void DumpGlobal(const VarDecl* v) {
    if (v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return;
    if (!v->hasGlobalStorage() || v->isStaticLocal()) return;
    if (FileOf(v->getLocation()).empty()) return;
    json::Object o;
    o["t"] = "gvar";
    o["name"] = QName(v);
    o["d"] = VarId(v);
    o["ty"] = TypeStr(v->getType());
    o["file"] = FileOf(v->getLocation());
    o["line"] = (int64_t)LineOf(v->getLocation());
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    const VarDecl* def = nullptr;
    const Expr* init = v->getAnyInitializer(def);
    if (init && !init->isValueDependent() && v->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (init->EvaluateAsInt(r, ctx)) o["cv"] = ExtV(r.Val.getInt());
    } else if (init) {
      FCtx fc;
      int n = Node(fc, init);
      (void)n;
      json::Array ns;
      for (auto& x : fc.nodes) ns.push_back(std::move(x));
      if (ns.size() < 3000) {
        o["nodes"] = std::move(ns);
      }
    }
    Emit(std::move(o));
  }

  void Emit(json::Object o) {
    *g_out << json::Value(std::move(o)) << "\n";
  }

  void DumpFunc(const FunctionDecl* fd, const std::string& parent) {
    if (!fd->doesThisDeclarationHaveABody() || fd->isDependentContext()) return;
    if (fd->isDeleted()) return;
    std::string file = FileOf(fd->getLocation());
    if (file.empty()) return;
    if (fd->isDefaulted() && !isa<CXXDestructorDecl>(fd) && !isa<CXXConstructorDecl>(fd)) return;
    std::string fid = FuncId(fd);
    if (!done_funcs.insert(fid).second) return;
    CFG::BuildOptions bo;
    bo.PruneTriviallyFalseEdges = false;
    bo.AddImplicitDtors = true;
    bo.AddTemporaryDtors = true;
    bo.AddInitializers = true;
    bo.AddCXXDefaultInitExprInCtors = true;
    bo.AddEHEdges = false;
    bo.setAllAlwaysAdd();
    std::unique_ptr<CFG> cfg = CFG::buildCFG(fd, fd->getBody(), &ctx, bo);
    json::Object o;
    o["t"] = "func";
    o["id"] = fid;
    o["qn"] = QName(fd);
    o["n"] = fd->getNameAsString();
    o["file"] = file;
    o["line"] = (int64_t)LineOf(fd->getLocation());
    o["end"] = (int64_t)LineOf(fd->getEndLoc());
    o["ret"] = TypeStr(fd->getReturnType());
    if (fd->isExternC()) o["ec"] = 1;
    if (fd->getTemplatedKind() != FunctionDecl::TK_NonTemplate) o["tmpl"] = 1;
    if (!parent.empty()) o["parent"] = parent;
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = CName(md->getParent());
      if (md->isVirtual()) o["virt"] = 1;
      if (md->isStatic()) o["stat"] = 1;
      if (md->isConst()) o["cst"] = 1;
      o["acc"] = md->getAccess() == AS_public ? "public" : md->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov;
      for (auto* om : md->overridden_methods()) ov.push_back(FuncId(om));
      if (!ov.empty()) o["ov"] = std::move(ov);
      if (md->getParent()->isLambda()) o["kind"] = "lambda";
      else if (isa<CXXConstructorDecl>(md)) o["kind"] = "ctor";
      else if (isa<CXXDestructorDecl>(md)) o["kind"] = "dtor";
      else o["kind"] = "method";
    } else {
      o["kind"] = "func";
    }
    json::Array ps;
    for (auto* p : fd->parameters()) {
      json::Object po;
      po["d"] = VarId(p);
      po["n"] = p->getNameAsString();
      po["ty"] = TypeStr(p->getType());
      ps.push_back(std::move(po));
    }
    o["ps"] = std::move(ps);
    FCtx fc;
    fc.fd = fd;
    // try statements
    {
      json::Array tries;
      CollectTries(fd->getBody(), tries);
      if (!tries.empty()) o["tries"] = std::move(tries);
    }
    if (cfg) {
      json::Array blocks;
      for (const CFGBlock* b : *cfg) {
        json::Object bo2;
        bo2["id"] = (int64_t)b->getBlockID();
        json::Array el;
        for (const CFGElement& e : *b) {
          switch (e.getKind()) {
            case CFGElement::Statement:
            case CFGElement::Constructor:
            case CFGElement::CXXRecordTypedCall: {
              const Stmt* st = e.castAs<CFGStmt>().getStmt();
              const Stmt* core = Strip(st);
              if (core != st) {
                // A transparent wrapper: the core was or will be listed on its own; make sure it
                // is evaluated here if it is not listed.
                Node(fc, st);
                el.push_back(json::Array{"w", Node(fc, core)});
                break;
              }
              el.push_back(json::Array{"s", Node(fc, st)});
              break;
            }
            case CFGElement::Initializer: {
              const CXXCtorInitializer* ci = e.castAs<CFGInitializer>().getInitializer();
              json::Object io;
              if (ci->isAnyMemberInitializer()) {
                io["f"] = ci->getAnyMember()->getNameAsString();
              } else if (ci->isDelegatingInitializer()) {
                io["deleg"] = 1;
              } else {
                io["base"] = TypeStr(QualType(ci->getBaseClass(), 0));
              }
              io["i"] = Node(fc, ci->getInit());
              el.push_back(json::Array{"i", std::move(io)});
              break;
            }
            case CFGElement::AutomaticObjectDtor: {
              auto d = e.castAs<CFGAutomaticObjDtor>();
              el.push_back(json::Array{"d", VarId(d.getVarDecl()), TypeStr(d.getVarDecl()->getType()),
                                       (int64_t)LineOf(d.getTriggerStmt() ? d.getTriggerStmt()->getEndLoc() : d.getVarDecl()->getLocation())});
              break;
            }
            case CFGElement::TemporaryDtor: {
              auto d = e.castAs<CFGTemporaryDtor>();
              el.push_back(json::Array{"t", Node(fc, d.getBindTemporaryExpr())});
              break;
            }
            case CFGElement::DeleteDtor: break;
            case CFGElement::MemberDtor: {
              auto d = e.castAs<CFGMemberDtor>();
              el.push_back(json::Array{"m", d.getFieldDecl()->getNameAsString(), TypeStr(d.getFieldDecl()->getType())});
              break;
            }
            case CFGElement::BaseDtor: {
              auto d = e.castAs<CFGBaseDtor>();
              el.push_back(json::Array{"b", TypeStr(d.getBaseSpecifier()->getType())});
              break;
            }
            default:
              break;
          }
        }
        bo2["e"] = std::move(el);
        json::Array su;
        for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
          const CFGBlock* t = it->getReachableBlock();
          if (!t) t = it->getPossiblyUnreachableBlock();
          su.push_back(t ? (int64_t)t->getBlockID() : (int64_t)-1);
        }
        bo2["s"] = std::move(su);
        CFGTerminator term = b->getTerminator();
        if (const Stmt* ts = term.getStmt()) {
          json::Object to;
          to["k"] = ts->getStmtClassName();
          to["ln"] = (int64_t)LineOf(ts->getBeginLoc());
          if (term.isTemporaryDtorsBranch()) to["td"] = 1;
          if (const Stmt* c = b->getTerminatorCondition(false)) {
            if (isa<CXXForRangeStmt>(ts)) {
              c = cast<CXXForRangeStmt>(ts)->getCond();
            }
            to["c"] = Node(fc, c);
          }
          if (auto* fr = dyn_cast<CXXForRangeStmt>(ts)) {
            to["lv"] = VarId(fr->getLoopVariable());
            to["ri"] = Node(fc, fr->getRangeInit());
          }
          if (isa<BinaryOperator>(ts) || isa<AbstractConditionalOperator>(ts)) {
            to["e"] = Node(fc, ts);
          }
          bo2["t"] = std::move(to);
        }
        if (const Stmt* lb = b->getLabel()) {
          json::Object lo;
          lo["k"] = lb->getStmtClassName();
          if (auto* cs = dyn_cast<CaseStmt>(lb)) {
            json::Array vs;
            Expr::EvalResult r;
            const CaseStmt* cc = cs;
            if (!cc->getLHS()->isValueDependent() && cc->getLHS()->EvaluateAsInt(r, ctx))
              vs.push_back(ExtV(r.Val.getInt()));
            lo["v"] = std::move(vs);
          }
          bo2["l"] = std::move(lo);
        }
        if (b->getLoopTarget()) bo2["lt"] = 1;
        blocks.push_back(std::move(bo2));
      }
      o["entry"] = (int64_t)cfg->getEntry().getBlockID();
      o["exit"] = (int64_t)cfg->getExit().getBlockID();
      o["blocks"] = std::move(blocks);
    } else {
      o["nocfg"] = 1;
    }
    json::Array ns;
    for (auto& x : fc.nodes) ns.push_back(std::move(x));
    o["x"] = std::move(ns);
    Emit(std::move(o));
  }

  void CollectTries(const Stmt* s, json::Array& out) {
    if (!s) return;
    if (auto* t = dyn_cast<CXXTryStmt>(s)) {
      json::Object o;
      o["b"] = (int64_t)LineOf(t->getTryBlock()->getBeginLoc());
      o["e"] = (int64_t)LineOf(t->getTryBlock()->getEndLoc());
      json::Array hs;
      for (unsigned i = 0; i < t->getNumHandlers(); i++) {
        QualType ht = t->getHandler(i)->getCaughtType();
        hs.push_back(ht.isNull() ? std::string("...") : TypeStr(ht));
      }
      o["h"] = std::move(hs);
      out.push_back(std::move(o));
    }
    if (isa<LambdaExpr>(s)) return;
    for (auto* c : s->children()) CollectTries(c, out);
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  explicit Visitor(Dumper& d) : d_(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool TraverseFunctionDecl(FunctionDecl* f) { return Wrap(f, [&] { return RecursiveASTVisitor<Visitor>::TraverseFunctionDecl(f); }); }
  bool TraverseCXXMethodDecl(CXXMethodDecl* f) { return Wrap(f, [&] { return RecursiveASTVisitor<Visitor>::TraverseCXXMethodDecl(f); }); }
  bool TraverseCXXConstructorDecl(CXXConstructorDecl* f) { return Wrap(f, [&] { return RecursiveASTVisitor<Visitor>::TraverseCXXConstructorDecl(f); }); }
  bool TraverseCXXDestructorDecl(CXXDestructorDecl* f) { return Wrap(f, [&] { return RecursiveASTVisitor<Visitor>::TraverseCXXDestructorDecl(f); }); }
  bool TraverseCXXConversionDecl(CXXConversionDecl* f) { return Wrap(f, [&] { return RecursiveASTVisitor<Visitor>::TraverseCXXConversionDecl(f); }); }
  template <typename F>
  bool Wrap(FunctionDecl* f, F fn) {
    stack_.push_back(f);
    bool rv = fn();
    stack_.pop_back();
    return rv;
  }
  bool VisitFunctionDecl(FunctionDecl* f) {
    // stack_.back() is f itself
    std::string parent;
    for (int i = (int)stack_.size() - 1; i >= 0; i--) {
      if (stack_[i] != f) { parent = d_.FuncId(stack_[i]); break; }
    }
    d_.DumpFunc(f, parent);
    return true;
  }
  bool VisitLambdaExpr(LambdaExpr* e) {
    std::string parent = stack_.empty() ? "" : d_.FuncId(stack_.back());
    if (lamseen_.insert(e->getCallOperator()).second) {
      d_.DumpFunc(e->getCallOperator(), parent);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    d_.DumpClass(r);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* e) { d_.DumpEnum(e); return true; }
  bool VisitVarDecl(VarDecl* v) {
    if (!v->isLocalVarDeclOrParm()) d_.DumpGlobal(v);
    return true;
  }
 private:
  Dumper& d_;
  std::vector<FunctionDecl*> stack_;
  std::set<const FunctionDecl*> lamseen_;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext& ctx) override {
    if (ctx.getDiagnostics().hasErrorOccurred()) return;
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    SourceManager& sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      std::string f = it->first.getName().str();
      if (f.compare(0, g_root.size(), g_root) == 0) g_deps.insert(f.substr(g_root.size()));
    }
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

int main(int argc, char** argv) {
  // extract ROOT/ FILE OUT -- flags...
  if (argc < 5) return 2;
  g_root = argv[1];
  std::string file = argv[2], out = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  std::error_code ec;
  llvm::raw_fd_ostream os(out, ec);
  if (ec) return 2;
  g_out = &os;
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rv = tool.run(tooling::newFrontendActionFactory<Action>().get());
  json::Array deps;
  for (auto& d : g_deps) deps.push_back(d);
  json::Object o;
  o["t"] = "deps";
  o["d"] = std::move(deps);
  os << json::Value(std::move(o)) << "\n";
  os.close();
  return rv;
}
