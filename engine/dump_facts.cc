// dump_facts: a libTooling program that turns one translation unit (with all the template instantiations
// it causes) into a JSON fact base: for every function with a body that lives in the analysed source roots,
// its clang::CFG with every expression in evaluation order, resolved callees, resolved fields, types, locks' types,
// try/catch nesting, implicit destructors, constructor initializers; plus the record layouts.
//
// usage: dump_facts OUT.json ROOT[:ROOT...] FILE.cc -- <clang args>

#include <map>
#include <set>
#include <string>
#include <vector>
#include <cstdio>
#include <unordered_map>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;

static std::string g_out;
static std::vector<std::string> g_roots;
static std::vector<std::string> g_excl;

namespace {

struct Dumper : RecursiveASTVisitor<Dumper> {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  json::OStream& J;

  std::map<const Decl*, int> fnids, declids, recids;
  std::map<std::string, int> typeids;
  std::vector<QualType> types;
  std::vector<std::string> typeStrs;
  std::vector<const FunctionDecl*> queue;
  std::set<const FunctionDecl*> queued;
  std::set<const CXXRecordDecl*> recs;
  std::vector<const CXXRecordDecl*> recqueue;

  Dumper(ASTContext& c, json::OStream& j) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), J(j) {
    PP.SuppressTagKeyword = true;
    PP.SuppressInlineNamespace = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.Bool = true;
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  template <typename M>
  static int idOf(M& m, const Decl* d) {
    auto it = m.find(d);
    if (it != m.end()) return it->second;
    int id = (int)m.size() + 1;
    m[d] = id;
    return id;
  }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    if (f.empty()) return "";
    if (const auto* fe = SM.getFileEntryForID(SM.getFileID(L))) {
      auto rp = fe->tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return f.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  bool inRoots(const std::string& f) {
    for (auto& e : g_excl)
      if (f.find(e) != std::string::npos) return false;
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }

  std::string qname(const Decl* d) {
    std::vector<std::string> parts;
    const NamedDecl* nd = dyn_cast<NamedDecl>(d);
    if (!nd) return "?";
    std::string n;
    if (auto* cd = dyn_cast<CXXConstructorDecl>(nd)) {
      n = cd->getParent()->getName().str();
    } else if (auto* dd = dyn_cast<CXXDestructorDecl>(nd)) {
      n = "~" + dd->getParent()->getName().str();
    } else if (isa<CXXConversionDecl>(nd)) {
      n = "operator-conv";
    } else {
      n = nd->getNameAsString();
    }
    if (auto* rd = dyn_cast<CXXRecordDecl>(nd)) {
      if (rd->isLambda()) n = "(lambda)";
    }
    parts.push_back(n);
    const DeclContext* dc = d->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
        if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getName().str());
      } else if (auto* rd = dyn_cast<CXXRecordDecl>(dc)) {
        parts.push_back(rd->isLambda() ? "(lambda)" : rd->getName().str());
      } else if (auto* fd = dyn_cast<FunctionDecl>(dc)) {
        std::string fn;
        if (isa<CXXConstructorDecl>(fd)) fn = cast<CXXConstructorDecl>(fd)->getParent()->getName().str();
        else if (isa<CXXDestructorDecl>(fd)) fn = "~" + cast<CXXDestructorDecl>(fd)->getParent()->getName().str();
        else fn = fd->getNameAsString();
        parts.push_back(fn);
      }
      dc = dc->getParent();
    }
    std::string s;
    for (size_t i = parts.size(); i-- > 0;) {
      s += parts[i];
      if (i) s += "::";
    }
    return s;
  }

  int typeId(QualType q) {
    if (q.isNull()) return 0;
    q = q.getCanonicalType();
    std::string s = q.getAsString(PP);
    auto it = typeids.find(s);
    if (it != typeids.end()) return it->second;
    types.push_back(q);
    typeStrs.push_back(s);
    int id = (int)types.size();
    typeids[s] = id;
    return id;
  }

  int recId(const CXXRecordDecl* rd) {
    if (!rd) return 0;
    rd = rd->getCanonicalDecl();
    int id = idOf(recids, rd);
    if (recs.insert(rd).second) recqueue.push_back(rd);
    return id;
  }

  int fnId(const FunctionDecl* fd) {
    if (!fd) return 0;
    fd = fd->getCanonicalDecl();
    int id = idOf(fnids, fd);
    return id;
  }

  bool VisitFunctionDecl(FunctionDecl* fd) {
    enqueue(fd);
    return true;
  }
  void enqueue(const FunctionDecl* fd) {
    if (fd->isDependentContext()) return;
    const FunctionDecl* def = nullptr;
    if (!fd->hasBody(def) || !def) return;
    if (def->isDependentContext()) return;
    if (def->isConstexpr() && false) return;
    if (!inRoots(fileOf(def->getLocation()))) return;
    if (queued.insert(def->getCanonicalDecl()).second) queue.push_back(def);
  }

  // ---- per-function state
  std::map<const Stmt*, int> eids;
  std::vector<const Stmt*> epending;
  std::map<const Stmt*, std::vector<int>> tryStack;  // Stmt -> try ids (outermost first)
  std::map<const CXXTryStmt*, int> tryIds;

  void walkTry(const Stmt* s, std::vector<int>& st) {
    if (!s) return;
    tryStack[s] = st;
    if (auto* t = dyn_cast<CXXTryStmt>(s)) {
      int id = (int)tryIds.size() + 1;
      tryIds[t] = id;
      st.push_back(id);
      walkTry(t->getTryBlock(), st);
      st.pop_back();
      for (unsigned i = 0; i < t->getNumHandlers(); ++i) walkTry(t->getHandler(i), st);
      return;
    }
    if (auto* le = dyn_cast<LambdaExpr>(s)) {
      for (auto* i : le->capture_inits()) walkTry(i, st);
      return;
    }
    for (const Stmt* c : s->children()) walkTry(c, st);
    if (auto* di = dyn_cast<CXXDefaultInitExpr>(s)) walkTry(di->getExpr(), st);
  }

  static const Expr* strip(const Expr* e) {
    while (e) {
      if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
      else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
      else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
      else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_NoOp:
          case CK_DerivedToBase:
          case CK_UncheckedDerivedToBase:
          case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
            e = x->getSubExpr();
            continue;
          default:
            return e;
        }
      } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_NoOp:
          case CK_ConstructorConversion:
          case CK_UserDefinedConversion:
            e = x->getSubExpr();
            continue;
          default:
            return e;
        }
      } else return e;
    }
    return e;
  }

  int eid(const Stmt* s) {
    if (!s) return 0;
    if (auto* e = dyn_cast<Expr>(s)) s = strip(e);
    if (!s) return 0;
    auto it = eids.find(s);
    if (it != eids.end()) return it->second;
    int id = (int)eids.size() + 1;
    eids[s] = id;
    epending.push_back(s);
    return id;
  }

  int declId(const Decl* d) { return idOf(declids, d->getCanonicalDecl()); }

  void emitCallArgs(ArrayRef<const Expr*> args, unsigned from) {
    J.attributeArray("a", [&] {
      for (unsigned i = from; i < args.size(); ++i) J.value(eid(args[i]));
    });
  }
  static bool noThrow(const FunctionDecl* fd) {
    if (!fd) return false;
    auto* pt = fd->getType()->getAs<FunctionProtoType>();
    if (!pt) return false;
    if (isUnresolvedExceptionSpec(pt->getExceptionSpecType())) return false;
    return pt->isNothrow();
  }

  void callee(const FunctionDecl* fd) {
    J.attribute("f", fnId(fd));
    J.attribute("q", qname(fd));
    if (noThrow(fd)) J.attribute("nt", 1);
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isConst()) J.attribute("cm", 1);
      if (md->isStatic()) J.attribute("sm", 1);
      J.attribute("rc", recId(md->getParent()));
    }
    // which parameters are non-const references/pointers (so that the callee can write through them)
    J.attributeArray("pk", [&] {
      for (auto* p : fd->parameters()) {
        QualType t = p->getType();
        int k = 0;
        if (t->isReferenceType()) k = t->getPointeeType().isConstQualified() ? 1 : (t->isRValueReferenceType() ? 3 : 2);
        else if (t->isPointerType()) k = t->getPointeeType().isConstQualified() ? 4 : 5;
        J.value(k);
      }
    });
    enqueue(fd);
    if (auto* tfd = fd->getTemplateInstantiationPattern()) (void)tfd;
    if (fd->isTemplateInstantiation() || true) {
      J.attribute("df", fileOf(fd->getLocation()));
    }
    if (auto* ta = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      printTemplateArgumentList(os, ta->asArray(), PP);
      os.flush();
      J.attribute("ta", s);
    }
  }

  void emitExpr(const Stmt* s) {
    J.objectBegin();
    J.attribute("i", eids[s]);
    J.attribute("l", (int)lineOf(s->getBeginLoc()));
    {
      auto f = fileOf(s->getBeginLoc());
      if (f != curFile) J.attribute("fl", f);
    }
    auto ts = tryStack.find(s);
    if (ts != tryStack.end() && !ts->second.empty()) {
      J.attributeArray("t", [&] { for (int t : ts->second) J.value(t); });
    }
    if (auto* e = dyn_cast<Expr>(s)) {
      J.attribute("ty", typeId(e->getType()));
      if (e->isGLValue()) J.attribute("lv", 1);
    }
    emitExprBody(s);
    J.objectEnd();
  }
  std::string curFile;

  const APValue* constValue(const VarDecl* vd) {
    const VarDecl* d = nullptr;
    const Expr* in = vd->getAnyInitializer(d);
    if (!in || !d || in->isValueDependent() || in->isTypeDependent() || !d->getType()->isIntegralOrEnumerationType())
      return nullptr;
    return d->evaluateValue();
  }
  void emitExprBody(const Stmt* s) {
    if (isa<CXXThisExpr>(s)) { J.attribute("k", "this"); return; }
    if (auto* x = dyn_cast<DeclRefExpr>(s)) {
      auto* d = x->getDecl();
      if (auto* fd = dyn_cast<FunctionDecl>(d)) {
        J.attribute("k", "fn");
        callee(fd);
        return;
      }
      if (auto* ec = dyn_cast<EnumConstantDecl>(d)) {
        J.attribute("k", "enum");
        J.attribute("q", qname(ec));
        J.attribute("v", toString(ec->getInitVal(), 10));
        return;
      }
      J.attribute("k", "ref");
      J.attribute("d", declId(d));
      J.attribute("n", d->getNameAsString());
      if (auto* vd = dyn_cast<VarDecl>(d)) {
        if (isa<ParmVarDecl>(vd)) J.attribute("dk", "parm");
        else if (vd->hasGlobalStorage()) {
          J.attribute("dk", "static");
          J.attribute("q", qname(vd));
          if (vd->getType().isConstQualified() || vd->isConstexpr()) {
            if (const APValue* v = constValue(vd)) {
              if (v->isInt()) J.attribute("v", toString(v->getInt(), 10));
            }
          }
        } else {
          J.attribute("dk", "var");
          if (vd->isConstexpr()) {
            if (const APValue* v = constValue(vd)) {
              if (v->isInt()) J.attribute("v", toString(v->getInt(), 10));
            }
          }
        }
        J.attribute("dt", typeId(vd->getType()));
        if (x->refersToEnclosingVariableOrCapture()) J.attribute("cap", 1);
      } else if (auto* bd = dyn_cast<BindingDecl>(d)) {
        J.attribute("dk", "bind");
        if (bd->getBinding()) J.attribute("e", eid(bd->getBinding()));
      } else J.attribute("dk", "other");
      return;
    }
    if (auto* x = dyn_cast<MemberExpr>(s)) {
      auto* d = x->getMemberDecl();
      if (isa<CXXMethodDecl>(d)) {
        J.attribute("k", "method");
        J.attribute("b", eid(x->getBase()));
        callee(cast<FunctionDecl>(d));
        return;
      }
      if (auto* vd = dyn_cast<VarDecl>(d)) {
        J.attribute("k", "ref");
        J.attribute("d", declId(vd));
        J.attribute("n", vd->getNameAsString());
        J.attribute("dk", "static");
        J.attribute("q", qname(vd));
        J.attribute("dt", typeId(vd->getType()));
        return;
      }
      J.attribute("k", "mem");
      J.attribute("b", eid(x->getBase()));
      J.attribute("n", d->getNameAsString());
      if (auto* rd = dyn_cast<CXXRecordDecl>(d->getDeclContext())) { J.attribute("rc", recId(rd)); }
      if (x->isArrow()) J.attribute("ar", 1);
      if (d->getType()->isReferenceType()) J.attribute("rf", 1);
      return;
    }
    if (auto* x = dyn_cast<CallExpr>(s)) {
      const FunctionDecl* fd = x->getDirectCallee();
      if (fd && x->getNumArgs() == 0 && fd->isConstexpr() && isa<CXXMethodDecl>(fd) && cast<CXXMethodDecl>(fd)->isStatic() &&
          qname(fd).rfind("std::numeric_limits", 0) == 0 && fd->getReturnType()->isIntegralOrEnumerationType()) {
        Expr::EvalResult r;
        if (x->EvaluateAsInt(r, C)) {
          J.attribute("k", "lit");
          J.attribute("v", toString(r.Val.getInt(), 10));
          return;
        }
      }
      J.attribute("k", "call");
      ArrayRef<const Expr*> args(const_cast<CallExpr*>(x)->getArgs(), x->getNumArgs());
      if (auto* mc = dyn_cast<CXXMemberCallExpr>(x)) {
        J.attribute("o", eid(mc->getImplicitObjectArgument()));
        if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
          if (me->isArrow()) J.attribute("ar", 1);
          if (auto* md = mc->getMethodDecl())
            if (md->isVirtual() && !me->hasQualifier()) J.attribute("virt", 1);
        }
        if (fd) callee(fd);
        emitCallArgs(args, 0);
        return;
      }
      if (auto* oc = dyn_cast<CXXOperatorCallExpr>(x)) {
        J.attribute("op", getOperatorSpelling(oc->getOperator()));
        if (fd) callee(fd);
        if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
          J.attribute("o", eid(args[0]));
          emitCallArgs(args, 1);
        } else emitCallArgs(args, 0);
        return;
      }
      if (fd) callee(fd);
      else J.attribute("ce", eid(x->getCallee()));
      emitCallArgs(args, 0);
      return;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
      J.attribute("k", "ctor");
      callee(x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) J.attribute("cp", 1);
      ArrayRef<const Expr*> args(const_cast<CXXConstructExpr*>(x)->getArgs(), x->getNumArgs());
      emitCallArgs(args, 0);
      return;
    }
    if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
      J.attribute("k", "ctor");
      callee(x->getConstructor());
      J.attribute("inh", 1);
      J.attributeArray("a", [] {});
      return;
    }
    if (auto* x = dyn_cast<BinaryOperator>(s)) {
      if (x->isAssignmentOp()) {
        J.attribute("k", "asg");
      } else J.attribute("k", "bin");
      J.attribute("op", x->getOpcodeStr());
      J.attribute("x", eid(x->getLHS()));
      J.attribute("y", eid(x->getRHS()));
      return;
    }
    if (auto* x = dyn_cast<UnaryOperator>(s)) {
      J.attribute("k", "un");
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) op = "post" + op;
      J.attribute("op", op);
      J.attribute("e", eid(x->getSubExpr()));
      return;
    }
    if (auto* x = dyn_cast<AbstractConditionalOperator>(s)) {
      J.attribute("k", "cond");
      J.attribute("c", eid(x->getCond()));
      J.attribute("x", eid(x->getTrueExpr()));
      J.attribute("y", eid(x->getFalseExpr()));
      return;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(s)) {
      J.attribute("k", "idx");
      J.attribute("b", eid(x->getBase()));
      J.attribute("x", eid(x->getIdx()));
      return;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(s)) {
      J.attribute("k", "lit");
      J.attribute("v", toString(x->getValue(), 10, x->getType()->isSignedIntegerType()));
      return;
    }
    if (auto* x = dyn_cast<CharacterLiteral>(s)) {
      J.attribute("k", "lit");
      J.attribute("v", std::to_string(x->getValue()));
      return;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) {
      J.attribute("k", "lit");
      J.attribute("v", x->getValue() ? "1" : "0");
      return;
    }
    if (auto* x = dyn_cast<StringLiteral>(s)) {
      J.attribute("k", "str");
      if (x->getCharByteWidth() == 1) {
        std::string v = x->getString().str();
        J.attribute("v", json::fixUTF8(v));
      }
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s)) { J.attribute("k", "null"); return; }
    if (isa<FloatingLiteral>(s)) { J.attribute("k", "flit"); return; }
    if (auto* x = dyn_cast<CXXNewExpr>(s)) {
      J.attribute("k", "new");
      J.attribute("e", eid(x->getInitializer()));
      J.attribute("at", typeId(x->getAllocatedType()));
      J.attributeArray("a", [&] { for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) J.value(eid(x->getPlacementArg(i))); });
      return;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(s)) {
      J.attribute("k", "del");
      J.attribute("e", eid(x->getArgument()));
      QualType t = x->getDestroyedType();
      if (!t.isNull()) if (auto* rd = t->getAsCXXRecordDecl()) {
        J.attribute("rc", recId(rd));
        if (rd->hasDefinition() && rd->getDestructor()) { J.attribute("f", fnId(rd->getDestructor())); enqueue(rd->getDestructor()); }
      }
      return;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(s)) {
      J.attribute("k", "throw");
      if (x->getSubExpr()) {
        J.attribute("e", eid(x->getSubExpr()));
        J.attribute("tt", typeId(x->getSubExpr()->getType().getNonReferenceType().getUnqualifiedType()));
        if (auto* rd = x->getSubExpr()->getType()->getAsCXXRecordDecl()) J.attribute("rc", recId(rd));
      }
      return;
    }
    if (auto* x = dyn_cast<LambdaExpr>(s)) {
      J.attribute("k", "lambda");
      J.attribute("rc", recId(x->getLambdaClass()));
      if (auto* op = x->getCallOperator()) {
        if (!x->isGenericLambda()) {
          J.attribute("f", fnId(op));
          enqueue(op);
        } else if (auto* ft = op->getDescribedFunctionTemplate()) {
          J.attributeArray("fs", [&] {
            for (auto* sp : ft->specializations()) { J.value(fnId(sp)); enqueue(sp); }
          });
        }
      }
      J.attributeArray("cp", [&] {
        auto ii = x->capture_init_begin();
        for (auto& c : x->captures()) {
          J.objectBegin();
          if (c.capturesThis()) {
            J.attribute("this", 1);
            if (c.getCaptureKind() == LCK_StarThis) J.attribute("copy", 1);
          } else if (c.capturesVariable()) {
            J.attribute("d", declId(c.getCapturedVar()));
            J.attribute("n", c.getCapturedVar()->getNameAsString());
            if (c.getCaptureKind() == LCK_ByRef) J.attribute("ref", 1);
            if (ii != x->capture_init_end() && *ii) J.attribute("e", eid(*ii));
          }
          J.objectEnd();
          ++ii;
        }
      });
      return;
    }
    if (auto* x = dyn_cast<InitListExpr>(s)) {
      J.attribute("k", "ilist");
      J.attributeArray("a", [&] { for (unsigned i = 0; i < x->getNumInits(); ++i) J.value(eid(x->getInit(i))); });
      return;
    }
    if (auto* x = dyn_cast<CastExpr>(s)) {
      J.attribute("k", x->getCastKind() == CK_LValueToRValue ? "load" : "cast");
      J.attribute("ck", x->getCastKindName());
      if (isa<ExplicitCastExpr>(x)) J.attribute("ex", 1);
      if (isa<CXXDynamicCastExpr>(x)) J.attribute("dyn", 1);
      J.attribute("e", eid(x->getSubExpr()));
      J.attribute("ft", typeId(x->getSubExpr()->getType()));
      return;
    }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      J.attribute("k", "decl");
      J.attributeArray("v", [&] {
        for (auto* d : x->decls()) {
          if (auto* vd = dyn_cast<VarDecl>(d)) {
            J.objectBegin();
            J.attribute("d", declId(vd));
            J.attribute("n", vd->getNameAsString());
            J.attribute("ty", typeId(vd->getType()));
            if (vd->getType()->isReferenceType()) J.attribute("ref", 1);
            if (vd->isStaticLocal()) J.attribute("static", 1);
            if (vd->getInit()) J.attribute("e", eid(vd->getInit()));
            if (auto* dd = dyn_cast<DecompositionDecl>(vd)) { J.attribute("dec", 1); (void)dd; }
            if (auto* rd = vd->getType()->getAsCXXRecordDecl()) {
              if (rd->hasDefinition() && !rd->hasTrivialDestructor()) {
                if (auto* dt = rd->getDestructor()) { J.attribute("dt", fnId(dt)); enqueue(dt); }
                J.attribute("rc", recId(rd));
              }
            }
            J.objectEnd();
          }
        }
      });
      return;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) {
      J.attribute("k", "ret");
      if (x->getRetValue()) J.attribute("e", eid(x->getRetValue()));
      return;
    }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
      J.attribute("k", "sizeof");
      Expr::EvalResult r;
      if (x->EvaluateAsInt(r, C)) J.attribute("v", toString(r.Val.getInt(), 10));
      return;
    }
    if (auto* x = dyn_cast<CXXScalarValueInitExpr>(s)) { (void)x; J.attribute("k", "lit"); J.attribute("v", "0"); return; }
    if (auto* x = dyn_cast<ImplicitValueInitExpr>(s)) { (void)x; J.attribute("k", "lit"); J.attribute("v", "0"); return; }
    if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(s)) { (void)x; }
    J.attribute("k", "other");
    J.attribute("c", s->getStmtClassName());
    if (auto* e = dyn_cast<Expr>(s)) {
      Expr::EvalResult r;
      if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C))
        J.attribute("v", toString(r.Val.getInt(), 10));
    }
    J.attributeArray("a", [&] {
      for (const Stmt* c : s->children()) if (c && isa<Expr>(c)) J.value(eid(c));
    });
  }

  void dumpFn(const FunctionDecl* fd) {
    eids.clear();
    epending.clear();
    tryStack.clear();
    tryIds.clear();
    curFile = fileOf(fd->getLocation());
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.AddImplicitDtors = true;
    BO.AddTemporaryDtors = true;
    BO.AddCXXDefaultInitExprInCtors = true;
    BO.AddCXXDefaultInitExprInAggregates = true;
    BO.PruneTriviallyFalseEdges = true;
    BO.AddStaticInitBranches = false;
    BO.AddCXXNewAllocator = false;
    Stmt* body = fd->getBody();
    std::vector<int> st;
    walkTry(body, st);
    if (auto* cd = dyn_cast<CXXConstructorDecl>(fd))
      for (auto* in : cd->inits()) if (in->getInit()) walkTry(in->getInit(), st);
    auto cfg = CFG::buildCFG(fd, body, &C, BO);
    if (!cfg) { fprintf(stderr, "no CFG: %s\n", qname(fd).c_str()); return; }
    J.objectBegin();
    J.attribute("id", fnId(fd));
    J.attribute("q", qname(fd));
    J.attribute("file", curFile);
    J.attribute("line", (int)lineOf(fd->getLocation()));
    J.attribute("endline", (int)lineOf(fd->getEndLoc()));
    J.attribute("rty", typeId(fd->getReturnType()));
    if (auto* ta = fd->getTemplateSpecializationArgs()) {
      std::string s;
      llvm::raw_string_ostream os(s);
      printTemplateArgumentList(os, ta->asArray(), PP);
      os.flush();
      J.attribute("ta", s);
    }
    J.attributeArray("params", [&] {
      for (auto* p : fd->parameters()) {
        J.objectBegin();
        J.attribute("d", declId(p));
        J.attribute("n", p->getNameAsString());
        J.attribute("ty", typeId(p->getType()));
        if (p->getType()->isReferenceType()) J.attribute("ref", 1);
        J.objectEnd();
      }
    });
    if (noThrow(fd)) J.attribute("nt", 1);
    if (auto* md = dyn_cast<CXXMethodDecl>(fd)) {
      J.attribute("rc", recId(md->getParent()));
      if (md->isStatic()) J.attribute("static", 1);
      if (md->isConst()) J.attribute("const", 1);
      if (md->isVirtual()) {
        J.attribute("virt", 1);
        J.attributeArray("over", [&] { for (auto* o : md->overridden_methods()) J.value(fnId(o)); });
      }
      J.attribute("acc", (int)md->getAccess());
      J.attribute("mk", isa<CXXConstructorDecl>(md) ? "ctor" : isa<CXXDestructorDecl>(md) ? "dtor" : md->getOverloadedOperator() != OO_None ? "op" : "m");
      if (isa<CXXConstructorDecl>(md)) {
        auto* cd = cast<CXXConstructorDecl>(md);
        if (cd->isCopyConstructor()) J.attribute("ck", "copy");
        else if (cd->isMoveConstructor()) J.attribute("ck", "move");
      }
      if (md->isDefaulted()) J.attribute("dflt", 1);
      if (md->isImplicit()) J.attribute("impl", 1);
    }
    auto tyOfStmt = [&](const Stmt* s) { (void)s; };
    (void)tyOfStmt;
    J.attribute("entry", (int)cfg->getEntry().getBlockID());
    J.attribute("exit", (int)cfg->getExit().getBlockID());
    J.attributeArray("blocks", [&] {
      for (auto* b : *cfg) {
        J.objectBegin();
        J.attribute("b", (int)b->getBlockID());
        if (b->hasNoReturnElement()) J.attribute("noret", 1);
        if (auto* lab = b->getLabel()) {
          if (auto* cs = dyn_cast<CXXCatchStmt>(lab)) {
            J.attributeObject("catch", [&] {
              if (auto* vd = cs->getExceptionDecl()) {
                J.attribute("d", declId(vd));
                J.attribute("ty", typeId(vd->getType().getNonReferenceType().getUnqualifiedType()));
                if (auto* rd = vd->getType().getNonReferenceType()->getAsCXXRecordDecl()) J.attribute("rc", recId(rd));
              } else J.attribute("all", 1);
              J.attribute("l", (int)lineOf(cs->getBeginLoc()));
              auto ts = tryStack.find(cs);
              J.attributeArray("t", [&] { if (ts != tryStack.end()) for (int t : ts->second) J.value(t); });
            });
          } else if (auto* cc = dyn_cast<CaseStmt>(lab)) {
            Expr::EvalResult r;
            if (cc->getLHS()->EvaluateAsInt(r, C)) J.attribute("case", toString(r.Val.getInt(), 10));
          } else if (isa<DefaultStmt>(lab)) {
            J.attribute("default", 1);
          }
        }
        J.attributeArray("e", [&] {
          for (auto& el : *b) {
            switch (el.getKind()) {
              case CFGElement::Statement:
              case CFGElement::Constructor:
              case CFGElement::CXXRecordTypedCall: {
                const Stmt* s = el.castAs<CFGStmt>().getStmt();
                if (auto* e = dyn_cast<Expr>(s)) {
                  if (strip(e) != s) break;  // transparent wrapper
                }
                J.value(eid(s));
                break;
              }
              case CFGElement::Initializer: {
                auto* in = el.castAs<CFGInitializer>().getInitializer();
                J.objectBegin();
                J.attribute("k", "init");
                if (in->isAnyMemberInitializer()) {
                  J.attribute("n", in->getAnyMember()->getNameAsString());
                  if (in->getAnyMember()->getType()->isReferenceType()) J.attribute("rf", 1);
                } else if (in->isBaseInitializer()) J.attribute("base", typeId(QualType(in->getBaseClass(), 0)));
                else J.attribute("deleg", 1);
                if (in->isWritten()) J.attribute("wr", 1);
                J.attribute("e", eid(in->getInit()));
                J.attribute("l", (int)lineOf(in->getSourceLocation()));
                J.objectEnd();
                break;
              }
              case CFGElement::AutomaticObjectDtor: {
                auto ad = el.castAs<CFGAutomaticObjDtor>();
                J.objectBegin();
                J.attribute("k", "adtor");
                J.attribute("d", declId(ad.getVarDecl()));
                J.attribute("n", ad.getVarDecl()->getNameAsString());
                if (auto* dd = ad.getDestructorDecl(C)) { J.attribute("f", fnId(dd)); J.attribute("q", qname(dd)); enqueue(dd); J.attribute("rc", recId(dd->getParent())); }
                J.attribute("l", ad.getTriggerStmt() ? (int)lineOf(ad.getTriggerStmt()->getEndLoc()) : 0);
                J.objectEnd();
                break;
              }
              case CFGElement::TemporaryDtor: {
                auto td = el.castAs<CFGTemporaryDtor>();
                J.objectBegin();
                J.attribute("k", "tdtor");
                J.attribute("e", eid(td.getBindTemporaryExpr()->getSubExpr()));
                if (auto* dd = td.getDestructorDecl(C)) { J.attribute("f", fnId(dd)); J.attribute("q", qname(dd)); enqueue(dd); J.attribute("rc", recId(dd->getParent())); }
                J.attribute("l", (int)lineOf(td.getBindTemporaryExpr()->getEndLoc()));
                J.objectEnd();
                break;
              }
              case CFGElement::MemberDtor: {
                auto md = el.castAs<CFGMemberDtor>();
                J.objectBegin();
                J.attribute("k", "mdtor");
                J.attribute("n", md.getFieldDecl()->getNameAsString());
                if (auto* dd = md.getDestructorDecl(C)) { J.attribute("f", fnId(dd)); J.attribute("q", qname(dd)); enqueue(dd); J.attribute("rc", recId(dd->getParent())); }
                J.attribute("l", (int)lineOf(fd->getLocation()));
                J.objectEnd();
                break;
              }
              case CFGElement::BaseDtor: {
                auto bd = el.castAs<CFGBaseDtor>();
                J.objectBegin();
                J.attribute("k", "bdtor");
                auto* brd = bd.getBaseSpecifier()->getType()->getAsCXXRecordDecl();
                if (auto* dd = brd ? brd->getDestructor() : nullptr) { J.attribute("f", fnId(dd)); J.attribute("q", qname(dd)); enqueue(dd); J.attribute("rc", recId(dd->getParent())); }
                J.attribute("l", (int)lineOf(fd->getLocation()));
                J.objectEnd();
                break;
              }
              default:
                break;
            }
          }
        });
        if (auto* t = b->getTerminatorStmt()) {
          J.attributeObject("term", [&] {
            J.attribute("c", t->getStmtClassName());
            J.attribute("l", (int)lineOf(t->getBeginLoc()));
            if (b->getTerminator().isTemporaryDtorsBranch()) J.attribute("tdb", 1);
            if (auto* te = dyn_cast<CXXTryStmt>(t)) { J.attribute("try", tryIds.count(te) ? tryIds[te] : 0); }
            if (auto* e = dyn_cast<Expr>(t)) {
              J.attribute("s", eid(e));
              if (auto* bo = dyn_cast<BinaryOperator>(e)) J.attribute("op", bo->getOpcodeStr());
              if (auto* co = dyn_cast<AbstractConditionalOperator>(e)) { (void)co; J.attribute("op", "?:"); }
            }
            if (const Expr* lc = b->getLastCondition()) J.attribute("cond", eid(lc));
            else if (const Stmt* tc = b->getTerminatorCondition(true)) J.attribute("cond", eid(tc));
          });
        }
        J.attributeArray("s", [&] {
          for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
            const CFGBlock* r = it->getReachableBlock();
            if (r) J.value((int)r->getBlockID());
            else if (it->getPossiblyUnreachableBlock()) J.value(-(int)it->getPossiblyUnreachableBlock()->getBlockID() - 1);
            else J.value(nullptr);
          }
        });
        J.objectEnd();
      }
    });
    J.attributeArray("tries", [&] {
      // try blocks: id -> handler block ids
      for (auto* b : *cfg) {
        auto* t = b->getTerminatorStmt();
        if (!t) continue;
        if (auto* te = dyn_cast<CXXTryStmt>(t)) {
          J.objectBegin();
          J.attribute("id", tryIds.count(te) ? tryIds[te] : 0);
          J.attributeArray("h", [&] {
            for (auto it = b->succ_begin(); it != b->succ_end(); ++it) {
              const CFGBlock* r = it->getReachableBlock();
              if (!r) r = it->getPossiblyUnreachableBlock();
              if (r && r->getLabel() && isa<CXXCatchStmt>(r->getLabel())) J.value((int)r->getBlockID());
            }
          });
          J.objectEnd();
        }
      }
    });
    J.attributeArray("x", [&] {
      for (size_t i = 0; i < epending.size(); ++i) emitExpr(epending[i]);
    });
    J.objectEnd();
  }

  void dumpRec(const CXXRecordDecl* rd) {
    J.objectBegin();
    J.attribute("id", idOf(recids, rd));
    J.attribute("q", qname(rd));
    {
      std::string s;
      llvm::raw_string_ostream os(s);
      rd->getNameForDiagnostic(os, PP, true);
      os.flush();
      J.attribute("full", s);
    }
    J.attribute("file", fileOf(rd->getLocation()));
    J.attribute("line", (int)lineOf(rd->getLocation()));
    if (rd->isLambda()) J.attribute("lambda", 1);
    if (auto* def = rd->getDefinition()) {
      bool mine = inRoots(fileOf(def->getLocation()));
      J.attributeArray("bases", [&] {
        for (auto& b : def->bases()) {
          if (auto* br = b.getType()->getAsCXXRecordDecl()) J.value(recId(br));
        }
      });
      if (mine) {
        J.attributeArray("fields", [&] {
          for (auto* f : def->fields()) {
            J.objectBegin();
            J.attribute("n", f->getNameAsString());
            J.attribute("ty", typeId(f->getType()));
            J.attribute("l", (int)lineOf(f->getLocation()));
            if (f->isMutable()) J.attribute("mut", 1);
            if (f->hasInClassInitializer()) J.attribute("ici", 1);
            if (auto* et = f->getType()->getAs<EnumType>()) {
              if (auto* ed = et->getDecl()->getDefinition()) {
                J.attributeArray("enum", [&] {
                  for (auto* ec : ed->enumerators()) {
                    J.arrayBegin();
                    J.value(ec->getNameAsString());
                    J.value((int64_t)ec->getInitVal().getLimitedValue());
                    J.arrayEnd();
                  }
                });
              }
            }
            if (auto* fr = f->getType().getNonReferenceType()->getAsCXXRecordDecl()) J.attribute("rc", recId(fr));
            J.objectEnd();
          }
        });
        J.attributeArray("methods", [&] {
          for (auto* m : def->methods()) {
            J.objectBegin();
            J.attribute("f", fnId(m));
            J.attribute("n", m->getNameAsString());
            J.attribute("acc", (int)m->getAccess());
            if (m->isConst()) J.attribute("const", 1);
            if (m->isDeleted()) J.attribute("del", 1);
            if (m->isStatic()) J.attribute("static", 1);
            if (m->isVirtual()) J.attribute("virt", 1);
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) {
              if (cd->isCopyConstructor()) J.attribute("ck", "copy");
              if (cd->isMoveConstructor()) J.attribute("ck", "move");
            }
            if (m->isCopyAssignmentOperator()) J.attribute("ck", "copyasg");
            if (m->isMoveAssignmentOperator()) J.attribute("ck", "moveasg");
            J.objectEnd();
          }
        });
      }
    }
    J.objectEnd();
  }

  void dumpType(size_t i) {
    QualType q = types[i];
    J.objectBegin();
    J.attribute("i", (int)i + 1);
    J.attribute("s", typeStrs[i]);
    QualType t = q;
    if (t->isReferenceType()) { J.attribute("ref", t->isRValueReferenceType() ? 2 : 1); t = t->getPointeeType(); }
    if (t.isConstQualified()) J.attribute("const", 1);
    if (t->isPointerType()) {
      J.attribute("ptr", 1);
      QualType p = t->getPointeeType();
      if (p.isConstQualified()) J.attribute("pconst", 1);
      if (auto* rd = p->getAsCXXRecordDecl()) J.attribute("prc", recId(rd));
      J.attribute("pt", typeId(p));
    }
    if (auto* rd = t->getAsCXXRecordDecl()) J.attribute("rc", recId(rd));
    if (t->isEnumeralType()) J.attribute("enum", 1);
    if (t->isIntegralOrEnumerationType() && !t->isDependentType() && !t->isIncompleteType()) {
      J.attribute("w", (int)C.getTypeSize(t));
      if (t->isSignedIntegerOrEnumerationType()) J.attribute("sg", 1);
      if (t->isBooleanType()) J.attribute("bool", 1);
      if (t->isAnyCharacterType()) J.attribute("chr", 1);
    }
    if (t->isFloatingType()) J.attribute("flt", 1);
    J.objectEnd();
  }

  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    J.objectBegin();
    J.attributeArray("fns", [&] {
      for (size_t i = 0; i < queue.size(); ++i) { dumpFn(queue[i]); }
    });
    // The record and the type table can grow each other: emitted in chunks until a fixpoint.
    size_t ri = 0, ti = 0;
    J.attributeArray("chunks", [&] {
      while (ri < recqueue.size() || ti < types.size()) {
        J.objectBegin();
        J.attributeArray("recs", [&] { for (; ri < recqueue.size(); ++ri) dumpRec(recqueue[ri]); });
        J.attributeArray("types", [&] { for (; ti < types.size(); ++ti) dumpType(ti); });
        J.objectEnd();
      }
    });
    J.attributeArray("files", [&] {
      std::set<std::string> fs;
      for (auto* f : queue) fs.insert(fileOf(f->getLocation()));
      for (auto& f : fs) J.value(f);
    });
    J.objectEnd();
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& ci) : CI(ci) {}
  void HandleTranslationUnit(ASTContext& C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    json::OStream J(os);
    Dumper d(C, J);
    d.run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
    return std::make_unique<Consumer>(CI);
  }
};

}  // namespace

static std::vector<std::string> splitc(const std::string& s) {
  std::vector<std::string> r;
  size_t p = 0;
  while (p <= s.size()) {
    size_t q = s.find(':', p);
    if (q == std::string::npos) q = s.size();
    if (q > p) r.push_back(s.substr(p, q - p));
    p = q + 1;
  }
  return r;
}

int main(int argc, const char** argv) {
  // dump_facts OUT ROOTS EXCL FILE -- args
  if (argc < 6) { fprintf(stderr, "usage\n"); return 2; }
  g_out = argv[1];
  g_roots = splitc(argv[2]);
  g_excl = splitc(argv[3]);
  std::string file = argv[4];
  std::vector<std::string> args;
  for (int i = 6; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } f;
  return tool.run(&f);
}
