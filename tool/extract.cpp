// Extracts the type-checked program (every function body, class and static variable defined below a source root,
// template instantiations included) from one translation unit into JSON.  Nothing is executed: this is a plain
// libTooling consumer on top of clang's semantic analysis.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <vector>
using namespace clang;
using llvm::json::OStream;

static std::string gRoot, gOut;

namespace {
struct Extractor {
    ASTContext&                            ctx;
    SourceManager&                         sm;
    PrintingPolicy                         pp;
    std::map<const Decl*, int>             ids;
    std::map<const Type*, std::map<unsigned, int>> typeIds;
    std::vector<QualType>                  types;
    std::map<const CXXRecordDecl*, int>    recIds;
    std::vector<const CXXRecordDecl*>      recs;
    std::map<std::string, int>             fileIds;
    std::vector<std::string>               files;

    Extractor(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()) {
        pp.SuppressTagKeyword = true; pp.FullyQualifiedName = true; pp.Bool = true;
    }
    int id(const Decl* d) {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size(); ids[d] = n; return n;
    }
    int rec(const CXXRecordDecl* r) {
        if (!r) return -1;
        r = r->getCanonicalDecl();
        auto it = recIds.find(r);
        if (it != recIds.end()) return it->second;
        int n = (int)recs.size(); recIds[r] = n; recs.push_back(r); return n;
    }
    int type(QualType q) {
        if (q.isNull()) return -1;
        q = q.getCanonicalType();
        auto& m = typeIds[q.getTypePtr()];
        unsigned cv = q.getCVRQualifiers();
        auto it = m.find(cv);
        if (it != m.end()) return it->second;
        int n = (int)types.size(); m[cv] = n; types.push_back(q); return n;
    }
    std::string fileOf(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        if (l.isInvalid()) return "";
        auto f = sm.getFilename(l);
        return f.str();
    }
    int fileId(SourceLocation l) {
        std::string f = fileOf(l);
        auto it = fileIds.find(f);
        if (it != fileIds.end()) return it->second;
        int n = (int)files.size(); fileIds[f] = n; files.push_back(f); return n;
    }
    unsigned line(SourceLocation l) { l = sm.getExpansionLoc(l); return l.isInvalid() ? 0 : sm.getExpansionLineNumber(l); }
    unsigned col(SourceLocation l) { l = sm.getExpansionLoc(l); return l.isInvalid() ? 0 : sm.getExpansionColumnNumber(l); }
    bool inRoot(SourceLocation l) {
        if (l.isValid() && sm.isInMainFile(sm.getExpansionLoc(l))) return true;
        std::string f = fileOf(l);
        return f.rfind(gRoot, 0) == 0;
    }
    std::string qname(const NamedDecl* d) {
        std::string s; llvm::raw_string_ostream os(s);
        // qualified name without template arguments
        std::vector<std::string> parts;
        const DeclContext* dc = d->getDeclContext();
        parts.push_back(d->getNameAsString());
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline() && !ns->isAnonymousNamespace()) parts.push_back(ns->getNameAsString()); }
            else if (auto* nd = dyn_cast<NamedDecl>(dc)) { if (!isa<FunctionDecl>(dc)) parts.push_back(nd->getNameAsString()); else parts.push_back(nd->getNameAsString()); }
            dc = dc->getParent();
        }
        for (size_t i = parts.size(); i-- > 0;) { os << parts[i]; if (i) os << "::"; }
        return os.str();
    }
    std::string tstr(QualType q) { return q.getCanonicalType().getAsString(pp); }

    // ---- expressions ---------------------------------------------------------------------------
    void loc(OStream& J, SourceLocation l) { J.attribute("l", (int64_t)line(l)); }

    void fnref(OStream& J, const FunctionDecl* f) {
        if (!f) return;
        J.attribute("f", (int64_t)id(f));
        J.attribute("q", qname(f));
        if (auto* args = f->getTemplateSpecializationArgs()) {
            std::string s; llvm::raw_string_ostream os(s);
            bool first = true;
            for (auto& a : args->asArray()) { if (!first) os << ", "; first = false; a.print(pp, os, true); }
            J.attribute("ta", os.str());
        }
    }
    bool constVal(OStream& J, const Expr* e) {
        if (e->isValueDependent() || e->isTypeDependent()) return false;
        QualType t = e->getType();
        if (t.isNull() || !(t->isArithmeticType() || t->isEnumeralType())) return false;
        if (e->isGLValue()) {
            // constant variables only
            if (auto* dr = dyn_cast<DeclRefExpr>(e)) { if (auto* v = dyn_cast<VarDecl>(dr->getDecl())) { if (!v->isConstexpr()) return false; } else return false; }
            else return false;
        }
        Expr::EvalResult r;
        if (!e->EvaluateAsRValue(r, ctx) || r.HasSideEffects) return false;
        if (r.Val.isInt()) {
            llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
            J.attribute("v", std::string(s.str())); return true;
        }
        if (r.Val.isFloat()) {
            llvm::SmallString<32> s; r.Val.getFloat().toString(s);
            J.attribute("v", std::string(s.str())); return true;
        }
        return false;
    }
    void child(OStream& J, const Stmt* s) { if (s) stmt(J, s); else J.value(nullptr); }
    void children(OStream& J, const Stmt* s) {
        J.attributeArray("c", [&] { for (const Stmt* c : s->children()) child(J, c); });
    }
    void varDecl(OStream& J, const VarDecl* v) {
        J.object([&] {
            J.attribute("d", (int64_t)id(v));
            J.attribute("n", v->getNameAsString());
            J.attribute("t", (int64_t)type(v->getType()));
            J.attribute("l", (int64_t)line(v->getLocation()));
            if (v->isStaticLocal()) J.attribute("static", true);
            if (v->getTSCSpec() != TSCS_unspecified) J.attribute("tls", true);
            if (v->isConstexpr()) J.attribute("constexpr", true);
            if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
                J.attributeArray("bindings", [&] {
                    for (auto* b : dd->bindings()) J.object([&] {
                        J.attribute("d", (int64_t)id(b)); J.attribute("n", b->getNameAsString());
                        J.attribute("t", (int64_t)type(b->getType()));
                        if (auto* hv = b->getHoldingVar()) { J.attribute("hd", (int64_t)id(hv)); if (hv->getInit()) { J.attributeBegin("hi"); stmt(J, hv->getInit()); J.attributeEnd(); } }
                        else if (b->getBinding()) { J.attributeBegin("b"); stmt(J, b->getBinding()); J.attributeEnd(); }
                    });
                });
            }
            if (v->getInit()) {
                J.attribute("is", v->getInitStyle() == VarDecl::CInit ? "c" : v->getInitStyle() == VarDecl::CallInit ? "call" : "list");
                J.attributeBegin("i"); stmt(J, v->getInit()); J.attributeEnd();
            }
        });
    }
    void stmt(OStream& J, const Stmt* s) {
        if (!s) { J.value(nullptr); return; }
        // transparent wrappers
        if (auto* e = dyn_cast<ParenExpr>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<ExprWithCleanups>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(J, e->getReplacement());
        if (auto* e = dyn_cast<ConstantExpr>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) return stmt(J, e->getExpr());
        if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) return stmt(J, e->getExpr());
        if (auto* e = dyn_cast<CXXStdInitializerListExpr>(s)) return stmt(J, e->getSubExpr());
        if (auto* e = dyn_cast<AttributedStmt>(s)) return stmt(J, e->getSubStmt());
        if (auto* e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return stmt(J, e->getSemanticForm());

        J.object([&] {
            J.attribute("k", s->getStmtClassName());
            loc(J, s->getBeginLoc());
            if (auto* e = dyn_cast<Expr>(s)) {
                J.attribute("t", (int64_t)type(e->getType()));
                if (e->isLValue()) J.attribute("lv", true);
                constVal(J, e);
            }
            if (auto* e = dyn_cast<DeclRefExpr>(s)) {
                const ValueDecl* d = e->getDecl();
                J.attribute("d", (int64_t)id(d)); J.attribute("n", d->getNameAsString());
                J.attribute("dk", d->getDeclKindName());
                if (auto* f = dyn_cast<FunctionDecl>(d)) fnref(J, f);
                else if (auto* v = dyn_cast<VarDecl>(d)) { if (v->hasGlobalStorage() && !v->isStaticLocal()) J.attribute("q", qname(v)); }
                return;
            }
            if (auto* e = dyn_cast<MemberExpr>(s)) {
                const ValueDecl* d = e->getMemberDecl();
                J.attribute("m", d->getNameAsString()); J.attribute("d", (int64_t)id(d));
                if (e->isArrow()) J.attribute("arrow", true);
                if (auto* f = dyn_cast<FunctionDecl>(d)) fnref(J, f);
                if (auto* r = dyn_cast<CXXRecordDecl>(d->getDeclContext())) J.attribute("r", (int64_t)rec(r));
                children(J, s); return;
            }
            if (auto* e = dyn_cast<CallExpr>(s)) {
                if (auto* f = e->getDirectCallee()) fnref(J, f);
                if (auto* oc = dyn_cast<CXXOperatorCallExpr>(s)) J.attribute("op", getOperatorSpelling(oc->getOperator()));
                if (auto* mc = dyn_cast<CXXMemberCallExpr>(s)) {
                    if (auto* o = mc->getImplicitObjectArgument()) { J.attributeBegin("o"); stmt(J, o); J.attributeEnd(); }
                    if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) { if (me->isArrow()) J.attribute("arrow", true); if (me->hasQualifier()) J.attribute("qualified", true); }
                    if (auto* md = mc->getMethodDecl()) if (md->isVirtual()) J.attribute("virt", true);
                } else if (!isa<CXXOperatorCallExpr>(s)) { J.attributeBegin("ce"); stmt(J, e->getCallee()); J.attributeEnd(); }
                J.attributeArray("a", [&] { for (auto* a : e->arguments()) child(J, a); });
                return;
            }
            if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
                auto* c = e->getConstructor();
                fnref(J, c);
                J.attribute("r", (int64_t)rec(c->getParent()));
                if (c->isCopyConstructor()) J.attribute("copy", true);
                if (c->isMoveConstructor()) J.attribute("move", true);
                if (c->isDefaultConstructor()) J.attribute("def", true);
                if (e->isListInitialization()) J.attribute("list", true);
                if (e->isStdInitListInitialization()) J.attribute("il", true);
                J.attributeArray("a", [&] { for (auto* a : e->arguments()) child(J, a); });
                return;
            }
            if (auto* e = dyn_cast<CXXInheritedCtorInitExpr>(s)) { fnref(J, e->getConstructor()); return; }
            if (auto* e = dyn_cast<CastExpr>(s)) {
                J.attribute("ck", e->getCastKindName());
                if (isa<ExplicitCastExpr>(s)) J.attribute("expl", true);
                if (auto* ic = dyn_cast<ImplicitCastExpr>(s)) if (ic->isPartOfExplicitCast()) J.attribute("poe", true);
                children(J, s); return;
            }
            if (auto* e = dyn_cast<UnaryOperator>(s)) { J.attribute("op", UnaryOperator::getOpcodeStr(e->getOpcode()).str()); if (e->isPostfix()) J.attribute("post", true); children(J, s); return; }
            if (auto* e = dyn_cast<BinaryOperator>(s)) { J.attribute("op", e->getOpcodeStr().str()); children(J, s); return; }
            if (auto* e = dyn_cast<IntegerLiteral>(s)) { (void)e; return; }
            if (auto* e = dyn_cast<StringLiteral>(s)) { if (e->getCharByteWidth() == 1) J.attribute("s", llvm::json::fixUTF8(e->getString())); return; }
            if (auto* e = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { (void)e; return; }
            if (auto* e = dyn_cast<LambdaExpr>(s)) {
                auto* op = e->getCallOperator();
                J.attribute("f", (int64_t)id(op)); J.attribute("r", (int64_t)rec(e->getLambdaClass()));
                J.attribute("generic", e->isGenericLambda());
                J.attributeArray("cap", [&] {
                    auto ii = e->capture_init_begin();
                    for (auto& c : e->captures()) {
                        J.object([&] {
                            if (c.capturesThis()) J.attribute("this", true);
                            if (c.capturesVariable()) { J.attribute("d", (int64_t)id(c.getCapturedVar())); J.attribute("n", c.getCapturedVar()->getNameAsString()); if (cast<ValueDecl>(c.getCapturedVar())->isInitCapture()) J.attribute("ic", true); }
                            J.attribute("ref", c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This);
                            if (*ii) { J.attributeBegin("i"); stmt(J, *ii); J.attributeEnd(); }
                        });
                        ++ii;
                    }
                });
                return;
            }
            if (auto* e = dyn_cast<InitListExpr>(s)) {
                const InitListExpr* sem = e->isSemanticForm() ? e : (e->getSemanticForm() ? e->getSemanticForm() : e);
                J.attributeArray("c", [&] { for (unsigned i = 0; i < sem->getNumInits(); ++i) child(J, sem->getInit(i)); });
                return;
            }
            if (auto* e = dyn_cast<CXXNewExpr>(s)) { (void)e; children(J, s); return; }
            if (auto* e = dyn_cast<DeclStmt>(s)) {
                J.attributeArray("vars", [&] { for (auto* d : e->decls()) if (auto* v = dyn_cast<VarDecl>(d)) varDecl(J, v); });
                return;
            }
            if (auto* e = dyn_cast<IfStmt>(s)) {
                if (e->isConstexpr()) J.attribute("constexpr", true);
                if (e->getInit()) { J.attributeBegin("init"); stmt(J, e->getInit()); J.attributeEnd(); }
                if (e->getConditionVariableDeclStmt()) { J.attributeBegin("cv"); stmt(J, e->getConditionVariableDeclStmt()); J.attributeEnd(); }
                J.attributeBegin("cond"); stmt(J, e->getCond()); J.attributeEnd();
                J.attributeBegin("then"); stmt(J, e->getThen()); J.attributeEnd();
                J.attributeBegin("else"); stmt(J, e->getElse()); J.attributeEnd();
                return;
            }
            if (auto* e = dyn_cast<ForStmt>(s)) {
                J.attributeBegin("init"); stmt(J, e->getInit()); J.attributeEnd();
                J.attributeBegin("cond"); stmt(J, e->getCond()); J.attributeEnd();
                J.attributeBegin("inc"); stmt(J, e->getInc()); J.attributeEnd();
                J.attributeBegin("body"); stmt(J, e->getBody()); J.attributeEnd();
                return;
            }
            if (auto* e = dyn_cast<WhileStmt>(s)) {
                if (e->getConditionVariableDeclStmt()) { J.attributeBegin("cv"); stmt(J, e->getConditionVariableDeclStmt()); J.attributeEnd(); }
                J.attributeBegin("cond"); stmt(J, e->getCond()); J.attributeEnd();
                J.attributeBegin("body"); stmt(J, e->getBody()); J.attributeEnd(); return;
            }
            if (auto* e = dyn_cast<DoStmt>(s)) {
                J.attributeBegin("cond"); stmt(J, e->getCond()); J.attributeEnd();
                J.attributeBegin("body"); stmt(J, e->getBody()); J.attributeEnd(); return;
            }
            if (auto* e = dyn_cast<CXXForRangeStmt>(s)) {
                J.attributeBegin("range"); stmt(J, e->getRangeInit()); J.attributeEnd();
                J.attributeBegin("var"); varDecl(J, e->getLoopVariable()); J.attributeEnd();
                J.attributeBegin("body"); stmt(J, e->getBody()); J.attributeEnd(); return;
            }
            if (auto* e = dyn_cast<OMPExecutableDirective>(s)) {
                J.attributeArray("clauses", [&] {
                    for (auto* c : e->clauses()) J.object([&] {
                        J.attribute("ck", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str());
                        auto vars = [&](auto* cl) { J.attributeArray("vars", [&] { for (auto* ve : cl->varlists()) if (auto* dr = dyn_cast<DeclRefExpr>(ve->IgnoreParenImpCasts())) J.value((int64_t)id(dr->getDecl())); }); };
                        if (auto* p = dyn_cast<OMPPrivateClause>(c)) vars(p);
                        if (auto* p = dyn_cast<OMPFirstprivateClause>(c)) vars(p);
                        if (auto* p = dyn_cast<OMPReductionClause>(c)) vars(p);
                        if (auto* p = dyn_cast<OMPLastprivateClause>(c)) vars(p);
                    });
                });
                J.attributeBegin("body");
                if (e->hasAssociatedStmt() && e->getAssociatedStmt()) {
                    const Stmt* a = e->getAssociatedStmt();
                    while (auto* cs = dyn_cast_or_null<CapturedStmt>(a)) a = cs->getCapturedStmt();
                    stmt(J, a);
                } else J.value(nullptr);
                J.attributeEnd();
                return;
            }
            if (auto* e = dyn_cast<CXXCatchStmt>(s)) { if (e->getExceptionDecl()) { J.attributeBegin("var"); varDecl(J, e->getExceptionDecl()); J.attributeEnd(); } J.attributeBegin("body"); stmt(J, e->getHandlerBlock()); J.attributeEnd(); return; }
            if (auto* e = dyn_cast<CaseStmt>(s)) { J.attributeBegin("lhs"); stmt(J, e->getLHS()); J.attributeEnd(); J.attributeBegin("body"); stmt(J, e->getSubStmt()); J.attributeEnd(); return; }
            children(J, s);
        });
    }
    // ---- functions -----------------------------------------------------------------------------
    void function(OStream& J, const FunctionDecl* f) {
        J.object([&] {
            J.attribute("id", (int64_t)id(f));
            J.attribute("name", f->getNameAsString());
            J.attribute("q", qname(f));
            J.attribute("file", (int64_t)fileId(f->getLocation()));
            J.attribute("line", (int64_t)line(f->getLocation()));
            J.attribute("endline", (int64_t)line(f->getEndLoc()));
            J.attribute("ret", (int64_t)type(f->getReturnType()));
            if (auto* args = f->getTemplateSpecializationArgs()) {
                std::string s; llvm::raw_string_ostream os(s); bool first = true;
                for (auto& a : args->asArray()) { if (!first) os << ", "; first = false; a.print(pp, os, true); }
                J.attribute("ta", os.str());
            }
            J.attributeArray("params", [&] {
                for (auto* p : f->parameters()) J.object([&] { J.attribute("d", (int64_t)id(p)); J.attribute("n", p->getNameAsString()); J.attribute("t", (int64_t)type(p->getType())); });
            });
            if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
                J.attribute("rec", (int64_t)rec(m->getParent()));
                J.attribute("const", m->isConst()); J.attribute("static", m->isStatic());
                J.attribute("access", (int64_t)m->getAccess()); J.attribute("virtual", m->isVirtual());
                if (m->isCopyAssignmentOperator()) J.attribute("special", "copy=");
                if (m->isMoveAssignmentOperator()) J.attribute("special", "move=");
                if (m->getParent()->isLambda()) J.attribute("lambda", true);
                J.attributeArray("overrides", [&] { for (auto* o : m->overridden_methods()) J.value((int64_t)id(o)); });
            }
            if (f->isDefaulted()) J.attribute("defaulted", true);
            if (f->isDeleted()) J.attribute("deleted", true);
            if (f->isImplicit()) J.attribute("implicit", true);
            if (f->isPureVirtual()) J.attribute("pure", true);
            if (auto* pat = f->getTemplateInstantiationPattern()) { J.attribute("pat", (int64_t)id(pat)); J.attribute("pline", (int64_t)line(pat->getLocation())); }
            if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                J.attribute("ctor", true);
                if (c->isCopyConstructor()) J.attribute("special", "copy");
                else if (c->isMoveConstructor()) J.attribute("special", "move");
                else if (c->isDefaultConstructor()) J.attribute("special", "default");
                J.attributeArray("inits", [&] {
                    for (auto* i : c->inits()) J.object([&] {
                        if (i->isAnyMemberInitializer()) { J.attribute("field", i->getAnyMember()->getNameAsString()); J.attribute("d", (int64_t)id(i->getAnyMember())); }
                        else if (i->isBaseInitializer()) J.attribute("base", tstr(QualType(i->getBaseClass(), 0)));
                        else if (i->isDelegatingInitializer()) J.attribute("deleg", true);
                        J.attribute("written", i->isWritten());
                        J.attribute("l", (int64_t)line(i->getSourceLocation()));
                        J.attributeBegin("e"); stmt(J, i->getInit()); J.attributeEnd();
                    });
                });
            }
            if (isa<CXXDestructorDecl>(f)) J.attribute("dtor", true);
            if (f->doesThisDeclarationHaveABody() && !f->isDeleted()) { J.attributeBegin("body"); stmt(J, f->getBody()); J.attributeEnd(); }
        });
    }
    void record(OStream& J, int idx) {
        const CXXRecordDecl* r = recs[idx];
        J.object([&] {
            J.attribute("id", (int64_t)idx);
            J.attribute("q", qname(r)); J.attribute("name", r->getNameAsString());
            J.attribute("s", tstr(ctx.getTypeDeclType(r)));
            if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
                J.attributeArray("targs", [&] { for (auto& a : sp->getTemplateArgs().asArray()) { if (a.getKind() == TemplateArgument::Type) J.value((int64_t)type(a.getAsType())); else J.value(-1); } });
            }
            const CXXRecordDecl* d = r->getDefinition();
            if (!d) return;
            J.attribute("lambda", d->isLambda());
            J.attribute("file", (int64_t)fileId(d->getLocation())); J.attribute("line", (int64_t)line(d->getLocation()));
            bool mine = inRoot(d->getLocation());
            J.attribute("mine", mine);
            if (auto* pr = dyn_cast_or_null<CXXRecordDecl>(d->getDeclContext())) J.attribute("outer", (int64_t)rec(pr));
            if (!mine || d->isDependentContext()) return;
            J.attributeArray("bases", [&] { for (auto& b : d->bases()) J.value((int64_t)type(b.getType())); });
            J.attributeArray("fields", [&] {
                for (auto* f : d->fields()) J.object([&] {
                    J.attribute("d", (int64_t)id(f)); J.attribute("n", f->getNameAsString()); J.attribute("t", (int64_t)type(f->getType()));
                    J.attribute("l", (int64_t)line(f->getLocation())); J.attribute("mutable", f->isMutable()); J.attribute("init", f->hasInClassInitializer());
                    J.attribute("access", (int64_t)f->getAccess());
                });
            });
            J.attributeArray("svars", [&] {
                for (auto* dd : d->decls()) if (auto* v = dyn_cast<VarDecl>(dd)) J.object([&] { J.attribute("n", v->getNameAsString()); J.attribute("t", (int64_t)type(v->getType())); J.attribute("constexpr", v->isConstexpr()); J.attribute("l", (int64_t)line(v->getLocation())); J.attribute("tls", v->getTSCSpec() != TSCS_unspecified); });
            });
            J.attributeArray("methods", [&] {
                for (auto* m : d->methods()) J.object([&] {
                    J.attribute("f", (int64_t)id(m)); J.attribute("n", m->getNameAsString()); J.attribute("access", (int64_t)m->getAccess());
                    J.attribute("user", m->isUserProvided()); J.attribute("deleted", m->isDeleted()); J.attribute("defaulted", m->isDefaulted()); J.attribute("implicit", m->isImplicit());
                    J.attribute("const", m->isConst()); J.attribute("l", (int64_t)line(m->getLocation()));
                    if (auto* c = dyn_cast<CXXConstructorDecl>(m)) J.attribute("special", c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "ctor");
                    else if (m->isCopyAssignmentOperator()) J.attribute("special", "copy="); else if (m->isMoveAssignmentOperator()) J.attribute("special", "move=");
                    else if (isa<CXXDestructorDecl>(m)) J.attribute("special", "dtor");
                });
            });
            J.attribute("triv_copy", d->isTriviallyCopyable());
        });
    }
    void types_(OStream& J) {
        J.attributeArray("types", [&] {
            for (size_t i = 0; i < types.size(); ++i) {
                QualType q = types[i];
                J.object([&] {
                    J.attribute("s", tstr(q));
                    if (q.isConstQualified()) J.attribute("const", true);
                    if (q->isLValueReferenceType()) J.attribute("k", "lref");
                    else if (q->isRValueReferenceType()) J.attribute("k", "rref");
                    else if (q->isPointerType()) J.attribute("k", "ptr");
                    else if (q->isBooleanType()) J.attribute("k", "bool");
                    else if (q->isIntegerType()) J.attribute("k", "int");
                    else if (q->isFloatingType()) J.attribute("k", "float");
                    else if (q->isRecordType()) J.attribute("k", "rec");
                    else if (q->isArrayType()) J.attribute("k", "array");
                    else if (q->isVoidType()) J.attribute("k", "void");
                    else J.attribute("k", "other");
                    if (q->isReferenceType() || q->isPointerType()) J.attribute("p", (int64_t)type(q->getPointeeType()));
                    else if (const auto* at = ctx.getAsArrayType(q)) J.attribute("p", (int64_t)type(at->getElementType()));
                    if (q->isArithmeticType() && !q->isDependentType()) { J.attribute("bits", (int64_t)ctx.getTypeSize(q)); J.attribute("uns", q->isUnsignedIntegerType()); }
                    if (auto* r = q->getAsCXXRecordDecl()) J.attribute("r", (int64_t)rec(r));
                });
            }
        });
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Extractor&                       X;
    std::vector<const FunctionDecl*> fns;
    std::set<const FunctionDecl*>    seen;
    std::vector<const VarDecl*>      gvars;
    std::vector<const FunctionDecl*> patterns;   // templated patterns below root (for coverage accounting)
    Visitor(Extractor& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!X.inRoot(f->getLocation())) return true;
        if (f->isDependentContext()) { if (f->doesThisDeclarationHaveABody()) patterns.push_back(f); return true; }
        const FunctionDecl* def = nullptr;
        if (f->hasBody(def)) f = const_cast<FunctionDecl*>(def);
        if (seen.insert(f->getCanonicalDecl()).second) fns.push_back(f);
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!X.inRoot(v->getLocation())) return true;
        if (v->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(v)) return true;
        if (v->hasGlobalStorage()) gvars.push_back(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!X.inRoot(r->getLocation()) || r->isDependentContext()) return true;
        if (r->isThisDeclarationADefinition()) X.rec(r);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& ci;
    Consumer(CompilerInstance& c) : ci(c) {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        if (ci.getDiagnostics().hasErrorOccurred()) return;
        Extractor X(ctx);
        Visitor V(X);
        V.TraverseDecl(ctx.getTranslationUnitDecl());
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        OStream J(os, 0);
        J.object([&] {
            J.attributeArray("functions", [&] { for (auto* f : V.fns) X.function(J, f); });
            J.attributeArray("patterns", [&] {
                for (auto* f : V.patterns) J.object([&] {
                    J.attribute("id", (int64_t)X.id(f)); J.attribute("q", X.qname(f)); J.attribute("file", (int64_t)X.fileId(f->getLocation())); J.attribute("line", (int64_t)X.line(f->getLocation()));
                    if (auto* m = dyn_cast<CXXMethodDecl>(f)) J.attribute("lambda", m->getParent()->isLambda());
                });
            });
            J.attributeArray("gvars", [&] {
                for (auto* v : V.gvars) J.object([&] {
                    J.attribute("n", v->getNameAsString()); J.attribute("q", X.qname(v)); J.attribute("t", (int64_t)X.type(v->getType()));
                    J.attribute("file", (int64_t)X.fileId(v->getLocation())); J.attribute("line", (int64_t)X.line(v->getLocation()));
                    J.attribute("tls", v->getTSCSpec() != TSCS_unspecified); J.attribute("constexpr", v->isConstexpr());
                    J.attribute("constq", v->getType().isConstQualified()); J.attribute("local", v->isStaticLocal());
                });
            });
            J.attributeBegin("records"); J.arrayBegin();
            size_t done = 0; 
            while (done < X.recs.size()) { X.record(J, (int)done); ++done; }
            // types may add records; iterate until stable
            size_t tdone = 0;
            (void)tdone;
            for (;;) {
                size_t nr = X.recs.size(), nt = X.types.size();
                for (size_t i = 0; i < X.types.size(); ++i) { QualType q = X.types[i]; if (q->isReferenceType() || q->isPointerType()) X.type(q->getPointeeType()); else if (auto* at = ctx.getAsArrayType(q)) X.type(at->getElementType()); if (auto* r = q->getAsCXXRecordDecl()) X.rec(r); }
                while (done < X.recs.size()) { X.record(J, (int)done); ++done; }
                if (X.recs.size() == nr && X.types.size() == nt) break;
            }
            J.arrayEnd(); J.attributeEnd();
            X.types_(J);
            J.attributeArray("files", [&] { for (auto& f : X.files) J.value(f); });
        });
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override { return std::make_unique<Consumer>(ci); }
};
}  // namespace

int main(int argc, const char** argv) {
    // extract ROOT OUT FILE -- flags
    if (argc < 5) { llvm::errs() << "usage: extract ROOT OUT FILE -- flags\n"; return 2; }
    gRoot = argv[1]; gOut = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    tool.appendArgumentsAdjuster([](const tooling::CommandLineArguments& a, llvm::StringRef) { auto b = a; b.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18"); return b; });
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
