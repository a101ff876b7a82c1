// grootfe: exports the type-checked program (functions of the analysed repository, with resolved callees,
// implicit nodes stripped) as JSON.  Usage: grootfe OUT.json ROOT FILE -- clang args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;
static std::string Root, Extra; // analysed tree; optional directory of specification sources

struct Exporter {
    ASTContext &C;
    const SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    J::Array functions, records, enums, globals;
    std::set<std::string> seenRec, seenEnum, seenGlob, seenFn;
    int nextId = 1;
    unsigned unknown = 0;

    Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressDefaultTemplateArgs = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.AnonymousTagLocations = true;
    }
    int id(const Decl *d)
    {
        d = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        return ids[d] = nextId++;
    }
    std::string ty(QualType t)
    {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string usr(const Decl *d)
    {
        llvm::SmallString<128> b;
        if (index::generateUSRForDecl(d, b)) return "";
        return std::string(b.str());
    }
    std::string file(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto fe = SM.getFileEntryRefForID(SM.getFileID(l));
        if (!fe) return "";
        llvm::SmallString<256> p(fe->getFileEntry().tryGetRealPathName());
        if (p.empty()) p = fe->getName();
        return std::string(p.str());
    }
    int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }
    bool inRoot(SourceLocation l)
    {
        std::string f = file(l);
        return f.rfind(Root + "/src/", 0) == 0 || f.rfind(Root + "/bin/", 0) == 0 || (!Extra.empty() && f.rfind(Extra, 0) == 0);
    }
    std::string rel(SourceLocation l)
    {
        std::string f = file(l);
        if (f.rfind(Root + "/", 0) == 0) return f.substr(Root.size() + 1);
        return f;
    }
    std::string qn(const NamedDecl *d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, PP);
        return os.str();
    }

    // ---------------------------------------------------------------- expressions
    const Expr *strip(const Expr *e)
    {
        while (e) {
            if (auto *x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<ImplicitCastExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
                if (x->getNumArgs() >= 1 && x->getConstructor()->isCopyOrMoveConstructor()) {
                    e = x->getArg(0);
                    continue;
                }
            }
            if (auto *x = dyn_cast<CXXFunctionalCastExpr>(e)) {
                const Expr *s = x->getSubExpr();
                if (isa<CXXConstructExpr>(s->IgnoreImplicit()) || isa<InitListExpr>(s->IgnoreImplicit())) { e = s; continue; }
            }
            return e;
        }
        return e;
    }
    J::Value arr(const J::Array &a) { return J::Value(J::Array(a)); }
    J::Value EX(const Expr *e0)
    {
        const Expr *e = strip(e0);
        if (!e) return nullptr;
        J::Object o;
        if (auto *x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            o["v"] = (int64_t)x->getValue().getLimitedValue(INT64_MAX);
            return o;
        }
        if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"] = "char"; o["v"] = (int64_t)x->getValue(); return o; }
        if (auto *x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (auto *x = dyn_cast<clang::StringLiteral>(e)) {
            o["k"] = "str";
            std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("<wide>");
            if (!J::isUTF8(s)) s = J::fixUTF8(s);
            o["v"] = s;
            return o;
        }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; o["t"] = ty(e->getType()->getPointeeType()); return o; }
        if (auto *x = dyn_cast<DeclRefExpr>(e)) return ref(x->getDecl(), x);
        if (auto *x = dyn_cast<MemberExpr>(e)) {
            if (auto *f = dyn_cast<FieldDecl>(x->getMemberDecl())) {
                o["k"] = "mem";
                o["b"] = EX(x->getBase());
                o["f"] = f->getNameAsString();
                o["rec"] = qn(f->getParent());
                o["t"] = ty(f->getType());
                if (x->isArrow()) o["arrow"] = true;
                o["l"] = line(e->getExprLoc());
                return o;
            }
            if (auto *v = dyn_cast<VarDecl>(x->getMemberDecl())) return ref(v, x);
            if (auto *ec = dyn_cast<EnumConstantDecl>(x->getMemberDecl())) return ref(ec, x);
            o["k"] = "memfn";
            o["fn"] = qn(x->getMemberDecl());
            o["b"] = EX(x->getBase());
            return o;
        }
        if (auto *x = dyn_cast<CallExpr>(e)) return call(x);
        if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "ctor";
            o["ty"] = ty(e->getType());
            o["fid"] = usr(x->getConstructor());
            o["cls"] = qn(x->getConstructor()->getParent());
            J::Array a;
            for (auto *p : x->arguments()) if (!isa<CXXDefaultArgExpr>(p)) a.push_back(EX(p));
            o["args"] = std::move(a);
            if (x->isListInitialization()) o["list"] = true;
            if (x->isStdInitListInitialization()) o["ilist"] = true;
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "init";
            o["ty"] = ty(e->getType());
            J::Array a;
            for (auto *p : x->inits()) a.push_back(EX(p));
            o["items"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            o["k"] = "zero";
            o["ty"] = ty(e->getType());
            return o;
        }
        if (auto *x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            o["op"] = std::string(UnaryOperator::getOpcodeStr(x->getOpcode()));
            if (x->isPostfix()) o["post"] = true;
            o["e"] = EX(x->getSubExpr());
            o["t"] = ty(strip(x->getSubExpr())->getType().getNonReferenceType());
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = x->isAssignmentOp() ? "asg" : "bin";
            o["op"] = std::string(x->getOpcodeStr());
            o["a"] = EX(x->getLHS());
            o["b"] = EX(x->getRHS());
            o["t"] = ty(e->getType());
            o["ta"] = ty(strip(x->getLHS())->getType().getNonReferenceType());
            o["tb"] = ty(strip(x->getRHS())->getType().getNonReferenceType());
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = EX(x->getCond());
            o["a"] = EX(x->getTrueExpr());
            o["b"] = EX(x->getFalseExpr());
            return o;
        }
        if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["a"] = EX(x->getBase());
            o["b"] = EX(x->getIdx());
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<LambdaExpr>(e)) return lambda(x);
        if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr()) o["e"] = EX(x->getSubExpr());
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<CXXDynamicCastExpr>(e)) { o["k"] = "dyncast"; o["ty"] = ty(e->getType()); o["e"] = EX(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<ExplicitCastExpr>(e)) { o["k"] = "cast"; o["ty"] = ty(e->getType()); o["e"] = EX(x->getSubExpr()); return o; }
        if (auto *x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new"; o["ty"] = ty(x->getAllocatedType());
            if (x->getInitializer()) o["e"] = EX(x->getInitializer());
            o["l"] = line(e->getExprLoc());
            return o;
        }
        if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "delete"; o["e"] = EX(x->getArgument()); return o; }
        if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) return EX(x->getCommonExpr()->getSourceExpr());
        if (auto *x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return EX(x->getSourceExpr()); }
        if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) { o["k"] = "int"; o["v"] = (int64_t)r.Val.getInt().getLimitedValue(INT64_MAX); return o; }
        }
        if (auto *x = dyn_cast<PredefinedExpr>(e)) { o["k"] = "str"; o["v"] = "<func>"; return o; }
        if (auto *x = dyn_cast<TypeTraitExpr>(e)) { if (!x->isValueDependent()) { o["k"] = "bool"; o["v"] = x->getValue(); return o; } }
        ++unknown;
        o["k"] = "unk";
        o["c"] = std::string(e->getStmtClassName());
        J::Array a;
        for (auto *c : e->children()) if (auto *ce = dyn_cast_or_null<Expr>(c)) a.push_back(EX(ce));
        o["args"] = std::move(a);
        return o;
    }
    J::Value ref(const ValueDecl *d, const Expr *e)
    {
        J::Object o;
        if (auto *x = dyn_cast<EnumConstantDecl>(d)) {
            o["k"] = "enum";
            o["n"] = x->getNameAsString();
            o["ty"] = qn(cast<EnumDecl>(x->getDeclContext()));
            o["v"] = (int64_t)x->getInitVal().getExtValue();
            return o;
        }
        if (auto *f = dyn_cast<FunctionDecl>(d)) {
            o["k"] = "fnref";
            o["fn"] = qn(f);
            o["fid"] = usr(f);
            return o;
        }
        o["k"] = "var";
        o["n"] = d->getNameAsString();
        o["t"] = ty(d->getType());
        if (auto *v = dyn_cast<VarDecl>(d)) {
            if (v->hasGlobalStorage()) {
                o["g"] = qn(v);
                if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
                if (v->getInit() && v->getType().isConstQualified() && (v->getType()->isIntegralOrEnumerationType())) {
                    Expr::EvalResult r;
                    if (!v->getInit()->isValueDependent() && v->getInit()->EvaluateAsInt(r, C)) {
                        J::Object c;
                        c["k"] = "int";
                        c["v"] = (int64_t)r.Val.getInt().getExtValue();
                        return c;
                    }
                }
            } else o["id"] = id(d);
        } else o["id"] = id(d);
        return o;
    }
    J::Value call(const CallExpr *x)
    {
        J::Object o;
        o["k"] = "call";
        o["l"] = line(x->getExprLoc());
        o["t"] = ty(x->getType());
        const FunctionDecl *f = x->getDirectCallee();
        const Expr *obj = nullptr;
        J::Array a;
        if (f) {
            o["fn"] = qn(f);
            if (f->isNoReturn() || f->hasAttr<AnalyzerNoReturnAttr>()) o["noret"] = true;
            const FunctionDecl *def = nullptr;
            f->hasBody(def);
            if (inRoot(f->getLocation()) || (def && inRoot(def->getLocation()))) o["fid"] = usr(f);
            if (auto *ta = f->getTemplateSpecializationArgs()) {
                J::Array t;
                for (auto &A : ta->asArray()) {
                    if (A.getKind() == TemplateArgument::Integral) t.push_back((int64_t)A.getAsIntegral().getExtValue());
                    else if (A.getKind() == TemplateArgument::Type) t.push_back(ty(A.getAsType()));
                }
                if (!t.empty()) o["targs"] = std::move(t);
            }
            J::Array refs;
            bool any = false;
            for (auto *p : f->parameters()) {
                QualType t = p->getType();
                bool r = t->isLValueReferenceType() && !t->getPointeeType().isConstQualified();
                refs.push_back(r ? 1 : 0);
                any |= r;
            }
            if (any) o["refs"] = std::move(refs);
            if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
                if (m->isConst()) o["const"] = true;
                if (m->isStatic()) o["static"] = true;
                if (m->isVirtual()) o["virtual"] = true;
            }
            if (auto *c = dyn_cast<CXXConversionDecl>(f)) o["conv"] = ty(c->getConversionType());
            o["rt"] = ty(f->getReturnType());
        }
        unsigned i0 = 0;
        if (auto *m = dyn_cast<CXXMemberCallExpr>(x)) {
            obj = m->getImplicitObjectArgument();
            if (auto *me = dyn_cast<MemberExpr>(m->getCallee()->IgnoreParens())) { if (me->isArrow()) o["arrow"] = true; }
        } else if (auto *oc = dyn_cast<CXXOperatorCallExpr>(x)) {
            o["op"] = std::string(getOperatorSpelling(oc->getOperator()));
            if (f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { obj = oc->getArg(0); i0 = 1; }
        }
        if (!f) o["callee"] = EX(x->getCallee());
        if (obj) { o["obj"] = EX(obj); o["ot"] = ty(obj->getType().getNonReferenceType()); }
        J::Array argt;
        for (unsigned i = i0; i < x->getNumArgs(); i++) {
            const Expr *p = x->getArg(i);
            if (isa<CXXDefaultArgExpr>(p)) o["dflt"] = true;
            a.push_back(EX(p));
            argt.push_back(ty(p->getType().getNonReferenceType()));
        }
        o["args"] = std::move(a);
        o["at"] = std::move(argt);
        return o;
    }
    J::Value lambda(const LambdaExpr *x)
    {
        J::Object o;
        o["k"] = "lambda";
        o["l"] = line(x->getBeginLoc());
        const CXXMethodDecl *m = x->getCallOperator();
        if (auto *t = m->getDescribedFunctionTemplate()) {
            for (auto *s : t->specializations()) { m = cast<CXXMethodDecl>(s); break; }
        }
        o["params"] = params(m);
        o["ret"] = ty(m->getReturnType());
        J::Array caps;
        auto ii = x->capture_init_begin();
        for (auto &c : x->captures()) {
            J::Object k;
            if (c.capturesThis()) k["this"] = true;
            else if (c.capturesVariable()) {
                auto *v = c.getCapturedVar();
                k["id"] = id(v);
                k["n"] = v->getNameAsString();
                k["t"] = ty(v->getType());
                k["byref"] = c.getCaptureKind() == LCK_ByRef;
                if (auto *vd = dyn_cast<VarDecl>(v)) if (vd->isInitCapture()) k["init"] = EX(vd->getInit());
            }
            caps.push_back(std::move(k));
            ++ii;
        }
        o["caps"] = std::move(caps);
        const Stmt *b = m->getBody();
        if (m->isDependentContext() || !b) { o["generic"] = true; }
        else o["body"] = ST(b);
        return o;
    }
    J::Array params(const FunctionDecl *f)
    {
        J::Array a;
        for (auto *p : f->parameters()) {
            J::Object o;
            o["id"] = id(p);
            o["n"] = p->getNameAsString();
            o["t"] = ty(p->getType());
            QualType t = p->getType();
            if (t->isReferenceType()) {
                o["ref"] = true;
                if (t->getPointeeType().isConstQualified()) o["cref"] = true;
                if (t->isRValueReferenceType()) o["rref"] = true;
            }
            a.push_back(std::move(o));
        }
        return a;
    }
    // ---------------------------------------------------------------- statements
    J::Value vardecl(const VarDecl *v)
    {
        J::Object o;
        o["id"] = id(v);
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        if (v->getType()->isReferenceType()) o["ref"] = true;
        if (v->isStaticLocal()) o["static"] = true;
        o["l"] = line(v->getLocation());
        if (v->getInit()) o["init"] = EX(v->getInit());
        if (auto *d = dyn_cast<DecompositionDecl>(v)) {
            J::Array b;
            int i = 0;
            for (auto *x : d->bindings()) {
                J::Object k;
                k["id"] = id(x);
                k["n"] = x->getNameAsString();
                k["i"] = i++;
                if (auto *be = x->getBinding()) {
                    if (auto *me = dyn_cast<MemberExpr>(be->IgnoreParenImpCasts()))
                        if (auto *f = dyn_cast<FieldDecl>(me->getMemberDecl())) { k["field"] = f->getNameAsString(); k["rec"] = qn(f->getParent()); }
                    if (auto *hv = x->getHoldingVar()) k["hv"] = id(hv);
                }
                b.push_back(std::move(k));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }
    J::Value ST(const Stmt *s)
    {
        if (!s) return nullptr;
        J::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto *x = dyn_cast<CompoundStmt>(s)) {
            o["s"] = "block";
            J::Array a;
            for (auto *c : x->body()) a.push_back(ST(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<DeclStmt>(s)) {
            o["s"] = "decl";
            J::Array a;
            for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(vardecl(v));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<IfStmt>(s)) {
            o["s"] = "if";
            if (x->getInit()) o["init"] = ST(x->getInit());
            if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
            o["c"] = EX(x->getCond());
            o["then"] = ST(x->getThen());
            if (x->getElse()) o["else"] = ST(x->getElse());
            return o;
        }
        if (auto *x = dyn_cast<ForStmt>(s)) {
            o["s"] = "for";
            if (x->getInit()) o["init"] = ST(x->getInit());
            if (x->getCond()) o["c"] = EX(x->getCond());
            if (x->getInc()) o["inc"] = EX(x->getInc());
            o["body"] = ST(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<WhileStmt>(s)) {
            o["s"] = "while";
            if (x->getConditionVariable()) o["cv"] = vardecl(x->getConditionVariable());
            o["c"] = EX(x->getCond());
            o["body"] = ST(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<DoStmt>(s)) {
            o["s"] = "do";
            o["c"] = EX(x->getCond());
            o["body"] = ST(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            o["s"] = "rfor";
            if (x->getInit()) o["init"] = ST(x->getInit());
            o["var"] = vardecl(x->getLoopVariable());
            const Expr *re = x->getRangeInit();
            o["range"] = EX(re);
            o["rty"] = ty(re->getType().getNonReferenceType());
            o["body"] = ST(x->getBody());
            return o;
        }
        if (auto *x = dyn_cast<SwitchStmt>(s)) {
            o["s"] = "switch";
            if (x->getInit()) o["init"] = ST(x->getInit());
            o["c"] = EX(x->getCond());
            // flatten: a list of {labels:[...], default:bool} markers and statements
            J::Array a;
            std::function<void(const Stmt *)> flat = [&](const Stmt *c) {
                if (auto *cs = dyn_cast_or_null<CaseStmt>(c)) {
                    J::Object k;
                    k["s"] = "case";
                    k["v"] = EX(cs->getLHS());
                    a.push_back(std::move(k));
                    flat(cs->getSubStmt());
                } else if (auto *ds = dyn_cast_or_null<DefaultStmt>(c)) {
                    J::Object k;
                    k["s"] = "default";
                    a.push_back(std::move(k));
                    flat(ds->getSubStmt());
                } else if (c) a.push_back(ST(c));
            };
            if (auto *cb = dyn_cast<CompoundStmt>(x->getBody())) for (auto *c : cb->body()) flat(c);
            else flat(x->getBody());
            o["b"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<ReturnStmt>(s)) {
            o["s"] = "ret";
            if (x->getRetValue()) o["e"] = EX(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s)) { o["s"] = "break"; return o; }
        if (isa<ContinueStmt>(s)) { o["s"] = "continue"; return o; }
        if (isa<NullStmt>(s)) { o["s"] = "null"; return o; }
        if (auto *x = dyn_cast<CXXTryStmt>(s)) {
            o["s"] = "try";
            o["b"] = ST(x->getTryBlock());
            J::Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                J::Object h;
                auto *c = x->getHandler(i);
                if (c->getExceptionDecl()) { h["var"] = vardecl(c->getExceptionDecl()); h["t"] = ty(c->getCaughtType()); }
                else h["all"] = true;
                h["b"] = ST(c->getHandlerBlock());
                a.push_back(std::move(h));
            }
            o["h"] = std::move(a);
            return o;
        }
        if (auto *x = dyn_cast<AttributedStmt>(s)) return ST(x->getSubStmt());
        if (auto *x = dyn_cast<LabelStmt>(s)) { o["s"] = "label"; o["b"] = ST(x->getSubStmt()); return o; }
        if (auto *x = dyn_cast<Expr>(s)) { o["s"] = "expr"; o["e"] = EX(x); return o; }
        ++unknown;
        o["s"] = "unk";
        o["c"] = std::string(s->getStmtClassName());
        return o;
    }
    // ---------------------------------------------------------------- declarations
    void function(const FunctionDecl *f)
    {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || !inRoot(f->getLocation())) return;
        if (f->isImplicit() || f->isDefaulted()) return;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
        std::string u = usr(f);
        std::string key = u + "@" + rel(f->getLocation());
        // internal linkage names of different files stay apart through the file in their USR
        if (!seenFn.insert(key + (f->isTemplateInstantiation() ? ty(f->getType()) : "")).second) return;
        J::Object o;
        o["q"] = qn(f);
        o["n"] = f->getNameAsString();
        o["fid"] = u;
        o["file"] = rel(f->getLocation());
        o["l"] = line(f->getLocation());
        o["le"] = line(f->getEndLoc());
        o["params"] = params(f);
        o["ret"] = ty(f->getReturnType());
        if (f->isTemplateInstantiation()) o["tmpl"] = true;
        if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = qn(m->getParent());
            if (m->isConst()) o["const"] = true;
            if (m->isStatic()) o["static"] = true;
            if (m->isVirtual()) o["virtual"] = true;
            J::Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(usr(b));
            if (!ov.empty()) o["overrides"] = std::move(ov);
        }
        if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
            J::Array a;
            for (auto *i : c->inits()) {
                J::Object k;
                if (i->isAnyMemberInitializer()) { k["f"] = i->getAnyMember()->getNameAsString(); k["rec"] = qn(c->getParent()); }
                else if (i->isBaseInitializer()) k["base"] = ty(QualType(i->getBaseClass(), 0));
                k["e"] = EX(i->getInit());
                a.push_back(std::move(k));
            }
            o["inits"] = std::move(a);
            o["ctor"] = true;
        }
        if (f->isStatic() && !isa<CXXMethodDecl>(f)) o["internal"] = true;
        o["body"] = ST(f->getBody());
        functions.push_back(std::move(o));
    }
    void record(const CXXRecordDecl *r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || !inRoot(r->getLocation()) || r->isLambda()) return;
        std::string n = qn(r);
        if (!seenRec.insert(n).second) return;
        J::Object o;
        o["q"] = n;
        o["file"] = rel(r->getLocation());
        J::Array fs;
        for (auto *f : r->fields()) {
            J::Object k;
            k["n"] = f->getNameAsString();
            k["t"] = ty(f->getType());
            k["l"] = line(f->getLocation());
            if (f->isMutable()) k["mutable"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) k["init"] = EX(f->getInClassInitializer());
            fs.push_back(std::move(k));
        }
        o["fields"] = std::move(fs);
        J::Array bs;
        for (auto &b : r->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        J::Array ms;
        for (auto *m : r->methods()) {
            if (m->isImplicit()) continue;
            J::Object k;
            k["n"] = m->getNameAsString();
            k["fid"] = usr(m);
            if (m->isConst()) k["const"] = true;
            if (m->isVirtual()) k["virtual"] = true;
            k["t"] = ty(m->getType());
            J::Array ov;
            for (auto *b : m->overridden_methods()) ov.push_back(usr(b));
            if (!ov.empty()) k["overrides"] = std::move(ov);
            ms.push_back(std::move(k));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
    }
    void enumd(const EnumDecl *e)
    {
        if (!e->isThisDeclarationADefinition() || !inRoot(e->getLocation())) return;
        std::string n = qn(e);
        if (!seenEnum.insert(n).second) return;
        J::Object o;
        o["q"] = n;
        J::Array a;
        for (auto *c : e->enumerators()) { J::Object k; k["n"] = c->getNameAsString(); k["v"] = (int64_t)c->getInitVal().getExtValue(); a.push_back(std::move(k)); }
        o["vals"] = std::move(a);
        enums.push_back(std::move(o));
    }
    void global(const VarDecl *v)
    {
        if (!v->hasGlobalStorage() || !inRoot(v->getLocation()) || !v->isThisDeclarationADefinition()) return;
        if (v->getDeclContext()->isDependentContext()) return;
        std::string n = qn(v);
        if (!seenGlob.insert(n + rel(v->getLocation()) + std::to_string(line(v->getLocation()))).second) return;
        J::Object o;
        o["q"] = n;
        o["t"] = ty(v->getType());
        o["const"] = v->getType().isConstQualified();
        o["file"] = rel(v->getLocation());
        o["l"] = line(v->getLocation());
        if (v->isStaticLocal()) o["local"] = true;
        if (v->getInit()) o["init"] = EX(v->getInit());
        globals.push_back(std::move(o));
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Exporter &X;
    Visitor(Exporter &x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl *d)
    {
        if (!d) return true;
        // Skip top level declarations of system headers quickly (but enter the instantiations of repository templates).
        if (d->getDeclContext() && d->getDeclContext()->isTranslationUnit() && !isa<TranslationUnitDecl>(d)) {
            if (!X.inRoot(d->getLocation())) return true;
        }
        return RecursiveASTVisitor::TraverseDecl(d);
    }
    bool VisitFunctionDecl(FunctionDecl *f) { X.function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) { X.record(r); return true; }
    bool VisitEnumDecl(EnumDecl *e) { X.enumd(e); return true; }
    bool VisitVarDecl(VarDecl *v) { X.global(v); return true; }
};

static std::string OutFile;
static bool Failed = false;
struct Consumer : ASTConsumer {
    CompilerInstance &CI;
    Consumer(CompilerInstance &c) : CI(c) {}
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) { Failed = true; return; }
        Exporter X(C);
        Visitor V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        J::Object o;
        o["functions"] = std::move(X.functions);
        o["records"] = std::move(X.records);
        o["enums"] = std::move(X.enums);
        o["globals"] = std::move(X.globals);
        o["unknown"] = (int64_t)X.unknown;
        std::error_code ec;
        llvm::raw_fd_ostream os(OutFile, ec);
        os << J::Value(std::move(o));
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
int main(int argc, const char **argv)
{
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    OutFile = argv[1];
    Root = argv[2];
    if (const char *x = getenv("GROOTFE_EXTRA")) Extra = x;
    std::vector<std::string> args, files{argv[3]};
    for (int i = 5; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, files);
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return r || Failed ? 1 : 0;
}
