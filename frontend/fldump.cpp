// fldump: parses one translation unit with clang's C++ front end (the real build's flags) and writes the
// resolved, type-checked program of /repo as JSON: every function body with its callees, fields, types,
// conversions, temporaries and destructors resolved, every class with bases, fields and overridden methods,
// every global variable. Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string gRoot = "/repo/";
static std::string gMain;

struct Dumper : RecursiveASTVisitor<Dumper> {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    Array functions, classes, globals, enums;
    std::set<const void*> seen;
    std::map<const Decl*, int> ids;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = false;
        PP.SuppressInlineNamespace = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }

    std::string file(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        return f.str();
    }
    int line(SourceLocation l) { return l.isValid() ? SM.getExpansionLineNumber(l) : 0; }
    bool inRepo(SourceLocation l) {
        if (l.isInvalid()) return false;
        std::string f = file(l);
        if (f.compare(0, gRoot.size(), gRoot) != 0) return false;
        return true;
    }
    std::string rel(SourceLocation l) {
        std::string f = file(l);
        if (f.compare(0, gRoot.size(), gRoot) == 0) return f.substr(gRoot.size());
        return f;
    }
    bool mainFileLocal(const Decl* d) {
        // declared first in the main .cpp: its name may clash with another translation unit's
        const Decl* c = d->getCanonicalDecl();
        if (auto* cts = dyn_cast<ClassTemplateSpecializationDecl>(c)) c = cts->getSpecializedTemplate()->getCanonicalDecl();
        return SM.isInMainFile(SM.getExpansionLoc(c->getLocation()));
    }
    std::string suffix(const Decl* d) {
        if (mainFileLocal(d)) return "@" + gMain;
        return "";
    }
    std::string uid(const Decl* d) {
        llvm::SmallString<128> buf;
        if (auto* f = dyn_cast<FunctionDecl>(d)) d = f->getCanonicalDecl();
        if (index::generateUSRForDecl(d, buf)) return std::string("?") + std::to_string((uintptr_t)d);
        return buf.str().str() + suffix(d);
    }
    // qualified name without template arguments and inline namespaces
    std::string qual(const NamedDecl* d) {
        std::string n = d->getDeclName() ? d->getNameAsString() : std::string("(anon)");
        if (isa<CXXConstructorDecl>(d)) n = "(ctor)";
        if (isa<CXXDestructorDecl>(d)) n = "(dtor)";
        const DeclContext* dc = d->getDeclContext();
        while (dc && !dc->isTranslationUnit()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(dc)) {
                if (!ns->isInline()) n = (ns->isAnonymousNamespace() ? std::string("(anon)") : ns->getNameAsString()) + "::" + n;
            } else if (auto* nd = dyn_cast<NamedDecl>(dc)) {
                n = nd->getNameAsString() + "::" + n;
            }
            dc = dc->getParent();
        }
        return n;
    }
    std::string ty(QualType t) { return t.getCanonicalType().getAsString(PP); }
    std::string clsName(const CXXRecordDecl* r) {
        if (!r) return "";
        return ty(C.getTypeDeclType(r)) + suffix(r);
    }
    int id(const Decl* d) {
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }
    Object node(const char* k, const Stmt* s) {
        Object o;
        o["k"] = k;
        o["l"] = line(s->getBeginLoc());
        return o;
    }
    Value unk(const Stmt* s) {
        Object o = node("unk", s);
        o["c"] = s->getStmtClassName();
        return o;
    }
    Array args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        Array a;
        for (auto* e : r) a.push_back(E(e));
        return a;
    }
    static const Expr* strip(const Expr* e) {
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* s = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = s->getReplacement();
            else if (auto* c = dyn_cast<ConstantExpr>(e)) e = c->getSubExpr();
            else return e;
        }
    }
    void calleeInfo(Object& o, const FunctionDecl* f) {
        o["fn"] = uid(f);
        o["q"] = qual(f);
        o["name"] = f->getNameAsString();
        Array pt;
        for (auto* p : f->parameters()) pt.push_back(ty(p->getType()));
        o["pt"] = std::move(pt);
        o["rt"] = ty(f->getReturnType());
    }
    Value E(const Expr* e0) {
        if (!e0) return nullptr;
        const Expr* e = strip(e0);
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            Object o = node("int", e);
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["v"] = s.str().str(); o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            Object o = node("flt", e);
            llvm::SmallString<32> s;
            x->getValue().toString(s, 30, 0);
            o["v"] = s.str().str();
            return o;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { Object o = node("bool", e); o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<StringLiteral>(e)) { Object o = node("str", e); o["v"] = json::fixUTF8(x->getBytes()); return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { Object o = node("str", e); o["v"] = x->getFunctionName() ? json::fixUTF8(x->getFunctionName()->getBytes()) : ""; return o; }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) { Object o = node("chr", e); o["v"] = (int)x->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", e);
        if (isa<CXXThisExpr>(e)) return node("this", e);
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            Object o = node("ref", e);
            const ValueDecl* d = x->getDecl();
            o["n"] = d->getNameAsString();
            o["t"] = ty(d->getType());
            if (auto* v = dyn_cast<VarDecl>(d)) {
                if (v->isLocalVarDecl() || isa<ParmVarDecl>(v)) {
                    o["lv"] = id(v);
                    if (v->isStaticLocal()) o["static"] = true;
                }
                else { o["gv"] = qual(v); o["const"] = v->getType().isConstQualified(); o["gu"] = uid(v); }
            } else if (auto* f = dyn_cast<FunctionDecl>(d)) calleeInfo(o, f);
            else if (auto* c = dyn_cast<EnumConstantDecl>(d)) {
                llvm::SmallString<32> s; c->getInitVal().toString(s, 10);
                o["ec"] = s.str().str(); o["q"] = qual(c);
            }
            if (auto* m = dyn_cast<CXXMethodDecl>(d)) o["static"] = m->isStatic();
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) {
                Object o = node("ref", e);
                o["n"] = d->getNameAsString(); o["t"] = ty(d->getType());
                o["gv"] = qual(v); o["const"] = v->getType().isConstQualified(); o["gu"] = uid(v);
                return o;
            }
            if (auto* f = dyn_cast<FieldDecl>(d)) {
                Object o = node("mem", e);
                o["b"] = E(x->getBase());
                o["f"] = d->getNameAsString();
                o["cls"] = clsName(dyn_cast<CXXRecordDecl>(f->getParent()));
                o["arrow"] = x->isArrow();
                o["t"] = ty(f->getType());
                if (f->isMutable()) o["mut"] = true;
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                Object o = node("mref", e);
                o["b"] = E(x->getBase()); o["arrow"] = x->isArrow();
                calleeInfo(o, f);
                return o;
            }
            return unk(e);
        }
        if (auto* x = dyn_cast<CXXDynamicCastExpr>(e)) {
            Object o = node("dyn", e);
            o["t"] = ty(x->getType());
            QualType pt = x->getType()->isPointerType() ? x->getType()->getPointeeType() : x->getType().getNonReferenceType();
            o["cls"] = clsName(pt->getAsCXXRecordDecl());
            o["ptr"] = x->getType()->isPointerType();
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            auto ck = x->getCastKind();
            switch (ck) {
                case CK_LValueToRValue: { Object o = node("l2r", e); o["e"] = E(x->getSubExpr()); return o; }
                case CK_NoOp: case CK_ConstructorConversion: case CK_UserDefinedConversion:
                case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay: case CK_BuiltinFnToFnPtr:
                    if (ck == CK_NoOp || ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion) {
                        if (isa<CXXConstCastExpr>(x)) { Object o = node("ccast", e); o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType()); return o; }
                        return E(x->getSubExpr());
                    }
                    if (ck == CK_ArrayToPointerDecay) { Object o = node("decay", e); o["e"] = E(x->getSubExpr()); return o; }
                    return E(x->getSubExpr());
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: {
                    Object o = node("upcast", e);
                    o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType());
                    o["down"] = ck == CK_BaseToDerived;
                    return o;
                }
                case CK_NullToPointer: { Object o = node("null", e); return o; }
                default: {
                    Object o = node("cast", e);
                    o["ck"] = x->getCastKindName();
                    o["t"] = ty(x->getType());
                    o["e"] = E(x->getSubExpr());
                    if (isa<ExplicitCastExpr>(x)) o["exp"] = true;
                    return o;
                }
            }
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            Object o = node("casg", e);
            std::string op = x->getOpcodeStr().str();
            o["op"] = op.substr(0, op.size() - 1);
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["t"] = ty(x->getType());
            o["ct"] = ty(x->getComputationResultType());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            Object o = node(x->getOpcode() == BO_Assign ? "asg" : "bin", e);
            o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            Object o = node("un", e);
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            Object o = node("cond", e);
            o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr());
            o["t"] = ty(x->getType()); o["gl"] = x->isGLValue();
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            Object o = node("idx", e);
            o["a"] = E(x->getBase()); o["i"] = E(x->getIdx()); o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            Object o = node("op", e);
            o["op"] = std::string(getOperatorSpelling(x->getOperator()));
            if (auto* f = x->getDirectCallee()) { calleeInfo(o, f); auto* m = dyn_cast<CXXMethodDecl>(f); o["mem"] = m && !m->isStatic(); o["virt"] = m && m->isVirtual(); if (m) o["cls"] = clsName(m->getParent()); }
            o["args"] = args(x->arguments());
            o["t"] = ty(x->getType()); o["gl"] = x->isGLValue();
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            const auto* me = dyn_cast<MemberExpr>(strip(x->getCallee()));
            const CXXMethodDecl* m = x->getMethodDecl();
            if (!m) if (auto* pb = dyn_cast<BinaryOperator>(x->getCallee()->IgnoreParens())) if (pb->getOpcode() == BO_PtrMemD || pb->getOpcode() == BO_PtrMemI) {
                Object o = node("pmcall", e);
                o["o"] = E(pb->getLHS()); o["p"] = E(pb->getRHS());
                o["args"] = args(x->arguments());
                o["t"] = ty(x->getType()); o["gl"] = x->isGLValue();
                return o;
            }
            if (!me || !m) return unk(e);
            Object o = node("mcall", e);
            calleeInfo(o, m);
            o["cls"] = clsName(m->getParent());
            o["o"] = E(me->getBase()); o["arrow"] = me->isArrow();
            o["virt"] = m->isVirtual() && !me->hasQualifier();
            o["static"] = m->isStatic(); o["const"] = m->isConst();
            o["args"] = args(x->arguments());
            o["t"] = ty(x->getType()); o["gl"] = x->isGLValue();
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            const FunctionDecl* f = x->getDirectCallee();
            Object o = node(f ? "call" : "pcall", e);
            if (f) { calleeInfo(o, f); if (auto* m = dyn_cast<CXXMethodDecl>(f)) o["cls"] = clsName(m->getParent()); 
                if (auto* ta = f->getTemplateSpecializationArgs()) { Array a; for (auto& t : ta->asArray()) { if (t.getKind() == TemplateArgument::Type) a.push_back(ty(t.getAsType())); else if (t.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> z; t.getAsIntegral().toString(z, 10); a.push_back(z.str().str()); } } o["ta"] = std::move(a); } }
            else o["c"] = E(x->getCallee());
            o["args"] = args(x->arguments());
            o["t"] = ty(x->getType()); o["gl"] = x->isGLValue();
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) { // includes CXXTemporaryObjectExpr
            const CXXConstructorDecl* c = x->getConstructor();
            Object o = node("ctor", e);
            calleeInfo(o, c);
            o["cls"] = clsName(c->getParent());
            o["t"] = ty(x->getType());
            Array a;
            for (auto* q : x->arguments()) a.push_back(E(q));
            o["args"] = std::move(a);
            o["el"] = x->isElidable(); o["list"] = x->isStdInitListInitialization();
            o["copy"] = c->isCopyConstructor(); o["move"] = c->isMoveConstructor();
            o["def"] = c->isDefaulted();
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) return unk(x);
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            Object o = node("new", e);
            o["t"] = ty(x->getAllocatedType());
            o["cls"] = clsName(x->getAllocatedType()->getAsCXXRecordDecl());
            if (x->isArray()) o["arr"] = E(x->getArraySize() ? *x->getArraySize() : nullptr);
            if (x->getInitializer()) o["init"] = E(x->getInitializer());
            else o["init"] = nullptr;
            if (x->getNumPlacementArgs()) o["placement"] = true;
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            Object o = node("delete", e);
            o["e"] = E(x->getArgument()); o["arr"] = x->isArrayForm(); o["t"] = ty(x->getDestroyedType());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            Object o = node("throw", e);
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            Object o = node("mte", e);
            o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType());
            if (x->getExtendingDecl()) o["ext"] = id(x->getExtendingDecl());
            return o;
        }
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) {
            Object o = node("bte", e);
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { Object o = node("defarg", e); o["e"] = E(x->getExpr()); return o; }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { return E(x->getExpr()); }
        if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { Object o = node("zero", e); o["t"] = ty(e->getType()); return o; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            Object o = node("ilist", e);
            Array a;
            for (auto* q : x->inits()) a.push_back(E(q));
            o["args"] = std::move(a); o["t"] = ty(x->getType());
            if (auto* r = x->getType()->getAsCXXRecordDecl()) o["cls"] = clsName(r);
            return o;
        }
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { Object o = node("sil", e); o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType()); return o; }
        if (auto* x = dyn_cast<SizeOfPackExpr>(e)) {
            if (x->isValueDependent()) return unk(e);
            Object o = node("int", e);
            o["v"] = std::to_string(x->getPackLength()); o["t"] = "unsigned long";
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Object o = node("int", e);
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["v"] = s.str().str(); }
            else o["v"] = "0";
            o["t"] = "unsigned long";
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            Object o = node("lambda", e);
            Array caps;
            for (auto& c : x->captures()) {
                Object k;
                if (c.capturesThis()) k["this"] = true;
                else if (c.capturesVariable()) { k["lv"] = id(c.getCapturedVar()); k["ref"] = c.getCaptureKind() == LCK_ByRef; }
                caps.push_back(std::move(k));
            }
            o["caps"] = std::move(caps);
            Array inits;
            for (auto it = x->capture_init_begin(); it != x->capture_init_end(); ++it) inits.push_back(E(*it));
            o["inits"] = std::move(inits);
            const CXXMethodDecl* m = x->getCallOperator();
            o["fn"] = uid(m) + "#" + std::to_string(line(x->getBeginLoc()));
            Array ps;
            for (auto* p : m->parameters()) ps.push_back(param(p));
            o["params"] = std::move(ps);
            o["rt"] = ty(m->getReturnType());
            o["body"] = S(x->getBody());
            o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
            Object o = node("typeid", e);
            if (x->isTypeOperand()) o["t"] = ty(x->getTypeOperand(C)); else o["e"] = E(x->getExprOperand());
            return o;
        }
        if (auto* x = dyn_cast<VAArgExpr>(e)) { Object o = node("vaarg", e); o["e"] = E(x->getSubExpr()); o["t"] = ty(x->getType()); return o; }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
        return unk(e);
    }
    Object param(const ParmVarDecl* p) {
        Object o;
        o["id"] = id(p); o["n"] = p->getNameAsString(); o["t"] = ty(p->getType());
        if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg()) o["def"] = E(p->getDefaultArg());
        return o;
    }
    Object var(const VarDecl* v) {
        Object o;
        o["id"] = id(v); o["n"] = v->getNameAsString(); o["t"] = ty(v->getType());
        o["l"] = line(v->getLocation());
        if (auto* r = v->getType().getNonReferenceType()->getAsCXXRecordDecl()) o["cls"] = clsName(r);
        if (v->isStaticLocal()) { o["static"] = true; o["gu"] = uid(v); }
        o["const"] = v->getType().isConstQualified();
        if (v->getInit()) o["init"] = E(v->getInit());
        return o;
    }
    Value S(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            Object o = node("block", s);
            Array a;
            for (auto* q : x->body()) a.push_back(S(q));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            Object o = node("decl", s);
            Array a;
            for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            Object o = node("if", s);
            if (x->getInit()) o["init"] = S(x->getInit());
            if (auto* v = x->getConditionVariable()) o["var"] = var(v);
            o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            Object o = node("while", s);
            if (auto* v = x->getConditionVariable()) o["var"] = var(v);
            o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            Object o = node("do", s);
            o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            Object o = node("for", s);
            o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody());
            if (auto* v = x->getConditionVariable()) o["var"] = var(v);
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            Object o = node("rfor", s);
            o["range"] = E(x->getRangeInit());
            o["var"] = var(x->getLoopVariable());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { Object o = node("ret", s); o["e"] = E(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) return node("break", s);
        if (isa<ContinueStmt>(s)) return node("cont", s);
        if (isa<NullStmt>(s)) return node("nop", s);
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            Object o = node("try", s);
            o["b"] = S(x->getTryBlock());
            Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                const CXXCatchStmt* c = x->getHandler(i);
                Object k;
                if (c->getExceptionDecl()) {
                    QualType t = c->getCaughtType().getNonReferenceType().getUnqualifiedType();
                    k["t"] = ty(t);
                    k["var"] = var(c->getExceptionDecl());
                }
                k["b"] = S(c->getHandlerBlock());
                k["l"] = line(c->getBeginLoc());
                h.push_back(std::move(k));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            Object o = node("switch", s);
            if (x->getInit()) o["init"] = S(x->getInit());
            if (auto* v = x->getConditionVariable()) o["var"] = var(v);
            o["c"] = E(x->getCond()); o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            Object o = node("case", s);
            Expr::EvalResult r;
            if (x->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> t; r.Val.getInt().toString(t, 10); o["v"] = t.str().str(); }
            o["b"] = S(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { Object o = node("default", s); o["b"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { return S(x->getSubStmt()); }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { return S(x->getSubStmt()); }
        if (auto* x = dyn_cast<Expr>(s)) { Object o = node("expr", s); o["e"] = E(x); return o; }
        Object o = node("unkstmt", s);
        o["c"] = s->getStmtClassName();
        return o;
    }

    void emitFunction(const FunctionDecl* f) {
        const FunctionDecl* def = nullptr;
        bool hasBody = f->isDefined(def);
        if (!hasBody || !def) return;
        if (def->isDependentContext()) return;
        if (!inRepo(def->getLocation()) && !inRepo(f->getLocation())) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(def)) if (m->getParent()->isLambda()) return;
        std::string u = uid(def);
        static std::set<std::string> done;
        if (!done.insert(u).second) return;
        ids.clear();
        Object o;
        o["u"] = u; o["q"] = qual(def); o["name"] = def->getNameAsString();
        o["file"] = rel(def->getLocation()); o["l"] = line(def->getLocation());
        o["el"] = line(def->getEndLoc());
        o["rt"] = ty(def->getReturnType());
        Array ps;
        for (auto* p : def->parameters()) ps.push_back(param(p));
        o["params"] = std::move(ps);
        o["variadic"] = def->isVariadic();
        o["defaulted"] = def->isDefaulted(); o["implicit"] = def->isImplicit();
        o["internal"] = def->getFormalLinkage() == Linkage::Internal;
        if (auto* fpt = def->getType()->getAs<FunctionProtoType>()) {
            auto es = fpt->getExceptionSpecType();
            o["noexcept"] = es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone;
            o["noexcept_written"] = (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_DynamicNone) && !isa<CXXDestructorDecl>(def);
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(def)) {
            o["cls"] = clsName(m->getParent());
            o["static"] = m->isStatic(); o["const"] = m->isConst(); o["virt"] = m->isVirtual();
            o["access"] = (int)m->getCanonicalDecl()->getAccess();
            o["copyasg"] = m->isCopyAssignmentOperator(); o["moveasg"] = m->isMoveAssignmentOperator();
            Array ov;
            for (auto* q : m->overridden_methods()) ov.push_back(uid(q));
            o["ov"] = std::move(ov);
        }
        if (auto* c = dyn_cast<CXXConstructorDecl>(def)) {
            o["kind"] = "ctor";
            o["copy"] = c->isCopyConstructor(); o["move"] = c->isMoveConstructor(); o["dflt"] = c->isDefaultConstructor();
            Array in;
            for (auto* i : c->inits()) {
                Object k;
                k["l"] = line(i->getSourceLocation());
                k["w"] = i->isWritten();
                if (i->isAnyMemberInitializer()) { k["f"] = i->getAnyMember()->getNameAsString(); k["t"] = ty(i->getAnyMember()->getType()); }
                else if (i->isBaseInitializer()) k["base"] = clsName(i->getBaseClass()->getAsCXXRecordDecl());
                else if (i->isDelegatingInitializer()) k["deleg"] = true;
                k["e"] = E(i->getInit());
                in.push_back(std::move(k));
            }
            o["inits"] = std::move(in);
        } else if (isa<CXXDestructorDecl>(def)) o["kind"] = "dtor";
        if (const Stmt* b = def->getBody()) o["body"] = S(b);
        else o["body"] = nullptr;
        functions.push_back(std::move(o));
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (isa<CXXDeductionGuideDecl>(f)) return true;
        emitFunction(f);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || !inRepo(r->getLocation()) || r->isDependentContext() || r->isLambda()) return true;
        std::string n = clsName(r);
        static std::set<std::string> done;
        if (!done.insert(n).second) return true;
        Object o;
        o["q"] = n; o["name"] = r->getNameAsString(); o["qual"] = qual(r);
        o["file"] = rel(r->getLocation()); o["l"] = line(r->getLocation());
        o["abstract"] = r->isAbstract();
        o["hasUserMove"] = r->hasUserDeclaredMoveConstructor();
        Array bs, fs, ms;
        for (auto& b : r->bases()) bs.push_back(clsName(b.getType()->getAsCXXRecordDecl()));
        for (auto* f : r->fields()) {
            Object k;
            k["n"] = f->getNameAsString(); k["t"] = ty(f->getType()); k["mut"] = f->isMutable(); k["l"] = line(f->getLocation());
            k["access"] = (int)f->getAccess();
            if (auto* fr = f->getType()->getAsCXXRecordDecl()) k["cls"] = clsName(fr);
            if (f->hasInClassInitializer() && f->getInClassInitializer()) k["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(k));
        }
        for (auto* m : r->methods()) {
            Object k;
            k["u"] = uid(m); k["n"] = m->getNameAsString(); k["virt"] = m->isVirtual(); k["pure"] = m->isPureVirtual();
            k["static"] = m->isStatic(); k["const"] = m->isConst(); k["del"] = m->isDeleted(); k["def"] = m->isDefaulted();
            k["implicit"] = m->isImplicit(); k["access"] = (int)m->getAccess(); k["rt"] = ty(m->getReturnType());
            k["l"] = line(m->getLocation());
            k["kind"] = isa<CXXConstructorDecl>(m) ? "ctor" : isa<CXXDestructorDecl>(m) ? "dtor" : "m";
            if (auto* c = dyn_cast<CXXConstructorDecl>(m)) { k["copy"] = c->isCopyConstructor(); k["move"] = c->isMoveConstructor(); k["dflt"] = c->isDefaultConstructor(); k["explicit"] = c->isExplicit(); }
            k["copyasg"] = m->isCopyAssignmentOperator(); k["moveasg"] = m->isMoveAssignmentOperator();
            Array pt;
            for (auto* p : m->parameters()) { Object pp; pp["n"] = p->getNameAsString(); pp["t"] = ty(p->getType()); pp["d"] = p->hasDefaultArg(); pt.push_back(std::move(pp)); }
            k["pt"] = std::move(pt);
            Array ov;
            for (auto* q : m->overridden_methods()) ov.push_back(uid(q));
            k["ov"] = std::move(ov);
            ms.push_back(std::move(k));
        }
        o["bases"] = std::move(bs); o["fields"] = std::move(fs); o["methods"] = std::move(ms);
        classes.push_back(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* d) {
        if (!inRepo(d->getLocation()) || d->isDependentContext()) return true;
        Object o;
        o["q"] = qual(d); o["t"] = ty(C.getTypeDeclType(d));
        Array a;
        for (auto* c : d->enumerators()) { Object k; llvm::SmallString<32> s; c->getInitVal().toString(s, 10); k["n"] = c->getNameAsString(); k["v"] = s.str().str(); a.push_back(std::move(k)); }
        o["c"] = std::move(a); o["file"] = rel(d->getLocation()); o["l"] = line(d->getLocation());
        enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!v->hasGlobalStorage() || !inRepo(v->getLocation()) || v->getDeclContext()->isDependentContext()) return true;
        if (!v->isThisDeclarationADefinition() && !v->isStaticDataMember()) return true;
        Object o = var(v);
        o["q"] = qual(v); o["gu"] = uid(v); o["file"] = rel(v->getLocation());
        o["local"] = v->isStaticLocal();
        o["isdef"] = (bool)v->isThisDeclarationADefinition();
        globals.push_back(std::move(o));
        return true;
    }
};

struct Consumer : ASTConsumer {
    std::string out;
    explicit Consumer(std::string o) : out(std::move(o)) {}
    void HandleTranslationUnit(ASTContext& c) override {
        Dumper d(c);
        d.TraverseDecl(c.getTranslationUnitDecl());
        Object o;
        o["main"] = gMain;
        o["functions"] = std::move(d.functions); o["classes"] = std::move(d.classes);
        o["globals"] = std::move(d.globals); o["enums"] = std::move(d.enums);
        std::error_code ec;
        llvm::raw_fd_ostream os(out, ec);
        os << Value(std::move(o));
    }
};
struct Action : ASTFrontendAction {
    std::string out;
    explicit Action(std::string o) : out(std::move(o)) {}
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(out); }
};
// fldump ROOT SOURCE OUT -- flags...
int main(int argc, const char** argv) {
    if (argc < 4) return 2;
    gRoot = argv[1];
    if (gRoot.back() != '/') gRoot += '/';
    std::string src = argv[2];
    gMain = src.compare(0, gRoot.size(), gRoot) == 0 ? src.substr(gRoot.size()) : src;
    std::vector<std::string> cmd = {"clang++"};
    for (int i = 4; i < argc; ++i) if (std::string(argv[i]) != "--") cmd.push_back(argv[i]);
    cmd.push_back("-fsyntax-only");
    cmd.push_back(src);
    IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(cmd, std::make_unique<Action>(argv[3]), fm.get());
    return inv.run() ? 0 : 1;
}
