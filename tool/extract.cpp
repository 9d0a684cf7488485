// Extracts the resolved, instantiated program of one translation unit as JSON.
// usage: bmx OUT.json SRC.cpp ROOT -- flags...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Decl.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string g_root; // e.g. /repo/src/
static std::string g_out;
static std::string g_tu;
static bool g_ok = false;

namespace {

struct Extractor : RecursiveASTVisitor<Extractor> {
    ASTContext& C;
    SourceManager& SM;
    std::unique_ptr<MangleContext> mangler;
    PrintingPolicy PP;

    Array functions, types, vars;
    Object records, enums;
    std::unordered_map<const void*, int> type_ids;
    std::unordered_map<const void*, int> var_ids;
    std::set<const void*> done_fn, done_rec, done_enum, done_var;
    std::set<std::string> done_rec_name, done_enum_name;
    std::vector<const CXXRecordDecl*> rec_queue;
    std::map<const FunctionDecl*, std::string> key_cache;
    std::vector<const FunctionDecl*> extra_fns; // lambdas
    std::string cur_file;

    explicit Extractor(ASTContext& c)
        : C(c)
        , SM(c.getSourceManager())
        , mangler(ItaniumMangleContext::create(c, c.getDiagnostics()))
        , PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.SuppressDefaultTemplateArgs = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldWalkTypesOfTypeLocs() const { return false; }

    // ---------------------------------------------------------------- locations
    std::string file_of(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        if (p.isInvalid())
            return "";
        std::string f = p.getFilename();
        return f;
    }
    int line_of(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        return p.isInvalid() ? 0 : (int)p.getLine();
    }
    bool in_root(SourceLocation l)
    {
        std::string f = file_of(l);
        return f.compare(0, g_root.size(), g_root) == 0;
    }

    // ---------------------------------------------------------------- types
    int type(QualType t)
    {
        if (t.isNull())
            return -1;
        t = t.getCanonicalType();
        auto it = type_ids.find(t.getAsOpaquePtr());
        if (it != type_ids.end())
            return it->second;
        int id = (int)types.size();
        type_ids[t.getAsOpaquePtr()] = id;
        types.push_back(nullptr);
        Object o;
        o["s"] = t.getAsString(PP);
        if (t.isConstQualified())
            o["const"] = true;
        QualType u = t.getUnqualifiedType();
        const Type* ty = u.getTypePtr();
        if (auto* r = dyn_cast<RecordType>(ty)) {
            o["k"] = "rec";
            auto* rd = r->getDecl();
            o["n"] = rec_name(rd);
            if (auto* cxx = dyn_cast<CXXRecordDecl>(rd)) {
                if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(cxx)) {
                    o["tm"] = sp->getSpecializedTemplate()->getQualifiedNameAsString();
                    o["ta"] = targs(sp->getTemplateArgs());
                }
                if (cxx->isLambda()) {
                    o["lambda"] = true;
                }
                want_record(cxx);
            }
        }
        else if (auto* e = dyn_cast<EnumType>(ty)) {
            o["k"] = "enum";
            o["n"] = e->getDecl()->getQualifiedNameAsString();
            auto ut = e->getDecl()->getIntegerType();
            if (!ut.isNull()) {
                o["bits"] = (int)C.getTypeSize(ut);
                o["sg"] = ut->isSignedIntegerType();
            }
            want_enum(e->getDecl());
        }
        else if (auto* p = dyn_cast<PointerType>(ty)) {
            o["k"] = "ptr";
            o["to"] = type(p->getPointeeType());
        }
        else if (auto* p = dyn_cast<ReferenceType>(ty)) {
            o["k"] = isa<LValueReferenceType>(p) ? "ref" : "rref";
            o["to"] = type(p->getPointeeType());
        }
        else if (auto* b = dyn_cast<BuiltinType>(ty)) {
            if (b->getKind() == BuiltinType::NullPtr)
                o["k"] = "nullptr";
            else if (b->isVoidType())
                o["k"] = "void";
            else if (b->getKind() == BuiltinType::Bool)
                o["k"] = "bool";
            else if (b->isInteger()) {
                o["k"] = "int";
                o["bits"] = (int)C.getTypeSize(u);
                o["sg"] = b->isSignedInteger();
            }
            else if (b->isFloatingPoint())
                o["k"] = "float";
            else
                o["k"] = "other";
        }
        else if (auto* a = dyn_cast<ConstantArrayType>(ty)) {
            o["k"] = "arr";
            o["to"] = type(a->getElementType());
            o["len"] = (int64_t)a->getSize().getZExtValue();
        }
        else if (ty->isFunctionType()) {
            o["k"] = "func";
        }
        else if (auto* mp = dyn_cast<MemberPointerType>(ty)) {
            o["k"] = "mptr";
            o["to"] = type(mp->getPointeeType());
        }
        else {
            o["k"] = "other";
        }
        types[id] = std::move(o);
        return id;
    }

    Array targs(const TemplateArgumentList& l)
    {
        Array a;
        for (auto& x : l.asArray())
            targ(a, x);
        return a;
    }
    void targ(Array& a, const TemplateArgument& x)
    {
        switch (x.getKind()) {
        case TemplateArgument::Type: a.push_back(Object { { "t", type(x.getAsType()) } }); break;
        case TemplateArgument::Integral: {
            llvm::SmallString<32> s;
            x.getAsIntegral().toString(s);
            a.push_back(Object { { "i", s.str().str() } });
            break;
        }
        case TemplateArgument::Pack: {
            for (auto& y : x.pack_elements())
                targ(a, y);
            break;
        }
        case TemplateArgument::Declaration:
            a.push_back(Object { { "d", x.getAsDecl()->getQualifiedNameAsString() } });
            break;
        default: a.push_back(Object { { "o", 1 } });
        }
    }

    std::string rec_name(const RecordDecl* rd)
    {
        if (auto* cxx = dyn_cast<CXXRecordDecl>(rd))
            if (cxx->isLambda()) {
                return "lambda@" + key(cxx->getLambdaCallOperator() ? lambda_anchor(cxx) : nullptr)
                    + "#" + std::to_string(lambda_id(cxx));
            }
        std::string s;
        llvm::raw_string_ostream os(s);
        QualType t = C.getRecordType(rd);
        t.getCanonicalType().getUnqualifiedType().print(os, PP);
        return os.str();
    }
    std::map<const CXXRecordDecl*, int> lambda_ids;
    int lambda_id(const CXXRecordDecl* r)
    {
        auto it = lambda_ids.find(r);
        if (it != lambda_ids.end())
            return it->second;
        int n = (int)lambda_ids.size();
        lambda_ids[r] = n;
        return n;
    }
    const FunctionDecl* lambda_anchor(const CXXRecordDecl*) { return nullptr; }

    std::string key(const FunctionDecl* f)
    {
        if (!f)
            return g_tu;
        f = f->getCanonicalDecl();
        auto it = key_cache.find(f);
        if (it != key_cache.end())
            return it->second;
        std::string s;
        llvm::raw_string_ostream os(s);
        bool local = false;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (m->getParent()->isLambda()) {
                local = true;
                os << "L" << lambda_id(m->getParent());
                if (auto* ta = f->getTemplateSpecializationArgs()) {
                    (void)ta;
                    os << "_" << (key_cache.size());
                }
                os << "_" << m->getDeclName().getAsString();
            }
        }
        if (!local) {
            if (!f->isExternallyVisible())
                local = true;
            if (f->isDependentContext()) {
                os << f->getQualifiedNameAsString() << "<dep>";
            }
            else if (f->getDeclContext()->isDependentContext()) {
                os << f->getQualifiedNameAsString() << "<dep>";
            }
            else if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                mangler->mangleName(GlobalDecl(c, Ctor_Complete), os);
            }
            else if (auto* d = dyn_cast<CXXDestructorDecl>(f)) {
                mangler->mangleName(GlobalDecl(d, Dtor_Complete), os);
            }
            else if (f->getType()->isDependentType() || isa<CXXDeductionGuideDecl>(f)) {
                os << f->getQualifiedNameAsString() << "<dep>";
            }
            else if (mangler->shouldMangleDeclName(f)) {
                mangler->mangleName(GlobalDecl(f), os);
            }
            else
                os << f->getNameAsString();
        }
        os.flush();
        if (local)
            s += "@" + g_tu;
        key_cache[f] = s;
        return s;
    }

    int var(const ValueDecl* v)
    {
        v = cast<ValueDecl>(v->getCanonicalDecl());
        auto it = var_ids.find(v);
        if (it != var_ids.end())
            return it->second;
        int id = (int)var_ids.size();
        var_ids[v] = id;
        return id;
    }

    void want_record(const CXXRecordDecl* r)
    {
        if (done_rec.insert(r->getCanonicalDecl()).second)
            rec_queue.push_back(r);
    }
    void want_enum(const EnumDecl* e)
    {
        if (!done_enum.insert(e->getCanonicalDecl()).second)
            return;
        auto* d = e->getDefinition();
        if (!d)
            return;
        Array es;
        for (auto* c : d->enumerators()) {
            llvm::SmallString<32> s;
            c->getInitVal().toString(s);
            es.push_back(Array { c->getNameAsString(), s.str().str() });
        }
        enums[d->getQualifiedNameAsString()]
            = Object { { "e", std::move(es) }, { "file", file_of(d->getLocation()) } };
    }
    void emit_record(const CXXRecordDecl* r0)
    {
        auto* r = r0->getDefinition();
        if (!r)
            return;
        Object o;
        o["file"] = file_of(r->getLocation());
        o["line"] = line_of(r->getLocation());
        o["q"] = r->getQualifiedNameAsString();
        if (r->isUnion())
            o["union"] = true;
        if (r->isLambda())
            o["lambda"] = true;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
            o["tm"] = sp->getSpecializedTemplate()->getQualifiedNameAsString();
            o["ta"] = targs(sp->getTemplateArgs());
        }
        if (r->isDependentType())
            return;
        if (r->isAggregate())
            o["agg"] = true;
        bool detail = in_root(r->getLocation());
        Array bases;
        for (auto& b : r->bases())
            bases.push_back(type(b.getType()));
        o["bases"] = std::move(bases);
        if (r->isPolymorphic())
            o["poly"] = true;
        Array fields;
        for (auto* f : r->fields()) {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            if (f->isAnonymousStructOrUnion())
                fo["anon"] = true;
            if (detail && f->hasInClassInitializer() && f->getInClassInitializer()
                && !f->getInClassInitializer()->isInstantiationDependent())
                fo["init"] = expr(f->getInClassInitializer());
            if (f->isMutable())
                fo["mutable"] = true;
            fields.push_back(std::move(fo));
        }
        o["fields"] = std::move(fields);
        if (detail) {
            Array ms;
            for (auto* d : r->methods()) {
                Object m;
                m["n"] = d->getDeclName().getAsString();
                m["f"] = key(d);
                if (d->isVirtual()) {
                    m["virt"] = true;
                    if (d->isPureVirtual())
                        m["pure"] = true;
                    Array ov;
                    for (auto* x : d->overridden_methods())
                        ov.push_back(key(x));
                    m["ov"] = std::move(ov);
                }
                if (d->isDefaulted())
                    m["def"] = true;
                ms.push_back(std::move(m));
            }
            o["methods"] = std::move(ms);
        }
        if (auto* d = r->getDestructor())
            if (d->isUserProvided()) {
                o["dtor"] = key(d);
                if (!in_root(d->getLocation()))
                    o["dtor_ext"] = true;
            }
        records[rec_name(r)] = std::move(o);
    }

    // ---------------------------------------------------------------- expressions
    Object mk(const char* k, const Expr* e)
    {
        Object o;
        o["k"] = k;
        o["l"] = line_of(e->getBeginLoc());
        o["t"] = type(e->getType());
        if (e->isGLValue())
            o["lv"] = e->isXValue() ? 2 : 1;
        return o;
    }
    std::string source_text(const Expr* e)
    {
        auto r = CharSourceRange::getTokenRange(e->getSourceRange());
        r = Lexer::makeFileCharRange(r, SM, C.getLangOpts());
        if (r.isInvalid())
            return "";
        auto s = Lexer::getSourceText(r, SM, C.getLangOpts());
        if (s.size() > 80)
            s = s.substr(0, 80);
        return s.str();
    }
    Array exprs(ArrayRef<const Expr*> a)
    {
        Array r;
        for (auto* x : a)
            r.push_back(expr(x));
        return r;
    }
    template <typename R>
    Array exprs_range(R&& a)
    {
        Array r;
        for (auto* x : a)
            r.push_back(expr(x));
        return r;
    }
    void callee(Object& o, const FunctionDecl* f)
    {
        o["f"] = key(f);
        o["q"] = f->getQualifiedNameAsString();
        o["n"] = f->getDeclName().getAsString();
        if (auto* ta = f->getTemplateSpecializationArgs())
            o["fta"] = targs(*ta);
        if (!in_root(f->getLocation()))
            o["ext"] = true;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            if (!m->isStatic())
                o["m"] = true;
            if (m->isVirtual())
                o["virt"] = true;
            o["rec"] = type(C.getRecordType(m->getParent()));
            if (m->isDefaulted() && (m->isCopyAssignmentOperator() || m->isMoveAssignmentOperator()))
                o["defassign"] = true;
            if (m->isDefaulted())
                o["defd"] = true;
        }
        else if (f->isDefaulted())
            o["defd"] = true;
        if (f->isNoReturn())
            o["noreturn"] = true;
        // parameter passing kinds
        Array ps;
        for (auto* p : f->parameters())
            ps.push_back(type(p->getType()));
        o["pt"] = std::move(ps);
        if (f->isOverloadedOperator())
            o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        note_fn(f);
    }
    void note_fn(const FunctionDecl* f)
    {
        const FunctionDecl* d = nullptr;
        if (f->hasBody(d) && d && in_root(d->getLocation()))
            extra_fns.push_back(d);
    }

    Value expr(const Expr* e)
    {
        if (!e)
            return nullptr;
        // constant folding of side-effect-free integral expressions
        QualType t = e->getType();
        if (!e->isGLValue() && !e->isTypeDependent() && !e->isValueDependent()
            && (t->isIntegralOrEnumerationType())
            && !isa<CXXDefaultArgExpr>(e)) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects) && !r.HasSideEffects) {
                Object o = mk("int", e);
                llvm::SmallString<40> s;
                r.Val.getInt().toString(s);
                o["v"] = s.str().str();
                if (!isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e))
                    o["src"] = source_text(e);
                return o;
            }
        }
        if (auto* x = dyn_cast<ParenExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
            return expr(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return expr(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) {
            return expr(x->getExpr());
        }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) {
            Object o = mk("dinit", e);
            o["e"] = expr(x->getExpr());
            return o;
        }
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return expr(x->getSemanticForm());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e))
            return expr(x->getSourceExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            Object o = mk("stdinit", e);
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            Object o = mk("temp", e);
            o["e"] = expr(x->getSubExpr());
            if (x->getExtendingDecl())
                o["ext"] = true;
            return o;
        }
        if (auto* x = dyn_cast<UserDefinedLiteral>(e)) {
            Object o = mk("call", e);
            callee(o, x->getDirectCallee());
            o["a"] = exprs_range(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            Object o = mk("str", e);
            o["v"] = x->getCharByteWidth() == 1 ? llvm::json::fixUTF8(x->getString()) : std::string();
            return o;
        }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) {
            Object o = mk("str", e);
            o["v"] = "__func__";
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return mk("null", e);
        if (isa<CXXThisExpr>(e))
            return mk("this", e);
        if (isa<SourceLocExpr>(e))
            return mk("srcloc", e);
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* d = x->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                Object o = mk("fref", e);
                callee(o, f);
                return o;
            }
            if (auto* b = dyn_cast<BindingDecl>(d)) {
                Object o = mk("var", e);
                o["v"] = var(b);
                o["n"] = b->getNameAsString();
                o["sc"] = "bind";
                return o;
            }
            if (auto* v = dyn_cast<VarDecl>(d)) {
                Object o = mk("var", e);
                o["v"] = var(v);
                o["n"] = v->getNameAsString();
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal())
                    o["sc"] = isa<ParmVarDecl>(v) ? "parm" : "local";
                else {
                    o["sc"] = "global";
                    o["q"] = gname(v);
                    if (in_root(v->getLocation()))
                        want_var(v);
                }
                return o;
            }
            if (auto* tp = dyn_cast<TemplateParamObjectDecl>(d)) {
                Object o = mk("tpo", e);
                (void)tp;
                return o;
            }
            if (isa<FieldDecl>(d)) {
                Object o = mk("fieldref", e);
                o["n"] = d->getNameAsString();
                return o;
            }
            Object o = mk("unk", e);
            o["c"] = e->getStmtClassName();
            o["dk"] = d->getDeclKindName();
            o["n"] = d->getNameAsString();
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* v = dyn_cast<VarDecl>(d)) { // static member
                Object o = mk("var", e);
                o["v"] = var(v);
                o["n"] = v->getNameAsString();
                o["sc"] = "global";
                o["q"] = gname(v);
                if (in_root(v->getLocation()))
                    want_var(v);
                return o;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                Object o = mk("fref", e);
                callee(o, f);
                o["b"] = expr(x->getBase());
                return o;
            }
            Object o = mk("mem", e);
            o["b"] = expr(x->getBase());
            o["ar"] = x->isArrow();
            o["n"] = d->getNameAsString();
            if (auto* fd = dyn_cast<FieldDecl>(d)) {
                o["r"] = rec_name(fd->getParent());
                if (fd->isAnonymousStructOrUnion())
                    o["anon"] = true;
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            Object o = mk("call", e);
            if (auto* m = x->getMethodDecl()) {
                callee(o, m);
                Expr* obj = x->getImplicitObjectArgument();
                o["o"] = expr(obj);
                if (obj && obj->getType()->isPointerType())
                    o["oar"] = true;
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                    if (me->hasQualifier())
                        o["novirt"] = true;
                o["a"] = exprs_range(x->arguments());
            }
            else {
                o["fe"] = expr(x->getCallee());
                o["a"] = exprs_range(x->arguments());
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            Object o = mk("call", e);
            auto* f = x->getDirectCallee();
            if (!f) {
                o["fe"] = expr(x->getCallee());
                o["a"] = exprs_range(x->arguments());
                return o;
            }
            callee(o, f);
            auto* m = dyn_cast<CXXMethodDecl>(f);
            Array a;
            unsigned i = 0;
            for (auto* arg : x->arguments()) {
                if (m && i == 0) {
                    if (!m->isStatic())
                        o["o"] = expr(arg);
                }
                else
                    a.push_back(expr(arg));
                ++i;
            }
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            Object o = mk("call", e);
            if (auto* f = x->getDirectCallee()) {
                callee(o, f);
                if (f->getBuiltinID())
                    o["builtin"] = f->getNameAsString();
            }
            else
                o["fe"] = expr(x->getCallee());
            o["a"] = exprs_range(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            Object o = mk("unk", e);
            o["c"] = e->getStmtClassName();
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            Object o = mk("ctor", e);
            auto* cd = x->getConstructor();
            callee(o, cd);
            o["a"] = exprs_range(x->arguments());
            if (cd->isCopyConstructor())
                o["cp"] = true;
            if (cd->isMoveConstructor())
                o["mv"] = true;
            if (cd->isDefaultConstructor())
                o["dc"] = true;
            if (cd->isImplicit() || cd->isDefaulted())
                o["triv"] = true;
            if (x->isElidable())
                o["el"] = true;
            if (x->requiresZeroInitialization())
                o["zi"] = true;
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            Object o = mk("lambda", e);
            auto* cls = x->getLambdaClass();
            o["lid"] = lambda_id(cls);
            Array caps;
            auto init = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesThis()) {
                    co["k"] = "this";
                    if (c.getCaptureKind() == LCK_StarThis)
                        co["copy"] = true;
                }
                else if (c.capturesVariable()) {
                    auto* v = c.getCapturedVar();
                    co["k"] = c.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    co["v"] = var(v);
                    co["n"] = v->getNameAsString();
                    if (auto* vd = dyn_cast<VarDecl>(v); vd && vd->isInitCapture()) {
                        co["ic"] = true;
                        co["t"] = type(vd->getType());
                    }
                    co["init"] = expr(*init);
                }
                else
                    co["k"] = "vla";
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            Array ops;
            if (auto* ft = cls->getDependentLambdaCallOperator()) {
                for (auto* sp : ft->specializations())
                    note_lambda(ops, sp);
            }
            else if (auto* m = cls->getLambdaCallOperator())
                note_lambda(ops, m);
            o["ops"] = std::move(ops);
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            // ImplicitCast, explicit casts, functional casts
            auto k = x->getCastKind();
            if (k == CK_NoOp || k == CK_ConstructorConversion || k == CK_UserDefinedConversion
                || k == CK_Dependent) {
                // keep the value category change but no semantic effect
                return expr(x->getSubExpr());
            }
            if (k == CK_LValueToRValue) {
                Object o = mk("load", e);
                o["e"] = expr(x->getSubExpr());
                return o;
            }
            Object o = mk("cast", e);
            o["ck"] = x->getCastKindName();
            o["e"] = expr(x->getSubExpr());
            if (!isa<ImplicitCastExpr>(x))
                o["expl"] = true;
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            Object o = mk("un", e);
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                o["post"] = true;
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            Object o = mk("cassign", e);
            o["op"] = BinaryOperator::getOpcodeStr(
                          BinaryOperator::getOpForCompoundAssignment(x->getOpcode()))
                          .str();
            o["ct"] = type(x->getComputationLHSType());
            o["rt"] = type(x->getComputationResultType());
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            Object o = mk(x->getOpcode() == BO_Assign ? "assign" : "bin", e);
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            Object o = mk("cond", e);
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (!x->isSemanticForm() && x->getSemanticForm())
                x = x->getSemanticForm();
            if (x->isTransparent() && x->getNumInits() == 1)
                return expr(x->getInit(0));
            Object o = mk("init", e);
            Array a;
            for (unsigned i = 0; i < x->getNumInits(); ++i)
                a.push_back(expr(x->getInit(i)));
            o["a"] = std::move(a);
            if (auto* f = x->getInitializedFieldInUnion())
                o["uf"] = f->getNameAsString();
            return o;
        }
        if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) {
            Object o = mk("init", e);
            Array a;
            for (auto* y : x->getInitExprs())
                a.push_back(expr(y));
            o["a"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            return mk("zero", e);
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            Object o = mk("throw", e);
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            Object o = mk("idx", e);
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            Object o = mk("new", e);
            o["at"] = type(x->getAllocatedType());
            if (auto* c = x->getInitializer())
                o["e"] = expr(c);
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            Object o = mk("delete", e);
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
            Object o = mk("arrcopy", e);
            o["e"] = expr(x->getCommonExpr()->getSourceExpr());
            return o;
        }
        if (auto* x = dyn_cast<StmtExpr>(e)) {
            Object o = mk("stmtexpr", e);
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e))
            return mk("typeid", e);
        if (auto* x = dyn_cast<FloatingLiteral>(e))
            return mk("float", e);
        Object o = mk("unk", e);
        o["c"] = e->getStmtClassName();
        return o;
    }
    void note_lambda(Array& ops, const FunctionDecl* f)
    {
        if (f->isDependentContext())
            return;
        const FunctionDecl* d = nullptr;
        if (!f->hasBody(d))
            return;
        ops.push_back(key(f));
        extra_fns.push_back(d);
    }

    std::string gname(const VarDecl* v)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (v->isStaticLocal() || !v->isExternallyVisible())
        {
            if (isa<VarTemplateSpecializationDecl>(v))
                v->getNameForDiagnostic(os, PP, true);
            else
                os << v->getQualifiedNameAsString();
            os << "@" << g_tu << "#" << line_of(v->getLocation());
            if (auto* f = dyn_cast<FunctionDecl>(v->getDeclContext()); f && f->isTemplateInstantiation())
                os << "/" << key(f);
        }
        else if (mangler->shouldMangleDeclName(v))
            mangler->mangleName(GlobalDecl(v), os);
        else
            os << v->getQualifiedNameAsString();
        return os.str();
    }
    std::vector<const VarDecl*> var_queue;
    void want_var(const VarDecl* v)
    {
        if (done_var.insert(v->getCanonicalDecl()).second)
            var_queue.push_back(v);
    }
    void emit_var(const VarDecl* v)
    {
        if (v->getType()->isDependentType() || v->isInvalidDecl())
            return;
        Object o;
        o["q"] = gname(v);
        o["qn"] = v->getQualifiedNameAsString();
        o["t"] = type(v->getType());
        o["file"] = file_of(v->getLocation());
        o["line"] = line_of(v->getLocation());
        if (v->isConstexpr())
            o["cx"] = true;
        if (v->isStaticLocal())
            o["sl"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = true;
        const VarDecl* def = v;
        if (auto* i = v->getAnyInitializer(def))
            if (!i->isInstantiationDependent())
                o["init"] = expr(i);
        vars.push_back(std::move(o));
    }

    // ---------------------------------------------------------------- statements
    Value decl_one(const Decl* d, SourceLocation l)
    {
        if (auto* dd = dyn_cast<DecompositionDecl>(d)) {
            Object o;
            o["k"] = "decomp";
            o["l"] = line_of(l);
            o["v"] = var(dd);
            o["t"] = type(dd->getType());
            o["e"] = expr(dd->getInit());
            Array bs;
            for (auto* b : dd->bindings()) {
                Object bo;
                bo["v"] = var(b);
                bo["n"] = b->getNameAsString();
                if (auto* hv = b->getHoldingVar()) {
                    bo["hv"] = var(hv);
                    bo["ht"] = type(hv->getType());
                    bo["e"] = expr(hv->getInit());
                }
                else
                    bo["e"] = expr(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bs"] = std::move(bs);
            return o;
        }
        if (auto* v = dyn_cast<VarDecl>(d)) {
            Object o;
            o["k"] = "decl";
            o["l"] = line_of(v->getLocation());
            o["v"] = var(v);
            o["n"] = v->getNameAsString();
            o["t"] = type(v->getType());
            if (v->isStaticLocal()) {
                o["static"] = true;
                o["q"] = gname(v);
                want_var(v);
            }
            else if (v->getInit())
                o["e"] = expr(v->getInit());
            return o;
        }
        return nullptr;
    }
    Value stmt(const Stmt* s)
    {
        if (!s)
            return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) {
            Object o;
            o["k"] = "expr";
            o["l"] = line_of(e->getBeginLoc());
            o["e"] = expr(e);
            return o;
        }
        Object o;
        o["l"] = line_of(s->getBeginLoc());
        switch (s->getStmtClass()) {
        case Stmt::CompoundStmtClass: {
            o["k"] = "blk";
            Array a;
            for (auto* x : cast<CompoundStmt>(s)->body())
                a.push_back(stmt(x));
            o["s"] = std::move(a);
            o["e"] = line_of(s->getEndLoc());
            return o;
        }
        case Stmt::DeclStmtClass: {
            o["k"] = "decls";
            Array a;
            for (auto* d : cast<DeclStmt>(s)->decls()) {
                Value v = decl_one(d, s->getBeginLoc());
                if (v.kind() != Value::Null)
                    a.push_back(std::move(v));
            }
            o["s"] = std::move(a);
            return o;
        }
        case Stmt::IfStmtClass: {
            auto* x = cast<IfStmt>(s);
            if (x->isConsteval()) {
                o["k"] = "blk";
                Array a;
                auto* br = x->isNegatedConsteval() ? x->getThen() : x->getElse();
                if (br)
                    a.push_back(stmt(br));
                o["s"] = std::move(a);
                return o;
            }
            if (x->isConstexpr()) {
                auto taken = x->getNondiscardedCase(C);
                if (taken) {
                    o["k"] = "blk";
                    Array a;
                    if (x->getInit())
                        a.push_back(stmt(x->getInit()));
                    if (*taken)
                        a.push_back(stmt(*taken));
                    o["s"] = std::move(a);
                    return o;
                }
            }
            o["k"] = "if";
            if (x->getInit())
                o["i"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = decl_one(x->getConditionVariable(), s->getBeginLoc());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            if (x->getElse())
                o["b"] = stmt(x->getElse());
            return o;
        }
        case Stmt::WhileStmtClass: {
            auto* x = cast<WhileStmt>(s);
            o["k"] = "while";
            if (x->getConditionVariable())
                o["cv"] = decl_one(x->getConditionVariable(), s->getBeginLoc());
            o["c"] = expr(x->getCond());
            o["s"] = stmt(x->getBody());
            return o;
        }
        case Stmt::DoStmtClass: {
            auto* x = cast<DoStmt>(s);
            o["k"] = "do";
            o["c"] = expr(x->getCond());
            o["s"] = stmt(x->getBody());
            return o;
        }
        case Stmt::ForStmtClass: {
            auto* x = cast<ForStmt>(s);
            o["k"] = "for";
            o["i"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = decl_one(x->getConditionVariable(), s->getBeginLoc());
            o["c"] = expr(x->getCond());
            o["n"] = expr(x->getInc());
            o["s"] = stmt(x->getBody());
            return o;
        }
        case Stmt::CXXForRangeStmtClass: {
            auto* x = cast<CXXForRangeStmt>(s);
            o["k"] = "range";
            if (x->getInit())
                o["i"] = stmt(x->getInit());
            o["r"] = expr(x->getRangeInit());
            o["rt"] = type(x->getRangeInit()->getType());
            auto* lv = x->getLoopVariable();
            if (auto* dd = dyn_cast<DecompositionDecl>(lv))
                o["d"] = decl_one(dd, s->getBeginLoc());
            else {
                Object d;
                d["k"] = "decl";
                d["v"] = var(lv);
                d["n"] = lv->getNameAsString();
                d["t"] = type(lv->getType());
                d["l"] = line_of(lv->getLocation());
                o["d"] = std::move(d);
            }
            o["s"] = stmt(x->getBody());
            return o;
        }
        case Stmt::SwitchStmtClass: {
            auto* x = cast<SwitchStmt>(s);
            o["k"] = "switch";
            if (x->getInit())
                o["i"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = decl_one(x->getConditionVariable(), s->getBeginLoc());
            o["c"] = expr(x->getCond());
            o["s"] = stmt(x->getBody());
            return o;
        }
        case Stmt::CaseStmtClass: {
            auto* x = cast<CaseStmt>(s);
            o["k"] = "case";
            o["v"] = expr(x->getLHS());
            if (x->getRHS())
                o["v2"] = expr(x->getRHS());
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        case Stmt::DefaultStmtClass:
            o["k"] = "default";
            o["s"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
            return o;
        case Stmt::ReturnStmtClass: {
            auto* x = cast<ReturnStmt>(s);
            o["k"] = "ret";
            if (x->getRetValue())
                o["e"] = expr(x->getRetValue());
            return o;
        }
        case Stmt::BreakStmtClass: o["k"] = "break"; return o;
        case Stmt::ContinueStmtClass: o["k"] = "cont"; return o;
        case Stmt::NullStmtClass: o["k"] = "null"; return o;
        case Stmt::CXXTryStmtClass: {
            auto* x = cast<CXXTryStmt>(s);
            o["k"] = "try";
            o["s"] = stmt(x->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                Object ho;
                if (h->getExceptionDecl()) {
                    ho["t"] = type(h->getCaughtType());
                    ho["v"] = var(h->getExceptionDecl());
                }
                ho["s"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return o;
        }
        case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
        case Stmt::LabelStmtClass:
            o["k"] = "label";
            o["s"] = stmt(cast<LabelStmt>(s)->getSubStmt());
            return o;
        default:
            o["k"] = "unks";
            o["c"] = s->getStmtClassName();
            return o;
        }
    }

    // ---------------------------------------------------------------- functions
    void emit_function(const FunctionDecl* f)
    {
        const FunctionDecl* d = nullptr;
        if (!f->hasBody(d) && !f->isDefaulted())
            return;
        if (!d)
            return;
        f = d;
        if (f->isDependentContext() || f->getType()->isDependentType())
            return;
        if (!in_root(f->getLocation()))
            return;
        if (!done_fn.insert(f->getCanonicalDecl()).second)
            return;
        Object o;
        o["f"] = key(f);
        o["q"] = f->getQualifiedNameAsString();
        o["n"] = f->getDeclName().getAsString();
        o["file"] = file_of(f->getLocation());
        o["l"] = line_of(f->getLocation());
        o["el"] = line_of(f->getEndLoc());
        o["rt"] = type(f->getReturnType());
        if (auto* ta = f->getTemplateSpecializationArgs())
            o["fta"] = targs(*ta);
        if (f->isDefaulted())
            o["defd"] = true;
        if (f->isNoReturn())
            o["noreturn"] = true;
        if (f->isOverloadedOperator())
            o["op"] = getOperatorSpelling(f->getOverloadedOperator());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["rec"] = type(C.getRecordType(m->getParent()));
            if (m->isStatic())
                o["static"] = true;
            if (m->isConst())
                o["const"] = true;
            if (m->getParent()->isLambda()) {
                o["lambda"] = lambda_id(m->getParent());
                // enclosing function
                const DeclContext* dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc))
                    dc = dc->getParent();
                if (dc)
                    o["encl"] = key(cast<FunctionDecl>(dc));
            }
            if (m->isVirtual()) {
                Array ov;
                for (auto* x : m->overridden_methods())
                    ov.push_back(key(x));
                o["ov"] = std::move(ov);
                o["virt"] = true;
            }
        }
        Array ps;
        for (auto* p : f->parameters()) {
            ps.push_back(Object { { "v", var(p) },
                                  { "n", p->getNameAsString() },
                                  { "t", type(p->getType()) } });
        }
        o["p"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            Array is;
            for (auto* i : c->inits()) {
                Object io;
                if (i->isBaseInitializer()) {
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                }
                else if (i->isDelegatingInitializer())
                    io["deleg"] = true;
                else if (auto* m = i->getAnyMember()) {
                    io["m"] = m->getNameAsString();
                    io["mt"] = type(m->getType());
                }
                io["e"] = expr(i->getInit());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
            o["ctor"] = true;
        }
        if (isa<CXXDestructorDecl>(f))
            o["dtor"] = true;
        o["b"] = stmt(f->getBody());
        functions.push_back(std::move(o));
    }

    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->doesThisDeclarationHaveABody())
            emit_function(f);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if (v->hasGlobalStorage() && in_root(v->getLocation())
            && !v->getDeclContext()->isDependentContext() && !v->getType()->isDependentType()
            && !isa<VarTemplatePartialSpecializationDecl>(v) && !v->getDescribedVarTemplate())
            want_var(v);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        if (in_root(r->getLocation()) && !r->isDependentType() && r->isThisDeclarationADefinition()
            && !r->isInjectedClassName())
            type(C.getRecordType(r));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        if (in_root(e->getLocation()))
            want_enum(e);
        return true;
    }

    void finish()
    {
        bool more = true;
        while (more) {
            more = false;
            while (!extra_fns.empty()) {
                auto* f = extra_fns.back();
                extra_fns.pop_back();
                emit_function(f);
                more = true;
            }
            while (!var_queue.empty()) {
                auto* v = var_queue.back();
                var_queue.pop_back();
                emit_var(v);
                more = true;
            }
            while (!rec_queue.empty()) {
                auto* r = rec_queue.back();
                rec_queue.pop_back();
                emit_record(r);
                more = true;
            }
        }
        Object top;
        top["tu"] = g_tu;
        top["functions"] = std::move(functions);
        top["types"] = std::move(types);
        top["vars"] = std::move(vars);
        top["records"] = std::move(records);
        top["enums"] = std::move(enums);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(top));
        g_ok = !ec;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& c) override
    {
        if (c.getDiagnostics().hasErrorOccurred())
            return;
        Extractor x(c);
        x.TraverseDecl(c.getTranslationUnitDecl());
        x.finish();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, char** argv)
{
    if (argc < 5) {
        llvm::errs() << "usage: bmx OUT SRC ROOT TUNAME -- flags\n";
        return 2;
    }
    g_out = argv[1];
    std::string src = argv[2];
    g_root = argv[3];
    g_tu = argv[4];
    std::vector<std::string> flags;
    for (int i = 6; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { src });
    int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return r == 0 && g_ok ? 0 : 2;
}
