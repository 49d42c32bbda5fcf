// Fact extractor: dumps a compact typed AST (JSON, one object per line) of every
// function defined under a source root, with template instantiations and lambdas
// resolved by clang.  Nothing is executed; the analyses in ../fv read this.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::string Root;
static llvm::raw_ostream* Out;

class Dumper : public RecursiveASTVisitor<Dumper>
{
public:
    explicit Dumper(ASTContext& c) : Ctx(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = true;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto p = SM.getPresumedLoc(l);
        if (p.isInvalid())
            return "";
        return p.getFilename();
    }
    unsigned lineOf(SourceLocation l)
    {
        return SM.getExpansionLineNumber(l);
    }
    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        auto f = fileOf(l);
        return f.compare(0, Root.size(), Root) == 0;
    }
    std::string rel(const std::string& f)
    {
        if (f.compare(0, Root.size(), Root) == 0)
            return f.substr(Root.size());
        return f;
    }
    std::string ty(QualType t)
    {
        if (t.isNull())
            return "";
        std::string s = t.getCanonicalType().getAsString(PP);
        if (s.size() > 400)
            s = s.substr(0, 400);
        return s;
    }
    std::string locStr(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        return rel(fileOf(l)) + ":" + std::to_string(lineOf(l)) + ":"
            + std::to_string(SM.getExpansionColumnNumber(l));
    }
    std::string recName(const CXXRecordDecl* R)
    {
        if (!R)
            return "";
        if (R->isLambda())
            return "lambda@" + locStr(R->getBeginLoc());
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
            S->getNameForDiagnostic(os, PP, true);
        else
            R->printQualifiedName(os, PP);
        os.flush();
        if (s.size() > 300)
            s = s.substr(0, 300);
        return s;
    }
    std::string fname(const FunctionDecl* F)
    {
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            return recName(M->getParent()) + "::" + F->getNameAsString();
        }
        return F->getQualifiedNameAsString();
    }
    // unique id of a function
    std::string fid(const FunctionDecl* F)
    {
        auto it = FidCache.find(F->getCanonicalDecl());
        if (it != FidCache.end())
            return it->second;
        std::string s = fname(F);
        if (auto* args = F->getTemplateSpecializationArgs())
        {
            s += "<";
            for (auto& a : args->asArray())
            {
                std::string t;
                llvm::raw_string_ostream os(t);
                a.print(PP, os, true);
                os.flush();
                s += t + ",";
            }
            s += ">";
        }
        s += "(";
        for (auto* p : F->parameters())
            s += p->getType().getCanonicalType().getAsString(PP) + ",";
        s += ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst())
                s += "const";
        // lambda instantiated within different template contexts: add the enclosing function
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda())
            {
                const DeclContext* dc = M->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc))
                    dc = dc->getParent();
                if (dc && inRoot(cast<FunctionDecl>(dc)->getLocation()))
                    s += "@" + fid(cast<FunctionDecl>(dc));
            }
        if (s.size() > 600)
            s = s.substr(0, 300) + "#" + std::to_string(std::hash<std::string>()(s));
        FidCache[F->getCanonicalDecl()] = s;
        return s;
    }
    std::string did(const ValueDecl* D)
    {
        // stable within a function dump: name + location
        if (auto* F = dyn_cast<FunctionDecl>(D))
            return fid(F);
        if (auto* P = dyn_cast<ParmVarDecl>(D))
        {
            if (auto* F = dyn_cast_or_null<FunctionDecl>(P->getDeclContext()))
                return "p:" + std::to_string(P->getFunctionScopeIndex()) + ":" + P->getNameAsString() + ":"
                    + locStr(P->getLocation());
        }
        if (auto* V = dyn_cast<VarDecl>(D))
            if (V->hasGlobalStorage())
                return "g:" + V->getQualifiedNameAsString();
        return D->getNameAsString() + ":" + locStr(D->getLocation());
    }

    // ---------------------------------------------------------------- expr
    Value list(llvm::ArrayRef<const Expr*> es)
    {
        Array a;
        for (auto* e : es)
            a.push_back(expr(e));
        return a;
    }
    template<class It> Value listR(It b, It e)
    {
        Array a;
        for (; b != e; ++b)
            a.push_back(expr(dyn_cast_or_null<Expr>(static_cast<const Stmt*>(*b))));
        return a;
    }
    Object node(const char* k, const Stmt* s)
    {
        Object o;
        o["k"] = k;
        if (s)
            o["l"] = int64_t(lineOf(s->getBeginLoc()));
        return o;
    }
    Value expr(const Expr* e)
    {
        if (!e)
            return nullptr;
        // strip
        while (true)
        {
            if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
            if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
            if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<FullExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
            if (auto* x = dyn_cast<ImplicitCastExpr>(e))
            {
                auto ck = x->getCastKind();
                if (ck == CK_FloatingToIntegral || ck == CK_IntegralToFloating || ck == CK_FloatingCast
                    || ck == CK_IntegralCast || ck == CK_FloatingToBoolean || ck == CK_IntegralToBoolean
                    || ck == CK_PointerToBoolean)
                {
                    Object o = node("cast", e);
                    o["t"] = ty(e->getType());
                    o["ck"] = x->getCastKindName();
                    o["imp"] = true;
                    o["e"] = expr(x->getSubExpr());
                    return o;
                }
                e = x->getSubExpr();
                continue;
            }
            break;
        }
        if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            auto* D = x->getDecl();
            Object o = node("ref", e);
            o["id"] = did(D);
            o["n"] = D->getNameAsString();
            o["t"] = ty(e->getType());
            if (auto* F = dyn_cast<FunctionDecl>(D))
            {
                o["dk"] = "func";
                o["fn"] = fname(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F))
                    o["cls"] = recName(M->getParent());
            }
            else if (auto* P = dyn_cast<ParmVarDecl>(D))
            {
                (void) P;
                o["dk"] = "parm";
            }
            else if (auto* V = dyn_cast<VarDecl>(D))
            {
                o["dk"] = V->hasGlobalStorage() ? "glob" : "var";
                if (V->hasGlobalStorage())
                {
                    o["qn"] = V->getQualifiedNameAsString();
                    o["const"] = V->getType().isConstQualified();
                    if (V->isStaticLocal())
                        o["slocal"] = true;
                    if (V->getTLSKind() != VarDecl::TLS_None)
                        o["tls"] = true;
                    Expr::EvalResult r;
                    if (V->getType().isConstQualified() && V->hasInit() && V->getInit()
                        && !V->getInit()->isValueDependent() && V->getInit()->EvaluateAsRValue(r, Ctx)
                        && !r.HasSideEffects)
                    {
                        if (r.Val.isInt())
                            o["cv"] = int64_t(r.Val.getInt().getExtValue());
                        else if (r.Val.isFloat())
                            o["cv"] = r.Val.getFloat().convertToDouble();
                    }
                }
            }
            else if (auto* E = dyn_cast<EnumConstantDecl>(D))
            {
                o["dk"] = "enum";
                o["qn"] = E->getQualifiedNameAsString();
                o["cv"] = int64_t(E->getInitVal().getExtValue());
            }
            else if (auto* B = dyn_cast<BindingDecl>(D))
            {
                o["dk"] = "bind";
                if (B->getBinding())
                    o["e"] = expr(B->getBinding());
            }
            else
                o["dk"] = "other";
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            Object o = node("mem", e);
            o["b"] = expr(x->getBase());
            o["arrow"] = x->isArrow();
            auto* D = x->getMemberDecl();
            o["n"] = D->getNameAsString();
            o["t"] = ty(e->getType());
            if (auto* M = dyn_cast<CXXMethodDecl>(D))
            {
                o["mk"] = "method";
                o["f"] = fid(M);
                o["fn"] = fname(M);
            }
            else if (auto* F = dyn_cast<FieldDecl>(D))
            {
                o["mk"] = "field";
                o["cls"] = recName(dyn_cast<CXXRecordDecl>(F->getParent()));
                if (F->isMutable())
                    o["mut"] = true;
            }
            else
            {
                o["mk"] = "static";
                o["id"] = did(D);
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            Object o = node("call", e);
            o["op"] = getOperatorSpelling(x->getOperator());
            o["t"] = ty(e->getType());
            auto* F = x->getDirectCallee();
            unsigned first = 0;
            if (F)
            {
                o["f"] = fid(F);
                o["fn"] = fname(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F))
                {
                    o["cls"] = recName(M->getParent());
                    if (!M->isStatic())
                    {
                        o["obj"] = expr(x->getArg(0));
                        o["cm"] = M->isConst();
                        first = 1;
                        if (M->isVirtual())
                            o["virt"] = true;
                    }
                    if (M->getParent()->isLambda())
                        o["lam"] = true;
                }
            }
            Array a;
            for (unsigned i = first; i < x->getNumArgs(); ++i)
                a.push_back(expr(x->getArg(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            Object o = node("call", e);
            o["t"] = ty(e->getType());
            auto* M = x->getMethodDecl();
            if (M)
            {
                o["f"] = fid(M);
                o["fn"] = fname(M);
                o["m"] = M->getNameAsString();
                o["cls"] = recName(M->getParent());
                o["cm"] = M->isConst();
                bool qual = false;
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                    qual = me->hasQualifier();
                if (M->isVirtual() && !qual)
                    o["virt"] = true;
            }
            else
                o["fx"] = expr(x->getCallee());
            o["obj"] = expr(x->getImplicitObjectArgument());
            if (auto* io = x->getImplicitObjectArgument())
                o["ot"] = ty(io->getType());
            o["a"] = listR(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e))
        {
            Object o = node("call", e);
            o["t"] = ty(e->getType());
            auto* F = x->getDirectCallee();
            if (F)
            {
                o["f"] = fid(F);
                o["fn"] = fname(F);
                if (auto* M = dyn_cast<CXXMethodDecl>(F))
                    o["cls"] = recName(M->getParent());
            }
            else
                o["fx"] = expr(x->getCallee());
            o["a"] = listR(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            auto* C = x->getConstructor();
            if (x->getNumArgs() == 1 && C->isCopyOrMoveConstructor())
            {
                if (x->isElidable())
                    return expr(x->getArg(0));
                Object o = node("copy", e);
                o["t"] = ty(e->getType());
                o["mv"] = C->isMoveConstructor();
                o["e"] = expr(x->getArg(0));
                o["f"] = fid(C);
                if (!C->isImplicit() && !C->isDefaulted())
                    o["user"] = true;
                return o;
            }
            Object o = node("ctor", e);
            o["t"] = ty(e->getType());
            o["cls"] = recName(C->getParent());
            o["f"] = fid(C);
            o["a"] = listR(x->arg_begin(), x->arg_end());
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            Object o = node("ictor", e);
            o["f"] = fid(x->getConstructor());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            Object o = node("un", e);
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str() + (x->isPostfix() ? "post" : "");
            o["e"] = expr(x->getSubExpr());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e))
        {
            Object o = node("asg", e);
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            Object o = node(x->isAssignmentOp() ? "asg" : "bin", e);
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            Object o = node("cond", e);
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            Object o = node("idx", e);
            o["b"] = expr(x->getBase());
            o["i"] = expr(x->getIdx());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            Object o = node("lit", e);
            o["v"] = int64_t(x->getValue().getLimitedValue());
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            Object o = node("lit", e);
            o["v"] = x->getValueAsApproximateDouble();
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            Object o = node("lit", e);
            o["v"] = x->getValue();
            o["t"] = "bool";
            return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e))
        {
            Object o = node("str", e);
            o["v"] = json::fixUTF8(x->isOrdinary() ? x->getString() : llvm::StringRef("?"));
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return node("null", e);
        if (isa<CXXThisExpr>(e))
        {
            Object o = node("this", e);
            o["t"] = ty(e->getType());
            return o;
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e))
        {
            Object o = node("cast", e);
            o["t"] = ty(x->getTypeAsWritten());
            o["ck"] = x->getCastKindName();
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            if (auto* s = x->getSemanticForm() ? x->getSemanticForm() : x)
            {
                Object o = node("ilist", e);
                o["t"] = ty(e->getType());
                o["a"] = listR(s->begin(), s->end());
                return o;
            }
        }
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e))
        {
            Object o = node("zero", e);
            o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e))
        {
            Object o = node("zero", e);
            o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e))
        {
            Object o = node("lam", e);
            auto* L = x->getLambdaClass();
            o["cls"] = recName(L);
            auto* M = x->getCallOperator();
            o["generic"] = x->isGenericLambda();
            o["mutable"] = x->isMutable();
            o["f"] = fid(M);
            Array caps;
            auto ii = x->capture_init_begin();
            for (auto ci = x->capture_begin(); ci != x->capture_end(); ++ci, ++ii)
            {
                Object c;
                if (ci->capturesThis())
                {
                    c["this"] = true;
                    c["ref"] = ci->getCaptureKind() != LCK_StarThis;
                }
                else if (ci->capturesVariable())
                {
                    c["n"] = ci->getCapturedVar()->getNameAsString();
                    c["id"] = did(ci->getCapturedVar());
                    c["ref"] = ci->getCaptureKind() == LCK_ByRef;
                    if (*ii)
                        c["init"] = expr(*ii);
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            Object o = node("throw", e);
            o["e"] = expr(x->getSubExpr());
            if (x->getSubExpr())
                o["t"] = ty(x->getSubExpr()->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            Object o = node("new", e);
            o["t"] = ty(x->getAllocatedType());
            if (x->getNumPlacementArgs())
                o["place"] = expr(x->getPlacementArg(0));
            if (x->isArray() && x->getArraySize())
                o["n"] = expr(*x->getArraySize());
            if (x->getInitializer())
                o["init"] = expr(x->getInitializer());
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            Object o = node("del", e);
            o["e"] = expr(x->getArgument());
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Object o = node("sizeof", e);
            o["t"] = x->isArgumentType() ? ty(x->getArgumentType()) : ty(x->getArgumentExpr()->getType());
            return o;
        }
        Object o = node("oth", e);
        o["c"] = e->getStmtClassName();
        o["t"] = ty(e->getType());
        Array a;
        for (auto* c : e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c))
                a.push_back(expr(ce));
        o["a"] = std::move(a);
        return o;
    }

    // ---------------------------------------------------------------- stmt
    Object var(const VarDecl* V)
    {
        Object o;
        o["n"] = V->getNameAsString();
        o["id"] = did(V);
        o["t"] = ty(V->getType());
        o["l"] = int64_t(lineOf(V->getLocation()));
        if (V->isStaticLocal())
            o["slocal"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None)
            o["tls"] = true;
        if (V->getType()->isReferenceType())
            o["ref"] = true;
        if (V->getType().isConstQualified())
            o["const"] = true;
        if (V->hasInit())
            o["init"] = expr(V->getInit());
        if (auto* D = dyn_cast<DecompositionDecl>(V))
        {
            Array b;
            for (auto* bd : D->bindings())
            {
                Object bo;
                bo["n"] = bd->getNameAsString();
                bo["id"] = did(bd);
                if (bd->getHoldingVar())
                    bo["hold"] = var(bd->getHoldingVar());
                else if (bd->getBinding())
                    bo["e"] = expr(bd->getBinding());
                b.push_back(std::move(bo));
            }
            o["binds"] = std::move(b);
        }
        return o;
    }
    Value stmt(const Stmt* s)
    {
        if (!s)
            return nullptr;
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            Object o = node("blk", s);
            Array a;
            for (auto* c : x->body())
                a.push_back(stmt(c));
            o["s"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            Object o = node("decl", s);
            Array a;
            for (auto* d : x->decls())
                if (auto* V = dyn_cast<VarDecl>(d))
                    a.push_back(var(V));
            o["v"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            if (x->isConstexpr())
            {
                if (auto nd = x->getNondiscardedCase(Ctx))
                    return *nd ? stmt(*nd) : Value(node("blk", s));
            }
            Object o = node("if", s);
            if (x->getInit())
                o["init"] = stmt(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["a"] = stmt(x->getThen());
            if (x->getElse())
                o["b"] = stmt(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s))
        {
            Object o = node("for", s);
            o["init"] = stmt(x->getInit());
            o["c"] = expr(x->getCond());
            o["inc"] = expr(x->getInc());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            Object o = node("rfor", s);
            o["var"] = var(x->getLoopVariable());
            o["range"] = expr(x->getRangeInit());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s))
        {
            Object o = node("while", s);
            if (x->getConditionVariable())
                o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s))
        {
            Object o = node("do", s);
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s))
        {
            Object o = node("ret", s);
            o["e"] = expr(x->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(s))
            return node("brk", s);
        if (isa<ContinueStmt>(s))
            return node("cont", s);
        if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            Object o = node("switch", s);
            o["c"] = expr(x->getCond());
            o["body"] = stmt(x->getBody());
            o["ct"] = ty(x->getCond()->IgnoreImpCasts()->getType());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s))
        {
            Object o = node("case", s);
            o["e"] = expr(x->getLHS());
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s))
        {
            Object o = node("default", s);
            o["s"] = stmt(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            Object o = node("try", s);
            o["body"] = stmt(x->getTryBlock());
            Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
                a.push_back(stmt(x->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(a);
            return o;
        }
        if (isa<NullStmt>(s))
            return node("blk", s);
        if (auto* x = dyn_cast<AttributedStmt>(s))
            return stmt(x->getSubStmt());
        if (auto* x = dyn_cast<Expr>(s))
        {
            Object o = node("expr", s);
            o["e"] = expr(x);
            return o;
        }
        Object o = node("othS", s);
        o["c"] = s->getStmtClassName();
        return o;
    }

    // ---------------------------------------------------------------- decls
    void emitFunction(const FunctionDecl* F)
    {
        if (!F->doesThisDeclarationHaveABody() && !(isa<CXXConstructorDecl>(F) && F->isDefined() && F->getDefinition() == F))
            return;
        if (F->isDependentContext() || F->getType()->isDependentType())
            return;
        if (!inRoot(F->getLocation()))
            return;
        auto id = fid(F);
        if (!Seen.insert(id).second)
            return;
        Object o;
        o["k"] = "fn";
        o["id"] = id;
        o["n"] = F->getNameAsString();
        o["fn"] = fname(F);
        o["file"] = rel(fileOf(F->getLocation()));
        o["l"] = int64_t(lineOf(F->getBeginLoc()));
        o["le"] = int64_t(lineOf(F->getEndLoc()));
        o["ret"] = ty(F->getReturnType());
        Array ps;
        for (auto* p : F->parameters())
        {
            Object po;
            po["n"] = p->getNameAsString();
            po["id"] = did(p);
            po["t"] = ty(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                po["def"] = expr(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        if (F->isImplicit() || F->isDefaulted())
            o["implicit"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recName(M->getParent());
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            o["access"] = int64_t(M->getAccess());
            if (M->isVirtual())
                o["virt"] = true;
            if (M->getParent()->isLambda())
                o["lam"] = true;
            Array ov;
            for (auto* m : M->overridden_methods())
                ov.push_back(fid(m));
            o["ov"] = std::move(ov);
        }
        if (auto* C = dyn_cast<CXXConstructorDecl>(F))
        {
            o["ctor"] = true;
            Array in;
            for (auto* i : C->inits())
            {
                Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["field"] = i->getAnyMember()->getNameAsString();
                    io["t"] = ty(i->getAnyMember()->getType());
                }
                else if (i->isBaseInitializer())
                    io["base"] = recName(i->getBaseClass()->getAsCXXRecordDecl());
                else
                    io["deleg"] = true;
                io["written"] = i->isWritten();
                io["l"] = int64_t(lineOf(i->getSourceLocation()));
                io["e"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F))
            o["dtor"] = true;
        o["body"] = stmt(F->getBody());
        *Out << Value(std::move(o)) << "\n";
    }
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        emitFunction(F);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr* L)
    {
        if (auto* M = L->getCallOperator())
            emitFunction(M);
        return true;
    }
    bool VisitVarDecl(VarDecl* V)
    {
        if (V->hasGlobalStorage() && inRoot(V->getLocation()) && !V->getType()->isDependentType()
            && !V->getDeclContext()->isDependentContext())
        {
            Object o;
            o["k"] = "glob";
            o["id"] = did(V);
            o["qn"] = V->getQualifiedNameAsString();
            o["t"] = ty(V->getType());
            o["const"] = V->getType().isConstQualified() || V->isConstexpr();
            o["file"] = rel(fileOf(V->getLocation()));
            o["l"] = int64_t(lineOf(V->getLocation()));
            o["slocal"] = V->isStaticLocal();
            o["tls"] = V->getTLSKind() != VarDecl::TLS_None;
            if (V->isStaticLocal())
                if (auto* F = dyn_cast_or_null<FunctionDecl>(V->getDeclContext()))
                    o["func"] = fid(F);
            if (Seen.insert("glob " + did(V) + locStr(V->getLocation())).second)
                *Out << Value(std::move(o)) << "\n";
        }
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E)
    {
        if (!inRoot(E->getLocation()) || !E->isThisDeclarationADefinition())
            return true;
        Object o;
        o["k"] = "enum";
        o["n"] = E->getQualifiedNameAsString();
        Array a;
        for (auto* c : E->enumerators())
            a.push_back(c->getQualifiedNameAsString());
        o["v"] = std::move(a);
        o["file"] = rel(fileOf(E->getLocation()));
        if (Seen.insert("enum " + E->getQualifiedNameAsString()).second)
            *Out << Value(std::move(o)) << "\n";
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda())
            return true;
        if (!inRoot(R->getLocation()))
            return true;
        auto n = recName(R);
        if (!Seen.insert("rec " + n).second)
            return true;
        Object o;
        o["k"] = "rec";
        o["n"] = n;
        o["file"] = rel(fileOf(R->getLocation()));
        o["l"] = int64_t(lineOf(R->getLocation()));
        Array bs;
        for (auto& b : R->bases())
            if (auto* br = b.getType()->getAsCXXRecordDecl())
                bs.push_back(recName(br));
        o["bases"] = std::move(bs);
        Array fs;
        for (auto* f : R->fields())
        {
            Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = ty(f->getType());
            fo["l"] = int64_t(lineOf(f->getLocation()));
            if (f->isMutable())
                fo["mut"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer())
                fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for (auto* m : R->methods())
        {
            Object mo;
            mo["n"] = m->getNameAsString();
            mo["f"] = fid(m);
            mo["const"] = m->isConst();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["access"] = int64_t(m->getAccess());
            mo["implicit"] = m->isImplicit();
            mo["ret"] = ty(m->getReturnType());
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        *Out << Value(std::move(o)) << "\n";
        return true;
    }

    ASTContext& Ctx;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const FunctionDecl*, std::string> FidCache;
    std::set<std::string> Seen;
};

class Consumer : public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        Object o;
        o["k"] = "tu";
        auto& SM = Ctx.getSourceManager();
        auto fe = SM.getFileEntryRefForID(SM.getMainFileID());
        o["file"] = fe ? fe->getName().str() : "?";
        o["errors"] = int64_t(Ctx.getDiagnostics().getClient()->getNumErrors());
        *Out << Value(std::move(o)) << "\n";
        Dumper D(Ctx);
        D.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};
class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

// usage: extract ROOT OUT FILE -- flags...
int main(int argc, const char** argv)
{
    if (argc < 5)
        return 2;
    Root = argv[1];
    std::error_code ec;
    llvm::raw_fd_ostream out(argv[2], ec);
    if (ec)
        return 2;
    Out = &out;
    std::vector<std::string> files, flags;
    int i = 3;
    for (; i < argc && std::string(argv[i]) != "--"; ++i)
        files.push_back(argv[i]);
    for (++i; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, files);
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    return rc;
}
