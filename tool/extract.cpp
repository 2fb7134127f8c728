// Extracts a compact, fully resolved program representation of the project:
// every function body defined below the project root, the class hierarchy,
// enumerations and initialised globals.  Output: one JSON object per line.
//
// usage: extract ROOT OUT FILE... -- FLAGS...

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot;
static std::set<std::string> gSeen;
static llvm::raw_fd_ostream* gOut = nullptr;

namespace {

class Emitter {
public:
    explicit Emitter(ASTContext& c) : C(c), P(c.getPrintingPolicy()) {
        P.SuppressTagKeyword = true;
        P.SuppressUnwrittenScope = false;
        P.FullyQualifiedName = true;
        P.PrintCanonicalTypes = true;
        P.Bool = true;
    }

    ASTContext& C;
    PrintingPolicy P;
    std::map<const ValueDecl*, int> ids;

    std::string type(QualType t) {
        if ( t.isNull() ) return "";
        return t.getCanonicalType().getAsString(P);
    }

    // "<relative file>", line
    bool locOf(SourceLocation l, std::string& file, int& line) {
        SourceManager& sm = C.getSourceManager();
        l = sm.getExpansionLoc(l);
        if ( l.isInvalid() ) return false;
        auto p = sm.getPresumedLoc(l);
        if ( p.isInvalid() ) return false;
        llvm::SmallString<256> path(p.getFilename());
        sm.getFileManager().makeAbsolutePath(path);
        llvm::sys::path::remove_dots(path, true);
        file = std::string(path.str());
        line = p.getLine();
        return true;
    }

    bool inProject(SourceLocation l, std::string& rel, int& line) {
        std::string f;
        if ( !locOf(l, f, line) ) return false;
        if ( f.compare(0, gRoot.size(), gRoot) != 0 ) return false;
        rel = f.substr(gRoot.size());
        return rel.compare(0, 9, "Projects/") == 0;
    }

    int line(SourceLocation l) {
        std::string f; int n = 0;
        locOf(l, f, n);
        return n;
    }

    std::string qname(const NamedDecl* d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, P);
        return os.str();
    }

    std::string funcId(const FunctionDecl* f) {
        std::string s = qname(f) + "(";
        bool first = true;
        for ( auto* p : f->parameters() ) {
            if ( !first ) s += ",";
            first = false;
            s += type(p->getType());
        }
        s += ")";
        if ( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            if ( m->isConst() ) s += " const";
        }
        if ( auto* as = f->getTemplateSpecializationArgs() ) {
            std::string file; int ln = 0;
            if ( inProject(f->getLocation(), file, ln) ) {
                llvm::raw_string_ostream os(s);
                printTemplateArgumentList(os, as->asArray(), P);
            }
        }
        return s;
    }

    int varId(const ValueDecl* d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = ids.find(d);
        if ( it != ids.end() ) return it->second;
        int n = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }

    static bool isLocal(const VarDecl* v) {
        return v->isLocalVarDeclOrParm() && !v->isStaticLocal();
    }

    Value node(const char* k, const Stmt* s, Object o) {
        o["k"] = k;
        if ( s ) o["l"] = line(s->getBeginLoc());
        return Value(std::move(o));
    }

    template<class T> Array args(const T* e, unsigned from = 0) {
        Array a;
        for ( unsigned i = from; i < e->getNumArgs(); ++i ) a.push_back(expr(e->getArg(i)));
        return a;
    }

    Object calleeInfo(const FunctionDecl* f) {
        Object o;
        if ( !f ) { o["f"] = "?"; o["id"] = "?"; return o; }
        const FunctionDecl* t = f->getTemplateInstantiationPattern();
        (void)t;
        o["f"] = qname(f);
        o["id"] = funcId(f);
        if ( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            if ( m->isConst() ) o["c"] = true;
            if ( m->isVirtual() ) o["v"] = true;
            if ( m->isStatic() ) o["st"] = true;
        }
        if ( f->isNoReturn() ) o["nr"] = true;
        return o;
    }

    Value expr(const Expr* e) {
        if ( !e ) return Value(nullptr);

        if ( auto* x = dyn_cast<ParenExpr>(e) ) return expr(x->getSubExpr());
        if ( auto* x = dyn_cast<FullExpr>(e) ) return expr(x->getSubExpr());
        if ( auto* x = dyn_cast<MaterializeTemporaryExpr>(e) ) return expr(x->getSubExpr());
        if ( auto* x = dyn_cast<CXXBindTemporaryExpr>(e) ) return expr(x->getSubExpr());
        if ( auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e) ) return expr(x->getReplacement());
        if ( auto* x = dyn_cast<CXXDefaultArgExpr>(e) ) return expr(x->getExpr());
        if ( auto* x = dyn_cast<CXXDefaultInitExpr>(e) ) return expr(x->getExpr());
        if ( auto* x = dyn_cast<CXXStdInitializerListExpr>(e) ) return expr(x->getSubExpr());
        if ( auto* x = dyn_cast<OpaqueValueExpr>(e) ) return expr(x->getSourceExpr());

        if ( auto* x = dyn_cast<CastExpr>(e) ) {
            const Expr* s = x->getSubExpr();
            switch ( x->getCastKind() ) {
                case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BuiltinFnToFnPtr: case CK_ToVoid:
                case CK_ConstructorConversion: case CK_UserDefinedConversion:
                    return expr(s);
                case CK_NullToPointer:
                    return node("null", e, Object{});
                case CK_Dynamic: {
                    Object o; o["t"] = type(x->getType()); o["e"] = expr(s);
                    return node("dyncast", e, std::move(o));
                }
                default: {
                    Object o;
                    o["ck"] = x->getCastKindName();
                    o["t"] = type(x->getType()); o["ft"] = type(s->getType());
                    if ( isa<ExplicitCastExpr>(x) ) o["ex"] = true;
                    o["e"] = expr(s);
                    return node("cast", e, std::move(o));
                }
            }
        }
        if ( auto* x = dyn_cast<IntegerLiteral>(e) ) {
            Object o; o["v"] = (int64_t)x->getValue().getLimitedValue(); o["t"] = type(x->getType());
            return node("int", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CharacterLiteral>(e) ) {
            Object o; o["v"] = (int64_t)x->getValue(); o["t"] = type(x->getType());
            return node("char", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXBoolLiteralExpr>(e) ) {
            Object o; o["v"] = x->getValue();
            return node("bool", e, std::move(o));
        }
        if ( auto* x = dyn_cast<FloatingLiteral>(e) ) {
            Object o; o["v"] = x->getValueAsApproximateDouble(); o["t"] = type(x->getType());
            return node("float", e, std::move(o));
        }
        if ( auto* x = dyn_cast<StringLiteral>(e) ) {
            Object o;
            std::string b = x->getCharByteWidth() == 1 ? x->getString().str() : std::string("<wide>");
            o["v"] = llvm::json::isUTF8(b) ? b : llvm::json::fixUTF8(b);
            return node("str", e, std::move(o));
        }
        if ( isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e) ) return node("null", e, Object{});
        if ( isa<CXXThisExpr>(e) ) return node("this", e, Object{});

        if ( auto* x = dyn_cast<DeclRefExpr>(e) ) {
            const ValueDecl* d = x->getDecl();
            if ( auto* ec = dyn_cast<EnumConstantDecl>(d) ) {
                Object o; o["n"] = qname(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); o["t"] = type(ec->getType());
                return node("enum", e, std::move(o));
            }
            if ( auto* f = dyn_cast<FunctionDecl>(d) ) {
                return node("func", e, calleeInfo(f));
            }
            Object o;
            o["n"] = d->getNameAsString();
            o["t"] = type(d->getType());
            if ( auto* v = dyn_cast<VarDecl>(d) ) {
                if ( isLocal(v) || v->isStaticLocal() ) {
                    o["id"] = varId(d);
                    return node("var", e, std::move(o));
                }
                o["n"] = qname(d);
                return node("gl", e, std::move(o));
            }
            o["n"] = qname(d);
            return node("gl", e, std::move(o));
        }
        if ( auto* x = dyn_cast<MemberExpr>(e) ) {
            const ValueDecl* d = x->getMemberDecl();
            if ( auto* ec = dyn_cast<EnumConstantDecl>(d) ) {
                Object o; o["n"] = qname(ec); o["v"] = (int64_t)ec->getInitVal().getExtValue(); o["t"] = type(ec->getType());
                return node("enum", e, std::move(o));
            }
            if ( auto* v = dyn_cast<VarDecl>(d) ) {  // static data member
                Object o; o["n"] = qname(v); o["t"] = type(v->getType());
                return node("gl", e, std::move(o));
            }
            Object o;
            o["n"] = d->getNameAsString();
            o["q"] = qname(d);
            o["t"] = type(d->getType());
            o["b"] = expr(x->getBase());
            return node("mem", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXMemberCallExpr>(e) ) {
            Object o = calleeInfo(x->getMethodDecl());
            bool virt = false;
            if ( auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()) ) {
                virt = x->getMethodDecl() && x->getMethodDecl()->isVirtual() && !me->hasQualifier();
            }
            o["dv"] = virt;
            o["o"] = expr(x->getImplicitObjectArgument());
            if ( x->getImplicitObjectArgument() ) o["ot"] = type(x->getImplicitObjectArgument()->getType());
            o["a"] = args(x);
            o["t"] = type(x->getType());
            return node("mcall", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXOperatorCallExpr>(e) ) {
            const FunctionDecl* f = x->getDirectCallee();
            Object o = calleeInfo(f);
            o["op"] = getOperatorSpelling(x->getOperator());
            o["a"] = args(x);
            o["m"] = f && isa<CXXMethodDecl>(f);
            o["t"] = type(x->getType());
            return node("ocall", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CallExpr>(e) ) {
            const FunctionDecl* f = x->getDirectCallee();
            Object o = calleeInfo(f);
            if ( !f ) o["fe"] = expr(x->getCallee());
            o["a"] = args(x);
            o["t"] = type(x->getType());
            return node("call", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXConstructExpr>(e) ) {
            const CXXConstructorDecl* c = x->getConstructor();
            if ( c->isCopyOrMoveConstructor() && x->getNumArgs() >= 1 ) {
                Object o; o["t"] = type(x->getType()); o["e"] = expr(x->getArg(0));
                return node("copy", e, std::move(o));
            }
            Object o;
            o["t"] = type(x->getType());
            o["id"] = funcId(c);
            o["a"] = args(x);
            return node("ctor", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXNewExpr>(e) ) {
            Object o;
            o["t"] = type(x->getAllocatedType());
            if ( x->isArray() ) { o["arr"] = true; if ( x->getArraySize() ) o["n"] = expr(*x->getArraySize()); }
            if ( x->hasInitializer() ) o["i"] = expr(x->getInitializer());
            return node("new", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXDeleteExpr>(e) ) {
            Object o; o["e"] = expr(x->getArgument()); if ( x->isArrayForm() ) o["arr"] = true;
            return node("delete", e, std::move(o));
        }
        if ( auto* x = dyn_cast<UnaryOperator>(e) ) {
            Object o;
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if ( x->isPostfix() ) op = "p" + op;
            o["op"] = op; o["e"] = expr(x->getSubExpr()); o["t"] = type(x->getType());
            return node("un", e, std::move(o));
        }
        if ( auto* x = dyn_cast<BinaryOperator>(e) ) {
            Object o;
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS()); o["b"] = expr(x->getRHS()); o["t"] = type(x->getType());
            o["lt"] = type(x->getLHS()->getType());
            if ( auto* c = dyn_cast<CompoundAssignOperator>(x) )
                if ( c->getComputationResultType() != x->getLHS()->getType().getUnqualifiedType() ) o["ct"] = type(c->getComputationResultType());
            return node("bin", e, std::move(o));
        }
        if ( auto* x = dyn_cast<AbstractConditionalOperator>(e) ) {
            Object o;
            o["c"] = expr(x->getCond()); o["a"] = expr(x->getTrueExpr()); o["b"] = expr(x->getFalseExpr());
            return node("cond", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXThrowExpr>(e) ) {
            Object o;
            if ( x->getSubExpr() ) { o["e"] = expr(x->getSubExpr()); o["t"] = type(x->getSubExpr()->getType()); }
            return node("throw", e, std::move(o));
        }
        if ( auto* x = dyn_cast<ArraySubscriptExpr>(e) ) {
            Object o; o["a"] = expr(x->getBase()); o["b"] = expr(x->getIdx()); o["t"] = type(x->getType());
            return node("idx", e, std::move(o));
        }
        if ( auto* x = dyn_cast<LambdaExpr>(e) ) {
            Object o;
            const CXXMethodDecl* m = x->getCallOperator();
            Array ps;
            for ( auto* p : m->parameters() ) ps.push_back(param(p));
            o["p"] = std::move(ps);
            o["body"] = stmt(x->getBody());
            Array caps;
            for ( auto& cap : x->captures() ) {
                if ( cap.capturesVariable() ) {
                    Object c; c["id"] = varId(cap.getCapturedVar());
                    c["ref"] = cap.getCaptureKind() == LCK_ByRef;
                    caps.push_back(std::move(c));
                }
            }
            o["caps"] = std::move(caps);
            return node("lambda", e, std::move(o));
        }
        if ( auto* x = dyn_cast<InitListExpr>(e) ) {
            if ( x->getNumInits() == 1 && C.hasSameUnqualifiedType(x->getType(), x->getInit(0)->getType()) ) {
                return expr(x->getInit(0));
            }
            Object o; Array a;
            for ( auto* i : x->inits() ) a.push_back(expr(i));
            o["a"] = std::move(a); o["t"] = type(x->getType());
            return node("list", e, std::move(o));
        }
        if ( auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e) ) {
            Object o;
            o["t"] = type(x->getTypeOfArgument());
            Expr::EvalResult r;
            if ( !x->isValueDependent() && x->EvaluateAsInt(r, C) ) o["v"] = (int64_t)r.Val.getInt().getExtValue();
            return node("sizeof", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXScalarValueInitExpr>(e) ) {
            Object o; o["t"] = type(x->getType());
            return node("zero", e, std::move(o));
        }
        if ( auto* x = dyn_cast<ImplicitValueInitExpr>(e) ) {
            Object o; o["t"] = type(x->getType());
            return node("zero", e, std::move(o));
        }
        if ( auto* x = dyn_cast<PredefinedExpr>(e) ) {
            Object o; o["v"] = "<func>"; (void)x;
            return node("str", e, std::move(o));
        }
        if ( auto* x = dyn_cast<StmtExpr>(e) ) {
            Object o; o["s"] = stmt(x->getSubStmt());
            return node("stmtexpr", e, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXTypeidExpr>(e) ) {
            Object o; (void)x;
            return node("typeid", e, std::move(o));
        }

        Object o;
        o["c"] = e->getStmtClassName();
        Array kids;
        for ( const Stmt* s : e->children() ) {
            if ( auto* se = dyn_cast_or_null<Expr>(s) ) kids.push_back(expr(se));
        }
        o["a"] = std::move(kids);
        return node("unk", e, std::move(o));
    }

    Value param(const ParmVarDecl* p) {
        Object o;
        o["n"] = p->getNameAsString();
        o["t"] = type(p->getType());
        o["id"] = varId(p);
        if ( p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() )
            o["d"] = expr(p->getDefaultArg());
        return Value(std::move(o));
    }

    Value var(const VarDecl* v) {
        Object o;
        o["n"] = v->getNameAsString();
        o["t"] = type(v->getType());
        o["id"] = varId(v);
        o["l"] = line(v->getLocation());
        if ( v->isStaticLocal() ) o["static"] = true;
        if ( v->hasInit() ) o["i"] = expr(v->getInit());
        return Value(std::move(o));
    }

    Value stmt(const Stmt* s) {
        if ( !s ) return Value(nullptr);
        if ( auto* x = dyn_cast<CompoundStmt>(s) ) {
            Object o; Array a;
            for ( auto* c : x->body() ) a.push_back(stmt(c));
            o["b"] = std::move(a);
            return node("block", s, std::move(o));
        }
        if ( auto* x = dyn_cast<IfStmt>(s) ) {
            Object o;
            if ( x->getInit() ) o["init"] = stmt(x->getInit());
            if ( x->getConditionVariable() ) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["a"] = stmt(x->getThen());
            if ( x->getElse() ) o["b"] = stmt(x->getElse());
            return node("if", s, std::move(o));
        }
        if ( auto* x = dyn_cast<ForStmt>(s) ) {
            Object o;
            if ( x->getInit() ) o["init"] = stmt(x->getInit());
            if ( x->getConditionVariable() ) o["cv"] = var(x->getConditionVariable());
            if ( x->getCond() ) o["c"] = expr(x->getCond());
            if ( x->getInc() ) o["inc"] = expr(x->getInc());
            o["b"] = stmt(x->getBody());
            return node("for", s, std::move(o));
        }
        if ( auto* x = dyn_cast<WhileStmt>(s) ) {
            Object o;
            if ( x->getConditionVariable() ) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            return node("while", s, std::move(o));
        }
        if ( auto* x = dyn_cast<DoStmt>(s) ) {
            Object o; o["c"] = expr(x->getCond()); o["b"] = stmt(x->getBody());
            return node("do", s, std::move(o));
        }
        if ( auto* x = dyn_cast<CXXForRangeStmt>(s) ) {
            Object o;
            o["v"] = var(x->getLoopVariable());
            o["r"] = expr(x->getRangeInit());
            o["rt"] = type(x->getRangeInit()->getType());
            o["b"] = stmt(x->getBody());
            return node("range", s, std::move(o));
        }
        if ( auto* x = dyn_cast<SwitchStmt>(s) ) {
            Object o;
            if ( x->getConditionVariable() ) o["cv"] = var(x->getConditionVariable());
            o["c"] = expr(x->getCond());
            Array items;   // flattened: {case:[..]} | {default} | stmt
            const Stmt* body = x->getBody();
            if ( auto* cs = dyn_cast<CompoundStmt>(body) ) {
                for ( auto* c : cs->body() ) flattenCase(c, items);
            }
            else {
                flattenCase(body, items);
            }
            o["items"] = std::move(items);
            return node("switch", s, std::move(o));
        }
        if ( auto* x = dyn_cast<ReturnStmt>(s) ) {
            Object o;
            if ( x->getRetValue() ) o["e"] = expr(x->getRetValue());
            return node("return", s, std::move(o));
        }
        if ( isa<BreakStmt>(s) ) return node("break", s, Object{});
        if ( isa<ContinueStmt>(s) ) return node("continue", s, Object{});
        if ( isa<NullStmt>(s) ) return node("nop", s, Object{});
        if ( auto* x = dyn_cast<CXXTryStmt>(s) ) {
            Object o;
            o["b"] = stmt(x->getTryBlock());
            Array hs;
            for ( unsigned i = 0; i < x->getNumHandlers(); ++i ) {
                const CXXCatchStmt* h = x->getHandler(i);
                Object c;
                if ( h->getExceptionDecl() ) {
                    c["t"] = type(h->getCaughtType().getNonReferenceType().getUnqualifiedType());
                    c["v"] = var(h->getExceptionDecl());
                }
                c["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(c));
            }
            o["h"] = std::move(hs);
            return node("try", s, std::move(o));
        }
        if ( auto* x = dyn_cast<DeclStmt>(s) ) {
            Object o; Array a;
            for ( auto* d : x->decls() ) if ( auto* v = dyn_cast<VarDecl>(d) ) a.push_back(var(v));
            o["v"] = std::move(a);
            return node("decl", s, std::move(o));
        }
        if ( auto* x = dyn_cast<AttributedStmt>(s) ) return stmt(x->getSubStmt());
        if ( auto* x = dyn_cast<Expr>(s) ) {
            Object o; o["e"] = expr(x);
            return node("expr", s, std::move(o));
        }
        if ( auto* x = dyn_cast<LabelStmt>(s) ) return stmt(x->getSubStmt());
        Object o; o["c"] = s->getStmtClassName();
        return node("unkstmt", s, std::move(o));
    }

    void flattenCase(const Stmt* s, Array& items) {
        if ( auto* c = dyn_cast<CaseStmt>(s) ) {
            Object o; o["case"] = expr(c->getLHS());
            items.push_back(Value(std::move(o)));
            flattenCase(c->getSubStmt(), items);
            return;
        }
        if ( auto* d = dyn_cast<DefaultStmt>(s) ) {
            Object o; o["default"] = true;
            items.push_back(Value(std::move(o)));
            flattenCase(d->getSubStmt(), items);
            return;
        }
        Object o; o["s"] = stmt(s);
        items.push_back(Value(std::move(o)));
    }

    void out(Value v) {
        *gOut << v << "\n";
    }

    void function(const FunctionDecl* f) {
        if ( !f->doesThisDeclarationHaveABody() && !f->isDefaulted() ) return;
        if ( f->isDependentContext() ) return;
        if ( f->isImplicit() && !f->isDefaulted() ) return;
        if ( !f->doesThisDeclarationHaveABody() ) return;
        std::string file; int ln = 0;
        if ( !inProject(f->getLocation(), file, ln) ) return;
        if ( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            if ( m->getParent()->isLambda() ) return;
        }
        std::string id = funcId(f);
        std::string key = "F" + id + "@" + file;
        if ( !gSeen.insert(key).second ) return;
        ids.clear();

        Object o = calleeInfo(f);
        o["kind"] = "func";
        o["file"] = file; o["line"] = ln;
        o["end"] = line(f->getEndLoc());
        o["name"] = f->getNameAsString();
        o["ret"] = type(f->getReturnType());
        if ( f->isImplicit() ) o["implicit"] = true;
        if ( auto* m = dyn_cast<CXXMethodDecl>(f) ) {
            o["cls"] = qname(m->getParent());
            o["acc"] = (int)m->getAccess();
            Array ov;
            for ( auto* b : m->overridden_methods() ) ov.push_back(funcId(b));
            o["ov"] = std::move(ov);
        }
        Array ps;
        for ( auto* p : f->parameters() ) ps.push_back(param(p));
        o["p"] = std::move(ps);
        if ( auto* c = dyn_cast<CXXConstructorDecl>(f) ) {
            o["ctor"] = true;
            Array in;
            for ( auto* i : c->inits() ) {
                Object x;
                if ( i->isAnyMemberInitializer() ) x["m"] = i->getAnyMember()->getNameAsString();
                else if ( i->isBaseInitializer() ) x["base"] = type(QualType(i->getBaseClass(), 0));
                else if ( i->isDelegatingInitializer() ) x["deleg"] = true;
                x["w"] = i->isWritten();
                x["e"] = expr(i->getInit());
                in.push_back(std::move(x));
            }
            o["inits"] = std::move(in);
        }
        if ( isa<CXXDestructorDecl>(f) ) o["dtor"] = true;
        o["body"] = stmt(f->getBody());
        out(Value(std::move(o)));
    }

    void record(const CXXRecordDecl* r) {
        if ( !r->isCompleteDefinition() || r->isDependentContext() || r->isLambda() ) return;
        std::string file; int ln = 0;
        if ( !inProject(r->getLocation(), file, ln) ) return;
        std::string q = qname(r);
        if ( !gSeen.insert("C" + q + "@" + file).second ) return;
        Object o;
        o["kind"] = "class"; o["q"] = q; o["file"] = file; o["line"] = ln;
        Array b;
        for ( auto& x : r->bases() ) b.push_back(type(x.getType()));
        o["bases"] = std::move(b);
        Array fs;
        for ( auto* f : r->fields() ) {
            Object x; x["n"] = f->getNameAsString(); x["t"] = type(f->getType());
            if ( f->hasInClassInitializer() && f->getInClassInitializer() ) x["i"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        Array ms;
        for ( auto* m : r->methods() ) {
            if ( m->isImplicit() ) continue;
            Object x; x["id"] = funcId(m); x["n"] = m->getNameAsString();
            x["v"] = m->isVirtual(); x["pure"] = m->isPureVirtual(); x["acc"] = (int)m->getAccess();
            x["st"] = m->isStatic();
            x["del"] = m->isDeleted();
            x["dft"] = m->isDefaulted();
            ms.push_back(std::move(x));
        }
        o["methods"] = std::move(ms);
        out(Value(std::move(o)));
    }

    void enumeration(const EnumDecl* d) {
        if ( !d->isCompleteDefinition() ) return;
        std::string file; int ln = 0;
        if ( !inProject(d->getLocation(), file, ln) ) return;
        std::string q = type(QualType(d->getTypeForDecl(), 0));
        if ( !gSeen.insert("E" + q + "@" + file).second ) return;
        Object o;
        o["kind"] = "enum"; o["q"] = q; o["file"] = file; o["line"] = ln;
        Array a;
        for ( auto* c : d->enumerators() ) {
            Array p; p.push_back(qname(c)); p.push_back((int64_t)c->getInitVal().getExtValue());
            a.push_back(std::move(p));
        }
        o["c"] = std::move(a);
        out(Value(std::move(o)));
    }

    void global(const VarDecl* v) {
        if ( v->isLocalVarDeclOrParm() ) return;
        if ( !v->hasInit() ) return;
        if ( v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->isStaticDataMember() ) return;
        if ( v->getDeclContext()->isDependentContext() ) return;
        if ( v->getInit()->isValueDependent() ) return;
        std::string file; int ln = 0;
        if ( !inProject(v->getLocation(), file, ln) ) return;
        std::string q = qname(v);
        if ( !gSeen.insert("V" + q + "@" + file).second ) return;
        ids.clear();
        Object o;
        o["kind"] = "global"; o["q"] = q; o["file"] = file; o["line"] = ln; o["t"] = type(v->getType());
        o["i"] = expr(v->getInit());
        out(Value(std::move(o)));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
public:
    explicit Visitor(ASTContext& c) : em(c) {}
    Emitter em;
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) { em.function(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { em.record(r); return true; }
    bool VisitEnumDecl(EnumDecl* d) { em.enumeration(d); return true; }
    bool VisitVarDecl(VarDecl* v) { em.global(v); return true; }
    // do not walk the bodies of system headers
    bool TraverseDecl(Decl* d) {
        if ( d && !isa<TranslationUnitDecl>(d) && d->getDeclContext() && d->getDeclContext()->isTranslationUnit() ) {
            std::string f; int l;
            if ( em.locOf(d->getLocation(), f, l) && f.compare(0, gRoot.size(), gRoot) != 0 ) return true;
        }
        return RecursiveASTVisitor<Visitor>::TraverseDecl(d);
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override {
        if ( c.getDiagnostics().hasErrorOccurred() ) return;
        Visitor v(c);
        v.TraverseDecl(c.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

}

int main(int argc, const char** argv) {
    if ( argc < 4 ) return 2;
    gRoot = argv[1];
    if ( gRoot.back() != '/' ) gRoot += '/';
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[2], ec);
    if ( ec ) return 2;
    gOut = &os;
    std::vector<std::string> files, flags;
    int i = 3;
    for ( ; i < argc && std::string(argv[i]) != "--"; ++i ) files.push_back(argv[i]);
    for ( ++i; i < argc; ++i ) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    int rc = 0;
    for ( auto& f : files ) {
        tooling::ClangTool tool(db, {f});
        int r = tool.run(tooling::newFrontendActionFactory<Action>().get());
        Object o; o["kind"] = "tu"; o["file"] = f; o["ok"] = r == 0;
        os << Value(std::move(o)) << "\n";
        if ( r ) rc = 1;
    }
    return rc;
}
