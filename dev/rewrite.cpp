// Development aid: lists behaviour preserving rewrites of the project's functions.
// Output: one JSON object per line {mode, func, edits: [{file, off, len, text}]}
//
// usage: rewrite ROOT OUT MODE FILE... -- FLAGS...

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ParentMapContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"

#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot, gMode;
static std::set<std::string> gSeen;
static llvm::raw_fd_ostream* gOut = nullptr;
static int gNo = 0;

namespace {

struct Escape : RecursiveASTVisitor<Escape> {
    // what leaves a piece of code
    bool ret = false, brk = false, cont = false, other = false, lam = false;
    int loops = 0, switches = 0;
    bool TraverseForStmt(ForStmt* s) { ++loops; RecursiveASTVisitor::TraverseForStmt(s); --loops; return true; }
    bool TraverseWhileStmt(WhileStmt* s) { ++loops; RecursiveASTVisitor::TraverseWhileStmt(s); --loops; return true; }
    bool TraverseDoStmt(DoStmt* s) { ++loops; RecursiveASTVisitor::TraverseDoStmt(s); --loops; return true; }
    bool TraverseCXXForRangeStmt(CXXForRangeStmt* s) { ++loops; RecursiveASTVisitor::TraverseCXXForRangeStmt(s); --loops; return true; }
    bool TraverseSwitchStmt(SwitchStmt* s) { ++switches; RecursiveASTVisitor::TraverseSwitchStmt(s); --switches; return true; }
    bool TraverseLambdaExpr(LambdaExpr*) { lam = true; return true; }
    bool VisitReturnStmt(ReturnStmt*) { ret = true; return true; }
    bool VisitBreakStmt(BreakStmt*) { if ( !loops && !switches ) brk = true; return true; }
    bool VisitContinueStmt(ContinueStmt*) { if ( !loops ) cont = true; return true; }
    bool VisitGotoStmt(GotoStmt*) { other = true; return true; }
    bool VisitLabelStmt(LabelStmt*) { other = true; return true; }
    bool VisitSwitchCase(SwitchCase*) { if ( !switches ) other = true; return true; }
};

static Escape escapes(Stmt* s) { Escape e; e.TraverseStmt(s); return e; }

struct Uses : RecursiveASTVisitor<Uses> {
    std::set<const ValueDecl*> used, declared;
    bool self = false, call = false;
    bool VisitDeclRefExpr(DeclRefExpr* e) { used.insert(e->getDecl()); return true; }
    bool VisitVarDecl(VarDecl* d) { declared.insert(d); return true; }
    bool VisitCXXThisExpr(CXXThisExpr*) { self = true; return true; }
    bool VisitCallExpr(CallExpr*) { call = true; return true; }
    bool VisitCXXConstructExpr(CXXConstructExpr*) { call = true; return true; }
    bool VisitCXXNewExpr(CXXNewExpr*) { call = true; return true; }
    bool shouldVisitImplicitCode() const { return true; }
};

class Rewriter : public RecursiveASTVisitor<Rewriter> {
public:
    explicit Rewriter(ASTContext& c) : C(c), SM(c.getSourceManager()), P(c.getPrintingPolicy()) {
        P.SuppressTagKeyword = true; P.FullyQualifiedName = true; P.Bool = true; P.PrintCanonicalTypes = true;
    }
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy P;
    FunctionDecl* fn = nullptr;
    int lambda = 0;
    bool bad = false;

    struct Edit { std::string file; unsigned off, len; std::string text; };

    // ---- text -------------------------------------------------------------------------------------------------
    std::string fileOf(SourceLocation l) { return SM.getFilename(SM.getExpansionLoc(l)).str(); }
    bool ours(SourceLocation l) { return l.isValid() && l.isFileID() && fileOf(l).compare(0, gRoot.size(), gRoot) == 0; }
    SourceLocation after(SourceLocation l) { return Lexer::getLocForEndOfToken(l, 0, SM, C.getLangOpts()); }
    SourceLocation end(const Stmt* s) {
        if ( !s ) return SourceLocation();
        if ( auto* x = dyn_cast<CompoundStmt>(s) ) return after(x->getRBracLoc());
        if ( auto* x = dyn_cast<IfStmt>(s) ) return x->getElse() ? end(x->getElse()) : end(x->getThen());
        if ( auto* x = dyn_cast<ForStmt>(s) ) return end(x->getBody());
        if ( auto* x = dyn_cast<WhileStmt>(s) ) return end(x->getBody());
        if ( auto* x = dyn_cast<CXXForRangeStmt>(s) ) return end(x->getBody());
        if ( auto* x = dyn_cast<SwitchStmt>(s) ) return end(x->getBody());
        if ( auto* x = dyn_cast<CXXTryStmt>(s) ) return end(x->getHandler(x->getNumHandlers() - 1)->getHandlerBlock());
        if ( auto* x = dyn_cast<SwitchCase>(s) ) return end(x->getSubStmt());
        if ( isa<DeclStmt>(s) || isa<NullStmt>(s) ) return after(s->getEndLoc());
        SourceLocation l = s->getEndLoc();
        if ( l.isMacroID() ) { bad = true; return l; }
        SourceLocation e = Lexer::findLocationAfterToken(l, tok::semi, SM, C.getLangOpts(), false);
        if ( e.isInvalid() ) bad = true;
        return e;
    }
    std::string text(SourceLocation b, SourceLocation e) {
        if ( !ours(b) || !e.isValid() || !e.isFileID() || SM.getFileID(b) != SM.getFileID(e) ) { bad = true; return ""; }
        return Lexer::getSourceText(CharSourceRange::getCharRange(b, e), SM, C.getLangOpts()).str();
    }
    std::string stext(const Stmt* s) { return text(s->getBeginLoc(), end(s)); }
    std::string etext(const Expr* e) { return text(e->getBeginLoc(), after(e->getEndLoc())); }
    std::string type(QualType t) { return t.getAsString(P); }
    std::string block(const Stmt* s) {
        std::string t = stext(s);
        return isa<CompoundStmt>(s) ? t : "{ " + t + " }";
    }
    std::string inner(const Stmt* s) {
        if ( auto* c = dyn_cast<CompoundStmt>(s) ) return text(after(c->getLBracLoc()), c->getRBracLoc());
        return stext(s);
    }

    Edit rep(SourceLocation b, SourceLocation e, const std::string& t) {
        text(b, e);
        if ( bad ) return Edit{"", 0, 0, ""};
        unsigned o = SM.getFileOffset(b);
        return Edit{fileOf(b), o, SM.getFileOffset(e) - o, t};
    }
    void emit(std::vector<Edit> es) {
        if ( bad || !fn ) { bad = false; return; }
        Array a;
        std::string key;
        for ( auto& e : es ) {
            Object o; o["file"] = e.file; o["off"] = e.off; o["len"] = e.len; o["text"] = e.text;
            a.push_back(std::move(o));
            key += e.file + ":" + std::to_string(e.off) + ":" + std::to_string(e.len) + ";";
        }
        if ( !gSeen.insert(es[0].file + ":" + std::to_string(es[0].off)).second ) return;
        Object o; o["mode"] = gMode; o["func"] = fn->getQualifiedNameAsString(); o["edits"] = std::move(a);
        *gOut << Value(std::move(o)) << "\n";
    }
    void replace(const Stmt* s, const std::string& t) { Edit e = rep(s->getBeginLoc(), end(s), t); emit({e}); }
    void replaceExpr(const Expr* s, const std::string& t) { Edit e = rep(s->getBeginLoc(), after(s->getEndLoc()), t); emit({e}); }
    bool mode(const char* m) { bad = false; return gMode == m; }
    std::string fresh(const char* p) { return std::string(p) + std::to_string(gNo++) + "_"; }

    const Stmt* parent(const Stmt* s) {
        auto ps = C.getParents(*s);
        return ps.empty() ? nullptr : ps[0].get<Stmt>();
    }
    static bool leaves(const Stmt* s) {
        if ( auto* c = dyn_cast<CompoundStmt>(s) ) return !c->body_empty() && leaves(c->body_back());
        if ( auto* i = dyn_cast<IfStmt>(s) ) return i->getElse() && leaves(i->getThen()) && leaves(i->getElse());
        if ( auto* e = dyn_cast<ExprWithCleanups>(s) ) return isa<CXXThrowExpr>(e->getSubExpr());
        return isa<ReturnStmt>(s) || isa<BreakStmt>(s) || isa<ContinueStmt>(s) || isa<CXXThrowExpr>(s);
    }
    static bool returns(const Stmt* s) {
        if ( auto* c = dyn_cast<CompoundStmt>(s) ) return !c->body_empty() && returns(c->body_back());
        return isa<ReturnStmt>(s);
    }
    static bool trivial(const Expr* e) {
        e = e->IgnoreParenImpCasts();
        if ( auto* m = dyn_cast<MemberExpr>(e) ) return trivial(m->getBase());
        if ( auto* u = dyn_cast<UnaryOperator>(e) ) return !u->isIncrementDecrementOp() && trivial(u->getSubExpr());
        return isa<DeclRefExpr>(e) || isa<CXXThisExpr>(e) || isa<IntegerLiteral>(e) || isa<StringLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<CharacterLiteral>(e) || isa<CXXNullPtrLiteralExpr>(e) || isa<FloatingLiteral>(e);
    }
    bool scalarOrString(QualType t) {
        if ( t->isReferenceType() ) return false;
        if ( t->isScalarType() ) return true;
        auto* r = t->getAsCXXRecordDecl();
        return r && r->getNameAsString() == "basic_string";
    }

    // ---- statements -------------------------------------------------------------------------------------------
    bool VisitIfStmt(IfStmt* s) {
        if ( !fn || s->getInit() || s->getConditionVariable() || !ours(s->getBeginLoc()) ) return true;
        const Stmt* th = s->getThen(); const Stmt* el = s->getElse();
        Expr* c = s->getCond();
        const Stmt* par = parent(s);
        bool chained = par && isa<IfStmt>(par) && cast<IfStmt>(par)->getElse() == s;
        if ( mode("ifswap") && el ) {
            replace(s, "if ( !(" + etext(c) + ") ) " + block(el) + " else " + block(th));
        }
        if ( mode("elseif") && el && isa<IfStmt>(el) ) {
            replace(el, block(el));
        }
        if ( mode("elseremove") && el && leaves(th) && !chained && par && isa<CompoundStmt>(par) ) {
            std::string t = "if ( " + etext(c) + " ) " + block(th);
            replace(s, t + "\n" + block(el));
        }
        if ( mode("condlocal") ) {
            std::string v = fresh("cond");
            std::string t = "{ const bool " + v + "(" + etext(c) + "); if ( " + v + " ) " + block(th);
            if ( el ) t += " else " + block(el);
            replace(s, t + " }");
        }
        if ( mode("condsplit") ) {
            if ( auto* b = dyn_cast<BinaryOperator>(c->IgnoreParenImpCasts()) ) {
                std::string l = etext(b->getLHS()), r = etext(b->getRHS());
                if ( b->getOpcode() == BO_LAnd && !el ) replace(s, "if ( " + l + " ) { if ( " + r + " ) " + block(th) + " }");
                else if ( b->getOpcode() == BO_LOr && !el && leaves(th) && par && isa<CompoundStmt>(par) )
                    replace(s, "if ( " + l + " ) " + block(th) + " if ( " + r + " ) " + block(th));
            }
        }
        if ( mode("ifjoin") && !el ) {
            const Stmt* t = th;
            if ( auto* k = dyn_cast<CompoundStmt>(t) ) t = k->size() == 1 ? k->body_front() : nullptr;
            if ( t && isa<IfStmt>(t) && !cast<IfStmt>(t)->getElse() && !cast<IfStmt>(t)->getConditionVariable() ) {
                auto* i = cast<IfStmt>(t);
                replace(s, "if ( (" + etext(c) + ") && (" + etext(i->getCond()) + ") ) " + block(i->getThen()));
            }
        }
        if ( mode("outlinecond") ) {
            std::string v = fresh("holds");
            Uses u; u.TraverseStmt(c);
            if ( !isa<CXXBoolLiteralExpr>(c->IgnoreParenImpCasts()) ) {
                std::string t = "{ const auto " + v + " = [&]() -> bool { return bool(" + etext(c) + "); }; if ( " + v + "() ) " + block(th);
                if ( el ) t += " else " + block(el);
                replace(s, t + " }");
            }
        }
        return true;
    }

    bool VisitForStmt(ForStmt* s) {
        if ( !fn || !ours(s->getBeginLoc()) || s->getConditionVariable() ) return true;
        if ( mode("fortowhile") && !escapes(s->getBody()).cont ) {
            std::string t = "{ ";
            if ( s->getInit() ) t += isa<DeclStmt>(s->getInit()) ? stext(s->getInit()) : etext(cast<Expr>(s->getInit())) + ";";
            t += " while ( " + (s->getCond() ? etext(s->getCond()) : std::string("true")) + " ) { " + block(s->getBody());
            if ( s->getInc() ) t += " " + etext(s->getInc()) + ";";
            replace(s, t + " } }");
        }
        if ( mode("forbreak") && s->getCond() ) {
            std::string t = "for ( " + (s->getInit() ? (isa<DeclStmt>(s->getInit()) ? stext(s->getInit()) : etext(cast<Expr>(s->getInit())) + ";") : std::string(";"));
            t += " ; " + (s->getInc() ? etext(s->getInc()) : std::string()) + " ) { if ( !(" + etext(s->getCond()) + ") ) { break; } " + block(s->getBody()) + " }";
            replace(s, t);
        }
        if ( mode("itertorange") ) iterToRange(s);
        return true;
    }

    struct ItUses : RecursiveASTVisitor<ItUses> {
        const VarDecl* v; ASTContext& C; bool ok = true;
        std::vector<std::pair<SourceRange, bool>> at;   // range, arrow
        ItUses(const VarDecl* v, ASTContext& c) : v(v), C(c) {}
        bool refers(const Expr* e) { auto* d = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts()); return d && d->getDecl() == v; }
        int count = 0;
        bool VisitDeclRefExpr(DeclRefExpr* e) { if ( e->getDecl() == v ) ++count; return true; }
        bool VisitCXXOperatorCallExpr(CXXOperatorCallExpr* e) {
            if ( e->getNumArgs() == 1 && refers(e->getArg(0)) ) {
                if ( e->getOperator() == OO_Star ) at.push_back({e->getSourceRange(), false});
                else if ( e->getOperator() == OO_Arrow ) at.push_back({SourceRange(e->getArg(0)->getBeginLoc(), e->getOperatorLoc()), true});
            }
            return true;
        }
    };
    void iterToRange(ForStmt* s) {
        auto* d = dyn_cast_or_null<DeclStmt>(s->getInit());
        if ( !d || !d->isSingleDecl() ) return;
        auto* v = dyn_cast<VarDecl>(d->getSingleDecl());
        if ( !v || !v->getInit() || !v->getType()->isRecordType() || !s->getInc() || !s->getCond() ) return;
        auto* m = dyn_cast<CXXMemberCallExpr>(v->getInit()->IgnoreImplicit());
        if ( auto* k = dyn_cast<CXXConstructExpr>(v->getInit()->IgnoreImplicit()) )
            if ( k->getNumArgs() == 1 ) m = dyn_cast<CXXMemberCallExpr>(k->getArg(0)->IgnoreImplicit());
        if ( !m || !m->getMethodDecl() ) return;
        std::string b = m->getMethodDecl()->getNameAsString();
        if ( b != "begin" && b != "cbegin" ) return;
        if ( etext(s->getInc()).size() > v->getNameAsString().size() + 2 ) return;
        std::string cont = etext(m->getImplicitObjectArgument());
        std::string cond = etext(s->getCond());
        if ( cond != v->getNameAsString() + " != " + cont + ".end()" && cond != v->getNameAsString() + " != " + cont + ".cend()" ) return;
        ItUses u(v, C);
        u.TraverseStmt(s->getBody());
        if ( (int)u.at.size() != u.count || !u.count ) return;
        std::string n = fresh("item");
        // rewrite the uses from the back
        SourceLocation bb = s->getBody()->getBeginLoc(), be = end(s->getBody());
        std::string body = text(bb, be);
        if ( bad ) return;
        unsigned base = SM.getFileOffset(bb);
        std::sort(u.at.begin(), u.at.end(), [&](auto& x, auto& y) { return SM.getFileOffset(x.first.getBegin()) > SM.getFileOffset(y.first.getBegin()); });
        for ( auto& a : u.at ) {
            if ( a.first.getBegin().isMacroID() || a.first.getEnd().isMacroID() ) return;
            unsigned o = SM.getFileOffset(a.first.getBegin()) - base, e = SM.getFileOffset(after(a.first.getEnd())) - base;
            body.replace(o, e - o, a.second ? n + "." : n);
        }
        bool isConst = b == "cbegin";
        replace(s, std::string("for ( ") + (isConst ? "const " : "") + "auto& " + n + " : " + cont + " ) " + (isa<CompoundStmt>(s->getBody()) ? body : "{ " + body + " }"));
    }

    bool VisitWhileStmt(WhileStmt* s) {
        if ( !fn || !ours(s->getBeginLoc()) || s->getConditionVariable() ) return true;
        if ( mode("whiletofor") ) replace(s, "for ( ; " + etext(s->getCond()) + "; ) " + block(s->getBody()));
        if ( mode("whilebreak") ) replace(s, "while ( true ) { if ( !(" + etext(s->getCond()) + ") ) { break; } " + block(s->getBody()) + " }");
        if ( mode("whiledo") && !escapes(s->getBody()).cont )
            replace(s, "if ( " + etext(s->getCond()) + " ) { do " + block(s->getBody()) + " while ( " + etext(s->getCond()) + " ); }");
        return true;
    }

    bool VisitCXXForRangeStmt(CXXForRangeStmt* s) {
        if ( !fn || !ours(s->getBeginLoc()) ) return true;
        QualType t = s->getRangeInit()->getType();
        auto* r = t->getAsCXXRecordDecl();
        if ( !r ) return true;
        VarDecl* v = s->getLoopVariable();
        std::string n = r->getNameAsString();
        std::string decl = text(v->getBeginLoc(), after(v->getLocation()));
        if ( mode("rangeiter") && n != "initializer_list" ) {
            std::string rr = fresh("range"), it = fresh("it");
            replace(s, "{ auto&& " + rr + " = " + etext(s->getRangeInit()) + "; for ( auto " + it + " = " + rr + ".begin(); " + it + " != " + rr + ".end(); ++" + it + " ) { "
                    + text(v->getBeginLoc(), after(v->getLocation())) + " = *" + it + "; " + block(s->getBody()) + " } }");
        }
        if ( mode("rangeiterdirect") && n != "initializer_list" && trivial(s->getRangeInit()) ) {
            std::string it = fresh("it"), rr = etext(s->getRangeInit());
            replace(s, "for ( auto " + it + " = " + rr + ".begin(); " + it + " != " + rr + ".end(); ++" + it + " ) { "
                    + text(v->getBeginLoc(), after(v->getLocation())) + " = *" + it + "; " + inner(s->getBody()) + " }");
        }
        if ( mode("rangeindex") && (n == "vector" || n == "basic_string" || n == "deque") ) {
            std::string rr = fresh("range"), it = fresh("i");
            replace(s, "{ auto&& " + rr + " = " + etext(s->getRangeInit()) + "; for ( std::size_t " + it + " = 0; " + it + " < " + rr + ".size(); ++" + it + " ) { "
                    + text(v->getBeginLoc(), after(v->getLocation())) + " = " + rr + "[" + it + "]; " + block(s->getBody()) + " } }");
        }
        return true;
    }

    bool VisitCompoundStmt(CompoundStmt* s) {
        if ( !fn || !ours(s->getLBracLoc()) ) return true;
        std::vector<Stmt*> b(s->body_begin(), s->body_end());
        for ( auto* x : b ) if ( isa<SwitchCase>(x) ) return true;
        const Stmt* par = parent(s);
        if ( mode("earlyelse") ) {
            for ( size_t i = 0; i + 1 < b.size(); ++i ) {
                auto* f = dyn_cast<IfStmt>(b[i]);
                if ( !f || f->getElse() || f->getConditionVariable() || !leaves(f->getThen()) ) continue;
                std::string t = "if ( " + etext(f->getCond()) + " ) " + block(f->getThen()) + " else { " + text(b[i + 1]->getBeginLoc(), end(b.back())) + " }";
                emit({rep(f->getBeginLoc(), end(b.back()), t)});
                break;
            }
        }
        if ( mode("guard") && !b.empty() && b.size() < 40 ) {
            auto* f = dyn_cast<IfStmt>(b.back());
            std::string leave;
            if ( par && (isa<ForStmt>(par) || isa<WhileStmt>(par) || isa<CXXForRangeStmt>(par)) ) leave = "continue;";
            else if ( s == fn->getBody() && fn->getReturnType()->isVoidType() && !lambda ) leave = "return;";
            if ( f && !f->getElse() && !f->getConditionVariable() && !leave.empty() )
                replace(f, "if ( !(" + etext(f->getCond()) + ") ) { " + leave + " }\n" + inner(f->getThen()));
        }
        if ( mode("declswap") || mode("stmtswap") ) {
            for ( size_t i = 0; i + 1 < b.size(); ++i ) {
                bool ok = mode("declswap") ? pureDecl(b[i]) && pureDecl(b[i + 1]) : pureAssign(b[i]) && pureAssign(b[i + 1]);
                if ( !ok ) continue;
                Uses u, w; u.TraverseStmt(b[i]); w.TraverseStmt(b[i + 1]);
                bool dep = false;
                if ( mode("declswap") ) { for ( auto* d : u.declared ) if ( w.used.count(d) ) dep = true; }
                else dep = stext(cast<BinaryOperator>(b[i])->getLHS()) == stext(cast<BinaryOperator>(b[i + 1])->getLHS());
                bad = false;
                if ( dep ) continue;
                std::string x = stext(b[i]), y = stext(b[i + 1]);
                emit({rep(b[i]->getBeginLoc(), end(b[i + 1]), y + "\n" + x)});
                ++i;
            }
        }
        bool isBody = s == fn->getBody();
        Escape e = escapes(s);
        if ( mode("outline") && !isBody && par && !isa<CXXCatchStmt>(par) && !isa<LambdaExpr>(par) && !e.ret && !e.brk && !e.cont && !e.other && !b.empty() && !isa<CXXTryStmt>(par) ) {
            emit({rep(s->getLBracLoc(), end(s), "{ [&]() " + stext(s) + "(); }")});
        }
        if ( mode("outlinebody") && isBody && !isa<CXXConstructorDecl>(fn) && !isa<CXXDestructorDecl>(fn) && !lambda && !b.empty() && !isa<CXXTryStmt>(par ? par : s) ) {
            std::string n = fresh("impl");
            std::string r = type(fn->getReturnType());
            emit({rep(s->getLBracLoc(), end(s), "{ const auto " + n + " = [&]() -> " + r + " " + stext(s) + "; return " + n + "(); }")});
        }
        if ( (mode("extract") || mode("extractret")) && !isBody && !lambda && par && !isa<LambdaExpr>(par) && !e.brk && !e.cont && !e.other && !e.lam && !b.empty() && b.size() > 0 ) extract(s, e);
        if ( (mode("extracttail")) && isBody && !lambda && b.size() > 2 && !e.other && !e.lam ) extractTail(s, b);
        return true;
    }

    // code in [from, to) becomes a function of its own; the variables it uses are handed in
    bool helper(const std::vector<Stmt*>& body, bool ret, const std::string& code, std::string& call, std::vector<Edit>& es) {
        Uses u;
        for ( auto* x : body ) u.TraverseStmt(x);
        std::string params, args;
        for ( auto* d : u.used ) {
            auto* v = dyn_cast<VarDecl>(d);
            if ( !v || u.declared.count(v) || v->hasGlobalStorage() || v->getNameAsString().empty() ) continue;
            if ( !v->getDeclContext()->isFunctionOrMethod() && !isa<ParmVarDecl>(v) ) continue;
            QualType t = v->getType().getNonReferenceType();
            if ( t->isArrayType() || t->isFunctionPointerType() ) return false;
            if ( auto* r = t->getAsCXXRecordDecl() ) if ( r->isLambda() || r->isLocalClass() ) return false;
            bool refd = v->getType()->isReferenceType();
            (void)refd;
            params += (params.empty() ? "" : ", ") + type(t) + "& " + v->getNameAsString();
            args += (args.empty() ? "" : ", ") + v->getNameAsString();
        }
        for ( auto* d : u.used ) if ( auto* v = dyn_cast<VarDecl>(d) ) if ( v->isStaticLocal() ) return false;
        if ( fn->isTemplated() || fn->getTemplatedKind() != FunctionDecl::TK_NonTemplate ) return false;
        std::string n = fresh("helper");
        std::string r = ret ? type(fn->getReturnType()) : "void";
        auto* m = dyn_cast<CXXMethodDecl>(fn);
        call = n + "(" + args + ")";
        if ( m && !m->isStatic() ) {
            auto* cls = m->getParent();
            if ( cls->isTemplated() || isa<ClassTemplateSpecializationDecl>(cls) || !cls->isCompleteDefinition() || cls->isLocalClass() || !ours(cls->getBraceRange().getEnd()) ) return false;
            std::string sig = n + "(" + params + ")" + (m->isConst() ? " const" : "");
            if ( m->isOutOfLine() ) {
                es.push_back(rep(cls->getBraceRange().getEnd(), cls->getBraceRange().getEnd(), "private: " + r + " " + sig + ";\n"));
                std::string q = m->getQualifier() ? text(m->getQualifierLoc().getBeginLoc(), after(m->getQualifierLoc().getEndLoc())) : cls->getNameAsString() + "::";
                es.push_back(rep(m->getBeginLoc(), m->getBeginLoc(), r + " " + q + sig + " " + code + "\n\n"));
            }
            else es.push_back(rep(cls->getBraceRange().getEnd(), cls->getBraceRange().getEnd(), "private: " + r + " " + sig + " " + code + "\n"));
        }
        else {
            if ( m ) return false;
            es.push_back(rep(fn->getBeginLoc(), fn->getBeginLoc(), "static " + r + " " + n + "(" + params + ") " + code + "\n\n"));
        }
        return true;
    }
    void extract(CompoundStmt* s, const Escape& e) {
        bool ret = mode("extractret");
        if ( ret ? (!e.ret || !returns(s) || fn->getReturnType()->isUndeducedType()) : e.ret ) return;
        std::vector<Edit> es;
        std::string call;
        if ( !helper({s}, ret, stext(s), call, es) ) { bad = false; return; }
        es.insert(es.begin(), rep(s->getLBracLoc(), end(s), ret ? "{ return " + call + "; }" : "{ " + call + "; }"));
        emit(es);
    }
    void extractTail(CompoundStmt* s, std::vector<Stmt*>& b) {
        if ( isa<CXXConstructorDecl>(fn) || isa<CXXDestructorDecl>(fn) || fn->getReturnType()->isUndeducedType() ) return;
        size_t k = b.size() / 2;
        std::vector<Stmt*> tail(b.begin() + k, b.end());
        std::vector<Edit> es;
        std::string call;
        std::string code = "{ " + text(b[k]->getBeginLoc(), end(b.back())) + " }";
        if ( bad || !helper(tail, true, code, call, es) ) { bad = false; return; }
        es.insert(es.begin(), rep(b[k]->getBeginLoc(), end(b.back()), "return " + call + ";"));
        emit(es);
    }

    static bool pureExpr(const Expr* e) {
        e = e->IgnoreParenImpCasts();
        if ( auto* c = dyn_cast<ExprWithCleanups>(e) ) return pureExpr(c->getSubExpr());
        if ( trivial(e) ) return true;
        if ( auto* c = dyn_cast<CXXConstructExpr>(e) ) { for ( auto* a : c->arguments() ) if ( !isa<CXXDefaultArgExpr>(a) && !pureExpr(a) ) return false; auto n = c->getConstructor()->getQualifiedNameAsString(); return n.compare(0, 5, "std::") == 0; }
        if ( auto* c = dyn_cast<MaterializeTemporaryExpr>(e) ) return pureExpr(c->getSubExpr());
        if ( auto* c = dyn_cast<CXXBindTemporaryExpr>(e) ) return pureExpr(c->getSubExpr());
        if ( auto* c = dyn_cast<BinaryOperator>(e) ) return !c->isAssignmentOp() && pureExpr(c->getLHS()) && pureExpr(c->getRHS());
        return false;
    }
    static bool pureDecl(const Stmt* s) {
        auto* d = dyn_cast<DeclStmt>(s);
        if ( !d || !d->isSingleDecl() ) return false;
        auto* v = dyn_cast<VarDecl>(d->getSingleDecl());
        return v && !v->isStaticLocal() && (!v->getInit() || pureExpr(v->getInit()));
    }
    static bool pureAssign(const Stmt* s) {
        auto* b = dyn_cast<BinaryOperator>(s);
        return b && b->getOpcode() == BO_Assign && isa<MemberExpr>(b->getLHS()) && isa<CXXThisExpr>(cast<MemberExpr>(b->getLHS())->getBase()->IgnoreParenImpCasts())
               && (isa<DeclRefExpr>(b->getRHS()->IgnoreParenImpCasts()) || isa<IntegerLiteral>(b->getRHS()->IgnoreParenImpCasts()) || isa<CXXBoolLiteralExpr>(b->getRHS()->IgnoreParenImpCasts()) || isa<CXXNullPtrLiteralExpr>(b->getRHS()->IgnoreParenImpCasts()));
    }

    bool VisitReturnStmt(ReturnStmt* s) {
        if ( !fn || !s->getRetValue() || !ours(s->getBeginLoc()) || lambda ) return true;
        Expr* v = s->getRetValue();
        QualType t = fn->getReturnType();
        if ( mode("retlocal") && !t->isUndeducedType() && !isa<InitListExpr>(v->IgnoreImplicit()) && (scalarOrString(t)) ) {
            std::string n = fresh("result");
            replace(s, "{ " + type(t.getUnqualifiedType()) + " " + n + " = " + etext(v) + "; return " + n + "; }");
        }
        if ( mode("tern") ) if ( auto* c = dyn_cast<ConditionalOperator>(v->IgnoreParenImpCasts()) )
            replace(s, "{ if ( " + etext(c->getCond()) + " ) { return " + etext(c->getTrueExpr()) + "; } return " + etext(c->getFalseExpr()) + "; }");
        if ( mode("retbool") && t->isBooleanType() && !isa<CXXBoolLiteralExpr>(v->IgnoreParenImpCasts()) )
            replace(s, "{ if ( " + etext(v) + " ) { return true; } return false; }");
        return true;
    }

    bool VisitBinaryOperator(BinaryOperator* b) {
        if ( !fn || !ours(b->getBeginLoc()) || !ours(b->getOperatorLoc()) ) return true;
        if ( mode("demorgan") ) {
            if ( b->getOpcode() == BO_LAnd ) replaceExpr(b, "!(!(" + etext(b->getLHS()) + ") || !(" + etext(b->getRHS()) + "))");
            if ( b->getOpcode() == BO_LOr ) replaceExpr(b, "!(!(" + etext(b->getLHS()) + ") && !(" + etext(b->getRHS()) + "))");
        }
        if ( mode("cmpflip") && b->isComparisonOp() ) {
            static const std::map<BinaryOperatorKind, const char*> flip = {{BO_LT, ">"}, {BO_GT, "<"}, {BO_LE, ">="}, {BO_GE, "<="}, {BO_EQ, "=="}, {BO_NE, "!="}};
            auto i = flip.find(b->getOpcode());
            if ( i != flip.end() ) replaceExpr(b, "(" + etext(b->getRHS()) + ") " + i->second + " (" + etext(b->getLHS()) + ")");
        }
        if ( mode("cmpnot") && b->isComparisonOp() ) {
            static const std::map<BinaryOperatorKind, const char*> neg = {{BO_LT, ">="}, {BO_GT, "<="}, {BO_LE, ">"}, {BO_GE, "<"}, {BO_EQ, "!="}, {BO_NE, "=="}};
            auto i = neg.find(b->getOpcode());
            QualType t = b->getLHS()->getType();
            if ( i != neg.end() && !t->isFloatingType() && !b->getRHS()->getType()->isFloatingType() ) replaceExpr(b, "!((" + etext(b->getLHS()) + ") " + i->second + " (" + etext(b->getRHS()) + "))");
        }
        if ( mode("opassign") && b->isCompoundAssignmentOp() && trivial(b->getLHS()) && parentIsBlock(b) ) {
            std::string l = etext(b->getLHS());
            replaceExpr(b, l + " = " + l + " " + std::string(BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(b->getOpcode()))) + " (" + etext(b->getRHS()) + ")");
        }
        if ( mode("tern") && b->getOpcode() == BO_Assign && parentIsBlock(b) ) if ( auto* c = dyn_cast<ConditionalOperator>(b->getRHS()->IgnoreParenImpCasts()) )
            replace(b, "if ( " + etext(c->getCond()) + " ) { " + etext(b->getLHS()) + " = " + etext(c->getTrueExpr()) + "; } else { " + etext(b->getLHS()) + " = " + etext(c->getFalseExpr()) + "; }");
        if ( mode("rhslocal") && b->getOpcode() == BO_Assign && parentIsBlock(b) && scalarOrString(b->getRHS()->getType()) && trivial(b->getLHS()) ) {
            std::string n = fresh("value");
            replace(b, "{ const auto " + n + " = " + etext(b->getRHS()) + "; " + etext(b->getLHS()) + " = " + n + "; }");
        }
        return true;
    }
    bool parentIsBlock(const Stmt* s) {
        const Stmt* p = parent(s);
        return p && (isa<CompoundStmt>(p) || (isa<ExprWithCleanups>(p) && parentIsBlock(p)));
    }
    bool VisitUnaryOperator(UnaryOperator* u) {
        if ( !fn || !ours(u->getBeginLoc()) ) return true;
        if ( mode("incr") && u->isIncrementDecrementOp() && parentIsBlock(u) ) replaceExpr(u, etext(u->getSubExpr()) + (u->isIncrementOp() ? " += 1" : " -= 1"));
        return true;
    }
    bool VisitCallExpr(CallExpr* c) {
        if ( !fn || !ours(c->getBeginLoc()) ) return true;
        if ( auto* o = dyn_cast<CXXOperatorCallExpr>(c) ) {
            if ( mode("incr") && parentIsBlock(c) && o->getNumArgs() == 2 && (o->getOperator() == OO_PlusPlus || o->getOperator() == OO_MinusMinus) )
                replaceExpr(c, std::string(o->getOperator() == OO_PlusPlus ? "++" : "--") + etext(o->getArg(0)));
            if ( mode("cmpflip") && (o->getOperator() == OO_EqualEqual || o->getOperator() == OO_ExclaimEqual) && o->getNumArgs() == 2 && !isa<CXXMethodDecl>(o->getCalleeDecl()) )
                replaceExpr(c, etext(o->getArg(1)) + (o->getOperator() == OO_EqualEqual ? " == " : " != ") + etext(o->getArg(0)));
            if ( mode("opassign") && o->getOperator() == OO_PlusEqual && parentIsBlock(c) && trivial(o->getArg(0)) && o->getArg(0)->getType()->isRecordType() && scalarOrString(o->getArg(0)->getType()) )
                replaceExpr(c, etext(o->getArg(0)) + " = " + etext(o->getArg(0)) + " + (" + etext(o->getArg(1)) + ")");
            return true;
        }
        if ( mode("arglocal") && (parentIsBlock(c) || (parent(c) && isa<ReturnStmt>(parent(c)))) ) {
            if ( auto* m = dyn_cast<CXXMemberCallExpr>(c) ) if ( !trivial(m->getImplicitObjectArgument()) ) return true;
            const FunctionDecl* f = c->getDirectCallee();
            if ( !f || f->getNumParams() < c->getNumArgs() ) return true;
            Expr* one = nullptr; int n = 0; unsigned at = 0;
            for ( unsigned i = 0; i < c->getNumArgs(); ++i ) {
                Expr* a = c->getArg(i);
                if ( isa<CXXDefaultArgExpr>(a) || trivial(a) ) continue;
                one = a; ++n; at = i;
            }
            if ( n != 1 ) return true;
            QualType pt = f->getParamDecl(at)->getType();
            if ( pt->isReferenceType() && !pt.getNonReferenceType().isConstQualified() ) return true;
            if ( !scalarOrString(pt.getNonReferenceType().getUnqualifiedType()) ) return true;
            std::string v = fresh("arg");
            std::string whole = etext(c);
            if ( bad || one->getBeginLoc().isMacroID() ) { bad = false; return true; }
            unsigned b = SM.getFileOffset(c->getBeginLoc());
            unsigned o = SM.getFileOffset(one->getBeginLoc()) - b, e = SM.getFileOffset(after(one->getEndLoc())) - b;
            std::string val = etext(one);
            if ( bad || e > whole.size() ) { bad = false; return true; }
            whole.replace(o, e - o, v);
            const Stmt* top = c;
            std::string ret;
            if ( isa<ReturnStmt>(parent(c)) ) { top = parent(c); ret = "return "; }
            replace(top, "{ const " + type(pt.getNonReferenceType().getUnqualifiedType()) + " " + v + " = " + val + "; " + ret + whole + "; }");
        }
        return true;
    }

    bool VisitSwitchStmt(SwitchStmt* s) {
        if ( !fn || !ours(s->getBeginLoc()) || !mode("switchif") ) return true;
        auto* b = dyn_cast<CompoundStmt>(s->getBody());
        if ( !b || s->getConditionVariable() ) return true;
        struct Case { std::vector<std::string> labels; bool def = false; std::string body; };
        std::vector<Case> cases;
        std::vector<Stmt*> cur;
        bool fail = false, open = false;
        auto close = [&](bool last) {
            if ( cases.empty() ) return;
            if ( cur.empty() ) { fail = !last; return; }
            Stmt* l = cur.back();
            bool brk = isa<BreakStmt>(l);
            if ( !brk && !leaves(l) && !last ) fail = true;
            std::string t;
            for ( size_t i = 0; i < cur.size() - (brk ? 1 : 0); ++i ) {
                if ( escapes(cur[i]).brk ) {
                    // a block that ends in a break
                    auto* c = dyn_cast<CompoundStmt>(cur[i]);
                    if ( i + 1 == cur.size() && c && !c->body_empty() && isa<BreakStmt>(c->body_back()) ) {
                        bool inner = false;
                        for ( auto* y : c->body() ) if ( y != c->body_back() && escapes(y).brk ) inner = true;
                        if ( !inner ) { t += c->size() > 1 ? text(after(c->getLBracLoc()), end(*(c->body_end() - 2))) : std::string(); continue; }
                    }
                    fail = true;
                }
                t += stext(cur[i]) + "\n";
            }
            cases.back().body = t;
            cur.clear();
        };
        for ( Stmt* x : b->body() ) {
            if ( isa<SwitchCase>(x) ) {
                if ( open ) close(false);
                open = true;
                cases.push_back(Case());
                Stmt* y = x;
                while ( auto* c = dyn_cast<SwitchCase>(y) ) {
                    if ( auto* k = dyn_cast<CaseStmt>(c) ) cases.back().labels.push_back(etext(k->getLHS()));
                    else cases.back().def = true;
                    y = c->getSubStmt();
                }
                cur.push_back(y);
            }
            else cur.push_back(x);
        }
        close(true);
        if ( fail || cases.empty() ) { bad = false; return true; }
        std::string v = fresh("subject"), t = "{ const auto " + v + " = " + etext(s->getCond()) + "; ", def;
        bool first = true;
        for ( auto& c : cases ) {
            if ( c.def ) { def = c.body; if ( &c != &cases.back() ) { for ( auto& d : cases ) (void)d; } continue; }
            std::string k;
            for ( auto& l : c.labels ) k += (k.empty() ? "" : " || ") + v + " == " + l;
            t += std::string(first ? "" : "else ") + "if ( " + k + " ) { " + c.body + " }\n";
            first = false;
        }
        if ( first ) return true;
        if ( !def.empty() ) t += "else { " + def + " }";
        replace(s, t + " }");
        return true;
    }

    bool VisitDeclStmt(DeclStmt* s) {
        if ( !fn || !ours(s->getBeginLoc()) || !s->isSingleDecl() ) return true;
        auto* v = dyn_cast<VarDecl>(s->getSingleDecl());
        if ( !v || !v->getInit() || v->isStaticLocal() || !parentIsBlock(s) ) return true;
        if ( mode("declsplit") && v->getInitStyle() == VarDecl::CInit && !v->getType().isConstQualified() && scalarOrString(v->getType()) && !isa<InitListExpr>(v->getInit()->IgnoreImplicit()) && !v->getType()->isFunctionPointerType() )
            replace(s, type(v->getType()) + " " + v->getNameAsString() + "; " + v->getNameAsString() + " = " + etext(v->getInit()) + ";");
        if ( mode("tern") && v->getInitStyle() == VarDecl::CInit && scalarOrString(v->getType()) )
            if ( auto* c = dyn_cast<ConditionalOperator>(v->getInit()->IgnoreParenImpCasts()) )
                replace(s, type(v->getType().getUnqualifiedType()) + " " + v->getNameAsString() + "; if ( " + etext(c->getCond()) + " ) { " + v->getNameAsString() + " = " + etext(c->getTrueExpr()) + "; } else { " + v->getNameAsString() + " = " + etext(c->getFalseExpr()) + "; }");
        return true;
    }

    // ---- traversal --------------------------------------------------------------------------------------------
    bool TraverseLambdaExpr(LambdaExpr* l) { ++lambda; RecursiveASTVisitor::TraverseLambdaExpr(l); --lambda; return true; }
    bool TraverseFunction(FunctionDecl* f, bool (Rewriter::*)(FunctionDecl*)) { (void)f; return true; }
    bool TraverseDecl(Decl* d) {
        if ( !d ) return true;
        if ( !isa<TranslationUnitDecl>(d) && d->getDeclContext() && d->getDeclContext()->isTranslationUnit() ) {
            SourceLocation l = SM.getExpansionLoc(d->getLocation());
            if ( l.isValid() && fileOf(l).compare(0, gRoot.size(), gRoot) != 0 ) return true;
        }
        if ( auto* f = dyn_cast<FunctionDecl>(d) ) {
            if ( !f->doesThisDeclarationHaveABody() ) return true;
            FunctionDecl* old = fn;
            if ( !old ) fn = f;
            bool r = RecursiveASTVisitor::TraverseDecl(d);
            fn = old;
            return r;
        }
        return RecursiveASTVisitor::TraverseDecl(d);
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext& c) override {
        if ( c.getDiagnostics().hasErrorOccurred() ) return;
        Rewriter v(c);
        v.TraverseDecl(c.getTranslationUnitDecl());
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
};

}

int main(int argc, const char** argv) {
    if ( argc < 5 ) return 2;
    gRoot = argv[1];
    if ( gRoot.back() != '/' ) gRoot += '/';
    std::error_code ec;
    llvm::raw_fd_ostream os(argv[2], ec);
    if ( ec ) return 2;
    gOut = &os;
    gMode = argv[3];
    std::vector<std::string> files, flags;
    int i = 4;
    for ( ; i < argc && std::string(argv[i]) != "--"; ++i ) files.push_back(argv[i]);
    for ( ++i; i < argc; ++i ) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    for ( auto& f : files ) {
        gNo = (int)(std::hash<std::string>()(f) % 100000) * 1000;
        tooling::ClangTool tool(db, {f});
        if ( tool.run(tooling::newFrontendActionFactory<Action>().get()) ) return 1;
    }
    return 0;
}
