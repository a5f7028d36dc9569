// astdump: write the typed syntax trees of the functions of a set of translation units as JSON.
// It performs no analysis; the rules work on its output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
using namespace clang;
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::Required);
static cl::opt<std::string> Root("root", cl::Required);
static cl::opt<std::string> Flags("flags", cl::Required);

static std::set<std::string> Seen;
static std::unique_ptr<raw_fd_ostream> OS;
static bool First = true;
static unsigned Failed = 0;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> ids;
    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
    }
    int id(const Decl* d) {
        d = d->getCanonicalDecl();
        return ids.emplace(d, (int) ids.size()).first->second;
    }
    static std::string safe(StringRef s) {
        return json::isUTF8(s) ? s.str() : json::fixUTF8(s);
    }
    std::string ty(QualType t) {
        return t.isNull() ? "" : safe(t.getCanonicalType().getAsString(PP));
    }
    std::string qn(const NamedDecl* d) {
        std::string s;
        raw_string_ostream o(s);
        d->printQualifiedName(o, PP);
        return safe(o.str());
    }
    std::unique_ptr<MangleContext> MC{C.createMangleContext()};
    std::string mangled(const FunctionDecl* f) {
        std::string s;
        raw_string_ostream o(s);
        if (isa<CXXConstructorDecl>(f))
            MC->mangleName(GlobalDecl(cast<CXXConstructorDecl>(f), Ctor_Base), o);
        else if (isa<CXXDestructorDecl>(f))
            MC->mangleName(GlobalDecl(cast<CXXDestructorDecl>(f), Dtor_Base), o);
        else if (MC->shouldMangleDeclName(f))
            MC->mangleName(GlobalDecl(f), o);
        else
            return f->getNameAsString();
        return safe(o.str());
    }
    std::string targs(const FunctionDecl* f) {
        std::string s;
        if (auto* a = f->getTemplateSpecializationArgs()) {
            raw_string_ostream o(s);
            printTemplateArgumentList(o, a->asArray(), PP);
        }
        return safe(s);
    }
    json::Value node(const Stmt* s) {
        if (!s)
            return nullptr;
        json::Object o;
        o["k"] = s->getStmtClassName();
        SourceLocation b = s->getBeginLoc();
        o["l"] = (int64_t) SM.getExpansionLineNumber(b);
        if (b.isMacroID()) {
            // the chain of macros this node comes from, innermost first
            json::Array m;
            SourceLocation x = b;
            for (int n = 0; x.isMacroID() && n < 6; n++) {
                StringRef nm = Lexer::getImmediateMacroName(x, SM, C.getLangOpts());
                m.push_back(safe(nm) + (SM.isMacroArgExpansion(x) ? "#arg" : ""));
                x = SM.isMacroArgExpansion(x) ? SM.getImmediateExpansionRange(x).getBegin() : SM.getImmediateExpansionRange(x).getBegin();
            }
            o["m"] = std::move(m);
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = ty(e->getType());
            if (e->isLValue())
                o["v"] = "l";
            else if (e->isXValue())
                o["v"] = "x";
        }
        if (auto* e = dyn_cast<DeclRefExpr>(s)) {
            o["n"] = qn(e->getDecl());
            o["d"] = id(e->getDecl());
            o["dk"] = e->getDecl()->getDeclKindName();
            if (auto* v = dyn_cast<VarDecl>(e->getDecl()))
                o["local"] = v->isLocalVarDeclOrParm() && !v->isStaticLocal();
        } else if (auto* e = dyn_cast<MemberExpr>(s)) {
            o["n"] = qn(e->getMemberDecl());
            o["arrow"] = e->isArrow();
        } else if (auto* e = dyn_cast<clang::StringLiteral>(s)) {
            if (e->getCharByteWidth() == 1)
                o["s"] = safe(e->getBytes());
            o["len"] = (int64_t) e->getLength();
        } else if (auto* e = dyn_cast<IntegerLiteral>(s)) {
            SmallString<32> str;
            e->getValue().toString(str, 10, e->getType()->isSignedIntegerType());
            o["i"] = std::string(str.str());
        } else if (auto* e = dyn_cast<CharacterLiteral>(s)) {
            o["i"] = std::to_string(e->getValue());
        } else if (auto* e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            o["i"] = e->getValue() ? "1" : "0";
        } else if (auto* e = dyn_cast<BinaryOperator>(s)) {
            o["op"] = e->getOpcodeStr();
        } else if (auto* e = dyn_cast<UnaryOperator>(s)) {
            o["op"] = UnaryOperator::getOpcodeStr(e->getOpcode());
            o["post"] = e->isPostfix();
        } else if (auto* e = dyn_cast<CastExpr>(s)) {
            o["ck"] = e->getCastKindName();
        } else if (auto* e = dyn_cast<MaterializeTemporaryExpr>(s)) {
            o["sd"] = (int) e->getStorageDuration();
            if (e->getExtendingDecl())
                o["ext"] = id(e->getExtendingDecl());
        } else if (auto* e = dyn_cast<LabelStmt>(s)) {
            o["n"] = std::string(e->getName());
        } else if (auto* e = dyn_cast<GotoStmt>(s)) {
            o["n"] = e->getLabel()->getName().str();
        } else if (auto* e = dyn_cast<CaseStmt>(s)) {
            Expr::EvalResult r;
            if (!e->getLHS()->isValueDependent() && e->getLHS()->EvaluateAsInt(r, C))
                o["i"] = std::to_string(r.Val.getInt().getExtValue());
        }
        if (auto* e = dyn_cast<CXXConstructExpr>(s)) {
            o["n"] = qn(e->getConstructor());
            o["elide"] = e->isElidable();
            o["copy"] = e->getConstructor()->isCopyOrMoveConstructor();
            o["f"] = sig(e->getConstructor());
            o["mn"] = mangled(e->getConstructor());
        }
        if (auto* e = dyn_cast<CallExpr>(s)) {
            if (const FunctionDecl* f = e->getDirectCallee()) {
                o["n"] = qn(f);
                o["f"] = sig(f);
                o["mn"] = mangled(f);
                std::string a = targs(f);
                if (!a.empty())
                    o["ta"] = a;
                if (auto* m = dyn_cast<CXXMethodDecl>(f))
                    o["mc"] = (m->isConst() ? 1 : 0) | (m->isStatic() ? 2 : 0);
                o["defn"] = f->hasBody() || f->isDefined();
            }
            if (auto* x = dyn_cast<CXXOperatorCallExpr>(s))
                o["oper"] = getOperatorSpelling(x->getOperator());
        }
        if (auto* e = dyn_cast<CXXNewExpr>(s)) {
            o["placement"] = (int64_t) e->getNumPlacementArgs();
        }
        if (auto* e = dyn_cast<Expr>(s)) {
            if (!isa<IntegerLiteral>(e) && !isa<CharacterLiteral>(e) && !e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue()) {
                Expr::EvalResult r;
                if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
                    SmallString<32> str;
                    r.Val.getInt().toString(str, 10);
                    o["const"] = std::string(str.str());
                }
            }
        }
        json::Array c;
        if (auto* d = dyn_cast<DeclStmt>(s)) {
            for (auto* x : d->decls()) {
                if (auto* v = dyn_cast<VarDecl>(x))
                    c.push_back(var(v));
            }
        } else if (auto* e = dyn_cast<LambdaExpr>(s)) {
            for (auto* i : e->capture_inits())
                c.push_back(node(i));
            c.push_back(node(e->getBody()));
            json::Array caps;
            for (auto& k : e->captures())
                caps.push_back(k.capturesVariable() ? (k.getCaptureKind() == LCK_ByRef ? "&" : "=") + k.getCapturedVar()->getNameAsString() : std::string("this"));
            o["caps"] = std::move(caps);
            json::Array ps;
            if (auto* m = e->getCallOperator())
                for (auto* p : m->parameters()) {
                    json::Object q;
                    q["n"] = p->getNameAsString();
                    q["t"] = ty(p->getType());
                    q["d"] = id(p);
                    ps.push_back(std::move(q));
                }
            o["params"] = std::move(ps);
        } else if (auto* f = dyn_cast<CXXForRangeStmt>(s)) {
            c.push_back(node(f->getRangeStmt()));
            c.push_back(node(f->getBeginStmt()));
            c.push_back(node(f->getEndStmt()));
            c.push_back(node(f->getCond()));
            c.push_back(node(f->getInc()));
            c.push_back(node(f->getLoopVarStmt()));
            c.push_back(node(f->getBody()));
        } else if (auto* f = dyn_cast<IfStmt>(s)) {
            c.push_back(node(f->getConditionVariableDeclStmt()));
            c.push_back(node(f->getCond()));
            c.push_back(node(f->getThen()));
            c.push_back(node(f->getElse()));
        } else if (auto* f = dyn_cast<WhileStmt>(s)) {
            c.push_back(node(f->getConditionVariableDeclStmt()));
            c.push_back(node(f->getCond()));
            c.push_back(node(f->getBody()));
        } else if (auto* f = dyn_cast<ForStmt>(s)) {
            c.push_back(node(f->getInit()));
            c.push_back(node(f->getConditionVariableDeclStmt()));
            c.push_back(node(f->getCond()));
            c.push_back(node(f->getInc()));
            c.push_back(node(f->getBody()));
        } else if (auto* e = dyn_cast<CXXDefaultArgExpr>(s)) {
            c.push_back(node(e->getExpr()));
        } else if (auto* e = dyn_cast<CXXDefaultInitExpr>(s)) {
            c.push_back(node(e->getExpr()));
        } else if (isa<UnaryExprOrTypeTraitExpr>(s)) {
        } else {
            for (const Stmt* x : s->children())
                c.push_back(node(x));
        }
        if (!c.empty())
            o["c"] = std::move(c);
        return json::Value(std::move(o));
    }
    json::Value var(const VarDecl* v) {
        json::Object o;
        o["k"] = "VarDecl";
        o["l"] = (int64_t) SM.getExpansionLineNumber(v->getLocation());
        o["n"] = v->getNameAsString();
        o["t"] = ty(v->getType());
        o["d"] = id(v);
        o["static"] = v->isStaticLocal();
        if (v->getInit()) {
            json::Array c;
            c.push_back(node(v->getInit()));
            o["c"] = std::move(c);
        }
        return json::Value(std::move(o));
    }
    std::string sig(const FunctionDecl* f) {
        std::string s = qn(f) + "(";
        for (auto* p : f->parameters())
            s += ty(p->getType()) + ",";
        return s + ")";
    }
    std::string file(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return SM.getFilename(l).str();
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Dumper& D;
    std::string main;
    Visitor(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    void put(json::Object o) {
        if (!First)
            *OS << ",\n";
        First = false;
        *OS << json::Value(std::move(o));
    }
    std::string rel(SourceLocation l) {
        std::string f = D.file(l);
        SmallString<256> p(f);
        if (!StringRef(p).starts_with(Root))
            return "";
        return std::string(StringRef(p).drop_front(Root.size() + 1));
    }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->doesThisDeclarationHaveABody() || f->isDependentContext() || f->isDefaulted())
            return true;
        std::string file = rel(f->getLocation());
        if (file.empty())
            return true;
        std::string key = file + ":" + std::to_string(D.SM.getExpansionLineNumber(f->getLocation())) + ":" + D.sig(f) + D.targs(f);
        if (!Seen.insert(key).second)
            return true;
        json::Object o;
        o["k"] = "Function";
        o["file"] = file;
        o["l"] = (int64_t) D.SM.getExpansionLineNumber(f->getLocation());
        o["n"] = D.qn(f);
        o["f"] = D.sig(f);
        o["mn"] = D.mangled(f);
        o["ta"] = D.targs(f);
        o["ret"] = D.ty(f->getReturnType());
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"] = D.qn(m->getParent());
            o["const"] = m->isConst();
            o["ctor"] = isa<CXXConstructorDecl>(f);
            o["dtor"] = isa<CXXDestructorDecl>(f);
        }
        json::Array ps;
        for (auto* p : f->parameters()) {
            json::Object q;
            q["n"] = p->getNameAsString();
            q["t"] = D.ty(p->getType());
            q["d"] = D.id(p);
            ps.push_back(std::move(q));
        }
        o["params"] = std::move(ps);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            json::Array is;
            for (auto* i : c->inits()) {
                json::Object q;
                if (i->isAnyMemberInitializer())
                    q["member"] = D.qn(i->getAnyMember());
                else
                    q["base"] = D.ty(QualType(i->getBaseClass() ? i->getBaseClass() : f->getReturnType().getTypePtr(), 0));
                q["written"] = i->isWritten();
                q["e"] = D.node(i->getInit());
                is.push_back(std::move(q));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = D.node(f->getBody());
        put(std::move(o));
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda())
            return true;
        std::string file = rel(r->getLocation());
        if (file.empty() || !Seen.insert("R:" + file + ":" + D.ty(D.C.getRecordType(r))).second)
            return true;
        json::Object o;
        o["k"] = "Record";
        o["file"] = file;
        o["l"] = (int64_t) D.SM.getExpansionLineNumber(r->getLocation());
        o["n"] = D.qn(r);
        o["t"] = D.ty(D.C.getRecordType(r));
        o["union"] = r->isUnion();
        json::Array fs, bs;
        for (auto* x : r->fields()) {
            json::Object q;
            q["n"] = x->getNameAsString();
            q["t"] = D.ty(x->getType());
            q["init"] = x->hasInClassInitializer();
            fs.push_back(std::move(q));
        }
        for (auto& b : r->bases())
            bs.push_back(D.ty(b.getType()));
        o["fields"] = std::move(fs);
        o["bases"] = std::move(bs);
        o["userctor"] = r->hasUserDeclaredConstructor();
        o["impldefault"] = r->hasDefaultConstructor() && !r->hasUserProvidedDefaultConstructor();
        o["trivialdtor"] = r->hasTrivialDestructor();
        put(std::move(o));
        return true;
    }
    // which plain members a written constructor names, in its initialiser list or its body (templates included)
    struct Mentions : RecursiveASTVisitor<Mentions> {
        std::set<std::string> names;
        bool whole = false;
        bool VisitMemberExpr(MemberExpr* e) { names.insert(e->getMemberDecl()->getNameAsString()); return true; }
        bool VisitCXXDependentScopeMemberExpr(CXXDependentScopeMemberExpr* e) { names.insert(e->getMember().getAsString()); return true; }
        bool VisitUnresolvedMemberExpr(UnresolvedMemberExpr* e) { whole |= e->isImplicitAccess(); return true; }
        bool VisitCXXThisExpr(CXXThisExpr* e) { whole |= !e->isImplicit(); return true; }
        bool VisitCXXMemberCallExpr(CXXMemberCallExpr* e) {
            Expr* x = e->getImplicitObjectArgument();
            whole |= x && isa<CXXThisExpr>(x->IgnoreParenImpCasts());
            return true;
        }
    };
    bool VisitCXXConstructorDecl(CXXConstructorDecl* c) {
        if (!c->isThisDeclarationADefinition() || !c->isUserProvided() || c->isDelegatingConstructor() || !c->doesThisDeclarationHaveABody() || c->getTemplateInstantiationPattern())
            return true;
        std::string file = rel(c->getLocation());
        if (file.empty() || c->getParent()->isUnion() || !Seen.insert("C:" + file + ":" + std::to_string(D.SM.getExpansionLineNumber(c->getLocation())) + D.sig(c)).second)
            return true;
        Mentions m;
        std::set<std::string> inits;
        for (auto* i : c->inits())
            if (i->isAnyMemberInitializer() && i->isWritten())
                inits.insert(i->getAnyMember()->getNameAsString());
        m.TraverseStmt(c->getBody());
        json::Object o;
        o["k"] = "Ctor";
        o["n"] = D.qn(c);
        o["file"] = file;
        o["l"] = (int64_t) D.SM.getExpansionLineNumber(c->getLocation());
        o["cls"] = D.qn(c->getParent());
        o["f"] = D.sig(c);
        o["np"] = (int64_t) c->getNumParams();
        o["whole"] = m.whole;
        auto* b = dyn_cast<CompoundStmt>(c->getBody());
        o["empty"] = b && b->body_empty();
        json::Array fs;
        for (auto* x : c->getParent()->fields()) {
            QualType t = x->getType();
            if (x->isUnnamedBitfield() || t->isReferenceType() || !(t->isScalarType() || t->isAnyPointerType()))
                continue;
            json::Object q;
            q["n"] = x->getNameAsString();
            q["init"] = x->hasInClassInitializer();
            q["list"] = inits.count(x->getNameAsString()) > 0;
            q["body"] = m.names.count(x->getNameAsString()) > 0;
            fs.push_back(std::move(q));
        }
        o["fields"] = std::move(fs);
        put(std::move(o));
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e) {
        std::string file = rel(e->getLocation());
        if (!e->isThisDeclarationADefinition() || e->isDependentContext() || file.empty() || !Seen.insert("E:" + file + ":" + std::to_string(D.SM.getExpansionLineNumber(e->getLocation())) + D.qn(e)).second)
            return true;
        json::Object o;
        o["k"] = "Enum";
        o["file"] = file;
        o["l"] = (int64_t) D.SM.getExpansionLineNumber(e->getLocation());
        o["n"] = D.qn(e);
        json::Array v;
        for (auto* c : e->enumerators()) {
            json::Array p;
            p.push_back(c->getNameAsString());
            p.push_back(c->getInitVal().getExtValue());
            v.push_back(std::move(p));
        }
        o["values"] = std::move(v);
        put(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (v->isLocalVarDeclOrParm() || !v->isThisDeclarationADefinition() || v->getDeclContext()->isDependentContext() || v->getType()->isDependentType())
            return true;
        std::string file = rel(v->getLocation());
        if (file.empty() || !Seen.insert("V:" + file + ":" + D.qn(v)).second)
            return true;
        json::Object o;
        o["k"] = "Global";
        o["file"] = file;
        o["l"] = (int64_t) D.SM.getExpansionLineNumber(v->getLocation());
        o["n"] = D.qn(v);
        o["t"] = D.ty(v->getType());
        if (v->getInit())
            o["init"] = D.node(v->getInit());
        put(std::move(o));
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        if (C.getDiagnostics().hasErrorOccurred()) {
            Failed++;
            return;
        }
        Dumper d(C);
        Visitor v(d);
        v.TraverseDecl(C.getTranslationUnitDecl());
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, char** argv) {
    cl::ParseCommandLineOptions(argc, argv);
    std::error_code ec;
    OS = std::make_unique<raw_fd_ostream>(Out, ec);
    if (ec)
        return 2;
    SmallVector<StringRef, 64> fl;
    StringRef(Flags).split(fl, '\n', -1, false);
    std::vector<std::string> args;
    for (auto f : fl)
        args.push_back(f.str());
    tooling::FixedCompilationDatabase db(".", args);
    std::vector<std::string> in(Inputs.begin(), Inputs.end());
    tooling::ClangTool tool(db, in);
    *OS << "[\n";
    int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
    *OS << "\n]\n";
    OS.reset();
    return rc || Failed ? 1 : 0;
}
