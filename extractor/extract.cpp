// Dumps the resolved program (every function body of /repo that the translation
// unit contains, template instantiations included) as JSON for the analyses in
// /verif/vclib.  Nothing here decides a property.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Basic/OpenMPKinds.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <fstream>
#include <iterator>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot;   // only declarations under this prefix are dumped
static std::string gOut;

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    json::Array functions, records, globals, enums;
    json::Array typedefs;
    std::set<std::string> seen;
    std::set<const Decl*> doneRec;
    std::map<const Decl*, int> varIds;
    std::vector<const CXXMethodDecl*> lambdaQueue;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.TerseOutput = true;
    }

    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    bool inRepo(SourceLocation L) {
        if (L.isInvalid()) return false;
        std::string f = file(L);
        return f.rfind(gRoot, 0) == 0;
    }
    std::string rel(SourceLocation L) {
        std::string f = file(L);
        if (f.rfind(gRoot, 0) == 0) return f.substr(gRoot.size());
        return f;
    }
    std::string usr(const Decl* D) {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(D, b) || b.empty()) {
            char buf[32];
            snprintf(buf, sizeof buf, "ptr:%p", (const void*)D);
            return buf;
        }
        // the call operators of all lambdas of a class share one USR, and so do those of all instantiations
        if (auto* M = dyn_cast<CXXMethodDecl>(D)) {
            if (M->getParent()->isLambda()) {
                const DeclContext* C = M->getParent()->getDeclContext();
                while (C && !isa<FunctionDecl>(C) && !isa<RecordDecl>(C) && !isa<NamespaceDecl>(C) && !C->isTranslationUnit()) C = C->getParent();
                std::string ctx = C && !C->isTranslationUnit() ? usr(cast<Decl>(C)) : std::string();
                SourceLocation L = SM.getExpansionLoc(M->getParent()->getBeginLoc());
                char buf[64];
                snprintf(buf, sizeof buf, "@%u:%u:%zx", SM.getExpansionLineNumber(L), SM.getExpansionColumnNumber(L), std::hash<std::string>()(ctx));
                return b.str().str() + buf;
            }
        }
        return b.str().str();
    }
    int varId(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = varIds.find(D);
        if (it != varIds.end()) return it->second;
        int i = varIds.size() + 1;
        varIds[D] = i;
        return i;
    }
    json::Value type(QualType T) {
        if (T.isNull()) return "null";
        QualType c = T.getNonReferenceType().getCanonicalType().getUnqualifiedType();
        std::string s;
        if (T->isReferenceType()) s = T->isRValueReferenceType() ? "&&" : "&";
        if (T.getNonReferenceType().isConstQualified()) s += "const ";
        if (c->isBooleanType()) return s + "bool";
        if (const auto* bt = c->getAs<BuiltinType>()) {
            if (bt->isInteger())
                return s + (bt->isSignedInteger() ? "i" : "u") + std::to_string(C.getTypeSize(c));
            if (bt->isFloatingPoint()) return s + "f" + std::to_string(C.getTypeSize(c));
        }
        return s + c.getAsString(PP);
    }
    std::string spelled(QualType T) { return T.getNonReferenceType().getUnqualifiedType().getAsString(PP); }

    std::string qname(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream o(s);
        D->printQualifiedName(o, PP);
        return o.str();
    }

    json::Object mk(const char* k, const Stmt* S) {
        json::Object o;
        o["k"] = k;
        if (S) o["l"] = line(S->getBeginLoc());
        return o;
    }
    json::Object mkT(const char* k, const Expr* E) {
        auto o = mk(k, E);
        o["l"] = line(E->getExprLoc());
        o["t"] = type(E->getType());
        return o;
    }

    const Expr* strip(const Expr* E) {
        while (E) {
            if (auto* p = dyn_cast<ParenExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<ExprWithCleanups>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<CXXBindTemporaryExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(E)) E = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(E)) E = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(E)) E = p->getExpr();
            else if (auto* p = dyn_cast<CXXStdInitializerListExpr>(E)) E = p->getSubExpr();
            else break;
        }
        return E;
    }

    json::Value exprs(llvm::ArrayRef<const Expr*> a) {
        json::Array r;
        for (auto* e : a) r.push_back(expr(e));
        return r;
    }

    json::Value callee(json::Object& o, const FunctionDecl* F) {
        o["f"] = usr(F);
        o["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getDeclName().getAsString();
        o["q"] = qname(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
        }
        o["ret"] = type(F->getReturnType());
        o["rst"] = spelled(F->getReturnType());
        if (auto* ta = F->getTemplateSpecializationArgs()) {
            json::Array a;
            for (auto& x : ta->asArray()) {
                std::string t; llvm::raw_string_ostream os(t);
                x.print(PP, os, true);
                a.push_back(os.str());
            }
            o["ta"] = std::move(a);
        }
        json::Array p;
        for (auto* pd : F->parameters()) p.push_back(type(pd->getType()));
        o["pt"] = std::move(p);
        return nullptr;
    }

    json::Value expr(const Expr* E0) {
        const Expr* E = strip(E0);
        if (!E) return nullptr;
        if (auto* p = dyn_cast<ImplicitCastExpr>(E)) {
            switch (p->getCastKind()) {
            case CK_IntegralCast: case CK_IntegralToBoolean: case CK_FloatingToIntegral:
            case CK_IntegralToFloating: case CK_FloatingCast: case CK_BooleanToSignedIntegral:
            case CK_FloatingToBoolean: case CK_PointerToBoolean: {
                auto o = mkT("cast", E);
                o["from"] = type(p->getSubExpr()->getType());
                o["impl"] = true;
                o["e"] = expr(p->getSubExpr());
                return o;
            }
            case CK_UserDefinedConversion: case CK_ConstructorConversion:
                return expr(p->getSubExpr());
            default: return expr(p->getSubExpr());
            }
        }
        if (auto* p = dyn_cast<ExplicitCastExpr>(E)) {
            auto ck = p->getCastKind();
            if (ck == CK_ConstructorConversion) return expr(p->getSubExpr());
            const Expr* sub = p->getSubExpr();
            auto o = mkT("cast", E);
            // the implicit conversion may sit below an explicit NoOp cast
            const Expr* s2 = strip(sub);
            while (auto* ic = dyn_cast<ImplicitCastExpr>(s2)) s2 = strip(ic->getSubExpr());
            o["from"] = type(s2->getType());
            o["impl"] = false;
            o["e"] = expr(s2);
            return o;
        }
        if (auto* p = dyn_cast<IntegerLiteral>(E)) {
            auto o = mkT("int", E);
            llvm::SmallString<32> s;
            p->getValue().toString(s, 10, p->getType()->isSignedIntegerType());
            o["v"] = s.str().str();
            return o;
        }
        if (auto* p = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = mkT("bool", E); o["v"] = p->getValue(); return o; }
        if (auto* p = dyn_cast<CharacterLiteral>(E)) { auto o = mkT("int", E); o["v"] = std::to_string(p->getValue()); return o; }
        if (auto* p = dyn_cast<FloatingLiteral>(E)) { auto o = mkT("float", E); o["v"] = std::to_string(p->getValueAsApproximateDouble()); return o; }
        if (auto* p = dyn_cast<StringLiteral>(E)) { auto o = mkT("str", E); o["v"] = p->isOrdinary() ? llvm::json::fixUTF8(p->getString()) : std::string(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return mkT("nullptr", E);
        if (isa<CXXThisExpr>(E)) return mkT("this", E);
        if (auto* p = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl* D = p->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) { auto o = mkT("fref", E); callee(o, F); return o; }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D)) {
                auto o = mkT("enum", E);
                o["n"] = qname(EC);
                llvm::SmallString<32> s; EC->getInitVal().toString(s, 10);
                o["v"] = s.str().str();
                return o;
            }
            auto o = mkT("ref", E);
            o["n"] = D->getNameAsString();
            o["id"] = varId(D);
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->hasGlobalStorage()) { o["global"] = true; o["q"] = qname(V); if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; if (V->isStaticLocal()) o["slocal"] = true; }
                if (V->getType().isConstQualified() || V->isConstexpr()) {
                    if (!isa<ParmVarDecl>(V) && V->hasInit() && V->getType()->isIntegralOrEnumerationType()) {
                        Expr::EvalResult R;
                        const Expr* I = V->getAnyInitializer();
                        if (I && !I->isValueDependent() && I->EvaluateAsInt(R, C)) {
                            llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
                            o["cv"] = s.str().str();
                        }
                    }
                }
                if (V->isStaticDataMember()) o["smem"] = true;
            }
            if (isa<BindingDecl>(D)) o["binding"] = true;
            if (isa<ParmVarDecl>(D)) o["parm"] = true;
            return o;
        }
        if (auto* p = dyn_cast<MemberExpr>(E)) {
            const ValueDecl* D = p->getMemberDecl();
            if (auto* V = dyn_cast<VarDecl>(D)) {  // static member through an object
                auto o = mkT("ref", E);
                o["n"] = V->getNameAsString(); o["id"] = varId(V); o["global"] = true; o["q"] = qname(V);
                return o;
            }
            auto o = mkT("mem", E);
            o["n"] = D->getNameAsString();
            o["base"] = expr(p->getBase());
            o["arrow"] = p->isArrow();
            if (auto* FD = dyn_cast<FieldDecl>(D)) {
                o["rec"] = qname(FD->getParent());
                o["st"] = spelled(FD->getType());
            }
            if (auto* F = dyn_cast<FunctionDecl>(D)) callee(o, F);
            return o;
        }
        if (auto* p = dyn_cast<ArraySubscriptExpr>(E)) {
            auto o = mkT("idx", E); o["base"] = expr(p->getBase()); o["i"] = expr(p->getIdx()); return o;
        }
        if (auto* p = dyn_cast<UnaryOperator>(E)) {
            auto o = mkT("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(p->getOpcode()).str();
            o["post"] = p->isPostfix();
            o["e"] = expr(p->getSubExpr());
            return o;
        }
        if (auto* p = dyn_cast<CompoundAssignOperator>(E)) {
            auto o = mkT("bin", E);
            o["op"] = p->getOpcodeStr().str();
            o["a"] = expr(p->getLHS()); o["b"] = expr(p->getRHS());
            o["ct"] = type(p->getComputationResultType());
            return o;
        }
        if (auto* p = dyn_cast<BinaryOperator>(E)) {
            auto o = mkT("bin", E);
            o["op"] = p->getOpcodeStr().str();
            o["a"] = expr(p->getLHS()); o["b"] = expr(p->getRHS());
            return o;
        }
        if (auto* p = dyn_cast<AbstractConditionalOperator>(E)) {
            auto o = mkT("cond", E);
            o["c"] = expr(p->getCond()); o["a"] = expr(p->getTrueExpr()); o["b"] = expr(p->getFalseExpr());
            return o;
        }
        if (auto* p = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = mkT("call", E);
            if (auto* F = p->getDirectCallee()) {
                callee(o, F);
                bool member = isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
                json::Array a;
                for (unsigned i = 0; i < p->getNumArgs(); ++i) {
                    if (i == 0 && member) o["obj"] = expr(p->getArg(0));
                    else a.push_back(expr(p->getArg(i)));
                }
                o["args"] = std::move(a);
            }
            o["oper"] = getOperatorSpelling(p->getOperator());
            return o;
        }
        if (auto* p = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = mkT("call", E);
            if (auto* F = p->getMethodDecl()) callee(o, F);
            o["obj"] = expr(p->getImplicitObjectArgument());
            if (auto* me = dyn_cast<MemberExpr>(p->getCallee()->IgnoreParens())) {
                o["arrow"] = me->isArrow();
                if (me->hasQualifier()) o["virt"] = false;
            }
            json::Array a;
            for (auto* x : p->arguments()) a.push_back(expr(x));
            o["args"] = std::move(a);
            if (auto* F = p->getMethodDecl())
                if (isa<CXXConversionDecl>(F)) o["conv"] = true;
            return o;
        }
        if (auto* p = dyn_cast<CallExpr>(E)) {
            auto o = mkT("call", E);
            if (auto* F = p->getDirectCallee()) callee(o, F);
            else o["fe"] = expr(p->getCallee());
            json::Array a;
            for (auto* x : p->arguments()) a.push_back(expr(x));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* p = dyn_cast<CXXConstructExpr>(E)) {
            const auto* K = p->getConstructor();
            if (p->getNumArgs() == 1 && K->isCopyOrMoveConstructor()) {
                auto o = mkT("copy", E);
                o["move"] = K->isMoveConstructor();
                o["f"] = usr(K);
                o["e"] = expr(p->getArg(0));
                return o;
            }
            auto o = mkT("ctor", E);
            callee(o, K);
            o["rec"] = qname(K->getParent());
            json::Array a;
            for (unsigned i = 0; i < p->getNumArgs(); ++i) {
                a.push_back(expr(p->getArg(i)));
            }
            o["args"] = std::move(a);
            o["list"] = p->isListInitialization();
            return o;
        }
        if (auto* p = dyn_cast<InitListExpr>(E)) {
            auto o = mkT("init", E);
            json::Array a;
            for (auto* x : p->inits()) a.push_back(expr(x));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* p = dyn_cast<LambdaExpr>(E)) {
            auto o = mkT("lambda", E);
            auto* op = p->getCallOperator();
            o["f"] = usr(op);
            json::Array caps;
            for (auto& c : p->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["id"] = varId(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (auto* ft = op->getDescribedFunctionTemplate()) {
                for (auto* s : ft->specializations()) fn(s, true);
            } else fn(op, true);
            return o;
        }
        if (auto* p = dyn_cast<CXXNewExpr>(E)) {
            auto o = mkT("new", E);
            o["nt"] = type(p->getAllocatedType());
            if (p->hasInitializer()) o["e"] = expr(p->getInitializer());
            return o;
        }
        if (auto* p = dyn_cast<CXXDeleteExpr>(E)) { auto o = mkT("delete", E); o["e"] = expr(p->getArgument()); return o; }
        if (auto* p = dyn_cast<CXXThrowExpr>(E)) { auto o = mkT("throw", E); if (p->getSubExpr()) o["e"] = expr(p->getSubExpr()); return o; }
        if (auto* p = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            auto o = mkT("int", E);
            Expr::EvalResult R;
            if (!p->isValueDependent() && p->EvaluateAsInt(R, C)) {
                llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str();
            } else { o["k"] = "opaque"; }
            return o;
        }
        if (auto* p = dyn_cast<CXXScalarValueInitExpr>(E)) { auto o = mkT("zero", E); return o; }
        if (auto* p = dyn_cast<ImplicitValueInitExpr>(E)) { auto o = mkT("zero", E); return o; }
        {
            auto o = mkT("opaque", E);
            o["cls"] = E->getStmtClassName();
            json::Array a;
            for (auto* ch : E->children())
                if (auto* x = dyn_cast_or_null<Expr>(ch)) a.push_back(expr(x));
            o["args"] = std::move(a);
            return o;
        }
    }

    json::Value declVar(const VarDecl* V) {
        json::Object o;
        o["k"] = "var";
        o["l"] = line(V->getLocation());
        o["id"] = varId(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        o["st"] = spelled(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (auto* D = dyn_cast<DecompositionDecl>(V)) {
            o["k"] = "decomp";
            json::Array b;
            int i = 0;
            for (auto* B : D->bindings()) {
                json::Object bo;
                bo["id"] = varId(B);
                if (auto* h = B->getHoldingVar()) bo["hid"] = varId(h);
                bo["n"] = B->getNameAsString();
                bo["i"] = i++;
                bo["t"] = type(B->getType());
                if (auto* me = dyn_cast_or_null<MemberExpr>(B->getBinding() ? B->getBinding()->IgnoreParens() : nullptr))
                    bo["fld"] = me->getMemberDecl()->getNameAsString();
                b.push_back(std::move(bo));
            }
            o["b"] = std::move(b);
        }
        if (V->hasInit()) {
            o["init"] = expr(V->getInit());
            o["is"] = V->getInitStyle() == VarDecl::CInit ? "c" : V->getInitStyle() == VarDecl::CallInit ? "call" : "list";
        }
        return o;
    }

    json::Value stmt(const Stmt* S) {
        if (!S) return nullptr;
        if (auto* E = dyn_cast<Expr>(S)) { auto o = mk("expr", S); o["e"] = expr(E); return o; }
        if (auto* p = dyn_cast<CompoundStmt>(S)) {
            auto o = mk("block", S);
            json::Array a;
            for (auto* c : p->body()) a.push_back(stmt(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* p = dyn_cast<DeclStmt>(S)) {
            auto o = mk("decl", S);
            json::Array a;
            for (auto* d : p->decls())
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(declVar(V));
            o["d"] = std::move(a);
            return o;
        }
        if (auto* p = dyn_cast<IfStmt>(S)) {
            if (p->isConstexpr()) {
                // an instantiation keeps only the selected branch
                Expr::EvalResult R;
                if (p->getCond() && !p->getCond()->isValueDependent() && p->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt()) {
                    bool v = R.Val.getInt().getBoolValue();
                    if (v) return stmt(p->getThen());
                    if (p->getElse()) return stmt(p->getElse());
                    return mk("null", S);
                }
            }
            auto o = mk("if", S);
            if (p->getInit()) o["init"] = stmt(p->getInit());
            if (p->getConditionVariable()) o["cv"] = declVar(p->getConditionVariable());
            o["c"] = expr(p->getCond());
            o["a"] = stmt(p->getThen());
            if (p->getElse()) o["b"] = stmt(p->getElse());
            return o;
        }
        if (auto* p = dyn_cast<ForStmt>(S)) {
            auto o = mk("for", S);
            o["init"] = stmt(p->getInit());
            o["c"] = expr(p->getCond());
            o["inc"] = expr(p->getInc());
            o["b"] = stmt(p->getBody());
            return o;
        }
        if (auto* p = dyn_cast<WhileStmt>(S)) {
            auto o = mk("while", S); o["c"] = expr(p->getCond()); o["b"] = stmt(p->getBody()); return o;
        }
        if (auto* p = dyn_cast<DoStmt>(S)) {
            auto o = mk("do", S); o["c"] = expr(p->getCond()); o["b"] = stmt(p->getBody()); return o;
        }
        if (auto* p = dyn_cast<CXXForRangeStmt>(S)) {
            auto o = mk("forrange", S);
            if (p->getInit()) o["init"] = stmt(p->getInit());
            o["var"] = declVar(p->getLoopVariable());
            o["range"] = expr(p->getRangeInit());
            o["b"] = stmt(p->getBody());
            return o;
        }
        if (auto* p = dyn_cast<ReturnStmt>(S)) { auto o = mk("return", S); if (p->getRetValue()) o["e"] = expr(p->getRetValue()); return o; }
        if (isa<BreakStmt>(S)) return mk("break", S);
        if (isa<ContinueStmt>(S)) return mk("continue", S);
        if (isa<NullStmt>(S)) return mk("null", S);
        if (auto* p = dyn_cast<SwitchStmt>(S)) {
            auto o = mk("switch", S); o["c"] = expr(p->getCond()); o["b"] = stmt(p->getBody()); return o;
        }
        if (auto* p = dyn_cast<CaseStmt>(S)) { auto o = mk("case", S); o["c"] = expr(p->getLHS()); o["b"] = stmt(p->getSubStmt()); return o; }
        if (auto* p = dyn_cast<DefaultStmt>(S)) { auto o = mk("default", S); o["b"] = stmt(p->getSubStmt()); return o; }
        if (auto* p = dyn_cast<AttributedStmt>(S)) return stmt(p->getSubStmt());
        if (auto* p = dyn_cast<LabelStmt>(S)) { auto o = mk("label", S); o["n"] = p->getName(); o["b"] = stmt(p->getSubStmt()); return o; }
        if (auto* p = dyn_cast<GotoStmt>(S)) { auto o = mk("goto", S); o["n"] = p->getLabel()->getName().str(); return o; }
        if (auto* p = dyn_cast<CapturedStmt>(S)) return stmt(p->getCapturedStmt());
        if (auto* p = dyn_cast<CXXTryStmt>(S)) {
            auto o = mk("try", S);
            o["b"] = stmt(p->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < p->getNumHandlers(); ++i) h.push_back(stmt(p->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(h);
            return o;
        }
        if (auto* p = dyn_cast<OMPCanonicalLoop>(S)) return stmt(p->getLoopStmt());
        if (auto* p = dyn_cast<OMPExecutableDirective>(S)) {
            auto o = mk("omp", S);
            o["kind"] = llvm::omp::getOpenMPDirectiveName(p->getDirectiveKind()).str();
            json::Array cl;
            for (auto* c : p->clauses()) {
                if (!c || c->isImplicit()) continue;
                json::Object co;
                co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                json::Array vs;
                auto addv = [&](auto* vc) {
                    for (auto* v : vc->varlists()) {
                        if (auto* d = dyn_cast<DeclRefExpr>(v->IgnoreParenImpCasts())) vs.push_back(varId(d->getDecl()));
                    }
                };
                if (auto* x = dyn_cast<OMPPrivateClause>(c)) addv(x);
                if (auto* x = dyn_cast<OMPFirstprivateClause>(c)) addv(x);
                if (auto* x = dyn_cast<OMPLastprivateClause>(c)) addv(x);
                if (auto* x = dyn_cast<OMPSharedClause>(c)) addv(x);
                if (auto* x = dyn_cast<OMPReductionClause>(c)) addv(x);
                if (auto* x = dyn_cast<OMPNumThreadsClause>(c)) co["e"] = expr(x->getNumThreads());
                co["vars"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            if (p->hasAssociatedStmt()) o["b"] = stmt(p->getRawStmt());
            if (auto* crit = dyn_cast<OMPCriticalDirective>(p)) o["name"] = crit->getDirectiveName().getAsString();
            return o;
        }
        auto o = mk("unknown", S);
        o["cls"] = S->getStmtClassName();
        return o;
    }

    void fn(const FunctionDecl* F, bool isLambda = false) {
        if (!F) return;
        const FunctionDecl* def = nullptr;
        if (!F->hasBody(def) && !(F->isDefaulted())) return;
        if (!def) return;
        F = def;
        if (F->isDependentContext()) return;
        if (!inRepo(F->getLocation())) return;
        std::string u = usr(F);
        if (!seen.insert(u).second) return;
        json::Object o;
        o["u"] = u;
        o["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getDeclName().getAsString();
        o["q"] = qname(F);
        o["file"] = rel(F->getLocation());
        o["l"] = line(F->getLocation());
        o["endl"] = line(F->getEndLoc());
        o["ret"] = type(F->getReturnType());
        o["rst"] = spelled(F->getReturnType());
        if (isLambda) o["lambda"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["clsT"] = type(C.getRecordType(M->getParent()));
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isVirtual()) o["virt"] = true;
            json::Array ov;
            for (auto* x : M->overridden_methods()) ov.push_back(usr(x));
            o["over"] = std::move(ov);
            o["access"] = M->getAccess() == AS_public ? "public" : "private";
        }
        if (auto* ta = F->getTemplateSpecializationArgs()) {
            std::string s; llvm::raw_string_ostream os(s);
            for (auto& a : ta->asArray()) { a.print(PP, os, true); os << ","; }
            o["targs"] = os.str();
        }
        json::Array ps;
        for (auto* p : F->parameters()) {
            json::Object po;
            po["id"] = varId(p);
            po["n"] = p->getNameAsString();
            po["t"] = type(p->getType());
            po["st"] = spelled(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = true;
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : "ctor";
            o["implicit"] = K->isImplicit() || K->isDefaulted();
            json::Array in;
            for (auto* I : K->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) io["fld"] = I->getAnyMember()->getNameAsString();
                else if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
                else io["delegating"] = true;
                io["written"] = I->isWritten();
                io["e"] = expr(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        o["b"] = stmt(F->getBody());
        functions.push_back(std::move(o));
    }

    void rec(const CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        if (!inRepo(R->getLocation())) return;
        std::string u = usr(R);
        if (!seen.insert("R:" + u).second) return;
        json::Object o;
        o["u"] = u;
        o["q"] = qname(R);
        o["t"] = type(C.getRecordType(R));
        o["file"] = rel(R->getLocation());
        o["l"] = line(R->getLocation());
        json::Array fs;
        for (auto* f : R->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["st"] = spelled(f->getType());
            fo["l"] = line(f->getLocation());
            fo["init"] = f->hasInClassInitializer();
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array bs;
        for (auto& b : R->bases()) bs.push_back(type(b.getType()));
        o["bases"] = std::move(bs);
        json::Array cs;
        for (auto* k : R->ctors()) {
            json::Object ko;
            ko["u"] = usr(k);
            ko["implicit"] = k->isImplicit();
            ko["def"] = k->isDefaultConstructor();
            ko["copy"] = k->isCopyConstructor();
            ko["deleted"] = k->isDeleted();
            cs.push_back(std::move(ko));
        }
        o["ctors"] = std::move(cs);
        o["hasDefaultCtorUserProvided"] = R->hasUserProvidedDefaultConstructor();
        records.push_back(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
 public:
    Dumper& D;
    explicit V(Dumper& d) : D(d) { }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return true;
        D.fn(F);
        return true;
    }
    bool VisitTypedefNameDecl(TypedefNameDecl* T) {
        if (D.inRepo(T->getLocation()) && !T->getDeclContext()->isDependentContext() &&
            !T->getUnderlyingType()->isDependentType()) {
            json::Object o;
            o["q"] = D.qname(T);
            o["t"] = D.type(T->getUnderlyingType());
            o["file"] = D.rel(T->getLocation());
            o["l"] = D.line(T->getLocation());
            D.typedefs.push_back(std::move(o));
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { D.rec(R); return true; }
    bool VisitVarDecl(VarDecl* X) {
        if (X->hasGlobalStorage() && !X->isStaticLocal() && D.inRepo(X->getLocation()) &&
            !X->getDeclContext()->isDependentContext() && !X->getType()->isDependentType()) {
            if (D.seen.insert("G:" + D.qname(X)).second) {
                json::Object o;
                o["q"] = D.qname(X);
                o["t"] = D.type(X->getType());
                o["id"] = D.varId(X);
                o["file"] = D.rel(X->getLocation());
                o["l"] = D.line(X->getLocation());
                o["const"] = X->getType().isConstQualified() || X->isConstexpr();
                o["tls"] = X->getTLSKind() != VarDecl::TLS_None;
                o["inclass"] = X->isStaticDataMember();
                if (X->hasInit()) o["init"] = D.expr(X->getInit());
                D.globals.push_back(std::move(o));
            }
        }
        return true;
    }
};

class Consumer : public ASTConsumer {
 public:
    void HandleTranslationUnit(ASTContext& Ctx) override {
        Dumper d(Ctx);
        V v(d);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
        json::Object o;
        o["functions"] = std::move(d.functions);
        o["records"] = std::move(d.records);
        o["globals"] = std::move(d.globals);
        o["typedefs"] = std::move(d.typedefs);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(o));
    }
};
class Action : public ASTFrontendAction {
 public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv) {
    // extract ROOT/ OUT.json SOURCE -- flags...
    if (argc < 5) return 2;
    gRoot = argv[1];
    gOut = argv[2];
    std::string src = argv[3];
    std::vector<std::string> flags;
    // -vc-map FILE TEXT: the text of TEXT stands for that of FILE
    std::vector<std::pair<std::string, std::string>> maps;
    for (int i = 5; i < argc; ++i) {
        if (std::string(argv[i]) == "-vc-map" && i + 2 < argc) {
            std::ifstream in(argv[i + 2]);
            maps.emplace_back(argv[i + 1], std::string(std::istreambuf_iterator<char>(in), {}));
            i += 2;
        } else {
            flags.push_back(argv[i]);
        }
    }
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { src });
    for (auto& m : maps) tool.mapVirtualFile(m.first, m.second);
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
