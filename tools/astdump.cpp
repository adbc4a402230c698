// gv-export: exports the functions, records, enums and constants declared under a root directory as a
// compact JSON intermediate representation.  The text verified is the code clang parses, node by
// node: only parentheses, implicit value-preserving wrappers and cleanups are dropped.  A construct outside
// the exporter's subset becomes a {"k":"unsup"} node (the verifier refuses every obligation that
// depends on one).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;
static std::string Root;

struct Exporter {
    ASTContext &C;
    SourceManager &SM;
    std::map<const Decl*, int> ids;
    std::map<const VarDecl*, bool> globals;
    Array outGlobals;
    Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()) {}
    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if(it != ids.end()) return it->second;
        int n = ids.size() + 1; ids[D] = n; return n;
    }
    std::string qname(const NamedDecl *N) {
        std::string q; llvm::raw_string_ostream os(q);
        PrintingPolicy P(C.getLangOpts()); 
        N->printQualifiedName(os, P); os.flush();
        return q;
    }
    std::string ty(QualType T) {
        T = T.getCanonicalType().getUnqualifiedType();
        if(T->isReferenceType()) return ty(T->getPointeeType());
        if(T->isVoidType()) return "void";
        if(auto *E = T->getAs<EnumType>()) return "enum:" + qname(E->getDecl());
        if(auto *B = T->getAs<BuiltinType>()) {
            switch(B->getKind()) {
                case BuiltinType::Bool: return "bool";
                case BuiltinType::Float: return "f32";
                case BuiltinType::Double: return "f64";
                case BuiltinType::LongDouble: return "f80";
                case BuiltinType::Int: return "i32";
                case BuiltinType::Long: case BuiltinType::LongLong: return "i64";
                case BuiltinType::Short: return "i16";
                case BuiltinType::UInt: return "u32";
                case BuiltinType::ULong: case BuiltinType::ULongLong: return "u64";
                case BuiltinType::UShort: return "u16";
                case BuiltinType::Char_S: case BuiltinType::SChar: return "i8";
                case BuiltinType::Char_U: case BuiltinType::UChar: return "u8";
                default: break;
            }
            return "unk:" + T.getAsString();
        }
        if(auto *P = T->getAs<clang::PointerType>()) return "ptr<" + ty(P->getPointeeType()) + ">";
        if(auto *AT = dyn_cast<ConstantArrayType>(T.getTypePtr())) return "arr<" + ty(AT->getElementType()) + "," + std::to_string(AT->getSize().getZExtValue()) + ">";
        if(auto *R = T->getAs<RecordType>()) {
            auto *D = R->getDecl();
            std::string q = D->getQualifiedNameAsString();
            if(auto *S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
                auto &A = S->getTemplateArgs();
                auto arg = [&](unsigned i) { return i < A.size() && A[i].getKind() == TemplateArgument::Type ? ty(A[i].getAsType()) : std::string("?"); };
                if(q == "std::vector") return "vec<" + arg(0) + ">";
                if(q == "std::pair") return "pair<" + arg(0) + "," + arg(1) + ">";
                if(q == "std::basic_string" || q == "std::__cxx11::basic_string") return "str";
                if(q == "std::set") return "set<" + arg(0) + ">";
                if(q == "std::map") return "map<" + arg(0) + "," + arg(1) + ">";
                if(q == "__gnu_cxx::__normal_iterator") return "iter<" + arg(1) + ">";
                if(q == "std::shared_ptr") return "sptr<" + arg(0) + ">";
            }
            return "rec:" + q;
        }
        return "unk:" + T.getAsString();
    }
    int line(SourceLocation L) { return SM.getPresumedLoc(SM.getExpansionLoc(L)).getLine(); }
    std::string file(SourceLocation L) { auto p = SM.getPresumedLoc(SM.getExpansionLoc(L)); return p.isValid() ? p.getFilename() : ""; }
    static bool isRefNonConst(QualType T) { return T->isLValueReferenceType() && !T->getPointeeType().isConstQualified(); }
    std::string sig(const FunctionDecl *F) {
        std::string s = "(";
        for(unsigned i = 0; i < F->getNumParams(); i++) { if(i) s += ","; QualType T = F->getParamDecl(i)->getType(); s += ty(T); if(isRefNonConst(T)) s += "&"; }
        return s + ")";
    }
    std::string rootPath(const std::string &f) { return f; }

    Value unsup(const char *what, const Stmt *S) {
        return Object{{"k", "unsup"}, {"what", std::string(what) + ":" + S->getStmtClassName()}, {"ln", line(S->getBeginLoc())}};
    }
    Object node(const char *k, const Expr *E) {
        return Object{{"k", k}, {"t", ty(E->getType())}, {"ln", line(E->getBeginLoc())}};
    }
    Object callee(const FunctionDecl *F) {
        Object o;
        o["q"] = F->getQualifiedNameAsString();
        o["sig"] = sig(F);
        o["key"] = F->getQualifiedNameAsString() + sig(F);
        Array refs;
        for(unsigned i = 0; i < F->getNumParams(); i++) refs.push_back(isRefNonConst(F->getParamDecl(i)->getType()));
        o["refs"] = std::move(refs);
        std::string fn = file(F->getLocation());
        o["own"] = fn.compare(0, Root.size(), Root) == 0;
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["static"] = M->isStatic(); o["virtual"] = M->isVirtual(); o["const"] = M->isConst();
            o["parent"] = M->getParent()->getQualifiedNameAsString();
        }
        if(auto *TA = F->getTemplateSpecializationArgs()) {
            Array ta;
            for(auto &A : TA->asArray()) if(A.getKind() == TemplateArgument::Integral) ta.push_back(A.getAsIntegral().getSExtValue());
            if(!ta.empty()) o["targs"] = std::move(ta);
        }
        // a function with internal linkage is identified within its file
        if(F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) o["key"] = fn.substr(fn.rfind('/') + 1) + "::" + F->getQualifiedNameAsString() + sig(F);
        return o;
    }
    std::string key(const FunctionDecl *F) {
        std::string fn = file(F->getLocation());
        if(F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) return fn.substr(fn.rfind('/') + 1) + "::" + F->getQualifiedNameAsString() + sig(F);
        return F->getQualifiedNameAsString() + sig(F);
    }
    Value expr(const Expr *E) {
        if(!E) return nullptr;
        if(auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<ExprWithCleanups>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
        if(auto *X = dyn_cast<ConstantExpr>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return expr(X->getExpr());
        if(auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return expr(X->getExpr());
        if(auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
        if(auto *X = dyn_cast<IntegerLiteral>(E)) { auto o = node("int", E); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = std::string(s.str()); return std::move(o); }
        if(auto *X = dyn_cast<CharacterLiteral>(E)) { auto o = node("int", E); o["v"] = std::to_string(X->getValue()); return std::move(o); }
        if(auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("bool", E); o["v"] = X->getValue(); return std::move(o); }
        if(auto *X = dyn_cast<FloatingLiteral>(E)) { auto o = node("float", E);
            llvm::APFloat v = X->getValue(); bool loses; v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &loses);
            // decimal text as written, when finite (mathematical reading of the literal)
            std::string txt = Lexer_getText(X); 
            o["v"] = txt; char buf[64]; snprintf(buf, sizeof buf, "%.17g", v.convertToDouble()); o["d"] = std::string(buf); return std::move(o); }
        if(auto *X = dyn_cast<clang::StringLiteral>(E)) { auto o = node("str", E); o["v"] = X->isOrdinary() ? llvm::json::fixUTF8(X->getString()) : std::string("?"); return std::move(o); }
        if(isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
        if(isa<CXXThisExpr>(E)) return node("this", E);
        if(auto *X = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = X->getDecl();
            if(auto *EC = dyn_cast<EnumConstantDecl>(D)) { auto o = node("enumc", E); llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = std::string(s.str()); o["q"] = qname(EC); return std::move(o); }
            if(auto *F = dyn_cast<FunctionDecl>(D)) { auto o = node("fnref", E); o["fn"] = callee(F); return std::move(o); }
            if(auto *V = dyn_cast<VarDecl>(D)) {
                auto o = node("var", E); o["id"] = id(V); o["name"] = V->getNameAsString();
                bool glob = !V->isLocalVarDeclOrParm();
                if(V->isStaticLocal()) o["staticlocal"] = true;
                if(glob) {
                    o["glob"] = true; o["q"] = qname(V);
                    const VarDecl *def = nullptr; const Expr *init = V->getAnyInitializer(def);
                    if(init && V->getType().isConstQualified()) { if(!globals.count(V)) { globals[V] = true; Object g; g["q"] = qname(V); g["t"] = ty(V->getType()); g["init"] = expr(init); outGlobals.push_back(std::move(g)); } }
                }
                return std::move(o);
            }
            auto o = node("unsup", E); o["what"] = std::string("declref:") + D->getDeclKindName(); return std::move(o);
        }
        if(auto *X = dyn_cast<MemberExpr>(E)) {
            if(auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) { auto o = node("member", E); o["base"] = expr(X->getBase()); o["arrow"] = X->isArrow(); o["field"] = F->getNameAsString(); o["fq"] = qname(F); return std::move(o); }
            if(auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { auto o = node("var", E); o["id"] = id(V); o["name"] = V->getNameAsString(); o["glob"] = true; o["q"] = qname(V); return std::move(o); }
            return unsup("member", E);
        }
        if(auto *X = dyn_cast<ArraySubscriptExpr>(E)) { auto o = node("index", E); o["base"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return std::move(o); }
        if(auto *X = dyn_cast<CompoundAssignOperator>(E)) { auto o = node("cassign", E); o["op"] = X->getOpcodeStr(CompoundAssignOperator::getOpForCompoundAssignment(X->getOpcode())).str(); o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS()); o["ct"] = ty(X->getComputationLHSType()); o["rt"] = ty(X->getComputationResultType()); return std::move(o); }
        if(auto *X = dyn_cast<BinaryOperator>(E)) {
            auto o = node(X->getOpcode() == BO_Assign ? "assign" : "bin", E); o["op"] = X->getOpcodeStr().str(); o["l"] = expr(X->getLHS()); o["r"] = expr(X->getRHS()); return std::move(o); }
        if(auto *X = dyn_cast<UnaryOperator>(E)) { auto o = node("un", E); std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str(); if(X->isPostfix()) op = "post" + op; o["op"] = op; o["e"] = expr(X->getSubExpr()); return std::move(o); }
        if(auto *X = dyn_cast<ConditionalOperator>(E)) { auto o = node("cond", E); o["c"] = expr(X->getCond()); o["l"] = expr(X->getTrueExpr()); o["r"] = expr(X->getFalseExpr()); return std::move(o); }
        if(auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) return unsup("sizeof", X);
        if(auto *X = dyn_cast<CastExpr>(E)) {
            switch(X->getCastKind()) {
                case CK_LValueToRValue: case CK_NoOp: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay:
                case CK_ConstructorConversion: case CK_UserDefinedConversion:
                    return expr(X->getSubExpr());
                case CK_DerivedToBase: case CK_UncheckedDerivedToBase: { auto o = node("upcast", E); o["e"] = expr(X->getSubExpr()); return std::move(o); }
                case CK_ToVoid: { auto o = node("tovoid", E); o["e"] = expr(X->getSubExpr()); return std::move(o); }
                default: break;
            }
            auto o = node("cast", E); o["ck"] = X->getCastKindName(); o["from"] = ty(X->getSubExpr()->getType()); o["e"] = expr(X->getSubExpr()); return std::move(o);
        }
        if(auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = node("call", E);
            auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl());
            if(!F) return unsup("opcall", E);
            o["fn"] = callee(F);
            Array a; unsigned st = 0;
            if(isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = expr(X->getArg(0)); o["objt"] = ty(X->getArg(0)->getType()); st = 1; }
            for(unsigned i = st; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["args"] = std::move(a); o["oper"] = getOperatorSpelling(X->getOperator());
            return std::move(o);
        }
        if(auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = node("call", E);
            auto *M = X->getMethodDecl(); if(!M) return unsup("membercall", E);
            o["fn"] = callee(M);
            const Expr *ob = X->getImplicitObjectArgument();
            o["obj"] = expr(ob); o["objt"] = ty(ob->getType());
            if(auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { o["arrow"] = ME->isArrow(); if(ME->hasQualifier()) o["nonvirt"] = true; }
            Array a; for(unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if(auto *X = dyn_cast<CallExpr>(E)) {
            auto o = node("call", E);
            auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl());
            if(!F) return unsup("call", E);
            o["fn"] = callee(F);
            Array a; for(unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if(auto *X = dyn_cast<CXXConstructExpr>(E)) {
            auto *K = X->getConstructor();
            auto o = node("construct", E);
            o["fn"] = callee(K);
            o["copy"] = K->isCopyOrMoveConstructor(); o["defctor"] = K->isDefaultConstructor(); o["implicit"] = K->isImplicit() || K->isDefaulted();
            o["initlist"] = X->isListInitialization();
            Array a; for(unsigned i = 0; i < X->getNumArgs(); i++) a.push_back(expr(X->getArg(i)));
            o["args"] = std::move(a);
            return std::move(o);
        }
        if(auto *X = dyn_cast<InitListExpr>(E)) { auto o = node("initlist", E); Array a; for(unsigned i = 0; i < X->getNumInits(); i++) a.push_back(expr(X->getInit(i))); o["args"] = std::move(a); return std::move(o); }
        if(isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return node("zero", E);
        if(auto *X = dyn_cast<CXXThrowExpr>(E)) { Object o{{"k", "throw"}, {"t", "void"}, {"ln", line(E->getBeginLoc())}}; if(X->getSubExpr()) o["et"] = ty(X->getSubExpr()->getType()); return std::move(o); }
        if(auto *X = dyn_cast<CXXNewExpr>(E)) { auto o = node("new", E); if(X->getConstructExpr()) o["e"] = expr(X->getConstructExpr()); return std::move(o); }
        if(auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("delete", E); o["e"] = expr(X->getArgument()); return std::move(o); }
        return unsup("expr", E);
    }
    std::string Lexer_getText(const FloatingLiteral *X) {
        auto R = CharSourceRange::getTokenRange(SM.getSpellingLoc(X->getBeginLoc()), SM.getSpellingLoc(X->getEndLoc()));
        bool inv = false; auto s = Lexer::getSourceText(R, SM, C.getLangOpts(), &inv);
        return s.str();
    }
    Object var(const VarDecl *V) {
        Object o; o["id"] = id(V); o["name"] = V->getNameAsString(); o["t"] = ty(V->getType());
        o["ref"] = V->getType()->isReferenceType(); o["constq"] = V->getType().getNonReferenceType().isConstQualified();
        if(V->isStaticLocal()) o["static"] = true;
        if(V->hasInit()) o["init"] = expr(V->getInit());
        return o;
    }
    Value stmt(const Stmt *S) {
        if(!S) return nullptr;
        int ln = line(S->getBeginLoc());
        if(auto *X = dyn_cast<CompoundStmt>(S)) { Array a; for(auto *c : X->body()) a.push_back(stmt(c)); return Object{{"k", "block"}, {"ln", ln}, {"b", std::move(a)}}; }
        if(auto *X = dyn_cast<DeclStmt>(S)) { Array a; for(auto *D : X->decls()) { if(auto *V = dyn_cast<VarDecl>(D)) a.push_back(var(V)); else if(isa<TypedefNameDecl>(D) || isa<UsingDecl>(D) || isa<UsingDirectiveDecl>(D)) continue; else a.push_back(Object{{"unsup", D->getDeclKindName()}}); } return Object{{"k", "decl"}, {"ln", ln}, {"vars", std::move(a)}}; }
        if(auto *X = dyn_cast<IfStmt>(S)) { Object o{{"k", "if"}, {"ln", ln}}; if(X->getInit()) o["init"] = stmt(X->getInit()); if(X->getConditionVariable()) return unsup("ifvar", S); o["c"] = expr(X->getCond()); o["then"] = stmt(X->getThen()); o["else"] = stmt(X->getElse()); return std::move(o); }
        if(auto *X = dyn_cast<ForStmt>(S)) { Object o{{"k", "for"}, {"ln", ln}}; o["init"] = stmt(X->getInit()); o["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr); o["inc"] = X->getInc() ? expr(X->getInc()) : Value(nullptr); o["body"] = stmt(X->getBody()); return std::move(o); }
        if(auto *X = dyn_cast<WhileStmt>(S)) { Object o{{"k", "while"}, {"ln", ln}}; if(X->getConditionVariable()) return unsup("whilevar", S); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if(auto *X = dyn_cast<DoStmt>(S)) { Object o{{"k", "do"}, {"ln", ln}}; o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if(auto *X = dyn_cast<CXXForRangeStmt>(S)) { Object o{{"k", "rangefor"}, {"ln", ln}}; o["var"] = var(X->getLoopVariable()); o["range"] = expr(X->getRangeInit()); o["body"] = stmt(X->getBody()); return std::move(o); }
        if(auto *X = dyn_cast<ReturnStmt>(S)) { Object o{{"k", "return"}, {"ln", ln}}; o["e"] = X->getRetValue() ? expr(X->getRetValue()) : Value(nullptr); return std::move(o); }
        if(isa<BreakStmt>(S)) return Object{{"k", "break"}, {"ln", ln}};
        if(isa<ContinueStmt>(S)) return Object{{"k", "continue"}, {"ln", ln}};
        if(isa<NullStmt>(S)) return Object{{"k", "block"}, {"ln", ln}, {"b", Array()}};
        if(auto *X = dyn_cast<SwitchStmt>(S)) {
            Object o{{"k", "switch"}, {"ln", ln}}; o["c"] = expr(X->getCond()); 
            auto *B = dyn_cast<CompoundStmt>(X->getBody()); if(!B) return unsup("switch", S);
            Array items;
            for(const Stmt *c : B->body()) {
                while(true) {
                    if(auto *K = dyn_cast<CaseStmt>(c)) { items.push_back(Object{{"case", expr(K->getLHS())}}); c = K->getSubStmt(); }
                    else if(auto *K = dyn_cast<DefaultStmt>(c)) { items.push_back(Object{{"default", true}}); c = K->getSubStmt(); }
                    else break;
                }
                items.push_back(Object{{"s", stmt(c)}});
            }
            o["items"] = std::move(items); return std::move(o);
        }
        if(auto *X = dyn_cast<OMPExecutableDirective>(S)) {
            Object o{{"k", "omp"}, {"ln", ln}, {"dir", getOpenMPDirectiveName(X->getDirectiveKind()).str()}};
            Array cl;
            for(auto *c : X->clauses()) {
                Object co{{"name", llvm::omp::getOpenMPClauseName(c->getClauseKind()).str()}};
                Array vs;
                auto add = [&](const Expr *e) { if(auto *r = dyn_cast<DeclRefExpr>(e->IgnoreParenImpCasts())) vs.push_back(Object{{"id", id(r->getDecl())}, {"name", r->getDecl()->getNameAsString()}}); };
                if(auto *p = dyn_cast<OMPPrivateClause>(c)) for(auto *e : p->varlists()) add(e);
                else if(auto *p = dyn_cast<OMPFirstprivateClause>(c)) for(auto *e : p->varlists()) add(e);
                else if(auto *p = dyn_cast<OMPReductionClause>(c)) { for(auto *e : p->varlists()) add(e); }
                else if(auto *p = dyn_cast<OMPSharedClause>(c)) for(auto *e : p->varlists()) add(e);
                else if(auto *p = dyn_cast<OMPCollapseClause>(c)) co["n"] = expr(p->getNumForLoops());
                if(!vs.empty()) co["vars"] = std::move(vs);
                if(c->isImplicit()) co["implicit"] = true;
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            o["body"] = X->hasAssociatedStmt() ? stmt(X->getRawStmt()) : Value(nullptr);
            return std::move(o);
        }
        if(auto *X = dyn_cast<CapturedStmt>(S)) return stmt(X->getCapturedStmt());
        if(auto *X = dyn_cast<CXXTryStmt>(S)) { Object o{{"k", "try"}, {"ln", ln}}; o["body"] = stmt(X->getTryBlock()); Array h; for(unsigned i = 0; i < X->getNumHandlers(); i++) h.push_back(stmt(X->getHandler(i)->getHandlerBlock())); o["handlers"] = std::move(h); return std::move(o); }
        if(auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if(auto *E = dyn_cast<Expr>(S)) return Object{{"k", "expr"}, {"ln", ln}, {"e", expr(E)}};
        return unsup("stmt", S);
    }
    void record(const CXXRecordDecl *R) {
        if(!R->isCompleteDefinition() || R->isDependentContext()) return;
        Object o{{"kind", "record"}, {"q", R->getQualifiedNameAsString()}, {"file", file(R->getLocation())}, {"ln", line(R->getLocation())}};
        Array f; for(auto *F : R->fields()) f.push_back(Object{{"name", F->getNameAsString()}, {"t", ty(F->getType())}, {"ref", F->getType()->isReferenceType()}});
        o["fields"] = std::move(f);
        Array b; for(auto &B : R->bases()) { b.push_back(ty(B.getType())); } o["bases"] = std::move(b);
        o["abstract"] = R->isAbstract();
        Array ms; for(auto *M : R->methods()) if(M->isVirtual()) ms.push_back(Object{{"name", M->getNameAsString()}, {"sig", sig(M)}, {"key", key(M)}, {"pure", M->isPureVirtual()}}); o["virtuals"] = std::move(ms);
        llvm::outs() << "@@ " << Value(std::move(o)) << "\n";
    }
    void function(const FunctionDecl *F) {
        if(F->isDependentContext() || F->isImplicit()) return;
        Object o{{"kind", "function"}, {"q", F->getQualifiedNameAsString()}, {"sig", sig(F)}, {"key", key(F)}, {"file", file(F->getLocation())}, {"ln", line(F->getLocation())}, {"endln", line(F->getEndLoc())}};
        o["ret"] = ty(F->getReturnType()); o["retref"] = F->getReturnType()->isReferenceType();
        Array ps; for(auto *P : F->parameters()) { Object p; p["id"] = id(P); p["name"] = P->getNameAsString(); p["t"] = ty(P->getType()); p["ref"] = P->getType()->isReferenceType(); p["mut"] = isRefNonConst(P->getType()); ps.push_back(std::move(p)); }
        o["params"] = std::move(ps);
        if(auto *M = dyn_cast<CXXMethodDecl>(F)) { o["parent"] = M->getParent()->getQualifiedNameAsString(); o["static"] = M->isStatic(); o["virtual"] = M->isVirtual(); o["const"] = M->isConst(); Array ov; for(auto *b : M->overridden_methods()) ov.push_back(key(b)); o["overrides"] = std::move(ov); o["access"] = (int)M->getAccess(); }
        if(auto *K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true; o["copyctor"] = K->isCopyOrMoveConstructor();
            if(K->isThisDeclarationADefinition()) { Array in; for(auto *I : K->inits()) { Object io; if(I->isMemberInitializer()) { io["field"] = I->getMember()->getNameAsString(); } else if(I->isDelegatingInitializer()) io["delegating"] = true; else if(I->isBaseInitializer()) io["base"] = ty(QualType(I->getBaseClass(), 0)); io["e"] = expr(I->getInit()); in.push_back(std::move(io)); } o["inits"] = std::move(in); }
        }
        if(F->isDefaulted()) o["defaulted"] = true;
        if(F->doesThisDeclarationHaveABody()) o["body"] = stmt(F->getBody());
        llvm::outs() << "@@ " << Value(std::move(o)) << "\n";
    }
    void walk(const DeclContext *DC) {
        for(Decl *D : DC->decls()) {
            if(auto *N = dyn_cast<NamespaceDecl>(D)) { walk(N); continue; }
            if(auto *L = dyn_cast<LinkageSpecDecl>(D)) { walk(L); continue; }
            if(D->isImplicit()) continue;
            std::string f = file(D->getLocation());
            if(f.compare(0, Root.size(), Root) != 0) continue;
            if(auto *R = dyn_cast<CXXRecordDecl>(D)) { record(R); walk(R); continue; }
            if(auto *F = dyn_cast<FunctionDecl>(D)) { function(F); continue; }
            if(auto *E = dyn_cast<EnumDecl>(D)) { Object o{{"kind", "enum"}, {"q", qname(E)}}; Array cs; for(auto *c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs.push_back(Object{{"name", c->getNameAsString()}, {"v", std::string(s.str())}}); } o["consts"] = std::move(cs); llvm::outs() << "@@ " << Value(std::move(o)) << "\n"; continue; }
            if(auto *V = dyn_cast<VarDecl>(D)) { Object o{{"kind", "gvar"}, {"q", qname(V)}, {"t", ty(V->getType())}, {"const", V->getType().isConstQualified()}}; if(V->hasInit()) o["init"] = expr(V->getInit()); llvm::outs() << "@@ " << Value(std::move(o)) << "\n"; continue; }
        }
    }
};
struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &C) override {
        if(C.getDiagnostics().hasErrorOccurred()) { llvm::outs() << "@@ERROR\n"; return; }
        Exporter X(C);
        X.walk(C.getTranslationUnitDecl());
        llvm::outs() << "@@ " << Value(Object{{"kind", "globals"}, {"vars", std::move(X.outGlobals)}}) << "\n@@END\n";
        llvm::outs().flush();
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
    // astdump ROOT FILE -- flags...
    Root = argv[1];
    std::vector<std::string> flags;
    for(int i = 4; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {argv[2]});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
