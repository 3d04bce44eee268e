// Extracts a simplified, fully resolved program (functions, records, enums) from the
// translation units named on the command line, as JSON lines on stdout.
//   extract OUT ROOT[,ROOT...] FILE... -- CLANG-ARGS
// Only declarations spelled under one of the ROOT directories are emitted. Template instantiations are
// emitted (one record/function each); dependent patterns are emitted too, marked "dep".
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::set<std::string> Seen;
static llvm::raw_fd_ostream *Out;

static int64_t i64(const llvm::APSInt &I) { return I.isRepresentableByInt64() ? I.getExtValue() : (int64_t)I.getRawData()[0]; }
static std::string usr(const Decl *D) {
    llvm::SmallString<256> B;
    if (auto *FD = llvm::dyn_cast<FunctionDecl>(D)) D = FD->getCanonicalDecl();
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
}

struct Emitter {
    ASTContext &Ctx;
    PrintingPolicy PP;
    std::string CurFile;
    std::map<const Decl *, int> Ids;
    explicit Emitter(ASTContext &C) : Ctx(C), PP(C.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressDefaultTemplateArgs = true;
    }
    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = Ids.find(D);
        if (it != Ids.end()) return it->second;
        int n = (int)Ids.size();
        Ids[D] = n;
        return n;
    }
    std::string ty(QualType T) { return T.isNull() ? "" : T.getCanonicalType().getAsString(PP); }
    int line(SourceLocation L) {
        return (int)Ctx.getSourceManager().getExpansionLineNumber(L);
    }
    std::string file(SourceLocation L) {
        auto &SM = Ctx.getSourceManager();
        L = SM.getExpansionLoc(L);
        auto FE = SM.getFileEntryRefForID(SM.getFileID(L));
        if (!FE) return "";
        StringRef R = FE->getFileEntry().tryGetRealPathName();
        return std::string(R.empty() ? FE->getName() : R);
    }
    bool inRoot(SourceLocation L) {
        std::string f = file(L);
        for (auto &r : Roots) if (f.rfind(r, 0) == 0) return true;
        return false;
    }
    std::string qn(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    // qualified name with the template arguments of enclosing specialisations
    std::string qname(const NamedDecl *D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->getNameForDiagnostic(os, PP, true);
        return os.str();
    }
    std::string recName(const RecordDecl *R) {
        return ty(Ctx.getRecordType(R));
    }
    Object fnRef(const FunctionDecl *F) {
        Object o;
        o["n"] = fname(F);
        o["u"] = usr(F);
        std::string pt;
        for (auto *p : F->parameters()) {
            QualType T = p->getType();
            if (auto *R = T->getAs<LValueReferenceType>()) pt += R->getPointeeType().isConstQualified() ? 'c' : 'r';
            else if (T->isRValueReferenceType()) pt += 'm';
            else if (T->isPointerType()) pt += T->getPointeeType().isConstQualified() ? 'q' : 'p';
            else pt += '.';
        }
        o["pt"] = pt;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
        }
        return o;
    }
    std::string fname(const FunctionDecl *F) {
        std::string base;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            base = recName(M->getParent()) + "::";
            if (isa<CXXConstructorDecl>(M)) return base + "(ctor)";
            if (isa<CXXDestructorDecl>(M)) return base + "(dtor)";
            if (auto *C = dyn_cast<CXXConversionDecl>(M)) return base + "operator " + ty(C->getConversionType());
            base += M->getDeclName().getAsString();
        } else
            base = qn(F);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
            std::string s;
            llvm::raw_string_ostream os(s);
            os << "<";
            bool first = true;
            for (auto &A : TA->asArray()) {
                if (!first) os << ", ";
                first = false;
                A.print(PP, os, true);
            }
            os << ">";
            base += os.str();
        }
        return base;
    }

    // ---- expressions ----
    Value E(const Expr *X) {
        if (!X) return nullptr;
        Object o;
        if (isa<ExprWithCleanups>(X)) return E(cast<ExprWithCleanups>(X)->getSubExpr());
        if (auto *P = dyn_cast<ParenExpr>(X)) return E(P->getSubExpr());
        if (auto *P = dyn_cast<ConstantExpr>(X)) return E(P->getSubExpr());
        if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) return E(P->getSubExpr());
        if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) return E(P->getSubExpr());
        if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(P->getReplacement());
        if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) return E(P->getSubExpr());
        if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) return E(P->getExpr());
        if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) { Value v = E(P->getExpr()); if (auto *ob = v.getAsObject()) (*ob)["def"] = true; return v; }
        if (auto *P = dyn_cast<ImplicitCastExpr>(X)) {
            switch (P->getCastKind()) {
            case CK_LValueToRValue: {
                Object l; l["k"] = "ld"; l["e"] = E(P->getSubExpr());
                return Value(std::move(l));
            }
            case CK_FloatingToIntegral: {
                Object c; c["k"] = "cast"; c["ck"] = "f2i"; c["impl"] = true; c["t"] = ty(P->getType()); c["e"] = E(P->getSubExpr()); return Value(std::move(c));
            }
            case CK_NullToPointer: { Object c; c["k"] = "null"; return Value(std::move(c)); }
            case CK_IntegralCast: {
                // narrowing integral conversions are kept
                auto f = P->getSubExpr()->getType(), t = P->getType();
                if (!f->isDependentType() && !t->isDependentType() && !t->isIncompleteType() && !f->isIncompleteType() && !f->isBooleanType()
                    && Ctx.getTypeSize(f) > Ctx.getTypeSize(t) && !isa<IntegerLiteral>(P->getSubExpr()->IgnoreParens())) {
                    Object c; c["k"] = "cast"; c["ck"] = "narrow"; c["impl"] = true; c["t"] = ty(t); c["e"] = E(P->getSubExpr()); return Value(std::move(c));
                }
                return E(P->getSubExpr());
            }
            case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_FloatingToBoolean: {
                Object c; c["k"] = "cast"; c["ck"] = "bool"; c["impl"] = true; c["t"] = "bool"; c["e"] = E(P->getSubExpr()); return Value(std::move(c));
            }
            default: return E(P->getSubExpr());
            }
        }
        o["l"] = line(X->getExprLoc());
        if (auto *P = dyn_cast<IntegerLiteral>(X)) { o["k"] = "int"; llvm::SmallString<32> s; P->getValue().toString(s, 10, P->getType()->isSignedIntegerType()); o["v"] = (int64_t)P->getValue().getLimitedValue(); return Value(std::move(o)); }
        if (auto *P = dyn_cast<FloatingLiteral>(X)) { o["k"] = "flt"; o["v"] = P->getValueAsApproximateDouble(); return Value(std::move(o)); }
        if (auto *P = dyn_cast<StringLiteral>(X)) { o["k"] = "str"; o["v"] = json::fixUTF8(P->getBytes()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CharacterLiteral>(X)) { o["k"] = "int"; o["chr"] = true; o["v"] = (int64_t)P->getValue(); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CXXBoolLiteralExpr>(X)) { o["k"] = "bool"; o["v"] = P->getValue(); return Value(std::move(o)); }
        if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) { o["k"] = "null"; return Value(std::move(o)); }
        if (isa<CXXThisExpr>(X)) { o["k"] = "this"; return Value(std::move(o)); }
        if (auto *P = dyn_cast<DeclRefExpr>(X)) {
            const ValueDecl *D = P->getDecl();
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "enum";
                o["n"] = ty(EC->getType()) + "::" + EC->getNameAsString();
                o["v"] = i64(EC->getInitVal());
                return Value(std::move(o));
            }
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"] = "fn"; o["fn"] = fnRef(F); return Value(std::move(o)); }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                o["k"] = "var"; o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
                if (V->getType()->isReferenceType()) o["ref"] = true;
                if (V->isLocalVarDecl() || isa<ParmVarDecl>(V)) {
                    o["id"] = id(V);
                    if (V->isStaticLocal()) { o["g"] = "static:" + usr(V); }
                } else {
                    o["g"] = qname(V);
                    if (V->getType().isConstQualified() && V->getAnyInitializer()) {
                        const Expr *I = V->getAnyInitializer();
                        Expr::EvalResult R;
                        if (!I->isValueDependent() && !I->isTypeDependent() && I->EvaluateAsRValue(R, Ctx)) {
                            if (R.Val.isInt()) { o["cv"] = i64(R.Val.getInt()); }
                            else if (R.Val.isFloat()) { o["cvf"] = R.Val.getFloat().convertToDouble(); }
                        }
                    }
                }
                return Value(std::move(o));
            }
            o["k"] = "decl"; o["n"] = qn(D); return Value(std::move(o));
        }
        if (auto *P = dyn_cast<MemberExpr>(X)) {
            if (auto *F = dyn_cast<FieldDecl>(P->getMemberDecl())) {
                o["k"] = "fld"; o["o"] = E(P->getBase());
                o["f"] = F->getNameAsString(); o["c"] = recName(F->getParent());
                o["t"] = ty(F->getType());
                if (F->getType()->isReferenceType()) o["ref"] = true;
                return Value(std::move(o));
            }
            if (auto *V = dyn_cast<VarDecl>(P->getMemberDecl())) {
                o["k"] = "var"; o["n"] = V->getNameAsString(); o["g"] = qname(V); o["t"] = ty(V->getType());
                if (V->getType().isConstQualified() && V->getAnyInitializer()) {
                    const Expr *I = V->getAnyInitializer();
                    Expr::EvalResult R;
                    if (!I->isValueDependent() && !I->isTypeDependent() && I->EvaluateAsRValue(R, Ctx)) {
                        if (R.Val.isInt()) o["cv"] = i64(R.Val.getInt());
                        else if (R.Val.isFloat()) o["cvf"] = R.Val.getFloat().convertToDouble();
                    }
                }
                return Value(std::move(o));
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(P->getMemberDecl())) {
                o["k"] = "enum"; o["n"] = ty(EC->getType()) + "::" + EC->getNameAsString(); o["v"] = i64(EC->getInitVal()); return Value(std::move(o));
            }
            if (auto *M = dyn_cast<CXXMethodDecl>(P->getMemberDecl())) { o["k"] = "fn"; o["fn"] = fnRef(M); o["o"] = E(P->getBase()); return Value(std::move(o)); }
            o["k"] = "unk"; o["s"] = "member"; return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXOperatorCallExpr>(X)) {
            const FunctionDecl *F = P->getDirectCallee();
            o["k"] = "call"; o["t"] = ty(P->getType());
            if (P->isGLValue()) o["lv"] = true;
            if (!F) { o["dep"] = true; o["op"] = getOperatorSpelling(P->getOperator()); Array a; for (auto *A : P->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return Value(std::move(o)); }
            o["fn"] = fnRef(F); o["op"] = getOperatorSpelling(P->getOperator());
            Array a; unsigned i = 0;
            if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["o"] = E(P->getArg(0)); i = 1; }
            for (; i < P->getNumArgs(); ++i) a.push_back(E(P->getArg(i)));
            o["a"] = std::move(a);
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXMemberCallExpr>(X)) {
            o["k"] = "call"; o["t"] = ty(P->getType());
            if (P->isGLValue()) o["lv"] = true;
            if (auto *M = P->getMethodDecl()) {
                o["fn"] = fnRef(M);
                if (auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParenImpCasts())) {
                    if (ME->hasQualifier()) o["nonvirt"] = true;
                    QualType BT = P->getImplicitObjectArgument()->getType();
                    if (BT->isPointerType()) BT = BT->getPointeeType();
                    o["ot"] = ty(BT.getUnqualifiedType());
                }
                o["o"] = E(P->getImplicitObjectArgument());
            } else { o["dep"] = true; o["c"] = E(P->getCallee()); }
            Array a; for (auto *A : P->arguments()) a.push_back(E(A));
            o["a"] = std::move(a);
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CallExpr>(X)) {
            o["k"] = "call"; o["t"] = ty(P->getType());
            if (P->isGLValue()) o["lv"] = true;
            if (auto *F = P->getDirectCallee()) o["fn"] = fnRef(F); else { o["ind"] = true; o["c"] = E(P->getCallee()); }
            Array a; for (auto *A : P->arguments()) a.push_back(E(A));
            o["a"] = std::move(a);
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXConstructExpr>(X)) {
            o["k"] = "ctor"; o["fn"] = fnRef(P->getConstructor()); o["c"] = recName(P->getConstructor()->getParent());
            if (P->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
            if (P->getConstructor()->isImplicit() || P->getConstructor()->isDefaulted()) o["dflt"] = true;
            if (P->isElidable()) o["elide"] = true;
            if (P->requiresZeroInitialization()) o["zero"] = true;
            Array a; for (auto *A : P->arguments()) a.push_back(E(A));
            o["a"] = std::move(a);
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(X)) {
            o["k"] = "ctor"; o["fn"] = fnRef(P->getConstructor()); o["c"] = recName(P->getConstructor()->getParent()); o["inh"] = true; o["a"] = Array(); return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXNewExpr>(X)) {
            o["k"] = "new"; o["t"] = ty(P->getAllocatedType()); o["arr"] = P->isArray();
            if (P->isArray() && P->getArraySize()) o["n"] = E(*P->getArraySize());
            if (P->hasInitializer()) o["i"] = E(P->getInitializer());
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXDeleteExpr>(X)) { o["k"] = "del"; o["arr"] = P->isArrayForm(); o["e"] = E(P->getArgument()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CXXThrowExpr>(X)) { o["k"] = "throw"; o["e"] = E(P->getSubExpr()); if (P->getSubExpr()) o["t"] = ty(P->getSubExpr()->getType().getUnqualifiedType()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<UnaryOperator>(X)) {
            o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(P->getOpcode()).str();
            if (P->isPostfix()) o["post"] = true;
            o["e"] = E(P->getSubExpr()); o["t"] = ty(P->getType()); return Value(std::move(o));
        }
        if (auto *P = dyn_cast<BinaryOperator>(X)) {
            o["k"] = P->isAssignmentOp() ? "asg" : "bin"; o["op"] = P->getOpcodeStr().str();
            o["a"] = E(P->getLHS()); o["b"] = E(P->getRHS()); o["t"] = ty(P->getType());
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<ConditionalOperator>(X)) { o["k"] = "cond"; o["c"] = E(P->getCond()); o["a"] = E(P->getTrueExpr()); o["b"] = E(P->getFalseExpr()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<ArraySubscriptExpr>(X)) { o["k"] = "idx"; o["a"] = E(P->getBase()); o["i"] = E(P->getIdx()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<InitListExpr>(X)) {
            if (!P->isSemanticForm() && P->getSemanticForm()) P = P->getSemanticForm();
            o["k"] = "il"; Array a; for (auto *I : P->inits()) a.push_back(E(I)); o["a"] = std::move(a); o["t"] = ty(P->getType());
            if (P->hasArrayFiller()) o["fill"] = true;
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<ExplicitCastExpr>(X)) {
            o["k"] = "cast"; o["t"] = ty(P->getType());
            o["ck"] = isa<CXXDynamicCastExpr>(P) ? "dyn" : isa<CXXStaticCastExpr>(P) ? "static" : isa<CXXReinterpretCastExpr>(P) ? "reint" : isa<CXXConstCastExpr>(P) ? "const" : "c";
            o["e"] = E(P->getSubExpr());
            o["lvc"] = P->isGLValue();
            if (P->getSubExpr()) o["ft"] = ty(P->getSubExpr()->getType());
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
            o["k"] = "sizeof"; Expr::EvalResult R; if (!P->isValueDependent() && P->EvaluateAsInt(R, Ctx)) { o["k"] = "int"; o["v"] = i64(R.Val.getInt()); } return Value(std::move(o));
        }
        if (auto *P = dyn_cast<LambdaExpr>(X)) {
            o["k"] = "lambda";
            Array c;
            for (auto &cap : P->captures()) if (cap.capturesVariable()) c.push_back(id(cap.getCapturedVar()));
            o["caps"] = std::move(c);
            Array ps; for (auto *p : P->getCallOperator()->parameters()) ps.push_back(param(p));
            o["p"] = std::move(ps); o["b"] = S(P->getBody());
            return Value(std::move(o));
        }
        if (auto *P = dyn_cast<CXXTypeidExpr>(X)) { o["k"] = "typeid"; if (P->isTypeOperand()) o["t"] = ty(P->getTypeOperand(Ctx)); else o["e"] = E(P->getExprOperand()); return Value(std::move(o)); }
        if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) { o["k"] = "zero"; o["t"] = ty(X->getType()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<ArrayInitLoopExpr>(X)) { o["k"] = "arrcopy"; o["e"] = E(P->getCommonExpr()->getSourceExpr()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<OpaqueValueExpr>(X)) return E(P->getSourceExpr());
        if (auto *P = dyn_cast<PredefinedExpr>(X)) { o["k"] = "str"; o["v"] = "__func__"; return Value(std::move(o)); }
        if (auto *P = dyn_cast<CXXUnresolvedConstructExpr>(X)) { o["k"] = "unk"; o["s"] = "UnresolvedConstruct"; Array a; for (auto *A : P->arguments()) a.push_back(E(A)); o["a"] = std::move(a); return Value(std::move(o)); }
        o["k"] = "unk"; o["s"] = X->getStmtClassName();
        Array a;
        for (auto *C : X->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) a.push_back(E(CE));
        o["a"] = std::move(a);
        return Value(std::move(o));
    }
    Object param(const ParmVarDecl *p) {
        Object o; o["id"] = id(p); o["n"] = p->getNameAsString(); o["t"] = ty(p->getType());
        if (p->getType()->isReferenceType()) o["ref"] = true;
        if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) o["d"] = E(p->getDefaultArg());
        return o;
    }
    Value var(const VarDecl *V) {
        Object o; o["k"] = "decl"; o["l"] = line(V->getLocation()); o["id"] = id(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->isStaticLocal()) o["g"] = "static:" + usr(V);
        if (V->getInit()) o["i"] = E(V->getInit());
        return Value(std::move(o));
    }
    Value S(const Stmt *X) {
        if (!X) return nullptr;
        if (auto *P = dyn_cast<Expr>(X)) { Object o; o["k"] = "expr"; o["l"] = line(X->getBeginLoc()); o["e"] = E(P); return Value(std::move(o)); }
        Object o; o["l"] = line(X->getBeginLoc());
        if (auto *P = dyn_cast<CompoundStmt>(X)) { o["k"] = "seq"; Array a; for (auto *s : P->body()) a.push_back(S(s)); o["b"] = std::move(a); return Value(std::move(o)); }
        if (auto *P = dyn_cast<DeclStmt>(X)) { o["k"] = "seq"; o["decl"] = true; Array a; for (auto *d : P->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V)); o["b"] = std::move(a); return Value(std::move(o)); }
        if (auto *P = dyn_cast<IfStmt>(X)) {
            o["k"] = "if"; if (P->getInit()) o["init"] = S(P->getInit());
            if (P->getConditionVariable()) o["cv"] = var(P->getConditionVariable());
            o["c"] = E(P->getCond()); o["a"] = S(P->getThen()); o["b"] = S(P->getElse()); return Value(std::move(o));
        }
        if (auto *P = dyn_cast<WhileStmt>(X)) { o["k"] = "while"; if (P->getConditionVariable()) o["cv"] = var(P->getConditionVariable()); o["c"] = E(P->getCond()); o["b"] = S(P->getBody()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<DoStmt>(X)) { o["k"] = "do"; o["c"] = E(P->getCond()); o["b"] = S(P->getBody()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<ForStmt>(X)) { o["k"] = "for"; o["init"] = S(P->getInit()); o["c"] = E(P->getCond()); o["inc"] = E(P->getInc()); o["b"] = S(P->getBody()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CXXForRangeStmt>(X)) {
            o["k"] = "range"; o["r"] = E(P->getRangeInit()); o["v"] = var(P->getLoopVariable()); o["b"] = S(P->getBody()); return Value(std::move(o));
        }
        if (auto *P = dyn_cast<SwitchStmt>(X)) { o["k"] = "switch"; o["c"] = E(P->getCond()); o["b"] = S(P->getBody()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CaseStmt>(X)) { o["k"] = "case"; o["v"] = E(P->getLHS()); Expr::EvalResult R; if (!P->getLHS()->isValueDependent() && P->getLHS()->EvaluateAsInt(R, Ctx)) o["cv"] = i64(R.Val.getInt()); o["s"] = S(P->getSubStmt()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<DefaultStmt>(X)) { o["k"] = "default"; o["s"] = S(P->getSubStmt()); return Value(std::move(o)); }
        if (isa<BreakStmt>(X)) { o["k"] = "break"; return Value(std::move(o)); }
        if (isa<ContinueStmt>(X)) { o["k"] = "continue"; return Value(std::move(o)); }
        if (auto *P = dyn_cast<ReturnStmt>(X)) { o["k"] = "ret"; o["e"] = E(P->getRetValue()); return Value(std::move(o)); }
        if (auto *P = dyn_cast<CXXTryStmt>(X)) {
            o["k"] = "try"; o["b"] = S(P->getTryBlock()); Array a;
            for (unsigned i = 0; i < P->getNumHandlers(); ++i) {
                auto *H = P->getHandler(i); Object h; h["l"] = line(H->getBeginLoc());
                if (H->getExceptionDecl()) { h["t"] = ty(H->getCaughtType().getNonReferenceType().getUnqualifiedType()); h["id"] = id(H->getExceptionDecl()); }
                h["b"] = S(H->getHandlerBlock()); a.push_back(std::move(h));
            }
            o["h"] = std::move(a); return Value(std::move(o));
        }
        if (isa<NullStmt>(X)) { o["k"] = "seq"; o["b"] = Array(); return Value(std::move(o)); }
        if (auto *P = dyn_cast<AttributedStmt>(X)) return S(P->getSubStmt());
        o["k"] = "unk"; o["s"] = X->getStmtClassName(); return Value(std::move(o));
    }

    void out(Object o) { *Out << Value(std::move(o)) << "\n"; }

    void function(const FunctionDecl *F) {
        std::string u = usr(F);
        if (!Seen.insert("F" + u).second) return;
        Object o;
        o["kind"] = "fn"; o["u"] = u; o["n"] = fname(F); o["pq"] = qn(F);
        o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation()); o["endl"] = line(F->getEndLoc());
        o["ret"] = ty(F->getReturnType());
        if (F->isDependentContext()) o["dep"] = true;
        if (F->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(F)) o["static"] = true;
        if (F->isTemplateInstantiation()) o["inst"] = true;
        if (F->isImplicit()) o["impl"] = true;
        if (F->isDefaulted()) o["dflt"] = true;
        Array ps; for (auto *p : F->parameters()) ps.push_back(param(p));
        o["p"] = std::move(ps);
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["smeth"] = true;
            Array ov; for (auto *b : M->overridden_methods()) ov.push_back(usr(b));
            if (!ov.empty()) o["ov"] = std::move(ov);
            if (M->isCopyAssignmentOperator()) o["casg"] = true;
            if (M->isMoveAssignmentOperator()) o["masg"] = true;
        }
        if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            if (C->isCopyConstructor()) o["cctor"] = true;
            if (C->isMoveConstructor()) o["mctor"] = true;
            if (C->isDefaultConstructor()) o["dctor"] = true;
            Array in;
            for (auto *I : C->inits()) {
                Object i; i["l"] = line(I->getSourceLocation()); i["w"] = I->isWritten();
                if (I->isAnyMemberInitializer()) { i["f"] = I->getAnyMember()->getNameAsString(); i["c"] = recName(I->getAnyMember()->getParent()); i["t"] = ty(I->getAnyMember()->getType()); if (I->getAnyMember()->getType()->isReferenceType()) i["ref"] = true; }
                else if (I->isBaseInitializer()) { i["b"] = ty(QualType(I->getBaseClass(), 0)); if (I->isBaseVirtual()) i["v"] = true; }
                else i["deleg"] = true;
                i["e"] = E(I->getInit());
                in.push_back(std::move(i));
            }
            o["init"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (auto *T = F->getTemplateInstantiationPattern()) o["pat"] = usr(T);
        o["b"] = S(F->getBody());
        out(std::move(o));
    }
    void record(const CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition()) return;
        std::string u = usr(R);
        if (!Seen.insert("R" + u).second) return;
        Object o; o["kind"] = "rec"; o["u"] = u; o["n"] = recName(R); o["pq"] = qn(R); o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
        if (R->isDependentContext()) o["dep"] = true;
        if (R->isAbstract()) o["abs"] = true;
        Array b;
        if (R->hasDefinition()) for (auto &B : R->bases()) { Object x; x["n"] = ty(B.getType()); if (B.isVirtual()) x["v"] = true; x["acc"] = (int)B.getAccessSpecifier(); b.push_back(std::move(x)); }
        o["bases"] = std::move(b);
        Array f; for (auto *F : R->fields()) { Object x; x["n"] = F->getNameAsString(); x["t"] = ty(F->getType()); x["acc"] = (int)F->getAccess(); x["l"] = line(F->getLocation());
            if (F->hasInClassInitializer()) x["ici"] = true;
            QualType T = F->getType();
            x["pod"] = !T->isDependentType() && (T->isScalarType() || (T->isArrayType() && Ctx.getBaseElementType(T)->isScalarType()));
            x["ptr"] = T->isPointerType(); if (T.isConstQualified()) x["const"] = true; f.push_back(std::move(x)); }
        o["fields"] = std::move(f);
        Array m; for (auto *M : R->methods()) { Object x; x["n"] = fname(M); x["u"] = usr(M); x["acc"] = (int)M->getAccess(); x["l"] = line(M->getLocation()); x["t"] = ty(M->getType());
            if (M->isVirtual()) x["virt"] = true; if (M->isPureVirtual()) x["pure"] = true; if (M->isImplicit()) x["impl"] = true; if (M->isDeleted()) x["del"] = true; if (M->isDefaulted()) x["dflt"] = true; if (M->isConst()) x["const"] = true; if (M->isStatic()) x["static"] = true;
            if (M->isCopyAssignmentOperator()) x["casg"] = true;
            if (M->isMoveAssignmentOperator()) x["masg"] = true;
            if (auto *C = dyn_cast<CXXConstructorDecl>(M)) { if (C->isCopyConstructor()) x["cctor"] = true; if (C->isMoveConstructor()) x["mctor"] = true; if (C->isDefaultConstructor()) x["dctor"] = true; x["ctor"] = true; }
            if (isa<CXXDestructorDecl>(M)) x["dtor"] = true;
            if (M->getReturnType()->isPointerType() || M->getReturnType()->isReferenceType()) x["rp"] = true;
            x["ret"] = ty(M->getReturnType());
            Array ov; for (auto *bb : M->overridden_methods()) ov.push_back(usr(bb));
            if (!ov.empty()) x["ov"] = std::move(ov);
            m.push_back(std::move(x)); }
        o["methods"] = std::move(m);
        out(std::move(o));
    }
    void enumd(const EnumDecl *D) {
        if (!D->isThisDeclarationADefinition()) return;
        std::string u = usr(D);
        if (!Seen.insert("E" + u).second) return;
        Object o; o["kind"] = "enum"; o["n"] = ty(Ctx.getEnumType(D)); o["file"] = file(D->getLocation()); o["line"] = line(D->getLocation());
        Array a; for (auto *e : D->enumerators()) { Array p; p.push_back(e->getNameAsString()); p.push_back(i64(e->getInitVal())); a.push_back(std::move(p)); }
        o["vals"] = std::move(a); out(std::move(o));
    }
    void global(const VarDecl *V) {
        std::string u = usr(V);
        if (!V->getAnyInitializer()) return;
        if (V->isLocalVarDecl() && !V->isStaticLocal()) return;
        if (V->isStaticLocal()) return;
        if (!Seen.insert("G" + u).second) return;
        Object o; o["kind"] = "var"; o["n"] = qname(V); o["u"] = u; o["file"] = file(V->getLocation()); o["line"] = line(V->getLocation()); o["t"] = ty(V->getType());
        o["const"] = V->getType().isConstQualified();
        if (V->getDeclContext()->isDependentContext()) o["dep"] = true;
        o["i"] = E(V->getAnyInitializer());
        out(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
public:
    Emitter Em; 
    explicit V(ASTContext &C) : Em(C) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->doesThisDeclarationHaveABody() || !F->getBody()) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        if (!Em.inRoot(F->getLocation())) return true;
        Em.function(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (R->isLambda() || !Em.inRoot(R->getLocation())) return true;
        Em.record(R); return true;
    }
    bool VisitEnumDecl(EnumDecl *D) { if (Em.inRoot(D->getLocation())) Em.enumd(D); return true; }
    bool VisitVarDecl(VarDecl *D) { if (isa<ParmVarDecl>(D)) return true; if (Em.inRoot(D->getLocation())) Em.global(D); return true; }
};

class Cons : public ASTConsumer {
public:
    CompilerInstance &CI;
    explicit Cons(CompilerInstance &C) : CI(C) {}
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        // define every implicit copy constructor / assignment / destructor that could be needed
        V v(Ctx);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
    }
};
class Act : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { return std::make_unique<Cons>(CI); }
};

int main(int argc, char **argv) {
    if (argc < 4) { llvm::errs() << "usage: extract OUT ROOTS FILE... -- ARGS\n"; return 2; }
    std::error_code EC;
    llvm::raw_fd_ostream os(argv[1], EC);
    if (EC) { llvm::errs() << EC.message() << "\n"; return 2; }
    Out = &os;
    { std::string r = argv[2]; size_t p; while ((p = r.find(',')) != std::string::npos) { Roots.push_back(r.substr(0, p)); r = r.substr(p + 1); } Roots.push_back(r); }
    std::vector<std::string> files, args; bool after = false;
    for (int i = 3; i < argc; ++i) { std::string s = argv[i]; if (!after && s == "--") { after = true; continue; } (after ? args : files).push_back(s); }
    // MAP=virtual-path=content-file arguments replace a file's content in memory
    std::vector<std::pair<std::string, std::unique_ptr<llvm::MemoryBuffer>>> maps;
    for (auto it = files.begin(); it != files.end();) {
        if (it->rfind("MAP=", 0) == 0) {
            std::string m = it->substr(4); size_t p = m.find('=');
            auto B = llvm::MemoryBuffer::getFile(m.substr(p + 1));
            if (!B) { llvm::errs() << "cannot read " << m << "\n"; return 2; }
            maps.emplace_back(m.substr(0, p), std::move(*B));
            it = files.erase(it);
        } else ++it;
    }
    tooling::FixedCompilationDatabase DB(".", args);
    int rc = 0;
    for (auto &f : files) {
        tooling::ClangTool T(DB, {f});
        for (auto &m : maps) T.mapVirtualFile(m.first, m.second->getBuffer());
        int r = T.run(tooling::newFrontendActionFactory<Act>().get());
        Object o; o["kind"] = "tu"; o["file"] = f; o["ok"] = (r == 0);
        *Out << Value(std::move(o)) << "\n";
        if (r) rc = 1;
    }
    return rc;
}
