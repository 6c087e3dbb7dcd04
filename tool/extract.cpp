// Extracts a resolved, simplified AST (functions, classes, enums, globals) of /repo's non-test code as JSON.
// Pure static front end: parses with clang, never runs the code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <fstream>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace clang;

static std::string gRoot = "/repo/";
static std::string gOut;
static std::vector<std::string> gDeps;
static int gErrors = 0;

struct W {  // tiny JSON writer
    std::string s;
    std::vector<char> first{1};
    void esc(llvm::StringRef v) {
        s += '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += c; }
            else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
            else s += c;
        }
        s += '"';
    }
    void sep() { if (first.back()) first.back() = 0; else s += ','; }
    void key(const char* k) { sep(); s += '"'; s += k; s += "\":"; }
    void o() { s += '{'; first.push_back(1); }
    void c() { s += '}'; first.pop_back(); }
    void ao() { s += '['; first.push_back(1); }
    void ac() { s += ']'; first.pop_back(); }
    void kv(const char* k, llvm::StringRef v) { key(k); esc(v); }
    void kv(const char* k, const char* v) { key(k); esc(v); }
    void kb(const char* k, bool v) { if (v) { key(k); s += "1"; } }
    void ki(const char* k, long long v) { key(k); s += std::to_string(v); }
};

class Ex {
  public:
    ASTContext& C; SourceManager& SM; PrintingPolicy PP; W w;
    std::set<std::string> doneF, doneC, doneE, doneV;
    std::vector<const FunctionDecl*> pendF; std::vector<const CXXRecordDecl*> pendC; std::vector<const EnumDecl*> pendE; std::vector<const VarDecl*> pendV;
    std::unordered_map<const Decl*, int> ids; int nid = 0;
    std::set<const ConstantArrayType*> dummy;
    explicit Ex(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = false; PP.Bool = true; PP.SuppressInlineNamespace = true;
    }
    int id(const Decl* d) { d = d->getCanonicalDecl(); auto it = ids.find(d); if (it != ids.end()) return it->second; return ids[d] = ++nid; }
    std::string usr(const Decl* d) { if (isa<FunctionDecl>(d)) d = d->getCanonicalDecl(); llvm::SmallString<256> b; if (index::generateUSRForDecl(d, b)) return std::string("?") + std::to_string(reinterpret_cast<uintptr_t>(d)); return b.str().str(); }
    std::string file(SourceLocation l) {
        if (l.isInvalid()) return "";
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l); std::string p = f.str();
        if (!p.empty() && p[0] != '/') p = gRoot + p;
        return p;
    }
    bool inRepo(const Decl* d) {
        std::string p = file(d->getLocation());
        if (p.rfind(gRoot, 0) != 0) return false;
        return true;
    }
    std::string rel(SourceLocation l) { std::string p = file(l); if (p.rfind(gRoot, 0) == 0) return p.substr(gRoot.size()); return p; }
    int line(SourceLocation l) { return l.isInvalid() ? 0 : (int)SM.getExpansionLineNumber(l); }
    std::string ty(QualType t) { if (t.isNull()) return ""; return t.getCanonicalType().getAsString(PP); }
    std::string qn(const NamedDecl* d) {
        std::string s; llvm::raw_string_ostream o(s); d->printQualifiedName(o, PP); o.flush();
        return s;
    }
    // class name with template args
    std::string cn(const CXXRecordDecl* r) { return ty(C.getTypeDeclType(r)); }
    const CXXRecordDecl* rec(QualType t) { if (t.isNull()) return nullptr; t = t.getCanonicalType(); if (t->isReferenceType() || t->isPointerType()) t = t->getPointeeType(); while (t->isArrayType()) t = t->getAsArrayTypeUnsafe()->getElementType(); return t->getAsCXXRecordDecl(); }
    bool hasDtor(QualType t) { t = t.getCanonicalType(); while (t->isArrayType()) t = t->getAsArrayTypeUnsafe()->getElementType(); if (auto* r = t->getAsCXXRecordDecl()) return r->hasDefinition() && !r->hasTrivialDestructor(); return false; }
    void noteType(QualType t) { if (auto* r = rec(t)) pendC.push_back(r); if (!t.isNull()) { auto c = t.getNonReferenceType().getCanonicalType(); if (auto* e = c->getAs<EnumType>()) pendE.push_back(e->getDecl()); } }
    void T(const char* k, QualType t) { w.kv(k, ty(t)); noteType(t); }

    void fnref(const char* key, const FunctionDecl* f) {
        w.key(key); w.o();
        w.kv("q", qn(f)); w.kv("u", usr(f));
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            w.kv("c", cn(m->getParent())); w.kb("const", m->isConst()); w.kb("static", m->isStatic()); w.kb("virt", m->isVirtual());
            if (m->isTrivial()) w.kb("triv", true);
            if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) { w.kv("kind", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : cd->isDefaultConstructor() ? "defctor" : "ctor"); }
            else if (isa<CXXDestructorDecl>(f)) w.kv("kind", "dtor");
            else if (isa<CXXConversionDecl>(f)) w.kv("kind", "conv");
            else if (m->isCopyAssignmentOperator()) w.kv("kind", "copyassign");
            else if (m->isMoveAssignmentOperator()) w.kv("kind", "moveassign");
            if (m->isLambdaStaticInvoker() ) w.kb("lam", true);
        }
        w.kb("repo", inRepo(f)); w.kb("noret", f->isNoReturn());
        w.kb("impl", f->isImplicit());
        if (f->isDefaulted()) w.kb("def", true);
        if (auto* targs = f->getTemplateSpecializationArgs()) { w.key("ta"); w.ao(); for (auto& a : targs->asArray()) targ(a); w.ac(); }
        w.key("pt"); w.ao(); for (auto* p : f->parameters()) { w.sep(); w.esc(ty(p->getType())); } w.ac();
        w.c();
        if (f->isDefined() || f->getTemplateInstantiationPattern()) pendF.push_back(f);
    }
    void targ(const TemplateArgument& a) {
        switch (a.getKind()) {
            case TemplateArgument::Type: w.sep(); w.esc(ty(a.getAsType())); noteType(a.getAsType()); break;
            case TemplateArgument::Integral: { w.sep(); llvm::SmallString<32> b; a.getAsIntegral().toString(b, 10); w.esc(b); break; }
            case TemplateArgument::Template: w.sep(); w.esc(qn(a.getAsTemplate().getAsTemplateDecl())); break;
            case TemplateArgument::Declaration: w.sep(); w.esc(qn(a.getAsDecl())); break;
            case TemplateArgument::Pack: for (auto& p : a.pack_elements()) targ(p); break;
            default: w.sep(); w.esc("?");
        }
    }
    bool constVal(const Expr* e, std::string& out) {
        if (e->isValueDependent() || e->isTypeDependent()) return false;
        QualType t = e->getType();
        if (t.isNull() || !(t->isIntegralOrEnumerationType())) return false;
        if (e->isLValue()) return false;
        Expr::EvalResult r;
        if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return false;
        llvm::SmallString<32> b; r.Val.getInt().toString(b, 10); out = b.str().str(); return true;
    }
    void E(const Expr* e) {
        if (!e) { w.s += "null"; return; }
        // strip
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<CXXBindTemporaryExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = p->getReplacement(); continue; }
            if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) { e = p->getExpr(); continue; }
            if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = p->getSemanticForm(); continue; }
            if (auto* p = dyn_cast<GenericSelectionExpr>(e)) { e = p->getResultExpr(); continue; }
            if (auto* p = dyn_cast<CXXStdInitializerListExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto* p = dyn_cast<ImplicitCastExpr>(e)) {
                auto k = p->getCastKind();
                if (k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_ArrayToPointerDecay || k == CK_UncheckedDerivedToBase || k == CK_DerivedToBase || k == CK_ConstructorConversion || k == CK_UserDefinedConversion || k == CK_BuiltinFnToFnPtr || k == CK_ToVoid) { e = p->getSubExpr(); continue; }
            }
            break;
        }
        w.o();
        int ln = line(e->getBeginLoc()); w.ki("l", ln);
        std::string cv;
        if (constVal(e, cv)) { w.key("cv"); w.s += cv.size() > 18 ? ("\"" + cv + "\"") : cv; }
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) { w.kv("k", "full"); w.key("e"); E(x->getSubExpr()); }
        else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { w.kv("k", "tmp"); T("t", x->getType()); w.kb("d", hasDtor(x->getType())); w.kb("ext", x->getExtendingDecl() != nullptr); w.key("e"); E(x->getSubExpr()); }
        else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
            w.kv("k", x->getCastKind() == CK_LValueToRValue ? "load" : "icast"); T("t", x->getType());
            if (x->getCastKind() != CK_LValueToRValue) w.kv("ck", x->getCastKindName());
            w.key("e"); E(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            w.kv("k", "cast"); T("t", x->getType()); w.kv("ck", x->getCastKindName()); w.kv("cs", x->getStmtClassName()); w.key("e"); E(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<DeclRefExpr>(e)) declref(x->getDecl(), x);
        else if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (isa<FieldDecl>(d) || isa<IndirectFieldDecl>(d)) {
                w.kv("k", "mem"); w.kv("n", d->getNameAsString()); if (auto* r = dyn_cast<CXXRecordDecl>(d->getDeclContext())) { w.kv("c", cn(r)); pendC.push_back(r); }
                w.kb("arrow", x->isArrow()); T("t", x->getType()); w.key("b"); E(x->getBase());
            } else if (auto* v = dyn_cast<VarDecl>(d)) { declref(v, nullptr); }
            else if (auto* m = dyn_cast<FunctionDecl>(d)) { w.kv("k", "memfn"); fnref("f", m); w.kb("arrow", x->isArrow()); w.key("b"); E(x->getBase()); }
            else if (isa<EnumConstantDecl>(d)) declref(d, nullptr);
            else { w.kv("k", "unk"); w.kv("sc", "MemberExpr"); }
        }
        else if (isa<CXXThisExpr>(e)) { w.kv("k", "this"); T("t", e->getType()); }
        else if (auto* x = dyn_cast<IntegerLiteral>(e)) { w.kv("k", "lit"); T("t", x->getType()); }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { w.kv("k", "lit"); w.kv("t", "bool"); (void)x; }
        else if (auto* x = dyn_cast<CharacterLiteral>(e)) { w.kv("k", "lit"); T("t", x->getType()); }
        else if (auto* x = dyn_cast<FloatingLiteral>(e)) { w.kv("k", "flit"); llvm::SmallString<32> b; x->getValue().toString(b); w.kv("v", b); }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { w.kv("k", "null"); }
        else if (auto* x = dyn_cast<StringLiteral>(e)) { w.kv("k", "str"); if (x->getCharByteWidth() == 1) w.kv("v", x->getString()); }
        else if (auto* x = dyn_cast<PredefinedExpr>(e)) { w.kv("k", "str"); w.kv("v", "__func__"); (void)x; }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e)) ctor(x);
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { w.kv("k", "ctor"); T("t", x->getType()); fnref("f", x->getConstructor()); w.ki("inh", 1); w.key("a"); w.ao(); w.ac(); }
        else if (auto* x = dyn_cast<CallExpr>(e)) call(x);
        else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            w.kv("k", x->isAssignmentOp() ? "asg" : "bin"); w.kv("op", x->getOpcodeStr()); T("t", x->getType());
            if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) { w.kv("ct", ty(ca->getComputationResultType())); }
            w.key("a"); E(x->getLHS()); w.key("b"); E(x->getRHS());
        }
        else if (auto* x = dyn_cast<UnaryOperator>(e)) { w.kv("k", "un"); w.kv("op", UnaryOperator::getOpcodeStr(x->getOpcode())); w.kb("post", x->isPostfix()); T("t", x->getType()); w.key("e"); E(x->getSubExpr()); }
        else if (auto* x = dyn_cast<ConditionalOperator>(e)) { w.kv("k", "cond"); T("t", x->getType()); w.key("c"); E(x->getCond()); w.key("a"); E(x->getTrueExpr()); w.key("b"); E(x->getFalseExpr()); }
        else if (auto* x = dyn_cast<BinaryConditionalOperator>(e)) { w.kv("k", "cond"); T("t", x->getType()); w.key("c"); E(x->getCommon()); w.key("a"); E(x->getCommon()); w.key("b"); E(x->getFalseExpr()); }
        else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { w.kv("k", "opq"); w.key("e"); E(x->getSourceExpr()); }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { w.kv("k", "idx"); T("t", x->getType()); w.key("a"); E(x->getBase()); w.key("b"); E(x->getIdx()); }
        else if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            w.kv("k", "il"); T("t", x->getType());
            if (auto* r = x->getType()->getAsCXXRecordDecl(); r && r->hasDefinition()) { w.key("fn"); w.ao(); for (auto& b : r->bases()) { w.sep(); w.esc(ty(b.getType())); } for (auto* f : r->fields()) { w.sep(); w.esc(f->getNameAsString()); } w.ac(); }
            w.key("a"); w.ao(); for (unsigned i = 0; i < x->getNumInits(); ++i) { w.sep(); E(x->getInit(i)); } w.ac();
        }
        else if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) { w.kv("k", "il"); T("t", x->getType()); w.key("a"); w.ao(); for (auto* i : x->getInitExprs()) { w.sep(); E(i); } w.ac(); }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) { w.kv("k", "sizeof"); w.kv("v", x->getKind() == UETT_SizeOf ? "sizeof" : "alignof"); w.kv("t", ty(x->getTypeOfArgument())); }
        else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            w.kv("k", "new"); T("t", x->getAllocatedType()); w.key("pl"); w.ao(); for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) { w.sep(); E(x->getPlacementArg(i)); } w.ac();
            if (x->isArray() && x->getArraySize()) { w.key("sz"); E(*x->getArraySize()); }
            if (x->getInitializer()) { w.key("e"); E(x->getInitializer()); }
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { w.kv("k", "delete"); T("t", x->getArgument()->getType()); w.key("e"); E(x->getArgument()); }
        else if (auto* x = dyn_cast<LambdaExpr>(e)) lambda(x);
        else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { w.kv("k", "zero"); T("t", e->getType()); }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e)) { w.kv("k", "throw"); if (x->getSubExpr()) { w.key("e"); E(x->getSubExpr()); } }
        else if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { w.kv("k", "pdtor"); w.key("e"); E(x->getBase()); }
        else if (isa<CXXTypeidExpr>(e)) { w.kv("k", "typeid"); }
        else if (auto* x = dyn_cast<AtomicExpr>(e)) { w.kv("k", "atomic"); w.key("a"); w.ao(); for (unsigned i = 0; i < x->getNumSubExprs(); ++i) { w.sep(); E(x->getSubExprs()[i]); } w.ac(); }
        else if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) { w.kv("k", "arrcopy"); w.key("e"); E(x->getCommonExpr()->getSourceExpr()); }
        else {
            w.kv("k", "unk"); w.kv("sc", e->getStmtClassName());
            w.key("ch"); w.ao(); for (auto* c : e->children()) if (auto* ce = dyn_cast_or_null<Expr>(c)) { w.sep(); E(ce); } w.ac();
        }
        w.c();
    }
    void declref(const ValueDecl* d, const DeclRefExpr* x) {
        if (auto* b = dyn_cast<BindingDecl>(d)) {
            if (auto* hv = b->getHoldingVar()) { w.kv("k", "ref"); w.kv("dk", "var"); w.ki("id", id(hv)); w.kv("n", b->getNameAsString()); T("t", b->getType()); w.kb("local", true); return; }
            w.kv("k", "bind"); w.kv("n", b->getNameAsString()); T("t", b->getType()); w.key("e"); E(b->getBinding()); return;
        }
        if (auto* f = dyn_cast<FunctionDecl>(d)) { w.kv("k", "fnref"); fnref("f", f); return; }
        w.kv("k", "ref");
        if (auto* ec = dyn_cast<EnumConstantDecl>(d)) { w.kv("dk", "enum"); w.kv("n", qn(ec)); T("t", ec->getType()); return; }
        if (auto* v = dyn_cast<VarDecl>(d)) {
            bool loc = v->isLocalVarDeclOrParm() && !v->isStaticLocal();
            w.kv("dk", isa<ParmVarDecl>(v) ? "param" : "var"); w.kb("local", loc); T("t", v->getType());
            if (loc) { w.ki("id", id(v)); w.kv("n", v->getNameAsString()); }
            else { w.kv("n", qn(v)); if (v->isStaticLocal()) w.kb("sl", true); if (v->isStaticDataMember()) w.kb("sm", true); w.kb("tls", v->getTLSKind() != VarDecl::TLS_None); if (inRepo(v)) { pendV.push_back(v); w.kb("repo", true);} if (v->getType().isConstQualified() && x) { std::string cv; const VarDecl* iv = nullptr; const Expr* ie = v->getAnyInitializer(iv); if (ie && iv && !iv->getDeclContext()->isDependentContext() && !iv->getType()->isDependentType() && iv->getType()->isIntegralOrEnumerationType() && !ie->isValueDependent()) { auto* val = iv->evaluateValue(); if (val && val->isInt()) { llvm::SmallString<32> b; val->getInt().toString(b, 10); w.key("vv"); w.s += b.size() > 18 ? ("\"" + b.str().str() + "\"") : b.str().str(); } } } }
            return;
        }
        w.kv("dk", "other"); w.kv("n", qn(d));
    }
    void ctor(const CXXConstructExpr* x) {
        w.kv("k", "ctor"); T("t", x->getType()); fnref("f", x->getConstructor()); w.kb("elid", x->isElidable());
        w.kb("zinit", x->requiresZeroInitialization());
        w.key("a"); w.ao(); for (auto* a : x->arguments()) { w.sep(); E(a); } w.ac();
    }
    void call(const CallExpr* x) {
        w.kv("k", "call"); T("t", x->getType()); w.kb("lv", x->isLValue());
        const FunctionDecl* f = x->getDirectCallee();
        unsigned st = 0; const Expr* obj = nullptr; bool arrow = false, virt = false;
        if (auto* mc = dyn_cast<CXXMemberCallExpr>(x)) {
            obj = mc->getImplicitObjectArgument();
            auto* callee = mc->getCallee()->IgnoreParens();
            if (auto* me = dyn_cast<MemberExpr>(callee)) { arrow = me->isArrow(); auto* m = mc->getMethodDecl(); if (m && m->isVirtual() && !me->hasQualifier()) { virt = true; if (auto* dm = m->getDevirtualizedMethod(obj, false)) { f = dm; virt = false; } } }
            else if (auto* bo = dyn_cast<BinaryOperator>(callee)) { w.kb("pm", true); w.key("fe"); E(bo->getRHS()); arrow = bo->getOpcode() == BO_PtrMemI; }
        } else if (isa<CXXOperatorCallExpr>(x) && f && isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic()) { obj = x->getArg(0); st = 1; virt = cast<CXXMethodDecl>(f)->isVirtual(); w.kb("opcall", true); }
        if (isa<CXXOperatorCallExpr>(x)) w.kv("oop", getOperatorSpelling(cast<CXXOperatorCallExpr>(x)->getOperator()));
        if (f) fnref("f", f); else if (!isa<CXXMemberCallExpr>(x)) { w.key("fe"); E(x->getCallee()); }
        w.kb("v", virt); w.kb("arrow", arrow);
        if (obj) { w.key("o"); E(obj); }
        w.key("a"); w.ao(); for (unsigned i = st; i < x->getNumArgs(); ++i) { w.sep(); E(x->getArg(i)); } w.ac();
    }
    void lambda(const LambdaExpr* x) {
        w.kv("k", "lambda"); T("t", x->getType());
        auto* m = x->getCallOperator();
        w.key("cap"); w.ao();
        auto ini = x->capture_init_begin();
        for (auto& c : x->captures()) {
            w.sep(); w.o();
            if (c.capturesThis()) { w.kv("k", c.getCaptureKind() == LCK_StarThis ? "starthis" : "this"); }
            else if (c.capturesVariable()) { w.kv("k", c.getCaptureKind() == LCK_ByRef ? "ref" : "copy"); auto* v = c.getCapturedVar(); w.ki("id", id(v)); w.kv("n", v->getNameAsString()); T("t", v->getType()); }
            w.kb("initcap", c.capturesVariable() && isa<VarDecl>(c.getCapturedVar()) && cast<VarDecl>(c.getCapturedVar())->isInitCapture());
            if (*ini) { w.key("e"); E(*ini); }
            ++ini; w.c();
        }
        w.ac();
        if (x->isGenericLambda()) {
            w.kb("generic", true); w.key("inst"); w.ao();
            if (auto* ft = m->getDescribedFunctionTemplate()) for (auto* s : ft->specializations()) { if (s->getBody()) { w.sep(); w.o(); w.kv("u", usr(s)); lamBody(s); w.c(); } }
            w.ac();
            w.kv("u", usr(m)); w.key("p"); params(m);
        } else { w.kv("u", usr(m)); lamBody(m); }
    }
    void lamBody(const FunctionDecl* m) {
        T("rt", m->getReturnType()); w.kb("noexc", isNoexceptExceptionSpec(m->getExceptionSpecType()));
        w.key("p"); params(m); w.key("body"); S(m->getBody());
    }
    void params(const FunctionDecl* f) { w.ao(); for (auto* p : f->parameters()) { w.sep(); w.o(); w.ki("id", id(p)); w.kv("n", p->getNameAsString()); T("t", p->getType()); w.kb("d", hasDtor(p->getType())); w.c(); } w.ac(); }
    void var(const VarDecl* v) {
        w.o(); w.ki("id", id(v)); w.kv("n", v->getNameAsString()); T("t", v->getType()); w.kb("d", hasDtor(v->getType()) && !v->getType()->isReferenceType()); w.kb("static", v->isStaticLocal()); w.kb("cx", v->isConstexpr()); w.ki("l", line(v->getLocation()));
        if (v->hasInit()) { w.key("init"); E(v->getInit()); if (v->getInit()->getType()->isIntegralOrEnumerationType()) {} }
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) { w.key("bind"); w.ao(); for (auto* b : dd->bindings()) { w.sep(); w.o(); w.kv("n", b->getNameAsString()); if (auto* hv = b->getHoldingVar()) { w.ki("hid", id(hv)); w.key("hinit"); E(hv->getInit()); } w.c(); } w.ac(); }
        w.c();
    }
    void S(const Stmt* s) {
        if (!s) { w.s += "null"; return; }
        if (auto* e = dyn_cast<Expr>(s)) { w.o(); w.kv("k", "expr"); w.ki("l", line(e->getBeginLoc())); w.key("e"); E(e); w.c(); return; }
        if (auto* a = dyn_cast<AttributedStmt>(s)) { S(a->getSubStmt()); return; }
        w.o(); w.ki("l", line(s->getBeginLoc()));
        if (auto* x = dyn_cast<CompoundStmt>(s)) { w.kv("k", "block"); w.ki("le", line(x->getRBracLoc())); w.key("s"); w.ao(); for (auto* c : x->body()) { w.sep(); S(c); } w.ac(); }
        else if (auto* x = dyn_cast<DeclStmt>(s)) { w.kv("k", "decl"); w.key("d"); w.ao(); for (auto* d : x->decls()) if (auto* v = dyn_cast<VarDecl>(d)) { w.sep(); var(v); } w.ac(); }
        else if (auto* x = dyn_cast<IfStmt>(s)) {
            w.kv("k", "if"); if (x->getInit()) { w.key("init"); S(x->getInit()); }
            if (x->getConditionVariable()) { w.key("cvar"); var(x->getConditionVariable()); }
            w.kb("cexpr", x->isConstexpr());
            w.key("c"); E(x->getCond()); w.key("t"); S(x->getThen()); w.key("e"); S(x->getElse());
        }
        else if (auto* x = dyn_cast<WhileStmt>(s)) { w.kv("k", "while"); if (x->getConditionVariable()) { w.key("cvar"); var(x->getConditionVariable()); } w.key("c"); E(x->getCond()); w.key("b"); S(x->getBody()); }
        else if (auto* x = dyn_cast<DoStmt>(s)) { w.kv("k", "do"); w.key("c"); E(x->getCond()); w.key("b"); S(x->getBody()); }
        else if (auto* x = dyn_cast<ForStmt>(s)) { w.kv("k", "for"); w.key("init"); S(x->getInit()); w.key("c"); E(x->getCond()); w.key("inc"); E(x->getInc()); w.key("b"); S(x->getBody()); }
        else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { w.kv("k", "rfor"); if (x->getInit()) { w.key("init"); S(x->getInit()); } w.key("range"); E(x->getRangeInit()); 
            w.key("rv"); S(x->getRangeStmt()); w.key("bs"); S(x->getBeginStmt()); w.key("es"); S(x->getEndStmt()); w.key("c"); E(x->getCond()); w.key("inc"); E(x->getInc());
            w.key("var"); var(x->getLoopVariable()); w.key("b"); S(x->getBody()); }
        else if (auto* x = dyn_cast<SwitchStmt>(s)) { w.kv("k", "switch"); if (x->getInit()) { w.key("init"); S(x->getInit()); } T("t", x->getCond()->IgnoreParenImpCasts()->getType()); w.key("c"); E(x->getCond()); w.key("b"); S(x->getBody()); }
        else if (auto* x = dyn_cast<CaseStmt>(s)) { w.kv("k", "case"); w.key("v"); E(x->getLHS()); w.key("s"); S(x->getSubStmt()); }
        else if (auto* x = dyn_cast<DefaultStmt>(s)) { w.kv("k", "default"); w.key("s"); S(x->getSubStmt()); }
        else if (auto* x = dyn_cast<ReturnStmt>(s)) { w.kv("k", "ret"); if (x->getRetValue()) { w.key("e"); E(x->getRetValue()); } }
        else if (isa<BreakStmt>(s)) w.kv("k", "break");
        else if (isa<ContinueStmt>(s)) w.kv("k", "cont");
        else if (isa<NullStmt>(s)) w.kv("k", "nop");
        else if (auto* x = dyn_cast<CXXTryStmt>(s)) { w.kv("k", "try"); w.key("b"); S(x->getTryBlock()); w.key("h"); w.ao(); for (unsigned i = 0; i < x->getNumHandlers(); ++i) { w.sep(); S(x->getHandler(i)->getHandlerBlock()); } w.ac(); }
        else if (auto* x = dyn_cast<LabelStmt>(s)) { w.kv("k", "label"); w.kv("n", x->getName()); w.key("s"); S(x->getSubStmt()); }
        else if (auto* x = dyn_cast<GotoStmt>(s)) { w.kv("k", "goto"); w.kv("n", x->getLabel()->getName()); }
        else { w.kv("k", "unks"); w.kv("sc", s->getStmtClassName()); }
        w.c();
    }
    bool dependent(const FunctionDecl* f) { return f->isDependentContext() || f->getType()->isDependentType(); }
    void function(const FunctionDecl* f0, W& out) {
        const FunctionDecl* f = nullptr; if (!f0->hasBody(f)) return;
        if (!inRepo(f) || dependent(f)) return;
        if (f->isInvalidDecl()) return;
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
        std::string u = usr(f);
        if (!doneF.insert(u).second) return;
        w.sep(); w.o();
        w.kv("u", u); w.kv("q", qn(f)); w.kv("n", f->getNameAsString()); w.kv("file", rel(f->getLocation())); w.ki("l", line(f->getLocation())); w.ki("le", line(f->getEndLoc()));
        w.kb("noexc", isNoexceptExceptionSpec(f->getExceptionSpecType())); T("rt", f->getReturnType()); w.kb("impl", f->isImplicit()); w.kb("def", f->isDefaulted());
        w.kb("inl", f->isInlined()); w.ki("acc", (int)f->getAccess()); w.kb("nodisc", f->hasAttr<WarnUnusedResultAttr>());
        w.ki("link", (int)f->getLinkageInternal());
        if (auto* pat = f->getTemplateInstantiationPattern()) { w.kv("pat", usr(pat)); }
        if (auto* targs = f->getTemplateSpecializationArgs()) { w.key("ta"); w.ao(); for (auto& a : targs->asArray()) targ(a); w.ac(); }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
            w.kv("c", cn(m->getParent())); pendC.push_back(m->getParent()); w.kb("const", m->isConst()); w.kb("static", m->isStatic()); w.kb("virt", m->isVirtual());
            if (isa<CXXConstructorDecl>(f)) { auto* cd = cast<CXXConstructorDecl>(f); w.kv("kind", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : cd->isDefaultConstructor() ? "defctor" : "ctor"); }
            else if (isa<CXXDestructorDecl>(f)) w.kv("kind", "dtor");
            else if (m->isCopyAssignmentOperator()) w.kv("kind", "copyassign"); else if (m->isMoveAssignmentOperator()) w.kv("kind", "moveassign");
            w.key("ov"); w.ao(); for (auto* o : m->overridden_methods()) { w.sep(); w.esc(usr(o)); } w.ac();
        }
        w.key("p"); params(f);
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            w.key("ini"); w.ao();
            for (auto* i : cd->inits()) {
                w.sep(); w.o(); w.kb("written", i->isWritten()); w.ki("l", line(i->getSourceLocation()));
                if (i->isDelegatingInitializer()) w.kv("k", "deleg"); else if (i->isBaseInitializer()) { w.kv("k", "base"); w.kv("n", ty(QualType(i->getBaseClass(), 0))); }
                else { w.kv("k", "field"); w.kv("n", i->getAnyMember()->getNameAsString()); T("t", i->getAnyMember()->getType()); }
                w.key("e"); E(i->getInit()); w.c();
            }
            w.ac();
        }
        w.key("body"); S(f->getBody());
        w.c();
    }
    void klass(const CXXRecordDecl* r0) {
        auto* r = r0->getDefinition(); if (!r || r->isDependentContext() || r->isInvalidDecl()) return;
        std::string u = usr(r); std::string name = cn(r);
        if (!doneC.insert(name).second) return;
        const CXXRecordDecl* loc = r; if (auto* pt = r->getTemplateInstantiationPattern()) loc = pt;
        bool repo = inRepo(r) || inRepo(loc);
        if (r->isLambda()) return;
        if (!repo && false) return;
        w.sep(); w.o(); w.kv("u", u); w.kv("n", name); w.kv("q", qn(r)); w.kv("file", rel(loc->getLocation())); w.ki("l", line(loc->getLocation())); w.kb("repo", repo);
        w.kb("poly", r->isPolymorphic()); w.kb("abs", r->isAbstract()); w.kb("sl", r->isStandardLayout()); w.kb("tc", r->isTriviallyCopyable()); w.kb("td", r->hasTrivialDestructor()); w.kb("final", r->hasAttr<FinalAttr>()); w.kb("union", r->isUnion());
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) { w.kv("tmpl", qn(sp->getSpecializedTemplate())); w.key("ta"); w.ao(); for (auto& a : sp->getTemplateArgs().asArray()) targ(a); w.ac(); }
        if (!r->isInvalidDecl() && repo) { auto t = C.getTypeDeclType(r); if (!t->isIncompleteType()) { w.ki("size", C.getTypeSizeInChars(t).getQuantity()); w.ki("align", C.getTypeAlignInChars(t).getQuantity()); } }
        w.key("bases"); w.ao(); for (auto& b : r->bases()) { w.sep(); w.o(); T("t", b.getType()); w.ki("acc", (int)b.getAccessSpecifier()); w.kb("virt", b.isVirtual()); w.c(); } w.ac();
        w.key("fields"); w.ao();
        for (auto* f : r->fields()) {
            w.sep(); w.o(); w.kv("n", f->getNameAsString()); T("t", f->getType()); w.ki("acc", (int)f->getAccess()); w.kb("mut", f->isMutable()); w.kb("d", hasDtor(f->getType())); w.ki("l", line(f->getLocation()));
            if (f->isBitField() && !f->getBitWidth()->isValueDependent()) w.ki("bits", f->getBitWidthValue(C));
            if (repo && f->hasInClassInitializer() && f->getInClassInitializer()) { w.key("init"); E(f->getInClassInitializer()); }
            w.c();
        }
        w.ac();
        if (repo) {
            w.key("m"); w.ao();
            for (auto* m : r->methods()) {
                w.sep(); w.o(); w.kv("n", m->getNameAsString()); w.kv("u", usr(m)); w.ki("acc", (int)m->getAccess()); w.kb("del", m->isDeleted()); w.kb("def", m->isDefaulted()); w.kb("virt", m->isVirtual()); w.kb("pure", m->isPureVirtual()); w.kb("const", m->isConst()); w.kb("static", m->isStatic()); w.kb("impl", m->isImplicit()); w.kb("noexc", isNoexceptExceptionSpec(m->getExceptionSpecType())); w.kv("rt", ty(m->getReturnType())); w.kb("nodisc", m->hasAttr<WarnUnusedResultAttr>()); w.kb("expl", isa<CXXConstructorDecl>(m) && cast<CXXConstructorDecl>(m)->isExplicit());
                if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) w.kv("kind", cd->isCopyConstructor() ? "copyctor" : cd->isMoveConstructor() ? "movector" : cd->isDefaultConstructor() ? "defctor" : "ctor");
                else if (isa<CXXDestructorDecl>(m)) w.kv("kind", "dtor"); else if (m->isCopyAssignmentOperator()) w.kv("kind", "copyassign"); else if (m->isMoveAssignmentOperator()) w.kv("kind", "moveassign");
                w.key("pt"); w.ao(); for (auto* p : m->parameters()) { w.sep(); w.esc(ty(p->getType())); } w.ac();
                w.key("ov"); w.ao(); for (auto* o : m->overridden_methods()) { w.sep(); w.esc(usr(o)); } w.ac();
                w.c();
            }
            w.ac();
            w.key("fr"); w.ao(); for (auto* fr : r->friends()) { if (auto* t = fr->getFriendType()) { w.sep(); w.esc(ty(t->getType())); } else if (auto* d = fr->getFriendDecl()) { w.sep(); w.esc(qn(d)); } } w.ac();
        }
        w.kb("cc", r->hasCopyConstructorWithConstParam() || true);
        w.c();
    }
    void enm(const EnumDecl* e0) {
        auto* e = e0->getDefinition(); if (!e || e->isDependentContext()) return; if (!inRepo(e)) { if (qn(e).rfind("score::", 0) != 0) return; } if (!doneE.insert(usr(e)).second) return;
        w.sep(); w.o(); w.kv("n", qn(e)); w.kv("file", rel(e->getLocation())); w.ki("l", line(e->getLocation())); w.kv("ut", ty(e->getIntegerType()));
        w.key("v"); w.o(); for (auto* c : e->enumerators()) { llvm::SmallString<32> b; c->getInitVal().toString(b, 10); w.kv(c->getNameAsString().c_str(), b); } w.c(); w.c();
    }
    void gvar(const VarDecl* v0) {
        const VarDecl* v = v0->getDefinition() ? v0->getDefinition() : v0; if (v->isInitCapture()) return; const VarDecl* iv = nullptr; const Expr* in = v->getAnyInitializer(iv);
        if (!inRepo(v) || v->getDeclContext()->isDependentContext() || v->getType()->isDependentType()) return; if (!doneV.insert(qn(v) + file(v->getLocation())).second) return;
        w.sep(); w.o(); w.kv("n", qn(v)); w.kv("file", rel(v->getLocation())); w.ki("l", line(v->getLocation())); T("t", v->getType()); w.kb("cx", v->isConstexpr()); w.kb("tls", v->getTLSKind() != VarDecl::TLS_None);
        if (in && !in->isValueDependent()) { w.key("init"); E(in); }
        w.c();
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    Ex& x; explicit V(Ex& e) : x(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool skip(Decl* d) { return !x.inRepo(d); }
    bool TraverseDecl(Decl* d) { return RecursiveASTVisitor<V>::TraverseDecl(d); }
    bool VisitFunctionDecl(FunctionDecl* f) { if (!skip(f)) x.pendF.push_back(f); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl* r) { if (!skip(r)) x.pendC.push_back(r); return true; }
    bool VisitEnumDecl(EnumDecl* e) { if (!skip(e)) x.pendE.push_back(e); return true; }
    bool VisitVarDecl(VarDecl* v) { if (!skip(v) && !v->isLocalVarDeclOrParm()) x.pendV.push_back(v); return true; }
};

class Cons : public ASTConsumer {
  public:
    CompilerInstance& CI; explicit Cons(CompilerInstance& c) : CI(c) {}
    void HandleTranslationUnit(ASTContext& C) override {
        Ex x(C); V v(x);
        for (auto* d : C.getTranslationUnitDecl()->decls()) {
            // only descend into top-level decls / namespaces that contain repo code (namespaces may mix)
            if (isa<NamespaceDecl>(d) || isa<LinkageSpecDecl>(d)) { if (auto* n = dyn_cast<NamespaceDecl>(d)) { if (x.file(n->getLocation()).rfind(gRoot, 0) != 0 && !x.SM.isInMainFile(n->getLocation())) continue; } v.TraverseDecl(d); }
            else if (x.inRepo(d)) v.TraverseDecl(d);
        }
        auto& w = x.w; w.o(); w.key("functions"); w.ao();
        for (size_t i = 0; i < x.pendF.size(); ++i) x.function(x.pendF[i], w);
        w.ac(); w.key("vars"); w.ao(); for (size_t i = 0; i < x.pendV.size(); ++i) x.gvar(x.pendV[i]); w.ac();
        w.key("functions2"); w.ao(); for (size_t i = 0; i < x.pendF.size(); ++i) x.function(x.pendF[i], w); w.ac();
        w.key("classes"); w.ao(); for (size_t i = 0; i < x.pendC.size(); ++i) x.klass(x.pendC[i]); w.ac();
        w.key("enums"); w.ao(); for (size_t i = 0; i < x.pendE.size(); ++i) x.enm(x.pendE[i]); w.ac();
        w.ki("errors", CI.getDiagnostics().getClient()->getNumErrors());
        w.key("deps"); w.ao();
        for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it) { w.sep(); w.esc(it->first.getName()); }
        w.ac(); w.c();
        std::ofstream o(gOut, std::ios::binary); o << w.s; o.close();
    }
};
class Act : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override { return std::make_unique<Cons>(CI); }
};
class Fac : public tooling::FrontendActionFactory { public: std::unique_ptr<FrontendAction> create() override { return std::make_unique<Act>(); } };

// usage: extract ROOT OUT FILE -- flags...
int main(int argc, char** argv) {
    if (argc < 4) return 3;
    gRoot = argv[1]; if (gRoot.back() != '/') gRoot += '/'; gOut = argv[2]; std::string f = argv[3];
    std::vector<std::string> flags; for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(gRoot, flags);
    tooling::ClangTool t(db, {f});
    Fac fac; int rc = t.run(&fac);
    return rc ? 1 : 0;
}
