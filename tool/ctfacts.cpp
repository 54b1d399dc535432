// ctfacts: emits the resolved program (typed AST of every function body, class
// records, globals, enums) of one translation unit as JSON lines, for the rule
// engine in /verif/engine. No rule lives here.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/PrettyPrinter.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>
#include <string>
#include <vector>
#include <functional>

using namespace clang;
typedef std::string S;

static S Root = "/repo/";
static bool AllHeaders = false;

static void esc(S& o, llvm::StringRef s)
{
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) {
            char b[8]; snprintf(b, 8, "\\u%04x", c); o += b;
        } else o += (char)c;
    }
    o += '"';
}

struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const ValueDecl*, int> ids;
    int nextId = 1;
    std::map<const FunctionDecl*, S> keyCache;
    S out;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressDefaultTemplateArgs = true;
        PP.PrintCanonicalTypes = true;
        PP.TerseOutput = true;
    }

    // Drops the defaulted template arguments of standard containers from a name.
    S norm(const S& s) {
        if (s.find('<') == S::npos) return s;
        auto it = normCache.find(s);
        if (it != normCache.end()) return it->second;
        S r;
        size_t i = 0;
        while (i < s.size()) {
            if (s[i] == '<' && !r.empty() && (isalnum(r.back()) || r.back() == '_') &&
                !(r.size() >= 8 && r.compare(r.size() - 8, 8, "operator") == 0)) {
                int d = 0, par = 0;
                size_t j = i;
                std::vector<S> parts;
                S cur;
                bool ok = false;
                for (; j < s.size(); j++) {
                    char ch = s[j];
                    if (ch == '(') par++;
                    if (ch == ')') par--;
                    if (ch == '<') { if (d++ == 0) continue; }
                    if (ch == '>' && !(j && s[j-1] == '-')) { if (--d == 0) { ok = true; break; } }
                    if (ch == ',' && d == 1 && par == 0) { parts.push_back(cur); cur.clear(); if (j + 1 < s.size() && s[j+1] == ' ') j++; continue; }
                    cur += ch;
                }
                if (!ok) { r += s.substr(i); break; }
                parts.push_back(cur);
                static const std::map<S, size_t> keep = {
                    {"std::vector", 1}, {"std::deque", 1}, {"std::list", 1}, {"std::set", 1}, {"std::multiset", 1},
                    {"std::unordered_set", 1}, {"std::map", 2}, {"std::multimap", 2}, {"std::unordered_map", 2},
                    {"std::unique_ptr", 1}, {"std::basic_string", 1}, {"std::stack", 1}, {"std::queue", 1},
                    {"std::basic_ostream", 1}, {"std::basic_istream", 1}, {"std::basic_stringstream", 1},
                    {"std::basic_ifstream", 1}, {"std::basic_ofstream", 1}, {"std::basic_ostringstream", 1},
                    {"std::basic_istringstream", 1}};
                for (auto& k : keep) {
                    if (r.size() >= k.first.size() && r.compare(r.size() - k.first.size(), S::npos, k.first) == 0) {
                        if (parts.size() > k.second) parts.resize(k.second);
                        break;
                    }
                }
                r += "<";
                for (size_t q = 0; q < parts.size(); q++) { if (q) r += ", "; r += norm(parts[q]); }
                r += ">";
                i = j + 1;
                continue;
            }
            r += s[i++];
        }
        size_t p = 0;
        static const S bs = "std::basic_string<char>";
        while ((p = r.find(bs, p)) != S::npos) r.replace(p, bs.size(), "std::string");
        normCache[s] = r;
        return r;
    }
    std::map<S, S> normCache;
    S typeStr(QualType t) {
        if (t.isNull()) return "";
        return norm(t.getCanonicalType().getAsString(PP));
    }
    S qname(const NamedDecl* d) {
        S s; llvm::raw_string_ostream os(s);
        d->getNameForDiagnostic(os, PP, true);
        os.flush();
        return norm(s);
    }
    S fkey(const FunctionDecl* f) {
        f = f->getCanonicalDecl();
        auto it = keyCache.find(f);
        if (it != keyCache.end()) return it->second;
        S s;
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m && m->getParent()->isLambda()) {
            s = "lambda@" + loc(m->getParent()->getLocation()) + "::" + f->getNameAsString();
        } else {
            s = qname(f);
        }
        s += "(";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) s += ",";
            first = false;
            s += typeStr(p->getType().getUnqualifiedType().getCanonicalType().getUnqualifiedType());
        }
        if (f->isVariadic()) s += first ? "..." : ",...";
        s += ")";
        if (m && m->isConst()) s += " const";
        if (m && m->getRefQualifier() == RQ_RValue) s += " &&";
        if (f->getFormalLinkage() == Linkage::Internal && !(m)) {
            // file-static functions are distinguished by file
            s += "@" + fileOf(f->getLocation());
        }
        keyCache[f] = s;
        return s;
    }
    S fileOf(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto n = SM.getFilename(l).str();
        if (n.compare(0, Root.size(), Root) == 0) n = n.substr(Root.size());
        return n;
    }
    bool inRoot(SourceLocation l) {
        if (l.isInvalid()) return false;
        l = SM.getExpansionLoc(l);
        auto n = SM.getFilename(l).str();
        return n.compare(0, Root.size(), Root) == 0;
    }
    int line(SourceLocation l) {
        if (l.isInvalid()) return 0;
        return SM.getExpansionLineNumber(l);
    }
    S loc(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        return fileOf(l) + ":" + std::to_string(SM.getExpansionLineNumber(l)) + ":" +
               std::to_string(SM.getExpansionColumnNumber(l));
    }
    int vid(const ValueDecl* d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto& i = ids[d];
        if (!i) i = nextId++;
        return i;
    }

    void str(llvm::StringRef s) { esc(out, s); }
    void open(const char* k, int ln) { out += "[\""; out += k; out += "\","; out += std::to_string(ln); }
    void close() { out += "]"; }
    void c() { out += ","; }

    const Expr* strip(const Expr* e) {
        for (;;) {
            if (!e) return e;
            if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                if (x->getCastKind() == CK_FloatingToIntegral) return e;
                e = x->getSubExpr();
            }
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<FullExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXFunctionalCastExpr>(e)) {
                if (x->getCastKind() == CK_ConstructorConversion || x->getCastKind() == CK_NoOp) e = x->getSubExpr();
                else return e;
            }
            else if (auto* x = dyn_cast<UnaryOperator>(e)) {
                if (x->getOpcode() == UO_Extension) e = x->getSubExpr(); else return e;
            }
            else return e;
        }
    }

    void args(llvm::iterator_range<CallExpr::const_arg_iterator> r) {
        out += "[";
        bool first = true;
        for (auto* a : r) {
            if (isa<CXXDefaultArgExpr>(a) && a->getType().getCanonicalType().getAsString().find("std::allocator") != S::npos) continue;
            if (!first) c();
            first = false;
            expr(a);
        }
        out += "]";
    }

    void vardecl(const VarDecl* v) {
        // [id, name, type, init, static, line]
        out += "[" + std::to_string(vid(v)) + ",";
        str(v->getNameAsString()); c();
        str(typeStr(v->getType())); c();
        if (v->getInit()) expr(v->getInit()); else out += "null";
        out += v->isStaticLocal() ? ",1" : ",0";
        out += "," + std::to_string(line(v->getLocation()));
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            out += ",[";
            bool first = true;
            for (auto* b : dd->bindings()) {
                if (!first) c(); first = false;
                out += "[" + std::to_string(vid(b)) + ","; str(b->getNameAsString()); out += "]";
            }
            out += "]";
        }
        out += "]";
    }

    void stmt(const Stmt* s) {
        if (!s) { out += "null"; return; }
        int ln = line(s->getBeginLoc());
        if (auto* e = dyn_cast<Expr>(s)) { expr(e); return; }
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            open("{", ln);
            for (auto* y : x->body()) { c(); stmt(y); }
            close(); return;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            open("decl", ln);
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) { c(); vardecl(v); }
            }
            close(); return;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            open("if", ln); c();
            if (x->getInit()) stmt(x->getInit());
            else if (x->getConditionVariableDeclStmt()) stmt(x->getConditionVariableDeclStmt());
            else out += "null";
            c(); expr(x->getCond()); c(); stmt(x->getThen()); c(); stmt(x->getElse());
            if (x->isConstexpr()) out += ",1";
            close(); return;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            open("for", ln); c(); stmt(x->getInit()); c();
            if (x->getCond()) expr(x->getCond()); else out += "null";
            c(); if (x->getInc()) expr(x->getInc()); else out += "null";
            c(); stmt(x->getBody()); close(); return;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            open("rfor", ln); c(); vardecl2(x->getLoopVariable()); c(); expr(x->getRangeInit()); c();
            stmt(x->getBody()); close(); return;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            open("while", ln); c();
            if (x->getConditionVariableDeclStmt()) stmt(x->getConditionVariableDeclStmt()); else out += "null";
            c(); expr(x->getCond()); c(); stmt(x->getBody()); close(); return;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            open("do", ln); c(); stmt(x->getBody()); c(); expr(x->getCond()); close(); return;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            open("switch", ln); c();
            if (x->getInit()) stmt(x->getInit());
            else if (x->getConditionVariableDeclStmt()) stmt(x->getConditionVariableDeclStmt()); else out += "null";
            c(); expr(x->getCond()); c(); stmt(x->getBody());
            c(); out += x->isAllEnumCasesCovered() ? "1" : "0";
            close(); return;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            open("case", ln); c(); expr(x->getLHS()); c(); stmt(x->getSubStmt());
            c();
            Expr::EvalResult r;
            if (!x->getLHS()->isValueDependent() && x->getLHS()->EvaluateAsInt(r, C)) {
                llvm::SmallString<32> b; r.Val.getInt().toString(b, 10); out += b.str();
            } else out += "null";
            close(); return;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) {
            open("default", ln); c(); stmt(x->getSubStmt()); close(); return;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) {
            open("ret", ln); c(); if (x->getRetValue()) expr(x->getRetValue()); else out += "null";
            close(); return;
        }
        if (isa<BreakStmt>(s)) { open("break", ln); close(); return; }
        if (isa<ContinueStmt>(s)) { open("cont", ln); close(); return; }
        if (isa<NullStmt>(s)) { open("nop", ln); close(); return; }
        if (isa<GotoStmt>(s)) { open("goto", ln); close(); return; }
        if (auto* x = dyn_cast<LabelStmt>(s)) { open("label", ln); c(); stmt(x->getSubStmt()); close(); return; }
        if (auto* x = dyn_cast<AttributedStmt>(s)) { stmt(x->getSubStmt()); return; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            open("try", ln); c(); stmt(x->getTryBlock()); c(); out += "[";
            for (unsigned i = 0; i < x->getNumHandlers(); i++) {
                if (i) c();
                auto* h = x->getHandler(i);
                out += "[";
                if (h->getCaughtType().isNull()) out += "null"; else str(typeStr(h->getCaughtType()));
                c();
                if (h->getExceptionDecl()) out += std::to_string(vid(h->getExceptionDecl())); else out += "null";
                c(); stmt(h->getHandlerBlock());
                out += "," + std::to_string(line(h->getBeginLoc()));
                out += "]";
            }
            out += "]"; close(); return;
        }
        open("?s", ln); c(); str(s->getStmtClassName());
        for (auto* y : s->children()) { c(); stmt(y); }
        close();
    }
    void vardecl2(const VarDecl* v) { // loop variable without initializer
        out += "[" + std::to_string(vid(v)) + ",";
        str(v->getNameAsString()); c();
        str(typeStr(v->getType()));
        out += ",null,0," + std::to_string(line(v->getLocation()));
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            out += ",[";
            bool first = true;
            for (auto* b : dd->bindings()) {
                if (!first) c(); first = false;
                out += "[" + std::to_string(vid(b)) + ","; str(b->getNameAsString()); out += "]";
            }
            out += "]";
        }
        out += "]";
    }

    void declref(const ValueDecl* d, int ln) {
        if (auto* f = dyn_cast<FunctionDecl>(d)) {
            open("f", ln); c(); str(fkey(f)); close(); return;
        }
        if (auto* e = dyn_cast<EnumConstantDecl>(d)) {
            open("enum", ln); c(); str(qname(e)); c();
            llvm::SmallString<32> b; e->getInitVal().toString(b, 10); out += b.str();
            close(); return;
        }
        if (auto* v = dyn_cast<VarDecl>(d)) {
            if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
                open("v", ln); c(); out += std::to_string(vid(v)); c(); str(v->getNameAsString()); close(); return;
            }
            if (v->isStaticLocal()) {
                open("v", ln); c(); out += std::to_string(vid(v)); c(); str(v->getNameAsString()); out += ",1"; close(); return;
            }
            open("g", ln); c(); str(qname(v)); c(); str(typeStr(v->getType())); close(); return;
        }
        if (auto* b = dyn_cast<BindingDecl>(d)) {
            open("v", ln); c(); out += std::to_string(vid(b)); c(); str(b->getNameAsString()); close(); return;
        }
        if (auto* fd = dyn_cast<FieldDecl>(d)) {
            open("fref", ln); c(); str(qname(fd)); close(); return;
        }
        open("?", ln); c(); str(d->getDeclKindName()); close();
    }

    void expr(const Expr* e0) {
        const Expr* e = strip(e0);
        if (!e) { out += "null"; return; }
        int ln = line(e->getExprLoc());
        if (auto* x = dyn_cast<DeclRefExpr>(e)) { declref(x->getDecl(), ln); return; }
        if (isa<CXXThisExpr>(e)) { open("this", ln); close(); return; }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(d)) {
                open("m", ln); c(); expr(x->getBase()); c(); str(qname(f)); close(); return;
            }
            if (auto* f = dyn_cast<FunctionDecl>(d)) {
                open("mf", ln); c(); str(fkey(f)); c(); expr(x->getBase()); close(); return;
            }
            declref(d, ln); return;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            open("op", ln); c(); str(getOperatorSpelling(x->getOperator())); c();
            if (auto* f = x->getDirectCallee()) str(fkey(f)); else str("?");
            c(); args(x->arguments()); close(); return;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            if (auto* m = x->getMethodDecl()) {
                open("mcall", ln); c(); str(fkey(m)); c(); expr(x->getImplicitObjectArgument()); c();
                args(x->arguments()); c();
                bool virt = m->isVirtual();
                if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    if (me->hasQualifier()) virt = false;
                }
                out += virt ? "1" : "0"; c();
                QualType ot = x->getImplicitObjectArgument()->getType();
                if (ot->isPointerType()) ot = ot->getPointeeType();
                str(typeStr(ot.getUnqualifiedType()));
                close(); return;
            }
            open("icall", ln); c(); expr(x->getCallee()); c(); args(x->arguments()); close(); return;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            if (auto* f = x->getDirectCallee()) {
                open("call", ln); c(); str(fkey(f)); c(); args(x->arguments()); close(); return;
            }
            open("icall", ln); c(); expr(x->getCallee()); c(); args(x->arguments()); close(); return;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            open("ctor", ln); c(); str(typeStr(x->getType())); c(); str(fkey(x->getConstructor())); c();
            args(x->arguments()); close(); return;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            open("ctor", ln); c(); str(typeStr(x->getType())); c(); str(fkey(x->getConstructor())); out += ",[]"; close(); return;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            open("new", ln); c(); str(typeStr(x->getAllocatedType())); c();
            if (x->getInitializer()) expr(x->getInitializer()); else out += "null";
            c();
            if (x->isArray() && x->getArraySize()) expr(*x->getArraySize()); else out += "null";
            close(); return;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            open("delete", ln); c(); expr(x->getArgument()); out += x->isArrayForm() ? ",1" : ",0"; close(); return;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            open("throw", ln); c(); if (x->getSubExpr()) expr(x->getSubExpr()); else out += "null";
            if (x->getSubExpr()) { c(); str(typeStr(x->getSubExpr()->getType())); }
            close(); return;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            open("un", ln); c();
            S o = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) o = "post" + o;
            str(o); c(); expr(x->getSubExpr()); close(); return;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            open(x->isAssignmentOp() ? "asg" : "bin", ln); c(); str(x->getOpcodeStr()); c();
            expr(x->getLHS()); c(); expr(x->getRHS()); close(); return;
        }
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { expr(x->getSemanticForm()); return; }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            open("idx", ln); c(); expr(x->getBase()); c(); expr(x->getIdx()); close(); return;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) {
            open("cond", ln); c(); expr(x->getCond()); c(); expr(x->getTrueExpr()); c(); expr(x->getFalseExpr()); close(); return;
        }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { expr(x->getSourceExpr()); return; }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            open("cast", ln); c(); str(x->getStmtClassName()); c(); str(typeStr(x->getType())); c();
            expr(x->getSubExpr()); c(); str(typeStr(x->getSubExpr()->getType())); close(); return;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            open("lit", ln); c(); str("i"); c();
            llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
            out += b.str(); close(); return;
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            open("lit", ln); c(); str("d"); c();
            char b[64]; snprintf(b, 64, "%.17g", x->getValue().convertToDouble());
            str(b); close(); return;
        }
        if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            open("lit", ln); c(); str("s"); c(); if (x->getCharByteWidth()==1) str(x->getString()); else str("<wide>"); close(); return;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            open("lit", ln); c(); str("c"); c(); out += std::to_string(x->getValue()); close(); return;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            open("lit", ln); c(); str("b"); out += x->getValue() ? ",1" : ",0"; close(); return;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { open("lit", ln); out += ",\"n\",0"; close(); return; }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            const InitListExpr* y = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            open("init", ln); c(); str(typeStr(y->getType())); out += ",[";
            for (unsigned i = 0; i < y->getNumInits(); i++) { if (i) c(); expr(y->getInit(i)); }
            out += "]"; close(); return;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            // ["lambda", line, key, captures, params, body]
            open("lambda", ln); c(); str(fkey(x->getCallOperator())); out += ",[";
            bool first = true;
            auto init = x->capture_init_begin();
            for (auto& cp : x->captures()) {
                if (!first) c(); first = false;
                if (cp.capturesVariable()) {
                    out += "[" + std::to_string(vid(cp.getCapturedVar())) + ",";
                    str(cp.getCapturedVar()->getNameAsString());
                    out += cp.getCaptureKind() == LCK_ByRef ? ",1" : ",0";
                    out += "]";
                } else out += "[0,\"this\",1]";
                ++init;
            }
            out += "],[";
            first = true;
            for (auto* p : x->getCallOperator()->parameters()) {
                if (!first) c(); first = false;
                out += "[" + std::to_string(vid(p)) + ","; str(p->getNameAsString()); c(); str(typeStr(p->getType())); out += "]";
            }
            out += "],";
            stmt(x->getBody());
            close(); return;
        }
        if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
            open("dm", ln); c(); str(x->getMember().getAsString()); c();
            if (!x->isImplicitAccess()) expr(x->getBase()); else out += "[\"this\",0]";
            close(); return;
        }
        if (auto* x = dyn_cast<UnresolvedMemberExpr>(e)) {
            open("dm", ln); c(); str(x->getMemberName().getAsString()); c();
            if (!x->isImplicitAccess()) expr(x->getBase()); else out += "[\"this\",0]";
            close(); return;
        }
        if (auto* x = dyn_cast<OverloadExpr>(e)) {
            open("df", ln); c(); str(x->getName().getAsString()); close(); return;
        }
        if (auto* x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
            open("ctor", ln); c(); str(typeStr(x->getTypeAsWritten())); c(); str("?"); out += ",[";
            for (unsigned i = 0; i < x->getNumArgs(); i++) { if (i) c(); expr(x->getArg(i)); }
            out += "]"; close(); return;
        }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
            open("typeid", ln); c();
            if (x->isTypeOperand()) str(typeStr(x->getTypeOperand(C))); else { str(""); c(); expr(x->getExprOperand()); }
            close(); return;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            open("sizeof", ln); c(); str(typeStr(x->getTypeOfArgument())); close(); return;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            open("ctor", ln); c(); str(typeStr(x->getType())); c(); str("scalar"); out += ",[]"; close(); return;
        }
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) {
            open("ctor", ln); c(); str(typeStr(x->getType())); c(); str("scalar"); out += ",[]"; close(); return;
        }
        open("?", ln); c(); str(e->getStmtClassName());
        for (auto* y : e->children()) { c(); if (y) stmt(y); else out += "null"; }
        close();
    }
};

struct V : RecursiveASTVisitor<V> {
    ASTContext& C;
    Dumper D;
    S result;
    std::set<S> done;
    V(ASTContext& c) : C(c), D(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    bool wanted(SourceLocation l, bool instantiation) {
        if (!D.inRoot(l)) return false;
        if (AllHeaders || instantiation) return true;
        return C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(l));
    }

    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!f->isThisDeclarationADefinition() && !f->isExplicitlyDefaulted() && !f->isDeleted()) {
            // plain declarations outside classes: extern "C" prototypes and friends
            if (!isa<CXXMethodDecl>(f) && wanted(f->getLocation(), false)) fn(f, true);
            return true;
        }
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return true;
        bool inst = f->isTemplateInstantiation();
        if (!inst) if (auto* m = dyn_cast<CXXMethodDecl>(f))
            inst = m->getParent()->getTemplateInstantiationPattern() != nullptr;
        if (!wanted(f->getLocation(), inst)) return true;
        fn(f, false);
        return true;
    }
    void fn(FunctionDecl* f, bool declOnly) {
        D.ids.clear(); D.nextId = 1;
        D.out.clear();
        S& o = D.out;
        S key = D.fkey(f);
        if (declOnly) key = "decl:" + key;
        if (!done.insert(key).second) return;
        o += "{\"t\":\"fn\",\"key\":"; esc(o, D.fkey(f));
        if (declOnly) o += ",\"decl\":1";
        o += ",\"q\":"; esc(o, D.qname(f));
        o += ",\"name\":"; esc(o, f->getNameAsString());
        auto* m = dyn_cast<CXXMethodDecl>(f);
        if (m) { o += ",\"cls\":"; esc(o, D.qname(m->getParent())); }
        o += ",\"file\":"; esc(o, D.fileOf(f->getLocation()));
        o += ",\"line\":" + std::to_string(D.line(f->getLocation()));
        o += ",\"end\":" + std::to_string(D.line(f->getEndLoc()));
        o += ",\"ret\":"; esc(o, D.typeStr(f->getReturnType()));
        const char* kind = "func";
        if (isa<CXXConstructorDecl>(f)) kind = "ctor";
        else if (isa<CXXDestructorDecl>(f)) kind = "dtor";
        else if (isa<CXXConversionDecl>(f)) kind = "conv";
        else if (m) kind = "method";
        o += ",\"kind\":\""; o += kind; o += "\"";
        if (f->isExternC()) o += ",\"extc\":1";
        if (f->isVariadic()) o += ",\"variadic\":1";
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
            if (cd->isCopyConstructor()) o += ",\"copyctor\":1";
            if (cd->isMoveConstructor()) o += ",\"movector\":1";
            if (cd->isDefaultConstructor()) o += ",\"defctor\":1";
        }
        if (m) {
            if (m->isCopyAssignmentOperator()) o += ",\"copyasg\":1";
            if (m->isMoveAssignmentOperator()) o += ",\"moveasg\":1";
            if (m->isVirtual()) o += ",\"virt\":1";
            if (m->isPureVirtual()) o += ",\"pure\":1";
            if (m->isConst()) o += ",\"const\":1";
            if (m->isStatic()) o += ",\"static\":1";
            switch (f->getAccess()) { case AS_public: o += ",\"acc\":\"pub\""; break; case AS_protected: o += ",\"acc\":\"prot\""; break; default: o += ",\"acc\":\"priv\""; }
            if (m->size_overridden_methods()) {
                o += ",\"over\":[";
                bool first = true;
                for (auto* b : m->overridden_methods()) { if (!first) o += ","; first = false; esc(o, D.fkey(b)); }
                o += "]";
            }
        }
        if (!m && f->getFormalLinkage() == Linkage::Internal) o += ",\"static\":1";
        auto est = f->getExceptionSpecType();
        if (isNoexceptExceptionSpec(est) && est != EST_DependentNoexcept && est != EST_NoexceptFalse && est != EST_Uninstantiated && est != EST_Unevaluated) o += ",\"noexc\":1";
        if (f->isDeleted()) o += ",\"deleted\":1";
        if (f->isDefaulted()) o += ",\"defaulted\":1";
        if (f->isInlined()) o += ",\"inline\":1";
        if (f->isTemplateInstantiation()) o += ",\"inst\":1";
        if (f->isDependentContext()) o += ",\"dep\":1";
        o += ",\"params\":[";
        bool first = true;
        for (auto* p : f->parameters()) {
            if (!first) o += ","; first = false;
            o += "[" + std::to_string(D.vid(p)) + ","; esc(o, p->getNameAsString()); o += ","; esc(o, D.typeStr(p->getType()));
            o += p->hasDefaultArg() ? ",1]" : ",0]";
        }
        o += "]";
        o += "}\t";
        // body part
        if (!declOnly && f->doesThisDeclarationHaveABody() && f->getBody()) {
            o += "{\"body\":";
            D.stmt(f->getBody());
            if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
                o += ",\"inits\":[";
                bool first = true;
                for (auto* in : cd->inits()) {
                    if (!first) o += ","; first = false;
                    o += "[";
                    if (in->isAnyMemberInitializer()) { o += "\"f\","; esc(o, D.qname(in->getAnyMember())); }
                    else if (in->isDelegatingInitializer()) { o += "\"d\",\"\""; }
                    else { o += "\"b\","; esc(o, D.typeStr(QualType(in->getBaseClass(), 0))); }
                    o += in->isWritten() ? ",1," : ",0,";
                    if (in->getInit()) D.expr(in->getInit()); else o += "null";
                    o += "]";
                }
                o += "]";
            }
            o += "}";
        } else o += "null";
        o += "\n";
        result += o;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isLambda()) return true;
        bool inst = isa<ClassTemplateSpecializationDecl>(r);
        if (!wanted(r->getLocation(), inst)) return true;
        S& o = D.out; o.clear();
        S qn = D.qname(r);
        if (!done.insert("class:" + qn).second) return true;
        o += "{\"t\":\"cls\",\"name\":"; esc(o, qn);
        o += ",\"file\":"; esc(o, D.fileOf(r->getLocation()));
        o += ",\"line\":" + std::to_string(D.line(r->getLocation()));
        if (r->isDependentContext()) o += ",\"dep\":1";
        if (inst) o += ",\"inst\":1";
        o += ",\"bases\":[";
        bool first = true;
        for (auto& b : r->bases()) { if (!first) o += ","; first = false; esc(o, D.typeStr(b.getType())); }
        o += "]";
        if (!r->isDependentContext()) {
            if (r->isPolymorphic()) o += ",\"poly\":1";
            if (r->isAbstract()) o += ",\"abs\":1";
            if (r->hasUserDeclaredConstructor()) o += ",\"userctor\":1";
            if (r->needsImplicitDefaultConstructor()) o += ",\"impldefctor\":1";
            if (r->needsImplicitCopyConstructor() ) o += ",\"implcopy\":1";
            if (r->defaultedCopyConstructorIsDeleted()) o += ",\"copydeleted\":1";
            if (r->isAggregate()) o += ",\"agg\":1";
            if (auto* d = r->getDestructor()) { if (d->isVirtual()) o += ",\"vdtor\":1"; }
            if (r->isUnion()) o += ",\"union\":1";
        }
        o += ",\"fields\":[";
        first = true;
        for (auto* f : r->fields()) {
            if (!first) o += ","; first = false;
            o += "{\"n\":"; esc(o, f->getNameAsString());
            o += ",\"t\":"; esc(o, D.typeStr(f->getType()));
            o += ",\"l\":" + std::to_string(D.line(f->getLocation()));
            if (f->isMutable()) o += ",\"mut\":1";
            if (f->hasInClassInitializer()) {
                o += ",\"init\":";
                D.ids.clear();
                if (f->getInClassInitializer()) D.expr(f->getInClassInitializer()); else o += "1";
            }
            switch (f->getAccess()) { case AS_public: o += ",\"acc\":\"pub\""; break; case AS_protected: o += ",\"acc\":\"prot\""; break; default: o += ",\"acc\":\"priv\""; }
            o += "}";
        }
        o += "],\"methods\":[";
        first = true;
        for (auto* m : r->methods()) {
            if (m->isImplicit()) continue;
            if (!first) o += ","; first = false;
            o += "{\"k\":"; esc(o, D.fkey(m));
            o += ",\"n\":"; esc(o, m->getNameAsString());
            o += ",\"l\":" + std::to_string(D.line(m->getLocation()));
            o += ",\"r\":"; esc(o, D.typeStr(m->getReturnType()));
            if (m->isVirtual()) o += ",\"virt\":1";
            if (m->isPureVirtual()) o += ",\"pure\":1";
            if (m->isConst()) o += ",\"const\":1";
            if (m->isStatic()) o += ",\"static\":1";
            if (m->isDeleted()) o += ",\"del\":1";
            if (m->isDefaulted()) o += ",\"dflt\":1";
            if (m->isCopyAssignmentOperator()) o += ",\"copyasg\":1";
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) {
                o += ",\"ctor\":1";
                if (cd->isCopyConstructor()) o += ",\"copyctor\":1";
            }
            switch (m->getAccess()) { case AS_public: o += ",\"acc\":\"pub\""; break; case AS_protected: o += ",\"acc\":\"prot\""; break; default: o += ",\"acc\":\"priv\""; }
            if (m->size_overridden_methods()) {
                o += ",\"over\":[";
                bool f2 = true;
                for (auto* b : m->overridden_methods()) { if (!f2) o += ","; f2 = false; esc(o, D.fkey(b)); }
                o += "]";
            }
            o += "}";
        }
        o += "],\"svars\":[";
        first = true;
        for (auto* d : r->decls()) if (auto* v = dyn_cast<VarDecl>(d)) {
            if (!first) o += ","; first = false;
            o += "["; esc(o, D.qname(v)); o += ","; esc(o, D.typeStr(v->getType())); o += "]";
        }
        o += "]}\tnull\n";
        result += o;
        return true;
    }

    bool VisitVarDecl(VarDecl* v) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return true;
        if (v->isStaticLocal()) {
            // function-local statics are reported as globals too (thread-safety rules)
        }
        if (!wanted(v->getLocation(), false)) return true;
        if (v->getType()->isDependentType()) return true;
        if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
        S& o = D.out; o.clear();
        S qn = D.qname(v);
        S id = "var:" + qn + D.loc(v->getLocation());
        if (!done.insert(id).second) return true;
        o += "{\"t\":\"var\",\"name\":"; esc(o, qn);
        o += ",\"type\":"; esc(o, D.typeStr(v->getType()));
        o += ",\"file\":"; esc(o, D.fileOf(v->getLocation()));
        o += ",\"line\":" + std::to_string(D.line(v->getLocation()));
        if (v->isStaticLocal()) o += ",\"slocal\":1";
        if (v->getTSCSpec() != TSCS_unspecified) o += ",\"tls\":1";
        o += "}\t";
        D.ids.clear();
        if (v->getInit() && !v->getInit()->isValueDependent()) D.expr(v->getInit()); else o += "null";
        o += "\n";
        result += o;
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !wanted(e->getLocation(), false)) return true;
        S& o = D.out; o.clear();
        S qn = D.qname(e);
        if (!done.insert("enum:" + qn + D.loc(e->getLocation())).second) return true;
        o += "{\"t\":\"enum\",\"name\":"; esc(o, qn);
        o += ",\"file\":"; esc(o, D.fileOf(e->getLocation()));
        o += ",\"line\":" + std::to_string(D.line(e->getLocation()));
        o += ",\"vals\":[";
        bool first = true;
        for (auto* x : e->enumerators()) {
            if (!first) o += ","; first = false;
            o += "["; esc(o, x->getNameAsString()); o += ",";
            llvm::SmallString<32> b; x->getInitVal().toString(b, 10); o += b.str(); o += "]";
        }
        o += "]}\tnull\n";
        result += o;
        return true;
    }
};

static S OutPath;
struct Cons : ASTConsumer {
    CompilerInstance& CI;
    Cons(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& C) override {
        V v(C);
        v.TraverseDecl(C.getTranslationUnitDecl());
        // dependencies (files under Root)
        S deps = "{\"t\":\"deps\",\"files\":[";
        auto& SM = C.getSourceManager();
        std::set<S> fs;
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
            S n = it->first.getName().str();
            if (n.compare(0, Root.size(), Root) == 0) fs.insert(n.substr(Root.size()));
        }
        bool first = true;
        for (auto& n : fs) { if (!first) deps += ","; first = false; esc(deps, n); }
        deps += "],\"errors\":" + std::to_string(CI.getDiagnostics().getClient()->getNumErrors()) + "}\tnull\n";
        std::error_code ec;
        llvm::raw_fd_ostream os(OutPath, ec);
        os << v.result << deps;
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override {
        return std::make_unique<Cons>(CI);
    }
};

// ctfacts ROOT OUT SRC [--all-headers] -- FLAGS...
int main(int argc, const char** argv)
{
    if (argc < 4) { llvm::errs() << "usage\n"; return 2; }
    Root = argv[1];
    if (Root.back() != '/') Root += '/';
    OutPath = argv[2];
    S src = argv[3];
    std::vector<S> flags;
    int i = 4;
    for (; i < argc; i++) {
        S a = argv[i];
        if (a == "--") { i++; break; }
        if (a == "--all-headers") AllHeaders = true;
    }
    for (; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(Root, flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
