// Dumps the resolved program (clang AST + CFG) of each translation unit as
// compact JSON, for the rule engine in /verif/checks.
//
// usage: extract -p BUILD_DIR -o OUT.json -r REPO -b BUILD file.c -- flags...
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtVisitor.h>
#include <clang/Analysis/CFG.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Lex/Lexer.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace J = llvm::json;

static std::string gRepo, gBuild, gOut;

struct Strings {
    std::map<std::string, int> m;
    std::vector<std::string> v;
    int operator()(const std::string &s) {
        auto it = m.find(s);
        if (it != m.end()) return it->second;
        int i = (int)v.size();
        m[s] = i; v.push_back(s);
        return i;
    }
};

class Dumper {
    ASTContext &C;
    SourceManager &SM;
    Strings S;
    J::Array funcs, globals, records, enums, externs;
    std::set<std::string> seenExtern;

public:
    Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

    std::string relfile(SourceLocation l) {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l).str();
        llvm::SmallString<256> p(f);
        SM.getFileManager().makeAbsolutePath(p);
        llvm::sys::path::remove_dots(p, true);
        std::string s = p.str().str();
        if (s.rfind(gBuild + "/", 0) == 0) return "build:" + s.substr(gBuild.size() + 1);
        if (s.rfind(gRepo + "/", 0) == 0) return s.substr(gRepo.size() + 1);
        return "";
    }
    // generated sources carry #line directives; report the presumed location
    unsigned line(SourceLocation l) {
        return SM.getExpansionLineNumber(l);
    }
    int macro(SourceLocation l) {
        // outermost macro name
        if (!l.isMacroID()) return -1;
        SourceLocation cur = l;
        while (cur.isMacroID()) {
            SourceLocation next;
            if (SM.isMacroArgExpansion(cur)) next = SM.getImmediateExpansionRange(cur).getBegin();
            else next = SM.getImmediateExpansionRange(cur).getBegin();
            if (!next.isMacroID()) {
                return S(Lexer::getImmediateMacroName(cur, SM, C.getLangOpts()).str());
            }
            cur = next;
        }
        return -1;
    }
    // innermost macro whose *body* spelled this token (args are not the macro's)
    int macroIn(SourceLocation l) {
        while (l.isMacroID() && SM.isMacroArgExpansion(l))
            l = SM.getImmediateSpellingLoc(l);
        if (!l.isMacroID()) return -1;
        return S(Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str());
    }
    std::string typestr(QualType t) {
        if (t.isNull()) return "";
        return t.getUnqualifiedType().getAsString();
    }
    std::string recname(const RecordDecl *r) {
        if (!r) return "";
        if (r->getIdentifier()) return r->getName().str();
        if (auto *td = r->getTypedefNameForAnonDecl()) return td->getName().str();
        // anonymous nested record: named by the parent's field of that type
        std::string p;
        if (auto *pr = dyn_cast<RecordDecl>(r->getDeclContext())) {
            p = recname(pr);
            for (auto *fd : pr->fields()) {
                QualType t = fd->getType();
                while (true) {
                    if (t->isPointerType()) t = t->getPointeeType();
                    else if (auto *at = t->getAsArrayTypeUnsafe()) t = at->getElementType();
                    else break;
                }
                if (auto *rt = t->getAs<RecordType>())
                    if (rt->getDecl()->getCanonicalDecl() == r->getCanonicalDecl() && fd->getIdentifier())
                        return p + "::" + fd->getName().str();
            }
        }
        return p + "::anon" ;
    }
    std::string fid(const FunctionDecl *f) {
        std::string n = f->getNameAsString();
        if (f->getFormalLinkage() == Linkage::External && n != "main" && !f->isInlineSpecified()) return n;
        const FunctionDecl *d = f;
        if (auto *def = f->getDefinition()) d = def;
        std::string rf = relfile(d->getLocation());
        if (rf.empty()) return n;
        return n + "@" + rf;
    }
    std::string vid(const VarDecl *v) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return "";
        std::string n = v->getNameAsString();
        if (v->getFormalLinkage() == Linkage::External) return n;
        if (v->isStaticLocal()) {
            std::string fn;
            if (auto *fd = dyn_cast<FunctionDecl>(v->getDeclContext())) fn = fd->getNameAsString();
            return n + "@" + relfile(v->getLocation()) + ":" + fn + ":" + std::to_string(line(v->getLocation()));
        }
        return n + "@" + relfile(v->getLocation());
    }

    // ---- per function node table
    struct Fn {
        J::Array nodes;
        std::map<const Stmt *, int> ids;
        std::map<const VarDecl *, int> vars;
        J::Array varinfo;
    };

    int var(Fn &F, const VarDecl *v) {
        auto it = F.vars.find(v);
        if (it != F.vars.end()) return it->second;
        int i = (int)F.vars.size();
        F.vars[v] = i;
        J::Array a;
        a.push_back(v->getNameAsString());
        a.push_back(S(typestr(v->getType())));
        a.push_back(isa<ParmVarDecl>(v) ? "p" : (v->isStaticLocal() ? "s" : "l"));
        a.push_back((int)line(v->getLocation()));
        F.varinfo.push_back(std::move(a));
        return i;
    }

    int add(Fn &F, const Stmt *s, J::Object o) {
        int id = (int)F.nodes.size();
        SourceLocation l = s->getBeginLoc();
        if (auto *ce = dyn_cast<CallExpr>(s)) l = ce->getBeginLoc();
        o["L"] = (int)line(l);
        int m = macro(l);
        if (m >= 0) {
            o["M"] = m;
            int mi = macroIn(l);
            if (mi >= 0) o["MI"] = mi;
        }
        if (auto *e = dyn_cast<Expr>(s)) {
            o["T"] = S(typestr(e->getType()));
            if (!e->isValueDependent() && !isa<InitListExpr>(e)) {
                Expr::EvalResult r;
                if (e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) {
                    auto v = r.Val.getInt();
                    if (v.isRepresentableByInt64()) o["cv"] = (int64_t)v.getExtValue();
                    else o["cv"] = v.getBitWidth() <= 64 ? J::Value((uint64_t)v.getZExtValue()) : J::Value((int64_t)INT64_MAX);
                } else if (e->getType()->isPointerType() && e->isNullPointerConstant(C, Expr::NPC_ValueDependentIsNotNull)) {
                    o["cv"] = 0;
                }
            }
        }
        F.nodes.push_back(std::move(o));
        F.ids[s] = id;
        return id;
    }

    static const Expr *strip(const Expr *e) {
        for (;;) {
            if (auto *p = dyn_cast<ParenExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<ImplicitCastExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<ConstantExpr>(e)) { e = p->getSubExpr(); continue; }
            if (auto *p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) return e; e = p->getSourceExpr(); continue; }
            if (auto *p = dyn_cast<GenericSelectionExpr>(e)) { e = p->getResultExpr(); continue; }
            if (auto *p = dyn_cast<ChooseExpr>(e)) { e = p->getChosenSubExpr(); continue; }
            return e;
        }
    }

    int node(Fn &F, const Stmt *s) {
        if (!s) return -1;
        if (auto *e = dyn_cast<Expr>(s)) s = strip(e);
        auto it = F.ids.find(s);
        if (it != F.ids.end()) return it->second;
        J::Object o;
        if (auto *ce = dyn_cast<CallExpr>(s)) {
            o["k"] = "call";
            if (auto *fd = ce->getDirectCallee()) {
                o["f"] = S(fid(fd));
                o["fn"] = S(fd->getNameAsString());
                noteExtern(fd);
                if (fd->isNoReturn()) o["nr"] = 1;
            } else {
                o["fe"] = node(F, ce->getCallee());
            }
            J::Array a;
            for (auto *x : ce->arguments()) a.push_back(node(F, x));
            o["a"] = std::move(a);
            return add(F, s, std::move(o));
        }
        if (auto *me = dyn_cast<MemberExpr>(s)) {
            o["k"] = "mem";
            o["b"] = node(F, me->getBase());
            o["ar"] = me->isArrow();
            o["f"] = S(me->getMemberDecl()->getNameAsString());
            if (auto *fd = dyn_cast<FieldDecl>(me->getMemberDecl())) o["r"] = S(recname(fd->getParent()));
            return add(F, s, std::move(o));
        }
        if (auto *dr = dyn_cast<DeclRefExpr>(s)) {
            o["k"] = "ref";
            o["n"] = S(dr->getDecl()->getNameAsString());
            if (auto *v = dyn_cast<VarDecl>(dr->getDecl())) {
                if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) {
                    o["d"] = isa<ParmVarDecl>(v) ? "p" : "l";
                    o["v"] = var(F, v);
                } else {
                    o["d"] = "g";
                    o["id"] = S(vid(v));
                }
            } else if (auto *f = dyn_cast<FunctionDecl>(dr->getDecl())) {
                o["d"] = "f";
                o["id"] = S(fid(f));
                noteExtern(f);
            } else if (isa<EnumConstantDecl>(dr->getDecl())) {
                o["d"] = "e";
            } else o["d"] = "?";
            return add(F, s, std::move(o));
        }
        if (auto *il = dyn_cast<IntegerLiteral>(s)) { (void)il; o["k"] = "int"; return add(F, s, std::move(o)); }
        if (isa<CharacterLiteral>(s)) { o["k"] = "int"; return add(F, s, std::move(o)); }
        if (auto *sl = dyn_cast<StringLiteral>(s)) {
            o["k"] = "str";
            std::string b;
            if (sl->getCharByteWidth() == 1) b = sl->getBytes().str();
            // JSON needs utf-8: escape to latin-1
            std::string u;
            for (unsigned char c : b) { if (c < 0x80) u += (char)c; else { u += (char)(0xC0 | (c >> 6)); u += (char)(0x80 | (c & 0x3F)); } }
            o["s"] = u;
            return add(F, s, std::move(o));
        }
        if (auto *pe = dyn_cast<PredefinedExpr>(s)) { (void)pe; o["k"] = "str"; o["s"] = "__func__"; return add(F, s, std::move(o)); }
        if (auto *uo = dyn_cast<UnaryOperator>(s)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(uo->getOpcode()).str();
            if (uo->isPostfix()) op = "p" + op;
            o["o"] = op;
            o["s"] = node(F, uo->getSubExpr());
            return add(F, s, std::move(o));
        }
        if (auto *bo = dyn_cast<BinaryOperator>(s)) {
            o["k"] = bo->isAssignmentOp() ? "asg" : "bin";
            o["o"] = bo->getOpcodeStr().str();
            o["l"] = node(F, bo->getLHS());
            o["r"] = node(F, bo->getRHS());
            return add(F, s, std::move(o));
        }
        if (auto *co = dyn_cast<AbstractConditionalOperator>(s)) {
            o["k"] = "cond";
            o["c"] = node(F, co->getCond());
            o["t"] = node(F, co->getTrueExpr());
            o["e"] = node(F, co->getFalseExpr());
            return add(F, s, std::move(o));
        }
        if (auto *ix = dyn_cast<ArraySubscriptExpr>(s)) {
            o["k"] = "idx";
            o["b"] = node(F, ix->getBase());
            o["i"] = node(F, ix->getIdx());
            return add(F, s, std::move(o));
        }
        if (auto *cs = dyn_cast<ExplicitCastExpr>(s)) {
            o["k"] = "cast";
            o["s"] = node(F, cs->getSubExpr());
            return add(F, s, std::move(o));
        }
        if (auto *cl = dyn_cast<CompoundLiteralExpr>(s)) {
            o["k"] = "cl";
            o["s"] = node(F, cl->getInitializer());
            return add(F, s, std::move(o));
        }
        if (auto *il = dyn_cast<InitListExpr>(s)) {
            if (auto *sem = il->getSemanticForm()) il = sem;
            o["k"] = "init";
            J::Array a;
            QualType t = il->getType();
            if (auto *rt = t->getAs<RecordType>()) {
                auto *rd = rt->getDecl();
                o["r"] = S(recname(rd));
                if (rd->isUnion()) {
                    if (il->getNumInits() > 0 && il->getInitializedFieldInUnion()) {
                        J::Array p; p.push_back(S(il->getInitializedFieldInUnion()->getNameAsString())); p.push_back(node(F, il->getInit(0))); a.push_back(std::move(p));
                    }
                } else {
                    unsigned i = 0;
                    for (auto *fd : rd->fields()) {
                        if (fd->isUnnamedBitfield()) continue;
                        if (i >= il->getNumInits()) break;
                        const Expr *x = il->getInit(i++);
                        if (isa<ImplicitValueInitExpr>(x)) continue;
                        J::Array p; p.push_back(S(fd->getNameAsString())); p.push_back(node(F, x)); a.push_back(std::move(p));
                    }
                }
            } else {
                for (unsigned i = 0; i < il->getNumInits() && i < 4096; i++) {
                    const Expr *x = il->getInit(i);
                    if (!x || isa<ImplicitValueInitExpr>(x)) continue;
                    J::Array p; p.push_back((int)i); p.push_back(node(F, x)); a.push_back(std::move(p));
                }
            }
            o["i"] = std::move(a);
            int id = add(F, s, std::move(o));
            return id;
        }
        if (auto *ds = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decls";
            J::Array a;
            for (auto *d : ds->decls()) {
                if (auto *v = dyn_cast<VarDecl>(d)) {
                    J::Array p;
                    if (v->isStaticLocal()) {
                        dumpGlobal(v);
                        continue;
                    }
                    p.push_back(var(F, v));
                    p.push_back(v->getInit() ? node(F, v->getInit()) : -1);
                    a.push_back(std::move(p));
                }
            }
            o["d"] = std::move(a);
            return add(F, s, std::move(o));
        }
        if (auto *rs = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "ret";
            o["s"] = rs->getRetValue() ? node(F, rs->getRetValue()) : -1;
            return add(F, s, std::move(o));
        }
        if (auto *se = dyn_cast<StmtExpr>(s)) {
            o["k"] = "stmtexpr";
            auto *cs = se->getSubStmt();
            int last = -1;
            if (!cs->body_empty()) if (auto *e = dyn_cast<Expr>(cs->body_back())) last = node(F, e);
            o["s"] = last;
            return add(F, s, std::move(o));
        }
        if (auto *sz = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            o["k"] = "sizeof";
            if (!sz->isArgumentType()) o["s"] = node(F, sz->getArgumentExpr());
            return add(F, s, std::move(o));
        }
        if (auto *va = dyn_cast<VAArgExpr>(s)) {
            o["k"] = "vaarg";
            o["s"] = node(F, va->getSubExpr());
            return add(F, s, std::move(o));
        }
        o["k"] = "other";
        o["c"] = s->getStmtClassName();
        if (isa<Expr>(s)) {
            J::Array a;
            for (auto *c : s->children()) if (c && isa<Expr>(c)) a.push_back(node(F, c));
            o["a"] = std::move(a);
        }
        return add(F, s, std::move(o));
    }

    void noteExtern(const FunctionDecl *fd) {
        std::string id = fid(fd);
        if (!seenExtern.insert(id).second) return;
        J::Array a;
        a.push_back(id);
        a.push_back(S(typestr(fd->getReturnType())));
        J::Array p;
        for (auto *x : fd->parameters()) p.push_back(S(typestr(x->getType())));
        a.push_back(std::move(p));
        externs.push_back(std::move(a));
    }

    std::set<const VarDecl *> seenGlobals;
    void dumpGlobal(const VarDecl *v) {
        if (!seenGlobals.insert(v).second) return;
        std::string rf = relfile(v->getLocation());
        if (rf.empty()) return;
        Fn F;
        int init = v->hasInit() ? node(F, v->getInit()) : -1;
        J::Object o;
        o["id"] = vid(v);
        o["n"] = v->getNameAsString();
        o["T"] = S(typestr(v->getType()));
        o["file"] = S(rf);
        o["L"] = (int)line(v->getLocation());
        o["def"] = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        o["init"] = init;
        o["nodes"] = std::move(F.nodes);
        globals.push_back(std::move(o));
    }

    void dumpFn(const FunctionDecl *fd) {
        std::string rf = relfile(fd->getLocation());
        if (rf.empty()) return;
        Fn F;
        J::Object o;
        o["id"] = fid(fd);
        o["n"] = fd->getNameAsString();
        o["file"] = S(rf);
        o["L"] = (int)line(fd->getLocation());
        o["E"] = (int)line(fd->getEndLoc());
        o["R"] = S(typestr(fd->getReturnType()));
        o["st"] = fd->getFormalLinkage() != Linkage::External;
        J::Array ps;
        for (auto *p : fd->parameters()) ps.push_back(var(F, p));
        o["p"] = std::move(ps);
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(fd, fd->getBody(), &C, bo);
        if (!cfg) { o["nocfg"] = true; funcs.push_back(std::move(o)); return; }
        o["entry"] = (int)cfg->getEntry().getBlockID();
        o["exit"] = (int)cfg->getExit().getBlockID();
        J::Array blocks;
        for (auto *b : *cfg) {
            J::Object bo_;
            bo_["i"] = (int)b->getBlockID();
            J::Array es;
            for (auto &e : *b) {
                if (auto cs = e.getAs<CFGStmt>()) {
                    const Stmt *s = cs->getStmt();
                    bool keep = isa<CallExpr>(s) || isa<DeclStmt>(s) || isa<ReturnStmt>(s);
                    if (auto *bop = dyn_cast<BinaryOperator>(s)) keep |= bop->isAssignmentOp();
                    if (auto *uop = dyn_cast<UnaryOperator>(s)) keep |= uop->isIncrementDecrementOp();
                    // CFG breaks multi-var DeclStmts up itself
                    if (keep) es.push_back(node(F, s));
                    else if (auto *ex = dyn_cast<Expr>(s)) {
                        // memory reads: member/deref/subscript expressions
                        const Expr *x = strip(ex);
                        if (x == ex && (isa<MemberExpr>(x) || isa<ArraySubscriptExpr>(x) ||
                            (isa<UnaryOperator>(x) && cast<UnaryOperator>(x)->getOpcode() == UO_Deref) || isa<DeclRefExpr>(x)))
                            es.push_back(node(F, x));
                    }
                }
            }
            bo_["e"] = std::move(es);
            if (b->hasNoReturnElement()) bo_["nr"] = true;
            if (auto *t = b->getTerminatorStmt()) {
                std::string k = "?";
                if (isa<IfStmt>(t)) k = "if"; else if (isa<SwitchStmt>(t)) k = "switch";
                else if (isa<WhileStmt>(t) || isa<ForStmt>(t) || isa<DoStmt>(t)) k = "loop";
                else if (isa<BinaryOperator>(t)) k = "log"; else if (isa<AbstractConditionalOperator>(t)) k = "cond";
                else if (isa<GotoStmt>(t)) k = "goto";
                bo_["t"] = k;
                bo_["tl"] = (int)line(t->getBeginLoc());
                const Expr *c = nullptr;
                if (auto *sw = dyn_cast<SwitchStmt>(t)) c = sw->getCond();
                else c = b->getLastCondition();
                if (c) bo_["c"] = node(F, c);
            }
            if (auto *lb = b->getLabel()) {
                if (auto *cs = dyn_cast<CaseStmt>(lb)) {
                    Expr::EvalResult r;
                    if (cs->getLHS()->EvaluateAsInt(r, C) && r.Val.getInt().isRepresentableByInt64()) bo_["case"] = (int64_t)r.Val.getInt().getExtValue();
                    bo_["casen"] = node(F, cs->getLHS());
                    if (cs->getRHS()) { Expr::EvalResult r2; if (cs->getRHS()->EvaluateAsInt(r2, C)) bo_["case2"] = (int64_t)r2.Val.getInt().getExtValue(); }
                } else if (isa<DefaultStmt>(lb)) bo_["default"] = true;
                else if (auto *ls = dyn_cast<LabelStmt>(lb)) bo_["label"] = std::string(ls->getName());
            }
            J::Array ss;
            for (auto &a : b->succs()) {
                const CFGBlock *x = a.getReachableBlock();
                ss.push_back(x ? (int)x->getBlockID() : -1);
            }
            bo_["s"] = std::move(ss);
            blocks.push_back(std::move(bo_));
        }
        o["blocks"] = std::move(blocks);
        o["nodes"] = std::move(F.nodes);
        o["vars"] = std::move(F.varinfo);
        funcs.push_back(std::move(o));
    }

    void visitDecls(DeclContext *dc) {
        for (auto *d : dc->decls()) {
            if (auto *fd = dyn_cast<FunctionDecl>(d)) {
                if (fd->isThisDeclarationADefinition()) dumpFn(fd);
            } else if (auto *v = dyn_cast<VarDecl>(d)) {
                dumpGlobal(v);
            } else if (auto *r = dyn_cast<RecordDecl>(d)) {
                dumpRecord(r);
            } else if (auto *e = dyn_cast<EnumDecl>(d)) {
                if (relfile(e->getLocation()).empty()) continue;
                J::Object o;
                std::string n = e->getNameAsString();
                if (!e->getIdentifier()) if (auto *td = e->getTypedefNameForAnonDecl()) n = td->getName().str();
                o["n"] = n;
                J::Array cs;
                for (auto *c : e->enumerators()) { J::Array p; p.push_back(c->getNameAsString()); p.push_back(c->getInitVal().isRepresentableByInt64() ? J::Value((int64_t)c->getInitVal().getExtValue()) : J::Value((uint64_t)c->getInitVal().getZExtValue())); cs.push_back(std::move(p)); }
                o["c"] = std::move(cs);
                enums.push_back(std::move(o));
            }
        }
    }
    void dumpRecord(const RecordDecl *r) {
        if (!r->isThisDeclarationADefinition()) return;
        if (relfile(r->getLocation()).empty()) return;
        J::Object o;
        o["n"] = recname(r);
        o["u"] = r->isUnion();
        J::Array fs;
        for (auto *f : r->fields()) {
            J::Array p; p.push_back(f->getNameAsString()); p.push_back(S(typestr(f->getType())));
            fs.push_back(std::move(p));
        }
        o["f"] = std::move(fs);
        records.push_back(std::move(o));
        for (auto *d : r->decls()) if (auto *rr = dyn_cast<RecordDecl>(d)) dumpRecord(rr);
    }

    void run() {
        visitDecls(C.getTranslationUnitDecl());
        J::Object o;
        auto f = SM.getFileEntryRefForID(SM.getMainFileID());
        o["tu"] = f ? f->getName().str() : "";
        J::Array sa;
        for (auto &x : S.v) sa.push_back(J::fixUTF8(x));
        o["strings"] = std::move(sa);
        o["funcs"] = std::move(funcs);
        o["globals"] = std::move(globals);
        o["records"] = std::move(records);
        o["enums"] = std::move(enums);
        o["externs"] = std::move(externs);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << J::Value(std::move(o));
    }
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &C) override {
        if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
        Dumper(C).run();
    }
};
class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
    // extract OUT REPO BUILD DIR FILE -- args
    if (argc < 7) { llvm::errs() << "usage: extract OUT REPO BUILD DIR FILE -- flags\n"; return 2; }
    gOut = argv[1]; gRepo = argv[2]; gBuild = argv[3];
    std::string dir = argv[4], file = argv[5];
    std::vector<std::string> args;
    for (int i = 7; i < argc; i++) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(dir, args);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
