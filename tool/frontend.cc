// Front end of the static analyses: parses one translation unit with clang and
// writes, for every function *definition* (template instantiations and
// synthesised special members included) located below a source root, its
// control-flow graph in three-address form as one JSON object per line.
// Nothing of the analysed program is executed.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <memory>
#include <set>
#include <string>
using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string gRoot, gOut;

struct Emitter {
    ASTContext &ctx;
    SourceManager &sm;
    PrintingPolicy pol;
    std::unique_ptr<ASTNameGenerator> mg;
    llvm::raw_ostream &os;
    std::map<std::string, int> typeIdx;
    std::set<const Decl *> doneRec;
    std::set<std::string> doneFn;

    Emitter(ASTContext &c, llvm::raw_ostream &o)
        : ctx(c), sm(c.getSourceManager()), pol(c.getPrintingPolicy()), os(o) {
        pol.SuppressTagKeyword = true;
        pol.FullyQualifiedName = true;
        pol.SuppressUnwrittenScope = true;
        mg.reset(new ASTNameGenerator(ctx));
    }

    std::string fileOf(SourceLocation l) {
        l = sm.getExpansionLoc(l);
        if(auto fe = sm.getFileEntryRefForID(sm.getFileID(l)))
            return fe->getName().str();
        return "";
    }
    int lineOf(SourceLocation l) { return sm.getExpansionLineNumber(l); }
    bool inRoot(SourceLocation l) {
        if(l.isInvalid()) return false;
        std::string f = fileOf(l);
        return f.compare(0, gRoot.size(), gRoot) == 0;
    }

    int type(QualType t) {
        if(t.isNull()) return -1;
        t = ctx.getCanonicalType(t);
        std::string s = t.getAsString(pol);
        auto it = typeIdx.find(s);
        if(it != typeIdx.end()) return it->second;
        int sub = -1;
        std::string k = "other", rec;
        if(t->isReferenceType()) { k = "ref"; sub = type(t.getNonReferenceType()); }
        else if(t->isPointerType()) { k = "ptr"; sub = type(t->getPointeeType()); }
        else if(t->isBooleanType()) k = "bool";
        else if(t->isEnumeralType()) k = "enum";
        else if(t->isUnsignedIntegerType()) k = "uint";
        else if(t->isIntegerType()) k = "int";
        else if(t->isFloatingType()) k = "float";
        else if(t->isVoidType()) k = "void";
        else if(t->isRecordType()) { k = "rec"; rec = recName(t->getAsCXXRecordDecl()); }
        else if(t->isArrayType()) { k = "arr"; if(auto at = ctx.getAsArrayType(t)) sub = type(at->getElementType()); }
        else if(t->isFunctionType()) k = "fun";
        else if(t->isMemberPointerType()) k = "memptr";
        int idx = (int)typeIdx.size();
        typeIdx[s] = idx;
        Object o{{"k", "type"}, {"i", idx}, {"s", s}, {"c", k},
                 {"const", t.isConstQualified()}};
        if(sub >= 0) o["sub"] = sub;
        if(!rec.empty()) o["rec"] = rec;
        os << Value(std::move(o)) << "\n";
        return idx;
    }

    static std::string recName(const RecordDecl *r) {
        return r ? r->getQualifiedNameAsString() : "";
    }

    std::string fnId(const FunctionDecl *fd) {
        std::string s;
        if(fd->getDeclContext()->isDependentContext() || fd->isDependentContext())
            s = fd->getQualifiedNameAsString() + "<dep>";
        else
            s = mg->getName(fd);
        if(s.empty()) s = fd->getQualifiedNameAsString();
        if(!fd->isExternallyVisible())
            s += "@" + fileOf(fd->getLocation());
        return s;
    }
    std::string qual(const NamedDecl *d) { return d->getQualifiedNameAsString(); }

    // ---------------------------------------------------------------- function
    struct Fn {
        std::map<const Stmt *, int> ids;
        std::map<const Stmt *, bool> emitted;
        std::map<const ValueDecl *, int> vars;
        Array varTab;
        int next = 0;
        Array *cur = nullptr;
    };
    Fn *F = nullptr;

    int var(const ValueDecl *d) {
        d = cast<ValueDecl>(d->getCanonicalDecl());
        auto it = F->vars.find(d);
        if(it != F->vars.end()) return it->second;
        int n = (int)F->vars.size();
        F->vars[d] = n;
        bool local = false, par = false, stat = false;
        if(auto vd = dyn_cast<VarDecl>(d)) {
            local = vd->isLocalVarDeclOrParm() && !vd->isStaticLocal();
            par = isa<ParmVarDecl>(vd);
            stat = vd->isStaticLocal();
        }
        Object o{{"v", n}, {"name", local ? d->getNameAsString() : qual(d)},
                 {"t", type(d->getType())}, {"local", local}, {"par", par}};
        if(stat) o["static"] = true;
        if(d->getType()->isReferenceType()) o["ref"] = true;
        if(auto vd = dyn_cast<VarDecl>(d))
            if(!local && vd->getType().isConstQualified() && vd->getType()->isIntegralOrEnumerationType() && vd->getAnyInitializer() && !vd->getAnyInitializer()->isValueDependent()) {
                Expr::EvalResult r;
                if(vd->getAnyInitializer()->EvaluateAsInt(r, ctx))
                    o["const"] = llvm::toString(r.Val.getInt(), 10);
            }
        F->varTab.push_back(std::move(o));
        return n;
    }

    int ref(const Stmt *s) {
        if(!s) return -1;
        auto it = F->ids.find(s);
        if(it == F->ids.end()) {
            F->ids[s] = F->next++;
            emit(s);
            return F->ids[s];
        }
        return it->second;
    }

    void push(const Stmt *s, Object o) {
        o["i"] = F->ids[s];
        if(!o.get("l")) o["l"] = lineOf(s->getBeginLoc());
        if(auto e = dyn_cast<Expr>(s)) {
            o["t"] = type(e->getType());
            if(e->isLValue()) o["lv"] = true;
        }
        F->cur->push_back(std::move(o));
    }

    Object calleeInfo(const FunctionDecl *fd) {
        Object o{{"id", fnId(fd)}, {"n", qual(fd)}, {"m", fd->getNameAsString()}};
        if(inRoot(fd->getLocation())) o["repo"] = true;
        if(auto md = dyn_cast<CXXMethodDecl>(fd)) {
            if(md->isStatic()) o["static"] = true;
            if(md->isConst()) o["const"] = true;
            if(md->isVirtual()) o["virt"] = true;
            o["cls"] = recName(md->getParent());
        }
        Array pt;
        for(auto *p : fd->parameters()) pt.push_back(type(p->getType()));
        o["pt"] = std::move(pt);
        if(fd->isNoReturn()) o["noret"] = true;
        return o;
    }

    void emit(const Stmt *s) {
        if(F->emitted[s]) return;
        F->emitted[s] = true;
        if(isa<CXXThisExpr>(s)) { push(s, Object{{"o", "this"}}); return; }
        if(auto e = dyn_cast<IntegerLiteral>(s)) {
            push(s, Object{{"o", "lit"}, {"v", llvm::toString(e->getValue(), 10, true)}}); return; }
        if(auto e = dyn_cast<CXXBoolLiteralExpr>(s)) {
            push(s, Object{{"o", "lit"}, {"v", e->getValue() ? "1" : "0"}}); return; }
        if(auto e = dyn_cast<CharacterLiteral>(s)) {
            push(s, Object{{"o", "lit"}, {"v", std::to_string(e->getValue())}}); return; }
        if(auto e = dyn_cast<FloatingLiteral>(s)) {
            llvm::SmallString<32> b; e->getValue().toString(b);
            push(s, Object{{"o", "lit"}, {"v", b.str().str()}, {"f", true}}); return; }
        if(auto e = dyn_cast<StringLiteral>(s)) {
            push(s, Object{{"o", "str"}, {"v", e->isOrdinary() ? llvm::json::fixUTF8(e->getString()) : std::string("?")}}); return; }
        if(isa<CXXNullPtrLiteralExpr>(s) || isa<GNUNullExpr>(s) || isa<ImplicitValueInitExpr>(s) || isa<CXXScalarValueInitExpr>(s)) {
            push(s, Object{{"o", "lit"}, {"v", "0"}}); return; }
        if(auto e = dyn_cast<DeclRefExpr>(s)) {
            const ValueDecl *d = e->getDecl();
            if(auto fd = dyn_cast<FunctionDecl>(d)) { Object o{{"o", "fun"}}; o["f"] = calleeInfo(fd); push(s, std::move(o)); }
            else if(auto ec = dyn_cast<EnumConstantDecl>(d))
                push(s, Object{{"o", "lit"}, {"v", llvm::toString(ec->getInitVal(), 10)}, {"enum", qual(ec)}});
            else push(s, Object{{"o", "var"}, {"v", var(d)}});
            return;
        }
        if(auto e = dyn_cast<MemberExpr>(s)) {
            const ValueDecl *d = e->getMemberDecl();
            if(auto fd = dyn_cast<FieldDecl>(d)) {
                int b = ref(e->getBase());
                Object o{{"o", "mem"}, {"b", b}, {"f", recName(fd->getParent()) + "::" + fd->getNameAsString()},
                         {"arrow", e->isArrow()}, {"ft", type(fd->getType())}};
                if(fd->getType()->isReferenceType()) o["ref"] = true;
                o["rt"] = (int)0;
                push(s, std::move(o));
            } else if(auto md = dyn_cast<CXXMethodDecl>(d)) {
                int b = ref(e->getBase());
                Object o{{"o", "memfn"}, {"b", b}, {"arrow", e->isArrow()}};
                o["f"] = calleeInfo(md);
                push(s, std::move(o));
            } else if(auto ec = dyn_cast<EnumConstantDecl>(d)) {
                push(s, Object{{"o", "lit"}, {"v", llvm::toString(ec->getInitVal(), 10)}, {"enum", qual(ec)}});
            } else push(s, Object{{"o", "var"}, {"v", var(d)}});
            return;
        }
        if(auto e = dyn_cast<CastExpr>(s)) {
            int a = ref(e->getSubExpr());
            CastKind ck = e->getCastKind();
            if(ck == CK_LValueToRValue) { push(s, Object{{"o", "load"}, {"a", a}}); return; }
            Object o{{"o", "cast"}, {"a", a}, {"ck", e->getCastKindName()}};
            push(s, std::move(o));
            return;
        }
        if(auto e = dyn_cast<BinaryOperator>(s)) {
            int l = ref(e->getLHS()), r = ref(e->getRHS());
            std::string op = e->getOpcodeStr().str();
            if(e->isLogicalOp()) push(s, Object{{"o", "logic"}, {"op", op}, {"a", l}, {"b", r}});
            else if(e->isAssignmentOp()) { Object o{{"o", "asg"}, {"op", op}, {"a", l}, {"b", r}}; o["l"] = lineOf(e->getOperatorLoc()); push(s, std::move(o)); }
            else if(e->isCommaOp()) push(s, Object{{"o", "pass"}, {"a", r}});
            else push(s, Object{{"o", "bin"}, {"op", op}, {"a", l}, {"b", r}});
            return;
        }
        if(auto e = dyn_cast<UnaryOperator>(s)) {
            std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str();
            if(e->isIncrementDecrementOp()) op = (e->isPrefix() ? "pre" : "post") + op;
            // address of a member: &Class::member
            if(op == "&") {
                const Expr *sub = e->getSubExpr()->IgnoreParens();
                if(auto dr = dyn_cast<DeclRefExpr>(sub))
                    if(isa<CXXMethodDecl>(dr->getDecl()) || isa<FieldDecl>(dr->getDecl())) {
                        if(auto fd = dyn_cast<FunctionDecl>(dr->getDecl())) {
                            Object o{{"o", "fun"}}; o["f"] = calleeInfo(fd); push(s, std::move(o)); }
                        else push(s, Object{{"o", "fieldptr"}, {"f", recName(cast<FieldDecl>(dr->getDecl())->getParent()) + "::" + dr->getDecl()->getNameAsString()}});
                        return;
                    }
            }
            push(s, Object{{"o", "un"}, {"op", op}, {"a", ref(e->getSubExpr())}});
            return;
        }
        if(auto e = dyn_cast<ArraySubscriptExpr>(s)) {
            int b = ref(e->getBase()), i = ref(e->getIdx());
            push(s, Object{{"o", "sub"}, {"a", b}, {"b", i}}); return; }
        if(auto e = dyn_cast<ConditionalOperator>(s)) {
            int c = ref(e->getCond()), a = ref(e->getTrueExpr()), b = ref(e->getFalseExpr());
            push(s, Object{{"o", "sel"}, {"c", c}, {"a", a}, {"b", b}}); return; }
        if(auto e = dyn_cast<CallExpr>(s)) {
            Array args;
            const FunctionDecl *fd = e->getDirectCallee();
            int obj = -1; bool arrow = false;
            int objT = -1;
            unsigned first = 0;
            Object o{{"o", "call"}};
            if(auto mc = dyn_cast<CXXMemberCallExpr>(e)) {
                const Expr *ic = mc->getImplicitObjectArgument();
                if(ic) {
                    obj = ref(ic); objT = type(ic->getType());
                    if(auto me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                        arrow = me->isArrow();
                        if(me->hasQualifier()) o["nonvirt"] = true;
                    }
                }
                if(!fd) fd = mc->getMethodDecl();
                if(!fd) o["fp"] = ref(mc->getCallee());
            } else if(auto oc = dyn_cast<CXXOperatorCallExpr>(e)) {
                o["oper"] = true;
                if(fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && oc->getNumArgs() > 0) {
                    obj = ref(oc->getArg(0)); objT = type(oc->getArg(0)->getType());
                    first = 1;
                }
            } else if(!fd)
                o["fp"] = ref(e->getCallee());
            for(unsigned i = first; i < e->getNumArgs(); ++i) args.push_back(ref(e->getArg(i)));
            if(obj >= 0) { o["obj"] = obj; o["arrow"] = arrow; o["objt"] = objT; }
            o["args"] = std::move(args);
            if(fd) o["f"] = calleeInfo(fd);
            push(s, std::move(o));
            return;
        }
        if(auto e = dyn_cast<CXXConstructExpr>(s)) {
            Array args;
            for(unsigned i = 0; i < e->getNumArgs(); ++i) args.push_back(ref(e->getArg(i)));
            Object o{{"o", "ctor"}};
            o["args"] = std::move(args);
            o["f"] = calleeInfo(e->getConstructor());
            if(e->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
            if(e->getConstructor()->isDefaultConstructor()) o["default"] = true;
            push(s, std::move(o));
            return;
        }
        if(auto e = dyn_cast<CXXNewExpr>(s)) {
            Object o{{"o", "new"}, {"at", type(e->getAllocatedType())}, {"arr", e->isArray()}};
            if(e->getInitializer()) o["init"] = ref(e->getInitializer());
            if(e->isArray() && e->getArraySize() && *e->getArraySize()) o["size"] = ref(*e->getArraySize());
            Array pl;
            for(unsigned i = 0; i < e->getNumPlacementArgs(); ++i) pl.push_back(ref(e->getPlacementArg(i)));
            if(!pl.empty()) o["place"] = std::move(pl);
            push(s, std::move(o));
            return;
        }
        if(auto e = dyn_cast<CXXDeleteExpr>(s)) {
            Object o{{"o", "del"}, {"a", ref(e->getArgument())}, {"arr", e->isArrayForm()}};
            push(s, std::move(o)); return; }
        if(auto ds = dyn_cast<DeclStmt>(s)) {
            for(auto *d : ds->decls())
                if(auto vd = dyn_cast<VarDecl>(d)) {
                    Object o{{"o", "decl"}, {"v", var(vd)}};
                    if(vd->getInit()) o["init"] = ref(vd->getInit());
                    push(s, std::move(o));
                }
            return;
        }
        if(auto r = dyn_cast<ReturnStmt>(s)) {
            Object o{{"o", "ret"}};
            if(r->getRetValue()) o["a"] = ref(r->getRetValue());
            push(s, std::move(o)); return; }
        if(auto t = dyn_cast<CXXThrowExpr>(s)) {
            Object o{{"o", "throw"}};
            if(t->getSubExpr()) { o["a"] = ref(t->getSubExpr()); o["tt"] = type(t->getSubExpr()->getType()); }
            push(s, std::move(o)); return; }
        if(auto e = dyn_cast<InitListExpr>(s)) {
            Array a;
            for(auto *x : e->inits()) a.push_back(ref(x));
            push(s, Object{{"o", "list"}, {"args", std::move(a)}}); return; }
        auto pass = [&](const Stmt *c) { push(s, Object{{"o", "pass"}, {"a", ref(c)}}); };
        if(auto e = dyn_cast<ParenExpr>(s)) return pass(e->getSubExpr());
        if(auto e = dyn_cast<FullExpr>(s)) return pass(e->getSubExpr());
        if(auto e = dyn_cast<MaterializeTemporaryExpr>(s)) return pass(e->getSubExpr());
        if(auto e = dyn_cast<CXXBindTemporaryExpr>(s)) return pass(e->getSubExpr());
        if(auto e = dyn_cast<CXXDefaultArgExpr>(s)) return pass(e->getExpr());
        if(auto e = dyn_cast<CXXDefaultInitExpr>(s)) return pass(e->getExpr());
        if(auto e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return pass(e->getReplacement());
        if(auto e = dyn_cast<OpaqueValueExpr>(s)) if(e->getSourceExpr()) return pass(e->getSourceExpr());
        if(auto e = dyn_cast<CXXStdInitializerListExpr>(s)) return pass(e->getSubExpr());
        if(auto e = dyn_cast<Expr>(s)) {
            Expr::EvalResult r;
            if(!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && e->EvaluateAsInt(r, ctx)) {
                push(s, Object{{"o", "lit"}, {"v", llvm::toString(r.Val.getInt(), 10)}, {"sz", true}}); return; }
        }
        Object o{{"o", "other"}, {"cls", s->getStmtClassName()}};
        Array a;
        if(isa<Expr>(s) && !isa<LambdaExpr>(s)) for(auto *c : s->children()) if(c && isa<Expr>(c)) a.push_back(ref(c));
        o["args"] = std::move(a);
        push(s, std::move(o));
    }

    struct HasTry : RecursiveASTVisitor<HasTry> {
        bool found = false;
        bool VisitCXXTryStmt(CXXTryStmt *) { found = true; return true; }
    };

    void function(const FunctionDecl *fd) {
        if(fd->isDependentContext() || !fd->doesThisDeclarationHaveABody()) return;
        if(fd->isDeleted()) return;
        if(!inRoot(fd->getLocation())) return;
        std::string id = fnId(fd);
        if(!doneFn.insert(id).second) return;
        if(isa<CXXMethodDecl>(fd)) record(cast<CXXMethodDecl>(fd)->getParent());
        HasTry ht; ht.TraverseStmt(fd->getBody());
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddInitializers = true;
        bo.AddImplicitDtors = true;
        bo.AddCXXDefaultInitExprInCtors = true;
        bo.PruneTriviallyFalseEdges = true;
        bo.AddEHEdges = ht.found;
        std::unique_ptr<CFG> cfg = CFG::buildCFG(fd, fd->getBody(), &ctx, bo);
        if(!cfg) { Object o{{"k", "nofn"}, {"id", id}, {"n", qual(fd)}}; os << Value(std::move(o)) << "\n"; return; }
        Fn fn; F = &fn;
        Object o{{"k", "fn"}, {"id", id}, {"n", qual(fd)}, {"m", fd->getNameAsString()}, {"file", fileOf(fd->getLocation())},
                 {"line", lineOf(fd->getLocation())}, {"end", lineOf(fd->getEndLoc())}, {"ret", type(fd->getReturnType())}};
        std::string kind = "fn";
        if(auto md = dyn_cast<CXXMethodDecl>(fd)) {
            kind = isa<CXXConstructorDecl>(fd) ? "ctor" : isa<CXXDestructorDecl>(fd) ? "dtor" : "method";
            o["cls"] = recName(md->getParent());
            o["clst"] = type(ctx.getRecordType(md->getParent()));
            o["const"] = md->isConst(); o["static"] = md->isStatic(); o["virt"] = md->isVirtual();
            o["acc"] = md->getAccess() == AS_public ? "public" : md->getAccess() == AS_protected ? "protected" : "private";
            if(md->isImplicit() || md->isDefaulted()) o["implicit"] = true;
            if(auto cd = dyn_cast<CXXConstructorDecl>(fd)) { if(cd->isCopyOrMoveConstructor()) o["copy"] = true; }
            if(md->isCopyAssignmentOperator() || md->isMoveAssignmentOperator()) o["copyassign"] = true;
            if(md->isVirtual()) {
                Array ov;
                for(auto *b : md->overridden_methods()) ov.push_back(fnId(b));
                o["overrides"] = std::move(ov);
            }
        } else {
            o["acc"] = "public";
            if(!fd->isExternallyVisible()) o["internal"] = true;
        }
        if(fd->isTemplateInstantiation()) o["inst"] = true;
        o["kind"] = kind;
        Array ps;
        for(auto *p : fd->parameters()) ps.push_back(var(p));
        o["params"] = std::move(ps);
        for(auto *b : *cfg)
            for(auto &e : *b)
                if(auto st = e.getAs<CFGStmt>())
                    if(!fn.ids.count(st->getStmt())) fn.ids[st->getStmt()] = fn.next++;
        Array blocks;
        for(auto *b : *cfg) {
            Array els;
            fn.cur = &els;
            for(auto &e : *b) {
                if(auto st = e.getAs<CFGStmt>()) emit(st->getStmt());
                else if(auto in = e.getAs<CFGInitializer>()) {
                    const CXXCtorInitializer *ci = in->getInitializer();
                    Object x{{"o", "init"}, {"i", fn.next++}, {"l", lineOf(ci->getSourceLocation())}, {"written", ci->isWritten()}};
                    if(ci->isAnyMemberInitializer()) {
                        x["f"] = recName(ci->getAnyMember()->getParent()) + "::" + ci->getAnyMember()->getNameAsString();
                        x["ft"] = type(ci->getAnyMember()->getType());
                    } else if(ci->isBaseInitializer()) {
                        x["base"] = recName(ci->getBaseClass()->getAsCXXRecordDecl());
                    } else x["deleg"] = true;
                    if(ci->getInit()) x["a"] = ref(ci->getInit());
                    els.push_back(std::move(x));
                } else if(auto ad = e.getAs<CFGAutomaticObjDtor>()) {
                    const VarDecl *vd = ad->getVarDecl();
                    Object x{{"o", "dtor"}, {"i", fn.next++}, {"l", lineOf(ad->getTriggerStmt()->getEndLoc())}, {"v", var(vd)}};
                    els.push_back(std::move(x));
                } else if(auto md = e.getAs<CFGMemberDtor>()) {
                    const FieldDecl *f = md->getFieldDecl();
                    els.push_back(Object{{"o", "dtor"}, {"i", fn.next++}, {"l", 0}, {"f", recName(f->getParent()) + "::" + f->getNameAsString()}});
                } else if(auto bd = e.getAs<CFGBaseDtor>()) {
                    els.push_back(Object{{"o", "dtor"}, {"i", fn.next++}, {"l", 0}, {"base", recName(bd->getBaseSpecifier()->getType()->getAsCXXRecordDecl())}});
                }
            }
            Object bo2{{"b", (int)b->getBlockID()}};
            // terminator
            if(const Stmt *t = b->getTerminatorStmt()) {
                Object to{{"cls", t->getStmtClassName()}, {"l", lineOf(t->getBeginLoc())}};
                const Stmt *c = b->getTerminatorCondition();
                if(auto ce = dyn_cast_or_null<Expr>(c))
                    if(auto bo3 = dyn_cast<BinaryOperator>(ce->IgnoreParens()))
                        if(bo3->isLogicalOp() && b->succ_size() == 2)
                            if(const Expr *lc = b->getLastCondition()) c = lc;
                if(c) to["c"] = ref(c);
                bo2["term"] = std::move(to);
            }
            bo2["els"] = std::move(els);
            Array su;
            for(auto it = b->succ_begin(); it != b->succ_end(); ++it) {
                const CFGBlock *x = it->getReachableBlock();
                if(x) su.push_back((int)x->getBlockID()); else su.push_back(nullptr);
            }
            bo2["succ"] = std::move(su);
            if(const Stmt *lb = b->getLabel()) {
                if(auto cs = dyn_cast<CaseStmt>(lb)) {
                    Expr::EvalResult r;
                    if(cs->getLHS()->EvaluateAsInt(r, ctx)) {
                        Object lo{{"case", llvm::toString(r.Val.getInt(), 10)}};
                        if(auto dr = dyn_cast<DeclRefExpr>(cs->getLHS()->IgnoreParenCasts())) lo["name"] = qual(dr->getDecl());
                        bo2["label"] = std::move(lo);
                    }
                } else if(isa<DefaultStmt>(lb)) bo2["label"] = Object{{"default", true}};
                else if(auto cs = dyn_cast<CXXCatchStmt>(lb)) bo2["label"] = Object{{"catch", cs->getExceptionDecl() ? type(cs->getCaughtType()) : -1}};
            }
            if(b->hasNoReturnElement()) bo2["noret"] = true;
            blocks.push_back(std::move(bo2));
        }
        o["blocks"] = std::move(blocks);
        o["entry"] = (int)cfg->getEntry().getBlockID();
        o["exit"] = (int)cfg->getExit().getBlockID();
        o["vars"] = std::move(fn.varTab);
        os << Value(std::move(o)) << "\n";
        F = nullptr;
    }

    static const char *acc(AccessSpecifier a) {
        return a == AS_public ? "public" : a == AS_protected ? "protected" : a == AS_private ? "private" : "none";
    }

    void record(const CXXRecordDecl *rd) {
        rd = rd->getDefinition();
        if(!rd || rd->isDependentContext() || !inRoot(rd->getLocation())) return;
        if(!doneRec.insert(rd).second) return;
        Object o{{"k", "rec"}, {"n", recName(rd)}, {"t", type(ctx.getRecordType(rd))},
                 {"file", fileOf(rd->getLocation())}, {"line", lineOf(rd->getLocation())}};
        Array fs;
        for(auto *f : rd->fields()) {
            Object x{{"n", f->getNameAsString()}, {"t", type(f->getType())}, {"acc", acc(f->getAccess())}, {"mut", f->isMutable()}};
            fs.push_back(std::move(x));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for(auto &b : rd->bases()) {
            Object x{{"n", recName(b.getType()->getAsCXXRecordDecl())}, {"t", type(b.getType())}};
            bs.push_back(std::move(x));
        }
        o["bases"] = std::move(bs);
        Array ms;
        for(auto *m : rd->methods()) {
            Object x{{"id", fnId(m)}, {"n", m->getNameAsString()}, {"acc", acc(m->getAccess())}, {"const", m->isConst()}};
            if(m->isImplicit()) x["implicit"] = true;
            if(m->isDeleted()) x["deleted"] = true;
            if(m->isDefaulted()) x["defaulted"] = true;
            if(m->isVirtual()) x["virt"] = true;
            if(m->isPureVirtual()) x["pure"] = true;
            if(isa<CXXDestructorDecl>(m)) x["sp"] = "dtor";
            else if(auto c = dyn_cast<CXXConstructorDecl>(m)) x["sp"] = c->isCopyConstructor() ? "copyctor" : c->isMoveConstructor() ? "movector" : "ctor";
            else if(m->isCopyAssignmentOperator()) x["sp"] = "copyassign";
            if(m->hasBody() || m->isDefined()) x["body"] = true;
            ms.push_back(std::move(x));
        }
        o["methods"] = std::move(ms);
        o["implcopyctor"] = rd->hasSimpleCopyConstructor() || rd->needsImplicitCopyConstructor();
        o["implassign"] = rd->hasSimpleCopyAssignment() || rd->needsImplicitCopyAssignment();
        o["usercopy"] = rd->hasUserDeclaredCopyConstructor();
        o["userassign"] = rd->hasUserDeclaredCopyAssignment();
        o["userdtor"] = rd->hasUserDeclaredDestructor();
        os << Value(std::move(o)) << "\n";
    }
    void enumeration(const EnumDecl *ed) {
        if(!inRoot(ed->getLocation()) || !ed->isCompleteDefinition()) return;
        Object o{{"k", "enum"}, {"n", qual(ed)}, {"file", fileOf(ed->getLocation())}, {"line", lineOf(ed->getLocation())}};
        Array cs;
        for(auto *c : ed->enumerators()) { Object x{{"n", qual(c)}, {"v", llvm::toString(c->getInitVal(), 10)}}; cs.push_back(std::move(x)); }
        o["consts"] = std::move(cs);
        os << Value(std::move(o)) << "\n";
    }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
    Emitter &em;
    Visitor(Emitter &e) : em(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *fd) { em.function(fd); return true; }
    bool VisitCXXRecordDecl(CXXRecordDecl *rd) { if(rd->isThisDeclarationADefinition()) em.record(rd); return true; }
    bool VisitEnumDecl(EnumDecl *ed) { if(!ed->isDependentContext() ) em.enumeration(ed); return true; }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext &ctx) override {
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        Emitter em(ctx, os);
        Visitor v(em);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        os << (ctx.getDiagnostics().hasErrorOccurred() ? "{\"k\":\"end\",\"errors\":true}\n" : "{\"k\":\"end\"}\n");
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
    // frontend ROOT OUT FILE -- flags...
    if(argc < 5) { llvm::errs() << "usage: frontend ROOT OUT FILE -- flags\n"; return 2; }
    gRoot = argv[1]; gOut = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for(int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    flags.push_back("-w");
    flags.push_back("-resource-dir=/usr/lib/llvm-18/lib/clang/18");
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
