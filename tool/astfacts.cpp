// astfacts: dump the type-checked program of one translation unit as JSON.
//
//   astfacts --root /repo/src/haxorg --root ... --out FILE [--inst] FILE.cpp -- <compiler flags>
//
// Only declarations whose expansion location is inside one of the roots are
// printed.  Expressions are printed resolved (macros expanded, overloads
// selected, implicit casts dropped).  With --inst the bodies of implicit
// template instantiations are printed in addition to the patterns.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprConcepts.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/FileSystem.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Regex.h>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;
static bool                     wantInst = false;
static bool                     wantBodies = true;
static std::vector<std::string> extTypes; // external record regexes to list
static std::string              outFile;

struct Dumper : RecursiveASTVisitor<Dumper> {
    ASTContext&        ctx;
    SourceManager&     sm;
    PrintingPolicy     pp;
    json::OStream&     J;
    std::map<const Decl*, int> ids;
    std::set<const Decl*>      done;

    Dumper(ASTContext& c, json::OStream& j)
        : ctx(c), sm(c.getSourceManager()), pp(c.getLangOpts()), J(j) {
        pp.SuppressTagKeyword      = true;
        pp.FullyQualifiedName      = true;
        pp.PrintCanonicalTypes     = false;
        pp.SuppressUnwrittenScope  = false;
        pp.TerseOutput             = true;
        pp.PolishForDeclaration    = true;
    }

    bool shouldVisitTemplateInstantiations() const { return wantInst; }
    bool shouldVisitImplicitCode() const { return false; }

    int id(const Decl* d) {
        d       = d->getCanonicalDecl();
        auto it = ids.find(d);
        if (it != ids.end()) return it->second;
        int n  = (int)ids.size() + 1;
        ids[d] = n;
        return n;
    }

    std::pair<std::string, unsigned> where(SourceLocation l) {
        l       = sm.getExpansionLoc(l);
        auto pl = sm.getPresumedLoc(l);
        if (pl.isInvalid()) return {"", 0};
        auto fe = sm.getFileEntryRefForID(sm.getFileID(l));
        std::string f = fe ? std::string(fe->getName()) : std::string(pl.getFilename());
        return {f, sm.getExpansionLineNumber(l)};
    }

    bool inRoots(SourceLocation l) {
        auto [f, n] = where(l);
        for (auto const& r : roots) {
            if (f.compare(0, r.size(), r) == 0) return true;
        }
        return false;
    }

    std::string ty(QualType t) {
        if (t.isNull()) return "";
        return t.getAsString(pp);
    }
    std::string cty(QualType t) {
        if (t.isNull()) return "";
        return t.getCanonicalType().getAsString(pp);
    }
    std::string qual(const NamedDecl* d) {
        std::string              s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        os.flush();
        return s;
    }
    // qualified name with template arguments of enclosing specialisations
    std::string qualT(const NamedDecl* d) {
        std::string              s;
        llvm::raw_string_ostream os(s);
        d->getNameForDiagnostic(os, pp, true);
        os.flush();
        return s;
    }
    void targs(const TemplateArgumentList* l) {
        if (!l) return;
        J.attributeArray("targs", [&] {
            for (auto const& a : l->asArray()) targ(a);
        });
    }
    void targ(TemplateArgument const& a) {
        std::string              s;
        llvm::raw_string_ostream os(s);
        if (a.getKind() == TemplateArgument::Pack) {
            for (auto const& p : a.pack_elements()) targ(p);
            return;
        }
        if (a.getKind() == TemplateArgument::Type) {
            os << cty(a.getAsType());
        } else {
            a.print(pp, os, true);
        }
        os.flush();
        J.value(s);
    }

    void loc(SourceLocation l) {
        auto [f, n] = where(l);
        J.attribute("l", (int64_t)n);
    }
    void fileloc(SourceLocation l) {
        auto [f, n] = where(l);
        J.attribute("file", f);
        J.attribute("l", (int64_t)n);
    }

    // ---------------------------------------------------------- expressions
    void sub(const char* key, const Stmt* s) {
        if (!s) return;
        J.attributeBegin(key);
        node(s);
        J.attributeEnd();
    }
    template <typename R>
    void subs(const char* key, R const& range) {
        J.attributeArray(key, [&] {
            for (auto const* s : range) node(s);
        });
    }

    void callee(const FunctionDecl* f) {
        J.attribute("fn", qual(f));
        J.attribute("fid", id(f));
        if (auto m = dyn_cast<CXXMethodDecl>(f)) {
            J.attribute("cls", qualT(m->getParent()));
            if (m->isVirtual()) J.attribute("virt", true);
        }
        targs(f->getTemplateSpecializationArgs());
    }

    const Stmt* strip(const Stmt* s) {
        while (true) {
            if (!s) return s;
            if (auto e = dyn_cast<ImplicitCastExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<ParenExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<ExprWithCleanups>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<MaterializeTemporaryExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<CXXBindTemporaryExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<ConstantExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) {
                s = e->getReplacement();
            } else if (auto e = dyn_cast<CXXDefaultInitExpr>(s)) {
                s = e->getExpr();
            } else if (auto e = dyn_cast<AttributedStmt>(s)) {
                s = e->getSubStmt();
            } else if (auto e = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
                s = e->getSemanticForm();
            } else if (auto e = dyn_cast<CXXStdInitializerListExpr>(s)) {
                s = e->getSubExpr();
            } else if (auto e = dyn_cast<UnresolvedLookupExpr>(s)) {
                return s;
            } else {
                return s;
            }
        }
    }

    void cval(const Expr* e) {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        if (!e->getType()->isIntegralOrEnumerationType()) return;
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx)) {
            llvm::SmallString<32> s;
            r.Val.getInt().toString(s, 10);
            J.attribute("cv", s.str().str());
        }
    }

    void node(const Stmt* s0) {
        const Stmt* s = strip(s0);
        if (!s) {
            J.value(nullptr);
            return;
        }
        J.objectBegin();
        body(s);
        J.objectEnd();
    }

    void varDecl(const VarDecl* v) {
        J.attribute("name", v->getNameAsString());
        J.attribute("id", id(v));
        J.attribute("t", ty(v->getType()));
        J.attribute("ct", cty(v->getType()));
        if (v->isStaticLocal()) J.attribute("static", true);
        loc(v->getLocation());
        if (v->hasInit()) sub("init", v->getInit());
    }

    void body(const Stmt* s) {
        auto K = [&](const char* k) {
            J.attribute("k", k);
            loc(s->getBeginLoc());
        };
        if (auto e = dyn_cast<Expr>(s)) {
            expr(e);
            return;
        }
        switch (s->getStmtClass()) {
            case Stmt::CompoundStmtClass: {
                K("Block");
                subs("s", cast<CompoundStmt>(s)->body());
                return;
            }
            case Stmt::DeclStmtClass: {
                K("Decl");
                J.attributeArray("vars", [&] {
                    for (auto d : cast<DeclStmt>(s)->decls()) {
                        if (auto v = dyn_cast<VarDecl>(d)) {
                            J.object([&] {
                                varDecl(v);
                                if (auto dd = dyn_cast<DecompositionDecl>(v)) {
                                    J.attributeArray("bind", [&] {
                                        for (auto b : dd->bindings()) {
                                            J.object([&] {
                                                J.attribute("name", b->getNameAsString());
                                                J.attribute("id", id(b));
                                            });
                                        }
                                    });
                                }
                            });
                        }
                    }
                });
                return;
            }
            case Stmt::IfStmtClass: {
                auto i = cast<IfStmt>(s);
                K("If");
                if (i->isConstexpr()) J.attribute("cx", true);
                if (i->getInit()) sub("init", i->getInit());
                if (i->getConditionVariableDeclStmt())
                    sub("cvar", i->getConditionVariableDeclStmt());
                sub("c", i->getCond());
                sub("then", i->getThen());
                if (i->getElse()) sub("else", i->getElse());
                return;
            }
            case Stmt::WhileStmtClass: {
                auto i = cast<WhileStmt>(s);
                K("While");
                if (i->getConditionVariableDeclStmt())
                    sub("cvar", i->getConditionVariableDeclStmt());
                sub("c", i->getCond());
                sub("body", i->getBody());
                return;
            }
            case Stmt::DoStmtClass: {
                auto i = cast<DoStmt>(s);
                K("Do");
                sub("body", i->getBody());
                sub("c", i->getCond());
                return;
            }
            case Stmt::ForStmtClass: {
                auto i = cast<ForStmt>(s);
                K("For");
                if (i->getInit()) sub("init", i->getInit());
                if (i->getCond()) sub("c", i->getCond());
                if (i->getInc()) sub("inc", i->getInc());
                sub("body", i->getBody());
                return;
            }
            case Stmt::CXXForRangeStmtClass: {
                auto i = cast<CXXForRangeStmt>(s);
                K("RangeFor");
                if (i->getInit()) sub("init", i->getInit());
                J.attributeObject("var", [&] {
                    auto v = i->getLoopVariable();
                    J.attribute("name", v->getNameAsString());
                    J.attribute("id", id(v));
                    J.attribute("t", ty(v->getType()));
                    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
                        J.attributeArray("bind", [&] {
                            for (auto b : dd->bindings()) {
                                J.object([&] {
                                    J.attribute("name", b->getNameAsString());
                                    J.attribute("id", id(b));
                                });
                            }
                        });
                    }
                });
                sub("range", i->getRangeInit());
                sub("body", i->getBody());
                return;
            }
            case Stmt::SwitchStmtClass: {
                auto i = cast<SwitchStmt>(s);
                K("Switch");
                if (i->getInit()) sub("init", i->getInit());
                if (i->getConditionVariableDeclStmt())
                    sub("cvar", i->getConditionVariableDeclStmt());
                sub("c", i->getCond());
                J.attribute("ct", cty(i->getCond()->IgnoreImpCasts()->getType()));
                sub("body", i->getBody());
                return;
            }
            case Stmt::CaseStmtClass: {
                auto i = cast<CaseStmt>(s);
                K("Case");
                sub("v", i->getLHS());
                if (i->getRHS()) sub("v2", i->getRHS());
                sub("s", i->getSubStmt());
                return;
            }
            case Stmt::DefaultStmtClass: {
                K("Default");
                sub("s", cast<DefaultStmt>(s)->getSubStmt());
                return;
            }
            case Stmt::BreakStmtClass: K("Break"); return;
            case Stmt::ContinueStmtClass: K("Continue"); return;
            case Stmt::NullStmtClass: K("Null"); return;
            case Stmt::ReturnStmtClass: {
                K("Return");
                sub("e", cast<ReturnStmt>(s)->getRetValue());
                return;
            }
            case Stmt::CoreturnStmtClass: {
                K("Return");
                J.attribute("co", true);
                sub("e", cast<CoreturnStmt>(s)->getOperand());
                return;
            }
            case Stmt::CoroutineBodyStmtClass: {
                K("Block");
                J.attributeArray(
                    "s", [&] { node(cast<CoroutineBodyStmt>(s)->getBody()); });
                return;
            }
            case Stmt::GotoStmtClass: {
                K("Goto");
                J.attribute("label", cast<GotoStmt>(s)->getLabel()->getNameAsString());
                return;
            }
            case Stmt::LabelStmtClass: {
                K("Label");
                J.attribute("label", cast<LabelStmt>(s)->getDecl()->getNameAsString());
                sub("s", cast<LabelStmt>(s)->getSubStmt());
                return;
            }
            case Stmt::CXXTryStmtClass: {
                auto i = cast<CXXTryStmt>(s);
                K("Try");
                sub("body", i->getTryBlock());
                J.attributeArray("h", [&] {
                    for (unsigned n = 0; n < i->getNumHandlers(); ++n) {
                        auto h = i->getHandler(n);
                        J.object([&] {
                            J.attribute(
                                "t",
                                h->getExceptionDecl() ? ty(h->getCaughtType()) : "...");
                            if (h->getExceptionDecl()) {
                                J.attribute("id", id(h->getExceptionDecl()));
                                J.attribute(
                                    "name", h->getExceptionDecl()->getNameAsString());
                            }
                            loc(h->getBeginLoc());
                            sub("body", h->getHandlerBlock());
                        });
                    }
                });
                return;
            }
            default: {
                K("Stmt");
                J.attribute("cls", s->getStmtClassName());
                subs("sub", s->children());
                return;
            }
        }
    }

    void expr(const Expr* e) {
        auto K = [&](const char* k) {
            J.attribute("k", k);
            loc(e->getBeginLoc());
            J.attribute("t", ty(e->getType()));
        };
        if (auto x = dyn_cast<DeclRefExpr>(e)) {
            K("Ref");
            auto d = x->getDecl();
            J.attribute("name", d->getNameAsString());
            J.attribute("qual", qual(d));
            J.attribute("id", id(d));
            const char* dk = "other";
            if (isa<ParmVarDecl>(d)) dk = "param";
            else if (auto v = dyn_cast<VarDecl>(d)) dk = v->isLocalVarDecl() ? "local" : "var";
            else if (isa<EnumConstantDecl>(d)) dk = "enum";
            else if (isa<FunctionDecl>(d)) dk = "fn";
            else if (isa<BindingDecl>(d)) dk = "binding";
            else if (isa<FieldDecl>(d)) dk = "field";
            J.attribute("dk", dk);
            if (auto f = dyn_cast<FunctionDecl>(d)) {
                if (auto m = dyn_cast<CXXMethodDecl>(f))
                    J.attribute("cls", qualT(m->getParent()));
                targs(f->getTemplateSpecializationArgs());
                J.attribute("sig", cty(f->getType()));
            }
            if (auto f = dyn_cast<FieldDecl>(d)) J.attribute("cls", qualT(f->getParent()));
            if (isa<EnumConstantDecl>(d)) cval(e);
            return;
        }
        if (auto x = dyn_cast<MemberExpr>(e)) {
            K("Member");
            J.attribute("name", x->getMemberDecl()->getNameAsString());
            if (auto r = dyn_cast<RecordDecl>(x->getMemberDecl()->getDeclContext()))
                J.attribute("cls", qualT(r));
            if (isa<FieldDecl>(x->getMemberDecl())) J.attribute("fld", true);
            J.attribute("mid", id(x->getMemberDecl()));
            if (x->isArrow()) J.attribute("arrow", true);
            sub("b", x->getBase());
            return;
        }
        if (auto x = dyn_cast<CXXDependentScopeMemberExpr>(e)) {
            K("DepMember");
            J.attribute("name", x->getMember().getAsString());
            if (x->isArrow()) J.attribute("arrow", true);
            if (!x->isImplicitAccess()) sub("b", x->getBase());
            if (x->hasExplicitTemplateArgs()) {
                J.attributeArray("targs", [&] {
                    for (auto const& a : x->template_arguments()) targ(a.getArgument());
                });
            }
            return;
        }
        if (auto x = dyn_cast<UnresolvedMemberExpr>(e)) {
            K("DepMember");
            J.attribute("name", x->getMemberName().getAsString());
            J.attribute("unres", true);
            if (x->isArrow()) J.attribute("arrow", true);
            if (!x->isImplicitAccess()) sub("b", x->getBase());
            return;
        }
        if (auto x = dyn_cast<UnresolvedLookupExpr>(e)) {
            K("DepRef");
            J.attribute("name", x->getName().getAsString());
            J.attributeArray("cands", [&] {
                for (auto d : x->decls()) J.value(qual(d->getUnderlyingDecl()));
            });
            if (x->hasExplicitTemplateArgs()) {
                J.attributeArray("targs", [&] {
                    for (auto const& a : x->template_arguments()) targ(a.getArgument());
                });
            }
            return;
        }
        if (auto x = dyn_cast<DependentScopeDeclRefExpr>(e)) {
            K("DepRef");
            J.attribute("name", x->getDeclName().getAsString());
            std::string              q;
            llvm::raw_string_ostream os(q);
            if (x->getQualifier()) x->getQualifier()->print(os, pp);
            os.flush();
            J.attribute("nns", q);
            return;
        }
        if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
            K("MCall");
            if (auto f = x->getMethodDecl()) callee(f);
            sub("obj", x->getImplicitObjectArgument());
            if (!x->getMethodDecl()) sub("ce", x->getCallee());
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
            K("OpCall");
            J.attribute("op", getOperatorSpelling(x->getOperator()));
            if (auto f = x->getDirectCallee()) callee(f);
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<UserDefinedLiteral>(e)) {
            K("Call");
            if (auto f = x->getDirectCallee()) callee(f);
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<CallExpr>(e)) {
            K("Call");
            if (auto f = x->getDirectCallee()) callee(f);
            else sub("ce", x->getCallee());
            if (auto f = x->getDirectCallee(); f) {
                if (f->isNoReturn()) J.attribute("noret", true);
            }
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<CXXConstructExpr>(e)) {
            auto c = x->getConstructor();
            if (c->isCopyOrMoveConstructor() && x->getNumArgs() >= 1
                && !isa<CXXTemporaryObjectExpr>(x)) {
                // transparent copy / move / elision
                K("Copy");
                if (c->isMoveConstructor()) J.attribute("move", true);
                J.attribute("cls", qualT(c->getParent()));
                sub("e", x->getArg(0));
                return;
            }
            K("Ctor");
            J.attribute("cls", qualT(c->getParent()));
            J.attribute("fid", id(c));
            if (x->isListInitialization()) J.attribute("list", true);
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<CXXUnresolvedConstructExpr>(e)) {
            K("Ctor");
            J.attribute("cls", ty(x->getTypeAsWritten()));
            subs("a", x->arguments());
            return;
        }
        if (auto x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            J.attribute("k", "InitList");
            loc(e->getBeginLoc());
            J.attribute("t", ty(x->getType()));
            if (auto r = x->getType()->getAsRecordDecl();
                r && !x->isTypeDependent()) {
                J.attributeArray("flds", [&] {
                    for (auto f : r->fields()) J.value(f->getNameAsString());
                });
                if (auto cr = dyn_cast<CXXRecordDecl>(r); cr && cr->getNumBases())
                    J.attribute("nbases", (int64_t)cr->getNumBases());
            }
            subs("a", x->inits());
            return;
        }
        if (auto x = dyn_cast<DesignatedInitExpr>(e)) {
            K("Desig");
            J.attributeArray("names", [&] {
                for (auto const& d : x->designators())
                    if (d.isFieldDesignator()) J.value(d.getFieldName()->getName());
            });
            sub("e", x->getInit());
            return;
        }
        if (auto x = dyn_cast<ParenListExpr>(e)) {
            K("InitList");
            subs("a", const_cast<ParenListExpr*>(x)->exprs());
            return;
        }
        if (auto x = dyn_cast<CXXParenListInitExpr>(e)) {
            K("InitList");
            subs("a", const_cast<CXXParenListInitExpr*>(x)->getInitExprs());
            return;
        }
        if (auto x = dyn_cast<UnaryOperator>(e)) {
            K("Un");
            J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()).str());
            if (x->isPostfix()) J.attribute("post", true);
            cval(e);
            sub("e", x->getSubExpr());
            return;
        }
        if (auto x = dyn_cast<BinaryOperator>(e)) {
            K("Bin");
            J.attribute("op", x->getOpcodeStr().str());
            cval(e);
            sub("a", x->getLHS());
            sub("b", x->getRHS());
            return;
        }
        if (auto x = dyn_cast<AbstractConditionalOperator>(e)) {
            K("Cond");
            sub("c", x->getCond());
            sub("a", x->getTrueExpr());
            sub("b", x->getFalseExpr());
            return;
        }
        if (auto x = dyn_cast<ExplicitCastExpr>(e)) {
            K("Cast");
            J.attribute("ck", x->getCastKindName());
            J.attribute("style", x->getStmtClassName());
            J.attribute("to", cty(x->getTypeAsWritten()));
            cval(e);
            sub("e", x->getSubExpr());
            return;
        }
        if (auto x = dyn_cast<LambdaExpr>(e)) {
            K("Lambda");
            J.attributeArray("params", [&] {
                for (auto p : x->getCallOperator()->parameters()) {
                    J.object([&] {
                        J.attribute("name", p->getNameAsString());
                        J.attribute("id", id(p));
                        J.attribute("t", ty(p->getType()));
                        J.attribute("ct", cty(p->getType()));
                    });
                }
            });
            J.attribute("ret", ty(x->getCallOperator()->getReturnType()));
            J.attribute("fid", id(x->getCallOperator()));
            J.attributeArray("caps", [&] {
                for (auto const& c : x->captures()) {
                    if (!c.capturesVariable()) continue;
                    J.object([&] {
                        J.attribute("name", c.getCapturedVar()->getNameAsString());
                        J.attribute("id", id(c.getCapturedVar()));
                        J.attribute("byref", c.getCaptureKind() == LCK_ByRef);
                        if (auto v = dyn_cast<VarDecl>(c.getCapturedVar());
                            v && v->isInitCapture() && v->getInit())
                            sub("init", v->getInit());
                    });
                }
            });
            sub("body", x->getBody());
            return;
        }
        if (auto x = dyn_cast<StringLiteral>(e)) {
            J.attribute("k", "Str");
            loc(e->getBeginLoc());
            if (x->getCharByteWidth() == 1) {
                std::string v = x->getString().str();
                if (json::isUTF8(v)) J.attribute("v", v);
                else J.attribute("v", json::fixUTF8(v));
            }
            return;
        }
        if (auto x = dyn_cast<IntegerLiteral>(e)) {
            K("Lit");
            llvm::SmallString<32> s;
            x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            J.attribute("v", s.str().str());
            J.attribute("cv", s.str().str());
            return;
        }
        if (auto x = dyn_cast<CharacterLiteral>(e)) {
            K("Lit");
            J.attribute("v", std::to_string(x->getValue()));
            J.attribute("cv", std::to_string(x->getValue()));
            J.attribute("chr", true);
            return;
        }
        if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            K("Lit");
            J.attribute("v", x->getValue() ? "true" : "false");
            J.attribute("cv", x->getValue() ? "1" : "0");
            return;
        }
        if (isa<FloatingLiteral>(e)) {
            K("Lit");
            std::string              q;
            llvm::raw_string_ostream os(q);
            e->printPretty(os, nullptr, pp);
            os.flush();
            J.attribute("v", q);
            return;
        }
        if (isa<CXXNullPtrLiteralExpr>(e)) {
            K("Lit");
            J.attribute("v", "nullptr");
            return;
        }
        if (isa<CXXThisExpr>(e)) {
            K("This");
            return;
        }
        if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
            K("Index");
            sub("b", x->getBase());
            sub("i", x->getIdx());
            return;
        }
        if (auto x = dyn_cast<CXXThrowExpr>(e)) {
            K("Throw");
            if (x->getSubExpr()) sub("e", x->getSubExpr());
            return;
        }
        if (auto x = dyn_cast<CXXNewExpr>(e)) {
            K("New");
            J.attribute("of", cty(x->getAllocatedType()));
            if (x->getInitializer()) sub("init", x->getInitializer());
            return;
        }
        if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
            K("Delete");
            sub("e", x->getArgument());
            return;
        }
        if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) {
            K("DefArg");
            sub("e", x->getExpr());
            return;
        }
        if (auto x = dyn_cast<CXXScalarValueInitExpr>(e)) {
            K("ZeroInit");
            return;
        }
        if (isa<ImplicitValueInitExpr>(e)) {
            K("ZeroInit");
            return;
        }
        if (auto x = dyn_cast<PackExpansionExpr>(e)) {
            K("Pack");
            sub("e", x->getPattern());
            return;
        }
        if (auto x = dyn_cast<CXXFoldExpr>(e)) {
            K("Fold");
            J.attribute("op", BinaryOperator::getOpcodeStr(x->getOperator()).str());
            if (x->getLHS()) sub("a", x->getLHS());
            if (x->getRHS()) sub("b", x->getRHS());
            return;
        }
        if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            K("SizeOf");
            cval(e);
            return;
        }
        if (auto x = dyn_cast<StmtExpr>(e)) {
            K("StmtExpr");
            sub("s", x->getSubStmt());
            return;
        }
        if (isa<SourceLocExpr>(e)) {
            K("SrcLoc");
            return;
        }
        if (auto x = dyn_cast<PredefinedExpr>(e)) {
            J.attribute("k", "Str");
            loc(e->getBeginLoc());
            J.attribute("v", x->getFunctionName() ? x->getFunctionName()->getString().str() : "");
            return;
        }
        if (auto x = dyn_cast<OpaqueValueExpr>(e)) {
            if (x->getSourceExpr()) {
                expr(cast<Expr>(strip(x->getSourceExpr())));
                return;
            }
        }
        K("Expr");
        J.attribute("cls", e->getStmtClassName());
        cval(e);
        subs("sub", e->children());
    }

    // --------------------------------------------------------- declarations
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (!inRoots(f->getLocation())) return true;
        if (!done.insert(f).second) return true;
        if (f->isImplicit()) return true;
        bool def = f->isThisDeclarationADefinition();
        if (auto m = dyn_cast<CXXMethodDecl>(f);
            m && m->getParent()->isLambda())
            return true;
        J.object([&] {
            J.attribute("d", "fn");
            J.attribute("name", f->getNameAsString());
            J.attribute("qual", qual(f));
            J.attribute("qualT", qualT(f));
            J.attribute("id", id(f));
            J.attribute("def", def);
            J.attribute("ret", ty(f->getReturnType()));
            J.attribute("cret", cty(f->getReturnType()));
            J.attribute("sig", cty(f->getType()));
            if (auto fp = f->getType()->getAs<FunctionProtoType>()) {
                if (!f->isDependentContext() && isUnresolvedExceptionSpec(fp->getExceptionSpecType()) == false && fp->isNothrow())
                    J.attribute("noexcept", true);
            }
            if (f->isDeleted()) J.attribute("deleted", true);
            if (f->isDefaulted()) J.attribute("defaulted", true);
            if (f->isNoReturn()) J.attribute("noret", true);
            if (f->isExternC()) J.attribute("externC", true);
            if (f->isDependentContext()) J.attribute("dep", true);
            if (f->isTemplateInstantiation()) J.attribute("inst", true);
            if (auto m = dyn_cast<CXXMethodDecl>(f)) {
                J.attribute("cls", qualT(m->getParent()));
                J.attribute("clsq", qual(m->getParent()));
                if (m->isStatic()) J.attribute("static", true);
                if (m->isConst()) J.attribute("const", true);
                if (m->isVirtual()) J.attribute("virt", true);
                if (isa<CXXConstructorDecl>(m)) J.attribute("ctor", true);
                if (isa<CXXDestructorDecl>(m)) J.attribute("dtor", true);
                J.attribute("acc", (int64_t)m->getAccess());
                if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(m->getParent())) {
                    J.attributeArray("clsTargs", [&] {
                        for (auto const& a : s->getTemplateArgs().asArray()) targ(a);
                    });
                }
            }
            targs(f->getTemplateSpecializationArgs());
            fileloc(f->getLocation());
            J.attribute(
                "el", (int64_t)sm.getExpansionLineNumber(sm.getExpansionLoc(f->getEndLoc())));
            J.attributeArray("params", [&] {
                for (auto p : f->parameters()) {
                    J.object([&] {
                        J.attribute("name", p->getNameAsString());
                        J.attribute("id", id(p));
                        J.attribute("t", ty(p->getType()));
                        J.attribute("ct", cty(p->getType()));
                        if (p->hasDefaultArg()) J.attribute("def", true);
                    });
                }
            });
            if (auto c = dyn_cast<CXXConstructorDecl>(f); c && def) {
                J.attributeArray("inits", [&] {
                    for (auto i : c->inits()) {
                        if (!i->isWritten() && !i->isAnyMemberInitializer()) continue;
                        J.object([&] {
                            if (i->isMemberInitializer())
                                J.attribute("member", i->getMember()->getNameAsString());
                            else if (i->isBaseInitializer())
                                J.attribute("base", ty(QualType(i->getBaseClass(), 0)));
                            else if (i->isDelegatingInitializer())
                                J.attribute("deleg", true);
                            sub("e", i->getInit());
                        });
                    }
                });
            }
            if (def && wantBodies && f->getBody()) sub("body", f->getBody());
        });
        return true;
    }

    void record(CXXRecordDecl* r) {
        J.object([&] {
            J.attribute("d", "rec");
            J.attribute("name", r->getNameAsString());
            J.attribute("qual", qual(r));
            J.attribute("qualT", qualT(r));
            J.attribute("id", id(r));
            fileloc(r->getLocation());
            if (r->isDependentContext()) J.attribute("dep", true);
            if (r->isUnion()) J.attribute("union", true);
            if (r->isAbstract()) J.attribute("abstract", true);
            if (auto s = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
                J.attributeArray("targs", [&] {
                    for (auto const& a : s->getTemplateArgs().asArray()) targ(a);
                });
            }
            J.attributeArray("bases", [&] {
                for (auto const& b : r->bases()) {
                    J.object([&] {
                        J.attribute("t", ty(b.getType()));
                        J.attribute("ct", cty(b.getType()));
                        J.attribute("acc", (int64_t)b.getAccessSpecifier());
                    });
                }
            });
            J.attributeArray("fields", [&] {
                for (auto f : r->fields()) {
                    J.object([&] {
                        J.attribute("name", f->getNameAsString());
                        J.attribute("id", id(f));
                        J.attribute("t", ty(f->getType()));
                        J.attribute("ct", cty(f->getType()));
                        J.attribute("acc", (int64_t)f->getAccess());
                        if (f->isMutable()) J.attribute("mutable", true);
                        loc(f->getLocation());
                        if (f->hasInClassInitializer() && f->getInClassInitializer())
                            sub("init", f->getInClassInitializer());
                    });
                }
            });
            J.attributeArray("types", [&] {
                for (auto d : r->decls()) {
                    if (auto t = dyn_cast<TypedefNameDecl>(d)) {
                        J.object([&] {
                            J.attribute("name", t->getNameAsString());
                            J.attribute("ct", cty(t->getUnderlyingType()));
                        });
                    }
                }
            });
            J.attributeArray("statics", [&] {
                for (auto d : r->decls()) {
                    if (auto v = dyn_cast<VarDecl>(d)) {
                        J.object([&] {
                            varDecl(v);
                            if (v->hasInit()) cval(v->getInit());
                        });
                    }
                }
            });
        });
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* r) {
        if (!r->isThisDeclarationADefinition() || r->isImplicit() || r->isLambda())
            return true;
        if (!inRoots(r->getLocation())) return true;
        if (!done.insert(r).second) return true;
        record(r);
        return true;
    }

    bool VisitEnumDecl(EnumDecl* e) {
        if (!e->isThisDeclarationADefinition() || !inRoots(e->getLocation())) return true;
        if (!done.insert(e).second) return true;
        J.object([&] {
            J.attribute("d", "enum");
            J.attribute("name", e->getNameAsString());
            J.attribute("qual", qual(e));
            J.attribute("qualT", qualT(e));
            if (e->isDependentContext()) J.attribute("dep", true);
            J.attribute("under", cty(e->getIntegerType()));
            if (e->isScoped()) J.attribute("scoped", true);
            fileloc(e->getLocation());
            J.attributeArray("c", [&] {
                for (auto c : e->enumerators()) {
                    llvm::SmallString<32> s;
                    c->getInitVal().toString(s, 10);
                    J.array([&] {
                        J.value(c->getNameAsString());
                        J.value(s.str().str());
                    });
                }
            });
        });
        return true;
    }

    bool VisitVarDecl(VarDecl* v) {
        if (isa<ParmVarDecl>(v) || v->isLocalVarDecl() || v->isImplicit()) return true;
        if (!v->isFileVarDecl() || !inRoots(v->getLocation())) return true;
        if (isa<CXXRecordDecl>(v->getDeclContext()) && !v->isThisDeclarationADefinition()) return true;
        if (!done.insert(v).second) return true;
        J.object([&] {
            J.attribute("d", "var");
            J.attribute("qual", qual(v));
            J.attribute("file", where(v->getLocation()).first);
            varDecl(v);
        });
        return true;
    }
};

// `void{}` is valid since CWG 2351, which this front end does not know yet
struct Errors : DiagnosticConsumer {
    int  real = 0;
    void HandleDiagnostic(DiagnosticsEngine::Level l, Diagnostic const& d) override {
        DiagnosticConsumer::HandleDiagnostic(l, d);
        if (l < DiagnosticsEngine::Error) return;
        llvm::SmallString<128> s;
        d.FormatDiagnostic(s);
        if (s == "illegal initializer type 'void'") return;
        ++real;
        if (real < 20) {
            if (d.hasSourceManager()) llvm::errs() << d.getLocation().printToString(d.getSourceManager()) << ": ";
            llvm::errs() << s << "\n";
        }
    }
} errors;

struct Consumer : ASTConsumer {
    CompilerInstance& ci;
    Consumer(CompilerInstance& c) : ci(c) {}
    void HandleTranslationUnit(ASTContext& ctx) override {
        std::error_code      ec;
        llvm::raw_fd_ostream os(outFile, ec);
        if (ec) {
            llvm::errs() << "cannot write " << outFile << "\n";
            exit(3);
        }
        json::OStream J(os);
        J.object([&] {
            J.attribute("errors", (int64_t)errors.real);
            J.attributeArray("decls", [&] {
                Dumper d(ctx, J);
                d.TraverseDecl(ctx.getTranslationUnitDecl());
            });
        });
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override {
        return std::make_unique<Consumer>(ci);
    }
};

int main(int argc, char** argv) {
    std::vector<std::string> flags;
    std::string              file;
    int                      i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") {
            ++i;
            break;
        } else if (a == "--root") roots.push_back(argv[++i]);
        else if (a == "--out") outFile = argv[++i];
        else if (a == "--inst") wantInst = true;
        else if (a == "--nobody") wantBodies = false;
        else file = a;
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool                tool(db, {file});
    struct F : tooling::FrontendActionFactory {
        std::unique_ptr<FrontendAction> create() override {
            return std::make_unique<Action>();
        }
    } f;
    tool.setDiagnosticConsumer(&errors);
    int rc = tool.run(&f);
    return rc;
}
