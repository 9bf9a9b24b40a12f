// cyfront: clang front end.  Parses a driver translation unit, writes
//   (1) <out>.facts.json : declarations/types/calls of everything defined under the analysed root
//   (2) <out>.bc         : LLVM bitcode in which *every* function defined under the root has a body
//                          (inline functions are marked `used`), unoptimised.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/CodeGen/CodeGenAction.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/MultiplexConsumer.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <set>
#include <map>
using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
static bool gHasErrors = false;

static bool underRoot(const SourceManager &SM, SourceLocation L, std::string *file = nullptr, unsigned *line = nullptr)
{
	if (L.isInvalid()) return false;
	L = SM.getExpansionLoc(L);
	PresumedLoc P = SM.getPresumedLoc(L);
	if (P.isInvalid()) return false;
	std::string f = P.getFilename();
	if (f.compare(0, gRoot.size(), gRoot) != 0) return false;
	if (file) *file = f;
	if (line) *line = P.getLine();
	return true;
}

// expression classification for arguments
static const Expr *strip(const Expr *e) { return e ? e->IgnoreParenCasts() : e; }

struct Facts {
	ASTContext &C;
	SourceManager &SM;
	ASTNameGenerator NG;
	json::Array funcs, records, vars;
	std::set<const Decl*> doneF, doneR, doneV;
	Sema *S = nullptr;
	Facts(ASTContext &c) : C(c), SM(c.getSourceManager()), NG(c) {}

	std::string locStr(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		PresumedLoc P = SM.getPresumedLoc(L);
		if (P.isInvalid()) return "?";
		return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
	}
	static const char *acc(AccessSpecifier a) {
		switch (a) { case AS_public: return "public"; case AS_protected: return "protected"; case AS_private: return "private"; default: return "none"; }
	}
	struct BodyVisitor : RecursiveASTVisitor<BodyVisitor> {
		Facts &F;
		json::Array calls, throws_, statics, subs, deletes;
		std::map<const Stmt*, bool> discarded;
		int tryDepth = 0;
		BodyVisitor(Facts &f) : F(f) {}
		bool shouldVisitTemplateInstantiations() const { return true; }
		bool shouldVisitImplicitCode() const { return false; }
		bool TraverseLambdaExpr(LambdaExpr *L) { return RecursiveASTVisitor::TraverseLambdaExpr(L); }
		void markDiscard(const Stmt *s) {
			if (!s) return;
			if (auto *e = dyn_cast<Expr>(s)) {
				const Expr *x = e;
				for (;;) {
					if (auto *p = dyn_cast<ParenExpr>(x)) { x = p->getSubExpr(); continue; }
					if (auto *c = dyn_cast<CastExpr>(x)) { if (c->getCastKind() == CK_ToVoid || isa<ImplicitCastExpr>(c)) { x = c->getSubExpr(); continue; } }
					if (auto *w = dyn_cast<ExprWithCleanups>(x)) { x = w->getSubExpr(); continue; }
					if (auto *b = dyn_cast<BinaryOperator>(x)) if (b->getOpcode() == BO_Comma) { x = b->getRHS(); continue; }
					break;
				}
				discarded[x] = true;
			}
		}
		bool VisitCompoundStmt(CompoundStmt *s) { for (auto *c : s->body()) markDiscard(c); return true; }
		bool VisitIfStmt(IfStmt *s) { markDiscard(s->getThen()); markDiscard(s->getElse()); return true; }
		bool VisitForStmt(ForStmt *s) { markDiscard(s->getBody()); markDiscard(s->getInc()); markDiscard(s->getInit()); return true; }
		bool VisitWhileStmt(WhileStmt *s) { markDiscard(s->getBody()); return true; }
		bool VisitDoStmt(DoStmt *s) { markDiscard(s->getBody()); return true; }
		bool VisitCaseStmt(CaseStmt *s) { markDiscard(s->getSubStmt()); return true; }
		bool VisitDefaultStmt(DefaultStmt *s) { markDiscard(s->getSubStmt()); return true; }
		bool VisitLabelStmt(LabelStmt *s) { markDiscard(s->getSubStmt()); return true; }
		bool VisitVarDecl(VarDecl *v) {
			if (v->isStaticLocal()) {
				bool c = v->getType().isConstant(F.C);
				statics.push_back(json::Object{{"name", v->getNameAsString()}, {"const", c}, {"loc", F.locStr(v->getLocation())}, {"type", v->getType().getAsString()}});
			}
			return true;
		}
		bool VisitCallExpr(CallExpr *e) {
			const FunctionDecl *fd = e->getDirectCallee();
			json::Object o;
			o["loc"] = F.locStr(e->getBeginLoc());
			if (fd) {
				o["callee"] = fd->getQualifiedNameAsString();
				o["variadic"] = fd->isVariadic();
				o["externC"] = fd->isExternC();
				if (auto *fa = fd->getAttr<FormatAttr>()) {
					o["fmtIdx"] = (int)fa->getFormatIdx() - 1;
				}
				o["sys"] = F.SM.isInSystemHeader(fd->getLocation());
			} else {
				const Expr *c = e->getCallee();
				if (auto *u = dyn_cast<UnresolvedLookupExpr>(strip(c))) o["callee"] = u->getName().getAsString(), o["unresolved"] = true;
				else if (auto *m = dyn_cast<CXXDependentScopeMemberExpr>(strip(c))) o["callee"] = m->getMember().getAsString(), o["unresolved"] = true;
				else o["callee"] = "?";
			}
			o["void"] = e->getType()->isVoidType();
			o["discarded"] = discarded.count(e) != 0;
			json::Array args;
			for (const Expr *a : e->arguments()) {
				const Expr *s = strip(a);
				json::Object ao;
				ao["t"] = a->getType().getAsString();
				if (s) {
					ao["st"] = s->getType().getAsString();
					if (isa<clang::StringLiteral>(s)) ao["k"] = "strlit", ao["v"] = cast<clang::StringLiteral>(s)->getCharByteWidth() == 1 ? cast<clang::StringLiteral>(s)->getString().str() : "";
					else if (auto *d = dyn_cast<DeclRefExpr>(s)) { ao["k"] = isa<ParmVarDecl>(d->getDecl()) ? "param" : "var"; ao["v"] = d->getDecl()->getNameAsString(); }
					else ao["k"] = s->getStmtClassName();
				}
				for (char ch : std::string(ao.getString("v") ? ao.getString("v")->str() : "")) if ((unsigned char)ch >= 0x80) { ao["v"] = "(non-ascii)"; break; }
				args.push_back(std::move(ao));
			}
			o["args"] = std::move(args);
			calls.push_back(std::move(o));
			return true;
		}
		bool VisitCXXDeleteExpr(CXXDeleteExpr *e) {
			json::Object o; o["loc"] = F.locStr(e->getBeginLoc()); o["array"] = e->isArrayForm();
			const Expr *x = strip(e->getArgument());
			if (auto *m = dyn_cast<MemberExpr>(x)) { o["member"] = m->getMemberDecl()->getNameAsString(); o["this"] = isa<CXXThisExpr>(strip(m->getBase())); }
			deletes.push_back(std::move(o)); return true;
		}
		bool VisitCXXThrowExpr(CXXThrowExpr *e) { throws_.push_back(F.locStr(e->getBeginLoc())); return true; }
	};
	void addFunc(const FunctionDecl *fd) {
		if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return;
		if (!doneF.insert(fd->getCanonicalDecl()).second) return;
		std::string file; unsigned line;
		if (!underRoot(SM, fd->getLocation(), &file, &line)) return;
		json::Object o;
		o["name"] = fd->getQualifiedNameAsString();
		o["file"] = file; o["line"] = (int64_t)line;
		o["dependent"] = fd->isDependentContext();
		json::Array mg;
		if (!fd->isDependentContext()) {
			for (auto &s : NG.getAllManglings(fd)) mg.push_back(s);
			if (mg.empty()) mg.push_back(NG.getName(fd));
		}
		o["mangled"] = std::move(mg);
		o["inline"] = fd->isInlined();
		o["implicit"] = fd->isImplicit();
		o["storage"] = fd->getStorageClass() == SC_Static ? "static" : "";
		o["external"] = fd->hasExternalFormalLinkage();
		o["tsk"] = (int)fd->getTemplateSpecializationKind();
		o["templ"] = fd->getDescribedFunctionTemplate() != nullptr;
		o["ret"] = fd->getReturnType().getAsString();
		json::Array ps;
		for (auto *p : fd->parameters()) ps.push_back(json::Object{{"n", p->getNameAsString()}, {"t", p->getType().getAsString()}, {"c", p->getType().getCanonicalType().getAsString()}});
		o["params"] = std::move(ps);
		auto *md = dyn_cast<CXXMethodDecl>(fd);
		if (md) {
			o["class"] = md->getParent()->getQualifiedNameAsString();
			o["classType"] = C.getRecordType(md->getParent()).getCanonicalType().getAsString();
			o["access"] = acc(md->getAccess());
			o["kind"] = isa<CXXConstructorDecl>(md) ? "ctor" : isa<CXXDestructorDecl>(md) ? "dtor" : "method";
			o["const"] = md->isConst();
			o["static"] = md->isStatic();
			o["virtual"] = md->isVirtual();
			if (auto *cd = dyn_cast<CXXConstructorDecl>(md)) { o["copyCtor"] = cd->isCopyConstructor(); o["moveCtor"] = cd->isMoveConstructor(); o["nargs"] = (int)cd->getMinRequiredArguments(); }
			o["copyAssign"] = md->isCopyAssignmentOperator(); o["moveAssign"] = md->isMoveAssignmentOperator();
		} else o["kind"] = "free";
		auto *fpt = fd->getType()->getAs<FunctionProtoType>();
		if (fpt && !fd->isDependentContext() && !isUnresolvedExceptionSpec(fpt->getExceptionSpecType())) o["nothrow"] = fpt->isNothrow();
		BodyVisitor bv(*this);
		if (fd->getBody()) bv.TraverseStmt(fd->getBody());
		if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) for (auto *i : cd->inits()) if (i->getInit()) bv.TraverseStmt(i->getInit());
		o["calls"] = std::move(bv.calls);
		o["throws"] = std::move(bv.throws_); o["deletes"] = std::move(bv.deletes);
		o["statics"] = std::move(bv.statics);
		funcs.push_back(std::move(o));
	}
	void addRecord(const CXXRecordDecl *rd) {
		if (!rd->isThisDeclarationADefinition() || rd->isLambda()) return;
		if (!doneR.insert(rd->getCanonicalDecl()).second) return;
		std::string file; unsigned line;
		SourceLocation rl = rd->getLocation();
		if (auto *pat = rd->getTemplateInstantiationPattern()) rl = pat->getLocation();
		if (!underRoot(SM, rl, &file, &line)) return;
		if (S && !rd->isDependentContext() && !rd->isInvalidDecl()) S->ForceDeclarationOfImplicitMembers(const_cast<CXXRecordDecl*>(rd));
		json::Object o;
		o["name"] = rd->getQualifiedNameAsString();
		o["type"] = C.getRecordType(rd).getCanonicalType().getAsString();
		o["file"] = file; o["line"] = (int64_t)line;
		o["dependent"] = rd->isDependentContext();
		o["access"] = acc(rd->getAccess());
		json::Array fs;
		const ASTRecordLayout *lay = nullptr;
		if (!rd->isDependentContext() && !rd->isInvalidDecl()) lay = &C.getASTRecordLayout(rd);
		for (auto *f : rd->fields()) {
			json::Object fo;
			fo["n"] = f->getNameAsString(); fo["t"] = f->getType().getCanonicalType().getAsString();
			if (lay) { fo["off"] = (int64_t)lay->getFieldOffset(f->getFieldIndex()) / 8; fo["size"] = (int64_t)C.getTypeSizeInChars(f->getType()).getQuantity(); }
			fo["scalar"] = f->getType()->isScalarType();
			fo["ptr"] = f->getType()->isPointerType();
			fo["access"] = acc(f->getAccess());
			fo["hasInit"] = f->hasInClassInitializer();
			if (f->isUnnamedBitfield()) continue;
			fs.push_back(std::move(fo));
		}
		o["fields"] = std::move(fs);
		json::Array bs;
		for (auto &b : rd->bases()) bs.push_back(b.getType().getCanonicalType().getAsString());
		o["bases"] = std::move(bs);
		o["polymorphic"] = rd->isDependentContext() ? false : rd->isPolymorphic();
		o["abstract"] = rd->isDependentContext() ? false : rd->isAbstract();
		// special members
		auto sp = [&](const char *key, bool implicitlyExists, bool needsImplicit, auto pred) {
			json::Object s;
			const FunctionDecl *found = nullptr;
			for (auto *d : rd->decls()) {
				const FunctionDecl *f = dyn_cast<FunctionDecl>(d);
				if (auto *ft = dyn_cast<FunctionTemplateDecl>(d)) f = nullptr;
				if (f && pred(f)) { found = f; break; }
			}
			if (found) {
				const FunctionDecl *def = nullptr;
				bool isdef = found->isDefined(def) ;
				s["decl"] = true; s["implicit"] = found->isImplicit(); s["deleted"] = found->isDeleted(); s["defaulted"] = found->isDefaulted();
				s["access"] = acc(found->getAccess()); s["defined"] = isdef; s["userProvided"] = cast<CXXMethodDecl>(found)->isUserProvided();
				s["loc"] = locStr(found->getLocation());
				json::Array mg; if (!found->isDependentContext()) for (auto &n : NG.getAllManglings(found)) mg.push_back(n);
				if (mg.empty() && !found->isDependentContext()) mg.push_back(NG.getName(found));
				s["mangled"] = std::move(mg);
			} else {
				s["decl"] = false; s["needsImplicit"] = needsImplicit;
			}
			o[key] = std::move(s);
		};
		sp("copyCtor", true, rd->needsImplicitCopyConstructor(), [](const FunctionDecl *f) { auto *c = dyn_cast<CXXConstructorDecl>(f); return c && c->isCopyConstructor(); });
		sp("moveCtor", true, rd->needsImplicitMoveConstructor(), [](const FunctionDecl *f) { auto *c = dyn_cast<CXXConstructorDecl>(f); return c && c->isMoveConstructor(); });
		sp("copyAssign", true, rd->needsImplicitCopyAssignment(), [](const FunctionDecl *f) { auto *c = dyn_cast<CXXMethodDecl>(f); return c && c->isCopyAssignmentOperator(); });
		sp("moveAssign", true, rd->needsImplicitMoveAssignment(), [](const FunctionDecl *f) { auto *c = dyn_cast<CXXMethodDecl>(f); return c && c->isMoveAssignmentOperator(); });
		sp("dtor", true, false, [](const FunctionDecl *f) { return isa<CXXDestructorDecl>(f); });
		records.push_back(std::move(o));
	}
	void addVar(const VarDecl *v) {
		if (!v->hasGlobalStorage() || v->isStaticLocal()) return;
		if (!doneV.insert(v->getCanonicalDecl()).second) return;
		std::string file; unsigned line;
		if (!underRoot(SM, v->getLocation(), &file, &line)) return;
		json::Object o;
		o["name"] = v->getQualifiedNameAsString(); o["file"] = file; o["line"] = (int64_t)line;
		o["type"] = v->getType().getAsString(); o["const"] = v->getType().isConstant(C);
		o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
		o["external"] = v->hasExternalFormalLinkage(); o["inline"] = v->isInline();
		o["dependent"] = v->getDeclContext()->isDependentContext();
		o["def"] = v->isThisDeclarationADefinition() == VarDecl::Definition || v->getDefinition() != nullptr;
		o["templ"] = v->getTemplateSpecializationKind() != TSK_Undeclared || v->getDeclContext()->isDependentContext() || v->getDescribedVarTemplate() != nullptr;
		bool inRec = v->getDeclContext()->isRecord();
		o["member"] = inRec;
		vars.push_back(std::move(o));
	}
};

struct FactVisitor : RecursiveASTVisitor<FactVisitor> {
	Facts &F;
	FactVisitor(Facts &f) : F(f) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return true; }
	bool VisitFunctionDecl(FunctionDecl *fd) { F.addFunc(fd); return true; }
	bool VisitCXXRecordDecl(CXXRecordDecl *rd) { F.addRecord(rd); return true; }
	bool VisitVarDecl(VarDecl *v) { F.addVar(v); return true; }
};

struct MarkVisitor : RecursiveASTVisitor<MarkVisitor> {
	ASTContext &C;
	MarkVisitor(ASTContext &c) : C(c) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	void mark(FunctionDecl *fd) {
		if (fd->isDependentContext() || fd->hasAttr<UsedAttr>() || fd->isImplicit() || fd->isDeleted() || fd->isDefaulted()) return;
		if (!fd->doesThisDeclarationHaveABody()) return;
		if (!underRoot(C.getSourceManager(), fd->getLocation())) return;
		fd->addAttr(UsedAttr::CreateImplicit(C));
	}
	bool VisitFunctionDecl(FunctionDecl *fd) { mark(fd); return true; }
};

struct Marker : ASTConsumer {
	ASTContext *C = nullptr; CompilerInstance *CI = nullptr;
	void Initialize(ASTContext &c) override { C = &c; }
	bool HandleTopLevelDecl(DeclGroupRef D) override {
		MarkVisitor v(*C);
		for (auto *d : D) v.TraverseDecl(d);
		return true;
	}
	void HandleInlineFunctionDefinition(FunctionDecl *D) override { MarkVisitor(*C).mark(D); }
	void HandleTranslationUnit(ASTContext &c) override {
		Facts F(c);
		F.S = CI ? &CI->getSema() : nullptr;
		FactVisitor v(F);
		v.TraverseDecl(c.getTranslationUnitDecl());
		json::Object top{{"funcs", std::move(F.funcs)}, {"records", std::move(F.records)}, {"vars", std::move(F.vars)}};
		std::error_code ec;
		llvm::raw_fd_ostream os(gOut + ".facts.json", ec);
		os << json::Value(std::move(top));
	}
};

static llvm::LLVMContext *gCtx;
struct Action : EmitLLVMOnlyAction {
	Action() : EmitLLVMOnlyAction(gCtx) {}
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
		std::vector<std::unique_ptr<ASTConsumer>> v;
		auto mk = std::make_unique<Marker>(); mk->CI = &CI;
		v.push_back(std::move(mk));
		v.push_back(EmitLLVMOnlyAction::CreateASTConsumer(CI, f));
		return std::make_unique<MultiplexConsumer>(std::move(v));
	}
	void EndSourceFileAction() override {
		EmitLLVMOnlyAction::EndSourceFileAction();
		if (getCompilerInstance().getDiagnostics().hasErrorOccurred()) { gHasErrors = true; return; }
		auto M = takeModule();
		if (!M) { gHasErrors = true; return; }
		std::error_code ec;
		llvm::raw_fd_ostream os(gOut + ".bc", ec);
		llvm::WriteBitcodeToFile(*M, os);
	}
};

int main(int argc, char **argv)
{
	// cyfront <root> <outprefix> <file> -- flags
	if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
	gRoot = argv[1]; gOut = argv[2];
	std::vector<std::string> flags;
	for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
	llvm::LLVMContext ctx;
	gCtx = &ctx;
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {std::string(argv[3])});

	tool.clearArgumentsAdjusters();
	int ret = tool.run(tooling::newFrontendActionFactory<Action>().get());
	return ret || gHasErrors ? 2 : 0;
}
