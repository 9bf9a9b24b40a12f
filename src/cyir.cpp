// cyir: load bitcode, inline library helpers into every function, normalise, dump as JSON.
// usage: cyir in.bc out.json --inline RE --opaque RE --roots RE [--passes P] [--noinline-sys]
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
using namespace llvm;

static std::string qualName(const std::string &mangled)
{
	ItaniumPartialDemangler d;
	if (d.partialDemangle(mangled.c_str())) return mangled;
	if (!d.isFunction()) return demangle(mangled);
	size_t n = 0; char *p = d.getFunctionName(nullptr, &n);
	if (!p) return demangle(mangled);
	std::string r(p); free(p);
	// the name of an entity local to a template function starts with the return type of that function
	if (mangled.compare(0, 3, "_ZZ") == 0 && r.compare(0, 8, "cybozu::") != 0) {
		int depth = 0; size_t sp = std::string::npos;
		for (size_t i = 0; i < r.size(); i++) {
			char c = r[i];
			if (c == '(' && depth == 0) break;
			if (c == '<' || c == '(') depth++;
			if (c == '>' || c == ')') depth--;
			if (c == ' ' && depth == 0) sp = i;
		}
		if (sp != std::string::npos && r.compare(sp + 1, 8, "cybozu::") == 0) r = r.substr(sp + 1);
	}
	return r;
}
static Module *M;
static const DataLayout *DL;
static std::map<const Value*, int> ids;
static std::map<std::string, int> locIdx;
static json::Array locTab;
static std::set<const GlobalVariable*> usedG;

static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str(); }

static int locOf(const DILocation *L)
{
	if (!L) return -1;
	std::string key;
	json::Array chain;
	for (const DILocation *p = L; p; p = p->getInlinedAt()) {
		std::string fn;
		if (auto *sp = p->getScope()->getSubprogram()) fn = (sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName()).str();
		std::string f = p->getFilename().str();
		if (!f.empty() && f[0] != '/' && !p->getDirectory().empty()) f = p->getDirectory().str() + "/" + f;
		key += f + ":" + std::to_string(p->getLine()) + ":" + fn + ";";
		chain.push_back(json::Array{f, (int)p->getLine(), fn});
	}
	auto it = locIdx.find(key);
	if (it != locIdx.end()) return it->second;
	int n = (int)locTab.size();
	locTab.push_back(std::move(chain));
	locIdx[key] = n;
	return n;
}

static json::Value intVal(const APInt &a)
{
	if (a.getBitWidth() <= 63 || a.isSignedIntN(63)) return (int64_t)a.getSExtValue();
	SmallString<40> s; a.toStringSigned(s); return json::Value(std::string(s.str()));
}

static void gepParts(const GEPOperator *g, json::Object &o, json::Value (*opnd)(const Value*));
static json::Value opnd(const Value *v)
{
	if (auto *c = dyn_cast<ConstantInt>(v)) return json::Array{"i", intVal(c->getValue()), (int)c->getBitWidth()};
	if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
	if (isa<UndefValue>(v)) return json::Array{"undef"};
	if (auto *f = dyn_cast<ConstantFP>(v)) { SmallString<40> s; f->getValueAPF().toString(s); return json::Array{"f", std::string(s.str())}; }
	if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
	if (auto *g = dyn_cast<GlobalVariable>(v)) { usedG.insert(g); return json::Array{"g", g->getName().str()}; }
	if (auto *g = dyn_cast<GlobalAlias>(v)) return opnd(g->getAliasee());
	if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", ids[b]};
	if (auto *ce = dyn_cast<ConstantExpr>(v)) {
		if (auto *g = dyn_cast<GEPOperator>(ce)) { json::Object o; gepParts(g, o, opnd); return json::Array{"gep", std::move(o)}; }
		json::Array a; for (auto &u : ce->operands()) a.push_back(opnd(u.get()));
		return json::Array{"ce", ce->getOpcodeName(), std::move(a)};
	}
	if (isa<ConstantAggregateZero>(v)) return json::Array{"zero"};
	if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
		json::Array a; if (cd->getElementType()->isIntegerTy()) for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(intVal(cd->getElementAsAPInt(i)));
		return json::Array{"cds", std::move(a)};
	}
	if (auto *ca = dyn_cast<ConstantAggregate>(v)) { json::Array a; for (auto &u : ca->operands()) a.push_back(opnd(u.get())); return json::Array{"ca", std::move(a)}; }
	if (isa<MetadataAsValue>(v)) return json::Array{"md"};
	if (isa<InlineAsm>(v)) return json::Array{"asm", cast<InlineAsm>(v)->getAsmString()};
	auto it = ids.find(v);
	if (it != ids.end()) return json::Array{"v", it->second};
	return json::Array{"?"};
}
static void gepParts(const GEPOperator *g, json::Object &o, json::Value (*opnd)(const Value*))
{
	o["base"] = opnd(g->getPointerOperand());
	unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
	MapVector<Value*, APInt> var; APInt off(bw, 0);
	if (g->collectOffset(*DL, bw, var, off)) {
		o["off"] = intVal(off);
		json::Array a; for (auto &p : var) a.push_back(json::Array{opnd(p.first), intVal(p.second)});
		o["var"] = std::move(a);
	} else o["off"] = nullptr;
	// element type info for bounds checks
	o["ety"] = tyStr(g->getSourceElementType());
	json::Array idx; for (auto it = g->idx_begin(); it != g->idx_end(); ++it) idx.push_back(opnd(it->get()));
	o["idx"] = std::move(idx);
	o["inb"] = g->isInBounds();
}

static json::Value dumpInst(const Instruction &I)
{
	json::Object o;
	o["op"] = I.getOpcodeName();
	if (!I.getType()->isVoidTy()) { o["id"] = ids[&I]; o["ty"] = tyStr(I.getType()); }
	if (I.hasName()) o["n"] = I.getName().str();
	int l = locOf(I.getDebugLoc().get());
	if (l >= 0) o["l"] = l;
	if (auto *c = dyn_cast<CallBase>(&I)) {
		o["callee"] = opnd(c->getCalledOperand());
		json::Array a, at, der;
		unsigned i = 0;
		for (auto &u : c->args()) {
			a.push_back(opnd(u.get())); at.push_back(tyStr(u->getType()));
			uint64_t d = c->getParamDereferenceableBytes(i);
			if (c->isByValArgument(i)) d = DL->getTypeAllocSize(c->getParamByValType(i));
			else if (c->hasStructRetAttr() && c->paramHasAttr(i, Attribute::StructRet)) d = DL->getTypeAllocSize(c->getParamStructRetType(i));
			der.push_back((int64_t)d); i++;
		}
		o["args"] = std::move(a); o["aty"] = std::move(at); o["der"] = std::move(der);
		if (c->doesNotThrow()) o["nounwind"] = true;
		if (c->doesNotReturn()) o["noreturn"] = true;
		if (c->onlyReadsMemory()) o["readonly"] = true;
		if (c->hasStructRetAttr()) o["sret"] = true;
		if (auto *inv = dyn_cast<InvokeInst>(&I)) { o["normal"] = ids[inv->getNormalDest()]; o["unwind"] = ids[inv->getUnwindDest()]; }
		return std::move(o);
	}
	if (auto *p = dyn_cast<PHINode>(&I)) {
		json::Array a; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) a.push_back(json::Array{ids[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
		o["inc"] = std::move(a); return std::move(o);
	}
	if (auto *b = dyn_cast<BranchInst>(&I)) {
		if (b->isConditional()) { o["cond"] = opnd(b->getCondition()); o["t"] = ids[b->getSuccessor(0)]; o["f"] = ids[b->getSuccessor(1)]; }
		else o["t"] = ids[b->getSuccessor(0)];
		return std::move(o);
	}
	if (auto *s = dyn_cast<SwitchInst>(&I)) {
		o["cond"] = opnd(s->getCondition()); o["def"] = ids[s->getDefaultDest()];
		json::Array a; for (auto &c : s->cases()) a.push_back(json::Array{opnd(c.getCaseValue()), ids[c.getCaseSuccessor()]});
		o["cases"] = std::move(a); return std::move(o);
	}
	if (auto *a = dyn_cast<AllocaInst>(&I)) {
		o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["cnt"] = opnd(a->getArraySize()); o["aty"] = tyStr(a->getAllocatedType()); return std::move(o);
	}
	if (auto *g = dyn_cast<GEPOperator>(&I)) { gepParts(g, o, opnd); return std::move(o); }
	if (auto *ic = dyn_cast<CmpInst>(&I)) { o["pred"] = CmpInst::getPredicateName(ic->getPredicate()).str(); o["cty"] = tyStr(ic->getOperand(0)->getType()); }
	if (auto *c = dyn_cast<CastInst>(&I)) { o["from"] = tyStr(c->getSrcTy()); }
	if (auto *lp = dyn_cast<LandingPadInst>(&I)) {
		o["cleanup"] = lp->isCleanup(); json::Array a;
		for (unsigned i = 0; i < lp->getNumClauses(); i++) a.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", opnd(lp->getClause(i))});
		o["clauses"] = std::move(a); return std::move(o);
	}
	if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array a; for (unsigned i : e->indices()) a.push_back((int)i); o["idx"] = std::move(a); }
	if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array a; for (unsigned i : e->indices()) a.push_back((int)i); o["idx"] = std::move(a); }
	if (auto *ld = dyn_cast<LoadInst>(&I)) { o["al"] = (int64_t)ld->getAlign().value(); o["sz"] = (int64_t)DL->getTypeStoreSize(I.getType()); if (ld->isAtomic()) o["atomic"] = toIRString(ld->getOrdering()); if (ld->isVolatile()) o["volatile"] = true; }
	if (auto *st = dyn_cast<StoreInst>(&I)) { o["al"] = (int64_t)st->getAlign().value(); o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()); o["vty"] = tyStr(st->getValueOperand()->getType()); if (st->isAtomic()) o["atomic"] = toIRString(st->getOrdering()); if (st->isVolatile()) o["volatile"] = true; }
	if (auto *ar = dyn_cast<AtomicRMWInst>(&I)) { o["rmw"] = AtomicRMWInst::getOperationName(ar->getOperation()).str(); o["atomic"] = toIRString(ar->getOrdering()); }
	if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) { o["atomic"] = toIRString(cx->getSuccessOrdering()); o["atomic2"] = toIRString(cx->getFailureOrdering()); o["weak"] = cx->isWeak(); }
	if (auto *fe = dyn_cast<FenceInst>(&I)) { o["atomic"] = toIRString(fe->getOrdering()); o["ss"] = (int)fe->getSyncScopeID(); }
	if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
	json::Array a; for (auto &u : I.operands()) a.push_back(opnd(u.get()));
	o["ops"] = std::move(a);
	return std::move(o);
}

static bool flatten(const Constant *c, std::vector<json::Value> &out, int &unit)
{
	// flatten constant integer arrays/structs to a byte list; pointers become operand entries
	uint64_t sz = DL->getTypeAllocSize(c->getType());
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) { for (uint64_t i = 0; i < sz; i++) out.push_back(0); return true; }
	if (auto *ci = dyn_cast<ConstantInt>(c)) { APInt a = ci->getValue().zext(std::max<unsigned>(ci->getBitWidth(), sz * 8)); for (uint64_t i = 0; i < sz; i++) out.push_back((int64_t)a.extractBitsAsZExtValue(8, i * 8)); return true; }
	if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt a = cf->getValueAPF().bitcastToAPInt(); for (uint64_t i = 0; i < sz && i * 8 < a.getBitWidth(); i++) out.push_back((int64_t)a.extractBitsAsZExtValue(8, i * 8)); while (out.size() % 8 && cf->getType()->isX86_FP80Ty()) out.push_back(0); return true; }
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) if (!flatten(cd->getElementAsConstant(i), out, unit)) return false; return true; }
	if (auto *ca = dyn_cast<ConstantArray>(c)) { for (auto &u : ca->operands()) if (!flatten(cast<Constant>(u.get()), out, unit)) return false; return true; }
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		size_t start = out.size(); auto *SL = DL->getStructLayout(cs->getType());
		for (unsigned i = 0; i < cs->getNumOperands(); i++) {
			while (out.size() - start < SL->getElementOffset(i)) out.push_back(0);
			if (!flatten(cs->getOperand(i), out, unit)) return false;
		}
		while (out.size() - start < sz) out.push_back(0);
		return true;
	}
	if (c->getType()->isPointerTy()) { out.push_back(opnd(c)); for (uint64_t i = 1; i < sz; i++) out.push_back(nullptr); return true; }
	return false;
}

int main(int argc, char **argv)
{
	if (argc < 3) return 2;
	std::string inRe = "^$", opRe = "^$", rootRe = ".", passes = "function(sroa,instsimplify,simplifycfg,dce)";
	for (int i = 3; i + 1 < argc; i += 2) {
		std::string a = argv[i];
		if (a == "--inline") inRe = argv[i + 1]; else if (a == "--opaque") opRe = argv[i + 1];
		else if (a == "--roots") rootRe = argv[i + 1]; else if (a == "--passes") passes = argv[i + 1];
		else { errs() << "bad option " << a << "\n"; return 2; }
	}
	LLVMContext ctx; SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print(argv[0], errs()); return 2; }
	M = m.get(); DL = &M->getDataLayout();
	Regex rin(inRe), rop(opRe), rroot(rootRe);
	std::set<std::string> roots; std::map<std::string, std::string> dem;
	std::set<Function*> rec;
	{
		CallGraph cg(*M);
		for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it) if (it.hasCycle()) for (auto *n : *it) if (n->getFunction()) rec.insert(n->getFunction());
	}
	for (auto &F : *M) {
		std::string d = demangle(F.getName().str()); dem[F.getName().str()] = d;
		if (F.isDeclaration()) continue;
		std::string q = qualName(F.getName().str());
		F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::AlwaysInline);
		if (rroot.match(q)) roots.insert(F.getName().str());
		bool in = rin.match(q) && !rop.match(q) && !rec.count(&F);
		if (in) { F.addFnAttr(Attribute::AlwaysInline); if (F.isInterposable()) F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); if (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) F.setLinkage(GlobalValue::InternalLinkage); }
		else F.addFnAttr(Attribute::NoInline);
	}
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto e = PB.parsePassPipeline(MPM, "always-inline," + passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
	MPM.run(*M, MAM);
	// the always-inliner deletes dead functions it fully inlined only if internal & unused; roots are kept alive by llvm.used
	json::Object funcs;
	std::set<std::string> called;
	for (auto &F : *M) {
		if (F.isDeclaration() || !roots.count(F.getName().str())) continue;
		ids.clear(); int n = 0;
		json::Object f; f["dem"] = dem[F.getName().str()]; f["q"] = qualName(F.getName().str());
		json::Array args; unsigned i = 0;
		for (auto &a : F.args()) { ids[&a] = n; args.push_back(json::Object{{"id", n}, {"ty", tyStr(a.getType())}, {"n", a.getName().str()}, {"der", (int64_t)F.getParamDereferenceableBytes(i)}, {"sret", a.hasStructRetAttr()}, {"byval", a.hasByValAttr()}, {"signext", a.hasSExtAttr()}}); n++; i++; }
		for (auto &B : F) ids[&B] = n++;
		for (auto &B : F) for (auto &I : B) ids[&I] = n++;
		f["args"] = std::move(args); f["ret"] = tyStr(F.getReturnType());
		if (F.doesNotThrow()) f["nounwind"] = true;
		if (auto *sp = F.getSubprogram()) { f["file"] = sp->getFilename().str(); f["line"] = (int)sp->getLine(); }
		json::Array blocks;
		for (auto &B : F) {
			json::Array ins;
			for (auto &I : B) {
				if (isa<DbgInfoIntrinsic>(I)) continue;
				if (auto *c = dyn_cast<CallBase>(&I)) if (auto *cf = c->getCalledFunction()) called.insert(cf->getName().str());
				ins.push_back(dumpInst(I));
			}
			blocks.push_back(json::Object{{"id", ids[&B]}, {"n", B.getName().str()}, {"i", std::move(ins)}});
		}
		f["blocks"] = std::move(blocks);
		funcs[F.getName()] = std::move(f);
	}
	json::Object gl; std::set<const GlobalVariable*> done;
	for (;;) {
		std::vector<const GlobalVariable*> todo; for (auto *g : usedG) if (!done.count(g)) todo.push_back(g);
		if (todo.empty()) break;
		for (auto *g : todo) {
			done.insert(g);
			json::Object o; o["size"] = g->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g->getValueType()) : 0; o["const"] = g->isConstant(); o["ty"] = tyStr(g->getValueType()); o["decl"] = g->isDeclaration(); o["tls"] = g->isThreadLocal();
			if (g->hasInitializer()) { std::vector<json::Value> v; int u = 0; if (flatten(g->getInitializer(), v, u)) { json::Array a; for (auto &x : v) a.push_back(std::move(x)); o["init"] = std::move(a); } }
			gl[g->getName()] = std::move(o);
		}
	}
	json::Object cd;
	for (auto &s : called) { auto it = dem.find(s); cd[s] = json::Array{it == dem.end() ? demangle(s) : it->second, qualName(s)}; }
	std::error_code ec; raw_fd_ostream os(argv[2], ec);
	os << json::Value(json::Object{{"funcs", std::move(funcs)}, {"globals", std::move(gl)}, {"locs", std::move(locTab)}, {"called", std::move(cd)}});
	os.close();
	return 0;
}
