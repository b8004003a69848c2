// irdump: dumps an LLVM module (compiled from /repo's sources) as JSON for the analyses in /verif/sa.
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, unsigned> ids;
static std::map<const BasicBlock *, unsigned> bbs;

static std::string tyname(Type *t)
{
	if (t->isVoidTy()) return "void";
	if (t->isPointerTy()) return "ptr";
	if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if (t->isFloatingPointTy()) return "fp";
	if (t->isSized()) return "agg" + std::to_string(DL->getTypeAllocSize(t).getFixedValue());
	return "other";
}

static int64_t size(Type *t) { return t->isSized() ? int64_t(DL->getTypeStoreSize(t).getFixedValue()) : 0; }

static json::Value intval(const APInt &v)
{
	SmallString<40> s;
	v.toStringUnsigned(s);
	return std::string(s.str());
}

static json::Value val(const Value *v)
{
	if (auto c = dyn_cast<ConstantInt>(v)) return json::Array{"i", int64_t(c->getBitWidth()), intval(c->getValue())};
	if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
	if (isa<UndefValue>(v)) return json::Array{"u"};
	if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
	if (auto f = dyn_cast<Function>(v)) return json::Array{"f", f->getName().str()};
	if (auto c = dyn_cast<Constant>(v))
	{
		if (c->getType()->isPointerTy())
		{
			APInt off(DL->getIndexTypeSizeInBits(c->getType()), 0);
			const Value *b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto f = dyn_cast<Function>(b)) return json::Array{"f", f->getName().str()};
			if (isa<GlobalValue>(b)) return json::Array{"g", b->getName().str(), off.getSExtValue()};
			if (auto ce = dyn_cast<ConstantExpr>(b))
				if (ce->getOpcode() == Instruction::IntToPtr)
					if (auto ci = dyn_cast<ConstantInt>(ce->getOperand(0)))
						return json::Array{"i", 64, intval(ci->getValue())};
		}
		return json::Array{"x"};
	}
	auto it = ids.find(v);
	if (it != ids.end()) return json::Array{"r", int64_t(it->second)};
	return json::Array{"x"};
}

static json::Value initval(const Constant *c, int64_t sz, json::Array &relocs)
{
	std::string bytes(size_t(sz), '\0');
	std::function<void(const Constant *, int64_t)> rec = [&](const Constant *c, int64_t off)
	{
		if (auto ci = dyn_cast<ConstantInt>(c))
		{
			for (unsigned i = 0; i * 8 < ci->getBitWidth(); i++)
				bytes[size_t(off + i)] = char(ci->getValue().lshr(8 * i).getLoBits(8).getZExtValue());
		}
		else if (auto d = dyn_cast<ConstantDataSequential>(c))
		{
			StringRef r = d->getRawDataValues();
			for (size_t i = 0; i < r.size(); i++) bytes[size_t(off) + i] = r[i];
		}
		else if (auto s = dyn_cast<ConstantStruct>(c))
		{
			auto l = DL->getStructLayout(s->getType());
			for (unsigned i = 0; i < s->getNumOperands(); i++) rec(s->getOperand(i), off + int64_t(l->getElementOffset(i)));
		}
		else if (auto a = dyn_cast<ConstantArray>(c))
		{
			int64_t es = int64_t(DL->getTypeAllocSize(a->getType()->getElementType()).getFixedValue());
			for (unsigned i = 0; i < a->getNumOperands(); i++) rec(a->getOperand(i), off + es * i);
		}
		else if (c->getType()->isPointerTy() && !isa<ConstantPointerNull>(c))
			relocs.push_back(json::Array{off, val(c)});
	};
	rec(c, 0);
	std::string hex;
	static const char *H = "0123456789abcdef";
	for (unsigned char b : bytes) { hex += H[b >> 4]; hex += H[b & 15]; }
	return hex;
}

int main(int argc, char **argv)
{
	LLVMContext ctx;
	SMDiagnostic err;
	if (argc < 2) return 2;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print(argv[0], errs()); return 2; }
	DataLayout dl(m.get());
	DL = &dl;
	json::Object out;
	json::Object globals;
	for (auto &g : m->globals())
	{
		json::Object o;
		o["name"] = demangle(g.getName().str());
		int64_t sz = g.getValueType()->isSized() ? int64_t(dl.getTypeAllocSize(g.getValueType()).getFixedValue()) : 0;
		o["size"] = sz;
		o["const"] = g.isConstant();
		o["ty"] = tyname(g.getValueType());
		if (g.hasInitializer())
		{
			json::Array rel;
			if (sz <= 1 << 16) o["init"] = initval(g.getInitializer(), sz, rel);
			o["rel"] = std::move(rel);
		}
		SmallVector<DIGlobalVariableExpression *, 1> dbg;
		g.getDebugInfo(dbg);
		if (!dbg.empty()) { o["var"] = dbg[0]->getVariable()->getName().str(); o["file"] = dbg[0]->getVariable()->getFilename().str(); }
		globals[g.getName().str()] = std::move(o);
	}
	out["globals"] = std::move(globals);

	json::Object funcs;
	for (auto &f : *m)
	{
		if (f.getName().starts_with("llvm.dbg")) continue;
		ids.clear();
		bbs.clear();
		json::Object o;
		o["name"] = demangle(f.getName().str());
		o["ret"] = tyname(f.getReturnType());
		o["noreturn"] = f.doesNotReturn();
		o["nounwind"] = f.doesNotThrow();
		o["vararg"] = f.isVarArg();
		if (auto sp = f.getSubprogram())
		{
			o["file"] = sp->getFilename().str();
			o["dir"] = sp->getDirectory().str();
			o["line"] = int64_t(sp->getLine());
			o["src"] = sp->getName().str();
		}
		unsigned n = 0;
		json::Array params;
		for (auto &a : f.args())
		{
			ids[&a] = n++;
			json::Object p;
			p["t"] = tyname(a.getType());
			p["s"] = size(a.getType());
			if (a.hasStructRetAttr()) p["sret"] = true;
			if (a.hasByValAttr()) p["byval"] = int64_t(dl.getTypeAllocSize(a.getParamByValType()).getFixedValue());
			params.push_back(std::move(p));
		}
		o["params"] = std::move(params);
		std::map<const Value *, std::string> names;
		for (auto &b : f)
		{
			bbs[&b] = unsigned(bbs.size());
			for (auto &i : b)
			{
				if (auto d = dyn_cast<DbgDeclareInst>(&i))
				{
					if (d->getAddress()) names[d->getAddress()] = d->getVariable()->getName().str();
					continue;
				}
				if (isa<DbgInfoIntrinsic>(&i)) continue;
				if (!i.getType()->isVoidTy()) ids[&i] = n++;
			}
		}
		json::Array blocks;
		for (auto &b : f)
		{
			json::Array ins;
			for (auto &i : b)
			{
				if (isa<DbgInfoIntrinsic>(&i)) continue;
				json::Object j;
				if (!i.getType()->isVoidTy()) j["d"] = int64_t(ids[&i]);
				if (auto &loc = i.getDebugLoc())
				{
					j["l"] = int64_t(loc.getLine());
					auto sc = cast<DIScope>(loc.getScope());
					j["f"] = sc->getFilename().str();
				}
				j["t"] = tyname(i.getType());
				auto BB = [&](const BasicBlock *x) { return int64_t(bbs[x]); };
				if (auto a = dyn_cast<AllocaInst>(&i))
				{
					j["o"] = "alloca";
					j["s"] = int64_t(dl.getTypeAllocSize(a->getAllocatedType()).getFixedValue());
					if (names.count(a)) j["n"] = names[a];
					j["at"] = tyname(a->getAllocatedType());
					std::string s; raw_string_ostream os(s); a->getAllocatedType()->print(os, false, true); j["ty"] = os.str();
				}
				else if (auto l = dyn_cast<LoadInst>(&i)) { j["o"] = "load"; j["p"] = val(l->getPointerOperand()); j["s"] = size(i.getType()); }
				else if (auto s = dyn_cast<StoreInst>(&i)) { j["o"] = "store"; j["v"] = val(s->getValueOperand()); j["p"] = val(s->getPointerOperand()); j["s"] = size(s->getValueOperand()->getType()); j["vt"] = tyname(s->getValueOperand()->getType()); }
				else if (auto g = dyn_cast<GEPOperator>(&i))
				{
					j["o"] = "gep";
					j["b"] = val(g->getPointerOperand());
					int64_t c = 0;
					json::Array var;
					for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
					{
						if (auto st = it.getStructTypeOrNull())
							c += int64_t(dl.getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(it.getOperand())->getZExtValue())));
						else
						{
							int64_t es = int64_t(dl.getTypeAllocSize(it.getIndexedType()).getFixedValue());
							if (auto ci = dyn_cast<ConstantInt>(it.getOperand())) c += es * ci->getSExtValue();
							else var.push_back(json::Array{val(it.getOperand()), es});
						}
					}
					j["c"] = c;
					j["i"] = std::move(var);
				}
				else if (auto cb = dyn_cast<CallBase>(&i))
				{
					j["o"] = isa<InvokeInst>(cb) ? "invoke" : "call";
					j["fn"] = val(cb->getCalledOperand()->stripPointerCasts());
					json::Array args;
					for (unsigned k = 0; k < cb->arg_size(); k++)
					{
						json::Object a;
						a["v"] = val(cb->getArgOperand(k));
						a["t"] = tyname(cb->getArgOperand(k)->getType());
						if (cb->isByValArgument(k)) a["byval"] = int64_t(dl.getTypeAllocSize(cb->getParamByValType(k)).getFixedValue());
						if (cb->paramHasAttr(k, Attribute::StructRet)) { a["sret"] = int64_t(dl.getTypeAllocSize(cb->getParamStructRetType(k)).getFixedValue()); }
						args.push_back(std::move(a));
					}
					j["a"] = std::move(args);
					if (auto iv = dyn_cast<InvokeInst>(cb)) { j["nb"] = BB(iv->getNormalDest()); j["ub"] = BB(iv->getUnwindDest()); }
					if (cb->doesNotReturn()) j["nr"] = true;
				}
				else if (auto br = dyn_cast<BranchInst>(&i))
				{
					j["o"] = "br";
					if (br->isConditional()) { j["c"] = val(br->getCondition()); j["tb"] = BB(br->getSuccessor(0)); j["fb"] = BB(br->getSuccessor(1)); }
					else j["tb"] = BB(br->getSuccessor(0));
				}
				else if (auto sw = dyn_cast<SwitchInst>(&i))
				{
					j["o"] = "switch";
					j["v"] = val(sw->getCondition());
					j["db"] = BB(sw->getDefaultDest());
					json::Array cs;
					for (auto &c : sw->cases()) cs.push_back(json::Array{intval(c.getCaseValue()->getValue()), BB(c.getCaseSuccessor())});
					j["cs"] = std::move(cs);
				}
				else if (auto r = dyn_cast<ReturnInst>(&i)) { j["o"] = "ret"; if (r->getReturnValue()) j["v"] = val(r->getReturnValue()); }
				else if (isa<ResumeInst>(&i)) { j["o"] = "resume"; j["v"] = val(i.getOperand(0)); }
				else if (isa<UnreachableInst>(&i)) j["o"] = "unreachable";
				else if (auto lp = dyn_cast<LandingPadInst>(&i))
				{
					j["o"] = "landingpad";
					j["cleanup"] = lp->isCleanup();
					json::Array cl;
					for (unsigned k = 0; k < lp->getNumClauses(); k++)
					{
						if (lp->isCatch(k)) cl.push_back(val(lp->getClause(k)));
						else cl.push_back(json::Array{"filter"});
					}
					j["cl"] = std::move(cl);
				}
				else if (auto ev = dyn_cast<ExtractValueInst>(&i)) { j["o"] = "extractvalue"; j["v"] = val(ev->getAggregateOperand()); json::Array ix; for (auto k : ev->indices()) ix.push_back(int64_t(k)); j["i"] = std::move(ix); }
				else if (auto iv = dyn_cast<InsertValueInst>(&i)) { j["o"] = "insertvalue"; j["v"] = val(iv->getAggregateOperand()); j["e"] = val(iv->getInsertedValueOperand()); json::Array ix; for (auto k : iv->indices()) ix.push_back(int64_t(k)); j["i"] = std::move(ix); }
				else if (auto ic = dyn_cast<ICmpInst>(&i)) { j["o"] = "icmp"; j["p"] = CmpInst::getPredicateName(ic->getPredicate()).str(); j["x"] = val(ic->getOperand(0)); j["y"] = val(ic->getOperand(1)); j["ct"] = tyname(ic->getOperand(0)->getType()); }
				else if (auto bo = dyn_cast<BinaryOperator>(&i)) { j["o"] = "bin"; j["op"] = bo->getOpcodeName(); j["x"] = val(bo->getOperand(0)); j["y"] = val(bo->getOperand(1)); if (isa<OverflowingBinaryOperator>(bo)) { j["nsw"] = bo->hasNoSignedWrap(); j["nuw"] = bo->hasNoUnsignedWrap(); } }
				else if (auto ca = dyn_cast<CastInst>(&i)) { j["o"] = "cast"; j["op"] = ca->getOpcodeName(); j["x"] = val(ca->getOperand(0)); j["ft"] = tyname(ca->getSrcTy()); }
				else if (auto ph = dyn_cast<PHINode>(&i)) { j["o"] = "phi"; json::Array in; for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) in.push_back(json::Array{val(ph->getIncomingValue(k)), BB(ph->getIncomingBlock(k))}); j["in"] = std::move(in); }
				else if (auto se = dyn_cast<SelectInst>(&i)) { j["o"] = "select"; j["c"] = val(se->getCondition()); j["x"] = val(se->getTrueValue()); j["y"] = val(se->getFalseValue()); }
				else { j["o"] = "other"; j["op"] = i.getOpcodeName(); json::Array ops; for (auto &u : i.operands()) ops.push_back(val(u)); j["ops"] = std::move(ops); }
				ins.push_back(std::move(j));
			}
			blocks.push_back(std::move(ins));
		}
		o["blocks"] = std::move(blocks);
		funcs[f.getName().str()] = std::move(o);
	}
	out["functions"] = std::move(funcs);
	outs() << json::Value(std::move(out)) << "\n";
	return 0;
}
