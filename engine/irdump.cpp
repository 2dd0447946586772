// Dumps an LLVM module as JSON lines: one record per global, type, function.
// Everything address-like is reduced to byte offsets, every constant folded, so that the Python
// analyses only see a small, regular language.
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>

using namespace llvm;
namespace J = llvm::json;

static DataLayout const* DL;

static std::string typeStr(Type* t)
{
	if(t->isPointerTy()) return "p";
	if(t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
	if(t->isVoidTy()) return "v";
	if(t->isFloatingPointTy()) return "f";
	if(t->isStructTy() || t->isArrayTy()) return "s";
	return "?";
}

static J::Array bytes(Constant const* c, bool& ok);

struct FnCtx
{
	std::map<Value const*, int> ids;
	std::map<BasicBlock const*, int> bbs;
};

static J::Value constant(Constant const* c)
{
	if(auto ci = dyn_cast<ConstantInt>(c))
	{
		auto const& v = ci->getValue();
		if(v.getBitWidth() > 64)
		{
			SmallString<64> s;
			v.toString(s, 10, false);
			return J::Array{"I", std::string(s.str()), (int64_t)v.getBitWidth()};
		}
		return J::Array{"i", (int64_t)v.getZExtValue(), (int64_t)v.getBitWidth()};
	}
	if(isa<ConstantPointerNull>(c)) return J::Array{"n"};
	if(isa<UndefValue>(c)) return J::Array{"u", typeStr(c->getType())};
	if(isa<ConstantAggregateZero>(c)) return J::Array{"z", typeStr(c->getType())};
	if(auto g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
	if(auto g = dyn_cast<GlobalValue>(c)) return J::Array{"g", g->getName().str(), (int64_t)0};
	if(auto ce = dyn_cast<ConstantExpr>(c))
	{
		if(ce->getType()->isPointerTy())
		{
			APInt off(64, 0);
			auto base = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if(auto g = dyn_cast<GlobalValue>(base))
				return J::Array{"g", g->getName().str(), (int64_t)off.getSExtValue()};
			if(ce->getOpcode() == Instruction::IntToPtr)
				return J::Array{"x", constant(ce->getOperand(0))};
		}
		if(ce->getOpcode() == Instruction::PtrToInt) return constant(ce->getOperand(0));
		return J::Array{"x", std::string(ce->getOpcodeName())};
	}
	if(auto ca = dyn_cast<ConstantAggregate>(c))
	{
		J::Array elems;
		for(auto& op : ca->operands()) elems.push_back(constant(cast<Constant>(op.get())));
		return J::Array{"a", std::move(elems)};
	}
	if(auto cd = dyn_cast<ConstantDataSequential>(c))
	{
		J::Array elems;
		for(unsigned k = 0; k != cd->getNumElements(); ++k)
			elems.push_back(constant(cd->getElementAsConstant(k)));
		return J::Array{"a", std::move(elems)};
	}
	if(auto cf = dyn_cast<ConstantFP>(c))
	{
		SmallString<32> s;
		cf->getValueAPF().toString(s);
		return J::Array{"f", std::string(s.str())};
	}
	return J::Array{"x", "?"};
}

// Flatten a constant initialiser to [offset, size, value] cells.
static void cells(Constant const* c, uint64_t off, J::Array& out)
{
	auto ty = c->getType();
	if(auto cd = dyn_cast<ConstantDataSequential>(c))
	{
		if(cd->isString())
		{
			std::string hex;
			for(unsigned char ch : cd->getAsString())
			{
				static char const* d = "0123456789abcdef";
				hex += d[ch >> 4];
				hex += d[ch & 15];
			}
			out.push_back(J::Array{(int64_t)off, "str", hex});
			return;
		}
		auto sz = DL->getTypeAllocSize(cd->getElementType()).getFixedValue();
		for(unsigned k = 0; k != cd->getNumElements(); ++k)
			cells(cd->getElementAsConstant(k), off + k * sz, out);
		return;
	}
	if(auto cs = dyn_cast<ConstantStruct>(c))
	{
		auto sl = DL->getStructLayout(cs->getType());
		for(unsigned k = 0; k != cs->getNumOperands(); ++k)
			cells(cs->getOperand(k), off + sl->getElementOffset(k).getFixedValue(), out);
		return;
	}
	if(auto ca = dyn_cast<ConstantArray>(c))
	{
		auto sz = DL->getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
		for(unsigned k = 0; k != ca->getNumOperands(); ++k) cells(ca->getOperand(k), off + k * sz, out);
		return;
	}
	if(isa<ConstantAggregateZero>(c))
	{
		out.push_back(J::Array{(int64_t)off, "zero", (int64_t)DL->getTypeAllocSize(ty).getFixedValue()});
		return;
	}
	out.push_back(
	   J::Array{(int64_t)off, (int64_t)DL->getTypeStoreSize(ty).getFixedValue(), constant(c)});
}

static J::Value operand(FnCtx& ctx, Value const* v)
{
	if(auto c = dyn_cast<Constant>(v)) return constant(c);
	if(auto bb = dyn_cast<BasicBlock>(v)) return J::Array{"b", (int64_t)ctx.bbs[bb]};
	auto i = ctx.ids.find(v);
	if(i != ctx.ids.end()) return J::Array{"v", (int64_t)i->second};
	return J::Array{"x", "meta"};
}

static std::string scopeName(DIScope const* s)
{
	std::string ret;
	while(s)
	{
		if(auto ns = dyn_cast<DINamespace>(s))
		{
			ret = (ns->getName().empty() ? std::string("(anonymous namespace)") : ns->getName().str()) + "::" + ret;
			s = ns->getScope();
		}
		else if(auto ct = dyn_cast<DICompositeType>(s))
		{
			ret = ct->getName().str() + "::" + ret;
			s = ct->getScope();
		}
		else if(auto sp = dyn_cast<DISubprogram>(s))
		{
			ret = sp->getName().str() + "()::" + ret;
			s = sp->getScope();
		}
		else break;
	}
	return ret;
}

static std::string diTypeName(DIType const* t)
{
	if(!t) return "void";
	if(auto ct = dyn_cast<DICompositeType>(t))
		return scopeName(ct->getScope()) + ct->getName().str();
	if(auto dt = dyn_cast<DIDerivedType>(t))
	{
		switch(dt->getTag())
		{
			case dwarf::DW_TAG_pointer_type: return diTypeName(dt->getBaseType()) + "*";
			case dwarf::DW_TAG_reference_type: return diTypeName(dt->getBaseType()) + "&";
			case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(dt->getBaseType()) + "&&";
			case dwarf::DW_TAG_const_type: return diTypeName(dt->getBaseType());
			case dwarf::DW_TAG_typedef: return diTypeName(dt->getBaseType());
			default: return diTypeName(dt->getBaseType());
		}
	}
	return t->getName().str();
}

int main(int argc, char** argv)
{
	if(argc < 2) return 2;
	LLVMContext lctx;
	SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, lctx);
	if(!m)
	{
		err.print(argv[0], errs());
		return 2;
	}
	DL = &m->getDataLayout();
	auto& out = outs();
	auto emit = [&out](J::Object&& o) { out << J::Value(std::move(o)) << "\n"; };

	{
		DebugInfoFinder finder;
		finder.processModule(*m);
		for(auto t : finder.types())
		{
			auto ct = dyn_cast<DICompositeType>(t);
			if(!ct) continue;
			if(ct->getTag() == dwarf::DW_TAG_enumeration_type)
			{
				J::Array items;
				for(auto e : ct->getElements())
					if(auto en = dyn_cast<DIEnumerator>(e))
						items.push_back(J::Array{en->getName().str(), en->getValue().getSExtValue()});
				if(items.empty()) continue;
				emit(J::Object{{"k", "enum"}, {"n", scopeName(ct->getScope()) + ct->getName().str()}, {"items", std::move(items)}});
				continue;
			}
			if(ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type) continue;
			if(ct->isForwardDecl()) continue;
			J::Array members;
			for(auto e : ct->getElements())
				if(auto mem = dyn_cast<DIDerivedType>(e))
				{
					if(mem->isStaticMember()) continue;
					if(mem->getTag() == dwarf::DW_TAG_member)
						members.push_back(J::Array{mem->getName().str(), (int64_t)(mem->getOffsetInBits() / 8), diTypeName(mem->getBaseType()), (int64_t)(mem->getBaseType()?mem->getBaseType()->getSizeInBits()/8:0)});
					else if(mem->getTag() == dwarf::DW_TAG_inheritance)
						members.push_back(J::Array{"<base>", (int64_t)(mem->getOffsetInBits() / 8), diTypeName(mem->getBaseType()), (int64_t)(mem->getBaseType()?mem->getBaseType()->getSizeInBits()/8:0)});
				}
			std::string file = ct->getFile() ? ct->getFile()->getFilename().str() : "";
			emit(J::Object{{"k", "type"}, {"n", scopeName(ct->getScope()) + ct->getName().str()}, {"size", (int64_t)(ct->getSizeInBits() / 8)}, {"file", file}, {"line", (int64_t)ct->getLine()}, {"m", std::move(members)}});
		}
	}

	for(auto& g : m->globals())
	{
		J::Object o{{"k", "g"}, {"n", g.getName().str()}, {"const", g.isConstant()}, {"tls", g.isThreadLocal()}, {"decl", g.isDeclaration()}};
		if(g.hasInitializer())
		{
			J::Array c;
			cells(g.getInitializer(), 0, c);
			o["c"] = std::move(c);
			o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType()).getFixedValue();
		}
		emit(std::move(o));
	}
	for(auto& a : m->aliases())
		emit(J::Object{{"k", "alias"}, {"n", a.getName().str()}, {"to", constant(a.getAliasee())}});

	for(auto& f : *m)
	{
		J::Object fo{{"k", "f"}, {"n", f.getName().str()}, {"dn", llvm::demangle(f.getName().str())}};
		fo["ret"] = typeStr(f.getReturnType());
		fo["noret"] = f.doesNotReturn();
		fo["nounw"] = f.doesNotThrow();
		fo["internal"] = f.hasLocalLinkage();
		FnCtx ctx;
		int n = 0;
		J::Array params;
		for(auto& a : f.args())
		{
			ctx.ids[&a] = n++;
			std::string t = typeStr(a.getType());
			if(a.hasByValAttr()) t += "b" + std::to_string(DL->getTypeAllocSize(a.getParamByValType()).getFixedValue());
			if(a.hasStructRetAttr()) t += "r" + std::to_string(DL->getTypeAllocSize(a.getParamStructRetType()).getFixedValue());
			params.push_back(t);
		}
		fo["params"] = std::move(params);
		if(f.isDeclaration())
		{
			fo["decl"] = true;
			emit(std::move(fo));
			continue;
		}
		if(auto sp = f.getSubprogram())
		{
			fo["file"] = sp->getFilename().str();
			fo["line"] = (int64_t)sp->getLine();
			fo["qn"] = scopeName(sp->getScope()) + sp->getName().str();
			J::Array pt;
			if(auto ft = sp->getType())
				for(auto t : ft->getTypeArray()) pt.push_back(diTypeName(t));
			fo["ditypes"] = std::move(pt);
		}
		int nb = 0;
		for(auto& bb : f)
		{
			ctx.bbs[&bb] = nb++;
			for(auto& i : bb)
				if(!i.getType()->isVoidTy()) ctx.ids[&i] = n++;
		}
		// names of local variables
		J::Array locals;
		J::Array blocks;
		for(auto& bb : f)
		{
			J::Array is;
			for(auto& i : bb)
			{
				if(auto dv = dyn_cast<DbgVariableIntrinsic>(&i))
				{
					if(dv->getNumVariableLocationOps() == 1)
					{
						auto v = dv->getVariableLocationOp(0);
						if(v && ctx.ids.count(v))
							locals.push_back(J::Array{(int64_t)ctx.ids[v], dv->getVariable()->getName().str(), isa<DbgDeclareInst>(dv), diTypeName(dv->getVariable()->getType())});
					}
					continue;
				}
				if(isa<DbgInfoIntrinsic>(&i)) continue;
				J::Object o;
				o["o"] = i.getOpcodeName();
				if(!i.getType()->isVoidTy())
				{
					o["d"] = (int64_t)ctx.ids[&i];
					o["t"] = typeStr(i.getType());
				}
				if(auto& dl = i.getDebugLoc())
				{
					o["l"] = (int64_t)dl.getLine();
					if(auto sc = dyn_cast_or_null<DIScope>(dl.getScope()))
					{
						auto fn = sc->getFilename().str();
						if(f.getSubprogram() && fn != f.getSubprogram()->getFilename().str()) o["lf"] = fn;
					}
				}
				J::Array ops;
				if(auto g = dyn_cast<GetElementPtrInst>(&i))
				{
					MapVector<Value*, APInt> var;
					APInt off(64, 0);
					ops.push_back(operand(ctx, g->getPointerOperand()));
					if(cast<GEPOperator>(g)->collectOffset(*DL, 64, var, off))
					{
						o["off"] = (int64_t)off.getSExtValue();
						J::Array vs;
						for(auto& kv : var) vs.push_back(J::Array{operand(ctx, kv.first), (int64_t)kv.second.getSExtValue()});
						if(!vs.empty()) o["var"] = std::move(vs);
					}
					else o["var"] = J::Array{J::Array{J::Array{"x", "gep"}, 1}};
					o["st"] = typeStr(g->getSourceElementType());
				}
				else if(auto cb = dyn_cast<CallBase>(&i))
				{
					o["c"] = operand(ctx, cb->getCalledOperand());
					for(auto& a : cb->args()) ops.push_back(operand(ctx, a.get()));
					J::Array at;
					bool any = false;
					for(unsigned k = 0; k != cb->arg_size(); ++k)
					{
						std::string t = typeStr(cb->getArgOperand(k)->getType());
						if(cb->isByValArgument(k)) { t += "b" + std::to_string(DL->getTypeAllocSize(cb->getParamByValType(k)).getFixedValue()); any = true; }
						if(cb->paramHasAttr(k, Attribute::StructRet)) { t += "r"; any = true; }
						at.push_back(t);
					}
					if(any) o["at"] = std::move(at);
					if(cb->doesNotThrow()) o["nounw"] = true;
					if(cb->doesNotReturn()) o["noret"] = true;
					if(auto inv = dyn_cast<InvokeInst>(&i))
					{
						o["nb"] = (int64_t)ctx.bbs[inv->getNormalDest()];
						o["ub"] = (int64_t)ctx.bbs[inv->getUnwindDest()];
					}
				}
				else if(auto p = dyn_cast<PHINode>(&i))
				{
					for(unsigned k = 0; k != p->getNumIncomingValues(); ++k)
						ops.push_back(J::Array{(int64_t)ctx.bbs[p->getIncomingBlock(k)], operand(ctx, p->getIncomingValue(k))});
				}
				else if(auto s = dyn_cast<SwitchInst>(&i))
				{
					ops.push_back(operand(ctx, s->getCondition()));
					o["def"] = (int64_t)ctx.bbs[s->getDefaultDest()];
					J::Array cs;
					for(auto& c : s->cases()) cs.push_back(J::Array{(int64_t)c.getCaseValue()->getZExtValue(), (int64_t)ctx.bbs[c.getCaseSuccessor()]});
					o["cases"] = std::move(cs);
				}
				else if(auto lp = dyn_cast<LandingPadInst>(&i))
				{
					o["cleanup"] = lp->isCleanup();
					J::Array cs;
					for(unsigned k = 0; k != lp->getNumClauses(); ++k) cs.push_back(J::Array{lp->isCatch(k) ? "catch" : "filter", constant(lp->getClause(k))});
					o["clauses"] = std::move(cs);
				}
				else
				{
					for(auto& a : i.operands()) ops.push_back(operand(ctx, a.get()));
				}
				if(auto c = dyn_cast<CmpInst>(&i)) o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
				if(auto e = dyn_cast<ExtractValueInst>(&i)) { J::Array ix; for(auto x : e->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
				if(auto e = dyn_cast<InsertValueInst>(&i)) { J::Array ix; for(auto x : e->indices()) ix.push_back((int64_t)x); o["ix"] = std::move(ix); }
				if(auto a = dyn_cast<AllocaInst>(&i)) o["sz"] = (int64_t)(a->getAllocationSize(*DL) ? a->getAllocationSize(*DL)->getFixedValue() : 0);
				if(auto l = dyn_cast<LoadInst>(&i)) { o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue(); if(l->isAtomic()) o["at"] = (int64_t)l->getOrdering(); }
				if(auto l = dyn_cast<StoreInst>(&i)) { o["sz"] = (int64_t)DL->getTypeStoreSize(l->getValueOperand()->getType()).getFixedValue(); if(l->isAtomic()) o["at"] = (int64_t)l->getOrdering(); }
				if(auto l = dyn_cast<AtomicRMWInst>(&i)) { o["rmw"] = AtomicRMWInst::getOperationName(l->getOperation()).str(); o["sz"] = (int64_t)DL->getTypeStoreSize(l->getType()).getFixedValue(); o["at"] = (int64_t)l->getOrdering(); }
				if(!ops.empty()) o["a"] = std::move(ops);
				is.push_back(std::move(o));
			}
			blocks.push_back(std::move(is));
		}
		fo["b"] = std::move(blocks);
		fo["lv"] = std::move(locals);
		emit(std::move(fo));
	}
	return 0;
}
