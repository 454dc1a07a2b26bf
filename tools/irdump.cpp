// irdump: prints an LLVM module (bitcode or .ll) as one JSON document.
// Used by the static analyses in /verif/lib; it only reads the IR.
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static int next_id;

static int id_of(const Value *v) {
	auto it = ids.find(v);
	if (it != ids.end()) return it->second;
	return ids[v] = next_id++;
}

static json::Value type_json(Type *t) {
	if (t->isVoidTy()) return "void";
	if (auto *i = dyn_cast<IntegerType>(t)) return (int64_t)i->getBitWidth();
	if (t->isPointerTy()) return "ptr";
	if (t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty()) return "fp";
	if (auto *s = dyn_cast<StructType>(t)) {
		json::Array fields;
		auto *sl = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); i++)
			fields.push_back(json::Array{
				(int64_t)sl->getElementOffset(i), type_json(s->getElementType(i))});
		return json::Object{
			{"struct", std::move(fields)}, {"size", (int64_t)DL->getTypeAllocSize(t)}};
	}
	if (auto *a = dyn_cast<ArrayType>(t)) {
		return json::Object{{"array", type_json(a->getElementType())},
			{"n", (int64_t)a->getNumElements()},
			{"esize", (int64_t)DL->getTypeAllocSize(a->getElementType())},
			{"size", (int64_t)DL->getTypeAllocSize(t)}};
	}
	if (t->isMetadataTy()) return "md";
	if (t->isVectorTy()) return "vec";
	return "other";
}

static int64_t tsize(Type *t) {
	if (!t->isSized()) return 0;
	return (int64_t)DL->getTypeStoreSize(t);
}

static json::Value val(const Value *v);

static json::Value int_json(const APInt &a) {
	SmallString<40> s;
	a.toString(s, 10, false);
	if (a.getActiveBits() <= 62) return (int64_t)a.getZExtValue();
	return json::Object{{"big", std::string(s)}};
}

static json::Value gep_json(const GEPOperator *g) {
	json::Array idx;
	int64_t off = 0;
	gep_type_iterator GTI = gep_type_begin(g), GTE = gep_type_end(g);
	for (; GTI != GTE; ++GTI) {
		const Value *op = GTI.getOperand();
		if (StructType *st = GTI.getStructTypeOrNull()) {
			unsigned n = cast<ConstantInt>(op)->getZExtValue();
			off += DL->getStructLayout(st)->getElementOffset(n);
			continue;
		}
		int64_t sz = DL->getTypeAllocSize(GTI.getIndexedType());
		if (auto *ci = dyn_cast<ConstantInt>(op)) {
			off += ci->getSExtValue() * sz;
			continue;
		}
		idx.push_back(json::Array{val(op), sz});
	}
	return json::Array{val(g->getPointerOperand()), off, std::move(idx)};
}

static json::Value val(const Value *v) {
	if (auto *c = dyn_cast<ConstantInt>(v))
		return json::Array{"i", int_json(c->getValue()), (int64_t)c->getBitWidth()};
	if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
	if (isa<UndefValue>(v)) return json::Array{"u"};
	if (auto *f = dyn_cast<ConstantFP>(v)) {
		bool lose;
		APFloat a = f->getValueAPF();
		a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
		std::string s;
		raw_string_ostream os(s);
		os << format("%a", a.convertToDouble());
		return json::Array{"f", os.str()};
	}
	if (isa<Function>(v)) return json::Array{"fn", v->getName().str()};
	if (isa<GlobalValue>(v)) return json::Array{"g", v->getName().str()};
	if (isa<ConstantAggregateZero>(v))
		return json::Array{"z", (int64_t)DL->getTypeAllocSize(v->getType())};
	if (auto *d = dyn_cast<ConstantDataSequential>(v)) {
		json::Array e;
		if (d->getElementType()->isIntegerTy()) {
			for (unsigned i = 0; i < d->getNumElements(); i++)
				e.push_back(int_json(d->getElementAsAPInt(i)));
			return json::Array{"da", (int64_t)d->getElementByteSize(), std::move(e)};
		}
		return json::Array{"z", (int64_t)DL->getTypeAllocSize(v->getType())};
	}
	if (auto *a = dyn_cast<ConstantAggregate>(v)) {
		json::Array e;
		for (unsigned i = 0; i < a->getNumOperands(); i++) {
			int64_t off;
			if (auto *st = dyn_cast<StructType>(a->getType()))
				off = DL->getStructLayout(st)->getElementOffset(i);
			else
				off = (int64_t)i * (int64_t)DL->getTypeAllocSize(
					cast<ArrayType>(a->getType())->getElementType());
			e.push_back(json::Array{off, tsize(a->getOperand(i)->getType()), val(a->getOperand(i))});
		}
		return json::Array{"agg", (int64_t)DL->getTypeAllocSize(v->getType()), std::move(e)};
	}
	if (auto *ce = dyn_cast<ConstantExpr>(v)) {
		if (auto *g = dyn_cast<GEPOperator>(ce)) return json::Array{"gep", gep_json(g)};
		json::Array ops;
		for (auto &o : ce->operands()) ops.push_back(val(o));
		return json::Array{"ce", ce->getOpcodeName(), std::move(ops)};
	}
	if (isa<MetadataAsValue>(v)) return json::Array{"md"};
	if (isa<InlineAsm>(v)) return json::Array{"asm"};
	return json::Array{"v", (int64_t)id_of(v)};
}

static const DIType *strip(const DIType *t, std::string *tdname = nullptr) {
	while (t) {
		auto *d = dyn_cast<DIDerivedType>(t);
		if (!d) break;
		unsigned tag = d->getTag();
		if (tag == dwarf::DW_TAG_typedef) {
			if (tdname && tdname->empty()) *tdname = d->getName().str();
			t = d->getBaseType();
		}
		else if (tag == dwarf::DW_TAG_const_type || tag == dwarf::DW_TAG_volatile_type)
			t = d->getBaseType();
		else break;
	}
	return t;
}

// short description of a DI type: "AstNode", "AstNode*", "uint:32", "enum:NodeType", ...
static std::string di_desc(const DIType *t) {
	std::string td;
	t = strip(t, &td);
	if (!t) return "void";
	if (auto *d = dyn_cast<DIDerivedType>(t)) {
		if (d->getTag() == dwarf::DW_TAG_pointer_type) return di_desc(d->getBaseType()) + "*";
		return "?";
	}
	if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
	if (auto *c = dyn_cast<DICompositeType>(t)) {
		std::string n = c->getName().str();
		if (n.empty()) n = td;
		if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + n;
		if (c->getTag() == dwarf::DW_TAG_array_type) return di_desc(c->getBaseType()) + "[]";
		return n;
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return "?";
}

static void members(const DICompositeType *c, uint64_t base, json::Array &out) {
	for (auto *e : c->getElements()) {
		auto *m = dyn_cast_or_null<DIDerivedType>(e);
		if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
		uint64_t off = base + m->getOffsetInBits();
		auto *inner = dyn_cast_or_null<DICompositeType>(strip(m->getBaseType()));
		bool agg = inner && (inner->getTag() == dwarf::DW_TAG_structure_type ||
			inner->getTag() == dwarf::DW_TAG_union_type);
		if (m->getName().empty() && agg) { members(inner, off, out); continue; }
		out.push_back(json::Object{{"name", m->getName().str()}, {"bit", (int64_t)off},
			{"bits", (int64_t)m->getSizeInBits()}, {"type", di_desc(m->getBaseType())}});
		if (agg) {
			json::Array sub;
			members(inner, off, sub);
			for (auto &s : sub) {
				auto o = *s.getAsObject();
				o["name"] = m->getName().str() + "." + o.getString("name")->str();
				out.push_back(std::move(o));
			}
		}
	}
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print("irdump", errs()); return 1; }
	DL = &m->getDataLayout();

	json::Object root, structs, enums;
	DebugInfoFinder f;
	f.processModule(*m);
	std::map<const DICompositeType *, std::string> tdn;
	for (auto *t : f.types()) {
		if (auto *d = dyn_cast<DIDerivedType>(t))
			if (d->getTag() == dwarf::DW_TAG_typedef)
				if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
					if (c->getName().empty()) tdn[c] = d->getName().str();
	}
	for (auto *t : f.types()) {
		auto *c = dyn_cast<DICompositeType>(t);
		if (!c) continue;
		std::string n = c->getName().str();
		if (n.empty() && tdn.count(c)) n = tdn[c];
		if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
			if (n.empty() || !c->getSizeInBits()) continue;
			json::Array ms;
			members(c, 0, ms);
			structs[n] = json::Object{{"size", (int64_t)(c->getSizeInBits() / 8)}, {"members", std::move(ms)}};
		}
		else if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
			json::Array es;
			for (auto *e : c->getElements())
				if (auto *en = dyn_cast_or_null<DIEnumerator>(e))
					es.push_back(json::Array{en->getName().str(), (int64_t)en->getValue().getSExtValue()});
			static int anon;
			if (n.empty()) n = "anon" + std::to_string(anon++);
			enums[n] = std::move(es);
		}
	}
	root["structs"] = std::move(structs);
	root["enums"] = std::move(enums);

	json::Array globals;
	for (auto &g : m->globals()) {
		json::Object o{{"name", g.getName().str()}, {"const", g.isConstant()},
			{"size", (int64_t)DL->getTypeAllocSize(g.getValueType())},
			{"internal", g.hasLocalLinkage()}, {"type", type_json(g.getValueType())}};
		if (g.hasInitializer()) o["init"] = val(g.getInitializer());
		SmallVector<DIGlobalVariableExpression *, 2> dbg;
		g.getDebugInfo(dbg);
		for (auto *d : dbg) {
			o["src"] = d->getVariable()->getName().str();
			o["file"] = d->getVariable()->getFilename().str();
			o["line"] = (int64_t)d->getVariable()->getLine();
			o["ditype"] = di_desc(d->getVariable()->getType());
		}
		globals.push_back(std::move(o));
	}
	root["globals"] = std::move(globals);

	json::Array funcs;
	for (auto &fn : *m) {
		ids.clear();
		next_id = 0;
		json::Object fo{{"name", fn.getName().str()}, {"internal", fn.hasLocalLinkage()},
			{"decl", fn.isDeclaration()}, {"vararg", fn.isVarArg()},
			{"ret", type_json(fn.getReturnType())}};
		json::Array params;
		for (auto &a : fn.args()) params.push_back(json::Array{(int64_t)id_of(&a), type_json(a.getType())});
		fo["params"] = std::move(params);
		if (auto *sp = fn.getSubprogram()) {
			fo["src"] = sp->getName().str();
			fo["file"] = sp->getFilename().str();
			fo["line"] = (int64_t)sp->getLine();
			json::Array dis;
			if (auto *st = sp->getType())
				for (auto *t : st->getTypeArray()) dis.push_back(di_desc(t));
			fo["ditypes"] = std::move(dis);
		}
		std::map<const BasicBlock *, int64_t> bbid;
		int64_t nb = 0;
		for (auto &bb : fn) bbid[&bb] = nb++;
		json::Array blocks;
		for (auto &bb : fn) {
			json::Array insts;
			for (auto &in : bb) {
				if (auto *c = dyn_cast<CallInst>(&in))
					if (c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("llvm.dbg.")) continue;
				json::Object o{{"op", in.getOpcodeName()}};
				if (!in.getType()->isVoidTy()) {
					o["id"] = (int64_t)id_of(&in);
					o["ty"] = type_json(in.getType());
				}
				if (auto dl = in.getDebugLoc()) {
					o["line"] = (int64_t)dl.getLine();
					if (auto *sc = dyn_cast_or_null<DIScope>(dl.getScope()))
						if (sc->getFilename() != (fn.getSubprogram() ? fn.getSubprogram()->getFilename() : ""))
							o["file"] = sc->getFilename().str();
				}
				if (auto *g = dyn_cast<GetElementPtrInst>(&in)) {
					o["gep"] = gep_json(cast<GEPOperator>(g));
				}
				else if (auto *p = dyn_cast<PHINode>(&in)) {
					json::Array inc;
					for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
						inc.push_back(json::Array{bbid[p->getIncomingBlock(i)], val(p->getIncomingValue(i))});
					o["inc"] = std::move(inc);
				}
				else if (auto *b = dyn_cast<BranchInst>(&in)) {
					if (b->isConditional()) o["cond"] = val(b->getCondition());
					json::Array s;
					for (unsigned i = 0; i < b->getNumSuccessors(); i++) s.push_back(bbid[b->getSuccessor(i)]);
					o["succ"] = std::move(s);
				}
				else if (auto *sw = dyn_cast<SwitchInst>(&in)) {
					o["cond"] = val(sw->getCondition());
					o["bits"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
					o["default"] = bbid[sw->getDefaultDest()];
					json::Array cs;
					for (auto &c : sw->cases())
						cs.push_back(json::Array{int_json(c.getCaseValue()->getValue()), bbid[c.getCaseSuccessor()]});
					o["cases"] = std::move(cs);
				}
				else if (auto *c = dyn_cast<CallBase>(&in)) {
					o["callee"] = val(c->getCalledOperand()->stripPointerCasts());
					json::Array as, ats;
					for (auto &a : c->args()) {
						as.push_back(val(a));
						ats.push_back(type_json(a->getType()));
					}
					o["args"] = std::move(as);
					o["atys"] = std::move(ats);
					json::Object bv;
					for (unsigned i = 0; i < c->arg_size(); i++)
						if (c->isByValArgument(i))
							bv[std::to_string(i)] = (int64_t)DL->getTypeAllocSize(c->getParamByValType(i));
					if (!bv.empty()) o["byval"] = std::move(bv);
				}
				else {
					json::Array ops;
					for (auto &x : in.operands()) ops.push_back(val(x));
					o["ops"] = std::move(ops);
					if (auto *c = dyn_cast<CmpInst>(&in)) {
						o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
						o["oty"] = type_json(c->getOperand(0)->getType());
					}
					if (auto *c = dyn_cast<CastInst>(&in)) o["oty"] = type_json(c->getSrcTy());
					if (auto *s = dyn_cast<StoreInst>(&in)) {
						o["size"] = tsize(s->getValueOperand()->getType());
						o["oty"] = type_json(s->getValueOperand()->getType());
					}
					if (auto *l = dyn_cast<LoadInst>(&in)) o["size"] = tsize(l->getType());
					if (auto *a = dyn_cast<AllocaInst>(&in)) {
						o["esize"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType());
					}
					if (auto *e = dyn_cast<ExtractValueInst>(&in)) {
						json::Array ix;
						for (unsigned i : e->indices()) ix.push_back((int64_t)i);
						o["idx"] = std::move(ix);
					}
					if (auto *e = dyn_cast<InsertValueInst>(&in)) {
						json::Array ix;
						for (unsigned i : e->indices()) ix.push_back((int64_t)i);
						o["idx"] = std::move(ix);
					}
				}
				insts.push_back(std::move(o));
			}
			blocks.push_back(std::move(insts));
		}
		fo["blocks"] = std::move(blocks);
		funcs.push_back(std::move(fo));
	}
	root["functions"] = std::move(funcs);
	outs() << json::Value(std::move(root)) << "\n";
	return 0;
}
