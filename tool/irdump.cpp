// irdump: reads a linked LLVM bitcode module (built from /repo's sources with
// debug info) and writes a resolved-program fact base as JSON lines.
//
// One line per: struct type, enum, global, function.  Nothing here decides a
// property: it only makes the compiler's view of the program (resolved callees,
// struct fields, enum members, control flow, SSA def/use, source lines)
// available to the rule engine.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace llvm;
namespace J = llvm::json;

static const DataLayout *DL;
static std::map<std::string, const DICompositeType *> StructDI;
static std::map<const DICompositeType *, std::string> EnumName;

static std::map<const DICompositeType *, std::string> SynthName;

// named struct, or "outer.member" for an anonymous one
static std::string compName(const DICompositeType *C)
{
	if (!C->getName().empty()) {
		return C->getName().str();
	}
	auto it = SynthName.find(C);
	return it == SynthName.end() ? "" : it->second;
}

static const DIType *strip(const DIType *T)
{
	while (T) {
		if (auto *D = dyn_cast<DIDerivedType>(T)) {
			switch (D->getTag()) {
			case dwarf::DW_TAG_typedef:
			case dwarf::DW_TAG_const_type:
			case dwarf::DW_TAG_volatile_type:
			case dwarf::DW_TAG_restrict_type:
			case dwarf::DW_TAG_member:
				T = D->getBaseType();
				continue;
			default:
				return T;
			}
		}
		return T;
	}
	return T;
}

static std::string dityname(const DIType *T, int depth = 0)
{
	if (!T) {
		return "void";
	}
	if (depth > 12) {
		return "...";
	}
	if (auto *D = dyn_cast<DIDerivedType>(T)) {
		switch (D->getTag()) {
		case dwarf::DW_TAG_typedef:
			return D->getName().str();
		case dwarf::DW_TAG_pointer_type:
			return dityname(D->getBaseType(), depth + 1) + " *";
		case dwarf::DW_TAG_const_type:
			return "const " + dityname(D->getBaseType(), depth + 1);
		case dwarf::DW_TAG_member:
			return dityname(D->getBaseType(), depth + 1);
		default:
			return dityname(D->getBaseType(), depth + 1);
		}
	}
	if (auto *C = dyn_cast<DICompositeType>(T)) {
		std::string n = compName(C);
		switch (C->getTag()) {
		case dwarf::DW_TAG_structure_type:
			return "struct " + n;
		case dwarf::DW_TAG_union_type:
			return "union " + n;
		case dwarf::DW_TAG_enumeration_type:
			return "enum " + n;
		case dwarf::DW_TAG_array_type: {
			std::string s = dityname(C->getBaseType(), depth + 1);
			for (auto *E : C->getElements()) {
				if (auto *R = dyn_cast<DISubrange>(E)) {
					if (auto *CI = dyn_cast_if_present<ConstantInt *>(R->getCount())) {
						s += "[" + std::to_string(CI->getSExtValue()) + "]";
					} else {
						s += "[]";
					}
				}
			}
			return s;
		}
		default:
			return n;
		}
	}
	if (isa<DISubroutineType>(T)) {
		return "fn";
	}
	return T->getName().str();
}

static std::string tystr(Type *T)
{
	if (auto *S = dyn_cast<StructType>(T)) {
		if (S->hasName()) {
			return "%" + S->getName().str();
		}
	}
	std::string s;
	raw_string_ostream os(s);
	T->print(os, false, true);
	return os.str();
}

static std::string structBase(StructType *S)
{
	if (!S->hasName()) {
		return "";
	}
	StringRef n = S->getName();
	if (n.consume_front("struct.") || n.consume_front("union.")) {
		// strip llvm-link's numeric suffix
		size_t p = n.rfind('.');
		if (p != StringRef::npos && p + 1 < n.size()
		    && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos && n.substr(0, p) != "anon") {
			n = n.substr(0, p);
		}
		if (n.starts_with("anon")) {
			return "";
		}
		return n.str();
	}
	return "";
}

static std::map<const StructType *, const DICompositeType *> LayoutDI;

// member of composite at byte offset
static const DIDerivedType *memberAt(const DICompositeType *C, uint64_t off)
{
	const DIDerivedType *best = nullptr;
	for (auto *E : C->getElements()) {
		auto *M = dyn_cast<DIDerivedType>(E);
		if (!M || M->getTag() != dwarf::DW_TAG_member) {
			continue;
		}
		uint64_t o = M->getOffsetInBits() / 8;
		if (o == off && (!best || M->getSizeInBits())) {
			if (!best) {
				best = M;
			}
		}
	}
	return best;
}

// Resolve a GEP into a list of steps: {"f": field, "s": struct} or {"i": operand}
static std::map<const Value *, const DICompositeType *> GepDI;

static void collectType(const DIType *T, std::set<const DIType *> &seen)
{
	if (!T || !seen.insert(T).second) {
		return;
	}
	if (auto *D = dyn_cast<DIDerivedType>(T)) {
		collectType(D->getBaseType(), seen);
	} else if (auto *C = dyn_cast<DICompositeType>(T)) {
		collectType(C->getBaseType(), seen);
		if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
			if (!compName(C).empty() && C->getElements().size()) {
				StructDI[compName(C)] = C;
			}
			for (auto *E : C->getElements()) {
				if (auto *M = dyn_cast<DIDerivedType>(E)) {
					if (!compName(C).empty()) {
						const DIType *B = strip(M->getBaseType());
						auto *BC = B ? dyn_cast<DICompositeType>(B) : nullptr;
						while (BC && BC->getTag() == dwarf::DW_TAG_array_type) {
							B = strip(BC->getBaseType());
							BC = B ? dyn_cast<DICompositeType>(B) : nullptr;
						}
						if (BC && BC->getName().empty() && !SynthName.count(BC)) {
							SynthName[BC] = compName(C) + "." + M->getName().str();
							seen.erase(BC);
						}
					}
					collectType(M->getBaseType(), seen);
				}
			}
		}
	} else if (auto *S = dyn_cast<DISubroutineType>(T)) {
		for (auto *E : S->getTypeArray()) {
			collectType(E, seen);
		}
	}
}

static J::Value constVal(const Constant *C, int depth = 0);

static J::Value constVal(const Constant *C, int depth)
{
	if (depth > 12) {
		return "<deep>";
	}
	if (auto *CI = dyn_cast<ConstantInt>(C)) {
		if (CI->getBitWidth() > 64) {
			return "<bigint>";
		}
		return CI->getBitWidth() == 1 ? (int64_t)CI->getZExtValue() : CI->getSExtValue();
	}
	if (isa<ConstantPointerNull>(C)) {
		return J::Object{ { "null", 1 } };
	}
	if (isa<UndefValue>(C)) {
		return J::Object{ { "undef", 1 } };
	}
	if (auto *F = dyn_cast<Function>(C)) {
		return J::Object{ { "fn", F->getName().str() } };
	}
	if (auto *G = dyn_cast<GlobalVariable>(C)) {
		J::Object o{ { "g", G->getName().str() } };
		if (G->hasInitializer() && G->isConstant()) {
			if (auto *CDA = dyn_cast<ConstantDataArray>(G->getInitializer())) {
				if (CDA->isCString()) {
					o["str"] = J::fixUTF8(CDA->getAsCString());
				} else if (CDA->isString()) {
					o["str"] = J::fixUTF8(CDA->getAsString());
				}
			} else if (G->getName().starts_with(".str") && isa<ConstantAggregateZero>(G->getInitializer())) {
				o["str"] = "";
			}
		}
		return o;
	}
	if (auto *CE = dyn_cast<ConstantExpr>(C)) {
		if (CE->getOpcode() == Instruction::GetElementPtr || CE->isCast()) {
			APInt off(64, 0);
			const Value *base = CE;
			if (CE->getType()->isPointerTy()) {
				base = CE->stripAndAccumulateConstantOffsets(*DL, off, true);
				if (base != CE && isa<Constant>(base)) {
					J::Value b = constVal(cast<Constant>(base), depth + 1);
					if (auto *bo = b.getAsObject()) {
						(*bo)["off"] = off.getSExtValue();
					}
					return b;
				}
			}
		}
		J::Object o{ { "ce", CE->getOpcodeName() } };
		J::Array ops;
		for (auto &op : CE->operands()) {
			ops.push_back(constVal(cast<Constant>(op.get()), depth + 1));
		}
		o["ops"] = std::move(ops);
		return o;
	}
	if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
		if (CDS->isString()) {
			return J::Object{ { "bytes", J::fixUTF8(CDS->getRawDataValues()) } };
		}
		J::Array a;
		for (unsigned i = 0; i < CDS->getNumElements(); ++i) {
			a.push_back(constVal(CDS->getElementAsConstant(i), depth + 1));
		}
		return J::Object{ { "arr", std::move(a) } };
	}
	if (auto *Z = dyn_cast<ConstantAggregateZero>(C)) {
		return J::Object{ { "zero", 1 } , {"ty", tystr(Z->getType())}};
	}
	if (auto *A = dyn_cast<ConstantAggregate>(C)) {
		J::Array a;
		for (auto &op : A->operands()) {
			a.push_back(constVal(cast<Constant>(op.get()), depth + 1));
		}
		J::Object o;
		if (auto *S = dyn_cast<StructType>(A->getType())) {
			o["struct"] = structBase(S);
		}
		o["arr"] = std::move(a);
		return o;
	}
	if (isa<ConstantFP>(C)) {
		return J::Object{ { "fp", 1 } };
	}
	std::string s;
	raw_string_ostream os(s);
	C->print(os);
	return os.str();
}

static std::map<const Value *, int> Ids;

static J::Value opv(const Value *V)
{
	if (auto *C = dyn_cast<Constant>(V)) {
		J::Value v = constVal(C);
		if (auto *i = v.getAsInteger().has_value() ? &v : nullptr) {
			(void)i;
			return J::Object{ { "k", *v.getAsInteger() } };
		}
		return v;
	}
	if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V)) {
		return "<md>";
	}
	if (isa<InlineAsm>(V)) {
		return "<asm>";
	}
	auto it = Ids.find(V);
	if (it == Ids.end()) {
		return "<?>";
	}
	return J::Object{ { "v", it->second } };
}

static const DICompositeType *compositeOf(const DIType *T)
{
	T = strip(T);
	return T ? dyn_cast<DICompositeType>(T) : nullptr;
}

static void mapLayout(StructType *S, const DICompositeType *C)
{
	if (!C || C->getTag() != dwarf::DW_TAG_structure_type || S->isOpaque() || !LayoutDI.insert({ S, C }).second) {
		return;
	}
	auto *L = DL->getStructLayout(S);
	for (unsigned i = 0; i < S->getNumElements(); ++i) {
		Type *T = S->getElementType(i);
		auto *M = memberAt(C, L->getElementOffset(i));
		const DICompositeType *MC = M ? compositeOf(M->getBaseType()) : nullptr;
		while (auto *A = dyn_cast<ArrayType>(T)) {
			T = A->getElementType();
			if (MC && MC->getTag() == dwarf::DW_TAG_array_type) {
				MC = compositeOf(MC->getBaseType());
			}
		}
		if (auto *E = dyn_cast<StructType>(T)) {
			mapLayout(E, MC);
		}
	}
}

static J::Array gepSteps(const GEPOperator *G)
{
	J::Array steps;
	const DICompositeType *cur = nullptr;
	auto it = GepDI.find(G->getPointerOperand());
	Type *T = G->getSourceElementType();
	if (auto *S = dyn_cast<StructType>(T)) {
		auto n = structBase(S);
		auto f = StructDI.find(n);
		auto ld = LayoutDI.find(S);
		if (f != StructDI.end()) {
			cur = f->second;
		} else if (ld != LayoutDI.end()) {
			cur = ld->second;
		} else if (it != GepDI.end()) {
			cur = it->second;
		}
	} else if (it != GepDI.end()) {
		cur = it->second;
	}

	bool first = true;
	for (auto idx = G->idx_begin(); idx != G->idx_end(); ++idx) {
		const Value *iv = idx->get();
		if (first) {
			first = false;
			if (auto *ci = dyn_cast<ConstantInt>(iv)) {
				if (ci->isZero()) {
					continue;
				}
			}
			steps.push_back(J::Object{ { "idx", opv(iv) }, { "ety", tystr(T) } });
			continue;
		}
		if (auto *S = dyn_cast<StructType>(T)) {
			unsigned fi = cast<ConstantInt>(iv)->getZExtValue();
			uint64_t off = DL->getStructLayout(S)->getElementOffset(fi);
			J::Object st{ { "s", structBase(S) }, { "fi", (int64_t)fi } };
			const DICompositeType *next = nullptr;
			if (cur) {
				if (auto *M = memberAt(cur, off)) {
					st["f"] = M->getName().str();
					st["dt"] = dityname(M->getBaseType());
					next = compositeOf(M->getBaseType());
				}
				if (structBase(S).empty()) {
					st["s"] = compName(cur);
				}
			}
			steps.push_back(std::move(st));
			cur = next;
			T = S->getElementType(fi);
		} else if (auto *A = dyn_cast<ArrayType>(T)) {
			steps.push_back(J::Object{ { "idx", opv(iv) }, { "n", (int64_t)A->getNumElements() }, { "ety", tystr(A->getElementType()) } });
			T = A->getElementType();
			if (cur && cur->getTag() == dwarf::DW_TAG_array_type) {
				cur = compositeOf(cur->getBaseType());
			}
		} else {
			steps.push_back(J::Object{ { "idx", opv(iv) } });
		}
	}
	if (cur) {
		GepDI[G] = cur;
	}
	return steps;
}

static void dumpFunction(const Function &F, raw_ostream &os)
{
	Ids.clear();
	J::Object fo{ { "kind", "func" }, { "name", F.getName().str() }, { "internal", F.hasLocalLinkage() },
		{ "decl", F.isDeclaration() }, { "noreturn", F.hasFnAttribute(Attribute::NoReturn) },
		{ "ret", tystr(F.getReturnType()) }, { "vararg", F.isVarArg() } };
	J::Array args;
	int id = 0;
	for (auto &A : F.args()) {
		Ids[&A] = id++;
		args.push_back(J::Object{ { "id", Ids[&A] }, { "ty", tystr(A.getType()) }, { "name", A.getName().str() } });
	}
	fo["args"] = std::move(args);
	if (auto *SP = F.getSubprogram()) {
		fo["file"] = SP->getFilename().str();
		fo["dir"] = SP->getDirectory().str();
		fo["line"] = (int64_t)SP->getLine();
		fo["cname"] = SP->getName().str();
		J::Array ts;
		if (auto *ST = SP->getType()) {
			for (auto *T : ST->getTypeArray()) {
				ts.push_back(dityname(T));
			}
		}
		fo["ditypes"] = std::move(ts);
	}
	if (F.isDeclaration()) {
		os << J::Value(std::move(fo)) << "\n";
		return;
	}

	std::map<const BasicBlock *, int> bbs;
	int bi = 0;
	for (auto &B : F) {
		bbs[&B] = bi++;
		for (auto &I : B) {
			if (isa<DbgInfoIntrinsic>(I)) {
				continue;
			}
			Ids[&I] = id++;
		}
	}
	// names of allocas and SSA values through debug intrinsics
	std::map<const Value *, std::string> names;
	std::map<const Value *, std::string> nty;
	std::map<const Value *, std::string> alias;
	for (auto &B : F) {
		for (auto &I : B) {
			if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
				if (auto *V = D->getNumVariableLocationOps() ? D->getVariableLocationOp(0) : nullptr) {
					if (names.count(V) && isa<Argument>(V) && nty[V] == "void *" && !alias.count(V)
					    && D->getVariable()->getScope()->getSubprogram() == F.getSubprogram()) {
						// a local variable of a proper type that holds an untyped parameter
						alias[V] = dityname(D->getVariable()->getType());
					}
					if (!names.count(V)) {
						names[V] = D->getVariable()->getName().str();
						nty[V] = dityname(D->getVariable()->getType());
						if (isa<AllocaInst>(V)) {
							if (auto *C = compositeOf(D->getVariable()->getType())) {
								GepDI[V] = C;
							}
						}
					}
				}
			}
		}
	}
	J::Array argnames;
	for (auto &A : F.args()) {
		argnames.push_back(names.count(&A) ? names[&A] : A.getName().str());
	}
	fo["argnames"] = std::move(argnames);
	J::Array argalias;
	for (auto &A : F.args()) {
		argalias.push_back(alias.count(&A) ? alias[&A] : std::string());
	}
	fo["argalias"] = std::move(argalias);

	J::Array blocks;
	for (auto &B : F) {
		J::Array ins;
		for (auto &I : B) {
			if (isa<DbgInfoIntrinsic>(I)) {
				continue;
			}
			J::Object o{ { "id", Ids[&I] }, { "op", I.getOpcodeName() } };
			if (!I.getType()->isVoidTy()) {
				o["ty"] = tystr(I.getType());
			}
			if (names.count(&I)) {
				o["name"] = names[&I];
				o["dt"] = nty[&I];
			}
			if (auto &L = I.getDebugLoc()) {
				o["line"] = (int64_t)L.getLine();
				o["col"] = (int64_t)L.getCol();
				auto *LS = L->getScope()->getSubprogram();
				if (LS && LS != F.getSubprogram()) {
					o["infn"] = LS->getName().str();
					o["infile"] = LS->getFilename().str();
				}
			}
			J::Array ops;
			if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
				o["base"] = opv(G->getPointerOperand());
				o["steps"] = gepSteps(cast<GEPOperator>(G));
				o["sty"] = tystr(G->getSourceElementType());
				os.flush();
			} else if (auto *C = dyn_cast<CallBase>(&I)) {
				const Value *cv = C->getCalledOperand()->stripPointerCasts();
				if (auto *CF = dyn_cast<Function>(cv)) {
					if (CF->getName().starts_with("llvm.lifetime") || CF->getName().starts_with("llvm.dbg")) {
						continue;
					}
					o["callee"] = CF->getName().str();
				} else {
					o["fptr"] = opv(cv);
				}
				for (auto &A : C->args()) {
					ops.push_back(opv(A.get()));
				}
				if (C->doesNotReturn()) {
					o["noreturn"] = 1;
				}
			} else if (auto *P = dyn_cast<PHINode>(&I)) {
				for (unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
					ops.push_back(J::Array{ opv(P->getIncomingValue(i)), bbs[P->getIncomingBlock(i)] });
				}
			} else if (auto *BR = dyn_cast<BranchInst>(&I)) {
				J::Array ss;
				if (BR->isConditional()) {
					ops.push_back(opv(BR->getCondition()));
				}
				for (unsigned i = 0; i < BR->getNumSuccessors(); ++i) {
					ss.push_back(bbs[BR->getSuccessor(i)]);
				}
				o["succ"] = std::move(ss);
			} else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
				ops.push_back(opv(SW->getCondition()));
				J::Array cs;
				for (auto &c : SW->cases()) {
					cs.push_back(J::Array{ (int64_t)c.getCaseValue()->getSExtValue(), bbs[c.getCaseSuccessor()] });
				}
				o["cases"] = std::move(cs);
				o["default"] = bbs[SW->getDefaultDest()];
			} else if (auto *IC = dyn_cast<ICmpInst>(&I)) {
				o["pred"] = ICmpInst::getPredicateName(IC->getPredicate()).str();
				ops.push_back(opv(I.getOperand(0)));
				ops.push_back(opv(I.getOperand(1)));
				o["oty"] = tystr(I.getOperand(0)->getType());
			} else if (auto *AI = dyn_cast<AllocaInst>(&I)) {
				o["aty"] = tystr(AI->getAllocatedType());
				if (auto *AT = dyn_cast<ArrayType>(AI->getAllocatedType())) {
					o["n"] = (int64_t)AT->getNumElements();
				}
			} else {
				for (auto &op : I.operands()) {
					ops.push_back(opv(op.get()));
				}
				if (auto *LI = dyn_cast<LoadInst>(&I)) {
					if (auto *GO = dyn_cast<ConstantExpr>(LI->getPointerOperand())) {
						if (auto *GG = dyn_cast<GEPOperator>(GO)) {
							o["psteps"] = gepSteps(GG);
							o["pbase"] = opv(GG->getPointerOperand());
						}
					}
				}
				if (auto *SI = dyn_cast<StoreInst>(&I)) {
					if (auto *GO = dyn_cast<ConstantExpr>(SI->getPointerOperand())) {
						if (auto *GG = dyn_cast<GEPOperator>(GO)) {
							o["psteps"] = gepSteps(GG);
							o["pbase"] = opv(GG->getPointerOperand());
						}
					}
					o["vty"] = tystr(SI->getValueOperand()->getType());
				}
				if (isa<CastInst>(&I)) {
					o["sty"] = tystr(I.getOperand(0)->getType());
				}
				if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
					J::Array ix;
					for (auto i : EV->indices()) {
						ix.push_back((int64_t)i);
					}
					o["ix"] = std::move(ix);
				}
			}
			o["ops"] = std::move(ops);
			ins.push_back(std::move(o));
		}
		blocks.push_back(std::move(ins));
	}
	fo["blocks"] = std::move(blocks);
	os << J::Value(std::move(fo)) << "\n";
}

static std::string fnKey(const Function &F)
{
	if (auto *SP = F.getSubprogram()) {
		return SP->getFilename().str() + ":" + SP->getName().str();
	}
	return ":" + F.getName().str();
}

// Functions the frozen baseline does not name (a helper somebody extracted) are
// analysed as part of their callers: mark them for inlining, unless they are
// recursive or used as a value (then they are callbacks with a life of their own).
static void markNew(Module &M, const char *baseline)
{
	std::set<std::string> base;
	auto buf = MemoryBuffer::getFile(baseline);
	if (!buf) {
		return;
	}
	SmallVector<StringRef, 0> lines;
	(*buf)->getBuffer().split(lines, '\n', -1, false);
	for (auto l : lines) {
		base.insert(l.str());
	}
	for (auto &F : M) {
		if (F.isDeclaration() || base.count(fnKey(F)) || F.getName() == "main") {
			continue;
		}
		bool value = false, self = false;
		for (auto *U : F.users()) {
			auto *CB = dyn_cast<CallBase>(U);
			if (!CB || CB->getCalledOperand() != &F) {
				value = true;
				break;
			}
			if (CB->getFunction() == &F) {
				self = true;
			}
			for (auto &A : CB->args()) {
				if (A.get() == &F) {
					value = true;
				}
			}
		}
		if (value || self || F.isVarArg()) {
			continue;
		}
		F.removeFnAttr(Attribute::NoInline);
		F.addFnAttr(Attribute::AlwaysInline);
		if (!F.use_empty()) {
			F.setLinkage(GlobalValue::InternalLinkage);
		}
	}
}

static void normalize(Module &M)
{
	LoopAnalysisManager LAM;
	FunctionAnalysisManager FAM;
	CGSCCAnalysisManager CGAM;
	ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM);
	PB.registerCGSCCAnalyses(CGAM);
	PB.registerFunctionAnalyses(FAM);
	PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	if (auto e = PB.parsePassPipeline(MPM, "always-inline,function(sroa<preserve-cfg>,instsimplify)")) {
		errs() << toString(std::move(e)) << "\n";
		exit(2);
	}
	MPM.run(M, MAM);
}

int main(int argc, char **argv)
{
	if (argc != 4) {
		errs() << "usage: irdump in.bc out.jsonl baseline.txt\n";
		return 2;
	}
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) {
		err.print(argv[0], errs());
		return 2;
	}
	markNew(*M, argv[3]);
	normalize(*M);
	std::error_code ec;
	raw_fd_ostream os(argv[2], ec);
	if (ec) {
		errs() << ec.message() << "\n";
		return 2;
	}
	DL = &M->getDataLayout();

	DebugInfoFinder finder;
	finder.processModule(*M);
	std::set<const DIType *> seen;
	for (auto *T : finder.types()) {
		auto *C = dyn_cast<DICompositeType>(T);
		if (C && !C->getName().empty()) {
			collectType(T, seen);
		}
	}
	for (auto *GVE : finder.global_variables()) {
		auto *V = GVE->getVariable();
		const DIType *B = strip(V->getType());
		auto *BC = B ? dyn_cast<DICompositeType>(B) : nullptr;
		while (BC && BC->getTag() == dwarf::DW_TAG_array_type) {
			B = strip(BC->getBaseType());
			BC = B ? dyn_cast<DICompositeType>(B) : nullptr;
		}
		if (BC && BC->getName().empty() && !SynthName.count(BC)) {
			SynthName[BC] = "var." + V->getName().str();
		}
		collectType(V->getType(), seen);
	}
	for (auto *T : finder.types()) {
		collectType(T, seen);
	}
	for (auto *S : M->getIdentifiedStructTypes()) {
		auto f = StructDI.find(structBase(S));
		if (f != StructDI.end()) {
			mapLayout(S, f->second);
		}
	}
	for (auto *T : finder.types()) {
		auto *C = dyn_cast<DICompositeType>(T);
		if (!C) {
			continue;
		}
		if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
			J::Array es;
			for (auto *E : C->getElements()) {
				if (auto *EE = dyn_cast<DIEnumerator>(E)) {
					es.push_back(J::Array{ EE->getName().str(), EE->getValue().getSExtValue() });
				}
			}
			J::Object o{ { "kind", "enum" }, { "name", C->getName().str() }, { "file", C->getFilename().str() },
				{ "line", (int64_t)C->getLine() }, { "vals", std::move(es) } };
			if (auto *S = dyn_cast_or_null<DISubprogram>(C->getScope())) {
				o["scope"] = S->getName().str();
			}
			os << J::Value(std::move(o)) << "\n";
		}
	}
	for (auto &p : StructDI) {
		J::Array fs;
		for (auto *E : p.second->getElements()) {
			if (auto *D = dyn_cast<DIDerivedType>(E)) {
				fs.push_back(J::Array{ D->getName().str(), dityname(D->getBaseType()), (int64_t)D->getOffsetInBits() / 8 });
			}
		}
		os << J::Value(J::Object{ { "kind", "struct" }, { "name", p.first }, { "fields", std::move(fs) },
			      { "size", (int64_t)p.second->getSizeInBits() / 8 } })
		   << "\n";
	}
	for (auto &G : M->globals()) {
		J::Object o{ { "kind", "global" }, { "name", G.getName().str() }, { "ty", tystr(G.getValueType()) }, { "const", G.isConstant() },
			{ "internal", G.hasLocalLinkage() } };
		SmallVector<DIGlobalVariableExpression *, 1> ds;
		G.getDebugInfo(ds);
		if (ds.size()) {
			auto *V = ds[0]->getVariable();
			o["file"] = V->getFilename().str();
			o["line"] = (int64_t)V->getLine();
			o["dt"] = dityname(V->getType());
			o["cname"] = V->getName().str();
			if (auto *C = compositeOf(V->getType())) {
				GepDI[&G] = C;
			}
		}
		if (G.hasInitializer()) {
			o["init"] = constVal(G.getInitializer());
		}
		os << J::Value(std::move(o)) << "\n";
	}
	for (auto &F : *M) {
		dumpFunction(F, os);
	}
	return 0;
}
