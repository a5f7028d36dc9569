// irdump: link LLVM bitcode modules, put them into SSA form, and write the
// resolved program (functions, CFGs, callees, record layouts) as JSON.
// It performs no analysis; the rules in /verif/rules work on its output.
#include "llvm/ADT/StringSet.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
using namespace llvm;

static cl::list<std::string> Inputs(cl::Positional, cl::OneOrMore);
static cl::opt<std::string> Out("o", cl::init("-"));
static cl::opt<std::string> Passes("opt-passes", cl::init("function(sroa,instsimplify)"));

static std::string tyStr(Type* t, const DataLayout& dl) {
    if (t->isVoidTy()) return "v";
    if (t->isPointerTy()) return "p";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isFloatTy()) return "f";
    if (t->isDoubleTy()) return "d";
    if (t->isStructTy() || t->isArrayTy())
        return "a" + std::to_string(t->isSized() ? dl.getTypeAllocSize(t).getFixedValue() : 0);
    if (auto* vt = dyn_cast<FixedVectorType>(t))
        return "x" + std::to_string(dl.getTypeAllocSize(t).getFixedValue()) + ":" + std::to_string(vt->getNumElements()) + ":" + tyStr(vt->getElementType(), dl);
    return "?";
}

// scalar layout of an aggregate type: "offset=type" separated by commas, nested by {}
static std::string layoutStr(Type* t, const DataLayout& dl) {
    if (auto* st = dyn_cast<StructType>(t)) {
        std::string r = "{";
        auto* sl = dl.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            r += (i ? "," : "") + std::to_string(sl->getElementOffset(i).getFixedValue()) + "=" + layoutStr(st->getElementType(i), dl);
        return r + "}";
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        std::string r = "{";
        uint64_t es = dl.getTypeAllocSize(at->getElementType()).getFixedValue();
        for (unsigned i = 0; i < at->getNumElements() && i < 64; i++)
            r += (i ? "," : "") + std::to_string(i * es) + "=" + layoutStr(at->getElementType(), dl);
        return r + "}";
    }
    return tyStr(t, dl);
}

static void constVal(json::OStream& J, const Constant* c, const DataLayout& dl);

struct FnDumper {
    json::OStream& J;
    const DataLayout& dl;
    std::map<const Value*, int> ids;
    std::map<const BasicBlock*, int> bbs;

    void operand(const Value* v) {
        auto it = ids.find(v);
        if (it != ids.end()) {
            J.value((int64_t) it->second);
            return;
        }
        if (auto* c = dyn_cast<Constant>(v)) {
            constVal(J, c, dl);
            return;
        }
        if (isa<InlineAsm>(v)) {
            J.object([&] { J.attribute("x", "asm"); });
            return;
        }
        J.object([&] { J.attribute("x", "meta"); });
    }
};

static void constVal(json::OStream& J, const Constant* c, const DataLayout& dl) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        J.object([&] {
            if (ci->getBitWidth() <= 64)
                J.attribute("c", ci->getBitWidth() == 1 ? (int64_t) ci->getZExtValue() : ci->getSExtValue());
            else
                J.attribute("x", "bigint");
        });
    } else if (isa<ConstantPointerNull>(c)) {
        J.object([&] { J.attribute("c", (int64_t) 0); });
    } else if (auto* cf = dyn_cast<ConstantFP>(c)) {
        J.object([&] {
            APFloat f = cf->getValueAPF();
            bool lose;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
            { char b[64]; snprintf(b, sizeof b, "%.17g", f.convertToDouble()); J.attribute("f", std::string(b)); }
        });
    } else if (auto* gv = dyn_cast<GlobalValue>(c)) {
        J.object([&] { J.attribute("g", gv->getName()); });
    } else if (isa<UndefValue>(c)) {
        J.object([&] { J.attribute("u", 1); });
    } else if (isa<ConstantAggregateZero>(c)) {
        J.object([&] { J.attribute("z", (int64_t) dl.getTypeAllocSize(c->getType()).getFixedValue()); });
    } else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) {
            APInt off(64, 0);
            if (gep->accumulateConstantOffset(dl, off) && isa<GlobalValue>(gep->getPointerOperand())) {
                J.object([&] {
                    J.attribute("g", gep->getPointerOperand()->getName());
                    J.attribute("o", off.getSExtValue());
                });
                return;
            }
        }
        if (ce->isCast()) {
            constVal(J, ce->getOperand(0), dl);
            return;
        }
        J.object([&] { J.attribute("x", "cexpr"); });
    } else if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = dl.getStructLayout(cs->getType());
        J.object([&] {
            J.attributeArray("s", [&] {
                for (unsigned i = 0; i < cs->getNumOperands(); i++)
                    J.array([&] {
                        J.value((int64_t) sl->getElementOffset(i).getFixedValue());
                        J.value((int64_t) dl.getTypeAllocSize(cs->getOperand(i)->getType()).getFixedValue());
                        constVal(J, cs->getOperand(i), dl);
                    });
            });
        });
    } else if (auto* ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = dl.getTypeAllocSize(ca->getType()->getElementType()).getFixedValue();
        J.object([&] {
            J.attributeArray("s", [&] {
                for (unsigned i = 0; i < ca->getNumOperands(); i++)
                    J.array([&] {
                        J.value((int64_t)(i * es));
                        J.value((int64_t) es);
                        constVal(J, ca->getOperand(i), dl);
                    });
            });
        });
    } else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->isString()) {
            J.object([&] {
                std::string s = cd->getAsString().str();
                std::string o;
                for (unsigned char ch : s) { if (ch < 0x80) o += (char) ch; else { o += (char)(0xC0 | (ch >> 6)); o += (char)(0x80 | (ch & 63)); } }
                J.attribute("str", o); // latin-1 bytes as code points
            });
        } else {
            uint64_t es = cd->getElementByteSize();
            J.object([&] {
                J.attributeArray("s", [&] {
                    for (unsigned i = 0; i < cd->getNumElements(); i++)
                        J.array([&] {
                            J.value((int64_t)(i * es));
                            J.value((int64_t) es);
                            constVal(J, cd->getElementAsConstant(i), dl);
                        });
                });
            });
        }
    } else {
        J.object([&] { J.attribute("x", "const"); });
    }
}

static std::string scopeName(const DIScope* s) {
    std::string r;
    while (s) {
        if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
        if (isa<DINamespace>(s) || isa<DICompositeType>(s)) {
            std::string n = s->getName().str();
            if (n.empty()) n = "(anon)";
            r = n + (r.empty() ? "" : "::" + r);
        } else if (auto* sp = dyn_cast<DISubprogram>(s)) {
            r = sp->getName().str() + "()" + (r.empty() ? "" : "::" + r);
        }
        s = s->getScope();
    }
    return r;
}

static std::string diTypeName(const DIType* t, int depth = 0) {
    if (!t) return "void";
    if (depth > 8) return "...";
    if (auto* d = dyn_cast<DIDerivedType>(t)) {
        std::string b = diTypeName(d->getBaseType(), depth + 1);
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return b + "*";
            case dwarf::DW_TAG_reference_type: return b + "&";
            case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
            case dwarf::DW_TAG_const_type: return "const " + b;
            case dwarf::DW_TAG_volatile_type: return "volatile " + b;
            default: {
                if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType()) return b;
                return d->getName().str();
            }
        }
    }
    if (isa<DISubroutineType>(t)) return "fn()";
    if (auto* c = dyn_cast<DICompositeType>(t))
        if (c->getTag() == dwarf::DW_TAG_array_type)
            return diTypeName(c->getBaseType(), depth + 1) + "[]";
    std::string sc = t->getScope() ? scopeName(t->getScope()) : "";
    std::string n = t->getName().str();
    if (n.empty()) n = "(anon)";
    return sc.empty() ? n : sc + "::" + n;
}

int main(int argc, char** argv) {
    cl::ParseCommandLineOptions(argc, argv);
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    for (auto& in : Inputs) {
        SMDiagnostic err;
        auto m = parseIRFile(in, err, ctx);
        if (!m) { err.print("irdump", errs()); return 2; }
        if (!M) M = std::move(m);
        else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed " << in << "\n"; return 2; }
    }
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PassBuilder PB;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
        PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        ModulePassManager MPM;
        if (auto e = PB.parsePassPipeline(MPM, Passes)) { errs() << toString(std::move(e)) << "\n"; return 2; }
        MPM.run(*M, MAM);
    }
    const DataLayout& dl = M->getDataLayout();
    std::error_code ec;
    raw_fd_ostream os(Out, ec);
    json::OStream J(os);
    DebugInfoFinder dif;
    dif.processModule(*M);
    J.object([&] {
        J.attributeObject("globals", [&] {
            for (auto& g : M->globals()) {
                if (g.getName().starts_with("llvm.")) continue;
                J.attributeObject(g.getName(), [&] {
                    J.attribute("d", demangle(g.getName().str()));
                    J.attribute("const", g.isConstant());
                    J.attribute("size", (int64_t)(g.getValueType()->isSized() ? dl.getTypeAllocSize(g.getValueType()).getFixedValue() : 0));
                    SmallVector<DIGlobalVariableExpression*, 1> gves;
                    g.getDebugInfo(gves);
                    if (!gves.empty()) {
                        auto* v = gves[0]->getVariable();
                        J.attribute("file", v->getFilename());
                        J.attribute("line", (int64_t) v->getLine());
                        J.attribute("type", diTypeName(v->getType()));
                        J.attribute("scope", v->getScope() ? scopeName(v->getScope()) : "");
                    }
                    if (g.hasInitializer()) { J.attributeBegin("init"); constVal(J, g.getInitializer(), dl); J.attributeEnd(); }
                });
            }
        });
        J.attributeObject("aliases", [&] {
            for (auto& a : M->aliases())
                if (auto* f = dyn_cast_or_null<Function>(a.getAliaseeObject())) J.attribute(a.getName(), f->getName());
        });
        StringSet<> seenTy;
        J.attributeObject("types", [&] {
            for (auto* t : dif.types()) {
                auto* c = dyn_cast<DICompositeType>(t);
                if (!c || c->isForwardDecl()) continue;
                unsigned tag = c->getTag();
                if (tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_class_type &&
                    tag != dwarf::DW_TAG_union_type && tag != dwarf::DW_TAG_enumeration_type)
                    continue;
                std::string n = diTypeName(c);
                if (!seenTy.insert(n).second) continue;
                J.attributeObject(n, [&] {
                    J.attribute("size", (int64_t) c->getSizeInBits() / 8);
                    J.attribute("file", c->getFilename());
                    J.attribute("line", (int64_t) c->getLine());
                    if (tag == dwarf::DW_TAG_enumeration_type) {
                        J.attributeObject("enum", [&] {
                            for (auto* e : c->getElements())
                                if (auto* en = dyn_cast<DIEnumerator>(e)) J.attribute(en->getName(), en->getValue().getSExtValue());
                        });
                    } else {
                        if (tag == dwarf::DW_TAG_union_type) J.attribute("union", true);
                        J.attributeArray("m", [&] {
                            for (auto* e : c->getElements()) {
                                auto* d = dyn_cast<DIDerivedType>(e);
                                if (!d) continue;
                                if (d->isStaticMember()) continue;
                                if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
                                J.array([&] {
                                    J.value(d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName());
                                    J.value((int64_t) d->getOffsetInBits());
                                    J.value((int64_t) d->getSizeInBits());
                                    J.value(diTypeName(d->getBaseType()));
                                });
                            }
                        });
                    }
                });
            }
        });
        J.attributeObject("fns", [&] {
            for (auto& F : *M) {
                if (F.isIntrinsic()) continue;
                FnDumper D{J, dl};
                J.attributeObject(F.getName(), [&] {
                    J.attribute("d", demangle(F.getName().str()));
                    J.attribute("ret", tyStr(F.getReturnType(), dl));
                    if (F.doesNotReturn()) J.attribute("noreturn", true);
                    if (F.hasAddressTaken()) J.attribute("addr", true);
                    if (F.hasInternalLinkage()) J.attribute("internal", true);
                    if (auto* sp = F.getSubprogram()) {
                        J.attribute("file", sp->getFilename());
                        J.attribute("line", (int64_t) sp->getLine());
                        J.attribute("name", sp->getName());
                        J.attribute("scope", sp->getScope() ? scopeName(sp->getScope()) : "");
                        if (sp->isArtificial()) J.attribute("artificial", true);
                        if (auto* st = sp->getType()) {
                            J.attributeArray("sig", [&] {
                                for (auto* t : st->getTypeArray()) J.value(diTypeName(t));
                            });
                        }
                    }
                    int id = 0;
                    J.attributeArray("args", [&] {
                        for (auto& A : F.args()) {
                            D.ids[&A] = id++;
                            J.array([&] {
                                J.value(tyStr(A.getType(), dl));
                                J.value(A.getName());
                                J.value(A.hasStructRetAttr() ? "sret" : A.hasByValAttr() ? "byval" : "");
                            });
                        }
                    });
                    if (F.isDeclaration()) return;
                    int bi = 0;
                    for (auto& B : F) {
                        D.bbs[&B] = bi++;
                        for (auto& I : B)
                            if (!I.getType()->isVoidTy()) D.ids[&I] = id++;
                    }
                    // names of source variables held in allocas / values
                    std::map<int, std::string> vnames;
                    for (auto& B : F)
                        for (auto& I : B) {
                            if (auto* dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
                                if (dv->hasArgList()) continue;
                                Value* v = dv->getVariableLocationOp(0);
                                if (v && D.ids.count(v)) {
                                    auto* var = dv->getVariable();
                                    vnames[D.ids[v]] = var->getName().str() + "|" + diTypeName(var->getType());
                                }
                            }
                        }
                    J.attributeObject("vars", [&] {
                        for (auto& p : vnames) J.attribute(std::to_string(p.first), p.second);
                    });
                    J.attributeArray("bbs", [&] {
                        for (auto& B : F)
                            J.array([&] {
                                for (auto& I : B) {
                                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                                    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
                                        auto iid = ii->getIntrinsicID();
                                        if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end ||
                                            iid == Intrinsic::experimental_noalias_scope_decl)
                                            continue;
                                    }
                                    J.array([&] {
                                        J.value(I.getOpcodeName());
                                        J.value((int64_t)(I.getType()->isVoidTy() ? -1 : D.ids[&I]));
                                        J.value(tyStr(I.getType(), dl));
                                        const DebugLoc& L = I.getDebugLoc();
                                        J.value((int64_t)(L ? L.getLine() : 0));
                                        if (auto* br = dyn_cast<BranchInst>(&I)) {
                                            if (br->isConditional()) {
                                                D.operand(br->getCondition());
                                                J.value((int64_t) D.bbs[br->getSuccessor(0)]);
                                                J.value((int64_t) D.bbs[br->getSuccessor(1)]);
                                            } else
                                                J.value((int64_t) D.bbs[br->getSuccessor(0)]);
                                        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                                            D.operand(sw->getCondition());
                                            J.value((int64_t) D.bbs[sw->getDefaultDest()]);
                                            J.array([&] {
                                                for (auto& cs : sw->cases())
                                                    J.array([&] {
                                                        J.value(cs.getCaseValue()->getSExtValue());
                                                        J.value((int64_t) D.bbs[cs.getCaseSuccessor()]);
                                                    });
                                            });
                                        } else if (auto* phi = dyn_cast<PHINode>(&I)) {
                                            J.array([&] {
                                                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
                                                    J.array([&] {
                                                        D.operand(phi->getIncomingValue(i));
                                                        J.value((int64_t) D.bbs[phi->getIncomingBlock(i)]);
                                                    });
                                            });
                                        } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                                            D.operand(gep->getPointerOperand());
                                            MapVector<Value*, APInt> var;
                                            APInt off(64, 0);
                                            if (cast<GEPOperator>(gep)->collectOffset(dl, 64, var, off)) {
                                                J.value(off.getSExtValue());
                                                J.array([&] {
                                                    for (auto& p : var)
                                                        J.array([&] { D.operand(p.first); J.value(p.second.getSExtValue()); });
                                                });
                                            } else { J.value((int64_t) 0); J.array([&] { J.array([&]{ D.operand(gep->getOperand(1)); J.value((int64_t)1);}); }); }
                                        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                                            D.operand(cb->getCalledOperand()->stripPointerCasts());
                                            J.array([&] {
                                                for (auto& a : cb->args()) D.operand(a.get());
                                            });
                                            std::string fl;
                                            if (cb->doesNotReturn()) fl += "N";
                                            J.value(fl);
                                        } else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
                                            D.operand(cmp->getOperand(0));
                                            D.operand(cmp->getOperand(1));
                                            J.value(CmpInst::getPredicateName(cmp->getPredicate()));
                                            J.value(tyStr(cmp->getOperand(0)->getType(), dl));
                                        } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
                                            auto sz = al->getAllocationSize(dl);
                                            J.value((int64_t)(sz ? sz->getFixedValue() : -1));
                                        } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
                                            D.operand(ld->getPointerOperand());
                                            J.value((int64_t) dl.getTypeStoreSize(ld->getType()).getFixedValue());
                                            J.value((int64_t) (ld->isAtomic() ? (int) ld->getOrdering() : 0));
                                            if (ld->getType()->isAggregateType()) J.value(layoutStr(ld->getType(), dl));
                                        } else if (auto* st = dyn_cast<StoreInst>(&I)) {
                                            D.operand(st->getValueOperand());
                                            D.operand(st->getPointerOperand());
                                            J.value((int64_t) dl.getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue());
                                            J.value((int64_t) (st->isAtomic() ? (int) st->getOrdering() : 0));
                                            if (st->getValueOperand()->getType()->isAggregateType()) J.value(layoutStr(st->getValueOperand()->getType(), dl));
                                        } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
                                            D.operand(ev->getOperand(0));
                                            J.array([&] { for (unsigned x : ev->getIndices()) J.value((int64_t) x); });
                                        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
                                            D.operand(iv->getOperand(0));
                                            D.operand(iv->getOperand(1));
                                            J.array([&] { for (unsigned x : iv->getIndices()) J.value((int64_t) x); });
                                        } else if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) {
                                            D.operand(rmw->getPointerOperand());
                                            D.operand(rmw->getValOperand());
                                            J.value(AtomicRMWInst::getOperationName(rmw->getOperation()));
                                            J.value((int64_t) rmw->getOrdering());
                                        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
                                            D.operand(cx->getPointerOperand());
                                            D.operand(cx->getCompareOperand());
                                            D.operand(cx->getNewValOperand());
                                            J.value((int64_t) cx->getSuccessOrdering());
                                            J.value((int64_t) cx->isWeak());
                                        } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
                                            D.operand(sv->getOperand(0));
                                            D.operand(sv->getOperand(1));
                                            J.array([&] { for (int x : sv->getShuffleMask()) J.value((int64_t) x); });
                                        } else if (isa<FenceInst>(&I)) {
                                            J.value((int64_t) cast<FenceInst>(&I)->getOrdering());
                                        } else {
                                            for (auto& o : I.operands()) D.operand(o.get());
                                            if (isa<CastInst>(&I)) J.value(tyStr(I.getOperand(0)->getType(), dl));
                                        }
                                    });
                                }
                            });
                    });
                });
            }
        });
    });
    return 0;
}
