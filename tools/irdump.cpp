// irdump: LLVM IR (bitcode or .ll) -> JSON, for the VC generator in /verif/vc.
// Purely structural: it runs SROA (promotes locals to SSA) and prints every
// defined function reachable from anything; nothing is dropped.
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
static const DataLayout* DL;
static DenseMap<const Value*, int> ids;
static json::Value ty(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isFloatTy()) return "float";
  if (t->isDoubleTy()) return "double";
  if (t->isX86_FP80Ty()) return "x86_fp80";
  if (auto* it = dyn_cast<IntegerType>(t)) return "i" + std::to_string(it->getBitWidth());
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->isOpaque()) return json::Object{{"k", "opaque"}};
    json::Array els;
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++)
      els.push_back(json::Array{(int64_t)sl->getElementOffset(i), ty(st->getElementType(i))});
    return json::Object{{"k", "struct"}, {"size", (int64_t)DL->getTypeAllocSize(st)}, {"els", std::move(els)},
                        {"name", st->hasName() ? st->getName().str() : ""}};
  }
  if (auto* at = dyn_cast<ArrayType>(t))
    return json::Object{{"k", "array"}, {"n", (int64_t)at->getNumElements()}, {"el", ty(at->getElementType())},
                        {"size", (int64_t)DL->getTypeAllocSize(at)}, {"esize", (int64_t)DL->getTypeAllocSize(at->getElementType())}};
  if (auto* vt = dyn_cast<FixedVectorType>(t))
    return json::Object{{"k", "vec"}, {"n", (int64_t)vt->getNumElements()}, {"el", ty(vt->getElementType())}};
  if (t->isLabelTy()) return "label";
  if (t->isMetadataTy()) return "metadata";
  std::string s; raw_string_ostream os(s); t->print(os);
  return json::Object{{"k", "other"}, {"s", s}};
}
static json::Value op(const Value* v);
static json::Value gepParts(const GEPOperator* g) {
  MapVector<Value*, APInt> vars;
  APInt c(64, 0);
  json::Array idx;
  if (!g->collectOffset(*DL, 64, vars, c)) return nullptr;
  for (auto& p : vars) idx.push_back(json::Array{op(p.first), (int64_t)p.second.getSExtValue()});
  return json::Object{{"base", op(g->getPointerOperand())}, {"off", (int64_t)c.getSExtValue()}, {"vars", std::move(idx)}, {"inb", g->isInBounds()}};
}
static json::Value op(const Value* v) {
  if (isa<Instruction>(v) || isa<Argument>(v)) return json::Array{"i", ids[v]};
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    SmallString<32> s; c->getValue().toStringSigned(s);
    return json::Array{"c", std::string(s.str()), (int64_t)c->getBitWidth()};
  }
  if (auto* c = dyn_cast<ConstantFP>(v)) {
    SmallString<32> s; c->getValueAPF().bitcastToAPInt().toStringUnsigned(s, 10);
    return json::Array{"f", std::string(s.str()), ty(c->getType())};
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{"null"};
  if (isa<PoisonValue>(v) || isa<UndefValue>(v)) return json::Array{"undef", ty(v->getType())};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"zero", ty(v->getType())};
  if (auto* g = dyn_cast<GlobalAlias>(v)) return op(g->getAliasee()->stripPointerCasts());
  if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
  if (auto* s = dyn_cast<ConstantDataSequential>(v)) {
    json::Array a;
    for (unsigned i = 0; i < s->getNumElements(); i++) a.push_back(op(s->getElementAsConstant(i)));
    return json::Array{"agg", ty(v->getType()), std::move(a)};
  }
  if (auto* s = dyn_cast<ConstantAggregate>(v)) {
    json::Array a;
    for (unsigned i = 0; i < s->getNumOperands(); i++) a.push_back(op(s->getOperand(i)));
    return json::Array{"agg", ty(v->getType()), std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return json::Array{"gep", gepParts(g)};
    json::Array a;
    for (unsigned i = 0; i < ce->getNumOperands(); i++) a.push_back(op(ce->getOperand(i)));
    return json::Array{"ce", ce->getOpcodeName(), ty(ce->getType()), std::move(a)};
  }
  if (isa<InlineAsm>(v)) return json::Array{"asm", cast<InlineAsm>(v)->getAsmString()};
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (auto* bb = dyn_cast<BasicBlock>(v)) return json::Array{"bb", ids[bb]};
  std::string s; raw_string_ostream os(s); v->print(os);
  return json::Array{"unk", s};
}
int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print(argv[0], errs()); return 2; }
  DL = &m->getDataLayout();
  PassBuilder pb;
  LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
  pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
  pb.crossRegisterProxies(lam, fam, cam, mam);
  ModulePassManager mpm;
  if (auto e = pb.parsePassPipeline(mpm, "function(sroa)")) { errs() << toString(std::move(e)); return 2; }
  mpm.run(*m, mam);
  json::Object globals, funcs;
  for (auto& g : m->globals()) {
    json::Object o{{"ty", ty(g.getValueType())}, {"const", g.isConstant()}, {"dem", demangle(g.getName().str())}, {"tls", g.isThreadLocal()},
      {"size", g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : -1}};
    if (g.hasInitializer()) o["init"] = op(g.getInitializer());
    globals[g.getName()] = std::move(o);
  }
  for (auto& f : *m) {
    ids.clear();
    json::Object fo{{"dem", demangle(f.getName().str())}, {"decl", f.isDeclaration()}, {"ret", ty(f.getReturnType())}, {"vararg", f.isVarArg()},
                    {"linkage", f.hasInternalLinkage() ? "internal" : f.hasLinkOnceLinkage() ? "linkonce" : "external"},
                    {"noreturn", f.doesNotReturn()}, {"readnone", f.doesNotAccessMemory()}};
    int n = 0;
    json::Array ps;
    for (auto& a : f.args()) {
      ids[&a] = n++;
      json::Object p{{"id", ids[&a]}, {"ty", ty(a.getType())}, {"name", a.getName().str()}};
      if (a.hasStructRetAttr()) p["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
      if (a.hasByValAttr()) p["byval"] = (int64_t)DL->getTypeAllocSize(a.getParamByValType());
      ps.push_back(std::move(p));
    }
    fo["params"] = std::move(ps);
    if (!f.isDeclaration()) {
      if (auto* sp = f.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
      int b = 0;
      for (auto& bb : f) { ids[&bb] = b++; for (auto& i : bb) ids[&i] = n++; }
      json::Array blocks;
      for (auto& bb : f) {
        json::Array insts;
        for (auto& i : bb) {
          if (isa<DbgInfoIntrinsic>(&i)) continue;
          json::Object o{{"id", ids[&i]}, {"op", i.getOpcodeName()}, {"ty", ty(i.getType())}};
          if (auto& dl = i.getDebugLoc()) {
            // innermost scope file
            if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) o["file"] = sc->getFilename().str();
            o["line"] = (int64_t)dl.getLine();
          }
          if (auto* o2 = dyn_cast<OverflowingBinaryOperator>(&i)) { if (o2->hasNoSignedWrap()) o["nsw"] = true; if (o2->hasNoUnsignedWrap()) o["nuw"] = true; }
          if (auto* x = dyn_cast<PossiblyExactOperator>(&i)) if (x->isExact()) o["exact"] = true;
          if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
            o["gep"] = gepParts(cast<GEPOperator>(g));
          } else if (auto* a = dyn_cast<AllocaInst>(&i)) {
            o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["count"] = op(a->getArraySize());
            if (auto* st = dyn_cast<StructType>(a->getAllocatedType())) if (st->hasName()) o["tname"] = st->getName().str();
          } else if (auto* l = dyn_cast<LoadInst>(&i)) {
            o["ptr"] = op(l->getPointerOperand()); o["size"] = (int64_t)DL->getTypeStoreSize(l->getType()); o["volatile"] = l->isVolatile(); o["atomic"] = l->isAtomic();
          } else if (auto* s = dyn_cast<StoreInst>(&i)) {
            o["ptr"] = op(s->getPointerOperand()); o["val"] = op(s->getValueOperand()); o["vty"] = ty(s->getValueOperand()->getType());
            o["size"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()); o["volatile"] = s->isVolatile(); o["atomic"] = s->isAtomic();
          } else if (auto* p = dyn_cast<PHINode>(&i)) {
            json::Array in;
            for (unsigned k = 0; k < p->getNumIncomingValues(); k++) in.push_back(json::Array{ids[p->getIncomingBlock(k)], op(p->getIncomingValue(k))});
            o["in"] = std::move(in);
          } else if (auto* c = dyn_cast<CmpInst>(&i)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["a"] = op(c->getOperand(0)); o["b"] = op(c->getOperand(1)); o["oty"] = ty(c->getOperand(0)->getType());
          } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
            o["cond"] = op(sw->getCondition()); o["oty"] = ty(sw->getCondition()->getType()); o["default"] = ids[sw->getDefaultDest()];
            json::Array cs;
            for (auto& cse : sw->cases()) cs.push_back(json::Array{op(cse.getCaseValue()), ids[cse.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
          } else if (auto* br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) { o["cond"] = op(br->getCondition()); o["t"] = ids[br->getSuccessor(0)]; o["f"] = ids[br->getSuccessor(1)]; }
            else o["t"] = ids[br->getSuccessor(0)];
          } else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) {
            o["a"] = op(ev->getAggregateOperand()); json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix);
          } else if (auto* iv = dyn_cast<InsertValueInst>(&i)) {
            o["a"] = op(iv->getAggregateOperand()); o["b"] = op(iv->getInsertedValueOperand()); json::Array ix; for (auto k : iv->indices()) ix.push_back((int64_t)k); o["idx"] = std::move(ix);
          } else if (auto* cb = dyn_cast<CallBase>(&i)) {
            o["callee"] = op(cb->getCalledOperand());
            json::Array as;
            for (unsigned k = 0; k < cb->arg_size(); k++) {
              json::Array a; a.push_back(op(cb->getArgOperand(k))); a.push_back(ty(cb->getArgOperand(k)->getType()));
              if (cb->paramHasAttr(k, Attribute::ByVal)) a.push_back((int64_t)DL->getTypeAllocSize(cb->getParamByValType(k)));
              as.push_back(std::move(a));
            }
            o["args"] = std::move(as);
            o["noreturn"] = cb->doesNotReturn();
            if (auto* iv2 = dyn_cast<InvokeInst>(&i)) { o["normal"] = ids[iv2->getNormalDest()]; o["unwind"] = ids[iv2->getUnwindDest()]; }
          } else if (auto* ar = dyn_cast<AtomicRMWInst>(&i)) {
            o["ptr"] = op(ar->getPointerOperand()); o["val"] = op(ar->getValOperand()); o["rmw"] = AtomicRMWInst::getOperationName(ar->getOperation()).str();
            o["size"] = (int64_t)DL->getTypeStoreSize(ar->getType());
          } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(&i)) {
            o["ptr"] = op(cx->getPointerOperand()); o["cmp"] = op(cx->getCompareOperand()); o["new"] = op(cx->getNewValOperand());
            o["size"] = (int64_t)DL->getTypeStoreSize(cx->getCompareOperand()->getType());
          } else {
            json::Array as;
            for (auto& u : i.operands()) as.push_back(op(u.get()));
            o["args"] = std::move(as);
            if (i.getNumOperands()) o["oty"] = ty(i.getOperand(0)->getType());
          }
          insts.push_back(std::move(o));
        }
        blocks.push_back(json::Object{{"id", ids[&bb]}, {"insts", std::move(insts)}});
      }
      fo["blocks"] = std::move(blocks);
      DominatorTree dt(f); LoopInfo li(dt);
      json::Array loops;
      for (auto* L : li.getLoopsInPreorder()) {
        json::Array bs; for (auto* b2 : L->blocks()) bs.push_back(ids[b2]);
        loops.push_back(json::Object{{"header", ids[L->getHeader()]}, {"depth", (int64_t)L->getLoopDepth()}, {"blocks", std::move(bs)}});
      }
      fo["loops"] = std::move(loops);
    }
    funcs[f.getName()] = std::move(fo);
  }
  outs() << json::Value(json::Object{{"globals", std::move(globals)}, {"functions", std::move(funcs)}}) << "\n";
  return 0;
}
