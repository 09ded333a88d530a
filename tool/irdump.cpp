#include <functional>
// irdump: prints the optimised LLVM IR of selected functions as JSON, with loop
// structure, constant tables and source locations, for the analyses in /verif/sa.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <vector>
#include <set>
using namespace llvm;

static std::map<const Value*, int> ids;
static const DataLayout *DL;
static std::set<const GlobalVariable*> usedGlobals;

static std::string tyName(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isX86_FP80Ty()) return "f80";
  if (t->isPointerTy()) return "ptr";
  if (auto *it = dyn_cast<IntegerType>(t)) return "i" + std::to_string(it->getBitWidth());
  if (auto *vt = dyn_cast<FixedVectorType>(t))
    return "v" + std::to_string(vt->getNumElements()) + tyName(vt->getElementType());
  return "other";
}

static json::Value opnd(const Value *v);

static json::Value constant(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; ci->getValue().toStringSigned(s);
    return json::Object{{"i", s.str().str()}, {"w", (int64_t)ci->getBitWidth()}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APFloat f = cf->getValueAPF();
    bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    double d = f.convertToDouble();
    char buf[64]; snprintf(buf, sizeof buf, "%a", d);
    return json::Object{{"f", std::string(buf)}};
  }
  if (isa<UndefValue>(c)) return json::Object{{"u", 1}};
  if (isa<ConstantPointerNull>(c)) return json::Object{{"i", "0"}, {"w", 64}};
  if (isa<ConstantAggregateZero>(c) || isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c)) {
    json::Array a; unsigned n = 0;
    if (auto *vt = dyn_cast<FixedVectorType>(c->getType())) n = vt->getNumElements();
    else if (auto *at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements();
    else if (auto *st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
    for (unsigned i = 0; i < n && i < 4096; i++) a.push_back(constant(c->getAggregateElement(i)));
    return json::Object{{"vec", std::move(a)}};
  }
  if (auto *gv = dyn_cast<GlobalVariable>(c)) {
    usedGlobals.insert(gv);
    return json::Object{{"g", gv->getName().str()}, {"o", 0}};
  }
  if (auto *fn = dyn_cast<Function>(c)) return json::Object{{"fn", fn->getName().str()}};
  if (c->getType()->isPointerTy()) {
    APInt off(64, 0);
    const Value *b = c->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto *gv = dyn_cast<GlobalVariable>(b)) {
      usedGlobals.insert(gv);
      return json::Object{{"g", gv->getName().str()}, {"o", off.getSExtValue()}};
    }
  }
  std::string s; raw_string_ostream os(s); c->printAsOperand(os);
  return json::Object{{"ce", os.str()}};
}

static json::Value opnd(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constant(c);
  auto it = ids.find(v);
  if (it != ids.end()) return json::Object{{"v", it->second}};
  return json::Object{{"x", 1}};
}

static std::string locOf(const Instruction &I) {
  const DILocation *l = I.getDebugLoc().get();
  std::string out; int n = 0;
  for (; l && n < 40; l = l->getInlinedAt(), n++) {
    if (n) out += "|";
    out += l->getFilename().str() + ":" + std::to_string(l->getLine()) + ":" +
           (l->getScope() && l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : "");
    if (n == 7) break;
  }
  return out;
}

static void flatten(const Constant *c, uint64_t off, json::Array &out, int &budget) {
  if (budget <= 0) return;
  Type *t = c->getType();
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(at->getElementType());
    for (unsigned i = 0; i < at->getNumElements() && budget > 0; i++) {
      Constant *e = c->getAggregateElement(i); if (e) flatten(e, off + sz * i, out, budget);
    }
    return;
  }
  if (auto *st = dyn_cast<StructType>(t)) {
    const StructLayout *sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      Constant *e = c->getAggregateElement(i); if (e) flatten(e, off + sl->getElementOffset(i), out, budget);
    }
    return;
  }
  if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeStoreSize(vt->getElementType());
    for (unsigned i = 0; i < vt->getNumElements(); i++) {
      Constant *e = c->getAggregateElement(i); if (e) flatten(e, off + sz * i, out, budget);
    }
    return;
  }
  budget--;
  out.push_back(json::Array{(int64_t)off, tyName(t), constant(c)});
}

static json::Object dumpInst(const Instruction &I) {
  json::Object o;
  o["id"] = ids[&I];
  o["t"] = tyName(I.getType());
  std::string l = locOf(I);
  if (!l.empty()) o["l"] = l;
  json::Array ops;
  auto addAll = [&] { for (auto &u : I.operands()) ops.push_back(opnd(u.get())); };
  if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
    o["op"] = "gep";
    MapVector<Value*, APInt> vars; APInt coff(64, 0);
    if (g->getType()->isPointerTy() && cast<GEPOperator>(g)->collectOffset(*DL, 64, vars, coff)) {
      o["base"] = opnd(g->getPointerOperand());
      o["off"] = coff.getSExtValue();
      json::Array idx;
      for (auto &kv : vars) idx.push_back(json::Array{opnd(kv.first), kv.second.getSExtValue()});
      o["idx"] = std::move(idx);
    } else o["op"] = "unknown";
    return o;
  }
  if (auto *p = dyn_cast<PHINode>(&I)) {
    o["op"] = "phi";
    json::Array in;
    for (unsigned i = 0; i < p->getNumIncomingValues(); i++)
      in.push_back(json::Array{ids[p->getIncomingBlock(i)], opnd(p->getIncomingValue(i))});
    o["in"] = std::move(in);
    return o;
  }
  if (auto *c = dyn_cast<CmpInst>(&I)) {
    o["op"] = isa<ICmpInst>(c) ? "icmp" : "fcmp";
    o["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
    o["ot"] = tyName(c->getOperand(0)->getType());
    addAll(); o["a"] = std::move(ops); return o;
  }
  if (auto *cb = dyn_cast<CallBase>(&I)) {
    o["op"] = "call";
    if (auto *f = cb->getCalledFunction()) {
      o["f"] = f->getName().str();
      if (f->doesNotReturn() || cb->doesNotReturn()) o["noret"] = true;
      if (f->isIntrinsic()) o["intr"] = true;
    } else o["callee"] = opnd(cb->getCalledOperand());
    if (cb->doesNotReturn()) o["noret"] = true;
    if (cb->doesNotAccessMemory()) o["pure"] = true;
    else if (cb->onlyReadsMemory()) o["ro"] = true;
    for (auto &u : cb->args()) {
      if (u->getType()->isMetadataTy()) ops.push_back(json::Object{{"x", 1}});
      else ops.push_back(opnd(u.get()));
    }
    json::Array ats; for (auto &u : cb->args()) ats.push_back(tyName(u->getType()));
    o["at"] = std::move(ats);
    o["a"] = std::move(ops);
    if (auto *iv = dyn_cast<InvokeInst>(&I)) o["normal"] = ids[iv->getNormalDest()];
    return o;
  }
  if (auto *al = dyn_cast<AllocaInst>(&I)) {
    o["op"] = "alloca";
    auto s = al->getAllocationSize(*DL);
    if (s) o["size"] = (int64_t)s->getFixedValue();
    return o;
  }
  if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
    o["op"] = "shuffle";
    json::Array m; for (int x : sv->getShuffleMask()) m.push_back(x);
    o["mask"] = std::move(m);
    addAll(); o["a"] = std::move(ops); return o;
  }
  if (auto *st = dyn_cast<StoreInst>(&I)) {
    o["op"] = "store"; o["vt"] = tyName(st->getValueOperand()->getType());
    o["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue();
    addAll(); o["a"] = std::move(ops); return o;
  }
  if (auto *ld = dyn_cast<LoadInst>(&I)) {
    o["op"] = "load";
    o["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
    if (auto *R = ld->getMetadata(LLVMContext::MD_range))
      if (R->getNumOperands() == 2) {
        auto *lo = mdconst::extract<ConstantInt>(R->getOperand(0)), *hi = mdconst::extract<ConstantInt>(R->getOperand(1));
        if (lo->isZero() && hi->equalsInt(2)) o["bl"] = 1;
      }
    addAll(); o["a"] = std::move(ops); return o;
  }
  if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
    o["op"] = "extractvalue"; json::Array ix; for (auto i : ev->getIndices()) ix.push_back((int64_t)i);
    o["ix"] = std::move(ix); addAll(); o["a"] = std::move(ops); return o;
  }
  if (auto *br = dyn_cast<BranchInst>(&I)) {
    o["op"] = "br";
    json::Array s; for (unsigned i = 0; i < br->getNumSuccessors(); i++) s.push_back(ids[br->getSuccessor(i)]);
    o["s"] = std::move(s);
    if (br->isConditional()) o["c"] = opnd(br->getCondition());
    return o;
  }
  if (auto *sw = dyn_cast<SwitchInst>(&I)) {
    o["op"] = "switch"; o["c"] = opnd(sw->getCondition()); o["def"] = ids[sw->getDefaultDest()];
    json::Array cs;
    for (auto &c : sw->cases()) cs.push_back(json::Array{opnd(c.getCaseValue()), ids[c.getCaseSuccessor()]});
    o["cases"] = std::move(cs);
    return o;
  }
  if (isa<CastInst>(&I)) o["ft"] = tyName(I.getOperand(0)->getType());
  if (auto *pd = dyn_cast<PossiblyDisjointInst>(&I)) if (pd->isDisjoint()) o["disjoint"] = true;
  if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = true; if (ob->hasNoUnsignedWrap()) o["nuw"] = true; }
  o["op"] = std::string(I.getOpcodeName());
  addAll(); o["a"] = std::move(ops);
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) { errs() << "usage: irdump module.bc regex [pipeline]\n"; return 2; }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  PassBuilder PB;
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  if (argc > 3 && argv[3][0]) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, argv[3])) { errs() << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*M, MAM);
  }
  Regex re(argv[2]);
  json::Array funcs;
  // the selected functions and, transitively, the library functions they call that were not inlined
  std::set<const Function*> sel; std::vector<const Function*> work;
  Regex lib("^_ZN?K?3QDP|^_ZNK?3QDP"), skip("StandardOutputStream|StandardInputStream|QDP_abort|QDP_error|LexicalCast|Binary|Text|XML");
  bool bio = M->getFunction("x_wr") || M->getFunction("x_rd");     // binary I/O witnesses: follow the stream classes and their vtables
  if (bio) { lib = Regex("^_ZN?K?3QDP|^_ZNK?3QDP|^_ZNK?3W(Wr|Rd)|^_ZNK?4W(Wst|Rst)"); skip = Regex("StandardOutputStream|StandardInputStream|QDP_abort|QDP_error|LexicalCast|Text|XML"); }
  auto consider = [&](const Function *c) {
    if (!c || c->isDeclaration() || c->doesNotReturn() || sel.count(c) || !lib.match(c->getName()) || skip.match(c->getName())) return;
    size_t n = 0; for (auto &b : *c) n += b.size();
    if (n > 20000) return;
    sel.insert(c); work.push_back(c);
  };
  std::set<const Constant*> seen;
  std::function<void(const Constant*)> inits = [&](const Constant *k) {
    if (!seen.insert(k).second) return;
    if (auto *f = dyn_cast<Function>(k)) { consider(f); return; }
    if (auto *gv = dyn_cast<GlobalVariable>(k)) { if (gv->getName().starts_with("_ZTV") && gv->hasInitializer()) inits(gv->getInitializer()); return; }
    for (auto &o : k->operands()) if (auto *c = dyn_cast<Constant>(&*o)) inits(c);
  };
  for (Function &F : *M) if (!F.isDeclaration() && re.match(F.getName())) { sel.insert(&F); work.push_back(&F); }
  while (!work.empty()) {
    const Function *F = work.back(); work.pop_back();
    for (auto &B : *F) for (auto &I : B) {
      if (auto *cb = dyn_cast<CallBase>(&I)) consider(cb->getCalledFunction());
      if (bio) for (auto &o : I.operands()) if (auto *c = dyn_cast<Constant>(&*o)) inits(c);
    }
  }
  for (Function &F : *M) {
    if (!sel.count(&F)) continue;
    ids.clear(); int n = 0;
    for (auto &a : F.args()) ids[&a] = n++;
    int b = 0;
    for (auto &B : F) ids[&B] = b++;
    for (auto &B : F) for (auto &I : B) ids[&I] = n++;
    json::Object fo; fo["name"] = F.getName().str();
    if (auto *sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); fo["sname"] = sp->getName().str(); }
    fo["ret"] = tyName(F.getReturnType());
    json::Array as; for (auto &a : F.args()) as.push_back(tyName(a.getType()));
    fo["args"] = std::move(as);
    json::Array bs;
    for (auto &B : F) {
      json::Array is;
      for (auto &I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; is.push_back(dumpInst(I)); }
      bs.push_back(json::Object{{"id", ids[&B]}, {"i", std::move(is)}});
    }
    fo["blocks"] = std::move(bs);
    DominatorTree DT(F); LoopInfo LI(DT);
    json::Array ls;
    std::map<const Loop*, int> lid; int k = 0;
    for (Loop *L : LI.getLoopsInPreorder()) lid[L] = k++;
    for (Loop *L : LI.getLoopsInPreorder()) {
      json::Object lo; lo["id"] = lid[L];
      lo["h"] = ids[L->getHeader()];
      lo["parent"] = L->getParentLoop() ? lid[L->getParentLoop()] : -1;
      json::Array bl; for (auto *B : L->blocks()) bl.push_back(ids[B]);
      lo["b"] = std::move(bl);
      json::Array la; SmallVector<BasicBlock*, 4> lv; L->getLoopLatches(lv);
      for (auto *B : lv) la.push_back(ids[B]);
      lo["latches"] = std::move(la);
      ls.push_back(std::move(lo));
    }
    fo["loops"] = std::move(ls);
    funcs.push_back(std::move(fo));
  }
  json::Object gl;
  std::set<const GlobalVariable*> done;
  while (done.size() < usedGlobals.size()) {
    auto copy = usedGlobals;
    for (auto *g : copy) {
      if (!done.insert(g).second) continue;
      json::Object go; go["const"] = g->isConstant();
      go["size"] = (int64_t)DL->getTypeAllocSize(g->getValueType());
      if (g->hasInitializer()) {
        json::Array a; int budget = 5000; flatten(g->getInitializer(), 0, a, budget); go["init"] = std::move(a);
        if (isa<ConstantAggregateZero>(g->getInitializer())) go["zero"] = true;
      }
      gl[g->getName().str()] = std::move(go);
    }
  }
  json::Object top; top["funcs"] = std::move(funcs); top["globals"] = std::move(gl);
  outs() << json::Value(std::move(top)) << "\n";
  return 0;
}
