// irdump: turn a linked LLVM module of the repository into JSON for the rule engine.
//   irdump <module.bc> <out.json> flat  <keep-list> <entry-list>
//       every function not in keep-list (and not recursive) is inlined; only functions of
//       entry-list are dumped, after SROA.
//   irdump <module.bc> <out.json> raw
//       every function dumped after SROA, nothing inlined.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/OptimizationRemarkEmitter.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/TargetTransformInfo.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LoopUtils.h"
#include "llvm/Transforms/Utils/UnrollLoop.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <sstream>
using namespace llvm;
typedef json::OStream JO;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::set<const GlobalVariable*> usedGlobals;
static std::set<const DIType*> seenTypes;
static std::vector<const DIType*> typeQueue;

static bool constptr(const DIType* t) { // pointer to const
  auto* d = dyn_cast_or_null<DIDerivedType>(t);
  while (d && d->getTag() != dwarf::DW_TAG_pointer_type) d = dyn_cast_or_null<DIDerivedType>(d->getBaseType());
  if (!d) return false;
  auto* b = dyn_cast_or_null<DIDerivedType>(d->getBaseType());
  return b && b->getTag() == dwarf::DW_TAG_const_type;
}

static std::string tyname(const DIType* t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "?";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return tyname(d->getBaseType(), depth + 1) + "*";
      case dwarf::DW_TAG_const_type:
      case dwarf::DW_TAG_volatile_type:
      case dwarf::DW_TAG_restrict_type: return tyname(d->getBaseType(), depth + 1);
      case dwarf::DW_TAG_typedef: {
        const DIType* b = d->getBaseType();
        if (b && isa<DICompositeType>(b)) {
          if (seenTypes.insert(d).second) typeQueue.push_back(d);
          return d->getName().str();
        }
        if (b) {
          std::string n = tyname(b, depth + 1);
          return n;
        }
        return d->getName().str();
      }
      default: return d->getName().str();
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      uint64_t n = 0;
      for (auto* e : c->getElements())
        if (auto* s = dyn_cast<DISubrange>(e))
          if (auto* ci = dyn_cast_if_present<ConstantInt*>(s->getCount())) n = ci->getSExtValue();
      return tyname(c->getBaseType(), depth + 1) + "[" + std::to_string(n) + "]";
    }
    if (seenTypes.insert(c).second) typeQueue.push_back(c);
    if (!c->getName().empty()) return c->getName().str();
    return "anon" + std::to_string(c->getLine());
  }
  if (auto* b = dyn_cast<DIBasicType>(t)) return b->getName().str();
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

static std::string fname(const Function* f) {
  if (auto* sp = f->getSubprogram()) return sp->getName().str();
  return f->getName().str();
}

static void constVal(JO& J, const Constant* c, int depth);

static void operand(JO& J, const Value* v) {
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    if (c->getValue().getSignificantBits() <= 64) { J.array([&] { J.value("c"); J.value(c->getBitWidth() == 1 ? (int64_t) c->getZExtValue() : c->getSExtValue()); J.value((int64_t) c->getBitWidth()); }); }
    else { std::string s; raw_string_ostream o(s); c->getValue().print(o, false); J.array([&] { J.value("x"); J.value(s); }); }
    return;
  }
  if (isa<ConstantPointerNull>(v)) { J.array([&] { J.value("n"); }); return; }
  if (isa<UndefValue>(v)) { J.array([&] { J.value("u"); }); return; }
  if (auto* f = dyn_cast<Function>(v)) { J.array([&] { J.value("f"); J.value(fname(f)); }); return; }
  if (auto* g = dyn_cast<GlobalVariable>(v)) {
    usedGlobals.insert(g);
    J.array([&] { J.value("g"); J.value(g->getName()); J.value(0); });
    return;
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    APInt off(64, 0);
    const Value* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
    if (auto* g = dyn_cast<GlobalVariable>(b)) {
      usedGlobals.insert(g);
      J.array([&] { J.value("g"); J.value(g->getName()); J.value(off.getSExtValue()); });
      return;
    }
    if (auto* f = dyn_cast<Function>(b)) { J.array([&] { J.value("f"); J.value(fname(f)); }); return; }
    std::string s; raw_string_ostream o(s); v->printAsOperand(o, false);
    J.array([&] { J.value("x"); J.value(s); });
    return;
  }
  if (auto* a = dyn_cast<Argument>(v)) { J.array([&] { J.value("a"); J.value((int64_t) a->getArgNo()); }); return; }
  auto it = ids.find(v);
  if (it != ids.end()) { J.array([&] { J.value("i"); J.value(it->second); }); return; }
  if (auto* c = dyn_cast<Constant>(v)) { J.array([&] { J.value("k"); constVal(J, c, 0); }); return; }
  std::string s; raw_string_ostream o(s); v->printAsOperand(o, false);
  J.array([&] { J.value("x"); J.value(s); });
}

static void constVal(JO& J, const Constant* c, int depth) {
  if (depth > 12) { J.value("..."); return; }
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getValue().getSignificantBits() <= 64) J.value(ci->getSExtValue());
    else { std::string s; raw_string_ostream o(s); ci->getValue().print(o, false); J.value(s); }
    return;
  }
  if (isa<ConstantPointerNull>(c)) { J.value(nullptr); return; }
  if (auto* z = dyn_cast<ConstantAggregateZero>(c)) {
    unsigned n = z->getElementCount().getFixedValue();
    if (n > 4096) { J.object([&] { J.attribute("zero", (int64_t) n); }); return; }
    J.array([&] { for (unsigned i = 0; i < n; i++) constVal(J, z->getElementValue(i), depth + 1); });
    return;
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString()) {
      std::string hex; 
      bool ascii = true;
      StringRef s = d->getAsString();
      for (unsigned char ch : s) if (ch >= 127 || (ch < 32 && ch != 0 && ch != '\n' && ch != '\t')) ascii = false;
      if (ascii) { while (!s.empty() && s.back() == 0) s = s.drop_back(); J.object([&] { J.attribute("str", s.str()); J.attribute("n", (int64_t) d->getNumElements()); }); }
      else { static const char* H = "0123456789abcdef"; for (unsigned char ch : s) { hex += H[ch >> 4]; hex += H[ch & 15]; } J.object([&] { J.attribute("hex", hex); }); }
      return;
    }
    J.array([&] { for (unsigned i = 0; i < d->getNumElements(); i++) constVal(J, d->getElementAsConstant(i), depth + 1); });
    return;
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) {
    J.array([&] { for (unsigned i = 0; i < c->getNumOperands(); i++) constVal(J, cast<Constant>(c->getOperand(i)), depth + 1); });
    return;
  }
  if (isa<GlobalValue>(c) || isa<ConstantExpr>(c)) { J.object([&] { J.attributeBegin("ref"); operand(J, c); J.attributeEnd(); }); return; }
  std::string s; raw_string_ostream o(s); c->print(o); J.value(s);
}

static std::string llty(Type* t) {
  std::string s; raw_string_ostream o(s);
  if (t->isIntegerTy() || t->isPointerTy() || t->isVoidTy()) { t->print(o); return s; }
  if (t->isSized()) return "agg" + std::to_string(DL->getTypeAllocSize(t).getFixedValue());
  return "?";
}

static void dumpFn(JO& J, Function& F) {
  ids.clear();
  int n = 0, bn = 0;
  for (auto& B : F) { ids[&B] = bn++; for (auto& I : B) ids[&I] = n++; }
  // debug variables of allocas
  std::map<const Value*, const DILocalVariable*> vars;
  for (auto& B : F) for (auto& I : B) {
    if (auto* d = dyn_cast<DbgDeclareInst>(&I)) { if (d->getAddress() && !vars.count(d->getAddress())) vars[d->getAddress()] = d->getVariable(); }
    else if (auto* d = dyn_cast<DbgValueInst>(&I)) { if (d->getNumVariableLocationOps() == 1 && d->getValue(0) && d->getExpression()->getNumElements()==0 && !vars.count(d->getValue(0))) vars[d->getValue(0)] = d->getVariable(); }
  }
  J.object([&] {
    J.attribute("name", fname(&F));
    J.attribute("sym", F.getName());
    auto* sp = F.getSubprogram();
    J.attribute("file", sp ? sp->getFilename() : "");
    J.attribute("line", sp ? (int64_t) sp->getLine() : 0);
    J.attribute("static", F.hasLocalLinkage());
    J.attribute("ret", llty(F.getReturnType()));
    J.attributeArray("args", [&] {
      for (auto& A : F.args()) J.object([&] {
        auto it = vars.find(&A);
        J.attribute("n", it != vars.end() ? it->second->getName() : A.getName());
        J.attribute("t", it != vars.end() ? tyname(it->second->getType()) : "");
        J.attribute("lt", llty(A.getType()));
        if (A.hasByValAttr()) J.attribute("byval", (int64_t) DL->getTypeAllocSize(A.getParamByValType()));
        if (A.hasStructRetAttr()) J.attribute("sret", (int64_t) DL->getTypeAllocSize(A.getParamStructRetType()));
      });
    });
    if (sp) J.attributeArray("ptypes", [&] { for (auto* t : sp->getType()->getTypeArray()) J.value(tyname(t)); });
    if (sp) J.attributeArray("pconst", [&] { for (auto* t : sp->getType()->getTypeArray()) J.value(constptr(t)); });
    J.attributeArray("blocks", [&] {
      for (auto& B : F) J.array([&] {
        for (auto& I : B) {
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          J.object([&] {
            J.attribute("id", ids[&I]);
            J.attribute("op", I.getOpcodeName());
            if (!I.getType()->isVoidTy()) J.attribute("t", llty(I.getType()));
            if (auto& dl = I.getDebugLoc()) {
              J.attribute("l", (int64_t) dl.getLine());
              if (auto* sc = dyn_cast_or_null<DILocalScope>(dl.getScope())) {
                J.attribute("sf", sc->getSubprogram() ? sc->getSubprogram()->getName() : "");
                J.attribute("f", sc->getFilename());
              }
            }
            auto vit = vars.find(&I);
            if (vit != vars.end()) { J.attribute("v", vit->second->getName()); J.attribute("vt", tyname(vit->second->getType())); }
            if (auto* c = dyn_cast<CmpInst>(&I)) J.attribute("p", CmpInst::getPredicateName(c->getPredicate()));
            if (auto* a = dyn_cast<AllocaInst>(&I)) {
              auto sz = a->getAllocationSize(*DL);
              J.attribute("sz", sz ? (int64_t) sz->getFixedValue() : -1);
              if (!sz) { J.attributeBegin("n"); operand(J, a->getArraySize()); J.attributeEnd(); }
              return;
            }
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
              MapVector<Value*, APInt> vo; APInt co(64, 0);
              cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co);
              J.attributeBegin("b"); operand(J, g->getPointerOperand()); J.attributeEnd();
              J.attribute("off", co.getSExtValue());
              J.attributeArray("vo", [&] { for (auto& p : vo) J.array([&] { operand(J, p.first); J.value(p.second.getSExtValue()); }); });
              return;
            }
            if (auto* l = dyn_cast<LoadInst>(&I)) J.attribute("sz", (int64_t) DL->getTypeStoreSize(l->getType()));
            if (auto* s = dyn_cast<StoreInst>(&I)) J.attribute("sz", (int64_t) DL->getTypeStoreSize(s->getValueOperand()->getType()));
            if (auto* c = dyn_cast<CallBase>(&I)) {
              auto* cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
              if (cf) { J.attribute("callee", fname(cf)); if (cf->getName() != fname(cf)) J.attribute("cs", cf->getName()); if (cf->isDeclaration()) J.attribute("ext", true); }
              else { J.attributeBegin("ind"); operand(J, c->getCalledOperand()); J.attributeEnd(); }
              J.attributeArray("args", [&] { for (auto& a : c->args()) operand(J, a.get()); });
              for (unsigned i = 0; i < c->arg_size(); i++) {
                if (c->isByValArgument(i)) { J.attributeArray("byval", [&] { for (unsigned k = 0; k < c->arg_size(); k++) if (c->isByValArgument(k)) J.array([&] { J.value((int64_t) k); J.value((int64_t) DL->getTypeAllocSize(c->getParamByValType(k))); }); }); break; }
              }
              if (c->arg_size() && c->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", (int64_t) DL->getTypeAllocSize(c->getParamStructRetType(0)));
              return;
            }
            if (auto* p = dyn_cast<PHINode>(&I)) {
              J.attributeArray("in", [&] { for (unsigned i = 0; i < p->getNumIncomingValues(); i++) J.array([&] { operand(J, p->getIncomingValue(i)); J.value(ids[p->getIncomingBlock(i)]); }); });
              return;
            }
            if (auto* b = dyn_cast<BranchInst>(&I)) {
              if (b->isConditional()) { J.attributeBegin("cond"); operand(J, b->getCondition()); J.attributeEnd(); }
              J.attributeArray("succ", [&] { for (unsigned k = 0; k < b->getNumSuccessors(); k++) J.value(ids[b->getSuccessor(k)]); });
              return;
            }
            if (auto* s = dyn_cast<SwitchInst>(&I)) {
              J.attributeBegin("cond"); operand(J, s->getCondition()); J.attributeEnd();
              J.attribute("def", ids[s->getDefaultDest()]);
              J.attributeArray("cases", [&] { for (auto& c : s->cases()) J.array([&] { J.value(c.getCaseValue()->getSExtValue()); J.value(ids[c.getCaseSuccessor()]); }); });
              return;
            }
            if (auto* ev = dyn_cast<ExtractValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned i : ev->indices()) J.value((int64_t) i); });
            if (auto* iv = dyn_cast<InsertValueInst>(&I)) J.attributeArray("idx", [&] { for (unsigned i : iv->indices()) J.value((int64_t) i); });
            J.attributeArray("ops", [&] { for (auto& o : I.operands()) operand(J, o.get()); });
          });
        }
      });
    });
  });
}

static std::set<std::string> readList(const char* p) {
  std::set<std::string> r; std::ifstream f(p); std::string l;
  while (std::getline(f, l)) { size_t h = l.find('#'); if (h != std::string::npos) l = l.substr(0, h); std::istringstream s(l); while (s >> l) r.insert(l); }
  return r;
}

// a block that only joins the outcomes of a short-circuit condition to branch on it: branch where the outcome is known instead
struct ShortCircuits : PassInfoMixin<ShortCircuits> {
  PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
    bool changed = false;
    for (bool again = true; again;) {
      again = false;
      for (BasicBlock& B : F) {
        auto* P = dyn_cast<PHINode>(&B.front());
        auto* T = dyn_cast<BranchInst>(B.getTerminator());
        if (!P || !T || !T->isConditional() || T->getCondition() != P || !P->hasOneUse() || &B == &F.getEntryBlock()) continue;
        bool ok = true;
        for (Instruction& I : B) if (&I != P && &I != T && !isa<DbgInfoIntrinsic>(I)) ok = false;
        for (unsigned k = 0; ok && k < P->getNumIncomingValues(); k++) {
          auto* X = dyn_cast<BranchInst>(P->getIncomingBlock(k)->getTerminator());
          bool c = isa<ConstantInt>(P->getIncomingValue(k));
          if (!X || P->getIncomingBlock(k) == &B || !c && X->isConditional() || X->isConditional() && X->getSuccessor(0) == X->getSuccessor(1)) ok = false;
          for (unsigned t = 0; ok && t < 2; t++)
            if (X && (T->getSuccessor(t) == &B || (X->isConditional() && (X->getSuccessor(0) == T->getSuccessor(t) || X->getSuccessor(1) == T->getSuccessor(t))))) ok = false;
        }
        if (!ok || T->getSuccessor(0) == T->getSuccessor(1)) continue;
        BasicBlock* S[2] = {T->getSuccessor(0), T->getSuccessor(1)};
        for (unsigned k = 0; k < P->getNumIncomingValues(); k++) {
          BasicBlock* XB = P->getIncomingBlock(k); auto* X = cast<BranchInst>(XB->getTerminator()); Value* V = P->getIncomingValue(k);
          auto join = [&](BasicBlock* D) { for (PHINode& Q : D->phis()) Q.addIncoming(Q.getIncomingValueForBlock(&B), XB); };
          if (auto* C = dyn_cast<ConstantInt>(V)) {
            BasicBlock* D = C->isOne() ? S[0] : S[1];
            for (unsigned t = 0; t < X->getNumSuccessors(); t++) if (X->getSuccessor(t) == &B) X->setSuccessor(t, D);
            join(D);
          } else {
            auto* N = BranchInst::Create(S[0], S[1], V, X); N->setDebugLoc(T->getDebugLoc()); X->eraseFromParent();
            join(S[0]); join(S[1]);
          }
        }
        for (BasicBlock* D : S) D->removePredecessor(&B, true);
        T->eraseFromParent(); P->eraseFromParent();
        while (!B.empty()) B.front().eraseFromParent();
        B.eraseFromParent(); changed = again = true; break;
      }
    }
    return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// reading a constant table at one of several known positions
struct TableLoads : PassInfoMixin<TableLoads> {
  PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
    const DataLayout& DL = F.getParent()->getDataLayout();
    SmallVector<LoadInst*, 16> ls;
    for (BasicBlock& B : F) for (Instruction& I : B) if (auto* L = dyn_cast<LoadInst>(&I)) ls.push_back(L);
    bool changed = false;
    for (LoadInst* L : ls) {
      Value* V = L->getPointerOperand(); APInt off(64, 0); MapVector<Value*, APInt> vo; bool ok = true;
      while (auto* G = dyn_cast<GEPOperator>(V)) { if (!G->collectOffset(DL, 64, vo, off)) { ok = false; break; } V = G->getPointerOperand(); }
      auto* GV = dyn_cast<GlobalVariable>(V);
      if (!ok || !GV || !GV->isConstant() || !GV->hasDefinitiveInitializer() || vo.size() != 1) continue;
      Value* X = vo.begin()->first; bool sx = true;
      if (auto* Z = dyn_cast<ZExtInst>(X)) { X = Z->getOperand(0); sx = false; } else if (auto* Z = dyn_cast<SExtInst>(X)) X = Z->getOperand(0);
      auto* P = dyn_cast<PHINode>(X);
      if (!P) continue;
      SmallVector<Constant*, 8> cs;
      for (Value* I : P->incoming_values()) {
        auto* C = dyn_cast<ConstantInt>(I); if (!C) { ok = false; break; }
        APInt o = off + (sx ? C->getValue().sextOrTrunc(64) : C->getValue().zextOrTrunc(64)) * vo.begin()->second;
        Constant* R = nullptr;
        if (o.isNegative() || o.uge(DL.getTypeAllocSize(GV->getValueType()))) R = PoisonValue::get(L->getType());
        else R = ConstantFoldLoadFromConst(GV->getInitializer(), L->getType(), o, DL);
        if (!R) { ok = false; break; }
        cs.push_back(R);
      }
      if (!ok) continue;
      auto* N = PHINode::Create(L->getType(), cs.size(), "", P); N->setDebugLoc(L->getDebugLoc());
      for (unsigned k = 0; k < cs.size(); k++) N->addIncoming(cs[k], P->getIncomingBlock(k));
      L->replaceAllUsesWith(N); L->eraseFromParent(); changed = true;
    }
    return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// loops that always make 1..4 turns are the same as their turns written out
struct SmallLoops : PassInfoMixin<SmallLoops> {
  PreservedAnalyses run(Function& F, FunctionAnalysisManager& AM) {
    auto& LI = AM.getResult<LoopAnalysis>(F); auto& SE = AM.getResult<ScalarEvolutionAnalysis>(F); auto& DT = AM.getResult<DominatorTreeAnalysis>(F);
    auto& AC = AM.getResult<AssumptionAnalysis>(F); auto& TTI = AM.getResult<TargetIRAnalysis>(F); auto& ORE = AM.getResult<OptimizationRemarkEmitterAnalysis>(F);
    bool changed = false;
    for (bool again = true; again;) {
      again = false;
      SmallVector<Loop*, 8> ls(LI.getLoopsInPreorder());
      std::reverse(ls.begin(), ls.end());
      for (Loop* L : ls) {
        unsigned n = SE.getSmallConstantMaxTripCount(L);
        if (n < 1 || n > 7 || L->getNumBlocks() > 40) continue;  // the count includes the test that ends the loop
        simplifyLoop(L, &DT, &LI, &SE, &AC, nullptr, false); formLCSSARecursively(*L, DT, &LI, &SE);
        if (!L->isLoopSimplifyForm()) continue;
        UnrollLoopOptions O; O.Count = n; O.Force = true; O.Runtime = false; O.AllowExpensiveTripCount = false; O.UnrollRemainder = false; O.ForgetAllSCEV = true;
        Loop* rem = nullptr;
        if (UnrollLoop(L, O, &LI, &SE, &DT, &AC, &TTI, &ORE, true, &rem) != LoopUnrollResult::Unmodified) { changed = again = true; break; }
      }
    }
    return changed ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::string mode = argv[3];
  std::set<std::string> keep, entry;
  for (auto& F : *M) { F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::AlwaysInline); }
  if (mode == "flat") {
    keep = readList(argv[4]); entry = readList(argv[5]);
    // recursion is cut at the functions that are kept, at the entries and at those called from outside of their cycle; the helpers inside of the cycle are inlined
    std::set<const Function*> rec;
    std::map<const Function*, std::set<const Function*>> calls;
    std::set<const Function*> taken;
    for (auto& F : *M) for (auto& B : F) for (auto& I : B) {
      if (auto* C = dyn_cast<CallBase>(&I)) if (auto* T = C->getCalledFunction()) if (!T->isDeclaration()) calls[&F].insert(T);
      for (auto& U : I.operands()) if (auto* T = dyn_cast<Function>(U.get())) { auto* C = dyn_cast<CallBase>(&I); if (!C || C->getCalledOperand() != T) taken.insert(T); }
    }
    auto stop = [&](const Function* F) { std::string n = fname(F); return keep.count(n) || F->isVarArg() || entry.count(n) || entry.count(F->getName().str()) || rec.count(F); };
    auto reach = [&](const Function* F) {  // functions called from F through functions that would be inlined
      std::set<const Function*> seen; SmallVector<const Function*, 16> todo(calls[F].begin(), calls[F].end());
      while (!todo.empty()) { auto* X = todo.pop_back_val(); if (!seen.insert(X).second || stop(X)) continue; for (auto* Y : calls[X]) todo.push_back(Y); }
      return seen;
    };
    for (bool again = true; again;) {
      again = false;
      for (auto& F : *M) {
        if (F.isDeclaration() || stop(&F) || !calls.count(&F)) continue;
        auto R = reach(&F);
        if (!R.count(&F)) continue;
        std::set<const Function*> cyc;
        for (auto* X : R) if (!stop(X) && (X == &F || reach(X).count(&F))) cyc.insert(X);
        std::set<const Function*> cut;
        for (auto* X : cyc) {
          bool out = taken.count(X) || !X->hasLocalLinkage();
          for (auto& [C, T] : calls) if (T.count(X) && !cyc.count(C)) out = true;
          if (out) cut.insert(X);
        }
        if (cut.empty()) cut.insert(&F);
        rec.insert(cut.begin(), cut.end()); again = true; break;
      }
    }
    std::set<std::string> entrySyms;
    for (auto& F : *M) {
      if (F.isDeclaration()) continue;
      std::string n = fname(&F);
      bool isEntry = entry.count(n) || entry.count(F.getName().str());
      if (isEntry) { F.setLinkage(GlobalValue::ExternalLinkage); }
      else F.setLinkage(GlobalValue::InternalLinkage);
      bool self = isEntry && reach(&F).count(&F);
      if (keep.count(n) || rec.count(&F) || F.isVarArg() || self) F.addFnAttr(Attribute::NoInline);
      else if (isEntry && !keep.count(n)) F.addFnAttr(Attribute::AlwaysInline);
      else F.addFnAttr(Attribute::AlwaysInline);
    }
    for (auto& G : M->globals()) if (!G.isDeclaration()) G.setLinkage(GlobalValue::InternalLinkage);
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  ModulePassManager MPM;
  if (mode == "flat") {
    // drop what no entry reaches first, then inline
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    MPM.addPass(AlwaysInlinerPass(false));
    MPM.addPass(GlobalDCEPass());
    MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
    MPM.addPass(createModuleToFunctionPassAdaptor(ShortCircuits()));
    MPM.addPass(createModuleToFunctionPassAdaptor(SmallLoops()));
    MPM.addPass(createModuleToFunctionPassAdaptor(TableLoads()));
  }
  MPM.addPass(createModuleToFunctionPassAdaptor(SROAPass(SROAOptions::PreserveCFG)));
  MPM.run(*M, MAM);
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  JO J(out);
  J.object([&] {
    J.attributeArray("functions", [&] {
      for (auto& F : *M) {
        if (F.isDeclaration()) continue;
        if (mode == "flat" && !entry.count(fname(&F)) && !entry.count(F.getName().str())) continue;
        dumpFn(J, F);
      }
    });
    J.attributeObject("globals", [&] {
      // close over initialisers
      std::set<const GlobalVariable*> done;
      for (auto& G : M->globals()) usedGlobals.insert(&G);
      for (;;) {
        std::vector<const GlobalVariable*> todo;
        for (auto* g : usedGlobals) if (!done.count(g)) todo.push_back(g);
        if (todo.empty()) break;
        for (auto* g : todo) {
          done.insert(g);
          J.attributeObject(g->getName(), [&] {
            SmallVector<DIGlobalVariableExpression*, 1> dv; g->getDebugInfo(dv);
            if (!dv.empty()) { J.attribute("name", dv[0]->getVariable()->getName()); J.attribute("t", tyname(dv[0]->getVariable()->getType())); J.attribute("file", dv[0]->getVariable()->getFilename()); J.attribute("line", (int64_t) dv[0]->getVariable()->getLine()); }
            J.attribute("const", g->isConstant());
            J.attribute("sz", (int64_t) (g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0));
            if (g->hasInitializer()) { J.attributeBegin("init"); constVal(J, g->getInitializer(), 0); J.attributeEnd(); }
          });
        }
      }
    });
    J.attributeObject("structs", [&] {
      std::set<std::string> em;
      DebugInfoFinder Fd; Fd.processModule(*M);
      for (auto* t : Fd.types()) tyname(t);
      for (size_t k = 0; k < typeQueue.size(); k++) {
        const DIType* t = typeQueue[k]; std::string nm = tyname(t);
        const DIType* b = t;
        while (auto* d = dyn_cast_or_null<DIDerivedType>(b)) b = d->getBaseType();
        auto* c = dyn_cast_or_null<DICompositeType>(b);
        if (!c || c->isForwardDecl() || !em.insert(nm).second) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
          J.attributeObject(nm, [&] { J.attributeObject("enum", [&] { for (auto* e : c->getElements()) if (auto* en = dyn_cast<DIEnumerator>(e)) J.attribute(en->getName(), en->getValue().getSExtValue()); }); });
          continue;
        }
        J.attributeObject(nm, [&] {
          J.attribute("sz", (int64_t) c->getSizeInBits() / 8);
          if (c->getTag() == dwarf::DW_TAG_union_type) J.attribute("union", true);
          J.attributeArray("f", [&] {
            for (auto* e : c->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member)
              J.array([&] { J.value(m->getName()); J.value((int64_t) m->getOffsetInBits() / 8); J.value((int64_t) m->getSizeInBits() / 8); J.value(tyname(m->getBaseType())); });
          });
        });
      }
    });
  });
  out.flush();
  return 0;
}
