// C10: decides on the optimised IR of the allocator's translation unit that every block is overwritten before free().
#include "prog.h"
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Analysis/ScalarEvolution.h"
#include "llvm/Analysis/ScalarEvolutionExpressions.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using llvm::json::Array; using llvm::json::Object;
static std::string dstr(const SCEV *s) { std::string o; raw_string_ostream r(o); s->print(r); return r.str(); }
// the source line of an instruction in the outermost function it was inlined into
static int outerLine(const Instruction *I) { const DILocation *d = I->getDebugLoc().get(); while (d && d->getInlinedAt()) d = d->getInlinedAt(); return d ? d->getLine() : 0; }
int runWipe(const std::string &file, const std::string &out) {
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(file, err, ctx); if (!M) { err.print("mstana", errs()); return 3; }
  Array frees, mallocs, headers; TargetLibraryInfoImpl tlii(Triple(M->getTargetTriple())); std::error_code ec; raw_fd_ostream os(out, ec);
  int64_t K = -1; // header size: learnt from the allocation function
  std::vector<Function *> fns; for (auto &F : *M) if (!F.isDeclaration()) fns.push_back(&F);
  for (int pass = 0; pass < 2; pass++) for (auto *F : fns) {
    DominatorTree DT(*F); LoopInfo LI(DT); TargetLibraryInfo TLI(tlii); AssumptionCache AC(*F); ScalarEvolution SE(*F, TLI, AC, DT, LI);
    auto off = [&](const SCEV *a, const SCEV *b, int64_t &k) { if (a->getType() != b->getType() && !(a->getType()->isPointerTy() && b->getType()->isPointerTy())) return false; auto *d = SE.getMinusSCEV(a, b); if (auto *c = dyn_cast<SCEVConstant>(d)) { k = c->getAPInt().getSExtValue(); return true; } return false; };
    std::string fn = F->getName().str();
    if (pass == 0) {
      for (auto &I : instructions(*F)) { auto *CB = dyn_cast<CallBase>(&I); auto *C = CB ? CB->getCalledFunction() : nullptr; if (!C || C->getName() != "malloc") continue;
        auto *m = SE.getSCEV(CB); auto *len = SE.getSCEV(CB->getArgOperand(0)); std::string why; int64_t k = -1;
        // returned pointer: malloc + K
        std::function<void(Value *, std::set<Value *> &)> ret = [&](Value *v, std::set<Value *> &seen) { if (!seen.insert(v).second) return; if (auto *p = dyn_cast<PHINode>(v)) { for (auto &x : p->incoming_values()) ret(x, seen); return; } if (auto *s = dyn_cast<SelectInst>(v)) { ret(s->getTrueValue(), seen); ret(s->getFalseValue(), seen); return; } int64_t q; if (off(SE.getSCEV(v), m, q)) k = k < 0 || k == q ? q : -2; };
        for (auto &B : *F) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (R->getReturnValue() && R->getReturnValue()->getType()->isPointerTy()) { std::set<Value *> seen; ret(R->getReturnValue(), seen); }
        if (k <= 0) why = "the pointer handed out is not at a fixed positive offset of the allocated block";
        else { bool st = false; for (auto &J : instructions(*F)) if (auto *S = dyn_cast<StoreInst>(&J)) { int64_t q, l; if (off(SE.getSCEV(S->getPointerOperand()), m, q) && q >= 0 && q < k && off(len, SE.getSCEV(S->getValueOperand()), l)) { if (l == k && q == 0) st = true; else why = "the size recorded in the block header differs from the size allocated"; } }
          if (!st && why.empty()) why = "the size of the block is not recorded in its header"; if (K < 0) K = k; else if (K != k) why = "two allocation sites use different header sizes"; }
        mallocs.push_back(Object{{"fn", fn}, {"line", outerLine(CB)}, {"why", why}, {"k", k}}); }
      continue; }
    if (K < 0) continue;
    // wipes: memset / explicit_bzero / volatile byte loops
    struct Wipe { const BasicBlock *B; const Instruction *I; const SCEV *ptr, *len; bool strong; };
    std::vector<Wipe> wipes; std::vector<std::pair<const Instruction *, const SCEV *>> vol;
    for (auto &I : instructions(*F)) {
      if (auto *MS = dyn_cast<MemSetInst>(&I)) wipes.push_back({I.getParent(), &I, SE.getSCEV(MS->getDest()), SE.getSCEV(MS->getLength()), MS->isVolatile()});
      else if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = CB->getCalledFunction(); if (C && CB->arg_size() >= 2) { StringRef n = C->getName(); if (n == "explicit_bzero" || n == "memset_s" || n == "__explicit_bzero_chk" || n == "OPENSSL_cleanse") wipes.push_back({I.getParent(), &I, SE.getSCEV(CB->getArgOperand(0)), SE.getSCEV(CB->getArgOperand(1)), true}); }
        if (auto *IA = dyn_cast<InlineAsm>(CB->getCalledOperand())) { if (IA->getConstraintString().find("memory") != std::string::npos) for (auto &a : CB->args()) if (a->getType()->isPointerTy()) vol.push_back({&I, SE.getSCEV(a.get())}); } }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isVolatile()) { vol.push_back({&I, SE.getSCEV(S->getPointerOperand())});
          if (auto *L = LI.getLoopFor(I.getParent())) if (auto *AR = dyn_cast<SCEVAddRecExpr>(SE.getSCEV(S->getPointerOperand()))) if (AR->getLoop() == L && AR->isAffine()) if (auto *c = dyn_cast<SCEVConstant>(AR->getStepRecurrence(SE))) if ((uint64_t)llabs(c->getAPInt().getSExtValue()) == M->getDataLayout().getTypeStoreSize(S->getValueOperand()->getType())) { auto *bt = SE.getBackedgeTakenCount(L); if (!isa<SCEVCouldNotCompute>(bt) && L->getExitingBlock() && DT.dominates(I.getParent(), L->getExitingBlock())) { auto *ty = Type::getInt64Ty(ctx); auto *n = SE.getAddExpr(SE.getTruncateOrZeroExtend(bt, ty), SE.getOne(ty)); auto *len = SE.getMulExpr(n, SE.getConstant(ty, llabs(c->getAPInt().getSExtValue()))); const SCEV *start = AR->getStart(); if (c->getAPInt().isNegative()) start = SE.getAddExpr(start, SE.getMulExpr(SE.getTruncateOrZeroExtend(bt, ty), SE.getConstant(ty, c->getAPInt().getSExtValue(), true))); wipes.push_back({I.getParent(), &I, start, len, true}); } } } }
      else if (auto *Ld = dyn_cast<LoadInst>(&I)) { if (Ld->isVolatile()) vol.push_back({&I, SE.getSCEV(Ld->getPointerOperand())}); }
    }
    for (auto &I : instructions(*F)) { auto *CB = dyn_cast<CallBase>(&I); auto *C = CB ? CB->getCalledFunction() : nullptr; if (!C || C->getName() != "free") continue;
      auto *X = SE.getSCEV(CB->getArgOperand(0)); std::string why; std::vector<const Wipe *> good;
      // the size load: from the header of this very block
      std::vector<const SCEV *> sizes; for (auto &J : instructions(*F)) if (auto *Ld = dyn_cast<LoadInst>(&J)) { int64_t q; if (Ld->getType()->isIntegerTy(64) && off(SE.getSCEV(Ld->getPointerOperand()), X, q) && q == 0) sizes.push_back(SE.getSCEV(Ld)); }
      int partial = 0;
      for (auto &w : wipes) { int64_t s; if (!off(w.ptr, X, s)) continue; bool ok = false; for (auto *sz : sizes) { int64_t l; if (off(w.len, sz, l) && s >= 0 && s <= K && s + l >= K) ok = true; } if (ok) good.push_back(&w); else partial++; }
      if (good.empty()) why = partial ? "the overwrite before free() does not cover the whole block" : "no overwrite of the block survives optimisation before free()";
      else {
        // every path to the free passes a good wipe, except where the length is known to be zero
        std::set<const BasicBlock *> seen; std::vector<const BasicBlock *> w{&F->getEntryBlock()}; bool bad = false; std::set<const BasicBlock *> gb; for (auto *g : good) gb.insert(g->B);
        while (!w.empty()) { auto *B = w.back(); w.pop_back(); if (!seen.insert(B).second) continue; if (gb.count(B)) continue; if (B == CB->getParent()) { bad = true; break; }
          auto *br = dyn_cast<BranchInst>(B->getTerminator()); const BasicBlock *skip = nullptr;
          if (br && br->isConditional()) if (auto *ic = dyn_cast<ICmpInst>(br->getCondition())) if (ic->isEquality()) if (auto *z = dyn_cast<ConstantInt>(ic->getOperand(1))) if (z->isZero()) for (auto *g : good) if (SE.getSCEV(ic->getOperand(0)) == g->len) skip = br->getSuccessor(ic->getPredicate() == CmpInst::ICMP_EQ ? 0 : 1);
          for (auto *S : successors(B)) if (S != skip) w.push_back(S); }
        if (bad) why = "a path reaches free() without the overwrite";
        else { bool strong = true; for (auto *g : good) if (!g->strong) { bool v = false; for (auto &[VI, vp] : vol) { if (!DT.dominates(VI, CB)) continue; v = true; } if (!v) strong = false; } if (!strong) why = "nothing keeps the compiler from removing the overwrite before free()"; }
      }
      frees.push_back(Object{{"fn", fn}, {"line", outerLine(CB)}, {"why", why}}); }
    // nobody rewrites the header of an existing block
    for (auto &I : instructions(*F)) { const llvm::Value *p = nullptr; std::string what; if (auto *S = dyn_cast<StoreInst>(&I)) { if (S->isVolatile()) continue; p = S->getPointerOperand(); } else if (auto *MT = dyn_cast<MemTransferInst>(&I)) p = MT->getDest(); if (!p) continue;
      auto *s = SE.getSCEV(const_cast<llvm::Value *>(p)); auto *base = SE.getPointerBase(s); auto *bu = dyn_cast<SCEVUnknown>(base); if (!bu) continue; if (!isa<Argument>(bu->getValue()) && !isa<LoadInst>(bu->getValue()) && !isa<PHINode>(bu->getValue())) continue; int64_t q; if (off(s, base, q) && q < 0 && q >= -K) headers.push_back(Object{{"fn", fn}, {"line", outerLine(&I)}, {"why", "rewrites the recorded size of an existing block"}}); }
  }
  std::string buf; raw_string_ostream ro(buf); ro << json::Value(Object{{"frees", std::move(frees)}, {"mallocs", std::move(mallocs)}, {"headers", std::move(headers)}, {"k", K}}); os << ro.str(); return 0;
}
