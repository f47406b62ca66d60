#include <llvm/Analysis/CFG.h>
// Structural facts: what happens to mutable static storage, what runs in a forked child, which constants functions return.
#include "interp.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Support/JSON.h"
using llvm::json::Array; using llvm::json::Object;

// ---- parameters through which a function may write or let the address escape ----
namespace {
struct ParamMod {
  Prog &P; std::map<std::pair<const Function *, unsigned>, int> memo; // 0 no, 1 yes, 2 in progress
  ParamMod(Prog &p) : P(p) {}
  static bool roExternal(StringRef n, unsigned arg) {
    static const std::map<std::string, std::set<unsigned>> ro = {{"memcpy", {1}}, {"memmove", {1}}, {"memcmp", {0, 1}}, {"strlen", {0}}, {"strcmp", {0, 1}}, {"strncmp", {0, 1}}, {"write", {1}}, {"send", {1}}, {"fwrite", {0}}, {"memchr", {0}}, {"strchr", {0}}, {"fputs", {0}}, {"BN_bin2bn", {0}}, {"sqlite3_config", {1}}};
    auto it = ro.find(n.str()); return it != ro.end() && it->second.count(arg);
  }
  // may the memory v points to be written through v (or v be remembered)?
  void uses(const llvm::Value *v, std::function<void(const Instruction *, const char *, const CallBase *, unsigned)> cb, std::set<const llvm::Value *> &seen) {
    if (!seen.insert(v).second) return;
    for (auto &U : v->uses()) {
      auto *u = U.getUser();
      if (isa<ConstantExpr>(u)) { uses(u, cb, seen); continue; }
      auto *I = dyn_cast<Instruction>(u); if (!I) { if (isa<Constant>(u)) cb(nullptr, "init", nullptr, 0); continue; }
      if (isa<LoadInst>(I) || isa<ICmpInst>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *S = dyn_cast<StoreInst>(I)) { cb(I, U.getOperandNo() == 1 ? "store" : "escape", nullptr, 0); (void)S; continue; }
      if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || isa<PHINode>(I) || isa<SelectInst>(I)) { if (I->getType()->isPointerTy()) uses(I, cb, seen); continue; }
      if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) { cb(I, "atomic", nullptr, 0); continue; }
      if (isa<ReturnInst>(I)) { cb(I, "return", nullptr, 0); continue; }
      if (auto *CB = dyn_cast<CallBase>(I)) { if (CB->isCallee(&U)) continue; if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (C->getName() == "llvm.threadlocal.address.p0") continue; cb(I, "call", CB, CB->getArgOperandNo(&U)); continue; }
      cb(I, "other", nullptr, 0);
    }
  }
  bool callMods(const CallBase *CB, unsigned arg) {
    if (auto *MI = dyn_cast<MemIntrinsic>(CB)) { (void)MI; return arg == 0; }
    if (auto *II = dyn_cast<IntrinsicInst>(CB)) { switch (II->getIntrinsicID()) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::objectsize: return false; default: break; } }
    auto ts = P.targets(CB); if (ts.empty()) return true;
    for (auto *t : ts) { if (t->isDeclaration()) { if (!roExternal(t->getName(), arg)) return true; } else if (arg >= t->arg_size() || param(t, arg)) return true; }
    return false;
  }
  bool param(const Function *F, unsigned i) {
    auto k = std::make_pair(F, i); auto it = memo.find(k); if (it != memo.end()) return it->second == 1;
    memo[k] = 2; bool w = false; std::set<const llvm::Value *> seen;
    uses(F->getArg(i), [&](const Instruction *, const char *how, const CallBase *CB, unsigned a) { if (w) return; std::string h = how; if (h == "call") w = callMods(CB, a); else if (h != "return") w = true; }, seen);
    memo[k] = w; return w;
  }
};
}

void writeStructural(Engine &E, json::OStream &J, std::map<const Function *, int> &id) {
  Prog &P = E.P; ParamMod pm(P);
  J.attributeArray("gstores", [&] { for (auto &g : P.M->globals()) { if (g.isConstant() || g.getName().starts_with("llvm.")) continue;
      SmallVector<DIGlobalVariableExpression *, 1> dbg; g.getDebugInfo(dbg); std::string nm = g.getName().str(); if (!dbg.empty()) nm = dbg[0]->getVariable()->getName().str();
      std::set<const llvm::Value *> seen;
      pm.uses(&g, [&](const Instruction *I, const char *how, const CallBase *CB, unsigned a) { std::string h = how, callee; if (!I) return;
        if (h == "call") { if (!pm.callMods(CB, a)) return; auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); callee = C ? P.fname(C) : "(pointer)"; }
        auto it = id.find(I->getFunction()); if (it == id.end()) return; auto &o = *E.out[I->getFunction()]; Array held; auto mh = o.mustHeld.find(I); if (mh != o.mustHeld.end()) for (int c : mh->second) held.push_back(E.lockClass[c]);
        J.value(Object{{"g", nm}, {"ir", g.getName().str()}, {"tls", g.isThreadLocal()}, {"f", it->second}, {"l", lineOf(I)}, {"how", h}, {"callee", callee}, {"held", std::move(held)}}); }, seen); } });
  // ---- forked children ----
  J.attributeArray("forks", [&] {
    FnSet forkLike; bool ch = true;
    auto isFork = [&](const CallBase *CB) { auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); return C && (C->getName() == "fork" || C->getName() == "vfork" || C->getName() == "_Fork" || forkLike.count(C)); };
    while (ch) { ch = false; for (auto *F : P.order) if (!forkLike.count(F)) for (auto &I : instructions(F)) if (auto *R = dyn_cast<ReturnInst>(&I)) if (R->getReturnValue()) if (auto *CB = dyn_cast<CallBase>(R->getReturnValue()->stripPointerCasts())) if (isFork(CB)) { forkLike.insert(F); ch = true; } }
    for (auto *F : P.order) for (auto &I0 : instructions(F)) { auto *FK = dyn_cast<CallBase>(&I0); if (!FK || !isFork(FK)) continue;
      bool returns = false; Array calls; std::set<const BasicBlock *> seen; std::vector<std::pair<const BasicBlock *, const BasicBlock *>> w; // (block, pred)
      std::map<const PHINode *, std::set<int>> phis; // 1: is pid (0 in the child)
      std::function<int(const llvm::Value *, int64_t &)> val = [&](const llvm::Value *v, int64_t &k) -> int { // 1 known
        if (auto *c = dyn_cast<ConstantInt>(v)) { k = c->getSExtValue(); return 1; } if (v == FK) { k = 0; return 1; }
        if (auto *c = dyn_cast<CastInst>(v)) return val(c->getOperand(0), k);
        if (auto *L = dyn_cast<LoadInst>(v)) { // pid kept in memory: a load from the address the fork result was stored to, no other store to that key in between is assumed
          int key = P.addrKey(L->getPointerOperand()); for (auto *U : FK->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == FK && (S->getPointerOperand() == L->getPointerOperand() || (key != P.rawKey && key == P.addrKey(S->getPointerOperand())))) { k = 0; return 1; } return 0; }
        if (auto *c = dyn_cast<ICmpInst>(v)) { int64_t a, b; if (!val(c->getOperand(0), a) || !val(c->getOperand(1), b)) return 0; switch (c->getPredicate()) { case CmpInst::ICMP_EQ: k = a == b; break; case CmpInst::ICMP_NE: k = a != b; break; case CmpInst::ICMP_SLT: k = a < b; break; case CmpInst::ICMP_SLE: k = a <= b; break; case CmpInst::ICMP_SGT: k = a > b; break; case CmpInst::ICMP_SGE: k = a >= b; break; case CmpInst::ICMP_ULT: k = (uint64_t)a < (uint64_t)b; break; case CmpInst::ICMP_ULE: k = (uint64_t)a <= (uint64_t)b; break; case CmpInst::ICMP_UGT: k = (uint64_t)a > (uint64_t)b; break; case CmpInst::ICMP_UGE: k = (uint64_t)a >= (uint64_t)b; break; default: return 0; } return 1; }
        if (auto *b = dyn_cast<BinaryOperator>(v)) { int64_t x, y; if (b->getOpcode() == Instruction::Xor && val(b->getOperand(0), x) && val(b->getOperand(1), y)) { k = x ^ y; return 1; } }
        return 0; };
      std::function<void(const BasicBlock *, const Instruction *)> go = [&](const BasicBlock *B, const Instruction *from) { if (!from && !seen.insert(B).second) return; bool on = !from;
        for (auto &I : *B) { if (&I == from) { on = true; continue; } if (!on) continue;
          if (auto *CB = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(CB)) continue; Array t; for (auto *x : P.targets(CB)) t.push_back(P.fname(x)); Array ti; for (auto *x : P.targets(CB)) { auto it = id.find(x); if (it != id.end()) ti.push_back(it->second); } calls.push_back(Object{{"l", lineOf(CB)}, {"t", std::move(t)}, {"i", std::move(ti)}}); }
          if (isa<ReturnInst>(I)) returns = true; }
        auto *T = B->getTerminator(); int64_t k;
        if (auto *br = dyn_cast<BranchInst>(T)) { if (br->isConditional() && val(br->getCondition(), k)) { go(br->getSuccessor(k ? 0 : 1), nullptr); return; } }
        if (auto *sw = dyn_cast<SwitchInst>(T)) if (val(sw->getCondition(), k)) { const BasicBlock *d = sw->getDefaultDest(); for (auto &c : sw->cases()) if (c.getCaseValue()->getSExtValue() == k) d = c.getCaseSuccessor(); go(d, nullptr); return; }
        for (auto *S : successors(B)) go(S, nullptr); };
      go(FK->getParent(), FK);
      J.value(Object{{"f", id[F]}, {"l", lineOf(FK)}, {"wrapper", forkLike.count(F) > 0}, {"returns", returns}, {"calls", std::move(calls)}}); } });
  // ---- descriptors created: is close-on-exec certain? ----
  struct Creator { const char *n; int arg; int64_t bit; };
  static const Creator creators[] = {{"open", 1, 0x80000}, {"open64", 1, 0x80000}, {"openat", 2, 0x80000}, {"openat64", 2, 0x80000}, {"socket", 1, 0x80000}, {"socketpair", 1, 0x80000}, {"accept4", 3, 0x80000}, {"accept", -1, 0}, {"pipe2", 1, 0x80000}, {"pipe", -1, 0}, {"epoll_create1", 0, 0x80000}, {"epoll_create", -1, 0},
    {"eventfd", 1, 0x80000}, {"dup", -1, 0}, {"dup3", 2, 0x80000}, {"creat", -1, 0}, {"creat64", -1, 0}, {"inotify_init", -1, 0}, {"inotify_init1", 0, 0x80000}, {"timerfd_create", 1, 0x80000}, {"signalfd", 2, 0x80000}, {"memfd_create", 1, 1}, {"mkstemp", -1, 0}, {"mkstemp64", -1, 0}, {"mkostemp", 1, 0x80000}, {"posix_openpt", 0, 0x80000}};
  std::map<const Function *, std::vector<const CallBase *>, FnLess> callersOf;
  for (auto *F : P.order) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *t : P.targets(CB)) callersOf[t].push_back(CB);
  // does every value v may take contain the bit? lacking: the tests under which it does not
  std::function<bool(const llvm::Value *, int64_t, std::set<const llvm::Value *> &, std::vector<std::string> &)> mustBit = [&](const llvm::Value *v, int64_t bit, std::set<const llvm::Value *> &seen, std::vector<std::string> &lacking) -> bool {
    if (!seen.insert(v).second) return true;
    if (auto *c = dyn_cast<ConstantInt>(v)) { if (c->getSExtValue() & bit) return true; lacking.push_back("?"); return false; }
    if (auto *c = dyn_cast<CastInst>(v)) return mustBit(c->getOperand(0), bit, seen, lacking);
    if (auto *b = dyn_cast<BinaryOperator>(v)) {
      std::vector<std::string> l1, l2; 
      if (b->getOpcode() == Instruction::Or) { if (mustBit(b->getOperand(1), bit, seen, l1) || mustBit(b->getOperand(0), bit, seen, l2)) return true; lacking.insert(lacking.end(), l2.begin(), l2.end()); return false; }
      if (b->getOpcode() == Instruction::And) { if (mustBit(b->getOperand(1), bit, seen, lacking)) return mustBit(b->getOperand(0), bit, seen, lacking); return false; } }
    auto test = [&](const llvm::Value *c, bool taken) -> std::string { // "mask" when the branch is taken because a bit of mask is set
      if (auto *x = dyn_cast<ICmpInst>(c)) if (auto *z = dyn_cast<ConstantInt>(x->getOperand(1))) if (z->isZero()) if (auto *a = dyn_cast<BinaryOperator>(x->getOperand(0))) if (a->getOpcode() == Instruction::And) if (auto *m = dyn_cast<ConstantInt>(a->getOperand(1))) if ((x->getPredicate() == CmpInst::ICMP_NE) == taken) return "set " + std::to_string(m->getSExtValue());
      return "?"; };
    if (auto *p = dyn_cast<PHINode>(v)) { bool ok = true; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { std::vector<std::string> l; if (mustBit(p->getIncomingValue(i), bit, seen, l)) continue; ok = false;
        // the edge on which the bit is missing
        const BasicBlock *to = p->getParent(), *B = p->getIncomingBlock(i); std::string why = "?"; for (int d = 0; d < 4; d++) { if (auto *br = dyn_cast<BranchInst>(B->getTerminator())) if (br->isConditional()) { why = test(br->getCondition(), br->getSuccessor(0) == to); break; } to = B; B = B->getSinglePredecessor(); if (!B) break; }
        if (why != "?") lacking.push_back(why); else lacking.insert(lacking.end(), l.begin(), l.end()); }
      return ok; }
    if (auto *sl = dyn_cast<SelectInst>(v)) { std::vector<std::string> l1, l2; bool a = mustBit(sl->getTrueValue(), bit, seen, l1), b = mustBit(sl->getFalseValue(), bit, seen, l2); if (!a) { auto w = test(sl->getCondition(), true); if (w != "?") lacking.push_back(w); else lacking.insert(lacking.end(), l1.begin(), l1.end()); } if (!b) { auto w = test(sl->getCondition(), false); if (w != "?") lacking.push_back(w); else lacking.insert(lacking.end(), l2.begin(), l2.end()); } return a && b; }
    if (auto *A = dyn_cast<Argument>(v)) { auto &cs = callersOf[A->getParent()]; if (cs.empty()) { lacking.push_back("?"); return false; } bool ok = true; for (auto *CB : cs) if (A->getArgNo() >= CB->arg_size() || !mustBit(CB->getArgOperand(A->getArgNo()), bit, seen, lacking)) ok = false; return ok; }
    if (auto *CB = dyn_cast<CallBase>(v)) { auto ts = P.targets(CB); bool ok = !ts.empty(); for (auto *t : ts) { if (t->isDeclaration()) { ok = false; continue; } for (auto &I : instructions(t)) if (auto *R = dyn_cast<ReturnInst>(&I)) if (!mustBit(R->getReturnValue(), bit, seen, lacking)) ok = false; } if (!ok && lacking.empty()) lacking.push_back("?"); return ok; }
    lacking.push_back("?"); return false; };
  // functions that set close-on-exec on the descriptor in one of their parameters (parameter, parameter holding the switch or -1)
  std::map<const Function *, std::pair<int, int>, FnLess> setters;
  auto fdArg = [&](const llvm::Value *v) -> const llvm::Value * { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; };
  auto sets = [&](const CallBase *CB, const llvm::Value *&fd, const llvm::Value *&on) -> bool { auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!C) return false;
    if ((C->getName() == "fcntl" || C->getName() == "fcntl64") && CB->arg_size() > 2) { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); if (!c || c->getSExtValue() != 2) return false; fd = fdArg(CB->getArgOperand(0)); on = CB->getArgOperand(2); return true; }
    auto it = setters.find(C); if (it == setters.end()) return false; fd = fdArg(CB->getArgOperand(it->second.first)); on = it->second.second < 0 ? nullptr : CB->getArgOperand(it->second.second); return true; };
  for (bool ch = true; ch;) { ch = false; for (auto *F : P.order) { if (setters.count(F)) continue; for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { const llvm::Value *fd, *on; if (!sets(CB, fd, on)) continue; auto *A = dyn_cast<Argument>(fd); if (!A) continue; int sw = -1; for (auto &B : F->args()) if (&B != A && B.getType()->isIntegerTy() && B.getType()->getIntegerBitWidth() <= 32) sw = B.getArgNo(); setters[F] = {(int)A->getArgNo(), sw}; ch = true; break; } } }
  FnSet wrappers; // return a descriptor that is not close-on-exec
  auto same = [&](const llvm::Value *a, const llvm::Value *fd, int key) { a = fdArg(a); if (a == fd) return true; if (auto *p = dyn_cast<PHINode>(a)) for (auto &u : p->incoming_values()) if (fdArg(u) == fd) return true; if (auto *L = dyn_cast<LoadInst>(a)) return key >= 0 && P.addrKey(L->getPointerOperand()) == key; return false; };
  auto covered = [&](const CallBase *MK, bool &returned) -> bool { // every path from the creation on which it succeeded sets close-on-exec
    int key = -1; for (auto *U : MK->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getValueOperand() == MK) key = P.addrKey(S->getPointerOperand());
    std::set<const BasicBlock *> seen; bool ok = true; returned = false;
    std::function<void(const BasicBlock *, const Instruction *)> go = [&](const BasicBlock *B, const Instruction *from) { if (!from && !seen.insert(B).second) return; bool on = !from;
      for (auto &I : *B) { if (&I == from) { on = true; continue; } if (!on) continue;
        if (auto *CB = dyn_cast<CallBase>(&I)) { const llvm::Value *fd, *sw; if (sets(CB, fd, sw) && same(fd, MK, key)) { auto *c = dyn_cast_or_null<ConstantInt>(sw); if (!c || !c->isZero()) return; }
          auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (C && C->getName() == "close" && same(CB->getArgOperand(0), MK, key)) return; }
        if (auto *R = dyn_cast<ReturnInst>(&I)) { ok = false; if (R->getReturnValue() && same(R->getReturnValue(), MK, -1)) returned = true; } }
      auto *br = dyn_cast<BranchInst>(B->getTerminator());
      if (br && br->isConditional()) if (auto *x = dyn_cast<ICmpInst>(br->getCondition())) if (same(x->getOperand(0), MK, key)) if (auto *k = dyn_cast<ConstantInt>(x->getOperand(1))) { // only the edge a valid descriptor takes
        bool eq, fail0 = false, known = true; switch (x->getPredicate()) { case CmpInst::ICMP_EQ: fail0 = k->isMinusOne(); known = fail0; break; case CmpInst::ICMP_NE: fail0 = false; known = k->isMinusOne(); break; case CmpInst::ICMP_SLT: fail0 = true; known = k->isZero(); break; case CmpInst::ICMP_SGE: known = k->isZero(); break; case CmpInst::ICMP_SGT: known = k->isMinusOne(); break; case CmpInst::ICMP_SLE: fail0 = true; known = k->isMinusOne(); break; default: known = false; } (void)eq;
        if (known) { go(br->getSuccessor(fail0 ? 1 : 0), nullptr); return; } }
      for (auto *S : successors(B)) go(S, nullptr); };
    go(MK->getParent(), MK); return ok; };
  J.attributeArray("fdsites", [&] {
    std::set<const CallBase *> done;
    auto emit = [&](const CallBase *CB, const std::string &callee, const std::string &how, std::vector<std::string> &l) { if (!done.insert(CB).second) return; Array g; for (auto &x : l) g.push_back(x); J.value(Object{{"f", id[CB->getFunction()]}, {"l", lineOf(CB)}, {"c", callee}, {"how", how}, {"lacking", std::move(g)}}); };
    for (auto *F : P.order) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!C) continue; std::string n = C->getName().str();
      if (n == "send" || n == "sendto" || n == "sendmsg") { std::set<const llvm::Value *> seen; std::vector<std::string> l; bool ok = mustBit(CB->getArgOperand(n == "sendmsg" ? 2 : 3), 0x4000, seen, l); emit(CB, n, ok ? "flag" : "none", l); continue; }
      for (auto &k : creators) if (n == k.n) { std::set<const llvm::Value *> seen; std::vector<std::string> l; bool ret = false; if (k.arg >= 0 && mustBit(CB->getArgOperand(k.arg), k.bit, seen, l)) { emit(CB, n, "flag", l); break; }
        if (CB->getType()->isIntegerTy() && covered(CB, ret)) emit(CB, n, "set", l); else { if (ret) wrappers.insert(F); emit(CB, n, ret ? "returned" : "none", l); } break; } }
    for (bool ch = true; ch;) { ch = false; auto ws = wrappers; for (auto *W : ws) for (auto *CB : callersOf[W]) { if (done.count(CB)) continue; bool ret = false; std::vector<std::string> l; if (covered(CB, ret)) emit(CB, P.fname(W), "set", l); else { if (ret && wrappers.insert(CB->getFunction()).second) ch = true; emit(CB, P.fname(W), ret ? "returned" : "none", l); } } }
  });
  // ---- close-on-exec switched off: on which descriptor of a pair, under which tests of the caller's flags ----
  J.attributeArray("inherits", [&] {
    for (auto *F : P.order) { std::unique_ptr<DominatorTree> DT; for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; const llvm::Value *fd, *sw; if (!sets(CB, fd, sw)) continue; auto *z = dyn_cast_or_null<ConstantInt>(sw); if (!z || !z->isZero()) continue; auto *CF = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (CF && CF->isDeclaration()) continue;
      int64_t idx = -1; if (auto *L = dyn_cast<LoadInst>(fd)) { APInt off(64, 0); auto *b = L->getPointerOperand()->stripAndAccumulateConstantOffsets(*P.DL, off, true); if (isa<AllocaInst>(b)) idx = off.getSExtValue() / 4; }
      if (!DT) DT.reset(new DominatorTree(*const_cast<Function *>(F)));
      Array ms; for (auto &B : *F) if (auto *br = dyn_cast<BranchInst>(B.getTerminator())) if (br->isConditional()) if (auto *x = dyn_cast<ICmpInst>(br->getCondition())) if (auto *k = dyn_cast<ConstantInt>(x->getOperand(1))) if (k->isZero() && x->isEquality()) if (auto *a = dyn_cast<BinaryOperator>(x->getOperand(0))) if (a->getOpcode() == Instruction::And) if (auto *m = dyn_cast<ConstantInt>(a->getOperand(1))) { auto *on = br->getSuccessor(x->getPredicate() == CmpInst::ICMP_NE ? 0 : 1); if (br->getSuccessor(0) != br->getSuccessor(1) && DT->dominates(BasicBlockEdge(&B, on), CB->getParent())) ms.push_back(m->getSExtValue()); }
      J.value(Object{{"f", id[F]}, {"l", lineOf(CB)}, {"idx", idx}, {"when", std::move(ms)}}); } } });
  // ---- writes that may raise SIGPIPE: is the signal blocked around them? ----
  J.attributeArray("pipewrites", [&] {
    for (auto *F : P.order) { std::vector<const CallBase *> wr, bl, un;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!C) continue; auto n = C->getName(); if (n == "write" || n == "writev" || n == "splice" || n == "sendfile") wr.push_back(CB); 
        // blocking and restoring: directly or through functions that do
        if (n == "pthread_sigmask" || n == "sigprocmask") { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0)); if (c && c->isZero()) bl.push_back(CB); else un.push_back(CB); }
        else if (!C->isDeclaration()) { bool b = false, u = false; for (auto &J2 : instructions(C)) if (auto *D = dyn_cast<CallBase>(&J2)) if (auto *E2 = dyn_cast<Function>(D->getCalledOperand()->stripPointerCasts())) if (E2->getName() == "pthread_sigmask" || E2->getName() == "sigprocmask") { auto *c = dyn_cast<ConstantInt>(D->getArgOperand(0)); if (c && c->isZero()) b = true; else u = true; } if (b && !u) bl.push_back(CB); if (u && !b) un.push_back(CB); } }
      if (wr.empty()) continue; DominatorTree DT(*const_cast<Function *>(F)); PostDominatorTree PT(*const_cast<Function *>(F));
      for (auto *W : wr) { bool b = false, u = false; for (auto *x : bl) if (DT.dominates(x, W)) { bool undone = false; for (auto *y : un) if (DT.dominates(x, y) && DT.dominates(y, W)) undone = true; if (!undone) b = true; } for (auto *y : un) if (PT.dominates(y, W)) u = true;
        J.value(Object{{"f", id[F]}, {"l", lineOf(W)}, {"blocked", b}, {"restored", u}}); } } });
  // ---- how the signal is blocked and restored ----
  J.attributeArray("sigseq", [&] {
    for (auto *F : P.order) { std::vector<const CallBase *> un, bl, pend, wait, add;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!C) continue; auto n = C->getName();
        if (n == "pthread_sigmask" || n == "sigprocmask") { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(0)); (c && c->isZero() ? bl : un).push_back(CB); } else if (n == "sigpending") pend.push_back(CB); else if (n == "sigtimedwait" || n == "sigwait" || n == "sigsuspend" || n == "sigwaitinfo") wait.push_back(CB); else if (n == "sigaddset") { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(1)); if (c && c->getZExtValue() == 13) add.push_back(CB); } }
      if (un.empty() && bl.empty()) continue; DominatorTree DT(*const_cast<Function *>(F)); auto dom = [&](std::vector<const CallBase *> &v, const CallBase *x) { for (auto *y : v) if (DT.dominates(y, x)) return true; return false; };
      for (auto *x : bl) J.value(Object{{"f", id[F]}, {"l", lineOf(x)}, {"k", "block"}, {"pending", dom(pend, x)}, {"named", dom(add, x)}, {"late", false}});
      for (auto *x : un) { bool late = false; for (auto *w : wait) if (isPotentiallyReachable(x, w)) late = true; J.value(Object{{"f", id[F]}, {"l", lineOf(x)}, {"k", "restore"}, {"pending", dom(pend, x)}, {"named", !wait.empty()}, {"late", late}}); } } });
  // ---- containers: the functions put into the callback table they are made with ----
  J.attributeArray("contcb", [&] {
    for (auto *F : P.order) for (auto &I : instructions(F)) { auto *CB = dyn_cast<CallBase>(&I); if (!CB) continue; auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); if (!C || C->isDeclaration()) continue; std::string n = P.fname(C); if (n.find("create") == std::string::npos && n.find("_add") == std::string::npos && n.find("insert") == std::string::npos) continue;
      std::set<std::string> fns; std::function<void(const Constant *, int)> consts = [&](const Constant *c, int d) { if (!c || d > 3) return; if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) { fns.insert(P.fname(f)); return; } if (isa<ConstantAggregate>(c)) for (auto &o : c->operands()) consts(cast<Constant>(o), d + 1); };
      for (auto &a : CB->args()) { if (!a->getType()->isPointerTy()) continue; auto *v = a->stripPointerCasts();
        if (auto *f = dyn_cast<Function>(v)) fns.insert(P.fname(f));
        else if (auto *g = dyn_cast<GlobalVariable>(v)) { if (g->isConstant() && g->hasInitializer()) consts(g->getInitializer(), 0); }
        else if (isa<AllocaInst>(v)) { std::vector<const llvm::Value *> w{v}; std::set<const llvm::Value *> seen; while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (!seen.insert(x).second) continue; for (auto *U : x->users()) { if (isa<GEPOperator>(U) || isa<CastInst>(U)) w.push_back(U);
              else if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == x) { std::vector<const llvm::Value *> q{S->getValueOperand()}; std::set<const llvm::Value *> sq; while (!q.empty()) { auto *y = q.back(); q.pop_back(); if (!sq.insert(y).second) continue; if (auto *k = dyn_cast<Constant>(y)) consts(k, 0); else if (auto *sl = dyn_cast<SelectInst>(y)) { q.push_back(sl->getTrueValue()); q.push_back(sl->getFalseValue()); } else if (auto *ph = dyn_cast<PHINode>(y)) for (auto &o : ph->incoming_values()) q.push_back(o.get()); } } }
              else if (auto *M = dyn_cast<MemCpyInst>(U)) { if (M->getDest()->stripPointerCasts() == x) if (auto *g = dyn_cast<GlobalVariable>(M->getSource()->stripPointerCasts())) if (g->isConstant() && g->hasInitializer()) consts(g->getInitializer(), 0); } } } } }
      if (fns.empty()) continue; Array a; for (auto &x : fns) a.push_back(x); J.value(Object{{"f", id[F]}, {"l", lineOf(CB)}, {"c", n}, {"fns", std::move(a)}}); } });
}
