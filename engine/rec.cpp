// C20: calls on cycles of the call graph, with what they do to the integer arguments of the caller and the bounds they lie under;
// counters that end a loop when they pass a constant; stack memory allocated by a computed amount.
#include "interp.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Support/JSON.h"
using llvm::json::Array; using llvm::json::Object;
namespace {
const Value *stripI(const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) { if (!c->getType()->isIntegerTy() || !c->getOperand(0)->getType()->isIntegerTy()) break; v = c->getOperand(0); } return v; }
// v = base + k for a constant k
const Value *plus(const Value *v, int64_t &k, int d = 0) { v = stripI(v); k = 0; if (d > 6) return v;
  if (auto *b = dyn_cast<BinaryOperator>(v)) { auto *c = dyn_cast<ConstantInt>(b->getOperand(1)); if (c && b->getOpcode() == Instruction::Add) { int64_t q; auto *r = plus(b->getOperand(0), q, d + 1); k = q + c->getSExtValue(); return r; } if (c && b->getOpcode() == Instruction::Sub) { int64_t q; auto *r = plus(b->getOperand(0), q, d + 1); k = q - c->getSExtValue(); return r; } }
  return v; }
// the argument that is not zero when c is `taken`
const Argument *flag(const Value *c, bool taken, int d = 0) { if (d > 6) return nullptr; c = stripI(c); if (auto *a = dyn_cast<Argument>(c)) return taken ? a : nullptr;
  if (auto *b = dyn_cast<BinaryOperator>(c)) if (b->getOpcode() == Instruction::Xor && isa<ConstantInt>(b->getOperand(1))) return flag(b->getOperand(0), !taken, d + 1);
  auto *ic = dyn_cast<ICmpInst>(c); if (!ic || !ic->isEquality()) return nullptr; auto *k = dyn_cast<ConstantInt>(ic->getOperand(1)); if (!k) return nullptr; if (k->isZero()) return flag(ic->getOperand(0), (ic->getPredicate() == ICmpInst::ICMP_NE) == taken, d + 1);
  if ((ic->getPredicate() == ICmpInst::ICMP_EQ) == taken) return dyn_cast<Argument>(stripI(ic->getOperand(0))); return nullptr; }
struct Cond { const Value *v; int64_t k, bound; };   // v + k <= bound
bool upper(const Value *c, bool taken, std::vector<Cond> &out, int d = 0) {
  if (d > 6) return false; 
  if (auto *b = dyn_cast<BinaryOperator>(c)) { if (b->getOpcode() == Instruction::Xor && isa<ConstantInt>(b->getOperand(1))) return upper(b->getOperand(0), !taken, out, d + 1); }
  auto *ic = dyn_cast<ICmpInst>(c); if (!ic) return false; const Value *a = ic->getOperand(0), *b = ic->getOperand(1); auto p = ic->getPredicate();
  if (isa<ConstantInt>(a)) { std::swap(a, b); p = ICmpInst::getSwappedPredicate(p); }
  auto *k = dyn_cast<ConstantInt>(b); if (!k || !a->getType()->isIntegerTy()) return false; int64_t n = k->getSExtValue();
  if (auto *z = dyn_cast<ZExtInst>(a); z && (p == ICmpInst::ICMP_NE || p == ICmpInst::ICMP_EQ) && n == 0) return upper(z->getOperand(0), (p == ICmpInst::ICMP_NE) == taken, out, d + 1);
  if (!taken) p = ICmpInst::getInversePredicate(p);
  int64_t bnd; switch (p) { case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: bnd = n - 1; break; case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: bnd = n; break; default: return false; }
  int64_t q; auto *r = plus(a, q); out.push_back({r, q, bnd}); return true; }
}
void writeRec(Engine &E, json::OStream &J, std::map<const Function *, int> &id) {
  auto &P = E.P; std::map<const Function *, std::set<const Function *>> g;
  // through a pointer: only when all the functions it can mean are private to one file (tables of a reader), not callbacks of users
  auto fileOf = [](const Function *f) { auto *sp = f->getSubprogram(); return sp ? sp->getFilename() : StringRef(); };
  auto tg = [&](const CallBase *c) { std::vector<const Function *> r; if (auto *t = c->getCalledFunction()) { if (!t->isDeclaration()) r.push_back(t); return r; }
    auto fl = fileOf(c->getFunction()); if (fl.empty()) return r; for (auto *t : P.targets(c)) { if (t->isDeclaration() || !t->hasLocalLinkage() || fileOf(t) != fl) return std::vector<const Function *>(); r.push_back(t); } return r; };
  for (auto *F : P.order) for (auto &I : instructions(const_cast<Function *>(F))) if (auto *c = dyn_cast<CallBase>(&I)) for (auto *t : tg(c)) g[F].insert(t);
  std::map<const Function *, std::set<const Function *>> rc;
  auto reach = [&](const Function *f) -> std::set<const Function *> & { auto it = rc.find(f); if (it != rc.end()) return it->second; auto &s = rc[f]; std::vector<const Function *> st(1, f); while (!st.empty()) { auto *x = st.back(); st.pop_back(); for (auto *y : g[x]) if (s.insert(y).second) st.push_back(y); } return s; };
  std::vector<const Function *> cyc; for (auto *F : P.order) if (reach(F).count(F)) cyc.push_back(F);
  J.attributeArray("reccalls", [&] {
    for (auto *F : cyc) { auto &f = const_cast<Function &>(*F); DominatorTree DT(f);
      int64_t frame = 0; for (auto &I : instructions(f)) if (auto *A = dyn_cast<AllocaInst>(&I)) frame += P.DL->getTypeAllocSize(A->getAllocatedType());
      for (auto &I : instructions(f)) { auto *c = dyn_cast<CallBase>(&I); if (!c) continue; for (auto *t : tg(c)) { if (!reach(t).count(F)) continue;
        Array args; for (unsigned i = 0; i < c->arg_size(); i++) { auto *v = c->getArgOperand(i); if (!v->getType()->isIntegerTy()) continue; int64_t k; auto *b = plus(v, k); if (auto *a = dyn_cast<Argument>(b)) args.push_back(Array{(int64_t)i, (int64_t)a->getArgNo(), k}); else if (auto *z = dyn_cast<ConstantInt>(b); z && !k) args.push_back(Array{(int64_t)i, -1, z->getSExtValue()}); }
        Array gd; for (auto *n = DT.getNode(I.getParent()); n; n = n->getIDom()) { auto *id2 = n->getIDom(); if (!id2) break; auto *D = id2->getBlock(); auto *br = dyn_cast<BranchInst>(D->getTerminator()); if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) continue;
          for (int e = 0; e < 2; e++) { BasicBlockEdge ed(D, br->getSuccessor(e)); if (!DT.dominates(ed, I.getParent())) continue; std::vector<Cond> cs; upper(br->getCondition(), e == 0, cs); if (auto *a = flag(br->getCondition(), e == 0)) gd.push_back(Array{"z", (int64_t)a->getArgNo(), 0});
            for (auto &q : cs) if (auto *a = dyn_cast<Argument>(q.v)) gd.push_back(Array{"a", (int64_t)a->getArgNo(), q.bound - q.k});
              else if (auto *L = dyn_cast<LoadInst>(q.v)) { int k = P.addrKey(L->getPointerOperand()); auto fi = P.keyField[k > 0 ? k : 0]; if (fi.first) gd.push_back(Array{"m", P.fieldName(fi.first, fi.second), q.bound - q.k}); } } }
        // members counted up on every way to the call
        Array inc; for (auto &Q : instructions(f)) if (auto *st = dyn_cast<StoreInst>(&Q)) { if (!st->getValueOperand()->getType()->isIntegerTy() || !DT.dominates(st, &I)) continue; int64_t k; auto *b = plus(st->getValueOperand(), k); auto *L = dyn_cast<LoadInst>(b); if (!L || !k) continue; int kk = P.addrKey(st->getPointerOperand()); if (kk <= 0 || P.addrKey(L->getPointerOperand()) != kk) continue; auto fi = P.keyField[kk]; if (fi.first) inc.push_back(Array{P.fieldName(fi.first, fi.second), k}); }
        J.value(Object{{"f", id[F]}, {"l", lineOf(&I)}, {"t", id[t]}, {"args", std::move(args)}, {"gd", std::move(gd)}, {"inc", std::move(inc)}, {"frame", frame}}); } } } });
  J.attributeArray("dynalloc", [&] { for (auto *F : P.order) for (auto &I : instructions(const_cast<Function *>(F))) if (auto *A = dyn_cast<AllocaInst>(&I)) if (!A->isStaticAlloca() && !isa<ConstantInt>(A->getArraySize())) J.value(Array{id[F], lineOf(&I)}); });
  // a counter going up by one somewhere in the loop, compared with a constant so that passing it leaves the loop
  J.attributeArray("counters", [&] { for (auto *F : P.order) { auto &f = const_cast<Function &>(*F); DominatorTree DT(f); LoopInfo LI(DT); std::set<std::pair<int, int64_t>> seen;
    for (auto &B : f) { auto *L = LI.getLoopFor(&B); if (!L) continue; auto *br = dyn_cast<BranchInst>(B.getTerminator()); if (!br || !br->isConditional()) continue; while (L->getParentLoop()) L = L->getParentLoop();
      for (int e = 0; e < 2; e++) { std::vector<Cond> cs; if (!upper(br->getCondition(), e == 0, cs)) continue; auto *o = br->getSuccessor(1 - e); 
        // the other side never comes back to the loop
        std::set<BasicBlock *> sn; std::vector<BasicBlock *> st(1, o); bool back = false; while (!st.empty()) { auto *x = st.back(); st.pop_back(); if (!sn.insert(x).second) continue; if (L->contains(x) && x == L->getHeader()) { back = true; break; } for (auto *y : successors(x)) st.push_back(y); } if (back) continue;
        for (auto &q : cs) { std::set<const Value *> web; std::vector<const Value *> ws(1, q.v); bool up = false, wild = false; while (!ws.empty()) { auto *x = ws.back(); ws.pop_back(); int64_t k; auto *b = plus(x, k); if (k > 0) up = true; if (k > 1) wild = true; if (!web.insert(b).second) continue; if (auto *ph = dyn_cast<PHINode>(b)) { for (auto &v : ph->incoming_values()) ws.push_back(v); } else if (auto *se = dyn_cast<SelectInst>(b)) { ws.push_back(se->getTrueValue()); ws.push_back(se->getFalseValue()); } else if (!isa<Constant>(b)) wild = true; }
          if (up && !wild && seen.insert({lineOf(br), q.bound - q.k}).second) J.value(Array{id[F], lineOf(br), q.bound - q.k}); } } } } });
}
