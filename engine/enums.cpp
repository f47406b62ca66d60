// Sparse conditional constant propagation with chosen seeds: which constants a function returns for an enumerated argument,
// and which value it returns when exactly one of its string comparisons succeeds.
#include "interp.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Support/JSON.h"
#include "llvm/BinaryFormat/Dwarf.h"
using llvm::json::Array; using llvm::json::Object;
namespace {
struct SCCP {
  Prog &P; const DataLayout &DL; int depth;
  std::map<const llvm::Value *, Constant *> seed;
  typedef std::set<Constant *> Ret; bool retTop = false; std::set<const BasicBlock *> lastEx;
  struct L { int st = 0; Constant *c = nullptr; }; // 0 undefined, 1 constant, 2 overdefined
  SCCP(Prog &p, int d) : P(p), DL(*p.DL), depth(d) {}
  Ret run(const Function *F) {
    std::map<const llvm::Value *, L> v; std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges; std::set<const BasicBlock *> ex; Ret rets; retTop = false;
    auto get = [&](const llvm::Value *x) -> L { auto s = seed.find(x); if (s != seed.end()) return {1, s->second}; if (auto *c = dyn_cast<Constant>(x)) return isa<UndefValue>(c) ? L{0, nullptr} : L{1, const_cast<Constant *>(c)}; if (isa<Instruction>(x)) return v[x]; return {2, nullptr}; };
    std::vector<const BasicBlock *> w{&F->getEntryBlock()}; ex.insert(w[0]); int rounds = 0;
    // simple round-robin to a fixpoint; the functions concerned are small
    bool ch = true; while (ch && rounds++ < 200) { ch = false; for (auto &B : *F) { if (!ex.count(&B)) continue; for (auto &I : B) {
        auto mark = [&](const BasicBlock *S) { if (edges.insert({&B, S}).second) { ch = true; ex.insert(S); } };
        if (auto *br = dyn_cast<BranchInst>(&I)) { if (!br->isConditional()) mark(br->getSuccessor(0)); else { L c = get(br->getCondition()); if (c.st == 2) { mark(br->getSuccessor(0)); mark(br->getSuccessor(1)); } else if (c.st == 1) { if (auto *k = dyn_cast<ConstantInt>(c.c)) mark(br->getSuccessor(k->isZero() ? 1 : 0)); else { mark(br->getSuccessor(0)); mark(br->getSuccessor(1)); } } } continue; }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) { L c = get(sw->getCondition()); auto *k = c.st == 1 ? dyn_cast<ConstantInt>(c.c) : nullptr; if (k) mark(sw->findCaseValue(k)->getCaseSuccessor()); else if (c.st) { for (auto *S : successors(&B)) mark(S); } continue; }
        if (auto *r = dyn_cast<ReturnInst>(&I)) { continue; }
        if (I.getType()->isVoidTy() || seed.count(&I)) continue;
        L n{2, nullptr};
        if (auto *ph = dyn_cast<PHINode>(&I)) { n = {0, nullptr}; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { if (!edges.count({ph->getIncomingBlock(i), &B})) continue; L a = get(ph->getIncomingValue(i)); if (!a.st) continue; if (a.st == 2 || (n.st == 1 && n.c != a.c)) { n = {2, nullptr}; break; } n = a; } }
        else if (auto *se = dyn_cast<SelectInst>(&I)) { L c = get(se->getCondition()); if (c.st == 0) n = {0, nullptr}; else if (auto *k = c.st == 1 ? dyn_cast<ConstantInt>(c.c) : nullptr) n = get(k->isZero() ? se->getFalseValue() : se->getTrueValue()); else { L a = get(se->getTrueValue()), b = get(se->getFalseValue()); n = a.st == 1 && b.st == 1 && a.c == b.c ? a : L{2, nullptr}; } }
        else if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = CB->getCalledFunction(); if (C && !C->isDeclaration() && depth > 0 && C->size() < 200) { SCCP s(P, depth - 1); bool any = false; for (unsigned i = 0; i < C->arg_size(); i++) { L a = get(CB->getArgOperand(i)); if (a.st == 1) { s.seed[C->getArg(i)] = a.c; any = true; } } if (any || C->arg_empty()) { auto rs = s.run(C); if (!s.retTop && rs.size() == 1) n = {1, *rs.begin()}; } } }
        else if (auto *ld = dyn_cast<LoadInst>(&I)) { L a = get(ld->getPointerOperand()); if (a.st == 0) n = {0, nullptr}; else if (a.st == 1) if (auto *k = ConstantFoldLoadFromConstPtr(a.c, ld->getType(), DL)) n = {1, k}; }
        else { SmallVector<Constant *, 4> ops; bool undef = false, top = false; for (auto &o : I.operands()) { L a = get(o.get()); if (a.st == 0) undef = true; else if (a.st == 2) top = true; else ops.push_back(a.c); } if (undef) n = {0, nullptr}; else if (!top && !I.mayHaveSideEffects()) { Constant *k = nullptr; if (auto *ic = dyn_cast<CmpInst>(&I)) k = ConstantFoldCompareInstOperands(ic->getPredicate(), ops[0], ops[1], DL); else k = ConstantFoldInstOperands(const_cast<Instruction *>(&I), ops, DL); if (k) n = {1, k}; } }
        L &o = v[&I]; if (o.st == 2) continue; if (n.st > o.st || (n.st == 1 && o.st == 1 && n.c != o.c)) { o = n.st == 1 && o.st == 1 ? L{2, nullptr} : n; ch = true; } } } }
    lastEx = ex;
    for (auto &B : *F) if (ex.count(&B)) if (auto *r = dyn_cast<ReturnInst>(B.getTerminator())) if (r->getReturnValue()) { std::function<void(const llvm::Value *, int)> add = [&](const llvm::Value *x, int d) { L a = get(x); if (a.st == 1) rets.insert(a.c); else if (auto *ph = dyn_cast<PHINode>(x)) { if (d > 6) { retTop = true; return; } for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) if (edges.count({ph->getIncomingBlock(i), ph->getParent()})) add(ph->getIncomingValue(i), d + 1); } else if (auto *se = dyn_cast<SelectInst>(x)) { L c = get(se->getCondition()); if (auto *k = c.st == 1 ? dyn_cast<ConstantInt>(c.c) : nullptr) add(k->isZero() ? se->getFalseValue() : se->getTrueValue(), d + 1); else { add(se->getTrueValue(), d + 1); add(se->getFalseValue(), d + 1); } } else retTop = true; }; add(r->getReturnValue(), 0); }
    return rets;
  }
};
bool gstr(Constant *c, std::string &s) { auto *g = dyn_cast<GlobalVariable>(c->stripPointerCasts()); if (!g || !g->isConstant() || !g->hasInitializer()) return false; if (isa<ConstantAggregateZero>(g->getInitializer())) { s = ""; return true; } auto *d = dyn_cast<ConstantDataArray>(g->getInitializer()); if (!d || !d->isCString()) return false; s = d->getAsCString().str(); return true; }
json::Value cj(Constant *c) { std::string s; if (auto *i = dyn_cast<ConstantInt>(c)) return i->getSExtValue(); if (isa<ConstantPointerNull>(c)) return nullptr; if (c->getType()->isPointerTy() && gstr(c, s)) return "s:" + s; return "?"; }
std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
}
void writeEnums(Engine &E, json::OStream &J, std::map<const Function *, int> &id) {
  Prog &P = E.P;
  J.attributeArray("enumstr", [&] { for (auto *F : P.order) { if (!F->getReturnType()->isPointerTy() || F->arg_size() != 1 || !F->getArg(0)->getType()->isIntegerTy()) continue;
      std::set<int64_t> vals; for (auto &I : instructions(F)) { if (auto *sw = dyn_cast<SwitchInst>(&I)) for (auto &c : sw->cases()) vals.insert(c.getCaseValue()->getSExtValue()); if (auto *ic = dyn_cast<ICmpInst>(&I)) if (auto *k = dyn_cast<ConstantInt>(ic->getOperand(1))) vals.insert(k->getSExtValue()); }
      // enumerators of the parameter's type
      Array en; if (auto *sp = F->getSubprogram()) if (auto *ty = sp->getType()) { auto ta = ty->getTypeArray(); if (ta.size() > 1) { auto *t = ta[1]; while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) t = d->getBaseType(); if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : ct->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) { int64_t k = x->getValue().getSExtValue(); vals.insert(k); en.push_back(Array{x->getName().str(), k}); } } }
      if (vals.size() < 2) { for (int k = 0; k < 64; k++) vals.insert(k); }
      int64_t unk = 0x3ffffff1; Array pairs; bool ok = true; int strs = 0; auto ev = [&](int64_t k) { SCCP s(P, 3); s.seed[F->getArg(0)] = ConstantInt::get(F->getArg(0)->getType(), k, true); auto rs = s.run(F); Array a; for (auto *r : rs) { auto j = cj(r); if (auto st = j.getAsString()) if (st->starts_with("s:")) strs++; a.push_back(std::move(j)); } if (s.retTop) a.push_back("?"); return a; };
      Array dflt = ev(unk); int before = strs; strs = 0; for (auto k : vals) pairs.push_back(Array{k, ev(k)}); if (strs < 2) continue; (void)ok; (void)before;
      J.value(Object{{"f", id[F]}, {"pairs", std::move(pairs)}, {"default", std::move(dflt)}, {"enum", std::move(en)}}); } });
  auto fi = [&](const Function *F) { return P.fn[F].isPublic; };
  J.attributeArray("enumint", [&] { for (auto *F : P.order) { if (!F->getReturnType()->isIntegerTy() || F->arg_size() < 1 || F->arg_size() > 2 || F->size() > 400) continue;
      for (unsigned ai = 0; ai < F->arg_size(); ai++) { auto *A = F->getArg(ai); if (!A->getType()->isIntegerTy() || A->getType()->getIntegerBitWidth() < 8) continue;
      std::set<int64_t> vals; int n = 0; for (auto &I : instructions(F)) { auto root = [&](const llvm::Value *v) { for (int d = 0; d < 4; d++) if (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v == A; }; if (auto *sw = dyn_cast<SwitchInst>(&I)) { if (root(sw->getCondition())) for (auto &c : sw->cases()) { vals.insert(c.getCaseValue()->getSExtValue()); n++; } } if (auto *ic = dyn_cast<ICmpInst>(&I)) if (auto *k = dyn_cast<ConstantInt>(ic->getOperand(1))) if (root(ic->getOperand(0))) { vals.insert(k->getSExtValue()); n++; } }
      Array en; if (auto *sp = F->getSubprogram()) if (auto *ty = sp->getType()) { auto ta = ty->getTypeArray(); if (ta.size() > ai + 1) { auto *t = ta[ai + 1]; while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) t = d->getBaseType(); if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : ct->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) { int64_t k = x->getValue().getSExtValue(); vals.insert(k); en.push_back(Array{x->getName().str(), k}); } } }
      bool byte = A->getType()->getIntegerBitWidth() == 8 && F->size() < 150;
      if (byte) for (int k = -128; k < 128; k++) vals.insert(k);
      else if (fi(F) && F->arg_size() == 1 && en.empty() && F->size() < 60 && A->getType()->getIntegerBitWidth() >= 16) { unsigned w = A->getType()->getIntegerBitWidth(); if (w > 64) continue; for (unsigned k = 0; k < w; k++) for (int64_t d : {-1, 0, 1}) { uint64_t x = (1ull << k) + (uint64_t)d; if (w < 64) x &= (1ull << w) - 1; vals.insert(SignExtend64(x, w)); } for (int64_t k : {0ll, 10ll, 12345ll, 0x5a5a5ll, 0x12345678ll, -1ll, -12345ll}) vals.insert(SignExtend64((uint64_t)k, w)); std::set<int64_t> q = vals; if (q.size() < 400) for (auto k : q) { if (k > INT32_MIN) vals.insert(k - 1); if (k < INT32_MAX) vals.insert(k + 1); } std::set<int64_t> q2; for (auto k : vals) q2.insert(SignExtend64((uint64_t)k, w)); vals = q2; }
      else { if (vals.size() < 3 || (n < 3 && en.empty())) continue; if (en.empty() && vals.size() < 200) { std::set<int64_t> w = vals; for (auto k : w) { if (k > INT32_MIN) vals.insert(k - 1); if (k < INT32_MAX) vals.insert(k + 1); } } }
      auto ev = [&](int64_t k) { SCCP s(P, 4); s.seed[A] = ConstantInt::get(A->getType(), k, true); auto rs = s.run(F); Array a; for (auto *r : rs) a.push_back(cj(r)); if (s.retTop) a.push_back("?"); return a; };
      Array dflt = ev(0x3ffffff1 & ((1ll << std::min(31u, A->getType()->getIntegerBitWidth() - 1)) - 1)), pairs; for (auto k : vals) pairs.push_back(Array{k, ev(k)});
      J.value(Object{{"f", id[F]}, {"arg", (int64_t)ai}, {"byte", byte}, {"ret", (int64_t)F->getReturnType()->getIntegerBitWidth()}, {"pairs", std::move(pairs)}, {"default", std::move(dflt)}, {"enum", std::move(en)}}); } } });
  // which library functions run for each enumerator of an enumerated parameter
  J.attributeArray("enumcalls", [&] { for (auto *F : P.order) { if (F->size() > 600 || F->size() < 3) continue;
      for (unsigned ai = 0; ai < F->arg_size(); ai++) { auto *A = F->getArg(ai); if (!A->getType()->isIntegerTy()) continue; std::vector<std::pair<std::string, int64_t>> ev; std::string tn;
      if (auto *sp = F->getSubprogram()) if (auto *ty = sp->getType()) { auto ta = ty->getTypeArray(); if (ta.size() > ai + 1) { auto *t = ta[ai + 1]; while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (tn.empty()) tn = d->getName().str(); t = d->getBaseType(); } if (auto *ct = dyn_cast_or_null<DICompositeType>(t)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) for (auto *e : ct->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) ev.push_back({x->getName().str(), x->getValue().getSExtValue()}); } }
      if (ev.size() < 2 || ev.size() > 120) continue; std::vector<std::set<int>> rows; bool differ = false;
      for (auto &[n, k] : ev) { SCCP s(P, 1); s.seed[A] = ConstantInt::get(A->getType(), k, true); s.run(F); std::set<int> cs; for (auto *B : s.lastEx) for (auto &I : *B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) if (!C->isDeclaration()) cs.insert(id[C]); if (!rows.empty() && cs != rows[0]) differ = true; rows.push_back(cs); }
      if (!differ) continue; Array r; for (size_t i = 0; i < ev.size(); i++) { Array c; for (int x : rows[i]) c.push_back(x); r.push_back(Array{ev[i].first, ev[i].second, std::move(c)}); }
      J.value(Object{{"f", id[F]}, {"arg", (int64_t)ai}, {"type", tn}, {"rows", std::move(r)}}); } } });
  J.attributeArray("strenum", [&] { for (auto *F : P.order) { if (!F->getReturnType()->isIntegerTy() || F->arg_empty()) continue;
      static const std::map<std::string, int> cmp = {{"M_str_eq", 1}, {"M_str_caseeq", 1}, {"M_str_eq_max", 1}, {"M_str_caseeq_max", 1}, {"strcmp", 0}, {"M_str_cmpsort", 0}, {"M_str_casecmpsort", 0}};
      std::map<std::string, std::vector<const CallBase *>> lits; std::vector<std::pair<const CallBase *, std::string>> calls;
      for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = CB->getCalledFunction()) { auto it = cmp.find(P.fname(C)); if (it == cmp.end() || CB->arg_size() < 2) continue; std::string s; for (int i = 0; i < 2; i++) if (auto *c = dyn_cast<Constant>(CB->getArgOperand(i))) if (gstr(c, s) && isa<Argument>(CB->getArgOperand(1 - i))) { calls.push_back({CB, s}); lits[low(s)].push_back(CB); } }
      if (lits.size() < 2) continue; Array pairs;
      for (auto &[s, cs] : lits) { SCCP sc(P, 0); for (auto &[CB, t] : calls) { bool eq = low(t) == s; bool pos = cmp.at(P.fname(CB->getCalledFunction())); sc.seed[CB] = ConstantInt::get(CB->getType(), pos ? eq : !eq); } auto rs = sc.run(F); Array a; for (auto *r : rs) a.push_back(cj(r)); if (sc.retTop) a.push_back("?"); pairs.push_back(Array{calls.empty() ? s : s, std::move(a)}); }
      SCCP sd(P, 0); for (auto &[CB, t] : calls) sd.seed[CB] = ConstantInt::get(CB->getType(), !cmp.at(P.fname(CB->getCalledFunction()))); auto rs = sd.run(F); Array dflt; for (auto *r : rs) dflt.push_back(cj(r));
      J.value(Object{{"f", id[F]}, {"pairs", std::move(pairs)}, {"default", std::move(dflt)}}); } });
}
