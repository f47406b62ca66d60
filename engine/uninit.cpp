// C08: which bytes of freshly allocated structures and of locals are given a value before they are read or handed out.
// A forward must-analysis over byte sets per function; functions are summarised by the bytes of each pointer argument they
// surely write (in all cases, when they return non-zero, when they return zero) and those they may read before writing.
#include "interp.h"
#include "models.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Support/JSON.h"
using llvm::json::Array; using llvm::json::Object;
namespace {
struct BS { bool all = false; BitVector b;   // a set of byte offsets; all: every byte
  bool has(unsigned i) const { return all || (i < b.size() && b[i]); }
  void add(unsigned i, unsigned n) { if (all || !n) return; if (b.size() < i + n) b.resize(i + n); b.set(i, i + n); }
  void meet(const BS &o) { if (o.all) return; if (all) { *this = o; return; } if (b.size() > o.b.size()) b.resize(o.b.size()); for (unsigned i = 0; i < b.size(); i++) if (b[i] && !o.b[i]) b.reset(i); }
  void join(const BS &o) { if (all) return; if (o.all) { all = true; b.clear(); return; } if (b.size() < o.b.size()) b.resize(o.b.size()); for (unsigned i = 0; i < o.b.size(); i++) if (o.b[i]) b.set(i); }
  bool operator==(const BS &o) const { if (all != o.all) return false; if (all) return true; unsigned n = std::max(b.size(), o.b.size()); for (unsigned i = 0; i < n; i++) if (has(i) != o.has(i)) return false; return true; }
};
const unsigned CAP = 4096;
struct ArgSum { BS must, t, f, expo; bool writes = false; bool operator==(const ArgSum &o) const { return must == o.must && t == o.t && f == o.f && expo == o.expo && writes == o.writes; } };
using FSum = std::vector<ArgSum>;
struct Root { const Value *v; int64_t size; bool blob, heap; const Type *ty; };
struct Hit { const Instruction *I; std::string kind; const Value *root; unsigned off; };
struct Un {
  Engine &E; Prog &P; std::map<const Function *, FSum> sums;
  Un(Engine &e) : E(e), P(e.P) {}
  // ---- one function ----
  struct Fn {
    Un &U; const Function *F; std::map<const Value *, int> ix; std::vector<Root> roots; using St = std::vector<BS>;
    std::map<const BasicBlock *, St> in; std::vector<Hit> hits; bool report = false; FSum sum; std::vector<BS> expo; std::vector<char> wr;
    Fn(Un &u, const Function *f) : U(u), F(f) {}
    const DataLayout &DL() { return *U.P.DL; }
    struct Loc { int r = -1; int64_t off = 0; bool var = false; int64_t end = -1; };
    Loc loc(const Value *p, int depth = 0) {
      Loc L; auto it = ix.find(p); if (it != ix.end()) { L.r = it->second; return L; }
      if (depth > 12) return L;
      if (auto *G = dyn_cast<GEPOperator>(p)) { L = loc(G->getPointerOperand(), depth + 1); if (L.r < 0) return L;
        if (L.var) return L;
        APInt o(64, 0); if (G->accumulateConstantOffset(DL(), o)) { L.off += o.getSExtValue(); if (L.off < 0) L.r = -1; return L; }
        // a variable index: the array it indexes, if that is a member
        int64_t off = 0; Type *cur = nullptr; bool first = true;
        for (auto gi = gep_type_begin(G); gi != gep_type_end(G); ++gi) { auto *c = dyn_cast<ConstantInt>(gi.getOperand());
          if (c) { if (auto *st = gi.getStructTypeOrNull()) off += DL().getStructLayout(st)->getElementOffset(c->getZExtValue()); else off += c->getSExtValue() * (int64_t)DL().getTypeAllocSize(gi.getIndexedType()); cur = gi.getIndexedType(); first = false; continue; }
          L.var = true; L.off += off; if (!first && cur) L.end = L.off + (int64_t)DL().getTypeAllocSize(cur); return L; }
        L.var = true; return L; }
      if (auto *c = dyn_cast<CastInst>(p)) return c->getType()->isPointerTy() && c->getOperand(0)->getType()->isPointerTy() ? loc(c->getOperand(0), depth + 1) : L;
      return L; }
    void addRoots() {
      for (auto &a : F->args()) if (a.getType()->isPointerTy()) { ix[&a] = roots.size(); roots.push_back({&a, CAP, false, false, nullptr}); }
      for (auto &I : instructions(*F)) {
        if (auto *A = dyn_cast<AllocaInst>(&I)) { if (!A->isStaticAlloca()) continue; int64_t n = DL().getTypeAllocSize(A->getAllocatedType()); if (n <= 0 || n > 65536) continue; ix[A] = roots.size(); roots.push_back({A, n, false, false, A->getAllocatedType()}); }
        if (auto *CB = dyn_cast<CallBase>(&I)) { auto *C = CB->getCalledFunction(); if (!C || (C->getName() != "M_malloc" && C->getName() != "malloc")) continue; auto *k = dyn_cast<ConstantInt>(CB->getArgOperand(0)); ix[CB] = roots.size(); int64_t n = k ? k->getSExtValue() : 1; if (n <= 0 || n > 65536) { ix.erase(CB); continue; } roots.push_back({CB, n, !k, true, nullptr}); } }
      for (auto &I : instructions(*F)) if (auto *G = dyn_cast<GetElementPtrInst>(&I)) { auto it = ix.find(G->getPointerOperand()); if (it == ix.end()) continue; auto &r = roots[it->second]; if (r.heap && !r.blob && !r.ty && isa<StructType>(G->getSourceElementType()) && (int64_t)DL().getTypeAllocSize(G->getSourceElementType()) == r.size) r.ty = G->getSourceElementType(); }
      typeFromDebug(); }
    void typeFromDebug() { for (auto &r : roots) { if (!r.heap || r.blob || r.ty) continue; SmallVector<DbgVariableIntrinsic *, 4> dv; findDbgUsers(dv, const_cast<Value *>(r.v));
        for (auto *d : dv) { const DIType *t = d->getVariable()->getType(); for (int k = 0, ptr = 0; t && k < 12; k++) { auto *e = dyn_cast<DIDerivedType>(t); if (!e) break; if (e->getTag() == dwarf::DW_TAG_pointer_type) { if (ptr++) { t = nullptr; break; } } t = e->getBaseType(); }
          if (auto *c = dyn_cast_or_null<DICompositeType>(t)) if (auto *st = StructType::getTypeByName(F->getContext(), ("struct." + c->getName()).str())) if (!st->isOpaque() && (int64_t)DL().getTypeAllocSize(st) == r.size) r.ty = st; } } }
    void write(St &s, const Loc &L, int64_t n) { if (L.r < 0) return; auto &r = roots[L.r]; wr[L.r] = 1; if (r.blob) { s[L.r].all = true; return; } int64_t e = L.var ? (L.end >= 0 ? L.end : r.size) : n < 0 ? r.size : L.off + n; if (L.var && isa<Argument>(r.v)) e = L.end >= 0 ? L.end : L.off + std::max<int64_t>(n, 1); if (n < 0 && isa<Argument>(r.v)) e = std::min<int64_t>(CAP, L.end >= 0 ? L.end : CAP); e = std::min(e, r.size); if (e > L.off) s[L.r].add(L.off, e - L.off); }
    void read(St &s, const Loc &L, int64_t n, const Instruction *I, const char *kind) { if (L.r < 0 || L.var || roots[L.r].blob && s[L.r].all) return; auto &r = roots[L.r];
      if (r.blob) { if (report) hits.push_back({I, kind, r.v, 0}); s[L.r].all = true; return; }
      for (int64_t i = L.off; i < L.off + n && i < r.size; i++) if (!s[L.r].has(i)) { if (isa<Argument>(r.v)) expo[L.r].add(i, 1); else { if (report) hits.push_back({I, kind, r.v, (unsigned)i}); s[L.r].add(i, L.off + n - i); return; } } }
    // the value only serves to write some bits of the same word
    static bool rmw(const LoadInst *L) { if (L->use_empty()) return true; for (auto *u : L->users()) { const Value *v = u; if (!isa<BinaryOperator>(v)) return false; auto *b = cast<BinaryOperator>(v); if (b->getOpcode() != Instruction::And || !isa<ConstantInt>(b->getOperand(1))) return false; for (auto *w : b->users()) { auto *o = dyn_cast<BinaryOperator>(w); if (auto *st = dyn_cast<StoreInst>(w)) { if (st->getPointerOperand() != L->getPointerOperand()) return false; continue; } if (!o || o->getOpcode() != Instruction::Or) return false; for (auto *z : o->users()) { auto *st = dyn_cast<StoreInst>(z); if (!st || st->getPointerOperand() != L->getPointerOperand()) return false; } } } return true; }
    // a value fetched in one place and only looked at in others (an argument of a helper, put back in its place): it is there that it matters
    bool later(const LoadInst *L) { auto l = loc(L->getPointerOperand()); if (l.r < 0 || l.var || roots[l.r].blob || !isa<AllocaInst>(roots[l.r].v) || L->use_empty()) return false; int64_t n = DL().getTypeStoreSize(L->getType()); bool bad = false;
      for (auto &u : L->uses()) { auto *x = cast<Instruction>(u.getUser()); auto *b = isa<PHINode>(x) ? cast<PHINode>(x)->getIncomingBlock(u) : x->getParent(); if (b == L->getParent()) return false; auto it = in.find(b); if (it == in.end()) continue; for (int64_t i = l.off; i < l.off + n && i < roots[l.r].size; i++) if (!it->second[l.r].has(i)) bad = true; }
      if (bad && report) hits.push_back({L, "read", roots[l.r].v, (unsigned)l.off}); return true; }
    void step(St &s, const Instruction &I) {
      if (auto it = ix.find(&I); it != ix.end() && roots[it->second].heap) { s[it->second] = BS(); return; }
      if (auto *L = dyn_cast<LoadInst>(&I)) { if (later(L)) return; if (!rmw(L)) read(s, loc(L->getPointerOperand()), DL().getTypeStoreSize(L->getType()), &I, "read"); return; }
      if (auto *S = dyn_cast<StoreInst>(&I)) { write(s, loc(S->getPointerOperand()), DL().getTypeStoreSize(S->getValueOperand()->getType()));
        auto V = loc(S->getValueOperand()); if (V.r >= 0 && isa<Argument>(roots[V.r].v)) wr[V.r] = 1; if (V.r >= 0 && isa<AllocaInst>(roots[V.r].v)) { // the address of a local is kept somewhere: whoever has it may write
            s[V.r].all = true; } else if (V.r >= 0 && roots[V.r].heap && loc(S->getPointerOperand()).r >= 0 && isa<AllocaInst>(roots[loc(S->getPointerOperand()).r].v)) s[V.r].all = true; return; }
      auto *CB = dyn_cast<CallBase>(&I); if (!CB || isa<DbgInfoIntrinsic>(CB)) return;
      auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts()); StringRef n = C ? C->getName() : "";
      auto len = [&](unsigned i) -> int64_t { auto *c = dyn_cast<ConstantInt>(CB->getArgOperand(i)); return c ? c->getSExtValue() : -1; };
      if (isa<MemSetInst>(CB) || n == "M_mem_set") { write(s, loc(CB->getArgOperand(0)), len(2)); return; }
      if (isa<MemTransferInst>(CB) || n == "M_mem_copy" || n == "M_mem_move") { auto L = loc(CB->getArgOperand(1)); int64_t k = len(2); if (k > 0 && L.r >= 0 && !isa<Argument>(roots[L.r].v) && !roots[L.r].blob) { // at least something was written
            bool any = s[L.r].all || s[L.r].b.any(); if (!any) read(s, L, 1, &I, "read"); } else if (k > 0 && L.r >= 0 && !roots[L.r].blob) read(s, L, 1, &I, "read");
        write(s, loc(CB->getArgOperand(0)), k); return; }
      if (auto *II = dyn_cast<IntrinsicInst>(CB)) { (void)II; return; }
      auto tg = U.P.targets(CB); bool known = !tg.empty(); for (auto *t : tg) if (t->isDeclaration() || !U.sums.count(t)) known = false;
      for (unsigned i = 0; i < CB->arg_size(); i++) { auto L = loc(CB->getArgOperand(i)); if (L.r < 0) continue; auto &r = roots[L.r];
        if (r.blob) { s[L.r].all = true; continue; }
        bool freed = n == "M_free" || n == "free" || n == "M_buf_cancel";
        for (auto *t : tg) if (auto *sm = U.E.sumOf(t)) if (i < 64 && (sm->mayFree >> i & 1)) freed = true;
        if (freed && r.heap && L.off == 0 && !L.var) { s[L.r].all = true; continue; }
        if (!known || L.var) { wr[L.r] = 1; if (isa<Argument>(r.v)) { if (C && extPure(n.str())) { read(s, L, 1, &I, "arg"); continue; } if (L.var) continue; if (!C || C->isDeclaration()) { s[L.r].add(L.off, r.size - L.off); } continue; } if (C && extPure(n.str()) && !L.var) { read(s, L, 1, &I, "arg"); continue; } if (L.off < r.size) s[L.r].add(L.off, r.size - L.off); continue; }
        BS must, ex; must.all = true; bool first = true, w = false;
        for (auto *t : tg) { auto &fs = U.sums[t]; if (i >= fs.size()) { if (t->isVarArg()) { w = true; must.meet(must); continue; } must = BS(); continue; } auto &as = fs[i]; w |= as.writes; must.meet(as.must); ex.join(as.expo); first = false; }
        (void)first; if (w) wr[L.r] = 1;
        if (!ex.all) for (unsigned j = 0; j < ex.b.size(); j++) if (ex.b[j] && L.off + j < (unsigned)r.size && !s[L.r].has(L.off + j)) { if (isa<Argument>(r.v)) expo[L.r].add(L.off + j, 1); else { if (report) hits.push_back({&I, "arg", r.v, (unsigned)(L.off + j)}); s[L.r].add(L.off + j, 1); for (unsigned q = j; q < ex.b.size(); q++) if (ex.b[q]) s[L.r].add(L.off + q, 1); break; } }
        if (w && r.ty && isa<ArrayType>(r.ty) && r.ty->getArrayElementType()->isIntegerTy(8)) s[L.r].add(L.off, r.size - L.off);
        if (must.all) s[L.r].add(L.off, r.size - L.off); else for (unsigned j = 0; j < must.b.size() && L.off + j < (unsigned)r.size; j++) if (must.b[j]) s[L.r].add(L.off + j, 1); }
    }
    static const Value *strip(const Value *v) { while (true) { if (auto *c = dyn_cast<CastInst>(v)) { v = c->getOperand(0); continue; } if (auto *b = dyn_cast<BinaryOperator>(v)) if (b->getOpcode() == Instruction::And && isa<ConstantInt>(b->getOperand(1))) { v = b->getOperand(0); continue; } return v; } }
    // value known to be zero / non-zero on an edge
    void known(St &s, const Value *v, bool nz, int d = 0) {
      v = strip(v); if (d > 6) return;
      if (auto *c = dyn_cast<ICmpInst>(v)) { if (!c->isEquality()) { // x < 0, x > 0 and the like: true only for non-zero
            auto *k = dyn_cast<ConstantInt>(c->getOperand(1)); auto p = c->getPredicate(); if (k && k->isZero() && nz && (p == ICmpInst::ICMP_SLT || p == ICmpInst::ICMP_SGT || p == ICmpInst::ICMP_UGT)) known(s, c->getOperand(0), true, d + 1); return; }
        bool eq = (c->getPredicate() == ICmpInst::ICMP_EQ) == nz; auto *k = dyn_cast<Constant>(c->getOperand(1)); if (!k) return; if (k->isNullValue() && isa<Argument>(c->getOperand(0)) && eq && ix.count(c->getOperand(0))) { s[ix[c->getOperand(0)]].all = true; return; } if (k->isNullValue()) known(s, c->getOperand(0), !eq, d + 1); else if (eq && isa<ConstantInt>(k)) known(s, c->getOperand(0), true, d + 1); return; }
      if (auto *CB = dyn_cast<CallBase>(v)) { auto tg = U.P.targets(CB); if (tg.empty()) return; for (auto *t : tg) if (t->isDeclaration() || !U.sums.count(t)) return;
        for (unsigned i = 0; i < CB->arg_size(); i++) { auto L = loc(CB->getArgOperand(i)); if (L.r < 0 || L.var || roots[L.r].blob) continue; BS m; m.all = true; for (auto *t : tg) { auto &fs = U.sums[t]; if (i >= fs.size()) { m = BS(); continue; } m.meet(nz ? fs[i].t : fs[i].f); }
          if (m.all) s[L.r].add(L.off, roots[L.r].size - L.off); else for (unsigned j = 0; j < m.b.size() && L.off + j < roots[L.r].size; j++) if (m.b[j]) s[L.r].add(L.off + j, 1); } }
    }
    void edge(St &s, const BasicBlock *a, const BasicBlock *b) {
      if (auto *br = dyn_cast<BranchInst>(a->getTerminator())) { if (!br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) return; known(s, br->getCondition(), br->getSuccessor(0) == b); }
      else if (auto *sw = dyn_cast<SwitchInst>(a->getTerminator())) { bool z = false, o = sw->getDefaultDest() == b, zc = false; for (auto &c : sw->cases()) { bool zero = c.getCaseValue()->isZero(); zc |= zero; if (c.getCaseSuccessor() == b) { if (zero) z = true; else o = true; } } if (z && !o) known(s, sw->getCondition(), false); else if (!z && (zc || sw->getDefaultDest() != b)) known(s, sw->getCondition(), true); }
      // a successor's phi tells the result of the predecessor's test
    }
    // a test of a value merged in the same block: only the ways in that give the tested outcome lead on
    void viaPhi(St &t, const BasicBlock *b, const BasicBlock *n) {
      auto *br = dyn_cast<BranchInst>(b->getTerminator()); if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) return; bool want = br->getSuccessor(0) == n;
      const Value *c = strip(br->getCondition()); if (auto *ic = dyn_cast<ICmpInst>(c); ic && ic->isEquality()) { auto *k = dyn_cast<Constant>(ic->getOperand(1)); if (!k || !k->isNullValue()) return; if (ic->getPredicate() == ICmpInst::ICMP_EQ) want = !want; c = strip(ic->getOperand(0)); }
      auto *ph = dyn_cast<PHINode>(c); if (!ph || ph->getParent() != b) return; St m; bool any = false;
      for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { auto *v = ph->getIncomingValue(i); if (auto *k = dyn_cast<Constant>(v)) if (k->isNullValue() == want && (k->isNullValue() || isa<ConstantInt>(k))) continue;
        auto *p = ph->getIncomingBlock(i); auto it = in.find(p); if (it == in.end()) continue; bool rs = report; report = false; St q = out(p, it->second); report = rs; edge(q, p, b); known(q, v, want); rs = report; report = false; q = out(b, q); report = rs; if (!any) m = q; else meet(m, q); any = true; }
      if (any) t = m; }
    St out(const BasicBlock *b, St s) { for (auto &I : *b) step(s, I); return s; }
    void meet(St &a, const St &b) { for (size_t i = 0; i < a.size(); i++) a[i].meet(b[i]); }
    bool dead(const St &) { return false; }
    void exits(const BasicBlock *b, const Value *v, St s, int d, std::function<void(const Value *, St)> cb) { // states at the end of b, with the value of v
      if (auto *ph = dyn_cast_or_null<PHINode>(v ? strip(v) : nullptr); ph && ph->getParent() == b && d < 5) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { auto *p = ph->getIncomingBlock(i); auto it = in.find(p); if (it == in.end()) continue;
          exits(p, ph->getIncomingValue(i), it->second, d + 1, [&](const Value *w, St t) { edge(t, p, b); cb(w, out(b, t)); }); } return; }
      cb(v, out(b, s)); }
    void run() {
      addRoots(); sum.assign(F->arg_size(), ArgSum()); if (roots.empty()) return; if (roots.size() > 400) { for (auto &a : sum) a.writes = true; return; }
      expo.assign(roots.size(), BS()); wr.assign(roots.size(), 0);
      auto &fi = U.P.fn[F]; St s0(roots.size()); for (size_t i = 0; i < roots.size(); i++) if (roots[i].heap) s0[i].all = true;
      in[&F->getEntryBlock()] = s0;
      for (int round = 0; round < 12; round++) { bool ch = false; for (auto *b : fi.rpo) { auto it = in.find(b); if (it == in.end()) continue; St o = out(b, it->second);
          for (auto *n : successors(b)) { St t = o; edge(t, b, n); viaPhi(t, b, n); auto j = in.find(n); if (j == in.end()) { in[n] = t; ch = true; } else { St u = j->second; meet(u, t); if (!(u == j->second)) { j->second = u; ch = true; } } } }
        if (!ch) break; }
      expo.assign(roots.size(), BS()); report = true;
      std::vector<BS> M(roots.size()), T(roots.size()), Z(roots.size()); for (auto &x : M) x.all = true; for (auto &x : T) x.all = true; for (auto &x : Z) x.all = true;
      for (auto *b : fi.rpo) { auto it = in.find(b); if (it == in.end()) continue; St o = out(b, it->second); auto *R = dyn_cast<ReturnInst>(b->getTerminator()); if (!R) continue;
        report = false; auto ex = expo;
        for (size_t i = 0; i < roots.size(); i++) M[i].meet(o[i]);
        if (R->getReturnValue() && (R->getReturnValue()->getType()->isIntegerTy() || R->getReturnValue()->getType()->isPointerTy())) exits(b, R->getReturnValue(), it->second, 0, [&](const Value *v, St s) { auto *c = dyn_cast<Constant>(v); bool cz = c && c->isNullValue(), cn = isa<ConstantInt>(v) && !cz; if (ix.count(v) && !isa<Argument>(v)) cn = true;
              St t = s; if (!cz) { known(t, v, true); for (size_t i = 0; i < roots.size(); i++) T[i].meet(t[i]); } t = s; if (!cn) { known(t, v, false); for (size_t i = 0; i < roots.size(); i++) Z[i].meet(t[i]); } });
        else { T = M; Z = M; }
        expo = ex; report = true;
        // fresh objects must be complete when the function returns
        for (size_t i = 0; i < roots.size(); i++) { auto &r = roots[i]; if (!r.heap || o[i].all) continue; if (r.blob) { hits.push_back({cast<Instruction>(r.v), "exit", r.v, 0}); continue; } if (!r.ty) { if (o[i].b.none()) hits.push_back({cast<Instruction>(r.v), "exit", r.v, 0}); continue; }
          std::set<unsigned> miss; members(r.ty, 0, [&](unsigned off, unsigned n) { for (unsigned q = off; q < off + n; q++) if (!o[i].has(q)) { miss.insert(off); break; } }); for (unsigned q : miss) hits.push_back({cast<Instruction>(r.v), "exit", r.v, q}); } }
      for (auto &a : F->args()) if (a.getType()->isPointerTy()) { int i = ix[&a]; auto &x = sum[a.getArgNo()]; x.must = M[i]; x.t = T[i]; x.f = Z[i]; x.expo = expo[i]; x.writes = wr[i]; }
    }
    void members(const Type *t, unsigned off, std::function<void(unsigned, unsigned)> cb) {
      if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL().getStructLayout(const_cast<StructType *>(st)); for (unsigned i = 0; i < st->getNumElements(); i++) { if (i && isa<ArrayType>(st->getElementType(i)) && st->getElementType(i)->getArrayElementType()->isIntegerTy(8) && pad(st, i)) continue; members(st->getElementType(i), off + sl->getElementOffset(i), cb); } return; }
      cb(off, DL().getTypeStoreSize(const_cast<Type *>(t))); }
    bool pad(const StructType *st, unsigned i) { auto *di = U.P.diFor(st); if (!di) return false; uint64_t o = DL().getStructLayout(const_cast<StructType *>(st))->getElementOffset(i) * 8; for (auto *e : di->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member && m->getOffsetInBits() == o) return false; return true; }
  };
  std::string nameAt(const Type *t, unsigned off) { auto *st = dyn_cast_or_null<StructType>(t); if (!st) return ""; auto *sl = P.DL->getStructLayout(const_cast<StructType *>(st)); if (off >= sl->getSizeInBytes()) return ""; unsigned i = sl->getElementContainingOffset(off); std::string n = P.fieldName(st, i); if (n.find("anon") != std::string::npos) return ""; auto r = nameAt(st->getElementType(i), off - sl->getElementOffset(i)); if (r.find("anon") != std::string::npos) r.clear(); size_t d = r.find('.'); return r.empty() ? n : n + "." + (d == std::string::npos ? r : r.substr(d + 1)); }
};
}
void writeUninit(Engine &E, json::OStream &J, std::map<const Function *, int> &id) {
  Un U(E); std::map<const Function *, std::vector<Hit>> hits; std::map<const Function *, std::array<int, 2>> cnt; std::map<const Value *, const Type *> ty;
  for (auto &scc : U.P.sccs) {
    bool rec = scc.size() > 1 || (scc.size() && U.P.fn[scc[0]].callees.count(scc[0]));
    for (auto *f : scc) if (!f->isDeclaration()) { FSum s(f->arg_size()); for (auto &a : s) a.must.all = a.t.all = a.f.all = true; U.sums[f] = s; }
    for (int round = 0; round < (rec ? 6 : 1); round++) { bool ch = false; for (auto *f : scc) { if (f->isDeclaration()) continue; Un::Fn r(U, f); r.run(); if (!(r.sum == U.sums[f])) ch = true; U.sums[f] = r.sum; hits[f] = r.hits; auto &c = cnt[f]; c = {0, 0}; for (auto &q : r.roots) { if (isa<AllocaInst>(q.v)) c[0]++; else if (q.heap) c[1]++; ty[q.v] = q.ty; } } if (!ch) break; } }
  J.attributeArray("uninit", [&] { for (auto *F : E.P.order) { std::set<std::string> seen; for (auto &h : hits[F]) {
      std::string var; const Value *rv = h.root; SmallVector<DbgVariableIntrinsic *, 4> dv; findDbgUsers(dv, const_cast<Value *>(rv)); for (auto *d : dv) { var = d->getVariable()->getName().str(); break; }
      std::string mem = U.nameAt(ty[rv], h.off); std::string k = h.kind + var + mem; if (!seen.insert(k).second) continue; std::string callee; if (auto *CB = dyn_cast<CallBase>(h.I)) { auto t = E.P.targets(CB); if (!t.empty()) callee = E.P.fname(t[0]); }
      J.value(Array{id[F], lineOf(h.I), h.kind, var, mem, isa<AllocaInst>(rv) ? "local" : "object", lineOf(cast<Instruction>(rv)), callee}); } } });
  J.attributeArray("uninitn", [&] { for (auto *F : E.P.order) if (cnt[F][0] || cnt[F][1]) J.value(Array{id[F], cnt[F][0], cnt[F][1]}); });
}
