#include "prog.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <deque>

static std::string trimPath(StringRef dir, StringRef f) {
  std::string s = f.str();
  size_t p = s.find("/repo/"); if (p == 0) s = s.substr(6);
  return s;
}
static void signature(FnInfo &fi) {
  static const std::set<std::string> borrows = {"M_sort_qsort", "M_sort_mergesort", "M_sort_binary_search", "M_sort_binary_insert"};
  if (borrows.count(fi.F->getName().str())) fi.constChar = ~0ull;
  const Function *F = fi.F; auto strip = [](DIType *t, bool &c) -> DIType * { while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_const_type) c = true; else if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_volatile_type) break; t = d->getBaseType(); } return t; };
  auto *sp = F->getSubprogram(); if (sp && sp->getType()) { auto ta = sp->getType()->getTypeArray();
    auto pointee = [&](DIType *t, bool &c) -> DIType * { bool c0 = false; t = strip(t, c0); auto *d = dyn_cast_or_null<DIDerivedType>(t); if (!d || d->getTag() != dwarf::DW_TAG_pointer_type) return nullptr; return strip(d->getBaseType(), c); };
    if (ta.size() > 0 && F->getReturnType()->isPointerTy()) { bool c = false; pointee(ta[0], c); fi.retConst = c; }
    if (ta.size() == F->arg_size() + 1) for (unsigned i = 0; i < F->arg_size(); i++) { bool c = false; auto *ct = dyn_cast_or_null<DICompositeType>(strip(ta[i + 1], c)); int64_t mx = 0, mn = 0; if (ct && ct->getTag() == dwarf::DW_TAG_enumeration_type) { std::set<int64_t> vs; for (auto *e : ct->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) vs.insert(x->getValue().getSExtValue()); if (vs.size() >= 4 && *vs.begin() >= 0 && *vs.begin() <= 1 && *vs.rbegin() - *vs.begin() == (int64_t)vs.size() - 1) { mn = *vs.begin(); mx = *vs.rbegin(); } } fi.enumMin.push_back(mn); fi.enumMax.push_back(mx); }
    if (ta.size() == F->arg_size() + 1) for (unsigned i = 0; i < F->arg_size() && i < 64; i++) { bool c = false; if (auto *b = dyn_cast_or_null<DIBasicType>(pointee(ta[i + 1], c))) if (c && b->getSizeInBits() == 8) fi.constChar |= 1ull << i; } }
  for (auto &A : F->args()) { if (!A.getType()->isPointerTy() || A.getArgNo() > 63) continue; std::vector<const Value *> vs{&A}; for (auto *u : A.users()) if (auto *st = dyn_cast<StoreInst>(u)) if (st->getValueOperand() == &A) for (auto *u2 : st->getPointerOperand()->users()) if (isa<LoadInst>(u2)) vs.push_back(u2);
    for (auto *v : vs) for (auto *u : v->users()) if (auto *c = dyn_cast<ICmpInst>(u)) if (isa<ConstantPointerNull>(c->getOperand(0)) || isa<ConstantPointerNull>(c->getOperand(1))) fi.testsNull |= 1ull << A.getArgNo(); }
}
std::string fileOf(const Function *F) { if (auto *sp = F->getSubprogram()) { std::string s = sp->getFilename().str(); const char *r = getenv("MSTANA_REPO"); std::string root = r ? std::string(r) + "/" : "/repo/"; if (s.rfind(root, 0) == 0) s = s.substr(root.size()); return s; } return "?"; }
int lineOf(const Instruction *I) { if (I && I->getDebugLoc()) return I->getDebugLoc().getLine(); return 0; }
std::string locOf(const Instruction *I) {
  if (!I) return "?";
  const Function *F = I->getFunction();
  return fileOf(F) + ":" + std::to_string(lineOf(I));
}
int Prog::keyOf(const Type *t, unsigned f) {
  auto it = fieldKey.find({t, f}); if (it != fieldKey.end()) return it->second;
  int k = keyName.size(); fieldKey[{t, f}] = k; keyField.push_back({t, f});
  keyName.push_back(cast<StructType>(t)->hasName() ? cast<StructType>(t)->getName().str() + "#" + std::to_string(f) : "anon#" + std::to_string(f));
  return k;
}
// innermost struct field of a GEP, or -1
static int gepKey(Prog &P, const GEPOperator *G) {
  int key = -1;
  for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
    if (StructType *st = it.getStructTypeOrNull()) { if (auto *c = dyn_cast<ConstantInt>(it.getOperand())) key = P.keyOf(st, c->getZExtValue()); }
  return key;
}
std::unordered_map<const Function *, int> gRank;
int Prog::addrKey(const Value *p) {
  for (int i = 0; i < 20; i++) {
    if (auto *G = dyn_cast<GEPOperator>(p)) { int k = gepKey(*this, G); if (k >= 0) return k; 
      // array step inside an enclosing field/global keeps that key, otherwise raw
      p = G->getPointerOperand(); continue; }
    if (auto *gv = dyn_cast<GlobalVariable>(p)) { auto it = globKey.find(gv); return it == globKey.end() ? rawKey : it->second; }
    if (auto *bc = dyn_cast<BitCastOperator>(p)) { p = bc->getOperand(0); continue; }
    break;
  }
  return rawKey;
}
void Prog::number(FnInfo &fi) {
  const Function *F = fi.F;
  for (auto &a : F->args()) { fi.num[&a] = fi.nvals++; fi.vals.push_back(&a); }
  for (auto &I : instructions(F)) if (!I.getType()->isVoidTy()) { fi.num[&I] = fi.nvals++; fi.vals.push_back(&I); }
  // RPO
  std::vector<const BasicBlock *> post; std::map<const BasicBlock *, int> st;
  std::vector<std::pair<const BasicBlock *, unsigned>> stk; std::vector<std::pair<const BasicBlock*,const BasicBlock*>> be;
  stk.push_back({&F->getEntryBlock(), 0}); st[&F->getEntryBlock()] = 1;
  while (!stk.empty()) {
    auto &[b, i] = stk.back(); auto *t = b->getTerminator();
    if (i < t->getNumSuccessors()) { auto *s = t->getSuccessor(i++); if (!st[s]) { st[s] = 1; stk.push_back({s, 0}); } else if (st[s] == 1) be.push_back({b, s}); }
    else { st[b] = 2; post.push_back(b); stk.pop_back(); }
  }
  std::reverse(post.begin(), post.end()); fi.rpo = post;
  for (size_t i = 0; i < post.size(); i++) fi.bnum[post[i]] = i;
  fi.canRet.assign(post.size(), 0);
  { std::vector<const BasicBlock *> w; for (auto *b : post) if (isa<ReturnInst>(b->getTerminator())) { fi.canRet[fi.bnum[b]] = 1; w.push_back(b); }
    while (!w.empty()) { auto *x = w.back(); w.pop_back(); for (auto *p : predecessors(x)) { auto it = fi.bnum.find(p); if (it != fi.bnum.end() && !fi.canRet[it->second]) { fi.canRet[it->second] = 1; w.push_back(p); } } } }
  fi.loopHead.assign(post.size(), 0); fi.inLoop.assign(post.size(), 0);
  for (auto &[b, h] : be) { fi.backEdges.insert({fi.bnum[b], fi.bnum[h]}); fi.loopHead[fi.bnum[h]] = 1;
    // natural loop body: nodes reaching b without h
    std::vector<const BasicBlock *> w{b}; std::set<const BasicBlock *> seen{h, b}; fi.inLoop[fi.bnum[h]] = 1; fi.inLoop[fi.bnum[b]] = 1;
    while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (x == h) continue; for (auto *p : predecessors(x)) if (fi.bnum.count(p) && seen.insert(p).second) { fi.inLoop[fi.bnum[p]] = 1; w.push_back(p); } } }
}
void Prog::liveness(FnInfo &fi) {
  size_t n = fi.rpo.size(); fi.liveIn.assign(n, Bits((fi.nvals + 63) / 64)); 
  std::vector<Bits> use(n, Bits((fi.nvals + 63) / 64)), def(n, Bits((fi.nvals + 63) / 64));
  for (size_t i = 0; i < n; i++) for (auto &I : *fi.rpo[i]) {
    if (isa<PHINode>(I)) { bset(def[i], fi.num[&I]); continue; }
    for (auto &o : I.operands()) { auto it = fi.num.find(o.get()); if (it != fi.num.end() && !bget(def[i], it->second)) bset(use[i], it->second); }
    if (!I.getType()->isVoidTy()) bset(def[i], fi.num[&I]);
  }
  bool ch = true;
  while (ch) { ch = false;
    for (int i = n - 1; i >= 0; i--) {
      Bits out((fi.nvals + 63) / 64);
      for (auto *s : successors(fi.rpo[i])) {
        bor(out, fi.liveIn[fi.bnum[s]]);
        for (auto &ph : s->phis()) { for (unsigned k = 0; k < ph.getNumIncomingValues(); k++) if (ph.getIncomingBlock(k) == fi.rpo[i]) { auto it = fi.num.find(ph.getIncomingValue(k)); if (it != fi.num.end()) bset(out, it->second); } }
      }
      Bits in = use[i]; for (size_t w = 0; w < out.size(); w++) in[w] |= out[w] & ~def[i][w];
      if (in != fi.liveIn[i]) { fi.liveIn[i] = in; ch = true; }
    } }
  for (size_t i = 0; i < n; i++) for (auto &ph : fi.rpo[i]->phis()) bset(fi.liveIn[i], fi.num[&ph]); // phis are set on the edge
}
std::vector<const Function *> Prog::targets(const CallBase *CB) const {
  if (auto *F = CB->getCalledFunction()) return {F};
  if (auto *F = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) return {F};
  auto it = icall.find(CB); return it == icall.end() ? std::vector<const Function *>() : it->second;
}
void Prog::resolvePtrs() {
  // Flow-insensitive propagation of function addresses through SSA values, parameters, struct fields and globals.
  std::unordered_map<const Value *, std::vector<const Value *>> succ; std::unordered_map<const Value *, std::vector<int>> toKey; std::map<int, std::vector<const Value *>> fromKey;
  std::deque<std::pair<const Value *, int>> wl; // value changed (or key if value null)
  auto addV = [&](const Value *v, const FnSet &s) { auto &t = pts[v]; size_t n = t.size(); t.insert(s.begin(), s.end()); if (t.size() != n) wl.push_back({v, -1}); };
  auto addK = [&](int k, const FnSet &s) { if (k == rawKey) return; auto &t = ptsKey[k]; size_t n = t.size(); t.insert(s.begin(), s.end()); if (t.size() != n) wl.push_back({nullptr, k}); };
  // initialisers
  std::function<void(const Constant *, int)> scan = [&](const Constant *c, int key) {
    if (auto *f = dyn_cast<Function>(c->stripPointerCasts())) { addK(key, {f}); return; }
    if (auto *cs = dyn_cast<ConstantStruct>(c)) { for (unsigned i = 0; i < cs->getNumOperands(); i++) scan(cs->getOperand(i), keyOf(cs->getType(), i)); return; }
    if (isa<ConstantArray>(c)) { for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o)) scan(oc, key); }
  };
  for (auto &g : M->globals()) if (g.hasInitializer()) scan(g.getInitializer(), globKey[&g]);
  auto isAlloca = [&](const Value *p) -> const Value * { p = p->stripPointerCasts(); if (isa<AllocaInst>(p)) return p; return nullptr; };
  for (auto *F : order) for (auto &I : instructions(F)) {
    if (auto *L = dyn_cast<LoadInst>(&I)) { if (!L->getType()->isPointerTy()) continue; if (auto *a = isAlloca(L->getPointerOperand())) succ[a].push_back(L); else { int k = addrKey(L->getPointerOperand()); if (k != rawKey) fromKey[k].push_back(L); } }
    else if (auto *st = dyn_cast<StoreInst>(&I)) { if (!st->getValueOperand()->getType()->isPointerTy()) continue;
      const Value *v = st->getValueOperand()->stripPointerCasts();
      if (auto *a = isAlloca(st->getPointerOperand())) { if (auto *f = dyn_cast<Function>(v)) addV(a, {f}); else succ[v].push_back(a); }
      else { int k = addrKey(st->getPointerOperand()); if (auto *f = dyn_cast<Function>(v)) addK(k, {f}); else toKey[v].push_back(k); } }
    else if (auto *ph = dyn_cast<PHINode>(&I)) { for (auto &o : ph->incoming_values()) { auto *v = o->stripPointerCasts(); if (auto *f = dyn_cast<Function>(v)) addV(ph, {f}); else succ[v].push_back(ph); } }
    else if (auto *se = dyn_cast<SelectInst>(&I)) { for (int k = 1; k < 3; k++) { auto *v = se->getOperand(k)->stripPointerCasts(); if (auto *f = dyn_cast<Function>(v)) addV(se, {f}); else succ[v].push_back(se); } }
    else if (auto *CB = dyn_cast<CallBase>(&I)) {
      // memcpy of struct constants
      if (auto *mt = dyn_cast<MemCpyInst>(CB)) { if (auto *gv = dyn_cast<GlobalVariable>(mt->getRawSource()->stripPointerCasts())) if (gv->hasInitializer()) scan(gv->getInitializer(), rawKey); }
      if (auto *F2 = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
        if (!F2->isDeclaration()) { unsigned n = std::min<unsigned>(CB->arg_size(), F2->arg_size());
          for (unsigned k = 0; k < n; k++) { auto *v = CB->getArgOperand(k)->stripPointerCasts(); if (!v->getType()->isPointerTy()) continue; if (auto *f = dyn_cast<Function>(v)) addV(F2->getArg(k), {f}); else succ[v].push_back(F2->getArg(k)); } }
      }
    }
    else if (auto *R = dyn_cast<ReturnInst>(&I)) { (void)R; }
  }
  std::map<const Value *, std::vector<const CallBase *>> ic;
  for (auto *F : order) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (!isa<Function>(CB->getCalledOperand()->stripPointerCasts()) && !CB->isInlineAsm()) ic[CB->getCalledOperand()->stripPointerCasts()].push_back(CB);
  std::set<std::pair<const CallBase *, const Function *>> linked;
  while (!wl.empty()) {
    auto [v, k] = wl.front(); wl.pop_front();
    if (!v) { auto s = ptsKey[k]; for (auto *d : fromKey[k]) addV(d, s); continue; }
    auto s = pts[v];
    for (auto *d : succ[v]) addV(d, s);
    for (int kk : toKey[v]) addK(kk, s);
    for (auto *CB : ic[v]) for (auto *F2 : s) if (linked.insert({CB, F2}).second && !F2->isDeclaration()) {
      unsigned n = std::min<unsigned>(CB->arg_size(), F2->arg_size());
      for (unsigned q = 0; q < n; q++) { auto *a = CB->getArgOperand(q)->stripPointerCasts(); if (!a->getType()->isPointerTy()) continue; if (auto *f = dyn_cast<Function>(a)) addV(F2->getArg(q), {f}); else { succ[a].push_back(F2->getArg(q)); auto it = pts.find(a); if (it != pts.end()) addV(F2->getArg(q), it->second); } } }
  }
  for (auto &[v, cbs] : ic) for (auto *CB : cbs) { std::vector<const Function *> r; for (auto *f : pts[v]) if (f->arg_size() == CB->arg_size() || f->isVarArg()) r.push_back(f); std::sort(r.begin(), r.end(), [&](auto *a, auto *b) { return a->getName() < b->getName(); }); icall[CB] = r; }
}
// names of externals that never write caller-visible memory
static bool extReadOnly(StringRef n) {
  static const std::set<std::string> s = {"strlen","strcmp","strncmp","strcasecmp","strncasecmp","strchr","strrchr","strstr","strpbrk","strspn","strcspn","memcmp","memchr","free","malloc","abort","exit","_exit","close","write","fwrite","fputs","unlink","rename","access","kill","__errno_location","getpid","gettid","sysconf","open","shutdown","send"};
  return s.count(n.str()) > 0;
}
void Prog::mods() {
  for (auto *F : order) { auto &fi = fn[F];
    for (auto &I : instructions(F)) {
      const Value *p = nullptr;
      if (auto *st = dyn_cast<StoreInst>(&I)) p = st->getPointerOperand();
      else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) p = rm->getPointerOperand();
      else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) p = cx->getPointerOperand();
      else if (auto *ms = dyn_cast<MemIntrinsic>(&I)) p = ms->getRawDest();
      else if (auto *L = dyn_cast<LoadInst>(&I)) { bset(fi.reads, addrKey(L->getPointerOperand())); }
      if (p) { const Value *b = p->stripInBoundsOffsets(); if (!isa<AllocaInst>(b)) bset(fi.mods, addrKey(p)); }
    } }
  for (auto *F : order) fn[F].own = fn[F].mods;
  bool ch = true;
  while (ch) { ch = false;
    for (auto *F : order) { auto &fi = fn[F];
      for (auto *c : fi.callees) { if (c->isDeclaration()) { if (!extReadOnly(c->getName())) { bool had = bget(fi.mods, rawKey); bset(fi.mods, rawKey); ch |= !had; } continue; }
        auto &ci = fn[c]; ch |= bor(fi.mods, ci.mods); ch |= bor(fi.reads, ci.reads); } } }
}
static bool modelled(const Function *f) { static const std::set<std::string> s = {"M_free", "M_malloc", "M_malloc_zero", "M_realloc", "M_realloc_zero"}; return s.count(f->getName().str()) > 0; } // never summarised
void Prog::buildScc() {
  // Tarjan, iterative on definitions
  std::map<const Function *, int, FnLess> idx, low; std::vector<const Function *> st; FnSet on; int c = 0;
  std::function<void(const Function *)> rec = [&](const Function *f) {
    idx[f] = low[f] = ++c; st.push_back(f); on.insert(f);
    for (auto *g : fn[f].callees) { if (g->isDeclaration() || modelled(g)) continue; if (!idx.count(g)) { rec(g); low[f] = std::min(low[f], low[g]); } else if (on.count(g)) low[f] = std::min(low[f], idx[g]); }
    if (low[f] == idx[f]) { std::vector<const Function *> comp; while (1) { auto *g = st.back(); st.pop_back(); on.erase(g); comp.push_back(g); fn[g].scc = sccs.size(); if (g == f) break; }
      if (comp.size() > 1) for (auto *g : comp) fn[g].recursive = true; else if (fn[comp[0]].callees.count(comp[0])) fn[comp[0]].recursive = true;
      sccs.push_back(comp); }
  };
  for (auto *f : order) if (!idx.count(f)) rec(f);
}
const DICompositeType *Prog::diFor(const StructType *st) {
  if (!st->hasName()) return nullptr; std::string n = st->getName().str(); 
  if (n.rfind("struct.", 0) == 0) n = n.substr(7); else if (n.rfind("union.", 0) == 0) n = n.substr(6);
  auto it = diStruct.find(n); if (it != diStruct.end()) return it->second;
  size_t d = n.rfind('.'); if (d != std::string::npos) { it = diStruct.find(n.substr(0, d)); if (it != diStruct.end()) return it->second; }
  return nullptr;
}
std::string Prog::fieldName(const Type *t, unsigned idx) {
  auto *st = dyn_cast<StructType>(t); if (!st) return std::to_string(idx);
  std::string n = st->hasName() ? st->getName().str() : "anon"; if (n.rfind("struct.", 0) == 0) n = n.substr(7);
  if (auto *d = diFor(st)) { unsigned i = 0; uint64_t off = DL->getStructLayout(const_cast<StructType *>(st))->getElementOffset(idx) * 8;
    for (auto *e : d->getElements()) { if (auto *m = dyn_cast<DIDerivedType>(e)) { if (m->getOffsetInBits() == off) return n + "." + m->getName().str(); } i++; } }
  return n + "#" + std::to_string(idx);
}
void Prog::init(Module &m, const std::set<std::string> &pub) {
  M = &m; DL = &m.getDataLayout(); publicNames = pub;
  { int r = 0; for (auto &f : m) gRank[&f] = r++; }
  keyName.push_back("raw"); keyField.push_back({nullptr, 0}); rawKey = 0;
  for (auto *st : m.getIdentifiedStructTypes()) if (!st->isOpaque() && st->isSized()) { DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) keyOf(st, i); }
  for (auto &g : m.globals()) { int k = keyName.size(); globKey[&g] = k; keyName.push_back("@" + g.getName().str()); keyField.push_back({nullptr, 0}); }
  DebugInfoFinder dif; dif.processModule(m);
  for (auto *t : dif.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_structure_type && !c->isForwardDecl() && !c->getName().empty()) diStruct[c->getName().str()] = c;
  for (auto *t : dif.types()) if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef) if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType())) if (c->getName().empty() && c->getTag() == dwarf::DW_TAG_structure_type) diStruct[d->getName().str()] = c;
  for (auto &F : m) if (!F.isDeclaration()) { order.push_back(&F); auto &fi = fn[&F]; fi.F = &F; fi.name = F.getSubprogram() ? F.getSubprogram()->getName().str() : F.getName().str(); fi.file = fileOf(&F); fi.line = F.getSubprogram() ? F.getSubprogram()->getLine() : 0; if (!F.hasLocalLinkage()) byName[fi.name] = &F; else byName.emplace(fi.name, &F); fi.isPublic = !F.hasLocalLinkage() && publicNames.count(fi.name); fi.addrTaken = F.hasAddressTaken(); signature(fi); number(fi); liveness(fi); }
  resolvePtrs();
  for (auto *F : order) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) for (auto *t : targets(CB)) { fn[F].callees.insert(t); if (!t->isDeclaration()) fn[t].callers.insert(F); }
  mods(); buildScc();
}
