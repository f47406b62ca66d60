// C15 (and others): what a function may store, call and return when given calls and members have given values (sparse conditional
// propagation of constants over the function as it is, every path not excluded by the assumption being followed).
#include "interp.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/JSON.h"
using llvm::json::Array; using llvm::json::Object;
namespace {
struct V { bool top = false; std::set<int64_t> s; bool join(const V &o) { if (top) return false; if (o.top) { top = true; s.clear(); return true; } size_t n = s.size(); s.insert(o.s.begin(), o.s.end()); if (s.size() > 24) { top = true; s.clear(); return true; } return s.size() != n; } };
V T() { V v; v.top = true; return v; } V K(int64_t k) { V v; v.s.insert(k); return v; }
struct Scenario { const char *id, *fn, *has; std::map<std::string, int64_t> calls, fields; std::map<int, int64_t> args; std::string stopCall, stopField; int64_t stopVal = 0; };
const std::vector<Scenario> &scenarios() {
  static std::vector<Scenario> v; if (!v.empty()) return v;
  auto add = [&](const char *id, const char *fn, const char *has, std::map<std::string, int64_t> c, std::map<std::string, int64_t> f = {}, std::map<int, int64_t> a = {}, std::string sc = "", std::string sf = "", int64_t sv = 0) { v.push_back({id, fn, has, c, f, a, sc, sf, sv}); };
  static std::vector<std::string> keep; keep.reserve(256); auto id = [&](std::string s) { keep.push_back(s); return keep.back().c_str(); };
  for (int l = 0; l <= 3; l++) { auto L = std::to_string(l);
    for (int r : {-1, 0, 2}) add(id("connect:handshake:" + L + ":" + std::to_string(r)), "", "SSL_connect", {{"SSL_connect", r}}, {{"verify_level", l}});
    add(id("connect:ok:" + L), "", "SSL_connect", {{"SSL_connect", 1}, {"SSL_get_verify_result", 0}, {"M_tls_verify_host", 1}}, {{"verify_level", l}});
    if (l) { add(id("connect:nocert:" + L), "", "SSL_connect", {{"SSL_connect", 1}, {"SSL_get1_peer_certificate", 0}, {"SSL_get_peer_certificate", 0}}, {{"verify_level", l}});
      for (int r : {1, 2, 10, 18, 20, 62}) add(id("connect:chain:" + L + ":" + std::to_string(r)), "", "SSL_connect", {{"SSL_connect", 1}, {"SSL_get_verify_result", r}}, {{"verify_level", l}}); }
    if (l >= 2) add(id("connect:host:" + L), "", "SSL_connect", {{"SSL_connect", 1}, {"SSL_get_verify_result", 0}, {"M_tls_verify_host", 0}}, {{"verify_level", l}}); }
  for (int r : {-1, 0, 2}) add(id("accept:handshake:" + std::to_string(r)), "", "SSL_accept", {{"SSL_accept", r}});
  add("verify:nohost", "M_tls_verify_host", "", {{"M_str_isempty", 1}}); add("verify:nocert", "M_tls_verify_host", "", {}, {}, {{0, 0}});
  for (int f = 0; f < 32; f++) add(id("verify:neither:" + std::to_string(f)), "M_tls_verify_host", "", {{"M_tls_verify_host_subjaltname", 0}, {"M_tls_verify_host_commonname", 0}, {"M_tls_verify_host_match", 0}}, {}, {{2, f}});
  add("san:nomatch", "M_tls_verify_host_subjaltname", "", {{"M_tls_verify_host_match", 0}}); add("cn:nomatch", "M_tls_verify_host_commonname", "", {{"M_tls_verify_host_match", 0}});
  for (int f : {1, 2, 3}) add(id("match:exact:" + std::to_string(f)), "M_tls_verify_host_match", "", {{"M_str_isempty", 0}, {"M_str_caseeq", 0}, {"M_str_eq", 0}, {"M_tls_verify_host_match_wildcard", 1}}, {}, {{2, f}});
  for (int f = 1; f < 16; f++) add(id("match:wild:" + std::to_string(f)), "M_tls_verify_host_match", "", {{"M_str_caseeq", 0}, {"M_str_eq", 0}, {"M_tls_verify_host_match_wildcard", 0}}, {}, {{2, f}});
  add("match:empty", "M_tls_verify_host_match", "", {{"M_str_isempty", 1}});
  for (int f : {16, 17, 18, 19, 23, 31}) add(id("match:fuzzy:" + std::to_string(f)), "M_tls_verify_host_match", "", {{"M_str_caseeq", 0}, {"M_str_eq", 0}, {"M_tls_verify_host_match_wildcard", 0}}, {}, {{2, f}});
  add("wild:differ", "M_tls_verify_host_match_wildcard", "", {{"M_str_caseeq", 0}, {"M_str_eq", 0}, {"M_str_casecmpsort", 1}, {"M_str_caseeq_max", 0}});
  for (int p = 1; p < 16; p++) add(id("proto:" + std::to_string(p)), "M_tls_protocols_to_openssl", "", {}, {}, {{0, p}});
  add("proto:0", "M_tls_protocols_to_openssl", "", {}, {}, {{0, 0}});
  add("init:proto", "M_tls_ctx_init", "", {}, {}, {}, "M_tls_ctx_set_protocols"); add("init:calls", "M_tls_ctx_init", "", {});
  add("setproto:bad", "M_tls_ctx_set_protocols", "", {{"M_tls_protocols_to_openssl", 0}}, {}, {{1, 1}});
  add("client:level", "M_tls_clientctx_create", "", {}, {}, {}, "", "verify_level", 3); add("client:stores", "M_tls_clientctx_create", "", {});
  add("client:init", "M_tls_clientctx_create", "", {}, {}, {}, "M_tls_ctx_init"); for (auto f : {"M_tls_serverctx_create", "M_tls_serverctx_create_int"}) { add("server:init", f, "", {}, {}, {}, "M_tls_ctx_init"); }
  add("srvverify", "", "SSL_CTX_set_verify", {}); add("setproto:calls", "M_tls_ctx_set_protocols", "", {}, {}, {{1, 4}}); add("setproto:must", "M_tls_ctx_set_protocols", "", {}, {}, {{1, 4}}, "M_tls_protocols_to_openssl");
  return v; }
struct Run { Prog &P; const Scenario &sc; std::map<const Value *, V> val; std::set<const BasicBlock *> live; std::set<std::pair<const BasicBlock *, const BasicBlock *>> edge; V ret; std::map<const Instruction *, std::pair<std::string, V>> stores; std::map<const Instruction *, std::pair<std::string, std::vector<V>>> calls; bool retAny = false;
  Run(Prog &p, const Scenario &s) : P(p), sc(s) {}
  static int64_t norm(Type *t, int64_t v) { if (auto *it = dyn_cast<IntegerType>(t)) { unsigned w = it->getBitWidth(); if (w == 1) return v & 1; if (w < 64) return (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); } return v; }
  V get(const Value *x) { if (auto *c = dyn_cast<ConstantInt>(x)) return c->getBitWidth() > 64 ? T() : K(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()); if (isa<ConstantPointerNull>(x)) return K(0); if (isa<Constant>(x)) return T();
    if (auto *a = dyn_cast<Argument>(x)) { auto it = sc.args.find((int)a->getArgNo()); return it == sc.args.end() ? T() : K(it->second); } auto it = val.find(x); return it == val.end() ? V() : it->second; }
  const Function *Fn = nullptr; std::map<std::string, std::vector<DICompositeType *>> *types = nullptr;
  std::string field(const StructType *st, unsigned idx) { // the structure of that name the function's own file declares
    if (types && st->hasName() && Fn->getSubprogram()) { std::string n = st->getName().str(); if (n.rfind("struct.", 0) == 0) n = n.substr(7); auto it = types->find(n); if (it == types->end()) { size_t d = n.rfind('.'); if (d != std::string::npos) it = types->find(n.substr(0, d)); }
      if (it != types->end()) for (auto *t : it->second) if (t->getFile() == Fn->getSubprogram()->getFile()) { uint64_t off = P.DL->getStructLayout(const_cast<StructType *>(st))->getElementOffset(idx) * 8; for (auto *e : t->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getOffsetInBits() == off) return m->getName().str(); } }
    return P.fieldName(st, idx); }
  std::string where(const Value *p) { p = p->stripPointerCasts(); if (auto *a = dyn_cast<Argument>(p)) return "arg" + std::to_string(a->getArgNo()); if (isa<AllocaInst>(p)) return "local";
    if (auto *g = dyn_cast<GEPOperator>(p)) { if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) { const StructType *cur = st; unsigned idx = 0; bool ok = false; auto it = g->idx_begin(); ++it; for (; it != g->idx_end(); ++it) { auto *c = dyn_cast<ConstantInt>(it->get()); if (!c || !cur) { ok = false; break; } idx = (unsigned)c->getZExtValue(); ok = true; auto n = field(cur, idx); auto *e = cur->getElementType(idx); auto i2 = it; if (++i2 == g->idx_end()) { auto d = n.rfind('.'); return d == std::string::npos ? n : n.substr(d + 1); } cur = dyn_cast<StructType>(e); } (void)ok; } }
    else if (auto *l = dyn_cast<Instruction>(p)) { (void)l; if (auto *t = l->getType(); t) return "?"; }
    return "?"; }
  template <class F> V two(const V &a, const V &b, F f) { if (a.top || b.top) { return T(); } V r; for (auto x : a.s) for (auto y : b.s) { int64_t o; if (!f(x, y, o)) return T(); r.s.insert(o); if (r.s.size() > 24) return T(); } return r; }
  V eval(const Instruction *I) {
    if (auto *c = dyn_cast<CallBase>(I)) { auto *f = c->getCalledFunction(); if (f) { auto it = sc.calls.find(P.fname(f)); if (it != sc.calls.end()) return K(it->second); if (f->getName().starts_with("llvm.expect")) return get(c->getArgOperand(0)); } return T(); }
    if (auto *l = dyn_cast<LoadInst>(I)) { if (!sc.fields.empty()) { auto it = sc.fields.find(where(l->getPointerOperand())); if (it != sc.fields.end()) return K(it->second); } return T(); }
    if (auto *p = dyn_cast<PHINode>(I)) { V r; for (unsigned i = 0; i < p->getNumIncomingValues(); i++) if (edge.count({p->getIncomingBlock(i), p->getParent()})) r.join(get(p->getIncomingValue(i))); return r; }
    if (auto *s = dyn_cast<SelectInst>(I)) { V c = get(s->getCondition()), r; if (c.top || c.s.count(1)) r.join(get(s->getTrueValue())); if (c.top || c.s.count(0)) r.join(get(s->getFalseValue())); return r; }
    if (auto *c = dyn_cast<CastInst>(I)) { V a = get(c->getOperand(0)); if (a.top) return a; V r; for (auto x : a.s) { if (isa<ZExtInst>(c)) { unsigned w = c->getSrcTy()->getScalarSizeInBits(); x = w < 64 ? x & ((1ll << w) - 1) : x; } r.s.insert(norm(c->getType(), x)); } if (!isa<ZExtInst>(c) && !isa<SExtInst>(c) && !isa<TruncInst>(c) && !isa<BitCastInst>(c) && !isa<PtrToIntInst>(c) && !isa<IntToPtrInst>(c)) return T(); return r; }
    if (isa<FreezeInst>(I)) return get(I->getOperand(0));
    if (auto *c = dyn_cast<ICmpInst>(I)) { V a = get(c->getOperand(0)), b = get(c->getOperand(1)); if (!a.top && a.s.empty()) return V(); if (!b.top && b.s.empty()) return V(); if (a.top || b.top) { V r; r.s = {0, 1}; return r; } unsigned w = c->getOperand(0)->getType()->isIntegerTy() ? c->getOperand(0)->getType()->getIntegerBitWidth() : 64; auto p = c->getPredicate();
      return two(a, b, [&](int64_t x, int64_t y, int64_t &o) { o = ICmpInst::compare(APInt(w, (uint64_t)x, true), APInt(w, (uint64_t)y, true), p); return true; }); }
    if (auto *b = dyn_cast<BinaryOperator>(I)) { V x = get(b->getOperand(0)), y = get(b->getOperand(1)); auto zero = [](const V &v) { return !v.top && v.s.size() == 1 && *v.s.begin() == 0; }; auto op = b->getOpcode(); if ((op == Instruction::And || op == Instruction::Mul) && (zero(x) || zero(y))) return K(0); Type *t = b->getType();
      return two(x, y, [&](int64_t p, int64_t q, int64_t &o) { switch (op) { case Instruction::And: o = p & q; break; case Instruction::Or: o = p | q; break; case Instruction::Xor: o = p ^ q; break; case Instruction::Add: o = (int64_t)((uint64_t)p + (uint64_t)q); break; case Instruction::Sub: o = (int64_t)((uint64_t)p - (uint64_t)q); break; case Instruction::Mul: o = (int64_t)((uint64_t)p * (uint64_t)q); break; case Instruction::Shl: if (q < 0 || q > 62) return false; o = (int64_t)((uint64_t)p << q); break; default: return false; } o = norm(t, o); return true; }); }
    return T(); }
  void run(const Function *F) { Fn = F;
    std::vector<const BasicBlock *> w{&F->getEntryBlock()}; live.insert(w[0]); int n = 0;
    while (!w.empty() && n++ < 20000) { auto *B = w.back(); w.pop_back(); bool stop = false; auto go = [&](const BasicBlock *S) { bool nw = edge.insert({B, S}).second; nw |= live.insert(S).second; if (nw) w.push_back(S); };
      for (auto &I : *B) {
        if (auto *s = dyn_cast<StoreInst>(&I)) { auto nm = where(s->getPointerOperand()); V v = get(s->getValueOperand()); stores[s] = {nm, v}; if (!sc.stopField.empty() && nm == sc.stopField && !v.top && v.s.size() == 1 && *v.s.begin() == sc.stopVal) { stop = true; break; } continue; }
        if (auto *c = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(c)) { auto *f = c->getCalledFunction(); std::vector<V> a; for (auto &x : c->args()) a.push_back(get(x)); auto nm = f ? P.fname(f) : std::string("?"); calls[c] = {nm, a}; if (!sc.stopCall.empty() && nm == sc.stopCall) { stop = true; break; } }
        if (auto *r = dyn_cast<ReturnInst>(&I)) { retAny = true; if (r->getReturnValue()) ret.join(get(r->getReturnValue())); continue; }
        if (I.getType()->isVoidTy() || I.isTerminator()) continue;
        V v = eval(&I); auto &o = val[&I]; if (o.join(v)) for (auto *u : I.users()) if (auto *ui = dyn_cast<Instruction>(u)) if (live.count(ui->getParent()) && ui->getParent() != B) w.push_back(ui->getParent()); else if (isa<PHINode>(ui) && ui->getParent() == B) w.push_back(B); }
      if (stop) continue; auto *t = B->getTerminator();
      if (auto *b = dyn_cast<BranchInst>(t)) { if (!b->isConditional()) go(b->getSuccessor(0)); else { V c = get(b->getCondition()); if (c.top || c.s.count(1)) go(b->getSuccessor(0)); if (c.top || c.s.count(0)) go(b->getSuccessor(1)); } }
      else if (auto *s = dyn_cast<SwitchInst>(t)) { V c = get(s->getCondition()); if (c.top) for (auto *S : successors(B)) go(S); else for (auto x : c.s) { const BasicBlock *d = s->getDefaultDest(); for (auto &k : s->cases()) if (k.getCaseValue()->getSExtValue() == x) d = k.getCaseSuccessor(); go(d); } }
      else for (auto *S : successors(B)) go(S); } }
};
}
void writeGuard(Engine &E, json::OStream &J, std::map<const Function *, int> &id) { Prog &P = E.P;
  auto arr = [](const V &v) -> json::Value { if (v.top) return nullptr; Array a; for (auto k : v.s) a.push_back(k); return a; };
  auto line = [](const Instruction *I) -> int64_t { return I->getDebugLoc() ? (int64_t)I->getDebugLoc().getLine() : 0; };
  std::map<std::string, std::vector<const Function *>> byName, byCall; for (auto &[F, i] : id) { byName[P.fname(F)].push_back(F); }
  for (auto &[F, i] : id) { std::set<std::string> seen; for (auto &I : instructions(const_cast<Function *>(F))) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *f = c->getCalledFunction()) if (f->isDeclaration() && f->getName().starts_with("SSL_") && seen.insert(f->getName().str()).second) byCall[f->getName().str()].push_back(F); }
  std::map<std::string, std::vector<DICompositeType *>> types; { DebugInfoFinder df; df.processModule(*P.M); for (auto *t : df.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (!c->getName().empty() && c->getTag() == dwarf::DW_TAG_structure_type && !c->isForwardDecl()) types[c->getName().str()].push_back(c); }
  J.attributeArray("guards", [&] { for (auto &sc : scenarios()) { auto &fs = *sc.fn ? byName[sc.fn] : byCall[sc.has]; for (auto *F : fs) { if (F->isDeclaration()) continue; Run r(P, sc); r.types = &types; r.run(F);
    bool known = true; for (auto &[n, k] : sc.calls) if (!byName.count(n) && n.rfind("M_", 0) == 0) known = false;
    std::map<std::pair<int64_t, int>, json::Value> o; int q = 0; Array st, ca; for (auto &I : instructions(const_cast<Function *>(F))) { auto a = r.stores.find(&I); if (a != r.stores.end() && a->second.first != "local") st.push_back(Array{a->second.first, arr(a->second.second), line(&I)}); auto b = r.calls.find(&I); if (b != r.calls.end()) { Array v; for (auto &x : b->second.second) v.push_back(arr(x)); ca.push_back(Array{b->second.first, std::move(v), line(&I)}); } }
    J.value(Object{{"sc", sc.id}, {"f", id[F]}, {"known", known}, {"returns", r.retAny}, {"ret", arr(r.ret)}, {"stores", std::move(st)}, {"calls", std::move(ca)}}); } } });
}
