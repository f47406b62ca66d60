#include <llvm/Analysis/ValueTracking.h>
#include <deque>
#include <cstring>
#include "interp.h"
#include "models.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <atomic>
#include <condition_variable>
#include <queue>
#include <thread>

std::string symStr(S s, Prog *P, const Function *F) {
  if (!s) return "-";
  auto R = [&](S q) { return symStr(q, P, F); };
  switch (s->k) {
  case INT: return std::to_string(s->a);
  case GLOB: return "@" + ((const Value *)s->p)->getName().str();
  case ARG: if (F && (unsigned)s->a < F->arg_size() && F->getSubprogram()) { for (auto *n : F->getSubprogram()->getRetainedNodes()) if (auto *v = dyn_cast<DILocalVariable>(n)) if (v->getArg() == s->a + 1) return v->getName().str(); }
    return "arg" + std::to_string(s->a);
  case ALLOCA: return "&local@" + std::to_string(lineOf((const Instruction *)s->p));
  case HEAP: return s->p ? "heap@" + std::to_string(lineOf((const Instruction *)s->p)) + (s->a ? "." + std::to_string(s->a) : "") : "fresh" + std::to_string(s->a);
  case UNK: return s->p ? "unk@" + std::to_string(lineOf((const Instruction *)s->p)) + "." + std::to_string(s->a) : "opq" + std::to_string(s->a);
  case LOAD: return "*(" + R(s->x) + ")";
  case OFF: return R(s->x) + "+" + std::to_string(s->a);
  case IDX: return R(s->x) + "[" + R(s->y) + "*" + std::to_string(s->a & 0xffffffff) + "]";
  case BIN: return "(" + R(s->x) + " op" + std::to_string(s->a) + " " + R(s->y) + ")";
  case CMP: return "(" + R(s->x) + " cmp" + std::to_string(s->a) + " " + R(s->y) + ")";
  case CAST: return "cast(" + R(s->x) + ")";
  case MERGE: return "merge" + std::to_string(s->id);
  case PREV: return "prev(" + R(s->x) + ")";
  case UNDEF: return "undef";
  }
  return "?";
}

static bool isDtorName(const std::string &n) {
  auto ends = [&](const char *e) { size_t l = strlen(e); return n.size() >= l && n.compare(n.size() - l, l, e) == 0; };
  return ends("_destroy") || ends("_free") || ends("_cancel") || ends("_remove") || ends("_delete") || ends("_destory") || ends("_free_cb") || ends("_destroy_cb") || ends("_destroy_real") || ends("_destroy_int") || ends("_destroy_vp") || ends("_close");
}
static bool isPauseName(const std::string &n) { auto ends = [&](const char *e) { size_t k = strlen(e); return n.size() > k && n.compare(n.size() - k, k, e) == 0; }; return ends("_stop") || ends("_start") || ends("_reset") || ends("_restart"); }   // works on an object that stays
static bool isReleaseName(const std::string &n) { return n.find("_destroy") != std::string::npos || n.find("_destory") != std::string::npos || n.find("_free") != std::string::npos || (n.size() > 7 && n.compare(n.size() - 7, 7, "_cancel") == 0); }
static S rootOf(S a) { while (a->k == OFF || a->k == IDX) a = a->x; return a; }

struct Interp {
  Engine &E; Prog &P; FnInfo &fi; FnOut &O; const Function *F; Arena A;
  std::unordered_map<S, S> path;      // UNK produced by a load -> address it was loaded from
  std::unordered_map<S, int> symKey;  // loaded symbol -> type key of the load
  std::vector<std::vector<State>> at;
  bool dbg = false; bool inScc; long budget = 150000;
  Interp(Engine &e, FnInfo &f, FnOut &o) : E(e), P(e.P), fi(f), O(o), F(f.F) { dbg = e.debugFns.count(f.name); }

  // ---------- ranges -------------
  Rng rng(const State &s, S v) const {
    if (v->k == INT) return Rng::one(v->a);
    Rng r;
    if (auto *f = s.facts.find(v)) r = *f;
    Rng t;
    switch (v->k) {
    case GLOB: case ALLOCA: t = Rng::of(4096, INT64_MAX); break;
    case CMP: t = Rng::of(0, 1); break;
    case CAST: { unsigned op = v->a >> 8, bits = v->a & 255; Rng q = rng(s, v->x);
        if (op == Instruction::ZExt || op == 200) { if (q.lo >= 0) t = q; else { unsigned sb = v->a >> 16; (void)sb; } }
        else if (op == Instruction::SExt) t = q;
        else if (op == Instruction::Trunc) { int64_t mx = bits >= 63 ? INT64_MAX : (bits == 1 ? 1 : (1ll << (bits - 1)) - 1), mn = bits == 1 ? 0 : -mx - 1; if (q.lo >= mn && q.hi <= mx) t = q; }
        break; }
    case BIN: if (v->a == Instruction::And && v->y->k == INT && v->y->a >= 0) t = Rng::of(0, v->y->a);
      else if (v->a == Instruction::URem && v->y->k == INT && v->y->a > 0) t = Rng::of(0, v->y->a - 1);
      else if ((v->a == Instruction::Add) && v->y->k == INT) { Rng q = rng(s, v->x); if (q.lo > INT64_MIN / 2 && q.hi < INT64_MAX / 2) t = Rng::of(q.lo + v->y->a, q.hi + v->y->a); }
      break;
    case OFF: { if (v->a > 0 && v->x->k != INT) t = Rng::ne(0); break; }
    case IDX: t = Rng::ne(0); break;
    default: break;
    }
    r.meet(t); return r;
  }
  bool isNull(const State &s, S v) const { if (v->k == INT) return v->a == 0; auto *f = s.facts.find(v); return f && f->lo == 0 && f->hi == 0; }
  bool nonNull(const State &s, S v) const { return !rng(s, v).has(0); }
  S norm(const State &s, S v) { if (v->k == INT) return v; auto *f = s.facts.find(v); if (f && f->single()) return A.num(f->lo); return v; }
  bool narrow(State &s, S v, const Rng &r) { // false if infeasible
    if (v->k == INT) return r.has(v->a);
    if (v->k == UNDEF) return true;
    Rng q = rng(s, v); Rng n = q; n.meet(r); if (n.empty()) return false;
    if (n == q) return true;
    s.facts.set(v, n);
    if (v->k == UNK && ((n.lo == 0 && n.hi == 0) || n.hi < 0) && path.count(v)) settle(s, v);   // found empty
    if (v->k == CAST && !r.isTop()) { unsigned op = v->a >> 8; if (op == Instruction::SExt || op == Instruction::ZExt) { if (n.lo >= 0 || op == Instruction::SExt) { if (!narrow(s, v->x, n)) return false; } else if (!n.has(0)) { if (!narrow(s, v->x, Rng::ne(0))) return false; } } 
      else if (op == Instruction::Trunc && !n.has(0)) { if (!narrow(s, v->x, Rng::ne(0))) return false; } }
    if (v->k == CMP) { if (n.single()) return assume(s, v, n.lo != 0); }
    if (v->k == BIN && v->a == Instruction::Add && v->y->k == INT && n.lo > INT64_MIN / 2 && n.hi < INT64_MAX / 2) { Rng m; m.lo = n.lo - v->y->a; m.hi = n.hi - v->y->a; if (n.lo != n.hi) { for (int i = 0; i < n.n; i++) m.exclude(n.ex[i] - v->y->a); } if (!narrow(s, v->x, m)) return false; }
    if (v->k == BIN && n.single() && v->y->k != INT && ((v->a == Instruction::And && n.lo == -1) || (v->a == Instruction::Or && n.lo == 0))) { if (!narrow(s, v->x, n) || !narrow(s, v->y, n)) return false; } // two comparisons joined into one
    if (v->k == OFF && n.single() && n.lo == 0 && v->a != 0) return false;
    return true;
  }
  static int negp(int p) { return CmpInst::getInversePredicate((CmpInst::Predicate)p); }
  static int swapp(int p) { return CmpInst::getSwappedPredicate((CmpInst::Predicate)p); }
  // -1 unknown
  int evalCmp(const State &s, int p, S a, S b) {
    if (a == b && a->k != UNDEF) { switch (p) { case ICmpInst::ICMP_EQ: case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: return 1; default: return 0; } }
    Rng x = rng(s, a), y = rng(s, b);
    if (p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_NE) {
      int r = -1;
      if (x.single() && y.single() && x.lo == y.lo) r = 1;
      else { Rng m = x; m.meet(y); if (m.empty()) r = 0; 
        // distinct objects
        S ra = rootOf(a), rb = rootOf(b); bool oa = ra->k == HEAP || ra->k == ALLOCA || ra->k == GLOB, ob = rb->k == HEAP || rb->k == ALLOCA || rb->k == GLOB; 
        if (r < 0 && oa && ob && ra != rb && ra->k != INT) r = 0;
        if (r < 0 && (ra->k == ALLOCA && !s.esc.find(ra) && rb != ra && rb->k != MERGE && rb->k != UNK)) r = 0;
        if (r < 0 && (rb->k == ALLOCA && !s.esc.find(rb) && rb != ra && ra->k != MERGE && ra->k != UNK)) r = 0;
        if (r < 0 && a->k == OFF && b->k == OFF && a->x == b->x && a->a != b->a) r = 0; }
      if (r < 0) return -1; return p == ICmpInst::ICMP_EQ ? r : !r;
    }
    bool uns = p == ICmpInst::ICMP_ULT || p == ICmpInst::ICMP_ULE || p == ICmpInst::ICMP_UGT || p == ICmpInst::ICMP_UGE;
    if (uns) { 
      if (p == ICmpInst::ICMP_ULT && y.single() && y.lo == 0) return 0;
      if (p == ICmpInst::ICMP_UGE && y.single() && y.lo == 0) return 1;
      if (x.lo < 0 && x.single() && y.lo >= 0) { x = Rng::of(INT64_MAX, INT64_MAX); if (y.hi == INT64_MAX) return -1; }
      else if (y.lo < 0 && y.single() && x.lo >= 0) { y = Rng::of(INT64_MAX, INT64_MAX); if (x.hi == INT64_MAX) return -1; }
      else if (x.lo < 0 || y.lo < 0) { if (p == ICmpInst::ICMP_UGT && y.single() && y.lo == 0 && !x.has(0)) return 1; if (p == ICmpInst::ICMP_ULE && y.single() && y.lo == 0 && !x.has(0)) return 0; return -1; } }
    switch (p) {
    case ICmpInst::ICMP_ULT: case ICmpInst::ICMP_SLT: if (x.hi < y.lo) return 1; if (x.lo >= y.hi) return 0; return -1;
    case ICmpInst::ICMP_ULE: case ICmpInst::ICMP_SLE: if (x.hi <= y.lo) return 1; if (x.lo > y.hi) return 0; return -1;
    case ICmpInst::ICMP_UGT: case ICmpInst::ICMP_SGT: if (x.lo > y.hi) return 1; if (x.hi <= y.lo) return 0; return -1;
    case ICmpInst::ICMP_UGE: case ICmpInst::ICMP_SGE: if (x.lo >= y.hi) return 1; if (x.hi < y.lo) return 0; return -1;
    }
    return -1;
  }
  static Rng predRng(int p, int64_t c, const Rng &cur) {
    switch (p) {
    case ICmpInst::ICMP_EQ: return Rng::one(c);
    case ICmpInst::ICMP_NE: return Rng::ne(c);
    case ICmpInst::ICMP_SLT: return c == INT64_MIN ? Rng::of(1, 0) : Rng::of(INT64_MIN, c - 1);
    case ICmpInst::ICMP_SLE: return Rng::of(INT64_MIN, c);
    case ICmpInst::ICMP_SGT: return c == INT64_MAX ? Rng::of(1, 0) : Rng::of(c + 1, INT64_MAX);
    case ICmpInst::ICMP_SGE: return Rng::of(c, INT64_MAX);
    case ICmpInst::ICMP_ULT: if (c >= 0) return c == 0 ? Rng::of(1, 0) : Rng::of(0, c - 1); return Rng::top();
    case ICmpInst::ICMP_ULE: if (c >= 0) return Rng::of(0, c); return Rng::top();
    case ICmpInst::ICMP_UGT: if (c == 0) return Rng::ne(0); if (c > 0 && cur.lo >= 0) return c == INT64_MAX ? Rng::of(1, 0) : Rng::of(c + 1, INT64_MAX); if (c > 0) return Rng::ne(0); return Rng::top();
    case ICmpInst::ICMP_UGE: if (c > 0 && cur.lo >= 0) return Rng::of(c, INT64_MAX); if (c > 0) return Rng::ne(0); return Rng::top();
    }
    return Rng::top();
  }
  bool assume(State &s, S c, bool t) {
    if (c->k == INT) return (c->a != 0) == t;
    if (c->k == CMP) {
      int p = t ? (int)c->a : negp((int)c->a); S a = c->x, b = c->y;
      int e = evalCmp(s, p, a, b); if (e == 0) return false; if (e == 1) return true;
      Rng ra = rng(s, a), rb = rng(s, b);
      bool isSimple = false;
      if (rb.single()) { if (!narrow(s, a, predRng(p, rb.lo, ra))) return false; isSimple = b->k == INT && (p < ICmpInst::ICMP_UGT || p > ICmpInst::ICMP_ULE || ra.lo >= 0); }
      else if (ra.single()) { if (!narrow(s, b, predRng(swapp(p), ra.lo, rb))) return false; isSimple = a->k == INT; }
      else if (p == ICmpInst::ICMP_EQ) { Rng m = ra; m.meet(rb); if (m.empty()) return false; if (!narrow(s, a, m) || !narrow(s, b, m)) return false; }
      else if (p == ICmpInst::ICMP_SLT || (p == ICmpInst::ICMP_ULT && ra.lo >= 0 && rb.lo >= 0)) { if (rb.hi != INT64_MIN && !narrow(s, a, Rng::of(INT64_MIN, rb.hi == INT64_MAX ? INT64_MAX : rb.hi - 1))) return false; if (ra.lo != INT64_MIN && !narrow(s, b, Rng::of(ra.lo + 1, INT64_MAX))) return false; }
      else if (p == ICmpInst::ICMP_SGT || (p == ICmpInst::ICMP_UGT && ra.lo >= 0 && rb.lo >= 0)) { if (ra.hi != INT64_MIN && !narrow(s, b, Rng::of(INT64_MIN, ra.hi == INT64_MAX ? INT64_MAX : ra.hi - 1))) return false; if (rb.lo != INT64_MIN && rb.lo != INT64_MAX && !narrow(s, a, Rng::of(rb.lo + 1, INT64_MAX))) return false; }
      else if (p == ICmpInst::ICMP_UGT) { if (!narrow(s, a, Rng::ne(0))) return false; }
      else if (p == ICmpInst::ICMP_ULT) { if (!narrow(s, b, Rng::ne(0))) return false; }
      if (!isSimple) { s.facts.set(c, Rng::one(t)); S inv = A.get(CMP, negp((int)c->a), nullptr, c->x, c->y); s.facts.set(inv, Rng::one(!t)); }
      return true;
    }
    if (c->k == BIN && c->a == Instruction::And && t) { if (c->y->k != INT) return assume(s, c->x, true) && assume(s, c->y, true); }
    if (c->k == BIN && c->a == Instruction::Or && !t) return narrow(s, c->x, Rng::one(0)) && narrow(s, c->y, Rng::one(0));
    if (c->k == BIN && c->a == Instruction::Xor && c->y->k == INT && c->y->a == 1 && rng(s, c->x).lo >= 0 && rng(s, c->x).hi <= 1) return assume(s, c->x, !t);
    return narrow(s, c, t ? Rng::ne(0) : Rng::one(0));
  }
  // ---------- symbols -------------
  S constSym(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return A.get(UNK, 0, c); return A.num(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()); }
    if (isa<ConstantPointerNull>(c)) return A.num(0);
    if (isa<UndefValue>(c)) return A.get(UNDEF, 0, nullptr);
    if (isa<GlobalVariable>(c) || isa<Function>(c)) return A.get(GLOB, 0, c);
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *G = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (G->accumulateConstantOffset(*P.DL, off)) return mkOff(constSym(cast<Constant>(G->getPointerOperand())), off.getSExtValue()); }
      if (ce->isCast()) return constSym(ce->getOperand(0));
    }
    return A.get(UNK, 0, c);
  }
  S mkOff(S b, int64_t o) {
    if (o == 0) return b; if (b->k == INT) return A.num(b->a + o);
    if (b->k == OFF) return mkOff(b->x, b->a + o);
    return A.get(OFF, o, nullptr, b);
  }
  S val(const State &s, const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constSym(c);
    auto it = fi.num.find(v); if (it == fi.num.end()) return A.get(UNK, 0, v);
    S r = s.regs[it->second]; return r ? r : A.get(UNK, 77, v);
  }
  void setv(State &s, const Instruction *I, S v) { auto it = fi.num.find(I); if (it != fi.num.end()) s.regs[it->second] = v; }
  // rename every symbol matching pred to PREV(sym)
  template <class PR> static bool mentions(S v, PR pr, std::unordered_map<S, bool> &memo) {
    if (!v) return false; if (!v->hasLocal) return false; auto it = memo.find(v); if (it != memo.end()) return it->second;
    bool r = pr(v) || mentions(v->x, pr, memo) || mentions(v->y, pr, memo); memo[v] = r; return r;
  }
  template <class PR> bool anyMention(const State &s, PR pr) {
    std::unordered_map<S, bool> m;
    for (S r : s.regs) if (r && mentions(r, pr, m)) return true;
    for (auto &[k, c] : s.mem.v) if (mentions(k, pr, m) || mentions(c.val, pr, m)) return true;
    for (auto &[k, c] : s.facts.v) if (mentions(k, pr, m)) return true;
    for (auto &[k, c] : s.objs.v) if (mentions(k, pr, m)) return true;
    for (auto &[k, c] : s.locks.v) if (mentions(k, pr, m)) return true;
    for (auto &[k, c] : s.esc.v) if (mentions(k, pr, m)) return true;
    return false;
  }
  template <class PR> S ren(S v, PR pr, std::unordered_map<S, S> &memo) {
    if (!v || !v->hasLocal) return v; auto it = memo.find(v); if (it != memo.end()) return it->second;
    S r;
    if (v->k == PREV) r = v; // already historical
    else if (pr(v)) r = A.get(PREV, 0, nullptr, v);
    else { S x = ren(v->x, pr, memo), y = ren(v->y, pr, memo); r = (x == v->x && y == v->y) ? v : (v->k == OFF ? mkOff(x, v->a) : A.get(v->k, v->a, v->p, x, y)); if (path.count(v) && !path.count(r)) path[r] = ren(path[v], pr, memo); if (symKey.count(v)) symKey[r] = symKey[v]; }
    memo[v] = r; return r;
  }
  template <class PR> void renameAll(State &s, PR pr) {
    if (!anyMention(s, pr)) return;
    std::unordered_map<S, S> m;
    // existing PREV versions of the renamed symbols collapse: forget what was known about them
    auto isOldPrev = [&](S v) { return v->k == PREV && pr(v->x); };
    { std::unordered_map<S, bool> mm; auto q = [&](S v) { return isOldPrev(v); };
      if (anyMention(s, q)) {
        s.mem.eraseIf([&](S k, Cell &c) { mm.clear(); return mentions(k, q, mm) || mentions(c.val, q, mm); });
        mm.clear(); s.facts.eraseIf([&](S k, Rng &) { return mentions(k, q, mm); });
        s.objs.eraseIf([&](S k, Obj &o) { if (!mentions(k, q, mm)) return false; if (o.st == O_ALLOC && k->k == PREV) leakCheckObj(s, k, o, nullptr); return true; });
      } }
    for (S &r : s.regs) if (r) r = ren(r, pr, m);
    SMap<Cell> nm; for (auto &[k, c] : s.mem.v) { Cell d = c; d.val = ren(c.val, pr, m); nm.set(ren(k, pr, m), d); } s.mem = nm;
    SMap<Rng> nf; for (auto &[k, c] : s.facts.v) nf.set(ren(k, pr, m), c); s.facts = nf;
    SMap<Obj> no; for (auto &[k, c] : s.objs.v) no.set(ren(k, pr, m), c); s.objs = no;
    SMap<Lock> nl; for (auto &[k, c] : s.locks.v) nl.set(ren(k, pr, m), c); s.locks = nl;
    SMap<int> ne; for (auto &[k, c] : s.esc.v) ne.set(ren(k, pr, m), c); s.esc = ne;
  }
  void redefine(State &s, const void *p) { renameAll(s, [p](S v) { return v->p == p && (v->k == UNK || v->k == HEAP || v->k == ALLOCA); }); }
  bool loops(const Instruction *I) { auto it = fi.bnum.find(I->getParent()); return it != fi.bnum.end() && fi.inLoop[it->second]; }
  S fresh(State &s, const Instruction *I, int n = 0) { if (loops(I)) redefine(s, I); return A.get(UNK, n, I); }
  static bool fromArgs(S v) { // expression over arguments / globals only
    if (!v) return true; if (v->hasLocal) return false; return true; }
  // canonical path of a value: independent of when it was loaded
  S canon(S v, int d = 0) {
    if (d > 8) return v;
    auto it = path.find(v); if (it != path.end()) return A.get(LOAD, 0, nullptr, canon(it->second, d + 1));
    if (v->k == LOAD) return A.get(LOAD, 0, nullptr, canon(v->x, d + 1));
    if (v->k == OFF) return mkOff(canon(v->x, d + 1), v->a);
    return v;
  }
  // ---------- reports -------------
  void report(const State &s, const std::string &kind, const Instruction *I, const std::string &msg, const std::string &key, int line = 0) {
    Report r; r.kind = kind; r.fn = fi.name; r.file = fi.file; r.line = line ? line : lineOf(I); r.msg = msg; r.key = kind + "|" + fi.name + "|" + key;
    if (!O.seen.insert(r.key + std::to_string(r.line)).second) return;
    for (auto t = s.tr; t; t = t->up) { r.path.push_back(std::to_string(t->line)); if (r.path.size() > 40) break; }
    std::reverse(r.path.begin(), r.path.end());
    O.reports.push_back(r);
  }
  static const char *kindName(int k) { static const char *n[] = {"heap memory", "descriptor", "FILE handle", "directory handle", "pooled connection", "transaction", "TLS object", "resource"}; return n[k]; }
  // a null argument the function never asks about is not one it is called with
  bool impossibleArg(const State &s) { for (auto &a : F->args()) if (a.getType()->isPointerTy() && a.getArgNo() < 64 && !(fi.testsNull >> a.getArgNo() & 1) && isNull(s, A.get(ARG, a.getArgNo()))) return true; return false; }
  void leakCheckObj(State &s, S sym, Obj &o, const Instruction *at) {
    S h = sym; while (h->k == PREV) h = h->x;
    if (h->k != HEAP || !h->p || impossibleArg(s)) return;
    auto *I = (const Instruction *)h->p;
    std::string what = "?"; if (auto *CB = dyn_cast<CallBase>(I)) { auto t = P.targets(CB); if (!t.empty()) what = P.fname(t[0]); }
    int line = at ? lineOf(at) : lineOf(I);
    report(s, o.kind == RK_MEM ? "leak" : "resleak", I, std::string(kindName(o.kind)) + " acquired by " + what + "() at " + locOf(I) + " is not released on the path leaving at line " + std::to_string(line), what + (h->a ? "." + std::to_string(h->a) : "") + "@" + std::to_string(lineOf(I)), lineOf(I));
  }
  // a member of an object that outlives the call still refers to memory released in it
  void danglingCheck(State &s, const ReturnInst *R) {
    auto gone = [&](S a) { S r = rootOf(a); for (int d = 0; d < 8; d++) { if (auto *o = s.objs.find(r)) if (o->st == O_FREED) return true; if (r->k == LOAD && r->x) r = rootOf(r->x); else break; } return false; };
    for (auto &[k, o] : s.objs.v) { if (o.st != O_FREED || o.kind == RK_OTHER) continue;
      S at = nullptr;
      for (auto &[a, c] : s.mem.v) if (c.val == k && !localRoot(s, rootOf(a)) && rootOf(a)->k != UNK && rootOf(a)->k != MERGE && !gone(a)) { at = a; break; }
      if (!at && k->k == LOAD && k->x && !s.mem.find(k->x) && (rootOf(k->x)->k == ARG || rootOf(k->x)->k == GLOB || rootOf(k->x)->k == LOAD) && !s.clobAll && !(symKey.count(k) && bget(s.clob, symKey[k])) && !gone(k->x)) { at = k->x; for (S q = rootOf(k->x); q->k == LOAD && q->x; q = rootOf(q->x)) { auto *c = s.mem.find(q->x); if (c ? c->val != q : symKey.count(q) && bget(s.clob, symKey[q])) at = nullptr; } }   // the way there has to be the one it was read through
      if (!at) continue;
      auto *I = (const Instruction *)o.rel; report(s, "dangling", I, "*(" + symStr(at, &P, F) + ") still refers to the memory released at line " + std::to_string(lineOf(I)) + " on the path returning at line " + std::to_string(lineOf(R)), symStr(canon(at), &P, F), lineOf(I)); }
  }
  // ---------- memory -------------
  std::string keyedName(S v, int d = 0) { if (d > 24) return "?"; // a value loaded from memory, named by the members it was reached through
    if (v->k == ARG) return "arg" + std::to_string(v->a);
    if (v->k == GLOB) return "@" + ((const Value *)v->p)->getName().str();
    if (v->k == OFF || v->k == IDX) { auto b = keyedName(v->x, d + 1); return v->k == IDX && b != "?" ? b + "[]" : b; }
    S ad = v->k == LOAD ? v->x : v->k == UNK && path.count(v) ? path[v] : nullptr; if (!ad) return "?";
    std::string b = keyedName(rootOf(ad), d + 1); if (b == "?") return b;
    return b + "->" + (ad->k == IDX ? "[]" : memberName(v, ad)); }
  // members are named after their declarations
  static const DIType *diStrip(const DIType *t) { for (int i = 0; t && i < 12; i++) { auto *d = dyn_cast<DIDerivedType>(t); if (!d || d->getTag() == dwarf::DW_TAG_pointer_type) break; t = d->getBaseType(); } return t; }
  static const DIType *diTarget(const DIType *t) { t = diStrip(t); auto *d = dyn_cast_or_null<DIDerivedType>(t); return d && d->getTag() == dwarf::DW_TAG_pointer_type ? diStrip(d->getBaseType()) : nullptr; }
  static const DIType *diMember(const DIType *t, uint64_t off, std::string &name) { // the scalar member at a byte offset
    t = diStrip(t); auto *c = dyn_cast_or_null<DICompositeType>(t); if (!c) return off == 0 ? t : nullptr;
    if (c->getTag() == dwarf::DW_TAG_array_type) { auto *e = diStrip(c->getBaseType()); uint64_t z = e ? e->getSizeInBits() / 8 : 0; return z ? diMember(e, off % z, name) : nullptr; }
    for (auto *n : c->getElements()) { auto *m = dyn_cast<DIDerivedType>(n); if (!m || m->getTag() != dwarf::DW_TAG_member) continue; uint64_t o = m->getOffsetInBits() / 8, z = m->getSizeInBits() / 8; if (off < o || off >= o + z) continue;
      std::string nm = name; if (!nm.empty()) nm += c->getTag() == dwarf::DW_TAG_union_type ? "|" : "."; nm += m->getName().str(); auto *r = diMember(m->getBaseType(), off - o, nm); if (r) { name = nm; return r; } }
    return nullptr; }
  std::map<S, const DIType *> diMemo;
  const DIType *diOf(S v, int d = 0) { // what v points to
    if (d > 12 || !v) return nullptr; auto it = diMemo.find(v); if (it != diMemo.end()) return it->second; diMemo[v] = nullptr; const DIType *r = nullptr;
    if (v->k == ARG && v->a < (int64_t)F->arg_size() && F->getSubprogram()) {
      auto ta = F->getSubprogram()->getType()->getTypeArray(); if (ta.size() == F->arg_size() + 1) r = diTarget(ta[v->a + 1]);
      if (!isa_and_nonnull<DICompositeType>(r)) { SmallVector<DbgValueInst *, 4> dv; findDbgValues(dv, F->getArg(v->a)); for (auto *x : dv) if (auto *t = diTarget(x->getVariable()->getType())) if (isa<DICompositeType>(t)) { r = t; break; } } }
    else if ((v->k == HEAP || (v->k == UNK && !path.count(v))) && v->p && isa<Instruction>((const Value *)v->p)) { SmallVector<DbgValueInst *, 4> dv; findDbgValues(dv, const_cast<Instruction *>((const Instruction *)v->p)); for (auto *x : dv) if (auto *t = diTarget(x->getVariable()->getType())) if (isa<DICompositeType>(t)) { r = t; break; } }
    else if (v->k == GLOB) { if (auto *g = dyn_cast<GlobalVariable>((const Value *)v->p)) { SmallVector<DIGlobalVariableExpression *, 1> dg; g->getDebugInfo(dg); if (!dg.empty()) r = diStrip(dg[0]->getVariable()->getType()); } }
    else { S ad = v->k == LOAD ? v->x : v->k == UNK && path.count(v) ? path[v] : nullptr; if (ad && ad->k != IDX) { S b = rootOf(ad); if (ad == b || ad->x == b) if (auto *t = diOf(b, d + 1)) { std::string n; uint64_t z = t->getSizeInBits() / 8, o = ad->k == OFF && ad->a > 0 ? ad->a : 0; auto *m = diMember(t, z ? o % z : o, n); r = diTarget(m); } } }
    return diMemo[v] = r; }
  std::string memberName(S v, S ad) { S b = rootOf(ad); int64_t off = ad->k == OFF ? ad->a : 0; if (ad == b || ad->x == b) if (auto *t = diOf(b)) { std::string n; uint64_t z = t->getSizeInBits() / 8; if (isa<DICompositeType>(t) && off >= 0 && z && diMember(t, off % z, n) && !n.empty()) return n; }
    return "@" + std::to_string(off); }
  void retNote(State &s) { // what is released or empty at this return
    std::map<std::string, int> m; auto put = [&](S v, int w) { if (v->k != LOAD && v->k != UNK && v->k != ARG) return; auto n = keyedName(v); if (n.find('?') != std::string::npos || n.find("[]") != std::string::npos) return; auto it = m.find(n); if (it == m.end()) m[n] = w; else it->second = std::min(it->second, w); };
    for (auto &[v, q] : s.objs.v) if (q.st == O_FREED) put(v, 0);
    for (auto &[v, q] : s.given.v) put(v, q - 1);
    for (auto &[v, r] : s.facts.v) if ((r.lo == 0 && r.hi == 0) || r.hi < 0) put(v, 1);
    if (dbg) { fprintf(stderr, "released:"); for (auto &[n, w] : m) fprintf(stderr, " %s=%d", n.c_str(), w); fprintf(stderr, "\n"); }
    if (O.rets.size() < 600) O.rets.push_back(std::move(m)); else O.retsFull = true; }
  void dropNote(State &s) {
    for (auto &[x, o] : s.objs.v) { if (o.st != O_FREED || o.kind != RK_MEM) continue; S rx = x; for (int d = 0; d < 24 && (rx->k == LOAD || rx->k == OFF || rx->k == IDX || (rx->k == UNK && path.count(rx))); d++) rx = rx->k == UNK ? path[rx] : rx->x; if (rx->k != ARG && rx->k != GLOB) continue;
      std::string xn = keyedName(x); if (xn == "?") continue; auto &D = O.drops[xn]; D.n++; if (auto *cb = dyn_cast_or_null<CallBase>((const Instruction *)o.rel)) if (auto *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) if (cf->isDeclaration() || P.fname(cf) == "M_free") D.own = true;
      std::map<std::string, int> st; // 0 released 1 null 2 handed over 3 neither
      auto at = [&](S v) -> S { return v->k == LOAD ? v->x : v->k == UNK && path.count(v) ? path[v] : nullptr; };
      auto put = [&](const std::string &m, int w) { auto it = st.find(m); if (it == st.end()) st[m] = w; else it->second = std::max(it->second == 3 ? 3 : 0, w); };
      auto none = [&](S v) { return isNull(s, v) || rng(s, v).hi < 0; }; // no object, or no descriptor
      auto judge = [&](S v) { if (none(v)) return 1; if (auto *q = s.objs.find(v)) if (q->st == O_FREED) return 0; S cv = v->hasLocal ? canon(v) : v; if (cv) if (auto *g = s.given.find(cv)) return *g - 1; if (s.esc.find(v) || escObj(s, v)) return 2; return 3; };
      std::set<S, SymLess> ad;
      for (auto &[k, c] : s.mem.v) if (rootOf(k) == x && k->k != IDX && c.written) ad.insert(k);
      for (auto &[v, q] : s.objs.v) { S a = at(v); if (a && rootOf(a) == x && a->k != IDX) put(memberName(v, a), judge(v)); 
        int dd = 0; for (S b = a; b && dd++ < 12;) { S r = rootOf(b); if (r == x) break; S a2 = at(r); if (a2 && rootOf(a2) == x) { if (q.st == O_FREED) { bool by = false; S pr = v; for (int e = 0; e < 6 && pr; e++) { S pa = at(pr); pr = pa ? rootOf(pa) : nullptr; if (pr && pr != x) if (auto *qo = s.objs.find(pr)) if (qo->rel == q.rel) by = true; } if (!by) D.deep.insert(memberName(r, a2)); } break; } b = a2; } }
      for (auto &[v, r] : s.facts.v) { S a = at(v); if (a && rootOf(a) == x && a->k != IDX && ((r.lo == 0 && r.hi == 0) || r.hi < 0)) put(memberName(v, a), 1); }
      for (auto &[v, r] : s.esc.v) { S a = at(v); if (a && rootOf(a) == x && a->k != IDX && !s.objs.find(v)) put(memberName(v, a), 2); }
      for (auto &[v, q] : s.given.v) { S a = v->x; if (rootOf(a) == (x->hasLocal ? canon(x) : x) && a->k != IDX) put(memberName(v, a), q - 1); }
      for (auto &[m, w] : st) D.mem[m][w]++; } }
  void touchCheck(State &s, S addr, const Instruction *I, bool &dead, const char *what = "dereference") {
    S r = rootOf(addr); dead = false;
    O.obligations++;
    if (r->k == INT) { if (r->a >= -4096 && r->a < 4096) { nullArg(s, I->getOpcode() == Instruction::Call ? nullptr : getLoadStorePointerOperand(I), locOf(I)); report(s, "nullderef", I, std::string(what) + " of a null pointer", "const", 0); dead = true; } return; }
    if (auto *o = s.objs.find(r)) if (o->st == O_FREED) { report(s, "uaf", I, std::string(what) + " of " + symStr(r, &P, F) + " after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); dead = true; return; }
    if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63);
    if (isNull(s, r)) { if (r->k == ARG) addLatent(s, r, locOf(I)); report(s, "nullderef", I, std::string(what) + " of " + symStr(r, &P, F) + ", which is null on this path", symStr(canon(r), &P, F)); dead = true; return; }
    if (!nonNull(s, r)) { if (fromArgs(r) && r->k != GLOB) addLatent(s, r, locOf(I)); if (!narrow(s, r, Rng::ne(0))) dead = true; }
  }
  void nullArg(State &s, const llvm::Value *v, const std::string &where) { if (!v) return; if (auto *a = dyn_cast<Argument>(getUnderlyingObject(v, 0))) if (a->getParent() == F) addLatent(s, A.get(ARG, a->getArgNo()), where); }   // the argument itself was found to be null
  void addLatent(State &s, S r, const std::string &where) {
    S g = exp(r, nullptr, nullptr); if (!g) return; int c = 0; for (auto &l : O.sum.lat) if (l.ptr == g) { if (l.where == where) return; c++; } if (c >= 4 || (O.sum.lat.size() > 48 && g->k != ARG)) return;
    Latent l; l.ptr = g; l.where = where; l.kind = 0; for (auto &[k, r2] : s.facts.v) { if (k == r) continue; if (!k->hasLocal) { S e = exp(k, nullptr, nullptr); if (e) l.pre.push_back({e, r2}); } if (l.pre.size() > 24) break; }
    O.sum.lat.push_back(l);
  }
  bool localRoot(const State &s, S r) const { return (r->k == ALLOCA || r->k == HEAP || (r->k == PREV && (r->x->k == HEAP || r->x->k == ALLOCA))) && !s.esc.find(r) && !escObj(s, r); }
  bool escObj(const State &s, S r) const { auto *o = s.objs.find(r); return o && o->st == O_ESC; }
  S load(State &s, S addr, int tk, Type *ty, const Instruction *I, int n) {
    if (auto *c = s.mem.find(addr)) return c->val;
    S r = rootOf(addr);
    if (r->k == GLOB) if (auto *gv = dyn_cast<GlobalVariable>((const Value *)r->p)) if (gv->isConstant() && gv->hasDefinitiveInitializer() && ty) {
      int64_t off = 0; bool ok = true; S q = addr; while (q != r) { if (q->k == OFF) { off += q->a; q = q->x; } else { ok = false; break; } }
      if (ok) { std::lock_guard<std::mutex> g(E.cmu); if (Constant *c = ConstantFoldLoadFromConst(const_cast<Constant *>(gv->getInitializer()), ty, APInt(64, off), *P.DL)) { S v = constSym(c); if (v->k != UNK) return v; } }
    }
    if (r->k == HEAP || r->k == ALLOCA) { auto *o = s.objs.find(r); if (o && o->zero && localRoot(s, r)) { bool idx = false; for (S q = addr; q != r; q = q->x) idx |= q->k == IDX; if (!idx || true) { S z = A.num(0); return z; } } 
      if (r->k == ALLOCA && localRoot(s, r)) { bool any = false; for (auto &[k, c] : s.mem.v) if (rootOf(k) == r) { any = true; break; } (void)any; } }
    bool clobbered = s.clobAll || bget(s.clob, tk);
    bool det = !clobbered && !addr->hasLocal && addr->depth < 9;
    if (det) { S v = A.get(LOAD, 0, nullptr, addr); symKey[v] = tk; return v; }
    if (loops(I)) redefine(s, I);
    S v = A.get(UNK, n, I); if (addr->depth < 12) path[v] = addr; symKey[v] = tk;
    if (addr->depth < 14 && r->k != INT) s.mem.set(addr, Cell{v, tk, false});
    return v;
  }
  void escape(State &s, S v, int depth = 0) {
    if (!v || depth > 6 || v->k == INT || v->k == GLOB) return;
    S r = rootOf(v);
    if (r->k == CAST || r->k == BIN || r->k == CMP) return;
    if (r->k == INT || r->k == GLOB || r->k == UNDEF) return;
    if (auto *o = s.objs.find(r)) { if (o->st == O_FREED) return; if (o->st == O_ESC) return; o->st = O_ESC; }
    else if (s.esc.find(r)) return;
    if (r->k == ALLOCA || r->k == ARG || (r->k == LOAD && r->depth < 5)) s.esc.set(r, 1);
    std::vector<S> vs; for (auto &[k, c] : s.mem.v) if (rootOf(k) == r) vs.push_back(c.val);
    for (S x : vs) escape(s, x, depth + 1);
  }
  void killAlias(State &s, S addr) { // variable-offset store: forget overlapping knowledge
    S r = rootOf(addr); bool var = false; for (S q = addr; q != r; q = q->x) var |= q->k == IDX; std::vector<S> lost;
    s.mem.eraseIf([&](S k, Cell &c) { if (k == addr || rootOf(k) != r) return false; bool kv = false; for (S q = k; q != r; q = q->x) kv |= q->k == IDX; if (!var && !kv) return false;
        // array steps below different constant offsets of a struct do not overlap each other
        int64_t ext = 0; auto base = [&](S q) { S last = q; while (q != r) { if (q->k == IDX) { last = q->x; ext = q->a >> 32; } q = q->x; } return last; };
        bool kill; if (var && kv) kill = base(k) == base(addr);
        else { S b = var ? base(addr) : base(k); S o = var ? k : addr; int64_t bo = b == r ? 0 : b->k == OFF ? b->a : -1, oo = o == r ? 0 : (o->k == OFF && o->x == r) ? o->a : -1; kill = bo < 0 || oo < 0 || (oo >= bo && (!ext || oo < bo + ext)); }
        if (kill && c.val->hasLocal) lost.push_back(c.val); return kill; });
    for (S v : lost) escape(s, v);
  }
  void store(State &s, S addr, S v, int tk) {
    S r = rootOf(addr);
    killAlias(s, addr);
    // an object handed to the caller through an out parameter is the caller's, not out of sight
    bool handed = false; if (addr->k == ARG && tk == P.rawKey && v->k == HEAP && !s.esc.find(addr)) if (auto *o = s.objs.find(v)) handed = o->st == O_ALLOC;
    if (!localRoot(s, r) && !handed) escape(s, v);
    if (r->k == INT || addr->depth > 14) return;
    s.mem.set(addr, Cell{v, tk, true});
  }
  // memset: what is known of the bytes set; the rest of the object stays as it was
  void fillRange(State &s, S d, S v, S n) {
    S r = rootOf(d); int64_t b = d == r ? 0 : d->k == OFF && d->x == r ? d->a : -1; bool local = localRoot(s, r), zero = v->k == INT && v->a == 0;
    s.mem.eraseIf([&](S k, Cell &) { if (rootOf(k) != r) return false; int64_t o = k == r ? 0 : k->k == OFF && k->x == r ? k->a : -1; if (local || b < 0 || o < 0 || n->k != INT) return true; return o >= b && o < b + n->a && !zero; });
    if (!local && b >= 0 && n->k == INT && zero) { // members read before still stand for their first value
      std::vector<S> rd; auto see = [&](S q) { if (q && q->k == LOAD && q->x && rootOf(q->x) == r && !s.mem.find(q->x)) { int64_t o = q->x == r ? 0 : q->x->k == OFF && q->x->x == r ? q->x->a : -1; if (o >= b && o < b + n->a) rd.push_back(q); } };
      for (auto &[k, o] : s.objs.v) see(k);
      for (auto &[k, f] : s.facts.v) see(k);
      for (S q : rd) s.mem.set(q->x, Cell{A.num(0), symKey.count(q) ? symKey[q] : P.rawKey, true}); }
    if (!local && b >= 0 && n->k == INT && zero) for (auto &[k, c] : s.mem.v) { if (rootOf(k) != r) continue; int64_t o = k == r ? 0 : k->a; if (o >= b && o < b + n->a) { c.val = A.num(0); c.written = true; } }
  }
  void reachFrom(const State &s, S v, std::set<S, SymLess> &out) {
    S r = rootOf(v); if (r->k == INT || !out.insert(r).second) return;
    for (auto &[k, c] : s.mem.v) if (rootOf(k) == r) reachFrom(s, c.val, out);
  }
  void havocCall(State &s, const std::vector<S> &args, const Bits *mods, bool all) {
    std::set<S, SymLess> reach; for (S a : args) reachFrom(s, a, reach);
    std::vector<S> lost;
    s.mem.eraseIf([&](S k, Cell &c) { S r = rootOf(k); bool loc = localRoot(s, r); if (loc && !reach.count(r)) return false;
        if (!(all || ((c.tk != P.rawKey || reach.count(r) || r->k == ALLOCA) && bget(*mods, c.tk)))) return false;
        if (c.val->hasLocal) lost.push_back(c.val); return true; });
    for (S v : lost) if (auto *o = s.objs.find(rootOf(v))) if (o->st == O_ALLOC) escape(s, v); // the callee may have released or moved it
    for (S r : reach) if (auto *o = s.objs.find(r)) { if (o->zero) o->zero = false; }
    if (all) s.clobAll = true; else bor(s.clob, *mods);
  }
  std::string ownerMember(S ad) { S b = rootOf(ad); if (!(ad == b || ad->x == b) || ad->k == IDX) return ""; auto *t = diOf(b); if (!t || t->getName().empty()) return ""; std::string m = memberName(nullptr, ad); return m[0] == '@' ? "" : t->getName().str() + "." + m; }
  void relNote(State &s, S v, const Instruction *I) { { S ad = v->k == LOAD ? v->x : v->k == UNK && path.count(v) ? path[v] : nullptr; if (ad) { auto n = ownerMember(ad); if (!n.empty()) O.ownRel.insert(n); } } if (v->k == INT || v->k == HEAP || v->k == ALLOCA || v->k == UNDEF || isNull(s, v)) return; std::string n = keyedName(v); O.relPaths.insert({n == "?" || n.find("->") == std::string::npos ? "?" : n, I}); }
  void valNote(State &s, S v, const Instruction *I) { if (v->k == INT || v->k == HEAP || v->k == ALLOCA || isNull(s, v)) return; std::string n = keyedName(v); if (n.find("->") != std::string::npos) O.relPaths.insert({n + "->*", I}); }   // a container destroyed together with its values
  void settle(State &s, S v) { if (v->hasLocal) v = canon(v); if (v && v->k == LOAD && !v->hasLocal && v->depth <= 8 && !s.given.find(v)) s.given.set(v, 2); }
  void give(State &s, S v) { if (!v || v->k == INT || v->k == GLOB || v->k == ALLOCA || v->k == HEAP) return; if (v->hasLocal) v = canon(v); if (!v || v->hasLocal || v->depth > 8 || v->k != LOAD) return; s.given.set(v, 1); }
  void doFree(State &s, S v, const Instruction *I, bool viaCallee, int kind) {
    give(s, v); if (!viaCallee) relNote(s, v, I);
    if (isNull(s, v) || v->k == INT) return;
    S r = v; // freeing an interior pointer is not modelled
    if (v->k == UNDEF) return;
    O.rels.insert(I);
    if (auto *o = s.objs.find(r)) {
      if (o->st == O_FREED) { report(s, "doublefree", I, symStr(r, &P, F) + " is released a second time (first at line " + std::to_string(lineOf((const Instruction *)o->rel)) + ")", symStr(canon(r), &P, F)); return; }
      if (viaCallee) { std::vector<S> vs; for (auto &[k, c] : s.mem.v) if (rootOf(k) == r) vs.push_back(c.val); for (S x : vs) escape(s, x); }
      if (kind == RK_MEM || kind == o->kind) { o->st = O_FREED; o->rel = I; }
      s.mem.eraseIf([&](S k, Cell &) { return rootOf(k) == r && false; });
      return;
    }
    if (r->k == GLOB || r->k == ALLOCA) return;
    if (viaCallee) { std::vector<S> vs; for (auto &[k, c] : s.mem.v) if (rootOf(k) == r) vs.push_back(c.val); for (S x : vs) escape(s, x); }
    if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63);
    Obj o{O_FREED, (uint8_t)kind, false, false, nullptr, I}; s.objs.set(r, o);
  }
  S newObj(State &s, const Instruction *I, int n, int kind, bool zero) {
    if (loops(I)) redefine(s, I);
    S h = A.get(HEAP, n, I); Obj o{O_ALLOC, (uint8_t)kind, zero, false, I, nullptr}; s.objs.set(h, o); (kind == RK_MEM ? O.acqMem : O.acqRes).insert(I);
    if (kind == RK_FD) s.facts.set(h, Rng::of(0, INT32_MAX)); else s.facts.set(h, Rng::of(4096, INT64_MAX));
    return h;
  }
  // ---------- export to summaries -------------
  S exp(S v, std::map<S, S, SymLess> *m, std::function<S(S)> *leaf) {
    if (!v) return nullptr;
    if (m) { auto it = m->find(v); if (it != m->end()) return it->second; }
    S r = nullptr;
    switch (v->k) {
    case INT: case GLOB: case ARG: r = E.G.get(v->k, v->a, v->p); break;
    case LOAD: { S x = exp(v->x, m, leaf); if (x && x->depth < 7) r = E.G.get(LOAD, symKey.count(v) ? symKey[v] : 0, nullptr, x); break; }
    case OFF: { S x = exp(v->x, m, leaf); if (x) r = E.G.get(OFF, v->a, nullptr, x); break; }
    case IDX: { S x = exp(v->x, m, leaf), y = exp(v->y, m, leaf); if (x && y && x->depth < 6) r = E.G.get(IDX, v->a, nullptr, x, y); break; }
    case BIN: case CMP: { S x = exp(v->x, m, leaf), y = exp(v->y, m, leaf); if (x && y && x->depth < 6 && y->depth < 6) r = E.G.get(v->k, v->a, nullptr, x, y); break; }
    case CAST: { S x = exp(v->x, m, leaf); if (x) r = E.G.get(CAST, v->a, nullptr, x); break; }
    default: if (leaf) r = (*leaf)(v); break;
    }
    if (m && r) (*m)[v] = r;
    return r;
  }
  void exitState(State &s, const ReturnInst *R);
  void finish();
  // ---------- calls -------------
  S inst(State &pre, S g, const std::vector<S> &args, const CallBase *CB, std::unordered_map<S, S> &m) {
    if (!g) return nullptr; auto it = m.find(g); if (it != m.end()) return it->second;
    S r = nullptr;
    switch (g->k) {
    case INT: case GLOB: r = A.get(g->k, g->a, g->p); break;
    case ARG: r = (size_t)g->a < args.size() ? args[g->a] : A.get(UNK, 500 + g->a, CB); break;
    case LOAD: { S x = inst(pre, g->x, args, CB, m); S rt = rootOf(x); if (rt->k == INT) { r = A.get(UNK, 900, CB); break; } r = load(pre, x, (int)g->a, nullptr, CB, 1000 + (int)(g->id % 100000)); break; }
    case OFF: r = mkOff(inst(pre, g->x, args, CB, m), g->a); break;
    case IDX: r = A.get(IDX, g->a, nullptr, inst(pre, g->x, args, CB, m), inst(pre, g->y, args, CB, m)); break;
    case BIN: r = mkBin(pre, (unsigned)g->a, inst(pre, g->x, args, CB, m), inst(pre, g->y, args, CB, m), 64); break;
    case CMP: r = mkCmp(pre, (int)g->a, inst(pre, g->x, args, CB, m), inst(pre, g->y, args, CB, m)); break;
    case CAST: r = mkCast(pre, g->a, inst(pre, g->x, args, CB, m)); break;
    case HEAP: r = A.get(HEAP, g->a, CB); break;
    case UNK: r = A.get(UNK, g->a, CB); break;
    default: r = A.get(UNK, 901, CB);
    }
    if (r->depth > 12 && r->k != UNK) r = A.get(UNK, 2000 + (int)(g->id % 100000), CB);
    m[g] = r; return r;
  }
  S mkCast(const State &s, int64_t code, S x) {
    if (x->k == HEAP || x->k == UNDEF) return x;
    x = norm(s, x);
    unsigned op = code >> 8, bits = code & 255;
    if (x->k == INT) { if (op == Instruction::Trunc) { if (bits == 1) return A.num(x->a & 1); if (bits < 64) { int64_t v = x->a << (64 - bits) >> (64 - bits); return A.num(v); } } return x; }
    if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast) return x;
    if (op == Instruction::Trunc && x->k == CAST && (x->a >> 8) != Instruction::Trunc) { Rng q = rng(s, x->x); if (bits == 1 && q.lo >= 0 && q.hi <= 1) return x->x; if (x->x->k != CMP && bits > 1) { S y = x->x; if (q.lo >= 0 && bits > 8 && q.hi < (1ll << (bits - 1))) return y; } }
    if ((op == Instruction::ZExt || op == Instruction::SExt) && x->k == CAST && (x->a >> 8) == Instruction::Trunc) { Rng q = rng(s, x->x); unsigned tb = x->a & 255; if (tb < 63 && q.lo >= 0 && q.hi < (1ll << (tb > 1 ? tb - 1 : 1))) return x->x; }
    return A.get(CAST, code, nullptr, x);
  }
  S mkBin(const State &s, unsigned op, S x, S y, unsigned bits) {
    x = norm(s, x); y = norm(s, y);
    auto wrap = [&](int64_t v) { return bits < 64 && bits > 1 ? (int64_t)((uint64_t)v << (64 - bits)) >> (64 - bits) : bits == 1 ? v & 1 : v; };
    if (x->k == INT && y->k == INT) { int64_t a = x->a, b = y->a; uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
      switch (op) { case Instruction::Add: return A.num(wrap((int64_t)((uint64_t)a + (uint64_t)b))); case Instruction::Sub: return A.num(wrap((int64_t)((uint64_t)a - (uint64_t)b))); case Instruction::Mul: return A.num(wrap((int64_t)((uint64_t)a * (uint64_t)b)));
      case Instruction::And: return A.num(a & b); case Instruction::Or: return A.num(a | b); case Instruction::Xor: return A.num(bits == 1 ? ((a ^ b) & 1) : (a ^ b));
      case Instruction::Shl: if (b >= 0 && b < 64) return A.num(wrap((int64_t)((uint64_t)a << b))); break; case Instruction::LShr: if (b >= 0 && b < 64) return A.num(wrap((int64_t)(((uint64_t)a & m) >> b))); break; case Instruction::AShr: if (b >= 0 && b < 64) return A.num(a >> b); break;
      case Instruction::UDiv: if (b) return A.num(wrap((int64_t)(((uint64_t)a & m) / ((uint64_t)b & m)))); break; case Instruction::URem: if (b) return A.num(wrap((int64_t)(((uint64_t)a & m) % ((uint64_t)b & m)))); break;
      case Instruction::SDiv: if (b && !(a == INT64_MIN && b == -1)) return A.num(a / b); break; case Instruction::SRem: if (b && !(a == INT64_MIN && b == -1)) return A.num(a % b); break; } }
    if (x->k == INT && y->k != INT && (op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) std::swap(x, y);
    if (y->k == INT) {
      if (y->a == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr)) return x;
      if (y->a == 0 && (op == Instruction::And || op == Instruction::Mul)) return y;
      if (op == Instruction::Sub && y->a != INT64_MIN) return mkBin(s, Instruction::Add, x, A.num(-y->a), bits);
      if (op == Instruction::Add && x->k == BIN && x->a == Instruction::Add && x->y->k == INT) return mkBin(s, Instruction::Add, x->x, A.num(wrap((int64_t)((uint64_t)x->y->a + (uint64_t)y->a))), bits);
      if (op == Instruction::And && x->k == BIN && x->a == Instruction::And && x->y->k == INT) return mkBin(s, Instruction::And, x->x, A.num(x->y->a & y->a), bits);
      if (op == Instruction::And && x->k == BIN && x->a == Instruction::Or && x->y->k == INT) { if ((x->y->a & y->a) == 0) return mkBin(s, Instruction::And, x->x, y, bits); if ((x->y->a & y->a) == y->a) return y; }
      if (op == Instruction::And && y->a > 0 && rng(s, x).lo >= 0 && ((y->a + 1) & y->a) == 0 && rng(s, x).hi <= y->a) return x;
    }
    if (op == Instruction::Sub && x == y) return A.num(0);
    return A.get(BIN, op, nullptr, x, y);
  }
  S mkCmp(const State &s, int p, S a, S b) {
    int e = evalCmp(s, p, a, b); if (e >= 0) return A.num(e);
    if (a->k == INT) { std::swap(a, b); p = swapp(p); }
    if (b->k == INT && (p == ICmpInst::ICMP_EQ || p == ICmpInst::ICMP_NE)) {
      // (zext bool) ==/!= 0/1
      S x = a; while (x->k == CAST) x = x->x; Rng q = rng(s, x);
      if (x != a && (x->k == CMP || (q.lo >= 0 && q.hi <= 1)) && (b->a == 0 || b->a == 1)) { bool pos = (p == ICmpInst::ICMP_NE) == (b->a == 0); if (pos && x->k == CMP) return x; if (!pos && x->k == CMP) return A.get(CMP, negp((int)x->a), nullptr, x->x, x->y); return mkCmp(s, pos ? ICmpInst::ICMP_NE : ICmpInst::ICMP_EQ, x, A.num(0)); }
      if (a->k == CMP) { bool pos = (p == ICmpInst::ICMP_NE) == (b->a == 0); return pos ? a : A.get(CMP, negp((int)a->a), nullptr, a->x, a->y); }
    }
    S c = A.get(CMP, p, nullptr, a, b);
    if (auto *f = s.facts.find(c)) if (f->single()) return A.num(f->lo);
    return c;
  }
  void call(State s, const CallBase *CB, std::vector<State> &outs);
  void applySummary(State &s, const CallBase *CB, const Function *C, const Summary &sum, const std::vector<S> &args, std::vector<State> &outs);
  void lockOp(State &s, S lk, int delta, int cls, const Instruction *I, bool onlyPair = false);
  int lockClassOf(const Value *v, S sym);
  bool model(State &s, const CallBase *CB, const std::string &name, const std::vector<S> &args, std::vector<State> &outs);
  void note(State &s, const Instruction *I) {
    // lock set bookkeeping for clients
    O.visited.insert(I);
    std::set<int> held, rel; for (auto &[k, l] : s.locks.v) { if (l.delta > 0) held.insert(l.kind); else if (l.delta < 0) rel.insert(l.kind); }
    auto it = O.mustHeld.find(I);
    if (it == O.mustHeld.end()) { O.mustHeld[I] = held; O.mustReleased[I] = rel; } else { std::set<int> x; for (int c : it->second) if (held.count(c)) x.insert(c); it->second = x; std::set<int> y; for (int c : O.mustReleased[I]) if (rel.count(c)) y.insert(c); O.mustReleased[I] = y; }
    if (isa<LoadInst>(I) || isa<StoreInst>(I)) { const Value *pt = isa<LoadInst>(I) ? cast<LoadInst>(I)->getPointerOperand() : cast<StoreInst>(I)->getPointerOperand(); S r = rootOf(val(s, pt)); if (!localRoot(s, r)) O.shared[I] = 1; }
    O.mayHeld[I].insert(held.begin(), held.end());
  }
  void step(State s, const Instruction *I, std::vector<State> &outs);
  // ---------- driver -------------
  void gc(State &s, int b);
  bool mergeInto(State &E1, const State &I1, int b, bool mid = false);
  std::priority_queue<std::pair<int, int>, std::vector<std::pair<int, int>>, std::greater<>> wl; // (rpo, index in at[])
  std::vector<std::vector<char>> pending; std::set<std::pair<int, int>> dirty;
  void arrive(State s, int from, int to);
  void runBlock(int b, int idx);
  void analyse();
};

void Interp::gc(State &s, int b) {
  // keep only live registers
  if (b >= 0) { const Bits &L = fi.liveIn[b]; for (int i = 0; i < fi.nvals; i++) if (s.regs[i] && !bget(L, i)) s.regs[i] = nullptr; }
  // mark
  std::unordered_set<S> mark; std::vector<S> w;
  std::function<void(S)> add = [&](S v) { if (!v || !v->hasLocal) return; if (!mark.insert(v).second) return; w.push_back(v); add(v->x); add(v->y); };
  for (S r : s.regs) add(r);
  for (auto &[k, l] : s.locks.v) add(k);
  for (auto &[k, o] : s.objs.v) if (o.st == O_ALLOC) add(k);
  // also, objects escaped but still live are found through regs
  bool ch = true; std::vector<char> keep(s.mem.v.size(), 0);
  while (ch) { ch = false;
    for (size_t i = 0; i < s.mem.v.size(); i++) if (!keep[i]) { auto &[k, c] = s.mem.v[i]; S r = rootOf(k);
      bool k1 = !k->hasLocal ? c.written || true : mark.count(r) > 0;
      if (k->hasLocal && k1) { // all local parts of the index must still matter
      }
      if (k1) { keep[i] = 1; ch = true; add(k); add(c.val); } } }
  size_t j = 0; for (size_t i = 0; i < keep.size(); i++) if (keep[i]) s.mem.v[j++] = s.mem.v[i]; s.mem.v.resize(j);
  std::unordered_map<S, bool> dm;
  std::function<bool(S)> alive = [&](S v) -> bool { if (!v || !v->hasLocal) return true; if (mark.count(v)) return true; if (v->k == BIN || v->k == CMP || v->k == CAST || v->k == OFF || v->k == IDX || v->k == LOAD) { return alive(v->x) && alive(v->y); } return false; };
  s.facts.eraseIf([&](S k, Rng &) { return !alive(k); });
  s.objs.eraseIf([&](S k, Obj &o) { return o.st != O_ALLOC && k->hasLocal && !mark.count(k) && !(k->k == LOAD || k->k == ARG); });
  s.esc.eraseIf([&](S k, int) { return k->hasLocal && !mark.count(k); });
}
bool Interp::mergeInto(State &X, const State &Y, int b, bool mid) { // X := X |_| Y ; true if X changed
  State o = X; const BasicBlock *B = fi.rpo[b];
  auto mr = [&](S a, S c, S key, int64_t slot) -> S { if (a == c) return a; S m = A.get(MERGE, slot, B, key); 
    Rng r = Rng::hull(a == m ? rng(X, a) : rng(X, a), rng(Y, c)); 
    if (X.merges > 4 && a == m) { Rng old = rng(o, m); if (r.lo < old.lo) r.lo = INT64_MIN; if (r.hi > old.hi) r.hi = INT64_MAX; }
    if (!r.isTop()) X.facts.set(m, r); else X.facts.erase(m); 
    int ka = symKey.count(a) ? symKey[a] : -1; if (ka >= 0) symKey[m] = ka; return m; };
  SMap<Rng> f; for (auto &[k, r] : o.facts.v) if (auto *q = Y.facts.find(k)) { Rng h = Rng::hull(r, *q); if (X.merges > 6 && h != r) { Rng w = h; if (h.lo < r.lo) w.lo = INT64_MIN; if (h.hi > r.hi) w.hi = INT64_MAX; h = w; } if (!h.isTop()) f.set(k, h); } 
    else { Rng q2 = rng(Y, k); if (!q2.isTop()) { Rng h = Rng::hull(r, q2); if (!h.isTop()) f.set(k, h); } }
  // facts known in Y and structurally known in X are covered by rng()
  SMap<Rng> keep = f; 
  X.facts = o.facts; // rng(X,.) must still see the old facts while computing hulls
  std::vector<std::pair<S, Rng>> mf;
  std::vector<S> nregs = X.regs;
  struct Pair { S a, c, m; }; std::vector<Pair> pairs; std::unordered_set<S> newM;
  auto mr2 = [&](S a, S c, S key, int64_t slot) -> S { if (a == c) return a; S m = A.get(MERGE, slot, B, key); Rng ra = rng(o, a), rc = rng(Y, c); Rng r = Rng::hull(ra, rc);
    if (X.merges > 4 && a == m) { if (r.lo < ra.lo) r.lo = INT64_MIN; if (r.hi > ra.hi) r.hi = INT64_MAX; }
    if (a != m) newM.insert(m); mf.push_back({m, r}); if (symKey.count(a)) symKey[m] = symKey[a]; if (a->k != INT && c->k != INT && a->k != CMP && pairs.size() < 64) pairs.push_back({a, c, m}); return m; };
  (void)mr;
  for (int i = 0; i < fi.nvals; i++) { S a = X.regs[i], c = Y.regs[i]; if (!a || !c) { nregs[i] = a == c ? a : nullptr; continue; } nregs[i] = mr2(a, c, nullptr, i); }
  SMap<Cell> nm; for (auto &[k, c] : o.mem.v) { if (auto *d = Y.mem.find(k)) { Cell e = c; e.written = c.written || d->written; e.val = mr2(c.val, d->val, k, -1); nm.set(k, e); } else if (c.written && !k->hasLocal) { Cell e = c; S other = A.get(UNK, -7, B); (void)other; e.val = A.get(MERGE, -1, B, k); if (c.val == e.val || true) { mf.push_back({e.val, Rng::top()}); } nm.set(k, e); } }
  for (auto &[k, d] : Y.mem.v) if (!o.mem.find(k) && d.written && !k->hasLocal) { Cell e = d; e.val = A.get(MERGE, -1, B, k); mf.push_back({e.val, Rng::top()}); nm.set(k, e); }
  // what is known about the contents of two merged pointers carries over to the merged pointer
  std::function<S(S, S, S)> sub = [&](S k, S a, S m) -> S { if (k == a) return m; if (k->k == OFF) { S x = sub(k->x, a, m); return x ? mkOff(x, k->a) : nullptr; } if (k->k == IDX) { S x = sub(k->x, a, m); return x ? A.get(IDX, k->a, nullptr, x, k->y) : nullptr; } return nullptr; };
  auto peek = [&](const State &st, S addr, int tk) -> S { if (auto *c = st.mem.find(addr)) return c->val; if (!st.clobAll && !bget(st.clob, tk) && !addr->hasLocal && addr->depth < 9) return A.get(LOAD, 0, nullptr, addr); return nullptr; };
  // a value read on one side only is the untouched one on the other
  for (auto &[k, c] : o.mem.v) if (!c.written && !Y.mem.find(k) && !nm.find(k)) if (S y = peek(Y, k, c.tk)) nm.set(k, Cell{mr2(c.val, y, k, -1), c.tk, false});
  for (auto &[k, d] : Y.mem.v) if (!d.written && !o.mem.find(k) && !nm.find(k)) if (S x = peek(o, k, d.tk)) nm.set(k, Cell{mr2(x, d.val, k, -1), d.tk, false});
  for (size_t pi = 0; pi < pairs.size(); pi++) { Pair pr = pairs[pi]; std::vector<std::pair<S, int>> ks;
    auto want = [&](S k, S base, int tk) { if (k == base || ks.size() > 16) return; S q = sub(k, base, pr.m); if (q && q != k && !nm.find(q)) { for (auto &e : ks) if (e.first == q) return; ks.push_back({q, tk}); } else if (q && q == k && base == pr.m) ks.push_back({q, tk}); };
    for (auto &[k, c] : o.mem.v) want(k, pr.a, c.tk);
    for (auto &[k, c] : Y.mem.v) want(k, pr.c, c.tk);
    for (auto &[q, tk] : ks) { S ka = sub(q, pr.m, pr.a), kc = sub(q, pr.m, pr.c); if (!ka || !kc || q->depth >= 12) continue; S va = peek(o, ka, tk), vc = peek(Y, kc, tk); if (!va || !vc) continue; S v = mr2(va, vc, q, -1); nm.set(q, Cell{v, tk, false}); } }
  X.regs = nregs; X.mem = nm; X.facts = keep;
  for (auto &[m, r] : mf) { if (r.isTop()) X.facts.erase(m); else X.facts.set(m, r); }
  // objects: union of escapes; differing statuses are forgotten
  SMap<Obj> no; for (auto &[k, a] : o.objs.v) { if (auto *c = Y.objs.find(k)) { Obj e = a; if (a.st != c->st) { if (a.st == O_ESC || c->st == O_ESC) e.st = O_ESC; else continue; } e.zero = a.zero && c->zero; no.set(k, e); } else if (a.st != O_FREED && a.st != O_ALLOC) no.set(k, a); }
  for (auto &[k, c] : Y.objs.v) if (!o.objs.find(k) && c.st == O_ESC) no.set(k, c);
  // an object whose only references got blurred by the merge is out of sight, not lost
  { std::unordered_set<S> refs; for (S r : nregs) if (r) refs.insert(rootOf(r)); for (auto &[k, c] : nm.v) refs.insert(rootOf(c.val));
    auto had = [&](const State &st, S h) { for (S r : st.regs) if (r && rootOf(r) == h) return true; for (auto &[k, c] : st.mem.v) if (rootOf(c.val) == h) return true; return false; };
    for (auto &[k, e] : no.v) if (e.st == O_ALLOC && !refs.count(k) && (had(o, k) || had(Y, k))) e.st = O_ESC; }
  no.eraseIf([&](S k, Obj &) { return newM.count(k) > 0; }); // the name stands for another value now
  X.objs = no; for (auto &[k, v] : Y.esc.v) X.esc.set(k, v);
  { SMap<int> ng; auto none = [&](const State &q, S k) { if (isNull(q, k) || rng(q, k).hi < 0) return true; return false; };
    for (auto &[k, v] : o.given.v) { auto *w = Y.given.find(k); if (w) ng.set(k, std::min(v, *w)); else if (none(Y, k)) ng.set(k, v); } for (auto &[k, v] : Y.given.v) if (!o.given.find(k) && none(o, k)) ng.set(k, v); X.given = ng; }
  bor(X.clob, Y.clob); X.clobAll |= Y.clobAll;
  gc(X, mid ? -1 : b);
  X.merges++;
  return !X.same(o);
}
void Interp::arrive(State s, int from, int to) {
  const BasicBlock *B = fi.rpo[to], *Pb = from >= 0 ? fi.rpo[from] : nullptr;
  if (Pb) { // phis
    std::vector<std::pair<const PHINode *, S>> vs; for (auto &ph : B->phis()) { vs.push_back({&ph, val(s, ph.getIncomingValueForBlock(Pb))}); }
    for (auto &[ph, v] : vs) s.regs[fi.num[ph]] = v->depth > 14 ? fresh(s, ph, 3) : v;
    if (fi.backEdges.count({from, to})) { const void *bp = B; renameAll(s, [bp](S v) { return v->k == MERGE && v->p == bp; }); }
  }
  gc(s, to);
  { bool any = false; if (fi.canRet[to]) for (auto &[k, o] : s.objs.v) if (o.st == O_ALLOC && o.kind != RK_OTHER) any = true;
    if (any) { // an object nothing refers to any more is lost here, whatever happens later
      std::set<S, SymLess> reach; for (S r : s.regs) if (r) reachFrom(s, r, reach);
      for (auto &[k, c] : s.mem.v) { S r = rootOf(k); if (!localRoot(s, r)) reachFrom(s, c.val, reach); }
      for (auto &[k, o] : s.objs.v) if (o.st == O_ALLOC && o.kind != RK_OTHER && !reach.count(k)) { leakCheckObj(s, k, o, Pb ? Pb->getTerminator() : nullptr); o.st = O_ESC; } } }
  auto &L = at[to];
  for (auto &q : L) if (q.same(s)) return;
  size_t cap = fi.loopHead[to] ? 5 : (size_t)E.K;
  O.states++;
  if (L.size() < cap) { L.push_back(s); wl.push({to, (int)L.size() - 1}); dirty.insert({to, (int)L.size() - 1}); return; }
  // merge with a state of the same property key
  int best = -1, bestScore = INT_MIN; auto zero = [](const Rng &r) { return r.lo == 0 && r.hi == 0; };
  for (size_t i = 0; i < L.size(); i++) { if (!(L[i].locks == s.locks)) continue; if (!(L[i].objs == s.objs)) continue; int sc = 1; for (int r = 0; r < fi.nvals; r++) if (s.regs[r] && L[i].regs[r] == s.regs[r]) sc += 2; if (L[i].mem == s.mem) sc += 10; for (auto &[k, f] : s.facts.v) if (auto *g = L[i].facts.find(k)) { if (*g == f) sc++; else if (zero(f) != zero(*g)) sc -= k->k == ARG ? 12 : 4; } if (sc > bestScore) { bestScore = sc; best = i; } }
  if (best < 0 && L.size() < (fi.loopHead[to] ? 40 : cap * 3)) { L.push_back(s); wl.push({to, (int)L.size() - 1}); dirty.insert({to, (int)L.size() - 1}); return; }
  if (best < 0) for (size_t i = 0; i < L.size(); i++) if (L[i].locks == s.locks) { best = i; break; }
  if (best < 0) { O.truncated = true; return; }
  if (mergeInto(L[best], s, to)) { if (dirty.insert({to, best}).second) wl.push({to, best}); }
}
void Interp::runBlock(int b, int idx) {
  std::vector<State> cur{at[b][idx]};
  const BasicBlock *B = fi.rpo[b];
  for (auto &I : *B) {
    if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
    if (I.isTerminator()) {
      for (auto &s : cur) {
        O.steps++;
        if (auto *R = dyn_cast<ReturnInst>(&I)) { exitState(s, R); continue; }
        if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isUnconditional()) { arrive(s, b, fi.bnum[br->getSuccessor(0)]); continue; }
          S c = val(s, br->getCondition());
          for (int k = 0; k < 2; k++) { State t = s; if (!assume(t, c, k == 0)) continue; auto tr = std::make_shared<Trace>(); tr->up = s.tr; tr->line = lineOf(&I) * (k == 0 ? 1 : -1); tr->n = s.tr ? s.tr->n + 1 : 1; t.tr = tr; arrive(t, b, fi.bnum[br->getSuccessor(k)]); }
          continue;
        }
        if (auto *sw = dyn_cast<SwitchInst>(&I)) {
          S c = norm(s, val(s, sw->getCondition())); State d = s; bool dok = true;
          for (auto &cs : sw->cases()) { State t = s; int64_t cv = cs.getCaseValue()->getSExtValue(); if (narrow(t, c, Rng::one(cv))) { auto tr = std::make_shared<Trace>(); tr->up = s.tr; tr->line = lineOf(&I); tr->n = 0; t.tr = tr; arrive(t, b, fi.bnum[cs.getCaseSuccessor()]); } if (dok && !narrow(d, c, Rng::ne(cv))) dok = false; }
          if (dok) arrive(d, b, fi.bnum[sw->getDefaultDest()]);
          continue;
        }
        // unreachable etc.
      }
      return;
    }
    std::vector<State> nxt;
    for (auto &s : cur) { O.steps++; step(std::move(s), &I, nxt); }
    if (nxt.size() > 8) { // drop duplicates, bound the fan-out
      std::vector<State> u; for (auto &s : nxt) { bool dup = false; for (auto &q : u) if (q.same(s)) { dup = true; break; } if (!dup) u.push_back(std::move(s)); }
      size_t cap = 40; if (u.size() > cap) { std::vector<State> v; for (auto &s : u) { if (v.size() < cap) { v.push_back(std::move(s)); continue; } bool ok = false; for (auto &q : v) if (q.locks == s.locks && q.objs == s.objs) { State q2 = q; 
            // merge in place without liveness filtering
            mergeInto(q, s, b, true); ok = true; break; } if (!ok) for (auto &q : v) if (q.locks == s.locks) { mergeInto(q, s, b, true); ok = true; break; } if (!ok) O.truncated = true; } u.swap(v); }
      nxt.swap(u);
    }
    cur.swap(nxt);
    if (cur.empty()) return;
  }
}
void Interp::step(State s, const Instruction *I, std::vector<State> &outs) {
  bool dead = false;
  if (auto *al = dyn_cast<AllocaInst>(I)) { setv(s, I, A.get(ALLOCA, 0, al)); outs.push_back(std::move(s)); return; }
  if (auto *L = dyn_cast<LoadInst>(I)) {
    S a = val(s, L->getPointerOperand()); note(s, I); touchCheck(s, a, I, dead); if (dead) return;
    S v = load(s, a, P.addrKey(L->getPointerOperand()), L->getType(), I, 0);
    unsigned bw = L->getType()->isIntegerTy() ? L->getType()->getIntegerBitWidth() : 0; (void)bw;
    setv(s, I, v); outs.push_back(std::move(s)); return;
  }
  if (auto *st = dyn_cast<StoreInst>(I)) {
    S a = val(s, st->getPointerOperand()), v = val(s, st->getValueOperand()); note(s, I); touchCheck(s, a, I, dead, "write through"); if (dead) return;
    store(s, a, v, P.addrKey(st->getPointerOperand())); outs.push_back(std::move(s)); return;
  }
  if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
    S b = val(s, G->getPointerOperand()); b = norm(s, b);
    Type *holder = nullptr, *next = nullptr;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) { holder = next; next = it.getIndexedType();
      if (StructType *sty = it.getStructTypeOrNull()) { b = mkOff(b, (int64_t)P.DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue())); }
      else { int64_t sz = (int64_t)P.DL->getTypeAllocSize(it.getIndexedType()).getFixedValue(); S ix = norm(s, val(s, it.getOperand())); while (ix->k == CAST && (ix->a >> 8) != Instruction::Trunc) ix = ix->x; if (ix->k == INT) b = mkOff(b, ix->a * sz); else { int64_t ext = 0; if (auto *at = dyn_cast_or_null<ArrayType>(holder)) ext = (int64_t)at->getNumElements() * sz; b = A.get(IDX, sz | (ext > 0 && ext < (1ll << 30) ? ext << 32 : 0), nullptr, b, ix); } }
    }
    if (b->depth > 14) b = fresh(s, I, 5);
    setv(s, I, b); outs.push_back(std::move(s)); return;
  }
  if (auto *c = dyn_cast<ICmpInst>(I)) { S v = mkCmp(s, c->getPredicate(), norm(s, val(s, c->getOperand(0))), norm(s, val(s, c->getOperand(1)))); if (v->depth > 14) v = fresh(s, I); setv(s, I, v); outs.push_back(std::move(s)); return; }
  if (auto *b = dyn_cast<BinaryOperator>(I)) { unsigned bits = b->getType()->isIntegerTy() ? b->getType()->getIntegerBitWidth() : 65; S v; if (bits <= 64) v = mkBin(s, b->getOpcode(), val(s, b->getOperand(0)), val(s, b->getOperand(1)), bits); else v = nullptr; if (!v || v->depth > 14) v = fresh(s, I); setv(s, I, v); outs.push_back(std::move(s)); return; }
  if (auto *c = dyn_cast<CastInst>(I)) { S x = val(s, c->getOperand(0)); if (c->getType()->isFloatingPointTy() || c->getOperand(0)->getType()->isFloatingPointTy()) { setv(s, I, fresh(s, I)); outs.push_back(std::move(s)); return; }
    unsigned bits = c->getType()->isIntegerTy() ? c->getType()->getIntegerBitWidth() : 64; S v = mkCast(s, (int64_t)c->getOpcode() << 8 | std::min(bits, 255u), x);
    // zero extension of a narrow unknown gives a bounded value
    if (c->getOpcode() == Instruction::ZExt && v->k == CAST) { unsigned sb = c->getOperand(0)->getType()->getIntegerBitWidth(); if (sb < 63 && !s.facts.find(v)) s.facts.set(v, Rng::of(0, (1ll << sb) - 1)); if (auto *f = s.facts.find(v)) { Rng q = rng(s, v->x); if (q.lo >= 0) { Rng m = *f; m.meet(q); if (!m.empty()) s.facts.set(v, m); } else if (!q.has(0)) { Rng m = *f; m.exclude(0); if (!m.empty()) s.facts.set(v, m); } } }
    if (v->depth > 14) v = fresh(s, I); setv(s, I, v); outs.push_back(std::move(s)); return; }
  if (auto *se = dyn_cast<SelectInst>(I)) {
    S c = val(s, se->getCondition()); for (int k = 0; k < 2; k++) { State t = s; if (!assume(t, c, k == 0)) continue; setv(t, I, val(t, se->getOperand(k == 0 ? 1 : 2))); outs.push_back(std::move(t)); }
    return; }
  if (auto *fr = dyn_cast<FreezeInst>(I)) { setv(s, I, val(s, fr->getOperand(0))); outs.push_back(std::move(s)); return; }
  if (auto *rm = dyn_cast<AtomicRMWInst>(I)) { S a = val(s, rm->getPointerOperand()); note(s, I); touchCheck(s, a, I, dead); if (dead) return; S v = fresh(s, I); store(s, a, A.get(UNK, 9, I), P.addrKey(rm->getPointerOperand())); setv(s, I, v); outs.push_back(std::move(s)); return; }
  if (auto *cx = dyn_cast<AtomicCmpXchgInst>(I)) { S a = val(s, cx->getPointerOperand()); note(s, I); touchCheck(s, a, I, dead); if (dead) return; S v = fresh(s, I); store(s, a, A.get(UNK, 9, I), P.addrKey(cx->getPointerOperand())); setv(s, I, v); outs.push_back(std::move(s)); return; }
  if (auto *CB = dyn_cast<CallBase>(I)) { note(s, I); call(std::move(s), CB, outs); return; }
  if (!I->getType()->isVoidTy()) setv(s, I, fresh(s, I));
  outs.push_back(std::move(s));
}
int Interp::lockClassOf(const Value *v, S sym) {
  v = v->stripPointerCasts();
  std::string n;
  int key = -1;
  if (auto *L = dyn_cast<LoadInst>(v)) key = P.addrKey(L->getPointerOperand());
  if (key <= 0) { auto it = symKey.find(sym); if (it != symKey.end()) key = it->second; }
  if (key > 0) { auto f = P.keyField[key]; n = f.first ? P.fieldName(f.first, f.second) : P.keyName[key]; }
  else if (auto *g = dyn_cast<GlobalVariable>(v)) n = "@" + g->getName().str();
  else { int k = P.addrKey(v); if (k > 0) { auto f = P.keyField[k]; n = f.first ? P.fieldName(f.first, f.second) : P.keyName[k]; } else if (isa<Argument>(v)) n = "param:" + fi.name; else n = "local:" + fi.name; }
  return E.classId(n);
}
// onlyPair: the lock's holder is null here, so there is nothing to release unless the holder was looked up again since the lock was taken
void Interp::lockOp(State &s, S lk, int delta, int cls, const Instruction *I, bool onlyPair) {
  S c = canon(lk);
  if (c->k == INT && !onlyPair) return;
  if (delta > 0) O.acquires.push_back({F, I, cls});
  if (auto *l = onlyPair ? nullptr : s.locks.find(c)) {
    if (delta > 0 && l->delta > 0 && !isRecursiveLock(E.lockClass[cls])) report(s, "doublelock", I, "lock " + E.lockClass[cls] + " is taken again while already held (taken at line " + std::to_string(lineOf((const Instruction *)l->site)) + ")", E.lockClass[cls]);
    if (delta < 0 && l->delta < 0) report(s, "doubleunlock", I, "lock " + E.lockClass[cls] + " is released again after having been released at line " + std::to_string(lineOf((const Instruction *)l->site)), E.lockClass[cls]);
    int nd = l->delta + delta; if (nd == 0) s.locks.erase(c); else { Lock q = *l; q.delta = nd; if (delta > 0) q.site = I; s.locks.set(c, q); }
  } else {
    // the lock may have been reached through an expression that an intervening call invalidated: pair it with a held lock of the same kind
    if (delta != 0) for (auto &[k, l] : s.locks.v) if (l.kind == cls && (delta < 0 ? l.delta > 0 : l.delta < 0) && (delta < 0 || l.site != I)) { S k2 = k; Lock q = l; q.delta += delta > 0 ? 1 : -1; int rest = delta + (delta > 0 ? -1 : 1); if (q.delta == 0) s.locks.erase(k2); else s.locks.set(k2, q); if (rest) s.locks.set(c, Lock{rest, cls, I}); return; }
    if (!onlyPair) s.locks.set(c, Lock{delta, cls, I}); }
}
void Interp::applySummary(State &s0, const CallBase *CB, const Function *C, const Summary &sum, const std::vector<S> &args, std::vector<State> &outs) {
  const FnInfo *ci = P.info(C);
  if (loops(CB)) redefine(s0, CB);
  // objects released earlier must not be handed to a callee that uses them
  for (size_t i = 0; i < args.size() && i < 63; i++) if (sum.touched >> i & 1) {
    S r = rootOf(args[i]); if (auto *o = s0.objs.find(r)) if (o->st == O_FREED) { report(s0, "uaf", CB, symStr(r, &P, F) + " is passed to " + ci->name + "() after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); return; }
    if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63);
  }
  for (auto &l : sum.lat) {
    State pre = s0; std::unordered_map<S, S> m; S p = inst(pre, l.ptr, args, CB, m); S r = rootOf(p);
    if (l.ptr->k == LOAD) { S b = rootOf(l.ptr->x); if (b->k == ARG && (size_t)b->a < args.size() && isNull(s0, args[b->a])) continue; }
    bool nul = (r->k == INT && r->a >= -4096 && r->a < 4096) || isNull(s0, r);
    if (!nul && nonNull(s0, r)) continue;
    bool feas = true; for (auto &q : l.pre) { S e = inst(pre, q.e, args, CB, m); if (!narrow(pre, e, q.r)) { feas = false; break; } }
    if (!feas) continue;
    if (nul && r->k == ARG) { if (l.where.size() < 160) addLatent(pre, r, l.where + "<" + fi.name + ":" + std::to_string(lineOf(CB))); }
    else if (nul && l.ptr->k == ARG && l.ptr->a < (int64_t)CB->arg_size() && l.where.size() < 160) nullArg(pre, CB->getArgOperand(l.ptr->a), l.where + "<" + fi.name + ":" + std::to_string(lineOf(CB)));
    if (nul) report(s0, "nullderef", CB, symStr(l.ptr, &P, C) + " of " + ci->name + "() is null here and is dereferenced at " + l.where, ci->name + ":" + symStr(l.ptr, &P, C));
    else if (fromArgs(r) && r->k != GLOB && l.where.size() < 160) addLatent(pre, r, l.where + "<" + fi.name + ":" + std::to_string(lineOf(CB)));
  }
  // what a destructor does with its object is judged where the destructor is defined
  bool dtor = isDtorName(ci->name);
  for (auto &c : sum.cases) {
    State pre = s0; std::unordered_map<S, S> m; bool ok = true;
    for (auto &q : c.pre) { S e = inst(pre, q.e, args, CB, m); if (!narrow(pre, e, q.r)) { ok = false; break; } }
    if (!ok) continue;
    // evaluate everything against the state before the call
    S ret = c.ret ? inst(pre, c.ret, args, CB, m) : nullptr;
    std::vector<std::pair<S, Cell>> wr; for (auto &[a, cell] : c.writes) { Cell d = cell; d.val = inst(pre, cell.val, args, CB, m); wr.push_back({inst(pre, a, args, CB, m), d}); }
    std::vector<std::pair<S, int>> fr; for (auto &[e, k] : c.frees) fr.push_back({inst(pre, e, args, CB, m), k});
    std::vector<S> es; for (S e : c.escs) if (!(e->k == ARG && e->a < 64 && (ci->constChar & ~sum.kept) >> e->a & 1)) es.push_back(inst(pre, e, args, CB, m));
    std::vector<std::pair<S, Lock>> lk; for (auto &[e, l] : c.locks) lk.push_back({inst(pre, e, args, CB, m), l});
    State t = std::move(pre);
    for (S e : es) escape(t, e);
    for (auto &[e, k] : fr) if (t.objs.find(e) ? t.objs.find(e)->st != O_FREED : e->k != INT) { std::vector<S> vs; for (auto &[k2, c2] : t.mem.v) if (rootOf(k2) == e) vs.push_back(c2.val); for (S x : vs) escape(t, x); }
    havocCall(t, args, &c.clob, c.clobAll);
    for (auto &f : c.fresh) { bool keeps = ci->retConst && c.ret && c.ret->k == HEAP && c.ret->a == f.n; if (!f.esc && !keeps) (f.kind == RK_MEM ? O.acqMem : O.acqRes).insert(CB); S h = A.get(HEAP, f.n, CB); t.objs.set(h, Obj{f.esc || keeps || ci->scc == fi.scc ? O_ESC : O_ALLOC, f.kind, f.zero, false, CB, nullptr}); t.facts.set(h, f.kind == RK_FD ? Rng::of(0, INT32_MAX) : Rng::of(4096, INT64_MAX)); }
    for (auto &q : c.opq) { S u = inst(t, q.e, args, CB, m); if (!narrow(t, u, q.r)) { ok = false; break; } }
    if (!ok) continue;
    for (S e : es) escape(t, e);
    // a caller that does not look at the outcome knows that the argument is taken over
    if (CB->use_empty()) for (auto &c2 : sum.cases) { if (&c2 == &c) continue; auto take = [&](S e) { if (e->k == ARG && (size_t)e->a < args.size()) { S r = rootOf(args[e->a]); if (auto *o = t.objs.find(r)) if (o->st == O_ALLOC) escape(t, args[e->a]); } }; for (S e : c2.escs) if (!(e->k == ARG && e->a < 64 && (ci->constChar & ~sum.kept) >> e->a & 1)) take(e); for (auto &[e, k] : c2.frees) take(e); }
    for (auto &[e, k] : fr) if (!(rootOf(e) != e && false)) doFree(t, e, CB, true, k);
    for (size_t i = 0; i < args.size() && i < 64; i++) if ((sum.mayFree >> i & 1) || (i == 0 && isReleaseName(ci->name))) { give(t, args[i]); if (!isPauseName(ci->name)) relNote(t, args[i], CB); if (i == 0 && args.size() == 2 && args[1]->k == INT && args[1]->a == 1 && F != C) valNote(t, args[0], CB); }
    for (auto &[e, w] : c.given) { S k = inst(s0, e, args, CB, m); if (w == 1) give(t, k); else settle(t, k); }
    for (auto &[a, cell] : wr) { S r = rootOf(a); if (r->k == INT) continue; store(t, a, cell.val, cell.tk); }
    for (auto &[e, l] : lk) lockOp(t, e, l.delta, l.kind, CB);
    for (size_t i = 0; i < args.size() && i < 64; i++) if ((ci->constChar & ~sum.kept) >> i & 1) if (auto *o0 = s0.objs.find(args[i])) if (o0->st == O_ALLOC) if (auto *o = t.objs.find(args[i])) if (o->st == O_ESC) o->st = O_ALLOC;
    if (ret && ret->k == HEAP && ci->name.rfind("M_str_explode", 0) == 0) for (auto &[a, cell] : wr) if (cell.val->k == UNK) narrow(t, cell.val, Rng::of(1, INT64_MAX)); // a split always has a part
    if (dtor) for (size_t i = 0; i < args.size(); i++) { S x = args[i]; if (i < 64 && (ci->constChar & ~sum.kept) >> i & 1) continue; S r = rootOf(x); if (auto *o = t.objs.find(r)) if (o->st == O_ALLOC) escape(t, x); }
    if (!c.keeps.empty()) { auto *ho = ret && ret->k == HEAP ? t.objs.find(ret) : nullptr; int n = 0; for (S e : c.keeps) { S v = inst(s0, e, args, CB, m); if (ho && ho->st == O_ALLOC) store(t, mkOff(ret, (1 << 20) + 8 * n++), v, P.rawKey); else escape(t, v); } }
    if (!CB->getType()->isVoidTy()) setv(t, CB, ret ? ret : A.get(UNK, 0, CB));
    outs.push_back(std::move(t));
  }
}
void Interp::call(State s, const CallBase *CB, std::vector<State> &outs) {
  if (isa<DbgInfoIntrinsic>(CB)) { outs.push_back(std::move(s)); return; }
  if (dbg) { static const bool tell = getenv("MSTANA_TELL") != nullptr; if (tell) { fprintf(stderr, "at %d:", lineOf(CB)); for (auto &[k, o] : s.objs.v) fprintf(stderr, " %s/%d", symStr(k, &P, F).c_str(), o.st); fprintf(stderr, "\n"); } }
  static const char *skip = getenv("MSTANA_SKIP"); // development aid: the effect of leaving a call out ("function:line")
  if (skip && fi.name + ":" + std::to_string(lineOf(CB)) == skip) { if (!CB->getType()->isVoidTy()) setv(s, CB, fresh(s, CB)); outs.push_back(std::move(s)); return; }
  std::vector<S> args; for (auto &a : CB->args()) args.push_back(val(s, a.get()));
  if (auto *mi = dyn_cast<MemIntrinsic>(CB)) {
    bool dead; S d = args[0]; touchCheck(s, d, CB, dead, "write through"); if (dead) return; 
    S r = rootOf(d);
    if (isa<MemSetInst>(mi)) { bool whole = d == r; S v = norm(s, args[1]); fillRange(s, d, v, norm(s, args[2])); if (whole && v->k == INT && v->a == 0 && localRoot(s, r)) { if (auto *o = s.objs.find(r)) o->zero = true; else s.objs.set(r, Obj{O_ESC, RK_MEM, true, false, nullptr, nullptr}); if (r->k == ALLOCA) { auto *o = s.objs.find(r); o->st = O_FREED; s.objs.erase(r); s.objs.set(r, Obj{O_ALLOC, RK_OTHER, true, false, nullptr, nullptr}); } } else if (auto *o = s.objs.find(r)) o->zero = false; }
    else { S q = args[1]; touchCheck(s, q, CB, dead); if (dead) return; S rq = rootOf(q); int64_t doff = d == r ? 0 : d->k == OFF && d->x == r ? d->a : -1, qoff = q == rq ? 0 : q->k == OFF && q->x == rq ? q->a : -1;
      std::vector<std::pair<S, Cell>> cp; S n = norm(s, args[2]);
      if (doff >= 0 && qoff >= 0 && n->k == INT) for (auto &[k, c] : s.mem.v) { S rk = rootOf(k); if (rk != rq) continue; int64_t o = k == rk ? 0 : k->k == OFF && k->x == rk ? k->a : -1; if (o >= qoff && o < qoff + n->a) { Cell e = c; e.written = true; cp.push_back({mkOff(r, doff + o - qoff), e}); } }
      s.mem.eraseIf([&](S k, Cell &) { S rk = rootOf(k); if (rk != r) return false; int64_t o = k == rk ? 0 : k->k == OFF && k->x == rk ? k->a : -1; if (doff < 0 || o < 0 || n->k != INT) return true; return o >= doff && o < doff + n->a; });
      bool srcZero = false; if (auto *o = s.objs.find(rq)) srcZero = o->zero; if (auto *o = s.objs.find(r)) o->zero = o->zero && srcZero;
      for (auto &[k, c] : cp) store(s, k, c.val, c.tk); }
    if (!localRoot(s, r)) { int k = P.addrKey(mi->getRawDest()); bset(s.clob, k); }
    outs.push_back(std::move(s)); return;
  }
  if (auto *ii = dyn_cast<IntrinsicInst>(CB)) { if (!CB->getType()->isVoidTy()) setv(s, CB, fresh(s, CB)); (void)ii; outs.push_back(std::move(s)); return; }
  auto tg = P.targets(CB);
  bool direct = CB->getCalledFunction() || isa<Function>(CB->getCalledOperand()->stripPointerCasts());
  if (direct && !tg.empty()) {
    const Function *C = tg[0]; std::string name = P.fname(C);
    if (CB->doesNotReturn() || C->doesNotReturn()) return;
    if (model(s, CB, name, args, outs)) return;
    if (!C->isDeclaration()) {
      if (auto *sum = E.sumOf(C)) { if (sum->noreturn) return; applySummary(s, CB, C, *sum, args, outs);
        if (name == "M_io_layer_get_handle") { // a layer always has the handle it was added with
          std::vector<State> keep; for (auto &t : outs) { bool ok = true; S h = val(t, CB); if (rng(t, norm(t, args[0])).has(0) == false) ok = narrow(t, h, Rng::ne(0)); if (ok) keep.push_back(std::move(t)); } outs = std::move(keep); }
        return; }
      // recursive or not yet analysed: forget what it may write
      if (loops(CB)) redefine(s, CB);
      if (!args.empty() && isReleaseName(name)) { give(s, args[0]); relNote(s, args[0], CB); if (args.size() == 2 && args[1]->k == INT && args[1]->a == 1) valNote(s, args[0], CB); }
      for (S a : args) escape(s, a);
      const FnInfo *ci = P.info(C); havocCall(s, args, &ci->mods, false); if (!CB->getType()->isVoidTy()) setv(s, CB, A.get(UNK, 0, CB)); outs.push_back(std::move(s)); return;
    }
    // unmodelled external function
    if (loops(CB)) redefine(s, CB);
    bool retains = !extNoRetain(name); if (!args.empty() && isReleaseName(name)) { give(s, args[0]); relNote(s, args[0], CB); }
    for (size_t i = 0; i < args.size(); i++) { if (CB->getArgOperand(i)->getType()->isPointerTy()) { S r = rootOf(args[i]); if (auto *o = s.objs.find(r)) if (o->st == O_FREED) { report(s, "uaf", CB, symStr(r, &P, F) + " is passed to " + name + "() after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); return; } if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63); }
      if (retains) escape(s, args[i]); 
      if (extDerefs(name, i)) { bool dead; touchCheck(s, args[i], CB, dead, (name + "() call with").c_str()); if (dead) return; } }
    if (!extPure(name)) { Bits b; bset(b, P.rawKey); std::set<S, SymLess> reach; for (auto a : args) { S r = rootOf(a); if (r->k != INT) reach.insert(r); } 
      s.mem.eraseIf([&](S k, Cell &c) { S r = rootOf(k); return reach.count(r) && (r->k == ALLOCA || r->k == HEAP || c.tk == P.rawKey); }); for (S r : reach) if (auto *o = s.objs.find(r)) o->zero = false; bor(s.clob, b); }
    S rv = A.get(UNK, 0, CB); if (!CB->getType()->isVoidTy()) { setv(s, CB, rv); }
    outs.push_back(std::move(s)); return;
  }
  // indirect call
  S fp = val(s, CB->getCalledOperand()); bool dead; if (rng(s, norm(s, fp)).has(0)) O.unguarded.insert(CB); touchCheck(s, fp, CB, dead, "call through"); if (dead) return;
  if (loops(CB)) redefine(s, CB);
  if (fp->k == GLOB && isa<Function>((const Value *)fp->p) && fi.callees.count(cast<Function>((const Value *)fp->p))) { auto *C = cast<Function>((const Value *)fp->p); if (auto *sum = E.sumOf(C)) { if (!sum->noreturn) applySummary(s, CB, C, *sum, args, outs); return; } }
  for (S a : args) { S r = rootOf(a); if (auto *o = s.objs.find(r)) if (o->st == O_FREED && a->k != INT) { report(s, "uaf", CB, symStr(r, &P, F) + " is passed to a callback after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); return; } if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63); }
  // an argument stays the caller's when no function the pointer may hold keeps or releases it
  { uint64_t taken = tg.empty() ? ~0ull : 0; for (auto *t : tg) { auto *sum = t->isDeclaration() ? nullptr : E.sumOf(t); if (!sum || sum->truncated || t->arg_size() != args.size()) { taken = ~0ull; break; }
      auto use = [&](S e) { S r = rootOf(e); while (r->k == LOAD) r = rootOf(r->x); if (r->k == ARG) taken |= 1ull << std::min<int64_t>(r->a, 63); };
      for (auto &c : sum->cases) { for (S e : c.escs) use(e); for (S e : c.keeps) use(e); for (auto &[e, k] : c.frees) use(e); for (auto &[k, cell] : c.writes) use(cell.val); if (c.ret) use(c.ret); } }
    for (size_t i = 0; i < args.size(); i++) if (taken >> std::min<size_t>(i, 63) & 1) escape(s, args[i]); }
  for (size_t i = 0; i < args.size() && i < 64; i++) { bool f = false; for (auto *t : tg) if (!t->isDeclaration()) { if (auto *sum = E.sumOf(t)) f |= sum->mayFree >> i & 1; f |= i == 0 && isReleaseName(P.fname(t)); } if (f) { give(s, args[i]); relNote(s, args[i], CB); } }
  Bits b; bset(b, P.rawKey); bool all = tg.empty(); for (auto *t : tg) if (auto *ti = P.info(t)) bor(b, ti->mods); else {}
  havocCall(s, args, &b, all);
  if (!CB->getType()->isVoidTy()) setv(s, CB, A.get(UNK, 0, CB));
  outs.push_back(std::move(s));
}
void Interp::exitState(State &s, const ReturnInst *R) {
  S rv = R->getReturnValue() ? val(s, R->getReturnValue()) : nullptr; if (rv) rv = norm(s, rv);
  // ownership: everything reachable from the result or from memory visible outside is handed over
  std::set<S, SymLess> reach; if (rv) reachFrom(s, rv, reach);
  for (auto &[k, c] : s.mem.v) { S r = rootOf(k); if (!localRoot(s, r)) reachFrom(s, c.val, reach); }
  for (auto &[k, o] : s.objs.v) if (o.st == O_ALLOC && !reach.count(k) && o.kind != RK_OTHER) { Obj oo = o; leakCheckObj(s, k, oo, R); }
  if (dbg) { fprintf(stderr, "exit rv=%s objs:", rv ? symStr(rv, &P, F).c_str() : "-"); for (auto &[k, o] : s.objs.v) fprintf(stderr, " %s/%d", symStr(k, &P, F).c_str(), o.st); fprintf(stderr, "\n"); }
  danglingCheck(s, R); dropNote(s); retNote(s);
  O.exits.push_back(s); O.exitAt.push_back(R);
  if (rv && rootOf(rv)->k == HEAP) { S rr = rootOf(rv); for (auto &[k, c] : s.mem.v) if (rootOf(k) == rr && E.slotKeys.count(c.tk)) { int &z = O.slotInit[c.tk]; int w = rng(s, norm(s, c.val)).has(0) ? 2 : 1; if (w > z) z = w; } }
  { std::map<int, std::pair<int, int>> net; for (auto &[k, l] : s.locks.v) if (l.delta) { auto &q = net[l.kind]; q.first += l.delta; q.second = lineOf((const Instruction *)l.site); }
    for (auto &[k, q] : net) if (q.first) O.lockExits.insert({k, q.first, q.second, s.tr ? std::abs(s.tr->line) : lineOf(R)}); }
  for (auto &[k, c] : s.mem.v) if (c.written) { S h = rootOf(c.val); if (h->k == HEAP && h == c.val) if (auto *o = s.objs.find(h)) if (o->st == O_ALLOC || o->st == O_ESC) { auto n = ownerMember(k); if (!n.empty()) O.ownSt.insert({n, (const Instruction *)h->p}); } }
  // summary case
  const bool odd = impossibleArg(s); Case c; std::map<S, S, SymLess> m; int nf = 0, no = 0; std::vector<Pre> opq;
  std::function<S(S)> leaf = [&](S v) -> S {
    if (v->k == HEAP || (v->k == PREV && v->x->k == HEAP)) { auto *o = s.objs.find(v); if (o && (o->st == O_ALLOC || o->st == O_ESC) && reach.count(v) && o->kind != RK_OTHER) { S g = E.G.get(HEAP, nf, nullptr); c.fresh.push_back({nf, o->kind, false, o->st == O_ESC || odd}); nf++; return g; } }
    S g = E.G.get(UNK, no++, nullptr); Rng r = rng(s, v); if (!r.isTop()) c.opq.push_back({g, r}); return g; };
  if (rv) { Rng rr = rng(s, rv);
    c.ret = exp(rv, &m, &leaf); if (!c.ret) { S g = E.G.get(UNK, no++, nullptr); if (!rr.isTop()) c.opq.push_back({g, rr}); c.ret = g; }
    else if (c.ret->k != INT && c.ret->k != HEAP && c.ret->k != UNK && c.ret->k != ARG && c.ret->k != LOAD && c.ret->k != GLOB && c.ret->k != OFF) { // keep simple derived values, otherwise an opaque value with its range
      S g = E.G.get(UNK, no++, nullptr); if (c.ret->k == CMP || c.ret->k == CAST || c.ret->k == BIN) { if (c.ret->depth > 4) { if (!rr.isTop()) c.opq.push_back({g, rr}); c.ret = g; } } } }
  for (auto &[k, cell] : s.mem.v) if (cell.written && !k->hasLocal && c.writes.size() < 24) {
    // memory that becomes part of an existing structure belongs to that structure from then on
    if (cell.tk != P.rawKey || k->k == IDX) { S v = cell.val; S r0 = rootOf(v); bool own = false; S h = r0; while (h->k == PREV) h = h->x; own = h->k == HEAP; if (own && v != rv) { S a2 = exp(k, nullptr, nullptr); if (!a2 || a2->depth > 6) continue; S e = E.G.get(UNK, no++, nullptr); Rng r = rng(s, v); if (!r.isTop()) c.opq.push_back({e, r}); c.writes.push_back({a2, Cell{e, cell.tk, true}}); continue; } } S a = exp(k, nullptr, nullptr); if (!a || a->depth > 6) continue; S v = cell.val; if (v->k == LOAD && v->x == k) continue; S e = exp(v, &m, &leaf); if (!e || e->depth > 5) { e = E.G.get(UNK, no++, nullptr); Rng r = rng(s, v); if (!r.isTop()) c.opq.push_back({e, r}); } c.writes.push_back({a, Cell{e, cell.tk, true}}); }
  for (auto &[k, o] : s.objs.v) if (o.st == O_FREED && !k->hasLocal) {
    // a member that was replaced after being released is private to its structure
    if (k->k == LOAD) { S b = rootOf(k->x); if (b->k != ARG) continue; if (auto *cell = s.mem.find(k->x)) if (cell->written && cell->val->k != INT) continue; }
    S e = exp(k, nullptr, nullptr); if (e && e->depth < 6) { c.frees.push_back({e, o.kind}); if (e->k == ARG && e->a < 64) O.sum.mayFree |= 1ull << e->a; } }
  for (auto &[k, x] : s.given.v) if (!k->hasLocal && c.given.size() < 40) { S e = exp(k, nullptr, nullptr); if (e && e->depth < 7) c.given.push_back({e, x}); }
  for (auto &[k, x] : s.esc.v) if (!k->hasLocal) { S e = exp(k, nullptr, nullptr); if (e && e->depth < 6) c.escs.push_back(e); }
  // arguments kept in memory that is handed over
  for (auto &[k, cell] : s.mem.v) if (cell.written && k->hasLocal && reach.count(rootOf(k))) { S r = rootOf(cell.val); if (r->k == ARG && !s.esc.find(r)) if (S e = exp(r, nullptr, nullptr)) { auto &into = rootOf(k) == rv ? c.keeps : c.escs; if (std::find(into.begin(), into.end(), e) == into.end()) into.push_back(e); } if (r->k == ARG && r->a < 64) O.sum.kept |= 1ull << r->a; }
  for (auto &[k, l] : s.locks.v) { S e = exp(k, &m, nullptr); if (e) c.locks.push_back({e, l}); else { std::function<S(S)> lf = leaf; S e2 = exp(k, &m, &lf); if (e2) c.locks.push_back({e2, l}); } }
  for (auto &[k, r] : s.facts.v) if (!k->hasLocal && k->k != GLOB) { S e = exp(k, nullptr, nullptr); if (e && e->depth < 6 && c.pre.size() < 24) c.pre.push_back({e, r}); }
  if (c.ret && (c.ret->k == LOAD || c.ret->k == ARG)) { Rng rr = rng(s, rv); if (!rr.isTop() && std::find_if(c.pre.begin(), c.pre.end(), [&](Pre &p) { return p.e == c.ret; }) == c.pre.end()) c.pre.push_back({c.ret, rr}); }
  c.clob = s.clob; c.clobAll = s.clobAll;
  bor(c.clob, fi.own);
  std::string key = "r:"; 
  if (c.ret) { if (c.ret->k == INT) key += std::to_string(c.ret->a); else key += std::to_string(c.ret->id); }
  key += "|f:"; for (auto &[e, k] : c.frees) key += std::to_string(e->id) + ","; key += "|e:"; for (S e : c.escs) key += std::to_string(e->id) + ","; key += "|l:"; for (auto &[e, l] : c.locks) key += std::to_string(e->id) + ":" + std::to_string(l.delta) + ","; key += "|n:"; for (auto &f : c.fresh) { S g = E.G.get(HEAP, f.n, nullptr); std::string at = c.ret == g ? "r" : ""; if (at.empty()) for (auto &w : c.writes) if (w.second.val == g && w.first->k == ARG) { at = "w" + std::to_string(w.first->a); break; } key += std::to_string(f.kind) + at + (f.esc ? "e," : ","); }
  c.key = key;
  O.sum.cases.push_back(std::move(c));
}
static bool samePre(const Case &a, const Case &b) { if (a.pre.size() != b.pre.size()) return false; for (size_t i = 0; i < a.pre.size(); i++) if (a.pre[i].e != b.pre[i].e || a.pre[i].r != b.pre[i].r) return false; return true; }
static void mergeCase(Engine &E, Case &x, const Case &y) {
  Case xo; xo.pre = x.pre;
  std::vector<Pre> np; for (auto &p : x.pre) for (auto &q : y.pre) if (p.e == q.e) { Rng h = Rng::hull(p.r, q.r); if (!h.isTop()) np.push_back({p.e, h}); }
  x.pre = np;
  std::vector<Pre> no; int mx = 0; for (auto &p : x.opq) { if (p.e->a >= mx) mx = p.e->a + 1; for (auto &q : y.opq) if (p.e == q.e) { Rng h = Rng::hull(p.r, q.r); if (!h.isTop()) no.push_back({p.e, h}); } }
  for (auto &w : x.writes) if (w.second.val->k == UNK && w.second.val->a >= mx) mx = w.second.val->a + 1;
  for (auto &q : y.opq) if (q.e->a >= mx) mx = q.e->a + 1;
  for (auto &w : y.writes) if (w.second.val->k == UNK && w.second.val->a >= mx) mx = w.second.val->a + 1;
  x.opq = no; mx += 50;
  std::vector<std::pair<S, Cell>> nw; std::map<S, Cell, SymLess> yw; for (auto &w : y.writes) yw[w.first] = w.second; std::set<S, SymLess> seen;
  auto opq = [&](int tk) { return Cell{E.G.get(UNK, mx++, nullptr), tk, true}; };
  for (auto &w : x.writes) { seen.insert(w.first); auto it = yw.find(w.first); if (it != yw.end() && it->second.val == w.second.val) nw.push_back(w); else nw.push_back({w.first, opq(w.second.tk)}); }
  for (auto &w : y.writes) if (!seen.count(w.first)) nw.push_back({w.first, opq(w.second.tk)});
  // a fresh object that is only reachable through a write which became opaque is no longer tracked
  std::set<S, SymLess> used; std::function<void(S)> u = [&](S s) { if (!s) return; used.insert(s); u(s->x); u(s->y); }; u(x.ret); for (auto &w : nw) u(w.second.val);
  { std::vector<std::pair<S, int>> bf; for (auto &f : x.frees) { if (std::find(y.frees.begin(), y.frees.end(), f) != y.frees.end()) bf.push_back(f); else if (std::find(x.escs.begin(), x.escs.end(), f.first) == x.escs.end()) x.escs.push_back(f.first); }
    for (auto &f : y.frees) if (std::find(bf.begin(), bf.end(), f) == bf.end() && std::find(x.escs.begin(), x.escs.end(), f.first) == x.escs.end()) x.escs.push_back(f.first);
    x.frees = bf; for (S e : y.escs) if (std::find(x.escs.begin(), x.escs.end(), e) == x.escs.end()) x.escs.push_back(e); for (S e : y.keeps) if (std::find(x.keeps.begin(), x.keeps.end(), e) == x.keeps.end()) x.keeps.push_back(e); }
  std::vector<FreshObj> nf; for (auto &f : x.fresh) if (used.count(E.G.get(HEAP, f.n, nullptr))) nf.push_back(f); x.fresh = nf;
  { auto nul = [](const Case &q, S e) { for (auto &p : q.pre) if (p.e == e && ((p.r.lo == 0 && p.r.hi == 0) || p.r.hi < 0)) return true; return false; }; std::vector<std::pair<S, int>> ng; auto in = [](const std::vector<std::pair<S, int>> &v, S e) { for (auto &q : v) if (q.first == e) return q.second; return 0; };
    for (auto &[e, w] : x.given) { int z = in(y.given, e); if (z) ng.push_back({e, std::min(w, z)}); else if (nul(y, e)) ng.push_back({e, w}); } for (auto &[e, w] : y.given) if (!in(x.given, e) && nul(xo, e)) ng.push_back({e, w}); x.given = ng; }
  x.writes = nw; bor(x.clob, y.clob); x.clobAll |= y.clobAll;
}
void Interp::finish() {
  auto &cs = O.sum.cases;
  // exact duplicates
  { std::vector<Case> u; for (auto &c : cs) { bool d = false; for (auto &q : u) if (q.key == c.key && samePre(q, c) && q.writes == c.writes) { bor(q.clob, c.clob); q.clobAll |= c.clobAll; d = true; break; } if (!d) u.push_back(std::move(c)); } cs.swap(u); }
  auto reduce = [&](size_t lim, std::function<std::string(const Case &)> keyf) { if (cs.size() <= lim) return; std::vector<Case> u; std::map<std::string, size_t> ix; for (auto &c : cs) { std::string k = keyf(c); auto it = ix.find(k); if (it == ix.end()) { ix[k] = u.size(); u.push_back(std::move(c)); } else { Case &x = u[it->second]; if (x.ret != c.ret && x.ret && c.ret) { // result becomes opaque
            Rng a = Rng::top(), b = Rng::top(); auto rg = [&](const Case &q) { if (q.ret->k == INT) return Rng::one(q.ret->a); for (auto &p : q.opq) if (p.e == q.ret) return p.r; for (auto &p : q.pre) if (p.e == q.ret) return p.r; if (q.ret->k == HEAP) return Rng::ne(0); return Rng::top(); }; a = rg(x); b = rg(c); S g = E.G.get(UNK, 990, nullptr); mergeCase(E, x, c); x.ret = g; Rng h = Rng::hull(a, b); x.opq.erase(std::remove_if(x.opq.begin(), x.opq.end(), [&](Pre &p) { return p.e == g; }), x.opq.end()); if (!h.isTop()) x.opq.push_back({g, h}); } else mergeCase(E, x, c); } } cs.swap(u); };
  auto writesKey = [](const Case &c) { std::string k; for (auto &w : c.writes) k += std::to_string(w.first->id) + "=" + (w.second.val->k == INT ? std::to_string(w.second.val->a) : w.second.val->k == HEAP ? "H" : "?") + ";"; return k; };
  auto preKey = [](const Case &c) { std::string k; for (auto &p : c.pre) if (p.e->k == ARG) k += std::to_string(p.e->a) + (p.r.single() ? "=" + std::to_string(p.r.lo) : p.r.has(0) ? "?" : "!") + ";"; return k; };
  reduce(8, [&](const Case &c) { return c.key + writesKey(c) + preKey(c); });
  reduce(8, [&](const Case &c) { return c.key + writesKey(c); });
  reduce(8, [&](const Case &c) { return c.key; });
  auto retClass = [](const Case &c) { if (!c.ret) return std::string("-"); if (c.ret->k == INT) return c.ret->a == 0 ? std::string("0") : std::string("n"); if (c.ret->k == HEAP) return std::string("H") + std::to_string(c.ret->a); for (auto &p : c.opq) if (p.e == c.ret && !p.r.has(0)) return std::string("n"); return std::string("u"); };
  reduce(10, [&](const Case &c) { return retClass(c) + c.key.substr(c.key.find("|f:")); });
  reduce(14, [&](const Case &c) { std::string k = c.key.substr(c.key.find("|l:")); return k + (c.frees.empty() ? "" : "F"); });
  if (cs.size() > 24) { O.truncated = true; cs.resize(24); }
  if (O.truncated) { for (auto &c : cs) bor(c.clob, fi.mods);
    // the paths not followed: anything may have happened
    Case c; c.key = "r:?|f:|e:|l:|n:"; c.clob = fi.mods; if (!F->getReturnType()->isVoidTy()) c.ret = E.G.get(UNK, 989, nullptr);
    for (auto &a : F->args()) if (a.getType()->isPointerTy()) c.escs.push_back(E.G.get(ARG, a.getArgNo())); cs.push_back(std::move(c)); }
  O.sum.truncated = O.truncated; O.sum.noreturn = cs.empty() && !O.truncated; O.sum.done = true;
}
void Interp::analyse() {
  at.resize(fi.rpo.size());
  State s; s.regs.assign(fi.nvals, nullptr); int i = 0;
  for (auto &a : F->args()) { S v = A.get(ARG, i++); s.regs[fi.num[&a]] = v; if (fi.enumMax.size() > a.getArgNo() && fi.enumMax[a.getArgNo()] > 0) s.facts.set(v, Rng::of(fi.enumMin[a.getArgNo()], fi.enumMax[a.getArgNo()])); }
  arrive(s, -1, 0);
  while (!wl.empty()) {
    auto [b, ix] = wl.top(); wl.pop(); if (!dirty.erase({b, ix})) continue;
    if (O.steps > budget || O.exits.size() > 600) { O.truncated = true; break; }
    runBlock(b, ix);
  }
  finish();
  if (dbg) {
    fprintf(stderr, "== %s: steps %ld states %ld trunc %d cases %zu lat %zu\n", fi.name.c_str(), O.steps, O.states, O.truncated, O.sum.cases.size(), O.sum.lat.size());
    for (auto &c : O.sum.cases) { fprintf(stderr, "  case ret=%s key=%s\n", symStr(c.ret, &P, F).c_str(), c.key.c_str()); for (auto &p : c.pre) fprintf(stderr, "    pre %s in [%ld,%ld] ex%d\n", symStr(p.e, &P, F).c_str(), (long)p.r.lo, (long)p.r.hi, p.r.n); for (auto &w : c.writes) fprintf(stderr, "    write %s = %s\n", symStr(w.first, &P, F).c_str(), symStr(w.second.val, &P, F).c_str()); for (auto &f : c.frees) fprintf(stderr, "    free %s\n", symStr(f.first, &P, F).c_str()); for (auto &f : c.escs) fprintf(stderr, "    esc %s\n", symStr(f, &P, F).c_str()); for (auto &f : c.locks) fprintf(stderr, "    lock %s %d %s\n", symStr(f.first, &P, F).c_str(), f.second.delta, E.lockClass[f.second.kind].c_str()); for (auto &p : c.opq) fprintf(stderr, "    opq %s in [%ld,%ld] ex%d\n", symStr(p.e, &P, F).c_str(), (long)p.r.lo, (long)p.r.hi, p.r.n); }
    for (auto &l : O.sum.lat) fprintf(stderr, "  latent %s at %s\n", symStr(l.ptr, &P, F).c_str(), l.where.c_str());
  }
}
#include "models.inc"

void findMutexes(Engine &E) { // where each kind of mutex is created, and whether it may be taken again by its holder
  Prog &P = E.P; std::map<std::string, bool> all;
  for (auto *F : P.order) for (auto &I : instructions(F)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *C = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) {
    if (P.fname(C) != "M_thread_mutex_create" || CB->arg_size() < 1) continue;
    auto *ci = dyn_cast<ConstantInt>(CB->getArgOperand(0)); bool rec = ci && (ci->getZExtValue() & 1);
    for (auto *u : CB->users()) if (auto *st = dyn_cast<StoreInst>(u)) if (st->getValueOperand() == CB) { std::string n; auto *pv = st->getPointerOperand(); if (auto *g = dyn_cast<GlobalVariable>(pv)) n = "@" + g->getName().str(); else { int k = P.addrKey(pv); if (k > 0) { auto f = P.keyField[k]; n = f.first ? P.fieldName(f.first, f.second) : P.keyName[k]; } }
      if (n.empty()) continue; E.mutexes.push_back({F, CB, n, rec}); auto it = all.find(n); if (it == all.end()) all[n] = rec; else it->second = it->second && rec; } }
  for (auto &[n, r] : all) if (r) gRecursiveLocks.insert(n);
}
void Engine::run(int threads) {
  findMutexes(*this);
  // SCCs bottom-up with a dependency counter; members of one SCC are done in order
  size_t n = P.sccs.size(); std::vector<std::set<int>> users(n); std::vector<std::atomic<int>> need(n);
  for (size_t i = 0; i < n; i++) { std::set<int> d; for (auto *f : P.sccs[i]) for (auto *c : P.fn[f].callees) if (!c->isDeclaration() && P.fn[c].scc < (int)i) d.insert(P.fn[c].scc); need[i] = d.size(); for (int k : d) users[k].insert(i); }
  std::mutex mu; std::condition_variable cv; std::deque<int> q; size_t done = 0; for (size_t i = 0; i < n; i++) if (need[i] == 0) q.push_back(i);
  for (auto *f : P.order) out[f] = std::make_unique<FnOut>();
  for (auto *f : P.order) for (auto &I : instructions(f)) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *L = dyn_cast<LoadInst>(CB->getCalledOperand())) { int k = P.addrKey(L->getPointerOperand()); if (k > 0 && k != P.rawKey) slotKeys.insert(k); }
  auto work = [&]() {
    while (true) { int k; { std::unique_lock<std::mutex> g(mu); cv.wait(g, [&] { return !q.empty() || done == n; }); if (q.empty()) return; k = q.front(); q.pop_front(); }
      auto &comp = P.sccs[k];
      for (auto *f : comp) { auto *o = out[f].get(); Interp in(*this, P.fn[f], *o); in.analyse(); for (auto &e : o->exits) { e.regs.clear(); } o->exits.shrink_to_fit(); o->exits.clear(); }
      // members of a small recursive group are analysed again with what the first round found out about each other
      if (comp.size() <= 24 && P.fn[comp[0]].recursive) for (auto *f : comp) { auto o = std::make_unique<FnOut>(); { Interp in(*this, P.fn[f], *o); in.analyse(); } o->exits.clear(); o->exits.shrink_to_fit(); out[f] = std::move(o); }
      { std::lock_guard<std::mutex> g(mu); done++; for (int u : users[k]) if (--need[u] == 0) q.push_back(u); } cv.notify_all(); } };
  std::vector<std::thread> ts; for (int i = 0; i < threads; i++) ts.emplace_back(work); for (auto &t : ts) t.join();
}
