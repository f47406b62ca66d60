// Abstract domain of the analyser: hash-consed symbolic values, ranges, states.
#pragma once
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Operator.h"
#include <algorithm>
#include <climits>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

enum SK : uint8_t { INT, GLOB, ARG, ALLOCA, HEAP, UNK, LOAD, OFF, IDX, BIN, CMP, CAST, MERGE, PREV, UNDEF };
struct Sym {
  SK k; uint8_t depth; bool hasLocal; // hasLocal: contains a symbol private to one function
  uint64_t id; int64_t a; const void *p; const Sym *x, *y;
};
using S = const Sym *;
struct SymLess { bool operator()(S a, S b) const { return a && b ? a->id < b->id : !a && b; } };

struct Arena {
  struct Key { int k; int64_t a; const void *p; S x, y;
    bool operator==(const Key &o) const { return k == o.k && a == o.a && p == o.p && x == o.x && y == o.y; } };
  struct H { size_t operator()(const Key &q) const {
      size_t h = q.k * 1000003u; h = h * 31 + std::hash<int64_t>()(q.a); h = h * 1000003 + (size_t)q.p / 8;
      h = h * 1000003 + (size_t)q.x / 8; h = h * 1000003 + (size_t)q.y / 8; return h ^ (h >> 17); } };
  std::unordered_map<Key, Sym *, H> tab;
  std::vector<std::unique_ptr<Sym>> all;
  std::mutex *mu = nullptr;
  // symbols of the shared arena are numbered by what they are, so that the order does not depend on the schedule
  static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; return h ^ (h >> 29); }
  static uint64_t named(const void *p) { uint64_t h = 1469598103934665603ull; for (char c : ((const llvm::Value *)p)->getName()) h = (h ^ (unsigned char)c) * 1099511628211ull; return h; }
  S get(SK k, int64_t a = 0, const void *p = nullptr, S x = nullptr, S y = nullptr) {
    if (mu) { std::lock_guard<std::mutex> g(*mu); return get0(k, a, p, x, y); }
    return get0(k, a, p, x, y);
  }
  S get0(SK k, int64_t a, const void *p, S x, S y) {
    Key q{k, a, p, x, y};
    auto it = tab.find(q);
    if (it != tab.end()) return it->second;
    auto s = std::make_unique<Sym>();
    s->k = k; s->a = a; s->p = p; s->x = x; s->y = y; s->id = mu ? mix(mix(mix(mix(mix(7, k), (uint64_t)a), p ? named(p) : 0), x ? x->id : 0), y ? y->id : 0) : all.size() + 1;
    int d = 0; if (x) d = x->depth + 1; if (y) d = std::max<int>(d, y->depth + 1);
    s->depth = d > 250 ? 250 : d;
    s->hasLocal = (k == ALLOCA || k == HEAP || k == UNK || k == MERGE || k == PREV || k == UNDEF) || (x && x->hasLocal) || (y && y->hasLocal);
    Sym *r = s.get(); all.push_back(std::move(s)); tab[q] = r; return r;
  }
  S num(int64_t v) { return get(INT, v); }
};

// interval with up to 4 excluded points
struct Rng {
  int64_t lo = INT64_MIN, hi = INT64_MAX; uint8_t n = 0; int64_t ex[4] = {0, 0, 0, 0};
  static Rng top() { return Rng(); }
  static Rng one(int64_t v) { Rng r; r.lo = r.hi = v; return r; }
  static Rng of(int64_t l, int64_t h) { Rng r; r.lo = l; r.hi = h; return r; }
  static Rng ne(int64_t v) { Rng r; r.exclude(v); return r; }
  bool isTop() const { return lo == INT64_MIN && hi == INT64_MAX && n == 0; }
  bool empty() const { return lo > hi; }
  bool single() const { return lo == hi; }
  bool has(int64_t v) const { if (v < lo || v > hi) return false; for (int i = 0; i < n; i++) if (ex[i] == v) return false; return true; }
  void exclude(int64_t v) {
    if (v < lo || v > hi) return;
    if (v == lo) { if (lo == INT64_MAX) { hi = lo; lo = hi; } if (lo == hi) { lo = 1; hi = 0; n = 0; return; } lo++; fix(); return; }
    if (v == hi) { if (lo == hi) { lo = 1; hi = 0; n = 0; return; } hi--; fix(); return; }
    for (int i = 0; i < n; i++) if (ex[i] == v) return;
    if (n < 4) { ex[n++] = v; std::sort(ex, ex + n); }
  }
  void fix() { // drop excluded points outside, trim ends
    for (bool ch = true; ch && lo <= hi;) { ch = false;
      for (int i = 0; i < n; i++) {
        if (ex[i] == lo) { lo++; ch = true; } else if (ex[i] == hi) { hi--; ch = true; } 
      } }
    int m = 0; for (int i = 0; i < n; i++) if (ex[i] > lo && ex[i] < hi) ex[m++] = ex[i];
    for (int i = m; i < 4; i++) ex[i] = 0; n = m;
    if (lo > hi) { lo = 1; hi = 0; n = 0; }
  }
  void meet(const Rng &o) { lo = std::max(lo, o.lo); hi = std::min(hi, o.hi); if (lo > hi) { lo = 1; hi = 0; n = 0; return; }
    for (int i = 0; i < o.n; i++) exclude(o.ex[i]); fix(); }
  static Rng hull(const Rng &a, const Rng &b) {
    if (a.empty()) return b; if (b.empty()) return a;
    Rng r; r.lo = std::min(a.lo, b.lo); r.hi = std::max(a.hi, b.hi);
    std::set<int64_t> c; for (int i = 0; i < a.n; i++) c.insert(a.ex[i]); for (int i = 0; i < b.n; i++) c.insert(b.ex[i]); c.insert(0);
    for (int64_t v : c) if (!a.has(v) && !b.has(v)) r.exclude(v);
    return r; }
  bool operator==(const Rng &o) const { if (lo != o.lo || hi != o.hi || n != o.n) return false; for (int i = 0; i < n; i++) if (ex[i] != o.ex[i]) return false; return true; }
  bool operator!=(const Rng &o) const { return !(*this == o); }
  bool subsetOf(const Rng &o) const { if (empty()) return true; if (lo < o.lo || hi > o.hi) return false; for (int i = 0; i < o.n; i++) if (has(o.ex[i])) return false; return true; }
};

template <class V> struct SMap { // sorted by symbol id
  std::vector<std::pair<S, V>> v;
  typename std::vector<std::pair<S, V>>::iterator lb(S k) { return std::lower_bound(v.begin(), v.end(), k, [](const std::pair<S, V> &e, S q) { return e.first->id < q->id; }); }
  V *find(S k) { auto i = lb(k); return i != v.end() && i->first == k ? &i->second : nullptr; }
  const V *find(S k) const { return const_cast<SMap *>(this)->find(k); }
  void set(S k, const V &x) { auto i = lb(k); if (i != v.end() && i->first == k) i->second = x; else v.insert(i, {k, x}); }
  void erase(S k) { auto i = lb(k); if (i != v.end() && i->first == k) v.erase(i); }
  template <class F> void eraseIf(F f) { v.erase(std::remove_if(v.begin(), v.end(), [&](std::pair<S, V> &e) { return f(e.first, e.second); }), v.end()); }
  void resort() { std::sort(v.begin(), v.end(), [](const std::pair<S, V> &a, const std::pair<S, V> &b) { return a.first->id < b.first->id; }); }
  bool operator==(const SMap &o) const { return v == o.v; }
};

struct Cell { S val; int tk; bool written; bool operator==(const Cell &o) const { return val == o.val && written == o.written; } };
enum ObjSt : uint8_t { O_ALLOC, O_FREED, O_ESC };
struct Obj { ObjSt st; uint8_t kind; bool zero; bool field; const void *site; const void *rel;
  bool operator==(const Obj &o) const { return st == o.st && kind == o.kind && zero == o.zero; } };
struct Lock { int delta; int kind; const void *site; bool operator==(const Lock &o) const { return delta == o.delta; } };

struct Trace { std::shared_ptr<Trace> up; int line; int n; };
using Bits = std::vector<uint64_t>;
inline bool bget(const Bits &b, int i) { return (size_t)(i >> 6) < b.size() && (b[i >> 6] >> (i & 63) & 1); }
inline void bset(Bits &b, int i) { if ((size_t)(i >> 6) >= b.size()) b.resize((i >> 6) + 1); b[i >> 6] |= 1ull << (i & 63); }
inline bool bor(Bits &a, const Bits &b) { bool ch = false; if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) { uint64_t t = a[i] | b[i]; if (t != a[i]) { a[i] = t; ch = true; } } return ch; }

struct State {
  std::vector<S> regs;
  SMap<Cell> mem; SMap<Rng> facts; SMap<Obj> objs; SMap<Lock> locks; SMap<int> esc, given; // esc: escaped symbols; given: values released, or passed to a function that releases them
  Bits clob; bool clobAll = false;
  std::shared_ptr<Trace> tr; int merges = 0;
  bool same(const State &o) const { return regs == o.regs && locks == o.locks && objs == o.objs && facts == o.facts && mem == o.mem && esc == o.esc && given == o.given && clobAll == o.clobAll && clob == o.clob; }
};

struct Summary;
struct Prog;
