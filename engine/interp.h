// Path-sensitive (bounded-disjunctive) abstract interpreter with bottom-up summaries.
#pragma once
#include "prog.h"
#include <array>

struct Pre { S e; Rng r; };
struct Latent { S ptr; std::vector<Pre> pre; std::string where; int kind; };
struct FreshObj { int n; uint8_t kind; bool zero; bool esc; };
struct Case {
  std::vector<Pre> pre; S ret = nullptr; std::vector<std::pair<S, Cell>> writes; std::vector<std::pair<S, int>> frees; std::vector<S> escs, keeps; std::vector<std::pair<S, int>> given; // keeps: arguments held by the object returned
  std::vector<std::pair<S, Lock>> locks; std::vector<FreshObj> fresh; std::vector<Pre> opq; std::string key; Bits clob; bool clobAll = false;
};
struct Summary { std::vector<Case> cases; std::vector<Latent> lat; uint64_t touched = 0, kept = 0, mayFree = 0; bool done = false, truncated = false, noreturn = false; };

struct Report { std::string kind, fn, file; int line; std::string msg, key; std::vector<std::string> path; };
struct Access { const Function *fn; const Instruction *I; int key; bool write; };
struct LockEvent { const Function *fn; const Instruction *I; int cls; };

struct FnOut {
  Summary sum; std::vector<Report> reports; std::set<std::string> seen;
  // instruction -> intersection of lock classes locally held / minimal deltas, and union
  std::map<const Instruction *, std::set<int>> mustHeld, mayHeld, mustReleased;
  std::map<const Instruction *, int> shared;   // memory access -> 1 if some state reaches memory other threads may see
  struct LockExit { int cls, delta, site, line; bool operator<(const LockExit &o) const { return std::tie(cls, delta, site, line) < std::tie(o.cls, o.delta, o.site, o.line); } };
  std::set<LockExit> lockExits;
  struct Drop { int n = 0; bool own = false; std::map<std::string, std::array<int, 4>> mem; std::set<std::string> deep; };
  std::map<std::string, Drop> drops;   // object released at return -> number of returns, and per member: released, null, handed over, neither; members below which something was released
  std::vector<std::map<std::string, int>> rets; bool retsFull = false;   // per return: members released (0) or empty (1)
  std::set<std::pair<std::string, const Instruction *>> relPaths;   // what is released where, named by the members it was reached through
  std::set<std::string> ownRel; std::set<std::pair<std::string, const Instruction *>> ownSt;   // structure.member released; structure.member holding a fresh object at return
  std::map<int, int> slotInit;   // callback member of a returned object -> 1 never null at return, 2 may be null
  std::set<const Instruction *> visited, unguarded;   // unguarded: indirect calls whose callee may be null
  std::vector<LockEvent> acquires;
  std::set<const Instruction *> acqMem, acqRes, rels;   // where heap memory / other resources are acquired, and where either is released
  long steps = 0, states = 0, obligations = 0; bool truncated = false;
  std::vector<State> exits; std::vector<const Instruction *> exitAt;
};

// resource kinds
enum RK : uint8_t { RK_MEM = 0, RK_FD, RK_FILE, RK_DIR, RK_CONN, RK_TRANS, RK_SSL, RK_OTHER };

struct Engine {
  Prog &P; Arena G; std::mutex gmu, cmu;
  std::map<const Function *, std::unique_ptr<FnOut>, FnLess> out;
  std::map<std::string, int> lockClassNames; std::vector<std::string> lockClass;  // class id -> name
  std::set<std::string> debugFns; bool verbose = false;
  struct MutexSite { const Function *fn; const Instruction *I; std::string cls; bool rec; }; std::vector<MutexSite> mutexes;
  int K = 24; std::set<int> slotKeys;
  Engine(Prog &p) : P(p) { G.mu = &gmu; for (auto *f : P.order) out[f]; }
  int classId(const std::string &n) { std::lock_guard<std::mutex> g(cmu); auto it = lockClassNames.find(n); if (it != lockClassNames.end()) return it->second; int k = lockClass.size(); lockClassNames[n] = k; lockClass.push_back(n); return k; }
  void run(int threads);
  const Summary *sumOf(const Function *F) { auto it = out.find(F); if (it == out.end() || !it->second || !it->second->sum.done) return nullptr; return &it->second->sum; }
};
std::string symStr(S s, Prog *P = nullptr, const Function *F = nullptr);
