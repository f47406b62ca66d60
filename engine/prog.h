// Program-level facts: type keys, function-pointer slots, call graph, mod sets, liveness.
#pragma once
#include "core.h"
using namespace llvm;

// functions ordered by their position in the program, so that results do not depend on addresses
extern std::unordered_map<const Function *, int> gRank;
struct FnLess { bool operator()(const Function *a, const Function *b) const { auto i = gRank.find(a), j = gRank.find(b); int x = i == gRank.end() ? -1 : i->second, y = j == gRank.end() ? -1 : j->second; return x != y ? x < y : a < b; } };
using FnSet = std::set<const Function *, FnLess>;

struct FnInfo {
  const Function *F = nullptr; std::string name, file; int line = 0;
  bool isPublic = false;       // declared in the installed headers (external linkage + name in public set)
  bool addrTaken = false;
  std::unordered_map<const Value *, int> num; int nvals = 0;
  std::vector<const Value *> vals;
  std::unordered_map<const BasicBlock *, int> bnum; std::vector<const BasicBlock *> rpo;
  std::vector<Bits> liveIn;    // per rpo index
  std::vector<char> loopHead, inLoop, canRet; std::set<std::pair<int,int>> backEdges;
  FnSet callees;      // direct + resolved indirect
  FnSet callers;
  Bits mods; bool modsAll = false;         // type keys written (transitively)
  Bits reads, own;                         // own: keys written by this function itself
  uint64_t constChar = 0;                  // parameters declared as pointers to constant characters: only read
  uint64_t testsNull = 0;                  // pointer parameters the function itself compares with null
  std::vector<int64_t> enumMin, enumMax;            // parameters of a contiguous enumeration type: largest enumerator
  bool retConst = false;                   // result is a pointer to constant data: stays with the callee
  uint32_t rawArgs = 0;                    // args through which raw memory may be written (deep)
  int scc = -1; bool recursive = false;
};

struct Prog {
  Module *M; const DataLayout *DL;
  std::map<const Function *, FnInfo, FnLess> fn;
  std::vector<const Function *> order;       // definitions in module order
  std::unordered_map<std::string, const Function *> byName;
  std::vector<std::vector<const Function *>> sccs; // bottom-up
  std::set<std::string> publicNames;
  // type keys
  std::map<std::pair<const Type *, unsigned>, int> fieldKey; std::map<const GlobalVariable *, int> globKey; std::vector<std::string> keyName; std::vector<std::pair<const Type*,unsigned>> keyField;
  int rawKey = 0;
  // function pointers
  std::unordered_map<const Value *, FnSet> pts; // SSA value / param
  std::map<int, FnSet> ptsKey;                  // type key
  std::unordered_map<const CallBase *, std::vector<const Function *>> icall;
  std::map<std::string, const DICompositeType *> diStruct;

  void init(Module &m, const std::set<std::string> &pub);
  int keyOf(const Type *t, unsigned f);
  int addrKey(const Value *ptr);             // type key of an address expression
  std::string fname(const Function *F) const { auto it = fn.find(F); return it == fn.end() ? F->getName().str() : it->second.name; }
  std::vector<const Function *> targets(const CallBase *CB) const;
  const FnInfo *info(const Function *F) const { auto it = fn.find(F); return it == fn.end() ? nullptr : &it->second; }
  std::string fieldName(const Type *st, unsigned idx);
  const DICompositeType *diFor(const StructType *st);
private:
  void number(FnInfo &fi); void liveness(FnInfo &fi); void resolvePtrs(); void mods(); void buildScc();
};
std::string locOf(const Instruction *I);
std::string fileOf(const Function *F);
int lineOf(const Instruction *I);
