#include "interp.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/Support/JSON.h"
#include <chrono>
#include <fstream>
#include <iostream>
extern std::set<std::string> gRecursiveLocks;
void writeFacts(Engine &E, const std::string &path);
int runWipe(const std::string &file, const std::string &out);
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// Functions that are not part of the confirmed tree and cannot be called from elsewhere are pieces of the functions that call them:
// they are put back there before anything is analysed, so that it makes no difference into how many helpers a function is cut.
// The stock inliner simplifies while it copies and thereby loses which member an access goes to, hence this plain one.
static void inlineCall(CallInst *ci, Function *g) {
  auto *bb = ci->getParent(); auto *F = bb->getParent(); auto *cont = bb->splitBasicBlock(ci, bb->getName()); bb->getTerminator()->eraseFromParent();
  ValueToValueMapTy vm; unsigned i = 0; for (auto &a : g->args()) vm[&a] = ci->getArgOperand(i++);
  std::vector<BasicBlock *> nb; for (auto &b : *g) { auto *c = CloneBasicBlock(&b, vm, "", nullptr); F->insert(cont->getIterator(), c); vm[&b] = c; nb.push_back(c); }
  for (auto *c : nb) for (auto &I : *c) RemapInstruction(&I, vm, RF_NoModuleLevelChanges | RF_IgnoreMissingLocals);
  BranchInst::Create(nb[0], bb);
  std::string pre = "__const." + g->getName().str() + "."; auto own = [&](GlobalVariable *gv) { if (gv->getName().starts_with(pre)) gv->setName("__const." + F->getName().str() + "." + gv->getName().substr(pre.size()).str()); };
  for (auto *c : nb) for (auto &I : *c) for (auto &o : I.operands()) { if (auto *gv = dyn_cast<GlobalVariable>(o)) own(gv); else if (auto *ce = dyn_cast<ConstantExpr>(o)) if (auto *gv = dyn_cast<GlobalVariable>(ce->stripPointerCasts())) own(gv); }
  std::vector<std::pair<Value *, BasicBlock *>> rets;
  for (auto *c : nb) if (auto *r = dyn_cast<ReturnInst>(c->getTerminator())) { rets.push_back({r->getReturnValue(), c}); auto *br = BranchInst::Create(cont, r); br->setDebugLoc(ci->getDebugLoc()); r->eraseFromParent(); }
  if (!ci->getType()->isVoidTy()) {
    Value *v = nullptr;
    if (rets.size() == 1) v = rets[0].first;
    else if (rets.empty()) v = PoisonValue::get(ci->getType());
    else { auto *p = PHINode::Create(ci->getType(), rets.size(), "", &cont->front()); for (auto &x : rets) p->addIncoming(x.first, x.second); v = p; }
    ci->replaceAllUsesWith(v);
  }
  ci->eraseFromParent();
  auto &en = F->getEntryBlock(); for (auto *c : nb) for (auto it = c->begin(); it != c->end();) { auto *I = &*it++; if (auto *al = dyn_cast<AllocaInst>(I)) if (isa<ConstantInt>(al->getArraySize()) && c == nb[0]) al->moveBefore(&*en.begin()); }
  MergeBlockIntoPredecessor(nb[0]); MergeBlockIntoPredecessor(cont);
}
static bool inlineHelpers(Module &M, const std::string &knownf) {
  std::set<std::string> known; { std::ifstream in(knownf); std::string t((std::istreambuf_iterator<char>(in)), {}); size_t i = 0; while ((i = t.find('"', i)) != std::string::npos) { size_t j = t.find('"', i + 1); known.insert(t.substr(i + 1, j - i - 1)); i = j + 1; } }
  std::vector<Function *> fresh; std::set<Function *> set;
  for (auto &F : M) if (!F.isDeclaration() && F.hasLocalLinkage() && !F.isVarArg() && F.getSubprogram() && !known.count(F.getSubprogram()->getName().str())) { fresh.push_back(&F); set.insert(&F); }
  auto callees = [&](Function *F) { std::set<Function *> s; for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I)) if (auto *g = c->getCalledFunction()) if (set.count(g)) s.insert(g); return s; };
  bool any = false;
  for (auto *F : fresh) {
    std::set<Function *> seen; std::vector<Function *> st(1, F); bool rec = false;
    while (!st.empty()) { auto *x = st.back(); st.pop_back(); for (auto *g : callees(x)) { if (g == F) rec = true; if (seen.insert(g).second) st.push_back(g); } }
    if (rec) continue;
    std::vector<CallInst *> us; for (auto *u : F->users()) if (auto *c = dyn_cast<CallInst>(u)) if (c->getCalledOperand() == F && c->arg_size() == F->arg_size() && c->getFunctionType() == F->getFunctionType()) us.push_back(c);
    for (auto *c : us) { inlineCall(c, F); any = true; }
    if (F->use_empty()) F->eraseFromParent();
  }
  return any;
}
int main(int argc, char **argv) {
  std::string pubf, knownf; std::vector<std::string> files; std::set<std::string> dbg; int threads = 8; std::string outp, factsp; bool summary = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a == "--public") pubf = argv[++i]; else if (a == "--known") knownf = argv[++i]; else if (a == "--debug") dbg.insert(argv[++i]); else if (a == "-j") threads = atoi(argv[++i]); else if (a == "--facts") factsp = argv[++i]; else if (a == "-o") outp = argv[++i]; else if (a == "--summary") summary = true; else if (a == "--wipe") {} else files.push_back(a); }
  if (files.size() == 1 && argc > 1 && std::string(argv[1]) == "--wipe") return runWipe(files[0], outp);
  double t0 = now();
  LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> M;
  for (auto &f : files) { auto m = parseIRFile(f, err, ctx); if (!m) { err.print("mstana", errs()); return 3; } if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 3; } }
  double t1 = now();
  auto promote = [&]() { LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam); ModulePassManager mpm; FunctionPassManager fpm; fpm.addPass(PromotePass()); mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm))); mpm.run(*M, mam); };
  promote();
  if (!knownf.empty() && inlineHelpers(*M, knownf)) promote();
  std::set<std::string> pub; { std::ifstream in(pubf); std::string l; while (std::getline(in, l)) pub.insert(l); }
  Prog P; P.init(*M, pub);
  double t2 = now();
  Engine E(P); E.debugFns = dbg; E.run(threads);
  double t3 = now();
  if (!factsp.empty()) { writeFacts(E, factsp); fprintf(stderr, "load %.2f prep %.2f analyse %.2f write %.2f\n", t1 - t0, t2 - t1, t3 - t2, now() - t3); return 0; }
  std::map<std::string, int> kinds; long steps = 0; int trunc = 0; std::vector<std::pair<long, std::string>> top;
  std::vector<const Report *> reps;
  for (auto &[f, o] : E.out) { steps += o->steps; trunc += o->truncated; top.push_back({o->steps, P.fname(f)}); for (auto &r : o->reports) { kinds[r.kind]++; reps.push_back(&r); } }
  std::sort(reps.begin(), reps.end(), [](auto *a, auto *b) { return std::tie(a->kind, a->file, a->line, a->msg) < std::tie(b->kind, b->file, b->line, b->msg); });
  for (auto *r : reps) { std::cout << r->kind << " " << r->file << ":" << r->line << " " << r->fn << ": " << r->msg << "  path:"; for (auto &p : r->path) std::cout << " " << p; std::cout << "\n"; }
  std::sort(top.rbegin(), top.rend());
  fprintf(stderr, "load %.2f prep %.2f analyse %.2f fns %zu steps %ld truncated %d\n", t1 - t0, t2 - t1, t3 - t2, P.order.size(), steps, trunc);
  for (int i = 0; i < 12 && i < (int)top.size(); i++) fprintf(stderr, "  %ld %s\n", top[i].first, top[i].second.c_str());
  for (auto &[k, n] : kinds) fprintf(stderr, "  %s %d\n", k.c_str(), n);
  (void)summary;
}
