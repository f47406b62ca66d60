// C21: what a function may return once a call it made has failed. Sparse conditional propagation of small value sets, started at the
// call with the failing result; executions of the call after the first either fail too (A) or do anything (B).
#include "interp.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Support/JSON.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <atomic>
#include <thread>
#include <memory>
using llvm::json::Array; using llvm::json::Object;
namespace {
struct VS { bool top = false, nz = false; std::set<int64_t> s;
  bool bot() const { return !top && !nz && s.empty(); }
  static VS T() { VS v; v.top = true; return v; } static VS K(int64_t k) { VS v; v.s.insert(k); return v; } static VS N() { VS v; v.nz = true; return v; }
  bool join(const VS &o) { if (top || o.bot()) return false; auto before = std::make_pair(nz, s.size()); if (o.top) { *this = T(); return true; } nz |= o.nz; s.insert(o.s.begin(), o.s.end()); norm(); return top || before != std::make_pair(nz, s.size()); }
  void norm() { if (top) { nz = false; s.clear(); return; } if (nz) { bool z = s.count(0); s.clear(); if (z) { *this = T(); } } else if (s.size() > 24) { bool z = s.count(0); s.clear(); if (z) top = true; else nz = true; } }
  std::string str() const { if (top) return "T"; if (nz) return "N"; std::string r; for (auto k : s) r += std::to_string(k) + ","; return r; } };
VS boolSet(bool t, bool f) { VS v; if (t) v.s.insert(1); if (f) v.s.insert(0); return v; }
struct Ev {
  Prog &P; int steps = 0; std::map<std::pair<const Function *, std::string>, VS> memo; std::set<const Function *> active;
  Ev(Prog &p) : P(p) {}
  static int64_t norm(Type *t, int64_t v) { if (auto *it = dyn_cast<IntegerType>(t)) { unsigned w = it->getBitWidth(); if (w == 1) return v & 1; if (w < 64) { v = (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); } } return v; }
  static VS cst(const Value *x) { if (auto *c = dyn_cast<ConstantInt>(x)) { if (c->getBitWidth() > 64) return VS::T(); return VS::K(c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue()); } if (isa<ConstantPointerNull>(x)) return VS::K(0); if (isa<GlobalValue>(x->stripPointerCasts())) return VS::N(); if (isa<UndefValue>(x)) return VS(); return VS::T(); }
  static VS cmp(CmpInst::Predicate p, const VS &a, const VS &b, unsigned w) {
    if (a.bot() || b.bot()) return VS(); if (a.top || b.top) return boolSet(true, true);
    if (a.nz || b.nz) { const VS &o = a.nz ? b : a; bool zero = !o.nz && o.s.size() == 1 && *o.s.begin() == 0; if (zero) { if (p == CmpInst::ICMP_EQ) return VS::K(0); if (p == CmpInst::ICMP_NE) return VS::K(1); if (a.nz && p == CmpInst::ICMP_UGT) return VS::K(1); } return boolSet(true, true); }
    bool t = false, f = false; uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    for (auto x : a.s) for (auto y : b.s) { uint64_t ux = (uint64_t)x & m, uy = (uint64_t)y & m; bool r; switch (p) { case CmpInst::ICMP_EQ: r = ux == uy; break; case CmpInst::ICMP_NE: r = ux != uy; break; case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break; case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = ux < uy; break; case CmpInst::ICMP_ULE: r = ux <= uy; break; case CmpInst::ICMP_UGT: r = ux > uy; break; case CmpInst::ICMP_UGE: r = ux >= uy; break; default: return boolSet(true, true); } (r ? t : f) = true; }
    return boolSet(t, f); }
  // start == nullptr: from the entry with these arguments
  VS run(const Function *F, const std::vector<VS> &args, const CallBase *start, const VS &fail, bool always, int depth, DominatorTree *DT, LoopInfo *LI = nullptr, std::map<const Value *, VS> *pre = nullptr, std::map<const Value *, VS> *keep = nullptr) {
    std::map<const Value *, VS> env[2]; std::set<std::pair<const BasicBlock *, const BasicBlock *>> edges[2]; std::set<const BasicBlock *> ex[2]; VS ret;
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> cross; // edges from phase 0 into the block of the call (phase 1)
    const BasicBlock *C = start ? start->getParent() : nullptr, *H = C; std::map<const BasicBlock *, std::set<const BasicBlock *>> avoid[2];
    if (start && LI) if (auto *L = LI->getLoopFor(C)) H = L->getHeader();   // the next round of the loop begins here: phase 1
    // blocks the phase reaches without passing D
    auto av = [&](const BasicBlock *D, int ph) -> std::set<const BasicBlock *> & { auto it = avoid[ph].find(D); if (it != avoid[ph].end()) return it->second; auto &s = avoid[ph][D]; std::vector<const BasicBlock *> st; auto *from = ph ? H : C; s.insert(from); st.push_back(from); while (!st.empty()) { auto *b = st.back(); st.pop_back(); for (auto *n : successors(b)) if (n != D && (ph || n != H) && s.insert(n).second) st.push_back(n); } return s; };
    std::map<const BasicBlock *, bool> domC[2]; auto strictDom = [&](const BasicBlock *D, int ph) { auto *to = ph ? H : C; auto it = domC[ph].find(D); if (it == domC[ph].end()) it = domC[ph].emplace(D, D != to && DT->dominates(D, to)).first; return it->second; };
    auto old = [&](const Instruction *I) -> VS { if (pre) { auto it = pre->find(I); if (it != pre->end() && !it->second.bot()) return it->second; } return isa<AllocaInst>(I) ? VS::N() : VS::T(); };
    auto before = [&](const Instruction *i) { return isa<PHINode>(i) || (i != start && i->comesBefore(start)); };
    auto get = [&](const Value *x, int ph, const BasicBlock *U) -> VS {
      if (auto *a = dyn_cast<Argument>(x)) return start ? VS::T() : args[a->getArgNo()];
      auto *I = dyn_cast<Instruction>(x); if (!I) return cst(x);
      if (start) { auto *D = I->getParent(); if (D == C) { if (ph == 0 && before(I)) return old(I); } else if (strictDom(D, ph) && U != D && av(D, ph).count(U)) return old(I); }
      return env[ph][I]; };
    // the value a phi gets on an edge, narrowed by the condition of that edge
    auto inc = [&](const Value *x, int ph, const BasicBlock *ib, const BasicBlock *B) -> VS { VS v = get(x, ph, ib); auto *br = dyn_cast<BranchInst>(ib->getTerminator()); if (!br || !br->isConditional() || br->getSuccessor(0) == br->getSuccessor(1)) return v; bool taken = br->getSuccessor(0) == B;
      if (br->getCondition() == x) return VS::K(taken); auto *ic = dyn_cast<ICmpInst>(br->getCondition()); if (!ic || !ic->isEquality() || ic->getOperand(0) != x) return v; VS k = cst(ic->getOperand(1)); if (k.top || k.nz || k.s.size() != 1) return v; int64_t c = *k.s.begin();
      if ((ic->getPredicate() == CmpInst::ICMP_EQ) == taken) return v.bot() ? v : k; if (v.top) return c == 0 ? VS::N() : v; VS r = v; r.s.erase(c); return r; };
    auto step = [&](const Instruction &I, int ph, bool &ch) {
      auto *B = I.getParent(); auto mark = [&](const BasicBlock *S) { if (start && ph == 0 && S == H) { if (cross.insert({B, S}).second) { ch = true; ex[1].insert(S); } return; } if (edges[ph].insert({B, S}).second) { ch = true; ex[ph].insert(S); } };
      if (auto *br = dyn_cast<BranchInst>(&I)) { if (!br->isConditional()) { mark(br->getSuccessor(0)); return; } VS c = get(br->getCondition(), ph, B); if (c.top || c.nz || c.s.count(1)) mark(br->getSuccessor(0)); if (c.top || c.s.count(0)) mark(br->getSuccessor(1)); return; }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) { VS c = get(sw->getCondition(), ph, B); if (c.top || c.nz) { for (auto *S : successors(B)) mark(S); } else for (auto k : c.s) { bool hit = false; for (auto &cs : sw->cases()) if (cs.getCaseValue()->getSExtValue() == k) { mark(cs.getCaseSuccessor()); hit = true; } if (!hit) mark(sw->getDefaultDest()); } return; }
      if (auto *r = dyn_cast<ReturnInst>(&I)) { if (r->getReturnValue()) { VS v = get(r->getReturnValue(), ph, B); if (ret.join(v)) ch = true; } return; }
      if (I.isTerminator()) { for (auto *S : successors(B)) mark(S); return; }
      if (I.getType()->isVoidTy()) return;
      VS n = VS::T();
      if (&I == start) n = ph == 0 || always ? fail : VS::T();
      else if (auto *p = dyn_cast<PHINode>(&I)) { n = VS(); for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { auto *ib = p->getIncomingBlock(i); if (edges[ph].count({ib, B})) n.join(inc(p->getIncomingValue(i), ph, ib, B)); if (ph == 1 && cross.count({ib, B})) n.join(inc(p->getIncomingValue(i), 0, ib, B)); } }
      else if (auto *se = dyn_cast<SelectInst>(&I)) { VS c = get(se->getCondition(), ph, B); n = VS(); if (c.top || c.nz || c.s.count(1)) n.join(get(se->getTrueValue(), ph, B)); if (c.top || c.s.count(0)) n.join(get(se->getFalseValue(), ph, B)); }
      else if (auto *ic = dyn_cast<ICmpInst>(&I)) { Type *t = ic->getOperand(0)->getType(); n = cmp(ic->getPredicate(), get(ic->getOperand(0), ph, B), get(ic->getOperand(1), ph, B), t->isIntegerTy() ? t->getIntegerBitWidth() : 64); }
      else if (isa<AllocaInst>(&I)) n = VS::N();
      else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) { VS b = get(g->getPointerOperand(), ph, B); n = b.bot() ? VS() : b.nz ? VS::N() : VS::T(); }
      else if (auto *c = dyn_cast<CastInst>(&I)) { VS a = get(c->getOperand(0), ph, B); if (a.bot()) n = a; else if (a.top) n = a; else if (isa<SExtInst>(c) || isa<ZExtInst>(c) || isa<TruncInst>(c)) { if (a.nz) n = isa<TruncInst>(c) ? VS::T() : a; else { n = VS(); for (auto k : a.s) { uint64_t u = (uint64_t)k; unsigned w = c->getSrcTy()->getScalarSizeInBits(); if (isa<ZExtInst>(c) && w < 64) u &= (1ull << w) - 1; if (isa<SExtInst>(c) && w == 1) u = (k & 1) ? ~0ull : 0; n.s.insert(norm(c->getType(), (int64_t)u)); } } } else n = c->getType()->isPointerTy() || c->getSrcTy()->isPointerTy() ? a : VS::T(); }
      else if (auto *bo = dyn_cast<BinaryOperator>(&I)) { if (bo->getType()->isIntegerTy()) { VS a = get(bo->getOperand(0), ph, B), b = get(bo->getOperand(1), ph, B); auto op = bo->getOpcode(); auto is0 = [](const VS &v) { return !v.top && !v.nz && v.s.size() == 1 && *v.s.begin() == 0; };
          if (a.bot() || b.bot()) n = VS(); else if (op == Instruction::And && (is0(a) || is0(b))) n = VS::K(0); else if (op == Instruction::Or && (a.nz || b.nz)) n = VS::N(); else if (a.top || b.top || a.nz || b.nz || a.s.size() * b.s.size() > 100) n = VS::T();
          else { n = VS(); for (auto x : a.s) for (auto y : b.s) { int64_t r; switch (op) { case Instruction::Add: r = (int64_t)((uint64_t)x + (uint64_t)y); break; case Instruction::Sub: r = (int64_t)((uint64_t)x - (uint64_t)y); break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Mul: r = (int64_t)((uint64_t)x * (uint64_t)y); break; default: n = VS::T(); goto done; } n.s.insert(norm(bo->getType(), r)); } n.norm(); done:; } } }
      else if (auto *ld = dyn_cast<LoadInst>(&I)) { if (auto *c = dyn_cast<CallBase>(ld->getPointerOperand())) if (auto *f = c->getCalledFunction()) if (f->getName() == "__errno_location") n = VS::K(5); }
      else if (auto *cb = dyn_cast<CallBase>(&I)) { auto *f = cb->getCalledFunction();
        if (f && !f->isDeclaration() && depth > 0 && f->size() < 150 && !f->isVarArg() && f->arg_size() == cb->arg_size() && (I.getType()->isIntegerTy() || I.getType()->isPointerTy())) { std::vector<VS> as; bool bot = false; std::string key; for (auto &a : cb->args()) { VS v = get(a.get(), ph, B); if (v.bot() && !isa<UndefValue>(a.get())) bot = true; key += v.str() + ";"; as.push_back(v); }
          if (bot) n = VS(); else { auto mk = std::make_pair(f, key + std::to_string(depth)); auto it = memo.find(mk); if (it != memo.end()) n = it->second; else if (active.insert(f).second) { n = run(f, as, nullptr, VS(), false, depth - 1, nullptr); active.erase(f); memo[mk] = n; } } }
        else if (f && f->getName().starts_with("llvm.expect")) n = get(cb->getArgOperand(0), ph, B); }
      if (env[ph][&I].join(n)) ch = true; };
    if (start) ex[0].insert(C); else ex[0].insert(&F->getEntryBlock());
    bool ch = true; int rounds = 0; while (ch && rounds++ < 60) { ch = false; for (int ph = 0; ph < 2; ph++) for (auto &B : *F) { if (!ex[ph].count(&B)) continue; bool on = !(start && ph == 0 && &B == C); for (auto &I : B) { if (!on) { if (&I != start) continue; on = true; } step(I, ph, ch); } } }
    if (keep && !ch) *keep = std::move(env[0]);
    if (ch) return VS::T(); return ret; }
};
struct RT { char k = 0; std::set<int64_t> ok; std::vector<int64_t> bad; };   // e: error enumeration, b: M_bool, p: pointer, i: int, 0: none
RT retType(const Function *F) {
  RT r; Type *t = F->getReturnType(); auto *sp = F->getSubprogram(); if (!sp || t->isVoidTy()) return r; auto ta = sp->getType()->getTypeArray(); DIType *d = ta.size() ? ta[0] : nullptr; std::string nm; while (auto *x = dyn_cast_or_null<DIDerivedType>(d)) { if (x->getTag() == dwarf::DW_TAG_pointer_type) break; if (nm.empty() && x->getTag() == dwarf::DW_TAG_typedef) nm = x->getName().str(); d = x->getBaseType(); }
  if (t->isPointerTy()) { r.k = 'p'; r.bad = {0}; return r; } if (!t->isIntegerTy()) return r;
  if (nm == "M_bool") { r.k = 'b'; r.bad = {0}; r.ok = {1}; return r; }
  if (auto *ct = dyn_cast_or_null<DICompositeType>(d)) if (ct->getTag() == dwarf::DW_TAG_enumeration_type) { for (auto *e : ct->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) { auto n = en->getName(); int64_t v = en->getValue().getSExtValue(); if (n.contains("SUCCESS") || n.ends_with("ERROR_NONE") || n.ends_with("_OK")) r.ok.insert(v); else r.bad.push_back(v); } if (!r.ok.empty() && !r.bad.empty()) { r.k = 'e'; if (r.bad.size() > 60) r.bad.resize(60); return r; } r.bad.clear(); r.ok.clear(); return r; }
  if (t->isIntegerTy(32) && nm.empty()) { r.k = 'i'; r.bad = {-1}; } return r; }
const std::map<std::string, int64_t> OS = {{"read", -1}, {"write", -1}, {"pread", -1}, {"pwrite", -1}, {"open", -1}, {"openat", -1}, {"close", -1}, {"fsync", -1}, {"fdatasync", -1}, {"ftruncate", -1}, {"truncate", -1}, {"rename", -1}, {"unlink", -1}, {"remove", -1}, {"rmdir", -1}, {"mkdir", -1}, {"stat", -1}, {"lstat", -1}, {"fstat", -1}, {"chmod", -1}, {"fchmod", -1}, {"chown", -1}, {"fchown", -1}, {"lchown", -1}, {"symlink", -1}, {"link", -1}, {"readlink", -1}, {"pipe", -1}, {"pipe2", -1}, {"socket", -1}, {"bind", -1}, {"listen", -1}, {"accept", -1}, {"accept4", -1}, {"connect", -1}, {"send", -1}, {"recv", -1}, {"sendto", -1}, {"recvfrom", -1}, {"sendmsg", -1}, {"recvmsg", -1}, {"setsockopt", -1}, {"getsockopt", -1}, {"getsockname", -1}, {"getpeername", -1}, {"fcntl", -1}, {"ioctl", -1}, {"epoll_ctl", -1}, {"epoll_create", -1}, {"epoll_create1", -1}, {"lseek", -1}, {"dup", -1}, {"dup2", -1}, {"utimes", -1}, {"utime", -1}, {"futimens", -1}, {"utimensat", -1}, {"access", -1}, {"chdir", -1}, {"kill", -1}, {"waitpid", -1}, {"fork", -1}, {"tcsetattr", -1}, {"tcgetattr", -1}, {"tcflush", -1}, {"tcdrain", -1}, {"tcsendbreak", -1}, {"cfsetspeed", -1}, {"gettimeofday", -1}, {"clock_gettime", -1}, {"nanosleep", -1}, {"shutdown", -1}, {"fclose", -1}, {"fflush", -1}, {"fseek", -1}, {"fseeko", -1}, {"ftell", -1}, {"fputs", -1}, {"fputc", -1}, {"puts", -1}, {"fwrite", 0}, {"fread", 0}, {"fopen", 0}, {"fdopen", 0}, {"opendir", 0}, {"realpath", 0}, {"getcwd", 0}, {"getenv", 0}, {"tmpfile", 0}, {"pthread_create", 11}, {"pthread_join", 3}, {"pthread_detach", 3}, {"pthread_mutex_init", 12}, {"pthread_mutex_lock", 35}, {"pthread_mutex_unlock", 1}, {"pthread_mutex_trylock", 16}, {"pthread_cond_init", 12}, {"pthread_cond_wait", 1}, {"pthread_cond_signal", 22}, {"pthread_cond_broadcast", 22}, {"pthread_rwlock_init", 12}, {"pthread_rwlock_rdlock", 35}, {"pthread_rwlock_wrlock", 35}, {"pthread_rwlock_unlock", 1}, {"pthread_attr_init", 12}, {"pthread_attr_setdetachstate", 22}, {"pthread_attr_setstacksize", 22}, {"pthread_sigmask", 22}, {"sigaction", -1}, {"getaddrinfo", -2}, {"getnameinfo", -2}, {"inet_pton", 0}, {"inet_ntop", 0}, {"getpwuid_r", 5}, {"getpwnam_r", 5}, {"getgrgid_r", 5}, {"getgrnam_r", 5}, {"isatty", 0}, {"setrlimit", -1}, {"getrlimit", -1}, {"putenv", -1}, {"setenv", -1},
  {"BIO_meth_new", 0}, {"BIO_new", 0}, {"BIO_new_mem_buf", 0}, {"BIO_read", -1}, {"DH_check", 0}, {"EVP_PKEY_CTX_new_from_pkey", 0}, {"EVP_PKEY_CTX_new_id", 0}, {"EVP_PKEY_CTX_set_dh_paramgen_generator", 0}, {"EVP_PKEY_CTX_set_dh_paramgen_prime_len", 0}, {"EVP_PKEY_Q_keygen", 0}, {"EVP_PKEY_fromdata", 0}, {"EVP_PKEY_fromdata_init", 0}, {"EVP_PKEY_new", 0}, {"EVP_PKEY_param_check", 0}, {"EVP_PKEY_paramgen", 0}, {"EVP_PKEY_paramgen_init", 0}, {"EVP_PKEY_set1_RSA", 0}, {"EVP_RSA_gen", 0}, {"OCIAttrGet", -1}, {"OCIAttrSet", -1}, {"OCIBindByPos", -1}, {"OCIBindDynamic", -1}, {"OCIDefineByPos", -1}, {"OCIDefineDynamic", -1}, {"OCIEnvNlsCreate", -1}, {"OCIHandleAlloc", -1}, {"OCILogon2", -1}, {"OCIParamGet", -1}, {"OCIStmtExecute", -1}, {"OCIStmtFetch2", -1}, {"OCIStmtPrepare2", -1}, {"OCITransCommit", -1}, {"OCITransRollback", -1}, {"PEM_X509_INFO_read_bio", 0}, {"PEM_read_bio_Parameters", 0}, {"PEM_read_bio_PrivateKey", 0}, {"PEM_read_bio_X509", 0}, {"PEM_read_bio_X509_REQ", 0}, {"PEM_write_bio_PrivateKey", 0}, {"PEM_write_bio_X509", 0}, {"PEM_write_bio_X509_REQ", 0}, {"PQconnectdbParams", 0}, {"PQexec", 0}, {"PQprepare", 0}, {"PQresultStatus", 7}, {"PQsendQueryPrepared", 0}, {"PQsetSingleRowMode", 0}, {"PQstatus", 1}, {"SQLAllocHandle", -1}, {"SQLBindCol", -1}, {"SQLBindParameter", -1}, {"SQLDescribeCol", -1}, {"SQLDriverConnect", -1}, {"SQLEndTran", -1}, {"SQLExecute", -1}, {"SQLFetch", -1}, {"SQLGetConnectAttr", -1}, {"SQLGetData", -1}, {"SQLGetInfo", -1}, {"SQLNumResultCols", -1}, {"SQLPrepare", -1}, {"SQLRowCount", -1}, {"SQLSetConnectAttr", -1}, {"SQLSetEnvAttr", -1}, {"SQLSetStmtAttr", -1}, {"SSL_CTX_add1_chain_cert", 0}, {"SSL_CTX_add_extra_chain_cert", 0}, {"SSL_CTX_check_private_key", 0}, {"SSL_CTX_ctrl", 0}, {"SSL_CTX_new", 0}, {"SSL_CTX_set0_tmp_dh_pkey", 0}, {"SSL_CTX_set1_groups_list", 0}, {"SSL_CTX_set_alpn_protos", 1}, {"SSL_CTX_set_cipher_list", 0}, {"SSL_CTX_set_ciphersuites", 0}, {"SSL_CTX_use_PrivateKey", 0}, {"SSL_CTX_use_certificate", 0}, {"SSL_accept", -1}, {"SSL_connect", -1}, {"SSL_ctrl", 0}, {"SSL_get1_peer_certificate", 0}, {"SSL_get_peer_certificate", 0}, {"SSL_get_verify_result", 20}, {"SSL_new", 0}, {"SSL_read", -1}, {"SSL_set0_tmp_dh_pkey", 0}, {"SSL_set_SSL_CTX", 0}, {"SSL_set_session", 0}, {"SSL_write", -1}, {"X509V3_EXT_conf_nid", 0}, {"X509_NAME_add_entry_by_txt", 0}, {"X509_REQ_sign", 0}, {"X509_REQ_verify", 0}, {"X509_STORE_add_cert", 0}, {"X509_STORE_add_crl", 0}, {"X509_STORE_set_flags", 0}, {"X509_add1_ext_i2d", 0}, {"X509_add_ext", 0}, {"X509_check_host", 0}, {"X509_check_private_key", 0}, {"X509_digest", 0}, {"X509_new", 0}, {"X509_set_issuer_name", 0}, {"X509_set_pubkey", 0}, {"X509_set_subject_name", 0}, {"X509_set_version", 0}, {"X509_sign", 0}, {"X509_to_X509_REQ", 0}, {"ares_inet_ntop", 0}, {"ares_inet_pton", 0}, {"ares_init_options", 1}, {"ares_library_init", 1}, {"mysql_autocommit", 1}, {"mysql_commit", 1}, {"mysql_init", 0}, {"mysql_library_init", 1}, {"mysql_options", 1}, {"mysql_optionsv", 1}, {"mysql_query", 1}, {"mysql_real_connect", 0}, {"mysql_real_query", 1}, {"mysql_rollback", 1}, {"mysql_stmt_attr_set", 1}, {"mysql_stmt_bind_param", 1}, {"mysql_stmt_bind_result", 1}, {"mysql_stmt_execute", 1}, {"mysql_stmt_fetch", 1}, {"mysql_stmt_fetch_column", 1}, {"mysql_stmt_init", 0}, {"mysql_stmt_prepare", 1}, {"sqlite3_bind_blob", 1}, {"sqlite3_bind_int", 1}, {"sqlite3_bind_int64", 1}, {"sqlite3_bind_null", 1}, {"sqlite3_bind_text", 1}, {"sqlite3_busy_timeout", 1}, {"sqlite3_clear_bindings", 1}, {"sqlite3_config", 1}, {"sqlite3_exec", 1}, {"sqlite3_extended_result_codes", 1}, {"sqlite3_initialize", 1}, {"sqlite3_open", 1}, {"sqlite3_open_v2", 1}, {"sqlite3_prepare_v2", 1}, {"sqlite3_step", 1}};
}
void writeFail(Engine &E, json::OStream &J, std::map<const Function *, int> &id, int threads) {
  auto &P = E.P; std::vector<const Function *> fs; for (auto *F : P.order) { auto r = retType(F); if (r.k) fs.push_back(F); }
  std::vector<std::vector<json::Value>> out(fs.size()); std::atomic<size_t> nx{0}; std::vector<std::thread> th;
  auto lineOf2 = [](const Instruction *I) -> int64_t { return I->getDebugLoc() ? (int64_t)I->getDebugLoc().getLine() : 0; };
  for (int t = 0; t < threads; t++) th.emplace_back([&] { Ev ev(P); for (size_t i; (i = nx++) < fs.size();) { auto *F = fs[i]; auto rt = retType(F); std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; std::map<const Value *, VS> pre;
      for (auto &I : instructions(const_cast<Function *>(F))) { auto *c = dyn_cast<CallBase>(&I); if (!c || isa<IntrinsicInst>(c) || c->getType()->isVoidTy()) continue; std::string g; RT q; auto *f = c->getCalledFunction();
        if (f && f->isDeclaration()) { auto it = OS.find(f->getName().str()); if (it == OS.end()) continue; g = it->first; q.bad = {it->second}; q.k = 'o'; }
        else if (f) { g = P.fname(f); q = retType(f); if (f == F) continue; }
        else { auto tg = P.targets(c); if (tg.empty()) continue; for (auto *x : tg) if (!x->isDeclaration()) { q = retType(x); break; } auto *L = dyn_cast<LoadInst>(c->getCalledOperand()->stripPointerCasts()); if (!L) continue; int k = P.addrKey(L->getPointerOperand()); if (k <= 0) continue; auto fi = P.keyField[k]; g = "m:" + (fi.first ? P.fieldName(fi.first, fi.second) : P.keyName[k]); }
        if (!q.k || q.k == 'i') continue; if (!DT) { DT = std::make_unique<DominatorTree>(*const_cast<Function *>(F)); LI = std::make_unique<LoopInfo>(*DT); ev.run(F, std::vector<VS>(F->arg_size(), VS::T()), nullptr, VS(), false, 3, nullptr, nullptr, nullptr, &pre); }
        Array a, b; for (auto v : q.bad) for (int m = 0; m < 2; m++) { VS r = ev.run(F, {}, c, VS::K(v), m == 0, 3, DT.get(), LI.get(), &pre); bool strict = !r.top && !r.nz; if (strict) for (auto k : r.s) { if (rt.k == 'i' ? k >= 0 : rt.k == 'e' ? rt.ok.count(k) > 0 : rt.k == 'b' ? k != 0 : k != 0) strict = false; } else if (r.nz && rt.k == 'e' && !rt.ok.count(0)) strict = false; else if (r.nz && rt.k == 'e' && rt.ok.size() == 1) strict = true; if (!strict) (m ? b : a).push_back(v); }
        out[i].push_back(Array{id[F], lineOf2(c), g, std::string(1, q.k), std::string(1, rt.k), (int64_t)q.bad.size(), std::move(a), std::move(b)}); } } });
  for (auto &t : th) t.join();
  J.attributeArray("fails", [&] { for (auto &v : out) for (auto &x : v) J.value(std::move(x)); });
}
