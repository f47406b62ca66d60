// Models of the library's primitives and of external functions.
static const std::set<std::string> &recursiveLocks() {
  // mutexes created with M_THREAD_MUTEXATTR_RECURSIVE (computed by main from the creation sites)
  static std::set<std::string> s; return s;
}
std::set<std::string> gRecursiveLocks;
bool isRecursiveLock(const std::string &c) { (void)recursiveLocks; return gRecursiveLocks.count(c) > 0 || c == "event" || c == "io" || c == "layer"; }
bool extNoRetain(const std::string &n) {
  static const std::set<std::string> keep = {"pthread_create", "makecontext", "sigaction", "signal", "openlog", "setvbuf", "atexit"};
  // libc, libpthread do not keep the pointers they are given (except those above); third-party libraries may
  static const char *third[] = {"SSL", "BIO_", "X509", "EVP", "OPENSSL", "CRYPTO", "sqlite3", "PQ", "mysql", "SQL", "ASN1", "EC_", "PEM", "RSA", "DH_", "BN_", "GENERAL", "CONF", "ERR", "TLS_", "HMAC", "RAND", "ares_", "DSA", "i2d", "d2i", "dl", "sk_", "OSSL", "ENGINE", "PKCS"};
  // these copy what they are given or only fill it in
  static const char *copies[] = {"BIO_read", "BIO_write", "BIO_puts", "SSL_read", "SSL_write", "SSL_set1", "SSL_CTX_set_alpn_protos", "SSL_CTX_set_cipher", "EVP_Digest", "EVP_Encrypt", "EVP_Decrypt", "HMAC", "RAND_", "X509_NAME_oneline", "X509_digest", "X509_VERIFY_PARAM_set1", "i2d_", "d2i_", "PEM_read", "PEM_write",
    "PQconnect", "PQexec", "PQprepare", "PQescape", "SQLDescribeCol", "SQLDriverConnect", "SQLGetDiagRec", "SQLExecDirect", "SQLPrepare", "SQLAllocHandle", "ares_timeout", "ares_set_servers", "sqlite3_mprintf", "sqlite3_snprintf", "sqlite3_prepare", "sqlite3_open", "sqlite3_free", "mysql_real_", "mysql_options", "mysql_stmt_prepare", "dl"};
  if (keep.count(n)) return false;
  for (auto *t : copies) if (n.rfind(t, 0) == 0) return true;
  for (auto *t : third) if (n.rfind(t, 0) == 0) return false;
  return true;
}
bool extPure(const std::string &n) {
  static const std::set<std::string> s = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "strpbrk", "strspn", "strcspn", "memcmp", "memchr", "free", "malloc", "abort", "exit", "_exit", "close", "write", "fwrite", "fputs", "unlink", "rename", "access", "kill", "__errno_location", "getpid", "sysconf", "open", "shutdown", "send", "connect", "bind", "listen", "setsockopt", "fcntl", "fsync", "lseek", "mkdir", "rmdir", "chmod", "chown", "symlink", "strerror", "fclose", "closedir", "dup", "dup2", "getuid"};
  return s.count(n) > 0;
}
bool extDerefs(const std::string &n, size_t a) {
  static const std::set<std::string> s0 = {"strlen", "strchr", "strrchr", "fclose", "closedir", "readdir", "strdup", "fwrite0"};
  static const std::set<std::string> s01 = {"strcmp", "strncmp", "strcasecmp", "strncasecmp", "strstr", "strpbrk", "strspn", "strcspn"};
  if (a == 0 && (s0.count(n) || s01.count(n))) return true;
  return a == 1 && s01.count(n);
}
// Containers take over the value they are given (and hand out nodes that stay theirs)
static bool takesValue(const std::string &n) {
  static const std::set<std::string> s = {"M_llist_insert", "M_llist_insert_first", "M_llist_insert_before", "M_llist_insert_after", "M_list_insert", "M_list_insert_at", "M_list_insert_idx", "M_queue_insert", "M_hashtable_insert",
    "M_hash_u64vp_insert", "M_hash_strvp_insert", "M_hash_multi_u64_insert_vp", "M_hash_multi_str_insert_vp", "M_io_layer_add", "M_cache_insert", "M_cache_strvp_insert"};
  return s.count(n) > 0;
}
static bool copiesValue(const std::string &n) { // stores a copy, may hand out a node of its own
  static const std::set<std::string> s = {"M_llist_str_insert", "M_llist_str_insert_first", "M_llist_str_insert_before", "M_llist_str_insert_after", "M_llist_u64_insert", "M_llist_bin_insert", "M_llist_bin_insert_first", "M_llist_bin_insert_before", "M_llist_bin_insert_after"};
  return s.count(n) > 0;
}
bool Interp::model(State &s, const CallBase *CB, const std::string &n, const std::vector<S> &args, std::vector<State> &outs) {
  if (F && (takesValue(n) || copiesValue(n)) && args.size() >= 2 && fi.name != n) {
    for (size_t i = 0; i < args.size(); i++) { S r = rootOf(args[i]); if (auto *o = s.objs.find(r)) if (o->st == O_FREED && args[i]->k != INT) { report(s, "uaf", CB, symStr(r, &P, F) + " is passed to " + n + "() after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); return true; } if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63); }
    if (takesValue(n)) for (size_t i = 1; i < args.size(); i++) escape(s, args[i]);
    auto tg = P.targets(CB); if (!tg.empty()) if (auto *ci = P.info(tg[0])) havocCall(s, args, &ci->mods, false);
    if (!CB->getType()->isVoidTy()) { S u = fresh(s, CB); if (CB->getType()->isPointerTy()) { if (nonNull(s, args[0])) s.facts.set(u, Rng::of(4096, INT64_MAX)); } else s.facts.set(u, Rng::of(0, 1)); setv(s, CB, u); }
    outs.push_back(std::move(s)); return true; }
  auto ret = [&](State t, S v) { if (!CB->getType()->isVoidTy() && v) setv(t, CB, v); outs.push_back(std::move(t)); };
  auto a = [&](size_t i) -> S { return i < args.size() ? args[i] : A.num(0); };
  auto touched = [&](size_t i) { S r = rootOf(a(i)); if (r->k == ARG) O.sum.touched |= 1ull << std::min<int64_t>(r->a, 63); };
  auto uafCheck = [&](size_t i) -> bool { S r = rootOf(a(i)); if (auto *o = s.objs.find(r)) if (o->st == O_FREED) { report(s, "uaf", CB, symStr(r, &P, F) + " is passed to " + n + "() after it was released at line " + std::to_string(lineOf((const Instruction *)o->rel)), symStr(canon(r), &P, F)); return true; } touched(i); return false; };
  if (n == "M_malloc" || n == "M_malloc_zero" || n == "malloc" || n == "calloc") {
    S h = newObj(s, CB, 0, RK_MEM, n == "M_malloc_zero" || n == "calloc"); ret(s, h); return true; }
  if (n == "M_realloc" || n == "M_realloc_zero" || n == "realloc") {
    if (uafCheck(0)) return true;
    S p = a(0); State t = s; // contents are carried over
    S root = p; std::vector<std::pair<S, Cell>> cp; for (auto &[k, c] : t.mem.v) { S rk = rootOf(k); if (rk == root) { int64_t o = k == rk ? 0 : k->k == OFF && k->x == rk ? k->a : -1; if (o >= 0) cp.push_back({A.num(o), c}); } }
    std::vector<S> contents; for (auto &[k, c] : t.mem.v) if (rootOf(k) == root) contents.push_back(c.val);
    bool esc = false; if (auto *o = t.objs.find(root)) esc = o->st == O_ESC;
    (void)esc;
    if (loops(CB)) { redefine(t, CB); if (root->p == CB && root->k == HEAP) { root = A.get(PREV, 0, nullptr, root); p = root; } }
    doFree(t, p, CB, false, RK_MEM);
    if (loops(CB)) { }
    S h = A.get(HEAP, 0, CB); t.objs.set(h, Obj{O_ALLOC, RK_MEM, false, false, CB, nullptr}); t.facts.set(h, Rng::of(4096, INT64_MAX));
    for (auto &[o, c] : cp) t.mem.set(mkOff(h, o->a), c);
    ret(t, h); return true; }
  if (n == "M_free" || n == "free" || n == "sqlite3_free_none") {
    S p = a(0); if (p->k == INT || isNull(s, p)) { outs.push_back(s); return true; }
    doFree(s, p, CB, false, RK_MEM); outs.push_back(std::move(s)); return true; }
  if ((n == "M_buf_finish" || n == "M_buf_finish_str") && args.size() == 2 && fi.name != "M_buf_finish_str") { // the collected bytes become the caller's
    S b = a(0); if (b->k == INT || isNull(s, b)) { ret(s, A.num(0)); return true; }
    if (uafCheck(0)) return true;
    std::vector<S> vs; for (auto &[k, c] : s.mem.v) if (rootOf(k) == b) vs.push_back(c.val); 
    doFree(s, b, CB, true, RK_MEM); (void)vs;
    if (!isNull(s, a(1)) && a(1)->k != INT) store(s, a(1), fresh(s, CB, 7), P.addrKey(CB->getArgOperand(1)));
    State z = s; ret(z, A.num(0));
    S h = newObj(s, CB, 0, RK_MEM, false); ret(s, h); return true; }
  if (n == "M_memdup" || n == "M_memdup_max") {
    State z = s; if (narrow(z, a(0), Rng::one(0))) { if (n == "M_memdup") ret(z, A.num(0)); else { S h = newObj(z, CB, 0, RK_MEM, false); ret(z, h); } }
    if (uafCheck(0)) return true;
    if (narrow(s, a(0), Rng::ne(0))) { S h = newObj(s, CB, 0, RK_MEM, false); ret(s, h); } return true; }
  if (n == "M_strdup" || n == "M_strdup_max" || n == "M_strdup_trim" || n == "M_strdup_lower" || n == "M_strdup_upper" || n == "M_strdup_unquote") {
    if (uafCheck(0)) return true;
    State z = s; if (narrow(z, a(0), Rng::one(0))) ret(z, A.num(0));
    if (narrow(s, a(0), Rng::ne(0))) { S h = newObj(s, CB, 0, RK_MEM, false); ret(s, h); } return true; }
  if (n == "M_mem_set") { State t = s; S d = a(0); if (isNull(t, d)) { ret(t, d); return true; } if (uafCheck(0)) return true; S r = rootOf(d); S v = norm(t, a(1)); fillRange(t, d, v, norm(t, a(2)));
    bool zero = v->k == INT && v->a == 0 && d == r && localRoot(t, r); if (auto *o = t.objs.find(r)) o->zero = zero; else if (r->k == ALLOCA && zero) t.objs.set(r, Obj{O_ALLOC, RK_OTHER, true, false, nullptr, nullptr});
    if (!localRoot(t, r)) bset(t.clob, P.addrKey(CB->getArgOperand(0))); ret(t, d); return true; }
  if (n == "M_mem_copy" || n == "M_mem_move") { State t = s; S d = a(0); if (isNull(t, d)) { ret(t, d); return true; } if (uafCheck(0) || uafCheck(1)) return true; S r = rootOf(d), rq = rootOf(a(1)); 
    // pointers copied wholesale are shared with the destination
    std::vector<S> vs; if (rq != r) for (auto &[k, c] : t.mem.v) if (rootOf(k) == rq) vs.push_back(c.val); for (S v : vs) escape(t, v);
    { S q = norm(t, a(2)); int64_t doff = d == r ? 0 : d->k == OFF && d->x == r ? d->a : -1; std::vector<S> lost;
      t.mem.eraseIf([&](S k, Cell &c) { if (rootOf(k) != r || r == rq) return false; int64_t o = k == r ? 0 : k->k == OFF && k->x == r ? k->a : -1; if (doff >= 0 && o >= 0 && (o < doff || (q->k == INT && o >= doff + q->a))) return false; if (c.val->hasLocal) lost.push_back(c.val); return true; });
      for (S v : lost) escape(t, v); }
    if (auto *o = t.objs.find(r)) o->zero = false; if (!localRoot(t, r)) bset(t.clob, P.addrKey(CB->getArgOperand(0))); ret(t, d); return true; }
  if ((n == "M_str_eq" || n == "M_str_caseeq") && args.size() == 2) { // the same question has the same answer
    if (uafCheck(0) || uafCheck(1)) return true; S x = a(0), y = a(1); if (x == y) { ret(s, A.num(1)); return true; } if (y->id < x->id) std::swap(x, y);
    if (!x->hasLocal && !y->hasLocal && x->depth < 8 && y->depth < 8) { S c = A.get(BIN, n == "M_str_eq" ? 900 : 901, nullptr, x, y); if (!s.facts.find(c)) s.facts.set(c, Rng::of(0, 1)); ret(s, c); return true; }
    S u = fresh(s, CB); s.facts.set(u, Rng::of(0, 1)); ret(s, u); return true; }
  // ---- locks ----
  struct LockFn { const char *n; int d; };
  static const LockFn lf[] = {{"M_thread_mutex_lock", 1}, {"M_thread_mutex_unlock", -1}, {"M_thread_rwlock_lock", 1}, {"M_thread_rwlock_unlock", -1}, {"M_thread_spinlock_lock", 1}, {"M_thread_spinlock_unlock", -1}, {"M_atomic_spin_lock", 1}, {"M_atomic_spin_unlock", -1}, {"pthread_mutex_lock", 1}, {"pthread_mutex_unlock", -1}};
  for (auto &l : lf) if (n == l.n) {
    int cls = lockClassOf(CB->getArgOperand(0), a(0)); if (uafCheck(0)) return true;
    if (isNull(s, a(0))) { if (l.d < 0 && a(0)->k != INT) lockOp(s, a(0), -1, cls, CB, true); ret(s, A.num(0)); return true; }
    lockOp(s, a(0), l.d, cls, CB); S v = nullptr; if (!CB->getType()->isVoidTy()) v = n[0] == 'p' ? A.num(0) : A.num(1); ret(s, v); return true; }
  if (n == "M_thread_mutex_trylock" || n == "pthread_mutex_trylock") {
    int cls = lockClassOf(CB->getArgOperand(0), a(0)); State t = s; bool p = n[0] == 'p'; if (p) { if (loops(CB)) redefine(t, CB); S u = A.get(UNK, 0, CB); t.facts.set(u, Rng::ne(0)); ret(t, u); } else ret(t, A.num(0)); lockOp(s, a(0), 1, cls, CB); ret(s, A.num(p ? 0 : 1)); return true; }
  if (n == "M_event_lock" || n == "M_event_unlock") { if (uafCheck(0)) return true; if (isNull(s, a(0))) { if (n == "M_event_unlock" && a(0)->k != INT) lockOp(s, a(0), -1, E.classId("event"), CB, true); ret(s, nullptr); return true; } lockOp(s, a(0), n == "M_event_lock" ? 1 : -1, E.classId("event"), CB); ret(s, nullptr); return true; }
  if (n == "M_io_lock" || n == "M_io_unlock") { if (uafCheck(0)) return true; if (isNull(s, a(0))) { if (n == "M_io_unlock" && a(0)->k != INT) lockOp(s, a(0), -1, E.classId("io"), CB, true); ret(s, nullptr); return true; } lockOp(s, a(0), n == "M_io_lock" ? 1 : -1, E.classId("io"), CB); ret(s, nullptr); return true; }
  if (n == "M_io_layer_acquire") { if (loops(CB)) redefine(s, CB); State t = s; ret(t, A.num(0)); if (isNull(s, a(0))) return true; S u = A.get(UNK, 0, CB); s.facts.set(u, Rng::of(4096, INT64_MAX)); narrow(s, a(0), Rng::ne(0)); setv(s, CB, u); lockOp(s, u, 1, E.classId("layer"), CB); outs.push_back(std::move(s)); return true; }
  if (n == "M_io_layer_release") { if (isNull(s, a(0))) { if (a(0)->k != INT) lockOp(s, a(0), -1, E.classId("layer"), CB, true); ret(s, nullptr); return true; } if (uafCheck(0)) return true; lockOp(s, a(0), -1, E.classId("layer"), CB); ret(s, nullptr); return true; }
  if (n == "M_thread_cond_wait" || n == "M_thread_cond_timedwait" || n == "M_thread_cond_timedwait_abs") { State t = s; Bits b; t.clobAll = true; std::vector<S> none; havocCall(t, none, &b, true); if (loops(CB)) redefine(t, CB); S u = A.get(UNK, 0, CB); t.facts.set(u, Rng::of(0, 1)); ret(t, u); return true; }
  if (n == "M_thread_mutex_create" || n == "M_thread_rwlock_create" || n == "M_thread_cond_create") { S h = newObj(s, CB, 0, RK_MEM, false); ret(s, h); return true; }
  if (n == "M_thread_mutex_destroy" || n == "M_thread_rwlock_destroy" || n == "M_thread_cond_destroy") { if (isNull(s, a(0))) { outs.push_back(s); return true; } doFree(s, a(0), CB, true, RK_MEM); outs.push_back(std::move(s)); return true; }
  // ---- system resources ----
  static const std::map<std::string, int> openers = {{"open", RK_FD}, {"socket", RK_FD}, {"accept", RK_FD}, {"accept4", RK_FD}, {"dup", RK_FD}, {"epoll_create", RK_FD}, {"epoll_create1", RK_FD}, {"kqueue", RK_FD}, {"eventfd", RK_FD}, {"fopen", RK_FILE}, {"fdopen", RK_FILE}, {"opendir", RK_DIR}, {"creat", RK_FD}, {"timerfd_create", RK_FD}, {"inotify_init1", RK_FD}};
  auto op = openers.find(n);
  if (op != openers.end()) { if (loops(CB)) redefine(s, CB); State t = s; ret(t, A.num(op->second == RK_FD ? -1 : 0)); S h = newObj(s, CB, 0, op->second, false); ret(s, h); return true; }
  if (n == "pipe" || n == "pipe2" || n == "socketpair") { size_t ix = n == "socketpair" ? 3 : 0; if (loops(CB)) redefine(s, CB); State t = s; ret(t, A.num(-1)); S r = a(ix); S h0 = A.get(HEAP, 0, CB), h1 = A.get(HEAP, 1, CB); for (S h : {h0, h1}) { s.objs.set(h, Obj{O_ALLOC, RK_FD, false, false, CB, nullptr}); s.facts.set(h, Rng::of(0, INT32_MAX)); } store(s, r, h0, P.rawKey); store(s, mkOff(r, 4), h1, P.rawKey); ret(s, A.num(0)); return true; }
  if (n == "close" || n == "fclose" || n == "closedir") { S v = a(0); while (v->k == CAST) v = v->x; int kind = n == "close" ? RK_FD : n == "fclose" ? RK_FILE : RK_DIR;
    auto *o = s.objs.find(v); if (o || (v->k != INT && kind != RK_FD)) doFree(s, v, CB, false, kind); else if (v->k != INT && kind == RK_FD && v->k != UNDEF) { doFree(s, v, CB, false, kind); }
    if (loops(CB)) redefine(s, CB); S u = A.get(UNK, 0, CB); ret(s, u); return true; }
  return false;
}
