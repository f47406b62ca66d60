"""C14: no hidden static state, no process-wide side effects."""
from vlib import Broken
EXPLANATION = "Who-may-call rule over every call site of the type-checked program (LLVM IR of all libraries, function pointers resolved): no call to, and no taking of the address of, a C library function that returns or modifies hidden static state or that changes process-wide state, except at the confirmed (function, file) sites listed in ALLOW; plus an effect rule: every store to a mutable global or function-static variable of the library happens in one of the confirmed initialise-once, lock-protected or atomic groups listed in GLOBALS."
ASSUMPTIONS = ["calls made inside third-party libraries (OpenSSL, SQL client libraries, c-ares) are not analysed", "the lists of MT-unsafe C library functions are those of POSIX.1-2017 (2.9.1) and the glibc manual", "a global confirmed as protected by a lock is checked against that lock by C03, not here"]
UNSAFE = {n: "keeps hidden static state" for n in """strtok localtime gmtime ctime asctime strerror strsignal rand srand random srandom initstate setstate drand48 erand48 lrand48 nrand48 mrand48 jrand48 srand48 seed48 lcong48
 getpwnam getpwuid getpwent setpwent endpwent getgrnam getgrgid getgrent setgrent endgrent gethostbyname gethostbyname2 gethostbyaddr gethostent getservbyname getservbyport getservent getprotobyname getprotobynumber getprotoent
 sethostent endhostent setservent endservent setprotoent endprotoent setnetent endnetent getnetent getnetbyname getnetbyaddr inet_ntoa ttyname ptsname getlogin tmpnam tempnam mktemp crypt encrypt setkey ecvt fcvt gcvt basename dirname __xpg_basename nl_langinfo localeconv wcstombs mbstowcs mblen mbtowc wctomb
 l64a ether_ntoa ether_aton getopt getopt_long getopt_long_only hsearch hcreate hdestroy getdate getutent getutid getutline pututline fgetgrent fgetpwent getmntent getspnam getspent getrpcbyname getttyent strfry mbrlen mbrtowc wcrtomb wcsrtombs mbsrtowcs
 lgamma gamma gammaf lgammaf getusershell rexec rcmd qecvt qfcvt catgets readdir64_static strptime_static gai_strerror_static cuserid_static ctermid_static getpass re_comp re_exec setgrent64 ERR_error_string_static
 getpw getaliasent getaliasbyname getnetgrent innetgr_static putchar_unlocked getchar_unlocked fgetc_unlocked getc_unlocked putc_unlocked fwrite_unlocked fread_unlocked dlerror_static sigpause siginterrupt system""".split() if not n.endswith("_static")}
PROC = {n: "changes process-wide state" for n in """setlocale umask chdir fchdir chroot putenv setenv unsetenv clearenv signal bsd_signal __sysv_signal sigaction sigset sigignore sigprocmask alarm ualarm setitimer setuid seteuid setgid setegid setreuid setregid setresuid
 setresgid setgroups initgroups nice setpriority setrlimit atexit on_exit tzset setsid setpgid daemon openlog closelog setlogmask mallopt mlockall sethostname settimeofday clock_settime stime adjtime vfork popen exit _exit _Exit quick_exit uselocale ptrace prctl
 sigaltstack raise abort_static kill_static fesetround feenableexcept feclearexcept fesetenv longjmp siglongjmp""".split() if not n.endswith("_static")}
# (callee, file) -> why this is right.  Every entry was read and confirmed.
ALLOW = {
 ("signal", "backtrace/m_backtrace_unx.c"): "M_backtrace_enable/M_backtrace_set_ignore_signals exist to install signal handlers",
 ("sigaction", "backtrace/m_backtrace_unx.c"): "same", ("raise", "backtrace/m_backtrace_unx.c"): "same", ("exit", "backtrace/m_backtrace_unx.c"): "the fatal-signal handler ends the process, documented",
 ("_exit", "backtrace/m_backtrace_unx.c"): "same", ("sigaltstack", "backtrace/m_backtrace_unx.c"): "same",
 ("sigprocmask", "thread/m_thread_coop.c"): "M_thread_coop_sigmask is the sigmask operation of the one-thread model",
 ("setpriority", "thread/m_thread_pthread.c"): "M_thread_set_priority on Linux: applies to one thread id",
 ("chdir", "base/fs/m_fs_path.c"): "M_fs_path_set_cwd exists to change the working directory",
 ("openlog", "log/m_log_syslog.c"): "syslog module, documented: one per process", ("closelog", "log/m_log_syslog.c"): "same",
}
# mutable static storage -> why stores without a lock held are right (read and confirmed); keyed by (variable, file)
INIT = "set by the initialise-once routine / cleared by the library-wide cleanup, both documented to run single-threaded"
GLOBALS = {
 **{(g, "backtrace/m_backtrace.c"): "M_backtrace_enable: documented to be called once at program start" for g in ("M_backtrace_cbs", "M_backtrace_enabled", "M_backtrace_flags", "M_backtrace_type")},
 **{(g, "base/mem/m_mem.c"): "error callback registration: documented as not thread-safe, done at program start" for g in ("error_cbs", "error_cbs_cnt")},
 **{(g, "thread/m_thread.c"): INIT for g in ("M_library_cleanup_list", "M_library_cleanup_lock", "M_library_cleanup_once", "M_thread_init_once", "thread_cbs", "thread_count_mutex", "thread_cpus", "thread_destructor_mutex", "thread_destructors", "thread_model", "threadid_map", "threadid_mutex")},
 **{(g, "thread/m_thread_tls.c"): INIT + "; the key counter is atomic" for g in ("M_thread_tls_key_id", "M_thread_tls_key_mutex", "M_thread_tls_keys", "M_thread_tls_storepool")},
 **{(g, "tls/m_tls.c"): INIT for g in ("M_tls_bio_method", "M_tls_init_once", "M_tls_initialized")},
 **{(g, "sql/m_sql_connpool.c"): INIT for g in ("M_sql_drivers", "M_sql_init_once", "M_sql_lock")},
 **{(g, "sql/sqlite/mstdlib_sql_sqlite.c"): INIT for g in ("sqlite_global_lock", "sqlite_static_mutexes", "sqlite3_temp_directory")},
 **{(g, "sql/postgresql/mstdlib_sql_postgresql.c"): INIT for g in ("pgsql_lock", "pgsql_prior_lockfn")},
 ("odbc_env_handle", "sql/odbc/mstdlib_sql_odbc.c"): INIT, ("coop_active_threads", "thread/m_thread_coop.c"): INIT, ("M_ares_once", "io/net/m_dns.c"): "once object",
}
def run(c):
    n = 0; total = 0
    # what only a forked child executes is C12's subject
    child = set(); parent_lines = set()
    for fk in c.d["forks"]:
        for k in fk["calls"]: child.add((fk["f"], k["l"]))
    def one(name, f, line, how):
        nonlocal n
        why = UNSAFE.get(name) or PROC.get(name)
        if not why: return
        n += 1
        fn = c.fns[f]; file = fn["file"]
        if (f, line) in child: c.sample("%s:%s %s() %s %s: only in the forked child (C12)" % (file, line, fn["name"], how, name)); return
        if (name, file) in ALLOW: c.sample("%s:%s %s() %s %s: confirmed, %s" % (file, line, fn["name"], how, name, ALLOW[name, file])); return
        c.find("%s@%s" % (name, file), "no MT-unsafe or process-wide C library function", file, line, fn["name"], "%s %s(), which %s" % (how, name, why))
    childfns = set()
    for fk in c.d["forks"]: childfns |= {t for k in fk["calls"] for t in k["i"]}
    childfns = {x for x in c.reach(childfns) if all(cl in childfns or any((cl, k["l"]) in child for k in c.bycaller[cl]) for cl in c.fns[x]["callers"]) and not c.fns[x]["addr"]}
    for k in c.calls:
        if k["f"] in childfns: continue
        for a in k.get("a", []):
            if isinstance(a, str) and a.startswith("f:"): one(a[2:], k["f"], k["l"], "passes the address of")
        if "ci" in k: continue
        total += 1
        if "c" in k: one(k["c"], k["f"], k["l"], "calls")
        for t in k.get("t", []):
            if isinstance(t, str): one(t, k["f"], k["l"], "calls through a pointer")
    def walk(v):
        if isinstance(v, list):
            for x in v: yield from walk(x)
        elif isinstance(v, str) and v.startswith("f:"): yield v[2:]
    for g in c.d["globals"]:
        for t in walk(g.get("init")):
            if t in UNSAFE or t in PROC:
                if (t, g["file"]) not in ALLOW: c.find("%s@%s" % (t, g["file"]), "no MT-unsafe or process-wide C library function", g["file"], g["line"], g["name"], "table entry %s(), which %s" % (t, UNSAFE.get(t) or PROC.get(t)))
    c.obl(total); c.need(total, 900, "calls to functions outside the library"); c.need(n, 8, "calls to listed functions (positive control)")
    ns = 0
    for s in c.d["gstores"]:
        if s["tls"] or s["how"] in ("return", "escape", "atomic"): continue
        ns += 1; fn = c.fns[s["f"]]
        if s["held"] or (s["g"], fn["file"]) in GLOBALS: continue
        if s["how"] == "call" and s["callee"] in ("M_thread_once", "M_thread_once_int", "M_thread_once_reset", "M_thread_once_reset_int", "M_atomic_inc_u32", "M_atomic_inc_u64", "M_atomic_dec_u32", "M_atomic_dec_u64", "M_atomic_add_u32", "M_atomic_add_u64", "M_atomic_sub_u32", "M_atomic_sub_u64", "M_atomic_cas32", "M_atomic_cas64"): continue
        c.find("static:%s@%s" % (s["g"], fn["file"]), "static storage is only written under a lock, atomically or during initialisation", fn["file"], s["l"], fn["name"], "%s the static variable %s without holding a lock" % ("passes to %s(), which may write it," % s["callee"] if s["how"] == "call" else "writes", s["g"]))
    c.obl(ns); c.need(ns, 30, "writes to static storage")
