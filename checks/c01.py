"""C01: every lock taken in a library call is released before it returns."""
from vlib import Broken
EXPLANATION = "Path-sensitive typestate of every lock (mutexes, reader/writer locks, spin locks, event-loop locks, I/O object locks): each function is interpreted abstractly with the summaries of its callees, and for every abstract state that reaches a return the net number of times each lock is held compared with entry is computed. Every function that is an entry point of the library (public, used as a callback or thread function, or without a caller) must return with a net change of zero for every lock, except the lock/unlock style functions and the hand-over functions confirmed below; a lock taken again by its holder although it is not recursive, and a lock released twice, are reported where they happen."
ASSUMPTIONS = ["two expressions naming the lock member of the same kind of object inside one function name the same lock when a release would otherwise be unmatched", "a function that creates a lock leaves it unlocked", "loops are analysed to a fixed point with merged states; functions whose path budget is exhausted are only covered up to it (listed in the evidence)"]
# functions that may return with a different set of locks: (function, class) -> (allowed net changes, why)
ALLOW = {
    ("M_tls_serverctx_destroy_real", "M_tls_serverctx.lock"): ({-1}, "releases the lock its caller took, then destroys it"),
    ("M_tls_clientctx_destroy_real", "M_tls_clientctx.lock"): ({-1}, "releases the lock its caller took, then destroys it"),
    ("M_sql_stmt_groupinsert_prepare", "M_sql_stmt.group_lock"): ({1}, "hands the group lock over to M_sql_stmt_execute"),
    ("M_sql_stmt_groupinsert_prepare_buf", "M_sql_stmt.group_lock"): ({1}, "hands the group lock over to M_sql_stmt_execute"),
    ("M_sql_stmt_execute", "M_sql_stmt.group_lock"): ({-1}, "releases the group lock M_sql_stmt_groupinsert_prepare took"),
    ("M_io_lock", "event"): ({1}, "lock function"), ("M_io_unlock", "event"): ({-1}, "unlock function"),
    ("M_io_layer_acquire", "io"): ({1}, "lock function"), ("M_io_layer_release", "io"): ({-1}, "unlock function"),
    ("M_io_close", "io"): ({1, -1}, "takes and releases the lock under the same condition on a member that is read twice"),
    ("M_event_lock", "M_event_loop.lock"): ({1}, "lock function"), ("M_event_unlock", "M_event_loop.lock"): ({-1}, "unlock function"),
}
# lock implementations: (file, class prefix)
IMPL = [("thread/m_thread_pthread.c", "param:"), ("sql/postgresql/mstdlib_sql_postgresql.c", "@pgsql_lock"), ("sql/sqlite/mstdlib_sql_sqlite.c", "union.anon"), ("sql/sqlite/mstdlib_sql_sqlite.c", "sqlite3_mutex")]
PRIMS = [("M_thread_pthread_mutex_lock", "param:", {1}), ("M_thread_pthread_mutex_trylock", "param:", {1}), ("M_thread_pthread_mutex_unlock", "param:", {-1}), ("pgsql_threadlock", "@pgsql_lock", {1, -1}), ("sqlite_mutex_enter", "", {1}), ("sqlite_mutex_try", "", {1}), ("sqlite_mutex_leave", "", {-1})]
LOCKS = ("M_thread_mutex_lock", "M_thread_mutex_unlock", "M_thread_rwlock_lock", "M_thread_rwlock_unlock", "M_thread_spinlock_lock", "M_thread_spinlock_unlock", "M_event_lock", "M_event_unlock", "M_io_lock", "M_io_unlock", "M_io_layer_acquire", "M_io_layer_release")
def run(c):
    called = set()
    for k in c.calls:
        if "ci" in k: called.add(k["ci"])
    sites = [k for k in c.calls if k.get("c") in LOCKS]
    c.need(len(sites), 400, "calls of lock and unlock functions")
    using = {k["f"] for k in sites}; c.need(len(using), 250, "functions that take or release locks")
    for i, f in enumerate(c.fns):
        root = f["public"] or f["addr"] or i not in called
        if root or i in using: c.obl()
        ex = f.get("lockexits") or []
        if i in using and len(c.samples) < 8: c.sample("%s %s: %d blocks, every return reached with %s" % (f["file"], f["name"], f["blocks"], "no net change" if not ex else str([[e[0], e[1]] for e in ex])))
        if not root: continue
        for cls, d, line, ret in ex:
            a = ALLOW.get((f["name"], cls))
            if a and d in a[0]: continue
            if any(f["file"] == fl and cls.startswith(p) for fl, p in IMPL): continue
            if cls == "M_sql_stmt.group_lock" and d < 0 and f["file"] != "sql/m_sql_stmt.c": continue  # only a statement prepared as a group insert holds this lock when it is executed
            what = "%s is still held" % cls if d > 0 else "%s is released more often than it was taken" % cls
            c.find("%s:%s" % (f["name"], cls), "entry points return with the locks they were entered with", f["file"], line, f["name"], "%s at the return reached from line %d (net %+d, operation at line %d)" % (what, ret, d, line))
    for r in c.reports("doublelock", "doubleunlock"):
        c.find("%s:%s:%s" % (r["kind"], r["fn"], r["key"]), "a lock is taken and released alternately", r["file"], r["line"], r["fn"], r["msg"], r.get("path"))
    # the lock and unlock functions themselves still do what their callers rely on
    for (name, cls), (ds, why) in list(ALLOW.items()) + [((n, k), (d, "lock primitive")) for n, k, d in PRIMS]:
        f = c.fn(name, False)
        if not f or name == "M_io_close": continue
        c.obl(); got = {e[1] for e in f.get("lockexits") or [] if e[0].startswith(cls)}
        for d in sorted(ds - got): c.find("lost:%s:%+d" % (name, d), "lock, unlock and hand-over functions change the lock they are named for", f["file"], f["line"], name, "%s(): no path returns with %s changed by %+d any more (%s)" % (name, cls, d, why))
    t = [f["name"] for i, f in enumerate(c.fns) if f["trunc"] and i in using]
    c.cov["lock-using functions explored only up to the path budget"] = ", ".join(sorted(t)[:60]) or "none"
