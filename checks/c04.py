"""C04: no library lock is held while application code runs."""
import collections
from locksets import callsites, norm, local
from checks.c02 import follow
EXPLANATION = "For every function the locks its caller may still hold when it is entered are computed over the whole call graph (union over all call sites of the locks the caller may hold, minus what is certainly released again before the call; callback slots resolved to every function stored in them). At every indirect call through which the library runs a function supplied by the application, the resulting set of locks has to be empty. Calls through the library's own tables (I/O layers, SQL drivers, thread models, log modules, event back ends) and the callbacks of containers and parsers, which run on behalf of the caller of that very function, are not deliveries to the application."
ASSUMPTIONS = ["application locks are not the library's concern", "the logger runs its prefix, filter and expiry callbacks under its own lock (documented: they must not log)", "the SQL trace callback runs under the pool lock and I/O trace callbacks run inside their layer, under the event lock"]
# (directory or file, slot prefix) that are not the application's
INTERNAL = [("base/", ""), ("formats/", ""), ("text/", ""), ("tls/", ""),
            ("", "m:M_io_callbacks."), ("", "m:M_sql_driver_t."), ("", "m:M_thread_model_callbacks_t."), ("thread/m_thread", "m:@thread_cbs"), ("", "m:M_log_module."), ("", "m:M_log."), ("log/", "m:M_async_writer.destroy_cb"),
            ("io/m_event", "m:M_backtrace_callbacks."), ("sql/", "m:odbc_"), ("sql/", "m:@odbc"), ("io/m_io_trace.c", ""), ("io/net/m_dns.c", "a:"), ("sql/", "r:M_sql_connpool_get_cb"), ("backtrace/", ""), ("sql/m_sql_connpool.c", "a:1")]
def internal(file, s):
    ss = s if isinstance(s, list) else [s]
    return all(any(file.startswith(d) and str(x).startswith(p) for d, p in INTERNAL) for x in ss)
def may_entry(c):
    sites = callsites(c)
    M = [{} for _ in c.fns]
    def hold(k):
        r = norm(k.get("rel", ())); h = {x: None for x in norm(k.get("may", ())) if not local(x)}
        for x in M[k["f"]]:
            if x not in r: h[x] = k["f"]
        return h
    real = collections.defaultdict(set)
    for t, ks in sites.items():
        for k in ks: real[id(k)].add(t)
    work = collections.deque(range(len(c.fns))); inq = set(work)
    while work:
        i = work.popleft(); inq.discard(i)
        for k in c.bycaller[i]:
            if k.get("dead") or not follow(k): continue
            h = hold(k)
            if not h: continue
            for t in real.get(id(k), ()):
                new = [x for x in h if x not in M[t]]
                for x in new: M[t][x] = (i, k["l"])
                if new and t not in inq: inq.add(t); work.append(t)
    # recursive locks: functions that may be entered with a lock held twice, so that releasing it once does not release it
    D = [set() for _ in c.fns]
    work = collections.deque(range(len(c.fns)))
    while work:
        i = work.popleft()
        for k in c.bycaller[i]:
            if k.get("dead") or not follow(k): continue
            may = norm(k.get("may", ())); rel = norm(k.get("rel", ()))
            two = {x for x in M[i] if x in may and x not in rel and not local(x)} | {x for x in D[i] if x not in rel}
            if not two: continue
            for t in real.get(id(k), ()):
                if not two <= D[t]: D[t] |= two; work.append(t)
    return M, D, hold
def run(c):
    M, D, hold = may_entry(c)
    per = collections.Counter(); n = 0
    for k in c.calls:
        if "c" in k or k.get("dead"): continue
        f = c.fns[k["f"]]; s = k.get("s")
        if internal(f["file"], s): continue
        n += 1; c.obl(); per[f["file"].split("/")[0]] += 1
        h = set(hold(k)) | {x for x in D[k["f"]] if x in norm(k.get("rel", ()))}
        slot = s[2:] if isinstance(s, str) and s[:2] == "m:" and not s[2:].startswith(("M_llist_callbacks.", "anon.", "M_queue.", "M_email_part_t", "retry_msg_t")) else c.oname(k["f"])
        c.sample("%s:%d %s runs %s holding %s" % (f["file"], k["l"], f["name"], slot, sorted(h) or "nothing"))
        for x in sorted(h):
            path = []; i = k["f"]; seen = set()
            while i is not None and x in M[i] and i not in seen and x not in norm(k.get("may", ())):
                seen.add(i); j, l = M[i][x]; path.append("%s:%d %s" % (c.fns[j]["file"], l, c.fns[j]["name"])); i = j
            c.find("cb:%s:%s" % (slot, x), "no lock of the library is held while an application callback runs", f["file"], k["l"], f["name"], "the application callback %s may be called while %s is held%s" % (slot, x, " (held since " + " <- ".join(path) + ")" if path else ""))
    c.need(n, 42, "calls of application callbacks")
    for d, least in (("io", 3), ("thread", 5), ("log", 3), ("net", 18), ("sql", 5)): c.need(per[d], least, "callback calls in " + d)
    c.cov["functions entered with a lock possibly held"] = sum(1 for m in M if m)
