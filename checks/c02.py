"""C02: the library's locks are taken in one fixed order."""
import collections
from vlib import Broken
EXPLANATION = "Lock-order graph over kinds of locks (the member or global that holds the lock). For every call site the path-sensitive lock analysis gives the locks possibly held; for every function the kinds of locks it may take, directly or through its callees (callback slots resolved to every function stored in them), minus the locks it has certainly released again by then. An edge A -> B is recorded for every site where B may be taken while A may be held. The rule: the graph has no cycle, and no self-loop on a lock that is not recursive. Locks that are taken again by their holder must be created recursive. At every call that waits for another thread (join, condition, sleep, event loop, writer shutdown) no lock is held but the one the wait releases."
ASSUMPTIONS = ["locks of the same kind belonging to different objects are not distinguished; nesting two objects of one recursive kind is not judged", "application callbacks are not followed (C04 covers what is held around them)", "all locks reached through an I/O object or an event handle are the lock of the event loop it is registered with"]
from locksets import EV, norm, local, entry_must
PRIM = {"M_thread_mutex_lock", "M_thread_rwlock_lock", "M_thread_spinlock_lock"}
# order pairs that can not be two live locks in opposite order, confirmed by hand: (held, taken, function) -> why
ALLOW = {
    ("M_net_smtp_endpoint_t.sessions_rwlock", "M_net_smtp_endpoint_t.sessions_rwlock", "M_net_smtp_endpoint_destroy"): "the sessions are destroyed with is_remove_from_endpoint FALSE, the branch that takes the lock is not reached",
    ("M_dns.lock", "M_event_loop.lock", "M_io_dns_process_cb"): "the timer is only removed for a DISCONNECTED event, which the event loop delivers with its lock already held (recursive)",
}
RECURSIVE = {"M_event_loop.lock"}
# callback slots of generic containers: what is stored there depends on the container, the type-based resolution would mix all of them
GENERIC = ("M_list.", "M_llist.", "M_llist_callbacks.", "M_hashtable.", "M_cache.", "M_queue.", "union.anon", "M_io_handle", "M_email_part_t.", "M_thread_model_callbacks_t.", "M_backtrace_callbacks.", "odbc_connpool_data_t.")
OPAQUE = {"M_thread_auto_init"}  # one-time initialisation, done before any of the library's locks exists
import os
DUMP = os.environ.get('C02DUMP')
# waiting for another thread, directly in the function that holds the locks
WAIT = {"M_thread_join", "M_event_loop", "M_thread_sleep", "M_thread_cond_wait", "M_thread_cond_timedwait", "M_threadpool_destroy", "M_threadpool_parent_wait", "M_thread_pipeline_wait", "M_async_writer_destroy_blocking", "M_async_writer_stop", "M_async_writer_set_command_block", "M_log_destroy_blocking", "M_io_block_read", "M_io_block_write", "M_io_block_connect", "M_io_block_disconnect", "M_io_block_accept", "waitpid"}
WAITALLOW = {("M_async_writer_set_command_block", "M_async_writer.block_cmd_lock"): "taken by nothing else: it only serialises the callers of this function, and the writer thread never takes it"}
def waits(k, entry):
    """the locks that may be held, apart from the one the wait itself releases"""
    h = norm(k.get("may", ())) | (set(entry) - norm(k.get("rel", ())))
    if k["c"].startswith("M_thread_cond_"):
        m = k["a"][1]
        if isinstance(m, str): h.discard(m[2:])
    return {x for x in h if not local(x)}
def follow(k):
    if "c" in k: return k["c"] not in PRIM and k["c"] not in OPAQUE and not k["c"].endswith("_unlock")
    s = k.get("s"); ss = s if isinstance(s, list) else [s]
    return not any(isinstance(x, str) and x[2:].startswith(GENERIC) for x in ss)
def run(c):
    direct = collections.defaultdict(set)
    for a in c.d["acquires"]:
        cls = EV.get(a["cls"], a["cls"])
        if not local(cls): direct[a["f"], a["l"]].add(cls)
    c.need(len(direct), 250, "lock acquisition sites")
    rec = {}
    for f, l, cls, r in c.d["mutexes"]: rec[EV.get(cls, cls)] = rec.get(EV.get(cls, cls), True) and r
    EM = entry_must(c); again = collections.defaultdict(list)
    def reheld(k, cls):  # taken again by a thread that certainly holds this recursive lock already
        e = EM[k["f"]] or ()
        if not (rec.get(cls, False) or cls in RECURSIVE): return False
        if cls in (set(e) - norm(k.get("rel", ()))) | norm(k.get("must", ())): again[cls].append((k["f"], k["l"])); return True
        return False
    # transitive: function -> class -> (released sets intersected, witness)
    TA = [dict() for _ in c.fns]
    def add(i, cls, rel, wit):
        o = TA[i].get(cls)
        if o is None: TA[i][cls] = (frozenset(rel), wit); return True
        n = o[0] & frozenset(rel)
        if n != o[0]: TA[i][cls] = (n, o[1]); return True
        return False
    for k in c.calls:
        for cls in direct.get((k["f"], k["l"]), ()):
            if k.get("c") in PRIM or k.get("c", "").startswith("pthread_mutex"):
                if not reheld(k, cls): add(k["f"], cls, norm(k.get("rel", ())), (k["f"], k["l"], k["c"]))
    for (f, l), s in direct.items():
        for cls in s:
            if cls not in TA[f]:
                ks = [k for k in c.bycaller[f] if k["l"] == l]
                rel = None
                for k in ks: rel = norm(k.get("rel", ())) if rel is None else rel & norm(k.get("rel", ()))
                if any(not reheld(k, cls) for k in ks): add(f, cls, rel or set(), (f, l, "lock"))
    users = collections.defaultdict(list)
    for k in c.calls:
        if k.get("dead") or not follow(k): continue
        for t in c.targets(k): users[t].append(k)
    work = collections.deque(i for i in range(len(c.fns)) if TA[i]); inq = set(work)
    while work:
        g = work.popleft(); inq.discard(g)
        for k in users[g]:
            rel = norm(k.get("rel", ()))
            for cls, (r, w) in list(TA[g].items()):
                if add(k["f"], cls, rel | r, (k["f"], k["l"], c.fns[g]["name"])) and k["f"] not in inq: inq.add(k["f"]); work.append(k["f"])
    edges = {}  # (A,B) -> list of sites
    nsite = 0
    for k in c.calls:
        H = norm(k.get("may", ()))
        if not H or k.get("dead"): continue
        nsite += 1
        taken = {}
        for t in c.targets(k) if follow(k) else ():
            for cls, (r, w) in TA[t].items(): taken.setdefault(cls, (r, t))
        if k.get("c") in PRIM:
            for cls in direct.get((k["f"], k["l"]), ()): taken[cls] = (frozenset(), None)
        for b, (r, t) in taken.items():
            for a in H - r:
                if local(a) or local(b): continue
                if a != b and reheld(k, b): continue
                if (a, b, c.fns[k["f"]]["name"]) in ALLOW: continue
                edges.setdefault((a, b), []).append((k["f"], k["l"], k.get("c") or k.get("s") or "?", t))
    c.obl(nsite); c.need(nsite, 300, "calls made while a lock may be held")
    def wit(a, b):
        f, l, cal, t = edges[a, b][0]
        s = "%s:%d %s() calls %s" % (c.fns[f]["file"], l, c.fns[f]["name"], cal)
        n = 0
        while t is not None and b in TA[t] and n < 8:
            ff, ll, via = TA[t][b][1]; s += " -> %s:%d %s" % (c.fns[ff]["file"], ll, via)
            if via in PRIM or via == "lock": break
            nx = [x for x in c.byname.get(via, []) if b in TA[x]]
            t = nx[0] if nx else None; n += 1
        return s
    nw = 0
    for k in c.calls:
        if k.get("c") not in WAIT or k.get("dead"): continue
        nw += 1; f = c.fns[k["f"]]; h = waits(k, EM[k["f"]] or ())
        for x in sorted(h):
            if (f["name"], x) in WAITALLOW or (x == "M_log.rwlock" and k["c"].startswith("M_async_writer_")): continue  # writer threads never take the logger's lock
            c.find("wait:%s:%s:%s" % (f["name"], k["c"], x), "no library lock is held while another thread is waited for", f["file"], k["l"], f["name"], "%s may be held while %s() waits for another thread" % (x, k["c"]))
    c.obl(nw); c.need(nw, 30, "calls that wait for another thread"); c.cov["waiting calls checked"] = nw
    g = collections.defaultdict(set)
    for (a, b) in sorted(edges):
        c.obl(); c.sample("%s held while %s is taken: %s" % (a, b, wit(a, b)))
        if a == b:
            if not rec.get(a, False) and a not in RECURSIVE:
                f, l, cal, t = edges[a, b][0]
                c.find("self:%s:%s" % (a, c.fns[f]["name"]), "a lock that is not recursive is not taken again by its holder", c.fns[f]["file"], l, c.fns[f]["name"], "%s may already be held and is taken again: %s" % (a, wit(a, b)))
        else: g[a].add(b)
    c.cov["lock order edges"] = ["%s -> %s" % e for e in sorted(edges) if e[0] != e[1]]
    if DUMP: 
        for (a, b), ss in sorted(edges.items()):
            if a != b:
                for f, l, cal, x in ss: print("%s -> %s | %s:%d %s calls %s" % (a, b, c.fns[f]["file"], l, c.fns[f]["name"], cal))
    # locks that need to be recursive because their holder takes them again
    for cls in sorted({a for (a, b) in edges if a == b}):
        sites = [m for m in c.d["mutexes"] if EV.get(m[2], m[2]) == cls and not m[3]]
        for f, l, _, _ in sites:
            c.find("norec:%s" % cls, "locks taken again by their holder are created recursive", c.fns[f]["file"], l, c.fns[f]["name"], "%s is created without the recursive attribute but is taken again while held: %s" % (cls, wit(cls, cls)))
    # cycles: strongly connected components of size > 1
    idx, low, st, on, out = {}, {}, [], set(), []
    def scc(v):
        idx[v] = low[v] = len(idx); st.append(v); on.add(v)
        for w in g[v]:
            if w not in idx: scc(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop(); on.discard(w); comp.append(w)
                if w == v: break
            if len(comp) > 1: out.append(sorted(comp))
    for v in list(g):
        if v not in idx: scc(v)
    for comp in out:
        for a, b in [(a, b) for a in comp for b in comp if a != b and (a, b) in edges]:
            f, l, cal, t = edges[a, b][0]
            c.find("cycle:%s->%s" % (a, b), "kinds of locks are taken in one order", c.fns[f]["file"], l, c.fns[f]["name"], "%s is held while %s is taken (%s), and elsewhere they are taken the other way round: part of the cycle %s" % (a, b, wit(a, b), ", ".join(comp)))
