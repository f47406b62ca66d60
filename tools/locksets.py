"""Interprocedural lock sets on top of the per-call facts."""
import collections
EV = {"layer": "M_event_loop.lock", "io": "M_event_loop.lock", "event": "M_event_loop.lock"}
def norm(s): return {EV.get(x, x) for x in s}
def local(x): return x.startswith("local:") or x.startswith("param:")
def entry_must(c, follow=lambda k: True):
    """for every function the locks certainly held when it is entered (None: never called): intersection over all call sites; entry points start with nothing"""
    ALL = None
    E = [ALL] * len(c.fns)
    sites = collections.defaultdict(list)
    for k in c.calls:
        if k.get("dead"): continue
        for t in c.targets(k): sites[t].append(k)
    for i, f in enumerate(c.fns):
        if f["public"] or not sites[i]: E[i] = frozenset()
    forks = {}
    for k in c.calls:  # functions handed to a thread or queued as a task start with nothing held
        for a in k.get("a", []):
            for x in (a if isinstance(a, list) else [a]):
                if isinstance(x, str) and x.startswith("f:"): forks.setdefault(x[2:], k)
    users = collections.defaultdict(set)
    for t, ks in sites.items():
        for k in ks: users[k["f"]].add(t)
    for i, f in enumerate(c.fns):
        if f["addr"] and f["ir"] in forks and forks[f["ir"]].get("c") in ("M_thread_create", "M_event_queue_task", "M_threadpool_dispatch", "M_threadpool_dispatch_notify", "M_event_timer_add", "M_event_timer_oneshot", "M_thread_once", "atexit", "pthread_create"): E[i] = frozenset()
    def val(t):
        r = None
        for k in sites[t]:
            e = E[k["f"]]
            if e is None: continue
            h = frozenset((set(e) - norm(k.get("rel", ()))) | norm(k.get("must", ())))
            r = h if r is None else r & h
        return r
    work = collections.deque(i for i in range(len(c.fns)) if E[i] is not None); 
    fixed = {i for i in range(len(c.fns)) if E[i] is not None}
    inq = set(work)
    while work:
        i = work.popleft(); inq.discard(i)
        for t in users[i]:
            if t in fixed: continue
            n = val(t)
            if n != E[t]:
                E[t] = n
                if t not in inq: inq.add(t); work.append(t)
    return E
MERGED = ("M_backtrace_callbacks.", "M_email_part_t.", "module_thunk_t.", "union.anon", "M_queue.", "M_io_handle.uuid")  # slots whose struct type the linker merged with others of the same layout
def callsites(c):
    """target function -> call sites, leaving out calls through merged slots into another directory"""
    sites = collections.defaultdict(list)
    for k in c.calls:
        if k.get("dead"): continue
        s = k.get("s"); ss = s if isinstance(s, list) else [s]
        mixed = any(isinstance(x, str) and x[2:].startswith(MERGED) for x in ss)
        d = c.fns[k["f"]]["file"].split("/")[0]
        for t in c.targets(k):
            if not mixed or c.fns[t]["file"].split("/")[0] == d: sites[t].append(k)
    return sites
STARTS = ("M_thread_create", "M_event_queue_task", "M_threadpool_dispatch", "M_threadpool_dispatch_notify", "M_event_timer_add", "M_event_timer_oneshot", "M_thread_once", "atexit", "pthread_create", "M_event_add", "M_event_edit_io_cb", "M_event_trigger_add")
def started(c):
    """IR names of functions handed over to be run later, with nothing held"""
    r = set()
    for k in c.calls:
        if k.get("c") not in STARTS: continue
        for a in k.get("a", []):
            for x in (a if isinstance(a, list) else [a]):
                if isinstance(x, str) and x.startswith("f:"): r.add(x[2:])
    return r
def entry_holds(c, cls, outside, sites, st):
    """functions that are only ever entered with cls held (or from functions working on an object nobody else can see)"""
    n = len(c.fns); H = [True] * n
    for i, f in enumerate(c.fns):
        if i in outside: continue
        if f["public"] or f["ir"] in st or not sites[i]: H[i] = False
    users = collections.defaultdict(set)
    for t, ks in sites.items():
        for k in ks: users[k["f"]].add(t)
    work = collections.deque(i for i in range(n) if H[i])
    while work:
        i = work.popleft()
        if not H[i] or i in outside or not sites[i]: continue
        for k in sites[i]:
            f = k["f"]
            if f in outside: continue
            if cls in norm(k.get("must", ())): continue
            if H[f] and cls not in norm(k.get("rel", ())): continue
            H[i] = False; work.extend(users[i]); break
    return H
