"""C03: protected state is only touched with its lock held."""
import json, os
from locksets import norm, callsites, started, entry_holds
from vlib import Broken
EXPLANATION = "Lockset analysis against a confirmed table (frozen/locks.json) that names the lock protecting each shared field and global. Every load and store of such a field on an object that is not freshly allocated in the same function is an obligation: the lock must be certainly held there, taken in the function itself (path-sensitive) or by every caller (fixpoint over the call graph, callback slots resolved, functions handed to threads, tasks and timers start with nothing held). For a second group of settings the rule covers the stores only. Reader/writer locks: a section confirmed to take the lock for writing must keep doing so. Constructors and destructors, which work on an object no other thread can reach, and the confirmed unlocked reads are listed in the table."
ASSUMPTIONS = ["locks are told apart by the member that holds them, not by object: holding the lock of another object of the same type is accepted", "what a pointer field points to is protected by the rule for loading the pointer; copies of the pointer kept in locals are not followed"]
T = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "frozen", "locks.json")))
def run(c):
    sites = callsites(c); st = started(c)
    H = {}; out = {}
    keys = dict(T["writes"]); keys.update(T["keys"])
    for cls in {k["lock"] for k in keys.values()}:
        out[cls] = {i for i, f in enumerate(c.fns) if f["name"] in T["outside"].get(cls, ())}
        H[cls] = entry_holds(c, cls, out[cls], sites, st)
    seen = {}; cnt = {}
    # structures of one file whose type the linker merged with another's
    for f, l, key, w, sh, must, rel in c.d["accesses"]:
        t = T["infile"].get(c.fns[f]["file"], {}).get(key)
        if not t or not sh or c.fns[c.owner(f)]["name"] in t["exempt"]: continue
        c.obl()
        if t["lock"] not in must: c.find("%s:%s" % (c.oname(f), key), "a protected field is only accessed with its lock held", c.fns[f]["file"], l, c.fns[f]["name"], "the object behind %s is used without its lock" % key)
    # a section that changes the object keeps taking the reader/writer lock for writing
    modes = {}
    for k in c.calls:
        if k.get("c") == "M_thread_rwlock_lock" and isinstance(k["a"][0], str) and k["a"][1] in (0, 1):
            c.obl(); m = modes.setdefault("%s|%s" % (c.oname(k["f"]), k["a"][0][2:]), [0, 0, k]); m[k["a"][1]] += 1; m[2] = k
    for key, m in sorted(modes.items()):
        z = T["modes"].get(key)
        if z and m[0] > z[0] and m[1] < z[1]:
            fi, l, n = c.at(m[2]); c.find("mode:" + key, "sections that change an object take its reader/writer lock for writing", fi, l, n, "%s is only taken for reading here, where it was taken for writing" % key.split("|")[1])
        elif not z and m[1] == 0 and m[0]:
            n = key.split("|")[0]; lk = key.split("|")[1]
            for f, l, k2, w, sh, must, rel in c.d["accesses"]:
                if w and sh and keys.get(k2, {}).get("lock") == lk and lk in must and c.oname(f) == n: c.find("mode:" + key, "sections that change an object take its reader/writer lock for writing", c.fns[f]["file"], l, n, "%s is written with %s taken for reading only" % (k2, lk))
    for f, l, key, w, sh, must, rel in c.d["accesses"]:
        t = keys.get(key)
        if not t or not sh or (not w and key in T["writes"]): continue
        cls = t["lock"]
        if f in out[cls]: continue
        c.obl(); seen[key] = seen.get(key, 0) + 1
        if cls in norm(must) or (H[cls][f] and cls not in norm(rel)): continue
        cnt.setdefault((key, c.owner(f)), []).append((l, w))
    for (key, f), ls in sorted(cnt.items()):
        t = keys[key]; fn = c.fns[f]
        if len(ls) <= t["exempt"].get(fn["name"], 0): continue
        l, w = ls[-1]
        c.find("%s:%s" % (fn["name"], key), "a protected field is only accessed with its lock held", fn["file"], l, fn["name"], "%s is %s without %s (line%s %s)" % (key, "written" if w else "read", t["lock"], "s" if len(ls) > 1 else "", ", ".join(str(x[0]) for x in ls)))
    c.need(len(seen), int(len(keys) * 0.8), "protected fields still accessed")
    for k in sorted(seen)[:40]: c.sample("%s: %d accesses with %s held" % (k, seen[k], keys[k]["lock"]))
    c.cov["protected fields"] = len(keys); c.cov["accesses checked"] = sum(seen.values())
