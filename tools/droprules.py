"""Rules on what functions release, shared by C07 (everything) and C11 (descriptors)."""
import json, os
from vlib import V
from ctx import KNOWN
import re
DTOR = re.compile(r'(^|_)(destroy|destory|free|finish|clear|reset|remove|close|clean|cleanup|release|cancel|purge|delete|drop|deinit|stop)')
def judge(c, want=None):
    """want(function, member): which obligations to decide; None: all of them"""
    fz = json.load(open(os.path.join(V, "frozen/drops.json")))
    at = {}
    for i, f in enumerate(c.fns): at[f["file"] + ":" + f["name"]] = i
    drops = {}; paths = {}; cont = {}
    for x in c.d["drops"]: drops[(x["f"], x["x"])] = x
    for x in c.d["relpaths"]: paths[x["f"]] = x["p"]
    for x in c.d["contcb"]: cont.setdefault(x["f"], []).append(x)
    def helpers(i, depth=0, seen=None):
        """functions made since that a function calls"""
        seen = set() if seen is None else seen
        for k in c.bycaller[i]:
            for t in c.targets(k):
                if t not in seen and c.fns[t]["name"] not in KNOWN and depth < 6: seen.add(t); helpers(t, depth + 1, seen)
        return seen
    def find(k, e):
        i = at.get(k)
        if i is None:
            n = k.split(":")[1]; l = c.byname.get(n, [])
            i = l[0] if len(l) == 1 else None
        if i is None: return None
        if e is not None and c.fns[i]["static"] and e["params"] != c.fns[i]["params"]: return None
        return i
    nf = nm = 0; gone = 0
    for k, e in sorted(fz["full"].items()):
        i = find(k, e)
        if i is None: gone += 1; continue
        f = c.fns[i]; nf += 1
        for x, ms in sorted(e["x"].items()):
            if want: ms = [m for m in ms if want(f["name"], m)]
            if not ms: continue
            d = drops.get((i, x)); c.obl(len(ms) + 1); nm += len(ms)
            if d is None:
                if not helpers(i) and not f["trunc"]: c.find("%s:%s" % (f["name"], x), "a destructor releases the object it is given", f["file"], f["line"], f["name"], "%s() no longer releases %s on any path" % (f["name"], x))
                continue
            for m in ms:
                r = d["mem"].get(m, [0, 0, 0, 0]); bad = d["n"] - r[0] - r[1] - r[2]
                if bad: c.find("%s:%s:%s" % (f["name"], x, m), "members owned by an object are released with it", f["file"], f["line"], f["name"], "%s() releases %s without releasing its member %s on %d of %d outcomes" % (f["name"], x, m, bad, d["n"]))
            if len(ms) > 6: c.sample("%s %s: %s of %s: %s" % (f["file"], f["name"], len(ms), x, ", ".join(ms)))
    if not want: c.need(nf, int(0.9 * len(fz["full"])), "destructors"); c.need(nm, 250, "members released with their object")
    rets = {x["f"]: x for x in c.d["relret"]}; nr = 0
    for k, e in sorted(fz["rets"].items()):
        i = find(k, e)
        if i is None or c.fns[i]["trunc"]: continue
        f = c.fns[i]; now = set(rets[i]["all"]) if i in rets else set()
        below = set()      # what a function that is no destructor leaves to one it calls is judged there
        if not DTOR.search(f["name"]):
            for q in c.bycaller[i]:
                for t in c.targets(q): below |= {p.split("->")[-1] for p in fz["rets"].get(c.fns[t]["file"] + ":" + c.fns[t]["name"], {}).get("p", [])}
        for p in e["p"]:
            if p.split("->")[-1] in below: continue
            if want and not want(f["name"], p): continue
            nr += 1; c.obl()
            if p not in now: c.find("%s:every:%s" % (f["name"], p), "what a function released on every path it still releases on every path", f["file"], f["line"], f["name"], "%s() returns on some path with %s neither released nor empty" % (f["name"], p))
    if not want: c.need(nr, 300, "members released or empty at every return")
    np = 0
    for k, e in sorted(fz["paths"].items()):
        i = find(k, e)
        if i is None: continue
        f = c.fns[i]; hs = helpers(i); have = dict(paths.get(i, {})); unk = have.get("?", 0); tails = set(); 
        for h in hs:
            for p, n in paths.get(h, {}).items():
                if p == "?": unk += n
                else: tails.add(p.split("->")[-1])
        if f["trunc"]: continue
        for p in e["p"]:
            if want and not want(f["name"], p): continue
            np += 1; c.obl()
            if p in have or p.split("->")[-1] in tails or unk > e["u"] or (p.count("->") == 1 and p.split("->")[-1] in {q.split("->")[-1] for q in have} and p not in e["p"]): continue
            c.find("%s:path:%s" % (f["name"], p), "what a function released it still releases", f["file"], f["line"], f["name"], "%s() no longer releases %s on any path" % (f["name"], p))
        for p, n in e.get("n", {}).items():   # alternatives of a union, each released where its kind says so
            if want: break
            np += 1; c.obl(); k = have.get(p, 0) + sum(v for h in hs for q, v in paths.get(h, {}).items() if q.split("->")[-1] == p.split("->")[-1])
            if k < n and not unk > e["u"]: c.find("%s:alt:%s" % (f["name"], p), "what a function released it still releases", f["file"], f["line"], f["name"], "%s() releases %s in %d places, not in the %d for its kinds" % (f["name"], p, k, n))
        if not want and e["u"] and not unk and DTOR.search(f["name"]) and not any(p not in e["p"] for p in have) and not hs: c.find("%s:path:?" % f["name"], "what a function released it still releases", f["file"], f["line"], f["name"], "%s() no longer releases the elements it goes through" % f["name"])
    if want: return nm + nr + np
    c.need(np, 400, "releases by member")
    reach = {}
    def reaches(a, b):
        if a == b: return True
        for i in c.byname.get(a, []):
            if any(c.fns[t]["name"] == b for t in c.reach([i], False)): return True
            if b == "M_free" and c.fns[i]["frees"] & 1: return True
        return False
    nc = 0
    for k, e in sorted(fz["cont"].items()):
        i = find(k, None)
        if i is None: continue
        f = c.fns[i]; sites = cont.get(i, []) + [s for h in helpers(i) for s in cont.get(h, [])]
        calls = {q.get("c") for q in c.bycaller[i]} | {q.get("c") for h in helpers(i) for q in c.bycaller[h]}
        for mk, fs in sorted(e.items()):
            now = {n for s in sites if s["c"] == mk for n in s["fns"]}
            if mk not in calls: continue     # the container is made another way
            for g in fs:
                nc += 1; c.obl()
                if g in now or any(n not in KNOWN and reaches(n, g) for n in now): continue
                c.find("%s:%s:%s" % (f["name"], mk, g), "containers release the values they own", f["file"], f["line"], f["name"], "%s() calls %s() without the callback %s() that releases the values" % (f["name"], mk, g))
    c.need(nc, 60, "containers with a releasing callback"); c.cov["destructors of the confirmed tree not found"] = gone
