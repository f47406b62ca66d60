"""C20: what an input may nest, it nests within a limit the program sets; no stack is allocated by the size of the input."""
import json, os
from vlib import V
from ctx import KNOWN
EXPLANATION = "All cycles of the call graph (direct calls, and calls through tables of functions private to one file) are computed (strongly connected components). A cycle is accepted when its depth is limited: an integer argument (or member) that every call on the cycle hands on unchanged or increased, and every round increases, is compared with a constant before going deeper, and that constant times the fixed stack use of a round stays within 4 MiB; or a flag argument that must be set to go deeper is handed on cleared; or when it is one of the cycles of the confirmed tree whose depth does not follow a parsed document (listed in frozen/cycles.json). The document readers confirmed to limit the nesting must still do so: recursion by the argument rule, iterative readers by a counter going up by one in the reading loop that leaves the loop when it passes a constant. No function allocates stack memory by a computed amount (variable length arrays, alloca)."
ASSUMPTIONS = ["a call through a function pointer counts when every function it can mean is private to the same file; readers do not call themselves through the callbacks of their users", "expressions the application itself supplies (regular expressions, patterns, XPath, JSONPath) are no untrusted documents", "the default thread stack of 8 MiB or more"]
FROZEN = os.path.join(V, "frozen/cycles.json")
STACK = 4 << 20
# readers whose result is a tree: function -> what keeps the tree shallow
COUNTED = {"M_xml_read": "the nesting of elements"}
def sccs(nodes, succ):
    idx = {}; low = {}; st = []; on = set(); out = []; n = 0
    for root in nodes:
        if root in idx: continue
        w = [(root, iter(succ(root)))]; idx[root] = low[root] = n; n += 1; st.append(root); on.add(root)
        while w:
            v, it = w[-1]
            for x in it:
                if x not in idx: idx[x] = low[x] = n; n += 1; st.append(x); on.add(x); w.append((x, iter(succ(x)))); break
                if x in on: low[v] = min(low[v], idx[x])
            else:
                w.pop()
                if w: low[w[-1][0]] = min(low[w[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        x = st.pop(); on.discard(x); c.append(x)
                        if x == v: break
                    if len(c) > 1 or v in succ(v): out.append(c)
    return out
def cyclic(nodes, edges):
    g = {}
    for a, b in edges: g.setdefault(a, set()).add(b)
    return bool(sccs(sorted(nodes), lambda v: sorted(g.get(v, ()))))
def limit(c, comp, es):
    """the bound on the depth of a cycle, or None"""
    comp = set(comp); frame = sum({e["f"]: e["frame"] + 256 for e in es}.values())
    # a flag that must be set to go on and is handed on cleared
    rest = [e for e in es if not any(g[0] == "z" and any(a[1] == -1 and a[2] == 0 and a[0] == g[1] for a in e["args"]) and e["f"] == e["t"] for g in e["gd"])]
    if not cyclic(comp, [(e["f"], e["t"]) for e in rest]): return 2, frame
    best = None
    starts = {(e["f"], g[1]) for e in es for g in e["gd"] if g[0] == "a"}
    for f0, i0 in sorted(starts):
        h = {f0: i0}; ch = True; ok = True     # which argument of each function is the counter
        while ch:
            ch = False
            for e in es:
                for j, i, k in e["args"]:
                    if i < 0 or k < 0: continue
                    if e["f"] in h and h[e["f"]] == i and e["t"] not in h: h[e["t"]] = j; ch = True
                    if e["t"] in h and h[e["t"]] == j and e["f"] not in h: h[e["f"]] = i; ch = True
        if set(h) != comp: continue
        w = []
        for e in es:
            ks = [k for j, i, k in e["args"] if i >= 0 and i == h[e["f"]] and j == h[e["t"]]]
            if not ks or ks[0] < 0: ok = False; break
            w.append((e, ks[0]))
        if not ok or cyclic(comp, [(e["f"], e["t"]) for e, k in w if k == 0]): continue
        bd = [(e, min([g[2] for g in e["gd"] if g[0] == "a" and g[1] == h[e["f"]]], default=None)) for e, k in w]
        if cyclic(comp, [(e["f"], e["t"]) for e, b in bd if b is None]): continue
        b = max(x for e, x in bd if x is not None)
        if best is None or b < best: best = b
    for m in sorted({g[1] for e in es for g in e["gd"] if g[0] == "m"}):
        good = [e for e in es if any(g[0] == "m" and g[1] == m for g in e["gd"]) and any(q[0] == m and q[1] > 0 for q in e["inc"])]
        if cyclic(comp, [(e["f"], e["t"]) for e in es if e not in good]): continue
        b = max(g[2] for e in good for g in e["gd"] if g[1] == m)
        if best is None or b < best: best = b
    return (best, frame) if best is not None else None
def cycles(c):
    es = c.d["reccalls"]; g = {}
    for e in es: g.setdefault(e["f"], set()).add(e["t"])
    for comp in sccs(sorted(g), lambda v: sorted(g.get(v, ()))):
        s = set(comp); yield comp, [e for e in es if e["f"] in s and e["t"] in s]
def freeze(c):
    out = []
    for comp, es in cycles(c):
        out.append(dict(fns=sorted({c.fns[i]["name"] for i in comp}), self=sorted({c.fns[e["f"]]["name"] for e in es if e["f"] == e["t"]}), limit=limit(c, comp, es)))
    return sorted(out, key=lambda x: x["fns"])
def run(c):
    z = json.load(open(FROZEN)); ok = {}
    for q in z:
        if not q["limit"]:
            for n in q["fns"]: ok[n] = set(q["fns"])
    selfs = {n for q in z for n in q["self"] if not q["limit"]}
    rule = "the depth of calls is bounded whatever the input nests"; n = 0; seen = set()
    for comp, es in cycles(c):
        c.obl(len(es)); n += 1; names = {c.fns[i]["name"] for i in comp}; lim = limit(c, comp, es); seen |= names if lim else set()
        top = min(comp, key=lambda i: (c.fns[i]["file"], c.fns[i]["line"])); f = c.fns[top]
        if lim:
            b, fr = lim; c.sample("%s: %d deep at most, %d bytes a round (%d calls)" % (", ".join(sorted(names)), b, fr, len(es)))
            if b * fr > STACK: c.find("deep:%s" % "+".join(sorted(names)[:3]), rule, f["file"], f["line"], f["name"], "the limit on the recursion of %s allows %d rounds of about %d bytes of stack" % (", ".join(sorted(names)), b, fr))
            continue
        kn = names & KNOWN; home = [ok[x] for x in sorted(kn) if x in ok]
        if home and kn <= home[0]:
            for e in es:
                x = c.fns[e["f"]]["name"]
                if e["f"] == e["t"] and x in KNOWN and x not in selfs: c.find("self:%s" % x, rule, c.fns[e["f"]]["file"], e["l"], x, "%s() calls itself without a limit on the depth" % x)
            continue
        e = next((e for e in es if e["f"] == top), es[0])
        c.find("cycle:%s" % "+".join(sorted(names)[:3]), rule, f["file"], e["l"], f["name"], "%s can call each other without a limit on the depth: %s" % (", ".join(sorted(names)[:6]), "; ".join("%s -> %s at line %d" % (c.fns[e["f"]]["name"], c.fns[e["t"]]["name"], e["l"]) for e in es[:6])))
    c.need(n, 25, "cycles of calls examined")
    cnt = {}
    for i, l, b in c.d["counters"]: cnt.setdefault(c.fns[i]["name"], []).append((l, b))
    for fn, what in sorted(COUNTED.items()):
        f = c.fn(fn); c.obl()
        good = [b for l, b in cnt.get(fn, []) if 16 <= b <= 16384]
        if not good: c.find("uncounted:%s" % fn, "a reader limits what its input may nest", f["file"], f["line"], fn, "%s() does not limit %s: no counter in its loop ends the reading when it passes a constant of at most 16384 (found: %s)" % (fn, what, cnt.get(fn, "none")))
        else: c.sample("%s: %s limited to %d" % (fn, what, good[0]))
    for i, l in c.d["dynalloc"]:
        f = c.fns[i]; c.find("dyn:%s" % c.oname(i), "no stack memory is allocated by a computed amount", f["file"], l, f["name"], "%s() allocates stack memory by a computed amount" % f["name"])
    c.obl(len(c.fns)); c.cov["functions searched for computed stack allocation"] = len(c.fns)
