"""C24: every back end supplies its whole interface; optional operations are tested before use."""
import collections, json, os
from vlib import Broken
EXPLANATION = "All places that put a function into a callback slot are collected from the IR: constant operation tables, stores into callback structures and the I/O layer registration calls. They are compared with the confirmed set: each back end (file) must still supply each operation, with the confirmed function as long as it exists, and no function confirmed for one operation may be supplied for another. Slots that are optional (every call of them is guarded, decided path-sensitively) must stay guarded at every call; slots whose constructor replaces a missing callback by a default must never receive a possibly null pointer there. Every I/O layer constructor must register the operations all layers have."
ASSUMPTIONS = ["the confirmed set of operations of each back end (frozen/slots.json)", "an operation supplied only under a run-time condition counts as supplied"]
FROZEN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "frozen", "slots.json")
SKIP = ("M_queue.", "union.anon", "M_io_handle", "M_email_part_t.", "anon.", "retry_msg_t.", "odbc_connpool_data_t.", "sigaction")
def registrations(c):
    """(file, where, slot, function) of every function put into a callback slot"""
    out = []; ir = {f["ir"]: f["name"] for f in c.fns}; rf = {f["ir"]: f["file"] for f in c.fns}
    for f, l, slot, v in c.d["fstores"]:
        if v: out.append((c.fns[f]["file"], c.oname(f), slot, ir.get(v, v), l))
    for g in c.d["globals"]:
        if not g.get("init"): continue
        where = g["name"]; file = g["file"]
        if where.startswith("__const."):
            fn = where.split(".")[1]; ids = c.byname.get(fn)
            if not ids: continue
            file = c.fns[ids[0]]["file"]; where = c.oname(ids[0])
        fl = g.get("fields") or []
        def one(vals, idx):
            for i, v in enumerate(vals):
                if isinstance(v, str) and v[:2] == "f:":
                    slot = fl[i] if i < len(fl) else "%s#%d" % (g["type"], i)
                    out.append((file, where + idx, slot, ir.get(v[2:], v[2:]), g.get("line") or 0))
        init = g["init"]
        if isinstance(init, list) and init and all(isinstance(x, list) for x in init):
            for n, x in enumerate(init): one(x, "[%d]" % n)
        elif isinstance(init, list):
            if g["type"].endswith("[]"):
                for n, v in enumerate(init):
                    if isinstance(v, str) and v[:2] == "f:": out.append((file, where, "[%d]" % n, ir.get(v[2:], v[2:]), g.get("line") or 0))
            else: one(init, "")
    for k in c.calls:
        n = k.get("c", "")
        if not n.startswith("M_io_callbacks_reg_") or k.get("dead"): continue
        a = k["a"][1]
        for x in (a if isinstance(a, list) else [a]):
            if isinstance(x, str) and x[:2] == "f:": out.append((c.fns[k["f"]]["file"], c.oname(k["f"]), n, ir.get(x[2:], x[2:]), k["l"]))
    return out
def layers(c):
    r = collections.defaultdict(set)
    made = {c.owner(k["f"]) for k in c.bycallee["M_io_callbacks_create"]}
    for k in c.calls:
        if k.get("c", "").startswith("M_io_callbacks_reg_"): r[c.owner(k["f"])].add(k["c"])
    return {i: r[i] for i in made}
def slots(k):
    s = k.get("s"); return [x[2:] for x in (s if isinstance(s, list) else [s]) if isinstance(x, str) and x[:2] == "m:"] or ["%s" % s]
def freeze(c):
    g = collections.defaultdict(lambda: [0, 0])
    for k in c.calls:
        if "c" in k or k.get("dead"): continue
        for s in slots(k): g[s][0] += 1; g[s][1] += bool(k.get("ng"))
    init = collections.defaultdict(set)
    for f, s, n in c.d["slotinit"]: init[s].add(n)
    ok = lambda s: not s.startswith(SKIP) and "." in s
    return dict(guarded=sorted(s for s, (n, u) in g.items() if ok(s) and not u), nonnull=sorted(s for s, v in init.items() if ok(s) and v == {True} and g[s][1] and not s.startswith("M_backtrace_callbacks.")),
                regs=sorted({r[:4] for r in registrations(c)}), layer=sorted(set.intersection(*layers(c).values())))
def run(c):
    z = json.load(open(FROZEN))
    cur = registrations(c); have = {(f, s, fn) for f, w, s, fn, l in cur}; fs = collections.defaultdict(set)
    for f, w, s, fn, l in cur: fs[f, s].add(fn)
    c.need(len(cur), 540, "functions put into callback slots")
    names = set(c.byname); conf = collections.defaultdict(set); zfs = collections.defaultdict(set); tabs = collections.defaultdict(dict)
    for f, w, s, fn in z["regs"]: conf[fn].add(s); zfs[f, s].add(fn)
    curtab = collections.defaultdict(set)
    for f, w, s, fn, l in cur: curtab[f, w, s].add(fn)
    lineof = {(f, w): l for f, w, s, fn, l in reversed(cur)}
    rule = "a back end supplies every operation it was confirmed to have"
    for f, w, s, fn in z["regs"]:
        c.obl()
        if not fs.get((f, s)) : c.find("gone:%s:%s:%s" % (f, w, s), rule, f, lineof.get((f, w), 0), w, "%s: the operation %s is no longer supplied (was %s)" % (w, s, fn))
        elif fn in names and (f, s, fn) not in have: c.find("gone:%s:%s:%s" % (f, w, s), rule, f, lineof.get((f, w), 0), w, "%s: %s() is no longer supplied for the operation %s (now: %s)" % (w, fn, s, ", ".join(sorted(fs[f, s]))))
        elif not curtab.get((f, w, s)) and ("[" in w or any((a, b) == (f, w) for a, b, _ in curtab)) and c.fn(w.split("[")[0], False) is None: c.find("gone:%s:%s:%s" % (f, w, s), rule, f, lineof.get((f, w), 0), w, "%s: the operation %s is no longer supplied (was %s)" % (w, s, fn))
    for f, w, s, fn, l in cur:
        i = c.byname.get(fn)
        if fn in conf and s not in conf[fn] and i and c.fns[i[0]]["static"]:
            c.find("swap:%s:%s:%s" % (f, fn, s), "a function is supplied for the operation it implements", f, l, w, "%s() implements %s but is supplied as %s" % (fn, ", ".join(sorted(conf[fn])), s))
        c.obl()
    c.sample("back end tables: " + ", ".join(sorted({w for f, w, s, fn in z["regs"] if c.fn(w.split("[")[0], False) is None})[:8]))
    G = set(z["guarded"]); n = 0
    for k in c.calls:
        if "c" in k or k.get("dead"): continue
        for s in slots(k):
            if s not in G: continue
            n += 1; c.obl(); file, line, fn = c.at(k)
            c.sample("%s:%d %s calls optional %s only when present" % (file, line, fn, s))
            if k.get("ng"): c.find("optional:%s:%s" % (fn, s), "an optional operation is only called when present", file, line, fn, "%s is optional but is called here without having been tested on every path" % s)
    c.need(n, 80, "calls of optional operations")
    N = set(z["nonnull"]); n = 0
    for f, s, ok in c.d["slotinit"]:
        if s not in N: continue
        n += 1; c.obl(); i = c.fns[f]
        if not ok: c.find("null:%s:%s" % (i["name"], s), "a slot that is called unconditionally never receives a null callback", i["file"], i["line"], i["name"], "%s is called without a test, but %s() may store a null pointer there" % (s, i["name"]))
    c.need(n, 60, "constructors filling required slots")
    L = layers(c); c.need(len(L), 15, "I/O layer constructors")
    for i, ops in sorted(L.items()):
        c.obl(); f = c.fns[i]
        for o in z["layer"]:
            if o not in ops: c.find("layer:%s:%s" % (f["name"], o), "every I/O layer registers the operations all layers have", f["file"], f["line"], f["name"], "the layer built here does not call %s" % o)
    c.cov["operations every layer registers"] = z["layer"]; c.cov["optional slots"] = len(G); c.cov["required slots"] = len(N)
