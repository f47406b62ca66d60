"""C08: nothing newly created is read or handed out before it has a value."""
import re, json, os
from vlib import V
from ctx import KNOWN
EXPLANATION = "A must-initialise dataflow over the bytes of every local whose address is taken and of every object allocated without being cleared: each read, each call that may read (callee summaries: bytes surely written - always, on a non-zero result, on a zero result - and bytes read first) and each return that hands out the object must come after every way there has written the bytes. The remaining locals are decided by the compiler's own uninitialised-use diagnostics. Places that need an argument beyond control flow on the confirmed tree are listed in frozen/uninit.json and are not judged."
ASSUMPTIONS = ["a store through a variable index initialises the array it indexes", "memory handed to the C library or to third-party libraries comes back initialised", "arrays of run-time size count as initialised once something was written to them", "members of unions are only judged at reads within the function", "what a pointer kept in memory is used for later is not followed"]
WHAT = {"read": "is read", "arg": "is read by the called function", "exit": "is left"}
def run(c):
    fz = json.load(open(os.path.join(V, "frozen/uninit.json"))); known = set(fz["known"]); byfile = {}
    for k in fz["known"]:
        fl, fn, kind, var, mem = k.split("|"); byfile.setdefault((fl, var, mem), set()).add(fn)
    nl = no = 0
    for f, a, b in c.d["uninitn"]: nl += a; no += b; c.obl(a + b)
    for f, line, kind, var, mem, what, rl, callee in c.d["uninit"]:
        q = c.fns[f]; k = "|".join((q["file"], q["name"], kind, var, mem))
        if k in known: continue
        # the same local moved to a function extracted from the one it was in
        if (q["file"], var, mem) in byfile and (var or mem) and q["name"] not in KNOWN: continue
        if any("|".join((q["file"], q["name"], x, var, mem)) in known for x in WHAT) and kind != "exit": continue
        nm = var or mem or "a block of memory"
        if kind == "exit": msg = "the object allocated here (%s) is handed out with %s never given a value on some path" % (var or "unnamed", mem or "its contents")
        else: msg = "%s%s %s%s before every path there has given it a value" % (nm, " (" + mem + ")" if mem and var else "", WHAT[kind], " " + callee + "()" if kind == "arg" else "")
        c.find("uninit:%s:%s:%s:%s" % (q["name"], kind, var, mem), "values before use", q["file"], line, q["name"], msg, ["allocated or declared at line %s" % rl] if rl else [])
    for p, l, w, m in c.d["diags"]:
        if "uninitialized" not in w: continue
        k = "|".join((w, p, m)); c.obl()
        v = re.search(r"variable '(\w+)'", m)
        if w == "conditional-uninitialized" and v and re.search(r"&\s*%s\b" % v.group(1), c.text(p)): continue   # decided above, with the outcomes of the call that fills it
        if k in fz["diags"]: continue
        c.find("%s:%s:%s" % (w, p, m), "clang -W%s" % w, p, l, "", m)
    c.sample("%d locals and %d objects allocated without clearing" % (nl, no))
    c.need(nl, 1300, "locals whose address is taken"); c.need(no, 60, "objects allocated without clearing")
    # arrays of run-time size: those allocated (or grown) cleared on the confirmed tree stay so
    cnt = arrays(c); n = 0
    for k, (z, p) in sorted(fz["arrays"].items()):
        n += z; c.obl(z); now = cnt.get(k)
        if now and now[0] < z and now[1] > p:
            i = c.byname[k][0]; f = c.fns[i]
            c.find("array:%s" % k, "arrays stay cleared", f["file"], now[2], k, "an array that was allocated or grown cleared now holds whatever the memory held before")
    c.need(n, 40, "cleared arrays of run-time size")
def arrays(c):
    cnt = {}
    for x in c.calls:
        if x.get("c") not in ("M_malloc", "M_malloc_zero", "M_realloc", "M_realloc_zero"): continue
        if isinstance(x["a"][-1], int): continue
        e = cnt.setdefault(c.oname(x["f"]), [0, 0, 0])
        if x["c"].endswith("_zero"): e[0] += 1
        else: e[1] += 1; e[2] = x["l"]
    return cnt
