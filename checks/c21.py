"""C21: a failed call reaches the caller's result."""
import json, os
from vlib import V
from ctx import KNOWN
EXPLANATION = "For every call whose failure shows in its result (operating system calls by a table of their failure values; library functions returning an error enumeration, every non-success enumerator in turn; M_bool and pointer results of the file system, I/O, SQL, log and network layers) the small value sets the function can still return are propagated from that call on, with the failing result put in: along feasible branches only, through phis, selects, casts, comparisons and called functions (error translations are evaluated with the error passed), errno taken as EIO. Twice: with later executions of the call failing as well, and with them succeeding (an error overwritten in a loop). The calls after which the confirmed tree can only return a failure (frozen/fails.json) must keep that."
ASSUMPTIONS = ["results kept in memory between the call and the return (members, locals whose address is taken) are unknown: such calls are not claimed", "functions without a result (events, threads, destructors) are not judged", "a failing system call leaves an errno that is none of the retry codes (EINTR, EAGAIN)"]
FROZEN = os.path.join(V, "frozen/fails.json")
DIRS = ("base/fs/", "io/", "sql/", "log/", "net/", "tls/", "thirdparty/")
def sites(c):
    """(function, callee) -> {line: (kind, ret, values bad in mode A, values bad in mode B)}"""
    out = {}
    for f, l, g, k, r, n, a, b in c.d["fails"]:
        F = c.fns[f]
        if k in "bp":
            q = [x for x in c.byfn.get(g, [])] if not g.startswith("m:") else None
            if q is None:
                if not g.startswith(("m:M_sql_", "m:M_io_")): continue
            elif not any(c.fns[i]["file"].startswith(DIRS) for i in q): continue
        d = out.setdefault((F["name"], g), {}); z = d.setdefault(l, [f, k, r, n, set(), set()]); z[4] |= set(a); z[5] |= set(b)
    return out
def prep(c):
    c.byfn = {}
    for i, f in enumerate(c.fns): c.byfn.setdefault(f["name"], []).append(i)
def summ(d):
    vals = set()
    for z in d.values(): vals |= z[4] | z[5]
    return dict(n=len(d), A={str(v): sum(1 for z in d.values() if v in z[4]) for v in sorted(vals)}, B={str(v): sum(1 for z in d.values() if v in z[5]) for v in sorted(vals)})
def freeze(c):
    prep(c); out = {}
    for (f, g), d in sorted(sites(c).items()):
        s = summ(d); tot = max(z[3] for z in d.values())
        if len(s["A"]) >= tot and min(s["A"].values()) >= s["n"]: continue     # nothing claimed
        s["A"] = {v: n for v, n in s["A"].items() if n}; s["B"] = {v: n for v, n in s["B"].items() if n}
        out[f + "|" + g] = s
    return out
def run(c):
    prep(c); z = json.load(open(FROZEN)); now = sites(c); rule = "a failure reaches the caller's result"; n = 0
    for key, s in sorted(z.items()):
        f, g = key.split("|", 1); d = now.get((f, g))
        if not d: continue
        for l, x in sorted(d.items()):
            c.obl(2 * x[3]); n += 1
        h = summ(d)
        for m, i, what in (("A", 4, "fails"), ("B", 5, "fails once and succeeds when it is made again")):
            hit = {}
            for v, q in h[m].items():
                old = s[m].get(v, 0)
                if q > old and (old == 0 or len(d) - q < s["n"] - old):
                    for l, x in d.items():
                        if int(v) in x[i]: hit.setdefault(l, []).append(int(v))
            if not hit: continue
            l = min(hit); x = d[l]; F = c.fns[x[0]]
            c.find("fail:%s" % key, rule, F["file"], l, f, "when %s at line %d %s (result %s) %s() may still report success" % ("the operation %s" % g[2:] if g.startswith("m:") else g + "()", l, what, ", ".join(map(str, hit[l][:6])), f)); break
    c.need(n, 1000, "calls whose failure must reach the result"); c.cov["pairs of function and callee claimed"] = len(z)
    for k in list(z)[:4]: c.sample("%s: failure of %s gives failure" % tuple(k.split("|", 1)))
