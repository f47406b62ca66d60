"""What a property rule works with: the facts of one run plus helpers."""
import collections, re
from vlib import Broken, R
import os, json
KNOWN = set(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "frozen", "fns.json"))))

class Ctx:
    def __init__(self, d, pid, tier):
        self.d = d; self.pid = pid; self.tier = tier; self.fns = d["functions"]; self.calls = d["calls"]
        self.findings = []; self.nobl = 0; self.samples = []; self.cov = {}
        self.byname = collections.defaultdict(list)
        for i, f in enumerate(self.fns): f["id"] = i; self.byname[f["name"]].append(i)
        self.bycaller = collections.defaultdict(list); self.bycallee = collections.defaultdict(list)
        for c in self.calls:
            self.bycaller[c["f"]].append(c)
            if "c" in c: self.bycallee[c["c"]].append(c)
        self._texts = {}; self._own = {}
    def owner(self, i, depth=0):
        """the function of the confirmed tree a function belongs to: itself, or the single one a helper introduced since is called from"""
        if i in self._own: return self._own[i]
        f = self.fns[i]
        if f["name"] in KNOWN or not f["static"] or depth > 8: r = i
        else:
            o = {self.owner(k["f"], depth + 1) for k in self.calls if i in self.targets(k)}
            r = o.pop() if len(o) == 1 else i
        self._own[i] = r
        return r
    def oname(self, i): return self.fns[self.owner(i)]["name"]
    def fn(self, name, must=True):
        l = self.byname.get(name, [])
        if not l and must: raise Broken("anchor function %s is gone" % name)
        return self.fns[l[0]] if l else None
    def obl(self, n=1): self.nobl += n
    def sample(self, s):
        if len(self.samples) < 12: self.samples.append(s)
    def need(self, n, least, what):
        self.cov["instances: " + what] = n
        if n < least: raise Broken("only %d %s found, at least %d are known to exist" % (n, what, least))
    def find(self, key, rule, file, line, fn, msg, path=None):
        for f in self.findings:
            if f["key"] == key: return
        self.findings.append(dict(key=key, rule=rule, file=file, line=line, fn=fn, msg=msg, path=path))
    def at(self, c):
        f = self.fns[c["f"]]; return f["file"], c["l"], f["name"]
    def targets(self, c):
        """indices of the defined functions a call may reach"""
        if "ci" in c: return [c["ci"]]
        return [t for t in c.get("t", []) if isinstance(t, int)]
    def reach(self, roots, indirect=True):
        seen = set(roots); w = list(roots)
        while w:
            x = w.pop()
            for c in self.bycaller[x]:
                if "c" not in c and not indirect: continue
                for t in self.targets(c):
                    if t not in seen: seen.add(t); w.append(t)
        return seen
    def reports(self, *kinds): return [r for r in self.d["reports"] if r["kind"] in kinds]
    def text(self, rel):
        if rel not in self._texts:
            p = os.path.join(R, rel)
            self._texts[rel] = open(p, errors="replace").read() if os.path.exists(p) else None
        return self._texts[rel]
