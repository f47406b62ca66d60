"""Reports of the ownership analysis, filtered by the confirmed exceptions."""
import re
from ctx import KNOWN
SRC = re.compile(r"acquired by (\S+?)\(\)")
def src(r):
    m = SRC.search(r["msg"]); return m.group(1) if m else "?"
class Rule:
    """allow: {(file, function): (set of acquiring functions or None, why)}; a function introduced since, in the file of an exception, takes part in it when the exception's function calls it"""
    def __init__(self, c, allow): self.c = c; self.allow = allow; self.used = set()
    def allowed(self, r):
        c = self.c; names = {r["fn"]}
        for i in c.byname.get(r["fn"], []): names.add(c.oname(i))
        what = src(r)
        for n in names:
            a = self.allow.get((r["file"], n))
            if not a: continue
            acq = {what}
            for i in c.byname.get(what, []):
                acq.add(c.oname(i))
                if what not in KNOWN: return True       # acquired by a helper the confirmed tree does not have
            if a[0] is None or acq & a[0]: self.used.add((r["file"], n)); return True
        return False
