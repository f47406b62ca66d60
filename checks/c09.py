"""C09: NULL handles are tolerated by the public API."""
import json, os
from vlib import V
EXPLANATION = "Every public function is interpreted abstractly with the summaries of its callees. A dereference (a load, a store, a call through the pointer, or handing it to a C function that reads it) of a pointer argument on a path on which nothing shows that the argument is not NULL is recorded, across calls, with the place. The arguments that accept NULL on the confirmed tree (frozen/nulls.json) must not have any such path."
ASSUMPTIONS = ["functions that the library is built without (other platforms, TLS, back ends not compiled here) are not judged", "an argument dereferenced only when another argument asks for it counts as not accepting NULL", "functions called through pointers are not followed for this rule"]
def run(c):
    fz = json.load(open(os.path.join(V, "frozen/nulls.json"))); lat = {}
    for x in c.d["latents"]:
        if x["arg"] >= 0: lat.setdefault(x["f"], {}).setdefault(x["arg"], x["where"])
    n = 0
    for name, args in sorted(fz.items()):
        for i in c.byname.get(name, []):
            f = c.fns[i]
            if not f["public"]: continue
            for a in args:
                if not f["ptrs"] >> a & 1: continue
                n += 1; c.obl(); w = lat.get(i, {}).get(a)
                if n % 97 == 0: c.sample("%s %s(): argument %d" % (f["file"], name, a + 1))
                if w: c.find("null:%s:%d" % (name, a), "NULL accepted today stays accepted", f["file"], f["line"], name, "argument %d of %s() is dereferenced at %s on a path on which it may be NULL" % (a + 1, name, w.split("<")[0]), [p for p in w.split("<")[1:]])
    c.need(n, 3300, "pointer arguments of public functions that accept NULL")
