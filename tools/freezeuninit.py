#!/usr/bin/env python3
"""Writes frozen/uninit.json from the facts of the confirmed tree: the reads whose order the dataflow cannot establish, and the
functions that allocate arrays cleared. usage: freezeuninit.py FACTS.json"""
import json, sys, os
d = json.load(open(sys.argv[1])); F = d["functions"]; here = os.path.dirname(os.path.abspath(__file__))
k = sorted({"|".join((F[x[0]]["file"], F[x[0]]["name"], x[2], x[3], x[4])) for x in d["uninit"]})
g = sorted({"|".join((w, p, m)) for p, l, w, m in d["diags"] if "uninitialized" in w})
a = {}
for x in d["calls"]:
    if x.get("c") not in ("M_malloc", "M_malloc_zero", "M_realloc", "M_realloc_zero") or isinstance(x["a"][-1], int): continue
    a.setdefault(F[x["f"]]["name"], [0, 0])[0 if x["c"].endswith("_zero") else 1] += 1
json.dump(dict(known=k, diags=g, arrays={n: v for n, v in sorted(a.items()) if v[0]}), open(os.path.join(here, "..", "frozen", "uninit.json"), "w"), indent=0)
print(len(k), len(g), len(a))
