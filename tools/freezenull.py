#!/usr/bin/env python3
"""Writes frozen/nulls.json from the facts of the confirmed tree: the pointer arguments of public functions that do not accept NULL.
usage: freezenull.py FACTS.json"""
import json, sys, os
d = json.load(open(sys.argv[1])); F = d["functions"]; here = os.path.dirname(os.path.abspath(__file__))
bad = {}; fns = {}
for x in d["latents"]:
    if x["arg"] >= 0: bad.setdefault(F[x["f"]]["name"], set()).add(x["arg"])
for f in F:
    if f["public"] and f["ptrs"] and not f["trunc"]: fns[f["name"]] = [i for i in range(60) if f["ptrs"] >> i & 1 and i not in bad.get(f["name"], ())]
json.dump({k: v for k, v in fns.items() if v}, open(os.path.join(here, "..", "frozen", "nulls.json"), "w"), indent=0, sort_keys=True)
print(len(fns), sum(map(len, fns.values())), sum(map(len, bad.values())))
