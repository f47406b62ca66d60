#!/usr/bin/env python3
"""Writes frozen/drops.json from the facts of the confirmed tree: what each releasing function releases.
usage: freezedrops.py FACTS.json"""
import json, sys, os, re
d = json.load(open(sys.argv[1])); F = d["functions"]; here = os.path.dirname(os.path.abspath(__file__))
key = lambda i: F[i]["file"] + ":" + F[i]["name"]
ok = lambda s: "@" not in s and "[]" not in s and "?" not in s
full = {}; paths = {}; cont = {}
for x in d["drops"]:
    if not x["own"] or not ok(x["x"]) or x["x"].count("->") > 1: continue
    f = F[x["f"]]
    ms = sorted(m for m, (r, n, g, o) in x["mem"].items() if ok(m) and r > 0 and o == 0 and r + n + g == x["n"])
    if not ms: continue
    full.setdefault(key(x["f"]), {"params": f["params"], "x": {}})["x"][x["x"]] = ms
for x in d["relpaths"]:
    f = F[x["f"]]; ps = []
    for p in x["p"]:
        c = p.split("->")
        if p == "?" or not ok(p) or len(c) > 3 or len(set(c)) < len(c) or not c[0].startswith("arg"): continue
        ps.append(p)
    e = {"params": f["params"], "p": sorted(ps), "u": x["p"].get("?", 0)}
    n = {p: k for p, k in x["p"].items() if k > 1 and "|" in p and "@" not in p}
    if n: e["n"] = n
    if e["p"] or e["u"]: paths[key(x["f"])] = e
rets = {}
for x in d["relret"]:
    f = F[x["f"]]; ps = [p for p in x["all"] if ok(p) and len(p.split("->")) <= 3 and p.startswith("arg") and len(set(p.split("->"))) == len(p.split("->"))]
    if ps: rets[key(x["f"])] = {"params": f["params"], "p": sorted(ps)}
rel = {f["name"] for f in F if f["frees"] & 1} | {"M_free"}
for x in d["contcb"]:
    fs = [n for n in x["fns"] if n in rel or re.search(r"(_destroy|_free|_destory)\w*$", n)]
    if fs: cont.setdefault(key(x["f"]), {}).setdefault(x["c"], []); cont[key(x["f"])][x["c"]] = sorted(set(cont[key(x["f"])][x["c"]]) | set(fs))
json.dump({"full": full, "paths": paths, "rets": rets, "cont": cont}, open(os.path.join(here, "..", "frozen", "drops.json"), "w"), indent=0, sort_keys=True)
print(len(rets), sum(len(e['p']) for e in rets.values()), len(full), sum(len(m) for e in full.values() for m in e["x"].values()), len(paths), sum(len(e["p"]) for e in paths.values()), len(cont), sum(len(v) for e in cont.values() for v in e.values()))
