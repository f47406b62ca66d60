#!/usr/bin/env python3
"""Regenerates frozen/tus.json from a cmake configure of /repo (only needed when the build system changes).
usage: freeze.py CFGDIR [OUTDIR]"""
import json, shlex, sys, os, hashlib, shutil
cfg = os.path.abspath(sys.argv[1]); out = sys.argv[2] if len(sys.argv) > 2 else os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "frozen")
repo = "/repo"
d = json.load(open(os.path.join(cfg, "compile_commands.json"))); seen = set(); tus = []
for x in d:
    f = os.path.normpath(os.path.join(x["directory"], x["file"]))
    if f in seen or not f.startswith(repo + "/") or f.startswith(repo + "/test/"): continue
    seen.add(f); a = shlex.split(x["command"]); keep = []; k = 1
    def sub(p): return p.replace(cfg, "@B@").replace(repo, "@R@")
    while k < len(a):
        t = a[k]
        if t.startswith(("-D", "-I", "-std", "-U")): keep.append(sub(t))
        elif t in ("-isystem", "-include"): keep += [t, sub(a[k + 1])]; k += 1
        k += 1
    tus.append({"file": os.path.relpath(f, repo), "flags": [t for t in keep if t != "-DNDEBUG"] + ["-DNDEBUG"]})
os.makedirs(os.path.join(out, "cfg/include/mstdlib"), exist_ok=True)
shutil.copy(os.path.join(cfg, "config.h"), os.path.join(out, "cfg/config.h"))
shutil.copy(os.path.join(cfg, "include/mstdlib/mstdlib_version.h"), os.path.join(out, "cfg/include/mstdlib/mstdlib_version.h"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build_hash
json.dump({"hash": build_hash(repo), "tus": tus}, open(os.path.join(out, "tus.json"), "w"), indent=0)
print(len(tus))
