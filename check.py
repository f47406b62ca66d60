#!/usr/bin/env python3
"""usage: check.py PROPERTY   (see DESIGN.md)   exit 0 held, 1 violation, 2 the analysis itself is broken"""
import importlib, json, os, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools")); sys.path.insert(0, V)
import vlib, ctx as ctxm

def main():
    pid = sys.argv[1]; t0 = time.time(); tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("checks." + pid.lower())
    c = ctxm.Ctx(vlib.facts(), pid, tier)
    mod.run(c)
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid and k.get("status", "open") == "open"]
    kk = {k["key"]: k for k in known}
    viol = []; hit = {}
    for f in c.findings:
        if f["key"] in kk: hit.setdefault(f["key"], f)
        else: viol.append(f)
    cov = dict(c.cov); cov.setdefault("explanation", mod.EXPLANATION); cov["obligations"] = c.nobl; cov["discharged"] = c.nobl - len(c.findings)
    cov["samples"] = c.samples[:12]; cov["translation_units"] = c.d["tus"]; cov["functions_analysed"] = len(c.fns)
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "other"), coverage=cov, assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if k["key"] in hit: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if viol:
        rp = os.path.join(V, "evidence", pid + ".replay.txt")
        with open(rp, "w") as o:
            for f in viol:
                o.write("%s:%s: in %s(): %s\n  rule: %s\n  key: %s\n" % (f["file"], f["line"], f["fn"], f["msg"], f["rule"], f["key"]))
                if f.get("path"): o.write("  path (source lines of the branches taken, negative = condition false): %s\n" % " ".join(f["path"]))
        for f in viol[:20]: print("  %s:%s %s(): %s [%s]" % (f["file"], f["line"], f["fn"], f["msg"], f["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp)); return 1
    print("%s: held; %d obligations over %d functions in %d translation units, %.1fs" % (pid, c.nobl, len(c.fns), c.d["tus"], time.time() - t0))
    return 0

try: rc = main()
except vlib.Broken as e: print("ANALYSIS BROKEN: %s" % e); rc = 2
except Exception: traceback.print_exc(); rc = 2
sys.exit(rc)
