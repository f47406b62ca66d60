"""Freeze the cycles of the call graph of the confirmed tree: tools/freezecycles.py FACTS"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../checks"))
import ctx, c20
c = ctx.Ctx(json.load(open(sys.argv[1])), "C20", "quick"); o = c20.freeze(c)
json.dump(o, open(c20.FROZEN, "w"), indent=0); print(len(o), [q["fns"] for q in o if q["limit"]])
