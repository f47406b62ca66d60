"""Freeze the calls whose failure reaches the result on the confirmed tree: tools/freezefails.py FACTS"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../checks"))
import ctx, c21
c = ctx.Ctx(json.load(open(sys.argv[1])), "C21", "quick"); o = c21.freeze(c)
json.dump(o, open(c21.FROZEN, "w"), indent=0, sort_keys=True); print(len(o))
