#!/usr/bin/env python3
"""sweep.py LAYER N SEED PROP...: runs the driver of a layer once and judges the records for each property, and prints every reason.
For development: the checks are run by check.py."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import engine
import layers

layer, n, seed = layers.LAYERS[sys.argv[1]], int(sys.argv[2]), int(sys.argv[3])
props = sys.argv[4:]
os.environ["VERIF_SEED"] = str(seed)
ctx = engine.Ctx(props[0])
ctx.seed = seed
try:
    if not os.environ.get("REUSE"):
        engine.build_driver(ctx, layer.race)
    cache = f"/tmp/sweep/{layer.name}-{n}-{seed}.recs"
    os.makedirs("/tmp/sweep", exist_ok=True)
    cases = layer.cases(ctx, n)
    if os.environ.get("REUSE") and os.path.exists(cache):
        recs = json.load(open(cache))
    else:
        recs = engine.run_driver(ctx, layer, cases)
        json.dump(recs, open(cache, "w"))
    by = {r["id"]: (c, r) for c, r in zip(cases, recs)}
    for r in recs:
        if r.get("crash"):
            print("CRASH", r["id"], r["crash"])
    for p in props:
        rej = engine.judge(ctx, layer.trace, [r for r in recs if not r.get("crash")], p)
        print(p, len(rej), "rejected of", len(recs))
        for i in sorted(rej):
            path = f"/tmp/sweep/{p}-{i}.json"
            os.makedirs("/tmp/sweep", exist_ok=True)
            json.dump(dict(property=p, layer=layer.name, case=by[i][0], record=by[i][1]), open(path, "w"), indent=1)
            for o in rej[i]:
                print("  ", i, o["what"], str(o["why"])[:int(os.environ.get("W", "700"))])
finally:
    if hasattr(ctx, "close"):
        ctx.close()
