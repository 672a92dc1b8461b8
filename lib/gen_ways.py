"""Gives histories of ways to document programs random programs."""
import random

import gen_prog

OUTS = [[("openapi", "openapi.json"), ("json", "debug.json")], [("openapi", "docs/openapi.yaml"), ("openapi", "o.json"), ("json", "docs/d.json")], [("json", "docs/d.json"), ("openapi", "api.yml")]]


def plain(name):
    return name.split(".")[-1]


def complete(hs, seed):
    r = random.Random(seed * 31 + 7)
    out = []
    for n, h in enumerate(hs):
        tool = any(o["k"] in ("cli", "bad") for o in h)
        progs = []
        for q in range(max([o["q"] for o in h])):
            p = gen_prog.case(seed * 500009 + n * 2 + q, 1, None if tool or r.random() < 0.6 else "custom", (2, 6))
            progs.append({k: p[k] for k in ("id", "mod", "files", "routes", "customs", "mapping")})
        outs = list(r.choice(OUTS))
        names = [[plain(x["handler"]) for x in p["routes"]] for p in progs]
        if all(len(set(ns)) == len(ns) and all(s.isidentifier() for s in ns) for ns in names):
            outs.insert(r.randint(0, len(outs)), ("azure", "fn"))
        out.append(dict(id=n + 1, progs=progs, outs=[dict(kind=k, path=p) for k, p in outs], ops=h))
    return out
