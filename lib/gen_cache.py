"""Random histories of services that are saved to and loaded from caches."""
import random

from gen_doc import DocGen

PATHS = ["", "a.json", "b.yaml", "sub/c.yml", "sub/d.json", "e.txt", "missing/f.json", "g.json.yaml", "h"]
LOADS = [p for p in PATHS if p] + ["w/.astra/cache.json", "nowhere.json"]
JUNK = ["text", "json1", "json2", "json3", "yaml1", "yaml2", "empty", "gone", "dir"]
INS = ["gin", "gin", "echo", "mode with spaces", ""]
OUTS = [("openapi", "docs/openapi.json"), ("openapi", "o.yaml"), ("json", "d"), ("azure", "az"), ("openapi", "a: b.yml"), ("json", "\u00e9 # x.json"), ("azure", "no")]


def op(k, **kw):
    o = dict(k=k, i=0, n=0, path="", kind="")
    o.update(kw)
    return o


def payload(r, g):
    svc = g.service(r.choice([0, 1, 2, 3]))
    want = r.random()
    while want < 0.6 and not svc["mapping"]:
        svc = g.service(r.choice([1, 2, 3]))
    if want > 0.8:
        svc["mapping"] = []
    elif want < 0.6:        # one that shows in nearly every output
        known = {m["key"] for m in svc["mapping"]}
        for key in r.sample(["string", "int", "bool", "float64"], r.randint(1, 4)):
            if key not in known:
                svc["mapping"].append(dict(key=key, type=r.choice(["string", "integer", "object"]), format=r.choice(["f1", "f2", "f3"])))
    return dict(svc=svc, ins=[r.choice(INS) for _ in range(r.choice([0, 1, 1, 2]))], outs=[dict(zip(("kind", "path"), r.choice(OUTS))) for _ in range(r.choice([0, 1, 2, 3]))])


def case(r, g, i):
    n = r.choice([1, 2, 2, 3])
    keys = []
    ops, paths, made = [], {}, []
    if n > 1 and r.random() < 0.3:      # a service that already generated becomes another one
        p = r.choice(["a.json", "b.yaml", "sub/c.yml"])
        paths, made = {1: "", 2: p}, [1, 2]
        ops = [op("new", i=1), op("new", i=2, path=p), op("fill", i=1, n=1), op("fill", i=2, n=2), op("gen", i=1), op("save", i=2), op("loadp", i=1, path=p), op("gen", i=1)]
    for _ in range(r.randint(5, 14)):
        x = r.random()
        if not made or x < 0.1:
            k = r.randint(1, 3)
            paths[k] = r.choice(PATHS)
            ops.append(op("new", i=k, path=paths[k]))
            made = sorted(set(made) | {k})
            if r.random() < 0.5:
                ops.append(op("fill", i=k, n=r.randint(1, n)))
            continue
        k = r.choice(made)
        if x < 0.2:
            ops.append(op("fill", i=k, n=r.randint(1, n)))
        elif x < 0.45:
            ops.append(op("save", i=k))
        elif x < 0.55:
            ops.append(op("load", i=k))
        elif x < 0.75:
            near = [p for p in paths.values() if p] + ["w/.astra/cache.json"]
            if r.random() < 0.5:
                ops.append(op("gen", i=k))
            ops.append(op("loadp", i=k, path=r.choice(near if r.random() < 0.7 else LOADS)))
            if r.random() < 0.5:
                ops.append(op("gen", i=k))
        elif x < 0.8:
            ops.append(op("clear", i=k))
        elif x < 0.87:
            p = r.choice(LOADS)
            if not p.startswith("missing"):
                ops.append(op("put", i=k, path=p, kind=r.choice(JUNK)))
        else:
            ops.append(op("gen", i=k))
    return dict(id=i, svcs=[payload(r, g) for _ in range(n)], ops=ops)


def complete(cs, seed):
    """Gives the histories of the model services with content."""
    r = random.Random(seed)
    g = DocGen(seed + 31)
    pool = [payload(r, g) for _ in range(24)]
    return [dict(c, svcs=r.sample(pool, 2)) for c in cs]


def cases(seed, n):
    r = random.Random(seed)
    g = DocGen(seed + 17)
    return [case(r, g, i + 1) for i in range(n)]


def again(seed, n):
    """Services that generate more than once, one after the other."""
    r = random.Random(seed)
    g = DocGen(seed + 5)
    out = []
    for i in range(n):
        k = r.choice([1, 2, 2, 3])
        ops = [op("new", i=j) for j in range(1, k + 1)] + [op("fill", i=j, n=j) for j in range(1, k + 1)]
        for _ in range(r.randint(2, 3) + k):
            j = r.randint(1, k)
            if r.random() < 0.3:
                ops.append(op("fill", i=j, n=r.randint(1, k)))
            ops.append(op("gen", i=j))
        out.append(dict(id=i + 1, svcs=[payload(r, g) for _ in range(k)], ops=ops))
    return out
