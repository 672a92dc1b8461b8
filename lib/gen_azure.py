"""Random runs of the Azure Functions output."""
import random

from gen_doc import DocGen, field, METHODS

TYPES = ["string", "string", "string", "int", "int32", "int64", "uint", "uint32", "uint64", "float32", "float64", "bool", "int8", "T", "byte"]
PARS = ["id", "alpha", "a", "long", "int", "i", "name", "idx", "user_id", "double", "b", "id2", "x.y"]
LITS = ["users", "v1", "id", "a", "alpha", "{id}", "x-y"]
DIRS = ["azure", "azure", "azure", "out/azure", "./azure", "azure/", "out/../azure", "old", "old/sub", "missing/azure", ".", "", "out/..", ".astra", ".astra/azure", "..", "file", "new"]


def route(r, n, names):
    segs, pp = [], []
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        left = [p for p in PARS if p not in [q["name"] for q in pp]]
        x = r.random()
        if x < 0.45:
            segs.append(r.choice(LITS))
            continue
        p = r.choice(left)
        wild = x > 0.92
        segs.append(("*" if wild else ":") + p)
        pp.append(dict(name=p, f=field(type=r.choice(TYPES)), req=not wild, arr=False, map=False, bound=False, ct=""))
        if wild:
            break
    if r.random() < 0.25:
        pp.append(dict(name="", f=field(type=r.choice(["T", "int", "string", "bool"])), req=False, arr=False, map=False, bound=True, ct=""))
    path = "/" + "/".join(segs)
    pkg = r.choice(["main", "ex.com/m/a", "ex.com/x.y/a", "ex.com/m.v2"])
    return dict(handler=f"{pkg}.{names[n]}", file="a.go", line=n + 1, method=r.choice(METHODS), path=path, pp=pp, query=[], hdr=[], reshdr=[], body=[], ret=[], doc="", opid="")


NAMES = ["GetUser", "func1", "Get-fm", "list", "List", "func2", "a", "azure", "Create_2", "function", "Del"]


def case(r, i):
    pre = [dict(path="out", kind="dir"), dict(path="keep.txt", kind="file")]
    for p, k in (("old", "dir"), ("old/sub", "dir"), ("old/f.txt", "file"), ("old/sub/function.json", "file"), ("azure", "dir"), ("azure/keep.txt", "file"), ("azure/GetUser", "dir"),
                 ("azure/GetUser/function.json", "file"), ("file", "file"), ("out/x", "file")):
        if r.random() < 0.6 and (("/" not in p) or dict(path=p.rsplit("/", 1)[0], kind="dir") in pre):
            pre.append(dict(path=p, kind=k))
    steps = []
    main = r.choice(DIRS)
    for _ in range(r.choice([1, 1, 2, 3])):
        names = r.sample(NAMES, r.choice([0, 1, 2, 3, 5]))
        if names and r.random() < 0.2:
            names.append(r.choice(names))
        steps.append(dict(dir=main if r.random() < 0.6 else r.choice(DIRS), routes=[route(r, k, names) for k in range(len(names))], down=r.random() < 0.5))
    return dict(id=i, pre=pre, steps=steps)


def cases(seed, n):
    r = random.Random(seed)
    return [case(r, i + 1) for i in range(n)]
