"""Random additions of responses and components that differ in few details."""
import copy
import random

from gen_doc import DocGen, BASICS


def vary(r, f, comp):
    """The same field with one detail changed."""
    f = copy.deepcopy(f)
    k = r.choice(["pkg", "type", "slice", "array", "alen", "mapk", "mapkpkg", "mapv", "epkg", "fields", "tags", "enum", "emb", "doc", "name"])
    if comp and k in ("pkg", "name"):
        f[k] += r.choice(["x", "y", "/z"])
    elif k == "alen":
        f[k] += 1
    elif k == "fields":
        if f["fields"] and r.random() < 0.6:
            n = r.choice(sorted(f["fields"]))
            if r.random() < 0.5:
                f["fields"][n] = vary(r, f["fields"][n], False)
            else:
                del f["fields"][n]
        else:
            f["fields"]["More"] = dict(copy.deepcopy(f), fields={}, forder=[], type="string")
        f["forder"] = sorted(f["fields"])
    elif k == "tags":
        f["tags"] = dict(f["tags"], json=dict(name=r.choice(["a", "b"]), hide=False, opt=r.random() < 0.5))
    elif k == "enum":
        f["enum"] = f["enum"] + [r.choice(["s:a", "i:1"])]
    elif k == "emb":
        f["emb"] = not f["emb"]
    elif k in ("type", "slice", "array", "mapk", "mapv"):
        f[k] = r.choice(BASICS)
    else:
        f[k] += "x"
    return f


def case(r, g, i):
    ids = [("ex.com/m/a", "T"), ("ex.com/m/b", "T"), ("ex.com/m/a", "U")]
    rets, comps = [], []
    for _ in range(r.randint(1, 10)):
        x = r.random()
        if rets and x < 0.3:
            n = copy.deepcopy(r.choice(rets))
        elif rets and x < 0.8:
            n = copy.deepcopy(r.choice(rets))
            y = r.random()
            if y < 0.25:
                n["code"] = r.choice([200, 201, 404])
            elif y < 0.5:
                n["ct"] = r.choice(["application/json", "application/xml", ""])
            else:
                n["f"] = vary(r, n["f"], False)
        else:
            n = dict(code=r.choice([200, 404]), ct=r.choice(["application/json", ""]), f=copy.deepcopy(g.component("", "", ids)))
        rets.append(n)
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if comps and x < 0.2:
            n = copy.deepcopy(r.choice(comps))
        elif comps and x < 0.7:
            n = vary(r, r.choice(comps), True)
        else:
            p, nm = r.choice(ids)
            n = copy.deepcopy(g.component(p, nm, ids))
        comps.append(n)

    def batches(xs):
        out = []
        while xs:
            k = r.choice([0, 1, 1, 2, 3, len(xs)])
            out.append(xs[:k])
            xs = xs[k:]
        return out
    return dict(id=i, rets=batches(rets), comps=batches(comps))


def cases(seed, n):
    r = random.Random(seed)
    g = DocGen(seed + 1)
    return [case(r, g, i + 1) for i in range(n)]
