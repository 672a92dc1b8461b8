"""Random histories of services in a working directory."""
import random

CACHES = ["", "", "", "default", "default", "default", "sub/cache.json", "c.yaml", "c.yml", "sub/c.json", "missing/c.json", "c.txt", "dir.json"]
OUTS = [("json", "d.json"), ("json", "sub/d"), ("openapi", "o.json"), ("openapi", "o.yaml"), ("openapi", "sub/api"), ("openapi", "old.json"), ("azure", "az"), ("azure", "sub/fn"),
        ("azure", "olddir"), ("json", "missing/d.json"), ("azure", "missing/az"), ("openapi", "dir.json"), ("openapi", "out.yml"), ("azure", ".")]
PRE = [("main.go", "old"), ("go.mod", "old"), ("keep.txt", "old"), ("sub", "dir"), ("sub/keep.json", "old"), ("old.json", "old"), ("dir.json", "dir"), ("olddir", "dir"), ("olddir/f.txt", "old")]
CALLS = ["Setup", "CreateRoutes", "ParseRoutes", "Clean", "Generate", "Teardown", "SetupParse", "CompleteParse", "Parse", "Parse", "Cache", "LoadCache", "ClearCache"]
SYSCALLS = ["write", "openat", "mkdirat", "renameat", "unlinkat", "openat,write,mkdirat,renameat,renameat2,unlinkat"]


def out(r, good=False):
    while True:
        k, p = r.choice(OUTS)
        if not good or ("missing" not in p and p not in ("dir.json", ".")):
            return dict(kind=k, path=p)


def cfg(r, v, good=False, full=False):
    n = r.choice([1, 1, 2, 2, 3] if full else [0, 1, 1, 2, 2, 3])
    m = r.choice([1, 1, 2, 3] if full else [0, 1, 1, 2, 2, 3])
    outs = []
    while len(outs) < m:
        o = out(r, good or r.random() < 0.7)
        if o not in outs:
            outs.append(o)
    cache = r.choice(CACHES)
    while good and ("missing" in cache or cache == "dir.json"):
        cache = r.choice(CACHES)
    return dict(cache=cache, cli=r.choice(["", "", "", "setup", "builder"]), cwd=r.random() < 0.25, ins=[r.randint(1, 3) for _ in range(n)] if r.random() < 0.3 else list(range(1, n + 1)),
                outs=outs, title=r.choice(["one", "two", "three"]), v=v)


NOCFG = dict(cache="", cli="", cwd=False, ins=[], outs=[], title="", v=0)


def op(k, **kw):
    o = dict(k=k, cfg=NOCFG, m="", fail="", how="", at=0, path="", kind="")
    o.update(kw)
    return o


def fail(r, c):
    evs = [f"{w}{i}" for w in ("create", "parse") for i in c["ins"]] + ["gen:" + o["path"] for o in c["outs"]]
    return r.choice(evs) if evs else ""


def how(r):
    x = r.random()
    if x < 0.15:
        return dict(how="event", at=r.randint(1, 8))
    if x < 0.35:
        return dict(how=r.choice(["limit", "full"]), at=r.choice([0, 1, 2, 10, 100, 200, 300, 400, 500, 600, 700, 800, 1000, 1500]))
    if x < 0.5:
        s = r.choice(["write", "renameat", "mkdirat"])
        return dict(how="err:" + s, at=r.randint(1, {"write": 16, "mkdirat": 5, "renameat": 7}[s]))
    s = r.choice(SYSCALLS)
    hi = {"write": 16, "openat": 32, "mkdirat": 4, "renameat": 6, "unlinkat": 16}.get(s, 60)
    return dict(how="sys:" + s, at=r.randint(1, hi))


def interrupted(r, i):
    """Runs in one directory, some of which end in between, and a complete one at the end."""
    ops = []
    c = cfg(r, 1, good=True, full=True)
    v = 1
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < 0.3:
            ops += [op("new", cfg=dict(c, v=v)), op("call", m=r.choice(["Parse", "SetupParse"]))]
        elif x < 0.45:
            ops += [op("new", cfg=dict(c, v=v)), op("call", m="Parse", fail=fail(r, c))]
        if x > 0.3 or r.random() < 0.8:
            ops.append(op("die", cfg=dict(c, v=v + 1), m=r.choice(["Parse", "Parse", "SetupParse"]), **how(r)))
        v += r.choice([0, 1, 2])
        if r.random() < 0.2:
            c = dict(c, cache=cfg(r, 1, True)["cache"])
    if c["cache"] and r.random() < 0.3:
        ops += [op("new", cfg=dict(c, cwd=False, v=v)), op("call", m="LoadCache"), op("call", m="CompleteParse")]
    ops += [op("new", cfg=dict(c, v=v + 1)), op("call", m="Parse")]
    if r.random() < 0.3:
        ops.append(op("call", m="Parse"))
    return ops


def steps(r, i):
    """Any calls of services."""
    ops, cur, asked = [], None, False
    for n in range(r.randint(3, 9)):
        x = r.random()
        if cur is None or x < 0.15:
            cur = cfg(r, n + 1)
            if cur["cwd"]:
                ops += [op("new", cfg=cur), op("call", m="Setup")]
            else:
                ops.append(op("new", cfg=cur))
        elif x < 0.27:
            p = r.choice([".astra", ".astra", ".astra", "c.yaml", "sub/cache.json", "d.json", "az", ".astra/cache.json"])
            if p.startswith(".astra/"):
                if not any(o["k"] == "call" and o["m"] in ("Setup", "Parse", "SetupParse") for o in ops[-1:]):
                    continue
                if [o["kind"] for o in ops if o["path"] == ".astra"][-1:] == ["old"]:
                    continue
                if ops[-1]["fail"] or cur["cache"] != "default" or ops[-1]["m"] == "Parse":
                    continue
                ops.append(op("put", path=p, kind=r.choice(["gone", "junk"])))
                continue
            if p == ".astra":
                ops.append(op("put", path=p, kind=r.choice(["gone", "old", "gone"])))
            else:
                ops.append(op("put", path=p, kind="junk" if r.random() < 0.5 else r.choice(["gone", "old"])))
        else:
            m = r.choice(CALLS)
            ops.append(op("call", m=m, fail=fail(r, cur) if r.random() < 0.2 else ""))
    return ops


def case(r, i, kind):
    pre = [dict(path=p, kind=k) for p, k in PRE if k != "old" or "/" in p or p in ("main.go", "go.mod") or r.random() < 0.8]
    return dict(id=i, pre=pre, ops=interrupted(r, i) if kind == "interrupted" else steps(r, i))


def cases(seed, n, kind):
    r = random.Random(f"{seed}-{kind}")
    return [case(r, i + 1, kind) for i in range(n)]
