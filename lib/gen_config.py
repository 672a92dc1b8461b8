"""Random calls of the configuration builder, and outputs at all kinds of paths."""
import random

from gen_doc import DocGen, NASTY

DIRS = ["d", "d/e", "docs", "x.json"]
NAMES = ["openapi", "a", "b.v1", "a.json", "a.yaml", "a.yml", "a.JSON", "a.txt", "json", ".json", ".yaml", "yaml", "a.yaml.json", "a.json.yaml", "a.json.", "a.jsonx", "ayml", "a.yamls",
         "x.json", "d", "sp ace.json", "\u00e9.yml", "a.b.c"]


def path(r):
    p = r.choice(NAMES)
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        p = r.choice(["d/", "d/e/", "./", "docs/../", "docs/", "missing/", "d//", "d/../d/e/"]) + p
    return p


def text(r, usual):
    return r.choice(usual + [r.choice(NASTY), ""])


def call(r, f):
    c = dict(f=f, s="", n=0, b=False, c=dict(name="", url="", email=""), l=dict(name="", url=""))
    if f in ("title", "description", "version"):
        c["s"] = text(r, ["API", "2.0", "It is an API."])
    elif f == "contact":
        c["c"] = dict(name=text(r, ["N"]), url=text(r, ["http://n"]), email=text(r, ["a@b.c"]))
    elif f == "license":
        c["l"] = dict(name=text(r, ["MIT"]), url=text(r, ["http://l"]))
    elif f == "secure":
        c["b"] = r.random() < 0.6
    elif f == "host":
        c["s"] = r.choice(["", "ex.com", "api.ex.com", "10.0.0.1", "localhost", "h"])
    elif f == "basePath":
        c["s"] = r.choice(["", "/", "/api", "/v1/x", "v1", "/a/"])
    elif f == "port":
        c["n"] = r.choice([0, 0, 1, 80, 443, 8000, 8080, 65535])
    return c


def case(r, g, i):
    calls = []
    done = False
    for _ in range(r.choice([0, 2, 4, 8, 12])):
        f = r.choice(["title", "description", "version", "contact", "license", "secure", "host", "basePath", "port", "port", "build", "build"])
        if done and f != "build":
            continue
        calls.append(call(r, f))
        # what is set after a successful build is not looked at
        ports = [c["n"] for c in calls if c["f"] == "port"]
        done = done or (f == "build" and bool(ports) and ports[-1] != 0)
    if calls and not done and r.random() < 0.6:
        calls += [dict(call(r, "port"), n=r.choice([1, 8080])), call(r, "build")]
    pre = [dict(path=d, kind="dir") for d in DIRS if d != "x.json" or r.random() < 0.2]
    outs = [dict(kind=r.choice(["openapi", "openapi", "openapi", "json"]), path=path(r)) for _ in range(r.choice([1, 1, 2, 3]))]
    for n in ("a.json", "a.yaml", "d/a.json", "openapi.json", "unrelated.txt", "d/other.json"):
        if r.random() < 0.25:
            pre.append(dict(path=n, kind="file"))
    svc = g.service(r.choice([0, 1, 2]))
    svc["mapping"] = []
    raw = [svc["config"]] if r.random() < 0.4 else []
    return dict(id=i, calls=calls, raw=raw, work=r.choice(["custom", "custom", "relative", "cwd"]), outs=outs, pre=pre, svc=svc)


def cases(seed, n):
    r = random.Random(seed)
    g = DocGen(seed + 1)
    return [case(r, g, i + 1) for i in range(n)]
