"""Random registrations of routes, and rules that deny some of them."""
import random

METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT"]
NH = 11

# The program that the routes are analysed as: a handler without an effect, and one that binds the path.
MAIN = '''package main

import "github.com/gin-gonic/gin"

type Path struct {
\tID    int    `uri:"id" form:"fid" header:"X-Id" json:"jid"`
\tName  bool   `uri:"name" form:"fname" header:"X-Name" json:"jname"`
\tExtra string `uri:"extra" form:"fextra" header:"X-Extra" json:"jextra"`
}

func H0(c *gin.Context) {
\t_ = c
}

func H1(c *gin.Context) {
\tvar p Path
\tc.ShouldBind(&p)
}

func main() {}
'''
LINES = {"H0": MAIN.split("func H0")[0].count("\n") + 1, "H1": MAIN.split("func H1")[0].count("\n") + 1}
FILES = {"main.go": MAIN}


def basic(n):
    return dict(k="basic", n=n, pkg="", len=0, a=[], f=[])


NAMED = dict(k="named", n="Path", pkg="main", len=0, a=[], f=[])


def field(n, t, low):
    return dict(n=n, t=basic(t), emb=False, exp=True, vals=[],
                tags=[["uri", low], ["form", "f" + low], ["header", "X-" + n.capitalize()], ["json", "j" + low]])


def item(k, m, val=(), inner=()):
    return dict(k=k, m=m, code=-1, name="", nameok=False, val=list(val), fn=0, inner=list(inner))


def func(name, body):
    return dict(pkg="main", ctx="c", doc="", name=name, body=body)


PROG = dict(types=[dict(pkg="main", name="Path", doc="",
                        **{"def": dict(k="struct", n="", pkg="", len=0, a=[],
                                       f=[field("ID", "int", "id"), field("Name", "bool", "name"), field("Extra", "string", "extra")])})],
            consts=[], funcs=[func("H0", []), func("H1", [item("call", "ShouldBind", [NAMED])])], routes=[], customs=[], mapping=[])


def fn_of(h):
    """The analysed function of a handler."""
    return 1 if h in (0, 2, 5, 8) else 2


TARGETS = [dict(handler="main.H%d" % (fn_of(h) - 1), file="main.go", line=LINES["H%d" % (fn_of(h) - 1)], method="", path="") for h in range(NH + 1)]
FNS = [fn_of(h) for h in range(NH + 1)]


def complete(c):
    """Adds what is the same for all cases."""
    return dict(c, files=FILES, targets=TARGETS, fns=FNS, prog=PROG)


class Tree:
    """The paths of a router and method; says which ones can be added without a conflict."""

    def __init__(self):
        self.paths = set()
        self.kids = {}

    def takes(self, path):
        segs = path.split("/")[1:]
        if path in self.paths:
            return False
        for i, s in enumerate(segs):
            kids = self.kids.get(tuple(segs[:i]), set())
            catch = [k for k in kids if k.startswith("*")]
            if s.startswith("*"):
                if kids:
                    return False
            elif catch:
                return False
            elif s.startswith(":"):
                if any(k.startswith(":") and k != s for k in kids):
                    return False
            elif ":" in s:
                if any(k != s and k[:1] in (":", "z") for k in kids):
                    return False
            if s[:1] == ":" and any(":" in k[1:] for k in kids):
                return False
            if s[:1] == "z" and any(k[:1] == "z" and k != s for k in kids):
                return False
        # an empty segment is a trailing slash: a catch-all cannot be beside it
        return True

    def add(self, path):
        segs = path.split("/")[1:]
        self.paths.add(path)
        for i, s in enumerate(segs):
            self.kids.setdefault(tuple(segs[:i]), set()).add(s)


def join(a, b):
    if b == "":
        return a
    p = "/" + "/".join(x for x in (a + "/" + b).split("/") if x)
    return p + "/" if b.endswith("/") and not p.endswith("/") else p


LITS = ["a", "b", "users", "user", "v1", "new", "a.b", "a-b_c", "x~y", "id", "name", "A", "(x)", "{b}", "users2", "é"]
PARS = [":id", ":name", ":other", ":ID", ":user_id", ":id2", ":a-b", ":x.y"]


def segment(r):
    x = r.random()
    if x < 0.6:
        return r.choice(LITS)
    if x < 0.93:
        return r.choice(PARS)
    return "z%s:%s" % (r.choice(["", "v", "file."]), r.choice(["id", "name", "ver"]))


def path(r):
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    p = "".join("/" + segment(r) for _ in range(n))
    x = r.random()
    if x < 0.1:
        p += "/*" + r.choice(["path", "name", "id", "filepath"])
    elif x < 0.2 and n:
        p += "/"
    elif x < 0.27 and n:
        p = p[1:]
    return p or r.choice(["/", ""])


def group(r):
    return r.choice(["", "", "", "/", "/api", "/api/", "api", "/api/v1", "/:id", "/api/:name/x", "/g.h"])


def pieces(r, p):
    """A pattern that is made of the pieces of a path."""
    atoms = []
    for s in p.split("/")[1:]:
        x = r.random()
        atoms.append(dict(k="lit", v="/"))
        if x < 0.25:
            atoms.append(dict(k="seg", v=""))
        elif x < 0.4:
            atoms.append(dict(k="any", v=""))
        elif s:
            atoms.append(dict(k="lit", v=s))
    return atoms


def deny(r, paths):
    p = r.choice(paths) if paths and r.random() < 0.85 else "/" + r.choice(LITS)
    d = dict(k="", v="", start=False, end=False, atoms=[])
    k = r.choice(["exact", "exact", "prefix", "suffix", "contains", "regex", "regex", "regex"])
    if k == "exact":
        v = r.choice([p, p, p, p.rstrip("/") or "/", p + "/", p.upper(), p[:-1]])
        return dict(d, k=k, v=v)
    i, j = sorted((r.randint(0, len(p)), r.randint(0, len(p))))
    if k == "prefix":
        return dict(d, k=k, v=p[:max(2, j)])
    if k == "suffix":
        return dict(d, k=k, v=p[min(i, len(p) - 1):])
    if k == "contains":
        return dict(d, k=k, v=p[i:j] if j - i > 1 else p)
    a = pieces(r, p)
    if r.random() < 0.4:
        a = a[r.randint(0, len(a) - 1):]
    if r.random() < 0.3:
        a = a[:r.randint(1, len(a))]
    return dict(d, k=k, start=r.random() < 0.5, end=r.random() < 0.5, atoms=a)


def case(r, i):
    routers = r.choice([1, 1, 1, 2, 3])
    trees = {}
    regs = []
    everywhere = set()
    paths = []
    for _ in range(r.randint(1, 14)):
        rt = r.randint(1, routers)
        kind = r.choice(["handle"] * 8 + ["any", "static"])
        g, p = group(r), path(r)
        if r.random() < 0.35 and regs:
            q = r.choice(regs)
            g, p = q["group"], q["path"]
        full = join(join("/", g), p)
        if kind == "static":
            if ":" in p or "*" in p:
                continue
            full = join(join("/", g), join(p, "/*filepath") if p else "/*filepath")
            ms = ["GET", "HEAD"]
        elif kind == "any":
            ms = METHODS
        else:
            ms = [r.choice(METHODS + ["GET", "POST", "GET", "POST"])]
        if any((m, full) in everywhere for m in ms):
            continue
        ts = [trees.setdefault((rt, m), Tree()) for m in ms]
        if not all(t.takes(full) for t in ts):
            continue
        for m, t in zip(ms, ts):
            t.add(full)
            everywhere.add((m, full))
        paths.append(full)
        regs.append(dict(router=rt, kind=kind, group=g, method=ms[0] if kind == "handle" else "", path=p, h=0 if kind == "static" else r.randint(1, NH), mw=r.choice([0, 0, 1, 2])))
    denies = [deny(r, paths) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]
    return complete(dict(id=i, routers=routers, regs=regs, denies=denies, late=r.random() < 0.3))


def cases(seed, n):
    r = random.Random(seed)
    return [case(r, i + 1) for i in range(n)]
