"""Programs: abstract ones (what a handler calls, with which types), and their rendering as Go.

An abstract program is what the specification knows (spec/Types.tla, spec/Handlers.tla):
  types  [pkg, name, doc, def]      TExpr = [k, n, pkg, len, a, f]
  consts [pkg, type, name, val]     in the order of the files and declarations
  funcs  [ctx, named, doc, name, body]
  routes [fn, method, path, op]
  customs [mode, label]
The rendering chooses among the many ways that Go has to write the same thing, and adds the calls that it needs for that to the program.
"""
import json
import random

MOD = "ex.com/m"
CODES = [200, 201, 202, 204, 301, 400, 401, 403, 404, 409, 418, 422, 500, 501, 503, 599]
HTTP = {200: "OK", 201: "Created", 202: "Accepted", 204: "NoContent", 301: "MovedPermanently", 400: "BadRequest", 401: "Unauthorized", 403: "Forbidden", 404: "NotFound",
        409: "Conflict", 418: "Teapot", 422: "UnprocessableEntity", 500: "InternalServerError", 501: "NotImplemented", 503: "ServiceUnavailable"}
BINDINGS = ["header", "form", "uri", "json", "xml", "yaml"]

INT = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64"]
BASIC = ["string", "bool", "float32", "float64", "byte", "rune"] + INT


def T(k, n="", pkg="", ln=0, a=(), f=()):
    return dict(k=k, n=n, pkg=pkg, len=ln, a=list(a), f=list(f))


def B(n): return T("basic", n)
def N(pkg, n): return T("named", n, pkg)
def P(t): return T("ptr", a=[t])
def S(t): return T("slice", a=[t])
def A(n, t): return T("array", ln=n, a=[t])
def M(k, v): return T("map", a=[k, v])
def ST(fs): return T("struct", f=fs)
def CH(t): return T("chan", a=[t])
def FN(): return T("func")
def IF(): return T("iface")


ERROR = T("error")


def FD(n, t, tags=(), emb=False, vals=()):
    """A field: tags = [[binding, value]], vals = [[key, value]]"""
    return dict(n=n, t=t, tags=[list(x) for x in tags], emb=emb, exp=n[:1].isupper(), vals=[list(x) for x in vals])


def item(k, m="", code=-1, name="", nameok=False, val=(), fn=0, inner=()):
    return dict(k=k, m=m, code=code, name=name, nameok=nameok, val=list(val), fn=fn, inner=list(inner))


RESP = ["JSON", "XML", "YAML", "ProtoBuf", "AbortWithStatusJSON"]
STATUS = ["Status", "AbortWithStatus"]
NAMED = ["Query", "GetQuery", "QueryArray", "GetQueryArray", "QueryMap", "GetQueryMap", "PostForm", "GetPostForm", "PostFormArray", "GetPostFormArray",
         "PostFormMap", "GetPostFormMap", "FormFile", "GetHeader"]
BINDS = ["Bind", "BindJSON", "BindXML", "BindYAML", "BindQuery", "BindHeader", "ShouldBind", "ShouldBindJSON", "ShouldBindXML", "ShouldBindYAML", "ShouldBindQuery",
         "ShouldBindHeader"]
PLAIN = ["Abort", "Next", "IsAborted", "Set", "Get", "GetString", "Param", "ClientIP", "FullPath", "ContentType"]
TWO = {"GetQuery", "GetQueryArray", "GetQueryMap", "GetPostForm", "GetPostFormArray", "GetPostFormMap", "FormFile", "Get"}
BASICNAMES = ["id", "name", "page", "q", "X-Request-Id", "x_y", "sort[]", "filter", "Limit", "a.b", "tag", "ü"]


# ---- random abstract programs -------------------------------------------------

class Gen:
    def __init__(self, rng, routes=(6, 12), focus=None):
        self.r = rng
        self.focus = focus
        self.pkgs = self.packages()
        # the packages of the standard library take long to load
        self.use_time = rng.random() < .2
        self.use_http = rng.random() < .04
        self.types = []
        self.consts = []
        self.funcs = []
        self.routes = []
        self.n = 0
        self.gen_types()
        self.gen_funcs()
        self.gen_routes(rng.randint(*routes))
        self.customs = self.gen_customs()

    def packages(self):
        """[path, name of the package, directory]; a package may use those after it"""
        r = self.r
        pool = [("a", "a"), ("b", "b"), ("v2/a", "a"), ("api/types", "types"), ("db/types", "types"), ("go-util", "util"), ("x.y/z", "z"), ("internal/dom", "dom"),
                ("c.v1", "c"), ("main/main", "mainx"), ("api/v1/types", "types")]
        r.shuffle(pool)
        ps = [("main", "main", "")]
        for d, n in pool[:r.choice([1, 2, 2, 3, 3, 4])]:
            ps.append((MOD + "/" + d, n, d))
        return ps

    # types
    def gen_types(self):
        r = self.r
        for i, (path, name, d) in reversed(list(enumerate(self.pkgs))):
            for _ in range(r.randint(1, 5)):
                self.gen_type(i)
            # types that refer to each other
            sts = [t for t in self.types if t["pkg"] == path and t["def"]["k"] == "struct" and not t.get("as")]
            if len(sts) >= 2 and r.random() < .6:
                a, b = r.sample(sts, 2)
                self.add_field(a, r.choice([P, S])(N(path, b["name"])), "Peer")
                self.add_field(b, r.choice([P, S, lambda x: M(B("string"), x)])(N(path, a["name"])), "Back")

    def add_field(self, t, e, name):
        styles = [b for f in t["def"]["f"] for b, _ in f["tags"]]
        t["def"]["f"].append(FD(name, e, [[b, name.lower()] for b in dict.fromkeys(styles)]))

    NAMEPOOL = ["User", "Item", "Order", "Meta", "State", "Kind", "Node", "Page", "Data", "Info", "base", "inner", "T1", "Thing_x", "ID"]

    def gen_type(self, i):
        r = self.r
        pkg = self.pkgs[i][0]
        taken = {t["name"] for t in self.types if t["pkg"] == pkg}
        names = [n for n in self.NAMEPOOL if n not in taken]
        if not names:
            return
        name = r.choice(names)
        me = dict(pkg=pkg, name=name, doc=self.doc(name), **{"def": None})
        x = r.random()
        if x < .55:
            d = None
            self.types.append(me)      # so that it can refer to itself
            me["def"] = ST([])
            me["def"] = self.gen_struct(i, me)
        elif x < .8:
            b = r.choice(["string", "string", "int", "int", "float64", "bool", "float32"] + INT)
            me["def"] = B(b)
            self.types.append(me)
            self.gen_consts(pkg, name, b)
        else:
            y = r.random()
            me["def"] = B(r.choice(["string", "int"]))
            if y < .04:
                # a type that is made of itself
                me["def"] = r.choice([S(N(pkg, name)), M(B("string"), N(pkg, name)), S(P(N(pkg, name)))])
            elif y < .3:
                me["def"] = S(self.gen_texpr(i, 1, elem=True))
            elif y < .45:
                me["def"] = self.gen_map(i, 1)
            elif y < .55:
                me["def"] = A(r.choice([0, 1, 3, 16]), self.gen_texpr(i, 1, elem=True))
            elif y < .65:
                me["def"] = IF()
            elif y < .72:
                me["def"] = r.choice([CH(B("int")), FN()])
            elif y < .8:
                # a type that is defined as another named type has its underlying type
                others = [t for t in self.visible(i) if t is not me and t["def"]["k"] in ("struct", "basic") and (t["pkg"] == pkg or t["def"]["k"] != "struct" or self.exported_only(t["def"]))]
                if others:
                    o = r.choice(others)
                    me["def"] = o["def"]
                    me["as"] = [o["pkg"], o["name"]]
            elif y < .88:
                # a pointer to a struct type
                others = [t for t in self.visible(i) if t is not me and t["def"]["k"] == "struct"]
                if others:
                    o = r.choice(others)
                    me["def"] = P(N(o["pkg"], o["name"]))
            self.types.append(me)

    def exported_only(self, d):
        return True

    def visible(self, i, unexported=False):
        """The types that package i can refer to."""
        out = []
        for t in self.types:
            if t["def"] is None:
                continue
            j = [p[0] for p in self.pkgs].index(t["pkg"])
            if j < i:
                continue
            if j > i and not t["name"][0].isupper():
                continue
            out.append(t)
        return out

    def doc(self, name):
        r = self.r
        return r.choice(["", "", "", f"{name} is documented.", f"The doc of {name},\nin two lines.", "a doc with \"quotes\" and: colons"])

    def gen_key(self, i):
        r = self.r
        ks = [t for t in self.visible(i) if t["def"]["k"] == "basic"]
        if ks and r.random() < .3:
            t = r.choice(ks)
            return N(t["pkg"], t["name"])
        return B(r.choice(["string", "string", "int"]))

    def gen_map(self, i, depth):
        v = self.gen_texpr(i, depth, elem=True)
        # what is documented of the key of a map that can't be serialized is not decided
        return M(B("string") if self.invalid(v) else self.gen_key(i), v)

    def invalid(self, t, seen=()):
        if t["k"] in ("chan", "func"):
            return True
        if t["k"] == "named":
            if t["pkg"] in ("time", "github.com/gin-gonic/gin") or (t["pkg"], t["n"]) in seen:
                return False
            d = [x["def"] for x in self.types if (x["pkg"], x["name"]) == (t["pkg"], t["n"])]
            return bool(d) and self.invalid(d[0], seen + ((t["pkg"], t["n"]),))
        return t["k"] != "struct" and any(self.invalid(x, seen) for x in t["a"])

    def gen_texpr(self, i, depth=0, elem=False, nocontainer=False):
        """A type expression as package i can write it.  Containers of containers keep one level only, so they are rare."""
        r = self.r
        x = r.random()
        vis = self.visible(i)
        if x < .45 and vis:
            t = r.choice(vis)
            e = N(t["pkg"], t["name"])
            return P(e) if r.random() < .25 else e
        if x < .7 or elem and x < .92:
            return B(r.choice(BASIC)) if r.random() < .9 else r.choice([ERROR, IF()])
        if x < .73 and self.use_time:
            return N("time", r.choice(["Time", "Duration", "Month"]))
        if x < .76:
            return ERROR if r.random() < .5 else IF()
        if nocontainer:
            return B("string")
        if x < .86:
            return S(self.gen_texpr(i, depth + 1, elem=True))
        if x < .93:
            return self.gen_map(i, depth + 1)
        if x < .97:
            return A(r.choice([0, 1, 2, 7]), self.gen_texpr(i, depth + 1, elem=True)) if not elem else B("int")
        return P(self.gen_texpr(i, depth + 1, elem=elem))

    FIELDS = ["ID", "Name", "Value", "Items", "Next", "Parent", "Kind", "CreatedAt", "Tags", "X", "Y_z", "Meta", "Count", "Err", "Any"]

    def gen_tags(self, name, style):
        r = self.r
        tags = []
        if style == "none":
            return tags
        low = name.lower()
        for b in style:
            x = r.random()
            if x < .6:
                v = low
            elif x < .7:
                v = low + ",omitempty"
            elif x < .76:
                v = "-"
            elif x < .8:
                v = ",omitempty"
            elif x < .84:
                v = ""
            elif x < .9:
                v = b + "_" + low
            else:
                continue
            tags.append([b, v])
        r.shuffle(tags)
        return tags

    def gen_struct(self, i, me):
        r = self.r
        style = r.choice(["none", "none", ["json"], ["json"], ["json"], ["json", "form"], ["form"], ["form", "uri", "header"], BINDINGS, ["json", "xml", "yaml"], ["uri"],
                          ["header"], ["json", "xml"]])
        fs = []
        names = r.sample(self.FIELDS, r.randint(0, 6))
        for n in names:
            x = r.random()
            if x < .06:
                t = r.choice([CH(B("int")), FN(), S(CH(B("string")))])
            elif x < .11:
                t = ST([FD(m, self.gen_texpr(i, 1), self.gen_tags(m, style)) for m in r.sample(self.FIELDS, r.randint(0, 2))])
            elif x < .16 and me is not None:
                t = r.choice([P(N(me["pkg"], me["name"])), S(N(me["pkg"], me["name"])), M(B("string"), P(N(me["pkg"], me["name"])))])
            else:
                t = self.gen_texpr(i)
            if self.recursive(t, me):
                t = P(t)
            vals = r.choice([[], [], [["binding", "required"]], [["validate", "omitempty,required"]], [["binding", "max=3"]]])
            fs.append(FD(n, t, self.gen_tags(n, style), vals=vals))
        if r.random() < .15:
            t = self.gen_texpr(i)
            fs.append(FD("hidden", P(t) if self.recursive(t, me) else t, [["json", "hidden"]] if r.random() < .3 else []))
        # embedded types
        if r.random() < .4:
            for _ in range(r.choice([1, 1, 2])):
                vis = [t for t in self.visible(i) if t is not me and t["def"]["k"] in ("struct", "basic", "iface", "slice") and t["name"] not in {f["n"] for f in fs}
                       and not self.contains(t, me)]
                if vis:
                    t = r.choice(vis)
                    isst = t["def"]["k"] == "struct"
                    e = N(t["pkg"], t["name"])
                    x = r.random()
                    tags = [] if x < .7 else [[r.choice(BINDINGS[1:]), r.choice(["-", "emb", "wrapped,omitempty"])]]
                    ptr = isst and r.random() < .3 and t["name"][0].isupper()
                    fs.append(dict(FD(t["name"], P(e) if ptr else e, tags, emb=True), exp=t["name"][0].isupper()))
        r.shuffle(fs)
        return ST(fs)

    def contains(self, t, me):
        """The values of type t contain values of type me (or may do so once me is defined)."""
        if me is None:
            return False
        seen = set()

        def go(e):
            if e["k"] == "named":
                key = (e["pkg"], e["n"])
                if key == (me["pkg"], me["name"]):
                    return True
                if key in seen:
                    return False
                seen.add(key)
                for x in self.types:
                    if (x["pkg"], x["name"]) == key:
                        return go(x["def"])
                return False
            if e["k"] == "array":
                return go(e["a"][0])
            if e["k"] == "struct":
                return any(go(f["t"]) for f in e["f"])
            return False
        return go(N(t["pkg"], t["name"]))

    def recursive(self, t, me):
        if me is None:
            return False
        if t["k"] == "named":
            return self.contains(dict(pkg=t["pkg"], name=t["n"]), me)
        if t["k"] == "array":
            return self.recursive(t["a"][0], me)
        if t["k"] == "struct":
            return any(self.recursive(f["t"], me) for f in t["f"])
        return False

    def gen_consts(self, pkg, name, b):
        r = self.r
        if r.random() < .25:
            return
        k = r.randint(1, 4)
        base = len(self.consts)
        start = r.choice([0, 0, 1, 10])
        for j in range(k):
            self.n += 1
            cn = f"{'C' if name[0].isupper() else 'c'}{name}{self.n}"
            if b == "string":
                v = "s:" + r.choice(["", "x", "red", "a b", "ü", "it's", 'q"q', "back\\slash"]) + (str(j) if r.random() < .7 else "")
            elif b == "bool":
                v = "b:" + r.choice(["true", "false"])
            elif b in ("float32", "float64"):
                v = r.choice(["f:1.5", "i:2", "f:0.25", "i:0", "f:-3.5"])
            else:
                x = start + j
                if not b.startswith("u") and r.random() < .1:
                    x = -x
                v = f"i:{x}"
            self.consts.append(dict(pkg=pkg, type=name, name=cn, val=v))

    # functions
    def gen_funcs(self):
        r = self.r
        # helpers, that may call each other (the package of the callee has to be visible)
        for _ in range(r.randint(2, 7)):
            i = r.randrange(len(self.pkgs))
            named = r.random() < .93
            self.funcs.append(dict(pkg=i, ctx=r.choice(["c", "c", "ctx", "gc"]) if named else "", named=named, doc=r.choice(["", "A helper."]), name=f"help{len(self.funcs) + 1}", body=[], helper=True))
        for f in self.funcs:
            f["name"] = f["name"][0].upper() + f["name"][1:]

    def handler(self, i):
        r = self.r
        n = len(self.funcs) + 1
        kind = r.choice(["decl"] * 6 + ["method", "lit", "lit", "litvar", "factory"])
        name = r.choice([f"Get{n}", f"getUser{n}", f"HTTPGet{n}", f"get_user_{n}", f"Create_Thing{n}x", f"H{n}", f"DoIT{n}"])
        if i > 0:
            name = name[0].upper() + name[1:]
        doc = r.choice(["", "", f"{name} does something.", f"{name} has\na long doc.\n\nWith paragraphs.", "Says \"hello\": {x}."])
        named = r.random() < .97 or kind != "decl"
        f = dict(pkg=i, ctx=r.choice(["c", "c", "ctx", "gc"]) if named else "", named=named, doc=doc, name=name, body=[], kind=kind, helper=False)
        self.funcs.append(f)
        return f

    def gen_routes(self, n):
        r = self.r
        for k in range(n):
            if self.routes and r.random() < .1:
                fi = r.choice(self.routes)["fn"]
            else:
                f = self.handler(r.randrange(len(self.pkgs)))
                fi = len(self.funcs)
            segs = []
            for j in range(r.randint(1, 3)):
                segs.append(r.choice(["users", ":id", "items", ":name", "v1", ":user_id", "a.b", "files:bulk"]))
            used = set()
            segs = [s for s in segs if not (s in used or used.add(s))]
            path = "/" + "/".join([f"r{k}"] + segs) + r.choice(["", "", "", "/", "/*path"])
            if path.count("*") and ":path" in path:
                path = path.replace("*path", "*rest")
            self.routes.append(dict(fn=fi, method=r.choice(["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT"]), path=path))
        # the bodies of all functions
        for fi, f in enumerate(self.funcs):
            if f["named"]:
                f["body"] = self.gen_body(f, r.choice([0, 1, 2, 3, 4, 5]) if f["helper"] else r.choice([1, 2, 3, 4, 6, 8]), 0)
            else:
                f["body"] = []

    def gen_body(self, f, n, depth):
        return [self.gen_item(f, depth) for _ in range(n)]

    def gen_item(self, f, depth):
        r = self.r
        i = f["pkg"]
        x = r.random()
        if x < .3:
            return item("call", r.choice(RESP), code=self.gen_code(), val=[self.gen_value(i)])
        if x < .36:
            return item("call", r.choice(STATUS + ["AbortWithError"]), code=self.gen_code())
        if x < .4:
            return item("call", "String", code=self.gen_code())
        if x < .42:
            ok = r.random() < .93
            return item("call", "Data", code=self.gen_code(), val=[S(B("byte"))], name=r.choice(["image/png", "text/csv", "application/json", "application/octet-stream"]) if ok else "", nameok=ok)
        if x < .58:
            ok = r.random() < .93
            return item("call", r.choice(NAMED), name=r.choice(BASICNAMES) if ok else "", nameok=ok)
        if x < .62:
            ok = r.random() < .95
            return item("call", "Header", name=r.choice(BASICNAMES[:6]) if ok else "", nameok=ok)
        if x < .74:
            return item("call", r.choice(BINDS), val=[self.gen_value(i, bind=True)])
        if x < .78:
            return item("call", r.choice(PLAIN))
        if x < .9:
            hs = [j + 1 for j, h in enumerate(self.funcs) if h["helper"] and h["pkg"] >= i]
            if hs and r.random() < .93:
                fn = r.choice(hs)
                return item("helper", fn=fn)
            return item("helper", fn=0)
        if depth < 3:
            return item("block", inner=self.gen_body(f, r.randint(1, 3), depth + 1))
        return item("other")

    def gen_code(self):
        return self.r.choice(CODES) if self.r.random() < .94 else -1

    def gen_value(self, i, bind=False):
        r = self.r
        vis = self.visible(i)
        x = r.random()
        if bind:
            st = [t for t in vis if t["def"]["k"] == "struct"]
            if st and x < .85:
                t = r.choice(st)
                return N(t["pkg"], t["name"])
            return self.gen_texpr(i)
        if vis and x < .5:
            t = r.choice(vis)
            return N(t["pkg"], t["name"])
        if x < .6:
            return N("github.com/gin-gonic/gin", "H")
        if x < .63:
            return r.choice([CH(B("int")), FN()])
        if x < .66:
            return ST([FD(m, self.gen_texpr(i, 1), self.gen_tags(m, ["json"])) for m in r.sample(self.FIELDS, r.randint(0, 3))])
        return self.gen_texpr(i)

    def gen_customs(self):
        r = self.r
        if self.focus == "custom":
            n = r.choice([1, 2, 3])
        else:
            n = 0
        out = []
        for _ in range(n):
            mode = r.choice(["none", "param", "param", "ret", "drop"])
            label = r.choice(["JSON", "Query", "Status", "ShouldBindJSON", "GetHeader", "Help1", "Help2", "Help3", "String", "len", "new", "Header", "PostForm", "Abort", "use"])
            if mode == "ret":
                label = r.choice(["JSON", "XML", "AbortWithStatusJSON"])
            out.append(dict(mode=mode, label=label))
        return out


# external types that programs can refer to, as the specification knows them
EXTERNAL_TYPES = [
    dict(pkg="time", name="Time", doc="", **{"def": ST([FD("wall", B("uint64")), FD("ext", B("int64"))])}),
    dict(pkg="time", name="Duration", doc="", **{"def": B("int64")}),
    dict(pkg="time", name="Month", doc="", **{"def": B("int")}),
    dict(pkg="time", name="Weekday", doc="", **{"def": B("int")}),
    dict(pkg="github.com/gin-gonic/gin", name="H", doc="", **{"def": M(B("string"), IF())}),
]
EXTERNAL_CONSTS = ([dict(pkg="time", type="Month", name=f"M{i}", val=f"i:{i}") for i in range(1, 13)]
                   + [dict(pkg="time", type="Weekday", name=f"W{i}", val=f"i:{i}") for i in range(7)])


# ---- rendering -----------------------------------------------------------------

class File:
    def __init__(self, rend, pkg, name):
        self.rend, self.pkg, self.name = rend, pkg, name
        self.imports = {}       # path -> (alias or "", identifier)
        self.idents = set()
        self.decls = []         # text, or (text, function to call with the line of the text)
        self.ginalias = rend.r.choice(["", "", "", "g", "ginlib"])

    def ident(self, path):
        if path in self.imports:
            return self.imports[path][1]
        r = self.rend.r
        base = {p: n for p, n, _ in self.rend.g.pkgs}.get(path, path.split("/")[-1])
        alias = ""
        ident = base
        if path == "github.com/gin-gonic/gin" and self.ginalias:
            alias = ident = self.ginalias
        if ident in self.idents or ident in ("c", "ctx", "gc", "g") and not alias:
            alias = ident = base + "pkg"
        while ident in self.idents:
            alias = ident = ident + "x"
        if not alias and (r.random() < .15 or base != path.split("/")[-1] and r.random() < .4):
            alias = base if r.random() < .5 else base + "al"
            if alias not in self.idents:
                ident = alias
            else:
                alias = ""
        self.imports[path] = (alias, ident)
        self.idents.add(ident)
        return ident

    def ref(self, path, name):
        if path == self.pkg[0]:
            return name
        return self.ident(path) + "." + name

    def add(self, text, mark=None):
        self.decls.append((text, mark))

    def text(self):
        head = f"package {self.pkg[1]}\n\n"
        if self.imports:
            imps = sorted(self.imports.items())
            head += "import (\n" + "".join(f'\t{a + " " if a else ""}"{p}"\n' for p, (a, _) in imps) + ")\n\n"
        line = head.count("\n") + 1
        out = head
        for t, mark in self.decls:
            if mark:
                mark(line)
            out += t + "\n\n"
            line += t.count("\n") + 2
        return out


def comment(doc, indent="", block=False):
    if not doc:
        return ""
    if block:
        return indent + "/*\n" + "\n".join(doc.split("\n")) + "\n*/\n"
    return "".join(indent + ("// " + l if l else "//") + "\n" for l in doc.split("\n"))


def goquote(s):
    return json.dumps(s, ensure_ascii=False)


class Renderer:
    def __init__(self, g, rng, plain=False):
        self.g, self.r = g, rng
        self.uid = 0
        self.files = []
        self.consts = []
        self.bypkg = []
        self.typed = {(t["pkg"], t["name"]): t for t in g.types}
        self.pidx = {p[0]: i for i, p in enumerate(g.pkgs)}
        self.chelpers = {}      # constants, variables and functions that were declared: key -> [package, name]
        for i, p in enumerate(g.pkgs):
            names = ["a.go", "m.go", "z_more.go"][:rng.choice([1, 2, 2, 3])]
            if i == 0:
                names = ["main.go"] + rng.sample(["app.go", "types.go"], rng.choice([0, 1, 2]))
            fs = [File(self, p, n) for n in sorted(names)]
            self.bypkg.append(fs)
            self.files += fs
        self.marks = {}
        self.sigs = {}
        for i in range(len(g.pkgs)):
            f = self.bypkg[i][0]
            f.add("func use(args ...any) {}\n\nfunc route(h " + f.ident("github.com/gin-gonic/gin") + ".HandlerFunc) {}\n\nvar flag bool")
        for i, p in enumerate(g.pkgs):
            if i > 0:
                self.bypkg[i][0].add("// Linked is used by the main package.\nvar Linked int")
        for i in range(1, len(g.pkgs)):
            f = self.bypkg[0][0]
            f.add(f"var linked{i} = {f.ref(g.pkgs[i][0], 'Linked')}")
        self.render_types()
        self.render_consts()
        self.helper_sigs()
        self.abstract_funcs = [None] * len(g.funcs)
        self.routes = [None] * len(g.routes)
        order = list(range(len(g.funcs)))
        rng.shuffle(order)
        for fi in order:
            self.render_func(fi)
        self.bypkg[0][0].add("func main() {}")

    def fresh(self, p):
        self.uid += 1
        return f"{p}{self.uid}"

    def file(self, i):
        return self.r.choice(self.bypkg[i])

    # types
    def typ(self, f, t):
        k = t["k"]
        if k == "basic":
            return t["n"]
        if k == "error":
            return "error"
        if k == "named":
            return f.ref(t["pkg"], t["n"])
        if k == "ptr":
            return "*" + self.typ(f, t["a"][0])
        if k == "slice":
            return "[]" + self.typ(f, t["a"][0])
        if k == "array":
            return f"[{t['len']}]" + self.typ(f, t["a"][0])
        if k == "map":
            return "map[" + self.typ(f, t["a"][0]) + "]" + self.typ(f, t["a"][1])
        if k == "chan":
            return "chan " + self.typ(f, t["a"][0])
        if k == "func":
            return "func() int"
        if k == "iface":
            return self.r.choice(["any", "interface{}"])
        if k == "struct":
            if not t["f"]:
                return "struct{}"
            return "struct {\n" + "".join(self.field(f, x) for x in t["f"]) + "}"
        raise ValueError(k)

    def field(self, f, x):
        tags = " ".join(f'{b}:{goquote(v)}' for b, v in x["tags"] + x["vals"])
        ty = self.typ(f, x["t"])
        return "\t" + (ty if x["emb"] else x["n"] + " " + ty) + (f" `{tags}`" if tags else "") + "\n"

    def render_types(self):
        r = self.r
        by = {}
        for t in self.g.types:
            f = self.file(self.pidx[t["pkg"]])
            by.setdefault(id(f), (f, []))[1].append(t)
        for f, ts in by.values():
            group = []
            for t in ts:
                d = self.typ(f, N(*t["as"])) if t.get("as") else self.typ(f, t["def"])
                x = r.random()
                if x < .25:
                    group.append((t, d))
                elif x < .35 and t["doc"]:
                    # the doc of the group is the doc of its types
                    f.add(comment(t["doc"], block=r.random() < .2) + f"type (\n\t{t['name']} {d}\n)")
                else:
                    f.add(comment(t["doc"], block=r.random() < .1) + f"type {t['name']} {d}")
            if group:
                f.add("type (\n" + "\n".join(comment(t["doc"], "\t") + f"\t{t['name']} {d}" for t, d in group) + "\n)")

    # constants
    def lit(self, v, b):
        k, x = v[0], v[2:]
        if k == "s":
            return goquote(x)
        return x

    def render_consts(self):
        r = self.r
        groups = {}
        for c in self.g.consts:
            groups.setdefault((c["pkg"], c["type"]), []).append(c)
        placed = []
        for (pkg, ty), cs in groups.items():
            # the constants of a type can be in several declarations, in several files
            while cs:
                n = r.randint(1, len(cs))
                placed.append((pkg, ty, cs[:n]))
                cs = cs[n:]
        for pkg, ty, cs in placed:
            f = self.file(self.pidx[pkg])
            b = self.typed[(pkg, ty)]["def"]["n"]
            ints = b in INT
            lines = []
            form = r.random()
            vals = [c["val"] for c in cs]
            seq = ints and all(v[0] == "i" for v in vals) and all(int(vals[j + 1][2:]) == int(vals[j][2:]) + 1 for j in range(len(vals) - 1)) and int(vals[0][2:]) >= 0
            if seq and form < .5:
                off = int(vals[0][2:])
                skip = r.random() < .3 and off > 0
                if skip:
                    lines.append(f"\t_ {ty} = iota + {off - 1}")
                    lines += [f"\t{c['name']}" for c in cs]
                else:
                    lines.append(f"\t{cs[0]['name']} {ty} = iota" + (f" + {off}" if off else ""))
                    lines += [f"\t{c['name']}" for c in cs[1:]]
            elif len(cs) > 1 and form < .65:
                lines.append("\t" + ", ".join(c["name"] for c in cs) + f" {ty} = " + ", ".join(self.lit(c["val"], b) for c in cs))
            else:
                for j, c in enumerate(cs):
                    x = r.random()
                    if j and c["val"] == cs[j - 1]["val"] and not lines[-1].startswith("\tunt"):
                        lines.append(f"\t{c['name']}")
                    elif x < .3:
                        lines.append(f"\t{c['name']} = {ty}({self.lit(c['val'], b)})")
                    elif x < .45 and ints:
                        lines.append(f"\t{c['name']} {ty} = {self.lit(c['val'], b)} + 1 - 1")
                    elif x < .55 and b == "string":
                        lines.append(f"\t{c['name']} {ty} = \"\" + {self.lit(c['val'], b)}")
                    elif x < .65:
                        lines.append(f"\t{c['name']} {ty} = ({self.lit(c['val'], b)})")
                    else:
                        lines.append(f"\t{c['name']} {ty} = {self.lit(c['val'], b)}")
                    if r.random() < .15:
                        lines.append(f"\t{self.fresh('unt')} = \"untyped\"")
                    if r.random() < .1:
                        lines.append(f"\t_ {ty} = {self.lit(c['val'], b)}")
            if len(lines) == 1 and r.random() < .5:
                f.add("const " + lines[0].strip())
            else:
                f.add("const (\n" + "\n".join(lines) + "\n)")
            f.constlists = getattr(f, "constlists", []) + [cs]
        for fs in self.bypkg:
            for f in fs:
                for cs in getattr(f, "constlists", []):
                    self.consts += cs

    # where a declaration with the types ts can be, for package i to use it
    def places(self, i, ts):
        out = []
        for j in range(i, len(self.g.pkgs)):
            ok = True
            for pkg, n in ts:
                k = self.pidx.get(pkg)
                if k is None:
                    continue
                if k < j or (k > j and not n[0].isupper()):
                    ok = False
            if ok:
                out.append(j)
        return out

    def named_in(self, t):
        out = [(t["pkg"], t["n"])] if t["k"] == "named" else []
        for x in t["a"]:
            out += self.named_in(x)
        for x in t["f"]:
            out += self.named_in(x["t"])
            if not x["exp"]:
                out.append((None, "unexported"))
        return out

    def place(self, i, t):
        ns = self.named_in(t) if t else []
        if (None, "unexported") in ns:
            return i
        js = self.places(i, ns)
        return self.r.choice(js + [i, i]) if js else i

    # functions
    def helper_sigs(self):
        r = self.r
        for fi, f in enumerate(self.g.funcs):
            if not f["helper"]:
                continue
            self.sigs[fi] = dict(kind=r.choice(["c", "c", "c", "cn", "sc", "ec", "rest", "method", "pmethod", "ret", "two"]), recv="Svc" + f["name"])

    def param(self, file, f, extra_ok=True):
        g = file.ident("github.com/gin-gonic/gin")
        ty = f"*{g}.Context"
        return (f"{f['ctx']} {ty}" if f["named"] else ty), ty

    def render_func(self, fi):
        r = self.r
        f = self.g.funcs[fi]
        i = f["pkg"]
        file = self.file(i)
        p, cty = self.param(file, f)
        fr = Fn(self, file, f, fi)
        lines, items = fr.body(f["body"])
        self.abstract_funcs[fi] = dict(pkg=self.g.pkgs[i][0], ctx=f["ctx"], doc=f["doc"] if f.get("kind") in ("decl", "method") else "",
                                       name=f["name"] if f.get("kind") in ("decl", "method") else "", body=items)
        body = "".join("\t" + l + "\n" for l in "\n".join(lines).split("\n")) if lines else ""
        if f["helper"]:
            s = self.sigs[fi]
            k = s["kind"]
            recv = ""
            ret, last = "", ""
            n = (lambda x: x if f["named"] else "")
            sep = " " if f["named"] else ""
            if k == "c" or k in ("method", "pmethod"):
                args = p
            elif k == "cn":
                args = f"{p}, {n('num')}{sep}int"
            elif k == "sc":
                args = f"{n('txt')}{sep}string, {p}"
            elif k == "ec":
                args = f"{n('errp')}{sep}*error, {p}"
            elif k == "rest":
                args = f"{p}, {n('rest')}{sep}...any"
            elif k == "two":
                args = f"{f['ctx']}, other {cty}" if f["named"] else f"{cty}, {cty}"
            elif k == "ret":
                args, ret = p, " string"
                last = '\treturn ""\n'
            if k in ("method", "pmethod"):
                recv = f"({r.choice(['s ', '_ ', ''])}{'*' if k == 'pmethod' else ''}{s['recv']}) "
                file.add(f"type {s['recv']} struct{{}}")
                if r.random() < .3:
                    # another type with a method of the same name
                    other = self.fresh("Decoy")
                    file.add(f"type {other} struct{{}}\n\nfunc ({other}) {f['name']}({p}) {{{self.decoy(f)}}}")
            file.add(comment(f["doc"]) + f"func {recv}{f['name']}({args}){ret} {{\n{body}{last}}}")
            return
        kind = f["kind"]
        pkgpath = self.g.pkgs[i][0]
        esc = pkgpath
        if "/" in esc:
            head, tail = esc.rsplit("/", 1)
            esc = head + "/" + tail.replace(".", "%2e")
        rel = (self.g.pkgs[i][2] + "/" if self.g.pkgs[i][2] else "") + file.name

        def mark(handler, offset=0, fixed=None):
            def m(line):
                self.marks[fi] = dict(handler=handler, file=rel if not fixed else fixed, line=line + offset if not fixed else 1)
            return m
        if r.random() < .15 and kind != "method":
            other = self.fresh("decoy")
            file.add(f"type {other} struct{{}}\n\nfunc ({other}) {f['name']}({p}) {{{self.decoy(f)}}}")
        doc = comment(f["doc"])
        dl = doc.count("\n")
        if kind == "decl":
            file.add(doc + f"func {f['name']}({p}) {{\n{body}}}", mark(f"{esc}.{f['name']}", dl))
        elif kind == "method":
            ptr = r.random() < .6
            recv = self.fresh("Ctl")
            file.add(f"type {recv} struct{{}}")
            file.add(doc + f"func (s {'*' if ptr else ''}{recv}) {f['name']}({p}) {{\n\t_ = s\n{body}}}",
                     mark(f"{esc}.(*{recv}).{f['name']}-fm" if ptr else f"{esc}.{recv}.{f['name']}-fm", 0, "<autogenerated>"))
        elif kind == "lit":
            fn = self.fresh("Setup")
            pre = "\troute(func(x " + cty + ") {\n\t\tx.Status(299)\n\t})\n" if r.random() < .4 else ""
            num = 2 if pre else 1
            file.add(comment("Not the doc of a handler.") + f"func {fn}() {{\n{pre}\troute(func({p}) {{\n" + body + "\t})\n}",
                     mark(f"{esc}.{fn}.func{num}", 2 + pre.count("\n")))
        elif kind == "litvar":
            file.add(comment("Not the doc of a handler.") + f"var {self.fresh('Hv')} = func({p}) {{\n{body}}}", mark(f"{esc}.{r.choice(['init', 'glob.'])}.func1", 1))
        else:
            fn = self.fresh("Make")
            g = file.ident("github.com/gin-gonic/gin")
            h = f"{esc}.{fn}.func1" if r.random() < .6 else f"main.main.{fn}.func{r.randint(1, 9)}"
            file.add(comment("Not the doc of a handler.") + f"func {fn}(name string) {g}.HandlerFunc {{\n\treturn func({p}) {{\n{body}\t}}\n}}", mark(h, 2))

    def decoy(self, f):
        return f" {f['ctx']}.Status(298) " if f["named"] else ""

    # the case of the driver, and the program of the specification
    def case(self, cid, mapping=(), config=None):
        files = {}
        for i, p in enumerate(self.g.pkgs):
            for f in self.bypkg[i]:
                files[(p[2] + "/" if p[2] else "") + f.name] = f.text()
        routes, spec = [], []
        for rt in self.g.routes:
            m = self.marks[rt["fn"] - 1]
            routes.append(dict(handler=m["handler"], file=m["file"], line=m["line"], method=rt["method"], path=rt["path"]))
            spec.append(dict(fn=rt["fn"], method=rt["method"], path=rt["path"]))
        types = [dict(pkg=t["pkg"], name=t["name"], doc=t["doc"], **{"def": in_order(t["def"])}) for t in self.g.types] + EXTERNAL_TYPES
        prog = dict(types=types, consts=self.consts + EXTERNAL_CONSTS, funcs=[dict(f, body=items_in_order(f["body"])) for f in self.abstract_funcs], routes=spec, customs=self.g.customs, mapping=list(mapping))
        return dict(id=cid, mod=MOD, files=files, routes=routes, customs=self.g.customs, mapping=list(mapping), prog=prog)


def in_order(t):
    """The type with the fields of its structs in the order of their names."""
    return dict(t, a=[in_order(x) for x in t["a"]], f=[dict(f, t=in_order(f["t"])) for f in sorted(t["f"], key=lambda f: f["n"].encode())])


def items_in_order(items):
    return [dict(i, val=[in_order(v) for v in i["val"]], inner=items_in_order(i["inner"])) for i in items]


class Fn:
    """Renders the body of a function."""

    def __init__(self, rend, file, f, fi):
        self.x, self.file, self.f, self.fi = rend, file, f, fi
        self.r = rend.r
        self.i = f["pkg"]
        self.ctx = f["ctx"]

    def other(self, label, inner=()):
        return item("other", label, inner=inner)

    def body(self, items):
        lines, out = [], []
        for it in items:
            l, o = self.stmt(it)
            lines += l
            out += o
        return lines, out

    def indent(self, lines):
        return ["\t" + l for x in lines for l in x.split("\n")]

    # values -------------------------------------------------------------------
    def value(self, t, bind=False, exact=False):
        """An expression of type t: (statements, items, expression, inner items)"""
        r, x, file = self.r, self.x, self.file
        ty = lambda: x.typ(file, t)
        k = t["k"]
        under = x.typed.get((t["pkg"], t["n"]), {}).get("def", t) if k == "named" else t
        if k == "named" and t["pkg"] == "github.com/gin-gonic/gin":
            under = M(B("string"), IF())
        if k == "named" and t["pkg"] == "time":
            under = ST([FD("wall", B("uint64"))]) if t["n"] == "Time" else B("int")
        forms = ["var", "var", "mk", "mk2", "pkgvar", "field", "index", "mapindex", "assert", "deref", "recv", "method", "lit", "funclit", "range"]
        if not exact:
            forms += ["addr", "new"]
        if under["k"] in ("slice", "map") and k in ("named", "slice", "map"):
            forms += ["make", "comp", "comp"]
        if under["k"] in ("struct", "array") and k in ("named", "array"):
            forms += ["comp", "comp", "compaddr"]
        if k == "named" and under["k"] == "basic":
            forms += ["conv", "conv"]
            cs = [c for c in x.g.consts if (c["pkg"], c["type"]) == (t["pkg"], t["n"]) and (c["pkg"] == x.g.pkgs[self.i][0] or c["name"][0].isupper())]
            if cs:
                forms += ["const", "const"]
        if k == "basic":
            forms += ["literal"] * 4
        form = r.choice(forms)
        if bind:
            form = r.choice(["addr", "addr", "addr", "addr", "new", "newvar", "mkptr", "fieldaddr"])
        v = x.fresh("v")
        if form in ("addr", "newvar"):
            if form == "newvar":
                return [f"{v} := new({ty()})"], [self.other("new")], v, []
            if under["k"] == "struct" and k == "named" and r.random() < .3:
                return [f"{v} := {ty()}{{}}"], [], "&" + v, []
            return [f"var {v} {ty()}"], [], "&" + v, []
        if form == "mkptr":
            return [], [], *self.call_mk(P(t))
        if form == "fieldaddr":
            return [f"var {v} struct {{\n\tF {ty()}\n}}"], [], f"&{v}.F", []
        if form == "new":
            return [], [], f"new({ty()})", [self.other("new")]
        if form == "var":
            return [f"var {v} {ty()}"], [], r.choice([v, v, v, f"({v})"]), []
        if form == "literal":
            n = t["n"]
            if n == "string":
                return [], [], r.choice(['"x"', "`raw`", '"a" + "b"']), []
            if n == "int":
                e, inner = r.choice([("5", []), ("1 + 2", []), ('len("abc")', [self.other("len")]), ("-3", []), ("0x1F", [])])
                return [], [], e, inner
            if n == "bool":
                return [], [], r.choice(["true", "1 < 2", "!flag", "flag && true"]), []
            if n == "float64":
                return [], [], r.choice(["1.5", "2.0 * 3"]), []
            if n == "rune":
                return [], [], "'r'", []
            return [], [], f"{n}(1)" if n != "string" else '"x"', [self.other(n)]
        if form == "comp":
            return [], [], f"{ty()}{{}}", []
        if form == "compaddr":
            return [], [], f"&{ty()}{{}}", []
        if form == "make":
            return [], [], f"make({ty()}" + (", 0)" if under["k"] == "slice" else ")"), [self.other("make")]
        if form == "conv":
            b = under["n"]
            lit = {"string": '"x"', "bool": "true"}.get(b, "1")
            return [], [], f"{ty()}({lit})", [self.other(t["n"])]
        if form == "const":
            c = r.choice(cs)
            return [], [], file.ref(c["pkg"], c["name"]), []
        if form == "mk":
            return [], [], *self.call_mk(t)
        if form == "mk2":
            e, inner = self.call_mk(t, two=True)
            return [f"{v}, _ := {e}"], inner, v, []
        if form == "pkgvar":
            j = x.place(self.i, t)
            tf = x.file(j)
            n = x.fresh("Var")
            tf.add(f"var {n} {x.typ(tf, t)}")
            return [], [], file.ref(x.g.pkgs[j][0], n), []
        if form == "field":
            if r.random() < .5:
                j = x.place(self.i, t)
                tf = x.file(j)
                n, tn = x.fresh("Holder"), x.fresh("Htype")
                tf.add(f"type {tn} struct {{\n\tField {x.typ(tf, t)}\n\tNext *{tn}\n}}\n\nvar {n} {tn}")
                return [], [], file.ref(x.g.pkgs[j][0], n) + r.choice([".Field", ".Next.Field", ".Next.Next.Field"]), []
            return [f"var {v} struct {{\n\tF {ty()}\n}}"], [], v + ".F", []
        if form == "index":
            return [f"var {v} []{ty()}"], [], v + "[0]", []
        if form == "mapindex":
            return [f"var {v} map[string]{ty()}"], [], v + '["k"]', []
        if form == "assert":
            if k == "iface":
                return [f"var {v} any"], [], v, []
            return [f"var {v} any"], [], f"{v}.({ty()})", []
        if form == "deref":
            return [f"var {v} *{ty()}"], [], "*" + v, []
        if form == "recv":
            return [f"var {v} chan {ty()}"], [], "<-" + v, []
        if form == "funclit":
            return [], [], f"func() (r {ty()}) {{ return }}()", [self.other("?")]
        if form == "method":
            j = x.place(self.i, t)
            tf = x.file(j)
            n, tn = x.fresh("Mval"), x.fresh("Mtype")
            tf.add(f"type {tn} struct{{}}\n\nfunc ({tn}) Fetch() (r {x.typ(tf, t)}) {{ return }}\n\nvar {n} {tn}")
            return [], [], file.ref(x.g.pkgs[j][0], n) + ".Fetch()", [self.other("Fetch")]
        if form == "range":
            return [f"var {v}s []{ty()}", f"var {v} {ty()}", f"for _, {v} = range {v}s {{", "}"], [], v, []
        return [f"var {v} {ty()}"], [], v, []

    def call_mk(self, t, two=False):
        x = self.x
        j = x.place(self.i, t)
        tf = x.file(j)
        n = x.fresh("Mk")
        tf.add(f"func {n}() (r {x.typ(tf, t)}{', err error' if two else ''}) {{ return }}")
        return self.file.ref(x.g.pkgs[j][0], n) + "()", [self.other(n)]

    # constants of codes and names ---------------------------------------------
    def shared(self, kind, text):
        """A constant or variable of this or a visible package."""
        x = self.x
        j = self.r.choice(list(range(self.i, len(x.g.pkgs))) + [self.i])
        tf = x.file(j)
        n = x.fresh("K" if kind == "const" else "W")
        form = self.r.random()
        if form < .2:
            other = x.fresh("U")
            filler = '"zz"' if text[0] in "\"`" else "7"
            tf.add(f"{kind} {other}, {n} = {filler}, {text}" if self.r.random() < .5 else f"{kind} {n}, {other} = {text}, {filler}")
        elif form < .4:
            tf.add(f"{kind} (\n\t{n} = {text}\n)")
        else:
            tf.add(f"{kind} {n} = {text}")
        return self.file.ref(x.g.pkgs[j][0], n)

    def code(self, code):
        r, x = self.r, self.x
        if code < 0:
            form = r.choice(["call", "novalue", "index", "field", "sum", "deref", "lit"])
            v = x.fresh("code")
            if form == "call":
                e, inner = self.call_mk(B("int"))
                return [], [], e, inner
            if form == "sum":
                return [f"var {v} int"], [], f"200 + {v}", []
            if form == "deref":
                return [f"var {v} *int"], [], "*" + v, []
            if form == "lit":
                return [], [], "func() int { return 200 }()", [self.other("?")]
            if form == "novalue":
                return [f"var {v} int"], [], v, []
            if form == "index":
                return [f"var {v} []int"], [], v + "[0]", []
            return [f"var {v} struct {{\n\tCode int\n}}"], [], v + ".Code", []
        form = r.choice(["lit"] * 4 + ["http"] * 4 + ["hex", "under", "const", "const", "var", "local", "localvar", "sum", "sumc", "conv", "lconst", "paren"])
        v = x.fresh("code")
        if form == "http" and code in HTTP and x.g.use_http:
            return [], [], self.file.ref("net/http", "Status" + HTTP[code]), []
        if form == "hex":
            return [], [], hex(code), []
        if form == "under":
            return [], [], f"{str(code)[0]}_{str(code)[1:]}", []
        if form in ("const", "var"):
            return [], [], self.shared(form, str(code)), []
        if form == "local":
            return [f"{v} := {code}"], [], v, []
        if form == "localvar":
            return [f"var {v} = {code}"], [], v, []
        if form == "lconst":
            return [f"const {v} = {code}"], [], v, []
        if form == "sum":
            return [], [], f"{code - 1} + 1", []
        if form == "sumc":
            return [], [], f"{self.shared('const', str(code - 1))} + 1", []
        if form == "conv":
            return [], [], f"int({code})", [self.other("int")]
        if form == "paren":
            return [], [], f"({code})", []
        return [], [], str(code), []

    def name(self, name, ok):
        r, x = self.r, self.x
        v = x.fresh("name")
        if not ok:
            form = r.choice(["call", "novalue", "index", "slice", "field", "mapidx", "bytes", "deref", "lit", "sum", "param"])
            if form == "call":
                e, inner = self.call_mk(B("string"))
                return [], [], e, inner
            if form == "slice":
                return [f'{v} := "abc"'], [], v + "[1:]", []
            if form == "field":
                return [f"var {v} struct {{\n\tName string\n}}"], [], v + ".Name", []
            if form == "mapidx":
                return [f"var {v} map[string]string"], [], v + '["k"]', []
            if form == "bytes":
                return [f"var {v} []byte"], [], f"string({v})", [self.other("string")]
            if form == "deref":
                return [f"var {v} *string"], [], "*" + v, []
            if form == "lit":
                return [], [], f'func() string {{ return "lit" }}()', [self.other("?")]
            if form == "sum":
                return [f"var {v} string"], [], f'"p" + {v}', []
            if form == "param":
                return [f"for _, {v} := range []string{{\"a\"}} {{", f"\t_ = {v}", "}", f"var {v} string"], [], v, []
            if form == "novalue":
                return [f"var {v} string"], [], v, []
            return [f"var {v} []string"], [], v + "[0]", []
        q = goquote(name)
        form = r.choice(["lit"] * 5 + ["raw", "const", "const", "var", "local", "localvar", "concat", "concatc", "lconst", "conv", "multi"])
        if form == "raw":
            return [], [], "`" + name + "`", []
        if form in ("const", "var"):
            return [], [], self.shared(form, q), []
        if form == "local":
            return [f"{v} := {q}"], [], v, []
        if form == "localvar":
            return [f"var {v} = {q}"], [], v, []
        if form == "lconst":
            return [f"const {v} = {q}"], [], v, []
        if form == "multi":
            return [f'{v}, {v}b := {q}, "other"', f"_ = {v}b"], [], v, []
        if form == "concat":
            return [], [], f"{goquote(name[:1])} + {goquote(name[1:])}", []
        if form == "concatc":
            return [], [], f"{self.shared('const', goquote(name[:1]))} + {goquote(name[1:])}", []
        if form == "conv":
            return [], [], f"string({q})", [self.other("string")]
        return [], [], q, []

    # statements ----------------------------------------------------------------
    def stmt(self, it):
        r = self.r
        if it["k"] == "block":
            lines, out = self.body(it["inner"])
            return self.wrap_block(lines, out)
        if it["k"] == "other":
            return self.other_stmt(it)
        if it["k"] == "helper":
            pre, pitems, call, new, kind = self.helper_call(it)
        else:
            pre, pitems, call, new, kind = self.ctx_call(it)
        lines, out = self.use_call(call, new, kind)
        if r.random() < .35:
            # the statements before it have to be in scope
            lines, out = self.wrap_block(lines, out)
        return pre + lines, pitems + out

    def ctx_call(self, it):
        r, m, c = self.r, it["m"], self.ctx
        pre, items, args, inner = [], [], [], []

        def add(x):
            p, i, e, n = x
            pre.extend(p), items.extend(i), args.append(e), inner.extend(n)
        kind = "void"
        if m in RESP:
            add(self.code(it["code"]))
            t = it["val"][0]
            if t["k"] == "basic" and t["n"] == "string" and r.random() < .3:
                q = r.choice(["Query", "PostForm", "GetHeader", "Param", "GetString"])
                nm = r.choice(BASICNAMES)
                p, i, e, n = self.name(nm, True)
                pre.extend(p), items.extend(i)
                args.append(f"{c}.{q}({e})")
                inner.append(item("call", q, name=nm, nameok=True, inner=n))
            else:
                add(self.value(t))
        elif m in STATUS:
            add(self.code(it["code"]))
        elif m == "AbortWithError":
            add(self.code(it["code"]))
            add(self.value(ERROR, exact=True) if r.random() < .5 else ([], [], "nil", []))
            kind = "err1"
        elif m == "String":
            add(self.code(it["code"]))
            args.append(r.choice(['"ok"', '"%d items"']))
            if args[-1].startswith('"%'):
                args.append("3")
        elif m == "Data":
            add(self.code(it["code"]))
            add(self.name(it["name"], it["nameok"]))
            x = r.random()
            if x < .4:
                v = self.x.fresh("v")
                pre.append(f"var {v} []byte")
                args.append(v)
            elif x < .7:
                args.append('[]byte("x")')
                inner.append(self.other("?"))
            else:
                args.append("[]byte{1, 2}")
        elif m in NAMED:
            add(self.name(it["name"], it["nameok"]))
            kind = "two" if m in TWO else ("str" if m in ("Query", "PostForm", "GetHeader") else "val")
        elif m == "Header":
            add(self.name(it["name"], it["nameok"]))
            args.append(r.choice(['"v"', "`v`"]))
        elif m in BINDS:
            add(self.value(it["val"][0], bind=True))
            kind = "err"
        else:
            kind = {"IsAborted": "val", "Get": "two", "GetString": "str", "Param": "str", "ClientIP": "str", "FullPath": "str", "ContentType": "str"}.get(m, "void")
            if m in ("Get", "GetString", "Param"):
                args.append('"k"')
            if m == "Set":
                args += ['"k"', "1"]
        new = dict(it, inner=inner)
        return pre, items, f"{c}.{m}({', '.join(args)})", new, kind

    def helper_call(self, it):
        r, x, c = self.r, self.x, self.ctx
        pre = []
        if it["fn"] == 0:
            form = r.choice(["var", "use", "lit", "iface", "field"])
            g = self.file.ident("github.com/gin-gonic/gin")
            v = x.fresh("hv")
            if form == "var":
                return [f"var {v} func(*{g}.Context)"], [], f"{v}({c})", item("helper", v), "void"
            if form == "use":
                return [], [], f"use(1, {c})", item("helper", "use"), "void"
            if form == "field":
                return [f"var {v} struct {{\n\tDo func(*{g}.Context)\n}}"], [], f"{v}.Do({c})", item("helper", "Do"), "void"
            if form == "iface":
                return [f"var {v} interface {{\n\tRun(*{g}.Context)\n}}"], [], f"{v}.Run({c})", item("helper", "Run"), "void"
            nm = r.choice(BASICNAMES)
            return [], [], f"func({c} *{g}.Context) {{ _ = {c}.Query({goquote(nm)}) }}({c})", item("helper", "?", inner=[item("call", "Query", name=nm, nameok=True)]), "void"
        h = x.g.funcs[it["fn"] - 1]
        s = x.sigs[it["fn"] - 1]
        pkg = x.g.pkgs[h["pkg"]][0]
        k = s["kind"]
        inner = []
        args = {"c": [c], "cn": [c, "1"], "sc": ['"s"', c], "ec": ["nil", c], "rest": [c] + ["1"] * r.randint(0, 2), "two": [c, c] if r.random() < .5 else [c, "nil"], "ret": [c],
                "method": [c], "pmethod": [c]}[k]
        if k == "cn" and r.random() < .4:
            args[1] = 'len("x")'
            inner = [self.other("len")]
        name = h["name"]
        if k in ("method", "pmethod"):
            v = x.fresh("s")
            ty = self.file.ref(pkg, s["recv"])
            form = r.choice(["var", "lit", "field"])
            if form == "lit":
                fun = (f"(&{ty}{{}})" if k == "pmethod" else f"({ty}{{}})") + "." + name
            elif form == "field":
                pre = [f"var {v} struct {{\n\t{s['recv'] if False else 'S'} {ty}\n}}"]
                fun = f"{v}.S.{name}"
            else:
                pre = [f"var {v} {r.choice(['', '*'])}{ty}"]
                fun = f"{v}.{name}"
        else:
            fun = self.file.ref(pkg, name)
        return pre, [], f"{fun}({', '.join(args)})", item("helper", name, fn=it["fn"], inner=inner), ("str" if k == "ret" else "void")

    def use_call(self, call, it, kind):
        r, x = self.r, self.x
        v = x.fresh("r")
        if kind == "void":
            form = r.choice(["plain"] * 6 + ["defer", "go"])
            return [{"plain": "", "defer": "defer ", "go": "go "}[form] + call], [it]
        if kind == "err1":
            return [r.choice(["", "_ = "]) + call], [it]
        if kind == "err":
            form = r.choice(["if", "if", "blank", "plain", "var", "use", "cond"])
            if form == "if":
                return [f"if err := {call}; err != nil {{", "\treturn" + (' ""' if self.ret() else ""), "}"], [it]
            if form == "cond":
                return [f"if {call} != nil {{", "}"], [it]
            if form == "plain":
                return [call], [it]
            if form == "use":
                return [f"use({call})"], [self.other("use", [it])]
            if form == "var":
                return [f"{v} := {call}", f"_ = {v}"], [it]
            return ["_ = " + call], [it]
        if kind == "two":
            form = r.choice(["blank", "if", "var"])
            if form == "if":
                return [f"if {v}, ok := {call}; ok {{" if not call.startswith(self.ctx + ".FormFile") else f"if {v}, ferr := {call}; ferr == nil {{", f"\tuse({v})", "}"], [it, self.other("use")]
            if form == "var":
                return [f"{v}, _ := {call}", f"_ = {v}"], [it]
            return ["_, _ = " + call], [it]
        if kind == "str":
            form = r.choice(["blank", "if", "use", "var", "switch", "index", "concat"])
            if form == "if":
                return [f'if {call} == "x" {{', "}"], [it]
            if form == "switch":
                return [f"switch {call} {{", 'case "a":', "default:", "}"], [it]
            if form == "index":
                return [f"var {v} map[string]int", f"{v}[{call}]++"], [it]
            if form == "concat":
                return [f'{v} := "p" + {call}', f"_ = {v}"], [it]
        else:
            form = r.choice(["blank", "use", "var", "len"])
            if form == "len" and "IsAborted" not in call:
                return [f"if len({call}) > 0 {{", "}"], [self.other("len", [it])]
        if form == "use":
            return [f"use({call})"], [self.other("use", [it])]
        if form == "var":
            return [f"{v} := {call}", f"_ = {v}"], [it]
        return ["_ = " + call], [it]

    def ret(self):
        return self.f["helper"] and self.x.sigs[self.fi]["kind"] == "ret"

    def other_stmt(self, it):
        r, x = self.r, self.x
        form = r.choice(["use", "mk", "outside", "conv", "lit", "uselit"])
        if form == "mk":
            e, inner = self.call_mk(B("int"))
            return ["_ = " + e], inner
        if form == "conv":
            return ["_ = float64(2)"], [self.other("float64")]
        if form == "outside":
            # a function that has a context of its own
            g = self.file.ident("github.com/gin-gonic/gin")
            n = x.fresh("Outside")
            self.file.add(f"func {n}() {{\n\tvar c *{g}.Context\n\tc.JSON(297, 1)\n\t_ = c.Query(\"outside\")\n}}")
            return [f"{n}()"], [self.other(n)]
        if form == "lit":
            return ["func() { use(1) }()"], [self.other("?", [self.other("use")])]
        if form == "uselit":
            return ["use(func() {})"], [self.other("use")]
        return ["use(1)"], [self.other("use")]

    def wrap_block(self, lines, out):
        r, x = self.r, self.x
        ind = self.indent(lines)
        form = r.choice(["if", "else", "for", "switch", "block", "select", "label", "func", "deferfunc", "gofunc", "closure", "range", "typeswitch", "elseif", "fallthrough", "goto"])
        if form in ("func", "deferfunc", "gofunc", "closure") and self.ret_inside(lines):
            form = "if"
        if form == "if":
            return ["if flag {"] + ind + ["}"], out
        if form == "else":
            return ["if flag {", "} else {"] + ind + ["}"], out
        if form == "elseif":
            return ["if flag {", "} else if !flag {"] + ind + ["}"], out
        if form == "for":
            v = x.fresh("i")
            return [f"for {v} := 0; {v} < 2; {v}++ {{"] + ind + ["}"], out
        if form == "switch":
            return ["switch {", "case flag:", "default:"] + ind + ["}"], out
        if form == "fallthrough":
            return ["switch {", "case flag:", "\tfallthrough", "case !flag:"] + ind + ["}"], out
        if form == "select":
            return ["select {", "default:"] + ind + ["}"], out
        if form == "label":
            v = x.fresh("L")
            return [v + ":", "for {"] + ind + [f"\tbreak {v}", "}"], out
        if form == "goto":
            return ["if !flag {"] + ind + ["}"], out
        if form == "range":
            return ["for range []int{1} {"] + ind + ["}"], out
        if form == "typeswitch":
            v = x.fresh("t")
            return [f"var {v} any", f"switch {v}.(type) {{", "case int:"] + ind + ["}"], out
        if form == "func":
            return ["func() {"] + ind + ["}()"], [self.other("?", out)]
        if form == "deferfunc":
            return ["defer func() {"] + ind + ["}()"], [self.other("?", out)]
        if form == "gofunc":
            return ["go func() {"] + ind + ["}()"], [self.other("?", out)]
        if form == "closure":
            v = x.fresh("f")
            return [f"{v} := func() {{"] + ind + ["}", f"{v}()"], [item("block", inner=out), self.other(v)]
        return ["{"] + ind + ["}"], out

    def ret_inside(self, lines):
        return self.ret() and any("return" in l for l in lines)


def case(seed, cid, focus=None, routes=(6, 12)):
    rng = random.Random(seed)
    g = Gen(rng, routes, focus)
    mapping = []
    if focus == "mapping" or rng.random() < .15:
        cands = [f"{t['pkg']}.{t['name']}" for t in g.types] + ["time.Time", "time.Month"]
        for key in rng.sample(cands, min(len(cands), rng.randint(1, 3))):
            mapping.append(dict(key=key, type=rng.choice(["string", "integer", "object", ""]), format=rng.choice(["", "custom", "date"])))
    return Renderer(g, random.Random(rng.random())).case(cid, mapping)


def cases(seed, n, focus=None, routes=(6, 12)):
    return [case(seed * 100003 + i, i + 1, focus, routes) for i in range(n)]


if __name__ == "__main__":
    import sys
    import os
    seed, out = int(sys.argv[1]), sys.argv[2]
    c = case(seed, 1, sys.argv[3] if len(sys.argv) > 3 else None)
    for f, s in c["files"].items():
        os.makedirs(os.path.dirname(os.path.join(out, f)) or ".", exist_ok=True)
        open(os.path.join(out, f), "w").write(s)
    open(os.path.join(out, "go.mod"), "w").write(f"module {MOD}\n\ngo 1.21\n\nrequire github.com/gin-gonic/gin v1.9.1\n\nreplace github.com/gin-gonic/gin => {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}/harness/stubgin\n")
    json.dump(c, open(os.path.join(out, "case.json"), "w"), indent=1)
