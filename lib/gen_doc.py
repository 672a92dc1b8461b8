"""Services for the document layer: routes, components, type mappings and configurations as astra's analysis can produce them."""
import random

BINDINGS = ["header", "form", "uri", "json", "xml", "yaml"]
PKGS = ["main", "ex.com/m/a", "ex.com/n/a", "ex.com/a", "ex.com/p/x/a", "ex.com/q/x/a", "ex.com/m/b", "ex.com/n/b", "ex.com/r/a/json", "ex.com/s/json",
        "ex.com/m/uri", "a", "ex.com/main", "ex.com/p/x/c", "ex.com/p/y/c"]
BASICS = ["string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool", "byte", "rune", "any"]
CTS = ["application/json", "application/xml", "application/x-www-form-urlencoded", "multipart/form-data", "application/yaml", "text/plain", "application/toml", ""]
# strings that need care when they are written
NASTY = ["yes", "null", "1.0", "0x1F", "2020-01-01", "a: b", "# x", "- x", "x #y", "\u00e9\u2603\U0001f600", "tab\tx", " lead", "trail ", "many\n\nlines\n", "%x", "@a",
         "`b`", "{a}", "[a]", "'q'", "\"dq\"", "back\\slash\\n", "~", "<<", "=", "1e3", "0o7", "true", "<b>&amp;</b>", "!tag", "&anchor", "*alias", "|", ">", "? x", "a,b",
         "long " * 40 + "end", "x\r\ny", "\u2028", "1_000", "12:30:45", ".5", "+1", "-", ":", "..."]
METHODS = ["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT"]


def field(**kw):
    f = dict(pkg="", type="", name="", enum=[], emb=False, slice="", array="", alen=0, mapk="", mapkpkg="", mapv="", epkg="", fields={}, forder=[],
             tags={}, vals={}, doc="", req=False)
    f.update(kw)
    f["forder"] = sorted(f["fields"])
    return f


class DocGen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def chance(self, p):
        return self.r.random() < p

    def elem(self, comps):
        """type name and package of an element"""
        if comps and self.chance(0.5):
            c = self.r.choice(comps)
            return c[1], c[0]
        if self.chance(0.05):
            return self.r.choice([("error", ""), ("Missing", "ex.com/m/a")])
        return self.r.choice(BASICS), ""

    def typed(self, comps, inline=True, depth=0):
        """the part of a field that is about its type"""
        k = self.r.random()
        if k < 0.5:
            t, p = self.elem(comps)
            return dict(type=t, pkg=p)
        if k < 0.68:
            t, p = self.elem(comps)
            return dict(type="slice", slice=t, pkg=p)
        if k < 0.76:
            t, p = self.elem(comps)
            return dict(type="array", array=t, pkg=p, alen=self.r.choice([0, 1, 3, 16]))
        if k < 0.9 or not inline or depth > 1:
            t, p = self.elem(comps)
            d = dict(type="map", mapk="string", mapv=t, pkg=p)
            if comps and self.chance(0.2):
                c = self.r.choice(comps)
                d.update(mapk=c[1], mapkpkg=c[0])
            return d
        return dict(type="struct", fields=self.fields(comps, depth + 1))

    def tags(self, goname, style):
        r = self.r
        if style == "none":
            return {"none": dict(name=goname, hide=False, opt=False)}
        if style == "json":
            return {"json": dict(name=goname.lower(), hide=False, opt=False)}
        if style == "same":
            return {b: dict(name=goname.lower(), hide=False, opt=False) for b in BINDINGS}
        if style == "multi":
            return {b: dict(name=goname.lower() + "_" + b, hide=False, opt=False) for b in r.sample(BINDINGS, r.randint(1, 4))}
        # mixed
        if self.chance(0.2):
            return {"none": dict(name=goname, hide=False, opt=False)}
        out = {}
        for b in r.sample(BINDINGS, r.randint(1, 3)):
            out[b] = dict(name=r.choice([goname, goname.lower(), goname.lower() + "_" + b, "shared"]), hide=self.chance(0.15), opt=self.chance(0.2))
        return out

    def fields(self, comps, depth=0):
        style = self.r.choice(["none", "json", "json", "same", "multi", "mixed", "mixed"])
        out = {}
        names = self.r.sample(["Alpha", "Beta", "Gamma", "Delta", "Eps", "ID"], self.r.randint(0, 4))
        for n in names:
            st = style if self.chance(0.85) else "mixed"
            f = field(**self.typed(comps, depth=depth), tags=self.tags(n, st))
            if self.chance(0.2):
                f["vals"] = {"binding": self.chance(0.7)}
                f["req"] = False
            out[n] = f
        if comps and depth == 0 and self.chance(0.3):
            for c in self.r.sample(comps, min(len(comps), self.r.randint(1, 2))):
                out[c[1]] = field(type=c[1], pkg=c[0], emb=True,
                                  tags=self.tags(c[1], "none") if self.chance(0.6) else self.tags(c[1], "mixed"))
        return out

    def component(self, pkg, name, comps):
        r = self.r
        k = r.random()
        doc = r.choice(["", "", "", name + " is documented.", r.choice(NASTY)])
        if k < 0.6:
            return field(pkg=pkg, name=name, type="struct", fields=self.fields(comps), doc=doc)
        if k < 0.75:
            t = r.choice(["string", "int", "float64", "uint8", "bool", "int64"])
            vals = {"string": ["s:x", "s:y", "s:", "s:x y", "s:" + r.choice(NASTY)], "int": ["i:0", "i:1", "i:-4", "i:7"], "float64": ["f:1.5", "f:0.25"],
                    "uint8": ["i:1", "i:2"], "bool": ["b:true", "b:false"], "int64": ["i:9", "i:10"]}[t]
            return field(pkg=pkg, name=name, type=t, enum=r.sample(vals, r.randint(0, len(vals))), doc=doc)
        t = self.typed(comps, inline=False)
        if comps and self.chance(0.3):
            # a named pointer
            c = r.choice(comps)
            t = dict(type=c[1], pkg=c[0])
        while t["type"] not in ("slice", "array", "map") and t["pkg"] == "":
            t = self.typed(comps, inline=False)
        # the package of a named type is its own, its elements have their own if it is another one
        if t["pkg"] not in ("", pkg):
            t["epkg"] = t["pkg"]
        t["pkg"] = pkg
        return field(name=name, doc=doc, **t)

    def param(self, name, comps, bound_ok=True):
        r = self.r
        k = r.random()
        p = dict(name=name, f=field(type=r.choice(["string", "int", "bool", "float64"])), req=self.chance(0.3), arr=False, map=False, bound=False, ct="")
        if k < 0.15:
            p["arr"] = True
        elif k < 0.3:
            p["map"] = True
        elif k < 0.5 and bound_ok and comps:
            c = r.choice(comps)
            p.update(name="", bound=True, f=field(type=c[1], pkg=c[0]))
        if (p["arr"] or p["map"]) and comps and self.chance(0.2):
            c = r.choice(comps)
            p["f"] = field(type=c[1], pkg=c[0])
        return p

    def path(self):
        r = self.r
        segs = []
        params = []
        for i in range(r.randint(0, 4)):
            k = r.random()
            if k < 0.55:
                segs.append(r.choice(["v1", "pets", "store", "a-b", "x.y"]))
            elif k < 0.9:
                n = r.choice(["id", "petId", "id2", "idx", "i", "a_b"])
                if n in params:
                    continue
                params.append(n)
                segs.append(r.choice(["", "", "", "pre-"]) + ":" + n)
            else:
                n = r.choice(["rest", "id", "file"])
                if n in params:
                    continue
                params.append(n)
                segs.append("*" + n)
                break
        return "/" + "/".join(segs) + (r.choice(["", "", "/"]) if segs and not segs[-1].startswith("*") else "")

    @staticmethod
    def path_params(path):
        out = []
        i = 0
        while i < len(path):
            if path[i] in ":*" and i + 1 < len(path) and path[i + 1] != "/":
                j = path.find("/", i + 1)
                j = len(path) if j < 0 else j
                out.append((path[i + 1:j], path[i] == ":"))
                i = j
            else:
                i += 1
        return out

    def route(self, comps, n):
        r = self.r
        path = self.path()
        pp = [dict(name=nm, f=field(type=r.choice(["string", "string", "int"])), req=req, arr=False, map=False, bound=False, ct="")
              for nm, req in self.path_params(path)]
        if comps and self.chance(0.2):
            c = r.choice(comps)
            pp.append(dict(name="", f=field(type=c[1], pkg=c[0]), req=False, arr=False, map=False, bound=True, ct=""))
        names = ["q", "id", "sort", "alpha", "page"]
        query = [self.param(r.choice(names), comps) for _ in range(r.choice([0, 0, 1, 2, 3]))]
        hdr = [self.param(r.choice(["X-A", "X-B", "id"]), comps) for _ in range(r.choice([0, 0, 1, 2]))]
        for p in hdr:
            p["arr"] = p["map"] = False
            if not p["bound"]:
                p["f"] = field(type="string")
        reshdr = [dict(name=r.choice(["X-R", "X-S", "ETag"]), f=field(type="string"), req=self.chance(0.5), arr=False, map=False, bound=False, ct="")
                  for _ in range(r.choice([0, 0, 0, 1, 2]))]
        body = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            ct = r.choice(CTS[:5])
            if ct in ("application/x-www-form-urlencoded", "multipart/form-data") and self.chance(0.7):
                p = self.param(r.choice(["f1", "f2", "f3", "avatar"]), comps, bound_ok=False)
                if self.chance(0.3) and not p["arr"] and not p["map"]:
                    p["f"] = field(type="file")
                p["ct"] = ct
            else:
                t = self.typed(comps, inline=False) if self.chance(0.4) else None
                if t is None:
                    c = r.choice(comps) if comps else ("", "string")
                    t = dict(type=c[1], pkg=c[0])
                p = dict(name="", f=field(**t), req=False, arr=False, map=False, bound=self.chance(0.8), ct=ct)
            body.append(p)
        ret = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            t = self.typed(comps, inline=False)
            if self.chance(0.1):
                t = dict(type="nil")
            ret.append(dict(code=r.choice([200, 200, 201, 204, 400, 404, 500, 0]), ct=r.choice(CTS), f=field(**t)))
        return dict(handler=f"ex.com/m.H{n}", file="main.go", line=n, method=r.choice(METHODS[:5] if self.chance(0.8) else METHODS), path=path,
                    pp=pp, query=query, hdr=hdr, reshdr=reshdr, body=body, ret=ret,
                    doc=r.choice(["", "", f"H{n} does things.", r.choice(NASTY)]), opid=r.choice(["", f"h{n}", f"getThing{n}"]))

    def config(self):
        r = self.r
        return dict(title=r.choice(["", "API", "My \"API\": a", r.choice(NASTY)]), description=r.choice(["", "Some text", "two\nlines", r.choice(NASTY)]), version=r.choice(["", "1.0.0", "1.10", r.choice(NASTY)]),
                    contact=r.choice([dict(name="", url="", email=""), dict(name="N", url="http://n", email="a@b.c"), dict(name="N", url="", email="")]),
                    license=r.choice([dict(name="", url=""), dict(name="MIT", url="http://l"), dict(name="MIT", url="")]),
                    secure=self.chance(0.4), host=r.choice(["localhost", "ex.com"]), port=r.choice([80, 8000, 443, 8443]),
                    basePath=r.choice(["/", "/api", "", "/v1/x"]))

    def promoting(self):
        """Types that embed types whose fields share names, in a binding or in all of them."""
        r = self.r
        pkgs = r.sample(PKGS, 2)
        def base(pkg, name, others=()):
            fs = {}
            for n in r.sample(["Alpha", "Beta", "Gamma"], r.randint(1, 2)):
                bs = r.sample(BINDINGS, r.randint(2, 6))
                fs[n] = field(**self.typed([], inline=False), tags={b: dict(name=r.choice(["shared", n.lower()]), hide=False, opt=False) for b in bs})
            for c in others:
                fs[c[1]] = field(type=c[1], pkg=c[0], emb=True, tags={"none": dict(name=c[1], hide=False, opt=False)})
            return field(pkg=pkg, name=name, type="struct", fields=fs)
        one, two, three = (pkgs[0], "Base"), (r.choice(pkgs), "Mixin"), (pkgs[1], "Core")
        return [base(*one), base(*three), base(*two, others=r.sample([three], r.randint(0, 1))), base(pkgs[0], "Outer", others=r.sample([one, two, three], r.randint(2, 3)))], (pkgs[0], "Outer")

    def service(self, size=None):
        r = self.r
        n = size if size is not None else r.choice([0, 1, 2, 3, 4, 6])
        pool = r.sample(PKGS, r.randint(1, 5))
        ids = []
        while len(ids) < n:
            c = (r.choice(pool), r.choice(["T", "U", "V", "Item"]))
            if c not in ids:
                ids.append(c)
            elif self.chance(0.3):
                break
        if self.chance(0.2):
            ids.append(("time", "Time"))
        if self.chance(0.1):
            ids.append(("github.com/google/uuid", "UUID"))
        comps = [self.component(p, nm, ids) for p, nm in ids]
        r.shuffle(comps)
        if comps and self.chance(0.15):     # something refers to a component that is not there
            comps = comps[:-1]
        mapping = []
        if self.chance(0.35) and ids:
            for _ in range(r.randint(1, 3)):
                p, nm = r.choice(ids)
                key = r.choice([f"{p}.{nm}", f"{p}.{nm}", nm, f"{p}.{nm}X", p.split("/")[-1] + "." + nm])
                mapping.append(dict(key=key, type=r.choice(["string", "integer", "object", ""]), format=r.choice(["", "custom", "int64"])))
        routes = [self.route(ids, i) for i in range(r.choice([0, 1, 1, 2, 3]))]
        if routes and self.chance(0.12):
            more, outer = self.promoting()
            comps += more
            rt = r.choice(routes)
            rt[r.choice(["query", "query", "hdr"])].append(dict(name="", f=field(type=outer[1], pkg=outer[0]), req=False, arr=False, map=False, bound=True, ct=""))
            if self.chance(0.5):
                rt["body"].append(dict(name="", f=field(type=outer[1], pkg=outer[0]), req=False, arr=False, map=False, bound=True, ct=r.choice(CTS[:5])))
        return dict(routes=routes, comps=comps, mapping=mapping, config=self.config())


def cases(seed, n, runs=1):
    g = DocGen(seed)
    return [dict(id=i, svc=g.service(), runs=runs) for i in range(n)]


if __name__ == "__main__":
    import json, sys
    for c in cases(int(sys.argv[1]), int(sys.argv[2]), 2):
        print(json.dumps(c))
