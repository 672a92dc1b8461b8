"""What the check of each property runs."""
from engine import conform
from layers import LAYERS


def enum(ctx, layer):
    conform(ctx, LAYERS[layer], LAYERS[layer].cases(ctx, "full" if ctx.tier == "thorough" else "small"))


def rand(ctx, layer, quick, thorough):
    conform(ctx, LAYERS[layer], LAYERS[layer].cases(ctx, thorough if ctx.tier == "thorough" else quick))


def doc(ctx, quick, thorough):
    conform(ctx, LAYERS["doc"], LAYERS["doc"].cases(ctx, thorough if ctx.tier == "thorough" else quick))


def doc_enumerated(ctx):
    conform(ctx, LAYERS["doc-enumerated"], LAYERS["doc-enumerated"].cases(ctx, "full" if ctx.tier == "thorough" else "small"))


def prog(ctx, quick, thorough, layer="programs"):
    conform(ctx, LAYERS[layer], LAYERS[layer].cases(ctx, thorough if ctx.tier == "thorough" else quick))


def analysis(ctx):
    """What the analysis of programs finds out."""
    prog(ctx, 300, 4000)


def customs(ctx):
    prog(ctx, 240, 3000, "programs-custom")


def documents(ctx):
    """What the documents of services say, down to the programs."""
    doc_enumerated(ctx)
    doc(ctx, 3000, 40000)
    prog(ctx, 120, 2000)


def schemas(ctx):
    doc_enumerated(ctx)
    doc(ctx, 2000, 20000)
    prog(ctx, 240, 4000)


def routes(ctx):
    enum(ctx, "routes-enumerated")
    rand(ctx, "routes", 500, 10000)
    doc_enumerated(ctx)
    doc(ctx, 1000, 10000)
    prog(ctx, 60, 1000)


def metadata(ctx):
    rand(ctx, "config", 3000, 40000)
    doc(ctx, 2000, 20000)


def files(ctx):
    rand(ctx, "config", 2000, 30000)
    doc_enumerated(ctx)
    doc(ctx, 2000, 30000)


def additions(ctx):
    enum(ctx, "additions-enumerated")
    rand(ctx, "additions", 3000, 40000)
    rand(ctx, "config", 1000, 10000)
    prog(ctx, 120, 1500)


def azure(ctx):
    enum(ctx, "azure-enumerated")
    rand(ctx, "azure", 2500, 40000)


def interrupted(ctx):
    enum(ctx, "interrupted-enumerated")
    rand(ctx, "interrupted", 700, 10000)


def directory(ctx):
    enum(ctx, "interrupted-enumerated")
    rand(ctx, "life", 1500, 20000)
    rand(ctx, "interrupted", 300, 5000)


def order(ctx):
    enum(ctx, "interrupted-enumerated")
    rand(ctx, "life", 2500, 30000)
    rand(ctx, "interrupted", 300, 5000)


def caches(ctx):
    enum(ctx, "cache-enumerated")
    rand(ctx, "cache", 1200, 20000)
    rand(ctx, "life", 800, 10000)
    rand(ctx, "interrupted", 200, 4000)
    rand(ctx, "ways-caches", 60, 1200)


def deterministic(ctx):
    rand(ctx, "ways", 100, 1500)
    rand(ctx, "ways-others", 20, 300)
    rand(ctx, "again", 1200, 30000)


def tool(ctx):
    rand(ctx, "ways-cli", 130, 2000)


def apart(ctx):
    rand(ctx, "ways-others", 120, 2000)
    rand(ctx, "again", 600, 20000)


def tree(ctx):
    enum(ctx, "packages-enumerated")
    rand(ctx, "packages", 1500, 30000)


PROPS = {
    "C24": tree,
    "C17": deterministic, "C19": tool, "C23": apart,
    "C18": caches,
    "C20": interrupted, "C21": directory, "C22": order,
    "C25": azure,
    "C15": metadata, "C16": files, "C28": additions,
    "C01": routes, "C02": routes,
    "C03": analysis, "C04": analysis, "C05": customs, "C06": analysis, "C07": schemas, "C08": schemas, "C09": analysis,
    "C10": documents, "C11": documents, "C12": documents, "C13": documents, "C14": documents, "C26": schemas, "C27": analysis,
}

ASSUMPTIONS = [
    "TLC, the Go tool chain and the standard library are correct; the specification in /verif/spec says what the property means",
    "the code is only judged on the cases that were run: all services and programs of the enumerated spaces, and seeded random ones beyond them",
]

NOTES = {
    "C10": "Exhaustive on a small space of services (model and real code), seeded random services beyond it: the document is rebuilt by the specification and compared.",
}
for _p in PROPS:
    NOTES.setdefault(_p, NOTES["C10"])
