"""The layers: what is generated, which driver command runs it, and which specification judges it."""
import json
import os
import random

import gen_azure
import gen_cache
import gen_config
import gen_doc
import gen_prog
import gen_life
import gen_packages
import gen_push
import gen_routes
import gen_ways
from engine import Layer, CheckError, build_cli, run_tlc


class DocLayer(Layer):
    """Random services, documented by the real OpenAPI output."""
    name, command, trace = "doc", "doc", "DocTrace"

    def cases(self, ctx, n):
        return gen_doc.cases(ctx.seed * 7919 + 13, n)

    def features(self, prop, cases, recs):
        return dict(routes=sum(len(c["svc"]["routes"]) for c in cases), components=sum(len(c["svc"]["comps"]) for c in cases))


def enumerated(ctx, module, space, limit=12000):
    """The space that a model enumerates: checks the model itself, and returns what TLC exported (a seeded choice of it, if it is too large)."""
    path = os.path.join(ctx.scratch, module + ".ndjson")
    out, gen, dist, ok = run_tlc(ctx, module + ".tla", module + ".cfg", {"VERIF_SPACE": space, "VERIF_EXPORT": path}, workers=8, mem="6g")
    if not ok:
        i = out.find("Error:")
        raise CheckError(f"the specification {module} does not satisfy its own properties: " + out[i:i + 3000])
    ctx.states += dist
    ctx.transitions += gen
    with open(path) as f:
        cases = [json.loads(x) for x in f]
    total = len(cases)
    if total > limit:
        cases = sorted(random.Random(ctx.seed).sample(cases, limit), key=lambda c: c["id"])
    ctx.layers.setdefault("models", {})[module] = dict(states=dist, transitions=gen, space=space, exported=total, run=len(cases))
    ctx.log(f"model {module} ({space}): {dist} states, {total} cases")
    return cases


class DocEnumLayer(DocLayer):
    """The services that the model MCDoc enumerates, exported by TLC."""
    name = "doc-enumerated"

    def cases(self, ctx, space):
        return enumerated(ctx, "MCDoc", space, 10**9)


class ProgLayer(Layer):
    """Random programs, analysed by the real code."""
    name, command, trace = "programs", "prog", "ProgTrace"
    chunk = 20
    focus = None

    def cases(self, ctx, n):
        return gen_prog.cases(ctx.seed * 6007 + 5, n, self.focus, (8, 16))

    def features(self, prop, cases, recs):
        return dict(handlers=sum(len(c["routes"]) for c in cases), types=sum(len(c["prog"]["types"]) for c in cases),
                    calls=sum(s.count('"k": "call"') for s in (json.dumps(c["prog"]["funcs"]) for c in cases)))


class CustomProgLayer(ProgLayer):
    """Random programs with custom functions."""
    name, focus = "programs-custom", "custom"


class RoutesLayer(Layer):
    """Random routers and rules, in the real router and the real service."""
    name, command, trace = "routes", "routes", "RoutesTrace"

    def cases(self, ctx, n):
        return gen_routes.cases(ctx.seed * 4001 + 3, n)

    def features(self, prop, cases, recs):
        return dict(registrations=sum(len(c["regs"]) for c in cases), rules=sum(len(c["denies"]) for c in cases))


class RoutesEnumLayer(RoutesLayer):
    """The registrations, rules and paths that the model MCRoutes enumerates."""
    name = "routes-enumerated"

    def cases(self, ctx, space):
        return [gen_routes.complete(c) for c in enumerated(ctx, "MCRoutes", space)]


class ConfigLayer(Layer):
    """Random calls of the configuration builder, and outputs at all kinds of paths."""
    name, command, trace = "config", "config", "ConfigTrace"

    def cases(self, ctx, n):
        return gen_config.cases(ctx.seed * 3001 + 7, n)


class PushLayer(Layer):
    """Random additions of responses and components that differ in few details."""
    name, command, trace = "additions", "push", "PushTrace"

    def cases(self, ctx, n):
        return gen_push.cases(ctx.seed * 2003 + 1, n)


class PushEnumLayer(PushLayer):
    """The additions that the model MCPush enumerates."""
    name = "additions-enumerated"

    def cases(self, ctx, space):
        return enumerated(ctx, "MCPush", space)


class AzureLayer(Layer):
    """Random runs of the Azure Functions output, over all kinds of previous content."""
    name, command, trace = "azure", "azure", "AzureTrace"

    def cases(self, ctx, n):
        return gen_azure.cases(ctx.seed * 1009 + 1, n)


class AzureEnumLayer(AzureLayer):
    """The runs and the templates that the model MCAzure enumerates."""
    name = "azure-enumerated"

    def cases(self, ctx, space):
        return enumerated(ctx, "MCAzure", space)


class LifeLayer(Layer):
    """Random calls of services in a directory, some of which fail."""
    name, command, trace, kind = "life", "life", "LifeTrace", "steps"

    def cases(self, ctx, n):
        return gen_life.cases(ctx.seed * 503 + 9, n, self.kind)


class InterruptedLayer(LifeLayer):
    """Random runs in a directory, some of which are interrupted at any place, and the runs after them."""
    name, kind = "interrupted", "interrupted"


class InterruptedEnumLayer(LifeLayer):
    """A run that is interrupted at each place of the model MCLife, between two complete ones."""
    name, kind = "interrupted-enumerated", "interrupted"

    def cases(self, ctx, space):
        return enumerated(ctx, "MCLife", space, 100000 if space == "full" else 1500)


class CacheLayer(Layer):
    """Random histories of services with random content that are saved to and loaded from caches, in two processes."""
    name, command, trace, processes = "cache", "cache", "CacheTrace", 2

    def cases(self, ctx, n):
        return gen_cache.cases(ctx.seed * 701 + 2, n)


class AgainLayer(CacheLayer):
    """Services with random content that generate again and again, next to others, in two processes."""
    name = "again"

    def cases(self, ctx, n):
        return gen_cache.again(ctx.seed * 709 + 2, n)


class CacheEnumLayer(CacheLayer):
    """The histories that the model MCCache enumerates, of services with random content."""
    name, processes = "cache-enumerated", 1

    def cases(self, ctx, space):
        return gen_cache.complete(enumerated(ctx, "MCCache", space, 60000 if space == "full" else 2500), ctx.seed)


class PackagesLayer(Layer):
    """Random operations of some goroutines on one tree of packages, again and again, with the race detector."""
    name, command, trace, race, chunk = "packages", "packages", "PackagesTrace", True, 200

    def env(self, ctx):
        return dict(GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0")

    def cases(self, ctx, n):
        return gen_packages.cases(ctx.seed * 331 + 4, n, 40)

    def features(self, prop, cases, recs):
        return dict(histories=sum(len(r["obs"]["runs"]) for r in recs if not r.get("crash")), rounds=sum(c["rounds"] for c in cases))


class PackagesEnumLayer(PackagesLayer):
    """The operations that the model MCPackages enumerates."""
    name = "packages-enumerated"

    def cases(self, ctx, space):
        return [dict(c, rounds=20) for c in enumerated(ctx, "MCPackages", space, 10**9 if space == "full" else 1500)]


class WaysLayer(Layer):
    """Histories of the model MCWays, of random programs: enumerated short ones, and simulated long ones."""
    name, command, trace = "ways", "ways", "WaysTrace"
    focus = "alone"
    chunk = 10

    def env(self, ctx):
        return dict(VERIF_CLI=build_cli(ctx))

    def timeout(self, ctx, n):
        return 240 + 60 * n

    def histories(self, ctx, space, n):
        args = ("-simulate", f"num={n * 12}", "-depth", "13", "-seed", str(ctx.seed)) if space == "random" else ()
        out, gen, dist, ok = run_tlc(ctx, "MCWays.tla", "MCWays.cfg", {"VERIF_SPACE": space, "VERIF_FOCUS": self.focus}, workers=1 if args else 8, mem="8g", args=args)
        if not ok:
            i = out.find("Error:")
            raise CheckError("the specification MCWays does not satisfy its own properties: " + out[i:i + 3000])
        found = sorted(set(json.loads(x)[len("CASE "):] for x in out.splitlines() if x.startswith('"CASE ')))
        if args:        # one of those that only differ at the end
            found = sorted({json.dumps(h[:-1]): h for h in map(json.loads, found)}.items())
            found = [h for _, h in found]
        else:
            found = [json.loads(h) for h in found]
            ctx.states += dist
            ctx.transitions += gen
        total = len(found)
        if total > n:
            found = random.Random(ctx.seed).sample(found, n)
        ctx.layers.setdefault("models", {})[f"MCWays-{self.focus}-{space}"] = dict(states=dist, transitions=gen, histories=total, run=len(found))
        ctx.log(f"model MCWays ({self.focus}, {space}): {dist} states, {total} histories")
        return found

    def cases(self, ctx, n):
        hs = self.histories(ctx, "full" if ctx.tier == "thorough" else "small", n // 2)
        hs += self.histories(ctx, "random", n - len(hs))
        return gen_ways.complete(hs, ctx.seed)


class WaysCachesLayer(WaysLayer):
    name, focus = "ways-caches", "caches"


class WaysCliLayer(WaysLayer):
    name, focus = "ways-cli", "cli"


class WaysOthersLayer(WaysLayer):
    name, focus = "ways-others", "others"


LAYERS = {l.name: l for l in (PackagesLayer(), PackagesEnumLayer(), WaysLayer(), WaysCachesLayer(), WaysCliLayer(), WaysOthersLayer(), CacheLayer(), AgainLayer(), CacheEnumLayer(), LifeLayer(), InterruptedEnumLayer(), InterruptedLayer(), AzureLayer(), AzureEnumLayer(), PushLayer(), PushEnumLayer(), ConfigLayer(), RoutesLayer(), RoutesEnumLayer(), DocLayer(), DocEnumLayer(), ProgLayer(), CustomProgLayer())}
