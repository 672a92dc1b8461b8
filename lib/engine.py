"""Runs cases in the real code (with the Go driver) and lets TLC judge what was observed against the specification."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
GO = "/opt/veriftools/go1.23.12/bin"
JOBS = 8


class CheckError(Exception):
    """The check itself could not be carried out: no verdict."""


def go_env():
    env = dict(os.environ)
    env.update(HOME="/root", PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off",
               GOFLAGS="-mod=readonly", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GOSUMDB="off")
    env.pop("GOROOT", None)
    return env


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick") or "quick"
        self.start = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-" + prop + "-")
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.layers = {}
        self.samples = []
        self.violations = []
        self.known = []
        self._n = 0

    def sub(self, name):
        self._n += 1
        d = os.path.join(self.scratch, f"{name}{self._n}")
        os.makedirs(d)
        return d

    def close(self):
        subprocess.run(["chmod", "-R", "u+w", self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print(f"[{time.time() - self.start:6.1f}s]", *a, flush=True)


def build_driver(ctx, race=False):
    """Builds the driver from the current working tree of the repository."""
    out = os.path.join(ctx.scratch, "vdrv-race" if race else "vdrv")
    if os.path.exists(out):
        return out
    env = go_env()
    if race:
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(["go", "build", *(["-race"] if race else []), "-o", out, "."], cwd=os.path.join(VERIF, "harness"), env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("the driver does not build:\n" + r.stdout + r.stderr)
    ctx.log("built the driver from", REPO)
    return out


def build_cli(ctx):
    """Builds the command line tool from the current working tree of the repository."""
    out = os.path.join(ctx.scratch, "astra-cli")
    if os.path.exists(out):
        return out
    d = ctx.sub("climod")
    shutil.copy(os.path.join(REPO, "cli/astra/go.mod"), os.path.join(d, "cli.mod"))
    sums = set()
    for p in ("cli/astra/go.sum", "go.sum"):
        sums |= set(open(os.path.join(REPO, p)).read().splitlines())
    with open(os.path.join(d, "cli.sum"), "w") as f:
        f.write("\n".join(sorted(sums)) + "\n")
    env = go_env()
    env["GOFLAGS"] = "-mod=mod -modfile=" + os.path.join(d, "cli.mod")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(REPO, "cli/astra"), env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError("the command line tool does not build:\n" + r.stdout + r.stderr)
    return out


def run_driver_once(ctx, driver, command, cases, timeout, extra_env=None):
    """Runs the cases in one process; returns the records it wrote, and how it ended ("" if well)."""
    d = ctx.sub("run")
    inp, outp, scr = (os.path.join(d, x) for x in ("in", "out", "scratch"))
    os.makedirs(scr)
    with open(inp, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    env = go_env()
    env.update(extra_env or {})
    env["VERIF_REPO"] = REPO
    env["VERIF_STUB"] = os.path.join(VERIF, "harness")
    try:
        r = subprocess.run([driver, command, inp, outp, scr], cwd=scr, env=env, capture_output=True, text=True, errors="replace", timeout=timeout)
        end = "" if r.returncode == 0 else f"exit {r.returncode}: " + (r.stderr or r.stdout)[-1500:]
        code = r.returncode
    except subprocess.TimeoutExpired:
        end, code = "timeout", -1
    recs = []
    if os.path.exists(outp):
        with open(outp, errors="replace") as f:
            for line in f:
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    break
    subprocess.run(["chmod", "-R", "u+w", d], stderr=subprocess.DEVNULL)
    shutil.rmtree(d, ignore_errors=True)
    return recs, end, code


def run_driver(ctx, layer, cases, jobs=JOBS):
    """Runs all cases, in as many processes as the layer asks for."""
    recs = run_cases(ctx, layer, cases, jobs)
    for r in recs:
        r["more"] = []
    if layer.processes > 1:
        more = [run_cases(ctx, layer, cases, jobs) for _ in range(layer.processes - 1)]
        for i, r in enumerate(recs):
            crash = [m[i]["crash"] for m in more if m[i].get("crash")]
            if crash and not r.get("crash"):
                r["crash"] = crash[0]
            if not r.get("crash"):
                r["more"] = [m[i]["obs"] for m in more]
    return recs


def run_cases(ctx, layer, cases, jobs):
    """Runs all cases, and finds out which ones end the process."""
    driver = build_driver(ctx, layer.race)
    extra = layer.env(ctx)
    out = {}

    def shard(part):
        done = []
        for i in range(0, len(part), layer.chunk):
            done += process(part[i:i + layer.chunk])
        return done

    def process(cs):
        done = []
        while cs:
            recs, end, code = run_driver_once(ctx, driver, layer.command, cs, layer.timeout(ctx, len(cs)), extra)
            done += recs
            if not end:
                if len(recs) != len(cs):
                    raise CheckError(f"the driver wrote {len(recs)} records for {len(cs)} cases")
                break
            if code == 3:
                raise CheckError("the driver failed: " + end)
            # the case after the last record ended the process
            culprit = cs[len(recs)] if len(recs) < len(cs) else None
            if culprit is None:
                raise CheckError("the driver failed after its last case: " + end)
            again, end2, _ = run_driver_once(ctx, driver, layer.command, [culprit], layer.timeout(ctx, 1), extra)
            if end2:
                done.append(dict(layer.crashed(culprit), crash=end2[:300]))
            else:
                done += again
            cs = cs[len(recs) + 1:]
        return done

    n = max(1, min(jobs, len(cases)))
    with cf.ThreadPoolExecutor(n) as ex:
        for recs in ex.map(shard, [cases[i::n] for i in range(n)]):
            for r in recs:
                out[r["id"]] = r
    return [out[c["id"]] for c in cases]


STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(ctx, module, cfg, env, workers=1, timeout=800, args=(), mem="3g"):
    """Runs TLC; returns its output, the number of states generated and of distinct states, and whether it found no error."""
    meta = ctx.sub("tlc")
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{mem} -Xss64m -XX:ParallelGCThreads={max(1, workers // 2)} -Dfile.encoding=UTF-8 -Djava.io.tmpdir={meta}"
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError(f"TLC did not finish {module} in {timeout} s")
    shutil.rmtree(meta, ignore_errors=True)
    m = STATES.findall(r.stdout)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in r.stdout or ("-simulate" in args and r.returncode == 0)
    return r.stdout, gen, dist, ok


def model_check(ctx, module, cfg=None, env=None, timeout=700):
    """Exhaustive check of the specification itself: an error here is an error of the specification, not a verdict about the code."""
    cfg = cfg or module + ".cfg"
    out, gen, dist, ok = run_tlc(ctx, module + ".tla", cfg, env or {}, workers=JOBS, timeout=timeout, mem="6g")
    if not ok:
        i = out.find("Error:")
        raise CheckError(f"the specification {module} does not satisfy its own properties: " + out[i:i + 3000])
    ctx.states += dist
    ctx.transitions += gen
    ctx.layers.setdefault("models", {})[cfg[:-4]] = dict(states=dist, transitions=gen)
    ctx.log(f"model {cfg[:-4]}: {dist} states")


def judge(ctx, trace_module, recs, prop, jobs=JOBS, count=True):
    """Lets TLC judge the records; returns the rejected ids with the reasons."""
    if not recs:
        return {}
    d = ctx.sub("judge")
    n = max(1, min(jobs, (len(recs) + 19) // 20))
    rejects = {}

    def shard(i):
        part = recs[i::n]
        path = os.path.join(d, f"t{i}.ndjson")
        with open(path, "w") as f:
            for r in part:
                f.write(json.dumps(r, ensure_ascii=True) + "\n")
        out, gen, dist, ok = run_tlc(ctx, trace_module + ".tla", trace_module + ".cfg", {"VERIF_TRACE": path, "VERIF_PROP": prop})
        rej = {}
        consumed = False
        for line in out.splitlines():
            if line.startswith('"REJECT '):
                try:
                    o = json.loads(json.loads(line)[len("REJECT "):])
                except ValueError:
                    m = re.search(r'id\\":(\d+)', line)
                    if not m:
                        raise CheckError("cannot read what TLC printed: " + line[:500])
                    o = dict(id=int(m.group(1)), what="?", why=line)
                rej.setdefault(o["id"], []).append(o)
            elif line.startswith('"CONSUMED '):
                consumed = int(line.strip('"').split()[1]) == len(part)
        if not ok or not consumed:
            i = out.find("Error:")
            raise CheckError(f"TLC did not judge every record of {trace_module}: " + (out[i:i + 3000] if i >= 0 else out[-2000:]))
        return rej, gen, dist

    with cf.ThreadPoolExecutor(n) as ex:
        for rej, gen, dist in ex.map(shard, range(n)):
            rejects.update(rej)
            if count:
                ctx.states += dist
                ctx.transitions += gen
    shutil.rmtree(d, ignore_errors=True)
    return rejects


def save_replay(ctx, layer, case, rec, why):
    body = json.dumps(dict(property=ctx.prop, layer=layer.name, case=case, record=rec, why=why), indent=1)
    name = f"{ctx.prop}-{layer.name}-{hashlib.sha1(body.encode()).hexdigest()[:10]}.json"
    path = os.path.join(VERIF, "replays", name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(body)
    return os.path.join("replays", name)


def conform(ctx, layer, cases, tries=12, limit=3):
    """Conformance of the real code with the specification on the cases, as far as the property is concerned."""
    if not cases:
        return
    t = time.time()
    recs = run_driver(ctx, layer, cases)
    crashed = {r["id"]: [dict(id=r["id"], what="crash", why=r["crash"])] for r in recs if r.get("crash")}
    t1 = time.time()
    rejects = judge(ctx, layer.trace, [r for r in recs if not r.get("crash")], ctx.prop)
    rejects.update(crashed)
    ctx.traces += len(recs)
    nontrivial = layer.distinct(ctx.prop, cases, recs)
    info = ctx.layers.setdefault(layer.name, dict(cases=0, distinct_nontrivial=0, rejected=0))
    info["cases"] += len(cases)
    info["distinct_nontrivial"] += nontrivial
    info["rejected"] += len(rejects)
    for k, v in layer.features(ctx.prop, cases, recs).items():
        info[k] = info.get(k, 0) + v
    ctx.samples.append(dict(layer=layer.name, case=shorten(cases[min(len(cases) - 1, ctx.seed % len(cases))])))
    ctx.log(f"layer {layer.name}: {len(cases)} cases, driver {t1 - t:.1f} s, TLC {time.time() - t1:.1f} s, {len(rejects)} rejected")
    byid = {c["id"]: (c, r) for c, r in zip(cases, recs)}
    # the smallest cases are the ones that explain most
    for cid in sorted(rejects, key=lambda i: len(json.dumps(byid[i][0])))[:limit]:
        case, rec = byid[cid]
        again = None
        for _ in range(tries):
            r2 = run_driver(ctx, layer, [case], jobs=1)
            if r2[0].get("crash"):
                again = [dict(id=cid, what="crash", why=r2[0]["crash"])]
            else:
                again = judge(ctx, layer.trace, r2, ctx.prop, count=False).get(cid)
            if again:
                rec = r2[0]
                break
        if not again:
            raise CheckError(f"a rejected case of layer {layer.name} was not rejected again in {tries} runs: {rejects[cid]}")
        path = save_replay(ctx, layer, case, rec, again)
        ctx.violations.append(path)
        ctx.log("rejected:", str(again[0].get("what")), str(again[0].get("why"))[:2000])


def shorten(x, n=4000):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


class Layer:
    name = ""
    command = ""
    trace = ""
    race = False        # whether the driver is built with the race detector
    processes = 1       # number of processes that run each case, to be compared
    chunk = 10**6       # number of cases that a process runs

    def env(self, ctx):
        return {}

    def timeout(self, ctx, n):
        return 120 + n

    def crashed(self, case):
        return dict(id=case["id"])

    def features(self, prop, cases, recs):
        return {}

    def distinct(self, prop, cases, recs):
        return len({json.dumps({k: v for k, v in c.items() if k != "id"}, sort_keys=True) for c in cases})


def evidence(ctx, level, assumptions):
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces, samples=ctx.samples[:6], layers=ctx.layers)
    ev = dict(property=ctx.prop, tier=ctx.tier if ctx.tier in ("quick", "thorough") else "quick", seed=ctx.seed, level=level, coverage=cov,
              assumptions=assumptions, wall_s=round(time.time() - ctx.start, 2), violations=len(ctx.violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def finish(ctx):
    for p in ctx.violations:
        print(f"VIOLATION property={ctx.prop} replay={p}", flush=True)
    return 1 if ctx.violations else 0


def die(msg):
    print("ERROR:", msg, file=sys.stderr, flush=True)
    return 2
