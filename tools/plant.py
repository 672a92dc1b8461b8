#!/usr/bin/env python3
"""Confirms planted bugs: plant.py ID... (no ID: all of them).  Works in a copy of the repository under /tmp/plant.

A planted bug is /verif/seeded/ID with patch.diff, demo.sh and meta.json.  With --new FILE the edits of a Python file are
applied first and patch.diff is written from them: FILE defines edits = [(path, old, new), ...].
"""
import json, os, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/plant"
WT = ROOT + "/astra"
GO = "/opt/veriftools/go1.23.12/bin"
ENV = dict(os.environ, PATH=GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", HOME="/root", GOWORK="off", GOTOOLCHAIN="local",
           GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, errors="replace", **kw)


def fresh():
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.exists(WT):
        sh(["git", "clone", "-q", "/repo", WT])
    sh(["git", "-C", WT, "fetch", "-q", "origin"])
    sh(["git", "-C", WT, "reset", "-q", "--hard", "origin/HEAD"])
    sh(["git", "-C", WT, "clean", "-qfdx"])


def build():
    r = sh(["go", "build", "./..."], cwd=WT, env=ENV)
    if r.returncode:
        return r.stdout + r.stderr
    e = dict(ENV, GOFLAGS=f"-mod=mod -modfile={ROOT}/cli.mod")
    shutil.copy(WT + "/cli/astra/go.mod", ROOT + "/cli.mod")
    sums = set(open(WT + "/cli/astra/go.sum").read().splitlines()) | set(open(WT + "/go.sum").read().splitlines())
    open(ROOT + "/cli.sum", "w").write("\n".join(sorted(sums)) + "\n")
    r = sh(["go", "build", "-o", ROOT + "/astra-cli", "."], cwd=WT + "/cli/astra", env=e)
    return r.stdout + r.stderr if r.returncode else ""


def tests():
    log = ROOT + "/test.log"
    with open(log, "w") as f:
        subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "5m", "./..."], cwd=WT, env=dict(ENV, PWD=WT), stdout=f, stderr=subprocess.DEVNULL)
    sh(["git", "-C", WT, "clean", "-qfdx"])
    sh(["python3", "/opt/vp/results.py", ROOT + "/res.json", "gojson:" + log])
    res = json.load(open(ROOT + "/res.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - set(res["passed"]))


def demo(d):
    lay = ROOT + "/demo"
    shutil.rmtree(lay, ignore_errors=True)
    shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    try:
        r = sh(["bash", lay + "/demo.sh"], cwd=WT, env=ENV, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return r.returncode, (r.stdout + r.stderr)[-1500:]


def confirm(i):
    d = os.path.join(VERIF, "seeded", i)
    fresh()
    if "--nodemo0" not in sys.argv:
        build()
        rc, out = demo(d)
        if rc:
            return f"demo fails on the unchanged tree: {rc}\n{out}"
        if sh(["git", "-C", WT, "status", "--short"]).stdout:
            return "the demo leaves something behind: " + sh(["git", "-C", WT, "status", "--short"]).stdout
    r = sh(["git", "-C", WT, "apply", d + "/patch.diff"])
    if r.returncode:
        return "does not apply: " + r.stderr
    b = build()
    if b:
        return "does not build: " + b
    rc, out = demo(d)
    if rc == 0:
        return "demo does not fail with the patch"
    if rc == 124:
        return "demo times out"
    if "--quick" not in sys.argv:
        failed = tests()
        if failed:
            return "tests fail: " + ", ".join(failed[:8])
    return "ok: demo says " + out.strip()[-300:].replace("\n", " | ")


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    if "--new" in sys.argv:
        # plant.py --new FILE ID
        spec, i = ids
        ns = {}
        exec(open(spec).read(), ns)
        fresh()
        for p, old, new in ns["edits"]:
            s = open(f"{WT}/{p}").read()
            assert s.count(old) == 1, (p, s.count(old))
            open(f"{WT}/{p}", "w").write(s.replace(old, new))
        os.makedirs(f"{VERIF}/seeded/{i}", exist_ok=True)
        open(f"{VERIF}/seeded/{i}/patch.diff", "w").write(sh(["git", "-C", WT, "diff"]).stdout)
        ids = [i]
    bad = 0
    for i in ids or sorted(os.listdir(VERIF + "/seeded")):
        m = confirm(i)
        bad += not m.startswith("ok")
        print(i, m, flush=True)
    sys.exit(bad > 0)
