"""Random operations of some goroutines on one tree of packages."""
import random

PATHS = ["a", "ab", "a/b", "a/bb", "b/a", "a/b/c", "a/b/b", "b", "a.b/c", "gopkg.in/x.v2", "github.com/a/b", "github.com/a/b/c", "github.com/ab", "github.com"]


def cases(seed, n, rounds):
    r = random.Random(seed)
    out = []
    for i in range(n):
        paths = r.sample(PATHS, r.choice((2, 3, 4)))
        if r.random() < 0.5:
            paths.append(r.choice([p for p in paths for p in (p + "/c", p.split("/")[0], p + "c")]))

        def op():
            k = r.choice(("find", "find", "add", "add", "findoradd", "findoradd", "imports"))
            return dict(k=k, p=[r.choice(paths) for _ in range(r.randint(0, 3) if k == "imports" else 1)])

        if r.random() < 0.15:       # a long history of one goroutine
            work = [[op() for _ in range(r.randint(6, 14))]]
        else:
            work = [[op() for _ in range(r.randint(1, 3))] for _ in range(r.choice((2, 2, 3, 3, 4)))]
        out.append(dict(id=i + 1, work=work, rounds=4 if len(work) == 1 else rounds))
    return out
