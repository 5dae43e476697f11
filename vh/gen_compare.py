"""Scenarios for the comparison of clusterings."""
import json

from .runner import variants
from . import tlc
from .gen_cluster import grouping, groups_of
from .gen_net import rng


def how(rnd, n, k, forms):
    form = rnd.choice(forms)
    gaps = rnd.random() < 0.3 and form in ("dict", "sets")
    names = rnd.sample(range(k + 3), k) if gaps else rnd.sample(range(k), k)
    return dict(form=form, names=names, order=rnd.sample(range(n), n), gaps=gaps, labels=rnd.choice(["", "", "large"]))


def pair(rnd, f, g):
    n = len(f)
    kf, kg = max(f) + 1, max(g) + 1
    sc = dict(kind="compare", f=f, g=g, nodes=rnd.choice(["", "", "shifted", "spread", "text"]))
    info = ["dict", "sets", "sets", "lists", "partition"]
    for m, forms in (("jac", ["dict", "sets", "lists"]), ("nmi", info), ("nvi", info)):
        sc[m + "How"] = [how(rnd, n, kf, forms), how(rnd, n, kg, forms)]
    for h in sc["jacHow"]:
        h["labels"] = rnd.choice(["", "large", "text"])
    return sc


def mutate(rnd, f):
    g = list(f)
    for _ in range(rnd.randint(0, 3)):
        x = rnd.random()
        if x < 0.5:
            g[rnd.randrange(len(g))] = rnd.choice(g)
        elif x < 0.75:                      # merge two clusters
            a, b = rnd.choice(g), rnd.choice(g)
            g = [a if c == b else c for c in g]
        else:
            g[rnd.randrange(len(g))] = max(g) + 1
    m = {}
    for x in g:
        m.setdefault(x, len(m))
    return [m[x] for x in g]


def random_pair(rnd, nmax):
    n = rnd.randint(1, nmax)
    x = rnd.random()
    f = list(range(n)) if x < 0.05 else [0] * n if x < 0.1 else grouping(rnd, n, rnd.randint(1, min(n, 8)))
    if rnd.random() < 0.6:
        g = mutate(rnd, f)
    else:
        g = grouping(rnd, n, rnd.randint(1, n))
    return f, g


def sort_scenario(rnd):
    n = rnd.randint(1, 14)
    f, g = random_pair(rnd, 14)
    if rnd.random() < 0.2:
        g = list(f)
    a = groups_of(f)
    b = groups_of(g)
    rnd.shuffle(a)
    rnd.shuffle(b)
    n = len(f)
    if rnd.random() < 0.25:                 # the model knows some of the nodes only, or others
        gone = set(rnd.sample(range(n), rnd.randint(0, n - 1)))
        b = [c for c in ([i for i in c if i not in gone] for c in b) if c]
        if rnd.random() < 0.3:
            b.append([100, 101])
    if not b:
        b = [[100]]
    thr = rnd.choice(["", "", 0.05, 0.1, 0.3, 0.5, 0.9, 1.0])
    return dict(kind="sort", clusters=a, model=b, thr=str(thr))


def compare_suites(ctx, n1, n2, n3):
    rnd = rng(ctx, "compare")
    inv = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Symmetric Ranges Identity NamesDoNotMatter NodesDoNotMatter Triangle\n"
    pairs = []
    for n in range(1, 6):
        res = ctx.model("MC_Compare", f"CONSTANTS N = {n}\n Triples = {'TRUE' if n <= (5 if ctx.thorough else 4) else 'FALSE'}\n EmitPairs = TRUE\n" + inv,
                        name=f"Compare: all clusterings of {n} nodes", timeout=800)
        ps = {ln for ln in res.lines("P")}
        pairs += [json.loads(tlc.unquote(x)) for x in sorted(ps)]
    ctx.suite("all_small_clusterings", "compare", "J_Compare", "VCompare",
              variants([pair(rnd, p["f"], p["g"]) for p in pairs], 8, ("extensions",)))
    ctx.suite("larger_clusterings", "compare", "J_Compare", "VCompare",
              [pair(rnd, *random_pair(rnd, 25)) for _ in range(n1)])
    sc = []
    for k in range(6 if not ctx.thorough else 20):
        n = rnd.randint(2, 5)
        f = grouping(rnd, n, rnd.randint(1, 2))
        g = mutate(rnd, f) if rnd.random() < 0.5 else grouping(rnd, n, rnd.randint(1, 3))
        if k == 0:      # more pairs of nodes than fit in 32 bits
            f, g = [0, 0, 1], [0, 0, 0]
        sc.append(dict(kind="many", f=f, g=g, copies=70000 if k == 0 else rnd.choice([300, 5000, 50000, 100000])))
    ctx.suite("clusterings_of_many_nodes", "compare", "J_Compare", "VMany", sc)
    sc = []
    for _ in range(n2):
        n = rnd.randint(2, 12)
        m = rnd.randint(2, 4)
        f = grouping(rnd, n)
        fs = [f] + [mutate(rnd, f) if rnd.random() < 0.6 else grouping(rnd, n) for _ in range(m - 1)]
        hows = [how(rnd, n, max(x) + 1, ["sets", "sets", "lists"]) for x in fs]
        for h in hows:
            h["gaps"] = False
            h["names"] = [sorted(h["names"]).index(x) for x in h["names"]]
        sc.append(dict(kind="average", list=fs, hows=hows, samples=rnd.choice([0, 1, 2, 3, 5, 10]), seed=rnd.randrange(2**31)))
    ctx.suite("averages", "compare", "J_Compare", "VAverage", sc)
    ctx.suite("reordering", "compare", "J_Compare", "VSort", [sort_scenario(rnd) for _ in range(n3)])
