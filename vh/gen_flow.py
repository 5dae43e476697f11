"""Scenarios for flow integrals."""
from .runner import variants
from .enc import mat, r, vec
from .gen_cluster import grouping, groups_of, rand_T, rand_p
from .gen_net import rng


def flow_scenario(rnd, nmax=7, kmax=7, kmin=1):
    n = rnd.randint(2, nmax)
    K = rnd.randint(kmin, kmax)
    kinds = ["dense", "blocks", "sparse", "graph", "graph", "ints"]
    kind = rnd.choice(kinds)
    steps = []
    import numpy as np
    for _ in range(K):
        x = rnd.random()
        if x < 0.1:
            M = np.eye(n)
        elif x < 0.55 and n > 2:        # only some of the nodes move
            m = rnd.randint(2, n)
            ix = sorted(rnd.sample(range(n), m))
            M = np.eye(n)
            M[np.ix_(ix, ix)] = rand_T(rnd, m, kind)
        else:
            M = rand_T(rnd, n, kind)
        if rnd.random() < 0.5:
            a = rnd.uniform(0.1, 0.9)
            M = a * M + (1 - a) * np.eye(n)
        steps.append(M)
    tiny = False
    if rnd.random() < 0.15:     # some nodes are hard to reach
        tiny = True
        i = rnd.randrange(n)
        e = 10.0 ** -rnd.randint(4, 9)
        for M in steps:
            for j in range(n):
                if j != i:
                    M[j, i] *= e
                    M[j, j] += 1 - M[j].sum()
    form = rnd.choice(["dense", "csr", "stoch"])
    given = rnd.choice(["inter", "inter", "cum"])
    if given == "cum":
        out = [steps[0]]
        for M in steps[1:]:
            out.append(out[-1] @ M)
        steps = out
    intTimes = rnd.random() < 0.4
    t = rnd.choice([0.0, 5.0, -3.0, 1000.0])
    times = [t]
    for _ in range(K):
        t += rnd.randint(1, 6) if intTimes else rnd.choice([0.25, 0.5, 1.0, 2.5, 20.0])
        times.append(t)
    hasTimes = rnd.random() < 0.8
    if not hasTimes:
        times = [float(k) for k in range(K + 1)]
    hasGrid = rnd.random() < 0.65
    grid = []
    if hasGrid:
        for _ in range(rnd.randint(1, 5)):
            y = rnd.random()
            if y < 0.55:
                grid.append(rnd.choice(times))
            elif y < 0.9:
                k = rnd.randrange(K)
                grid.append(times[k] + rnd.uniform(0.1, 0.9) * (times[k + 1] - times[k]))
            elif y < 0.95:
                grid.append(times[0] - 1.5)
            else:
                grid.append(times[-1] + 1.5)
        if rnd.random() < 0.75:
            grid.sort(reverse=rnd.random() < 0.3)
    hasP1 = rnd.random() < 0.5
    p1 = rand_p(rnd, n, rnd.random() < 0.25)
    if rnd.random() < 0.35:     # almost (or exactly) uniform
        e = rnd.choice([0, 1e-4, 1e-3, 1e-2])
        p1 = np.array([1 + e * rnd.uniform(-1, 1) for _ in range(n)])
        p1 = p1 / p1.sum()
    if rnd.random() < 0.25:     # nodes where almost nobody starts
        tiny = True
        e = 10.0 ** -rnd.randint(4, 9)
        p1 = np.array([rnd.uniform(0.5, 2) * (e if rnd.random() < 0.5 else 1) for _ in range(n)])
        p1 = p1 / p1.sum()
    sc = dict(kind="integral", n=n, steps=[mat(M) for M in steps], form=form, given=given,
              reverse=rnd.random() < 0.45, omitReverse=rnd.random() < 0.5, hasP1=hasP1,
              p1=vec(p1) if hasP1 else [],
              hasTimes=hasTimes, times=[r(x) for x in times] if hasTimes else [], intTimes=intTimes,
              timesAs=rnd.choice(["list", "array"]), hasGrid=hasGrid, grid=[r(x) for x in grid],
              gridAs=rnd.choice(["list", "array"]), digits=11 if form == "dense" else 7)
    # entries this small, relative to the largest, may be left out of sparse integrals
    sc["rtol"] = rnd.choice(["", "", "", "0", "1e-12"])
    if tiny and form != "dense":
        sc["rtol"] = "0"
    if sc["rtol"]:
        sc["digits"] = 10
    sc["loud"] = rnd.choice([0, 0, 0, 1, 10])
    qs = []
    for k in sorted({0, rnd.randrange(0, 4)}):
        st = groups_of(grouping(rnd, n)) if rnd.random() < 0.3 else []
        qs.append(dict(k=k, seed=rnd.randrange(2**30), start=[list(x) for x in st], omitK=rnd.random() < 0.5,
                       **{"as": rnd.choice(["list", "dict"])}))
    if rnd.random() < 0.5:
        qs.reverse()
    sc["clusterings"] = qs
    return sc


def flow_suites(ctx, n1, n2):
    rnd = rng(ctx, "flow")
    ctx.model("MC_FlowIntegral", f"CONSTANT MaxLen = {4 if ctx.thorough else 3}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
              "INVARIANTS AccumulatesTheMeaning Symmetric RowsCancel NonNegativeDiagonal DurationsOnlyWeigh GridMirrors\n",
              name="FlowIntegral: all short journeys", timeout=800)
    ctx.suite("flow_integrals", "flow", "J_Flow", "VIntegral", variants([flow_scenario(rnd) for _ in range(n1)], 8))
    ctx.suite("flow_integrals_larger", "flow", "J_Flow", "VIntegral", [flow_scenario(rnd, 14, 12) for _ in range(n2)])
    ctx.suite("flow_integrals_of_long_histories", "flow", "J_Flow", "VIntegral",
              [flow_scenario(rnd, 3, 1100, 1001) for _ in range(12 if ctx.thorough else 5)])
