"""Scenarios for computations split over processes."""
import numpy as np

from .enc import mat, r, vec
from .gen_cluster import describe, grouping, nprng, rand_T
from .gen_compare import mutate
from .gen_net import rng


def laplacian(rnd, n):
    g = nprng(rnd)
    comp = g.randint(0, rnd.randint(1, max(1, n // 2)), n)
    A = (g.rand(n, n) < rnd.choice([0.3, 0.6, 1.0])).astype(float)
    if rnd.random() < 0.6:
        A = A * (g.rand(n, n) + 0.1)
    if rnd.random() < 0.7:
        A = np.triu(A, 1)
        A = A + A.T
    A = A * (comp[:, None] == comp[None, :])
    np.fill_diagonal(A, 0)
    d = A.sum(1, keepdims=True)
    iso = d[:, 0] == 0
    d[d == 0] = 1
    W = A / d
    for i in np.nonzero(iso)[0]:
        W[i, i] = 1
    return np.eye(n) - W


def expm_scenario(rnd):
    n = rnd.randint(2, 9)
    L = laplacian(rnd, n)
    if not L.any():
        L[:2, :2] = [[1, -1], [-1, 1]]
    x = rnd.choice([0.05, 0.5, 1.0, 2.0, 5.0, rnd.uniform(0.01, 9)])
    calls = []
    for fct in ["columns", "components", "serial", "lapl"]:
        hasThr = fct != "lapl" and rnd.random() < 0.35
        calls.append(dict(fct=fct, nproc=1 if fct == "serial" else rnd.choice([1, 2, 2, 3, 4]), hasThr=hasThr,
                          thr=r(rnd.choice([7.3, 53.0, 1011.0, 1.0e6])), norm=fct == "lapl" or rnd.random() < 0.7,
                          csr=rnd.random() < 0.3, dense=rnd.random() < 0.5))
    return dict(kind="expm", A=mat(-x * L), calls=calls)


def stars_scenario(rnd, big):
    stars = []
    total = 0
    if big:
        # components of a thousand nodes, and of a few more or less
        stars = [{1: 999, 2: 1000, 3: 998}.get(big, rnd.randint(1000, 1040))]
        total = stars[0] + 1
    least = 1010 if big or rnd.random() < 0.5 else rnd.choice([999, 1000, 1001])
    while total < least or len(stars) < 4:
        m = rnd.choice([1, 2, 3, 5, 20, 60])
        if least < 1010 and least - total < 70:
            m = least - total - 1
        stars.append(max(m, 1))
        total += stars[-1] + 1
    fct = "components" if big else rnd.choice(["lapl", "lapl", "components", "serial"])
    return dict(kind="stars", stars=stars, x=r(rnd.choice([0.1, 0.7, 1.0, 3.0])), fct=fct, seed=rnd.randrange(2**31),
                nproc=rnd.choice([2, 4]), hasThr=rnd.random() < 0.35, thr=r(rnd.choice([3.7, 53.0, 1011.0])),
                norm=rnd.random() < 0.7)


def starnet_scenario(rnd):
    sc = stars_scenario(rnd, 0)
    k = len(sc["stars"])
    every = list(range(1, k + 1))
    parts = []
    for i in range(rnd.randint(1, 3)):
        # a part with more than a thousand nodes in contact, and others
        some = every if i == 0 else sorted(rnd.sample(every, rnd.randint(1, k)))
        parts.append(dict(stars=some, dt=r(rnd.choice([0.5, 1.0, 2.0, 4.0]))))
    rnd.shuffle(parts)
    return dict(kind="starnet", stars=sc["stars"], parts=parts, lamda=r(rnd.choice([0.1, 0.5, 1.0])), seed=sc["seed"],
                sparse=rnd.random() < 0.5, dense=rnd.random() < 0.25)


def serial_suites(ctx, n1, n2, n3):
    """The exponential where it is computed component by component, without
    other processes."""
    rnd = rng(ctx, "serialexpm")
    ctx.model("MC_StarWalk", "CONSTANT MaxLeaves = 6\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
              "INVARIANTS ClosedForm Probabilities Compose\n", name="StarWalk: closed form of the exponential")
    ex = []
    for _ in range(n1):
        s = expm_scenario(rnd)
        s["calls"] = [c for c in s["calls"] if c["fct"] in ("serial", "lapl")]
        for c in s["calls"]:
            c["nproc"] = 1
        ex.append(s)
    ctx.suite("exponential_by_components", "parallel", "J_Parallel", "VExpm", ex)
    st = []
    for _ in range(n2):
        s = stars_scenario(rnd, 0)
        s.update(fct=rnd.choice(["lapl", "serial"]), nproc=1)
        st.append(s)
    # a thousand nodes in one component
    st.insert(0, dict(st[0], stars=[999], fct="lapl", nproc=1, hasThr=False, norm=True))
    ctx.suite("exponential_of_large_networks", "parallel", "J_Parallel", "VStars", st, nproc=5)
    ctx.suite("histories_of_large_networks", "parallel", "J_Parallel", "VStarNet", [starnet_scenario(rnd) for _ in range(n3)], nproc=5)


def nvi_scenario(rnd):
    n = rnd.randint(2, 12)
    m = rnd.randint(2, 6)
    fs = sorted((grouping(rnd, n) for _ in range(m)), key=lambda f: -max(f))
    if rnd.random() < 0.3:
        fs = [mutate(rnd, fs[0]) for _ in range(m)]
    copies = rnd.choice([1, 1, 400, 2000, 20000])
    return dict(kind="nvi", list=fs, copies=copies, nproc=rnd.choice([1, 2, 3, 4]),
                samples=rnd.choice([0, 0, 0, 1, 3, 100]))


def repeat_scenario(rnd):
    cls = rnd.choice(["dense", "sparse"])
    n = rnd.randint(2, 12)
    sc = describe(rnd, n, ["T", "T", "S"] if cls == "dense" else ["T", "T", "fwd"])
    sc.pop("_M"), sc.pop("_kind")
    if sc["form"] == "fwd":
        sc.update(hasP2=False, p2=[])
    sc.update(kind="repeat", cls=cls, hasThr=False, thr=r(0.0), repeat=rnd.randint(1, 5), nproc=rnd.choice([1, 2, 3]),
              how=rnd.choice(["parallel", "parallel", "serial"]), limits=[])
    if rnd.random() < 0.35:     # stopped early
        sc["limits"] = [rnd.choice([0, 1, 1000]), rnd.choice([2, 3, 1000])]
    return sc


def parallel_suites(ctx, n1, n2, n3, n4, n5):
    rnd = rng(ctx, "parallel")
    for t, w, c in ((5, 3, 1), (6, 3, 2)) if not ctx.thorough else ((7, 4, 1), (9, 3, 2), (8, 4, 3)):
        ctx.model("WorkPool", f"CONSTANTS Tasks = {t}\n Workers = {w}\n Chunk = {c}\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                  "INVARIANTS SerialResult OneWorkerPerTask InputThereWhileNeeded\nPROPERTY Finishes\n",
                  name=f"WorkPool: {t} tasks in chunks of {c}, {w} workers", timeout=800)
    ctx.model("MC_StarWalk", "CONSTANT MaxLeaves = 6\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
              "INVARIANTS ClosedForm Probabilities Compose\n", name="StarWalk: closed form of the exponential")
    ctx.suite("exponentials", "parallel", "J_Parallel", "VExpm", [expm_scenario(rnd) for _ in range(n1)], nproc=6)
    ctx.suite("large_networks", "parallel", "J_Parallel", "VStars",
              [stars_scenario(rnd, k + 1 if k < n3 else 0) for k in range(n2)], nproc=4)
    ctx.suite("comparisons", "parallel", "J_Parallel", "VNvi", [nvi_scenario(rnd) for _ in range(n4)], nproc=5)
    ctx.suite("repetitions", "parallel", "J_Parallel", "VRepeat", [repeat_scenario(rnd) for _ in range(n5)], nproc=5)
