"""Scenarios for static networks."""
import numpy as np

from .runner import variants
from .enc import mat, r
from .gen_cluster import nprng
from .gen_net import rng


def strongly_connected(A):
    n = len(A)
    R = (A > 0) | np.eye(n, dtype=bool)
    for _ in range(n):
        R = (R.astype(int) @ R.astype(int)) > 0
    return R.all()


def network(rnd, n, directed):
    g = nprng(rnd)
    while True:
        A = (g.rand(n, n) < rnd.choice([0.25, 0.5, 0.8])).astype(float)
        w = rnd.random()
        if w < 0.35:
            A = A * g.randint(1, 4, (n, n))
        elif w < 0.6:
            A = A * (g.rand(n, n) + 0.05)
        elif w < 0.75:
            # nodes that interact much less, and other units
            k = 10.0 ** g.randint(-4, 1, n)
            A = A * np.outer(k, k) * 10.0 ** rnd.randint(-6, 6)
        if rnd.random() < 0.7:
            np.fill_diagonal(A, 0)
        if n > 3 and rnd.random() < 0.25:
            # two halves: only links between them, or nearly none
            h = rnd.randint(1, n - 1)
            side = np.arange(n) < h
            cross = side[:, None] != side[None, :]
            if rnd.random() < 0.5:
                A[~cross] = 0
            else:
                A[cross] *= 10.0 ** -rnd.randint(2, 5)
        if not directed:
            A = np.triu(A)
            A = A + np.triu(A, 1).T
            if n > 2 and rnd.random() < 0.3:
                i = rnd.randrange(n)
                A[i, :] = 0
                A[:, i] = 0
            if A.sum() > 0:
                return A
        else:
            ring = np.roll(np.eye(n), 1, axis=1)
            A = np.where((A == 0) & (ring > 0) & (g.rand(n, n) < 0.97), ring, A)
            if strongly_connected(A):
                return A


def static_scenario(rnd, nmin=2, nmax=8):
    form = rnd.choice(["dense", "csr"])
    directed = rnd.random() < 0.4
    n = rnd.randint(max(nmin, 3 if directed else 2), nmax)
    A = network(rnd, n, directed)
    mode = rnd.choice(["exp", "exp", "discrete", "linear"])
    tint = rnd.random() < 0.3
    omitT = rnd.random() < 0.1
    tn = 1 if omitT else rnd.choice([0, 1, 1, 2, 3, 4, 5, rnd.randint(6, 12), rnd.choice([49, 99, 101, 128, 333, 1001])])
    t = tn if mode == "discrete" or tint or omitT else rnd.choice([0.0, 0.1, 0.5, 1.5, 3.0, 7.0, 25.0, rnd.choice([60.0, 101.0, 400.0, 1500.0]), rnd.uniform(0.05, 4)])
    if mode == "linear" and t > 8:
        t = tn = 1
    sc = dict(kind="static", A=mat(A), form=form, directed=directed, mode=mode, tint=tint, omitT=omitT, t=r(t), tn=tn, npint=rnd.random() < 0.3,
              ints=bool((A == A.astype(int)).all() and rnd.random() < 0.4 and form == "dense"), seed=rnd.randrange(2**31))
    return sc


def static_suites(ctx, n1, n2):
    rnd = rng(ctx, "static")
    inv = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nINVARIANTS Stationary Stochastics Reversible Composes Agree\n"
    ctx.model("MC_StaticWalk", f"CONSTANTS N = 3\n MaxW = {2 if ctx.thorough else 2}\n Und = TRUE\n" + inv,
              name="StaticWalk: undirected networks of 3 nodes, weights up to 2", timeout=800)
    ctx.model("MC_StaticWalk", f"CONSTANTS N = {3 if ctx.thorough else 2}\n MaxW = {1 if ctx.thorough else 2}\n Und = FALSE\n" + inv,
              name="StaticWalk: directed networks", timeout=800)
    if ctx.thorough:
        ctx.model("MC_StaticWalk", "CONSTANTS N = 4\n MaxW = 1\n Und = TRUE\n" + inv,
                  name="StaticWalk: undirected networks of 4 nodes", timeout=800)
    ctx.suite("static_networks", "static", "J_Static", "VStaticWalk",
              variants([static_scenario(rnd) for _ in range(n1)], 10))
    ctx.suite("larger_static_networks", "static", "J_Static", "VStaticWalk",
              [static_scenario(rnd, nmin=9, nmax=24) for _ in range(n1 // 10)])
    sc = []
    for _ in range(n2):
        n = rnd.randint(2, 5)
        form = rnd.choice(["csc", "matrix", "list", "csr", "dense"])
        A = np.zeros((n, n)) if form in ("csr", "dense") else network(rnd, n, False)
        sc.append(dict(kind="refused", A=mat(A), form=form, expect="ValueError" if form in ("csr", "dense") else "TypeError"))
    ctx.suite("refused_inputs", "static", "J_Static", "VRefused", sc)
