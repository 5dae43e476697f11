"""Scenarios for autocovariances, partitions and Louvain."""
import json

import numpy as np

from .runner import variants
from . import tlc
from .enc import mat, r, vec
from .gen_net import rng


def nprng(rnd):
    return np.random.RandomState(rnd.randrange(2**31))


def rand_T(rnd, n, kind):
    """A transition matrix (rows sum to one, or to zero where asked for)."""
    g = nprng(rnd)
    if kind == "dense":
        T = g.rand(n, n) + 0.01
    elif kind == "blocks":
        b = g.randint(0, max(1, min(3, n)), n)
        T = g.rand(n, n) * (0.05 + 0.95 * (b[:, None] == b[None, :]))
    elif kind == "sparse":
        T = g.rand(n, n) * (g.rand(n, n) < rnd.choice([0.25, 0.5]))
    elif kind == "graph":           # undirected, unweighted
        T = np.triu(g.rand(n, n) < 0.5, 1).astype(float)
        T = T + T.T
    else:                           # ints
        T = g.randint(0, 3, (n, n)).astype(float)
    for i in range(n):
        if T[i].sum() == 0 and kind != "zerorows":
            T[i, i] = 1.0
    s = T.sum(1, keepdims=True)
    s[s == 0] = 1
    return T / s


def rand_p(rnd, n, zeros=False):
    g = nprng(rnd)
    p = g.rand(n) + 0.05
    if zeros:
        p = p * (g.rand(n) < 0.6)
        if p.sum() == 0:
            p[0] = 1
    return p / p.sum()


def idx(rnd, n, lo=0, hi=None):
    k = rnd.randint(lo, n if hi is None else min(n, hi))
    return rnd.sample(range(n), k)


def grouping(rnd, n, k=None):
    k = k or rnd.randint(1, n)
    f = [rnd.randrange(k) for _ in range(n)]
    m = {}
    for x in f:
        m.setdefault(x, len(m))
    return [m[x] for x in f]


def groups_of(f):
    return [[i for i, c in enumerate(f) if c == x] for x in range(max(f) + 1)]


def describe(rnd, n, forms):
    """form and matrix of an autocovariance"""
    form = rnd.choice(forms)
    kind = rnd.choice(["dense", "blocks", "sparse", "sparse", "graph", "ints"])
    sc = dict(form=form, n=n, hasP1=False, hasP2=False, p1=[], p2=[])
    if form in ("PT", "PTs"):
        g = nprng(rnd)
        M = rand_T(rnd, n, kind) / n
        if rnd.random() < 0.4:
            M = M * np.where(g.rand(n, n) < 0.3, -1, 1)
        sc["sym"] = rnd.random() < 0.4
        if sc["sym"]:
            M = (M + M.T) / 2
        if form == "PT":
            sc.update(hasP1=True, hasP2=True, p1=vec(rand_p(rnd, n, rnd.random() < 0.2)), p2=vec(rand_p(rnd, n)))
    elif form == "S":
        M = nprng(rnd).randn(n, n) / n
        kind = "dense"
    else:
        M = rand_T(rnd, n, kind)
        if rnd.random() < 0.6:
            sc.update(hasP1=True, p1=vec(rand_p(rnd, n, rnd.random() < 0.25)))
        if rnd.random() < 0.3:
            sc.update(hasP2=True, p2=vec(rand_p(rnd, n, form == "fwd" and rnd.random() < 0.2)))
    sc["M"] = mat(M)
    sc["_M"], sc["_kind"] = M, kind
    return sc


def autocov_scenario(rnd):
    n = rnd.randint(1, 8)
    sc = describe(rnd, n, ["PT", "PTs"] + (["T", "fwd", "fwd"] if n > 1 else []))
    sc["kind"] = "autocov"
    dense = bool((sc.pop("_M") > 0).all())
    sc.pop("_kind")
    m = n
    qs = [dict(q="full")]
    agged = False
    for _ in range(rnd.randint(3, 9)):
        q = rnd.choice(["sub", "sub", "elem", "row", "col", "to", "to", "out", "out", "agg", "copy", "zero"])
        if q == "agg" and (m == 1 or agged and rnd.random() < 0.5):
            q = "full"
        d = dict(q=q)
        if q == "sub":
            d.update(rows=idx(rnd, m, 1), cols=idx(rnd, m, 1))
        elif q == "elem":
            d.update(i=rnd.randrange(m), j=rnd.randrange(m))
        elif q == "row":
            d.update(i=rnd.randrange(m), cols=idx(rnd, m, 1))
        elif q == "col":
            d.update(i=rnd.randrange(m), rows=idx(rnd, m, 1))
        elif q == "to":
            k = rnd.randrange(m)
            d.update(i=k, rows=[x for x in idx(rnd, m, 0) if x != k])
        elif q == "out":
            k = rnd.randrange(m)
            rows = [x for x in idx(rnd, m, 0) if x != k] + [k]
            rnd.shuffle(rows)
            d.update(i=k, rows=rows)
        elif q == "agg":
            gs = groups_of(grouping(rnd, m))
            d["groups"] = gs
            m = len(gs)
            agged = True
        elif q == "zero":
            d["fullsupport"] = dense
        qs.append(d)
    sc["queries"] = qs
    return sc


def zero_scenario(rnd):
    """An autocovariance without structure: all entries vanish."""
    n = rnd.randint(2, 6)
    p = rand_p(rnd, n) if rnd.random() < 0.5 else np.full(n, 1 / n)
    T = np.tile(p, (n, 1))
    return dict(kind="autocov", form="T", n=n, hasP1=True, hasP2=True, p1=vec(p), p2=vec(p), M=mat(T),
                queries=[dict(q="full"), dict(q="zero", fullsupport=True)])


def moves_scenario(rnd):
    n = rnd.randint(2, 8)
    cls = rnd.choice(["dense", "sparse"])
    sc = describe(rnd, n, ["T", "T", "S"] if cls == "dense" else ["T", "PT", "PTs", "fwd"])
    sc.pop("_M")
    sc.pop("_kind")
    sc.update(kind="moves", cls=cls, hasThr=cls == "dense" and rnd.random() < 0.25, thr=r(rnd.choice([0.01, 0.05])))
    st = grouping(rnd, n)
    sc["startAs"] = rnd.choice(["list", "dict", "none"])
    if sc["startAs"] == "none":
        st = list(range(n))
    sc["start"] = st
    k = max(st) + 1
    sc["moves"] = [dict(i=rnd.randrange(n), c=rnd.randrange(k)) for _ in range(rnd.randint(1, 7))]
    return sc


def bi_scenario(rnd):
    n = rnd.randint(2, 6)
    sc = describe(rnd, n, ["T"])
    sc.pop("_M")
    sc.pop("_kind")
    st, tt = grouping(rnd, n, 4), grouping(rnd, n, 4)
    sc.update(kind="bi", cls="dense", hasThr=rnd.random() < 0.2, thr=r(0.02), start=st, tstart=tt, k=rnd.randrange(n))
    sc["cs"], sc["ct"] = rnd.randrange(max(st) + 1), rnd.randrange(max(tt) + 1)
    return sc


def quality_suites(ctx, na, nm, nb):
    rnd = rng(ctx, "quality")
    ctx.model("MC_Quality", "CONSTANTS N = 3\n Pos = 1\n Zero = FALSE\n AllG = %s\nINIT Init\nNEXT Next\n"
              "CHECK_DEADLOCK FALSE\nINVARIANTS IncrementsExact AggregationExact BiMoves TotalKept\n"
              % ("TRUE" if ctx.thorough else "FALSE"), timeout=850,
              name="Quality: increments and aggregation on all 3x3 matrices with entries -1, 1")
    ctx.suite("autocovariances", "cluster", "J_Cluster", "VAutocov",
              variants([autocov_scenario(rnd) if k % 12 else zero_scenario(rnd) for k in range(na)], 6))
    ctx.suite("quality_of_moves", "cluster", "J_Cluster", "VMoves",
              variants([moves_scenario(rnd) for _ in range(nm)], 6, ("extensions",)))
    ctx.suite("source_and_target_partitions", "cluster", "J_Cluster", "VBi",
              variants([bi_scenario(rnd) for _ in range(nb)], 8, ("extensions",)))


# ---- partitions ----
def partition_graph(ctx, n):
    res = ctx.model("MC_Partition", f"CONSTANTS N = {n}\n EmitEdges = TRUE\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
                    "INVARIANTS InRange EveryNodeOnce CleanKeeps\n", name=f"Partition of {n} nodes, all edits")
    edges = {}
    for ln in res.lines("E"):
        e = json.loads(tlc.unquote(ln))
        edges.setdefault(json.dumps(e["f"]), {})[json.dumps(e["o"])] = json.dumps(e["t"])
    return edges


def compact(f, k):
    return set(f) == set(range(k))


def partition_walks(ctx, n, number, length, rnd):
    edges = partition_graph(ctx, n)
    states = [json.loads(s) for s in edges]
    starts = [s for s in states if compact(s["f"], s["k"])]
    covered = set()
    out = []
    for x in range(number):
        s0 = starts[x % len(starts)]
        s = json.dumps(s0)
        ops = []
        for _ in range(length):
            opts = list(edges[s].items())
            w = [(8.0 if (s, o) not in covered else 1.0) * (1.5 if "clean" in o else 1.0) for o, _ in opts]
            k = rnd.choices(range(len(opts)), w)[0]
            covered.add((s, opts[k][0]))
            ops.append(json.loads(opts[k][0]))
            s = opts[k][1]
        f = s0["f"]
        how = rnd.choice(["dict", "list", "list", "gapdict"])
        sc = dict(kind="part", n=n, start=f, how=how, ops=ops)
        if how in ("dict", "gapdict"):
            # clusters are numbered by the dictionary's values
            sc["order"] = rnd.sample(range(n), n)
            k = max(f) + 1
            sc["gaps"] = sorted(rnd.sample(range(2 * k + 1), k))
        else:
            sc["empties"] = [rnd.randrange(n + 1) for _ in range(rnd.choice([0, 0, 1, 2]))]
            sc["check"] = rnd.random() < 0.5
        if f == list(range(n)) and rnd.random() < 0.5:
            sc["how"] = "default"
        out.append(sc)
    total = sum(len(v) for v in edges.values())
    ctx.assumptions.append(f"partition walks of {n} nodes take {len(covered)} of {total} edges of the state graph")
    return out


def big_partition(rnd, huge=False):
    n = rnd.randint(5, 40)
    f = grouping(rnd, n, rnd.randint(1, n))
    if huge:
        n = rnd.randint(257, 700)
        f = grouping(rnd, n, rnd.choice([2, 3, 5]))
    k = max(f) + 1
    ops = []
    used, cur = k, list(f)
    for _ in range(rnd.randint(1, 3 if huge else 25)):
        if rnd.random() < 0.15:
            ops.append(dict(op="clean"))
            m = {c: x for x, c in enumerate(sorted(set(cur)))}
            cur = [m[c] for c in cur]
            used = len(m)
        else:
            i, c = rnd.randrange(n), rnd.randrange(used)
            ops.append(dict(op="move", i=i, c=c))
            cur[i] = c
    return dict(kind="part", n=n, start=f, how="list", ops=ops, empties=[], check=True)


def many_groups(rnd):
    n = rnd.randint(257, 320)
    f = grouping(rnd, n, rnd.choice([n, 3 * n]))
    return dict(kind="part", n=n, start=f, how="list", ops=[], empties=[], check=True)


def integrity_scenario(rnd):
    n = rnd.randint(1, 5)
    lists = groups_of(grouping(rnd, n))
    for _ in range(rnd.choice([0, 0, 1, 2])):
        u = rnd.random()
        if u < 0.4:         # a node in another group, too
            lists[rnd.randrange(len(lists))].append(rnd.randrange(n))
        elif u < 0.7:       # a node is missing
            g = lists[rnd.randrange(len(lists))]
            if g:
                g.pop()
        elif u < 0.85:
            lists[rnd.randrange(len(lists))].append(n + rnd.randrange(2))
        else:
            lists.insert(rnd.randrange(len(lists) + 1), [])
    return dict(kind="integrity", n=n, lists=[sorted(set(x)) for x in lists])


def partition_suites(ctx, nw, nb, ni):
    rnd = rng(ctx, "partition")
    sc = partition_walks(ctx, 3, nw, 12, rnd) + partition_walks(ctx, 4, 2 * nw, 15, rnd)
    ctx.suite("partition_edits", "cluster", "J_Cluster", "VPart", sc + [big_partition(rnd) for _ in range(nb)])
    ctx.suite("large_partitions", "cluster", "J_Cluster", "VPart",
              [big_partition(rnd, True) for _ in range(nb // 25)] + [many_groups(rnd) for _ in range(nb // 75)])
    ctx.suite("partition_integrity", "cluster", "J_Cluster", "VIntegrity", [integrity_scenario(rnd) for _ in range(ni)])


# ---- Louvain ----
def louvain_scenario(rnd, nmax=14):
    cls = rnd.choice(["dense", "sparse"])
    n = rnd.randint(2, nmax)
    if rnd.random() < 0.01:
        n, cls = 1, "dense"
    sc = describe(rnd, n, ["T", "T", "T", "S"] + (["fwd"] if n > 1 else []) if cls == "dense" else ["T", "T", "fwd", "fwd"])
    M, kind = sc.pop("_M"), sc.pop("_kind")
    form = sc["form"]
    if form == "fwd":       # only then it is an autocovariance
        sc.update(hasP2=False, p2=[])
    sc.update(kind="louvain", cls=cls, hasThr=cls == "dense" and rnd.random() < 0.1, thr=r(0.01))
    # without structure for sure, or with enough of it
    if form == "T" and rnd.random() < 0.06:
        p = rand_p(rnd, n)
        M = np.tile(p, (n, 1))
        sc.update(M=mat(M), hasP1=True, hasP2=True, p1=vec(p), p2=vec(p))
        kind = "none"
    if form == "T" and cls == "dense" and n > 2 and rnd.random() < 0.12:
        M = rand_T(rnd, n, "sparse")
        M[rnd.sample(range(n), rnd.randint(1, n // 2))] = 0
        if M.sum() == 0:
            M[0, 1] = 1
        sc["M"] = mat(M)
        kind = "zerorows"
    if cls == "dense" and form != "T":
        link = np.ones((n, n))
    elif form == "fwd":
        link = M @ M.T
    else:
        link = M
    sc["link"] = mat(link)
    sc["fullsupport"] = bool((link > 0).all())
    zeros = sc["hasP1"] and any(x == [0, 0] for x in sc["p1"])
    sc["generic"] = bool(kind in ("dense", "blocks", "sparse") and not zeros and not sc["hasThr"]
                         and (kind != "sparse" or (np.count_nonzero(M, axis=1) > 1).all()))
    st = list(range(n))
    sc["startAs"] = rnd.choice(["none", "none", "list", "dict"])
    if sc["startAs"] != "none" and rnd.random() < 0.85:
        st = grouping(rnd, n)
    sc["start"] = st
    sc["seed"] = rnd.choice([0, 0, 1, 2**31 - 1] + [rnd.randrange(2**31)] * 8)
    sc["seedAt"] = rnd.choice(["init", "call"])
    return sc


def nested_scenario(rnd):
    """groups in groups in groups: many levels"""
    cls = rnd.choice(["dense", "sparse"])
    sc = louvain_scenario(rnd, 4)
    g = nprng(rnd)
    depth = rnd.randint(4, 6)
    n = 2 ** depth
    q = rnd.uniform(1.8, 3.2)
    M = np.array([[q ** -((i ^ j).bit_length()) for j in range(n)] for i in range(n)]) * (1 + 0.02 * g.rand(n, n))
    M = (M + M.T) / 2
    perm = g.permutation(n)
    M = M[np.ix_(perm, perm)]
    form = rnd.choice(["T", "S"]) if cls == "dense" else "T"
    M = M / n if form == "S" else M / M.sum(1)[:, None]
    sc.update(cls=cls, n=n, form=form, M=mat(M), link=mat(M), hasP1=False, p1=[], hasP2=False, p2=[], hasThr=False,
              fullsupport=True, generic=True, startAs="none", start=list(range(n)))
    return sc


def louvain_suites(ctx, n1, n2):
    rnd = rng(ctx, "louvain")
    inv = "INVARIANTS QualityBooked NeverWorse Coarsens NoMergeGains FirstLevelOptimal Bounded\n"
    ctx.model("Louvain", "CONSTANTS N = 3\n Neg = 3\n Hi = 2\n MaxStart = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
              + inv + "PROPERTIES Monotone Terminates\n", name="Louvain on all 3-node problems with entries -3..2")
    if ctx.thorough:
        ctx.model("Louvain", "CONSTANTS N = 4\n Neg = 1\n Hi = 1\n MaxStart = 2\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
                  + inv + "PROPERTIES Monotone\n", name="Louvain on all 4-node problems with entries -1..1", timeout=850)
    ctx.suite("louvain_results", "cluster", "J_Cluster", "VLouvain",
              variants([louvain_scenario(rnd) for _ in range(n1)], 8, ("extensions",)))
    ctx.suite("louvain_results_larger", "cluster", "J_Cluster", "VLouvain", [louvain_scenario(rnd, 45) for _ in range(n2)])
    ctx.suite("louvain_levels", "cluster", "J_Cluster", "VLouvain", [nested_scenario(rnd) for _ in range(n2 // 4)])
