"""Computations split over processes (see spec/J_Parallel.tla)."""
import numpy as np
from scipy.sparse import csc_matrix, csr_matrix, lil_matrix

from flowstab import parallel_expm as pe
from flowstab import temporal_network as tn
from flowstab.network_clustering import Clustering, SparseClustering, run_multi_louvain
from flowstab.parallel_clustering import compute_parallel_clustering, compute_parallel_nvi

from ..enc import mat, r, unmat, unr, vec
from . import cluster
from .cluster import _lists
from .net import _try


def _full(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def observe_expm(sc):
    A = unmat(sc["A"])
    obs = []
    for c in sc["calls"]:
        def one(c=c):
            M = csc_matrix(A)
            kw = dict(normalize_rows=c["norm"])
            if c["hasThr"]:
                kw["thresh_ratio"] = unr(c["thr"])
            if c["fct"] == "columns":
                T = pe.compute_parallel_expm(csr_matrix(A) if c["csr"] else M, nproc=c["nproc"], verbose=False, **kw)
            elif c["fct"] == "components":
                T = pe.compute_subspace_expm_parallel(M, nproc=c["nproc"], **kw)
            elif c["fct"] == "serial":
                T = tn.compute_subspace_expm(M, **kw)
            else:
                T = tn.sparse_lapl_expm(csc_matrix(-A), 1.0, dense_expm=c["dense"], nproc=c["nproc"])
            return dict(T=mat(_full(T)), kept=bool(np.array_equal(M.toarray(), A)))
        obs.append(_try(one))
    return dict(obs=obs)


def _stars(sc):
    """A network of many stars (more than a thousand nodes); the nodes of a star
    are anywhere in the network."""
    n = sum(m + 1 for m in sc["stars"])
    perm = np.random.RandomState(sc["seed"]).permutation(n)
    hubs = []
    k = 0
    for m in sc["stars"]:
        hubs.append((perm[k], perm[k + 1:k + m + 1]))
        k += m + 1
    return n, hubs


def _probes(T, n, hubs):
    T = _full(T)
    probes = []
    for h, leaves in hubs:
        own = np.concatenate([[h], leaves])
        other = np.setdiff1d(np.arange(n), own)
        a, b = leaves[0], leaves[-1]
        probes.append(dict(hh=r(T[h, h]), hl=r(T[h, b]), lh=r(T[a, h]), ll=r(T[b, b]), lk=r(T[a, b]),
                           inside=r(T[np.ix_(own, own)].sum()), outside=r(np.abs(T[np.ix_(own, other)]).sum())))
    return probes


def observe_stars(sc):
    n, hubs = _stars(sc)
    L = lil_matrix((n, n))
    for h, leaves in hubs:
        m = len(leaves)
        L[h, h] = 1
        for x in leaves:
            L[h, x] = -1.0 / m
            L[x, h] = -1.0
            L[x, x] = 1.0
    L = L.tocsc()
    x = unr(sc["x"])
    kw = {}
    if sc["hasThr"]:
        kw["thresh_ratio"] = unr(sc["thr"])
    if not sc["norm"]:
        kw["normalize_rows"] = False
    if sc["fct"] != "serial" and sc["nproc"] > 1:
        kw["nproc"] = sc["nproc"]
    if sc["fct"] == "lapl":
        T = tn.sparse_lapl_expm(L, x, dense_expm=False, **kw)
    elif sc["fct"] == "components":
        T = pe.compute_subspace_expm_parallel(-x * L, **kw)
    else:
        T = tn.compute_subspace_expm(-x * L, **kw)
    return dict(probes=_probes(T, n, hubs))


def observe_starnet(sc):
    """The same from a history of contacts: in interval k the stars of part k
    meet, the others rest; rows of probes per interval."""
    n, hubs = _stars(sc)
    s, t, a, b = [], [], [], []
    t0 = 0.0
    rs = np.random.RandomState(sc["seed"] + 1)
    for part in sc["parts"]:
        dt = unr(part["dt"])
        for k in part["stars"]:
            h, leaves = hubs[k - 1]
            for x in leaves:
                u, v = (h, x) if rs.rand() < 0.5 else (x, h)
                s.append(int(u)), t.append(int(v)), a.append(t0), b.append(t0 + dt)
        t0 += dt
    net = tn.ContTempNetwork(source_nodes=s, target_nodes=t, starting_times=a, ending_times=b, relabel_nodes=False,
                             node_to_label_dict={i: i for i in range(n)})
    net.compute_laplacian_matrices()
    kw = dict(lamda=unr(sc["lamda"]))
    if sc["sparse"]:
        kw["use_sparse_stoch"] = True
    if not sc["dense"]:
        kw["dense_expm"] = False
    net.compute_inter_transition_matrices(**kw)
    return dict(probes=[_probes(T, n, hubs) for T in net.inter_T[kw["lamda"]]])


def observe_nvi(sc):
    R = sc["copies"]
    ls = []
    for f in sc["list"]:
        cl = [set() for _ in range(max(f) + 1)]
        for i, c in enumerate(f):
            cl[c].update(range(i * R, (i + 1) * R))
        ls.append(cl)
    kw = {} if sc["samples"] == 0 else dict(num_varinf_samples=sc["samples"])
    return dict(vals=vec(compute_parallel_nvi(ls, len(sc["list"][0]) * R, nproc=sc["nproc"], verbose=False, **kw)))


def observe_repeat(sc):
    c = cluster.clustering(sc, rnd_seed=3)
    S = _full(c._S)
    kw = dict(zip(("n_meta_iter_max", "n_sub_iter_max"), sc["limits"]))
    if sc["how"] == "serial":
        loops, cl, st, seeds = run_multi_louvain(c, sc["repeat"], **kw)
        if len(loops) != len(cl):
            cl = []
    else:
        cl, st, seeds = compute_parallel_clustering(c, num_repeat=sc["repeat"], nproc=sc["nproc"], verbose=False, **kw)
    serial = []
    for s in seeds:
        if sc["cls"] == "dense":
            d = Clustering(p1=c.p1, p2=c.p2, T=c.T, S=c._S, rnd_seed=s)
        else:
            d = SparseClustering(p1=c.p1, p2=c.p2, S=c._S, rnd_seed=s)
        d.find_louvain_clustering(**kw)
        serial.append(_lists(d.partition))
    return dict(clusters=[[sorted(int(x) for x in g) for g in p] for p in cl], stabs=vec(list(st)),
                seeds=[str(s) for s in seeds], serial=serial, S=mat(S))
