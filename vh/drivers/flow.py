"""Flow integrals (see spec/J_Flow.tla)."""
import numpy as np
from scipy.sparse import csr_matrix

from flowstab.network_clustering import Clustering, FlowIntegralClustering, SparseClustering
from flowstab.sparse_stoch_mat import SparseStochMat

from ..enc import mat, r, unmat, unr
from .cluster import _lists, _vec
from .net import _try


def _wrap(M, form):
    if form == "dense":
        return M.copy()
    if form == "csr":
        return csr_matrix(M)
    return SparseStochMat.from_full_csr_matrix(csr_matrix(M))


def _full(m):
    return m.toarray() if hasattr(m, "toarray") else np.asarray(m)


def observe_integral(sc):
    n = sc["n"]
    Ms = [unmat(m) for m in sc["steps"]]
    given = [_wrap(M, sc["form"]) for M in Ms]
    kw = dict(reverse_time=sc["reverse"])
    if not sc["reverse"] and sc.get("omitReverse"):
        kw = {}
    kw["T_list" if sc["given"] == "cum" else "T_inter_list"] = given
    if sc["hasP1"]:
        kw["p1"] = _vec(sc["p1"])
    if sc["hasTimes"]:
        ts = [unr(t) for t in sc["times"]]
        if sc["intTimes"]:
            ts = [int(t) for t in ts]
        kw["time_list"] = ts if sc["timesAs"] == "list" else np.array(ts)
    if sc["hasGrid"]:
        g = [unr(t) for t in sc["grid"]]
        kw["integral_time_grid"] = g if sc["gridAs"] == "list" else np.array(g)
    if sc["rtol"]:
        kw["rtol"] = float(sc["rtol"])
    if sc["loud"]:
        kw["verbose"] = sc["loud"]
    before = {k: list(kw[k]) for k in ("p1", "time_list", "integral_time_grid") if k in kw}
    f = FlowIntegralClustering(**kw)
    kept = all(list(kw[k]) == v for k, v in before.items()) and len(given) == len(Ms) \
        and all(np.allclose(_full(a), b, rtol=0, atol=1e-12) for a, b in zip(given, Ms))
    I = [mat(x) for x in f.I_list]
    clus = []
    for q in sc["clusterings"]:
        if q["k"] >= len(f.I_list):
            continue

        def one(q=q):
            st = {}
            if q["start"]:
                if q["as"] == "list":
                    st["cluster_list"] = [set(x) for x in q["start"]]
                else:
                    st["node_to_cluster_dict"] = {i: c for c, x in enumerate(q["start"]) for i in x}
            k = q["k"]
            kk = {} if k == 0 and q["omitK"] else {"k": k}
            f.find_louvain_clustering(rnd_seed=q["seed"], **kk, **st)
            part = _lists(f.partition[k])
            stab = f.clustering[k].compute_stability()
            # the integral itself, clustered
            S = f.I_list[k]
            c = (Clustering(S=S, p1=f.p1, T=f.clustering[k].T, rnd_seed=q["seed"], **st) if sc["form"] == "dense"
                 else SparseClustering(S=S, p1=f.p1, rnd_seed=q["seed"], **st))
            c.find_louvain_clustering(rnd_seed=q["seed"])
            f.find_louvain_clustering(rnd_seed=q["seed"] + 1, **kk)
            return dict(part=part, stab=r(stab), again=_lists(c.partition), kept=_lists(f.partition[k]))
        o = _try(one)
        o.update(k=q["k"], start=q["start"])
        clus.append(o)
    return dict(I=I, inputsKept=bool(kept), clus=clus)
