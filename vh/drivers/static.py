"""Clusterings of static networks (see spec/J_Static.tla)."""
import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from flowstab.network_clustering import static_clustering

from ..enc import mat, r, unmat, unr, vec
from .cluster import _lists


def _t(sc):
    if sc["mode"] == "discrete" or sc["tint"]:
        return np.int64(sc["tn"]) if sc.get("npint") else int(sc["tn"])
    return unr(sc["t"])


def _full(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def _make(sc, seed):
    A = unmat(sc["A"])
    if sc["ints"]:
        A = A.astype(int)
    M = csr_matrix(A) if sc["form"] == "csr" else A.copy()
    kw = dict(rnd_seed=seed)
    if sc["mode"] == "discrete":
        kw["discrete_time_rw"] = True
    if sc["mode"] == "linear":
        kw["linearized"] = True
    if sc["directed"]:
        kw["directed"] = True
    if not sc["omitT"]:
        kw["t"] = _t(sc)
    c = static_clustering(M, **kw)
    return c, bool(np.array_equal(_full(M), A))


def observe_static(sc):
    c, kept = _make(sc, sc["seed"])
    hasS = hasattr(c, "_S")
    o = dict(p1=vec(c.p1), p2=vec(c.p2), T=mat(_full(c.T)), hasS=hasS, S=mat(_full(c._S)) if hasS else [],
             stab0=r(c.compute_stability()), inputKept=kept, found=True)
    c.find_louvain_clustering()
    o["part"], o["stab"] = _lists(c.partition), r(c.compute_stability())
    d, _ = _make(sc, sc["seed"])
    d.find_louvain_clustering()
    o["again"] = _lists(d.partition)
    zero = np.abs(_full(c._S)).max() < 1e-4 if hasS else True
    o["found"] = not zero
    return o


def observe_refused(sc):
    A = unmat(sc["A"])
    M = {"csc": csc_matrix, "matrix": np.matrix, "list": lambda x: x.tolist(), "csr": csr_matrix,
         "dense": lambda x: x}[sc["form"]](A)
    static_clustering(M)
    return {}
