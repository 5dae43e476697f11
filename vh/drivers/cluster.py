"""Autocovariances, partitions and Louvain optimisation (see spec/J_Cluster.tla)."""
from array import array

import numpy as np
from scipy.sparse import csr_matrix

from flowstab.network_clustering import BaseClustering, Clustering, Partition, SparseClustering
from flowstab.sparse_stoch_mat import SparseAutocovMat

from ..enc import ints, mat, r, unmat, unr
from .net import _try


def _vec(v):
    return np.array([unr(x) for x in v])


def _inputs(sc):
    M = unmat(sc["M"])
    p1 = _vec(sc["p1"]) if sc["hasP1"] else None
    p2 = _vec(sc["p2"]) if sc["hasP2"] else None
    return M, p1, p2


def autocov(sc):
    M, p1, p2 = _inputs(sc)
    n = sc["n"]
    sym = bool(sc.get("sym"))
    if sc["form"] == "PT":
        return SparseAutocovMat(csr_matrix(M), p1, p2, PT_symmetric=sym)
    if sc["form"] == "PTs":
        return SparseAutocovMat(csr_matrix(M), 1 / n, 1 / n, PT_symmetric=sym)
    kw = {}
    if p1 is not None:
        kw["p1"] = p1
    if p2 is not None:
        kw["p2"] = p2
    if sc["form"] == "T":
        return SparseAutocovMat.from_T(csr_matrix(M), **kw)
    return SparseAutocovMat.from_T_forward(csr_matrix(M), **kw)


def observe_autocov(sc):
    A = autocov(sc)
    obs = []
    for q in sc["queries"]:
        def one(q=q):
            nonlocal A
            k = q["q"]
            if k == "sub":
                return dict(val=r(A.get_submat_sum(array("i", q["rows"]), array("i", q["cols"]))))
            if k == "elem":
                return dict(val=r(A.get_element(q["i"], q["j"])))
            if k == "row":
                return dict(val=r(A.get_row_idx_sum(q["i"], q["cols"])))
            if k == "col":
                return dict(val=r(A.get_col_idx_sum(q["i"], q["rows"])))
            if k == "to":
                return dict(val=r(A._compute_delta_S_moveto(q["i"], array("i", q["rows"]))))
            if k == "out":
                return dict(val=r(A._compute_delta_S_moveout(q["i"], array("i", q["rows"]))))
            if k == "full":
                return dict(mat=mat(A.toarray()))
            if k == "copy":
                B = A.copy()
                B.PT.data[:] = 7
                A = A.copy()
                return dict(mat=mat(A.toarray()))
            if k == "agg":
                A = A.aggregate(q["groups"])
                return dict(mat=mat(A.toarray()))
            return dict(flag=bool(A.is_all_zeros()))
        obs.append(_try(one))
    return dict(obs=obs)


def clustering(sc, **kw):
    """The clustering object that the scenario describes."""
    M, p1, p2 = _inputs(sc)
    if sc["cls"] == "dense":
        if sc["hasThr"]:
            kw["S_threshold"] = unr(sc["thr"])
        if sc["form"] == "T":
            return Clustering(T=M, p1=p1, p2=p2, **kw)
        S = M if sc["form"] == "S" else autocov(sc).toarray()
        if "T" in sc:
            kw["T"] = unmat(sc["T"])
        return Clustering(S=S, p1=p1, **kw)
    if sc["form"] == "T":
        return SparseClustering(T=csr_matrix(M), p1=p1, p2=p2, **kw)
    return SparseClustering(S=autocov(sc), **kw)


def _start(sc):
    st = sc["start"]
    if sc["startAs"] == "none":
        return {}
    if sc["startAs"] == "dict":
        return dict(node_to_cluster_dict={i: c for i, c in enumerate(st)})
    return dict(cluster_list=[{i for i, c in enumerate(st) if c == x} for x in range(max(st) + 1)])


def observe_moves(sc):
    c = clustering(sc, rnd_seed=1, **_start(sc))
    obs = []
    part = c.partition
    for mv in sc["moves"]:
        def one(mv=mv):
            i, cf = mv["i"], mv["c"]
            ci = part.node_to_cluster_dict[i]
            o = dict(before=r(c.compute_stability()), hasGain=False)
            if ci != cf and hasattr(c, "_compute_delta_stab_moveto") and hasattr(c, "_compute_delta_stab_moveout"):
                o["gain"] = r(c._compute_delta_stab_moveout(i, ci) + c._compute_delta_stab_moveto(i, cf))
                o["hasGain"] = True
            part.move_node(i, cf)
            o["after"] = r(c.compute_stability())
            return o
        obs.append(_try(one))

    def final():
        part.remove_empty_clusters()
        o = dict(stab=r(c.compute_stability()), hasAgg=False)
        if hasattr(c, "_aggregate_clusters") and sc["cls"] == "dense":
            o["agg"], o["hasAgg"] = mat(c._aggregate_clusters()[3]), True
        return o
    return dict(obs=obs, final=_try(final))


def observe_bi(sc):
    M, p1, p2 = _inputs(sc)

    def cl(st):
        return [{i for i, c in enumerate(st) if c == x} for x in range(max(st) + 1)]
    b = BaseClustering(T=M, p1=p1, p2=p2, source_cluster_list=cl(sc["start"]), target_cluster_list=cl(sc["tstart"]),
                       **({"S_threshold": unr(sc["thr"])} if sc["hasThr"] else {}))
    o = dict(hasR=False, hasOut=False, hasTo=False, hasFlow=False)
    if hasattr(b, "_compute_clustered_autocov"):
        R = b._compute_clustered_autocov()
        o.update(hasR=True, R=mat(R))
        if hasattr(b, "_find_optimal_flow"):
            o.update(hasFlow=True, flow=r(b._find_optimal_flow(R)[0]))
    k = sc["k"]
    ci = (sc["start"][k], sc["tstart"][k])
    if hasattr(b, "_compute_new_R_moveout"):
        Rout = b._compute_new_R_moveout(k, ci)
        o.update(hasOut=True, Rout=mat(Rout))
        if hasattr(b, "_compute_new_R_moveto"):
            o.update(hasTo=True, Rto=mat(b._compute_new_R_moveto(k, ci, (sc["cs"], sc["ct"]), Rout)))
    return o


# ---- partitions ----
def _part(p, n):
    ok = True
    try:
        p.check_integrity()
    except Exception:       # noqa: BLE001
        ok = False
    d = p.node_to_cluster_dict
    return dict(clusters=[sorted(int(x) for x in c) for c in p.cluster_list],
                dict=[int(d[i]) for i in range(n)] if len(d) == n else [-1] * n,
                num=int(p.get_num_clusters()), numUsed=int(p.get_num_clusters(non_empty=True)),
                ind=[ints(x) for x in p.get_indicator(sparse=False)],
                indSparse=[ints(x) for x in p.get_indicator().toarray()],
                iter=[ints(x) for x in p.iter_cluster_node_index()], integral=ok)


def observe_part(sc):
    n = sc["n"]
    how = sc["how"]
    st = sc["start"]
    m = max(st) + 1
    if how == "default":
        p = Partition(n)
    elif how == "dict":
        p = Partition(n, node_to_cluster_dict={i: st[i] for i in sc["order"]})
    elif how == "gapdict":      # cluster numbers that are not used
        p = Partition(n, node_to_cluster_dict={i: sc["gaps"][st[i]] for i in sc["order"]})
    else:
        cl = [{i for i in range(n) if st[i] == c} for c in range(m)]
        for pos in sorted(sc.get("empties", []), reverse=True):
            cl.insert(min(pos, len(cl)), set())
        p = Partition(n, cluster_list=cl, check_integrity=bool(sc.get("check")))
    obs = [_try(lambda: _part(p, n))]
    for o in sc["ops"]:
        def one(o=o):
            if o["op"] == "move":
                p.move_node(o["i"], o["c"])
            else:
                p.remove_empty_clusters()
            return _part(p, n)
        obs.append(_try(one))
    return dict(obs=obs)


def _raises(f):
    try:
        f()
        return ""
    except Exception as e:      # noqa: BLE001
        return type(e).__name__


def observe_integrity(sc):
    n = sc["n"]
    mk = lambda: [set(x) for x in sc["lists"]]      # noqa: E731
    return dict(ctor=_raises(lambda: Partition(n, cluster_list=mk(), check_integrity=True)),
                later=_raises(lambda: Partition(n, cluster_list=mk()).check_integrity()),
                both=_raises(lambda: Partition(n, cluster_list=mk(), node_to_cluster_dict={i: 0 for i in range(n)})))


# ---- Louvain ----
def _lists(p):
    return [sorted(int(x) for x in c) for c in p.cluster_list]


def observe_louvain(sc):
    n = sc["n"]
    runs = []
    first = None
    kept = True
    for k in range(2):
        st = _start(sc)
        kw = dict(st)
        if k == 0 and sc["seedAt"] == "init":
            kw["rnd_seed"] = sc["seed"]
        elif sc["seedAt"] == "init":
            kw["rnd_state"] = np.random.RandomState(sc["seed"])
        c = clustering(sc, **kw)
        S0 = c._S.toarray().copy() if hasattr(c._S, "toarray") else c._S.copy()
        T0 = c.T.toarray().copy() if hasattr(c.T, "toarray") else c.T.copy()
        fkw = {} if sc["seedAt"] == "init" else dict(rnd_seed=sc["seed"])
        if k == 0:
            fkw["save_progress"] = True
        c.find_louvain_clustering(**fkw)
        runs.append(_lists(c.partition))
        S1 = c._S.toarray() if hasattr(c._S, "toarray") else c._S
        T1 = c.T.toarray() if hasattr(c.T, "toarray") else c.T
        kept = kept and np.array_equal(S0, S1) and np.array_equal(T0, T1)
        if "cluster_list" in st:
            kept = kept and st == _start(sc)
        if k == 0:
            first = c
    d = first.partition.node_to_cluster_dict
    okd = len(d) == n and all(i in first.partition.cluster_list[d[i]] for i in range(n))
    link = first.T.toarray() if hasattr(first.T, "toarray") else first.T
    return dict(parts=runs, stab=r(first.compute_stability()), dictOk=bool(okd), inputsKept=bool(kept),
                link=mat(link), prog=[_lists(p) for p in first.partition_progress],
                progStab=[r(x) for x in first.stability_progress])
