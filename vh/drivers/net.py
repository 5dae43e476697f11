"""Temporal networks built from event histories (see spec/J_TempNet.tla)."""
import os
import tempfile

import numpy as np
import pandas as pd

from scipy.sparse import csr_matrix

from flowstab import temporal_network as tn
from flowstab.temporal_network import ContTempInstNetwork, ContTempNetwork

from ..enc import ints, mat, r, unr, vec


def label(sc, i):
    kind = sc.get("labelkind", "int")
    if kind == "str":
        return f"n{i:06d}"
    if kind == "np":
        return np.int64(i)
    if kind == "float":
        return i + 0.5
    return i


def unlabel(sc, x):
    kind = sc.get("labelkind", "int")
    if kind == "str":
        return int(x[1:])
    if kind == "float":
        return int(float(x) - 0.5)
    return int(x)


def tick(sc, t):
    x = unr(sc["off"]) + t * unr(sc["unit"])
    return int(x) if sc.get("inttimes") else x


def bound(sc, w, which):
    """A bound of a window; between two event times it can be as close to one
    of them as numbers go."""
    t, near = w[which], w.get("near", "")
    if near == "" or t % 2 == 0 or sc["inst"]:
        return tick(sc, t)
    if near == "below":
        return float(np.nextafter(float(tick(sc, t + 1)), -np.inf))
    return float(np.nextafter(float(tick(sc, t - 1)), np.inf))


def columns(sc):
    ev = sc["ev"]
    return ([label(sc, e[0]) for e in ev], [label(sc, e[1]) for e in ev],
            [tick(sc, e[2]) for e in ev], [tick(sc, e[3]) for e in ev])


def inst_ends(sc):
    st = [e[2] for e in sc["ev"]]
    us = sorted(set(st))
    nxt = {a: b for a, b in zip(us, us[1:])}
    return [tick(sc, nxt[s]) if s in nxt else tick(sc, s + sc["one"]) for s in st]


def build(sc, info=None):
    s, t, a, b = columns(sc)
    uid = list(range(1, len(s) + 1))
    inst = sc["inst"]
    form = sc["form"]
    kw = dict(relabel_nodes=sc["relabel"])
    if not sc["relabel"] and sc.get("givelabels", True):
        kw["node_to_label_dict"] = {i: i for i in set(s) | set(t)}
    index = sc.get("index", "range")
    if form == "lists":
        if index == "other":
            kw["reset_event_table_index"] = False
        keep = (list(s), list(t), list(a), list(b), list(uid))
        if inst:
            net = ContTempInstNetwork(source_nodes=s, target_nodes=t, starting_times=a, **kw)
        else:
            if sc["hasUid"]:
                kw["extra_attrs"] = {"uid": uid}
            if sc.get("indexAttr"):
                kw.setdefault("extra_attrs", {})["index"] = [7 * x % 5 for x in uid]
            net = ContTempNetwork(source_nodes=s, target_nodes=t, starting_times=a, ending_times=b,
                                  merge_overlapping_events=sc["merge"], **kw)
        kept = keep == (s, t, a, b, uid)
    else:
        data = dict(source_nodes=s, target_nodes=t, starting_times=a,
                    ending_times=inst_ends(sc) if inst else b)
        if sc["hasUid"]:
            data["uid"] = uid
        if sc.get("indexAttr"):
            data["index"] = [7 * x % 5 for x in uid]
        df = pd.DataFrame(data)
        n = len(uid)
        if index == "other":
            df.index = [3 * (n - x) + 1 for x in range(n)]
        elif index == "double":     # as of tables that were put together
            df.index = [x % ((n + 1) // 2) for x in range(n)]
        elif index == "named":
            df.index = pd.Index([x + 2 for x in range(n)], name="event")
        elif index == "text":
            df.index = [f"e{x:03}" for x in range(n)]
        before = df.copy()
        if not inst:
            kw["merge_overlapping_events"] = sc["merge"]
        if form == "table":
            net = (ContTempInstNetwork if inst else ContTempNetwork)(events_table=df, **kw)
        else:
            fd, path = tempfile.mkstemp(suffix=".csv", dir=os.environ["VH_SCRATCH"])
            os.close(fd)
            df.to_csv(path, index=False, sep=sc.get("sep", ","))
            if sc.get("sep", ",") != ",":
                kw["sep"] = sc["sep"]
            net = ContTempNetwork(events_table=path, **kw)
            os.unlink(path)
        kept = df.equals(before) and list(df.columns) == list(before.columns)
    if info is not None:
        info["inputKept"] = bool(kept)
    return net


def observe_construct(sc):
    info = {}
    net = build(sc, info)
    tb = net.events_table
    rows = []
    for k in range(tb.shape[0]):
        row = tb.iloc[k]
        rows.append([int(row["source_nodes"]), int(row["target_nodes"]), r(row["starting_times"]),
                     r(row["ending_times"]), r(row["durations"]),
                     int(row["uid"]) if "uid" in tb.columns else 0])
    d = net.node_to_label_dict
    labels = [unlabel(sc, d[k]) for k in sorted(d)] if d else []
    if d and sorted(int(k) for k in d) != list(range(len(d))):
        labels = [-1]
    return dict(table=rows, numNodes=int(net.num_nodes), nodeArray=ints(net.node_array),
                numEvents=int(net.num_events), startTime=r(net.start_time), endTime=r(net.end_time),
                labels=labels, inputKept=info["inputKept"])


def observe_refused(sc):
    """Inputs that are no histories of events."""
    how, k, ev = sc["how"], sc["k"], sc["ev"]
    names = ["source_nodes", "target_nodes", "starting_times", "ending_times"]
    cols = {c: [e[i] for e in ev] for i, c in enumerate(names)}
    path = os.path.join(os.environ["VH_SCRATCH"], f"none-{os.getpid()}.csv")

    def one():
        if how == "lists":
            cols[names[k]].pop()
            net = ContTempNetwork(**cols)
        elif how == "instantaneous":
            del cols["ending_times"]
            cols[names[k % 3]].pop()
            net = ContTempInstNetwork(**cols)
        elif how == "attribute":
            net = ContTempNetwork(extra_attrs={"x": list(range(len(ev) + 1 + k))}, **cols)
        elif how == "missing":
            net = ContTempNetwork(events_table=path)
        elif how == "empty":
            open(path, "w").close()
            try:
                net = ContTempNetwork(events_table=path)
            finally:
                os.unlink(path)
        elif how == "column":
            del cols[names[k]]
            net = ContTempNetwork(events_table=pd.DataFrame(cols))
        else:
            net = ContTempNetwork(events_table=[ev, cols, 3, ev[0]][k])
        return dict(events=int(net.num_events))
    o = _try(one)
    return dict(refused=o["raised"] != "")


def _bounds(sc, w):
    kw = {}
    if w["hasStart"]:
        kw["t_start"] = bound(sc, w, "start")
    if w["hasStop"]:
        kw["t_stop"] = bound(sc, w, "stop")
    return kw


def _try(f):
    try:
        o = f()
        o.setdefault("raised", "")
        return o
    except Exception as e:      # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        return {"raised": type(e).__name__, "why": str(e)[:200] + " @ " + " < ".join(
            f"{os.path.basename(x.filename)}:{x.name}:{x.lineno}" for x in tb[::-1][:4])}


def observe_lap(sc):
    net = build(sc)
    obs = []
    for w in sc["windows"]:
        def one(w=w):
            kw = dict(save_adjacencies=True) if w["adj"] else {}
            net.compute_laplacian_matrices(**kw, **_bounds(sc, w))
            return dict(times=vec(net.times), laps=[mat(m) for m in net.laplacians],
                        adjs=[mat(m) for m in net.adjacencies] if w["adj"] else [])
        obs.append(_try(one))
    return dict(obs=obs)


def observe_static(sc):
    net = build(sc)
    obs = []
    for w in sc["windows"]:
        def one(w=w):
            kw = {}
            if w["hasStart"]:
                kw["start_time"] = tick(sc, w["start"])
            if w["hasStop"]:
                kw["end_time"] = tick(sc, w["stop"])
            return dict(adj=mat(net.compute_static_adjacency_matrix(**kw)))
        obs.append(_try(one))
    return dict(obs=obs)


def _mats(ms):
    return [mat(m) for m in ms]


def _inter_call(net, sc, c):
    kw = {}
    if not c["defaultLamda"]:
        kw["lamda"] = unr(c["lamda"])
    if c["fixTau"] and not sc["inst"]:
        kw["fix_tau_k"] = True
    if c["sparse"]:
        kw["use_sparse_stoch"] = True
    if c["lin"]:
        ts = unr(c["ts"])
        ts = int(ts) if ts == int(ts) else ts
        if not (ts == 10 and (c["defaultLamda"] or c.get("dflt"))):
            kw["t_s"] = ts
        before = set(getattr(net, "inter_T_lin", {}) or {})
        net.compute_lin_inter_transition_matrices(**kw)
        d = net.inter_T_lin
    else:
        if not c["denseExpm"]:
            kw["dense_expm"] = False
        before = set(getattr(net, "inter_T", {}) or {})
        net.compute_inter_transition_matrices(**kw)
        d = net.inter_T
    if c["defaultLamda"]:
        new = [k for k in d if k not in before]
        lam = new[0] if new else 1 / np.median(np.diff(net.times))
    else:
        lam = kw["lamda"]
    ms = d[lam]
    if c["lin"]:
        ms = ms[ts]
    return lam, ms


def observe_inter(sc):
    """calls: on one network, every call names the window (Laplacians are
    recomputed when it changes or when the call says so)."""
    net = build(sc)
    obs = []
    cur = None
    for c in sc["calls"]:
        def one(c=c):
            nonlocal cur
            if cur != c["w"] or c.get("again"):
                net.compute_laplacian_matrices(**_bounds(sc, sc["windows"][c["w"] - 1]))
                cur = c["w"]
            lam, ms = _inter_call(net, sc, c)
            return dict(lamda=r(lam), mats=_mats(ms))
        obs.append(_try(one))
    return dict(obs=obs)


def observe_cumul(sc):
    net = build(sc)
    obs = []
    cur = None
    for c in sc["calls"]:
        def one(c=c):
            nonlocal cur
            if cur != c["w"]:
                net.compute_laplacian_matrices(**_bounds(sc, sc["windows"][c["w"] - 1]))
                cur = c["w"]
            lam, ms = _inter_call(net, sc, c)
            inter = _mats(ms)
            # what is not asked for differently is sometimes left to the defaults
            kw = dict(lamda=lam)
            if c["reverse"] or not c["dflt"]:
                kw["reverse_time"] = c["reverse"]
            if not c["keep"] or not c["dflt"]:
                kw["save_intermediate"] = c["keep"]
            if c["lin"]:
                ts = unr(c["ts"])
                ts = int(ts) if ts == int(ts) else ts
                if ts != 10 or not c["dflt"]:
                    kw["t_s"] = ts
                net.compute_lin_transition_matrices(**kw)
                res = net.T_lin[lam][ts]
                after = net.inter_T_lin[lam][ts]
            else:
                if c["csr"]:
                    kw["force_csr"] = True
                if c["hasTol"]:
                    kw["tol"] = unr(c["tol"])
                net.compute_transition_matrices(**kw)
                res = net.T[lam]
                after = net.inter_T[lam]
            return dict(inter=inter, mats=_mats(res if c["keep"] else [res]), interAfter=_mats(after))
        obs.append(_try(one))
    return dict(obs=obs)


def observe_walk(sc):
    """The functions behind the linear approximation, on one graph of contacts."""
    n = sc["n"]
    W = np.zeros((n, n))
    for a, b in sc["edges"]:
        W[a, b] = W[b, a] = 1.0
    for i in range(n):
        if W[i].sum() == 0:
            W[i, i] = 1.0
    W = W / W.sum(1, keepdims=True)
    obs = []
    for c in sc["calls"]:
        def one(c=c):
            T = csr_matrix(W)
            if c["zeros"]:      # entries that are stored but zero
                k = csr_matrix(np.ones((n, n)))
                k.data[:] = W[k.nonzero()]
                T = k
            kw = {}
            x, ts = unr(c["x"]), unr(c["ts"])
            if ts != 10:
                kw["t_s"] = ts
            if c["pi"] == "full":
                kw["Pi"] = tn.compute_stationary_transition(csr_matrix(W))
            elif c["pi"] == "compact":
                kw["Pi"] = tn.sparse_stationary_trans(csr_matrix(W))
            if c["fct"] == "stationary":
                res = tn.compute_stationary_transition(
                    T.toarray() if c["form"] == "array" else T.tocsc() if c["form"] == "csc" else T)
            elif c["fct"] == "compact_stationary":
                res = tn.sparse_stationary_trans(T)
            elif c["fct"] == "gap":
                L = csr_matrix(np.eye(n) - W)
                g = float(np.ravel(tn.find_spectral_gap(L if c["form"] == "csr" else L.tocsc()))[0])
                return dict(T=mat(np.array([[g]])), kept=bool(np.array_equal(L.toarray(), np.eye(n) - W)))
            elif c["fct"] == "linear":
                res = tn.lin_approx_trans_matrix(T, x, **kw)
            else:
                if c["given"]:
                    kw["nz_rowcols"] = np.array(sorted({i for e in sc["edges"] for i in e}), dtype=np.int32)
                res = tn.sparse_lin_approx(T, x, **kw)
            return dict(T=mat(res), kept=bool(np.array_equal(T.toarray(), W)))
        obs.append(_try(one))
    return dict(obs=obs)
