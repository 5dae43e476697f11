"""Walks through FlowStability."""
import contextlib
import io
import pickle
import warnings

import numpy as np

from flowstab import FlowStability
from flowstab.network_clustering import FlowIntegralClustering
from flowstab.temporal_network import ContTempNetwork

NETS = {
    "A": dict(source_nodes=[0, 1, 2, 0, 3, 4, 0, 1], target_nodes=[1, 2, 3, 2, 4, 0, 1, 3],
              starting_times=[-2, -1, 0, 2, 2.5, 4, 5, 6], ending_times=[1, 1, 3, 4, 7, 6, 7.5, 8]),
    "B": dict(source_nodes=[0, 1, 2, 3, 0, 2], target_nodes=[1, 2, 3, 0, 2, 1],
              starting_times=[-2, -0.875, -0.5, 1.75, 2.5, 3.25], ending_times=[1, 0.25, 2.5, 4, 4.75, 6.25]),
}
START = {"none": None, "b1": 0, "b2": 1.5}
STOP = {"none": None, "b1": 4, "b2": 5.75}
SCALES = {"s1": 2.0, "s2": 2.00001, "s12": [0.5, 2.0], "sd": [None, 3.0]}
SEED = 11
STAGES = {}


def _net(name):
    return ContTempNetwork(**NETS[name])


def _dense(ms):
    return [np.asarray(m.toarray()) for m in ms]


def _same(a, b):
    if len(a) != len(b):
        return False
    return all(x.shape == y.shape and np.allclose(x, y, atol=1e-9, rtol=0) for x, y in zip(a, b))


_ref = {}


def _laps(net):
    return _dense(net.laplacians)


def _inter(fs, mode):
    out = []
    for ts in fs.time_scale:
        # without a time scale it is the median time between events
        lam = 1 / (np.median(np.diff(fs.temporal_network.times)) if ts is None else ts)
        if mode == "exp":
            ms = fs.temporal_network.inter_T[lam]
        else:
            ms = fs.temporal_network.inter_T_lin[lam][3 if mode == "lin3" else 10]
        out += _dense(ms)
    return out


def _clus(fs):
    """Integrals per time scale and direction, None where there is none."""
    out = []
    scales = set(fs.time_scale)
    for d in (fs.flow_clustering_forward, fs.flow_clustering_backward):
        # other time scales would be results of earlier parameters
        assert all(k in scales for k, c in d.items() if c is not None)
    for ts in fs.time_scale:
        for d, rev in ((fs.flow_clustering_forward, False), (fs.flow_clustering_backward, True)):
            c = d.get(ts)
            if c is None:
                out.append(np.zeros((0, 0)))
            else:
                assert bool(c.reversed_time) == rev
                out += [np.asarray(x) for x in c.I_list]
                out.append(np.asarray(c.time_list, dtype=float).reshape(1, -1))
    return out


def _parts(fs):
    out = []
    for ts in fs.time_scale:
        for d in (fs.flow_clustering_forward, fs.flow_clustering_backward):
            c = d.get(ts)
            if c is None:
                out.append(None)
            else:
                out.append(sorted(sorted(int(x) for x in s) for s in c.partition[0].cluster_list if s))
    return out


def _grid(name, window):
    """End times of the integration"""
    return [window[0], window[len(window) // 2], window[-1]] if name == "three" else None


def _p1(name, n):
    return np.arange(1, n + 1) / (n * (n + 1) / 2) if name == "ramp" else None


def reference(net, start, stop, scale, mode, direction, upto, fix=False, grid="", p1=""):
    """The same analysis done once, from scratch, without FlowStability."""
    key = (net, start, stop, scale, mode, direction, upto, fix, grid, p1)
    if key not in _ref:
        n = _net(net)
        n.compute_laplacian_matrices(t_start=START[start], t_stop=STOP[stop])
        if upto == 2:
            _ref[key] = _laps(n)
            return _ref[key]
        scales = SCALES[scale] if isinstance(SCALES[scale], list) else [SCALES[scale]]
        inter, integrals, parts = [], [], []
        # the event times of the window
        times = np.unique([x for f in ("starting_times", "ending_times") for x in NETS[net][f]]).astype(float)
        window = [t for t in times if (START[start] is None or t >= START[start]) and (STOP[stop] is None or t <= STOP[stop])]
        if START[start] is not None and START[start] not in times:
            window = [t for t in times if t < START[start]][-1:] + window
        assert len(window) == len(n.laplacians) + 1
        for ts in scales:
            lam = 1 / (np.median(np.diff(times)) if ts is None else ts)
            if mode == "exp":
                n.compute_inter_transition_matrices(lamda=lam, fix_tau_k=fix)
                ms = n.inter_T[lam]
            else:
                t_s = 3 if mode == "lin3" else 10
                n.compute_lin_inter_transition_matrices(lamda=lam, t_s=t_s, fix_tau_k=fix)
                ms = n.inter_T_lin[lam][t_s]
            ms = _dense(ms)
            inter += ms
            for rev in (False, True) if upto > 3 else ():
                if direction == (1 if rev else -1):
                    integrals.append(np.zeros((0, 0)))
                    parts.append(None)
                    continue
                c = FlowIntegralClustering(T_inter_list=ms, time_list=window, reverse_time=rev,
                                           integral_time_grid=_grid(grid, window), p1=_p1(p1, n.num_nodes))
                integrals += [np.asarray(x) for x in c.I_list]
                integrals.append(np.asarray(c.time_list, dtype=float).reshape(1, -1))
                if upto > 4:
                    c.find_louvain_clustering(rnd_seed=SEED)
                    parts.append(sorted(sorted(int(x) for x in q) for q in c.partition[0].cluster_list if q))
        _ref[key] = inter if upto == 3 else integrals if upto == 4 else parts
    return _ref[key]


def _other(reverse):
    if "other" not in _ref:
        _ref["other"] = FlowIntegralClustering(T_inter_list=[np.eye(2), np.eye(2)], time_list=[0.0, 1.0, 2.0],
                                               reverse_time=reverse)
    return _ref["other"]


def _helps(fs, missing, nxt):
    """The help text names what is missing and the next step."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fs.help()
    text = out.getvalue()
    ok = all(m in text for m in missing) and str(nxt) in text
    for subject in list(missing)[:1] + [nxt]:
        # details about a parameter or step
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            fs.help(subject)
        text = " ".join(out.getvalue().split())
        x = getattr(type(fs), subject)
        docs = [x.__doc__] + ([x.fset.__doc__] if isinstance(x, property) else [])
        ok = ok and subject in text and all(" ".join(d.split()) in text for d in docs if d)
    return ok


def observe_walk(sc):
    fs = FlowStability()
    nets = {}
    cur = {"net": "none", "mode": "exp", "fix": False, "grid": "", "p1": ""}
    steps = []
    for o in sc["ops"]:
        outcome = "ran"
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            try:
                op, v = o["op"], o.get("v")
                ret = None
                if op == "net":
                    if v == "none":
                        fs.temporal_network = None
                    else:
                        nets.setdefault(v, _net(v))
                        fs.temporal_network = nets[v]
                elif op == "netbad":
                    fs.temporal_network = "not a network"
                elif op == "start":
                    fs.t_start = START[v]
                elif op == "stop":
                    fs.t_stop = STOP[v]
                elif op == "scale":
                    if v == "none":
                        fs.set_time_scale()
                    elif v == "s2":
                        fs.set_time_scale(SCALES[v])
                    elif v == "s12" and len(steps) % 2:
                        fs.set_time_scale(start=-1, stop=1, num=2, base=2)
                    elif v == "s12":
                        fs.time_scale = iter(SCALES[v])
                    else:
                        fs.time_scale = SCALES[v]
                elif op == "dir":
                    fs.time_direction = None if v == "none" else o["d"]
                elif op == "reject":
                    if v == "scale<0":
                        fs.time_scale = [[1.0, -2.0], [-2.0, 1.0], [3.0, 0.0], -1, 0, [0, 2.0], -0.5][len(steps) % 7]
                    elif v == "scale str":
                        fs.time_scale = ["fast", "", object()][len(steps) % 3]
                    elif v == "scale list":
                        fs.time_scale = [3.0, "fast"]
                    elif v == "clus":
                        # a clustering of the other direction
                        fs.flow_clustering_forward = (2.0, _other(True))
                    else:
                        fs.time_direction = 2
                elif op == "load":
                    if v == "none":
                        fs.set_temporal_network()
                    else:
                        fs.set_temporal_network(**NETS[v])
                elif op == "lap":
                    ret = fs.compute_laplacian_matrices()
                    outcome = "ran" if ret is fs else "refused"
                elif op == "inter":
                    kw = dict(lamda=None) if len(steps) % 3 == 0 else {}
                    if v != "keep":
                        kw = dict(time_scale=SCALES[v])
                        if v == "s1" and len(steps) % 2:
                            kw = dict(lamda=1 / SCALES[v])
                    if o["m"] == "lin3":
                        kw["t_s"] = 3
                    if o["m"] != "exp" or len(steps) % 2:
                        kw["linear_approx"] = o["m"] != "exp"
                    if "fix" in o:
                        kw["fix_tau_k"] = o["fix"]
                    if "sparse" in o:
                        kw["use_sparse_stoch"] = o["sparse"]
                    if "dense" in o and o["m"] == "exp":
                        kw["dense_expm"] = o["dense"]
                    ret = fs.compute_inter_transition_matrices(**kw)
                    outcome = "ran" if ret is fs else "refused"
                    if ret is fs:
                        cur["mode"] = o["m"]
                        cur["fix"] = o.get("fix", False)
                elif op == "clus":
                    kw, how = {}, dict(grid="", p1="")
                    net = fs.temporal_network
                    if net is not None and hasattr(net, "_k_start_laplacians"):
                        if "grid" in o:
                            kw["integral_time_grid"] = _grid("three", net.times[net._k_start_laplacians:
                                                                                net._k_stop_laplacians + 1])
                            how["grid"] = "three"
                        if "p1" in o:
                            kw["p1"] = _p1("ramp", net.num_nodes)
                            how["p1"] = "ramp"
                    ret = fs.set_flow_clustering(**kw)
                    outcome = "ran" if ret is fs else "refused"
                    if ret is fs:
                        cur.update(how)
                elif op == "louvain":
                    ret = fs.find_louvain_clustering(rnd_seed=SEED)
                    outcome = "ran" if ret is fs else "refused"
                elif op == "give":
                    d = fs.flow_clustering_forward if v == "forward" else fs.flow_clustering_backward
                    ts, c = next(iter(d.items()), (None, None))
                    if c is None:
                        # (the step that computes them has not run in this direction)
                        ts, c = next(iter(fs.time_scale)), None
                    if v == "forward":
                        fs.flow_clustering_forward = (ts, c)
                    else:
                        fs.flow_clustering_backward = (ts, c)
                elif op == "new":
                    kw = {}
                    if o["n"] != "none":
                        nets[o["n"]] = _net(o["n"])
                        kw["temporal_network"] = nets[o["n"]]
                    if o["b"] != "none":
                        kw["t_start"], kw["t_stop"] = START[o["b"]], STOP[o["b"]]
                    if o["s"] != "none":
                        kw["time_scale"] = SCALES[o["s"]]
                    if v != "none":
                        kw["time_direction"] = o["d"]
                    fs = FlowStability(**kw)
                elif op == "other":
                    # another analysis of other data
                    other = FlowStability()
                    other.set_temporal_network(**NETS["B" if cur["net"] == "A" else "A"])
                    other.t_start, other.t_stop = START["b2"], STOP["b1"]
                    other.time_scale = 0.75
                    other.compute_laplacian_matrices()
                    other.compute_inter_transition_matrices(linear_approx=len(steps) % 3 == 0)
                    other.time_direction = 1
                    other.set_flow_clustering()
                    other.find_louvain_clustering(rnd_seed=SEED)
                    other.temporal_network = None
                elif op == "pickle":
                    fs = pickle.loads(pickle.dumps(fs))
                    nets = {}
            except Exception as e:      # noqa: BLE001
                outcome = "raised"
                exc = e
        if outcome == "refused" and not wl:
            outcome = "refused silently"
        stage = int(fs.state.current.value)
        missing, nxt = fs.state.next
        net = _net_name(fs)
        scale = _scale_name(fs)
        start = _name(START, fs.t_start)
        stop = _name(STOP, fs.t_stop)
        d = int(fs.time_direction)
        b = dict(outcome=outcome, stage=stage, missing=list(missing), nextstep=str(nxt), net=net,
                 start=start, stop=stop, scale=scale, dir=d,
                 helped=_helps(fs, missing, nxt), lapFresh=False, interFresh=False, clusFresh=False, resFresh=False)
        if outcome == "raised":
            b["exc"] = f"{type(exc).__name__}: {exc}"[:200]
        ok = net in NETS and start in START and stop in STOP
        if stage >= 2 and ok:
            try:
                b["lapFresh"] = _same(_laps(fs.temporal_network), reference(net, start, stop, 0, 0, 0, 2))
                if stage >= 3 and scale in SCALES:
                    b["interFresh"] = _same(_inter(fs, cur["mode"]),
                                            reference(net, start, stop, scale, cur["mode"], 0, 3, cur["fix"]))
                    if stage >= 4:
                        b["clusFresh"] = _same(_clus(fs), reference(net, start, stop, scale, cur["mode"], d, 4,
                                                                     cur["fix"], cur["grid"], cur["p1"]))
                        if stage >= 5:
                            b["resFresh"] = _parts(fs) == reference(net, start, stop, scale, cur["mode"], d, 5,
                                                                     cur["fix"], cur["grid"], cur["p1"])
            except Exception as e:      # noqa: BLE001  (a missing product is not fresh)
                b["exc"] = f"{type(e).__name__}: {e}"[:200]
        steps.append({"o": o, "b": b})
    return {"steps": steps}


def _name(table, value):
    for k, v in table.items():
        if v is value or (v is not None and value is not None and float(v) == float(value)):
            return k
    return "?"


def _net_name(fs):
    n = fs.temporal_network
    if n is None:
        return "none"
    for k, v in NETS.items():
        if len(v["source_nodes"]) == n.num_events and n.num_nodes == len(set(v["source_nodes"] + v["target_nodes"])):
            return k
    return "?"


def _scale_name(fs):
    vals = list(fs.time_scale)
    rates = list(fs.lamda)
    if [None if x is None else round(1 / x, 9) for x in rates] != [None if x is None else round(x, 9) for x in vals]:
        return "other rates"
    if vals == [None]:
        return "none"
    for k, v in SCALES.items():
        if vals == (v if isinstance(v, list) else [v]):
            return k
    return "?"
